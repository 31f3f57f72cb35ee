#![allow(unused_variables, dead_code)]
use oak_attestation_verification_types::{policy::EventPolicy, verifier::{AttestationResults, AttestationVerifier}};
use oak_proto_rust::oak::attestation::v1::*;
use oak_time::Clock;
use std::sync::Arc;
macro_rules! policy { ($n:ident, $t:ty) => {
    pub struct $n { v: $t }
    impl $n { pub fn new(v: &$t) -> Self { $n { v: v.clone() } } }
    impl EventPolicy for $n {}
} }
policy!(KernelPolicy, KernelLayerReferenceValues);
policy!(SystemPolicy, SystemLayerReferenceValues);
policy!(ContainerPolicy, ContainerLayerReferenceValues);
policy!(ApplicationPolicy, ApplicationLayerReferenceValues);
policy!(FirmwarePolicy, BinaryReferenceValue);
pub struct AmdSevSnpPolicy { v: AmdSevReferenceValues }
impl AmdSevSnpPolicy { pub fn new(v: &AmdSevReferenceValues) -> Self { Self { v: v.clone() } } }
pub struct InsecureAttestationVerifier { clock: Arc<dyn Clock>, p: Vec<Box<dyn EventPolicy>> }
impl InsecureAttestationVerifier { pub fn new(clock: Arc<dyn Clock>, p: Vec<Box<dyn EventPolicy>>) -> Self { Self { clock, p } } }
impl AttestationVerifier for InsecureAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<AttestationResults> { unimplemented!() }
}
pub struct AmdSevSnpDiceAttestationVerifier { a: AmdSevSnpPolicy, f: Box<dyn EventPolicy>, p: Vec<Box<dyn EventPolicy>>, clock: Arc<dyn Clock> }
impl AmdSevSnpDiceAttestationVerifier { pub fn new(a: AmdSevSnpPolicy, f: Box<dyn EventPolicy>, p: Vec<Box<dyn EventPolicy>>, clock: Arc<dyn Clock>) -> Self { Self { a, f, p, clock } } }
impl AttestationVerifier for AmdSevSnpDiceAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<AttestationResults> { unimplemented!() }
}
