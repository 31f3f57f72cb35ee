#![allow(unused_variables, dead_code)]
use oak_attestation_verification_types::verifier::{AttestationResults, AttestationVerifier};
use oak_proto_rust::oak::attestation::v1::*;
use oak_time::Clock;
use std::sync::Arc;
pub struct DiceAttestationVerifier { r: ReferenceValues, clock: Arc<dyn Clock> }
impl DiceAttestationVerifier { pub fn create(r: ReferenceValues, clock: Arc<dyn Clock>) -> Self { Self { r, clock } } }
impl AttestationVerifier for DiceAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<AttestationResults> { unimplemented!() }
}
