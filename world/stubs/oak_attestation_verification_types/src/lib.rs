#![allow(unused_variables, dead_code)]
pub mod policy { pub trait Policy<T: ?Sized>: Send + Sync {} pub trait EventPolicy: Send + Sync {} }
pub mod verifier {
    use oak_proto_rust::oak::attestation::v1::{Endorsements, Evidence};
    pub struct AttestationResults {}
    pub trait AttestationVerifier: Send + Sync {
        fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<AttestationResults>;
    }
}
