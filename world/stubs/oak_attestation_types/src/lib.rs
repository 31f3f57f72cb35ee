#![allow(unused_variables, dead_code)]
pub mod attester {
    use oak_proto_rust::oak::attestation::v1::Evidence;
    pub trait Attester: Send + Sync {
        fn extend(&mut self, encoded_event: &[u8]) -> anyhow::Result<()>;
        fn quote(&self) -> anyhow::Result<Evidence>;
    }
}
pub mod endorser {
    use oak_proto_rust::oak::attestation::v1::{Endorsements, Evidence};
    pub trait Endorser: Send + Sync {
        fn endorse(&self, evidence: Option<&Evidence>) -> anyhow::Result<Endorsements>;
    }
}
