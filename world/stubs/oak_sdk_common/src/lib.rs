#![allow(unused_variables, dead_code)]
use oak_attestation_types::attester::Attester;
use oak_proto_rust::oak::attestation::v1::Evidence;
pub struct StaticAttester { e: Evidence }
impl StaticAttester { pub fn new(e: Evidence) -> Self { Self { e } } }
impl Attester for StaticAttester {
    fn extend(&mut self, encoded_event: &[u8]) -> anyhow::Result<()> { unimplemented!() }
    fn quote(&self) -> anyhow::Result<Evidence> { Ok(self.e.clone()) }
}
