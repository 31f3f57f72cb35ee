#![allow(unused_variables, dead_code)]
use oak_proto_rust::oak::attestation::v1::{Endorsements, Evidence};
use oak_session::session_binding::SessionBinder;
use tonic::transport::Channel;
pub struct InstanceSessionBinder {}
impl InstanceSessionBinder { pub fn create(c: &Channel) -> Self { Self {} } }
impl SessionBinder for InstanceSessionBinder { fn bind(&self, bound_data: &[u8]) -> Vec<u8> { unimplemented!() } }
pub async fn default_orchestrator_channel() -> anyhow::Result<Channel> { unimplemented!() }
pub struct EndorsedEvidence { pub evidence: Option<Evidence>, pub endorsements: Option<Endorsements> }
pub struct OrchestratorClient {}
impl OrchestratorClient {
    pub fn create(c: &Channel) -> Self { Self {} }
    pub async fn get_endorsed_evidence(&mut self) -> anyhow::Result<EndorsedEvidence> { unimplemented!() }
    pub async fn notify_app_ready(&mut self) -> anyhow::Result<()> { unimplemented!() }
}
