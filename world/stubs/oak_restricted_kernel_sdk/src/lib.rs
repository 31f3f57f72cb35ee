#![allow(unused_variables, dead_code)]
pub use oak_restricted_kernel_sdk_macros::entrypoint;
use oak_attestation_types::attester::Attester;
use oak_proto_rust::oak::attestation::v1::Evidence;
use oak_session::session_binding::SessionBinder;
macro_rules! attester { ($n:ident) => {
    pub struct $n {}
    impl $n { pub fn create() -> anyhow::Result<Self> { unimplemented!() } }
    impl Attester for $n {
        fn extend(&mut self, encoded_event: &[u8]) -> anyhow::Result<()> { unimplemented!() }
        fn quote(&self) -> anyhow::Result<Evidence> { unimplemented!() }
    }
} }
macro_rules! binder { ($n:ident) => {
    pub struct $n {}
    impl $n { pub fn create() -> anyhow::Result<Self> { unimplemented!() } }
    impl SessionBinder for $n { fn bind(&self, bound_data: &[u8]) -> Vec<u8> { unimplemented!() } }
} }
pub mod attestation { use super::*; attester!(InstanceAttester); }
pub mod crypto { use super::*; binder!(InstanceSessionBinder); }
pub mod testing { use super::*; attester!(MockAttester); binder!(MockSigner); }
pub mod utils {
    pub use log;
    pub mod samplestore {
        pub struct StaticSampleStore<const N: usize> {}
        impl<const N: usize> StaticSampleStore<N> { pub fn new() -> Option<Self> { unimplemented!() } }
    }
}
pub mod channel {
    #[derive(Default)]
    pub struct FileDescriptorChannel {}
    pub fn start_blocking_server<C, S, T>(c: Box<C>, s: S, st: &mut T) -> anyhow::Result<!> { unimplemented!() }
}
