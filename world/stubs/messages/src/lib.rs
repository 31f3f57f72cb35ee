#![allow(unused_variables, dead_code)]
pub use willow_core_stub::{PartialDecryptionRequest, PartialDecryptionResponse};
