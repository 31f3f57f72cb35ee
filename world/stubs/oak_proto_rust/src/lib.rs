#![allow(unused_variables, dead_code)]
//! Stand-in for oak_proto_rust (generated from world/protogen/oak).
pub mod oak {
    pub mod attestation { pub mod v1 { include!("oak.attestation.v1.rs"); } }
    pub mod session { pub mod v1 { include!("oak.session.v1.rs"); } }
}
