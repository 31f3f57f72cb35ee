#![allow(unused_variables, dead_code)]
pub mod proto {
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Status { #[prost(int32, tag = "1")] pub code: i32, #[prost(string, tag = "2")] pub message: String }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct GenerateKeyRequest { #[prost(bytes = "vec", tag = "1")] pub key_id: Vec<u8> }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptRequest { #[prost(bytes = "vec", tag = "1")] pub decryption_request: Vec<u8>, #[prost(bytes = "vec", tag = "2")] pub key_id: Vec<u8> }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct GenerateKeyResponse { #[prost(bytes = "vec", tag = "1")] pub public_key: Vec<u8> }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptResponse { #[prost(bytes = "vec", tag = "1")] pub decryption_response: Vec<u8> }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptorRequest { #[prost(oneof = "decryptor_request::Msg", tags = "1, 2")] pub msg: Option<decryptor_request::Msg> }
    pub mod decryptor_request {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum Msg { #[prost(message, tag = "1")] GenerateKey(super::GenerateKeyRequest), #[prost(message, tag = "2")] Decrypt(super::DecryptRequest) }
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptorResponse { #[prost(oneof = "decryptor_response::Msg", tags = "1, 2, 3")] pub msg: Option<decryptor_response::Msg> }
    pub mod decryptor_response {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum Msg { #[prost(message, tag = "1")] GenerateKey(super::GenerateKeyResponse), #[prost(message, tag = "2")] Decrypt(super::DecryptResponse), #[prost(message, tag = "3")] Error(super::Status) }
    }
}
