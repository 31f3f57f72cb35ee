#![allow(unused_variables, dead_code)]
use proto_serialization_traits::{FromProto, ToProto};
use status_stub::StatusError;
use std::rc::Rc;
pub struct PartialDecryptionRequest {}
pub struct PartialDecryptionResponse {}
pub struct PublicKeyShare {}
#[derive(Default)]
pub struct DecryptorState {}
pub struct WillowV1Decryptor<V> { pub vahe: Rc<V> }
impl<V> WillowV1Decryptor<V> { pub fn new_with_randomly_generated_seed(v: Rc<V>) -> Result<Self, StatusError> { unimplemented!() } }
impl<V> decryptor_traits::SecureAggregationDecryptor for WillowV1Decryptor<V> {
    type State = DecryptorState; type Share = PublicKeyShare; type Request = PartialDecryptionRequest; type Response = PartialDecryptionResponse;
    fn create_public_key_share(&self, s: &mut DecryptorState) -> Result<PublicKeyShare, StatusError> { unimplemented!() }
    fn handle_partial_decryption_request(&self, r: PartialDecryptionRequest, s: &DecryptorState) -> Result<PartialDecryptionResponse, StatusError> { unimplemented!() }
}
impl<C> ToProto<C> for PublicKeyShare { type Proto = messages_rust_proto::DecryptorPublicKeyShare; fn to_proto(&self, c: C) -> Result<Self::Proto, StatusError> { unimplemented!() } }
impl<C> ToProto<C> for PartialDecryptionResponse { type Proto = messages_rust_proto::PartialDecryptionResponse; fn to_proto(&self, c: C) -> Result<Self::Proto, StatusError> { unimplemented!() } }
impl<C> ToProto<C> for DecryptorState { type Proto = messages_rust_proto::DecryptorStateProto; fn to_proto(&self, c: C) -> Result<Self::Proto, StatusError> { unimplemented!() } }
impl<C> FromProto<C> for DecryptorState { type Proto = messages_rust_proto::DecryptorStateProto; fn from_proto(p: Self::Proto, c: C) -> Result<Self, StatusError> { unimplemented!() } }
impl<C> FromProto<C> for PartialDecryptionRequest { type Proto = messages_rust_proto::PartialDecryptionRequest; fn from_proto(p: Self::Proto, c: C) -> Result<Self, StatusError> { unimplemented!() } }
