#![allow(unused_variables, dead_code)]
pub trait ProtocolEngine<I, O> {
    fn get_outgoing_message(&mut self) -> anyhow::Result<Option<O>>;
    fn put_incoming_message(&mut self, incoming_message: I) -> anyhow::Result<Option<()>>;
}
pub mod aggregators {
    pub trait AssertionAggregator: Send {}
    pub struct PassThrough {}
    pub struct Any {}
    pub struct All {}
    impl AssertionAggregator for PassThrough {}
    impl AssertionAggregator for Any {}
    impl AssertionAggregator for All {}
}
pub mod attestation {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum AttestationType { Bidirectional, SelfUnidirectional, PeerUnidirectional, Unattested }
}
pub mod handshake {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum HandshakeType { NoiseKK, NoiseKN, NoiseNK, NoiseNN }
}
pub mod encryptors {
    use oak_crypto::{encryptor::{Encryptor, Payload}, noise_handshake::OrderedCrypter};
    macro_rules! enc { ($n:ident) => {
        pub struct $n {}
        impl Encryptor for $n {
            fn encrypt(&mut self, plaintext: Payload) -> anyhow::Result<Payload> { unimplemented!() }
            fn decrypt(&mut self, ciphertext: Payload) -> anyhow::Result<Payload> { unimplemented!() }
        }
    } }
    enc!(UnorderedChannelEncryptor);
    enc!(OrderedChannelEncryptor);
    impl TryFrom<(OrderedCrypter, u32)> for UnorderedChannelEncryptor { type Error = anyhow::Error; fn try_from(v: (OrderedCrypter, u32)) -> anyhow::Result<Self> { unimplemented!() } }
    impl TryFrom<OrderedCrypter> for OrderedChannelEncryptor { type Error = anyhow::Error; fn try_from(v: OrderedCrypter) -> anyhow::Result<Self> { unimplemented!() } }
}
pub mod generator { pub trait BindableAssertionGenerator: Send {} }
pub mod verifier { pub trait BoundAssertionVerifier: Send {} }
pub mod key_extractor {
    pub trait KeyExtractor: Send + Sync {}
    pub struct DefaultBindingKeyExtractor {}
    pub struct DefaultSigningKeyExtractor {}
    impl KeyExtractor for DefaultBindingKeyExtractor {}
    impl KeyExtractor for DefaultSigningKeyExtractor {}
}
pub mod session_binding {
    use super::key_extractor::KeyExtractor;
    use std::sync::Arc;
    pub trait SessionBinder: Send + Sync { fn bind(&self, bound_data: &[u8]) -> Vec<u8>; }
    pub trait SessionBindingVerifierProvider: Send + Sync {}
    pub struct SignatureBindingVerifierProvider { k: Arc<dyn KeyExtractor> }
    impl SignatureBindingVerifierProvider { pub fn new(k: Arc<dyn KeyExtractor>) -> Self { Self { k } } }
    impl SessionBindingVerifierProvider for SignatureBindingVerifierProvider {}
    pub struct SignatureBinder {}
    impl SessionBinder for SignatureBinder { fn bind(&self, bound_data: &[u8]) -> Vec<u8> { unimplemented!() } }
    #[derive(Default)]
    pub struct SignatureBinderBuilder {}
    impl SignatureBinderBuilder {
        pub fn signer<T: ?Sized>(self, s: Box<T>) -> Self { self }
        pub fn build(self) -> Result<SignatureBinder, String> { unimplemented!() }
    }
}
pub mod config {
    use super::{aggregators::AssertionAggregator, attestation::AttestationType, generator::BindableAssertionGenerator, handshake::HandshakeType, verifier::BoundAssertionVerifier};
    use oak_crypto::{encryptor::Encryptor, noise_handshake::OrderedCrypter};
    pub trait EncryptorProvider: Send { fn provide_encryptor(&self, crypter: OrderedCrypter) -> Result<Box<dyn Encryptor>, anyhow::Error>; }
    pub struct SessionConfig {}
    impl SessionConfig { pub fn builder(a: AttestationType, h: HandshakeType) -> SessionConfigBuilder { unimplemented!() } }
    pub struct SessionConfigBuilder {}
    impl SessionConfigBuilder {
        pub fn add_self_assertion_generator(self, id: String, g: Box<dyn BindableAssertionGenerator>) -> Self { self }
        pub fn add_peer_assertion_verifier(self, id: String, v: Box<dyn BoundAssertionVerifier>) -> Self { self }
        pub fn set_assertion_attestation_aggregator(self, a: Box<dyn AssertionAggregator>) -> Self { self }
        pub fn set_encryption_provider(self, p: Box<dyn EncryptorProvider>) -> Self { self }
        pub fn build(self) -> SessionConfig { unimplemented!() }
    }
}
pub mod session {
    use super::{config::SessionConfig, ProtocolEngine};
    use oak_proto_rust::oak::session::v1::{PlaintextMessage, SessionRequest, SessionResponse};
    pub trait Session {
        fn is_open(&self) -> bool;
        fn write(&mut self, plaintext: PlaintextMessage) -> anyhow::Result<()>;
        fn read(&mut self) -> anyhow::Result<Option<PlaintextMessage>>;
    }
    macro_rules! sess { ($n:ident, $i:ty, $o:ty) => {
        pub struct $n {}
        impl $n { pub fn create(c: SessionConfig) -> anyhow::Result<Self> { unimplemented!() } }
        impl Session for $n {
            fn is_open(&self) -> bool { unimplemented!() }
            fn write(&mut self, plaintext: PlaintextMessage) -> anyhow::Result<()> { unimplemented!() }
            fn read(&mut self) -> anyhow::Result<Option<PlaintextMessage>> { unimplemented!() }
        }
        impl ProtocolEngine<$i, $o> for $n {
            fn get_outgoing_message(&mut self) -> anyhow::Result<Option<$o>> { unimplemented!() }
            fn put_incoming_message(&mut self, incoming_message: $i) -> anyhow::Result<Option<()>> { unimplemented!() }
        }
    } }
    sess!(ClientSession, SessionResponse, SessionRequest);
    sess!(ServerSession, SessionRequest, SessionResponse);
}
