#![allow(unused_variables, dead_code)]
pub mod encryptor {
    #[derive(Default)]
    pub struct Payload { pub message: Vec<u8>, pub nonce: Option<Vec<u8>>, pub aad: Option<Vec<u8>> }
    pub trait Encryptor: Send {
        fn encrypt(&mut self, plaintext: Payload) -> anyhow::Result<Payload>;
        fn decrypt(&mut self, ciphertext: Payload) -> anyhow::Result<Payload>;
    }
}
pub mod noise_handshake {
    pub const SYMMETRIC_KEY_LEN: usize = 32;
    pub struct OrderedCrypter {}
    impl OrderedCrypter { pub fn new(r: &[u8; SYMMETRIC_KEY_LEN], w: &[u8; SYMMETRIC_KEY_LEN]) -> Self { OrderedCrypter {} } }
}
pub mod identity_key { pub trait IdentityKeyHandle: Send {} }
