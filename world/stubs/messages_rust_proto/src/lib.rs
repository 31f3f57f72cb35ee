#![allow(unused_variables, dead_code)]
use protobuf::*;
macro_rules! m { ($($n:ident),*) => { $(
    #[derive(Default, Debug, Clone)]
    pub struct $n {}
    impl Serialize for $n { fn serialize(&self) -> Result<Vec<u8>, SerializeError> { unimplemented!() } }
    impl Parse for $n { fn parse(b: &[u8]) -> Result<Self, ParseError> { unimplemented!() } }
)* } }
m!(DecryptorStateProto, PartialDecryptionRequest, PartialDecryptionResponse, DecryptorPublicKeyShare);
