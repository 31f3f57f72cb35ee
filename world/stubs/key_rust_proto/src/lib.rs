#![allow(unused_variables, dead_code)]
use protobuf::*;
#[derive(Default, Debug, Clone)]
pub struct Key { key_id: Vec<u8>, key_material: Vec<u8> }
impl Key {
    pub fn set_key_id(&mut self, v: impl Into<Vec<u8>>) { self.key_id = v.into() }
    pub fn set_key_material(&mut self, v: impl Into<Vec<u8>>) { self.key_material = v.into() }
    pub fn key_id(&self) -> &[u8] { &self.key_id }
    pub fn key_material(&self) -> &[u8] { &self.key_material }
}
impl Serialize for Key { fn serialize(&self) -> Result<Vec<u8>, SerializeError> { unimplemented!() } }
impl Parse for Key { fn parse(b: &[u8]) -> Result<Self, ParseError> { unimplemented!() } }
