#![allow(unused_variables, dead_code)]
#[derive(Debug)] pub struct SerializeError;
#[derive(Debug)] pub struct ParseError;
pub trait Serialize { fn serialize(&self) -> Result<Vec<u8>, SerializeError>; }
pub trait Parse: Sized { fn parse(b: &[u8]) -> Result<Self, ParseError>; }
pub mod prelude { pub use super::{Parse, Serialize}; }
