#![allow(unused_variables, dead_code)]
#[derive(Debug, Clone, PartialEq)]
pub struct StatusError { pub code: i32 }
impl std::fmt::Display for StatusError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.code) } }
impl std::error::Error for StatusError {}
