#![allow(unused_variables, dead_code)]
pub trait AheBase {}
