#![allow(unused_variables, dead_code)]
use status_stub::StatusError;
pub trait ToProto<C> { type Proto; fn to_proto(&self, context: C) -> Result<Self::Proto, StatusError>; }
pub trait FromProto<C>: Sized { type Proto; fn from_proto(p: Self::Proto, context: C) -> Result<Self, StatusError>; }
