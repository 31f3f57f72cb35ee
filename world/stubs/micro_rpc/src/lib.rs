//! Stand-in for oak micro_rpc.
#![allow(dead_code)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u32)]
pub enum StatusCode {
    Ok = 0, Cancelled = 1, Unknown = 2, InvalidArgument = 3, DeadlineExceeded = 4, NotFound = 5,
    AlreadyExists = 6, PermissionDenied = 7, ResourceExhausted = 8, FailedPrecondition = 9,
    Aborted = 10, OutOfRange = 11, Unimplemented = 12, Internal = 13, Unavailable = 14,
    DataLoss = 15, Unauthenticated = 16,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Status { pub code: StatusCode, pub message: String }
impl Status {
    pub fn new(code: StatusCode) -> Self { Status { code, message: String::new() } }
    pub fn new_with_message(code: StatusCode, message: impl AsRef<str>) -> Self { Status { code, message: message.as_ref().to_string() } }
}
