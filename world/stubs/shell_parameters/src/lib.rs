#![allow(unused_variables, dead_code)]
pub struct ShellAheConfig {}
pub fn create_shell_ahe_config(n: i64) -> Result<ShellAheConfig, status_stub::StatusError> { unimplemented!() }
