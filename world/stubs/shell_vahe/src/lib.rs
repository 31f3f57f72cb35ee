#![allow(unused_variables, dead_code)]
pub struct ShellVahe {}
impl ShellVahe { pub fn new(c: shell_parameters::ShellAheConfig, ctx: &[u8]) -> Result<Self, status_stub::StatusError> { unimplemented!() } }
impl ahe_traits::AheBase for ShellVahe {}
