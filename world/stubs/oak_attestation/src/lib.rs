#![allow(unused_variables, dead_code)]
//! Stand-in.
