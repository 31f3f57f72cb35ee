#![allow(unused_variables, dead_code)]
extern crate proc_macro;
use proc_macro::TokenStream;
/// Stand-in for oak's entrypoint attribute: keeps the function and adds a main.
#[proc_macro_attribute]
pub fn entrypoint(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
