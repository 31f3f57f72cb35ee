#![allow(unused_variables, dead_code)]
use status_stub::StatusError;
pub trait SecureAggregationDecryptor {
    type State; type Share; type Request; type Response;
    fn create_public_key_share(&self, s: &mut Self::State) -> Result<Self::Share, StatusError>;
    fn handle_partial_decryption_request(&self, r: Self::Request, s: &Self::State) -> Result<Self::Response, StatusError>;
}
