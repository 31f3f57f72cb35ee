#![allow(unused_variables, dead_code)]
use oak_attestation_types::{attester::Attester, endorser::Endorser};
use oak_attestation_verification_types::verifier::AttestationVerifier;
use oak_session::{generator::BindableAssertionGenerator, session_binding::{SessionBinder, SessionBindingVerifierProvider}, verifier::BoundAssertionVerifier};
use std::sync::Arc;
pub struct EndorsedEvidenceBindableAssertionGenerator { a: Arc<dyn Attester>, e: Arc<dyn Endorser>, b: Arc<dyn SessionBinder> }
impl EndorsedEvidenceBindableAssertionGenerator { pub fn new(a: Arc<dyn Attester>, e: Arc<dyn Endorser>, b: Arc<dyn SessionBinder>) -> Self { Self { a, e, b } } }
impl BindableAssertionGenerator for EndorsedEvidenceBindableAssertionGenerator {}
pub struct EndorsedEvidenceBoundAssertionVerifier { v: Arc<dyn AttestationVerifier>, p: Arc<dyn SessionBindingVerifierProvider> }
impl EndorsedEvidenceBoundAssertionVerifier { pub fn new(v: Arc<dyn AttestationVerifier>, p: Arc<dyn SessionBindingVerifierProvider>) -> Self { Self { v, p } } }
impl BoundAssertionVerifier for EndorsedEvidenceBoundAssertionVerifier {}
