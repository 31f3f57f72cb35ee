//! Signature-level stand-in for the prost-based raft-rs 0.7 fork used by the
//! Bazel build (not available offline). Only types and signatures matter to
//! the static analysis; the data types are functional.
#![allow(unused_variables, dead_code, clippy::all)]
pub mod eraftpb {
    include!("eraftpb.rs");
}
mod accessors;
pub mod util {
    pub fn limit_size<T: prost::Message + Clone>(entries: &mut Vec<T>, max: Option<u64>) {
        if entries.len() <= 1 { return; }
        let max = match max { None | Some(crate::NO_LIMIT) => return, Some(max) => max };
        let mut size = 0;
        let limit = entries.iter().take_while(|e| {
            let first = size == 0;
            size += e.encoded_len() as u64;
            first || size <= max
        }).count();
        entries.truncate(limit);
    }
}
pub mod prelude {
    pub use crate::eraftpb::*;
    pub use crate::{Config, RawNode, Ready, LightReady, Storage, StateRole, SnapshotStatus, Status, GetEntriesContext};
}
pub mod storage { pub use crate::{Storage, RaftState, GetEntriesContext}; }
use eraftpb::*;
use std::fmt;

#[derive(Debug)]
pub enum StorageError {
    Compacted,
    Unavailable,
    LogTemporarilyUnavailable,
    SnapshotOutOfDate,
    SnapshotTemporarilyUnavailable,
    Other(Box<dyn std::error::Error + Sync + Send>),
}
impl PartialEq for StorageError {
    fn eq(&self, o: &Self) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(o) && !matches!(self, StorageError::Other(_))
    }
}
impl fmt::Display for StorageError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for StorageError {}

#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    Store(StorageError),
    StepLocalMsg,
    StepPeerNotFound,
    ProposalDropped,
    ConfigInvalid(String),
    CodecError(prost::DecodeError),
    Exists { id: u64, set: &'static str },
    NotExists { id: u64, set: &'static str },
    ConfChangeError(String),
    RequestSnapshotDropped,
}
impl PartialEq for Error {
    fn eq(&self, other: &Error) -> bool {
        match (self, other) {
            (Error::Store(a), Error::Store(b)) => a == b,
            (Error::Io(a), Error::Io(b)) => a.kind() == b.kind(),
            (Error::ConfigInvalid(a), Error::ConfigInvalid(b)) => a == b,
            (Error::ConfChangeError(a), Error::ConfChangeError(b)) => a == b,
            (a, b) => std::mem::discriminant(a) == std::mem::discriminant(b),
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for Error {}
impl From<StorageError> for Error { fn from(e: StorageError) -> Self { Error::Store(e) } }
impl From<prost::DecodeError> for Error { fn from(e: prost::DecodeError) -> Self { Error::CodecError(e) } }
pub type Result<T> = std::result::Result<T, Error>;

pub const NO_LIMIT: u64 = u64::MAX;
pub const INVALID_ID: u64 = 0;
pub const INVALID_INDEX: u64 = 0;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ReadOnlyOption { Safe, LeaseBased }

#[derive(Clone, Debug)]
pub struct Config {
    pub id: u64,
    pub election_tick: usize,
    pub heartbeat_tick: usize,
    pub applied: u64,
    pub max_size_per_msg: u64,
    pub max_inflight_msgs: usize,
    pub check_quorum: bool,
    pub pre_vote: bool,
    pub min_election_tick: usize,
    pub max_election_tick: usize,
    pub read_only_option: ReadOnlyOption,
    pub skip_bcast_commit: bool,
    pub batch_append: bool,
    pub priority: i64,
    pub max_uncommitted_size: u64,
    pub max_committed_size_per_ready: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config { id: 0, election_tick: 20, heartbeat_tick: 2, applied: 0, max_size_per_msg: 0,
            max_inflight_msgs: 256, check_quorum: false, pre_vote: false, min_election_tick: 0,
            max_election_tick: 0, read_only_option: ReadOnlyOption::Safe, skip_bcast_commit: false,
            batch_append: false, priority: 0, max_uncommitted_size: NO_LIMIT, max_committed_size_per_ready: NO_LIMIT }
    }
}
impl Config {
    pub fn new(id: u64) -> Self { Config { id, ..Default::default() } }
    pub fn validate(&self) -> Result<()> { Ok(()) }
}

#[derive(Debug, Clone, Default)]
pub struct RaftState { pub hard_state: HardState, pub conf_state: ConfState }
impl RaftState {
    pub fn new(hard_state: HardState, conf_state: ConfState) -> RaftState { RaftState { hard_state, conf_state } }
    pub fn initialized(&self) -> bool { self.conf_state != ConfState::default() }
}
#[derive(Debug)]
pub struct GetEntriesContext(bool);
impl GetEntriesContext {
    pub fn empty(can_async: bool) -> Self { GetEntriesContext(can_async) }
    pub fn can_async(&self) -> bool { self.0 }
}
pub trait Storage {
    fn initial_state(&self) -> Result<RaftState>;
    fn entries(&self, low: u64, high: u64, max_size: impl Into<Option<u64>>, context: GetEntriesContext) -> Result<Vec<Entry>>;
    fn term(&self, idx: u64) -> Result<u64>;
    fn first_index(&self) -> Result<u64>;
    fn last_index(&self) -> Result<u64>;
    fn snapshot(&self, request_index: u64, to: u64) -> Result<Snapshot>;
}
#[derive(Debug, PartialEq, Eq, Clone, Copy, Default)]
pub enum StateRole { #[default] Follower, Candidate, Leader, PreCandidate }
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum SnapshotStatus { Finish, Failure }
#[derive(Default, Debug, PartialEq, Eq, Clone)]
pub struct SoftState { pub leader_id: u64, pub raft_state: StateRole }
#[derive(Default)]
pub struct Status { pub id: u64, pub hs: HardState, pub ss: SoftState, pub applied: u64 }

#[derive(Default, Debug, PartialEq)]
pub struct LightReady { commit_index: Option<u64>, committed_entries: Vec<Entry>, messages: Vec<Message> }
impl LightReady {
    pub fn commit_index(&self) -> Option<u64> { self.commit_index }
    pub fn committed_entries(&self) -> &Vec<Entry> { &self.committed_entries }
    pub fn take_committed_entries(&mut self) -> Vec<Entry> { std::mem::take(&mut self.committed_entries) }
    pub fn messages(&self) -> &[Message] { &self.messages }
    pub fn take_messages(&mut self) -> Vec<Message> { std::mem::take(&mut self.messages) }
}
#[derive(Default, Debug, PartialEq)]
pub struct Ready { number: u64, ss: Option<SoftState>, hs: Option<HardState>, entries: Vec<Entry>, snapshot: Snapshot, is_persisted_msg: bool, light: LightReady, must_sync: bool }
impl Ready {
    pub fn number(&self) -> u64 { self.number }
    pub fn ss(&self) -> Option<&SoftState> { self.ss.as_ref() }
    pub fn hs(&self) -> Option<&HardState> { self.hs.as_ref() }
    pub fn entries(&self) -> &Vec<Entry> { &self.entries }
    pub fn take_entries(&mut self) -> Vec<Entry> { std::mem::take(&mut self.entries) }
    pub fn snapshot(&self) -> &Snapshot { &self.snapshot }
    pub fn committed_entries(&self) -> &Vec<Entry> { self.light.committed_entries() }
    pub fn take_committed_entries(&mut self) -> Vec<Entry> { self.light.take_committed_entries() }
    pub fn messages(&self) -> &[Message] { if !self.is_persisted_msg { self.light.messages() } else { &[] } }
    pub fn take_messages(&mut self) -> Vec<Message> { if !self.is_persisted_msg { self.light.take_messages() } else { Vec::new() } }
    pub fn persisted_messages(&self) -> &[Message] { if self.is_persisted_msg { self.light.messages() } else { &[] } }
    pub fn take_persisted_messages(&mut self) -> Vec<Message> { if self.is_persisted_msg { self.light.take_messages() } else { Vec::new() } }
    pub fn must_sync(&self) -> bool { self.must_sync }
}
pub struct RaftLog<T: Storage> { pub store: T, pub committed: u64, pub persisted: u64, pub applied: u64 }
pub struct Raft<T: Storage> { pub raft_log: RaftLog<T>, pub id: u64, pub term: u64, pub vote: u64, pub leader_id: u64, pub state: StateRole, pub pending_conf_index: u64 }
impl<T: Storage> Raft<T> {
    pub fn has_pending_conf(&self) -> bool { unimplemented!() }
    pub fn store(&self) -> &T { &self.raft_log.store }
    pub fn mut_store(&mut self) -> &mut T { &mut self.raft_log.store }
}
pub struct RawNode<T: Storage> { pub raft: Raft<T> }
impl<T: Storage> RawNode<T> {
    pub fn new(config: &Config, store: T, logger: &slog::Logger) -> Result<Self> { unimplemented!() }
    pub fn tick(&mut self) -> bool { unimplemented!() }
    pub fn campaign(&mut self) -> Result<()> { unimplemented!() }
    pub fn propose(&mut self, context: Vec<u8>, data: Vec<u8>) -> Result<()> { unimplemented!() }
    pub fn ping(&mut self) { unimplemented!() }
    pub fn propose_conf_change(&mut self, context: Vec<u8>, cc: ConfChange) -> Result<()> { unimplemented!() }
    pub fn apply_conf_change(&mut self, cc: &ConfChange) -> Result<ConfState> { unimplemented!() }
    pub fn step(&mut self, m: Message) -> Result<()> { unimplemented!() }
    pub fn ready(&mut self) -> Ready { unimplemented!() }
    pub fn has_ready(&self) -> bool { unimplemented!() }
    pub fn advance(&mut self, rd: Ready) -> LightReady { unimplemented!() }
    pub fn advance_append(&mut self, rd: Ready) -> LightReady { unimplemented!() }
    pub fn advance_append_async(&mut self, rd: Ready) { unimplemented!() }
    pub fn on_persist_ready(&mut self, number: u64) { unimplemented!() }
    pub fn advance_apply(&mut self) { unimplemented!() }
    pub fn advance_apply_to(&mut self, applied: u64) { unimplemented!() }
    pub fn snap(&self) -> Option<&Snapshot> { unimplemented!() }
    pub fn status(&self) -> Status { unimplemented!() }
    pub fn report_unreachable(&mut self, id: u64) { unimplemented!() }
    pub fn report_snapshot(&mut self, id: u64, status: SnapshotStatus) { unimplemented!() }
    pub fn request_snapshot(&mut self) -> Result<()> { unimplemented!() }
    pub fn transfer_leader(&mut self, transferee: u64) { unimplemented!() }
    pub fn store(&self) -> &T { self.raft.store() }
    pub fn mut_store(&mut self) -> &mut T { self.raft.mut_store() }
    pub fn skip_bcast_commit(&mut self, skip: bool) { unimplemented!() }
}
