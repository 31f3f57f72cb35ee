//! Stand-in for oak_time.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant { nanos: i128 }
pub const UNIX_EPOCH: Instant = Instant { nanos: 0 };
impl Instant {
    pub const UNIX_EPOCH: Instant = UNIX_EPOCH;
    pub const fn from_unix_millis(ms: i64) -> Self { Instant { nanos: ms as i128 * 1_000_000 } }
    pub const fn from_unix_seconds(s: i64) -> Self { Instant { nanos: s as i128 * 1_000_000_000 } }
    pub const fn from_unix_nanos(n: i128) -> Self { Instant { nanos: n } }
    pub const fn into_unix_millis(&self) -> i64 { (self.nanos / 1_000_000) as i64 }
    pub const fn into_unix_nanos(&self) -> i128 { self.nanos }
}
pub trait Clock: Send + Sync { fn get_time(&self) -> Instant; }
pub mod clock {
    use super::*;
    pub struct FixedClock { i: Instant }
    impl FixedClock { pub fn at_instant(i: Instant) -> Self { FixedClock { i } } }
    impl Clock for FixedClock { fn get_time(&self) -> Instant { self.i } }
}
