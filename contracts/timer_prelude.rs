pub mod vt {
use vstd::prelude::*;
// ---------------------------------------------------------------- core::time::Duration and the clock of libc (assumed)
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Duration { pub secs: u64, pub frac: u32 }
impl Duration {
    pub open spec fn nanos(self) -> int { self.secs * 1_000_000_000 + self.frac }
    #[verifier::external_body]
    pub fn new(secs: u64, nanos: u32) -> (r: Duration)
        requires secs + nanos / 1_000_000_000 <= u64::MAX,
        ensures r.nanos() == secs * 1_000_000_000 + nanos,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(secs: u64) -> (r: Duration) ensures r.nanos() == secs * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Duration) ensures r.nanos() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>)
        ensures r is Some <==> self.nanos() >= o.nanos(), r matches Some(d) ==> d.nanos() == self.nanos() - o.nanos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Duration) -> (r: Duration)
        ensures r.nanos() == if self.nanos() >= o.nanos() { self.nanos() - o.nanos() } else { 0 },
    { unimplemented!() }
}
impl std::ops::Sub for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, o: Duration) -> (r: Duration)
        ensures r.nanos() == self.nanos() - o.nanos(),
    { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl for Duration {
    open spec fn obeys_sub_spec() -> bool { false }
    /// It panics when the result is negative.
    open spec fn sub_req(self, o: Duration) -> bool { self.nanos() >= o.nanos() }
    open spec fn sub_spec(self, o: Duration) -> Duration { arbitrary() }
}
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub struct timespec { pub tv_sec: i64, pub tv_nsec: i64 }
pub const CLOCK_REALTIME: i32 = 0;
pub const CLOCK_MONOTONIC: i32 = 1;
/// During the call at hand the monotonic clock reads no less than this (nanoseconds).
pub uninterp spec fn clock_reached(n: int) -> bool;
pub open spec fn reading(t: timespec) -> int { t.tv_sec * 1_000_000_000 + t.tv_nsec }
pub mod libc {
    use super::*;
    #[verifier::external_body]
    pub fn clock_gettime(clock: i32, t: &mut timespec) -> (r: i32)
        ensures
            0 <= final(t).tv_sec, 0 <= final(t).tv_nsec < 1_000_000_000,
            clock == CLOCK_MONOTONIC ==> forall|n: int| #[trigger] clock_reached(n) ==> reading(*final(t)) >= n,
    { unimplemented!() }
}
} // mod vt
