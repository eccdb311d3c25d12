=== mod crate
#[allow(unused_imports)] use crate::vt::*;
=== impl Timer
    /// It stops only after it started, and no earlier.
    pub open spec fn wf(&self) -> bool { self.stop matches Some(b) ==> self.start matches Some(a) && b.nanos() >= a.nanos() }
    pub open spec fn running(&self) -> bool { self.start is Some && self.stop is None }
    pub open spec fn is_new(&self) -> bool { self.start is None && self.stop is None }
    pub open spec fn elapsed(&self) -> Option<int> {
        match (self.start, self.stop) { (Some(a), Some(b)) => Some(b.nanos() - a.nanos()), _ => None }
    }
    /// The clock hasn't gone back since the timer started.
    pub open spec fn clock_ok(&self) -> bool { self.start matches Some(a) ==> clock_reached(a.nanos()) }
=== sp
use crate::vt::*;
pub open spec fn nanos_of(d: Option<Duration>) -> Option<int> { match d { Some(x) => Some(x.nanos()), None => None } }
/// The time a clock reading stands for: negative parts count as zero.
pub open spec fn time_of(t: timespec) -> int {
    (if t.tv_sec < 0 { 0 } else { t.tv_sec as int }) * 1_000_000_000 + (if t.tv_nsec < 0 { 0 } else { t.tv_nsec as int })
}
=== fn Timer::Default::default
    ensures ret.is_new(), ret.wf(),
=== fn Timer::new
    ensures ret.is_new(), ret.wf(),
=== fn Timer::start
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret == (old(self).start is None),
        ret ==> final(self).running() && (forall|n: int| #[trigger] clock_reached(n) ==> final(self).start.unwrap().nanos() >= n),
        !ret ==> *final(self) == *old(self),
=== fn Timer::stop
    requires old(self).wf(), old(self).clock_ok(),
    ensures
        final(self).wf(),
        ret is Some <==> old(self).running(),
        old(self).running() ==> final(self).start == old(self).start && final(self).stop is Some && nanos_of(ret) == final(self).elapsed(),
        old(self).running() ==> (forall|n: int| #[trigger] clock_reached(n) ==> final(self).stop.unwrap().nanos() >= n),
        !old(self).running() ==> *final(self) == *old(self),
=== fn Timer::duration
    requires self.wf(),
    ensures nanos_of(ret) == self.elapsed(),
=== fn Timer::is_running
    ensures ret == self.running(),
=== fn Timer::reset
    ensures final(self).is_new(), final(self).wf(),
=== fn now
    ensures forall|n: int| #[trigger] clock_reached(n) ==> ret.nanos() >= n,
=== fn parse_timespec
    ensures timespec.tv_nsec <= u32::MAX ==> ret.nanos() == time_of(timespec),
=== fn monotonic_time
    ensures
        0 <= ret.tv_sec, 0 <= ret.tv_nsec < 1_000_000_000,
        forall|n: int| #[trigger] clock_reached(n) ==> reading(ret) >= n,
