=== mod crate
#[allow(unused_imports)] use crate::vm::{Weak, Hash, axiom_key};
=== mut_self
Reader<T>::counter
Reader<T>::gauge
Writer<T>::gauge
Writer<T>::increment
=== sp
use crate::vm::{Weak, Hash, axiom_key};
/// What is recorded under a key, if anything is.
pub open spec fn at<K>(m: Map<K, u64>, k: K) -> Option<u64> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn or_zero(o: Option<u64>) -> int { match o { Some(x) => x as int, None => 0 } }
/// A write, and what it makes of the counters and the gauges.
pub enum Op<K> { Increment(K), Gauge(K, u64) }
pub open spec fn after<K>(c: Map<K, u64>, g: Map<K, u64>, op: Op<K>) -> (Map<K, u64>, Map<K, u64>) {
    match op {
        Op::Increment(k) => (c.insert(k, (or_zero(at(c, k)) + 1) as u64), g),
        Op::Gauge(k, v) => (c, g.insert(k, v)),
    }
}
/// What a sequence of writes makes of a new instance.
pub open spec fn history<K>(ops: Seq<Op<K>>) -> (Map<K, u64>, Map<K, u64>)
    decreases ops.len(),
{
    if ops.len() == 0 { (Map::empty(), Map::empty()) } else { let h = history(ops.drop_last()); after(h.0, h.1, ops.last()) }
}
pub open spec fn increments<K>(ops: Seq<Op<K>>, k: K) -> nat
    decreases ops.len(),
{
    if ops.len() == 0 { 0 } else { increments(ops.drop_last(), k) + if ops.last() == Op::<K>::Increment(k) { 1nat } else { 0nat } }
}
pub open spec fn last_set<K>(ops: Seq<Op<K>>, k: K) -> Option<u64>
    decreases ops.len(),
{
    if ops.len() == 0 { None } else { match ops.last() { Op::Gauge(x, v) if x == k => Some(v), _ => last_set(ops.drop_last(), k) } }
}
/// A counter is the number of increments of its key and a gauge is what was last written, after any
/// sequence of writes.
pub proof fn lemma_history<K>(ops: Seq<Op<K>>, k: K)
    requires increments(ops, k) <= u64::MAX,
    ensures
        at(history(ops).0, k) == (if increments(ops, k) == 0 { None::<u64> } else { Some(increments(ops, k) as u64) }),
        at(history(ops).1, k) == last_set(ops, k),
    decreases ops.len(),
{
    if ops.len() > 0 { lemma_history(ops.drop_last(), k); }
}
=== impl Snapshot<T>
    pub open spec fn c(&self) -> Map<T::V, u64> { self.counters@ }
    pub open spec fn g(&self) -> Map<T::V, u64> { self.gauges@ }
=== impl Reader<T>
    pub open spec fn alive(&self) -> bool { self.metrics.alive() }
    pub open spec fn c(&self) -> Map<T::V, u64> { self.metrics.target().c() }
    pub open spec fn g(&self) -> Map<T::V, u64> { self.metrics.target().g() }
=== impl Writer<T>
    pub open spec fn alive(&self) -> bool { self.metrics.alive() }
    pub open spec fn c(&self) -> Map<T::V, u64> { self.metrics.target().c() }
    pub open spec fn g(&self) -> Map<T::V, u64> { self.metrics.target().g() }
=== fn Snapshot<T>::counters
    ensures ret@ == self.c(),
=== fn Snapshot<T>::counter
    ensures ret == at(self.c(), counter@),
--- entry
    broadcast use axiom_key;
=== fn Snapshot<T>::gauges
    ensures ret@ == self.g(),
=== fn Snapshot<T>::gauge
    ensures ret == at(self.g(), gauge@),
--- entry
    broadcast use axiom_key;
=== fn Metrics<T>::new
    ensures ret.0.c() == Map::<T::V, u64>::empty(), ret.0.g() == Map::<T::V, u64>::empty(),
=== fn Metrics<T>::Default::default
    ensures ret.0.c() == Map::<T::V, u64>::empty(), ret.0.g() == Map::<T::V, u64>::empty(),
=== fn Metrics<T>::reader
    ensures ret.alive(), ret.c() == self.0.c(), ret.g() == self.0.g(),
=== fn Metrics<T>::writer
    ensures ret.alive(), ret.c() == self.0.c(), ret.g() == self.0.g(),
=== fn Metrics<T>::snapshot
    ensures ret.c() == self.0.c(), ret.g() == self.0.g(),
=== fn Reader<T>::counter
    ensures
        ret == (if old(self).alive() { at(old(self).c(), counter@) } else { None }),
        final(self).alive() == old(self).alive(), final(self).c() == old(self).c(), final(self).g() == old(self).g(),
--- entry
    broadcast use axiom_key;
=== fn Reader<T>::gauge
    ensures
        ret == (if old(self).alive() { at(old(self).g(), gauge@) } else { None }),
        final(self).alive() == old(self).alive(), final(self).c() == old(self).c(), final(self).g() == old(self).g(),
--- entry
    broadcast use axiom_key;
=== fn Reader<T>::valid
    ensures ret == self.alive(),
=== fn Writer<T>::gauge
    ensures
        ret == old(self).alive(),
        final(self).alive() == old(self).alive(),
        old(self).alive() ==> (final(self).c(), final(self).g()) == after(old(self).c(), old(self).g(), Op::Gauge(gauge@, value)),
        !old(self).alive() ==> final(self).c() == old(self).c() && final(self).g() == old(self).g(),
=== fn Writer<T>::increment
    requires or_zero(at(old(self).c(), counter@)) < u64::MAX,
    ensures
        ret == old(self).alive(),
        final(self).alive() == old(self).alive(),
        old(self).alive() ==> (final(self).c(), final(self).g()) == after(old(self).c(), old(self).g(), Op::Increment(counter@)),
        !old(self).alive() ==> final(self).c() == old(self).c() && final(self).g() == old(self).g(),
=== fn Writer<T>::valid
    ensures ret == self.alive(),
=== type Snapshot
#[verifier::reject_recursive_types(T)]
=== type Metrics
#[verifier::reject_recursive_types(T)]
=== type Reader
#[verifier::reject_recursive_types(T)]
=== type Writer
#[verifier::reject_recursive_types(T)]
