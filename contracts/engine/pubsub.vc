=== mod session
impl View for Session { type V = Session; open spec fn view(&self) -> Session { *self } }
impl View for SessionId { type V = SessionId; open spec fn view(&self) -> SessionId { *self } }
impl VxKey<SessionId> for SessionId { open spec fn kv(&self) -> SessionId { *self } }
=== mod pubsub
impl View for Subscription { type V = Subscription; open spec fn view(&self) -> Subscription { *self } }
impl VxSelfValue for Subscription { fn value(&self) -> (r: &Self) { self } }
=== impl pubsub::Subscription
    pub open spec fn one_channel(&self) -> bool { self.rx.chan() == self.tx.chan() }
=== fn pubsub::Subscription::new
    ensures ret.one_channel(),
=== fn pubsub::Subscription::Default::default
    ensures ret.one_channel(),
=== fn pubsub::Subscription::close
    ensures closed(self.tx.chan()),
=== fn pubsub::Subscription::receiver
    ensures ret.chan() == self.rx.chan(),
=== fn pubsub::Subscription::sender
    ensures ret.chan() == self.tx.chan(),
=== sp
use crate::session::SessionId;
use crate::pubsub::Subscription;
pub type KeySubs = Map<Seq<u8>, Set<SessionId>>;
pub type SessSubs = Map<SessionId, Map<Seq<u8>, Subscription>>;
pub open spec fn has_sub(m: SessSubs, k: Seq<u8>, s: SessionId) -> bool { m.contains_key(s) && m[s].contains_key(k) }
pub open spec fn lists(m: KeySubs, k: Seq<u8>, s: SessionId) -> bool { m.contains_key(k) && m[k].contains(s) }
/// While a session's subscriptions are undone.
#[verifier::opaque]
pub open spec fn undo_inv(all: Seq<(Seq<u8>, Subscription)>, left: Seq<(Seq<u8>, Subscription)>, was: KeySubs, now: KeySubs, s: SessionId) -> bool {
    &&& left_of(all, left)
    &&& forall|k: Seq<u8>, s2: SessionId| #[trigger] lists(now, k, s2) == (lists(was, k, s2) && (s2 != s || !has_first(done_of(all, left), k)))
    &&& forall|i: int| 0 <= i < all.len() - left.len() ==> closed((#[trigger] all[i]).1.tx.chan())
}
pub open spec fn has_first<T>(l: Seq<(Seq<u8>, T)>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k }
pub proof fn lemma_undo_start(all: Seq<(Seq<u8>, Subscription)>, was: KeySubs, s: SessionId)
    ensures undo_inv(all, all, was, was, s),
{ reveal(undo_inv); assert(all.skip(0) =~= all); assert(done_of(all, all) =~= seq![]); }
pub proof fn lemma_undo_step(all: Seq<(Seq<u8>, Subscription)>, left: Seq<(Seq<u8>, Subscription)>, was: KeySubs, now: KeySubs, now2: KeySubs, s: SessionId)
    requires
        left.len() > 0,
        closed(left[0].1.tx.chan()),
        undo_inv(all, left, was, now, s),
        forall|k: Seq<u8>, s2: SessionId| #[trigger] lists(now2, k, s2) == (lists(now, k, s2) && (s2 != s || k != left[0].0)),
    ensures undo_inv(all, left.drop_first(), was, now2, s),
{
    reveal(undo_inv);
    lemma_done(all, left);
    let d = done_of(all, left);
    let d2 = done_of(all, left.drop_first());
    assert(left[0] == all[all.len() - left.len()]);
    assert(d2 =~= d.push(left[0]));
    assert forall|k: Seq<u8>| has_first(d2, k) == (has_first(d, k) || k == left[0].0) by {
        if has_first(d2, k) { let i = choose|i: int| 0 <= i < d2.len() && (#[trigger] d2[i]).0 == k; if i < d.len() { assert(d[i].0 == k); } }
        if has_first(d, k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(d2[i].0 == k); }
        if k == left[0].0 { assert(d2[d.len() as int].0 == k); }
    }
}
pub proof fn lemma_undo_end(all: Seq<(Seq<u8>, Subscription)>, was: KeySubs, now: KeySubs, s: SessionId, m: Map<Seq<u8>, Subscription>)
    requires is_order(all, m), undo_inv(all, seq![], was, now, s),
    ensures
        forall|k: Seq<u8>, s2: SessionId| #[trigger] lists(now, k, s2) == (lists(was, k, s2) && (s2 != s || !m.contains_key(k))),
        forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> closed(m[k].tx.chan()),
{
    reveal(undo_inv);
    assert(done_of(all, seq![]) =~= all);
    assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) == has_first(all, k) by { }
    assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) implies closed(m[k].tx.chan()) by {
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k;
        assert(m[all[i].0] == all[i].1);
    }
}
=== impl pubsub::manager::PubSubManager
    pub open spec fn subs(&self) -> SessSubs { self.0.sessions@ }
    /// The session has a subscription to the key.
    pub open spec fn has(&self, k: Seq<u8>, s: SessionId) -> bool { has_sub(self.0.sessions@, k, s) }
    /// The session is among those of the key.
    pub open spec fn listed(&self, k: Seq<u8>, s: SessionId) -> bool { lists(self.0.keys@, k, s) }
    pub open spec fn sub(&self, k: Seq<u8>, s: SessionId) -> Subscription { self.0.sessions@[s][k] }
    /// The sessions of a key are exactly those subscribed to it.
    pub open spec fn wf(&self) -> bool {
        forall|k: Seq<u8>, s: SessionId| #![trigger self.0.sessions@[s].contains_key(k)] #![trigger self.0.keys@[k].contains(s)]
            self.has(k, s) == self.listed(k, s)
    }
    pub open spec fn same_but(&self, o: &PubSubManager, k: Seq<u8>, s: SessionId) -> bool {
        forall|k2: Seq<u8>, s2: SessionId| #![trigger self.has(k2, s2)] #![trigger o.has(k2, s2)] k2 != k || s2 != s ==>
            self.has(k2, s2) == o.has(k2, s2) && (o.has(k2, s2) ==> self.sub(k2, s2) == o.sub(k2, s2))
    }
=== mod pubsub::manager
#[allow(unused_imports)] use crate::sp::*;
=== fn pubsub::manager::PubSubManager::Default::default
    ensures ret.wf(), forall|k: Seq<u8>, s: SessionId| !#[trigger] ret.has(k, s),
=== fn pubsub::manager::PubSubManagerRef::Default::default
    ensures ret.keys@ == Map::<Seq<u8>, Set<SessionId>>::empty(), ret.sessions@ == Map::<SessionId, Map<Seq<u8>, Subscription>>::empty(),
=== fn pubsub::manager::PubSubManager::get
    ensures
        ret is Some <==> self.has(object_key@, session_id),
        ret matches Some(w) ==> w.target() == self.sub(object_key@, session_id),
=== fn pubsub::manager::PubSubManager::subscribe
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret is Some <==> !old(self).has(object_key@, session_id),
        final(self).has(object_key@, session_id),
        ret matches Some(w) ==> w.target() == final(self).sub(object_key@, session_id) && w.target().one_channel(),
        ret is None ==> final(self).sub(object_key@, session_id) == old(self).sub(object_key@, session_id),
        final(self).same_but(old(self), object_key@, session_id),
--- entry
    broadcast use {axiom_occupied_unused, axiom_vacant_unused};
=== fn pubsub::manager::PubSubManager::unsubscribe
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret <==> old(self).has(object_key@, session_id),
        !final(self).has(object_key@, session_id),
        final(self).same_but(old(self), object_key@, session_id),
=== fn pubsub::manager::PubSubManager::remove_session
    requires old(self).wf(),
    ensures
        final(self).wf(),
        (exists|k: Seq<u8>| #[trigger] old(self).has(k, session_id)) ==> ret,
        ret ==> old(self).subs().contains_key(session_id),
        !final(self).subs().contains_key(session_id),
        forall|k: Seq<u8>| #[trigger] old(self).has(k, session_id) ==> closed(old(self).sub(k, session_id).tx.chan()),
        forall|k: Seq<u8>, s: SessionId| #![trigger final(self).has(k, s)] #![trigger old(self).has(k, s)]
            final(self).has(k, s) == (old(self).has(k, s) && s != session_id) && (final(self).has(k, s) ==> final(self).sub(k, s) == old(self).sub(k, s)),
--- shape for
--- entry
    broadcast use {axiom_into_order, lemma_own_pairs_drop};
    let ghost ps = self.0;
    let ghost subs = if self.subs().contains_key(session_id) { self.subs()[session_id] } else { Map::empty() };
--- loop-before 0
    let ghost all = own_pairs(vx_it0.rest());
    let ghost mid = self.0.sessions@;
    proof { lemma_undo_start(all, ps.keys@, session_id); }
--- loop 0
    invariant
        undo_inv(all, own_pairs(vx_it0.rest()), ps.keys@, self.0.keys@, session_id), self.0.sessions@ == mid,
    ensures
        undo_inv(all, seq![], ps.keys@, self.0.keys@, session_id), self.0.sessions@ == mid,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost was = self.0.keys@;
    let ghost left = own_pairs(vx_it0.rest());
    proof { assert(left.len() == 0 ==> left =~= seq![]); }
--- loop-end 0
    proof { lemma_undo_step(all, left, ps.keys@, was, self.0.keys@, session_id); }
--- loop-exit 0
    proof { lemma_undo_end(all, ps.keys@, self.0.keys@, session_id, subs); }
=== sp
pub broadcast proof fn lemma_own_pairs_drop<K: View, V: View>(s: Seq<(K, V)>)
    ensures s.len() > 0 ==> own_pairs(#[trigger] s.drop_first()) == own_pairs(s).drop_first(), own_pairs(s).len() == s.len(),
{ if s.len() > 0 { assert(own_pairs(s.drop_first()) =~= own_pairs(s).drop_first()); } }
=== impl session::manager::SessionManager
    pub open spec fn live(&self) -> Map<u32, Session> { self.0.sessions@ }
    pub open spec fn next(&self) -> int { self.0.next_id.val() as int }
    pub open spec fn log(&self) -> Seq<Metric> { self.0.metrics_writer.log() }
    /// The next id is past those of all live sessions.
    pub open spec fn wf(&self) -> bool { forall|id: u32| #[trigger] self.0.sessions@.contains_key(id) ==> id < self.next() }
=== fn session::manager::SessionManager::new
    ensures ret.wf(), ret.live() == Map::<u32, Session>::empty(), ret.next() == 0, ret.0.metrics_writer == metrics_writer,
=== fn session::manager::SessionManager::add
    requires old(self).wf(), old(self).next() < u32::MAX,
    ensures
        final(self).wf(),
        !old(self).live().contains_key(old(self).next() as u32),
        ret.id == old(self).next() && ret.client_token == client_token,
        final(self).live() == old(self).live().insert(old(self).next() as u32, *final(ret)),
        final(self).next() == old(self).next() + 1,
        final(self).log() == old(self).log().push(Metric::SessionsStarted),
        final(self).0.metrics_writer.id() == old(self).0.metrics_writer.id(),
--- entry
    broadcast use {axiom_occupied_unused, axiom_vacant_unused};
=== fn session::manager::SessionManager::remove
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret == old(self).live().contains_key(id),
        final(self).live() == old(self).live().remove(id),
        final(self).next() == old(self).next(),
        final(self).log() == if ret { old(self).log().push(Metric::SessionsEnded) } else { old(self).log() },
        final(self).0.metrics_writer.id() == old(self).0.metrics_writer.id(),
=== fn session::Session::new
    ensures ret.client_token == client_token && ret.id == id,
