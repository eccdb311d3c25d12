=== drop
client::backend::server
client::backend::Backend
=== mut_self
client::backend::memory::MemoryBackend::send
client::backend::memory::MemoryBackend::Backend::append
client::backend::memory::MemoryBackend::Backend::decrement_by
client::backend::memory::MemoryBackend::Backend::decrement
client::backend::memory::MemoryBackend::Backend::delete
client::backend::memory::MemoryBackend::Backend::echo
client::backend::memory::MemoryBackend::Backend::exists
client::backend::memory::MemoryBackend::Backend::get
client::backend::memory::MemoryBackend::Backend::increment_by
client::backend::memory::MemoryBackend::Backend::increment
client::backend::memory::MemoryBackend::Backend::is
client::backend::memory::MemoryBackend::Backend::key_type
client::backend::memory::MemoryBackend::Backend::keys
client::backend::memory::MemoryBackend::Backend::length
client::backend::memory::MemoryBackend::Backend::rename
client::backend::memory::MemoryBackend::Backend::set
client::backend::memory::MemoryBackend::Backend::stats
=== sp of_client
use crate::client::backend::memory::{Error as MErr, MemoryBackend}; use crate::client::model::StatsData;
/// The answer is what the engine wrote or why it failed.
pub open spec fn answered(r1: Seq<u8>, d: Result<(), DispatchError>, ret: Result<ValueV, MErr>) -> bool {
    match ret {
        Ok(v) => d is Ok && wrote(seq![], r1, v) && forall|v2: ValueV| #[trigger] wrote(seq![], r1, v2) ==> v2 == v,
        Err(e) => d matches Err(x) && (e == (MErr::RunningCommand { source: x }) || e == (MErr::Dispatching { source: x })),
    }
}
/// Exactly this request was sent, once, and the result is the engine's answer.
pub open spec fn sent(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, b0: MemoryBackend, b1: MemoryBackend, ret: Result<ValueV, MErr>) -> bool {
    exists|r1: Seq<u8>, d: Result<(), DispatchError>| answered(r1, d, ret)
        && does(cmd, #[trigger] ccall(kt, args, b0.st(), b1.st(), r1, d), b0.counts())
        && b1.log() == b0.log().push(if d is Ok { Metric::CommandsSuccessful } else { Metric::CommandsErrored })
        && (numeric(cmd) ==> c_number(ccall(kt, args, b0.st(), b1.st(), r1, d)))
}
/// The request couldn't be built, and nothing was sent.
pub open spec fn unsent(b0: MemoryBackend, b1: MemoryBackend, ret: Result<ValueV, MErr>) -> bool {
    b1 == b0 && (ret matches Err(e) && (e is BuildingRequest || e is KeyTypeUnsupported))
}
/// What is assumed of a request: the key isn't an internal one (known finding) and the sizes fit.
pub open spec fn may_send(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, b: MemoryBackend) -> bool {
    &&& b.ok()
    &&& needs_key(cmd) && args.len() > 0 && args[0].len() > 0 ==> key_ok(args[0])
    &&& small_ok(ccall(kt, args, b.st(), b.st(), seq![], Ok(())), cmd, b.counts())
}
pub open spec fn as_bytes_r(r: Result<Vec<u8>, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Bytes(v@)), Err(e) => Err(e) } }
pub open spec fn as_list_r(r: Result<Vec<Vec<u8>>, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::List(deep(v@))), Err(e) => Err(e) } }
pub open spec fn as_bool_r(r: Result<bool, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Boolean(v)), Err(e) => Err(e) } }
pub open spec fn as_int_r(r: Result<i64, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Integer(v)), Err(e) => Err(e) } }
pub open spec fn as_type_r(r: Result<KeyType, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Integer(kt_code(v) as i64)), Err(e) => Err(e) } }
pub open spec fn as_value_r(r: Result<Value, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
pub open spec fn as_stats_r(r: Result<StatsData, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Map(v.map())), Err(e) => Err(e) } }
pub open spec fn set_state(o: Seq<(Seq<u8>, Seq<u8>)>, m: Map<Seq<u8>, Seq<u8>>) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> m.contains_key((#[trigger] o[i]).0) && m[o[i].0] == o[i].1
    &&& forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k
}
pub proof fn lemma_map_flat(o: Seq<(Seq<u8>, Seq<u8>)>)
    requires forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0,
    ensures set_state(o, map_of(flat(o))),
    decreases o.len()
{
    reveal_with_fuel(map_of, 2);
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_map_flat(p);
        lemma_flat_len(p);
        lemma_flat_len(o);
        let l = flat(o);
        assert(l.take(l.len() - 2) =~= flat(p));
        let (m0, m1) = (map_of(flat(p)), map_of(l));
        assert(m1 == m0.insert(o.last().0, o.last().1));
        assert forall|i: int| 0 <= i < o.len() implies m1.contains_key((#[trigger] o[i]).0) && m1[o[i].0] == o[i].1 by {
            if i < p.len() { assert(p[i] == o[i]); assert(o[i].0 != o[o.len() - 1].0); }
        }
        assert forall|k: Seq<u8>| #[trigger] m1.contains_key(k) implies exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k by {
            if m0.contains_key(k) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(o[i].0 == k); }
            else { assert(o[o.len() - 1].0 == k); }
        }
    } else {
        assert(map_of(flat(o)) =~= Map::empty());
    }
}
/// What the arguments that encode a value are taken for is that value.
pub broadcast proof fn lemma_encoded_back(v: ValueV, l: Seq<Seq<u8>>)
    requires #[trigger] value_args(v, l),
    ensures encoded(kind_of(v), l) matches Some(w) ==> w == v,
{
    broadcast use axiom_be_i64, axiom_be_f64, axiom_utf8;
    match v {
        ValueV::Map(x) => {
            let o = choose|o: Seq<(Seq<u8>, Seq<u8>)>| is_order(o, x) && l == #[trigger] flat(o);
            lemma_map_flat(o);
            let m = map_of(l);
            assert forall|k: Seq<u8>| m.contains_key(k) <==> #[trigger] x.contains_key(k) by { }
            assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) implies m[k] == x[k] by { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k; }
            assert(m =~= x);
        }
        ValueV::Integer(x) => { assert(be_i64(x).subrange(0, 8) =~= be_i64(x)); }
        ValueV::Float(x) => { assert(be_f64(x).subrange(0, 8) =~= be_f64(x)); }
        _ => { }
    }
}
/// Setting a value stores that value, or fails.
pub proof fn lemma_set_small(v: ValueV, k: Seq<u8>, l: Seq<Seq<u8>>, b: MemoryBackend)
    requires value_args(v, l), val_small(v), b.ok(), k.len() > 0 ==> key_ok(k),
    ensures may_send(CommandId::Set, Some(kind_of(v)), with(k, l), b),
{
    lemma_encoded_back(v, l);
    assert(with(k, l).skip(1) =~= l);
    assert(with(k, l)[0] == k);
}
=== impl client::backend::memory::MemoryBackend
    pub open spec fn st(&self) -> St { self.hop.st() }
    pub open spec fn counts(&self) -> Map<crate::metrics::Metric, u64> { self.hop.0.metrics.counts() }
    pub open spec fn log(&self) -> Seq<crate::metrics::Metric> { self.hop.0.metrics_writer.log() }
    pub open spec fn ok(&self) -> bool { st_ok(self.st()) }
=== fn client::backend::memory::Error::From<DispatchError>::from
    ensures ret == (Error::RunningCommand { source }),
=== fn client::backend::memory::Error::From<RequestBuilderError>::from
    ensures ret == (Error::BuildingRequest { source }),
=== fn client::backend::memory::MemoryBackend::Default::default
    ensures ret.hop.fresh(),
=== fn client::backend::memory::MemoryBackend::new
    ensures ret.hop.fresh(), ret.ok(),
--- entry
    proof { lemma_st_new(); }
=== fn client::backend::memory::MemoryBackend::send
    requires
        forall|t: Request<'a>| #[trigger] req.rel(t) ==> t.wf() && may_send(t.cmd(), t.kt(), t.args_v(), *old(self)) && req_ok(&t),
    ensures
        exists|t: Request<'a>| #[trigger] req.rel(t) && sent(t.cmd(), t.kt(), t.args_v(), *old(self), *final(self), as_value_r(ret)),
        final(self).ok(),
--- entry
    broadcast use axiom_try_from, lemma_wrote, lemma_call;
=== fn client::backend::memory::MemoryBackend::Backend::get
    requires arg_fits(key@), may_send(CommandId::Get, None, one(key@), *old(self)),
    ensures
        final(self).ok(),
        key@.len() == 0 ==> unsent(*old(self), *final(self), as_value_r(ret)),
        key@.len() > 0 ==> sent(CommandId::Get, None, one(key@), *old(self), *final(self), as_value_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::delete
    requires arg_fits(key@), may_send(CommandId::Delete, None, one(key@), *old(self)),
    ensures
        final(self).ok(),
        key@.len() == 0 ==> unsent(*old(self), *final(self), as_bytes_r(ret)),
        key@.len() > 0 ==> sent(CommandId::Delete, None, one(key@), *old(self), *final(self), as_bytes_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::echo
    requires arg_fits(content@), may_send(CommandId::Echo, None, one(content@), *old(self)),
    ensures
        final(self).ok(),
        content@.len() == 0 ==> unsent(*old(self), *final(self), as_list_r(ret)),
        content@.len() > 0 ==> sent(CommandId::Echo, None, one(content@), *old(self), *final(self), as_list_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::decrement
    requires arg_fits(key@), may_send(CommandId::Decrement, key_type, one(key@), *old(self)),
    ensures
        final(self).ok(),
        key@.len() == 0 ==> unsent(*old(self), *final(self), as_value_r(ret)),
        key@.len() > 0 ==> sent(CommandId::Decrement, key_type, one(key@), *old(self), *final(self), as_value_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::increment
    requires arg_fits(key@), may_send(CommandId::Increment, key_type, one(key@), *old(self)),
    ensures
        final(self).ok(),
        key@.len() == 0 ==> unsent(*old(self), *final(self), as_value_r(ret)),
        key@.len() > 0 ==> sent(CommandId::Increment, key_type, one(key@), *old(self), *final(self), as_value_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::key_type
    requires arg_fits(key@), may_send(CommandId::Type, None, one(key@), *old(self)),
    ensures
        final(self).ok(),
        key@.len() == 0 ==> unsent(*old(self), *final(self), as_type_r(ret)),
        key@.len() > 0 ==> sent(CommandId::Type, None, one(key@), *old(self), *final(self), as_type_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::keys
    requires arg_fits(key@), may_send(CommandId::Keys, None, one(key@), *old(self)),
    ensures
        final(self).ok(),
        key@.len() == 0 ==> unsent(*old(self), *final(self), as_list_r(ret)),
        key@.len() > 0 ==> sent(CommandId::Keys, None, one(key@), *old(self), *final(self), as_list_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::length
    requires arg_fits(key@), may_send(CommandId::Length, key_type, one(key@), *old(self)),
    ensures
        final(self).ok(),
        key@.len() == 0 ==> unsent(*old(self), *final(self), as_int_r(ret)),
        key@.len() > 0 ==> sent(CommandId::Length, key_type, one(key@), *old(self), *final(self), as_int_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::decrement_by
    requires
        arg_fits(key@), old(self).ok(), key@.len() > 0 ==> key_ok(key@),
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@),
    ensures
        final(self).ok(),
        exists|t: Value| #[trigger] value.rel(t) && {
            if key@.len() == 0 || !(t is Integer || t is Float) { unsent(*old(self), *final(self), as_value_r(ret)) }
            else { exists|l: Seq<Seq<u8>>| value_args(t@, l) && #[trigger] sent(CommandId::DecrementBy, Some(kind_of(t@)), with(key@, l), *old(self), *final(self), as_value_r(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with;
=== fn client::backend::memory::MemoryBackend::Backend::increment_by
    requires
        arg_fits(key@), old(self).ok(), key@.len() > 0 ==> key_ok(key@),
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@),
    ensures
        final(self).ok(),
        exists|t: Value| #[trigger] value.rel(t) && {
            if key@.len() == 0 || !(t is Integer || t is Float) { unsent(*old(self), *final(self), as_value_r(ret)) }
            else { exists|l: Seq<Seq<u8>>| value_args(t@, l) && #[trigger] sent(CommandId::IncrementBy, Some(kind_of(t@)), with(key@, l), *old(self), *final(self), as_value_r(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with;
=== fn client::backend::memory::MemoryBackend::Backend::set
    requires
        arg_fits(key@), old(self).ok(), key@.len() > 0 ==> key_ok(key@),
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@) && val_small(t@),
    ensures
        final(self).ok(),
        exists|t: Value| #[trigger] value.rel(t) && {
            if key@.len() == 0 || value_empty(t@) || 1 + value_count(t@) > 255 { unsent(*old(self), *final(self), as_value_r(ret)) }
            else { exists|l: Seq<Seq<u8>>| value_args(t@, l) && #[trigger] sent(CommandId::Set, Some(kind_of(t@)), with(key@, l), *old(self), *final(self), as_value_r(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with;
--- before self.send(builder)
    proof { assert forall|l: Seq<Seq<u8>>| value_args(gv, l) implies #[trigger] may_send(CommandId::Set, Some(kind_of(gv)), with(key@, l), *old(self)) by { lemma_set_small(gv, key@, l, *old(self)); } }
--- after let value = value.into();
    let ghost gv = value@;
=== fn client::backend::memory::MemoryBackend::Backend::rename
    requires arg_fits(from@), arg_fits(to@), may_send(CommandId::Rename, None, with(from@, one(to@)), *old(self)),
    ensures
        final(self).ok(),
        from@.len() == 0 || to@.len() == 0 ==> unsent(*old(self), *final(self), as_bytes_r(ret)),
        from@.len() > 0 && to@.len() > 0 ==> sent(CommandId::Rename, None, with(from@, one(to@)), *old(self), *final(self), as_bytes_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::stats
    requires may_send(CommandId::Stats, None, seq![], *old(self)),
    ensures
        final(self).ok(),
        sent(CommandId::Stats, None, seq![], *old(self), *final(self), as_stats_r(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::memory::MemoryBackend::Backend::exists
    requires keys.into_ok(), all_fit(bytes_of(keys.items())), may_send(CommandId::Exists, None, bytes_of(keys.items()), *old(self)),
    ensures
        final(self).ok(),
        !sendable(bytes_of(keys.items())) ==> unsent(*old(self), *final(self), as_bool_r(ret)),
        sendable(bytes_of(keys.items())) ==> sent(CommandId::Exists, None, bytes_of(keys.items()), *old(self), *final(self), as_bool_r(ret)),
--- entry
    broadcast use axiom_try_from;
    let ghost ks = bytes_of(keys.items());
--- shape for
--- loop-before 0
    let ghost l0 = vx_it0.rest();
    let ghost g0 = builder;
    proof { lemma_at_start(l0); lemma_adds_none(g0); assert(ks.take(0) =~= seq![]); }
--- loop 0
    invariant
        vx_it0.iter_ok(), at(l0, vx_it0.rest()), ks == bytes_of(l0), all_fit(ks), *self == *old(self),
        g0.cmd() is Exists, g0.kt() == None::<KeyType>, g0.args_v() == Seq::<Seq<u8>>::empty(),
        adds(g0, builder, ks.take(done(l0, vx_it0.rest()))),
        no_empty(ks.take(done(l0, vx_it0.rest()))), done(l0, vx_it0.rest()) <= 255,
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost n0 = done(l0, vx_it0.rest()); let ghost b0 = builder;
    proof { lemma_at(l0, vx_it0.rest()); if n0 < l0.len() { assert(ks[n0] == l0[n0].ref_bytes()); assert(arg_fits(ks[n0])); if ks[n0].len() > 0 { lemma_no_empty(ks, n0); } } }
--- loop-end 0
    proof { lemma_adds_one(g0, b0, builder, ks, n0); }
--- loop-exit 0
    proof { assert(ks.take(l0.len() as int) =~= ks); assert(g0.args_v() + ks =~= ks); }
=== fn client::backend::memory::MemoryBackend::Backend::is
    requires keys.into_ok(), all_fit(bytes_of(keys.items())), may_send(CommandId::Is, Some(key_type), bytes_of(keys.items()), *old(self)),
    ensures
        final(self).ok(),
        !sendable(bytes_of(keys.items())) ==> unsent(*old(self), *final(self), as_bool_r(ret)),
        sendable(bytes_of(keys.items())) ==> sent(CommandId::Is, Some(key_type), bytes_of(keys.items()), *old(self), *final(self), as_bool_r(ret)),
--- entry
    broadcast use axiom_try_from;
    let ghost ks = bytes_of(keys.items());
--- shape for
--- loop-before 0
    let ghost l0 = vx_it0.rest();
    let ghost g0 = builder;
    proof { lemma_at_start(l0); lemma_adds_none(g0); assert(ks.take(0) =~= seq![]); }
--- loop 0
    invariant
        vx_it0.iter_ok(), at(l0, vx_it0.rest()), ks == bytes_of(l0), all_fit(ks), *self == *old(self),
        g0.cmd() is Is, g0.kt() == Some(key_type), g0.args_v() == Seq::<Seq<u8>>::empty(),
        adds(g0, builder, ks.take(done(l0, vx_it0.rest()))),
        no_empty(ks.take(done(l0, vx_it0.rest()))), done(l0, vx_it0.rest()) <= 255,
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost n0 = done(l0, vx_it0.rest()); let ghost b0 = builder;
    proof { lemma_at(l0, vx_it0.rest()); if n0 < l0.len() { assert(ks[n0] == l0[n0].ref_bytes()); assert(arg_fits(ks[n0])); if ks[n0].len() > 0 { lemma_no_empty(ks, n0); } } }
--- loop-end 0
    proof { lemma_adds_one(g0, b0, builder, ks, n0); }
--- loop-exit 0
    proof { assert(ks.take(l0.len() as int) =~= ks); assert(g0.args_v() + ks =~= ks); }
=== fn client::backend::memory::MemoryBackend::Backend::append
    requires
        arg_fits(key@), old(self).ok(), key@.len() > 0 ==> key_ok(key@),
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@) && (parts(t@) matches Some(ps) ==> may_send(CommandId::Append, Some(kind_of(t@)), with(key@, ps), *old(self))),
    ensures
        final(self).ok(),
        exists|t: Value| #[trigger] value.rel(t) && {
            if parts(t@) is None || !sendable(with(key@, parts(t@).unwrap())) { unsent(*old(self), *final(self), as_value_r(ret)) }
            else { sent(CommandId::Append, Some(kind_of(t@)), with(key@, parts(t@).unwrap()), *old(self), *final(self), as_value_r(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with;
--- after let value = value.into();
    let ghost gv = value@;
--- shape for
--- loop-before 0
    let ghost l0 = vx_it0.rest(); let ghost ks = deep(l0);
    let ghost g0 = builder;
    proof { lemma_at_start(l0); lemma_adds_none(g0); assert(ks.take(0) =~= seq![]); assert(gv == ValueV::List(ks)); }
--- loop 0
    invariant
        vx_it0.iter_ok(), at(l0, vx_it0.rest()), ks == deep(l0), all_fit(ks), *self == *old(self),
        g0.cmd() is Append, g0.kt() == Some(kind_of(gv)), g0.args_v() == one(key@), key@.len() > 0,
        adds(g0, builder, ks.take(done(l0, vx_it0.rest()))),
        no_empty(ks.take(done(l0, vx_it0.rest()))), done(l0, vx_it0.rest()) <= 254,
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost n0 = done(l0, vx_it0.rest()); let ghost b0 = builder;
    proof { lemma_at(l0, vx_it0.rest()); if n0 < l0.len() { assert(ks[n0] == l0[n0]@); assert(arg_fits(ks[n0])); assert(with(key@, ks)[n0 + 1] == ks[n0]); if ks[n0].len() > 0 { lemma_no_empty(ks, n0); } } }
--- loop-end 0
    proof { lemma_adds_one(g0, b0, builder, ks, n0); }
--- loop-exit 0
    proof { assert(ks.take(l0.len() as int) =~= ks); }
=== sp of_client
/// C23: a value set through the client is returned equal by get.
pub fn theorem_c23(b: &mut MemoryBackend, key: &[u8], v: Value) -> (r: (Result<Value, MErr>, Result<Value, MErr>))
    requires
        old(b).ok(), key@.len() > 0, arg_fits(key@), key_ok(key@), value_fits(v@), val_small(v@),
    ensures
        r.0 is Ok <==> r.1 is Ok && old(b).st().insert(key@, v@) =~= final(b).st(),
        r.0 matches Ok(w) ==> w@ == v@ && (r.1 matches Ok(g) && g@ == v@),
{
    let s = b.set(key, v);
    if s.is_err() { return (s, Err(MErr::KeyTypeInvalid { number: 0 })); }
    proof {
        let k = Some(kind_of(v@));
        let l = choose|l: Seq<Seq<u8>>| value_args(v@, l) && #[trigger] sent(CommandId::Set, k, with(key@, l), *old(b), *b, as_value_r(s));
        lemma_encoded_back(v@, l);
        let a = with(key@, l);
        assert(a.skip(1) =~= l);
        assert(a[0] == key@);
        let (r1, d) = choose|r1: Seq<u8>, d: Result<(), DispatchError>| answered(r1, d, as_value_r(s)) && does(CommandId::Set, #[trigger] ccall(k, a, old(b).st(), b.st(), r1, d), old(b).counts());
        let c = ccall(k, a, old(b).st(), b.st(), r1, d);
        assert(set_out(c) == Some(v@));
        assert(same_but(old(b).st(), b.st(), key@));
        assert(b.st() =~= b.st().remove(key@).insert(key@, v@));
        assert(old(b).st().insert(key@, v@) =~= old(b).st().remove(key@).insert(key@, v@));
    }
    assert(b.st() =~= old(b).st().insert(key@, v@));
    let g = b.get(key);
    assert(one(key@)[0] == key@);
    (s, g)
}
