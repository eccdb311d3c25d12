=== drop
client::backend::memory
client::backend::MemoryBackend
client::backend::Backend
client::request
client::Client<MemoryBackend>
client::Client<B>
=== mod client::backend
/// The one backend under contract here is `ServerBackend`.
pub trait Backend: Sized { type Error; }
impl Backend for ServerBackend { type Error = crate::client::backend::server::Error; }
=== mod client
pub use crate::client::backend::Backend; #[allow(unused_imports)] use crate::tokio; #[allow(unused_imports)] use crate::vx_tcp::*;
=== mut_self
client::backend::server::ServerBackend::send_and_wait
client::backend::server::ServerBackend::Backend::append
client::backend::server::ServerBackend::Backend::decrement_by
client::backend::server::ServerBackend::Backend::decrement
client::backend::server::ServerBackend::Backend::delete
client::backend::server::ServerBackend::Backend::echo
client::backend::server::ServerBackend::Backend::exists
client::backend::server::ServerBackend::Backend::get
client::backend::server::ServerBackend::Backend::increment_by
client::backend::server::ServerBackend::Backend::increment
client::backend::server::ServerBackend::Backend::is
client::backend::server::ServerBackend::Backend::key_type
client::backend::server::ServerBackend::Backend::keys
client::backend::server::ServerBackend::Backend::length
client::backend::server::ServerBackend::Backend::rename
client::backend::server::ServerBackend::Backend::set
client::backend::server::ServerBackend::Backend::stats
=== mod client::backend::server
#[allow(unused_imports)] use crate::vx_tcp::*;
#[allow(unused_imports)] use core::result::Result as StdResult;
#[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
=== sp of_tcp
use crate::client::backend::server::ServerBackend; pub type TErr = crate::client::backend::server::Error; use crate::client::model::StatsData;
/// What is made of a response.
pub open spec fn made_of(fv: FV, r: Result<ValueV, TErr>) -> bool {
    match r {
        Ok(v) => fv_val(fv) == Some(v),
        Err(TErr::Dispatching { reason }) => fv == FV::DErr(reason),
        Err(TErr::BadRequest { reason }) => fv == FV::PErr(reason),
        _ => false,
    }
}
pub open spec fn failed(r: Result<ValueV, TErr>) -> bool { r matches Err(e) && (e is WritingMessage || e is ReadingMessage) }
/// Exactly the bytes of one request were written; if what comes next is a response, exactly its bytes were
/// read, and the result is what it says; or else the connection failed.
#[verifier::opaque]
pub open spec fn asked(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, b0: ServerBackend, b1: ServerBackend, r: Result<ValueV, TErr>) -> bool {
    &&& (r matches Err(TErr::WritingMessage { .. })) || b1.written() == b0.written() + req_bytes(cmd, kt, args)
    &&& forall|fv: FV| #[trigger] fdenotes(b0.coming(), fv) ==> failed(r) || made_of(fv, r) && b1.coming() == b0.coming().skip(frame(fv).len() as int)
}
/// The request couldn't be built, and nothing was written or read.
pub open spec fn untold(b0: ServerBackend, b1: ServerBackend, r: Result<ValueV, TErr>) -> bool {
    b1 == b0 && (r matches Err(e) && (e is BuildingRequest || e is KeyTypeUnsupported))
}
/// The request was sent, and the response is one of the expected type.
pub open spec fn asked_for(ks: Set<KeyType>, cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, b0: ServerBackend, b1: ServerBackend, r: Result<ValueV, TErr>) -> bool {
    exists|x: Result<ValueV, TErr>| #[trigger] asked(cmd, kt, args, b0, b1, x) && (match x {
        Ok(v) => if ks.contains(kind_of(v)) { r == x } else { r == Err::<ValueV, TErr>(TErr::BadResponse) },
        Err(_) => r == x,
    })
}
pub open spec fn just(k: KeyType) -> Set<KeyType> { set![k] }
pub open spec fn numbers() -> Set<KeyType> { set![KeyType::Integer, KeyType::Float] }
pub open spec fn typed(x: Result<ValueV, TErr>, r: Result<KeyType, TErr>) -> bool {
    match x {
        Ok(ValueV::Integer(i)) => match r {
            Ok(k) => kt_code(k) == i.code(),
            Err(e) => e == (TErr::KeyTypeInvalid { number: i.code() }) && forall|k: KeyType| #[trigger] kt_code(k) != i.code(),
        },
        Ok(_) => r == Err::<KeyType, TErr>(TErr::BadResponse),
        Err(e) => r == Err::<KeyType, TErr>(e),
    }
}
pub open spec fn asked_type(args: Seq<Seq<u8>>, b0: ServerBackend, b1: ServerBackend, r: Result<KeyType, TErr>) -> bool {
    exists|x: Result<ValueV, TErr>| #[trigger] asked(CommandId::Type, None, args, b0, b1, x) && typed(x, r)
}
pub open spec fn as_bytes_t(r: Result<Vec<u8>, TErr>) -> Result<ValueV, TErr> { match r { Ok(v) => Ok(ValueV::Bytes(v@)), Err(e) => Err(e) } }
pub open spec fn as_list_t(r: Result<Vec<Vec<u8>>, TErr>) -> Result<ValueV, TErr> { match r { Ok(v) => Ok(ValueV::List(deep(v@))), Err(e) => Err(e) } }
pub open spec fn as_bool_t(r: Result<bool, TErr>) -> Result<ValueV, TErr> { match r { Ok(v) => Ok(ValueV::Boolean(v)), Err(e) => Err(e) } }
pub open spec fn as_int_t(r: Result<i64, TErr>) -> Result<ValueV, TErr> { match r { Ok(v) => Ok(ValueV::Integer(v)), Err(e) => Err(e) } }
pub open spec fn as_value_t(r: Result<Value, TErr>) -> Result<ValueV, TErr> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
pub open spec fn as_stats_t(r: Result<StatsData, TErr>) -> Result<ValueV, TErr> { match r { Ok(v) => Ok(ValueV::Map(v.map())), Err(e) => Err(e) } }
=== impl client::backend::server::ServerBackend
    pub closed spec fn coming(&self) -> Seq<u8> { self.reader.inner.inner.coming() }
    pub closed spec fn written(&self) -> Seq<u8> { self.writer.inner.written() }
=== fn client::backend::server::Error::From<RequestBuilderError>::from
    ensures ret == (Error::BuildingRequest { source }),
=== fn client::backend::server::ServerBackend::connect
    ensures true,
=== fn client::Client<backend::ServerBackend>::connect
    ensures true,
=== fn client::backend::server::ServerBackend::send_and_wait
    requires forall|t: Request<'vx_a>| #[trigger] request.rel(t) ==> t.wf(),
    ensures exists|t: Request<'vx_a>| #[trigger] request.rel(t) && asked(t.cmd(), t.kt(), t.args_v(), *old(self), *final(self), as_value_t(ret)),
--- attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
--- entry
    proof { reveal(asked); }
    let ghost c0 = self.coming();
--- shape loop
--- loop-before 0
    proof { assert(resp@ + reader.inner.coming() =~= c0); assert forall|fv: FV| #[trigger] fdenotes(c0, fv) implies frame(fv).len() >= 5 by { lemma_frame(fv); } }
--- loop 0
    invariant
        c0 == resp@ + reader.inner.coming(),
        ctx.ok(resp@.len() as int), 1 <= remaining <= 0x2_0000_0000,
        forall|fv: FV| #[trigger] fdenotes(c0, fv) ==> ctx.fresh() && resp@.len() < frame(fv).len() && remaining <= (if resp@.len() == 0 { 4 } else { fmissing(resp@, fv) }),
--- loop-entry 0
    let ghost vx_r = resp@;
    proof { axiom_vec_len(&resp); }
--- before match ctx.feed(&resp)
    proof { assert(resp@ =~= vx_r + resp@.skip(vx_r.len() as int)); assert(resp@ + reader.inner.coming() =~= c0); lemma_chunk(c0, vx_r, resp@, reader.inner.coming(), remaining as int); }
=== sp of_tcp
pub proof fn lemma_chunk(c0: Seq<u8>, r: Seq<u8>, r2: Seq<u8>, coming: Seq<u8>, n: int)
    requires c0 == r2 + coming, r2.len() == r.len() + n, n >= 1,
    ensures
        forall|fv: FV| #[trigger] fdenotes(c0, fv) && r2.len() < frame(fv).len() ==> fstarts(r2, fv),
        forall|fv: FV| #[trigger] fdenotes(c0, fv) && r2.len() == frame(fv).len() ==> fdenotes(r2, fv) && coming == c0.skip(frame(fv).len() as int),
{
    assert forall|fv: FV| #[trigger] fdenotes(c0, fv) && r2.len() < frame(fv).len() implies fstarts(r2, fv) by {
        assert(c0.take(frame(fv).len() as int) =~= frame(fv));
        assert(r2 =~= frame(fv).take(r2.len() as int));
    }
    assert forall|fv: FV| #[trigger] fdenotes(c0, fv) && r2.len() == frame(fv).len() implies fdenotes(r2, fv) && coming == c0.skip(frame(fv).len() as int) by {
        assert(c0.take(frame(fv).len() as int) =~= frame(fv));
        assert(r2 =~= frame(fv));
        assert(r2.take(frame(fv).len() as int) =~= frame(fv));
        assert(coming =~= c0.skip(frame(fv).len() as int));
    }
}
=== fn client::backend::server::ServerBackend::Backend::get
    requires arg_fits(key@),
    ensures
        key@.len() == 0 ==> untold(*old(self), *final(self), as_value_t(ret)),
        !(key@.len() == 0) ==> asked(CommandId::Get, None, one(key@), *old(self), *final(self), as_value_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::delete
    requires arg_fits(key@),
    ensures
        key@.len() == 0 ==> untold(*old(self), *final(self), as_bytes_t(ret)),
        !(key@.len() == 0) ==> asked_for(just(KeyType::Bytes), CommandId::Delete, None, one(key@), *old(self), *final(self), as_bytes_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::echo
    requires arg_fits(content@),
    ensures
        content@.len() == 0 ==> untold(*old(self), *final(self), as_list_t(ret)),
        !(content@.len() == 0) ==> asked_for(just(KeyType::List), CommandId::Echo, None, one(content@), *old(self), *final(self), as_list_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::decrement
    requires arg_fits(key@),
    ensures
        key@.len() == 0 ==> untold(*old(self), *final(self), as_value_t(ret)),
        !(key@.len() == 0) ==> asked_for(numbers(), CommandId::Decrement, key_type, one(key@), *old(self), *final(self), as_value_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::increment
    requires arg_fits(key@),
    ensures
        key@.len() == 0 ==> untold(*old(self), *final(self), as_value_t(ret)),
        !(key@.len() == 0) ==> asked_for(numbers(), CommandId::Increment, key_type, one(key@), *old(self), *final(self), as_value_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::keys
    requires arg_fits(key@),
    ensures
        key@.len() == 0 ==> untold(*old(self), *final(self), as_list_t(ret)),
        !(key@.len() == 0) ==> asked_for(just(KeyType::List), CommandId::Keys, None, one(key@), *old(self), *final(self), as_list_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::length
    requires arg_fits(key@),
    ensures
        key@.len() == 0 ==> untold(*old(self), *final(self), as_int_t(ret)),
        !(key@.len() == 0) ==> asked_for(just(KeyType::Integer), CommandId::Length, key_type, one(key@), *old(self), *final(self), as_int_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::rename
    requires arg_fits(from@), arg_fits(to@),
    ensures
        from@.len() == 0 || to@.len() == 0 ==> untold(*old(self), *final(self), as_bytes_t(ret)),
        !(from@.len() == 0 || to@.len() == 0) ==> asked_for(just(KeyType::Bytes), CommandId::Rename, None, with(from@, one(to@)), *old(self), *final(self), as_bytes_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::stats
    requires true,
    ensures
        asked_for(just(KeyType::Map), CommandId::Stats, None, seq![], *old(self), *final(self), as_stats_t(ret)),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::key_type
    requires arg_fits(key@),
    ensures
        key@.len() == 0 ==> *final(self) == *old(self) && (ret matches Err(e) && e is BuildingRequest),
        key@.len() > 0 ==> asked_type(one(key@), *old(self), *final(self), ret),
--- entry
    broadcast use axiom_try_from;
=== fn client::backend::server::ServerBackend::Backend::increment_by
    requires
        arg_fits(key@),
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@),
    ensures
        exists|t: Value| #[trigger] value.rel(t) && {
            if key@.len() == 0 || !(t is Integer || t is Float) { untold(*old(self), *final(self), as_value_t(ret)) }
            else { exists|l: Seq<Seq<u8>>| #[trigger] value_args(t@, l) && asked_for(numbers(), CommandId::IncrementBy, Some(kind_of(t@)), with(key@, l), *old(self), *final(self), as_value_t(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with, lemma_with_first;
=== fn client::backend::server::ServerBackend::Backend::decrement_by
    requires
        arg_fits(key@),
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@),
    ensures
        exists|t: Value| #[trigger] value.rel(t) && {
            if key@.len() == 0 || !(t is Integer || t is Float) { untold(*old(self), *final(self), as_value_t(ret)) }
            else { exists|l: Seq<Seq<u8>>| #[trigger] value_args(t@, l) && asked_for(numbers(), CommandId::DecrementBy, Some(kind_of(t@)), with(key@, l), *old(self), *final(self), as_value_t(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with, lemma_with_first;
=== fn client::backend::server::ServerBackend::Backend::set
    requires
        arg_fits(key@),
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@),
    ensures
        exists|t: Value| #[trigger] value.rel(t) && {
            if key@.len() == 0 || value_empty(t@) || 1 + value_count(t@) > 255 { untold(*old(self), *final(self), as_value_t(ret)) }
            else { exists|l: Seq<Seq<u8>>| #[trigger] value_args(t@, l) && asked(CommandId::Set, Some(kind_of(t@)), with(key@, l), *old(self), *final(self), as_value_t(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with, lemma_with_first;
=== fn client::backend::server::ServerBackend::Backend::exists
    requires keys.into_ok(), all_fit(bytes_of(keys.items())),
    ensures
        !sendable(bytes_of(keys.items())) ==> untold(*old(self), *final(self), as_bool_t(ret)),
        sendable(bytes_of(keys.items())) ==> asked_for(just(KeyType::Boolean), CommandId::Exists, None, bytes_of(keys.items()), *old(self), *final(self), as_bool_t(ret)),
--- entry
    broadcast use axiom_try_from;
    let ghost ks = bytes_of(keys.items());
--- shape for
--- loop-before 0
    let ghost l0 = vx_it0.rest();
    let ghost g0 = builder;
    proof { lemma_at_start(l0); lemma_adds_none(g0); assert(ks.take(0) =~= seq![]); }
--- loop 0
    invariant
        vx_it0.iter_ok(), at(l0, vx_it0.rest()), ks == bytes_of(l0), all_fit(ks), *self == *old(self),
        g0.cmd() is Exists, g0.kt() == None::<KeyType>, g0.args_v() == Seq::<Seq<u8>>::empty(),
        adds(g0, builder, ks.take(done(l0, vx_it0.rest()))),
        no_empty(ks.take(done(l0, vx_it0.rest()))), done(l0, vx_it0.rest()) <= 255,
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost n0 = done(l0, vx_it0.rest()); let ghost b0 = builder;
    proof { lemma_at(l0, vx_it0.rest()); if n0 < l0.len() { assert(ks[n0] == l0[n0].ref_bytes()); assert(arg_fits(ks[n0])); if ks[n0].len() > 0 { lemma_no_empty(ks, n0); } } }
--- loop-end 0
    proof { lemma_adds_one(g0, b0, builder, ks, n0); }
--- loop-exit 0
    proof { assert(ks.take(l0.len() as int) =~= ks); assert(g0.args_v() + ks =~= ks); }
=== fn client::backend::server::ServerBackend::Backend::is
    requires keys.into_ok(), all_fit(bytes_of(keys.items())),
    ensures
        !sendable(bytes_of(keys.items())) ==> untold(*old(self), *final(self), as_bool_t(ret)),
        sendable(bytes_of(keys.items())) ==> asked_for(just(KeyType::Boolean), CommandId::Is, Some(key_type), bytes_of(keys.items()), *old(self), *final(self), as_bool_t(ret)),
--- entry
    broadcast use axiom_try_from;
    let ghost ks = bytes_of(keys.items());
--- shape for
--- loop-before 0
    let ghost l0 = vx_it0.rest();
    let ghost g0 = builder;
    proof { lemma_at_start(l0); lemma_adds_none(g0); assert(ks.take(0) =~= seq![]); }
--- loop 0
    invariant
        vx_it0.iter_ok(), at(l0, vx_it0.rest()), ks == bytes_of(l0), all_fit(ks), *self == *old(self),
        g0.cmd() is Is, g0.kt() == Some(key_type), g0.args_v() == Seq::<Seq<u8>>::empty(),
        adds(g0, builder, ks.take(done(l0, vx_it0.rest()))),
        no_empty(ks.take(done(l0, vx_it0.rest()))), done(l0, vx_it0.rest()) <= 255,
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost n0 = done(l0, vx_it0.rest()); let ghost b0 = builder;
    proof { lemma_at(l0, vx_it0.rest()); if n0 < l0.len() { assert(ks[n0] == l0[n0].ref_bytes()); assert(arg_fits(ks[n0])); if ks[n0].len() > 0 { lemma_no_empty(ks, n0); } } }
--- loop-end 0
    proof { lemma_adds_one(g0, b0, builder, ks, n0); }
--- loop-exit 0
    proof { assert(ks.take(l0.len() as int) =~= ks); assert(g0.args_v() + ks =~= ks); }
=== fn client::backend::server::ServerBackend::Backend::append
    requires
        arg_fits(key@), 
        forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@),
    ensures
        exists|t: Value| #[trigger] value.rel(t) && {
            if parts(t@) is None || !sendable(with(key@, parts(t@).unwrap())) { untold(*old(self), *final(self), as_value_t(ret)) }
            else { asked(CommandId::Append, Some(kind_of(t@)), with(key@, parts(t@).unwrap()), *old(self), *final(self), as_value_t(ret)) }
        },
--- entry
    broadcast use axiom_try_from, lemma_with, lemma_with_first;
--- after let value = value.into();
    let ghost gv = value@;
--- shape for
--- loop-before 0
    let ghost l0 = vx_it0.rest(); let ghost ks = deep(l0);
    let ghost g0 = builder;
    proof { lemma_at_start(l0); lemma_adds_none(g0); assert(ks.take(0) =~= seq![]); assert(gv == ValueV::List(ks)); }
--- loop 0
    invariant
        vx_it0.iter_ok(), at(l0, vx_it0.rest()), ks == deep(l0), all_fit(ks), *self == *old(self),
        g0.cmd() is Append, g0.kt() == Some(kind_of(gv)), g0.args_v() == one(key@), key@.len() > 0,
        adds(g0, builder, ks.take(done(l0, vx_it0.rest()))),
        no_empty(ks.take(done(l0, vx_it0.rest()))), done(l0, vx_it0.rest()) <= 254,
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost n0 = done(l0, vx_it0.rest()); let ghost b0 = builder;
    proof { lemma_at(l0, vx_it0.rest()); if n0 < l0.len() { assert(ks[n0] == l0[n0]@); assert(arg_fits(ks[n0])); assert(with(key@, ks)[n0 + 1] == ks[n0]); if ks[n0].len() > 0 { lemma_no_empty(ks, n0); } } }
--- loop-end 0
    proof { lemma_adds_one(g0, b0, builder, ks, n0); }
--- loop-exit 0
    proof { assert(ks.take(l0.len() as int) =~= ks); }
=== sp of_tcp
/// C25: what the server answers a request with is what the client that sent it gets.
pub proof fn theorem_c25_answer(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, said: Seq<u8>, m: Metric, more: Seq<u8>, b0: ServerBackend, b1: ServerBackend, r: Result<ValueV, TErr>)
    requires answer(cmd, kt, args, said, m), b0.coming() == said + more, asked(cmd, kt, args, b0, b1, r), !failed(r),
    ensures
        b1.coming() == more, b1.written() == b0.written() + req_bytes(cmd, kt, args),
        exists|st0: St, st1: St, counts: Map<Metric, u64>, r1: Seq<u8>, d: Result<(), DispatchError>|
            #[trigger] does(cmd, ccall(kt, args, st0, st1, r1, d), counts) && outcome(r1, d, r),
{
    reveal(asked);
    let (st0, st1, counts, r1, d) = choose|st0: St, st1: St, counts: Map<Metric, u64>, r1: Seq<u8>, d: Result<(), DispatchError>|
        #[trigger] does(cmd, ccall(kt, args, st0, st1, r1, d), counts) && tells(r1, d, said, m);
    let fv = match d {
        Ok(_) => {
            let v = choose|v: ValueV| #[trigger] wrote(Seq::<u8>::empty(), said, v);
            choose|fv: FV| said =~= Seq::<u8>::empty() + #[trigger] frame(fv) && carries(fv, v)
        }
        Err(e) => FV::DErr(e),
    };
    assert(said =~= frame(fv));
    assert(b0.coming().take(said.len() as int) =~= said);
    assert(fdenotes(b0.coming(), fv));
    assert(b0.coming().skip(said.len() as int) =~= more);
    assert(outcome(r1, d, r));
}
/// The value that was written, or the error.
pub open spec fn outcome(r1: Seq<u8>, d: Result<(), DispatchError>, r: Result<ValueV, TErr>) -> bool {
    match r {
        Ok(v) => d is Ok && wrote(Seq::<u8>::empty(), r1, v),
        Err(x) => d matches Err(e) && x == (TErr::Dispatching { reason: e }),
    }
}
