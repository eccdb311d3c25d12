=== drop
client::Client<backend::ServerBackend> client::backend::server client::backend::Backend client::request::MaybeInFlightFuture
=== mod client::backend
/// The one backend under contract is `MemoryBackend`.
pub trait Backend: Sized { }
impl Backend for MemoryBackend { }
=== mod client
pub use crate::client::backend::Backend;
=== sp of_client
// The futures of client/src/request: what each hands to the backend, and what it makes of the answer.
pub open spec fn as_str_r(r: Result<String, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Str(v@)), Err(e) => Err(e) } }
pub open spec fn as_float_r(r: Result<f64, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Float(v)), Err(e) => Err(e) } }
pub open spec fn as_map_r(r: Result<DashMap<Vec<u8>, Vec<u8>>, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Map(v@)), Err(e) => Err(e) } }
pub open spec fn as_set_r(r: Result<Vec<Vec<u8>>, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Set(deep(v@).to_set())), Err(e) => Err(e) } }
pub open spec fn as_dset_r(r: Result<DashSet<Vec<u8>>, MErr>) -> Result<ValueV, MErr> { match r { Ok(v) => Ok(ValueV::Set(v@)), Err(e) => Err(e) } }
pub open spec fn did_one(cmd: CommandId, kt: Option<KeyType>, k: Seq<u8>, b0: MemoryBackend, b1: MemoryBackend, r: Result<ValueV, MErr>) -> bool {
    b1.ok() && if k.len() == 0 { unsent(b0, b1, r) } else { sent(cmd, kt, one(k), b0, b1, r) }
}
pub open spec fn did_rename(from: Seq<u8>, to: Seq<u8>, b0: MemoryBackend, b1: MemoryBackend, r: Result<ValueV, MErr>) -> bool {
    b1.ok() && if from.len() == 0 || to.len() == 0 { unsent(b0, b1, r) } else { sent(CommandId::Rename, None, with(from, one(to)), b0, b1, r) }
}
pub open spec fn did_many(cmd: CommandId, kt: Option<KeyType>, ks: Seq<Seq<u8>>, b0: MemoryBackend, b1: MemoryBackend, r: Result<ValueV, MErr>) -> bool {
    b1.ok() && if !sendable(ks) { unsent(b0, b1, r) } else { sent(cmd, kt, ks, b0, b1, r) }
}
pub open spec fn did_set(v: ValueV, k: Seq<u8>, b0: MemoryBackend, b1: MemoryBackend, r: Result<ValueV, MErr>) -> bool {
    b1.ok() && if k.len() == 0 || value_empty(v) || 1 + value_count(v) > 255 { unsent(b0, b1, r) }
    else { exists|l: Seq<Seq<u8>>| value_args(v, l) && #[trigger] sent(CommandId::Set, Some(kind_of(v)), with(k, l), b0, b1, r) }
}
pub open spec fn did_step(cmd: CommandId, v: ValueV, k: Seq<u8>, b0: MemoryBackend, b1: MemoryBackend, r: Result<ValueV, MErr>) -> bool {
    b1.ok() && if k.len() == 0 { unsent(b0, b1, r) }
    else { exists|l: Seq<Seq<u8>>| value_args(v, l) && #[trigger] sent(cmd, Some(kind_of(v)), with(k, l), b0, b1, r) }
}
pub open spec fn did_append(v: ValueV, k: Seq<u8>, b0: MemoryBackend, b1: MemoryBackend, r: Result<ValueV, MErr>) -> bool {
    b1.ok() && if !sendable(with(k, parts(v).unwrap())) { unsent(b0, b1, r) }
    else { sent(CommandId::Append, Some(kind_of(v)), with(k, parts(v).unwrap()), b0, b1, r) }
}
pub open spec fn set_ok(v: ValueV, k: Seq<u8>, b: MemoryBackend) -> bool {
    arg_fits(k) && b.ok() && (k.len() > 0 ==> key_ok(k)) && value_fits(v) && val_small(v)
}
pub open spec fn step_ok(k: Seq<u8>, b: MemoryBackend) -> bool { arg_fits(k) && b.ok() && (k.len() > 0 ==> key_ok(k)) }
pub open spec fn append_ok(v: ValueV, k: Seq<u8>, b: MemoryBackend) -> bool {
    step_ok(k, b) && value_fits(v) && may_send(CommandId::Append, Some(kind_of(v)), with(k, parts(v).unwrap()), b)
}
/// The key has a value of the type it is read as, or none (known finding C23-get-other-type).
pub open spec fn kept_as(b: MemoryBackend, k: Seq<u8>, t: KeyType) -> bool { b.st().contains_key(k) ==> kind_of(b.st()[k]) == t }
/// A set made of a list, and a list made of a set.
pub broadcast proof fn lemma_set_given(l: Vec<Vec<u8>>, d: DashSet<Vec<u8>>)
    requires #[trigger] <DashSet<Vec<u8>> as VxFromIter<Vec<Vec<u8>>>>::made(l, d),
    ensures d@ == deep(l@).to_set(),
{ assert(Seq::new(l@.len(), |i: int| l@[i]@) =~= deep(l@)); }
pub broadcast proof fn lemma_set_taken(d: DashSet<Vec<u8>>, l: Seq<Vec<u8>>)
    requires #[trigger] d.items() == l,
    ensures #[trigger] deep(l).to_set() == d@,
{ broadcast use axiom_set_into_order; assert(own_items(l) =~= deep(l)); assert(deep(l).to_set() =~= d@); }
/// The type of the answer to a request.
pub broadcast proof fn lemma_kind(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, b0: MemoryBackend, b1: MemoryBackend, r: Result<ValueV, MErr>)
    requires #[trigger] sent(cmd, kt, args, b0, b1, r),
    ensures
        cmd is Get && args.len() > 0 ==> (r matches Ok(v) ==> b0.st().contains_key(args[0]) && v == b0.st()[args[0]]),
        (cmd is Set || cmd is Append || (cmd is IncrementBy || cmd is DecrementBy) && (kt == Some(KeyType::Integer) || kt == Some(KeyType::Float))) && args.len() > 1 && kt is Some ==> (r matches Ok(v) ==> kind_of(v) == kt.unwrap()),
{
    let (r1, d) = choose|r1: Seq<u8>, d: Result<(), DispatchError>| answered(r1, d, r)
        && does(cmd, #[trigger] ccall(kt, args, b0.st(), b1.st(), r1, d), b0.counts())
        && b1.log() == b0.log().push(if d is Ok { Metric::CommandsSuccessful } else { Metric::CommandsErrored })
        && (numeric(cmd) ==> c_number(ccall(kt, args, b0.st(), b1.st(), r1, d)));
    let c = ccall(kt, args, b0.st(), b1.st(), r1, d);
    if r is Ok && args.len() > 1 && kt is Some {
        assert(c.eff_or(KeyType::Bytes) == kt.unwrap());
        if cmd is Set { assert(set_out(c) is Some); assert(kind_of(set_out(c).unwrap()) == kt.unwrap()); }
        if cmd is Append { assert(append_out(c) is Some); }
    }
}
=== fn client::request::delete::Delete<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::delete::Delete<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Delete, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Delete, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_bytes_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::keys::Keys<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::keys::Keys<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Keys, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Keys, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_list_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::type::Type<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::type::Type<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Type, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Type, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_type_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::GetUnconfigured<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_value_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::length::Length<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.kind is None,
=== fn client::request::length::Length<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Length, self.kind, one(self.key.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Length, self.kind, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_int_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::increment::Increment<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.kind is None,
=== fn client::request::increment::Increment<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Increment, self.kind, one(self.key.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Increment, self.kind, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_value_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::decrement::Decrement<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::decrement::Decrement<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Decrement, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Decrement, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_value_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::echo::Echo<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.content == Some(content),
=== fn client::request::echo::Echo<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.content is Some, arg_fits(self.content.unwrap().ref_bytes()), may_send(crate::command::CommandId::Echo, None, one(self.content.unwrap().ref_bytes()), *old(vx_b)),
    ensures did_one(crate::command::CommandId::Echo, None, self.content.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_list_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::rename::Rename<B,F,T>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.from == Some(from), ret.to == Some(to),
=== fn client::request::rename::Rename<B,F,T>::Future::poll
    requires self.fut is None, self.backend is Some, self.from is Some, self.to is Some, arg_fits(self.from.unwrap().ref_bytes()), arg_fits(self.to.unwrap().ref_bytes()), may_send(crate::command::CommandId::Rename, None, with(self.from.unwrap().ref_bytes(), one(self.to.unwrap().ref_bytes())), *old(vx_b)),
    ensures did_rename(self.from.unwrap().ref_bytes(), self.to.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_bytes_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::stats::Stats<B>::new
    ensures ret.fut is None, ret.backend == Some(backend),
=== fn client::request::stats::Stats<B>::Future::poll
    requires self.fut is None, self.backend is Some, may_send(crate::command::CommandId::Stats, None, seq![], *old(vx_b)),
    ensures final(vx_b).ok(), sent(crate::command::CommandId::Stats, None, seq![], *old(vx_b), *final(vx_b), as_stats_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::length::Length<B,K>::bytes
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.kind == Some(crate::state::KeyType::Bytes),
=== fn client::request::length::Length<B,K>::list
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.kind == Some(crate::state::KeyType::List),
=== fn client::request::length::Length<B,K>::map
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.kind == Some(crate::state::KeyType::Map),
=== fn client::request::length::Length<B,K>::set
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.kind == Some(crate::state::KeyType::Set),
=== fn client::request::length::Length<B,K>::string
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.kind == Some(crate::state::KeyType::String),
=== fn client::request::length::Length<B,K>::str
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.kind == Some(crate::state::KeyType::String),
=== fn client::request::exists::Exists<B>::new
    ensures ret.backend == backend,
=== fn client::request::is::Is<B>::new
    ensures ret.backend == backend, ret.key_type == key_type,
=== fn client::request::exists::ExistsConfigured<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.keys == Some(keys),
=== fn client::request::exists::Exists<B>::key
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.keys matches Some(l) && l@ == seq![key],
=== fn client::request::exists::Exists<B>::keys
    requires keys.into_ok(),
    ensures
        ret is Err <==> keys.items().len() == 0 || keys.items().len() > 255,
        ret matches Err(e) ==> (e is NoKeys <==> keys.items().len() == 0),
        ret matches Ok(c) ==> c.fut is None && c.backend == Some(self.backend) && (c.keys matches Some(l) && l@ == keys.items()),
=== fn client::request::exists::ExistsConfigured<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.keys is Some, all_fit(bytes_of(self.keys.unwrap()@)), may_send(crate::command::CommandId::Exists, None, bytes_of(self.keys.unwrap()@), *old(vx_b)),
    ensures did_many(crate::command::CommandId::Exists, None, bytes_of(self.keys.unwrap()@), *old(vx_b), *final(vx_b), as_bool_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::is::IsConfigured<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.keys == Some(keys), ret.key_type == key_type,
=== fn client::request::is::Is<B>::key
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.keys matches Some(l) && l@ == seq![key], ret.key_type == self.key_type,
=== fn client::request::is::Is<B>::keys
    requires keys.into_ok(),
    ensures
        ret is Err <==> keys.items().len() == 0 || keys.items().len() > 255,
        ret matches Err(e) ==> (e is NoKeys <==> keys.items().len() == 0),
        ret matches Ok(c) ==> c.fut is None && c.backend == Some(self.backend) && (c.keys matches Some(l) && l@ == keys.items()) && c.key_type == self.key_type,
=== fn client::request::is::IsConfigured<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.keys is Some, all_fit(bytes_of(self.keys.unwrap()@)), may_send(crate::command::CommandId::Is, Some(self.key_type), bytes_of(self.keys.unwrap()@), *old(vx_b)),
    ensures did_many(crate::command::CommandId::Is, Some(self.key_type), bytes_of(self.keys.unwrap()@), *old(vx_b), *final(vx_b), as_bool_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::get_boolean::GetBoolean<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_boolean::GetBoolean<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::Boolean),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_bool_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::bool
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::GetUnconfigured<B,K>::boolean
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::get_bytes::GetBytes<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_bytes::GetBytes<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::Bytes),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_bytes_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::bytes
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::get_float::GetFloat<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_float::GetFloat<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::Float),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_float_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::float
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::get_integer::GetInteger<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_integer::GetInteger<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::Integer),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_int_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::int
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::GetUnconfigured<B,K>::integer
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::get_list::GetList<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_list::GetList<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::List),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_list_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::list
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::get_map::GetMap<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_map::GetMap<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::Map),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_map_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::map
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::get_set::GetSet<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_set::GetSet<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::Set),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_dset_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::set
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::get_string::GetString<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key),
=== fn client::request::get::get_string::GetString<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, arg_fits(self.key.unwrap().ref_bytes()), may_send(crate::command::CommandId::Get, None, one(self.key.unwrap().ref_bytes()), *old(vx_b)), kept_as(*old(vx_b), self.key.unwrap().ref_bytes(), crate::state::KeyType::String),
    ensures did_one(crate::command::CommandId::Get, None, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_str_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::get::GetUnconfigured<B,K>::str
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::get::GetUnconfigured<B,K>::string
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key,
=== fn client::request::set::SetUnconfigured<B,K>::new
    ensures ret.backend == backend, ret.key == key,
=== fn client::request::set::set_boolean::SetBoolean<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_boolean::SetBoolean<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::Boolean(self.value.unwrap()), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::Boolean(self.value.unwrap()), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_bool_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::SetUnconfigured<B,K>::bool
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value == Some(boolean),
=== fn client::request::set::SetUnconfigured<B,K>::boolean
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value == Some(boolean),
=== fn client::request::set::set_bytes::SetBytes<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_bytes::SetBytes<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::Bytes(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::Bytes(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_bytes_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::SetUnconfigured<B,K>::bytes
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && bytes.rel(v),
=== fn client::request::set::set_float::SetFloat<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_float::SetFloat<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::Float(self.value.unwrap()), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::Float(self.value.unwrap()), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_float_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::SetUnconfigured<B,K>::float
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value == Some(float),
=== fn client::request::set::set_integer::SetInteger<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_integer::SetInteger<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::Integer(self.value.unwrap()), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::Integer(self.value.unwrap()), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_int_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::SetUnconfigured<B,K>::int
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value == Some(integer),
=== fn client::request::set::SetUnconfigured<B,K>::integer
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value == Some(integer),
=== fn client::request::set::set_list::SetList<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_list::SetList<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::List(deep(self.value.unwrap()@)), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::List(deep(self.value.unwrap()@)), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_list_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::SetUnconfigured<B,K>::list
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && list.rel(v),
=== fn client::request::set::set_map::SetMap<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_map::SetMap<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::Map(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::Map(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_map_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::set_set::SetSet<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_set::SetSet<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::Set(deep(self.value.unwrap()@).to_set()), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::Set(deep(self.value.unwrap()@).to_set()), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_set_r(ret)),
--- entry
    broadcast use lemma_kind; broadcast use {lemma_set_given, lemma_set_taken};
=== fn client::request::set::SetUnconfigured<B,K>::set
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && set.rel(v),
=== fn client::request::set::set_string::SetString<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_string::SetString<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(ValueV::Str(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(ValueV::Str(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_str_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::SetUnconfigured<B,K>::str
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && string.rel(v),
=== fn client::request::set::SetUnconfigured<B,K>::string
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && string.rel(v),
=== fn client::request::set::SetUnconfigured<B,K>::map
--- skip
=== fn client::request::set::set_value::SetValue<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::set::set_value::SetValue<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, set_ok(self.value.unwrap()@, self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_set(self.value.unwrap()@, self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_value_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::set::SetUnconfigured<B,K>::value
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && value.rel(v),
=== fn client::request::append::AppendUnconfigured<B,K>::new
    ensures ret.backend == backend, ret.key == key,
=== fn client::request::append::append_bytes::AppendBytes<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::append::append_bytes::AppendBytes<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, append_ok(ValueV::Bytes(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_append(ValueV::Bytes(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_bytes_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::append::AppendUnconfigured<B,K>::bytes
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && bytes.rel(v),
=== fn client::request::append::append_list::AppendList<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::append::append_list::AppendList<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, append_ok(ValueV::List(deep(self.value.unwrap()@)), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_append(ValueV::List(deep(self.value.unwrap()@)), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_list_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::append::AppendUnconfigured<B,K>::list
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && list.rel(v),
=== fn client::request::append::append_string::AppendString<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.value == Some(value),
=== fn client::request::append::append_string::AppendString<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, self.value is Some, append_ok(ValueV::Str(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_append(ValueV::Str(self.value.unwrap()@), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_str_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::append::AppendUnconfigured<B,K>::str
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && string.rel(v),
=== fn client::request::append::AppendUnconfigured<B,K>::string
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(self.key), ret.value matches Some(v) && string.rel(v),
=== fn client::request::increment::increment_float::IncrementFloat<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.amount == 1f64,
=== fn client::request::increment::increment_float::IncrementFloat<B,K>::by
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.amount == amount,
=== fn client::request::increment::increment_float::IncrementFloat<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, step_ok(self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_step(crate::command::CommandId::IncrementBy, ValueV::Float(self.amount), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_float_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::increment::Increment<B,K>::float
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key, ret.amount == 1f64,
=== fn client::request::increment::increment_int::IncrementInteger<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.amount == 1,
=== fn client::request::increment::increment_int::IncrementInteger<B,K>::by
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.amount == amount,
=== fn client::request::increment::increment_int::IncrementInteger<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, step_ok(self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_step(crate::command::CommandId::IncrementBy, ValueV::Integer(self.amount), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_int_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::increment::Increment<B,K>::int
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key, ret.amount == 1,
=== fn client::request::decrement::decrement_float::DecrementFloat<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.amount == 1f64,
=== fn client::request::decrement::decrement_float::DecrementFloat<B,K>::by
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.amount == amount,
=== fn client::request::decrement::decrement_float::DecrementFloat<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, step_ok(self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_step(crate::command::CommandId::DecrementBy, ValueV::Float(self.amount), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_float_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::decrement::Decrement<B,K>::float
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key, ret.amount == 1f64,
=== fn client::request::decrement::decrement_int::DecrementInteger<B,K>::new
    ensures ret.fut is None, ret.backend == Some(backend), ret.key == Some(key), ret.amount == 1,
=== fn client::request::decrement::decrement_int::DecrementInteger<B,K>::by
    ensures ret.fut == self.fut, ret.backend == self.backend, ret.key == self.key, ret.amount == amount,
=== fn client::request::decrement::decrement_int::DecrementInteger<B,K>::Future::poll
    requires self.fut is None, self.backend is Some, self.key is Some, step_ok(self.key.unwrap().ref_bytes(), *old(vx_b)),
    ensures did_step(crate::command::CommandId::DecrementBy, ValueV::Integer(self.amount), self.key.unwrap().ref_bytes(), *old(vx_b), *final(vx_b), as_int_r(ret)),
--- entry
    broadcast use lemma_kind;
=== fn client::request::decrement::Decrement<B,K>::int
    requires self.backend is Some, self.key is Some,
    ensures ret.fut is None, ret.backend == self.backend, ret.key == self.key, ret.amount == 1,
=== fn client::Client<B>::backend
    ensures ret == self.backend,
=== fn client::Client<MemoryBackend>::memory
    ensures ret.backend.first().hop.fresh(), ret.backend.first().ok(),
=== fn client::Client<B>::increment
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(key), ret.kind is None,
=== fn client::Client<B>::length
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(key), ret.kind is None,
=== fn client::Client<B>::delete
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(key),
=== fn client::Client<B>::keys
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(key),
=== fn client::Client<B>::key_type
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(key),
=== fn client::Client<B>::get
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(key),
=== fn client::Client<B>::decrement
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.key == Some(key),
=== fn client::Client<B>::append
    ensures ret.backend == self.backend, ret.key == key,
=== fn client::Client<B>::set
    ensures ret.backend == self.backend, ret.key == key,
=== fn client::Client<B>::echo
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.content == Some(content),
=== fn client::Client<B>::exists
    ensures ret.backend == self.backend,
=== fn client::Client<B>::is
    ensures ret.backend == self.backend, ret.key_type == key_type,
=== fn client::Client<B>::rename
    ensures ret.fut is None, ret.backend == Some(self.backend), ret.from == Some(from), ret.to == Some(to),
=== fn client::Client<B>::stats
    ensures ret.fut is None, ret.backend == Some(self.backend),
