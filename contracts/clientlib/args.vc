=== mod crate
#[verifier::external]
impl core::fmt::Debug for crate::command::response::context::ParseError { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
=== sp args
use crate::client::model::StatsData;
pub open spec fn one(k: Seq<u8>) -> Seq<Seq<u8>> { seq![k] }
/// How a value is appended: by its parts.
pub open spec fn parts(v: ValueV) -> Option<Seq<Seq<u8>>> {
    match v {
        ValueV::Bytes(x) => Some(seq![x]),
        ValueV::List(x) => Some(x),
        ValueV::Str(x) => Some(seq![utf8(x)]),
        _ => None,
    }
}
impl<'a> VxInto<Request<'a>> for RequestBuilder {
    open spec fn rel(self, t: Request<'a>) -> bool {
        self.wf() ==> t.wf() && t.cmd() == self.cmd() && t.kt() == self.kt() && t.args_v() == self.args_v()
    }
    fn vx_into(self) -> (r: Request<'a>) { <Request<'a> as From<RequestBuilder>>::from(self) }
}
impl VxTryInto<KeyType> for u8 {
    type E = ();
    open spec fn tried(self, r: Result<KeyType, ()>) -> bool {
        &&& r matches Ok(c) ==> kt_code(c) == self
        &&& r is Err ==> forall|c: KeyType| #[trigger] kt_code(c) != self
    }
    fn vx_try(self) -> (r: Result<KeyType, ()>) { <KeyType as TryFrom<u8>>::try_from(self) }
}
pub open spec fn sendable(l: Seq<Seq<u8>>) -> bool { no_empty(l) && l.len() <= 255 }
pub proof fn lemma_no_empty(l: Seq<Seq<u8>>, n: int)
    requires 0 <= n < l.len(), no_empty(l.take(n)), l[n].len() > 0,
    ensures no_empty(l.take(n + 1)),
{ assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] l.take(n + 1)[i]).len() > 0 by { if i < n { assert(l.take(n)[i] == l[i]); } } }
/// The arguments of a request about a key and a value.
pub open spec fn with(k: Seq<u8>, rest: Seq<Seq<u8>>) -> Seq<Seq<u8>> { seq![k] + rest }
pub broadcast proof fn lemma_with_first(k: Seq<u8>, rest: Seq<Seq<u8>>)
    ensures (#[trigger] with(k, rest)).len() == 1 + rest.len(), with(k, rest)[0] == k, rest.len() > 0 ==> with(k, rest)[1] == rest[0],
{ }
pub broadcast proof fn lemma_with(a: RequestBuilder, b: RequestBuilder, l: Seq<Seq<u8>>)
    ensures #[trigger] adds(a, b, l) && a.args_v().len() == 1 ==> b.args_v() == with(a.args_v()[0], l),
{ if a.args_v().len() == 1 { assert(a.args_v() =~= seq![a.args_v()[0]]); } }
=== impl client::model::StatsData
    pub open spec fn map(&self) -> Map<Seq<u8>, Seq<u8>> { self.inner@ }
    pub open spec fn figure(&self, c: Metric) -> int {
        let k = utf8(metric_name(c));
        if self.map().contains_key(k) && self.map()[k].len() == 8 { un_i64(self.map()[k]) as int } else { 0 }
    }
=== fn client::model::StatsData::new
    ensures ret.map() == map@,
=== fn client::model::StatsData::int
    ensures ret == self.figure(metric),
=== fn client::model::StatsData::commands_errored
    ensures ret == self.figure(Metric::CommandsErrored),
=== fn client::model::StatsData::commands_successful
    ensures ret == self.figure(Metric::CommandsSuccessful),
=== fn client::model::StatsData::sessions_ended
    ensures ret == self.figure(Metric::SessionsEnded),
=== fn client::model::StatsData::sessions_started
    ensures ret == self.figure(Metric::SessionsStarted),
