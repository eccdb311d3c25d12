=== sp
use crate::command::response::{Response, ResponseType, Instruction, Context as RContext, ParseError as RParseError};
/// What a frame carries: a value, with the order in which a map's or set's
/// entries appear on the wire, or an error.
pub enum FV {
    Bool(bool), Bytes(Seq<u8>), Float(f64), Int(i64), List(Seq<Seq<u8>>), Map(Seq<(Seq<u8>, Seq<u8>)>), Set(Seq<Seq<u8>>), Str(Seq<u8>),
    PErr(ParseError), DErr(DispatchError),
}
pub open spec fn rt_code(t: ResponseType) -> u8 { t.code() }
pub proof fn lemma_rt_codes(a: ResponseType, b: ResponseType)
    ensures rt_code(a) == rt_code(b) <==> a == b,
{ }
pub open spec fn fv_type(fv: FV) -> ResponseType {
    match fv {
        FV::Bool(_) => ResponseType::Boolean,
        FV::Bytes(_) => ResponseType::Bytes,
        FV::Float(_) => ResponseType::Float,
        FV::Int(_) => ResponseType::Integer,
        FV::List(_) => ResponseType::List,
        FV::Map(_) => ResponseType::Map,
        FV::Set(_) => ResponseType::Set,
        FV::Str(_) => ResponseType::String,
        FV::PErr(_) => ResponseType::ParseError,
        FV::DErr(_) => ResponseType::DispatchError,
    }
}
pub open spec fn enc_pair(p: (Seq<u8>, Seq<u8>)) -> Seq<u8> { seq![p.0.len() as u8] + p.0 + be32(p.1.len()) + p.1 }
pub open spec fn enc_pairs(ps: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8>
    decreases ps.len()
{
    if ps.len() == 0 { seq![] } else { enc_pairs(ps.drop_last()) + enc_pair(ps.last()) }
}
pub open spec fn enc_item(x: Seq<u8>) -> Seq<u8> { be16(x.len()) + x }
pub open spec fn enc_items(xs: Seq<Seq<u8>>) -> Seq<u8>
    decreases xs.len()
{
    if xs.len() == 0 { seq![] } else { enc_items(xs.drop_last()) + enc_item(xs.last()) }
}
pub open spec fn enc_arg(x: Seq<u8>) -> Seq<u8> { be32(x.len()) + x }
/// What follows the type byte.
pub open spec fn fv_body(fv: FV) -> Seq<u8> {
    match fv {
        FV::Bool(b) => seq![if b { 1u8 } else { 0u8 }],
        FV::Bytes(b) => be32(b.len()) + b,
        FV::Float(x) => be_f64(x),
        FV::Int(x) => be_i64(x),
        FV::List(l) => be16(l.len()) + enc_args(l),
        FV::Map(ps) => be16(ps.len()) + enc_pairs(ps),
        FV::Set(xs) => be16(xs.len()) + enc_items(xs),
        FV::Str(b) => be32(b.len()) + b,
        FV::PErr(e) => seq![perr_code(e)],
        FV::DErr(e) => seq![err_code(e)],
    }
}
/// 4 bytes of length, the type byte, the layout of the type.
#[verifier::opaque]
pub open spec fn frame(fv: FV) -> Seq<u8> { be32(1 + fv_body(fv).len()) + seq![rt_code(fv_type(fv))] + fv_body(fv) }
/// The wire limits.
pub open spec fn fv_fits(fv: FV) -> bool {
    &&& 1 + fv_body(fv).len() < 0x1_0000_0000
    &&& match fv {
        FV::List(l) => l.len() <= 65535,
        FV::Map(ps) => ps.len() <= 65535 && keys_fit(ps),
        FV::Set(xs) => xs.len() <= 65535 && xs.no_duplicates() && items_fit(xs),
        FV::Str(b) => is_utf8(b),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn keys_fit(ps: Seq<(Seq<u8>, Seq<u8>)>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0.len() <= 255
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> (#[trigger] ps[i]).0 != (#[trigger] ps[j]).0
}
#[verifier::opaque]
pub open spec fn items_fit(xs: Seq<Seq<u8>>) -> bool {
    forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).len() <= 65535
}
pub open spec fn pairs_map(ps: Seq<(Seq<u8>, Seq<u8>)>) -> Map<Seq<u8>, Seq<u8>>
    decreases ps.len()
{
    if ps.len() == 0 { Map::empty() } else { pairs_map(ps.drop_last()).insert(ps.last().0, ps.last().1) }
}
pub open spec fn fv_val(fv: FV) -> Option<ValueV> {
    match fv {
        FV::Bool(b) => Some(ValueV::Boolean(b)),
        FV::Bytes(b) => Some(ValueV::Bytes(b)),
        FV::Float(x) => Some(ValueV::Float(x)),
        FV::Int(x) => Some(ValueV::Integer(x)),
        FV::List(l) => Some(ValueV::List(l)),
        FV::Map(ps) => Some(ValueV::Map(pairs_map(ps))),
        FV::Set(xs) => Some(ValueV::Set(xs.to_set())),
        FV::Str(b) => Some(ValueV::Str(un_utf8(b))),
        _ => None,
    }
}
/// The frame a value is written as.
pub open spec fn fv_of(v: &Value) -> FV {
    match *v {
        Value::Boolean(x) => FV::Bool(x),
        Value::Bytes(x) => FV::Bytes(x@),
        Value::Float(x) => FV::Float(x),
        Value::Integer(x) => FV::Int(x),
        Value::List(x) => FV::List(deep(x@)),
        Value::Map(x) => FV::Map(order(&x)),
        Value::Set(x) => FV::Set(set_order(&x)),
        Value::String(x) => FV::Str(utf8(x@)),
    }
}
pub open spec fn fv_of_resp(r: &Response) -> FV {
    match *r {
        Response::DispatchError(e) => FV::DErr(e),
        Response::ParseError(e) => FV::PErr(e),
        Response::Value(v) => fv_of(&v),
    }
}
/// The response is what the frame carries.
pub open spec fn resp_is(r: Response, fv: FV) -> bool {
    match r {
        Response::DispatchError(e) => fv == FV::DErr(e),
        Response::ParseError(e) => fv == FV::PErr(e),
        Response::Value(v) => fv_val(fv) == Some(v@),
    }
}
pub proof fn lemma_pairs_map(ps: Seq<(Seq<u8>, Seq<u8>)>, n: int)
    requires 0 <= n <= ps.len(), keys_fit(ps),
    ensures

        pairs_map(ps.take(n)).dom().len() == n,
        forall|k: Seq<u8>| #[trigger] pairs_map(ps.take(n)).contains_key(k) <==> exists|i: int| 0 <= i < n && #[trigger] ps[i].0 == k,
        forall|i: int| 0 <= i < n ==> pairs_map(ps.take(n))[#[trigger] ps[i].0] == ps[i].1,
    decreases n
{
    if n > 0 {
        lemma_pairs_map(ps, n - 1);
        assert(ps.take(n).drop_last() =~= ps.take(n - 1));
        let (m, m2) = (pairs_map(ps.take(n - 1)), pairs_map(ps.take(n)));
        reveal(keys_fit);
        assert(!m.contains_key(ps[n - 1].0)) by {
            if m.contains_key(ps[n - 1].0) {
                let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ps[i].0 == ps[n - 1].0;
                assert(ps[i].0 != ps[n - 1].0);
            }
        }
        assert(m2.dom() =~= m.dom().insert(ps[n - 1].0));
        assert forall|k: Seq<u8>| #[trigger] m2.contains_key(k) <==> exists|i: int| 0 <= i < n && #[trigger] ps[i].0 == k by {
            if m2.contains_key(k) {
                if m.contains_key(k) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] ps[i].0 == k; assert(ps[i].0 == k); } else { assert(ps[n - 1].0 == k); }
            }
            if exists|i: int| 0 <= i < n && #[trigger] ps[i].0 == k {
                let i = choose|i: int| 0 <= i < n && #[trigger] ps[i].0 == k;
                if i < n - 1 { assert(m.contains_key(k)); }
            }
        }
        assert forall|i: int| 0 <= i < n implies m2[#[trigger] ps[i].0] == ps[i].1 by {
            if i < n - 1 { assert(ps[i].0 != ps[n - 1].0); }
        }
    } else {
        assert(pairs_map(ps.take(0)) =~= Map::empty());
    }
}
/// The entries of a map in any order make up the map.
pub proof fn lemma_order_map(o: Seq<(Seq<u8>, Seq<u8>)>, m: Map<Seq<u8>, Seq<u8>>)
    requires is_order(o, m), forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> k.len() <= 255,
    ensures keys_fit(o), pairs_map(o) == m,
{
    assert(keys_fit(o)) by {
        reveal(keys_fit);
        assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0.len() <= 255 by { assert(m.contains_key(o[i].0)); }
    }
    lemma_pairs_map(o, o.len() as int);
    assert(o.take(o.len() as int) =~= o);
    assert forall|k: Seq<u8>| pairs_map(o).contains_key(k) <==> m.contains_key(k) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k; assert(o[i].0 == k); }
    }
    assert forall|k: Seq<u8>| m.contains_key(k) implies pairs_map(o)[k] == #[trigger] m[k] by {
        let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k;
        assert(pairs_map(o)[o[i].0] == o[i].1);
    }
    assert(pairs_map(o) =~= m);
}
/// A frame carries the value it was made from.
pub proof fn lemma_resp_is(r: &Response)
    requires fv_fits(fv_of_resp(r)),
    ensures resp_is(*r, fv_of_resp(r)),
{
    broadcast use {axiom_order, axiom_set_order, axiom_utf8};
    if let Response::Value(v) = *r {
        if let Value::Map(x) = v {
            let o = order(&x);
            assert(is_order(o, x@));
            assert forall|k: Seq<u8>| #[trigger] x@.contains_key(k) implies k.len() <= 255 by {
                reveal(keys_fit);
                let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k;
                assert(o[i].0.len() <= 255);
            }
            lemma_order_map(o, x@);
        }
        if let Value::Set(x) = v { assert(is_set_order(set_order(&x), x@)); }
    }
}
// Loops over what is left of a sequence: what has been written so far.
pub open spec fn left_of<T>(all: Seq<T>, left: Seq<T>) -> bool { left.len() <= all.len() && left =~= all.skip(all.len() - left.len()) }
pub open spec fn done_of<T>(all: Seq<T>, left: Seq<T>) -> Seq<T> { all.take(all.len() - left.len()) }
#[verifier::opaque]
pub open spec fn args_inv(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>, e: Seq<u8>) -> bool { left_of(all, left) && e == enc_args(done_of(all, left)) }
#[verifier::opaque]
pub open spec fn pairs_inv(all: Seq<(Seq<u8>, Seq<u8>)>, left: Seq<(Seq<u8>, Seq<u8>)>, e: Seq<u8>) -> bool { left_of(all, left) && e == enc_pairs(done_of(all, left)) }
#[verifier::opaque]
pub open spec fn items_inv(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>, e: Seq<u8>) -> bool { left_of(all, left) && e == enc_items(done_of(all, left)) }
pub proof fn lemma_done<T>(all: Seq<T>, l: Seq<T>)
    requires left_of(all, l),
    ensures
        l.len() == 0 ==> done_of(all, l) == all,
        l.len() > 0 ==> left_of(all, l.drop_first()) && done_of(all, l.drop_first()).drop_last() == done_of(all, l)
            && done_of(all, l.drop_first()).last() == l[0] && done_of(all, l.drop_first()).len() > 0,
{
    if l.len() == 0 { assert(done_of(all, l) =~= all); } else {
        let l2 = l.drop_first();
        assert(l2 =~= all.skip(all.len() - l2.len()));
        assert(done_of(all, l2).drop_last() =~= done_of(all, l));
        assert(l[0] == all[all.len() - l.len()]);
    }
}
pub proof fn lemma_args_start(all: Seq<Seq<u8>>)
    ensures args_inv(all, all, seq![]),
{ reveal(args_inv); assert(all.skip(0) =~= all); assert(done_of(all, all) =~= seq![]); }
pub proof fn lemma_pairs_start(all: Seq<(Seq<u8>, Seq<u8>)>)
    ensures pairs_inv(all, all, seq![]),
{ reveal(pairs_inv); assert(all.skip(0) =~= all); assert(done_of(all, all) =~= seq![]); }
pub proof fn lemma_items_start(all: Seq<Seq<u8>>)
    ensures items_inv(all, all, seq![]),
{ reveal(items_inv); assert(all.skip(0) =~= all); assert(done_of(all, all) =~= seq![]); }
pub proof fn lemma_enc_args_grow(all: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= all.len(),
    ensures enc_args(all.take(n)).len() + 4 * (all.len() - n) <= enc_args(all).len(),
    decreases all.len() - n
{
    broadcast use group_be;
    if n < all.len() { lemma_enc_args_grow(all, n + 1); assert(all.take(n + 1).drop_last() =~= all.take(n)); } else { assert(all.take(n) =~= all); }
}
pub proof fn lemma_enc_pairs_grow(all: Seq<(Seq<u8>, Seq<u8>)>, n: int)
    requires 0 <= n <= all.len(),
    ensures enc_pairs(all.take(n)).len() <= enc_pairs(all).len(),
    decreases all.len() - n
{
    if n < all.len() { lemma_enc_pairs_grow(all, n + 1); assert(all.take(n + 1).drop_last() =~= all.take(n)); } else { assert(all.take(n) =~= all); }
}
pub proof fn lemma_enc_items_grow(all: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= all.len(),
    ensures enc_items(all.take(n)).len() <= enc_items(all).len(),
    decreases all.len() - n
{
    if n < all.len() { lemma_enc_items_grow(all, n + 1); assert(all.take(n + 1).drop_last() =~= all.take(n)); } else { assert(all.take(n) =~= all); }
}
pub proof fn lemma_args_step(all: Seq<Seq<u8>>, e: Seq<u8>)
    ensures
        forall|l: Seq<Seq<u8>>| #[trigger] args_inv(all, l, e) ==> {
            &&& l.len() <= all.len() && e.len() <= enc_args(all).len()
            &&& l.len() == 0 ==> e == enc_args(all)
            &&& l.len() > 0 ==> args_inv(all, l.drop_first(), e + be32(l[0].len()) + l[0]) && e.len() + 4 + l[0].len() <= enc_args(all).len()
        },
{
    broadcast use group_be;
    assert forall|l: Seq<Seq<u8>>| #[trigger] args_inv(all, l, e) implies {
            &&& l.len() <= all.len() && e.len() <= enc_args(all).len()
            &&& l.len() == 0 ==> e == enc_args(all)
            &&& l.len() > 0 ==> args_inv(all, l.drop_first(), e + be32(l[0].len()) + l[0]) && e.len() + 4 + l[0].len() <= enc_args(all).len()
        } by {
        reveal(args_inv);
        lemma_done(all, l);
        lemma_enc_args_grow(all, all.len() - l.len());
        if l.len() > 0 { lemma_enc_args_grow(all, all.len() - l.len() + 1); }
    }
}
pub proof fn lemma_pairs_step(all: Seq<(Seq<u8>, Seq<u8>)>, e: Seq<u8>)
    ensures
        forall|l: Seq<(Seq<u8>, Seq<u8>)>| #[trigger] pairs_inv(all, l, e) ==> {
            &&& l.len() <= all.len() && e.len() <= enc_pairs(all).len()
            &&& l.len() == 0 ==> e == enc_pairs(all)
            &&& l.len() > 0 ==> pairs_inv(all, l.drop_first(), e + enc_pair(l[0])) && e.len() + enc_pair(l[0]).len() <= enc_pairs(all).len()
            &&& l.len() > 0 && keys_fit(all) ==> l[0].0.len() <= 255
        },
{
    assert forall|l: Seq<(Seq<u8>, Seq<u8>)>| #[trigger] pairs_inv(all, l, e) implies {
            &&& l.len() <= all.len() && e.len() <= enc_pairs(all).len()
            &&& l.len() == 0 ==> e == enc_pairs(all)
            &&& l.len() > 0 ==> pairs_inv(all, l.drop_first(), e + enc_pair(l[0])) && e.len() + enc_pair(l[0]).len() <= enc_pairs(all).len()
            &&& l.len() > 0 && keys_fit(all) ==> l[0].0.len() <= 255
        } by {
        reveal(pairs_inv); reveal(keys_fit);
        lemma_done(all, l);
        lemma_enc_pairs_grow(all, all.len() - l.len());
        if l.len() > 0 { lemma_enc_pairs_grow(all, all.len() - l.len() + 1); assert(l[0] == all[all.len() - l.len()]); }
    }
}
pub proof fn lemma_items_step(all: Seq<Seq<u8>>, e: Seq<u8>)
    ensures
        forall|l: Seq<Seq<u8>>| #[trigger] items_inv(all, l, e) ==> {
            &&& l.len() <= all.len() && e.len() <= enc_items(all).len()
            &&& l.len() == 0 ==> e == enc_items(all)
            &&& l.len() > 0 ==> items_inv(all, l.drop_first(), e + enc_item(l[0])) && e.len() + enc_item(l[0]).len() <= enc_items(all).len()
            &&& l.len() > 0 && items_fit(all) ==> l[0].len() <= 65535
        },
{
    assert forall|l: Seq<Seq<u8>>| #[trigger] items_inv(all, l, e) implies {
            &&& l.len() <= all.len() && e.len() <= enc_items(all).len()
            &&& l.len() == 0 ==> e == enc_items(all)
            &&& l.len() > 0 ==> items_inv(all, l.drop_first(), e + enc_item(l[0])) && e.len() + enc_item(l[0]).len() <= enc_items(all).len()
            &&& l.len() > 0 && items_fit(all) ==> l[0].len() <= 65535
        } by {
        reveal(items_inv); reveal(items_fit);
        lemma_done(all, l);
        lemma_enc_items_grow(all, all.len() - l.len());
        if l.len() > 0 { lemma_enc_items_grow(all, all.len() - l.len() + 1); assert(l[0] == all[all.len() - l.len()]); }
    }
}
pub open spec fn bytes_of<U: VxAsRef<[u8]>>(s: Seq<U>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].ref_bytes()) }
pub broadcast proof fn lemma_bytes_drop<U: VxAsRef<[u8]>>(s: Seq<U>)
    requires s.len() > 0,
    ensures bytes_of(#[trigger] s.drop_first()) == bytes_of(s).drop_first(), bytes_of(s)[0] == s[0].ref_bytes(), bytes_of(s).len() == s.len(),
{ assert(bytes_of(s.drop_first()) =~= bytes_of(s).drop_first()); }
pub broadcast proof fn lemma_ref_pairs_drop<'a, K: View, V: View>(s: Seq<RefMulti<'a, K, V>>)
    requires s.len() > 0,
    ensures ref_pairs(#[trigger] s.drop_first()) == ref_pairs(s).drop_first(), ref_pairs(s)[0] == (s[0].k@, s[0].v@), ref_pairs(s).len() == s.len(),
{ assert(ref_pairs(s.drop_first()) =~= ref_pairs(s).drop_first()); }
pub broadcast proof fn lemma_set_items_drop<'a, K: View>(s: Seq<&'a K>)
    requires s.len() > 0,
    ensures set_items(#[trigger] s.drop_first()) == set_items(s).drop_first(), set_items(s)[0] == s[0]@, set_items(s).len() == s.len(),
{ assert(set_items(s.drop_first()) =~= set_items(s).drop_first()); }
=== fn command::response::ResponseType::TryFrom<u8>::try_from
    ensures
        ret matches Ok(c) ==> rt_code(c) == value,
        ret is Err ==> forall|c: ResponseType| #[trigger] rt_code(c) != value,
=== fn command::response::Response::as_bytes
    requires fv_fits(fv_of_resp(self)),
    ensures ret@ == frame(fv_of_resp(self)),
--- entry
    proof { assert(Seq::<u8>::empty() + frame(fv_of_resp(self)) =~= frame(fv_of_resp(self))); }
=== fn command::response::Response::copy_to
    requires fv_fits(fv_of_resp(self)),
    ensures final(buf)@ == old(buf)@ + frame(fv_of_resp(self)),
=== fn command::response::Response::From<bool>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::Boolean(value),
=== fn command::response::Response::From<Vec<u8>>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::Bytes(value@),
=== fn command::response::Response::From<f64>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::Float(value),
=== fn command::response::Response::From<i64>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::Integer(value),
=== fn command::response::Response::From<Vec<Vec<u8>>>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::List(deep(value@)),
=== fn command::response::Response::From<DashMap<Vec<u8>,Vec<u8>>>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::Map(value@),
=== fn command::response::Response::From<DashSet<Vec<u8>>>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::Set(value@),
=== fn command::response::Response::From<String>::from
    ensures ret matches Response::Value(v) && v@ == ValueV::Str(value@),
=== fn command::response::Response::From<DispatchError>::from
    ensures ret == Response::DispatchError(value),
=== fn command::response::Response::From<RequestParseError>::from
    ensures ret == Response::ParseError(value),
=== fn command::response::write_bool
    ensures final(to)@ =~= old(to)@ + frame(FV::Bool(value)),
--- entry
    proof { reveal(frame); broadcast use group_be; }
=== fn command::response::write_bytes
    requires fv_fits(FV::Bytes(value@)),
    ensures final(to)@ =~= old(to)@ + frame(FV::Bytes(value@)),
--- entry
    proof { reveal(frame); broadcast use group_be; }
=== fn command::response::write_dispatch_error
    ensures final(to)@ =~= old(to)@ + frame(FV::DErr(value)),
--- entry
    proof { reveal(frame); broadcast use group_be; }
=== fn command::response::write_parse_error
    ensures final(to)@ =~= old(to)@ + frame(FV::PErr(value)),
--- entry
    proof { reveal(frame); broadcast use group_be; }
=== fn command::response::write_float
    ensures final(to)@ =~= old(to)@ + frame(FV::Float(value)),
--- entry
    proof { reveal(frame); broadcast use {group_be, axiom_be_f64}; }
=== fn command::response::write_int
    ensures final(to)@ =~= old(to)@ + frame(FV::Int(value)),
--- entry
    proof { reveal(frame); broadcast use {group_be, axiom_be_i64}; }
=== fn command::response::write_str
    requires fv_fits(FV::Str(utf8(value@))),
    ensures final(to)@ =~= old(to)@ + frame(FV::Str(utf8(value@))),
--- entry
    proof { reveal(frame); broadcast use group_be; }
=== fn command::response::write_list
    requires value.into_ok(), fv_fits(FV::List(bytes_of(value.items()))),
    ensures final(to)@ =~= old(to)@ + frame(FV::List(bytes_of(value.items()))),
--- entry
    let ghost old_to = to@;
    let ghost all = bytes_of(value.items());
    broadcast use {group_be, lemma_bytes_drop};
    proof { lemma_args_start(all); lemma_all_bytes_len(value.items()); }
--- shape for
--- loop-before 0
    proof { assert(to@.skip(start + 7) =~= seq![]); assert(to@.take(start as int) =~= old_to); }
--- loop 0
    invariant
        vx_it0.iter_ok(),
        all.len() <= 65535,
        3 + enc_args(all).len() < 0x1_0000_0000,
        start == old_to.len(),
        to@.len() >= start + 7,
        to@.take(start as int) == old_to,
        to@[start + 4] == rt_code(ResponseType::List),
        args_inv(all, bytes_of(vx_it0.rest()), to@.skip(start + 7)),
        msg_len == 3 + to@.skip(start + 7).len(),
        item_count == all.len() - vx_it0.rest().len(),
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    broadcast use {group_be, lemma_bytes_drop};
    let ghost t0 = to@;
    let ghost it0 = vx_it0.rest();
    proof { lemma_args_step(all, to@.skip(start + 7)); lemma_all_bytes_len(it0); }
--- loop-end 0
    proof {
        assert(to@.skip(start + 7) =~= t0.skip(start + 7) + be32(it0[0].ref_bytes().len()) + it0[0].ref_bytes());
        assert(to@.take(start as int) =~= t0.take(start as int));
    }
--- loop-exit 0
    proof {
        axiom_vec_len(&*to);
        reveal(frame);
        broadcast use group_be;
        lemma_args_step(all, to@.skip(start + 7));
        lemma_all_bytes_len(vx_it0.rest());
        assert(to@ =~= old_to + to@.subrange(start as int, start + 4) + seq![rt_code(ResponseType::List)] + to@.subrange(start + 5, start + 7) + enc_args(all)) by {
            assert(to@.skip(start + 7) == enc_args(all));
            assert forall|i: int| 0 <= i < enc_args(all).len() implies to@[start + 7 + i] == enc_args(all)[i] by { assert(to@.skip(start + 7)[i] == enc_args(all)[i]); }
            assert forall|i: int| 0 <= i < start implies to@[i] == old_to[i] by { assert(to@.take(start as int)[i] == old_to[i]); }
        }
    }
=== fn command::response::write_map
    requires fv_fits(FV::Map(order(value))),
    ensures final(to)@ =~= old(to)@ + frame(FV::Map(order(value))),
--- entry
    let ghost old_to = to@;
    let ghost all = order(value);
    broadcast use {group_be, lemma_ref_pairs_drop, axiom_order};
    proof { reveal(frame); lemma_pairs_start(all); }
--- shape for for
--- loop-before 0
    let ghost mut e: Seq<u8> = seq![];
    proof { lemma_pairs_len(vx_it0.rest()); }
--- loop 0
    invariant
        3 + enc_pairs(all).len() < 0x1_0000_0000,
        pairs_inv(all, ref_pairs(vx_it0.rest()), e),
        keys_fit(all),
        response_len == 3 + e.len(),
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    broadcast use {group_be, lemma_ref_pairs_drop};
    let ghost it0 = vx_it0.rest();
    proof {
        lemma_pairs_step(all, e);
        lemma_pairs_len(it0);
        if it0.len() > 0 { e = e + enc_pair(ref_pairs(it0)[0]); }
    }
--- loop-exit 0
    proof { lemma_pairs_step(all, e); lemma_pairs_len(vx_it0.rest()); }
--- loop-before 1
    let ghost base = to@;
    proof { assert(base.skip(base.len() as int) =~= seq![]); assert(base.take(base.len() as int) =~= base); assert(base =~= old_to + be32(3 + enc_pairs(all).len()) + seq![rt_code(ResponseType::Map)] + be16(all.len())); lemma_pairs_len(vx_it1.rest()); }
--- loop 1
    invariant
        3 + enc_pairs(all).len() < 0x1_0000_0000,
        to@.len() >= base.len(),
        to@.take(base.len() as int) == base,
        pairs_inv(all, ref_pairs(vx_it1.rest()), to@.skip(base.len() as int)),
        keys_fit(all),
    ensures
        vx_it1.rest().len() == 0,
    decreases vx_it1.rest().len(),
--- loop-entry 1
    broadcast use {group_be, lemma_ref_pairs_drop};
    let ghost it1 = vx_it1.rest();
    let ghost t0 = to@;
    proof { lemma_pairs_step(all, t0.skip(base.len() as int)); lemma_pairs_len(it1); }
--- loop-end 1
    proof {
        assert(to@.skip(base.len() as int) =~= t0.skip(base.len() as int) + enc_pair(ref_pairs(it1)[0]));
        assert(to@.take(base.len() as int) =~= t0.take(base.len() as int));
    }
--- loop-exit 1
    proof { lemma_pairs_step(all, to@.skip(base.len() as int)); lemma_pairs_len(vx_it1.rest()); lemma_split(to@, base); }
=== fn command::response::write_set
    requires fv_fits(FV::Set(set_order(value))),
    ensures final(to)@ =~= old(to)@ + frame(FV::Set(set_order(value))),
--- entry
    let ghost old_to = to@;
    let ghost all = set_order(value);
    broadcast use {group_be, lemma_set_items_drop, axiom_set_order};
    proof { reveal(frame); lemma_items_start(all); }
--- shape for for
--- loop-before 0
    let ghost mut e: Seq<u8> = seq![];
    proof { lemma_items_len(vx_it0.rest()); }
--- loop 0
    invariant
        3 + enc_items(all).len() < 0x1_0000_0000,
        items_inv(all, set_items(vx_it0.rest()), e),
        items_fit(all),
        response_len == 3 + e.len(),
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    broadcast use {group_be, lemma_set_items_drop};
    let ghost it0 = vx_it0.rest();
    proof {
        lemma_items_step(all, e);
        lemma_items_len(it0);
        if it0.len() > 0 { e = e + enc_item(set_items(it0)[0]); }
    }
--- loop-exit 0
    proof { lemma_items_step(all, e); lemma_items_len(vx_it0.rest()); }
--- loop-before 1
    let ghost base = to@;
    proof { assert(base.skip(base.len() as int) =~= seq![]); assert(base.take(base.len() as int) =~= base); assert(base =~= old_to + be32(3 + enc_items(all).len()) + seq![rt_code(ResponseType::Set)] + be16(all.len())); lemma_items_len(vx_it1.rest()); }
--- loop 1
    invariant
        3 + enc_items(all).len() < 0x1_0000_0000,
        to@.len() >= base.len(),
        to@.take(base.len() as int) == base,
        items_inv(all, set_items(vx_it1.rest()), to@.skip(base.len() as int)),
        items_fit(all),
    ensures
        vx_it1.rest().len() == 0,
    decreases vx_it1.rest().len(),
--- loop-entry 1
    broadcast use {group_be, lemma_set_items_drop};
    let ghost it1 = vx_it1.rest();
    let ghost t0 = to@;
    proof { lemma_items_step(all, t0.skip(base.len() as int)); lemma_items_len(it1); }
--- loop-end 1
    proof {
        assert(to@.skip(base.len() as int) =~= t0.skip(base.len() as int) + enc_item(set_items(it1)[0]));
        assert(to@.take(base.len() as int) =~= t0.take(base.len() as int));
    }
--- loop-exit 1
    proof { lemma_items_step(all, to@.skip(base.len() as int)); lemma_items_len(vx_it1.rest()); lemma_split(to@, base); }
=== sp
pub proof fn lemma_all_bytes_len<U: VxAsRef<[u8]>>(s: Seq<U>)
    ensures bytes_of(s).len() == s.len(),
{ }
pub proof fn lemma_pairs_len<'a, K: View, V: View>(s: Seq<RefMulti<'a, K, V>>)
    ensures ref_pairs(s).len() == s.len(),
{ }
pub proof fn lemma_items_len<'a, K: View>(s: Seq<&'a K>)
    ensures set_items(s).len() == s.len(),
{ }
pub proof fn lemma_split(a: Seq<u8>, base: Seq<u8>)
    requires base.len() <= a.len(), a.take(base.len() as int) == base,
    ensures a == base + a.skip(base.len() as int),
{ assert(a =~= a.take(base.len() as int) + a.skip(base.len() as int)); }
=== fn command::response::write_value
    requires fv_fits(fv_of(value)),
    ensures final(to)@ == old(to)@ + frame(fv_of(value)),
--- entry
    proof { lemma_deep_bytes(value); }
=== sp
pub proof fn lemma_deep_bytes(v: &Value)
    ensures v matches Value::List(x) ==> bytes_of(refs(x@)) == deep(x@),
{
    if let Value::List(x) = *v { assert(bytes_of(refs(x@)) =~= deep(x@)); }
}
