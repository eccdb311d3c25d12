=== sp
use crate::hop::Hop;
use crate::metrics::Metric;
pub type St = Map<Seq<u8>, ValueV>;
/// One dispatch: the request, the state and the response before and after, the result.
pub struct Call {
    pub kt: Option<KeyType>, pub n: int, pub k: Seq<u8>, pub rest: Seq<Seq<u8>>, pub args: Seq<Seq<u8>>, pub st0: St, pub st1: St, pub r0: Seq<u8>, pub r1: Seq<u8>,
    pub ret: Result<(), DispatchError>,
}
pub open spec fn call(req: &Request, h0: &Hop, h1: &Hop, r0: Seq<u8>, r1: Seq<u8>, ret: Result<(), DispatchError>) -> Call {
    Call { kt: req.kt(), n: req.args_v().len() as int, k: req.args_v()[0], rest: req.args_v().skip(1), args: req.args_v(), st0: h0.st(), st1: h1.st(), r0, r1, ret }
}
/// The same of a function that does the work for a key of a type with the arguments behind the key.
pub open spec fn kcall(kt: KeyType, k: Seq<u8>, rest: Seq<Seq<u8>>, h0: &Hop, h1: &Hop, r0: Seq<u8>, r1: Seq<u8>, ret: Result<(), DispatchError>) -> Call {
    Call { kt: Some(kt), n: (rest.len() + 1) as int, k, rest, args: seq![], st0: h0.st(), st1: h1.st(), r0, r1, ret }
}
impl Call {
    /// The type of the stored value, if there is one.
    pub open spec fn kind(self) -> Option<KeyType> { kind_at(self.st0, self.k) }
    /// The type the command works with: the requested one or else that of the stored value.
    pub open spec fn eff(self) -> Option<KeyType> { if self.kt is Some { self.kt } else { self.kind() } }
    pub open spec fn eff_or(self, k: KeyType) -> KeyType { match self.eff() { Some(x) => x, None => k } }
    pub open spec fn failed(self) -> bool { self.ret is Err }
    /// The response is exactly this value.
    pub open spec fn answers(self, v: ValueV) -> bool { self.ret is Ok && wrote(self.r0, self.r1, v) }
    pub open spec fn errs(self, e: DispatchError) -> bool { self.ret == Err::<(), DispatchError>(e) }
    /// The command stores the value and answers it, or there is none and it fails.
    pub open spec fn stores(self, out: Option<ValueV>) -> bool {
        match out {
            Some(v) => self.answers(v) && self.st1.contains_key(self.k) && self.st1[self.k] == v,
            None => self.failed(),
        }
    }
    // C13
    pub open spec fn clean(self) -> bool { self.failed() ==> self.st1 =~= self.st0 && self.r1 =~= self.r0 }
    pub open spec fn pure_(self) -> bool { self.st1 =~= self.st0 && (self.failed() ==> self.r1 =~= self.r0) }
    // C16
    pub open spec fn local(self) -> bool {
        if self.n == 0 { self.st1 =~= self.st0 } else { same_but(self.st0, self.st1, self.k) }
    }
    pub open spec fn local2(self) -> bool {
        if self.n < 2 { self.st1 =~= self.st0 } else { same_but(self.st0.remove(self.k), self.st1.remove(self.k), self.rest[0]) }
    }
}
pub open spec fn same_but(a: St, b: St, k: Seq<u8>) -> bool { a.remove(k) =~= b.remove(k) }
pub open spec fn kind_at(st: St, k: Seq<u8>) -> Option<KeyType> { if st.contains_key(k) { Some(kind_of(st[k])) } else { None } }
/// What is stored, or the empty value of a type.
pub open spec fn at_or(st: St, k: Seq<u8>, z: KeyType) -> ValueV { if st.contains_key(k) { st[k] } else { zero_of(z) } }
/// One frame was added to the response, and it carries the value.
pub open spec fn carries(fv: FV, v: ValueV) -> bool { fv_fits(fv) && fv_val(fv) == Some(v) }
pub open spec fn wrote(r0: Seq<u8>, r1: Seq<u8>, v: ValueV) -> bool {
    exists|fv: FV| r1 =~= r0 + #[trigger] frame(fv) && carries(fv, v)
}
/// One frame with the items in some order.
pub open spec fn wrote_items(r0: Seq<u8>, r1: Seq<u8>, s: Set<Seq<u8>>) -> bool {
    exists|l: Seq<Seq<u8>>| wrote(r0, r1, ValueV::List(l)) && #[trigger] is_set_order(l, s)
}

// What the wire can carry, apart from the total size.
pub open spec fn val_ok(v: ValueV) -> bool {
    match v {
        ValueV::List(l) => l.len() <= 65535,
        ValueV::Map(m) => m.dom().len() <= 65535 && (forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> k.len() <= 255),
        ValueV::Set(s) => s.len() <= 65535 && (forall|k: Seq<u8>| #[trigger] s.contains(k) ==> k.len() <= 65535),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn st_ok(st: St) -> bool { forall|k: Seq<u8>| #[trigger] st.contains_key(k) ==> val_ok(st[k]) }
/// The total size can be written as 4 bytes (assumed of the values a request leads to).
#[verifier::opaque]
pub open spec fn val_small(v: ValueV) -> bool {
    forall|fv: FV| #[trigger] fv_val(fv) == Some(v) ==> (fv matches FV::Map(ps) ==> keys_fit(ps)) && (fv matches FV::Set(xs) ==> xs.no_duplicates())
        ==> 1 + fv_body(fv).len() < 0x1_0000_0000
}
pub open spec fn out_small(o: Option<ValueV>) -> bool { o matches Some(v) ==> val_small(v) }
pub proof fn lemma_st_ok(st: St, k: Seq<u8>)
    ensures
        st_ok(st) && st.contains_key(k) ==> val_ok(st[k]),
        st_ok(st) ==> st_ok(st.remove(k)),
        forall|v: ValueV| st_ok(st) && val_ok(v) ==> #[trigger] st_ok(st.insert(k, v)),
{ reveal(st_ok); }
/// A new engine's state is fine.
pub proof fn lemma_st_new()
    ensures st_ok(Map::<Seq<u8>, ValueV>::empty()),
{ reveal(st_ok); }
pub broadcast proof fn lemma_st_insert(st: St, k: Seq<u8>, v: ValueV)
    requires st_ok(st), val_ok(v),
    ensures st_ok(#[trigger] st.insert(k, v)),
{ reveal(st_ok); }
pub broadcast proof fn lemma_st_remove(st: St, k: Seq<u8>)
    requires st_ok(st),
    ensures st_ok(#[trigger] st.remove(k)),
{ reveal(st_ok); }
pub broadcast proof fn lemma_st_get(st: St, k: Seq<u8>)
    requires st_ok(st), st.contains_key(k),
    ensures val_ok(#[trigger] st[k]),
{ reveal(st_ok); }
pub broadcast proof fn lemma_carry_map(m: &DashMap<Vec<u8>, Vec<u8>>)
    requires val_ok(ValueV::Map(m@)), val_small(ValueV::Map(m@)),
    ensures #![trigger frame(FV::Map(order(m)))] #![trigger fv_fits(FV::Map(order(m)))] carries(FV::Map(order(m)), ValueV::Map(m@)),
{
    broadcast use axiom_order;
    lemma_order_map(order(m), m@);
    reveal(val_small);
    assert(fv_val(FV::Map(order(m))) == Some(ValueV::Map(m@)));
}
pub broadcast proof fn lemma_carry_set(m: &DashSet<Vec<u8>>)
    requires val_ok(ValueV::Set(m@)), val_small(ValueV::Set(m@)),
    ensures #![trigger frame(FV::Set(set_order(m)))] #![trigger fv_fits(FV::Set(set_order(m)))] carries(FV::Set(set_order(m)), ValueV::Set(m@)),
{
    broadcast use axiom_set_order;
    let o = set_order(m);
    assert(is_set_order(o, m@));
    assert(items_fit(o)) by {
        reveal(items_fit);
        assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).len() <= 65535 by { assert(o.to_set().contains(o[i])); assert(m@.contains(o[i])); }
    }
    reveal(val_small);
    assert(fv_val(FV::Set(o)) == Some(ValueV::Set(m@)));
}
pub broadcast proof fn lemma_carry_list(l: Seq<Seq<u8>>)
    requires val_ok(ValueV::List(l)), val_small(ValueV::List(l)),
    ensures #![trigger frame(FV::List(l))] #![trigger fv_fits(FV::List(l))] carries(FV::List(l), ValueV::List(l)),
{ reveal(val_small); assert(fv_val(FV::List(l)) == Some(ValueV::List(l))); }
pub broadcast proof fn lemma_carry_bytes(b: Seq<u8>)
    requires val_small(ValueV::Bytes(b)),
    ensures #![trigger frame(FV::Bytes(b))] #![trigger fv_fits(FV::Bytes(b))] carries(FV::Bytes(b), ValueV::Bytes(b)),
{ reveal(val_small); assert(fv_val(FV::Bytes(b)) == Some(ValueV::Bytes(b))); }
pub broadcast proof fn lemma_carry_str(s: Seq<char>)
    requires val_small(ValueV::Str(s)),
    ensures #![trigger frame(FV::Str(utf8(s)))] #![trigger fv_fits(FV::Str(utf8(s)))] carries(FV::Str(utf8(s)), ValueV::Str(s)),
{ broadcast use axiom_utf8; reveal(val_small); assert(fv_val(FV::Str(utf8(s))) == Some(ValueV::Str(s))); }
pub broadcast proof fn lemma_carry_int(x: i64)
    ensures #![trigger frame(FV::Int(x))] carries(FV::Int(x), ValueV::Integer(x)),
{ broadcast use axiom_be_i64; }
pub broadcast proof fn lemma_carry_float(x: f64)
    ensures #![trigger frame(FV::Float(x))] carries(FV::Float(x), ValueV::Float(x)),
{ broadcast use axiom_be_f64; }
pub broadcast proof fn lemma_carry_bool(x: bool)
    ensures #![trigger frame(FV::Bool(x))] carries(FV::Bool(x), ValueV::Boolean(x)),
{ }
pub broadcast proof fn lemma_carry_value(v: &Value)
    requires val_ok(v@), val_small(v@),
    ensures #![trigger frame(fv_of(v))] #![trigger fv_fits(fv_of(v))] carries(fv_of(v), v@),
{
    broadcast use {group_carry, axiom_be_i64, axiom_be_f64};
    match *v {
        Value::Map(x) => { lemma_carry_map(&x); }
        Value::Set(x) => { lemma_carry_set(&x); }
        Value::List(x) => { lemma_carry_list(deep(x@)); }
        Value::Bytes(x) => { lemma_carry_bytes(x@); }
        Value::String(x) => { lemma_carry_str(x@); }
        _ => { }
    }
}
pub broadcast group group_carry {
    lemma_carry_map, lemma_carry_set, lemma_carry_list, lemma_carry_bytes, lemma_carry_str, lemma_carry_int, lemma_carry_float, lemma_carry_bool,
    lemma_st_insert, lemma_st_remove, lemma_st_get,
}
pub open spec fn needs_key(c: CommandId) -> bool { !(c is Echo || c is Stats || c is Exists || c is Is || c is Type || c is Delete || c is Rename) }
/// Commands refuse internal keys (known finding of C17: by panicking), so their key isn't one.
pub open spec fn req_ok(req: &Request) -> bool { req.wf() && (needs_key(req.cmd()) && req.args_v().len() > 0 ==> key_ok(req.args_v()[0])) }

// C11
pub open spec fn cat(l: Seq<Seq<u8>>) -> Seq<u8>
    decreases l.len()
{ if l.len() == 0 { seq![] } else { cat(l.drop_last()) + l.last() } }
pub open spec fn cat_str(l: Seq<Seq<u8>>) -> Seq<char>
    decreases l.len()
{ if l.len() == 0 { seq![] } else { cat_str(l.drop_last()) + un_utf8(l.last()) } }
pub open spec fn all_utf8(l: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < l.len() ==> is_utf8(#[trigger] l[i]) }
pub open spec fn appended(base: ValueV, l: Seq<Seq<u8>>) -> Option<ValueV> {
    match base {
        ValueV::Bytes(b) => Some(ValueV::Bytes(b + cat(l))),
        ValueV::List(x) => if x.len() + l.len() <= 65535 { Some(ValueV::List(x + l)) } else { None },
        ValueV::Str(s) => if all_utf8(l) { Some(ValueV::Str(s + cat_str(l))) } else { None },
        _ => None,
    }
}
pub open spec fn append_out(c: Call) -> Option<ValueV> {
    let base = at_or(c.st0, c.k, c.eff_or(KeyType::Bytes));
    if c.n > 0 && kind_of(base) == c.eff_or(KeyType::Bytes) { appended(base, c.rest) } else { None }
}
pub open spec fn c_append(c: Call) -> bool { c.stores(append_out(c)) }
#[verifier::opaque]
pub open spec fn cat_inv(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>, base: Seq<u8>, b: Seq<u8>) -> bool { left_of(all, left) && b == base + cat(done_of(all, left)) }
#[verifier::opaque]
pub open spec fn own_inv(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { left_of(all, left) && b == done_of(all, left) }
#[verifier::opaque]
pub open spec fn str_inv(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>, b: Seq<char>) -> bool {
    left_of(all, left) && all_utf8(done_of(all, left)) && b == cat_str(done_of(all, left))
}
pub proof fn lemma_cat_start(all: Seq<Seq<u8>>, base: Seq<u8>)
    ensures cat_inv(all, all, base, base), own_inv(all, all, seq![]), str_inv(all, all, seq![]),
{
    reveal(cat_inv); reveal(own_inv); reveal(str_inv);
    assert(all.skip(0) =~= all); assert(done_of(all, all) =~= seq![]); assert(base + cat(seq![]) =~= base);
}
pub proof fn lemma_cat_step(all: Seq<Seq<u8>>, base: Seq<u8>, b: Seq<u8>)
    ensures
        forall|l: Seq<Seq<u8>>| #[trigger] cat_inv(all, l, base, b) ==> {
            &&& l.len() == 0 ==> b == base + cat(all)
            &&& l.len() > 0 ==> cat_inv(all, l.drop_first(), base, b + l[0])
        },
{
    reveal(cat_inv);
    assert forall|l: Seq<Seq<u8>>| #[trigger] cat_inv(all, l, base, b) implies {
            &&& l.len() == 0 ==> b == base + cat(all)
            &&& l.len() > 0 ==> cat_inv(all, l.drop_first(), base, b + l[0])
        } by {
        lemma_done(all, l);
        if l.len() > 0 { assert(base + cat(done_of(all, l)) + l[0] =~= base + (cat(done_of(all, l)) + l[0])); }
    }
}
pub proof fn lemma_own_step(all: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    ensures
        forall|l: Seq<Seq<u8>>| #[trigger] own_inv(all, l, b) ==> {
            &&& l.len() == 0 ==> b == all
            &&& l.len() > 0 ==> own_inv(all, l.drop_first(), b.push(l[0]))
        },
{
    reveal(own_inv);
    assert forall|l: Seq<Seq<u8>>| #[trigger] own_inv(all, l, b) implies {
            &&& l.len() == 0 ==> b == all
            &&& l.len() > 0 ==> own_inv(all, l.drop_first(), b.push(l[0]))
        } by {
        lemma_done(all, l);
        if l.len() > 0 { assert(b.push(l[0]) =~= done_of(all, l.drop_first())); }
    }
}
pub proof fn lemma_str_step(all: Seq<Seq<u8>>, b: Seq<char>)
    ensures
        forall|l: Seq<Seq<u8>>| #[trigger] str_inv(all, l, b) ==> {
            &&& l.len() == 0 ==> b == cat_str(all) && all_utf8(all)
            &&& l.len() > 0 && is_utf8(l[0]) ==> str_inv(all, l.drop_first(), b + un_utf8(l[0]))
            &&& l.len() > 0 && !is_utf8(l[0]) ==> !all_utf8(all)
        },
{
    reveal(str_inv);
    assert forall|l: Seq<Seq<u8>>| #[trigger] str_inv(all, l, b) implies {
            &&& l.len() == 0 ==> b == cat_str(all) && all_utf8(all)
            &&& l.len() > 0 && is_utf8(l[0]) ==> str_inv(all, l.drop_first(), b + un_utf8(l[0]))
            &&& l.len() > 0 && !is_utf8(l[0]) ==> !all_utf8(all)
        } by {
        lemma_done(all, l);
        if l.len() > 0 {
            assert(l[0] == all[all.len() - l.len()]);
            let d = done_of(all, l.drop_first());
            assert(d =~= done_of(all, l).push(l[0]));
            if is_utf8(l[0]) { assert forall|i: int| 0 <= i < d.len() implies is_utf8(#[trigger] d[i]) by { if i < d.len() - 1 { assert(d[i] == done_of(all, l)[i]); } } }
        }
    }
}
pub broadcast proof fn lemma_deep_add(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>)
    ensures #[trigger] deep(a + b) == deep(a) + deep(b),
{ assert(deep(a + b) =~= deep(a) + deep(b)); }
pub broadcast proof fn lemma_bytes_of_refs(x: Seq<Vec<u8>>)
    ensures #[trigger] bytes_of(refs(x)) == deep(x),
{ assert(bytes_of(refs(x)) =~= deep(x)); }
=== fn command::impl::append::Append::bytes
    requires st_ok(old(hop).st()), key_ok(key@), args.ok(), args.left().len() <= 255, out_small(append_out(kcall(KeyType::Bytes, key@, args.left(), old(hop), old(hop), old(resp)@, old(resp)@, Ok(())))),
    ensures
        /*C11*/ c_append(kcall(KeyType::Bytes, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Bytes, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Bytes, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    let ghost all = args.left();
    let ghost base = at_or(hop.st(), key@, KeyType::Bytes);
    proof { if let ValueV::Bytes(b) = base { lemma_cat_start(all, b); } }
--- shape for
--- loop 0
    invariant
        vx_it0.ok(),
        base is Bytes,
        cat_inv(all, vx_it0.left(), base->Bytes_0, bytes@),
    ensures
        cat_inv(all, vx_it0.left(), base->Bytes_0, bytes@),
        vx_it0.left().len() == 0,
    decreases vx_it0.left().len(),
--- loop-entry 0
    let ghost b0 = bytes@; let ghost l0 = vx_it0.left();
    proof { lemma_cat_step(all, base->Bytes_0, bytes@); }
--- loop-end 0
    proof { assert(bytes@ =~= b0 + l0[0]); }
--- loop-exit 0
    proof { lemma_cat_step(all, base->Bytes_0, bytes@); }
=== fn command::impl::append::Append::list
    requires st_ok(old(hop).st()), key_ok(key@), args.ok(), args.left().len() <= 255, out_small(append_out(kcall(KeyType::List, key@, args.left(), old(hop), old(hop), old(resp)@, old(resp)@, Ok(())))),
    ensures
        /*C11*/ c_append(kcall(KeyType::List, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::List, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::List, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_deep_add, lemma_deep_push, lemma_bytes_of_refs};
    let ghost all = args.left();
    proof { lemma_cat_start(all, seq![]); }
--- shape map
--- loop-type 0
Vec<Vec<u8>>
--- loop-before 0
    proof { assert(deep(vx_out0@) =~= seq![]); }
--- loop 0
    invariant
        vx_it0.ok(),
        own_inv(all, vx_it0.left(), deep(vx_out0@)),
    ensures
        own_inv(all, vx_it0.left(), deep(vx_out0@)),
        vx_it0.left().len() == 0,
    decreases vx_it0.left().len(),
--- loop-entry 0
    broadcast use lemma_deep_push;
    proof { lemma_own_step(all, deep(vx_out0@)); }
--- loop-exit 0
    proof { lemma_own_step(all, deep(vx_out0@)); }
=== fn command::impl::append::Append::string
    requires st_ok(old(hop).st()), key_ok(key@), args.ok(), args.left().len() <= 255, out_small(append_out(kcall(KeyType::String, key@, args.left(), old(hop), old(hop), old(resp)@, old(resp)@, Ok(())))),
    ensures
        /*C11*/ c_append(kcall(KeyType::String, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::String, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::String, key@, args.left(), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    let ghost all = args.left();
    proof { lemma_cat_start(all, seq![]); }
--- shape for
--- loop 0
    invariant
        vx_it0.ok(),
        str_inv(all, vx_it0.left(), suffix@),
    ensures
        str_inv(all, vx_it0.left(), suffix@),
        vx_it0.left().len() == 0,
    decreases vx_it0.left().len(),
--- loop-entry 0
    proof { lemma_str_step(all, suffix@); }
--- loop-exit 0
    proof { lemma_str_step(all, suffix@); }
=== fn command::impl::append::Append::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), out_small(append_out(call(req, old(hop), old(hop), old(resp)@, old(resp)@, Ok(())))),
    ensures
        /*C11*/ c_append(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    proof { req.lemma_facts(); }
=== sp
// C10
/// The value that the arguments behind the key encode.
pub open spec fn encoded(kt: KeyType, l: Seq<Seq<u8>>) -> Option<ValueV> {
    if l.len() == 0 { None } else {
        match kt {
            KeyType::Boolean => if l[0].len() > 0 { Some(ValueV::Boolean(l[0][0] > 0)) } else { None },
            KeyType::Bytes => Some(ValueV::Bytes(l[0])),
            KeyType::Float => if l[0].len() >= 8 { Some(ValueV::Float(un_f64(l[0].subrange(0, 8)))) } else { None },
            KeyType::Integer => if l[0].len() >= 8 { Some(ValueV::Integer(un_i64(l[0].subrange(0, 8)))) } else { None },
            KeyType::List => Some(ValueV::List(l)),
            KeyType::Map => if map_args_ok(l) { Some(ValueV::Map(map_of(l))) } else { None },
            KeyType::Set => if set_args_ok(l) { Some(ValueV::Set(l.to_set())) } else { None },
            KeyType::String => if is_utf8(l[0]) { Some(ValueV::Str(un_utf8(l[0]))) } else { None },
        }
    }
}
pub open spec fn set_out(c: Call) -> Option<ValueV> { if c.n > 1 { encoded(c.eff_or(KeyType::Bytes), c.rest) } else { None } }
pub open spec fn c_set(c: Call) -> bool { c.stores(set_out(c)) }
pub open spec fn c_get(c: Call) -> bool {
    if c.n == 0 { c.failed() }
    else if c.kind() is None { c.errs(DispatchError::KeyNonexistent) }
    else if c.kt is Some && c.kt != c.kind() { c.errs(DispatchError::KeyTypeDifferent) }
    else { c.answers(c.st0[c.k]) }
}
pub proof fn lemma_map_of(l: Seq<Seq<u8>>)
    requires map_args_ok(l),
    ensures
        map_of(l).dom().finite(), map_of(l).dom().len() <= l.len(),
        forall|k: Seq<u8>| #[trigger] map_of(l).contains_key(k) ==> k.len() <= 255,
    decreases l.len()
{
    reveal(map_args_ok); reveal_with_fuel(map_of, 2);
    if l.len() >= 2 {
        let t = l.take(l.len() - 2);
        assert forall|i: int| 0 <= i < t.len() && i % 2 == 0 implies (#[trigger] t[i]).len() <= 255 by { assert(t[i] == l[i]); }
        lemma_map_of(t);
        let (a, b) = (l[l.len() - 2], l[l.len() - 1]);
        assert(map_of(l).dom() =~= map_of(t).dom().insert(a));
    }
}
pub broadcast proof fn lemma_encoded_ok(kt: KeyType, l: Seq<Seq<u8>>)
    requires l.len() <= 255,
    ensures #[trigger] encoded(kt, l) matches Some(v) ==> val_ok(v),
{
    if l.len() > 0 && kt is Map && map_args_ok(l) { lemma_map_of(l); }
    if l.len() > 0 && kt is Set && set_args_ok(l) {
        reveal(set_args_ok);
        l.lemma_cardinality_of_set();
        assert forall|k: Seq<u8>| #[trigger] l.to_set().contains(k) implies k.len() <= 65535 by { let i = choose|i: int| 0 <= i < l.len() && l[i] == k; assert(l[i].len() <= 65535); }
    }
}
=== fn command::impl::set::Set::boolean
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::Boolean, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::Boolean, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Boolean, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Boolean, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::Boolean, rest))); assert(rest[0] == req.args_v()[1]); }
=== fn command::impl::set::Set::bytes
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::Bytes, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::Bytes, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Bytes, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Bytes, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::Bytes, rest))); assert(rest[0] == req.args_v()[1]); }
=== fn command::impl::set::Set::float
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::Float, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::Float, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Float, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Float, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::Float, rest))); assert(rest[0] == req.args_v()[1]); }
=== fn command::impl::set::Set::integer
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::Integer, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::Integer, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Integer, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Integer, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::Integer, rest))); assert(rest[0] == req.args_v()[1]); }
=== fn command::impl::set::Set::list
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::List, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::List, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::List, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::List, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::List, rest))); assert(rest[0] == req.args_v()[1]); }
    let ghost all = req.args_v().skip(1);
    broadcast use {lemma_deep_push, lemma_views_bytes};
    proof { lemma_cat_start(all, seq![]); }
--- shape map
--- loop-type 0
Vec<Vec<u8>>
--- loop-before 0
    proof { assert(deep(vx_out0@) =~= seq![]); }
--- loop 0
    invariant
        vx_it0.ok(),
        own_inv(all, vx_it0.left(), deep(vx_out0@)),
    ensures
        own_inv(all, vx_it0.left(), deep(vx_out0@)),
        vx_it0.left().len() == 0,
    decreases vx_it0.left().len(),
--- loop-entry 0
    broadcast use lemma_deep_push;
    proof { lemma_own_step(all, deep(vx_out0@)); }
--- loop-exit 0
    proof { lemma_own_step(all, deep(vx_out0@)); }
=== fn command::impl::set::Set::map
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::Map, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::Map, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Map, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Map, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::Map, rest))); assert(rest[0] == req.args_v()[1]); }
=== fn command::impl::set::Set::set
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::Set, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::Set, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Set, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Set, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::Set, rest))); assert(rest[0] == req.args_v()[1]); }
=== fn command::impl::set::Set::string
    requires st_ok(old(hop).st()), key_ok(key@), req_ok(req), req.args_v().len() > 1, key@ == req.args_v()[0], out_small(encoded(KeyType::String, req.args_v().skip(1))),
    ensures
        /*C10*/ c_set(kcall(KeyType::String, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::String, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::String, key@, req.args_v().skip(1), old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_encoded_ok};
    proof { req.lemma_facts(); let rest = req.args_v().skip(1); assert(val_of_ok(encoded(KeyType::String, rest))); assert(rest[0] == req.args_v()[1]); }
=== sp
pub open spec fn val_of_ok(o: Option<ValueV>) -> bool { o matches Some(v) ==> val_ok(v) }
pub broadcast proof fn lemma_views_bytes(s: Seq<Seq<u8>>)
    ensures (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() <= isize::MAX) ==> bytes_of(#[trigger] slices_of(s)) == s,
{
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() <= isize::MAX {
        broadcast use axiom_slice_view;
        assert(bytes_of(slices_of(s)) =~= s);
    }
}
=== fn command::impl::set::Set::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), out_small(set_out(call(req, old(hop), old(hop), old(resp)@, old(resp)@, Ok(())))),
    ensures
        /*C10*/ c_set(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    proof { req.lemma_facts(); }
=== fn command::impl::get::Get::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), req.args_v().len() > 0 && old(hop).st().contains_key(req.args_v()[0]) ==> val_small(old(hop).st()[req.args_v()[0]]),
    ensures
        /*C10*/ c_get(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_carry_value};
    proof { req.lemma_facts(); }
=== sp
// C12
pub open spec fn amount_int(l: Seq<Seq<u8>>) -> Option<int> { if l.len() > 0 && l[0].len() >= 8 { Some(un_i64(l[0].subrange(0, 8)) as int) } else { None } }
pub open spec fn amount_float(l: Seq<Seq<u8>>) -> Option<f64> { if l.len() > 0 && l[0].len() >= 8 { Some(un_f64(l[0].subrange(0, 8))) } else { None } }
/// x plus or minus a is stored (zero minus a is how a subtraction may be written).
pub open spec fn stores_sum(c: Call, x: f64, a: f64) -> bool { c.stores(Some(ValueV::Float(fadd(x, a)))) || c.stores(Some(ValueV::Float(fadd(a, x)))) }
pub open spec fn float_step(c: Call, x: f64, a: f64, minus: bool) -> bool {
    if minus { c.stores(Some(ValueV::Float(fsub(x, a)))) || stores_sum(c, x, fneg(a)) || stores_sum(c, x, fsub(0.0f64, a)) }
    else { stores_sum(c, x, a) }
}
pub open spec fn adds_int(c: Call, amt: Option<int>) -> bool {
    let base = at_or(c.st0, c.k, KeyType::Integer);
    if base is Integer && amt is Some && i64::MIN <= base->Integer_0 + amt.unwrap() <= i64::MAX {
        c.stores(Some(ValueV::Integer((base->Integer_0 + amt.unwrap()) as i64)))
    } else { c.failed() }
}
pub open spec fn adds_float(c: Call, amt: Option<f64>, minus: bool) -> bool {
    let base = at_or(c.st0, c.k, KeyType::Float);
    if base is Float && amt is Some {
        float_step(c, base->Float_0, amt.unwrap(), minus)
    } else { c.failed() }
}
pub open spec fn c_step(c: Call, minus: bool, by: bool) -> bool {
    if c.n == 0 { c.failed() }
    else if c.eff() == Some(KeyType::Float) { adds_float(c, if by { amount_float(c.rest) } else { Some(1.0f64) }, minus) }
    else if c.eff() is None || c.eff() == Some(KeyType::Integer) {
        let a = if by { amount_int(c.rest) } else { Some(1int) };
        adds_int(c, if minus && a is Some { Some(-a.unwrap()) } else { a })
    }
    else { c.kind() is Some && !(c.kind() == Some(KeyType::Integer) || c.kind() == Some(KeyType::Float)) ==> c.failed() }
}
/// What is answered is a number.
pub open spec fn wrote_number(r0: Seq<u8>, r1: Seq<u8>) -> bool { exists|v: ValueV| (v is Integer || v is Float) && #[trigger] wrote(r0, r1, v) }
pub open spec fn c_number(c: Call) -> bool { c.ret is Ok ==> wrote_number(c.r0, c.r1) }
pub broadcast proof fn lemma_number_int(c: Call, amt: Option<int>)
    ensures #[trigger] adds_int(c, amt) ==> c_number(c),
{ }
pub broadcast proof fn lemma_number_float(c: Call, amt: Option<f64>, minus: bool)
    ensures #[trigger] adds_float(c, amt, minus) ==> c_number(c),
{ }
=== fn command::impl::increment_by::IncrementBy::increment_float_by
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C12*/ adds_float(kcall(KeyType::Float, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret), Some(amount), false),
        /*C13*/ kcall(KeyType::Float, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Float, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
=== fn command::impl::increment_by::IncrementBy::increment_int_by
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C12*/ adds_int(kcall(KeyType::Integer, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret), Some(amount as int)),
        /*C13*/ kcall(KeyType::Integer, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Integer, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
=== fn command::impl::decrement_by::DecrementBy::decrement_by_min
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C12*/ adds_int(kcall(KeyType::Integer, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret), Some(-(i64::MIN as int))),
        /*C13*/ kcall(KeyType::Integer, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ kcall(KeyType::Integer, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
=== fn command::impl::increment::Increment::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), 
    ensures
        /*C12*/ c_step(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret), false, false),
        /*C23*/ c_number(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_number_int, lemma_number_float};
    proof { req.lemma_facts(); }
=== fn command::impl::increment_by::IncrementBy::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), 
    ensures
        /*C12*/ c_step(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret), false, true),
        /*C23*/ c_number(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_number_int, lemma_number_float};
    proof { req.lemma_facts(); }
=== fn command::impl::decrement::Decrement::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), 
    ensures
        /*C12*/ c_step(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret), true, false),
        /*C23*/ c_number(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_number_int, lemma_number_float};
    proof { req.lemma_facts(); }
=== fn command::impl::decrement_by::DecrementBy::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), 
    ensures
        /*C12*/ c_step(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret), true, true),
        /*C23*/ c_number(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_number_int, lemma_number_float};
    proof { req.lemma_facts(); }
=== sp
// C14
pub open spec fn all_exist(st: St, l: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < l.len() ==> st.contains_key(#[trigger] l[i]) }
pub open spec fn all_are(st: St, l: Seq<Seq<u8>>, t: KeyType) -> bool { forall|i: int| 0 <= i < l.len() ==> kind_at(st, #[trigger] l[i]) == Some(t) }
pub open spec fn c_exists(c: Call) -> bool {
    if c.n == 0 { c.failed() }
    else if c.kt is Some { c.errs(DispatchError::KeyTypeUnexpected) }
    else { c.answers(ValueV::Boolean(all_exist(c.st0, c.args))) }
}
pub open spec fn c_is(c: Call) -> bool {
    if c.n == 0 { c.failed() }
    else if c.kt is None { c.errs(DispatchError::KeyTypeRequired) }
    else { c.answers(ValueV::Boolean(all_are(c.st0, c.args, c.kt.unwrap()))) }
}
pub open spec fn c_type(c: Call) -> bool {
    if c.n == 0 { c.failed() }
    else if c.kt is Some { c.errs(DispatchError::KeyTypeUnexpected) || c.kind() is None && c.errs(DispatchError::KeyNonexistent) }
    else if c.kind() is None { c.errs(DispatchError::KeyNonexistent) }
    else { c.answers(ValueV::Integer(kt_code(c.kind().unwrap()) as i64)) }
}
pub open spec fn countable(k: KeyType) -> bool { k is Bytes || k is List || k is Map || k is Set || k is String }
pub open spec fn length_of(v: ValueV) -> int {
    match v {
        ValueV::Bytes(b) => b.len() as int,
        ValueV::List(l) => l.len() as int,
        ValueV::Map(m) => m.dom().len() as int,
        ValueV::Set(s) => s.len() as int,
        ValueV::Str(s) => s.len() as int,
        _ => 0,
    }
}
pub open spec fn c_length(c: Call) -> bool {
    if c.n == 0 { c.failed() }
    else if c.kt is Some && !countable(c.kt.unwrap()) { c.failed() }
    else if c.kind() is None { c.errs(DispatchError::KeyNonexistent) }
    else if c.kt is Some && c.kt != c.kind() { c.errs(DispatchError::KeyTypeDifferent) }
    else if !countable(c.kind().unwrap()) { c.errs(DispatchError::KeyTypeInvalid) }
    else { c.answers(ValueV::Integer(length_of(c.st0[c.k]) as i64)) && length_of(c.st0[c.k]) <= i64::MAX }
}
pub open spec fn c_keys(c: Call) -> bool {
    if c.n == 0 { c.failed() }
    else if c.kt is Some && !(c.kt == Some(KeyType::Map)) { c.failed() }
    else if c.kind() is None { c.errs(DispatchError::KeyNonexistent) }
    else {
        match c.st0[c.k] {
            ValueV::Map(m) => c.ret is Ok && wrote_items(c.r0, c.r1, m.dom()),
            _ => if c.kt is Some { c.errs(DispatchError::KeyTypeDifferent) } else { c.errs(DispatchError::KeyTypeInvalid) },
        }
    }
}
pub open spec fn c_delete(c: Call) -> bool {
    if c.n == 0 { c.failed() }
    else if c.kt is Some { c.errs(DispatchError::KeyTypeUnexpected) }
    else if c.kind() is None { c.errs(DispatchError::PreconditionFailed) }
    else { c.answers(ValueV::Bytes(c.k)) && c.st1 =~= c.st0.remove(c.k) }
}
pub open spec fn c_rename(c: Call) -> bool {
    if c.n < 2 { c.failed() }
    else if c.kt is Some { c.errs(DispatchError::KeyTypeUnexpected) }
    else {
        let to = c.rest[0];
        if c.kind() is None { c.errs(DispatchError::KeyNonexistent) || c.st0.contains_key(to) && c.errs(DispatchError::PreconditionFailed) }
        else if c.st0.contains_key(to) { c.errs(DispatchError::PreconditionFailed) }
        else { c.answers(ValueV::Bytes(to)) && c.st1 =~= c.st0.remove(c.k).insert(to, c.st0[c.k]) }
    }
}
pub broadcast proof fn lemma_bytes_owned(s: Seq<Vec<u8>>)
    ensures #[trigger] bytes_of(s) == deep(s),
{ assert(bytes_of(s) =~= deep(s)); }
pub broadcast proof fn lemma_bytes_empty<U: VxAsRef<[u8]>>(s: Seq<U>)
    ensures s.len() == 0 ==> #[trigger] bytes_of(s) == Seq::<Seq<u8>>::empty(),
{ if s.len() == 0 { assert(bytes_of(s) =~= Seq::<Seq<u8>>::empty()); } }
pub open spec fn c_echo(c: Call) -> bool { c.answers(ValueV::List(c.args)) }
#[verifier::opaque]
pub open spec fn exist_inv(st: St, all: Seq<Seq<u8>>, left: Seq<Seq<u8>>) -> bool { left_of(all, left) && all_exist(st, done_of(all, left)) }
#[verifier::opaque]
pub open spec fn are_inv(st: St, t: KeyType, all: Seq<Seq<u8>>, left: Seq<Seq<u8>>) -> bool { left_of(all, left) && all_are(st, done_of(all, left), t) }
pub proof fn lemma_exist(st: St, t: KeyType, all: Seq<Seq<u8>>)
    ensures
        exist_inv(st, all, all), are_inv(st, t, all, all),
        forall|l: Seq<Seq<u8>>| #[trigger] exist_inv(st, all, l) ==> {
            &&& l.len() == 0 ==> all_exist(st, all)
            &&& l.len() > 0 && st.contains_key(l[0]) ==> exist_inv(st, all, l.drop_first())
            &&& l.len() > 0 && !st.contains_key(l[0]) ==> !all_exist(st, all)
        },
        forall|l: Seq<Seq<u8>>| #[trigger] are_inv(st, t, all, l) ==> {
            &&& l.len() == 0 ==> all_are(st, all, t)
            &&& l.len() > 0 && kind_at(st, l[0]) == Some(t) ==> are_inv(st, t, all, l.drop_first())
            &&& l.len() > 0 && kind_at(st, l[0]) != Some(t) ==> !all_are(st, all, t)
        },
{
    reveal(exist_inv); reveal(are_inv);
    assert(all.skip(0) =~= all); assert(done_of(all, all) =~= seq![]);
    assert forall|l: Seq<Seq<u8>>| left_of(all, l) && l.len() > 0 implies
        l[0] == all[all.len() - l.len()] && done_of(all, #[trigger] l.drop_first()) == done_of(all, l).push(l[0]) by {
        lemma_done(all, l);
        assert(done_of(all, l.drop_first()) =~= done_of(all, l).push(l[0]));
    }
    assert forall|l: Seq<Seq<u8>>| #[trigger] exist_inv(st, all, l) implies {
            &&& l.len() == 0 ==> all_exist(st, all)
            &&& l.len() > 0 && st.contains_key(l[0]) ==> exist_inv(st, all, l.drop_first())
            &&& l.len() > 0 && !st.contains_key(l[0]) ==> !all_exist(st, all)
        } by {
        lemma_done(all, l);
        if l.len() > 0 && st.contains_key(l[0]) {
            let d = done_of(all, l.drop_first());
            assert forall|i: int| 0 <= i < d.len() implies st.contains_key(#[trigger] d[i]) by { if i < d.len() - 1 { assert(d[i] == done_of(all, l)[i]); } }
        }
    }
    assert forall|l: Seq<Seq<u8>>| #[trigger] are_inv(st, t, all, l) implies {
            &&& l.len() == 0 ==> all_are(st, all, t)
            &&& l.len() > 0 && kind_at(st, l[0]) == Some(t) ==> are_inv(st, t, all, l.drop_first())
            &&& l.len() > 0 && kind_at(st, l[0]) != Some(t) ==> !all_are(st, all, t)
        } by {
        lemma_done(all, l);
        if l.len() > 0 && kind_at(st, l[0]) == Some(t) {
            let d = done_of(all, l.drop_first());
            assert forall|i: int| 0 <= i < d.len() implies kind_at(st, #[trigger] d[i]) == Some(t) by { if i < d.len() - 1 { assert(d[i] == done_of(all, l)[i]); } }
        }
    }
}
pub open spec fn keys_small(v: ValueV) -> bool {
    v matches ValueV::Map(m) ==> forall|l: Seq<Seq<u8>>| #[trigger] is_set_order(l, m.dom()) ==> val_small(ValueV::List(l))
}
/// The keys of a map in the order in which it yields them.
pub open spec fn firsts(s: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].0) }
pub proof fn lemma_firsts(m: Map<Seq<u8>, Seq<u8>>, o: Seq<(Seq<u8>, Seq<u8>)>)
    requires is_order(o, m),
    ensures is_set_order(firsts(o), m.dom()),
{
    let f = firsts(o);
    assert(f.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by {
            if i < j { assert(o[i].0 != o[j].0); } else { assert(o[j].0 != o[i].0); }
        }
    }
    assert forall|k: Seq<u8>| f.to_set().contains(k) == m.dom().contains(k) by {
        if f.contains(k) { let i = choose|i: int| 0 <= i < f.len() && f[i] == k; assert(m.contains_key(o[i].0)); }
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k; assert(f[i] == k); }
    }
    assert(f.to_set() =~= m.dom());
}
=== fn command::impl::exists::Exists::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), keyed(req.cmd()), 
    ensures
        /*C14*/ c_exists(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    let ghost all = req.args_v();
    let ghost h0 = *hop;
    proof { req.lemma_facts(); lemma_exist(hop.st(), req.kt().unwrap(), all); assert(in_range(all, 0, all.len() as int) =~= all); }
--- shape all
--- loop 0
    invariant
        vx_it0.ok(), *hop == h0,
        vx_res0 && exist_inv(hop.st(), all, vx_it0.left()),
    ensures
        *hop == h0,
        vx_res0 == all_exist(hop.st(), all),
    decreases vx_it0.left().len(),
=== fn command::impl::is::Is::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), keyed(req.cmd()), 
    ensures
        /*C14*/ c_is(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    let ghost all = req.args_v();
    let ghost h0 = *hop;
    proof { req.lemma_facts(); lemma_exist(hop.st(), req.kt().unwrap(), all); assert(in_range(all, 0, all.len() as int) =~= all); }
--- shape all
--- loop 0
    invariant
        vx_it0.ok(), *hop == h0,
        vx_res0 && are_inv(hop.st(), req.kt().unwrap(), all, vx_it0.left()),
    ensures
        *hop == h0,
        vx_res0 == all_are(hop.st(), all, req.kt().unwrap()),
    decreases vx_it0.left().len(),
=== fn command::impl::type::Type::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), keyed(req.cmd()), 
    ensures
        /*C14*/ c_type(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    proof { req.lemma_facts(); }
=== fn command::impl::delete::Delete::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), keyed(req.cmd()), req.args_v().len() > 0 ==> val_small(ValueV::Bytes(req.args_v()[0])),
    ensures
        /*C14*/ c_delete(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    proof { req.lemma_facts(); }
=== fn command::impl::rename::Rename::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), keyed(req.cmd()), req.args_v().len() > 1 ==> val_small(ValueV::Bytes(req.args_v()[1])),
    ensures
        /*C14*/ c_rename(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).clean(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local2(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    proof { req.lemma_facts(); }
=== fn command::impl::length::Length::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), 
    ensures
        /*C14*/ c_length(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    proof { req.lemma_facts(); }
=== fn command::impl::length::Length::bytes
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C14*/ c_length(kcall(KeyType::Bytes, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Bytes, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ kcall(KeyType::Bytes, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, axiom_vec_len};
=== fn command::impl::length::Length::list
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C14*/ c_length(kcall(KeyType::List, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::List, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ kcall(KeyType::List, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, axiom_vec_len};
=== fn command::impl::length::Length::map
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C14*/ c_length(kcall(KeyType::Map, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Map, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ kcall(KeyType::Map, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, axiom_vec_len};
=== fn command::impl::length::Length::set
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C14*/ c_length(kcall(KeyType::Set, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Set, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ kcall(KeyType::Set, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, axiom_vec_len};
=== fn command::impl::length::Length::string
    requires st_ok(old(hop).st()), key_ok(key@),
    ensures
        /*C14*/ c_length(kcall(KeyType::String, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::String, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ kcall(KeyType::String, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, axiom_vec_len};
=== fn command::impl::keys::Keys::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), needs_key(req.cmd()), req.args_v().len() > 0 && old(hop).st().contains_key(req.args_v()[0]) ==> keys_small(old(hop).st()[req.args_v()[0]]),
    ensures
        /*C14*/ c_keys(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use group_carry;
    proof { req.lemma_facts(); }
=== fn command::impl::keys::Keys::map
    requires st_ok(old(hop).st()), key_ok(key@), old(hop).st().contains_key(key@) ==> keys_small(old(hop).st()[key@]),
    ensures
        /*C14*/ c_keys(kcall(KeyType::Map, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ kcall(KeyType::Map, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ kcall(KeyType::Map, key@, seq![], old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, axiom_order, lemma_deep_push, lemma_ref_pairs_drop, lemma_bytes_owned};
    let ghost k0 = key@;
    let ghost st0 = hop.st();
--- shape map
--- loop-type 0
Vec<Vec<u8>>
--- loop-before 0
    let ghost o = order(map);
    proof { lemma_first_start(o); lemma_firsts(map@, o); assert(deep(vx_out0@) =~= seq![]); }
--- loop 0
    invariant
        first_inv(o, ref_pairs(vx_it0.rest()), deep(vx_out0@)),
    ensures
        deep(vx_out0@) == firsts(o),
    decreases vx_it0.rest().len(),
--- loop-entry 0
    broadcast use {lemma_deep_push, lemma_ref_pairs_drop};
    proof { lemma_first_step(o, deep(vx_out0@)); lemma_pairs_len(vx_it0.rest()); }
=== fn command::impl::echo::Echo::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), val_small(ValueV::List(req.args_v())),
    ensures
        /*C14*/ c_echo(call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret)),
        /*C13*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(resp)@, final(resp)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- entry
    broadcast use {group_carry, lemma_views_bytes, lemma_bytes_empty};
    proof { req.lemma_facts(); let all = req.args_v(); assert(in_range(all, 0, all.len() as int) =~= all); if all.len() == 0 { assert(all =~= seq![]); } }
=== sp
#[verifier::opaque]
pub open spec fn first_inv(o: Seq<(Seq<u8>, Seq<u8>)>, left: Seq<(Seq<u8>, Seq<u8>)>, b: Seq<Seq<u8>>) -> bool { left_of(o, left) && b == firsts(done_of(o, left)) }
pub proof fn lemma_first_start(o: Seq<(Seq<u8>, Seq<u8>)>)
    ensures first_inv(o, o, seq![]),
{ reveal(first_inv); assert(o.skip(0) =~= o); assert(firsts(done_of(o, o)) =~= seq![]); }
pub proof fn lemma_first_step(o: Seq<(Seq<u8>, Seq<u8>)>, b: Seq<Seq<u8>>)
    ensures
        forall|l: Seq<(Seq<u8>, Seq<u8>)>| #[trigger] first_inv(o, l, b) ==> {
            &&& l.len() == 0 ==> b == firsts(o)
            &&& l.len() > 0 ==> first_inv(o, l.drop_first(), b.push(l[0].0))
        },
{
    reveal(first_inv);
    assert forall|l: Seq<(Seq<u8>, Seq<u8>)>| #[trigger] first_inv(o, l, b) implies {
            &&& l.len() == 0 ==> b == firsts(o)
            &&& l.len() > 0 ==> first_inv(o, l.drop_first(), b.push(l[0].0))
        } by {
        lemma_done(o, l);
        if l.len() > 0 { assert(l[0] == o[o.len() - l.len()]); assert(b.push(l[0].0) =~= firsts(done_of(o, l.drop_first()))); }
    }
}
=== sp
// C15
pub open spec fn metric_name(m: Metric) -> Seq<char> {
    match m {
        Metric::CommandsErrored => "commands_errored"@,
        Metric::CommandsSuccessful => "commands_successful"@,
        Metric::SessionsEnded => "sessions_ended"@,
        Metric::SessionsStarted => "sessions_started"@,
    }
}
pub proof fn lemma_utf8_len(x: Seq<char>)
    ensures utf8(x).len() <= 4 * x.len(),
    decreases x.len(),
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
    if x.len() > 0 {
        vstd::utf8::encode_utf8_concat(x.drop_last(), seq![x.last()]);
        assert(x =~= x.drop_last() + seq![x.last()]);
        lemma_utf8_len(x.drop_last());
        assert(vstd::utf8::encode_utf8(seq![x.last()]).len() <= 4);
    } else { assert(vstd::utf8::encode_utf8(x).len() == 0); }
}
pub proof fn lemma_metric_names(a: Metric, b: Metric)
    ensures metric_name(a) == metric_name(b) <==> a == b, utf8(metric_name(a)) == utf8(metric_name(b)) <==> a == b,
        utf8(metric_name(a)).len() <= 255,
{
    broadcast use axiom_utf8;
    reveal_strlit("commands_errored");
    reveal_strlit("commands_successful");
    reveal_strlit("sessions_ended");
    reveal_strlit("sessions_started");
    let (x, y) = (metric_name(a), metric_name(b));
    if a != b { assert(x.len() != y.len() || x[0] != y[0] || x[9] != y[9]); assert(x != y); }
    lemma_utf8_len(x);
}
/// What a counter is reported with: the counters past the largest integer can't be.
pub open spec fn reported(counts: Map<Metric, u64>, c: Metric) -> Option<Seq<u8>> {
    if counts.contains_key(c) && counts[c] <= i64::MAX { Some(be_i64(counts[c] as i64)) } else { None }
}
pub open spec fn stats_for(m: Map<Seq<u8>, Seq<u8>>, counts: Map<Metric, u64>, done: ISet<Metric>) -> bool {
    &&& forall|c: Metric| #[trigger] done.contains(c) && reported(counts, c) is Some ==>
        m.contains_key(utf8(metric_name(c))) && m[utf8(metric_name(c))] == reported(counts, c).unwrap()
    &&& forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> exists|c: Metric| #[trigger] done.contains(c) && k == utf8(metric_name(c)) && reported(counts, c) is Some
}
pub open spec fn c_stats(c: Call, counts: Map<Metric, u64>) -> bool {
    if c.kt is Some { c.errs(DispatchError::KeyTypeUnexpected) }
    else { exists|m: Map<Seq<u8>, Seq<u8>>| c.answers(ValueV::Map(m)) && #[trigger] stats_for(m, counts, ISet::full()) }
}
pub open spec fn stats_small(counts: Map<Metric, u64>) -> bool {
    forall|m: Map<Seq<u8>, Seq<u8>>| #[trigger] stats_for(m, counts, ISet::full()) ==> val_small(ValueV::Map(m))
}
#[verifier::opaque]
pub open spec fn stats_inv(all: Seq<&Metric>, left: Seq<&Metric>, counts: Map<Metric, u64>, m: Map<Seq<u8>, Seq<u8>>) -> bool {
    left_of(all, left) && m.dom().finite() && m.dom().len() <= all.len() - left.len() && stats_for(m, counts, met(done_of(all, left)))
}
pub open spec fn met(l: Seq<&Metric>) -> ISet<Metric> { ISet::new(|c: Metric| l.contains(&c)) }
pub proof fn lemma_stats_start(all: Seq<&Metric>, counts: Map<Metric, u64>)
    ensures stats_inv(all, all, counts, Map::empty()),
{
    reveal(stats_inv);
    assert(all.skip(0) =~= all);
    assert(done_of(all, all) =~= seq![]);
}
pub proof fn lemma_stats_step(all: Seq<&Metric>, counts: Map<Metric, u64>, m: Map<Seq<u8>, Seq<u8>>)
    requires all.len() <= 65535,
    ensures
        forall|l: Seq<&Metric>| #[trigger] stats_inv(all, l, counts, m) ==> {
            &&& l.len() == 0 ==> val_ok(ValueV::Map(m)) && ((forall|c: Metric| #[trigger] all.contains(&c)) ==> stats_for(m, counts, ISet::full()))
            &&& l.len() > 0 && reported(counts, *l[0]) is None ==> stats_inv(all, l.drop_first(), counts, m)
            &&& l.len() > 0 && reported(counts, *l[0]) is Some ==>
                stats_inv(all, l.drop_first(), counts, m.insert(utf8(metric_name(*l[0])), reported(counts, *l[0]).unwrap()))
        },
{
    reveal(stats_inv);
    assert forall|l: Seq<&Metric>| #[trigger] stats_inv(all, l, counts, m) implies {
            &&& l.len() == 0 ==> val_ok(ValueV::Map(m)) && ((forall|c: Metric| #[trigger] all.contains(&c)) ==> stats_for(m, counts, ISet::full()))
            &&& l.len() > 0 && reported(counts, *l[0]) is None ==> stats_inv(all, l.drop_first(), counts, m)
            &&& l.len() > 0 && reported(counts, *l[0]) is Some ==>
                stats_inv(all, l.drop_first(), counts, m.insert(utf8(metric_name(*l[0])), reported(counts, *l[0]).unwrap()))
        } by {
        lemma_done(all, l);
        if l.len() == 0 {
            assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) implies k.len() <= 255 by {
                let c = choose|c: Metric| met(done_of(all, l)).contains(c) && k == utf8(metric_name(c)) && reported(counts, c) is Some;
                lemma_metric_names(c, c);
            }
            if forall|c: Metric| #[trigger] all.contains(&c) {
                assert(done_of(all, l) =~= all);
                assert(met(all) =~= ISet::<Metric>::full()) by { assert forall|c: Metric| met(all).contains(c) by { assert(all.contains(&c)); } }
            }
        } else {
            let d = done_of(all, l);
            let d2 = done_of(all, l.drop_first());
            let x = *l[0];
            assert(d2 =~= d.push(l[0]));
            assert forall|c: Metric| met(d2).contains(c) == (met(d).contains(c) || c == x) by {
                if d2.contains(&c) { let i = choose|i: int| 0 <= i < d2.len() && d2[i] == &c; if i < d.len() { assert(d[i] == &c); } else { assert(c == x); } }
                if d.contains(&c) { let i = choose|i: int| 0 <= i < d.len() && d[i] == &c; assert(d2[i] == &c); }
                if c == x { assert(d2[d.len() as int] == &c); }
            }
            match reported(counts, x) {
                Some(v) => {
                    let n = m.insert(utf8(metric_name(x)), v);
                    assert forall|c: Metric| #[trigger] met(d2).contains(c) && reported(counts, c) is Some implies
                        n.contains_key(utf8(metric_name(c))) && n[utf8(metric_name(c))] == reported(counts, c).unwrap() by { lemma_metric_names(c, x); }
                    assert forall|k: Seq<u8>| #[trigger] n.contains_key(k) implies
                        exists|c: Metric| #[trigger] met(d2).contains(c) && k == utf8(metric_name(c)) && reported(counts, c) is Some by {
                        if k == utf8(metric_name(x)) { assert(met(d2).contains(x)); }
                        else {
                            assert(m.contains_key(k));
                            let c = choose|c: Metric| met(d).contains(c) && k == utf8(metric_name(c)) && reported(counts, c) is Some;
                            assert(met(d2).contains(c));
                        }
                    }
                    assert(stats_inv(all, l.drop_first(), counts, n));
                },
                None => {
                    assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) implies
                        exists|c: Metric| #[trigger] met(d2).contains(c) && k == utf8(metric_name(c)) && reported(counts, c) is Some by {
                        let c = choose|c: Metric| met(d).contains(c) && k == utf8(metric_name(c)) && reported(counts, c) is Some;
                        assert(met(d2).contains(c));
                    }
                },
            }
        }
    }
}
=== mod metrics
#[allow(unused_imports)] use crate::sp::metric_name;
=== fn metrics::Metric::name
    ensures ret@ == metric_name(self),
=== fn command::impl::stats::Stats::Dispatch::dispatch
    requires st_ok(old(hop).st()), req_ok(req), stats_small(old(hop).0.metrics.counts()),
    ensures
        /*C15*/ c_stats(call(req, old(hop), final(hop), old(res)@, final(res)@, ret), old(hop).0.metrics.counts()),
        /*C13*/ call(req, old(hop), final(hop), old(res)@, final(res)@, ret).pure_(),
        /*C16*/ call(req, old(hop), final(hop), old(res)@, final(res)@, ret).local(),
        /*C17*/ st_ok(final(hop).st()),
        final(hop).same_rest(old(hop)),
--- shape for
--- entry
    broadcast use group_carry;
    let ghost h0 = *hop;
    let ghost counts = hop.0.metrics.counts();
    proof { req.lemma_facts(); }
--- loop-before 0
    let ghost all = vx_it0.rest();
    proof { lemma_stats_start(all, counts); assert(map@ =~= Map::empty()); if all.len() >= 4 { assert(all.contains(all[0]) && all.contains(all[1]) && all.contains(all[2]) && all.contains(all[3])); } }
--- loop 0
    invariant
        *hop == h0, stats_inv(all, vx_it0.rest(), counts, map@), metrics.counts() == counts,
    ensures
        *hop == h0, stats_inv(all, seq![], counts, map@),
    decreases vx_it0.rest().len(),
--- loop-entry 0
    proof { lemma_stats_step(all, counts, map@); }
--- loop-exit 0
    proof { lemma_stats_step(all, counts, map@); }
=== sp
/// The assumption on sizes for each command.
pub open spec fn small_ok(c: Call, cmd: CommandId, counts: Map<Metric, u64>) -> bool {
    let v = if c.st0.contains_key(c.k) { Some(c.st0[c.k]) } else { None };
    match cmd {
        CommandId::Append => out_small(append_out(c)),
        CommandId::Set => out_small(set_out(c)),
        CommandId::Get => c.n > 0 ==> out_small(v),
        CommandId::Delete => c.n > 0 ==> val_small(ValueV::Bytes(c.k)),
        CommandId::Rename => c.n > 1 ==> val_small(ValueV::Bytes(c.args[1])),
        CommandId::Keys => c.n > 0 && v is Some ==> keys_small(v.unwrap()),
        CommandId::Echo => val_small(ValueV::List(c.args)),
        CommandId::Stats => stats_small(counts),
        _ => true,
    }
}
pub open spec fn queries(c: CommandId) -> bool { c is Echo || c is Exists || c is Get || c is Is || c is Keys || c is Length || c is Stats || c is Type }
=== fn hop::Hop::dispatch
    requires st_ok(old(self).st()), req_ok(req), small_ok(call(req, old(self), old(self), old(res)@, old(res)@, Ok(())), req.cmd(), old(self).0.metrics.counts()),
    ensures
        /*C11 C15*/ req.cmd() is Append ==> c_append(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C12 C15*/ req.cmd() is DecrementBy ==> c_step(call(req, old(self), final(self), old(res)@, final(res)@, ret), true, true),
        /*C12 C15*/ req.cmd() is Decrement ==> c_step(call(req, old(self), final(self), old(res)@, final(res)@, ret), true, false),
        /*C12 C15*/ req.cmd() is IncrementBy ==> c_step(call(req, old(self), final(self), old(res)@, final(res)@, ret), false, true),
        /*C12 C15*/ req.cmd() is Increment ==> c_step(call(req, old(self), final(self), old(res)@, final(res)@, ret), false, false),
        /*C23*/ req.cmd() is DecrementBy || req.cmd() is Decrement || req.cmd() is IncrementBy || req.cmd() is Increment ==> c_number(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C14 C15*/ req.cmd() is Delete ==> c_delete(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C14 C15*/ req.cmd() is Echo ==> c_echo(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C14 C15*/ req.cmd() is Exists ==> c_exists(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C10 C15*/ req.cmd() is Get ==> c_get(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C14 C15*/ req.cmd() is Is ==> c_is(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C14 C15*/ req.cmd() is Keys ==> c_keys(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C14 C15*/ req.cmd() is Rename ==> c_rename(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C10 C15*/ req.cmd() is Set ==> c_set(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C15*/ req.cmd() is Stats ==> c_stats(call(req, old(self), final(self), old(res)@, final(res)@, ret), old(self).0.metrics.counts()),
        /*C14 C15*/ req.cmd() is Type ==> c_type(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C14 C15*/ req.cmd() is Length ==> c_length(call(req, old(self), final(self), old(res)@, final(res)@, ret)),
        /*C13*/ call(req, old(self), final(self), old(res)@, final(res)@, ret).clean(),
        /*C13*/ queries(req.cmd()) ==> call(req, old(self), final(self), old(res)@, final(res)@, ret).pure_(),
        /*C16*/ if req.cmd() is Rename { call(req, old(self), final(self), old(res)@, final(res)@, ret).local2() } else { call(req, old(self), final(self), old(res)@, final(res)@, ret).local() },
        /*C17*/ st_ok(final(self).st()),
        /*C15*/ final(self).0.metrics_writer.log() == old(self).0.metrics_writer.log().push(if ret is Ok { Metric::CommandsSuccessful } else { Metric::CommandsErrored }),
        /*C15*/ final(self).0.metrics_writer.id() == old(self).0.metrics_writer.id(),
        /*C15*/ final(self).0.config == old(self).0.config && final(self).0.metrics == old(self).0.metrics,
        final(self).0.pubsub == old(self).0.pubsub && final(self).0.sessions == old(self).0.sessions,
--- entry
    proof { req.lemma_facts(); if req.args_v().len() > 1 { assert(req.args_v().skip(1)[0] == req.args_v()[1]); } }
