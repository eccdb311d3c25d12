=== sp
impl VxInto<Option<KeyType>> for KeyType {
    open spec fn rel(self, t: Option<KeyType>) -> bool { t == Some(self) }
    fn vx_into(self) -> (r: Option<KeyType>) { Some(self) }
}
/// No more room for n arguments.
pub open spec fn overfull(cmd: CommandId, args: Seq<Seq<u8>>, n: int) -> bool {
    if simple(cmd) { n > 0 } else { args.len() + n > 255 }
}
pub open spec fn no_empty(s: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0 }
pub open spec fn flat(o: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<Seq<u8>>
    decreases o.len()
{
    if o.len() == 0 { seq![] } else { flat(o.drop_last()).push(o.last().0).push(o.last().1) }
}
pub open spec fn flat_of(x: Map<Seq<u8>, Seq<u8>>, args: Seq<Seq<u8>>) -> bool { exists|o: Seq<(Seq<u8>, Seq<u8>)>| is_order(o, x) && args == #[trigger] flat(o) }
/// The arguments that encode a value (maps and sets in any order).
pub open spec fn value_args(v: ValueV, args: Seq<Seq<u8>>) -> bool {
    match v {
        ValueV::Boolean(x) => args == seq![seq![x.code()]],
        ValueV::Bytes(x) => args == seq![x],
        ValueV::Float(x) => args == seq![be_f64(x)],
        ValueV::Integer(x) => args == seq![be_i64(x)],
        ValueV::List(x) => args == x,
        ValueV::Map(x) => flat_of(x, args),
        ValueV::Set(x) => is_set_order(args, x),
        ValueV::Str(x) => args == seq![utf8(x)],
    }
}
/// How many arguments the value is encoded by.
pub open spec fn value_count(v: ValueV) -> int {
    match v {
        ValueV::List(x) => x.len() as int,
        ValueV::Map(x) => 2 * x.dom().len() as int,
        ValueV::Set(x) => x.len() as int,
        _ => 1,
    }
}
pub open spec fn value_empty(v: ValueV) -> bool {
    match v {
        ValueV::Boolean(x) => false,
        ValueV::Bytes(x) => x.len() == 0,
        ValueV::Float(x) => false,
        ValueV::Integer(x) => false,
        ValueV::List(x) => x.len() == 0 || !no_empty(x),
        ValueV::Map(x) => x.dom().len() == 0 || exists|k: Seq<u8>| #[trigger] x.contains_key(k) && (k.len() == 0 || x[k].len() == 0),
        ValueV::Set(x) => x.len() == 0 || x.contains(seq![]),
        ValueV::Str(x) => x.len() == 0,
    }
}
pub open spec fn all_fit(x: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < x.len() ==> arg_fits(#[trigger] x[i]) }
/// Every part of the value can be written as an argument.
pub open spec fn value_fits(v: ValueV) -> bool {
    match v {
        ValueV::Bytes(x) => arg_fits(x),
        ValueV::List(x) => all_fit(x),
        ValueV::Map(x) => forall|k: Seq<u8>| #[trigger] x.contains_key(k) ==> arg_fits(k) && arg_fits(x[k]),
        ValueV::Set(x) => forall|k: Seq<u8>| #[trigger] x.contains(k) ==> arg_fits(k),
        ValueV::Str(x) => arg_fits(utf8(x)),
        _ => true,
    }
}
/// What adding n arguments `new` may do to a builder.
pub open spec fn adds(old_b: RequestBuilder, new_b: RequestBuilder, new: Seq<Seq<u8>>) -> bool {
    new_b.wf() && new_b.cmd() == old_b.cmd() && new_b.kt() == old_b.kt() && new_b.args_v() == old_b.args_v() + new
}
pub open spec fn adds_value(old_b: RequestBuilder, new_b: RequestBuilder, v: ValueV) -> bool {
    exists|new: Seq<Seq<u8>>| value_args(v, new) && #[trigger] adds(old_b, new_b, new)
}
=== impl command::request::builder::RequestBuilder
    pub closed spec fn buf_v(&self) -> Seq<u8> { self.buf@ }
    pub closed spec fn pos(&self) -> Seq<usize> { self.positions@ }
    pub closed spec fn cmd(&self) -> CommandId { self.command_id }
    pub closed spec fn kt(&self) -> Option<KeyType> { self.key_type }
    pub closed spec fn count(&self) -> int { self.argument_count as int }
    #[verifier::opaque]
    pub closed spec fn wf(&self) -> bool {
        wf(self.cmd(), self.kt(), self.buf_v(), self.pos()) && self.count() == self.pos().len()
    }
    #[verifier::opaque]
    pub closed spec fn args_v(&self) -> Seq<Seq<u8>> { args_at(self.buf_v(), base_of(self.kt()), self.pos()) }
    pub proof fn lemma_facts(&self)
        requires self.wf(),
        ensures
            self.buf_v() == req_bytes(self.cmd(), self.kt(), self.args_v()),
            args_ok(self.cmd(), self.args_v()),
            self.args_v().len() <= 255,
            self.count() == self.args_v().len(),
    { reveal(RequestBuilder::wf); reveal(RequestBuilder::args_v); }
=== fn command::request::builder::RequestBuilder::new
    ensures ret.wf(), ret.cmd() == command_id, ret.kt() == None::<KeyType>, ret.args_v() == Seq::<Seq<u8>>::empty(),
--- before Self {
    proof {
        reveal(RequestBuilder::wf); reveal(RequestBuilder::args_v);
        assert(args_at(buf@, 0, seq![]) =~= seq![]);
        assert(buf@ =~= req_bytes(command_id, None, seq![]));
    }
=== fn command::request::builder::RequestBuilder::new_with_key_type
    ensures
        ret.wf(), ret.cmd() == command_id, key_type.rel(ret.kt()), ret.args_v() == Seq::<Seq<u8>>::empty(),
--- before buf.push(byte)
    proof { let c = command_id.code(); lemma_cmd_codes(command_id, command_id); assert(c < 128 ==> c | 0b1000_0000u8 == c + 128) by (bit_vector); }
--- before Self {
    proof {
        reveal(RequestBuilder::wf); reveal(RequestBuilder::args_v);
        assert(args_at(buf@, base_of(key_type), seq![]) =~= seq![]);
        assert(buf@ =~= req_bytes(command_id, key_type, seq![]));
    }
=== fn command::request::builder::RequestBuilder::into_request
    ensures
        self.wf() ==> ret.wf() && ret.cmd() == self.cmd() && ret.kt() == self.kt() && ret.args_v() == self.args_v(),
--- entry
    proof { reveal(RequestBuilder::wf); reveal(RequestBuilder::args_v); }
=== fn command::request::builder::RequestBuilder::command_id_ref
    ensures *ret == self.cmd(),
=== fn command::request::builder::RequestBuilder::key_type_ref
    ensures ret is Some <==> self.kt() is Some, ret matches Some(k) ==> *k == self.kt().unwrap(),
=== fn command::request::builder::RequestBuilder::arguments_would_overfill
    requires self.wf(),
    ensures ret == overfull(self.cmd(), self.args_v(), amount as int),
--- entry
    proof { self.lemma_facts(); }
=== fn command::request::builder::RequestBuilder::update_count
    requires old(self).buf_v().len() > 1 + base_of(old(self).kt()),
    ensures
        final(self).buf_v() == old(self).buf_v().update(1 + base_of(old(self).kt()), old(self).count() as u8),
        final(self).pos() == old(self).pos(), final(self).cmd() == old(self).cmd(), final(self).kt() == old(self).kt(), final(self).count() == old(self).count(),
=== fn command::request::builder::RequestBuilder::push_argument
    requires
        old(self).wf(),
        forall|t: Cow<'a, [u8]>| #[trigger] argument.rel(t) ==> arg_fits(cow_bytes(t)),
    ensures
        ret is Ok <==> !overfull(old(self).cmd(), old(self).args_v(), 1),
        ret is Ok ==> exists|t: Cow<'a, [u8]>| #[trigger] argument.rel(t) && adds(*old(self), *final(self), seq![cow_bytes(t)]),
        ret matches Err(e) ==> e == RequestBuilderError::TooManyArguments && *final(self) == *old(self),
--- entry
    broadcast use group_cow, group_be;
    let ghost (gb, gp, gc, gk) = (self.buf_v(), self.pos(), self.cmd(), self.kt());
    proof {
        self.lemma_facts();
        reveal(RequestBuilder::wf); reveal(RequestBuilder::args_v);
        lemma_end(gc, gk, gb, gp);
        axiom_vec_len(&self.buf);
    }
--- after let argument = argument.into();
    let ghost a = cow_bytes(argument);
--- before self.positions.push(position)
    proof {
        let b2 = self.buf_v();
        assert(b2 =~= (gb + be32(a.len()) + a).update(1 + base_of(gk), (gp.len() + 1) as u8));
        let p2 = gp.push(position);
        assert(p2.drop_last() =~= gp);
        lemma_push(gc, gk, gb, gp, a, b2, p2);
        assert(args_at(gb, base_of(gk), gp).push(a) =~= args_at(gb, base_of(gk), gp) + seq![a]);
    }
=== fn command::request::builder::RequestBuilder::_bytes
    requires
        old(self).wf(), arg_fits(bytes@),
    ensures
        ret is Ok <==> bytes@.len() > 0 && !overfull(old(self).cmd(), old(self).args_v(), 1),
        ret matches Ok(r) ==> adds(*old(self), *r, seq![bytes@]) && *final(self) == *final(r),
        ret matches Err(e) ==> *final(self) == *old(self) && e == (if bytes@.len() == 0 { RequestBuilderError::ArgumentEmpty } else { RequestBuilderError::TooManyArguments }),
=== fn command::request::builder::RequestBuilder::bytes
    requires
        old(self).wf(), forall|t: Vec<u8>| #[trigger] bytes.rel(t) ==> arg_fits(t@),
    ensures
        exists|t: Vec<u8>| #[trigger] bytes.rel(t) && {
            &&& ret is Ok <==> t@.len() > 0 && !overfull(old(self).cmd(), old(self).args_v(), 1)
            &&& ret matches Ok(r) ==> adds(*old(self), *r, seq![t@]) && *final(self) == *final(r)
            &&& ret matches Err(e) ==> *final(self) == *old(self) && e == (if t@.len() == 0 { RequestBuilderError::ArgumentEmpty } else { RequestBuilderError::TooManyArguments })
        },
=== sp
/// `rest` is what is left of `all`, of which the first `done(all, rest)` items were yielded.
pub open spec fn at<T>(all: Seq<T>, rest: Seq<T>) -> bool { rest.len() <= all.len() && rest == all.skip(all.len() - rest.len()) }
pub open spec fn done<T>(all: Seq<T>, rest: Seq<T>) -> int { all.len() - rest.len() }
pub proof fn lemma_at<T>(all: Seq<T>, rest: Seq<T>)
    requires at(all, rest),
    ensures
        rest.len() > 0 ==> at(all, rest.drop_first()) && rest[0] == all[done(all, rest)] && done(all, rest.drop_first()) == done(all, rest) + 1,
        rest.len() == 0 ==> done(all, rest) == all.len(),
{
    if rest.len() > 0 { assert(rest.drop_first() =~= all.skip(all.len() - (rest.len() - 1))); }
}
pub proof fn lemma_at_start<T>(all: Seq<T>)
    ensures at(all, all), done(all, all) == 0,
{ assert(all.skip(0) =~= all); }
pub proof fn lemma_take_push<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1) == s.take(n).push(s[n]), s.take(n + 1).drop_last() == s.take(n), s.take(n + 1).last() == s[n],
{ assert(s.take(n + 1) =~= s.take(n).push(s[n])); assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lemma_adds_one(a: RequestBuilder, b: RequestBuilder, c: RequestBuilder, all: Seq<Seq<u8>>, n: int)
    requires 0 <= n < all.len(), adds(a, b, all.take(n)), adds(b, c, seq![all[n]]),
    ensures adds(a, c, all.take(n + 1)),
{
    lemma_take_push(all, n);
    assert(a.args_v() + all.take(n) + seq![all[n]] =~= a.args_v() + all.take(n + 1));
}
pub proof fn lemma_flat_len(o: Seq<(Seq<u8>, Seq<u8>)>)
    ensures flat(o).len() == 2 * o.len(),
    decreases o.len()
{ if o.len() > 0 { lemma_flat_len(o.drop_last()); } }
pub proof fn lemma_adds_pair(a: RequestBuilder, b: RequestBuilder, c: RequestBuilder, d: RequestBuilder, o: Seq<(Seq<u8>, Seq<u8>)>, n: int)
    requires 0 <= n < o.len(), adds(a, b, flat(o.take(n))), adds(b, c, seq![o[n].0]), adds(c, d, seq![o[n].1]),
    ensures adds(a, d, flat(o.take(n + 1))),
{
    lemma_take_push(o, n);
    assert(flat(o.take(n + 1)) == flat(o.take(n)).push(o[n].0).push(o[n].1));
    assert(a.args_v() + flat(o.take(n)) + seq![o[n].0] + seq![o[n].1] =~= a.args_v() + flat(o.take(n + 1)));
}
pub proof fn lemma_adds_none(a: RequestBuilder)
    requires a.wf(),
    ensures adds(a, a, Seq::<Seq<u8>>::empty()),
{ assert(a.args_v() + Seq::<Seq<u8>>::empty() =~= a.args_v()); }
=== fn command::request::builder::RequestBuilder::value
    requires
        old(self).wf(), forall|t: Value| #[trigger] value.rel(t) ==> value_fits(t@),
    ensures
        exists|t: Value| #[trigger] value.rel(t) && {
            &&& ret is Ok <==> !value_empty(t@) && !overfull(old(self).cmd(), old(self).args_v(), value_count(t@))
            &&& ret matches Ok(r) ==> *final(self) == *final(r) && adds_value(*old(self), *r, t@)
            &&& ret matches Err(e) ==> *final(self) == *old(self) && (e == RequestBuilderError::ValueEmpty && value_empty(t@)
                || e == RequestBuilderError::TooManyArguments && overfull(old(self).cmd(), old(self).args_v(), value_count(t@)))
        },
=== fn command::request::builder::RequestBuilder::_value
    requires
        old(self).wf(), value_fits(value@),
    ensures
        ret is Ok <==> !value_empty(value@) && !overfull(old(self).cmd(), old(self).args_v(), value_count(value@)),
        ret matches Ok(r) ==> *final(self) == *final(r) && adds_value(*old(self), *r, value@),
        ret matches Err(e) ==> *final(self) == *old(self) && (e == RequestBuilderError::ValueEmpty && value_empty(value@)
            || e == RequestBuilderError::TooManyArguments && overfull(old(self).cmd(), old(self).args_v(), value_count(value@))),
--- entry
    broadcast use group_cow, group_be, axiom_be_i64, axiom_be_f64, axiom_utf8, axiom_order, axiom_set_order, axiom_into_order, axiom_set_into_order;
    let ghost g0 = *self; let ghost vv = value@;
    proof { lemma_adds_none(g0); assert(value_fits(vv)); }
--- shape any for any for any for
--- before Ok(self)
    proof {
        match vv {
            ValueV::Boolean(x) => { assert(exists|a: Seq<u8>| a == seq![x.code()] && #[trigger] adds(g0, *self, seq![a])); }
            ValueV::Bytes(x) => { assert(adds(g0, *self, seq![x])); }
            ValueV::Float(x) => { assert(adds(g0, *self, seq![be_f64(x)])); }
            ValueV::Integer(x) => { assert(adds(g0, *self, seq![be_i64(x)])); }
            ValueV::Str(x) => { assert(adds(g0, *self, seq![utf8(x)])); }
            ValueV::List(x) => { assert(adds(g0, *self, x)); }
            ValueV::Map(x) => { assert(exists|new: Seq<Seq<u8>>| value_args(vv, new) && #[trigger] adds(g0, *self, new)); }
            ValueV::Set(x) => { assert(exists|new: Seq<Seq<u8>>| value_args(vv, new) && #[trigger] adds(g0, *self, new)); }
        }
        assert(adds_value(g0, *self, vv));
    }
--- loop-before 0
    proof { lemma_at_start(vx_it0.rest()); }
    let ghost l0 = vx_it0.rest();
--- loop 0
    invariant_except_break
        !vx_res0,
    invariant
        at(l0, vx_it0.rest()),
        l0 == refs(list@),
        !vx_res0 ==> forall|i: int| 0 <= i < done(l0, vx_it0.rest()) ==> (#[trigger] list@[i])@.len() > 0,
        vx_res0 ==> exists|i: int| 0 <= i < list@.len() && (#[trigger] list@[i])@.len() == 0,
    ensures
        vx_res0 ==> exists|i: int| 0 <= i < list@.len() && (#[trigger] list@[i])@.len() == 0,
        !vx_res0 ==> no_empty(deep(list@)),
    decreases vx_it0.rest().len(),
--- loop-entry 0
    proof { lemma_at(l0, vx_it0.rest()); }
--- loop-exit 0
    proof { assert(forall|i: int| 0 <= i < list@.len() ==> deep(list@)[i] == (#[trigger] list@[i])@); }
--- loop-before 1
    proof { lemma_at_start(vx_it1.rest()); assert(deep(vx_it1.rest()).take(0) =~= seq![]); }
    let ghost l1 = vx_it1.rest();
    proof { assert(vv == ValueV::List(deep(l1))); assert(deep(l1).len() == l1.len()); 
        let x = deep(l1);
        assert(all_fit(x));
        assert forall|i: int| 0 <= i < l1.len() implies arg_fits((#[trigger] l1[i])@) by { assert(x[i] == l1[i]@); }
    }
--- loop 1
    invariant
        at(l1, vx_it1.rest()),
        vv == ValueV::List(deep(l1)), forall|i: int| 0 <= i < l1.len() ==> arg_fits((#[trigger] l1[i])@),
        !overfull(g0.cmd(), g0.args_v(), l1.len() as int),
        adds(g0, *self, deep(l1).take(done(l1, vx_it1.rest()))),
    ensures
        vx_it1.rest().len() == 0,
    decreases vx_it1.rest().len(),
--- loop-entry 1
    let ghost b1 = *self; let ghost n1 = done(l1, vx_it1.rest());
    proof { lemma_at(l1, vx_it1.rest()); if n1 < l1.len() { assert(deep(l1)[n1] == l1[n1]@); assert(arg_fits(deep(l1)[n1])); } }
--- loop-end 1
    proof { lemma_adds_one(g0, b1, *self, deep(l1), n1); }
--- loop-exit 1
    proof { assert(deep(l1).take(l1.len() as int) =~= deep(l1)); }
--- loop-before 2
    proof { lemma_at_start(vx_it2.rest()); }
    let ghost l2 = vx_it2.rest();
--- loop 2
    invariant_except_break
        !vx_res2,
        at(l2, vx_it2.rest()),
        forall|i: int| 0 <= i < done(l2, vx_it2.rest()) ==> (#[trigger] l2[i]).k@.len() > 0 && l2[i].v@.len() > 0,
    invariant
        vx_it2.rest().len() <= l2.len(),
        ref_pairs(l2) == order(&map),
    ensures
        vx_res2 ==> exists|i: int| 0 <= i < l2.len() && ((#[trigger] l2[i]).k@.len() == 0 || l2[i].v@.len() == 0),
        !vx_res2 ==> forall|i: int| 0 <= i < l2.len() ==> (#[trigger] l2[i]).k@.len() > 0 && l2[i].v@.len() > 0,
    decreases vx_it2.rest().len(),
--- loop-entry 2
    proof { lemma_at(l2, vx_it2.rest()); }
--- loop-exit 2
    proof { lemma_map_empty(map@, order(&map)); assert(forall|i: int| 0 <= i < l2.len() ==> order(&map)[i] == ((#[trigger] l2[i]).k@, l2[i].v@)); }
--- loop-before 3
    proof { lemma_at_start(vx_it3.rest()); assert(own_pairs(vx_it3.rest()).take(0) =~= seq![]); }
    let ghost l3 = vx_it3.rest();
--- loop 3
    invariant
        at(l3, vx_it3.rest()),
        value@ matches ValueV::Map(vm) && is_order(own_pairs(l3), vm),
        value_fits(value@),
        !overfull(g0.cmd(), g0.args_v(), 2 * l3.len() as int),
        adds(g0, *self, flat(own_pairs(l3).take(done(l3, vx_it3.rest())))),
    ensures
        vx_it3.rest().len() == 0,
    decreases vx_it3.rest().len(),
--- loop-entry 3
    let ghost b3 = *self; let ghost n3 = done(l3, vx_it3.rest());
    proof {
        lemma_at(l3, vx_it3.rest());
        lemma_flat_len(own_pairs(l3).take(n3));
        if n3 < l3.len() { assert(own_pairs(l3)[n3] == (l3[n3].0@, l3[n3].1@)); assert(arg_fits(own_pairs(l3)[n3].0) && arg_fits(own_pairs(l3)[n3].1)); }
    }
--- after self.push_argument(k)?;
    let ghost c3 = *self;
--- after self.push_argument(v)?;
    proof { lemma_adds_pair(g0, b3, c3, *self, own_pairs(l3), n3); }
--- loop-exit 3
    proof { assert(own_pairs(l3).take(l3.len() as int) =~= own_pairs(l3)); lemma_flat_len(own_pairs(l3)); assert(value_args(value@, flat(own_pairs(l3)))); }
--- loop-before 4
    proof { lemma_at_start(vx_it4.rest()); }
    let ghost l4 = vx_it4.rest();
--- loop 4
    invariant_except_break
        !vx_res4,
        at(l4, vx_it4.rest()),
        forall|i: int| 0 <= i < done(l4, vx_it4.rest()) ==> (#[trigger] l4[i])@.len() > 0,
    invariant
        vx_it4.rest().len() <= l4.len(),
        set_items(l4) == set_order(&set),
    ensures
        vx_res4 ==> exists|i: int| 0 <= i < l4.len() && (#[trigger] l4[i])@.len() == 0,
        !vx_res4 ==> forall|i: int| 0 <= i < l4.len() ==> (#[trigger] l4[i])@.len() > 0,
    decreases vx_it4.rest().len(),
--- loop-entry 4
    proof { lemma_at(l4, vx_it4.rest()); }
--- loop-exit 4
    proof { lemma_set_empty(set@, set_order(&set)); assert(forall|i: int| 0 <= i < l4.len() ==> set_order(&set)[i] == (#[trigger] l4[i])@); }
--- loop-before 5
    proof { lemma_at_start(vx_it5.rest()); assert(own_items(vx_it5.rest()).take(0) =~= seq![]); }
    let ghost l5 = vx_it5.rest();
--- loop 5
    invariant
        at(l5, vx_it5.rest()),
        value@ matches ValueV::Set(vs) && is_set_order(own_items(l5), vs),
        value_fits(value@),
        !overfull(g0.cmd(), g0.args_v(), l5.len() as int),
        adds(g0, *self, own_items(l5).take(done(l5, vx_it5.rest()))),
    ensures
        vx_it5.rest().len() == 0,
    decreases vx_it5.rest().len(),
--- loop-entry 5
    let ghost b5 = *self; let ghost n5 = done(l5, vx_it5.rest());
    proof { lemma_at(l5, vx_it5.rest()); if n5 < l5.len() { assert(own_items(l5)[n5] == l5[n5]@); assert(own_items(l5).to_set().contains(own_items(l5)[n5])); } }
--- loop-end 5
    proof { lemma_adds_one(g0, b5, *self, own_items(l5), n5); }
--- loop-exit 5
    proof { assert(own_items(l5).take(l5.len() as int) =~= own_items(l5)); }
=== sp
pub proof fn lemma_map_empty(m: Map<Seq<u8>, Seq<u8>>, o: Seq<(Seq<u8>, Seq<u8>)>)
    requires is_order(o, m),
    ensures
        (exists|i: int| 0 <= i < o.len() && ((#[trigger] o[i]).0.len() == 0 || o[i].1.len() == 0)) ==> value_empty(ValueV::Map(m)),
        (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0.len() > 0 && o[i].1.len() > 0) && o.len() > 0 ==> !value_empty(ValueV::Map(m)),
{ }
pub proof fn lemma_set_empty(m: Set<Seq<u8>>, o: Seq<Seq<u8>>)
    requires is_set_order(o, m),
    ensures
        (exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).len() == 0) ==> value_empty(ValueV::Set(m)),
        (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).len() > 0) && o.len() > 0 ==> !value_empty(ValueV::Set(m)),
{
    if exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).len() == 0 {
        let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).len() == 0;
        assert(o[i] =~= seq![]);
        assert(o.to_set().contains(o[i]));
    }
    if m.contains(seq![]) { assert(o.to_set().contains(seq![])); }
}

=== fn command::request::builder::RequestBuilder::From<Request>::from
    ensures
        request.wf() ==> ret.wf() && ret.cmd() == request.cmd() && ret.kt() == request.kt() && ret.args_v() == request.args_v(),
--- entry
    proof { reveal(RequestBuilder::wf); reveal(RequestBuilder::args_v); }

