=== sp
/// Command byte and optional key type byte.
pub open spec fn head(cmd: CommandId, kt: Option<KeyType>) -> Seq<u8> {
    match kt {
        None => seq![cmd.code()],
        Some(k) => seq![(cmd.code() + 128) as u8, k.code()],
    }
}
pub open spec fn enc_args(args: Seq<Seq<u8>>) -> Seq<u8>
    decreases args.len()
{
    if args.len() == 0 { seq![] } else { enc_args(args.drop_last()) + be32(args.last().len()) + args.last() }
}
/// The wire form of a request.
pub open spec fn req_bytes(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>) -> Seq<u8> {
    if simple(cmd) { head(cmd, kt) } else { head(cmd, kt) + seq![args.len() as u8] + enc_args(args) }
}
pub open spec fn arg_fits(a: Seq<u8>) -> bool { a.len() < 0x1_0000_0000 }
pub open spec fn args_ok(cmd: CommandId, args: Seq<Seq<u8>>) -> bool {
    &&& args.len() <= 255
    &&& simple(cmd) ==> args.len() == 0
    &&& forall|i: int| 0 <= i < args.len() ==> arg_fits(#[trigger] args[i])
}
pub open spec fn base_of(kt: Option<KeyType>) -> int { if kt is Some { 1 } else { 0 } }
/// Where argument i starts, given the inclusive ends of the arguments.
pub open spec fn arg_start(base: int, pos: Seq<usize>, i: int) -> int {
    if i == 0 { base + 6 } else { pos[i - 1] + 5 }
}
pub open spec fn arg_at(buf: Seq<u8>, base: int, pos: Seq<usize>, i: int) -> Seq<u8> {
    buf.subrange(arg_start(base, pos, i), pos[i] + 1)
}
pub open spec fn args_at(buf: Seq<u8>, base: int, pos: Seq<usize>) -> Seq<Seq<u8>> {
    Seq::new(pos.len(), |i: int| arg_at(buf, base, pos, i))
}
pub open spec fn pos_ok(buf: Seq<u8>, base: int, pos: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < pos.len() ==> base + 5 <= arg_start(base, pos, i) <= #[trigger] pos[i] + 1 <= buf.len()
}
/// A request in memory denotes the request (cmd, kt, args).
pub open spec fn wf(cmd: CommandId, kt: Option<KeyType>, buf: Seq<u8>, pos: Seq<usize>) -> bool {
    let args = args_at(buf, base_of(kt), pos);
    &&& pos_ok(buf, base_of(kt), pos)
    &&& args_ok(cmd, args)
    &&& buf == req_bytes(cmd, kt, args)
}
/// Adding an encoded argument to a well-formed buffer.
pub proof fn lemma_push(cmd: CommandId, kt: Option<KeyType>, buf: Seq<u8>, pos: Seq<usize>, a: Seq<u8>, buf2: Seq<u8>, pos2: Seq<usize>)
    requires
        wf(cmd, kt, buf, pos),
        !simple(cmd),
        pos.len() < 255,
        arg_fits(a),
        buf2 == (buf + be32(a.len()) + a).update(1 + base_of(kt), (pos.len() + 1) as u8),
        pos2.len() == pos.len() + 1,
        pos2.drop_last() == pos,
        pos2.last() == buf2.len() - 1,
    ensures
        wf(cmd, kt, buf2, pos2),
        args_at(buf2, base_of(kt), pos2) == args_at(buf, base_of(kt), pos).push(a),
{
    broadcast use group_be;
    let base = base_of(kt);
    let args = args_at(buf, base, pos);
    lemma_end(cmd, kt, buf, pos);
    lemma_push_bytes(cmd, kt, args, a);
    lemma_push_args(base, buf, pos, a, buf2, pos2);
}
pub proof fn lemma_push_bytes(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, a: Seq<u8>)
    requires !simple(cmd),
    ensures req_bytes(cmd, kt, args.push(a)) == (req_bytes(cmd, kt, args) + be32(a.len()) + a).update(1 + base_of(kt), (args.len() + 1) as u8),
{
    broadcast use group_be;
    let args2 = args.push(a);
    assert(args2.drop_last() =~= args);
    assert(enc_args(args2) == enc_args(args) + be32(a.len()) + a);
    assert(head(cmd, kt).len() == 1 + base_of(kt));
    assert(req_bytes(cmd, kt, args2) =~= (req_bytes(cmd, kt, args) + be32(a.len()) + a).update(1 + base_of(kt), (args.len() + 1) as u8));
}
pub proof fn lemma_push_args(base: int, buf: Seq<u8>, pos: Seq<usize>, a: Seq<u8>, buf2: Seq<u8>, pos2: Seq<usize>)
    requires
        base >= 0,
        pos_ok(buf, base, pos),
        pos.len() > 0 ==> pos.last() == buf.len() - 1,
        pos.len() == 0 ==> buf.len() == base + 2,
        pos.len() + 1 < 256,
        buf2 == (buf + be32(a.len()) + a).update(1 + base, (pos.len() + 1) as u8),
        pos2.len() == pos.len() + 1,
        pos2.drop_last() == pos,
        pos2.last() == buf2.len() - 1,
    ensures
        pos_ok(buf2, base, pos2),
        args_at(buf2, base, pos2) == args_at(buf, base, pos).push(a),
{
    broadcast use group_be;
    let args = args_at(buf, base, pos);
    let args2 = args_at(buf2, base, pos2);
    assert(pos2 =~= pos.push(pos2.last()));
    let n = pos.len() as int;
    if n > 0 { assert(base + 5 <= arg_start(base, pos, n - 1) <= pos[n - 1] + 1 <= buf.len()); }
    assert(arg_start(base, pos2, n) == buf.len() + 4);
    assert forall|i: int| 0 <= i < pos.len() implies #[trigger] args2[i] == args[i] by {
        assert(base + 5 <= arg_start(base, pos, i) <= pos[i] + 1 <= buf.len());
        assert(arg_start(base, pos2, i) == arg_start(base, pos, i));
        assert(arg_at(buf2, base, pos2, i) =~= arg_at(buf, base, pos, i));
    }
    assert(arg_at(buf2, base, pos2, n) =~= a);
    assert(args2 =~= args.push(a));
    assert forall|i: int| 0 <= i < pos2.len() implies base + 5 <= arg_start(base, pos2, i) <= #[trigger] pos2[i] + 1 <= buf2.len() by {
        if i < pos.len() { assert(base + 5 <= arg_start(base, pos, i) <= pos[i] + 1 <= buf.len()); assert(arg_start(base, pos2, i) == arg_start(base, pos, i)); }
    }
}
/// The last argument ends at the end of the buffer.
pub proof fn lemma_end(cmd: CommandId, kt: Option<KeyType>, buf: Seq<u8>, pos: Seq<usize>)
    requires wf(cmd, kt, buf, pos),
    ensures
        pos.len() > 0 ==> pos.last() == buf.len() - 1,
        pos.len() == 0 ==> buf.len() == base_of(kt) + (if simple(cmd) { 1int } else { 2 }),
        !simple(cmd) ==> buf[1 + base_of(kt)] == pos.len(),
{
    broadcast use group_be;
    let args = args_at(buf, base_of(kt), pos);
    lemma_len(buf, base_of(kt), pos);
    assert(head(cmd, kt).len() == 1 + base_of(kt));
    if !simple(cmd) {
        let h = head(cmd, kt) + seq![args.len() as u8];
        assert(buf[1 + base_of(kt)] == h[1 + base_of(kt)]);
    }
}
pub proof fn lemma_len(buf: Seq<u8>, base: int, pos: Seq<usize>)
    requires pos_ok(buf, base, pos), base >= 0,
    ensures
        enc_args(args_at(buf, base, pos)).len() == if pos.len() == 0 { 0 } else { pos.last() - base - 1 },
    decreases pos.len()
{
    broadcast use group_be;
    if pos.len() > 0 {
        let p = pos.drop_last();
        assert(pos_ok(buf, base, p)) by {
            assert forall|i: int| 0 <= i < p.len() implies base + 5 <= arg_start(base, p, i) <= #[trigger] p[i] + 1 <= buf.len() by {
                assert(base + 5 <= arg_start(base, pos, i) <= pos[i] + 1 <= buf.len());
            }
        }
        lemma_len(buf, base, p);
        let args = args_at(buf, base, pos);
        assert forall|i: int| 0 <= i < p.len() implies args[i] == #[trigger] args_at(buf, base, p)[i] by {
            assert(p[i] == pos[i]);
            assert(arg_start(base, p, i) == arg_start(base, pos, i));
        }
        assert(args.drop_last() =~= args_at(buf, base, p));
        assert(base + 5 <= arg_start(base, pos, pos.len() - 1) <= pos[pos.len() - 1] + 1 <= buf.len());
        let l = pos.len() - 1;
        assert(args.last() == arg_at(buf, base, pos, l));
        assert(args.last().len() == (pos[l] + 1) - arg_start(base, pos, l));
        assert(args.last().len() == pos.last() + 1 - arg_start(base, pos, pos.len() - 1));
        assert(enc_args(args).len() == enc_args(args_at(buf, base, p)).len() + 4 + args.last().len());
        assert(base + 5 <= arg_start(base, pos, pos.len() - 1) <= pos[pos.len() - 1] + 1);
    }
}
/// The argument a call to `args` runs over.
pub open spec fn range_lo(b: Bound<usize>) -> int {
    match b { Bound::Excluded(x) => x + 1, Bound::Included(x) => x as int, Bound::Unbounded => 0 }
}
pub open spec fn range_hi(b: Bound<usize>, n: int) -> int {
    match b { Bound::Excluded(x) => x as int, Bound::Included(x) => x + 1, Bound::Unbounded => n }
}
/// The items of s with an index from lo up to but excluding hi.
pub open spec fn in_range(s: Seq<Seq<u8>>, lo: int, hi: int) -> Seq<Seq<u8>> {
    let hi = min(hi, s.len() as int);
    if lo <= hi { s.subrange(lo, hi) } else { seq![] }
}
pub open spec fn views(s: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }

=== impl command::request::Request
    pub closed spec fn bytes(&self) -> Seq<u8> { cow_bytes(self.buf) }
    pub closed spec fn pos(&self) -> Seq<usize> { cow_pos(self.positions) }
    pub closed spec fn cmd(&self) -> CommandId { self.command_id }
    pub closed spec fn kt(&self) -> Option<KeyType> { self.key_type }
    pub closed spec fn wf(&self) -> bool { wf(self.cmd(), self.kt(), self.bytes(), self.pos()) }
    pub closed spec fn args_v(&self) -> Seq<Seq<u8>> { args_at(self.bytes(), base_of(self.kt()), self.pos()) }
    pub open spec fn key_v(&self) -> Option<Seq<u8>> {
        if keyed(self.cmd()) && self.args_v().len() > 0 { Some(self.args_v()[0]) } else { None }
    }
    pub proof fn lemma_facts(&self)
        requires self.wf(),
        ensures
            self.bytes() == req_bytes(self.cmd(), self.kt(), self.args_v()),
            args_ok(self.cmd(), self.args_v()),
            self.args_v().len() <= 255,
    { }
=== mod command::request
impl<'a> VxIter for Arguments<'a> {
    type Item = &'a [u8];
    open spec fn rest(&self) -> Seq<&'a [u8]> { slices_of(self.left()) }
    open spec fn iter_ok(&self) -> bool { self.ok() }
    fn vx_next(&mut self) -> (r: Option<&'a [u8]>) {
        proof { lemma_slices_of(self.left()); }
        self.next()
    }
}
=== sp
pub open spec fn slices_of<'a>(s: Seq<Seq<u8>>) -> Seq<&'a [u8]> { Seq::new(s.len(), |i: int| slice_of(s[i])) }
pub broadcast proof fn lemma_slices_of<'a>(s: Seq<Seq<u8>>)
    ensures
        (#[trigger] slices_of::<'a>(s)).len() == s.len(),
        s.len() > 0 ==> slices_of::<'a>(s).drop_first() == slices_of::<'a>(s.drop_first()) && slices_of::<'a>(s)[0] == slice_of::<'a>(s[0]),
        forall|x: &'a [u8]| s.len() > 0 && #[trigger] x@ == s[0] ==> x == slices_of::<'a>(s)[0],
{
    if s.len() > 0 { assert(slices_of::<'a>(s).drop_first() =~= slices_of::<'a>(s.drop_first())); }
    assert forall|x: &'a [u8]| s.len() > 0 && #[trigger] x@ == s[0] implies x == slices_of::<'a>(s)[0] by { axiom_slice_of(x); }
}
=== fn command::request::Request::command_id
    ensures ret == self.cmd(),
=== fn command::request::Request::key_type
    ensures ret == self.kt(),
=== fn command::request::Request::arg_count
    requires self.wf(),
    ensures ret == self.args_v().len(), ret <= 255,
--- entry
    broadcast use group_cow;
=== fn command::request::Request::arg
    requires self.wf(),
    ensures
        ret is Some <==> idx < self.args_v().len(),
        ret matches Some(a) ==> a@ == self.args_v()[idx as int],
--- entry
    broadcast use group_cow;
    proof {
        let p = self.pos(); let b = base_of(self.kt());
        if idx < p.len() {
            assert(b + 5 <= arg_start(b, p, idx as int) <= p[idx as int] + 1 <= self.bytes().len());
            if idx > 0 { assert(b + 5 <= arg_start(b, p, idx - 1) <= p[idx - 1] + 1 <= self.bytes().len()); }
        }
    }
    match &self.buf { Cow::Borrowed(b) => { proof { axiom_slice_len(b); } } Cow::Owned(b) => { proof { axiom_vec_len(b); } } }
=== fn command::request::Request::key
    requires self.wf(),
    ensures
        ret is Some <==> self.key_v() is Some,
        ret matches Some(a) ==> a@ == self.key_v().unwrap(),
=== fn command::request::Request::args
    requires self.wf(),
    ensures
        ret is None <==> self.args_v().len() == 0,
        ret matches Some(a) ==> a.ok() && a.left() == in_range(self.args_v(), range_lo(range.lo()), range_hi(range.hi(), self.args_v().len() as int)),
--- entry
    proof { reveal(Arguments::left); }
=== fn command::request::Request::into_bytes
    requires self.wf(),
    ensures cow_bytes(ret) == req_bytes(self.cmd(), self.kt(), self.args_v()),
=== fn command::request::Request::as_bytes
    requires self.wf(),
    ensures ret@ == req_bytes(self.cmd(), self.kt(), self.args_v()),
=== impl command::request::Arguments::Iterator
    pub closed spec fn ok(&self) -> bool { self.request.wf() }
    /// What is left to yield.
    #[verifier::opaque]
    pub closed spec fn left(&self) -> Seq<Seq<u8>> {
        in_range(self.request.args_v(), self.idx as int, self.to as int)
    }
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    pub fn vx_next(&mut self) -> (ret: Option<&'a [u8]>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            ret matches Some(x) ==> old(self).left().len() > 0 && x@ == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
            ret is None ==> old(self).left().len() == 0 && final(self).left().len() == 0,
    { self.next() }
=== fn command::request::Arguments::ExactSizeIterator::len
    requires self.ok(),
    ensures ret == self.left().len(),
--- entry
    proof { reveal(Arguments::left); }
=== fn command::request::Arguments::Iterator::next
    requires old(self).ok(),
    ensures
        final(self).ok(),
        ret matches Some(x) ==> old(self).left().len() > 0 && x@ == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
        ret is None ==> old(self).left().len() == 0 && final(self).left().len() == 0,
--- entry
    proof { reveal(Arguments::left); }
    let ghost o = self.left();
    let ghost n = self.request.args_v();
    proof {
        if o.len() > 0 { assert(o.drop_first() =~= in_range(n, self.idx + 1, self.to as int)); }
    }
=== fn command::request::&[u8]::Argument::convert
    ensures ret matches Some(r) && r@ == bytes@,
=== fn command::request::bool::Argument::convert
    ensures ret == (if bytes@.len() > 0 { Some(bytes@[0] > 0) } else { None }),
=== fn command::request::f64::Argument::convert
    ensures ret == (if bytes@.len() >= 8 { Some(un_f64(bytes@.subrange(0, 8))) } else { None }),
=== fn command::request::i64::Argument::convert
    ensures ret == (if bytes@.len() >= 8 { Some(un_i64(bytes@.subrange(0, 8))) } else { None }),
=== fn command::request::&str::Argument::convert
    ensures
        ret is Some <==> is_utf8(bytes@),
        ret matches Some(s) ==> s@ == un_utf8(bytes@),
=== sp
#[verifier::opaque]
pub open spec fn map_args_ok(args: Seq<Seq<u8>>) -> bool {
    &&& args.len() % 2 == 0
    &&& forall|i: int| 0 <= i < args.len() && i % 2 == 0 ==> (#[trigger] args[i]).len() <= 255
}
/// The arguments paired up in order, later pairs winning.
#[verifier::opaque]
pub open spec fn map_of(args: Seq<Seq<u8>>) -> Map<Seq<u8>, Seq<u8>>
    decreases args.len()
{
    if args.len() < 2 { Map::empty() } else {
        map_of(args.take(args.len() - 2)).insert(args[args.len() - 2], args[args.len() - 1])
    }
}
#[verifier::opaque]
pub open spec fn set_args_ok(args: Seq<Seq<u8>>) -> bool {
    forall|i: int| 0 <= i < args.len() ==> (#[trigger] args[i]).len() <= 65535
}
=== impl command::request::Argument
    spec fn conv(bytes: Seq<u8>, r: Option<Self>) -> bool where Self: Sized;
=== fn command::request::Argument::convert
    ensures Self::conv(bytes@, ret),
=== impl command::request::MultiArgument
    spec fn conv(args: Seq<Seq<u8>>, r: Option<Self>) -> bool where Self: Sized;
=== fn command::request::MultiArgument::convert
    requires args.ok(),
    ensures Self::conv(args.left(), ret),
=== impl command::request::&[u8]::Argument
    open spec fn conv(bytes: Seq<u8>, r: Option<Self>) -> bool { r matches Some(x) && x@ == bytes }
=== impl command::request::bool::Argument
    open spec fn conv(bytes: Seq<u8>, r: Option<Self>) -> bool { r == (if bytes.len() > 0 { Some(bytes[0] > 0) } else { None }) }
=== impl command::request::f64::Argument
    open spec fn conv(bytes: Seq<u8>, r: Option<Self>) -> bool { r == (if bytes.len() >= 8 { Some(un_f64(bytes.subrange(0, 8))) } else { None }) }
=== impl command::request::i64::Argument
    open spec fn conv(bytes: Seq<u8>, r: Option<Self>) -> bool { r == (if bytes.len() >= 8 { Some(un_i64(bytes.subrange(0, 8))) } else { None }) }
=== impl command::request::&str::Argument
    open spec fn conv(bytes: Seq<u8>, r: Option<Self>) -> bool { (r is Some <==> is_utf8(bytes)) && (r matches Some(s) ==> s@ == un_utf8(bytes)) }
=== impl command::request::DashMap<Vec<u8>,Vec<u8>>::MultiArgument
    open spec fn conv(args: Seq<Seq<u8>>, r: Option<Self>) -> bool {
        (r is Some <==> map_args_ok(args)) && (r matches Some(m) ==> m@ == map_of(args))
    }
=== impl command::request::DashSet<Vec<u8>>::MultiArgument
    open spec fn conv(args: Seq<Seq<u8>>, r: Option<Self>) -> bool {
        (r is Some <==> set_args_ok(args)) && (r matches Some(m) ==> m@ == args.to_set())
    }
=== sp
/// How many items of `all` an iterator with `left` remaining has yielded.
pub open spec fn eaten(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>) -> int { all.len() - left.len() }
/// `left` is what an iterator over `all` still has to yield, and `m` what the loop has made of the rest.
#[verifier::opaque]
pub open spec fn map_inv(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>, m: Map<Seq<u8>, Seq<u8>>) -> bool {
    &&& left.len() <= all.len() && left =~= all.skip(all.len() - left.len())
    &&& eaten(all, left) % 2 == 0
    &&& map_args_ok(all.take(eaten(all, left)))
    &&& m == map_of(all.take(eaten(all, left)))
}
pub proof fn lemma_map_start(all: Seq<Seq<u8>>)
    ensures map_inv(all, all, Map::empty()),
{
    reveal(map_inv); reveal(map_args_ok); reveal(map_of);
    assert(all.take(0) =~= seq![]); assert(all.skip(0) =~= all);
}
pub proof fn lemma_map_step(all: Seq<Seq<u8>>, m: Map<Seq<u8>, Seq<u8>>)
    ensures
        forall|l: Seq<Seq<u8>>| #[trigger] map_inv(all, l, m) ==> {
            &&& l.len() == 0 ==> map_args_ok(all) && m == map_of(all)
            &&& l.len() == 1 ==> !map_args_ok(all)
            &&& l.len() > 0 && l[0].len() > 255 ==> !map_args_ok(all)
            &&& l.len() > 1 && l[0].len() <= 255 ==> map_inv(all, l.drop_first().drop_first(), m.insert(l[0], l[1]))
        },
{
    assert forall|l: Seq<Seq<u8>>| #[trigger] map_inv(all, l, m) implies {
            &&& l.len() == 0 ==> map_args_ok(all) && m == map_of(all)
            &&& l.len() == 1 ==> !map_args_ok(all)
            &&& l.len() > 0 && l[0].len() > 255 ==> !map_args_ok(all)
            &&& l.len() > 1 && l[0].len() <= 255 ==> map_inv(all, l.drop_first().drop_first(), m.insert(l[0], l[1]))
        } by {
        reveal(map_inv);
        let n = all.len() - l.len();
        lemma_map_args(all, n);
        if l.len() > 0 { assert(l[0] == all[n]); }
        if l.len() > 1 {
            let l2 = l.drop_first().drop_first();
            assert(l[1] == all[n + 1]);
            assert(l2 =~= all.skip(all.len() - l2.len()));
            assert(all.len() - l2.len() == n + 2);
        }
    }
}
#[verifier::opaque]
pub open spec fn set_inv(all: Seq<Seq<u8>>, left: Seq<Seq<u8>>, m: Set<Seq<u8>>) -> bool {
    &&& left.len() <= all.len() && left =~= all.skip(all.len() - left.len())
    &&& set_args_ok(all.take(eaten(all, left)))
    &&& m == all.take(eaten(all, left)).to_set()
}
pub proof fn lemma_set_start(all: Seq<Seq<u8>>)
    ensures set_inv(all, all, Set::empty()),
{
    reveal(set_inv); reveal(set_args_ok);
    assert(all.take(0).to_set() =~= Set::empty()); assert(all.skip(0) =~= all);
}
pub proof fn lemma_set_step(all: Seq<Seq<u8>>, m: Set<Seq<u8>>)
    ensures
        forall|l: Seq<Seq<u8>>| #[trigger] set_inv(all, l, m) ==> {
            &&& l.len() == 0 ==> set_args_ok(all) && m == all.to_set()
            &&& l.len() > 0 && l[0].len() > 65535 ==> !set_args_ok(all)
            &&& l.len() > 0 && l[0].len() <= 65535 ==> set_inv(all, l.drop_first(), m.insert(l[0]))
        },
{
    assert forall|l: Seq<Seq<u8>>| #[trigger] set_inv(all, l, m) implies {
            &&& l.len() == 0 ==> set_args_ok(all) && m == all.to_set()
            &&& l.len() > 0 && l[0].len() > 65535 ==> !set_args_ok(all)
            &&& l.len() > 0 && l[0].len() <= 65535 ==> set_inv(all, l.drop_first(), m.insert(l[0]))
        } by {
        reveal(set_inv);
        let n = all.len() - l.len();
        lemma_set_args(all, n);
        if l.len() > 0 {
            let l2 = l.drop_first();
            assert(l[0] == all[n]);
            assert(l2 =~= all.skip(all.len() - l2.len()));
            assert(all.len() - l2.len() == n + 1);
        }
    }
}
pub proof fn lemma_map_args(all: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= all.len(), n % 2 == 0, map_args_ok(all.take(n)),
    ensures
        n == all.len() ==> map_args_ok(all) && all.take(n) == all,
        n + 1 == all.len() ==> !map_args_ok(all),
        n < all.len() && all[n].len() > 255 ==> !map_args_ok(all),
        n + 1 < all.len() && all[n].len() <= 255 ==> map_args_ok(all.take(n + 2)) && map_of(all.take(n + 2)) == map_of(all.take(n)).insert(all[n], all[n + 1]),
{
    reveal(map_args_ok); reveal_with_fuel(map_of, 2);
    if n == all.len() { assert(all.take(n) =~= all); }
    if n + 1 < all.len() {
        let t = all.take(n + 2);
        assert(t.take(t.len() - 2) =~= all.take(n));
        if all[n].len() <= 255 {
            assert forall|i: int| 0 <= i < t.len() && i % 2 == 0 implies (#[trigger] t[i]).len() <= 255 by {
                if i < n { assert(all.take(n)[i] == t[i]); } else { assert(i == n); }
            }
        }
    }
}
pub proof fn lemma_set_args(all: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= all.len(), set_args_ok(all.take(n)),
    ensures
        n == all.len() ==> set_args_ok(all) && all.take(n) == all,
        n < all.len() && all[n].len() > 65535 ==> !set_args_ok(all),
        n < all.len() && all[n].len() <= 65535 ==> set_args_ok(all.take(n + 1)) && all.take(n + 1).to_set() == all.take(n).to_set().insert(all[n]),
{
    reveal(set_args_ok);
    if n == all.len() { assert(all.take(n) =~= all); }
    if n < all.len() {
        let t = all.take(n + 1);
        assert(t =~= all.take(n).push(all[n]));
        assert(t.to_set() =~= all.take(n).to_set().insert(all[n])) by {
            assert forall|x: Seq<u8>| t.to_set().contains(x) == all.take(n).to_set().insert(all[n]).contains(x) by {
                if t.contains(x) {
                    let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
                    if i < n { assert(all.take(n)[i] == x); }
                }
                if all.take(n).contains(x) {
                    let i = choose|i: int| 0 <= i < n && all.take(n)[i] == x;
                    assert(t[i] == x);
                }
                assert(t[n] == all[n]);
            }
        }
        if all[n].len() <= 65535 {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() <= 65535 by {
                if i < n { assert(all.take(n)[i] == t[i]); }
            }
        }
    }
}
=== fn command::request::DashMap<Vec<u8>,Vec<u8>>::MultiArgument::convert
--- entry
    let ghost all = args.left();
    proof { lemma_map_start(all); }
--- shape whilelet
--- loop 0
    invariant
        args.ok(),
        map_inv(all, args.left(), map@),
    ensures
        map_inv(all, args.left(), map@) && args.left().len() == 0,
    decreases args.left().len(),
--- loop-entry 0
    proof { lemma_map_step(all, map@); }
--- loop-exit 0
    proof { lemma_map_step(all, map@); }
=== fn command::request::DashSet<Vec<u8>>::MultiArgument::convert
--- entry
    let ghost all = args.left();
    proof { lemma_set_start(all); }
--- shape for
--- loop 0
    invariant
        vx_it0.ok(),
        set_inv(all, vx_it0.left(), set@),
    ensures
        set_inv(all, vx_it0.left(), set@) && vx_it0.left().len() == 0,
    decreases vx_it0.left().len(),
--- loop-entry 0
    proof { lemma_set_step(all, set@); }
--- loop-exit 0
    proof { lemma_set_step(all, set@); }
=== fn command::request::Request::typed_args
    requires self.wf(),
    ensures
        self.args_v().len() == 0 ==> ret is None,
        self.args_v().len() > 0 ==> T::conv(self.args_v().skip(1), ret),
=== fn command::request::Request::typed_arg
    requires self.wf(),
    ensures
        idx >= self.args_v().len() ==> ret is None,
        idx < self.args_v().len() ==> T::conv(self.args_v()[idx as int], ret),
