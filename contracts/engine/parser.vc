=== sp
pub open spec fn is_prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
/// buf starts with the request (cmd, kt, args).
pub open spec fn denotes(buf: Seq<u8>, cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>) -> bool {
    args_ok(cmd, args) && is_prefix(req_bytes(cmd, kt, args), buf)
}
pub open spec fn starts(buf: Seq<u8>, cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>) -> bool {
    args_ok(cmd, args) && is_prefix(buf, req_bytes(cmd, kt, args)) && buf.len() < req_bytes(cmd, kt, args).len()
}
/// buf is a proper prefix of some request.
pub open spec fn partial(buf: Seq<u8>) -> bool {
    exists|cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>| #[trigger] starts(buf, cmd, kt, args)
}
pub open spec fn is_cmd(b: u8) -> bool { exists|c: CommandId| #[trigger] cmd_code(c) == b % 128 }
pub open spec fn is_kt(b: u8) -> bool { exists|k: KeyType| #[trigger] kt_code(k) == b }
/// The offending byte is present.
pub open spec fn bad(buf: Seq<u8>, e: ParseError) -> bool {
    match e {
        ParseError::CommandIdInvalid => buf.len() > 0 && !is_cmd(buf[0]),
        ParseError::KeyTypeInvalid => buf.len() > 1 && is_cmd(buf[0]) && buf[0] >= 128 && !is_kt(buf[1]),
    }
}
pub proof fn lemma_head(cmd: CommandId, kt: Option<KeyType>)
    ensures
        head(cmd, kt).len() == 1 + base_of(kt),
        head(cmd, kt)[0] % 128 == cmd.code(),
        head(cmd, kt)[0] >= 128 <==> kt is Some,
        kt is Some ==> head(cmd, kt)[1] == kt.unwrap().code(),
{ lemma_cmd_codes(cmd, cmd); }
pub proof fn lemma_req_head(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>)
    ensures
        req_bytes(cmd, kt, args).len() >= 1 + base_of(kt),
        req_bytes(cmd, kt, args)[0] == head(cmd, kt)[0],
        kt is Some ==> req_bytes(cmd, kt, args)[1] == head(cmd, kt)[1],
        !simple(cmd) ==> req_bytes(cmd, kt, args).len() >= 2 + base_of(kt) && req_bytes(cmd, kt, args)[1 + base_of(kt)] == args.len() as u8,
{ lemma_head(cmd, kt); }
/// The encoding of the first arguments is a prefix of the encoding of all.
pub proof fn lemma_enc_prefix(args: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= args.len(),
    ensures is_prefix(enc_args(args.take(i)), enc_args(args)),
    decreases args.len() - i
{
    broadcast use group_be;
    if i == args.len() { assert(args.take(i) =~= args); assert(enc_args(args).take(enc_args(args).len() as int) =~= enc_args(args)); }
    else {
        lemma_enc_prefix(args, i + 1);
        assert(args.take(i + 1).drop_last() =~= args.take(i));
        let (a, b, c) = (enc_args(args.take(i)), enc_args(args.take(i + 1)), enc_args(args));
        assert(a =~= b.take(a.len() as int));
        assert(a =~= c.take(a.len() as int));
    }
}
/// Two argument lists whose encodings both start the same bytes agree item by item.
pub proof fn lemma_enc_same(x: Seq<Seq<u8>>, y: Seq<Seq<u8>>, all: Seq<u8>, i: int)
    requires
        0 <= i <= x.len(), x.len() == y.len(),
        is_prefix(enc_args(x), all), is_prefix(enc_args(y), all),
        forall|j: int| 0 <= j < x.len() ==> arg_fits(#[trigger] x[j]),
        forall|j: int| 0 <= j < y.len() ==> arg_fits(#[trigger] y[j]),
    ensures x.take(i) == y.take(i),
    decreases i
{
    broadcast use group_be;
    if i == 0 { assert(x.take(0) =~= y.take(0)); } else {
        lemma_enc_same(x, y, all, i - 1);
        lemma_enc_prefix(x, i);
        lemma_enc_prefix(y, i);
        assert(x.take(i).drop_last() =~= x.take(i - 1));
        assert(y.take(i).drop_last() =~= y.take(i - 1));
        let p = enc_args(x.take(i - 1));
        let n = p.len() as int;
        let (ex, ey) = (enc_args(x.take(i)), enc_args(y.take(i)));
        let (a, b) = (x[i - 1], y[i - 1]);
        assert(x.take(i).last() == a && y.take(i).last() == b);
        assert(ex == p + be32(a.len()) + a);
        assert(ey == p + be32(b.len()) + b);
        assert(ex.subrange(n, n + 4) =~= be32(a.len()));
        assert(ey.subrange(n, n + 4) =~= be32(b.len()));
        assert(ex.subrange(n, n + 4) =~= all.subrange(n, n + 4));
        assert(ey.subrange(n, n + 4) =~= all.subrange(n, n + 4));
        lemma_un32_be32(a.len());
        lemma_un32_be32(b.len());
        assert(a.len() == b.len());
        let m = n + 4 + a.len();
        assert(ex.subrange(n + 4, m) =~= a);
        assert(ey.subrange(n + 4, m) =~= b);
        assert(ex.subrange(n + 4, m) =~= all.subrange(n + 4, m));
        assert(ey.subrange(n + 4, m) =~= all.subrange(n + 4, m));
        assert(x.take(i) =~= x.take(i - 1).push(a));
        assert(y.take(i) =~= y.take(i - 1).push(b));
    }
}
/// At most one request starts a buffer.
pub proof fn lemma_unique(buf: Seq<u8>, c1: CommandId, k1: Option<KeyType>, a1: Seq<Seq<u8>>, c2: CommandId, k2: Option<KeyType>, a2: Seq<Seq<u8>>)
    requires denotes(buf, c1, k1, a1), denotes(buf, c2, k2, a2),
    ensures c1 == c2, k1 == k2, a1 == a2,
{
    let (r1, r2) = (req_bytes(c1, k1, a1), req_bytes(c2, k2, a2));
    lemma_head(c1, k1); lemma_head(c2, k2);
    lemma_req_head(c1, k1, a1); lemma_req_head(c2, k2, a2);
    assert(buf[0] == r1[0] && buf[0] == r2[0]);
    lemma_cmd_codes(c1, c2);
    assert(c1 == c2);
    assert(k1 is Some <==> k2 is Some);
    if k1 is Some {
        assert(buf[1] == r1[1] && buf[1] == r2[1]);
        lemma_kt_codes(k1.unwrap(), k2.unwrap());
    }
    assert(k1 == k2);
    if simple(c1) { assert(a1 =~= a2); } else {
        let n = 1 + base_of(k1);
        assert(buf[n] == r1[n] && buf[n] == r2[n]);
        assert(a1.len() == a2.len());
        let rest = buf.skip(n + 1);
        assert(r1.skip(n + 1) =~= enc_args(a1));
        assert(r2.skip(n + 1) =~= enc_args(a2));
        assert(enc_args(a1) =~= rest.take(enc_args(a1).len() as int));
        assert(enc_args(a2) =~= rest.take(enc_args(a2).len() as int));
        lemma_enc_same(a1, a2, rest, a1.len() as int);
        assert(a1.take(a1.len() as int) =~= a1);
        assert(a2.take(a2.len() as int) =~= a2);
    }
}
/// The three outcomes exclude each other: a buffer starts with a request, is a proper
/// prefix of one, or has an offending byte.
pub proof fn lemma_exclusive(buf: Seq<u8>, c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>)
    requires denotes(buf, c, k, a),
    ensures !partial(buf), forall|e: ParseError| !#[trigger] bad(buf, e),
{
    lemma_head(c, k); lemma_req_head(c, k, a);
    let r = req_bytes(c, k, a);
    assert(buf[0] == r[0]);
    assert(cmd_code(c) == buf[0] % 128);
    if k is Some { assert(buf[1] == r[1]); assert(kt_code(k.unwrap()) == buf[1]); }
    if partial(buf) {
        let (c2, k2, a2) = choose|cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>| #[trigger] starts(buf, cmd, kt, args);
        let r2 = req_bytes(c2, k2, a2);
        assert(r =~= r2.take(r.len() as int));
        assert(r2 =~= r2.take(r2.len() as int));
        assert(denotes(r2, c, k, a));
        assert(denotes(r2, c2, k2, a2));
        lemma_unique(r2, c, k, a, c2, k2, a2);
    }
}
pub proof fn lemma_bad_not_partial(buf: Seq<u8>, e: ParseError)
    requires bad(buf, e),
    ensures !partial(buf),
{
    if partial(buf) {
        let (c, k, a) = choose|cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>| #[trigger] starts(buf, cmd, kt, args);
        lemma_head(c, k); lemma_req_head(c, k, a);
        let r = req_bytes(c, k, a);
        assert(buf[0] == r[0]);
        assert(cmd_code(c) == buf[0] % 128);
        if buf.len() > 1 && k is Some { assert(buf[1] == r[1]); assert(kt_code(k.unwrap()) == buf[1]); }
    }
}
/// An outcome other than "incomplete" stays when more bytes arrive.
pub proof fn lemma_stable(buf: Seq<u8>, more: Seq<u8>)
    ensures
        forall|c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>| #[trigger] denotes(buf, c, k, a) ==> denotes(buf + more, c, k, a),
        forall|e: ParseError| #[trigger] bad(buf, e) ==> bad(buf + more, e),
{
    assert forall|c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>| #[trigger] denotes(buf, c, k, a) implies denotes(buf + more, c, k, a) by {
        let n = req_bytes(c, k, a).len() as int;
        assert((buf + more).take(n) =~= buf.take(n));
    }
}
/// What a request builder built starts any buffer it is followed by more bytes in.
pub proof fn lemma_built_denotes(buf: Seq<u8>, more: Seq<u8>, c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>)
    requires args_ok(c, a), buf == req_bytes(c, k, a),
    ensures denotes(buf + more, c, k, a),
{ assert((buf + more).take(buf.len() as int) =~= buf); }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn empties(n: nat) -> Seq<Seq<u8>> { Seq::new(n, |i: int| Seq::<u8>::empty()) }
/// Bytes that stop inside an argument can be completed.
pub proof fn lemma_complete(buf: Seq<u8>, c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>, count: nat, x: Seq<u8>)
    requires
        !simple(c), a.len() < count <= 255, arg_fits(x),
        forall|i: int| 0 <= i < a.len() ==> arg_fits(#[trigger] a[i]),
        ({ let full = head(c, k) + seq![count as u8] + enc_args(a) + be32(x.len()) + x; is_prefix(buf, full) && buf.len() < full.len() }),
    ensures partial(buf),
{
    broadcast use group_be;
    let b = a.push(x);
    let args = b + empties((count - b.len()) as nat);
    lemma_enc_prefix(args, b.len() as int);
    assert(args.take(b.len() as int) =~= b);
    assert(b.drop_last() =~= a);
    let full = head(c, k) + seq![count as u8] + enc_args(a) + be32(x.len()) + x;
    assert(full =~= head(c, k) + seq![count as u8] + enc_args(b));
    let r = req_bytes(c, k, args);
    assert(full =~= r.take(full.len() as int));
    assert(buf =~= r.take(buf.len() as int));
    assert(starts(buf, c, k, args));
}
/// Stops before the key type.
pub proof fn lemma_partial_head(buf: Seq<u8>)
    requires buf.len() == 1, buf[0] >= 128, is_cmd(buf[0]),
    ensures partial(buf),
{
    let c = choose|c: CommandId| #[trigger] cmd_code(c) == buf[0] % 128;
    let k = Some(KeyType::Boolean);
    lemma_head(c, k);
    lemma_req_head(c, k, seq![]);
    let r = req_bytes(c, k, seq![]);
    assert(buf =~= r.take(1));
    assert(starts(buf, c, k, seq![]));
}
/// Stops inside the length of an argument.
pub proof fn lemma_partial_len(buf: Seq<u8>, c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>, count: nat, p: Seq<u8>)
    requires
        !simple(c), a.len() < count <= 255,
        forall|i: int| 0 <= i < a.len() ==> arg_fits(#[trigger] a[i]),
        p == head(c, k) + seq![count as u8] + enc_args(a),
        is_prefix(p, buf), buf.len() < p.len() + 4,
    ensures partial(buf),
{
    broadcast use group_be;
    let t = buf.skip(p.len() as int);
    let l = t + zeros((4 - t.len()) as nat);
    lemma_be32_un32(l);
    let x = zeros(un32(l));
    let full = p + be32(x.len()) + x;
    assert(full.take(p.len() as int + 4) =~= p + l);
    assert(buf =~= full.take(buf.len() as int)) by {
        assert forall|i: int| 0 <= i < buf.len() implies buf[i] == full[i] by {
            if i < p.len() { assert(p[i] == buf.take(p.len() as int)[i]); } else { assert(buf[i] == t[i - p.len()]); assert(full[i] == full.take(p.len() as int + 4)[i]); }
        }
    }
    lemma_complete(buf, c, k, a, count, x);
}
/// Stops inside an argument.
pub proof fn lemma_partial_arg(buf: Seq<u8>, c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>, count: nat, p: Seq<u8>, len: nat)
    requires
        !simple(c), a.len() < count <= 255,
        forall|i: int| 0 <= i < a.len() ==> arg_fits(#[trigger] a[i]),
        p == head(c, k) + seq![count as u8] + enc_args(a),
        is_prefix(p, buf), p.len() + 4 <= buf.len() < p.len() + 4 + len,
        un32(buf.subrange(p.len() as int, p.len() as int + 4)) == len,
    ensures partial(buf),
{
    broadcast use group_be;
    let l = buf.subrange(p.len() as int, p.len() as int + 4);
    lemma_be32_un32(l);
    let t = buf.skip(p.len() as int + 4);
    let x = t + zeros((len - t.len()) as nat);
    let full = p + be32(x.len()) + x;
    assert(buf =~= full.take(buf.len() as int)) by {
        assert forall|i: int| 0 <= i < buf.len() implies buf[i] == full[i] by {
            let n = p.len() as int;
            if i < n { assert(p[i] == buf.take(n)[i]); } else if i < n + 4 { assert(full[i] == be32(len)[i - n]); assert(l[i - n] == buf[i]); } else { assert(buf[i] == t[i - n - 4]); }
        }
    }
    lemma_complete(buf, c, k, a, count, x);
}
/// Adding a parsed argument's end.
pub proof fn lemma_parsed(buf: Seq<u8>, c: CommandId, k: Option<KeyType>, pos: Seq<usize>, count: nat, idx: int, len: nat, end: usize)
    requires
        parsed(buf, c, k, pos, count, idx), pos.len() < count, idx + 4 <= buf.len(),
        un32(buf.subrange(idx, idx + 4)) == len,
        end + 1 == idx + 4 + len, end + 1 <= buf.len(),
    ensures
        parsed(buf, c, k, pos.push(end), count, end + 1),
{
    let base = base_of(k);
    let a = args_at(buf, base, pos);
    let x = buf.subrange(idx + 4, idx + 4 + len);
    lemma_head(c, k);
    lemma_args_one_more(buf, base, pos, idx, len, end);
    assert(a.len() == pos.len());
    lemma_enc_one_more(buf, head(c, k) + seq![count as u8], a, idx, len);
    lemma_be32_un32(buf.subrange(idx, idx + 4));
    assert(arg_fits(x));
    assert forall|i: int| 0 <= i < a.push(x).len() implies arg_fits(#[trigger] a.push(x)[i]) by {
        if i < a.len() { assert(arg_fits(a[i])); }
    }
}
pub proof fn lemma_args_one_more(buf: Seq<u8>, base: int, pos: Seq<usize>, idx: int, len: nat, end: usize)
    requires
        base >= 0, pos_ok(buf, base, pos), idx + 4 <= buf.len(),
        idx == if pos.len() == 0 { base + 2 } else { pos.last() + 1 },
        end + 1 == idx + 4 + len, end + 1 <= buf.len(),
    ensures
        pos_ok(buf, base, pos.push(end)),
        args_at(buf, base, pos.push(end)) == args_at(buf, base, pos).push(buf.subrange(idx + 4, idx + 4 + len)),
{
    let p2 = pos.push(end);
    let n = pos.len() as int;
    if n > 0 { assert(base + 5 <= arg_start(base, pos, n - 1) <= pos[n - 1] + 1); }
    assert(arg_start(base, p2, n) == idx + 4);
    assert forall|i: int| 0 <= i < p2.len() implies base + 5 <= arg_start(base, p2, i) <= #[trigger] p2[i] + 1 <= buf.len() by {
        if i < n { assert(p2[i] == pos[i]); assert(base + 5 <= arg_start(base, pos, i) <= pos[i] + 1); assert(arg_start(base, p2, i) == arg_start(base, pos, i)); }
    }
    let (a, a2) = (args_at(buf, base, pos), args_at(buf, base, p2));
    let x = buf.subrange(idx + 4, idx + 4 + len);
    assert forall|i: int| 0 <= i < a2.len() implies #[trigger] a2[i] == a.push(x)[i] by {
        if i < n {
            assert(arg_start(base, p2, i) == arg_start(base, pos, i));
            assert(a2[i] == a[i]);
        } else { assert(a2[i] == x); }
    }
    assert(a2 =~= a.push(x));
}
/// The bytes up to idx are h and the encoding of a; another argument follows.
pub proof fn lemma_enc_one_more(buf: Seq<u8>, h: Seq<u8>, a: Seq<Seq<u8>>, idx: int, len: nat)
    requires
        is_prefix(h + enc_args(a), buf), (h + enc_args(a)).len() == idx, idx + 4 + len <= buf.len(),
        un32(buf.subrange(idx, idx + 4)) == len,
    ensures
        is_prefix(h + enc_args(a.push(buf.subrange(idx + 4, idx + 4 + len))), buf),
        (h + enc_args(a.push(buf.subrange(idx + 4, idx + 4 + len)))).len() == idx + 4 + len,
{
    let x = buf.subrange(idx + 4, idx + 4 + len);
    let l = buf.subrange(idx, idx + 4);
    lemma_be32_un32(l);
    assert(be32(len) == l);
    let (p, q) = (h + enc_args(a), h + enc_args(a.push(x)));
    assert(a.push(x).drop_last() =~= a);
    assert(q =~= p + l + x);
    assert(buf.take(q.len() as int) =~= buf.take(idx) + l + x);
}
/// The first idx bytes of buf are the head and the arguments with these ends.
pub open spec fn parsed(buf: Seq<u8>, c: CommandId, k: Option<KeyType>, pos: Seq<usize>, count: nat, idx: int) -> bool {
    let args = args_at(buf, base_of(k), pos);
    let p = head(c, k) + seq![count as u8] + enc_args(args);
    &&& !simple(c)
    &&& count <= 255
    &&& pos.len() <= count
    &&& pos_ok(buf, base_of(k), pos)
    &&& forall|i: int| 0 <= i < args.len() ==> arg_fits(#[trigger] args[i])
    &&& is_prefix(p, buf)
    &&& p.len() == idx
    &&& idx == if pos.len() == 0 { base_of(k) + 2 } else { pos.last() + 1 }
}
/// All arguments were parsed: the bytes so far are the request.
pub proof fn lemma_parsed_done(buf: Seq<u8>, c: CommandId, k: Option<KeyType>, pos: Seq<usize>, count: nat, idx: int)
    requires parsed(buf, c, k, pos, count, idx), pos.len() == count,
    ensures
        wf(c, k, buf.take(idx), pos),
        denotes(buf, c, k, args_at(buf.take(idx), base_of(k), pos)),
{
    let b = buf.take(idx);
    lemma_args_take(buf, base_of(k), pos, idx);
    let args = args_at(b, base_of(k), pos);
    assert(args.len() == count);
    assert(req_bytes(c, k, args) == b);
}
pub proof fn lemma_args_take(buf: Seq<u8>, base: int, pos: Seq<usize>, idx: int)
    requires pos_ok(buf, base, pos), base >= 0, 0 <= idx <= buf.len(), pos.len() > 0 ==> idx == pos.last() + 1,
    ensures pos_ok(buf.take(idx), base, pos), args_at(buf.take(idx), base, pos) == args_at(buf, base, pos),
{
    let b = buf.take(idx);
    assert forall|i: int| 0 <= i < pos.len() implies base + 5 <= arg_start(base, pos, i) <= #[trigger] pos[i] + 1 <= b.len() by {
        lemma_ends(buf, base, pos, i);
        assert(base + 5 <= arg_start(base, pos, i) <= pos[i] + 1);
    }
    assert(pos_ok(b, base, pos));
    lemma_args_drop(b, buf, base, pos);
}
pub proof fn lemma_ends(buf: Seq<u8>, base: int, pos: Seq<usize>, i: int)
    requires pos_ok(buf, base, pos), 0 <= i < pos.len(),
    ensures pos[i] <= pos.last(),
    decreases pos.len() - i
{
    if i + 1 < pos.len() {
        assert(arg_start(base, pos, i + 1) <= pos[i + 1] + 1);
        lemma_ends(buf, base, pos, i + 1);
    }
}
/// Nothing of the arguments was parsed yet.
pub proof fn lemma_parsed_none(buf: Seq<u8>, c: CommandId, k: Option<KeyType>)
    requires !simple(c), is_prefix(head(c, k), buf), buf.len() > 1 + base_of(k),
    ensures parsed(buf, c, k, Seq::<usize>::empty(), buf[1 + base_of(k)] as nat, base_of(k) + 2),
{
    lemma_head(c, k);
    let n = 1 + base_of(k);
    assert(args_at(buf, base_of(k), Seq::<usize>::empty()) =~= seq![]);
    let h = head(c, k);
    assert(h + seq![buf[n] as nat as u8] + seq![] =~= buf.take(n + 1)) by {
        assert forall|i: int| 0 <= i < n implies h[i] == buf[i] by { assert(h[i] == buf.take(n)[i]); }
    }
}
/// The parser's outcome depends on the bytes parsed only.
pub proof fn lemma_parsed_same(a: Seq<u8>, b: Seq<u8>, c: CommandId, k: Option<KeyType>, pos: Seq<usize>, count: nat, idx: int)
    requires parsed(a, c, k, pos, count, idx), idx <= b.len(), a.take(idx) == b.take(idx),
    ensures parsed(b, c, k, pos, count, idx),
{
    lemma_args_take(a, base_of(k), pos, idx);
    lemma_args_drop(a.take(idx), b, base_of(k), pos);
}
pub proof fn lemma_args_drop(a: Seq<u8>, b: Seq<u8>, base: int, pos: Seq<usize>)
    requires pos_ok(a, base, pos), base >= 0, is_prefix(a, b),
    ensures pos_ok(b, base, pos), args_at(b, base, pos) == args_at(a, base, pos),
{
    assert forall|i: int| 0 <= i < pos.len() implies #[trigger] args_at(b, base, pos)[i] == args_at(a, base, pos)[i] by {
        assert(base + 5 <= arg_start(base, pos, i) <= pos[i] + 1 <= a.len());
        assert(arg_at(b, base, pos, i) =~= b.take(a.len() as int).subrange(arg_start(base, pos, i), pos[i] + 1));
    }
    assert(args_at(b, base, pos) =~= args_at(a, base, pos));
}
=== impl command::request::context::Context
    /// Waiting for the first byte of a request.
    pub closed spec fn fresh(&self) -> bool { self.stage is Init && self.idx == 0 && self.positions@.len() == 0 }
    /// The progress recorded is that through the start of buf.
    pub closed spec fn on(&self, buf: Seq<u8>) -> bool {
        match self.stage {
            Stage::Init => self.fresh(),
            Stage::Kind { command_id, key_type } =>
                self.positions@.len() == 0 && self.idx == 1 + base_of(key_type) && !simple(command_id) && is_prefix(head(command_id, key_type), buf),
            Stage::ArgumentParsing { argument_count, command_id, key_type } =>
                self.positions@.len() < argument_count && parsed(buf, command_id, key_type, self.positions@, argument_count as nat, self.idx as int),
        }
    }
    pub closed spec fn done(&self, buf: Seq<u8>, cmd: CommandId, kt: Option<KeyType>) -> bool {
        self.idx <= buf.len() && wf(cmd, kt, buf.take(self.idx as int), self.positions@)
            && denotes(buf, cmd, kt, args_at(buf.take(self.idx as int), base_of(kt), self.positions@))
    }
    pub proof fn lemma_fresh(&self, buf: Seq<u8>)
        requires self.fresh(),
        ensures self.on(buf),
    { }
    /// More bytes may be added to the buffer between two calls.
    pub proof fn lemma_more(&self, buf: Seq<u8>, more: Seq<u8>)
        requires self.on(buf),
        ensures self.on(buf + more),
    {
        match self.stage {
            Stage::Init => { }
            Stage::Kind { command_id, key_type } => {
                let n = head(command_id, key_type).len() as int;
                assert((buf + more).take(n) =~= buf.take(n));
            }
            Stage::ArgumentParsing { argument_count, command_id, key_type } => {
                assert((buf + more).take(self.idx as int) =~= buf.take(self.idx as int));
                lemma_parsed_same(buf, buf + more, command_id, key_type, self.positions@, argument_count as nat, self.idx as int);
            }
        }
    }
=== fn command::request::context::Context::new
    ensures ret.fresh(),
=== fn command::request::context::Stage::Default::default
    ensures ret is Init,
=== fn command::request::context::Context::Default::default
    ensures ret.fresh(),
=== fn command::request::context::Context::reset
    ensures final(self).fresh(),
=== fn command::request::context::Context::stage_init
    requires old(self).on(buf@), old(self).stage is Init,
    ensures
        ret matches Err(e) ==> bad(buf@, e) && final(self).fresh(),
        ret matches Ok(ContextConclusion::Incomplete) ==> partial(buf@) && final(self).fresh(),
        ret matches Ok(ContextConclusion::Next) ==> final(self).on(buf@) && old(self).idx < final(self).idx <= buf@.len(),
        ret matches Ok(ContextConclusion::Finished((c, k))) ==> final(self).done(buf@, c, k),
--- entry
    proof {
        if buf@.len() == 0 {
            let r = req_bytes(CommandId::Stats, None, seq![]);
            lemma_req_head(CommandId::Stats, None, seq![]);
            assert(buf@ =~= r.take(0));
            assert(starts(buf@, CommandId::Stats, None, seq![]));
        } else {
            let b = buf@[0];
            assert(b & 0b0111_1111u8 == b % 128) by (bit_vector);
            assert((b >> 7u8 == 1u8) == (b >= 128)) by (bit_vector);
            if buf@.len() == 1 && b >= 128 && is_cmd(b) { lemma_partial_head(buf@); }
        }
    }
--- after self.idx = 1 + key_type.is_some() as usize;
    proof {
        lemma_head(command_id, key_type);
        assert(head(command_id, key_type) =~= buf@.take(head(command_id, key_type).len() as int));
        if simple(command_id) {
            let b = buf@.take(self.idx as int);
            assert(args_at(b, base_of(key_type), Seq::<usize>::empty()) =~= seq![]);
            assert(self.positions@ =~= Seq::<usize>::empty());
            assert(b =~= req_bytes(command_id, key_type, seq![]));
        }
    }
=== fn command::request::context::Context::stage_kind
    requires old(self).on(buf@), old(self).stage == (Stage::Kind { command_id, key_type }),
    ensures
        ret is Ok,
        ret matches Ok(ContextConclusion::Incomplete) ==> partial(buf@) && *final(self) == *old(self),
        ret matches Ok(ContextConclusion::Next) ==> final(self).on(buf@) && old(self).idx < final(self).idx <= buf@.len(),
        ret matches Ok(ContextConclusion::Finished((c, k))) ==> final(self).done(buf@, c, k),
--- entry
    proof {
        axiom_slice_len(buf);
        lemma_head(command_id, key_type);
        assert(self.positions@ =~= Seq::<usize>::empty());
        if buf@.len() <= self.idx {
            let r = req_bytes(command_id, key_type, seq![]);
            lemma_req_head(command_id, key_type, seq![]);
            assert(buf@ =~= head(command_id, key_type));
            assert(buf@ =~= r.take(buf@.len() as int));
            assert(starts(buf@, command_id, key_type, seq![]));
        } else {
            lemma_parsed_none(buf@, command_id, key_type);
            if buf@[self.idx as int] == 0 { lemma_parsed_done(buf@, command_id, key_type, self.positions@, 0, self.idx + 1); }
        }
    }
=== fn command::request::context::Context::stage_argument_parsing
    requires old(self).on(buf@), old(self).stage == (Stage::ArgumentParsing { argument_count, command_id, key_type }),
    ensures
        ret is Ok,
        ret matches Ok(ContextConclusion::Incomplete) ==> partial(buf@) && *final(self) == *old(self),
        ret matches Ok(ContextConclusion::Next) ==> final(self).on(buf@) && old(self).idx < final(self).idx <= buf@.len(),
        ret matches Ok(ContextConclusion::Finished((c, k))) ==> final(self).done(buf@, c, k),
--- entry
    let ghost (gi, gp) = (self.idx as int, self.positions@);
    let ghost ga = args_at(buf@, base_of(key_type), gp);
    let ghost p = head(command_id, key_type) + seq![argument_count] + enc_args(ga);
    proof {
        axiom_slice_len(buf);
        if buf@.len() < gi + 4 {
            lemma_partial_len(buf@, command_id, key_type, ga, argument_count as nat, p);
        } else {
            let len = un32(buf@.subrange(gi, gi + 4));
            lemma_be32_un32(buf@.subrange(gi, gi + 4));
            if buf@.len() < gi + 4 + len {
                lemma_partial_arg(buf@, command_id, key_type, ga, argument_count as nat, p, len);
            } else {
                let end = (gi + 3 + len) as usize;
                lemma_parsed(buf@, command_id, key_type, gp, argument_count as nat, gi, len, end);
                if gp.len() + 1 == argument_count { lemma_parsed_done(buf@, command_id, key_type, gp.push(end), argument_count as nat, end + 1); }
            }
        }
    }
=== fn command::request::context::Context::feed
    requires old(self).on(buf@),
    ensures
        ret matches Err(e) ==> bad(buf@, e) && final(self).fresh(),
        ret matches Ok(None) ==> partial(buf@) && final(self).on(buf@),
        ret matches Ok(Some(r)) ==> r.wf() && denotes(buf@, r.cmd(), r.kt(), r.args_v()) && final(self).fresh(),
--- loop 0
    invariant self.on(buf@), self.idx <= buf@.len(),
    decreases buf@.len() - self.idx,
