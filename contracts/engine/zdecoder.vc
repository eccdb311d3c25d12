=== sp
/// buf is a proper prefix of the frame of fv.
pub open spec fn fstarts(buf: Seq<u8>, fv: FV) -> bool {
    fv_fits(fv) && is_prefix(buf, frame(fv)) && buf.len() < frame(fv).len()
}
/// The bytes missing from the header or else from the frame.
pub open spec fn fmissing(buf: Seq<u8>, fv: FV) -> int {
    if buf.len() < 4 { 4 - buf.len() } else { frame(fv).len() - buf.len() }
}
/// buf starts with the frame of fv.
pub open spec fn fdenotes(buf: Seq<u8>, fv: FV) -> bool { fv_fits(fv) && is_prefix(frame(fv), buf) }
pub proof fn lemma_frame(fv: FV)
    requires fv_fits(fv),
    ensures
        frame(fv).len() == 5 + fv_body(fv).len(),
        frame(fv).subrange(0, 4) == be32(1 + fv_body(fv).len()),
        un32(be32(1 + fv_body(fv).len())) == 1 + fv_body(fv).len(),
        frame(fv)[4] == rt_code(fv_type(fv)),
        frame(fv).skip(5) == fv_body(fv),
{
    reveal(frame);
    broadcast use group_be;
    lemma_un32_be32(1 + fv_body(fv).len());
    assert(frame(fv).subrange(0, 4) =~= be32(1 + fv_body(fv).len()));
    assert(frame(fv).skip(5) =~= fv_body(fv));
}
/// What a complete frame at the start of buf says about the bytes of buf.
pub proof fn lemma_fdenotes(buf: Seq<u8>, fv: FV)
    requires fdenotes(buf, fv),
    ensures
        buf.len() >= 5 + fv_body(fv).len(),
        un32(buf.subrange(0, 4)) == 1 + fv_body(fv).len(),
        buf[4] == rt_code(fv_type(fv)),
        buf.subrange(5, 5 + fv_body(fv).len() as int) == fv_body(fv),
{
    lemma_frame(fv);
    let f = frame(fv);
    assert(buf.subrange(0, 4) =~= f.subrange(0, 4));
    assert(buf[4] == f[4]);
    assert(buf.subrange(5, 5 + fv_body(fv).len() as int) =~= f.skip(5));
}
pub proof fn lemma_fstarts(buf: Seq<u8>, fv: FV)
    requires fstarts(buf, fv),
    ensures
        buf.len() >= 4 ==> un32(buf.subrange(0, 4)) == 1 + fv_body(fv).len(),
        frame(fv).len() == 5 + fv_body(fv).len(),
{
    lemma_frame(fv);
    if buf.len() >= 4 { assert(buf.subrange(0, 4) =~= frame(fv).subrange(0, 4)); }
}
/// Where an item of a body starts and what it looks like.
pub proof fn lemma_item_at(xs: Seq<Seq<u8>>, n: int)
    requires 0 <= n < xs.len(),
    ensures
        xs.take(n + 1) == xs.take(n).push(xs[n]),
        enc_items(xs.take(n + 1)) == enc_items(xs.take(n)) + enc_item(xs[n]),
        enc_items(xs.take(n + 1)).is_prefix_of(enc_items(xs)),
    decreases xs.len() - n
{
    assert(xs.take(n + 1) =~= xs.take(n).push(xs[n]));
    assert(xs.take(n + 1).drop_last() =~= xs.take(n));
    if n + 1 < xs.len() {
        lemma_item_at(xs, n + 1);
        let (a, b, c) = (enc_items(xs.take(n + 1)), enc_items(xs.take(n + 2)), enc_items(xs));
        assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b[i]); }
    } else { assert(xs.take(n + 1) =~= xs); }
}
pub proof fn lemma_pair_at(xs: Seq<(Seq<u8>, Seq<u8>)>, n: int)
    requires 0 <= n < xs.len(),
    ensures
        xs.take(n + 1) == xs.take(n).push(xs[n]),
        enc_pairs(xs.take(n + 1)) == enc_pairs(xs.take(n)) + enc_pair(xs[n]),
        enc_pairs(xs.take(n + 1)).is_prefix_of(enc_pairs(xs)),
    decreases xs.len() - n
{
    assert(xs.take(n + 1) =~= xs.take(n).push(xs[n]));
    assert(xs.take(n + 1).drop_last() =~= xs.take(n));
    if n + 1 < xs.len() {
        lemma_pair_at(xs, n + 1);
        let (a, b, c) = (enc_pairs(xs.take(n + 1)), enc_pairs(xs.take(n + 2)), enc_pairs(xs));
        assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b[i]); }
    } else { assert(xs.take(n + 1) =~= xs); }
}
pub proof fn lemma_arg_at(xs: Seq<Seq<u8>>, n: int)
    requires 0 <= n < xs.len(),
    ensures
        xs.take(n + 1) == xs.take(n).push(xs[n]),
        enc_args(xs.take(n + 1)) == enc_args(xs.take(n)) + enc_arg(xs[n]),
        enc_args(xs.take(n + 1)).is_prefix_of(enc_args(xs)),
    decreases xs.len() - n
{
    assert(xs.take(n + 1) =~= xs.take(n).push(xs[n]));
    assert(xs.take(n + 1).drop_last() =~= xs.take(n));
    assert(enc_args(xs.take(n + 1)) =~= enc_args(xs.take(n)) + enc_arg(xs[n]));
    if n + 1 < xs.len() {
        lemma_arg_at(xs, n + 1);
        let (a, b, c) = (enc_args(xs.take(n + 1)), enc_args(xs.take(n + 2)), enc_args(xs));
        assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b[i]); }
    } else { assert(xs.take(n + 1) =~= xs); }
}
/// The bytes of buf at 5 + 2 + (what was read) are the next item.
pub proof fn lemma_body_at(buf: Seq<u8>, fv: FV, pre: Seq<u8>, done: Seq<u8>, item: Seq<u8>, all: Seq<u8>)
    requires fdenotes(buf, fv), fv_body(fv) == pre + all, (done + item).is_prefix_of(all),
    ensures
        5 + pre.len() + done.len() + item.len() <= buf.len(),
        buf.subrange((5 + pre.len() + done.len()) as int, (5 + pre.len() + done.len() + item.len()) as int) == item,
{
    lemma_fdenotes(buf, fv);
    let b = fv_body(fv);
    let o = 5 + pre.len() + done.len();
    assert((done + item).len() <= all.len());
    assert(buf.subrange(o as int, (o + item.len()) as int) =~= item) by {
        assert forall|i: int| 0 <= i < item.len() implies buf[o + i] == item[i] by {
            assert((done + item)[done.len() + i] == item[i]);
            assert((done + item)[done.len() + i] == all[done.len() + i]);
            assert(b[pre.len() + done.len() + i] == all[done.len() + i]);
            assert(buf.subrange(5, 5 + b.len() as int)[pre.len() + done.len() + i] == buf[o + i]);
        }
    }
}
pub broadcast proof fn lemma_deep_push(s: Seq<Vec<u8>>, v: Vec<u8>)
    ensures deep(#[trigger] s.push(v)) == deep(s).push(v@),
{ assert(deep(s.push(v)) =~= deep(s).push(v@)); }
=== impl command::response::context::Context
    /// Ready for the start of a frame.
    pub open spec fn fresh(&self) -> bool { self.idx == 0 && self.stage is Init }
    /// Consistent with a buffer of n bytes.
    pub open spec fn ok(&self, n: int) -> bool {
        self.idx <= n && match self.stage {
            Stage::Init => self.idx == 0,
            Stage::DetermineType => self.idx == 4,
            Stage::TypeInit { kind, read_len } => self.idx == 5 && (match kind {
                ResponseType::List | ResponseType::Map | ResponseType::Set => read_len == 2,
                ResponseType::Bytes | ResponseType::String => read_len == 4,
                _ => false,
            }),
            Stage::Bytes { len } => self.idx == 9 && len != 0,
            Stage::String { len } => self.idx == 9 && len != 0,
            Stage::List { args, len } => self.idx >= 7 && args@.len() < len,
            Stage::Map { map, len } => self.idx >= 7 && map@.dom().len() < len,
            Stage::Set { args, len } => self.idx >= 7 && args@.len() < len,
            _ => self.idx == 5,
        }
    }
    /// The buffer starts with the frame of fv and the bytes up to idx have been read.
    #[verifier::opaque]
    pub open spec fn here(&self, buf: Seq<u8>, fv: FV) -> bool {
        fdenotes(buf, fv) && match self.stage {
            Stage::Init => self.idx == 0,
            Stage::DetermineType => self.idx == 4,
            Stage::TypeInit { kind, read_len } => self.idx == 5 && kind == fv_type(fv),
            Stage::Boolean => self.idx == 5 && fv is Bool,
            Stage::Float => self.idx == 5 && fv is Float,
            Stage::Integer => self.idx == 5 && fv is Int,
            Stage::ParseError => self.idx == 5 && fv is PErr,
            Stage::DispatchError => self.idx == 5 && fv is DErr,
            Stage::Bytes { len } => self.idx == 9 && (fv matches FV::Bytes(b) && b.len() == len),
            Stage::String { len } => self.idx == 9 && (fv matches FV::Str(b) && b.len() == len),
            Stage::List { args, len } => fv matches FV::List(l) && here_list(l, deep(args@), len as int, self.idx as int),
            Stage::Map { map, len } => fv matches FV::Map(ps) && here_map(ps, map@, len as int, self.idx as int),
            Stage::Set { args, len } => fv matches FV::Set(xs) && here_set(xs, args@, len as int, self.idx as int),
        }
    }
=== sp
#[verifier::opaque]
pub open spec fn here_list(l: Seq<Seq<u8>>, got: Seq<Seq<u8>>, len: int, idx: int) -> bool {
    l.len() == len && got.len() < len && got =~= l.take(got.len() as int) && idx == 7 + enc_args(got).len()
}
#[verifier::opaque]
pub open spec fn here_map(ps: Seq<(Seq<u8>, Seq<u8>)>, got: Map<Seq<u8>, Seq<u8>>, len: int, idx: int) -> bool {
    let n = got.dom().len() as int;
    ps.len() == len && n < len && got == pairs_map(ps.take(n)) && idx == 7 + enc_pairs(ps.take(n)).len()
}
#[verifier::opaque]
pub open spec fn here_set(xs: Seq<Seq<u8>>, got: Set<Seq<u8>>, len: int, idx: int) -> bool {
    let n = got.len() as int;
    xs.len() == len && n < len && got == xs.take(n).to_set() && idx == 7 + enc_items(xs.take(n)).len()
}
/// The next item of a list.
pub proof fn lemma_next_arg(buf: Seq<u8>, l: Seq<Seq<u8>>, got: Seq<Seq<u8>>, len: int, idx: int) -> (x: Seq<u8>)
    requires fdenotes(buf, FV::List(l)), here_list(l, got, len, idx),
    ensures
        x == l[got.len() as int],
        idx + 4 + x.len() <= buf.len(), 7 <= idx,
        un32(buf.subrange(idx, idx + 4)) == x.len(),
        buf.subrange(idx + 4, idx + 4 + x.len()) == x,
        got.len() + 1 < len ==> here_list(l, got.push(x), len, idx + 4 + x.len()),
        got.len() + 1 == len ==> got.push(x) == l,
{
    broadcast use group_be;
    reveal(here_list);
    let n = got.len() as int;
    let x = l[n];
    lemma_arg_at(l, n);
    lemma_body_at(buf, FV::List(l), be16(l.len()), enc_args(got), enc_arg(x), enc_args(l));
    lemma_frame(FV::List(l));
    lemma_enc_args_grow(l, n + 1);
    lemma_un32_be32(x.len());
    let b = buf.subrange(idx, idx + 4 + x.len());
    assert(b == enc_arg(x));
    assert(buf.subrange(idx, idx + 4) =~= b.subrange(0, 4));
    assert(be32(x.len()) =~= b.subrange(0, 4));
    assert(buf.subrange(idx + 4, idx + 4 + x.len()) =~= b.skip(4));
    assert(x =~= b.skip(4));
    assert(got.push(x) == l.take(n + 1));
    if n + 1 == len { assert(l.take(n + 1) =~= l); }
    x
}
pub proof fn lemma_next_item(buf: Seq<u8>, l: Seq<Seq<u8>>, got: Set<Seq<u8>>, len: int, idx: int) -> (x: Seq<u8>)
    requires fdenotes(buf, FV::Set(l)), here_set(l, got, len, idx),
    ensures
        x == l[got.len() as int],
        idx + 2 + x.len() <= buf.len(), 7 <= idx,
        un16(buf.subrange(idx, idx + 2)) == x.len(),
        buf.subrange(idx + 2, idx + 2 + x.len()) == x,
        got.insert(x).len() == got.len() + 1,
        got.len() + 1 < len ==> here_set(l, got.insert(x), len, idx + 2 + x.len()),
        got.len() + 1 == len ==> got.insert(x) == l.to_set(),
{
    broadcast use group_be;
    reveal(here_set);
    reveal(items_fit);
    let n = got.len() as int;
    let x = l[n];
    lemma_item_at(l, n);
    lemma_body_at(buf, FV::Set(l), be16(l.len()), enc_items(l.take(n)), enc_item(x), enc_items(l));
    lemma_un16_be16(x.len());
    let b = buf.subrange(idx, idx + 2 + x.len());
    assert(b == enc_item(x));
    assert(buf.subrange(idx, idx + 2) =~= b.subrange(0, 2));
    assert(be16(x.len()) =~= b.subrange(0, 2));
    assert(buf.subrange(idx + 2, idx + 2 + x.len()) =~= b.skip(2));
    assert(x =~= b.skip(2));
    assert(l.take(n + 1).to_set() =~= got.insert(x)) by {
        assert forall|y: Seq<u8>| l.take(n + 1).to_set().contains(y) == got.insert(x).contains(y) by {
            if l.take(n + 1).contains(y) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] l.take(n + 1)[i] == y; if i < n { assert(l.take(n)[i] == y); } }
            if l.take(n).contains(y) { let i = choose|i: int| 0 <= i < n && #[trigger] l.take(n)[i] == y; assert(l.take(n + 1)[i] == y); }
            assert(l.take(n + 1)[n] == x);
        }
    }
    assert(!got.contains(x)) by {
        if l.take(n).contains(x) { let i = choose|i: int| 0 <= i < n && #[trigger] l.take(n)[i] == x; assert(l[i] == l[n]); }
    }
    if n + 1 == len { assert(l.take(n + 1) =~= l); }
    x
}
pub proof fn lemma_pair_bytes(buf: Seq<u8>, idx: int, p: (Seq<u8>, Seq<u8>))
    requires
        0 <= idx, idx + enc_pair(p).len() <= buf.len(), buf.subrange(idx, idx + enc_pair(p).len()) == enc_pair(p),
        p.0.len() <= 255, p.1.len() < 0x1_0000_0000,
    ensures
        enc_pair(p).len() == 5 + p.0.len() + p.1.len(),
        buf.subrange(idx, idx + 1)[0] == p.0.len(),
        buf.subrange(idx + 1, idx + 1 + p.0.len()) == p.0,
        un32(buf.subrange(idx + 1 + p.0.len(), idx + 5 + p.0.len())) == p.1.len(),
        buf.subrange(idx + 5 + p.0.len(), idx + 5 + p.0.len() + p.1.len()) == p.1,
{
    broadcast use group_be;
    lemma_un32_be32(p.1.len());
    let b = enc_pair(p);
    assert(buf.subrange(idx, idx + 1)[0] == b[0]) by { assert(buf.subrange(idx, idx + b.len())[0] == b[0]); }
    let k = 1 + p.0.len() as int;
    assert(buf.subrange(idx + 1, idx + k) =~= buf.subrange(idx, idx + b.len()).subrange(1, k));
    assert(p.0 =~= b.subrange(1, k));
    assert(buf.subrange(idx + k, idx + k + 4) =~= buf.subrange(idx, idx + b.len()).subrange(k, k + 4));
    assert(be32(p.1.len()) =~= b.subrange(k, k + 4));
    assert(buf.subrange(idx + k + 4, idx + k + 4 + p.1.len()) =~= buf.subrange(idx, idx + b.len()).skip(k + 4));
    assert(p.1 =~= b.skip(k + 4));
}
pub proof fn lemma_next_pair(buf: Seq<u8>, l: Seq<(Seq<u8>, Seq<u8>)>, got: Map<Seq<u8>, Seq<u8>>, len: int, idx: int) -> (p: (Seq<u8>, Seq<u8>))
    requires fdenotes(buf, FV::Map(l)), here_map(l, got, len, idx),
    ensures
        p == l[got.dom().len() as int],
        idx + 5 + p.0.len() + p.1.len() <= buf.len(), 7 <= idx,
        buf.subrange(idx, idx + 1)[0] == p.0.len(),
        buf.subrange(idx + 1, idx + 1 + p.0.len()) == p.0,
        un32(buf.subrange(idx + 1 + p.0.len(), idx + 5 + p.0.len())) == p.1.len(),
        buf.subrange(idx + 5 + p.0.len(), idx + 5 + p.0.len() + p.1.len()) == p.1,
        got.insert(p.0, p.1).dom().len() == got.dom().len() + 1,
        got.dom().len() + 1 < len ==> here_map(l, got.insert(p.0, p.1), len, idx + 5 + p.0.len() + p.1.len()),
        got.dom().len() + 1 == len ==> got.insert(p.0, p.1) == pairs_map(l),
{
    broadcast use group_be;
    reveal(here_map);
    let n = got.dom().len() as int;
    let p = l[n];
    assert(p.0.len() <= 255) by { reveal(keys_fit); }
    lemma_pair_at(l, n);
    lemma_body_at(buf, FV::Map(l), be16(l.len()), enc_pairs(l.take(n)), enc_pair(p), enc_pairs(l));
    lemma_frame(FV::Map(l));
    lemma_enc_pairs_grow(l, n + 1);
    lemma_pair_bytes(buf, idx, p);
    lemma_pairs_map(l, n);
    lemma_pairs_map(l, n + 1);
    assert(l.take(n + 1).drop_last() =~= l.take(n));
    assert(pairs_map(l.take(n + 1)) == got.insert(p.0, p.1));
    if n + 1 == len { assert(l.take(n + 1) =~= l); }
    p
}
