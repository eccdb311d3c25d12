=== fn command::response::context::Context::stage_init
    requires old(self).ok(buf@.len() as int), old(self).stage is Init,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
        forall|fv: FV| #[trigger] fstarts(buf@, fv) ==> (ret matches Ok(Some(Instruction::ReadBytes(n))) && n == fmissing(buf@, fv)),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_fstarts_all(buf@); if buf@.len() >= 4 { lemma_be32_un32(buf@.subrange(0, 4)); } }
=== fn command::response::context::Context::stage_determine_type
    requires old(self).ok(buf@.len() as int), old(self).stage is DetermineType,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_types_all(); }
=== fn command::response::context::Context::stage_boolean
    requires old(self).ok(buf@.len() as int), old(self).stage is Boolean,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_scalars_all(buf@); }
=== fn command::response::context::Context::stage_float
    requires old(self).ok(buf@.len() as int), old(self).stage is Float,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_scalars_all(buf@); }
=== fn command::response::context::Context::stage_integer
    requires old(self).ok(buf@.len() as int), old(self).stage is Integer,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_scalars_all(buf@); }
=== fn command::response::context::Context::stage_dispatch_error
    requires old(self).ok(buf@.len() as int), old(self).stage is DispatchError,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_scalars_all(buf@); }
=== fn command::response::context::Context::stage_parse_error
    requires old(self).ok(buf@.len() as int), old(self).stage is ParseError,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_scalars_all(buf@); }
=== fn command::response::context::Context::stage_bytes
    requires old(self).ok(buf@.len() as int), old(self).stage is Bytes, old(self).stage->Bytes_len == len,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_sized_all(buf@); }
=== fn command::response::context::Context::stage_string
    requires old(self).ok(buf@.len() as int), old(self).stage is String, old(self).stage->String_len == read_len,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); lemma_fdenotes_all(buf@); lemma_sized_all(buf@); }
=== fn command::response::context::Context::stage_type_init
    requires old(self).ok(buf@.len() as int), old(self).stage is TypeInit, old(self).stage->kind == kind, old(self).stage->read_len == read_len,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); self.see_type_init(buf@); broadcast use axiom_utf8; }
=== fn command::response::context::Context::stage_list
    requires old(self).ok(buf@.len() as int), old(self).stage is List,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); self.see_list(buf@); broadcast use lemma_deep_push; }
=== fn command::response::context::Context::stage_map
    requires old(self).ok(buf@.len() as int), old(self).stage is Map,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); self.see_map(buf@); broadcast use lemma_deep_push; }
=== fn command::response::context::Context::stage_set
    requires old(self).ok(buf@.len() as int), old(self).stage is Set,
    ensures
        !(ret matches Ok(Some(Instruction::Concluded(_)))) ==> final(self).ok(buf@.len() as int),
        ret matches Ok(Some(Instruction::ReadBytes(n))) ==> 1 <= n <= 0x2_0000_0000 && *final(self) == *old(self),
        ret matches Ok(Some(Instruction::Concluded(r))) ==> forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> resp_is(r, fv),
        (ret matches Ok(None)) ==> final(self).idx > old(self).idx && !(final(self).stage is Init) && forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> final(self).here(buf@, fv),
        ret is Err || (ret matches Ok(Some(Instruction::ReadBytes(_)))) ==> forall|fv: FV| !#[trigger] old(self).here(buf@, fv),
--- entry
    broadcast use group_be;
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); self.see_set(buf@); broadcast use lemma_deep_push; }
=== fn command::response::context::remaining_bytes
    requires start > 0, start + to_read <= usize::MAX, read <= start + to_read,
    ensures ret == start + to_read - read,
=== fn command::response::context::Context::reset
    ensures final(self).fresh(),
=== fn command::response::context::Context::new
    ensures ret.fresh(),
=== fn command::response::context::Stage::Default::default
    ensures ret is Init,
=== fn command::response::context::Context::Default::default
    ensures ret.fresh(),
=== fn command::response::context::Context::feed
    requires old(self).ok(buf@.len() as int),
    ensures
        final(self).ok(buf@.len() as int),
        ret matches Ok(Instruction::ReadBytes(n)) ==> 1 <= n <= 0x2_0000_0000,
        ret matches Ok(Instruction::Concluded(_)) ==> final(self).fresh(),
        forall|fv: FV| #[trigger] old(self).here(buf@, fv) ==> (ret matches Ok(Instruction::Concluded(r)) && resp_is(r, fv)),
        forall|fv: FV| old(self).fresh() && #[trigger] fdenotes(buf@, fv) ==> (ret matches Ok(Instruction::Concluded(r)) && resp_is(r, fv)),
        forall|fv: FV| old(self).fresh() && #[trigger] fstarts(buf@, fv) ==> (ret matches Ok(Instruction::ReadBytes(n)) && n == fmissing(buf@, fv)) && final(self).fresh(),
--- entry
    let ghost s0 = *self;
    proof { axiom_slice_len(buf); reveal(Context::here); }
--- shape loop
--- loop 0
    invariant
        self.ok(buf@.len() as int),
        forall|fv: FV| #[trigger] s0.here(buf@, fv) ==> self.here(buf@, fv),
        forall|fv: FV| s0.fresh() && #[trigger] fstarts(buf@, fv) ==> self.fresh(),
        forall|fv: FV| s0.fresh() && #[trigger] fdenotes(buf@, fv) ==> s0.here(buf@, fv),
    decreases buf@.len() - self.idx,
=== sp
pub proof fn lemma_fdenotes_all(buf: Seq<u8>)
    ensures
        forall|fv: FV| #[trigger] fdenotes(buf, fv) ==> {
            &&& fv_fits(fv)
            &&& buf.len() >= 5 + fv_body(fv).len()
            &&& un32(buf.subrange(0, 4)) == 1 + fv_body(fv).len()
            &&& buf[4] == rt_code(fv_type(fv))
            &&& buf.subrange(5, 5 + fv_body(fv).len() as int) == fv_body(fv)
        },
{
    assert forall|fv: FV| #[trigger] fdenotes(buf, fv) implies {
            &&& fv_fits(fv)
            &&& buf.len() >= 5 + fv_body(fv).len()
            &&& un32(buf.subrange(0, 4)) == 1 + fv_body(fv).len()
            &&& buf[4] == rt_code(fv_type(fv))
            &&& buf.subrange(5, 5 + fv_body(fv).len() as int) == fv_body(fv)
        } by { lemma_fdenotes(buf, fv); }
}
pub proof fn lemma_fstarts_all(buf: Seq<u8>)
    ensures
        forall|fv: FV| #[trigger] fstarts(buf, fv) ==> {
            &&& buf.len() >= 4 ==> un32(buf.subrange(0, 4)) == 1 + fv_body(fv).len()
            &&& frame(fv).len() == 5 + fv_body(fv).len()
        },
{
    assert forall|fv: FV| #[trigger] fstarts(buf, fv) implies {
            &&& buf.len() >= 4 ==> un32(buf.subrange(0, 4)) == 1 + fv_body(fv).len()
            &&& frame(fv).len() == 5 + fv_body(fv).len()
        } by { lemma_fstarts(buf, fv); }
}
pub proof fn lemma_types_all()
    ensures forall|a: ResponseType, b: ResponseType| #[trigger] rt_code(a) == #[trigger] rt_code(b) ==> a == b,
{ assert forall|a: ResponseType, b: ResponseType| #[trigger] rt_code(a) == #[trigger] rt_code(b) implies a == b by { lemma_rt_codes(a, b); } }
/// Bodies of a fixed size.
pub proof fn lemma_scalars_all(buf: Seq<u8>)
    ensures
        forall|fv: FV| #[trigger] fdenotes(buf, fv) ==> match fv {
            FV::Bool(b) => buf.len() > 5 && buf[5] == (if b { 1u8 } else { 0u8 }),
            FV::Float(x) => buf.len() >= 13 && un_f64(buf.subrange(5, 13)) == x,
            FV::Int(x) => buf.len() >= 13 && un_i64(buf.subrange(5, 13)) == x,
            FV::PErr(e) => buf.len() > 5 && buf[5] == perr_code(e),
            FV::DErr(e) => buf.len() > 5 && buf[5] == err_code(e),
            _ => true,
        },
        forall|a: ParseError, b: ParseError| #[trigger] perr_code(a) == #[trigger] perr_code(b) ==> a == b,
        forall|a: DispatchError, b: DispatchError| #[trigger] err_code(a) == #[trigger] err_code(b) ==> a == b,
{
    broadcast use {axiom_be_f64, axiom_be_i64};
    assert forall|fv: FV| #[trigger] fdenotes(buf, fv) implies match fv {
            FV::Bool(b) => buf.len() > 5 && buf[5] == (if b { 1u8 } else { 0u8 }),
            FV::Float(x) => buf.len() >= 13 && un_f64(buf.subrange(5, 13)) == x,
            FV::Int(x) => buf.len() >= 13 && un_i64(buf.subrange(5, 13)) == x,
            FV::PErr(e) => buf.len() > 5 && buf[5] == perr_code(e),
            FV::DErr(e) => buf.len() > 5 && buf[5] == err_code(e),
            _ => true,
        } by {
        lemma_fdenotes(buf, fv);
        let b = fv_body(fv);
        if b.len() > 0 { assert(buf[5] == buf.subrange(5, 5 + b.len() as int)[0]); }
    }
    assert forall|a: ParseError, b: ParseError| #[trigger] perr_code(a) == #[trigger] perr_code(b) implies a == b by { lemma_perr_codes(a, b); }
    assert forall|a: DispatchError, b: DispatchError| #[trigger] err_code(a) == #[trigger] err_code(b) implies a == b by { lemma_err_codes(a, b); }
}
/// Bodies of bytes and strings.
pub proof fn lemma_sized_all(buf: Seq<u8>)
    ensures
        forall|fv: FV| #[trigger] fdenotes(buf, fv) ==> match fv {
            FV::Bytes(b) => buf.len() >= 9 + b.len() && un32(buf.subrange(5, 9)) == b.len() && buf.subrange(9, 9 + b.len() as int) == b,
            FV::Str(b) => buf.len() >= 9 + b.len() && un32(buf.subrange(5, 9)) == b.len() && buf.subrange(9, 9 + b.len() as int) == b && is_utf8(b),
            FV::List(l) => buf.len() >= 7 && l.len() <= 65535 && un16(buf.subrange(5, 7)) == l.len(),
            FV::Map(l) => buf.len() >= 7 && l.len() <= 65535 && un16(buf.subrange(5, 7)) == l.len(),
            FV::Set(l) => buf.len() >= 7 && l.len() <= 65535 && un16(buf.subrange(5, 7)) == l.len(),
            _ => true,
        },
{
    assert forall|fv: FV| #[trigger] fdenotes(buf, fv) implies match fv {
            FV::Bytes(b) => buf.len() >= 9 + b.len() && un32(buf.subrange(5, 9)) == b.len() && buf.subrange(9, 9 + b.len() as int) == b,
            FV::Str(b) => buf.len() >= 9 + b.len() && un32(buf.subrange(5, 9)) == b.len() && buf.subrange(9, 9 + b.len() as int) == b && is_utf8(b),
            FV::List(l) => buf.len() >= 7 && l.len() <= 65535 && un16(buf.subrange(5, 7)) == l.len(),
            FV::Map(l) => buf.len() >= 7 && l.len() <= 65535 && un16(buf.subrange(5, 7)) == l.len(),
            FV::Set(l) => buf.len() >= 7 && l.len() <= 65535 && un16(buf.subrange(5, 7)) == l.len(),
            _ => true,
        } by {
        broadcast use group_be;
        lemma_fdenotes(buf, fv);
        let b = fv_body(fv);
        match fv {
            FV::Bytes(x) => lemma_sized32(buf, b, x),
            FV::Str(x) => lemma_sized32(buf, b, x),
            FV::List(l) => lemma_sized16(buf, b, enc_args(l), l.len()),
            FV::Map(l) => lemma_sized16(buf, b, enc_pairs(l), l.len()),
            FV::Set(l) => lemma_sized16(buf, b, enc_items(l), l.len()),
            _ => {},
        }
    }
}
pub proof fn lemma_sized32(buf: Seq<u8>, b: Seq<u8>, x: Seq<u8>)
    requires b == be32(x.len()) + x, buf.len() >= 5 + b.len(), buf.subrange(5, 5 + b.len() as int) == b, b.len() < 0x1_0000_0000,
    ensures un32(buf.subrange(5, 9)) == x.len(), buf.subrange(9, 9 + x.len() as int) == x,
{
    broadcast use group_be;
    lemma_un32_be32(x.len());
    assert(buf.subrange(5, 9) =~= b.subrange(0, 4));
    assert(be32(x.len()) =~= b.subrange(0, 4));
    assert(buf.subrange(9, 9 + x.len() as int) =~= b.skip(4));
    assert(x =~= b.skip(4));
}
pub proof fn lemma_sized16(buf: Seq<u8>, b: Seq<u8>, x: Seq<u8>, n: nat)
    requires b == be16(n) + x, buf.len() >= 5 + b.len(), buf.subrange(5, 5 + b.len() as int) == b, n <= 65535,
    ensures un16(buf.subrange(5, 7)) == n, buf.len() >= 7,
{
    broadcast use group_be;
    lemma_un16_be16(n);
    assert(buf.subrange(5, 7) =~= b.subrange(0, 2));
    assert(be16(n) =~= b.subrange(0, 2));
}
pub proof fn lemma_here_start(l: Seq<Seq<u8>>, xs: Seq<Seq<u8>>, ps: Seq<(Seq<u8>, Seq<u8>)>)
    ensures
        l.len() > 0 ==> here_list(l, seq![], l.len() as int, 7),
        xs.len() > 0 ==> here_set(xs, Set::empty(), xs.len() as int, 7),
        ps.len() > 0 ==> here_map(ps, Map::empty(), ps.len() as int, 7),
{
    reveal(here_list); reveal(here_set); reveal(here_map);
    assert(l.take(0) =~= seq![]);
    assert(xs.take(0).to_set() =~= Set::empty());
    assert(ps.take(0) =~= seq![]);
    assert(Map::<Seq<u8>, Seq<u8>>::empty().dom() =~= Set::empty());
}
=== impl command::response::context::Context
    pub proof fn see_list(&self, buf: Seq<u8>)
        requires self.stage is List, self.idx <= usize::MAX,
        ensures ({
            let (got, len, idx) = (deep(self.stage->List_args@), self.stage->List_len, self.idx as int);
            &&& forall|fv: FV| #[trigger] self.here(buf, fv) ==> fv is List && ({
                let x = fv->List_0[got.len() as int];
                &&& idx + 4 + x.len() <= buf.len() && un32(buf.subrange(idx, idx + 4)) == x.len() && buf.subrange(idx + 4, idx + 4 + x.len()) == x
                &&& got.len() + 1 == len ==> fv->List_0 == got.push(x)
                &&& got.len() + 1 <= len
            })
            &&& forall|fv: FV, s: Context| #[trigger] self.here(buf, fv) && !#[trigger] s.here(buf, fv) && s.stage is List ==>
                !(s.stage->List_len == len && got.len() + 1 < len && deep(s.stage->List_args@) == got.push(fv->List_0[got.len() as int]) && s.idx == idx + 4 + fv->List_0[got.len() as int].len())
        }),
    {
        reveal(Context::here);
        let (got, len, idx) = (deep(self.stage->List_args@), self.stage->List_len, self.idx as int);
        assert forall|fv: FV| #[trigger] self.here(buf, fv) implies fv is List && ({
                let x = fv->List_0[got.len() as int];
                &&& idx + 4 + x.len() <= buf.len() && un32(buf.subrange(idx, idx + 4)) == x.len() && buf.subrange(idx + 4, idx + 4 + x.len()) == x
                &&& got.len() + 1 == len ==> fv->List_0 == got.push(x)
                &&& got.len() + 1 < len ==> here_list(fv->List_0, got.push(x), len as int, idx + 4 + x.len())
                &&& got.len() + 1 <= len
            }) by {
            let l = fv->List_0;
            let x = lemma_next_arg(buf, l, got, len as int, idx);
            reveal(here_list);
            assert(x == l[got.len() as int]);
        }
    }
    pub proof fn see_set(&self, buf: Seq<u8>)
        requires self.stage is Set,
        ensures ({
            let (got, len, idx) = (self.stage->Set_args@, self.stage->Set_len, self.idx as int);
            &&& forall|fv: FV| #[trigger] self.here(buf, fv) ==> fv is Set && ({
                let x = fv->Set_0[got.len() as int];
                &&& idx + 2 + x.len() <= buf.len() && un16(buf.subrange(idx, idx + 2)) == x.len() && buf.subrange(idx + 2, idx + 2 + x.len()) == x
                &&& got.len() + 1 == len ==> fv->Set_0.to_set() == got.insert(x)
                &&& got.len() + 1 <= len && got.insert(x).len() == got.len() + 1
            })
            &&& forall|fv: FV, s: Context| #[trigger] self.here(buf, fv) && !#[trigger] s.here(buf, fv) && s.stage is Set ==>
                !(s.stage->Set_len == len && got.len() + 1 < len && s.stage->Set_args@ == got.insert(fv->Set_0[got.len() as int]) && s.idx == idx + 2 + fv->Set_0[got.len() as int].len())
        }),
    {
        reveal(Context::here);
        let (got, len, idx) = (self.stage->Set_args@, self.stage->Set_len, self.idx as int);
        assert forall|fv: FV| #[trigger] self.here(buf, fv) implies fv is Set && ({
                let x = fv->Set_0[got.len() as int];
                &&& idx + 2 + x.len() <= buf.len() && un16(buf.subrange(idx, idx + 2)) == x.len() && buf.subrange(idx + 2, idx + 2 + x.len()) == x
                &&& got.len() + 1 == len ==> fv->Set_0.to_set() == got.insert(x)
                &&& got.len() + 1 < len ==> here_set(fv->Set_0, got.insert(x), len as int, idx + 2 + x.len())
                &&& got.len() + 1 <= len && got.insert(x).len() == got.len() + 1
            }) by {
            let l = fv->Set_0;
            let x = lemma_next_item(buf, l, got, len as int, idx);
            reveal(here_set);
            assert(x == l[got.len() as int]);
        }
    }
    pub proof fn see_map(&self, buf: Seq<u8>)
        requires self.stage is Map,
        ensures ({
            let (got, len, idx) = (self.stage->map@, self.stage->Map_len, self.idx as int);
            &&& forall|fv: FV| #[trigger] self.here(buf, fv) ==> fv is Map && ({
                let p = fv->Map_0[got.dom().len() as int];
                let k = p.0.len() as int;
                &&& idx + 5 + k + p.1.len() <= buf.len()
                &&& buf.subrange(idx, idx + 1)[0] == k
                &&& buf.subrange(idx + 1, idx + 1 + k) == p.0
                &&& un32(buf.subrange(idx + 1 + k, idx + 5 + k)) == p.1.len()
                &&& buf.subrange(idx + 5 + k, idx + 5 + k + p.1.len()) == p.1
                &&& got.dom().len() + 1 == len ==> pairs_map(fv->Map_0) == got.insert(p.0, p.1)
                &&& got.dom().len() + 1 <= len && got.insert(p.0, p.1).dom().len() == got.dom().len() + 1
            })
            &&& forall|fv: FV, s: Context| #[trigger] self.here(buf, fv) && !#[trigger] s.here(buf, fv) && s.stage is Map ==>
                !(s.stage->Map_len == len && got.dom().len() + 1 < len && s.stage->map@ == got.insert(fv->Map_0[got.dom().len() as int].0, fv->Map_0[got.dom().len() as int].1)
                    && s.idx == idx + 5 + fv->Map_0[got.dom().len() as int].0.len() + fv->Map_0[got.dom().len() as int].1.len())
        }),
    {
        reveal(Context::here);
        let (got, len, idx) = (self.stage->map@, self.stage->Map_len, self.idx as int);
        assert forall|fv: FV| #[trigger] self.here(buf, fv) implies fv is Map && ({
                let p = fv->Map_0[got.dom().len() as int];
                let k = p.0.len() as int;
                &&& idx + 5 + k + p.1.len() <= buf.len()
                &&& buf.subrange(idx, idx + 1)[0] == k
                &&& buf.subrange(idx + 1, idx + 1 + k) == p.0
                &&& un32(buf.subrange(idx + 1 + k, idx + 5 + k)) == p.1.len()
                &&& buf.subrange(idx + 5 + k, idx + 5 + k + p.1.len()) == p.1
                &&& got.dom().len() + 1 == len ==> pairs_map(fv->Map_0) == got.insert(p.0, p.1)
                &&& got.dom().len() + 1 < len ==> here_map(fv->Map_0, got.insert(p.0, p.1), len as int, idx + 5 + k + p.1.len())
                &&& got.dom().len() + 1 <= len && got.insert(p.0, p.1).dom().len() == got.dom().len() + 1
            }) by {
            let l = fv->Map_0;
            let p = lemma_next_pair(buf, l, got, len as int, idx);
            reveal(here_map);
            assert(p == l[got.dom().len() as int]);
        }
    }
    pub proof fn see_type_init(&self, buf: Seq<u8>)
        requires self.stage is TypeInit,
        ensures
            deep(Seq::<Vec<u8>>::empty()) == Seq::<Seq<u8>>::empty(),
            forall|fv: FV| #[trigger] self.here(buf, fv) ==> self.stage->kind == fv_type(fv) && match fv {
                FV::Bytes(b) => buf.len() >= 9 && un32(buf.subrange(5, 9)) == b.len() && (b.len() == 0 ==> b =~= seq![]),
                FV::Str(b) => buf.len() >= 9 && un32(buf.subrange(5, 9)) == b.len() && (b.len() == 0 ==> un_utf8(b) =~= seq![]),
                FV::List(l) => buf.len() >= 7 && un16(buf.subrange(5, 7)) == l.len() && (l.len() == 0 ==> l =~= seq![]),
                FV::Map(l) => buf.len() >= 7 && un16(buf.subrange(5, 7)) == l.len() && (l.len() == 0 ==> pairs_map(l) =~= Map::empty()),
                FV::Set(l) => buf.len() >= 7 && un16(buf.subrange(5, 7)) == l.len() && (l.len() == 0 ==> l.to_set() =~= Set::empty()),
                _ => true,
            },
            forall|fv: FV, s: Context| #[trigger] self.here(buf, fv) && !#[trigger] s.here(buf, fv) ==> !(match s.stage {
                Stage::Bytes { len } => s.idx == 9 && fv is Bytes && len == fv->Bytes_0.len(),
                Stage::String { len } => s.idx == 9 && fv is Str && len == fv->Str_0.len(),
                Stage::List { args, len } => s.idx == 7 && fv is List && len == fv->List_0.len() && len > 0 && deep(args@) =~= seq![],
                Stage::Map { map, len } => s.idx == 7 && fv is Map && len == fv->Map_0.len() && len > 0 && map@ =~= Map::empty(),
                Stage::Set { args, len } => s.idx == 7 && fv is Set && len == fv->Set_0.len() && len > 0 && args@ =~= Set::empty(),
                _ => false,
            }),
    {
        reveal(Context::here);
        lemma_sized_all(buf);
        lemma_fdenotes_all(buf);
        assert(deep(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty());
        assert forall|fv: FV| #[trigger] self.here(buf, fv) && fv is Str && fv->Str_0.len() == 0 implies un_utf8(fv->Str_0) =~= seq![] by {
            broadcast use axiom_un_utf8;
            broadcast use axiom_utf8;
            let b = fv->Str_0;
            assert(is_utf8(b));
            assert(utf8(un_utf8(b)).len() == 0);
        }
        assert forall|fv: FV, s: Context| #[trigger] self.here(buf, fv) && !#[trigger] s.here(buf, fv) implies !(match s.stage {
                Stage::Bytes { len } => s.idx == 9 && fv is Bytes && len == fv->Bytes_0.len(),
                Stage::String { len } => s.idx == 9 && fv is Str && len == fv->Str_0.len(),
                Stage::List { args, len } => s.idx == 7 && fv is List && len == fv->List_0.len() && len > 0 && deep(args@) =~= seq![],
                Stage::Map { map, len } => s.idx == 7 && fv is Map && len == fv->Map_0.len() && len > 0 && map@ =~= Map::empty(),
                Stage::Set { args, len } => s.idx == 7 && fv is Set && len == fv->Set_0.len() && len > 0 && args@ =~= Set::empty(),
                _ => false,
            }) by {
            lemma_here_start(if fv is List { fv->List_0 } else { seq![] }, if fv is Set { fv->Set_0 } else { seq![] }, if fv is Map { fv->Map_0 } else { seq![] });
        }
    }
