=== fn command::request::Request::From<RequestBuilder>::from
    ensures builder.wf() ==> ret.wf() && ret.cmd() == builder.cmd() && ret.kt() == builder.kt() && ret.args_v() == builder.args_v(),
=== sp
// Compositions of the contracts: each is a caller of the code under contract, checked
// against the contracts only.
/// C01: what was built, followed by anything, parses back to the same request.
pub fn theorem_c01(builder: RequestBuilder, more: &[u8])
    requires builder.wf(),
{
    broadcast use group_cow;
    let ghost (c, k, a) = (builder.cmd(), builder.kt(), builder.args_v());
    let built = builder.into_request();
    proof { built.lemma_facts(); }
    let bytes = built.into_bytes();
    let mut buf: Vec<u8> = Vec::new();
    match &bytes {
        Cow::Borrowed(b) => buf.extend_from_slice(b),
        Cow::Owned(b) => buf.extend_from_slice(b.as_slice()),
    }
    buf.extend_from_slice(more);
    proof {
        assert(buf@ =~= req_bytes(c, k, a) + more@);
        lemma_built_denotes(req_bytes(c, k, a), more@, c, k, a);
        lemma_exclusive(buf@, c, k, a);
    }
    let mut ctx = Context::new();
    proof { ctx.lemma_fresh(buf@); }
    match ctx.feed(buf.as_slice()) {
        Ok(Some(r)) => {
            proof { lemma_unique(buf@, c, k, a, r.cmd(), r.kt(), r.args_v()); }
            assert(r.cmd() == c && r.kt() == k && r.args_v() == a);
            let all = r.as_bytes();
            assert(all@ == req_bytes(c, k, a));
        }
        _ => { vx_unreachable() }
    }
}
/// C02: two chunks or one, the outcome is that of the whole, and the parser can go on.
pub fn theorem_c02(first: &[u8], whole: &[u8])
    requires is_prefix(first@, whole@),
{
    let mut ctx = Context::new();
    proof { ctx.lemma_fresh(first@); }
    let ghost d = exists|c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>| #[trigger] denotes(whole@, c, k, a);
    let more = match ctx.feed(first) {
        Ok(Some(r)) => {
            proof { lemma_exclusive(first@, r.cmd(), r.kt(), r.args_v()); }
            false
        }
        Ok(None) => true,
        Err(e) => {
            proof { lemma_bad_not_partial(first@, e); }
            assert(!partial(first@));
            false
        }
    };
    if more {
        assert(partial(first@));
        proof {
            ctx.lemma_more(first@, whole@.skip(first@.len() as int));
            assert(first@ + whole@.skip(first@.len() as int) =~= whole@);
        }
        match ctx.feed(whole) {
            Ok(Some(r)) => { assert(denotes(whole@, r.cmd(), r.kt(), r.args_v())); }
            Ok(None) => { assert(partial(whole@)); }
            Err(e) => { assert(bad(whole@, e)); }
        }
    }
}
=== sp
/// C03: a request turned back into a builder goes on like the builder it was.
pub fn theorem_c03(builder: RequestBuilder) -> (r: RequestBuilder)
    requires builder.wf(),
    ensures r.wf(), r.cmd() == builder.cmd(), r.kt() == builder.kt(), r.args_v() == builder.args_v(),
{
    let q = Request::from(builder);
    RequestBuilder::from(q)
}
