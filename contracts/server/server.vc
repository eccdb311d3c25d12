=== drop
server::Config
server::main
server::handle_socket
=== by_ref
server::handle_socket_inner
=== calls
server dispatch vx_dispatch
=== mod server
#[allow(unused_imports)] use crate::vx_net::*;
=== sp of_server
/// One thing heard on a connection: a request, or bytes that aren't one; and what was said to it.
pub ghost struct Turn { pub q: Option<(CommandId, Option<KeyType>, Seq<Seq<u8>>)>, pub heard: Seq<u8>, pub said: Seq<u8>, pub m: Option<Metric> }
pub open spec fn fair(t: Turn) -> bool {
    match t.q {
        Some((c, k, a)) => args_ok(c, a) && t.heard == req_bytes(c, k, a) && (t.m matches Some(m) && answer(c, k, a, t.said, m)),
        None => t.m is None && exists|e: ParseError| #[trigger] bad(t.heard, e) && t.said == frame(FV::PErr(e)),
    }
}
pub open spec fn heard(log: Seq<Turn>) -> Seq<u8>
    decreases log.len(),
{ if log.len() == 0 { Seq::empty() } else { heard(log.drop_last()) + log.last().heard } }
pub open spec fn said(log: Seq<Turn>) -> Seq<u8>
    decreases log.len(),
{ if log.len() == 0 { Seq::empty() } else { said(log.drop_last()) + log.last().said } }
pub open spec fn counted(log: Seq<Turn>) -> Seq<Metric>
    decreases log.len(),
{
    if log.len() == 0 { Seq::empty() } else {
        match log.last().m { Some(m) => counted(log.drop_last()).push(m), None => counted(log.drop_last()) }
    }
}
/// The connection went through these turns, after what was before, and `rest` is yet to be answered.
#[verifier::opaque]
pub open spec fn talked(t0: Seq<u8>, w0: Seq<u8>, m0: Seq<Metric>, t1: Seq<u8>, w1: Seq<u8>, m1: Seq<Metric>, rest: Seq<u8>) -> bool {
    exists|log: Seq<Turn>| #[trigger] turns(log) && t1 == t0 + heard(log) + rest && w1 == w0 + said(log) && m1 == m0 + counted(log)
}
pub open spec fn turns(log: Seq<Turn>) -> bool { forall|i: int| 0 <= i < log.len() ==> #[trigger] fair(log[i]) }
pub proof fn lemma_talk_start(t: Seq<u8>, w: Seq<u8>, m: Seq<Metric>)
    ensures talked(t, w, m, t, w, m, Seq::empty()),
{
    reveal(talked);
    let log = Seq::<Turn>::empty();
    assert(turns(log));
    assert(t =~= t + heard(log) + Seq::<u8>::empty());
    assert(w =~= w + said(log));
    assert(m =~= m + counted(log));
}
/// More was read.
pub broadcast proof fn lemma_talk_more(t0: Seq<u8>, w0: Seq<u8>, m0: Seq<Metric>, t1: Seq<u8>, w1: Seq<u8>, m1: Seq<Metric>, rest: Seq<u8>, more: Seq<u8>, rest2: Seq<u8>)
    requires #[trigger] talked(t0, w0, m0, t1, w1, m1, rest), rest2.len() >= rest.len(), rest2.take(rest.len() as int) == rest, more == rest2.skip(rest.len() as int),
    ensures #[trigger] talked(t0, w0, m0, t1 + more, w1, m1, rest2),
{
    reveal(talked);
    let log = choose|log: Seq<Turn>| #[trigger] turns(log) && t1 == t0 + heard(log) + rest && w1 == w0 + said(log) && m1 == m0 + counted(log);
    assert(rest2 =~= rest + more);
    assert(t1 + more =~= t0 + heard(log) + rest2);
}
/// One more turn was taken.
pub proof fn lemma_talk_turn(t0: Seq<u8>, w0: Seq<u8>, m0: Seq<Metric>, t1: Seq<u8>, w1: Seq<u8>, m1: Seq<Metric>, rest: Seq<u8>, w2: Seq<u8>, m2: Seq<Metric>, rest2: Seq<u8>, t: Turn)
    requires talked(t0, w0, m0, t1, w1, m1, rest), fair(t), rest == t.heard + rest2, w2 == w1 + t.said, m2 == (match t.m { Some(m) => m1.push(m), None => m1 }),
    ensures talked(t0, w0, m0, t1, w2, m2, rest2),
{
    reveal(talked);
    let log = choose|log: Seq<Turn>| #[trigger] turns(log) && t1 == t0 + heard(log) + rest && w1 == w0 + said(log) && m1 == m0 + counted(log);
    let l2 = log.push(t);
    assert(l2.drop_last() =~= log);
    assert(l2.last() == t);
    assert forall|i: int| 0 <= i < l2.len() implies #[trigger] fair(l2[i]) by { if i < log.len() { assert(l2[i] == log[i]); assert(fair(log[i])); } }
    assert(turns(l2));
    assert(t1 =~= t0 + heard(l2) + rest2);
    assert(w2 =~= w0 + said(l2));
    assert(m2 =~= m0 + counted(l2));
}
/// The same, from what one round of the loop saw and did.
pub proof fn lemma_talk_round(t0: Seq<u8>, w0: Seq<u8>, m0: Seq<Metric>, t1: Seq<u8>, w1: Seq<u8>, m1: Seq<Metric>, rest: Seq<u8>, w2: Seq<u8>, m2: Seq<Metric>, rest2: Seq<u8>)
    requires talked(t0, w0, m0, t1, w1, m1, rest), took_turn(rest, w1, m1, rest2, w2, m2),
    ensures talked(t0, w0, m0, t1, w2, m2, rest2),
{
    let t = choose|t: Turn| #[trigger] fair(t) && rest == t.heard + rest2 && w2 == w1 + t.said && m2 == (match t.m { Some(m) => m1.push(m), None => m1 });
    lemma_talk_turn(t0, w0, m0, t1, w1, m1, rest, w2, m2, rest2, t);
}
pub open spec fn took_turn(rest: Seq<u8>, w1: Seq<u8>, m1: Seq<Metric>, rest2: Seq<u8>, w2: Seq<u8>, m2: Seq<Metric>) -> bool {
    exists|t: Turn| #[trigger] fair(t) && rest == t.heard + rest2 && w2 == w1 + t.said && m2 == (match t.m { Some(m) => m1.push(m), None => m1 })
}
/// A request was dispatched, and its answer written.
pub broadcast proof fn lemma_turn_request(rest: Seq<u8>, w1: Seq<u8>, m1: Seq<Metric>, rest2: Seq<u8>, w2: Seq<u8>, m2: Seq<Metric>, c: CommandId, k: Option<KeyType>, a: Seq<Seq<u8>>, said: Seq<u8>, m: Metric)
    requires #[trigger] denotes(rest, c, k, a), rest2 == rest.skip(req_bytes(c, k, a).len() as int), w2 == w1 + said, m2 == m1.push(m), #[trigger] answer(c, k, a, said, m),
    ensures #[trigger] took_turn(rest, w1, m1, rest2, w2, m2),
{
    let t = Turn { q: Some((c, k, a)), heard: req_bytes(c, k, a), said, m: Some(m) };
    assert(rest =~= t.heard + rest2);
    assert(fair(t));
}
pub broadcast proof fn lemma_turn_rejected(rest: Seq<u8>, w1: Seq<u8>, m1: Seq<Metric>, rest2: Seq<u8>, w2: Seq<u8>, m2: Seq<Metric>, e: ParseError)
    requires #[trigger] bad(rest, e), rest2.len() == 0, w2 == w1 + frame(FV::PErr(e)) || w2 == w1 + (Seq::<u8>::empty() + frame(FV::PErr(e))), m2 == m1,
    ensures #[trigger] took_turn(rest, w1, m1, rest2, w2, m2),
{
    let t = Turn { q: None, heard: rest, said: frame(FV::PErr(e)), m: None };
    assert(Seq::<u8>::empty() + frame(FV::PErr(e)) =~= frame(FV::PErr(e)));
    assert(rest =~= t.heard + rest2);
    assert(fair(t));
}
/// What is known of a dispatch into an empty response.
pub open spec fn tells_of(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, r1: Seq<u8>, d: Result<(), DispatchError>, m: Metric) -> bool {
    &&& exists|st0: St, st1: St, counts: Map<Metric, u64>| #[trigger] does(cmd, ccall(kt, args, st0, st1, r1, d), counts)
    &&& d is Ok ==> one_frame(r1) && m == Metric::CommandsSuccessful
    &&& d is Err ==> r1.len() == 0 && m == Metric::CommandsErrored
}
pub broadcast proof fn lemma_tells(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, r1: Seq<u8>, d: Result<(), DispatchError>, m: Metric)
    requires #[trigger] tells_of(cmd, kt, args, r1, d, m),
    ensures match d { Ok(_) => answer(cmd, kt, args, r1, m), Err(e) => answer(cmd, kt, args, frame(FV::DErr(e)), m) && frame(FV::DErr(e)) == Seq::<u8>::empty() + frame(FV::DErr(e)) },
{
    let (st0, st1, counts) = choose|st0: St, st1: St, counts: Map<Metric, u64>| #[trigger] does(cmd, ccall(kt, args, st0, st1, r1, d), counts);
    match d {
        Ok(_) => { assert(tells(r1, d, r1, m)); }
        Err(e) => { assert(tells(r1, d, frame(FV::DErr(e)), m)); assert(frame(FV::DErr(e)) =~= Seq::<u8>::empty() + frame(FV::DErr(e))); }
    }
}
/// The bytes of requests sent one after another.
pub open spec fn wire(qs: Seq<(CommandId, Option<KeyType>, Seq<Seq<u8>>)>) -> Seq<u8>
    decreases qs.len(),
{ if qs.len() == 0 { Seq::empty() } else { req_bytes(qs[0].0, qs[0].1, qs[0].2) + wire(qs.skip(1)) } }
pub proof fn lemma_heard_front(log: Seq<Turn>)
    requires log.len() > 0,
    ensures heard(log) == log[0].heard + heard(log.skip(1)),
    decreases log.len(),
{
    if log.len() == 1 {
        assert(log.drop_last() =~= Seq::<Turn>::empty());
        assert(log.skip(1) =~= Seq::<Turn>::empty());
        assert(heard(log) =~= log[0].heard + heard(log.skip(1)));
    } else {
        lemma_heard_front(log.drop_last());
        assert(log.drop_last().skip(1) =~= log.skip(1).drop_last());
        assert(heard(log) =~= log[0].heard + heard(log.skip(1)));
    }
}
pub proof fn lemma_turn_len(t: Turn)
    requires fair(t),
    ensures t.heard.len() > 0,
{ match t.q { Some((c, k, a)) => { lemma_head(c, k); lemma_req_head(c, k, a); } None => { } } }
/// C25: whatever chunks the bytes of some requests arrive in, the turns are those requests, in order,
/// each answered once, and nothing is left over.
pub proof fn theorem_c25_in_order(log: Seq<Turn>, rest: Seq<u8>, qs: Seq<(CommandId, Option<KeyType>, Seq<Seq<u8>>)>)
    requires
        turns(log), rest.len() == 0 || partial(rest), heard(log) + rest == wire(qs),
        forall|i: int| 0 <= i < qs.len() ==> args_ok((#[trigger] qs[i]).0, qs[i].2),
    ensures
        log.len() == qs.len(), rest.len() == 0,
        forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).q == Some(qs[i]),
        forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).m is Some && answer(qs[i].0, qs[i].1, qs[i].2, log[i].said, log[i].m.unwrap()),
    decreases qs.len(),
{
    let s = wire(qs);
    if qs.len() == 0 {
        if log.len() > 0 { assert(fair(log[0])); lemma_turn_len(log[0]); lemma_heard_front(log); assert(s.len() == 0); }
        assert(rest.len() <= s.len());
    } else {
        let (c, k, a) = qs[0];
        let r = req_bytes(c, k, a);
        assert(args_ok(qs[0].0, qs[0].2));
        lemma_head(c, k); lemma_req_head(c, k, a);
        assert(s =~= r + wire(qs.skip(1)));
        assert(s.take(r.len() as int) =~= r);
        assert(denotes(s, c, k, a));
        lemma_exclusive(s, c, k, a);
        if log.len() == 0 {
            assert(s =~= rest);
            assert(false);
        }
        lemma_heard_front(log);
        assert(fair(log[0]));
        lemma_turn_len(log[0]);
        let h = log[0].heard;
        assert(s =~= h + (heard(log.skip(1)) + rest));
        match log[0].q {
            None => {
                let e = choose|e: ParseError| #[trigger] bad(h, e) && log[0].said == frame(FV::PErr(e));
                assert(s[0] == h[0]);
                if h.len() > 1 { assert(s[1] == h[1]); }
                assert(bad(s, e));
            }
            Some((c2, k2, a2)) => {
                assert(s.take(h.len() as int) =~= h);
                assert(denotes(s, c2, k2, a2));
                lemma_unique(s, c, k, a, c2, k2, a2);
                assert(h == r);
            }
        }
        assert(s.skip(r.len() as int) =~= wire(qs.skip(1)));
        assert(s.skip(r.len() as int) =~= heard(log.skip(1)) + rest);
        assert forall|i: int| 0 <= i < log.skip(1).len() implies #[trigger] fair(log.skip(1)[i]) by { assert(fair(log[i + 1])); }
        assert(turns(log.skip(1)));
        assert forall|i: int| 0 <= i < qs.skip(1).len() implies args_ok((#[trigger] qs.skip(1)[i]).0, qs.skip(1)[i].2) by { assert(args_ok(qs[i + 1].0, qs[i + 1].2)); }
        theorem_c25_in_order(log.skip(1), rest, qs.skip(1));
        assert forall|i: int| 0 <= i < log.len() implies (#[trigger] log[i]).q == Some(qs[i]) && log[i].m is Some && answer(qs[i].0, qs[i].1, qs[i].2, log[i].said, log[i].m.unwrap()) by {
            if i > 0 { assert(log.skip(1)[i - 1] == log[i]); assert(qs.skip(1)[i - 1] == qs[i]); }
            else { assert(fair(log[0])); }
        }
    }
}
=== impl hop::Hop
    /// The engine's dispatch, called for a client's request. Assumed of the request: it names no internal
    /// and no empty key where the command needs one (known finding: those panic), and the sizes fit.
    pub fn vx_dispatch(&mut self, req: &Request, res: &mut Vec<u8>) -> (ret: Result<(), crate::command::error::Error>)
        requires req.wf(),
        ensures
            old(res)@.len() == 0 ==> exists|m: Metric| #[trigger] tells_of(req.cmd(), req.kt(), req.args_v(), final(res)@, ret, m)
                && final(self).log() == old(self).log().push(m),
    {
        let ghost h0 = *self; proof { assume(st_ok(self.st()) && req_ok(req) && small_ok(call(req, self, self, res@, res@, Ok(())), req.cmd(), self.0.metrics.counts())); }
        let ghost r0 = res@;
        let ret = self.dispatch(req, res);
        proof { if r0.len() == 0 { assert(r0 =~= Seq::<u8>::empty()); lemma_call(req, &h0, self, r0, res@, ret);
            assert(does(req.cmd(), ccall(req.kt(), req.args_v(), h0.st(), self.st(), res@, ret), h0.0.metrics.counts()));
            let m = if ret is Ok { Metric::CommandsSuccessful } else { Metric::CommandsErrored }; assert(tells_of(req.cmd(), req.kt(), req.args_v(), res@, ret, m)); } }
        ret
    }
    pub open spec fn log(&self) -> Seq<Metric> { self.0.metrics_writer.log() }
=== fn server::handle_socket_inner
    ensures ret is Ok ==> final(socket).over() && exists|rest: Seq<u8>| (rest.len() == 0 || partial(rest))
        && #[trigger] talked(old(socket).taken(), old(socket).written(), old(hop).log(), final(socket).taken(), final(socket).written(), final(hop).log(), rest),
--- attr
#[verifier::exec_allows_no_decreases_clause]
--- entry
    broadcast use lemma_talk_more, lemma_tells, lemma_turn_request, lemma_turn_rejected;
    let ghost vx_t0 = socket.taken(); let ghost vx_w0 = socket.written(); let ghost vx_m0 = hop.log();
    proof { lemma_talk_start(vx_t0, vx_w0, vx_m0); }
--- shape whilelet loop
--- loop-before 0
    proof { ctx.lemma_fresh(input@); assert(input@ =~= Seq::<u8>::empty()); assert(resp@ =~= Seq::<u8>::empty()); }
    let ghost mut vx_seen = input@;
--- loop 0
    invariant
        vx_seen == input@,
        talked(vx_t0, vx_w0, vx_m0, reader.taken(), writer.written(), hop.log(), input@),
        ctx.on(input@), resp@ == Seq::<u8>::empty(), input@.len() == 0 || partial(input@),
    ensures
        reader.over(),
--- loop-entry 0
    proof { ctx.lemma_more(vx_seen, input@.skip(vx_seen.len() as int)); assert(vx_seen + input@.skip(vx_seen.len() as int) =~= input@); }
--- loop-end 0
    proof { vx_seen = input@; }
--- loop 1
    invariant
        talked(vx_t0, vx_w0, vx_m0, reader.taken(), writer.written(), hop.log(), input@),
        ctx.on(input@), resp@ == Seq::<u8>::empty(),
    ensures
        input@.len() == 0 || partial(input@),
    decreases input@.len(),
--- loop-entry 1
    let ghost vx_in = input@; let ghost vx_w = writer.written(); let ghost vx_m = hop.log();
--- loop-end 1
    proof {
        lemma_talk_round(vx_t0, vx_w0, vx_m0, reader.taken(), vx_w, vx_m, vx_in, writer.written(), hop.log(), input@);
        ctx.lemma_fresh(input@);
        assert(resp@ =~= Seq::<u8>::empty());
    }
