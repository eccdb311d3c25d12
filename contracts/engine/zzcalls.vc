=== sp calls
/// What the engine does with one request, by the contract of its dispatch.
pub open spec fn does(cmd: CommandId, c: Call, counts: Map<Metric, u64>) -> bool {
    &&& match cmd {
        CommandId::Append => c_append(c),
        CommandId::DecrementBy => c_step(c, true, true),
        CommandId::Decrement => c_step(c, true, false),
        CommandId::IncrementBy => c_step(c, false, true),
        CommandId::Increment => c_step(c, false, false),
        CommandId::Delete => c_delete(c),
        CommandId::Echo => c_echo(c),
        CommandId::Exists => c_exists(c),
        CommandId::Get => c_get(c),
        CommandId::Is => c_is(c),
        CommandId::Keys => c_keys(c),
        CommandId::Rename => c_rename(c),
        CommandId::Set => c_set(c),
        CommandId::Stats => c_stats(c, counts),
        CommandId::Type => c_type(c),
        CommandId::Length => c_length(c),
    }
    &&& c.clean()
    &&& queries(cmd) ==> c.pure_()
    &&& if cmd is Rename { c.local2() } else { c.local() }
}
pub open spec fn numeric(cmd: CommandId) -> bool { cmd is DecrementBy || cmd is Decrement || cmd is IncrementBy || cmd is Increment }
pub open spec fn ccall(kt: Option<KeyType>, args: Seq<Seq<u8>>, st0: St, st1: St, r1: Seq<u8>, ret: Result<(), DispatchError>) -> Call {
    Call { kt, n: args.len() as int, k: args[0], rest: args.skip(1), args, st0, st1, r0: seq![], r1, ret }
}
/// What was written is a frame a client decodes.
pub broadcast proof fn lemma_wrote(r0: Seq<u8>, r1: Seq<u8>, v: ValueV)
    ensures r0 == Seq::<u8>::empty() && #[trigger] wrote(r0, r1, v) ==> exists|fv: FV| #[trigger] fdenotes(r1, fv) && fv_val(fv) == Some(v),
{
    if r0 == Seq::<u8>::empty() && wrote(r0, r1, v) {
        let fv = choose|fv: FV| r1 =~= r0 + #[trigger] frame(fv) && carries(fv, v);
        assert(r1 =~= frame(fv));
        assert(frame(fv) =~= r1.take(frame(fv).len() as int));
        assert(fdenotes(r1, fv));
    }
}
/// Every command that succeeds has written a value.
pub proof fn lemma_answers(cmd: CommandId, c: Call, counts: Map<Metric, u64>)
    requires does(cmd, c, counts), numeric(cmd) ==> c_number(c), c.ret is Ok,
    ensures exists|v: ValueV| #[trigger] wrote(c.r0, c.r1, v),
{ }
pub broadcast proof fn lemma_call(req: &Request, h0: &Hop, h1: &Hop, r0: Seq<u8>, r1: Seq<u8>, ret: Result<(), DispatchError>)
    ensures
        r0 == Seq::<u8>::empty() ==> #[trigger] call(req, h0, h1, r0, r1, ret) == ccall(req.kt(), req.args_v(), h0.st(), h1.st(), r1, ret),
        r0 == Seq::<u8>::empty() && ret is Ok && does(req.cmd(), call(req, h0, h1, r0, r1, ret), h0.0.metrics.counts())
            && (numeric(req.cmd()) ==> c_number(call(req, h0, h1, r0, r1, ret))) ==> exists|v: ValueV| #[trigger] wrote(r0, r1, v),
{
    let c = call(req, h0, h1, r0, r1, ret);
    if ret is Ok && does(req.cmd(), c, h0.0.metrics.counts()) && (numeric(req.cmd()) ==> c_number(c)) { lemma_answers(req.cmd(), c, h0.0.metrics.counts()); }
}
/// What a request is answered with: the one frame the engine wrote, or the frame of its error.
pub open spec fn answer(cmd: CommandId, kt: Option<KeyType>, args: Seq<Seq<u8>>, said: Seq<u8>, m: Metric) -> bool {
    exists|st0: St, st1: St, counts: Map<Metric, u64>, r1: Seq<u8>, d: Result<(), DispatchError>|
        #[trigger] does(cmd, ccall(kt, args, st0, st1, r1, d), counts) && tells(r1, d, said, m)
}
pub open spec fn tells(r1: Seq<u8>, d: Result<(), DispatchError>, said: Seq<u8>, m: Metric) -> bool {
    match d {
        Ok(_) => said == r1 && one_frame(said) && m == Metric::CommandsSuccessful,
        Err(e) => said == frame(FV::DErr(e)) && m == Metric::CommandsErrored,
    }
}
/// The value frame that is all of the bytes.
pub open spec fn one_frame(said: Seq<u8>) -> bool { exists|v: ValueV| #[trigger] wrote(Seq::<u8>::empty(), said, v) }
