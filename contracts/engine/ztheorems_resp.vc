=== sp
/// C06: a response written and fed to a fresh decoder concludes with an equal value.
pub fn theorem_c06(r: &Response, rest: Vec<u8>) -> (ret: Response)
    requires fv_fits(fv_of_resp(r)),
    ensures
        resp_is(ret, fv_of_resp(r)),
        resp_is(*r, fv_of_resp(r)),
        match *r {
            Response::DispatchError(e) => ret == Response::DispatchError(e),
            Response::ParseError(e) => ret == Response::ParseError(e),
            Response::Value(v) => ret is Value && ret->Value_0@ == v@,
        },
{
    let b = r.as_bytes();
    let mut all: Vec<u8> = Vec::new();
    all.extend_from_slice(b.as_slice());
    all.extend_from_slice(rest.as_slice());
    proof {
        lemma_resp_is(r);
        assert(all@ =~= b@ + rest@);
        assert(b@ =~= all@.take(b@.len() as int));
        assert(fdenotes(all@, fv_of_resp(r)));
    }
    let mut c = RContext::new();
    match c.feed(all.as_slice()) {
        Ok(Instruction::Concluded(x)) => x,
        _ => vx_unreachable(),
    }
}
/// C08: a fresh decoder asks for exactly what is missing of a frame, stays
/// ready, and concludes the frame (and the next one) once it is complete.
pub fn theorem_c08(Ghost(fv): Ghost<FV>, part: &[u8], whole: &[u8]) -> (ret: (usize, Response, Response))
    requires fstarts(part@, fv), fdenotes(whole@, fv),
    ensures ret.0 == fmissing(part@, fv), resp_is(ret.1, fv), resp_is(ret.2, fv),
{
    let mut c = RContext::new();
    let n = match c.feed(part) {
        Ok(Instruction::ReadBytes(n)) => n,
        _ => vx_unreachable(),
    };
    let r = match c.feed(whole) {
        Ok(Instruction::Concluded(x)) => x,
        _ => vx_unreachable(),
    };
    let r2 = match c.feed(whole) {
        Ok(Instruction::Concluded(x)) => x,
        _ => vx_unreachable(),
    };
    (n, r, r2)
}
/// C08: feeding ever longer prefixes of any bytes is always allowed.
pub fn theorem_c08_total(a: &[u8], b: &[u8])
    requires a@.len() <= b@.len(),
{
    let mut c = RContext::new();
    if let Ok(Instruction::ReadBytes(n)) = c.feed(a) {
        assert(n >= 1);
        let _ = c.feed(b);
    }
}
/// C07: two responses written one after the other are two frames.
pub fn theorem_c07(to: &mut Vec<u8>, a: &Response, b: &Response)
    requires fv_fits(fv_of_resp(a)), fv_fits(fv_of_resp(b)),
    ensures final(to)@ == old(to)@ + frame(fv_of_resp(a)) + frame(fv_of_resp(b)),
{
    a.copy_to(to);
    b.copy_to(to);
}
