//! C01 to C05.
use crate::{ensure, ensure_eq, model::{self, *}, util::*};
use hop_engine::{
    command::{
        request::{Argument, Arguments, Context, ParseError, Request, RequestBuilder, RequestBuilderError},
        CommandId,
    },
    dashmap::{DashMap, DashSet},
    state::KeyType,
};

pub fn any_cmd(r: &mut Rng) -> CommandId {
    r.pick(&COMMANDS).0
}
pub fn any_kt(r: &mut Rng) -> Option<KeyType> {
    if r.chance(3) {
        None
    } else {
        Some(r.pick(&KEY_TYPES).0)
    }
}
/// Non-empty arguments for a builder.
pub fn any_args(r: &mut Rng, idx: u64, min_len: usize) -> Vec<Vec<u8>> {
    let n = match r.below(12) {
        0 => 0,
        1 => 255,
        2 => 254,
        3 => r.range(100, 255),
        4 => r.range(4, 40),
        _ => r.range(0, 6),
    };
    let big = idx % 23 == 0;
    (0..n)
        .map(|i| {
            let len = match r.below(12) {
                0 => min_len,
                1 => 255,
                2 => 256,
                3 if big && i < 3 => *r.pick(&[65535, 65536, 65537, 70000]),
                4 => r.range(8, 60),
                _ => r.range(1, 9),
            };
            let len = if n > 100 { len.min(20) } else { len };
            r.bytes(len.max(min_len))
        })
        .collect()
}

fn same(req: &Request<'_>, cmd: CommandId, kt: Option<KeyType>, args: &[Vec<u8>], what: &str) -> R {
    ensure_eq!(req.command_id(), cmd, "{}: command", what);
    ensure_eq!(req.key_type(), kt, "{}: key type", what);
    ensure_eq!(req.arg_count(), args.len(), "{}: argument count", what);
    for (i, a) in args.iter().enumerate() {
        ensure!(req.arg(i) == Some(a.as_slice()), "{}: argument {} is {:?}, expected {}", what, i,
            req.arg(i).map(show), show(a));
    }
    for i in [args.len(), args.len() + 1, 256, usize::MAX] {
        ensure!(i < args.len() || req.arg(i).is_none(), "{}: there's an argument {}", what, i);
    }
    let all: Vec<Vec<u8>> = req.args(..).map(|a| a.map(|x| x.to_vec()).collect()).unwrap_or_default();
    ensure!(all == args, "{}: all arguments are {}", what, shows(&all));
    Ok(())
}

fn build(cmd: CommandId, kt: Option<KeyType>, args: &[Vec<u8>]) -> Result<RequestBuilder, String> {
    let mut b = RequestBuilder::new_with_key_type(cmd, kt);
    for a in args {
        b.bytes(a.clone()).map_err(|e| format!("refused an argument of {} bytes: {:?}", a.len(), e))?;
    }
    Ok(b)
}

pub fn c01(r: &mut Rng, idx: u64) -> R {
    // Every command and key type without and with few arguments first.
    let n_enum = 16 * 9 * 3;
    let (cmd, kt, mut args) = if idx < n_enum {
        let kt = (idx / 16 % 9) as usize;
        (
            COMMANDS[(idx % 16) as usize].0,
            if kt == 8 { None } else { Some(KEY_TYPES[kt].0) },
            (0..idx / 144).map(|_| r.bytes(1)).collect(),
        )
    } else {
        (any_cmd(r), any_kt(r), any_args(r, idx, 1))
    };
    if is_simple(cmd) {
        args.clear();
    }
    note(format!("build {:?} {:?} {} and parse it back", cmd, kt, shows(&args)));
    let b = if kt.is_none() && r.chance(2) {
        let mut b = RequestBuilder::new(cmd);
        for a in &args {
            b.bytes(a.as_slice()).map_err(|e| format!("refused: {:?}", e))?;
        }
        b
    } else {
        build(cmd, kt, &args)?
    };
    let req = b.into_request();
    same(&req, cmd, kt, &args, "the built request")?;
    let bytes = req.as_bytes().to_vec();
    let tail_len = r.below(12);
    let tail = r.bytes(tail_len);
    let mut buf = bytes.clone();
    buf.extend_from_slice(&tail);
    let mut ctx = Context::new();
    // Once exactly, once with bytes following it, with the same parser.
    for (buf, what) in [(&bytes, "alone"), (&buf, "followed by bytes"), (&bytes, "again")] {
        match ctx.feed(buf) {
            Ok(Some(p)) => {
                same(&p, cmd, kt, &args, what)?;
                ensure!(p.as_bytes() == bytes.as_slice(), "{}: bytes of the parsed request differ", what);
                ensure!(p == req, "{}: parsed request isn't equal to the built one", what);
            }
            o => return Err(format!("{}: {:?} for a built request", what, o)),
        }
    }
    Ok(())
}

fn outcome(x: &Result<Option<Request<'_>>, ParseError>) -> Parsed {
    match x {
        Ok(None) => Parsed::Incomplete,
        Err(ParseError::CommandIdInvalid) => Parsed::BadCommand,
        Err(ParseError::KeyTypeInvalid) => Parsed::BadKeyType,
        Ok(Some(q)) => Parsed::Done(
            q.command_id(),
            q.key_type(),
            (0..q.arg_count()).map(|i| q.arg(i).map(<[u8]>::to_vec).unwrap_or_else(|| b"<missing>".to_vec())).collect(),
            q.as_bytes().len(),
        ),
    }
}

fn shown(p: &Parsed) -> String {
    match p {
        Parsed::Done(c, k, a, n) => format!("{:?} {:?} {} of {} bytes", c, k, shows(a), n),
        p => format!("{:?}", p),
    }
}

fn check_parse(ctx: &mut Context, buf: &[u8], what: &str) -> Result<Parsed, String> {
    let want = model::parse(buf);
    let res = ctx.feed(buf);
    let got = outcome(&res);
    ensure!(got == want, "{} of {} bytes {}: expected {}, got {}", what, buf.len(), show(buf), shown(&want), shown(&got));
    if let Ok(Some(q)) = &res {
        ensure!(q.as_bytes() == &buf[..q.as_bytes().len()], "the request's bytes aren't those fed");
    }
    Ok(want)
}

pub fn c02_input(r: &mut Rng, idx: u64) -> Vec<u8> {
    let cmd = any_cmd(r);
    let kt = any_kt(r);
    let min = r.below(2);
    let mut args = any_args(r, 1, min);
    if args.len() > 12 && !r.chance(6) {
        args.truncate(5);
    }
    let mut b = model::encode(cmd, kt, &args);
    match idx % 8 {
        0 => {
            // Corrupt a byte.
            let at = r.below(b.len().min(20));
            b[at] = match r.below(3) {
                0 => 0,
                1 => b[at].wrapping_add(1),
                _ => r.byte(),
            };
        }
        1 => {
            let n = r.below(20);
            b = r.bytes(n);
        }
        2 => {
            // A huge length.
            b.extend_from_slice(&[0xff; 6]);
            let n = b.len();
            let at = r.below(n);
            for x in b.iter_mut().skip(at).take(4) {
                *x = 0xff;
            }
        }
        3 => {
            let n = r.below(9);
            let t = r.bytes(n);
            b.extend(t);
        }
        4 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        _ => {}
    }
    b
}

pub fn c02(r: &mut Rng, idx: u64) -> R {
    if idx < 256 {
        // Every first byte with every second and some third byte.
        for second in 0..=255u8 {
            for third in [0u8, 1, 2, 255] {
                let b = [idx as u8, second, third, 0, 0, 0];
                note(format!("feed {} byte by byte", show(&b)));
                let mut ctx = Context::new();
                for n in 0..=b.len() {
                    match check_parse(&mut ctx, &b[..n], "prefix")? {
                        Parsed::Incomplete => {}
                        _ => break,
                    }
                }
            }
        }
        return Ok(());
    }
    let b = c02_input(r, idx);
    note(format!("feed {} in growing prefixes", show(&b)));
    let mut ctx = Context::new();
    // One byte at a time, unless it is long.
    let mut n = 0;
    let one = r.chance(2);
    let big = b.len() > 600;
    loop {
        let p = check_parse(&mut ctx, &b[..n], "prefix")?;
        match p {
            Parsed::Incomplete => {}
            Parsed::Done(_, _, _, used) => {
                // Ready for the next one.
                let rest = &b[used..];
                check_parse(&mut ctx, rest, "after a finished request, the rest")?;
                break;
            }
            _ => break,
        }
        if n == b.len() {
            break;
        }
        // The parser repeats nothing: the same bytes again are still incomplete.
        if r.chance(4) {
            check_parse(&mut ctx, &b[..n], "the same prefix again,")?;
        }
        n += if big { r.range(1, 90) } else if one { 1 } else { r.range(1, 7) };
        n = n.min(b.len());
    }
    // All at once, and split once at every position of a short request.
    check_parse(&mut Context::new(), &b, "everything at once,")?;
    if b.len() < 40 {
        for cut in 0..b.len() {
            let mut ctx = Context::new();
            if check_parse(&mut ctx, &b[..cut], "first part")? == Parsed::Incomplete {
                check_parse(&mut ctx, &b, "then everything,")?;
            }
        }
    }
    // Many requests one after the other with one parser.
    if idx % 5 == 0 {
        let mut ctx = Context::new();
        for i in 0..4 {
            let b = c02_input(r, 3 + i);
            note_more(&format!("then feed {} whole", show(&b)));
            match check_parse(&mut ctx, &b, "request after request,")? {
                Parsed::Done(..) => {}
                _ => ctx = Context::new(),
            }
        }
    }
    Ok(())
}

/// The arguments a value is given as; for maps and sets any order will do.
fn value_args(v: &MV) -> Vec<Vec<u8>> {
    match v {
        MV::Bool(b) => vec![vec![*b as u8]],
        MV::Bytes(b) => vec![b.clone()],
        MV::Float(f) => vec![f.to_be_bytes().to_vec()],
        MV::Int(i) => vec![i.to_be_bytes().to_vec()],
        MV::List(l) => l.clone(),
        MV::Map(m) => m.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect(),
        MV::Set(s) => s.iter().cloned().collect(),
        MV::Str(s) => vec![s.clone().into_bytes()],
    }
}

fn sorted(v: &MV, mut args: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    match v {
        MV::Map(_) => {
            let mut p: Vec<Vec<Vec<u8>>> = args.chunks(2).map(<[_]>::to_vec).collect();
            p.sort();
            p.concat()
        }
        MV::Set(_) => {
            args.sort();
            args
        }
        _ => args,
    }
}

fn args_of(b: &RequestBuilder) -> Vec<Vec<u8>> {
    let q = b.clone().into_request();
    (0..q.arg_count()).map(|i| q.arg(i).map(<[u8]>::to_vec).unwrap_or_default()).collect()
}

pub fn c03(r: &mut Rng, idx: u64) -> R {
    let cmd = if idx % 7 == 0 { CommandId::Stats } else { any_cmd(r) };
    let kt = any_kt(r);
    note(format!("builder for {:?} {:?}", cmd, kt));
    let mut b = if kt.is_none() && r.chance(2) { RequestBuilder::new(cmd) } else { RequestBuilder::new_with_key_type(cmd, kt) };
    // The same, never converted.
    let mut plain = b.clone();
    let mut args: Vec<Vec<u8>> = Vec::new();
    if idx % 3 == 0 && !is_simple(cmd) {
        // Start close to the limit.
        let n = r.range(240, 255);
        note_more(&format!("{} arguments \"x\"", n));
        for _ in 0..n {
            b.bytes(b"x".to_vec()).map_err(|e| format!("refused: {:?}", e))?;
            plain.bytes(b"x".to_vec()).map_err(|e| format!("refused: {:?}", e))?;
            args.push(b"x".to_vec());
        }
    }
    if idx % 61 == 0 && !is_simple(cmd) && args.len() < 250 {
        // Larger than any 2 byte number.
        let n = *r.pick(&[65_500usize, 65_535, 65_536, 70_000, 140_000]);
        for n in [n, 3] {
            let a = r.bytes(n);
            note_more(&format!("an argument of {} bytes", n));
            b.bytes(a.clone()).map_err(|e| format!("refused: {:?}", e))?;
            plain.bytes(a.clone()).map_err(|e| format!("refused: {:?}", e))?;
            args.push(a);
        }
    }
    for _ in 0..if idx % 61 == 0 { 5 } else { r.range(1, 20) } {
        let before = b.clone();
        if r.chance(5) {
            note_more("convert to a request and back");
            let q: Request<'static> = b.clone().into();
            let again = RequestBuilder::from(q);
            ensure!(again == b, "converting to a request and back gave {:?} instead of {:?}", again, b);
            // And through the parser.
            let q = b.clone().into_request();
            let bytes = q.as_bytes().to_vec();
            let mut ctx = Context::new();
            match ctx.feed(&bytes) {
                Ok(Some(q)) => {
                    let again = RequestBuilder::from(q);
                    ensure!(again == b, "converting a parsed request gave {:?} instead of {:?}", again, b);
                    b = again;
                }
                o => return Err(format!("parsing what was built: {:?}", o)),
            }
            continue;
        }
        let (res, v, is_value) = if r.chance(2) {
            let n = if r.chance(4) { 0 } else if r.chance(12) { *r.pick(&[127, 128, 255, 256, 257, 300]) } else { r.range(1, 9) };
            let a = r.bytes(n);
            note_more(&format!("bytes {}", show(&a)));
            plain.bytes(a.clone()).map(|_| ()).ok();
            (b.bytes(a.clone()).map(|_| ()), MV::Bytes(a), false)
        } else {
            let most = if r.chance(6) { 280 } else { 14 };
            let mut v = model::value(r, most);
            if r.chance(2) {
                // Without empty items, so that it is mostly accepted.
                v = match v {
                    MV::List(l) => MV::List(l.into_iter().filter(|x| !x.is_empty()).collect()),
                    MV::Set(l) => MV::Set(l.into_iter().filter(|x| !x.is_empty()).collect()),
                    MV::Map(l) => MV::Map(l.into_iter().filter(|(k, v)| !k.is_empty() && !v.is_empty()).collect()),
                    v => v,
                };
            }
            note_more(&format!("value {}", v.show()));
            (b.value(v.to()).map(|_| ()), v, true)
        };
        let new = value_args(&v);
        let over = args.len() + new.len() > 255 || (is_simple(cmd) && !new.is_empty());
        let empty = new.is_empty() || new.iter().any(Vec::is_empty);
        match &res {
            Ok(()) => {
                ensure!(!over, "accepted more than 255 arguments, or any on a simple command ({} + {})", args.len(), new.len());
                ensure!(!empty, "accepted an empty argument or value");
                let now = args_of(&b);
                ensure_eq!(now.len(), args.len() + new.len(), "number of arguments");
                ensure!(now[..args.len()] == args[..], "the arguments before changed");
                let added = now[args.len()..].to_vec();
                ensure!(sorted(&v, added.clone()) == sorted(&v, new.clone()), "added {} for {}", shows(&added), v.show());
                args = now;
                if is_value {
                    for a in &added {
                        plain.bytes(a.clone()).map_err(|e| format!("refused: {:?}", e))?;
                    }
                }
            }
            Err(e) => {
                ensure!(over || empty, "refused with {:?} though it fits", e);
                let fits = match e {
                    RequestBuilderError::TooManyArguments => over,
                    RequestBuilderError::ValueEmpty => empty && is_value,
                    RequestBuilderError::ArgumentEmpty => empty && !is_value,
                };
                ensure!(fits, "refused with {:?}, with {} arguments for {}", e, args.len(), v.show());
                ensure!(b == before, "a refused argument changed the builder from {:?} to {:?}", before, b);
            }
        }
        let q = b.clone().into_request();
        same(&q, cmd, kt, &args, "the builder")?;
    }
    ensure!(plain.clone().into_request() == b.clone().into_request(), "with conversions {:?}, without {:?}", b, plain);
    ensure_eq!(*b.command_id_ref(), cmd, "command_id_ref");
    ensure_eq!(b.key_type_ref().copied(), kt, "key_type_ref");
    let bytes = b.into_request().into_bytes().into_owned();
    match model::parse(&bytes) {
        Parsed::Done(c, k, a, n) => {
            ensure!(c == cmd && k == kt && a == args && n == bytes.len(), "the bytes built are {}", show(&bytes))
        }
        o => return Err(format!("the bytes built are {:?}", o)),
    }
    Ok(())
}

fn check_range(what: &str, got: Option<Arguments<'_>>, want: Option<Vec<&[u8]>>) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(mut g), Some(w)) => {
            for i in 0..=w.len() + 1 {
                let left = w.len().saturating_sub(i);
                ensure_eq!(g.len(), left, "{}: length after {}", what, i);
                ensure_eq!(g.size_hint().0.min(left), g.size_hint().0, "{}: size hint", what);
                let x = g.next();
                ensure!(x == w.get(i).copied(), "{}: item {} is {:?}, expected {:?}", what, i, x.map(show), w.get(i).map(|x| show(x)));
            }
            Ok(())
        }
        (g, w) => Err(format!("{}: got {:?}, expected {:?} items", what, g, w.map(|w| w.len()))),
    }
}

/// Requests with arguments of any length, from the parser (empty ones too) or
/// the builder.
fn with_request(r: &mut Rng, cmd: CommandId, kt: Option<KeyType>, args: &[Vec<u8>], f: &mut dyn FnMut(&mut Rng, &Request<'_>) -> R) -> R {
    let mut bytes = model::encode(cmd, kt, args);
    let len = bytes.len();
    let n = r.below(5);
    bytes.extend(r.bytes(n));
    let mut ctx = Context::new();
    match ctx.feed(&bytes) {
        Ok(Some(q)) => {
            ensure!(q.as_bytes() == &bytes[..len], "parsed request: wrong bytes");
            f(r, &q)?;
            let q2 = q.clone();
            ensure!(q2.into_bytes()[..] == bytes[..len], "into_bytes differs");
        }
        o => return Err(format!("parsing a well-formed request: {:?}", o)),
    }
    if args.iter().all(|a| !a.is_empty()) {
        let q = build(cmd, kt, args)?.into_request();
        ensure!(q.as_bytes() == &bytes[..len], "built request: wrong bytes {}", show(q.as_bytes()));
        f(r, &q)?;
    }
    Ok(())
}

pub fn c04(r: &mut Rng, idx: u64) -> R {
    let cmd = COMMANDS[(idx % 16) as usize].0;
    let kt = any_kt(r);
    let min = r.below(2);
    let mut args = any_args(r, idx, min);
    if is_simple(cmd) {
        args.clear();
    }
    note(format!("{:?} {:?} {}", cmd, kt, shows(&args)));
    let a2 = args.clone();
    with_request(r, cmd, kt, &args, &mut |r, q| {
        same(q, cmd, kt, &a2, "request")?;
        let key = if takes_key(cmd) { a2.first().map(Vec::as_slice) } else { None };
        ensure!(q.key() == key, "key is {:?}", q.key().map(show));
        let slice = |from: usize, to: usize| -> Option<Vec<&[u8]>> {
            if a2.is_empty() {
                return None;
            }
            let to = to.min(a2.len());
            let from = from.min(to);
            Some(a2[from..to].iter().map(Vec::as_slice).collect())
        };
        let n = a2.len();
        check_range("..", q.args(..), slice(0, n))?;
        let mut points: Vec<usize> = vec![0, 1, 2, n.saturating_sub(1), n, n + 1, 255, 256, usize::MAX - 1, usize::MAX];
        points.push(r.below(n + 2));
        points.push(r.below(n + 2));
        for &a in &points {
            check_range(&format!("{}..", a), q.args(a..), slice(a, n))?;
            check_range(&format!("..{}", a), q.args(..a), slice(0, a))?;
            check_range(&format!("..={}", a), q.args(..=a), slice(0, a.saturating_add(1)))?;
            let b = *r.pick(&points);
            check_range(&format!("{}..{}", a, b), q.args(a..b), slice(a, b))?;
            check_range(&format!("{}..={}", a, b), q.args(a..=b), slice(a, b.saturating_add(1)))?;
            use std::ops::Bound;
            check_range(
                &format!("excluded {}..{}", a, b),
                q.args((Bound::Excluded(a), Bound::Excluded(b))),
                slice(a.saturating_add(1), b),
            )?;
        }
        Ok(())
    })
}

fn typed(q: &Request<'_>, i: usize, a: &[u8]) -> R {
    ensure_eq!(q.typed_arg::<bool>(i), a.first().map(|b| *b != 0), "argument {} as a boolean", i);
    let n = if a.len() >= 8 { Some(u64::from_be_bytes(a[..8].try_into().unwrap())) } else { None };
    ensure_eq!(q.typed_arg::<i64>(i), n.map(|n| n as i64), "argument {} as an integer", i);
    ensure_eq!(q.typed_arg::<f64>(i).map(f64::to_bits), n, "argument {} as a float", i);
    ensure!(q.typed_arg::<&[u8]>(i) == Some(a), "argument {} as bytes", i);
    ensure!(q.typed_arg::<&str>(i) == std::str::from_utf8(a).ok(), "argument {} as a string", i);
    ensure_eq!(<bool as Argument>::convert(a), a.first().map(|b| *b != 0), "bytes as a boolean");
    Ok(())
}

pub fn c05(r: &mut Rng, idx: u64) -> R {
    let args: Vec<Vec<u8>> = if idx < 256 {
        // Every first byte and every length up to 10.
        let mut a: Vec<Vec<u8>> = (0..11usize)
            .map(|n| {
                let mut x: Vec<u8> = r.bytes(n);
                if n > 0 {
                    x[0] = idx as u8;
                }
                x
            })
            .collect();
        a.push(vec![idx as u8]);
        a
    } else {
        match idx % 6 {
            0 => (0..r.range(1, 5)).map(|_| r.string(20).into_bytes()).collect(),
            1 => {
                // Broken strings.
                let mut s = r.string(20).into_bytes();
                let n = s.len();
                if n > 0 {
                    let at = r.below(n);
                    s[at] = r.byte();
                    let cut = r.below(n + 1);
                    s.truncate(cut.max(1));
                }
                vec![b"k".to_vec(), s.clone(), s]
            }
            2 => {
                // Maps, with lengths around the limit and repeated keys.
                let n = r.below(9);
                let mut v = vec![b"key".to_vec()];
                for _ in 0..n {
                    let len = *r.pick(&[1usize, 1, 2, 254, 255, 256, 300]);
                    let len = if r.chance(3) { len } else { 1 };
                    v.push(vec![b'a' + r.below(3) as u8; len]);
                    let n = r.below(10);
                    v.push(r.bytes(n));
                }
                if r.chance(4) {
                    v.push(b"z".to_vec());
                }
                v
            }
            3 if idx % 4 == 3 => {
                let mut v = vec![b"key".to_vec()];
                for _ in 0..r.below(4) {
                    let n = *r.pick(&[1, 65534, 65535, 65536, 70000]);
                    v.push(r.bytes(n));
                }
                v
            }
            _ => {
                let min = r.below(2);
                any_args(r, 1, min)
            }
        }
    };
    let kt = any_kt(r);
    note(format!("set {:?} {}", kt, shows(&args)));
    let a2 = args.clone();
    with_request(r, CommandId::Set, kt, &args, &mut |_, q| {
        for (i, a) in a2.iter().enumerate() {
            typed(q, i, a)?;
        }
        let past = a2.len();
        ensure!(q.typed_arg::<bool>(past).is_none() && q.typed_arg::<i64>(past).is_none()
            && q.typed_arg::<&[u8]>(past).is_none() && q.typed_arg::<&str>(past).is_none()
            && q.typed_arg::<f64>(past).is_none(), "a value past the end");
        let rest: &[Vec<u8>] = a2.get(1..).unwrap_or(&[]);
        let map = q.typed_args::<DashMap<Vec<u8>, Vec<u8>>>().map(|m| m.into_iter().collect());
        let want = if a2.is_empty() { None } else { map_of(rest) };
        ensure!(map == want, "as a map: {:?}, expected {:?}", map.map(|m| MV::Map(m).show()), want.map(|m| MV::Map(m).show()));
        let set = q.typed_args::<DashSet<Vec<u8>>>().map(|s| s.into_iter().collect());
        let want = if a2.is_empty() { None } else { set_of(rest) };
        ensure!(set == want, "as a set: {:?}, expected {:?}", set.map(|m| MV::Set(m).show()), want.map(|m| MV::Set(m).show()));
        Ok(())
    })
}
