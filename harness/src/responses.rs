//! C06 to C08.
use crate::{ensure, ensure_eq, model::{self, *}, util::*};
use hop_engine::{
    command::{
        request::ParseError as RequestParseError,
        response::{self, Context, Instruction, Response},
        DispatchError,
    },
    dashmap::{DashMap, DashSet},
    state::Value,
};

pub const DISPATCH_ERRORS: [(DispatchError, u8); 8] = [
    (DispatchError::ArgumentRetrieval, 0),
    (DispatchError::KeyUnspecified, 1),
    (DispatchError::KeyTypeDifferent, 2),
    (DispatchError::KeyTypeUnexpected, 3),
    (DispatchError::PreconditionFailed, 4),
    (DispatchError::KeyNonexistent, 5),
    (DispatchError::KeyTypeRequired, 6),
    (DispatchError::KeyTypeInvalid, 7),
];
pub const REQUEST_ERRORS: [(RequestParseError, u8); 2] =
    [(RequestParseError::CommandIdInvalid, 0), (RequestParseError::KeyTypeInvalid, 1)];

pub fn err_code(e: DispatchError) -> u8 {
    DISPATCH_ERRORS.iter().find(|x| x.0 == e).unwrap().1
}

/// Something to respond with.
fn any(r: &mut Rng, idx: u64) -> Frame {
    if idx < 8 {
        return Frame::Dispatch(idx as u8);
    }
    if idx < 10 {
        return Frame::Parse(idx as u8 - 8);
    }
    let empty: [fn() -> MV; 24] = [
        || MV::Bytes(vec![]),
        || MV::List(vec![]),
        || MV::Map(Default::default()),
        || MV::Set(Default::default()),
        || MV::Str(String::new()),
        || MV::List(vec![vec![]]),
        || MV::Map([(vec![], vec![])].into_iter().collect()),
        || MV::Set([vec![]].into_iter().collect()),
        || MV::Map([(vec![7; 255], vec![1; 70000])].into_iter().collect()),
        || MV::Set([vec![9; 65535], vec![], vec![1]].into_iter().collect()),
        || MV::List(vec![vec![3; 70000], vec![], vec![0; 256]]),
        || MV::List(vec![vec![]; 65535]),
        || MV::Map((0..65535u32).map(|i| (i.to_be_bytes().to_vec(), vec![])).collect()),
        || MV::Set((0..65535u32).map(|i| i.to_be_bytes().to_vec()).collect()),
        || MV::Bytes(vec![5; 1 << 20]),
        || MV::Str("é".repeat(40000)),
        || MV::Bool(true),
        || MV::Bool(false),
        || MV::List((0..300u32).map(|i| i.to_be_bytes()[2..].to_vec()).collect()),
        || MV::Map((0..300u32).map(|i| (i.to_be_bytes()[2..].to_vec(), vec![i as u8; (i % 7) as usize])).collect()),
        || MV::Set((0..300u32).map(|i| i.to_be_bytes()[2..].to_vec()).collect()),
        || MV::Map((0..256u32).map(|i| (vec![i as u8; 3], vec![])).collect()),
        || MV::List(vec![vec![1]; 256]),
        || MV::Set((0..256u32).map(|i| vec![i as u8]).collect()),
    ];
    let i = idx as usize - 10;
    if i < empty.len() {
        return Frame::Value(empty[i]());
    }
    if r.chance(20) {
        return if r.chance(2) { Frame::Dispatch(r.below(8) as u8) } else { Frame::Parse(r.below(2) as u8) };
    }
    let size = if r.chance(10) { 600 } else { 40 };
    Frame::Value(model::value(r, size))
}

fn show_frame(f: &Frame) -> String {
    match f {
        Frame::Value(v) => v.show(),
        f => format!("{:?}", f),
    }
}

pub fn response(f: &Frame) -> Response {
    match f {
        Frame::Value(v) => Response::Value(v.to()),
        Frame::Dispatch(c) => Response::DispatchError(DISPATCH_ERRORS[*c as usize].0),
        Frame::Parse(c) => Response::ParseError(REQUEST_ERRORS[*c as usize].0),
    }
}

/// Writes through one of the ways there are.
fn write(way: usize, f: &Frame, to: &mut Vec<u8>) -> &'static str {
    match (way % 3, f) {
        (0, f) => {
            response(f).copy_to(to);
            "copy_to"
        }
        (1, f) => {
            to.extend(response(f).as_bytes());
            "as_bytes"
        }
        (_, Frame::Dispatch(c)) => {
            response::write_dispatch_error(to, DISPATCH_ERRORS[*c as usize].0);
            "write_dispatch_error"
        }
        (_, Frame::Parse(c)) => {
            response::write_parse_error(to, REQUEST_ERRORS[*c as usize].0);
            "write_parse_error"
        }
        (_, Frame::Value(v)) if way % 2 == 0 => {
            response::write_value(to, &v.to());
            "write_value"
        }
        (_, Frame::Value(v)) => {
            match v.to() {
                Value::Boolean(x) => response::write_bool(to, x),
                Value::Bytes(x) => response::write_bytes(to, &x),
                Value::Float(x) => response::write_float(to, x),
                Value::Integer(x) => response::write_int(to, x),
                Value::List(x) => {
                    if way % 4 == 1 {
                        response::write_list(to, x.iter())
                    } else {
                        response::write_list(to, x)
                    }
                }
                Value::Map(x) => response::write_map(to, &x),
                Value::Set(x) => response::write_set(to, &x),
                Value::String(x) => response::write_str(to, &x),
            }
            "write_*"
        }
    }
}

fn concluded(r: &Response) -> Frame {
    match r {
        Response::Value(v) => Frame::Value(MV::of(v)),
        Response::DispatchError(e) => Frame::Dispatch(err_code(*e)),
        Response::ParseError(e) => Frame::Parse(REQUEST_ERRORS.iter().find(|x| x.0 == *e).unwrap().1),
    }
}

fn expect(ctx: &mut Context, buf: &[u8], want: &Frame, what: &str) -> R {
    match ctx.feed(buf) {
        Ok(Instruction::Concluded(r)) => {
            let got = concluded(&r);
            ensure!(got == *want, "{}: expected {}, decoded {}", what, show_frame(want), show_frame(&got));
            Ok(())
        }
        Ok(Instruction::ReadBytes(n)) => Err(format!("{}: asks for {} more bytes of a whole frame of {}", what, n, show_frame(want))),
        Err(e) => Err(format!("{}: {:?} for {}", what, e, show_frame(want))),
    }
}

pub fn c06(r: &mut Rng, idx: u64) -> R {
    let f = any(r, idx);
    note(format!("encode and decode {}", show_frame(&f)));
    let mut buf = Vec::new();
    let way = r.below(12);
    write(way, &f, &mut buf);
    let mut ctx = Context::new();
    expect(&mut ctx, &buf, &f, "fresh decoder")?;
    // The same frame again, and another with the same decoder.
    expect(&mut ctx, &buf, &f, "same decoder")?;
    let at = r.next() % 4000 + 34;
    let g = any(r, at);
    let mut buf2 = Vec::new();
    write(way + 1, &g, &mut buf2);
    note_more(&format!("then {}", show_frame(&g)));
    expect(&mut ctx, &buf2, &g, "next frame")
}

pub fn c07(r: &mut Rng, idx: u64) -> R {
    let f = any(r, idx);
    note(format!("write {}", show_frame(&f)));
    for way in 0..12 {
        if way > 3 && idx < 40 && way % 5 != 0 {
            continue;
        }
        let n = *r.pick(&[0usize, 0, 1, 3, 4, 5, 7, 40]);
        let before = r.bytes(n);
        let mut buf = before.clone();
        let how = write(way, &f, &mut buf);
        ensure!(buf.len() >= n && buf[..n] == before[..], "{} changed the {} bytes before", how, n);
        let got = model::frame(&buf[n..]).map_err(|e| format!("{}: {}", how, e))?;
        ensure!(got == f, "{} wrote a frame of {} for {}", how, show_frame(&got), show_frame(&f));
        // Two frames in one buffer.
        let len = buf.len();
        write(way + 2, &f, &mut buf);
        model::frame(&buf[len..]).map_err(|e| format!("second frame: {}", e))?;
        ensure!(model::frame(&buf[n..len]).as_ref() == Ok(&f), "the frame before was changed");
    }
    if idx % 9 == 0 {
        // Lists from anything iterable.
        let items: Vec<&str> = vec!["a", "", "bcd"];
        let mut buf = vec![1, 2, 3];
        response::write_list(&mut buf, items.iter().filter(|_| true));
        ensure_eq!(model::frame(&buf[3..]), Ok(Frame::Value(MV::List(vec![b"a".to_vec(), vec![], b"bcd".to_vec()]))), "write_list");
    }
    let m: DashMap<Vec<u8>, Vec<u8>> = DashMap::new();
    let s: DashSet<Vec<u8>> = DashSet::new();
    let mut buf = Vec::new();
    response::write_map(&mut buf, &m);
    let n = buf.len();
    response::write_set(&mut buf, &s);
    ensure_eq!(model::frame(&buf[..n]), Ok(Frame::Value(MV::Map(Default::default()))), "empty map");
    ensure_eq!(model::frame(&buf[n..]), Ok(Frame::Value(MV::Set(Default::default()))), "empty set");
    Ok(())
}

fn missing(buf: &[u8], n: usize) -> usize {
    if n < 4 {
        4 - n
    } else {
        buf.len() - n
    }
}

fn prefixes(r: &mut Rng, ctx: &mut Context, buf: &[u8], f: &Frame, every: bool) -> R {
    let mut n = 0;
    while n < buf.len() {
        match ctx.feed(&buf[..n]) {
            Ok(Instruction::ReadBytes(more)) => {
                ensure_eq!(more, missing(buf, n), "bytes asked for after {} of {}", n, buf.len());
                let exact = r.chance(4) && n >= 4 && !every;
                n += if exact { more } else if every { 1 } else { r.range(1, more) };
            }
            o => return Err(format!("{:?} after {} of {} bytes", o.map(|_| "concluded"), n, buf.len())),
        }
    }
    expect(ctx, buf, f, "completed frame")
}

pub fn c08(r: &mut Rng, idx: u64) -> R {
    if idx % 2 == 0 {
        let f = any(r, idx / 2);
        note(format!("feed prefixes of {}", show_frame(&f)));
        let mut buf = Vec::new();
        write(2, &f, &mut buf);
        let mut ctx = Context::new();
        let every = buf.len() < 300;
        prefixes(r, &mut ctx, &buf, &f, every)?;
        let at = r.next() % 4000 + 34;
        let g = any(r, at);
        let mut buf = Vec::new();
        write(2, &g, &mut buf);
        note_more(&format!("then, with the same decoder, of {}", show_frame(&g)));
        prefixes(r, &mut ctx, &buf, &g, false)?;
        return Ok(());
    }
    // Anything at all, with a plausible header.
    let kind = r.below(12) as u8;
    let mut body = vec![kind];
    match r.below(3) {
        0 => {
            let n = r.below(30);
            body.extend(r.bytes(n));
        }
        1 => {
            for _ in 0..r.below(20) {
                body.push(*r.pick(&[0u8, 0, 1, 2, 3, 255, 128, 9]));
            }
        }
        _ => {
            let v = any(r, 1000);
            let mut b = Vec::new();
            write(2, &v, &mut b);
            body = b[4..].to_vec();
            for _ in 0..r.range(1, 3) {
                let at = r.below(body.len().min(24));
                body[at] = r.byte();
            }
            if r.chance(3) {
                let n = r.below(body.len() + 1);
                body.truncate(n);
            }
        }
    }
    let len = match r.below(4) {
        0 => body.len() as u32,
        1 => (body.len() as u32).saturating_sub(r.below(4) as u32),
        2 => r.below(8) as u32,
        _ => body.len() as u32 + r.below(3) as u32,
    };
    let mut buf = len.to_be_bytes().to_vec();
    buf.extend(body);
    if r.chance(12) {
        let n = r.below(12);
        buf = r.bytes(n);
    }
    note(format!("feed anything: {}", show(&buf)));
    let mut ctx = Context::new();
    let step = r.range(1, 9);
    let mut n = if r.chance(2) { buf.len() } else { 0 };
    loop {
        match ctx.feed(&buf[..n]) {
            Ok(Instruction::ReadBytes(more)) => ensure!(more > 0, "asks for no bytes after {}", n),
            Ok(Instruction::Concluded(resp)) => {
                // Ready for the next frame.
                drop(resp);
                let g = Frame::Value(MV::Int(77));
                let mut b = Vec::new();
                write(2, &g, &mut b);
                return prefixes(r, &mut ctx, &b, &g, false);
            }
            Err(_) => return Ok(()),
        }
        if n == buf.len() {
            return Ok(());
        }
        n = (n + step).min(buf.len());
    }
}
