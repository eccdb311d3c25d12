//! C22 and C23.
use crate::{ensure, ensure_eq, engine::usable, model::{self, *}, util::*};
use hop::{backend::{memory::Error as MemError, Backend, MemoryBackend}, Client};
use hop_cli::ParseError;
use hop_engine::{
    command::{request::RequestBuilderError, CommandId, DispatchError},
    state::{KeyType, Value},
};
use std::{future::Future, sync::Arc, task::{Context, Poll, Wake, Waker}};
use CommandId as C;

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
pub fn waker() -> Waker {
    Waker::from(Arc::new(Noop))
}
pub fn block<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = waker();
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
    }
    panic!("the future of an operation in memory never finishes")
}

const TYPE_NAMES: [(&str, KeyType); 11] = [
    ("boolean", KeyType::Boolean),
    ("bool", KeyType::Boolean),
    ("bytes", KeyType::Bytes),
    ("float", KeyType::Float),
    ("integer", KeyType::Integer),
    ("int", KeyType::Integer),
    ("list", KeyType::List),
    ("map", KeyType::Map),
    ("set", KeyType::Set),
    ("string", KeyType::String),
    ("str", KeyType::String),
];

#[derive(Clone, Debug, PartialEq)]
enum Line {
    Request(C, KeyType, Vec<Vec<u8>>),
    NoCommand,
    BadCommand(String),
    NoKey,
    BadArgument(String, KeyType),
    Incomplete(String),
    TooMany,
    Empty,
}

fn named(s: &str) -> Option<C> {
    COMMANDS.iter().find(|c| c.2 == s).map(|c| c.0)
}

fn read_line(s: &str) -> Line {
    let words: Vec<&str> = s.split(' ').collect();
    if words[0].is_empty() {
        return Line::NoCommand;
    }
    let (cmd, kt) = match named(words[0]) {
        Some(c) => (c, KeyType::Bytes),
        None => {
            let mut found = None;
            if let Some(at) = words[0].rfind(':') {
                let (c, t) = (&words[0][..at], &words[0][at + 1..]);
                if let (Some(c), Some(t)) = (named(c), TYPE_NAMES.iter().find(|x| x.0 == t)) {
                    found = Some((c, t.1));
                }
            }
            match found {
                Some(f) => f,
                None => return Line::BadCommand(words[0].to_string()),
            }
        }
    };
    let rest = &words[1..];
    let mut args: Vec<Vec<u8>> = Vec::new();
    if !rest.is_empty() {
        let keys = match cmd {
            C::Echo | C::Stats => 0,
            C::Exists | C::Is => rest.len(),
            C::Rename => 2,
            _ => 1,
        };
        if rest.len() < keys {
            return Line::NoKey;
        }
        for k in &rest[..keys] {
            args.push(k.as_bytes().to_vec());
        }
        let vals = &rest[keys..];
        for (i, w) in vals.iter().enumerate() {
            let bad = Line::BadArgument(w.to_string(), kt);
            args.push(match kt {
                KeyType::Boolean => match *w {
                    "true" => vec![1],
                    "false" => vec![0],
                    _ => return bad,
                },
                KeyType::Float => match w.parse::<f64>() {
                    Ok(f) => f.to_be_bytes().to_vec(),
                    Err(_) => return bad,
                },
                KeyType::Integer => match w.parse::<i64>() {
                    Ok(f) => f.to_be_bytes().to_vec(),
                    Err(_) => return bad,
                },
                _ => w.as_bytes().to_vec(),
            });
            if kt == KeyType::Map && i % 2 == 0 && i + 1 == vals.len() {
                return Line::Incomplete(w.to_string());
            }
        }
    }
    for (i, a) in args.iter().enumerate() {
        if a.is_empty() {
            return Line::Empty;
        }
        if i >= 255 || is_simple(cmd) {
            return Line::TooMany;
        }
    }
    Line::Request(cmd, kt, args)
}

fn line(r: &mut Rng, idx: u64) -> String {
    let mut s = String::new();
    if idx < 16 * 13 {
        s.push_str(COMMANDS[idx as usize % 16].2);
        match idx as usize / 16 {
            t @ 0..=10 => {
                s.push(':');
                s.push_str(TYPE_NAMES[t].0);
            }
            11 => s.push_str(":nothing"),
            _ => {}
        }
    } else {
        s.push_str(match r.below(20) {
            0 => "",
            1 => "nope",
            2 => "set:",
            3 => ":int",
            4 => "increment:by:",
            5 => "SET",
            _ => r.pick(&COMMANDS).2,
        });
        match r.below(8) {
            0..=3 => {}
            4 if r.chance(3) => s.push_str(r.pick(&[":", ":Int", ":int:int", ":by", ":floatt", "::int", ":s", "é"])),
            _ => {
                s.push(':');
                s.push_str(r.pick(&TYPE_NAMES).0);
            }
        }
    }
    let kind = r.below(5);
    let n = match r.below(30) {
        0 => r.range(250, 260),
        1..=6 => 0,
        _ => r.range(1, 6),
    };
    for i in 0..n {
        s.push(' ');
        if r.chance(40) {
            continue;
        }
        if i > 0 && n < 10 || n > 10 {
            match kind {
                0 => s.push_str(r.pick(&["true", "false", "true", "True", "1", "tru"])),
                1 => s.push_str(r.pick(&["0", "1", "-5", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "+3", "1.5", "x", "007"])),
                2 => s.push_str(r.pick(&["0", "1.5", "-0", "inf", "NaN", "1e300", "1e400", ".5", "5.", "x", "infinity", "-1e-320"])),
                3 => s.push_str(&r.string(5).replace(' ', "_")),
                _ => s.push_str(r.pick(&["foo", "bar", "a", "é", "\t", "foo:bar", "\n", "漢字"])),
            }
        } else {
            s.push_str(r.pick(&["foo", "bar", "key", "é", "true", "5"]));
        }
    }
    if r.chance(15) {
        s.push_str(r.pick(&[" ", "  ", "\n", "\r\n"]));
    }
    if r.chance(30) {
        s = r.string(12);
    }
    if r.chance(40) {
        s.insert(0, ' ');
    }
    s
}

pub fn c22(r: &mut Rng, idx: u64) -> R {
    let s = line(r, idx);
    note(format!("line {:?}", s));
    let want = read_line(&s);
    let got = match hop_cli::parse(&s) {
        Ok(q) => Line::Request(
            q.command_id(),
            match q.key_type() {
                Some(k) => k,
                None => return Err("the request has no key type".into()),
            },
            (0..q.arg_count()).map(|i| q.arg(i).map(<[u8]>::to_vec).unwrap_or_default()).collect(),
        ),
        Err(ParseError::ArgumentInvalid { argument, key_type }) => Line::BadArgument(argument, key_type),
        Err(ParseError::BuildingRequest { source }) => match source {
            RequestBuilderError::ArgumentEmpty => Line::Empty,
            RequestBuilderError::TooManyArguments => Line::TooMany,
            RequestBuilderError::ValueEmpty => return Err("value empty".into()),
        },
        Err(ParseError::InvalidCommandType { provided_name }) => Line::BadCommand(provided_name),
        Err(ParseError::KeyUnspecified) => Line::NoKey,
        Err(ParseError::MapIncomplete { key }) => Line::Incomplete(key),
        Err(ParseError::NoCommandProvided) => Line::NoCommand,
    };
    // Several things can be wrong with one line.
    let both_errors = !matches!(got, Line::Request(..)) && !matches!(want, Line::Request(..));
    if both_errors {
        let syntactic = |l: &Line| matches!(l, Line::NoCommand | Line::BadCommand(_));
        if !syntactic(&got) && !syntactic(&want) && (s.contains("  ") || s.ends_with(' ')) || is_many(&s) {
            return Ok(());
        }
    }
    ensure!(got == want, "expected {}, got {}", trunc(&want), trunc(&got));
    // Errors can be shown.
    if let Err(e) = hop_cli::parse(&s) {
        let _ = e.to_string();
    }
    Ok(())
}

fn is_many(s: &str) -> bool {
    s.split(' ').count() > 250
}

fn trunc(l: &Line) -> String {
    let s = format!("{:?}", l);
    s.chars().take(900).collect()
}

type V = Result<MV, String>;

fn err(e: MemError) -> String {
    match e {
        MemError::BadRequest { .. } => "bad request".into(),
        MemError::BuildingRequest { source } => format!("building {:?}", source),
        MemError::Dispatching { source } => format!("dispatching {:?}", source),
        MemError::KeyTypeInvalid { .. } => "key type invalid".into(),
        MemError::KeyTypeUnsupported { key_type, .. } => format!("unsupported {:?}", key_type),
        MemError::RunningCommand { source } => format!("running {:?}", source),
    }
}

fn v(x: Result<Value, MemError>) -> V {
    x.map(|v| MV::of(&v)).map_err(err)
}

/// The arguments of a value for a request, or why there's none.
fn given(v: &MV, simple_bytes: bool, n_before: usize) -> Result<Vec<Vec<u8>>, Vec<&'static str>> {
    let args: Vec<Vec<u8>> = match v {
        MV::Bool(b) => vec![vec![*b as u8]],
        MV::Bytes(b) => vec![b.clone()],
        MV::Float(f) => vec![f.to_be_bytes().to_vec()],
        MV::Int(i) => vec![i.to_be_bytes().to_vec()],
        MV::List(l) => l.clone(),
        MV::Map(m) => m.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect(),
        MV::Set(s) => s.iter().cloned().collect(),
        MV::Str(s) => vec![s.clone().into_bytes()],
    };
    let mut e = Vec::new();
    if args.len() + n_before > 255 {
        e.push("building TooManyArguments");
    }
    if args.iter().any(Vec::is_empty) || args.is_empty() && !simple_bytes {
        e.push(if simple_bytes { "building ArgumentEmpty" } else { "building ValueEmpty" });
    }
    if e.is_empty() {
        Ok(args)
    } else {
        Err(e)
    }
}

struct Cl {
    c: Client<MemoryBackend>,
    b: MemoryBackend,
    st: St,
    count: Counters,
}

impl Cl {
    /// What the engine answers to a request.
    fn engine(&mut self, cmd: C, kt: Option<KeyType>, args: Vec<Vec<u8>>) -> V {
        let q = Req { cmd, kt, args };
        let res = model::run(&mut self.st, &self.count, &q);
        match &res {
            Ok(_) => self.count.ok += 1,
            Err(_) => self.count.err += 1,
        }
        res.map_err(|e: DispatchError| format!("running {:?}", e))
    }
}

fn agree(what: &str, got: V, want: V) -> R {
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => a.num_eq(b) || list_eq(what, a, b),
        (Err(a), Err(b)) => b.split('|').any(|b| a == b),
        _ => false,
    };
    let show = |x: &V| match x {
        Ok(v) => v.show(),
        Err(e) => format!("error {}", e),
    };
    ensure!(ok, "{}: expected {}, got {}", what, show(&want), show(&got));
    Ok(())
}
fn list_eq(what: &str, a: &MV, b: &MV) -> bool {
    match (a, b) {
        (MV::List(a), MV::List(b)) if what.starts_with("keys") => {
            let (mut a, mut b) = (a.clone(), b.clone());
            a.sort();
            b.sort();
            a == b
        }
        _ => false,
    }
}

pub fn c23(r: &mut Rng, _idx: u64) -> R {
    note("on a new client in memory:".into());
    // Through the client, or its backend on its own.
    let own = r.chance(3);
    let mut cl = Cl { c: Client::memory(), b: MemoryBackend::new(), st: St::new(), count: Counters::default() };
    let keys: [&[u8]; 5] = [b"a", b"b", b"foo", b"\xff", b""];
    for _ in 0..16 {
        let k = keys[if r.chance(12) { 4 } else { r.below(4) }].to_vec();
        let op = r.below(16);
        let existing = cl.st.get(&k).map(MV::kind);
        let no_key: V = Err("building ArgumentEmpty".into());
        let what;
        match op {
            0..=2 => {
                let most = if r.chance(20) { 300 } else { 12 };
                let mut x = model::value(r, most);
                if r.chance(2) {
                    x = match x {
                        MV::List(l) => MV::List(l.into_iter().map(|mut i| { i.push(1); i }).collect()),
                        MV::Set(l) => MV::Set(l.into_iter().map(|mut i| { i.push(1); i }).collect()),
                        MV::Map(l) => MV::Map(l.into_iter().map(|(mut k, mut v)| { k.truncate(200); k.push(1); v.push(1); (k, v) }).collect()),
                        x => x,
                    };
                }
                what = format!("set {} {}", show(&k), x.show());
                note_more(&what);
                let want = if k.is_empty() {
                    no_key
                } else {
                    match given(&x, false, 1) {
                        Err(e) => Err(e.join("|")),
                        Ok(a) => cl.engine(C::Set, Some(x.kind()), [vec![k.clone()], a].concat()),
                    }
                };
                let got = if own {
                    v(block(cl.b.set(&k, x.to())))
                } else if r.chance(2) {
                    v(block(cl.c.set(&k).value(x.to())))
                } else {
                    let s = cl.c.set(&k);
                    match x.to() {
                        Value::Boolean(y) => block(s.boolean(y)).map(MV::Bool).map_err(err),
                        Value::Bytes(y) => block(s.bytes(y)).map(MV::Bytes).map_err(err),
                        Value::Float(y) => block(s.float(y)).map(|f| MV::Float(f.to_bits())).map_err(err),
                        Value::Integer(y) => block(s.int(y)).map(MV::Int).map_err(err),
                        Value::List(y) => block(s.list(y)).map(MV::List).map_err(err),
                        Value::Map(y) => v(block(s.map(y)).map(Value::Map)),
                        Value::Set(y) => v(block(s.set(y.into_iter().collect::<Vec<Vec<u8>>>())).map(|l| Value::Set(l.into_iter().collect()))),
                        Value::String(y) => block(s.string(y)).map(MV::Str).map_err(err),
                    }
                };
                let ok = want.is_ok();
                agree(&what, got, want)?;
                if ok {
                    // A value set is returned equal by get, in its type.
                    let what = format!("get after {}", what);
                    let want = cl.engine(C::Get, None, vec![k.clone()]);
                    let got = if own { v(block(cl.b.get(&k))) } else { typed_get(&cl.c, &k, x.kind()) };
                    agree(&what, got, want.clone())?;
                    ensure!(want == Ok(x.clone()) , "{}: the value set is {}", what, x.show());
                }
            }
            3 | 4 => {
                what = format!("get {}", show(&k));
                note_more(&what);
                let want = if k.is_empty() { no_key } else { cl.engine(C::Get, None, vec![k.clone()]) };
                // Getting as another type than it is of is a known finding.
                let kt = if r.chance(2) { existing.or_else(|| Some(r.pick(&KEY_TYPES).0)) } else { None };
                let got = match kt {
                    _ if own => v(block(cl.b.get(&k))),
                    Some(kt) => typed_get(&cl.c, &k, kt),
                    None => v(block(cl.c.get(&k))),
                };
                agree(&what, got, want)?;
            }
            5 | 6 => {
                let mut x = model::value(r, 6);
                if r.chance(2) {
                    match existing {
                        Some(KeyType::Bytes) => x = MV::Bytes(b"xy".to_vec()),
                        Some(KeyType::List) => x = MV::List(vec![b"x".to_vec()]),
                        Some(KeyType::String) => x = MV::Str("é".into()),
                        _ => {}
                    }
                }
                what = format!("append {} {}", show(&k), x.show());
                note_more(&what);
                let kind = x.kind();
                let want = if k.is_empty() {
                    no_key
                } else if !matches!(kind, KeyType::Bytes | KeyType::List | KeyType::String) {
                    Err(format!("unsupported {:?}", kind))
                } else {
                    match given(&x, true, 1) {
                        Err(e) => Err(e.join("|")),
                        Ok(a) => cl.engine(C::Append, Some(kind), [vec![k.clone()], a].concat()),
                    }
                };
                let got = match x.to() {
                    y if own => v(block(cl.b.append(&k, y))),
                    Value::Bytes(y) => block(cl.c.append(&k).bytes(y)).map(MV::Bytes).map_err(err),
                    Value::List(y) => block(cl.c.append(&k).list(y)).map(MV::List).map_err(err),
                    Value::String(y) => block(cl.c.append(&k).string(y)).map(MV::Str).map_err(err),
                    y => v(block(cl.b.append(&k, y))),
                };
                agree(&what, got, want)?;
            }
            7 | 8 => {
                let minus = r.chance(2);
                let way = r.below(4);
                let (i, f) = (r.int(), r.float());
                what = format!("{} {} in way {} by {} or {}", if minus { "decrement" } else { "increment" }, show(&k), way, i, f);
                note_more(&what);
                let (one, by) = if minus { (C::Decrement, C::DecrementBy) } else { (C::Increment, C::IncrementBy) };
                let want = if k.is_empty() {
                    no_key
                } else {
                    match way {
                        0 => cl.engine(one, None, vec![k.clone()]),
                        1 => cl.engine(by, Some(KeyType::Integer), vec![k.clone(), i.to_be_bytes().to_vec()]),
                        2 => cl.engine(by, Some(KeyType::Float), vec![k.clone(), f.to_be_bytes().to_vec()]),
                        _ if own => cl.engine(one, Some(KeyType::Float), vec![k.clone()]),
                        _ => cl.engine(by, Some(KeyType::Integer), vec![k.clone(), 1i64.to_be_bytes().to_vec()]),
                    }
                };
                let fl = |x: Result<f64, MemError>| x.map(|f| MV::Float(f.to_bits())).map_err(err);
                let int = |x: Result<i64, MemError>| x.map(MV::Int).map_err(err);
                let got = match (own, minus, way) {
                    (true, true, 0) => v(block(cl.b.decrement(&k, None))),
                    (true, true, 1) => v(block(cl.b.decrement_by(&k, i))),
                    (true, true, 2) => v(block(cl.b.decrement_by(&k, f))),
                    (true, true, _) => v(block(cl.b.decrement(&k, Some(KeyType::Float)))),
                    (true, false, 0) => v(block(cl.b.increment(&k, None))),
                    (true, false, 1) => v(block(cl.b.increment_by(&k, i))),
                    (true, false, 2) => v(block(cl.b.increment_by(&k, f))),
                    (true, false, _) => v(block(cl.b.increment(&k, Some(KeyType::Float)))),
                    (_, true, 0) => v(block(cl.c.decrement(&k))),
                    (_, true, 1) => int(block(cl.c.decrement(&k).int().by(i))),
                    (_, true, 2) => fl(block(cl.c.decrement(&k).float().by(f))),
                    (_, true, _) => int(block(cl.c.decrement(&k).int())),
                    (_, _, 0) => v(block(cl.c.increment(&k))),
                    (_, _, 1) => int(block(cl.c.increment(&k).int().by(i))),
                    (_, _, 2) => fl(block(cl.c.increment(&k).float().by(f))),
                    (_, _, _) => int(block(cl.c.increment(&k).int())),
                };
                agree(&what, got, want)?;
            }
            9 => {
                what = format!("delete {}", show(&k));
                note_more(&what);
                let want = if k.is_empty() { no_key } else { cl.engine(C::Delete, None, vec![k.clone()]) };
                let got = if own { block(cl.b.delete(&k)) } else { block(cl.c.delete(&k)) };
                agree(&what, got.map(MV::Bytes).map_err(err), want)?;
            }
            10 => {
                let to = r.pick(&keys[..4]).to_vec();
                what = format!("rename {} {}", show(&k), show(&to));
                note_more(&what);
                let want = if k.is_empty() { no_key } else { cl.engine(C::Rename, None, vec![k.clone(), to.clone()]) };
                let got = if own { block(cl.b.rename(&k, &to)) } else { block(cl.c.rename(&k, &to)) };
                agree(&what, got.map(MV::Bytes).map_err(err), want)?;
            }
            11 => {
                let n = *r.pick(&[0usize, 1, 1, 2, 3, 255, 256]);
                let ks: Vec<Vec<u8>> = (0..n).map(|_| r.pick(&keys[..3]).to_vec()).collect();
                let is = r.chance(2);
                let kt = existing.unwrap_or(KeyType::Integer);
                what = format!("{} {:?} {}", if is { "is" } else { "exists" }, kt, shows(&ks));
                note_more(&what);
                let want = if n > 255 {
                    Err("building TooManyArguments|configuration TooManyKeys".to_string())
                } else if n == 0 && !own {
                    Err("configuration NoKeys".to_string())
                } else if is {
                    cl.engine(C::Is, Some(kt), ks.clone())
                } else {
                    cl.engine(C::Exists, None, ks.clone())
                };
                let got = match (own, is) {
                    (true, true) => block(cl.b.is(kt, &ks)).map_err(err),
                    (true, false) => block(cl.b.exists(&ks)).map_err(err),
                    (_, true) => match cl.c.is(kt).keys(ks) {
                        Ok(f) => block(f).map_err(err),
                        Err(e) => Err(format!("configuration {:?}", e)),
                    },
                    (_, false) => match cl.c.exists().keys(ks) {
                        Ok(f) => block(f).map_err(err),
                        Err(e) => Err(format!("configuration {:?}", e)),
                    },
                };
                agree(&what, got.map(MV::Bool), want)?;
            }
            12 => {
                what = format!("key type of {}", show(&k));
                note_more(&what);
                let want = if k.is_empty() { no_key } else { cl.engine(C::Type, None, vec![k.clone()]) };
                let got = if own { block(cl.b.key_type(&k)) } else { block(cl.c.key_type(&k)) };
                agree(&what, got.map(|t| MV::Int(kt_code(t) as i64)).map_err(err), want)?;
            }
            13 => {
                what = format!("keys of {}", show(&k));
                note_more(&what);
                let want = if k.is_empty() { no_key } else { cl.engine(C::Keys, None, vec![k.clone()]) };
                let got = if own { block(cl.b.keys(&k)) } else { block(cl.c.keys(&k)) };
                agree(&what, got.map(MV::List).map_err(err), want)?;
            }
            14 => {
                let kt = match r.below(6) {
                    0 => Some(KeyType::Bytes),
                    1 => Some(KeyType::List),
                    2 => Some(KeyType::Map),
                    3 => Some(KeyType::Set),
                    4 => Some(KeyType::String),
                    _ => None,
                };
                what = format!("length of {} as {:?}", show(&k), kt);
                note_more(&what);
                let want = if k.is_empty() { no_key } else { cl.engine(C::Length, kt, vec![k.clone()]) };
                let l = cl.c.length(&k);
                let got = match kt {
                    _ if own => block(cl.b.length(&k, kt)),
                    Some(KeyType::Bytes) => block(l.bytes()),
                    Some(KeyType::List) => block(l.list()),
                    Some(KeyType::Map) => block(l.map()),
                    Some(KeyType::Set) => block(l.set()),
                    Some(_) => block(l.string()),
                    None => block(l),
                };
                agree(&what, got.map(MV::Int).map_err(err), want)?;
            }
            _ => {
                if r.chance(2) {
                    what = format!("echo {}", show(&k));
                    note_more(&what);
                    let want = if k.is_empty() { no_key } else { cl.engine(C::Echo, None, vec![k.clone()]) };
                    let got = if own { block(cl.b.echo(&k)) } else { block(cl.c.echo(&k)) };
                    agree(&what, got.map(MV::List).map_err(err), want)?;
                } else {
                    what = "stats".to_string();
                    note_more(&what);
                    let (ok, bad) = (cl.count.ok, cl.count.err);
                    cl.count.ok += 1;
                    let s = if own { block(cl.b.stats()) } else { block(cl.c.stats()) }.map_err(|e| format!("stats: {:?}", e))?;
                    ensure_eq!((s.commands_successful() as u64, s.commands_errored() as u64, s.sessions_started(), s.sessions_ended()), (ok, bad, 0, 0), "stats");
                }
            }
        }
        ensure!(cl.st.keys().all(|k| usable(k)), "model: key");
    }
    Ok(())
}

fn typed_get(c: &Client<MemoryBackend>, k: &[u8], kt: KeyType) -> V {
    let g = c.get(k);
    match kt {
        KeyType::Boolean => block(g.boolean()).map(MV::Bool).map_err(err),
        KeyType::Bytes => block(g.bytes()).map(MV::Bytes).map_err(err),
        KeyType::Float => block(g.float()).map(|f| MV::Float(f.to_bits())).map_err(err),
        KeyType::Integer => block(g.int()).map(MV::Int).map_err(err),
        KeyType::List => block(g.list()).map(MV::List).map_err(err),
        KeyType::Map => v(block(g.map()).map(Value::Map)),
        KeyType::Set => v(block(g.set()).map(Value::Set)),
        KeyType::String => block(g.string()).map(MV::Str).map_err(err),
    }
}

/// Operations on which the client is known to panic.
pub fn c23_known() -> Vec<(&'static str, Box<dyn Fn()>)> {
    let mut out: Vec<(&'static str, Box<dyn Fn()>)> = Vec::new();
    for (kt, _) in KEY_TYPES.iter().copied() {
        out.push((
            "C23-get-other-type",
            Box::new(move || {
                let c = Client::memory();
                let _ = block(c.set(b"k").value(if kt == KeyType::Integer { Value::Boolean(true) } else { Value::Integer(1) }));
                let _ = typed_get(&c, b"k", kt);
            }),
        ));
    }
    out.push(("C23-internal-key", Box::new(|| {
        let c = Client::memory();
        let _ = block(c.get(b"__hop__:x"));
    })));
    out
}
