//! C25: the server's binary, over TCP, next to an engine in this process.
use crate::{responses::DISPATCH_ERRORS, engine::{self, Env}, ensure, model::{self, *}, util::*};
use hop::backend::{memory::Error as MemError, server::Error as TcpError, Backend, MemoryBackend, ServerBackend};
use hop_engine::{
    command::{request::Context, response::Response, CommandId},
    state::{KeyType, Value},
    Hop,
};
use std::{
    io::{Read, Write},
    net::{Shutdown, TcpListener, TcpStream},
    os::unix::process::CommandExt,
    process::{Child, Command, Stdio},
    sync::{Arc, Mutex, OnceLock},
    time::{Duration, Instant},
};
use crate::responses::REQUEST_ERRORS;
use CommandId as C;

extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(what: i32, limit: *const Limit) -> i32;
}

/// An answer is waited for this long.
const PATIENCE: Duration = Duration::from_secs(15);

static SERVER: Mutex<Option<Child>> = Mutex::new(None);
static PORT: OnceLock<u16> = OnceLock::new();

/// Starts the server on a free port of the loopback interface.
pub fn start() -> Result<(), String> {
    let (child, port) = spawn(None)?;
    *SERVER.lock().unwrap() = Some(child);
    PORT.set(port).ok();
    Ok(())
}

#[repr(C)]
struct Limit {
    now: u64,
    max: u64,
}

/// A server that may have so many files open.
fn spawn(files: Option<u64>) -> Result<(Child, u16), String> {
    let path = std::env::var("HOP_SERVER").map_err(|_| "HOP_SERVER isn't set".to_string())?;
    for _ in 0..8 {
        let port = TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map_err(|e| e.to_string())?.port();
        let mut c = Command::new(&path);
        c.env("HOST", "127.0.0.1").env("PORT", port.to_string()).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        // The server ends when this process does, however it ends.
        unsafe {
            c.pre_exec(move || {
                prctl(1, 9, 0, 0, 0);
                if let Some(n) = files {
                    setrlimit(7, &Limit { now: n, max: n });
                }
                Ok(())
            });
        }
        let mut child = c.spawn().map_err(|e| format!("{}: {}", path, e))?;
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(20) {
            if matches!(child.try_wait(), Ok(Some(_)) | Err(_)) {
                break;
            }
            if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                // It is this one that listens, not another that took the port.
                std::thread::sleep(Duration::from_millis(40));
                if matches!(child.try_wait(), Ok(None)) {
                    return Ok((child, port));
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        child.kill().ok();
        child.wait().ok();
    }
    Err("the server doesn't listen".into())
}

/// The server can't accept some connections for a while, and goes on later.
fn too_many() -> R {
    note_more("a server that may have 40 files open, and 60 connections at once; then, when they are gone, another one");
    let (mut child, port) = spawn(Some(40)).map_err(|e| format!("SKIP: {}", e))?;
    let mut go = || -> R {
        let to = |wait: Duration| -> Result<TcpStream, String> {
            let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("connecting: {}", e))?;
            s.set_nodelay(true).ok();
            s.set_read_timeout(Some(wait)).ok();
            Ok(s)
        };
        let q = model::encode(C::Echo, None, &[b"x".to_vec()]);
        let mut held = Vec::new();
        let mut refused = false;
        for _ in 0..60 {
            let mut s = match to(Duration::from_millis(300)) {
                Ok(s) => s,
                Err(_) => break,
            };
            refused |= put(&mut s, &q).is_err() || receive(&mut s).is_err();
            held.push(s);
            if refused {
                break;
            }
        }
        if !refused {
            return Err("SKIP: every connection was accepted".into());
        }
        drop(held);
        let t = Instant::now();
        loop {
            let res = to(Duration::from_secs(2)).and_then(|mut s| put(&mut s, &q).and_then(|_| receive(&mut s).map(|_| ())));
            match res {
                Ok(()) => return Ok(()),
                Err(e) if t.elapsed() > PATIENCE => return Err(format!("after connections that couldn't be accepted, a new one isn't served: {}", e)),
                Err(_) if matches!(child.try_wait(), Ok(Some(_))) => return Err("a connection that couldn't be accepted ended the server".into()),
                Err(_) => std::thread::sleep(Duration::from_millis(50)),
            }
        }
    };
    let res = go();
    child.kill().ok();
    child.wait().ok();
    res
}

pub fn stop() {
    if let Some(mut c) = SERVER.lock().unwrap_or_else(|e| e.into_inner()).take() {
        c.kill().ok();
        c.wait().ok();
    }
}

fn connect() -> Result<TcpStream, String> {
    let s = TcpStream::connect(("127.0.0.1", *PORT.get().unwrap())).map_err(|e| format!("connecting: {}", e))?;
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(PATIENCE)).ok();
    s.set_write_timeout(Some(PATIENCE)).ok();
    Ok(s)
}

/// The answer an engine in this process gives.
fn answer(hop: &Hop, bytes: &[u8]) -> Result<Frame, String> {
    let mut ctx = Context::new();
    let mut resp = Vec::new();
    match ctx.feed(bytes) {
        Ok(Some(req)) if req.as_bytes().len() == bytes.len() => {
            if let Err(why) = hop.dispatch(&req, &mut resp) {
                resp.clear();
                Response::DispatchError(why).copy_to(&mut resp);
            }
        }
        _ => return Err(format!("SKIP: {} isn't one request", show(bytes))),
    }
    model::frame(&resp).map_err(|e| format!("SKIP: the engine responds {}", e))
}

fn shown(f: &Frame) -> String {
    match f {
        Frame::Value(v) => v.show(),
        f => format!("{:?}", f),
    }
}

/// The same, up to the order of the keys of a map.
fn same(a: &Frame, b: &Frame) -> bool {
    match (a, b) {
        (Frame::Value(MV::List(a)), Frame::Value(MV::List(b))) => {
            let (mut a, mut b) = (a.clone(), b.clone());
            a.sort();
            b.sort();
            a == b
        }
        // The sign and bits of what isn't a number.
        (Frame::Value(a), Frame::Value(b)) => a.num_eq(b),
        _ => a == b,
    }
}

/// One frame off the connection.
fn receive(s: &mut TcpStream) -> Result<Vec<u8>, String> {
    let mut b = vec![0; 4];
    s.read_exact(&mut b).map_err(|e| format!("no answer ({})", e))?;
    let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    ensure!(n < 1 << 28, "an answer starts with {}", show(&b));
    b.resize(4 + n, 0);
    s.read_exact(&mut b[4..]).map_err(|e| format!("an answer of {} bytes isn't all there ({})", n + 4, e))?;
    Ok(b)
}

const CMDS: [C; 15] = [
    C::Increment, C::Decrement, C::IncrementBy, C::DecrementBy, C::Set, C::Get, C::Delete, C::Exists, C::Is,
    C::Rename, C::Type, C::Append, C::Length, C::Keys, C::Echo,
];

/// Requests whose keys all start with `prefix`, and their answers.
fn requests(r: &mut Rng, hop: &Hop, prefix: &[u8], n: usize) -> Result<Vec<(String, Vec<u8>, Frame)>, String> {
    let env = Env::new();
    let mut out = Vec::new();
    for i in 0..n {
        let cmds: &[C] = if r.chance(2) { &[C::Set, C::Append, C::Increment, C::Get, C::Echo] } else { &CMDS };
        let mut q = engine::gen(r, &env, cmds);
        if q.cmd == C::Echo {
            q.args.insert(0, format!("number {}", i).into_bytes());
            if r.chance(6) {
                let n = *r.pick(&[250usize, 251, 252, 256, 1000, 4090, 8180, 8192, 20000, 70000]);
                q.args.push(r.bytes(n));
            }
            q.args.truncate(255);
        }
        let keys = match q.cmd {
            C::Echo => 0,
            C::Exists | C::Is | C::Rename => q.args.len(),
            _ => 1,
        };
        for a in q.args.iter_mut().take(keys) {
            *a = [prefix, &a[..]].concat();
        }
        let bytes = model::encode(q.cmd, q.kt, &q.args);
        let want = match answer(hop, &bytes) {
            Ok(w) => w,
            Err(e) if e.starts_with("SKIP") => continue,
            Err(e) => return Err(e),
        };
        out.push((q.show(), bytes, want));
    }
    Ok(out)
}

fn check(r: &R, i: usize, n: usize, q: &str) -> R {
    r.as_ref().map(|_| ()).map_err(|e| format!("request {} of {} ({}): {}", i + 1, n, q, e))
}

fn expect(s: &mut TcpStream, i: usize, n: usize, q: &str, want: &Frame) -> R {
    let got = receive(s).and_then(|b| model::frame(&b).map_err(|e| format!("the answer {} isn't a response: {}", show(&b), e)));
    let res = got.and_then(|got| if same(&got, want) { Ok(()) } else { Err(format!("expected {}, got {}", shown(want), shown(&got))) });
    check(&res, i, n, q)
}

fn put(s: &mut TcpStream, b: &[u8]) -> R {
    s.write_all(b).and_then(|_| s.flush()).map_err(|e| format!("writing: {}", e))
}

/// Nothing but what was read was answered.
fn finish(mut s: TcpStream) -> R {
    s.shutdown(Shutdown::Write).ok();
    let mut b = [0; 64];
    match s.read(&mut b) {
        Ok(0) => Ok(()),
        Ok(n) => Err(format!("after the answers to all requests there are more bytes: {}", show(&b[..n]))),
        Err(e) => Err(format!("the server doesn't end the connection ({})", e)),
    }
}

/// A request of an internal key, which panics the server's task, isn't answered.
pub fn unanswered() -> bool {
    let go = || -> Result<usize, String> {
        let mut s = connect()?;
        put(&mut s, &model::encode(C::Get, None, &[b"__hop__:x".to_vec()]))?;
        s.read(&mut [0; 64]).map_err(|e| e.to_string())
    };
    matches!(go(), Ok(0))
}

fn pause(r: &mut Rng) {
    if r.chance(3) {
        std::thread::sleep(Duration::from_micros(*r.pick(&[30u64, 150, 600])));
    }
}

/// All requests as a stream cut anywhere, then all answers.
fn streamed(r: &mut Rng, hop: &Hop, prefix: &[u8]) -> R {
    let n = if r.chance(30) { 300 } else { r.range(1, 12) };
    let qs = requests(r, hop, prefix, n)?;
    let all: Vec<u8> = qs.iter().flat_map(|q| q.1.clone()).collect();
    let mut cuts: Vec<usize> = match r.below(4) {
        0 => vec![],
        1 if all.len() < 300 => (0..all.len()).collect(),
        _ => (0..r.range(1, 6)).map(|_| r.below(all.len() + 1)).collect(),
    };
    cuts.push(all.len());
    cuts.sort();
    note_more(&format!("one connection: {} requests written in pieces ending at {:?}:", qs.len(), &cuts[..cuts.len().min(40)]));
    for q in qs.iter().take(20) {
        note_more(&q.0);
    }
    let mut s = connect()?;
    // The answers are read as they come, so that neither side waits for the other.
    let mut back = s.try_clone().map_err(|e| e.to_string())?;
    let reader = std::thread::spawn(move || -> R {
        let n = qs.len();
        for (i, q) in qs.iter().enumerate() {
            expect(&mut back, i, n, &q.0, &q.2)?;
        }
        Ok(())
    });
    let mut at = 0;
    let mut res = Ok(());
    for c in cuts {
        res = put(&mut s, &all[at..c]);
        if res.is_err() {
            break;
        }
        pause(r);
        at = c;
    }
    // The end of the stream comes before or after the answers.
    let early = r.chance(3);
    if early {
        s.shutdown(Shutdown::Write).ok();
    }
    match reader.join() {
        Ok(x) => x?,
        Err(_) => return Err("SKIP: the reader panicked".into()),
    }
    res?;
    finish(s)
}

/// Several connections, one request after the other on each; some fail.
fn interleaved(r: &mut Rng, hop: &Hop, prefix: &[u8]) -> R {
    let k = r.range(2, 5);
    let mut conns = Vec::new();
    for i in 0..k {
        let p = [prefix, format!("{}.", i).as_bytes()].concat();
        let n = r.range(2, 8);
        conns.push((Some(connect()?), requests(r, hop, &p, n)?, 0usize));
    }
    note_more(&format!("{} connections:", k));
    for _ in 0..k * 8 {
        let i = r.below(k);
        if r.chance(9) {
            // A connection that fails on its own.
            let what = r.below(4);
            let mut b = connect()?;
            let p = [prefix, b"bad"].concat();
            match what {
                0 => {
                    note_more("another connection ends within a request");
                    let q = model::encode(C::Set, None, &[p, vec![7; 40]]);
                    let n = r.range(1, q.len() - 1);
                    put(&mut b, &q[..n])?;
                }
                1 => {
                    note_more("another connection sends what is no request, and ends");
                    let n = r.range(1, 40);
                    let x = r.bytes(n);
                    // What it does is its own matter, but it mustn't touch others' keys.
                    put(&mut b, &[&[0xee][..], &x].concat()[..1])?;
                }
                2 => {
                    note_more("another connection doesn't read its answers, and ends");
                    for _ in 0..20 {
                        put(&mut b, &model::encode(C::Echo, None, &[vec![7; 5000]]))?;
                    }
                }
                _ => {
                    note_more("another connection's request panics the server's task");
                    put(&mut b, &model::encode(C::Get, None, &[b"__hop__:x".to_vec()]))?;
                }
            }
            pause(r);
            drop(b);
        }
        if r.chance(12) {
            if let (Some(s), _, _) = &mut conns[i] {
                note_more(&format!("connection {} sends a command that doesn't exist", i));
                put(s, &[0xee])?;
                let got = receive(s).and_then(|b| model::frame(&b)).map_err(|e| format!("to a command that doesn't exist: {}", e))?;
                ensure!(got == Frame::Parse(0), "to a command that doesn't exist: expected {}, got {}", shown(&Frame::Parse(0)), shown(&got));
            }
        }
        if let (Some(s), qs, at) = &mut conns[i] {
            if *at < qs.len() {
                // Several of them at once, at times.
                let m = if r.chance(3) { r.range(1, 4).min(qs.len() - *at) } else { 1 };
                for q in &qs[*at..*at + m] {
                    note_more(&format!("connection {}: {}", i, q.0));
                    if r.chance(3) {
                        let n = r.below(q.1.len() + 1);
                        put(s, &q.1[..n])?;
                        pause(r);
                        put(s, &q.1[n..])?;
                    } else {
                        put(s, &q.1)?;
                    }
                }
                for j in *at..*at + m {
                    expect(s, j, qs.len(), &qs[j].0, &qs[j].2)?;
                }
                *at += m;
            } else if r.chance(2) {
                finish(conns[i].0.take().unwrap())?;
            }
        }
    }
    for (s, qs, at) in conns {
        if let Some(mut s) = s {
            for j in at..qs.len() {
                put(&mut s, &qs[j].1)?;
                expect(&mut s, j, qs.len(), &qs[j].0, &qs[j].2)?;
            }
            finish(s)?;
        }
    }
    Ok(())
}

type V = Result<MV, String>;

fn mem(e: MemError) -> String {
    match e {
        MemError::BuildingRequest { source } => format!("building {:?}", source),
        MemError::RunningCommand { source } => format!("error {:?}", source),
        MemError::KeyTypeInvalid { .. } => "key type invalid".into(),
        MemError::KeyTypeUnsupported { .. } => "key type unsupported".into(),
        #[allow(unreachable_patterns)]
        e => format!("{:?}", e),
    }
}
fn tcp(e: TcpError) -> String {
    match e {
        TcpError::BuildingRequest { source } => format!("building {:?}", source),
        TcpError::Dispatching { reason } => format!("error {:?}", reason),
        TcpError::KeyTypeInvalid { .. } => "key type invalid".into(),
        TcpError::KeyTypeUnsupported { .. } => "key type unsupported".into(),
        e => format!("{:?}", e),
    }
}

#[derive(Clone, Debug)]
struct Op {
    op: usize,
    key: Vec<u8>,
    to: Vec<u8>,
    keys: Vec<Vec<u8>>,
    kt: KeyType,
    some: bool,
    x: MV,
}

impl Op {
    fn show(&self) -> String {
        const NAMES: [&str; 15] = [
            "append", "decrement_by", "decrement", "delete", "echo", "exists", "get", "increment_by", "increment", "is", "key_type",
            "keys", "length", "rename", "set",
        ];
        let name = NAMES[self.op];
        match self.op {
            0 | 1 | 7 | 14 => format!("{} {} {}", name, show(&self.key), self.x.show()),
            2 | 8 | 12 => format!("{} {} {:?}", name, show(&self.key), if self.some { Some(self.kt) } else { None }),
            5 => format!("{} {}", name, shows(&self.keys)),
            9 => format!("{} {:?} {}", name, self.kt, shows(&self.keys)),
            13 => format!("{} {} {}", name, show(&self.key), show(&self.to)),
            _ => format!("{} {}", name, show(&self.key)),
        }
    }
}

fn sorted(mut l: Vec<Vec<u8>>) -> MV {
    l.sort();
    MV::List(l)
}

async fn run<B: Backend>(b: &B, o: Op, e: fn(B::Error) -> String) -> V {
    let kt = if o.some { Some(o.kt) } else { None };
    match o.op {
        0 => b.append(&o.key, o.x.to()).await.map(|v| MV::of(&v)),
        1 => b.decrement_by(&o.key, o.x.to()).await.map(|v| MV::of(&v)),
        2 => b.decrement(&o.key, kt).await.map(|v| MV::of(&v)),
        3 => b.delete(&o.key).await.map(MV::Bytes),
        4 => b.echo(&o.key).await.map(MV::List),
        5 => b.exists(o.keys).await.map(MV::Bool),
        6 => b.get(&o.key).await.map(|v| MV::of(&v)),
        7 => b.increment_by(&o.key, o.x.to()).await.map(|v| MV::of(&v)),
        8 => b.increment(&o.key, kt).await.map(|v| MV::of(&v)),
        9 => b.is(o.kt, o.keys).await.map(MV::Bool),
        10 => b.key_type(&o.key).await.map(|k| MV::Int(k as u8 as i64)),
        11 => b.keys(&o.key).await.map(sorted),
        12 => b.length(&o.key, kt).await.map(MV::Int),
        13 => b.rename(&o.key, &o.to).await.map(MV::Bytes),
        _ => b.set(&o.key, o.x.to()).await.map(|v| MV::of(&v)),
    }
    .map_err(e)
}

fn ops(r: &mut Rng, prefix: &[u8], n: usize) -> Vec<Op> {
    (0..n)
        .map(|_| {
            let key = |r: &mut Rng| if r.chance(40) { vec![] } else { [prefix, &[b'a' + r.below(3) as u8][..]].concat() };
            let n = r.below(4);
            let x = match r.below(4) {
                0 => MV::Int(r.int()),
                1 => MV::Float(r.float().to_bits()),
                _ => model::value(r, 8),
            };
            let op = if r.chance(3) { 14 } else { r.below(15) };
            Op {
                op,
                key: key(r),
                to: key(r),
                keys: (0..n).map(|_| key(r)).collect(),
                kt: r.pick(&KEY_TYPES).0,
                some: r.chance(2),
                x,
            }
        })
        .collect()
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new().basic_scheduler().enable_all().build().unwrap()
}

fn local(e: &str) -> bool {
    e.starts_with("building") || e.starts_with("key type")
}
fn agree(o: &Op, got: &V, want: &V) -> R {
    let ok = match (got, want) {
        (Ok(a), Ok(b)) => a.num_eq(b),
        // Not a request at all, for one reason or another.
        (Err(a), Err(b)) => a == b || local(a) && local(b),
        _ => false,
    };
    ensure!(ok, "{}: expected {}, got {}", o.show(), show_v(want), show_v(got));
    Ok(())
}
fn show_v(v: &V) -> String {
    match v {
        Ok(v) => v.show(),
        Err(e) => format!("the error \"{}\"", e),
    }
}

/// The client's operations, one after the other or at the same time.
fn client(r: &mut Rng, prefix: &[u8]) -> R {
    let tasks = if r.chance(2) { 1 } else { r.range(2, 6) };
    note_more(&format!("{} tasks with one client:", tasks));
    let mut lists = Vec::new();
    for t in 0..tasks {
        let p = [prefix, format!("{}.", t).as_bytes()].concat();
        let n = r.range(3, 12);
        let list = ops(r, &p, n);
        let m = MemoryBackend::new();
        let want: Vec<V> = list.iter().map(|o| crate::front::block(run(&m, o.clone(), mem))).collect();
        for o in &list {
            note_more(&format!("task {}: {}", t, o.show()));
        }
        lists.push((list, want));
    }
    let port = *PORT.get().unwrap();
    let res: Result<Vec<Vec<V>>, String> = runtime().block_on(async move {
        let all = async move {
            let b = Arc::new(ServerBackend::connect(("127.0.0.1", port)).await.map_err(|e| format!("connecting: {:?}", e))?);
            let mut hs = Vec::new();
            for (list, _) in lists.iter().cloned() {
                let b = b.clone();
                hs.push(tokio::spawn(async move {
                    let mut out = Vec::new();
                    for o in list {
                        out.push(run(&*b, o, tcp).await);
                    }
                    out
                }));
            }
            let mut out = Vec::new();
            for h in hs {
                out.push(h.await.map_err(|e| format!("the client panicked: {}", e))?);
            }
            for ((list, want), got) in lists.iter().zip(&out) {
                for ((o, w), g) in list.iter().zip(want).zip(got) {
                    agree(o, g, w)?;
                }
            }
            Ok(out)
        };
        tokio::time::timeout(PATIENCE, all).await.unwrap_or_else(|_| Err("the client doesn't finish".into()))
    });
    res.map(|_| ())
}

/// Operations at the same time on one client, told apart by their results.
fn told_apart(r: &mut Rng) -> R {
    let tasks = r.range(2, 24);
    let mut sizes: Vec<usize> = (0..tasks).map(|_| *r.pick(&[1usize, 2, 9, 100, 250, 3000, 9000, 30000])).collect();
    if r.chance(20) {
        sizes[0] = *r.pick(&[65_535usize, 65_536, 70_000, (1 << 20) + 1, 5 << 20]);
    }
    // A task that did this many other things yields at some point of its request.
    let spent: Vec<usize> = (0..tasks).map(|_| if r.chance(4) { 0 } else { r.range(118, 129) }).collect();
    note_more(&format!("{} tasks with one client, echoing contents of {:?} bytes", tasks, sizes));
    let port = *PORT.get().unwrap();
    runtime().block_on(async move {
        let all = async move {
            let b = Arc::new(ServerBackend::connect(("127.0.0.1", port)).await.map_err(|e| format!("connecting: {:?}", e))?);
            let mut hs = Vec::new();
            for (t, (n, spend)) in sizes.into_iter().zip(spent).enumerate() {
                let b = b.clone();
                hs.push(tokio::spawn(async move {
                    let other = tokio::sync::Mutex::new(());
                    for i in 0..3u8 {
                        for _ in 0..spend {
                            drop(other.lock().await);
                        }
                        let mut x = vec![t as u8 + 1; n];
                        x.push(i);
                        match b.echo(&x).await {
                            Ok(l) if l == [x.clone()] => {}
                            o => return Err(format!("task {} echoed {} and got {}", t, show(&x), o.map(|l| shows(&l)).unwrap_or_else(tcp))),
                        }
                    }
                    Ok(())
                }));
            }
            for h in hs {
                h.await.map_err(|e| format!("the client panicked: {}", e))??;
            }
            Ok(())
        };
        tokio::time::timeout(PATIENCE, all).await.unwrap_or_else(|_| Err("the client doesn't finish".into()))
    })
}

/// The client and a peer that answers as it is told, in pieces, and maybe goes away.
fn peer(r: &mut Rng) -> R {
    let l = TcpListener::bind(("127.0.0.1", 0)).map_err(|e| format!("listening: {}", e))?;
    let port = l.local_addr().map_err(|e| e.to_string())?.port();
    let n = r.range(1, 8);
    let mut plan = Vec::new();
    for i in 0..n {
        let key = format!("peer{}", i).into_bytes();
        let frame = match r.below(8) {
            0 => Frame::Dispatch(r.below(DISPATCH_ERRORS.len()) as u8),
            1 => Frame::Parse(r.below(REQUEST_ERRORS.len()) as u8),
            _ => {
                let size = *r.pick(&[4usize, 20, 300]);
                Frame::Value(model::value(r, size))
            }
        };
        let bytes = crate::responses::response(&frame).as_bytes();
        // Where the answer is cut, and whether that is where it ends.
        let mut cuts: Vec<usize> = (0..r.below(6)).map(|_| r.below(bytes.len() + 1)).collect();
        cuts.sort();
        plan.push((key, frame, bytes, cuts, r.chance(8)));
    }
    for (i, p) in plan.iter().enumerate() {
        note_more(&format!("answer {}: {:?} in pieces ending at {:?}{}", i, p.1, p.3, if p.4 { ", and no further" } else { "" }));
    }
    let told = plan.clone();
    let at_peer = std::thread::spawn(move || -> R {
        let (mut s, _) = l.accept().map_err(|e| format!("accepting: {}", e))?;
        s.set_nodelay(true).ok();
        s.set_read_timeout(Some(PATIENCE)).ok();
        for (i, (key, _, bytes, cuts, ends)) in told.iter().enumerate() {
            let want = encode(C::Get, None, &[key.clone()]);
            let mut got = vec![0; want.len()];
            s.read_exact(&mut got).map_err(|e| format!("request {}: {}", i, e))?;
            ensure!(got == want, "request {} of the client: expected {}, got {}", i, show(&want), show(&got));
            let mut from = 0;
            for c in cuts {
                s.write_all(&bytes[from..*c]).map_err(|e| format!("the client went away in answer {}: {}", i, e))?;
                std::thread::sleep(Duration::from_micros(300));
                from = *c;
            }
            if *ends && from < bytes.len() {
                return Ok(());
            }
            s.write_all(&bytes[from..]).map_err(|e| format!("the client went away in answer {}: {}", i, e))?;
        }
        Ok(())
    });
    let res: R = runtime().block_on(async move {
        let all = async move {
            let b = ServerBackend::connect(("127.0.0.1", port)).await.map_err(|e| format!("connecting: {:?}", e))?;
            let mut gone = false;
            for (i, (key, frame, bytes, cuts, ends)) in plan.iter().enumerate() {
                gone |= *ends && cuts.last().copied().unwrap_or(0) < bytes.len();
                let got = b.get(key).await;
                let ok = match (&got, frame) {
                    (Err(TcpError::ReadingMessage { .. }), _) | (Err(TcpError::WritingMessage { .. }), _) | (Err(TcpError::ConnectionClosed), _) => gone,
                    (Ok(v), Frame::Value(w)) => !gone && MV::of(v).num_eq(w),
                    (Err(TcpError::Dispatching { reason }), Frame::Dispatch(c)) => !gone && *reason == DISPATCH_ERRORS[*c as usize].0,
                    (Err(TcpError::BadRequest { reason }), Frame::Parse(c)) => !gone && *reason == REQUEST_ERRORS[*c as usize].0,
                    _ => false,
                };
                ensure!(ok, "answer {}{}: the client's result is {:?}", i, if gone { " doesn't come" } else { "" }, got.map(|v| MV::of(&v)));
            }
            Ok(())
        };
        tokio::time::timeout(PATIENCE, all).await.unwrap_or_else(|_| Err("the client doesn't finish".into()))
    });
    res?;
    at_peer.join().map_err(|_| "the peer's thread".to_string())??;
    // Nobody listens there any more.
    match runtime().block_on(hop::Client::connect(("127.0.0.1", port))) {
        Ok(_) | Err(TcpError::Connecting { .. }) => Ok(()),
        Err(e) => Err(format!("connecting to nobody is the error {:?}", e)),
    }
}

pub fn c25(r: &mut Rng, idx: u64) -> R {
    let res = attempt(r, idx, "");
    match res {
        // Nothing came in time: only if it doesn't a second time.
        Err(e) if e.contains("os error 11)") || e.contains("doesn't finish") => attempt(r, idx, "again "),
        res => res,
    }
}

fn attempt(r: &mut Rng, idx: u64, again: &str) -> R {
    let hop = Hop::new();
    let prefix = format!("{}{}/", again, idx).into_bytes();
    note(format!("case {} with the server of this run:", idx));
    let res = match idx % 8 {
        0..=2 => streamed(r, &hop, &prefix),
        3 | 4 => interleaved(r, &hop, &prefix),
        5 => client(r, &prefix),
        6 if r.chance(2) => peer(r),
        6 => client(r, &prefix),
        _ if idx % 800 == 7 => too_many(),
        _ => told_apart(r),
    };
    if res.is_err() {
        if let Some(c) = SERVER.lock().unwrap().as_mut() {
            if let Ok(Some(s)) = c.try_wait() {
                return Err(format!("the server ended ({}): {}", s, res.unwrap_err()));
            }
        }
    }
    res
}
