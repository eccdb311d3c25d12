//! C10 to C17: dispatching requests next to the model.
use crate::{ensure, ensure_eq, model::{self, *}, requests::*, responses::err_code, util::*};
use hop_engine::{
    command::{
        request::{Context, Request, RequestBuilder},
        CommandId, DispatchError,
    },
    metrics::Metric,
    state::KeyType,
    Hop,
};
use CommandId as C;

pub struct Env {
    pub hop: Hop,
    pub st: St,
    pub count: Counters,
    /// Keys looked at after each command.
    pub universe: Vec<Vec<u8>>,
}

impl Env {
    pub fn new() -> Self {
        Env {
            hop: Hop::new(),
            st: St::new(),
            count: Counters::default(),
            universe: [&b"a"[..], b"b", b"ab", b"foo", b"foo2", b"fo", b"\0", b"\xff\xfe", b"__hop__", b"__hop_:x"]
                .iter()
                .map(|k| k.to_vec())
                .collect(),
        }
    }
    /// With more names to pick from: long ones, ones that differ in one place or that extend another.
    pub fn with(r: &mut Rng) -> Self {
        let mut env = Env::new();
        for _ in 0..r.below(4) {
            let n = *r.pick(&[1usize, 2, 3, 8, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 5000]);
            let k = r.bytes(n);
            let mut other = k.clone();
            match r.below(5) {
                0 => other.push(r.byte()),
                1 => *other.last_mut().unwrap() ^= 1,
                2 => other[0] ^= 0x20,
                3 => {
                    let at = r.below(n);
                    other[at] ^= 0x80;
                }
                _ => other.insert(0, *r.pick(&[b' ', 0, b'a'])),
            }
            for k in [k, other] {
                if usable(&k) && !env.universe.contains(&k) {
                    // Some of them among the ones used most.
                    let at = r.below(env.universe.len() + 1);
                    env.universe.insert(at, k);
                }
            }
        }
        env
    }
    /// What is stored.
    pub fn actual(&self, named: &[Vec<u8>]) -> St {
        let mut st = St::new();
        #[cfg(feature = "hooks")]
        {
            for k in self.hop.state().verif_keys() {
                if let Some(v) = look(&self.hop, &k) {
                    st.insert(k, v);
                }
            }
        }
        for k in self.universe.iter().chain(named) {
            if usable(k) {
                if let Some(v) = look(&self.hop, k) {
                    st.insert(k.clone(), v);
                }
            }
        }
        st
    }
    pub fn counters(&self) -> Counters {
        let m = self.hop.metrics();
        let get = |x: Metric| m.counter(&x).unwrap_or(0);
        Counters {
            ok: get(Metric::CommandsSuccessful),
            err: get(Metric::CommandsErrored),
            started: get(Metric::SessionsStarted),
            ended: get(Metric::SessionsEnded),
        }
    }
}

/// Names that can be looked up without a panic, see the known findings.
pub fn usable(k: &[u8]) -> bool {
    !k.is_empty() && !k.starts_with(b"__hop__:")
}

fn look(hop: &Hop, k: &[u8]) -> Option<MV> {
    if !usable(k) {
        return None;
    }
    hop.state().key_ref(k).map(|r| MV::of(r.value()))
}

pub fn show_state(s: &St) -> String {
    s.iter().map(|(k, v)| format!("{}: {}", show(k), v.show())).collect::<Vec<_>>().join("; ")
}

/// Arguments that encode a value of a type, or nearly.
fn encoded(r: &mut Rng, kt: KeyType) -> Vec<Vec<u8>> {
    let small = |r: &mut Rng| {
        let n = match r.below(600) {
            0 => *r.pick(&[65535, 65536, 65537, 70000]),
            1..=30 => *r.pick(&[7, 8, 9, 16, 31, 32, 33, 64, 127, 128, 129, 254, 255, 256, 257, 1000]),
            _ => r.range(1, 6),
        };
        r.bytes(n)
    };
    // How many items; now and then as many as fit.
    let many = |r: &mut Rng, few: usize| if r.chance(24) { *r.pick(&[6usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 252, 253, 254]) } else { r.range(1, few) };
    match kt {
        KeyType::Boolean => vec![vec![if r.chance(3) { r.byte() } else { *r.pick(&[0, 1, 2, 128, 255]) }]],
        KeyType::Bytes => vec![small(r)],
        KeyType::Float => vec![r.float().to_be_bytes().to_vec()],
        KeyType::Integer => vec![r.int().to_be_bytes().to_vec()],
        KeyType::String => {
            let n = if r.chance(20) { 300 } else { 8 };
            let mut s = r.string(n);
            s.push('x');
            vec![s.into_bytes()]
        }
        KeyType::List => (0..many(r, 5)).map(|_| small(r)).collect(),
        KeyType::Map => {
            let mut v: Vec<Vec<u8>> = Vec::new();
            for i in 0..many(r, 4).min(127) {
                if i >= 4 {
                    v.push(if r.chance(9) { v[0].clone() } else { format!("key{}", i).into_bytes() });
                    v.push(small(r));
                    continue;
                }
                let n = if r.chance(9) { *r.pick(&[254usize, 255, 256]) } else { 1 };
                v.push(vec![b'a' + r.below(3) as u8; n]);
                v.push(small(r));
            }
            if r.chance(7) {
                v.pop();
            }
            v
        }
        KeyType::Set => (0..many(r, 5))
            .map(|i| if i < 5 { vec![b'a' + r.below(3) as u8; 1] } else if r.chance(9) { small(r) } else { format!("item{}", i).into_bytes() })
            .collect(),
    }
}

/// A request on a few keys, most of the time a sensible one.
pub fn gen(r: &mut Rng, env: &Env, cmds: &[CommandId]) -> Req {
    let cmd = *r.pick(cmds);
    let n = if r.chance(3) { env.universe.len() } else { 4 };
    let key = r.pick(&env.universe[..n]).clone();
    let existing = env.st.get(&key).map(MV::kind);
    let mut kt = match r.below(10) {
        0..=4 => None,
        5..=7 => existing.or_else(|| any_kt(r)),
        _ => any_kt(r),
    };
    let natural = kt.or(existing);
    let mut args = vec![];
    match cmd {
        C::Append => {
            args.push(key);
            let t = natural.unwrap_or(KeyType::Bytes);
            for _ in 0..r.below(3) {
                args.extend(encoded(r, t));
            }
            if r.chance(12) {
                args.push(vec![0xff, 0xc3]);
            }
            if r.chance(30) {
                let n = 255usize.saturating_sub(args.len());
                args.extend((0..n).map(|i| vec![b'a' + (i % 7) as u8; i % 5 + 1]));
            }
        }
        C::Set => {
            args.push(key);
            let t = natural.unwrap_or(KeyType::Bytes);
            args.extend(encoded(r, t));
            if r.chance(5) {
                kt = Some(r.pick(&KEY_TYPES).0);
                args.truncate(1);
                args.extend(encoded(r, kt.unwrap()));
            }
            if r.chance(15) {
                args.push(vec![0xff]);
            }
        }
        C::Increment | C::Decrement => {
            args.push(key);
            if existing.is_none() && !r.chance(4) {
                kt = *r.pick(&[None, Some(KeyType::Integer), Some(KeyType::Float)]);
            }
        }
        C::IncrementBy | C::DecrementBy => {
            args.push(key);
            if existing.is_none() && !r.chance(4) {
                kt = *r.pick(&[None, Some(KeyType::Integer), Some(KeyType::Float)]);
            }
            let t = if kt.or(existing) == Some(KeyType::Float) { KeyType::Float } else { KeyType::Integer };
            args.extend(encoded(r, t));
            if r.chance(8) {
                args[1].truncate(7);
            }
            if r.chance(8) {
                args[1].push(3);
            }
        }
        C::Exists | C::Is => {
            args.push(key);
            for _ in 0..r.below(4) {
                let n = if r.chance(3) { env.universe.len() } else { 4 };
                args.push(r.pick(&env.universe[..n]).clone());
            }
            if cmd == C::Is && kt.is_none() && !r.chance(3) {
                kt = existing;
            }
            if cmd == C::Exists && !r.chance(5) {
                kt = None;
            }
            if r.chance(10) {
                // Many keys that are as asked for, and maybe one that isn't.
                let fit: Vec<&Vec<u8>> = env.st.iter().filter(|(_, v)| cmd == C::Exists || kt == Some(v.kind())).map(|(k, _)| k).collect();
                let n = if r.chance(2) { r.range(2, 254) } else { *r.pick(&[2usize, 3, 8, 16, 32, 64, 100, 127, 128, 200, 253, 254]) };
                if !fit.is_empty() {
                    args = (0..n).map(|_| (*r.pick(&fit)).clone()).collect();
                    if !r.chance(3) {
                        let at = if r.chance(2) { n } else { r.below(n) };
                        args.insert(at, r.pick(&env.universe).clone());
                    }
                }
            }
        }
        C::Rename => {
            args.push(key);
            args.push(r.pick(&env.universe).clone());
            if !r.chance(5) {
                kt = None;
            }
            if r.chance(8) {
                args.push(r.pick(&env.universe).clone());
            }
        }
        C::Delete | C::Type => {
            args.push(key);
            if !r.chance(5) {
                kt = None;
            }
        }
        C::Stats => {
            if !r.chance(5) {
                kt = None;
            }
        }
        C::Echo => args = encoded(r, KeyType::List),
        C::Get | C::Keys | C::Length => args.push(key),
    }
    if cmd != C::Stats {
        if r.chance(25) {
            args.clear();
        } else if r.chance(15) && cmd != C::Exists && cmd != C::Is {
            args.truncate(1);
        } else if r.chance(20) && cmd != C::Exists && cmd != C::Is {
            // An empty argument, as only the parser makes them.
            let n = args.len();
            let at = if cmd == C::Rename { n } else { r.range(1, n.max(1)) };
            args.insert(at.min(n), vec![]);
            if takes_key(cmd) && args[0].is_empty() {
                args.remove(0);
            }
            if cmd == C::Rename && args.len() == 2 {
                args.truncate(1);
            }
        }
    }
    args.truncate(255);
    Req { cmd, kt, args }
}

/// Sends a request through the builder or the parser.
pub fn send(r: &mut Rng, hop: &Hop, q: &Req, resp: &mut Vec<u8>) -> Result<Result<(), DispatchError>, String> {
    if q.args.len() > 255 {
        return Err("SKIP: more arguments than fit in a request".to_string());
    }
    if q.args.iter().all(|a| !a.is_empty()) && r.chance(2) {
        let mut b = RequestBuilder::new_with_key_type(q.cmd, q.kt);
        for a in &q.args {
            b.bytes(a.clone()).map_err(|e| format!("SKIP: builder refused: {:?}", e))?;
        }
        let req: Request<'static> = b.into();
        return Ok(hop.dispatch(&req, resp));
    }
    let bytes = model::encode(q.cmd, q.kt, &q.args);
    let mut ctx = Context::new();
    let res = ctx.feed(&bytes);
    match res {
        Ok(Some(req)) => Ok(hop.dispatch(&req, resp)),
        o => Err(format!("SKIP: parsing {}: {:?}", q.show(), o)),
    }
}

pub struct Step {
    pub q: Req,
    pub before: St,
    pub after: St,
    pub want: Result<MV, DispatchError>,
    pub want_after: St,
    pub got: Result<MV, DispatchError>,
    /// What was in the response was kept.
    pub prefix_kept: bool,
    /// The response isn't one frame of a value.
    pub malformed: Option<String>,
    /// Bytes added to the response.
    pub added: Vec<u8>,
    pub counted: (Counters, Counters),
}

/// Runs one request on the engine and the model.
pub fn step(r: &mut Rng, env: &mut Env, q: Req) -> Result<Step, String> {
    note_more(&format!("dispatch {}", q.show()));
    let before = env.actual(&q.args);
    let c0 = env.counters();
    let mut want_after = before.clone();
    let want = model::run(&mut want_after, &c0, &q);
    let n = *r.pick(&[0usize, 0, 1, 9]);
    let prefix = r.bytes(n);
    let mut resp = prefix.clone();
    let res = send(r, &env.hop, &q, &mut resp)?;
    let prefix_kept = resp.len() >= n && resp[..n] == prefix[..];
    let added = resp.get(n..).unwrap_or(&[]).to_vec();
    let after = env.actual(&q.args);
    let c1 = env.counters();
    env.st = after.clone();
    let mut malformed = None;
    let got = match res {
        Err(e) => Err(e),
        Ok(()) => match model::frame(&added) {
            Ok(Frame::Value(v)) => Ok(v),
            o => {
                malformed = Some(format!("{}: responded {:?} ({})", q.show(), o, show(&added)));
                Ok(MV::Str("malformed".into()))
            }
        },
    };
    Ok(Step { q, before, after, want, want_after, got, prefix_kept, added, malformed, counted: (c0, c1) })
}

fn show_res(x: &Result<MV, DispatchError>) -> String {
    match x {
        Ok(v) => v.show(),
        Err(e) => format!("error {:?} ({})", e, err_code(*e)),
    }
}

fn same(a: &MV, b: &MV, q: &Req) -> bool {
    match q.cmd {
        C::Increment | C::Decrement | C::IncrementBy | C::DecrementBy => a.num_eq(b),
        // The keys of a map come in any order.
        C::Keys => match (a, b) {
            (MV::List(a), MV::List(b)) => {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.sort();
                b.sort();
                a == b
            }
            _ => a == b,
        },
        _ => a == b,
    }
}

/// The result and the key named are as they should be.
fn exact(s: &Step) -> R {
    if let Some(m) = &s.malformed {
        return Err(m.clone());
    }
    let ok = match (&s.got, &s.want) {
        (Ok(a), Ok(b)) => same(a, b, &s.q),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    ensure!(ok, "{} on {{{}}}: expected {}, got {}", s.q.show(), show_state(&s.before), show_res(&s.want), show_res(&s.got));
    ensure!(s.prefix_kept, "{}: what was in the response before was changed", s.q.show());
    for k in s.q.args.iter().take(2) {
        let (a, b) = (s.after.get(k), s.want_after.get(k));
        let eq = match (a, b) {
            (Some(a), Some(b)) => same(a, b, &s.q),
            (a, b) => a == b,
        };
        ensure!(eq, "{} on {{{}}}: {} should be {:?}, is {:?}", s.q.show(), show_state(&s.before), show(k), b.map(MV::show), a.map(MV::show));
    }
    Ok(())
}

const ALL: [C; 16] = [
    C::Increment, C::Decrement, C::IncrementBy, C::DecrementBy, C::Set, C::Get, C::Delete, C::Exists, C::Is,
    C::Rename, C::Type, C::Append, C::Length, C::Keys, C::Echo, C::Stats,
];

/// Histories where every command in `focus` is checked by `check`; the others
/// only make states. The state is reset to what is there after each step, so
/// that what another command does isn't blamed on this one.
fn history(r: &mut Rng, focus: &[C], len: usize, check: &dyn Fn(&Step) -> R) -> R {
    let mut env = Env::with(r);
    note("on a new engine:".into());
    for _ in 0..len {
        let cmds: Vec<C> = if r.chance(2) { focus.to_vec() } else { vec![C::Set, C::Set, C::Append, C::Increment, C::Delete, C::Rename] };
        let q = gen(r, &env, &cmds);
        let checked = focus.contains(&q.cmd);
        let s = step(r, &mut env, q)?;
        if checked {
            check(&s)?;
        }
    }
    Ok(())
}

pub fn c10(r: &mut Rng, idx: u64) -> R {
    if idx < 300 {
        // Every type over every type, requested or not.
        let (old, new) = (idx % 9, idx / 9 % 9);
        let mut env = Env::new();
        note("on a new engine:".into());
        let k = b"foo".to_vec();
        if old < 8 {
            let kt = KEY_TYPES[old as usize].0;
            let mut args = vec![k.clone()];
            args.extend(encoded(r, kt));
            let s = step(r, &mut env, Req { cmd: C::Set, kt: Some(kt), args })?;
            exact(&s)?;
        }
        let kt = if new < 8 { Some(KEY_TYPES[new as usize].0) } else { None };
        let natural = kt.or_else(|| env.st.get(&k).map(MV::kind)).unwrap_or(KeyType::Bytes);
        let mut args = vec![k.clone()];
        args.extend(encoded(r, natural));
        let s = step(r, &mut env, Req { cmd: C::Set, kt, args })?;
        exact(&s)?;
        for kt in KEY_TYPES.iter().map(|k| Some(k.0)).chain([None]) {
            let s = step(r, &mut env, Req { cmd: C::Get, kt, args: vec![k.clone()] })?;
            exact(&s)?;
        }
        return Ok(());
    }
    history(r, &[C::Set, C::Get], 14, &exact)
}

pub fn c11(r: &mut Rng, idx: u64) -> R {
    if idx % 400 == 7 {
        // Up to the limit of a list.
        let mut env = Env::new();
        note("on a new engine: append 257 times 254 items (65278), then around the limit of 65535".into());
        let mut args = vec![b"foo".to_vec()];
        args.extend((0..254).map(|_| vec![1u8]));
        let q = Req { cmd: C::Append, kt: Some(KeyType::List), args };
        for _ in 0..257 {
            let mut resp = Vec::new();
            let res = send(r, &env.hop, &q, &mut resp)?;
            ensure!(res.is_ok(), "appending to a list: {:?}", res);
        }
        for n in [254usize, 4, 3, 2, 1, 1, 0] {
            let mut args = vec![b"foo".to_vec()];
            args.extend((0..n).map(|_| vec![2u8]));
            let s = step(r, &mut env, Req { cmd: C::Append, kt: None, args })?;
            exact(&s)?;
        }
        return Ok(());
    }
    history(r, &[C::Append], 16, &exact)
}

pub fn c12(r: &mut Rng, idx: u64) -> R {
    if idx < 2000 {
        // Pairs of integers around the limits, and of floats.
        let mut env = Env::new();
        note("on a new engine:".into());
        let float = r.chance(3);
        let kt = if float { KeyType::Float } else { KeyType::Integer };
        let enc = |r: &mut Rng| if float { r.float().to_be_bytes().to_vec() } else { r.int().to_be_bytes().to_vec() };
        if !r.chance(5) {
            let a = enc(r);
            let s = step(r, &mut env, Req { cmd: C::Set, kt: Some(kt), args: vec![b"n".to_vec(), a] })?;
            ensure!(s.got.is_ok(), "set failed");
        }
        for _ in 0..4 {
            let cmd = *r.pick(&[C::Increment, C::Decrement, C::IncrementBy, C::DecrementBy]);
            let kt = if r.chance(2) || env.st.is_empty() && float { Some(kt) } else { None };
            let a = enc(r);
            let s = step(r, &mut env, Req { cmd, kt, args: vec![b"n".to_vec(), a] })?;
            exact(&s)?;
        }
        return Ok(());
    }
    history(r, &[C::Increment, C::Decrement, C::IncrementBy, C::DecrementBy], 16, &exact)
}

fn eq_state(a: &St, b: &St) -> bool {
    a == b
}

const QUERIES: [C; 8] = [C::Echo, C::Exists, C::Get, C::Is, C::Keys, C::Length, C::Stats, C::Type];

pub fn c13(r: &mut Rng, _idx: u64) -> R {
    history(r, &ALL, 24, &|s| {
        if s.got.is_err() {
            ensure!(eq_state(&s.before, &s.after), "{} failed with {} and changed {{{}}} to {{{}}}", s.q.show(), show_res(&s.got), show_state(&s.before), show_state(&s.after));
            ensure!(s.prefix_kept && s.added.is_empty(), "{} failed with {} and wrote {} to the response", s.q.show(), show_res(&s.got), show(&s.added));
        }
        if QUERIES.contains(&s.q.cmd) {
            ensure!(eq_state(&s.before, &s.after), "{} changed {{{}}} to {{{}}}", s.q.show(), show_state(&s.before), show_state(&s.after));
        }
        Ok(())
    })
}

pub fn c14(r: &mut Rng, _idx: u64) -> R {
    history(r, &[C::Exists, C::Is, C::Type, C::Length, C::Keys, C::Delete, C::Rename, C::Echo], 22, &exact)
}

pub fn c15(r: &mut Rng, idx: u64) -> R {
    let counted = |s: &Step| -> R {
        let (a, b) = &s.counted;
        let (ok, err) = if s.got.is_ok() { (1, 0) } else { (0, 1) };
        ensure!(b.ok == a.ok + ok && b.err == a.err + err && b.started == a.started && b.ended == a.ended,
            "{} with result {} took the counters from {:?} to {:?}", s.q.show(), show_res(&s.got), a, b);
        if s.q.cmd == C::Stats {
            exact(s)?;
        }
        Ok(())
    };
    if idx < 64 {
        // Each command where it can't be taken for another.
        let mut env = Env::new();
        note("on a new engine:".into());
        let b = |s: &str| s.as_bytes().to_vec();
        let n = |i: i64| i.to_be_bytes().to_vec();
        let set = |k: &str, kt: KeyType, v: Vec<Vec<u8>>| Req { cmd: C::Set, kt: Some(kt), args: [vec![b(k)], v].concat() };
        let mut sessions = env.hop.sessions().clone();
        for _ in 0..idx % 3 {
            drop(sessions.add([1; 32]));
        }
        for i in 0..(idx % 3).min(1) {
            sessions.remove(i as u32);
        }
        for q in [
            set("i", KeyType::Integer, vec![n(40)]),
            set("l", KeyType::List, vec![b("x"), b("y")]),
            set("m", KeyType::Map, vec![b("k"), b("v"), b("k2"), b("v2"), b("k3"), b("v3")]),
            set("s", KeyType::String, vec![b("hello")]),
        ] {
            counted(&step(r, &mut env, q)?)?;
        }
        let one = |cmd, args: &[&str]| Req { cmd, kt: None, args: args.iter().map(|a| b(a)).collect() };
        let mut all = vec![
            one(C::Increment, &["i"]),
            one(C::Decrement, &["i"]),
            Req { cmd: C::IncrementBy, kt: None, args: vec![b("i"), n(5)] },
            Req { cmd: C::DecrementBy, kt: None, args: vec![b("i"), n(7)] },
            one(C::Append, &["l", "z"]),
            one(C::Get, &["s"]),
            one(C::Type, &["m"]),
            one(C::Length, &["m"]),
            one(C::Length, &["s"]),
            one(C::Keys, &["m"]),
            one(C::Exists, &["i", "l"]),
            one(C::Exists, &["i", "nope"]),
            Req { cmd: C::Is, kt: Some(KeyType::List), args: vec![b("l")] },
            Req { cmd: C::Is, kt: Some(KeyType::Map), args: vec![b("i"), b("m")] },
            one(C::Echo, &["i", "l"]),
            one(C::Rename, &["s", "s2"]),
            one(C::Set, &["x", "y"]),
            one(C::Delete, &["l"]),
            one(C::Get, &["nope"]),
            one(C::Stats, &[]),
        ];
        let at = (idx as usize) % all.len();
        all.rotate_left(at);
        for q in all {
            let s = step(r, &mut env, q)?;
            exact(&s)?;
            counted(&s)?;
        }
        return Ok(());
    }
    if idx == 64 {
        // More than 2^16 commands.
        let mut env = Env::new();
        note("on a new engine: 66000 times get a, which is set, and b, which isn't; then".into());
        let one = |cmd, args: &[&str]| Req { cmd, kt: None, args: args.iter().map(|a| a.as_bytes().to_vec()).collect() };
        step(r, &mut env, one(C::Set, &["a", "1"]))?;
        for k in ["a", "b"] {
            let q = one(C::Get, &[k]);
            for _ in 0..66_000 {
                let mut resp = Vec::new();
                let res = send(r, &env.hop, &q, &mut resp)?;
                ensure!(res.is_ok() == (k == "a"), "get {}: {:?}", k, res);
            }
        }
        let c = env.counters();
        ensure!(c.ok == 66_001 && c.err == 66_000, "counted {:?}", c);
        return counted(&step(r, &mut env, one(C::Stats, &[]))?);
    }
    let mut env = Env::with(r);
    note("on a new engine:".into());
    let mut sessions = env.hop.sessions().clone();
    for _ in 0..20 {
        if r.chance(6) {
            note_more("add a session");
            drop(sessions.add([0; 32]));
        }
        if r.chance(8) {
            let i = r.below(4) as u32;
            note_more(&format!("remove session {}", i));
            sessions.remove(i);
        }
        let cmds = if r.chance(4) { vec![C::Stats] } else { ALL.to_vec() };
        let q = gen(r, &env, &cmds);
        counted(&step(r, &mut env, q)?)?;
    }
    Ok(())
}

pub fn c16(r: &mut Rng, _idx: u64) -> R {
    history(r, &ALL, 24, &|s| {
        let named: &[Vec<u8>] = match s.q.cmd {
            C::Rename => &s.q.args[..s.q.args.len().min(2)],
            C::Echo | C::Stats | C::Exists | C::Is => &[],
            _ => &s.q.args[..s.q.args.len().min(1)],
        };
        let strip = |st: &St| -> St { st.iter().filter(|(k, _)| !named.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
        let (a, b) = (strip(&s.before), strip(&s.after));
        ensure!(eq_state(&a, &b), "{} changed other keys from {{{}}} to {{{}}}", s.q.show(), show_state(&a), show_state(&b));
        Ok(())
    })
}

/// Keys the engine panics on are known findings.
fn sane(q: &Req) -> bool {
    match q.cmd {
        C::Echo | C::Stats => true,
        C::Rename => q.args.iter().take(2).all(|k| usable(k)),
        _ => q.args.first().map(|k| usable(k)).unwrap_or(true),
    }
}

pub fn c17(r: &mut Rng, idx: u64) -> R {
    let mut env = Env::with(r);
    note("on a new engine:".into());
    let hard = idx % 50 == 0;
    for i in 0..30 {
        let mut q = if i < 8 || r.chance(2) {
            gen(r, &env, &ALL)
        } else {
            // Whatever the parser makes of anything.
            let mut b = c02_input(r, r.clone().next());
            if r.chance(2) {
                // On a key there is.
                let cmd = any_cmd(r);
                let mut args = vec![r.pick(&env.universe).clone()];
                for _ in 0..r.below(5) {
                    let n = r.below(12);
                    args.push(r.bytes(n));
                }
                b = model::encode(cmd, any_kt(r), &args);
            }
            match model::parse(&b) {
                Parsed::Done(cmd, kt, args, _) => Req { cmd, kt, args },
                _ => continue,
            }
        };
        if hard && i == 12 {
            q = Req { cmd: *r.pick(&[C::Set, C::Append, C::Echo]), kt: any_kt(r), args: (0..255).map(|i| vec![b'a' + (i % 3) as u8; if i == 7 { 70000 } else { i + 1 }]).collect() };
        }
        if !sane(&q) {
            continue;
        }
        note_more(&format!("dispatch {}", q.show()));
        let mut resp = Vec::new();
        if send(r, &env.hop, &q, &mut resp)?.is_ok() {
            ensure!(resp.len() > 4, "no response to {}", q.show());
        }
        if i % 4 == 0 {
            env.st = env.actual(&[]);
        }
    }
    Ok(())
}

/// Requests on which the engine is known to panic.
pub fn c17_known() -> Vec<(&'static str, Req)> {
    let mut v = Vec::new();
    for (what, key) in [("C17-internal-key", &b"__hop__:x"[..]), ("C17-empty-key", b"")] {
        for cmd in [C::Get, C::Set, C::Append, C::Increment, C::Decrement, C::IncrementBy, C::DecrementBy, C::Length, C::Keys] {
            let kt = match cmd {
                C::Keys => Some(KeyType::Map),
                C::Append | C::Set | C::Length => Some(KeyType::Bytes),
                _ => None,
            };
            v.push((what, Req { cmd, kt, args: vec![key.to_vec(), vec![1; 8]] }));
        }
    }
    v
}

pub fn c17_run_known(q: &Req) {
    let bytes = model::encode(q.cmd, q.kt, &q.args);
    let hop = Hop::new();
    let mut ctx = Context::new();
    let mut resp = Vec::new();
    if let Ok(Some(req)) = ctx.feed(&bytes) {
        let _ = hop.dispatch(&req, &mut resp);
    }
}

#[allow(unused)]
fn unused() -> R {
    ensure_eq!(1, 1, "x");
    Ok(())
}
