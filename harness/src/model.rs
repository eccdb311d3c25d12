//! The reference semantics, written from the properties and the protocol and
//! sharing nothing with the code under test but its public types.
use crate::util::*;
use hop_engine::{
    command::{CommandId, DispatchError},
    dashmap::{DashMap, DashSet},
    state::{KeyType, Value},
};
use std::collections::{BTreeMap, BTreeSet};

pub const COMMANDS: [(CommandId, u8, &str); 16] = [
    (CommandId::Increment, 0, "increment"),
    (CommandId::Decrement, 1, "decrement"),
    (CommandId::IncrementBy, 2, "increment:by"),
    (CommandId::DecrementBy, 3, "decrement:by"),
    (CommandId::Set, 10, "set"),
    (CommandId::Get, 11, "get"),
    (CommandId::Delete, 12, "delete"),
    (CommandId::Exists, 13, "exists"),
    (CommandId::Is, 14, "is"),
    (CommandId::Rename, 15, "rename"),
    (CommandId::Type, 16, "type"),
    (CommandId::Append, 20, "append"),
    (CommandId::Length, 21, "length"),
    (CommandId::Keys, 22, "keys"),
    (CommandId::Echo, 100, "echo"),
    (CommandId::Stats, 101, "stats"),
];

pub const KEY_TYPES: [(KeyType, u8); 8] = [
    (KeyType::Bytes, 0),
    (KeyType::Boolean, 1),
    (KeyType::Float, 2),
    (KeyType::Integer, 3),
    (KeyType::String, 4),
    (KeyType::List, 5),
    (KeyType::Map, 6),
    (KeyType::Set, 7),
];

pub fn code(c: CommandId) -> u8 {
    COMMANDS.iter().find(|x| x.0 == c).unwrap().1
}
pub fn kt_code(k: KeyType) -> u8 {
    KEY_TYPES.iter().find(|x| x.0 == k).unwrap().1
}
pub fn is_simple(c: CommandId) -> bool {
    c == CommandId::Stats
}
pub fn takes_key(c: CommandId) -> bool {
    c != CommandId::Stats && c != CommandId::Echo
}

/// The bytes of a request.
pub fn encode(cmd: CommandId, kt: Option<KeyType>, args: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![code(cmd) | if kt.is_some() { 0x80 } else { 0 }];
    if let Some(k) = kt {
        b.push(kt_code(k));
    }
    if !is_simple(cmd) {
        b.push(args.len() as u8);
        for a in args {
            b.extend_from_slice(&(a.len() as u32).to_be_bytes());
            b.extend_from_slice(a);
        }
    }
    b
}

#[derive(Clone, Debug, PartialEq)]
pub enum Parsed {
    Incomplete,
    BadCommand,
    BadKeyType,
    /// Command, key type, arguments and the length of the request.
    Done(CommandId, Option<KeyType>, Vec<Vec<u8>>, usize),
}

pub fn parse(buf: &[u8]) -> Parsed {
    let b0 = match buf.first() {
        Some(b) => *b,
        None => return Parsed::Incomplete,
    };
    let cmd = match COMMANDS.iter().find(|x| x.1 == b0 % 128) {
        Some(c) => c.0,
        None => return Parsed::BadCommand,
    };
    let mut at = 1;
    let mut kt = None;
    if b0 >= 128 {
        match buf.get(1) {
            None => return Parsed::Incomplete,
            Some(k) => match KEY_TYPES.iter().find(|x| x.1 == *k) {
                Some(k) => kt = Some(k.0),
                None => return Parsed::BadKeyType,
            },
        }
        at = 2;
    }
    if is_simple(cmd) {
        return Parsed::Done(cmd, kt, vec![], at);
    }
    let n = match buf.get(at) {
        None => return Parsed::Incomplete,
        Some(n) => *n,
    };
    at += 1;
    let mut args = Vec::new();
    for _ in 0..n {
        if buf.len() - at < 4 {
            return Parsed::Incomplete;
        }
        let len = u32::from_be_bytes([buf[at], buf[at + 1], buf[at + 2], buf[at + 3]]) as usize;
        at += 4;
        if buf.len() - at < len {
            return Parsed::Incomplete;
        }
        args.push(buf[at..at + len].to_vec());
        at += len;
    }
    Parsed::Done(cmd, kt, args, at)
}

/// A value, comparable.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum MV {
    Bool(bool),
    Bytes(Vec<u8>),
    /// By its bits.
    Float(u64),
    Int(i64),
    List(Vec<Vec<u8>>),
    Map(BTreeMap<Vec<u8>, Vec<u8>>),
    Set(BTreeSet<Vec<u8>>),
    Str(String),
}

impl MV {
    pub fn of(v: &Value) -> MV {
        match v {
            Value::Boolean(b) => MV::Bool(*b),
            Value::Bytes(b) => MV::Bytes(b.clone()),
            Value::Float(f) => MV::Float(f.to_bits()),
            Value::Integer(i) => MV::Int(*i),
            Value::List(l) => MV::List(l.clone()),
            Value::Map(m) => MV::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect()),
            Value::Set(s) => MV::Set(s.iter().map(|r| r.key().clone()).collect()),
            Value::String(s) => MV::Str(s.clone()),
        }
    }
    pub fn to(&self) -> Value {
        match self.clone() {
            MV::Bool(b) => Value::Boolean(b),
            MV::Bytes(b) => Value::Bytes(b),
            MV::Float(f) => Value::Float(f64::from_bits(f)),
            MV::Int(i) => Value::Integer(i),
            MV::List(l) => Value::List(l),
            MV::Map(m) => Value::Map(m.into_iter().collect::<DashMap<_, _>>()),
            MV::Set(s) => Value::Set(s.into_iter().collect::<DashSet<_>>()),
            MV::Str(s) => Value::String(s),
        }
    }
    pub fn kind(&self) -> KeyType {
        match self {
            MV::Bool(_) => KeyType::Boolean,
            MV::Bytes(_) => KeyType::Bytes,
            MV::Float(_) => KeyType::Float,
            MV::Int(_) => KeyType::Integer,
            MV::List(_) => KeyType::List,
            MV::Map(_) => KeyType::Map,
            MV::Set(_) => KeyType::Set,
            MV::Str(_) => KeyType::String,
        }
    }
    /// Equal, taking floats by value: zeroes are equal and so are NaNs.
    pub fn num_eq(&self, o: &MV) -> bool {
        match (self, o) {
            (MV::Float(a), MV::Float(b)) => {
                let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                a == b || (a.is_nan() && b.is_nan())
            }
            _ => self == o,
        }
    }
    pub fn show(&self) -> String {
        let s = match self {
            MV::Float(b) => format!("Float({:?} {:#x})", f64::from_bits(*b), b),
            MV::Bytes(b) => format!("Bytes({})", show(b)),
            MV::List(l) => format!("List({})", shows(l)),
            o => format!("{:?}", o),
        };
        if s.len() > 1500 {
            let mut n = 1500;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}..", &s[..n])
        } else {
            s
        }
    }
}

/// A random value, sizes up to about `size`.
pub fn value(r: &mut Rng, size: usize) -> MV {
    let n = if r.chance(4) { r.below(size + 1) } else { r.below(5) };
    match r.below(8) {
        0 => MV::Bool(r.chance(2)),
        1 => MV::Bytes(r.bytes(n)),
        2 => MV::Float(r.float().to_bits()),
        3 => MV::Int(r.int()),
        4 => MV::List((0..n).map(|_| item(r, 12)).collect()),
        5 => MV::Map((0..n).map(|_| (item(r, 255), item(r, 40))).collect()),
        6 => MV::Set((0..n).map(|_| item(r, 40)).collect()),
        _ => MV::Str(r.string(n)),
    }
}
pub fn item(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1 => max,
        _ => r.range(1, 6.min(max)),
    };
    r.bytes(n)
}

/// A decoded response frame.
#[derive(Clone, Debug, PartialEq)]
pub enum Frame {
    Value(MV),
    Dispatch(u8),
    Parse(u8),
}

/// Decodes exactly one frame that is all of `buf`.
pub fn frame(buf: &[u8]) -> Result<Frame, String> {
    fn take<'a>(at: &mut usize, buf: &'a [u8], n: usize) -> Result<&'a [u8], String> {
        if buf.len() - *at < n {
            return Err(format!("frame ends early at {} (of {})", *at, buf.len()));
        }
        let s = &buf[*at..*at + n];
        *at += n;
        Ok(s)
    }
    fn num(b: &[u8]) -> usize {
        b.iter().fold(0, |a, b| a << 8 | *b as usize)
    }
    if buf.len() < 5 {
        return Err(format!("frame of {} bytes", buf.len()));
    }
    let len = num(&buf[..4]);
    if len != buf.len() - 4 {
        return Err(format!("frame says {} bytes follow, but {} do", len, buf.len() - 4));
    }
    let mut at = 5;
    let out = match buf[4] {
        0 => {
            let b = take(&mut at, buf, 1)?[0];
            if b > 1 {
                return Err(format!("boolean byte {}", b));
            }
            Frame::Value(MV::Bool(b == 1))
        }
        k @ (1 | 7) => {
            let n = num(take(&mut at, buf, 4)?);
            let b = take(&mut at, buf, n)?.to_vec();
            Frame::Value(if k == 1 {
                MV::Bytes(b)
            } else {
                MV::Str(String::from_utf8(b).map_err(|_| "string isn't UTF-8".to_string())?)
            })
        }
        2 => Frame::Value(MV::Float(num(take(&mut at, buf, 8)?) as u64)),
        3 => Frame::Value(MV::Int(num(take(&mut at, buf, 8)?) as i64)),
        4 => {
            let n = num(take(&mut at, buf, 2)?);
            let mut l = Vec::new();
            for _ in 0..n {
                let n = num(take(&mut at, buf, 4)?);
                l.push(take(&mut at, buf, n)?.to_vec());
            }
            Frame::Value(MV::List(l))
        }
        5 => {
            let n = num(take(&mut at, buf, 2)?);
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let n = num(take(&mut at, buf, 1)?);
                let k = take(&mut at, buf, n)?.to_vec();
                let n = num(take(&mut at, buf, 4)?);
                let v = take(&mut at, buf, n)?.to_vec();
                if m.insert(k, v).is_some() {
                    return Err("key twice in a map".to_string());
                }
            }
            Frame::Value(MV::Map(m))
        }
        6 => {
            let n = num(take(&mut at, buf, 2)?);
            let mut m = BTreeSet::new();
            for _ in 0..n {
                let n = num(take(&mut at, buf, 2)?);
                if !m.insert(take(&mut at, buf, n)?.to_vec()) {
                    return Err("item twice in a set".to_string());
                }
            }
            Frame::Value(MV::Set(m))
        }
        8 => Frame::Parse(take(&mut at, buf, 1)?[0]),
        9 => Frame::Dispatch(take(&mut at, buf, 1)?[0]),
        k => return Err(format!("frame type {}", k)),
    };
    if at != buf.len() {
        return Err(format!("frame has {} bytes, {} are used", buf.len(), at));
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub struct Req {
    pub cmd: CommandId,
    pub kt: Option<KeyType>,
    pub args: Vec<Vec<u8>>,
}

impl Req {
    pub fn show(&self) -> String {
        format!("{:?} {:?} {}", self.cmd, self.kt, shows(&self.args))
    }
}

pub type St = BTreeMap<Vec<u8>, MV>;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Counters {
    pub ok: u64,
    pub err: u64,
    pub started: u64,
    pub ended: u64,
}

fn num8(b: &[u8]) -> Option<u64> {
    Some(u64::from_be_bytes(b.get(..8)?.try_into().unwrap()))
}

pub fn map_of(args: &[Vec<u8>]) -> Option<BTreeMap<Vec<u8>, Vec<u8>>> {
    if args.len() % 2 != 0 {
        return None;
    }
    let mut m = BTreeMap::new();
    for p in args.chunks(2) {
        if p[0].len() > 255 {
            return None;
        }
        m.insert(p[0].clone(), p[1].clone());
    }
    Some(m)
}
pub fn set_of(args: &[Vec<u8>]) -> Option<BTreeSet<Vec<u8>>> {
    if args.iter().any(|a| a.len() > 65535) {
        return None;
    }
    Some(args.iter().cloned().collect())
}

/// The value the arguments after the key encode for a type.
pub fn value_of(kt: KeyType, args: &[Vec<u8>]) -> Option<MV> {
    let first = args.first()?;
    Some(match kt {
        KeyType::Bytes => MV::Bytes(first.clone()),
        KeyType::Boolean => MV::Bool(*first.first()? != 0),
        KeyType::Float => MV::Float(num8(first)?),
        KeyType::Integer => MV::Int(num8(first)? as i64),
        KeyType::String => MV::Str(String::from_utf8(first.clone()).ok()?),
        KeyType::List => MV::List(args.to_vec()),
        KeyType::Map => MV::Map(map_of(args)?),
        KeyType::Set => MV::Set(set_of(args)?),
    })
}

/// What a command does: the new state and the response or error.
pub fn run(st: &mut St, c: &Counters, q: &Req) -> Result<MV, DispatchError> {
    use CommandId as C;
    use DispatchError as E;
    let key = if takes_key(q.cmd) { q.args.first().cloned() } else { None };
    let kind = |st: &St, k: &Vec<u8>| q.kt.or_else(|| st.get(k).map(MV::kind));
    match q.cmd {
        C::Append => {
            let key = key.ok_or(E::KeyUnspecified)?;
            let args = &q.args[1..];
            match kind(st, &key).unwrap_or(KeyType::Bytes) {
                KeyType::Bytes => match st.get(&key).cloned().unwrap_or(MV::Bytes(vec![])) {
                    MV::Bytes(mut b) => {
                        b.extend(args.concat());
                        st.insert(key, MV::Bytes(b.clone()));
                        Ok(MV::Bytes(b))
                    }
                    _ => Err(E::KeyTypeDifferent),
                },
                KeyType::List => match st.get(&key).cloned().unwrap_or(MV::List(vec![])) {
                    MV::List(mut l) => {
                        if l.len() + args.len() > 65535 {
                            return Err(E::PreconditionFailed);
                        }
                        l.extend(args.iter().cloned());
                        st.insert(key, MV::List(l.clone()));
                        Ok(MV::List(l))
                    }
                    _ => Err(E::KeyTypeDifferent),
                },
                KeyType::String => {
                    let mut t = String::new();
                    for a in args {
                        t.push_str(std::str::from_utf8(a).map_err(|_| E::ArgumentRetrieval)?);
                    }
                    match st.get(&key).cloned().unwrap_or(MV::Str(String::new())) {
                        MV::Str(mut s) => {
                            s.push_str(&t);
                            st.insert(key, MV::Str(s.clone()));
                            Ok(MV::Str(s))
                        }
                        _ => Err(E::KeyTypeDifferent),
                    }
                }
                _ => Err(E::KeyTypeDifferent),
            }
        }
        C::Increment | C::Decrement | C::IncrementBy | C::DecrementBy => {
            let key = key.ok_or(E::KeyUnspecified)?;
            let minus = matches!(q.cmd, C::Decrement | C::DecrementBy);
            let by = matches!(q.cmd, C::IncrementBy | C::DecrementBy);
            let amount = q.args.get(1).and_then(|a| num8(a));
            if by && amount.is_none() {
                return Err(E::ArgumentRetrieval);
            }
            if kind(st, &key) == Some(KeyType::Float) {
                let amount = if by { f64::from_bits(amount.unwrap()) } else { 1.0 };
                match st.get(&key).cloned().unwrap_or(MV::Float(0f64.to_bits())) {
                    MV::Float(f) => {
                        let f = f64::from_bits(f);
                        let f = MV::Float((if minus { f - amount } else { f + amount }).to_bits());
                        st.insert(key, f.clone());
                        Ok(f)
                    }
                    _ => Err(E::KeyTypeDifferent),
                }
            } else {
                let amount = if by { amount.unwrap() as i64 as i128 } else { 1 };
                match st.get(&key).cloned() {
                    None | Some(MV::Int(_)) => {
                        let i = match st.get(&key) {
                            Some(MV::Int(i)) => *i as i128,
                            _ => 0,
                        };
                        let i = if minus { i - amount } else { i + amount };
                        let i = i64::try_from(i).map_err(|_| E::PreconditionFailed)?;
                        st.insert(key, MV::Int(i));
                        Ok(MV::Int(i))
                    }
                    _ => Err(E::KeyTypeDifferent),
                }
            }
        }
        C::Delete => {
            if q.kt.is_some() {
                return Err(E::KeyTypeUnexpected);
            }
            let key = key.ok_or(E::KeyUnspecified)?;
            st.remove(&key).ok_or(E::PreconditionFailed)?;
            Ok(MV::Bytes(key))
        }
        C::Echo => Ok(MV::List(q.args.clone())),
        C::Exists => {
            if q.kt.is_some() {
                return Err(E::KeyTypeUnexpected);
            }
            if q.args.is_empty() {
                return Err(E::ArgumentRetrieval);
            }
            Ok(MV::Bool(q.args.iter().all(|k| st.contains_key(k))))
        }
        C::Get => {
            let key = key.ok_or(E::KeyUnspecified)?;
            let v = st.get(&key).ok_or(E::KeyNonexistent)?;
            if q.kt.map(|k| k != v.kind()).unwrap_or(false) {
                return Err(E::KeyTypeDifferent);
            }
            Ok(v.clone())
        }
        C::Is => {
            let kt = q.kt.ok_or(E::KeyTypeRequired)?;
            if q.args.is_empty() {
                return Err(E::ArgumentRetrieval);
            }
            Ok(MV::Bool(q.args.iter().all(|k| st.get(k).map(MV::kind) == Some(kt))))
        }
        C::Keys => {
            let key = key.ok_or(E::KeyUnspecified)?;
            match kind(st, &key).unwrap_or(KeyType::Map) {
                KeyType::Map => match st.get(&key).ok_or(E::KeyNonexistent)? {
                    MV::Map(m) => Ok(MV::List(m.keys().cloned().collect())),
                    _ => Err(E::KeyTypeDifferent),
                },
                _ => Err(E::KeyTypeInvalid),
            }
        }
        C::Length => {
            let key = key.ok_or(E::KeyUnspecified)?;
            let kt = kind(st, &key).unwrap_or(KeyType::Bytes);
            if matches!(kt, KeyType::Boolean | KeyType::Float | KeyType::Integer) {
                return Err(E::KeyTypeInvalid);
            }
            let v = st.get(&key).ok_or(E::KeyNonexistent)?;
            if v.kind() != kt {
                return Err(E::KeyTypeDifferent);
            }
            Ok(MV::Int(match v {
                MV::Bytes(b) => b.len(),
                MV::List(b) => b.len(),
                MV::Map(b) => b.len(),
                MV::Set(b) => b.len(),
                MV::Str(b) => b.chars().count(),
                _ => unreachable!(),
            } as i64))
        }
        C::Rename => {
            if q.kt.is_some() {
                return Err(E::KeyTypeUnexpected);
            }
            let key = key.ok_or(E::KeyUnspecified)?;
            let to = q.args.get(1).cloned().ok_or(E::ArgumentRetrieval)?;
            if !st.contains_key(&key) {
                return Err(E::KeyNonexistent);
            }
            if st.contains_key(&to) {
                return Err(E::PreconditionFailed);
            }
            let v = st.remove(&key).unwrap();
            st.insert(to.clone(), v);
            Ok(MV::Bytes(to))
        }
        C::Set => {
            let key = key.ok_or(E::KeyUnspecified)?;
            let kt = kind(st, &key).unwrap_or(KeyType::Bytes);
            let v = value_of(kt, &q.args[1..]).ok_or(E::ArgumentRetrieval)?;
            st.insert(key, v.clone());
            Ok(v)
        }
        C::Stats => {
            if q.kt.is_some() {
                return Err(E::KeyTypeUnexpected);
            }
            let mut m = BTreeMap::new();
            for (n, v) in [
                ("commands_errored", c.err),
                ("commands_successful", c.ok),
                ("sessions_ended", c.ended),
                ("sessions_started", c.started),
            ] {
                if v > 0 {
                    m.insert(n.as_bytes().to_vec(), (v as i64).to_be_bytes().to_vec());
                }
            }
            Ok(MV::Map(m))
        }
        C::Type => {
            let key = key.ok_or(E::KeyUnspecified)?;
            if q.kt.is_some() {
                return Err(E::KeyTypeUnexpected);
            }
            Ok(MV::Int(kt_code(st.get(&key).ok_or(E::KeyNonexistent)?.kind()) as i64))
        }
    }
}
