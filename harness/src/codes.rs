//! C09.
use crate::{ensure, ensure_eq, model::*, responses::*, util::*};
use hop_engine::{
    command::{
        command_id::CommandId,
        request::ParseError as RequestParseError,
        response::ResponseType,
        DispatchError,
    },
    metrics::Metric,
    state::KeyType,
};
use std::{convert::TryFrom, str::FromStr};

const RESPONSE_TYPES: [(ResponseType, u8); 10] = [
    (ResponseType::Boolean, 0),
    (ResponseType::Bytes, 1),
    (ResponseType::Float, 2),
    (ResponseType::Integer, 3),
    (ResponseType::List, 4),
    (ResponseType::Map, 5),
    (ResponseType::Set, 6),
    (ResponseType::String, 7),
    (ResponseType::ParseError, 8),
    (ResponseType::DispatchError, 9),
];

fn table<T: Copy + PartialEq + std::fmt::Debug>(
    what: &str,
    all: &[T],
    code: impl Fn(T) -> u8,
    back: impl Fn(u8) -> Option<T>,
) -> R {
    for (i, a) in all.iter().enumerate() {
        ensure_eq!(back(code(*a)), Some(*a), "{}: code {} of {:?} and back", what, code(*a), a);
        for b in &all[..i] {
            ensure!(code(*a) != code(*b), "{}: {:?} and {:?} have the same code", what, a, b);
        }
    }
    for c in 0..=255u8 {
        let known = all.iter().find(|a| code(**a) == c).copied();
        ensure_eq!(back(c), known, "{}: code {}", what, c);
    }
    Ok(())
}

pub fn c09(r: &mut Rng, idx: u64) -> R {
    if idx == 0 {
        note("all codes".into());
        let cmds: Vec<CommandId> = COMMANDS.iter().map(|c| c.0).collect();
        table("command", &cmds, |c| c as u8, |c| CommandId::try_from(c).ok())?;
        let kts: Vec<KeyType> = KEY_TYPES.iter().map(|c| c.0).collect();
        table("key type", &kts, |c| c as u8, |c| KeyType::try_from(c).ok())?;
        let rts: Vec<ResponseType> = RESPONSE_TYPES.iter().map(|c| c.0).collect();
        table("response type", &rts, |c| c as u8, |c| ResponseType::try_from(c).ok())?;
        let des: Vec<DispatchError> = DISPATCH_ERRORS.iter().map(|c| c.0).collect();
        table("dispatch error", &des, |c| c as u8, |c| DispatchError::try_from(c).ok())?;
        let pes: Vec<RequestParseError> = REQUEST_ERRORS.iter().map(|c| c.0).collect();
        table("request error", &pes, |c| c as u8, |c| RequestParseError::try_from(c).ok())?;
        note("all names".into());
        for (c, _, name) in COMMANDS.iter() {
            ensure_eq!(c.name(), *name, "name of {:?}", c);
            ensure_eq!(CommandId::from_str(name).ok(), Some(*c), "command named {}", name);
            ensure_eq!(CommandId::try_from(*name).ok(), Some(*c), "command named {}", name);
            ensure_eq!(c.to_string(), *name, "command displayed");
        }
        let metrics = [
            (Metric::CommandsErrored, "commands_errored"),
            (Metric::CommandsSuccessful, "commands_successful"),
            (Metric::SessionsEnded, "sessions_ended"),
            (Metric::SessionsStarted, "sessions_started"),
        ];
        for (i, (m, n)) in metrics.iter().enumerate() {
            ensure_eq!(m.name(), *n, "name of {:?}", m);
            for (o, _) in &metrics[..i] {
                ensure!(o.name() != m.name(), "{:?} and {:?} have the same name", o, m);
            }
        }
        return Ok(());
    }
    // Names close to those there are.
    let base = r.pick(&COMMANDS).2;
    let mut s: Vec<char> = base.chars().collect();
    let pool: Vec<char> = ": abdeginr ETéA\u{0}".chars().collect();
    for _ in 0..r.range(0, 2) {
        let at = r.below(s.len() + 1);
        match r.below(5) {
            0 => s.insert(at, *r.pick(&pool)),
            1 if at < s.len() => {
                s.remove(at);
            }
            2 if at < s.len() => s[at] = s[at].to_ascii_uppercase(),
            3 => s.truncate(at),
            _ => s.extend(r.pick(&COMMANDS).2.chars()),
        }
    }
    let mut s: String = s.into_iter().collect();
    if r.chance(8) {
        s = r.string(8);
    }
    note(format!("name {:?}", s));
    let want = COMMANDS.iter().find(|c| c.2 == s).map(|c| c.0);
    ensure_eq!(CommandId::from_str(&s).ok(), want, "command named {:?}", s);
    ensure_eq!(CommandId::try_from(s.as_str()).ok(), want, "command named {:?}", s);
    Ok(())
}
