//! C18 to C21.
use crate::{ensure, ensure_eq, util::*};
use hop_engine::Hop;
use hop_internal_metrics::{Metrics, Snapshot};
use hop_internal_timer::Timer;
use std::{
    collections::BTreeMap,
    time::{Duration, Instant},
};

type M = (BTreeMap<String, u64>, BTreeMap<String, u64>);

fn snap_is(s: &Snapshot<String>, m: &M, keys: &[&str], what: &str) -> R {
    for k in keys {
        ensure_eq!(s.counter(&k.to_string()), m.0.get(*k).copied(), "{}: counter {}", what, k);
        ensure_eq!(s.gauge(&k.to_string()), m.1.get(*k).copied(), "{}: gauge {}", what, k);
    }
    let c: BTreeMap<String, u64> = s.counters().iter().map(|r| (r.key().clone(), *r.value())).collect();
    let g: BTreeMap<String, u64> = s.gauges().iter().map(|r| (r.key().clone(), *r.value())).collect();
    ensure_eq!(c, m.0.clone(), "{}: counters", what);
    ensure_eq!(g, m.1.clone(), "{}: gauges", what);
    Ok(())
}

pub fn c18(r: &mut Rng, idx: u64) -> R {
    if idx % 6000 == 5 {
        // More than 2^16 writes and many keys.
        note("70000 increments of 300 keys, with their index as gauges".into());
        let metrics: Metrics<u32> = Metrics::new();
        let w = metrics.writer();
        let rd = metrics.reader();
        for i in 0..70_000u32 {
            let k = if i < 66_000 { 7 } else { i % 300 };
            ensure!(w.increment(k) && w.gauge(i % 300, i as u64), "the metrics are gone");
        }
        for k in 0..301u32 {
            let n = (66_000..70_000u32).filter(|i| i % 300 == k).count() as u64 + if k == 7 { 66_000 } else { 0 };
            ensure_eq!(rd.counter(&k).unwrap_or(0), n, "counter {}", k);
            ensure_eq!(rd.gauge(&k), (0..70_000u32).rev().find(|i| i % 300 == k).map(u64::from), "gauge {}", k);
        }
        return Ok(());
    }
    note("on new metrics:".into());
    let keys = ["a", "b", "c", ""];
    let metrics: Metrics<String> = if r.chance(2) { Metrics::new() } else { Metrics::default() };
    let mut model: M = Default::default();
    let mut snaps: Vec<(Snapshot<String>, M)> = Vec::new();
    let mut readers = vec![metrics.reader()];
    let mut writers = vec![metrics.writer()];
    for _ in 0..r.range(1, 40) {
        let k = *r.pick(&keys);
        let w = r.pick(&writers).clone();
        match r.below(10) {
            0..=3 => {
                note_more(&format!("increment {:?}", k));
                ensure!(w.increment(k.to_string()), "increment says the metrics are gone");
                *model.0.entry(k.to_string()).or_default() += 1;
            }
            4..=6 => {
                let v = *r.pick(&[0u64, 0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, 77]);
                note_more(&format!("gauge {:?} {}", k, v));
                ensure!(w.gauge(k.to_string(), v), "gauge says the metrics are gone");
                model.1.insert(k.to_string(), v);
            }
            7 => {
                note_more("snapshot");
                let s = metrics.snapshot();
                snap_is(&s, &model, &keys, "new snapshot")?;
                snaps.push((s, model.clone()));
            }
            8 => {
                readers.push(metrics.reader());
                readers.push(readers[0].clone());
            }
            _ => {
                writers.push(metrics.writer());
                writers.push(w);
            }
        }
        let rd = r.pick(&readers);
        for k in &keys {
            ensure_eq!(rd.counter(&k.to_string()), model.0.get(*k).copied(), "counter {:?}", k);
            ensure_eq!(rd.gauge(&k.to_string()), model.1.get(*k).copied(), "gauge {:?}", k);
        }
        ensure!(readers.iter().all(|r| r.valid()) && writers.iter().all(|w| w.valid()), "invalid while the metrics live");
    }
    for (s, m) in &snaps {
        snap_is(s, m, &keys, "older snapshot")?;
    }
    // Another instance has nothing to do with it.
    let other: Metrics<String> = Metrics::new();
    snap_is(&other.snapshot(), &Default::default(), &keys, "another instance")?;
    note_more("drop the metrics");
    drop(metrics);
    for rd in &readers {
        ensure!(!rd.valid(), "reader valid though the metrics are gone");
        for k in &keys {
            ensure!(rd.counter(&k.to_string()).is_none() && rd.gauge(&k.to_string()).is_none(), "read from metrics that are gone");
        }
    }
    for w in &writers {
        ensure!(!w.valid(), "writer valid though the metrics are gone");
        ensure!(!w.increment("a".into()) && !w.gauge("b".into(), 1), "wrote to metrics that are gone");
    }
    for (s, m) in &snaps {
        snap_is(s, m, &keys, "snapshot after the end")?;
    }
    Ok(())
}

fn spin(r: &mut Rng) {
    let n = r.below(400);
    let mut x = 0u64;
    for i in 0..n {
        x = std::hint::black_box(x ^ i as u64);
    }
}

pub fn c19(r: &mut Rng, _idx: u64) -> R {
    #[cfg(feature = "hooks")]
    {
        let secs = [0i64, 1, -1, 2, 3, i64::MAX, i64::MAX - 1, i64::MIN, 1 << 32, (1 << 32) - 1, r.int()];
        let nanos = [0i64, 1, -1, 5, 999_999_999, i64::MIN, -1_000_000_000, 1_000_000_000, 4_294_967_295, 4_294_967_296, i64::MAX, r.below(1_000_000_000) as i64];
        let s = *r.pick(&secs);
        let n = *r.pick(&nanos);
        note(format!("parse_timespec({}, {})", s, n));
        let d = Timer::verif_parse_timespec(s, n);
        let (s0, n0) = (s.max(0) as u64, n.max(0) as u64);
        if n0 < 1_000_000_000 {
            ensure_eq!((d.as_secs(), d.subsec_nanos() as u64), (s0, n0), "seconds and nanoseconds");
        }
        // A timer that was started and stopped at given times.
        let a = Duration::new(r.below(5) as u64 + if r.chance(3) { 1 << 40 } else { 0 }, r.below(1_000_000_000) as u32);
        let gap = Duration::new(r.below(3) as u64, *r.pick(&[0u32, 1, 999_999_999, 123_456]));
        note(format!("a timer from {:?} for {:?}", a, gap));
        let t = Timer::verif_new(Some(a), Some(a + gap));
        ensure_eq!(t.duration(), Some(gap), "duration");
        ensure!(!t.is_running(), "running though stopped");
        let mut t2 = t.clone();
        ensure!(!t2.start() && t2.stop().is_none() && t2 == t, "a stopped timer was started or stopped");
        t2.reset();
        ensure!(t2 == Timer::new(), "reset didn't make it new");
        let mut t = Timer::verif_new(Some(a), None);
        ensure!(t.is_running() && t.duration().is_none() && !t.start() && t == Timer::verif_new(Some(a), None), "a running timer");
        t.reset();
        ensure!(t == Timer::new() && !t.is_running(), "reset of a running timer");
    }
    note("on a new timer:".into());
    let mut t = Timer::new();
    // 0: new, 1: running, 2: stopped.
    let mut state = 0;
    let mut started = (Instant::now(), Instant::now());
    let mut duration = None;
    for _ in 0..30 {
        match r.below(5) {
            0 | 1 => {
                note_more("start");
                let a = Instant::now();
                let before = t.clone();
                ensure_eq!(t.start(), state == 0, "start, in state {}", state);
                if state == 0 {
                    state = 1;
                    started = (a, Instant::now());
                } else {
                    ensure!(t == before, "a refused start changed the timer");
                }
            }
            2 => {
                note_more("stop");
                let a = Instant::now();
                let before = t.clone();
                let d = t.stop();
                let b = Instant::now();
                ensure_eq!(d.is_some(), state == 1, "stop, in state {}", state);
                if state == 1 {
                    state = 2;
                    duration = d;
                    let d = d.unwrap();
                    // The clock is the one the timer reads.
                    ensure!(d >= a - started.1 && d <= b - started.0, "duration {:?} isn't within {:?} and {:?}", d, a - started.1, b - started.0);
                } else {
                    ensure!(t == before, "a refused stop changed the timer");
                }
            }
            3 if r.chance(3) => {
                note_more("reset");
                t.reset();
                ensure!(t == Timer::new(), "reset didn't make it new");
                state = 0;
                duration = None;
            }
            _ => spin(r),
        }
        ensure_eq!(t.is_running(), state == 1, "is_running, in state {}", state);
        ensure_eq!(t.duration(), if state == 2 { duration } else { None }, "duration, in state {}", state);
    }
    Ok(())
}

#[cfg(not(feature = "hooks"))]
pub fn c20(_: &mut Rng, _idx: u64) -> R {
    Err("SKIP: session ids can't be made without the hooks".into())
}

#[cfg(feature = "hooks")]
pub fn c20(r: &mut Rng, _idx: u64) -> R {
    use hop_engine::{pubsub::Subscription, session::SessionId};
    use std::{collections::BTreeSet, future::Future, sync::Arc, task::{Context, Poll}};
    fn closed(s: &Subscription) -> bool {
        let rx = s.receiver();
        let mut f = Box::pin(rx.receive());
        let w = crate::front::waker();
        matches!(f.as_mut().poll(&mut Context::from_waker(&w)), Poll::Ready(None))
    }
    note("on a new engine:".into());
    let hop = Hop::new();
    let ps = hop.pubsub();
    let keys: [&[u8]; 4] = [b"a", b"b", b"ab", b"\0"];
    let ids: Vec<SessionId> = [0u32, 1, 2, u32::MAX].iter().map(|i| SessionId::verif_new(*i)).collect();
    let mut model: BTreeMap<(usize, usize), Arc<Subscription>> = BTreeMap::new();
    // Whether a session ever subscribed since it was removed.
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..r.range(1, 30) {
        let (k, s) = (r.below(4), r.below(4));
        match r.below(8) {
            0..=3 => {
                note_more(&format!("subscribe session {} to {}", s, k));
                let got = ps.subscribe(keys[k].to_vec(), ids[s]);
                let had = model.contains_key(&(s, k));
                ensure_eq!(got.is_none(), had, "subscribing session {} to key {} was refused", s, k);
                if let Some(w) = got {
                    let sub = w.upgrade().ok_or("the new subscription is gone")?;
                    for (o, x) in &model {
                        ensure!(!Arc::ptr_eq(x, &sub), "session {} was given the subscription of session {} to key {}", s, o.0, o.1);
                    }
                    ensure!(!closed(&sub), "the new subscription is closed");
                    model.insert((s, k), sub);
                    seen.insert(s);
                }
            }
            4 | 5 => {
                note_more(&format!("unsubscribe session {} from {}", s, k));
                let got = ps.unsubscribe(keys[k], ids[s]);
                ensure_eq!(got, model.remove(&(s, k)).is_some(), "unsubscribing session {} from key {}", s, k);
            }
            6 => {
                note_more(&format!("remove session {}", s));
                let got = ps.remove_session(ids[s]);
                let subs: Vec<_> = (0..4).filter_map(|k| model.remove(&(s, k))).collect();
                if !subs.is_empty() || !seen.contains(&s) {
                    ensure_eq!(got, !subs.is_empty(), "removing session {}", s);
                }
                seen.remove(&s);
                for sub in subs {
                    ensure!(closed(&sub), "a subscription of the removed session {} isn't closed", s);
                }
            }
            _ => {
                let ps2 = ps.clone();
                ensure_eq!(ps2.get(keys[k], ids[s]).is_some(), model.contains_key(&(s, k)), "get of a clone");
            }
        }
        for (k, key) in keys.iter().enumerate() {
            let mut want = BTreeSet::new();
            for (s, id) in ids.iter().enumerate() {
                let got = ps.get(key, *id).and_then(|w| w.upgrade());
                match (&got, model.get(&(s, k))) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        ensure!(Arc::ptr_eq(a, b), "session {} has another subscription to key {}", s, k);
                        ensure!(!closed(a), "the subscription of session {} to key {} was closed", s, k);
                    }
                    (a, b) => return Err(format!("session {} subscribed to key {}: {}, expected {}", s, k, a.is_some(), b.is_some())),
                }
                if model.contains_key(&(s, k)) {
                    want.insert(*id);
                }
            }
            let got = ps.verif_sessions(key);
            let set: BTreeSet<SessionId> = got.iter().copied().collect();
            ensure!(set == want && got.len() == want.len(), "sessions of key {}: expected {:?}, got {:?}", k, want, got);
        }
    }
    Ok(())
}

pub fn c21(r: &mut Rng, idx: u64) -> R {
    if idx % 12000 == 5 {
        note("70000 times add a session, then remove each".into());
        use hop_engine::metrics::Metric;
        let hop = Hop::new();
        let mut m = hop.sessions().clone();
        for i in 0..70_000u32 {
            let token = [i as u8; 32];
            let mut m2 = m.clone();
            let s = m2.add(token);
            ensure!(s.value().id == *s.key() && s.value().client_token == token, "session {} is {:?}", i, s.value());
            ensure_eq!(*s.key(), i, "the id of session {}", i);
        }
        for i in 0..70_001u32 {
            ensure_eq!(m.remove(i), i < 70_000, "removing session {}", i);
        }
        let c = |x| hop.metrics().counter(&x).unwrap_or(0);
        ensure_eq!((c(Metric::SessionsStarted), c(Metric::SessionsEnded)), (70_000, 70_000), "sessions counted");
        return Ok(());
    }
    note("on a new engine:".into());
    use hop_engine::metrics::Metric;
    let hop = Hop::new();
    let mut m = hop.sessions().clone();
    let metrics = hop.metrics();
    let mut live: BTreeMap<u32, [u8; 32]> = BTreeMap::new();
    let (mut started, mut ended) = (0u64, 0u64);
    let mut last: Option<u32> = None;
    for _ in 0..r.range(1, 40) {
        if r.chance(9) {
            m = hop.sessions().clone();
        }
        if r.chance(2) {
            let token = [r.byte(); 32];
            note_more("add");
            let s = m.add(token);
            let id = *s.key();
            ensure_eq!(s.value().id, id, "the id in the session");
            ensure_eq!(s.value().client_token, token, "the token of the session");
            drop(s);
            ensure!(!live.contains_key(&id), "the id {} is in use", id);
            ensure!(last.map(|l| id > l).unwrap_or(true), "the id {} after {:?}", id, last);
            last = Some(id);
            live.insert(id, token);
            started += 1;
        } else {
            let id = if r.chance(4) || live.is_empty() { r.below(50) as u32 } else { *live.keys().nth(r.below(live.len())).unwrap() };
            let id = if r.chance(20) { u32::MAX - r.below(3) as u32 } else { id };
            note_more(&format!("remove {}", id));
            let had = live.remove(&id).is_some();
            ensure_eq!(m.remove(id), had, "removing session {}", id);
            if had {
                ended += 1;
            }
        }
        ensure_eq!(metrics.counter(&Metric::SessionsStarted).unwrap_or(0), started, "sessions started");
        ensure_eq!(metrics.counter(&Metric::SessionsEnded).unwrap_or(0), ended, "sessions ended");
        ensure_eq!(metrics.counter(&Metric::CommandsSuccessful).unwrap_or(0) + metrics.counter(&Metric::CommandsErrored).unwrap_or(0), 0, "commands counted");
        #[cfg(feature = "hooks")]
        {
            let mut ids = m.verif_ids();
            ids.sort();
            ensure!(ids.iter().copied().eq(live.keys().copied()), "sessions {:?}, expected {:?}", ids, live.keys());
        }
    }
    // What is left is exactly what wasn't removed.
    for id in 0..60 {
        ensure_eq!(m.remove(id), live.contains_key(&id), "removing session {} at the end", id);
    }
    Ok(())
}
