//! Deterministic randomness and small helpers.
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, prop: &str, idx: u64) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ idx.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.below(of.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    /// Some bytes, often of a structured kind.
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        match self.below(5) {
            0 => vec![0; len],
            1 => vec![0xff; len],
            2 => (0..len).map(|_| b'a' + self.below(4) as u8).collect(),
            3 => (0..len).map(|i| i as u8).collect(),
            _ => (0..len).map(|_| self.byte()).collect(),
        }
    }
    pub fn int(&mut self) -> i64 {
        match self.below(8) {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => *self.pick(&[0, 1, -1, 2, -2, 255, 256, i64::MAX - 1, i64::MIN + 1]),
            3 => self.byte() as i64,
            4 => -(self.byte() as i64),
            5 => {
                let (at, by) = (self.below(64), self.below(3) as i64 - 1);
                (1i64 << at).wrapping_add(by).wrapping_mul(if self.chance(3) { -1 } else { 1 })
            }
            _ => self.next() as i64,
        }
    }
    pub fn float(&mut self) -> f64 {
        match self.below(10) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 => f64::from_bits(0x7ff8_0000_0000_0000 | (self.next() & 0xffff)),
            5 => (self.byte() as f64 - 128.0) / *self.pick(&[1.0, 4.0, 10.0]),
            6 => *self.pick(&[f64::MAX, f64::MIN, f64::EPSILON, 1.0, -1.0, 9007199254740992.0, 9007199254740993.0, 1e300, -1e-300]),
            7 => *self.pick(&[f64::MIN_POSITIVE / 2.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324]),
            _ => f64::from_bits(self.next()),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n)
            .map(|_| match self.below(6) {
                0 => *self.pick(&['é', 'ß', '漢', '🦀', '\u{0}', '\u{7ff}', '\u{ffff}', '\u{10ffff}']),
                _ => (b'a' + self.below(26) as u8) as char,
            })
            .collect()
    }
}

/// Description of the case being run, for the replay file.
pub static INPUT: Mutex<String> = Mutex::new(String::new());

pub fn note(s: String) {
    *INPUT.lock().unwrap_or_else(|e| e.into_inner()) = s;
}
pub fn note_more(s: &str) {
    let mut g = INPUT.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < 20_000 {
        g.push_str("\n");
        g.push_str(s);
    }
}
pub fn get_note() -> String {
    INPUT.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for c in b.iter().take(96) {
        s.extend(std::ascii::escape_default(*c).map(|c| c as char));
    }
    s.push('"');
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn shows(v: &[Vec<u8>]) -> String {
    let mut s = format!("{} items [", v.len());
    for i in v.iter().take(12) {
        s.push_str(&show(i));
        s.push_str(", ");
    }
    s.push(']');
    s
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let a = $a; let b = $b;
        if a != b { return Err(format!("{}: expected {:?}, got {:?}", format!($($t)*), b, a)); }
    }};
}
