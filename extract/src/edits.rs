//! Nested textual edits over a source text.
#[derive(Clone, Debug)]
pub enum Part {
    Lit(String),
    Src(usize, usize),
}
#[derive(Clone, Debug)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub parts: Vec<Part>,
    pub prio: i32,
}
#[derive(Default)]
pub struct Edits {
    pub list: Vec<Edit>,
}
pub fn lit(s: impl Into<String>) -> Part {
    Part::Lit(s.into())
}
pub fn src(r: std::ops::Range<usize>) -> Part {
    Part::Src(r.start, r.end)
}
impl Edits {
    pub fn replace(&mut self, r: std::ops::Range<usize>, s: impl Into<String>) {
        self.list.push(Edit { start: r.start, end: r.end, parts: vec![Part::Lit(s.into())], prio: 0 });
    }
    pub fn parts(&mut self, r: std::ops::Range<usize>, parts: Vec<Part>) {
        self.list.push(Edit { start: r.start, end: r.end, parts, prio: 0 });
    }
    pub fn insert(&mut self, at: usize, s: impl Into<String>) {
        let prio = self.list.len() as i32;
        self.list.push(Edit { start: at, end: at, parts: vec![Part::Lit(s.into())], prio });
    }
    pub fn render(&self, text: &str, lo: usize, hi: usize) -> String {
        let mut idx: Vec<usize> = (0..self.list.len()).collect();
        idx.sort_by_key(|&i| {
            let e = &self.list[i];
            // insertions first at a position, then larger edits first
            (e.start, if e.start == e.end { 0 } else { 1 }, usize::MAX - (e.end - e.start), e.prio)
        });
        self.go(text, lo, hi, &idx, None)
    }
    fn go(&self, text: &str, lo: usize, hi: usize, idx: &[usize], skip: Option<usize>) -> String {
        let mut out = String::new();
        let mut pos = lo;
        for (k, &i) in idx.iter().enumerate() {
            let e = &self.list[i];
            if Some(i) == skip || e.start < pos || e.start < lo || e.end > hi || e.start >= hi {
                continue;
            }
            out.push_str(&text[pos..e.start]);
            pos = e.start;
            for p in &e.parts {
                match p {
                    Part::Lit(s) => out.push_str(s),
                    Part::Src(a, b) => out.push_str(&self.go(text, *a, *b, idx, Some(i))),
                }
            }
            let _ = k;
            pos = e.end;
        }
        out.push_str(&text[pos..hi]);
        out
    }
}
