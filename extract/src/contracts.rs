//! Contract files: `=== fn PATH`, `=== mod PATH`, `=== impl PATH` sections, with
//! `--- NAME [ARG]` subsections.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub spec: String,
    pub attrs: String,
    pub ret: Option<String>,
    pub entry: String,
    pub shape: Option<Vec<String>>,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub external: bool,
    pub skip: bool,
    pub used: bool,
    pub closure: bool,
}
#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub inv: String,
    pub entry: String,
    pub exit: String,
    pub before: String,
    pub end: String,
    pub result: String,
}
#[derive(Default)]
pub struct Db {
    pub fns: BTreeMap<String, FnContract>,
    pub mods: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub types: BTreeMap<String, String>,
    pub sp: String,
    /// `=== sp NAME`: a child module of `sp`, which sees the rest of it.
    pub sp_parts: Vec<(String, String)>,
    pub mut_self: Vec<String>,
    /// Functions whose parameters by value are taken by reference, so that contracts can speak of what is done to them.
    pub by_ref: Vec<String>,
    /// Module, method, and the specified wrapper its calls are made to there.
    pub calls: Vec<(String, String, String)>,
    pub mut_types: Vec<String>,
    pub inline: Vec<String>,
    pub drop: Vec<String>,
    pub params: BTreeMap<String, Vec<String>>,
}

impl FnContract {
    /// The same contract for a parameter with another name.
    pub fn rename(&mut self, a: &str, b: &str) {
        let mut all: Vec<&mut String> = vec![&mut self.spec, &mut self.entry];
        for l in self.loops.values_mut() {
            all.extend([&mut l.inv, &mut l.entry, &mut l.exit, &mut l.before, &mut l.end]);
        }
        all.extend(self.before.iter_mut().chain(self.after.iter_mut()).map(|x| &mut x.1));
        for t in all {
            *t = replace_word(t, a, b);
        }
    }
}
fn replace_word(t: &str, a: &str, b: &str) -> String {
    let word = |c: Option<char>| c.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(a) {
        let before = rest[..i].chars().last().or(out.chars().last());
        let after = rest[i + a.len()..].chars().next();
        out.push_str(&rest[..i]);
        // Not a part of a longer name and not a field or a method.
        out.push_str(if word(before) || word(after) || before == Some('.') && !out.ends_with("..") { a } else { b });
        rest = &rest[i + a.len()..];
    }
    out.push_str(rest);
    out
}

impl Db {
    pub fn raw(&self, path: &[String]) -> String {
        self.mods.get(&path.join("::")).cloned().unwrap_or_default()
    }
    pub fn load(&mut self, text: &str, file: &str) {
        let mut cur: Option<(String, String)> = None;
        let mut buf = String::new();
        for line in text.lines().chain(std::iter::once("=== end")) {
            if let Some(h) = line.strip_prefix("=== ") {
                if let Some((k, p)) = cur.take() {
                    self.section(&k, &p, &buf, file);
                }
                buf.clear();
                let mut s = h.trim().splitn(2, ' ');
                let k = s.next().unwrap().to_string();
                let p = s.next().unwrap_or("").trim().to_string();
                cur = if k == "end" { None } else { Some((k, p)) };
            } else if cur.is_some() {
                buf.push_str(line);
                buf.push('\n');
            }
        }
    }
    fn section(&mut self, kind: &str, path: &str, body: &str, file: &str) {
        match kind {
            "mod" => {
                let p = if path == "crate" { "" } else { path };
                self.mods.entry(p.to_string()).or_default().push_str(body)
            }
            "sp" if path.is_empty() => self.sp.push_str(body),
            "sp" => match self.sp_parts.iter_mut().find(|(n, _)| n == path) {
                Some((_, t)) => t.push_str(body),
                None => self.sp_parts.push((path.to_string(), body.to_string())),
            },
            "impl" => self.impls.entry(path.to_string()).or_default().push_str(body),
            "type" => self.types.entry(path.to_string()).or_default().push_str(body.trim()),
            "mut_self" => self.mut_self.extend(body.split_whitespace().map(|s| s.to_string())),
            "drop" => self.drop.extend(body.split_whitespace().map(|s| s.to_string())),
            "inline" => self.inline.extend(body.split_whitespace().map(|s| s.to_string())),
            "by_ref" => self.by_ref.extend(body.split_whitespace().map(|s| s.to_string())),
            "calls" => self.calls.extend(body.lines().filter_map(|l| match &l.split_whitespace().collect::<Vec<_>>()[..] {
                [m, a, b] => Some((m.to_string(), a.to_string(), b.to_string())),
                _ => None,
            })),
            "mut_types" => self.mut_types.extend(body.split_whitespace().map(|s| s.to_string())),
            "params" => {
                for l in body.lines() {
                    let mut w = l.split_whitespace().map(|s| s.to_string());
                    if let Some(p) = w.next() {
                        self.params.insert(p, w.collect());
                    }
                }
            }
            "fn" => {
                let mut c = FnContract::default();
                let mut name = String::from("spec");
                let mut arg = String::new();
                let mut buf = String::new();
                for line in body.lines().chain(std::iter::once("--- end")) {
                    if let Some(h) = line.strip_prefix("--- ") {
                        let b = buf.trim_end().to_string();
                        let n: usize = arg.parse().unwrap_or(0);
                        match name.as_str() {
                            "spec" => c.spec = b,
                            "attr" => c.attrs = b,
                            "ret" => c.ret = Some(arg.clone()),
                            "entry" => c.entry = b,
                            "external" => c.external = true,
                            "closure" => c.closure = true,
                            "skip" => c.skip = true,
                            "shape" => {
                                c.shape = Some(arg.split_whitespace().map(|s| s.into()).collect())
                            }
                            "loop" => c.loops.entry(n).or_default().inv = b,
                            "loop-entry" => c.loops.entry(n).or_default().entry = b,
                            "loop-exit" => c.loops.entry(n).or_default().exit = b,
                            "loop-before" => c.loops.entry(n).or_default().before = b,
                            "loop-end" => c.loops.entry(n).or_default().end = b,
                            "loop-type" => c.loops.entry(n).or_default().result = b.trim().to_string(),
                            "before" => c.before.push((arg.clone(), b)),
                            "after" => c.after.push((arg.clone(), b)),
                            x => panic!("{}: unknown subsection {} in {}", file, x, path),
                        }
                        buf.clear();
                        let mut s = h.trim().splitn(2, ' ');
                        name = s.next().unwrap().to_string();
                        arg = s.next().unwrap_or("").trim().to_string();
                    } else {
                        buf.push_str(line);
                        buf.push('\n');
                    }
                }
                if self.fns.insert(path.to_string(), c).is_some() {
                    panic!("{}: duplicate contract for {}", file, path);
                }
            }
            _ => panic!("{}: unknown section {}", file, kind),
        }
    }
}
