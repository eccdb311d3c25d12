//! Mechanical extraction of a crate of /repo into one Verus source file.
//!
//! Every item is copied verbatim from the source text apart from the edits made
//! below; each kind of edit is counted and reported (`--report`).  Contracts are
//! read from the files in `--contracts` and attached by function path.
mod contracts;
mod edits;
mod walk;

use std::{collections::BTreeSet, env, fs, path::PathBuf};

pub struct Opts {
    pub root: PathBuf,
    pub prelude: Vec<PathBuf>,
    pub contracts: Vec<PathBuf>,
    pub out: PathBuf,
    pub report: PathBuf,
    pub degrade: BTreeSet<String>,
    pub skip_mods: BTreeSet<String>,
    pub crate_name: String,
    /// Further crates: extracted as modules of the first.
    pub also: Vec<(String, PathBuf)>,
    /// Start every function under contract with an assertion that must fail.
    pub probe: bool,
}

fn main() {
    let mut o = Opts {
        root: PathBuf::new(),
        prelude: vec![],
        contracts: vec![],
        out: PathBuf::new(),
        report: PathBuf::new(),
        degrade: BTreeSet::new(),
        skip_mods: BTreeSet::new(),
        crate_name: String::new(),
        also: vec![],
        probe: false,
    };
    let mut it = env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--root" => o.root = v().into(),
            "--prelude" => o.prelude.push(v().into()),
            "--contracts" => o.contracts.push(v().into()),
            "--out" => o.out = v().into(),
            "--report" => o.report = v().into(),
            "--degrade" => {
                o.degrade.insert(v());
            }
            "--skip-mod" => {
                o.skip_mods.insert(v());
            }
            "--also" => {
                let a = v();
                let (n, p) = a.split_once('=').expect("NAME=PATH");
                o.also.push((n.to_string(), p.into()));
            }
            "--probe" => o.probe = true,
            "--crate" => o.crate_name = v(),
            _ => panic!("unknown option {}", a),
        }
    }
    let mut db = contracts::Db::default();
    for c in &o.contracts {
        db.load(&fs::read_to_string(c).expect("contracts"), &c.display().to_string());
    }
    let mut w = walk::Walker::new(&o, db);
    let mut body = w.file(&o.root, &[]);
    for (n, p) in &o.also {
        let path = vec![n.clone()];
        let b = w.file(p, &path);
        let raw = w.db.raw(&path);
        body.push_str(&walk::module(n, &raw, &b));
    }
    let mut text = String::from(
        "#![allow(unused, non_snake_case, unreachable_patterns, unreachable_code, dead_code, non_camel_case_types)]\nuse vstd::prelude::*;\n",
    );
    text.push_str("verus! {\n");
    for p in &o.prelude {
        text.push_str(&fs::read_to_string(p).expect("prelude"));
    }
    let parts: String = w
        .db
        .sp_parts
        .iter()
        .map(|(n, t)| format!("pub mod {} {{\n#[allow(unused_imports)] use super::*;\n{}\n}}\npub use self::{}::*;\n", n, t, n))
        .collect();
    text.push_str(&format!("pub mod sp {{\n#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vx::*;\n{}\n{}\n}}\n", w.db.sp, parts));
    text.push_str("#[allow(unused_imports)] use crate::vx::*; #[allow(unused_imports)] use crate::sp::*;\n");
    text.push_str(&w.db.raw(&[]));
    text.push_str(&body);
    text.push_str("\n} // verus!\nfn main() {}\n");
    let (text, fns) = walk::strip_markers(&text);
    fs::write(&o.out, text).unwrap();
    fs::write(&o.report, w.report(&fns)).unwrap();
}
