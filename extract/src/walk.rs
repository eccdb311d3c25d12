use crate::{
    contracts::{Db, FnContract},
    edits::{lit, src, Edits, Part},
    Opts,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path,
};
use syn::{
    spanned::Spanned,
    visit::{self, Visit},
};

type R = std::ops::Range<usize>;

pub struct Walker<'o> {
    pub o: &'o Opts,
    pub db: Db,
    pub counts: BTreeMap<String, usize>,
    pub dropped: Vec<String>,
    pub fns: Vec<FnInfo>,
    pub lost: Vec<String>,
    pub sources: Vec<String>,
}
#[derive(Default, Clone)]
pub struct FnInfo {
    pub path: String,
    pub file: String,
    pub line: usize,
    pub has_contract: bool,
    pub external: bool,
    pub degraded: Option<String>,
    pub loops: Vec<String>,
    pub calls: BTreeSet<String>,
    pub clauses: usize,
    pub text: String,
    pub params: Vec<String>,
}

fn keep_trait(name: &str) -> bool {
    !matches!(
        name,
        "Display" | "Debug" | "Error" | "StdError" | "Deref" | "DerefMut" | "Drop" | "Hash" | "PartialEq" | "Eq" | "Clone" | "Ord" | "PartialOrd" | "Serialize" | "Deserialize"
    )
}
fn inherent_trait(name: &str) -> bool {
    matches!(name, "Iterator" | "ExactSizeIterator" | "Dispatch" | "Backend" | "Future")
}

/// Type text without lifetimes and white space.
pub fn norm(t: &str) -> String {
    let mut s = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            while i < b.len() && (b[i] == ' ' || b[i] == ',') {
                i += 1;
            }
            continue;
        }
        if !b[i].is_whitespace() {
            s.push(b[i]);
        }
        i += 1;
    }
    s.replace("<>", "")
}

impl<'o> Walker<'o> {
    pub fn new(o: &'o Opts, db: Db) -> Self {
        Self { o, db, counts: BTreeMap::new(), dropped: vec![], fns: vec![], lost: vec![], sources: vec![] }
    }
    fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn file(&mut self, path: &Path, module: &[String]) -> String {
        let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
        self.sources.push(path.display().to_string());
        let f = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
        let dir = if module.is_empty() || path.file_name().unwrap() == "mod.rs" || path.file_name().unwrap() == "lib.rs" {
            path.parent().unwrap().to_path_buf()
        } else {
            path.with_extension("")
        };
        let mut v = V {
            w: self,
            text: &text,
            file: path.display().to_string(),
            dir,
            module: module.to_vec(),
            e: Edits::default(),
            ctx: Ctx::default(),
            structs: BTreeMap::new(),
            simple_enum: false,
            inlines: BTreeMap::new(),
        };
        for i in &f.items {
            if let syn::Item::Impl(im) = i {
                let ty = norm(&text[sp(&*im.self_ty)]);
                for it in &im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        let path = v.mpath(&format!("{}::{}", ty, f.sig.ident));
                        if v.w.db.inline.contains(&path) && f.sig.inputs.len() == 1 {
                            if let [syn::Stmt::Expr(e, None)] = &f.block.stmts[..] {
                                v.inlines.insert(f.sig.ident.to_string(), sp(e));
                            }
                        }
                    }
                }
            }
        }
        for i in &f.items {
            if let syn::Item::Struct(s) = i {
                let mut m = BTreeMap::new();
                for fl in &s.fields {
                    if let Some(n) = &fl.ident {
                        m.insert(n.to_string(), text[fl.ty.span().byte_range()].to_string());
                    }
                }
                v.structs.insert(s.ident.to_string(), m);
            }
        }
        for a in &f.attrs {
            let r = a.span().byte_range();
            v.e.replace(r, "");
        }
        for i in &f.items {
            v.item(i);
        }
        v.e.render(&text, 0, text.len())
    }
    pub fn report(&mut self, lines: &BTreeMap<String, (usize, usize)>) -> String {
        let unused: Vec<String> = self.db.fns.iter().filter(|(_, c)| !c.used && !c.skip).map(|(k, _)| k.clone()).collect();
        let mut s = String::from("{\n");
        let js = |x: &str| format!("{:?}", x).replace("\\'", "'").replace("\\u{", "\\\\u{");
        s += "\"functions\": [\n";
        let n = self.fns.len();
        for (i, f) in self.fns.iter().enumerate() {
            let (a, b) = lines.get(&f.path).copied().unwrap_or((0, 0));
            s += &format!(
                "{{\"path\":{},\"file\":{},\"line\":{},\"has_contract\":{},\"external\":{},\"degraded\":{},\"loops\":[{}],\"calls\":[{}],\"clauses\":{},\"params\":[{}],\"out_lines\":[{},{}],\"text_hash\":\"{:x}\"}}{}\n",
                js(&f.path), js(&f.file), f.line, f.has_contract, f.external,
                f.degraded.as_ref().map(|d| js(d)).unwrap_or("null".into()),
                f.loops.iter().map(|l| js(l)).collect::<Vec<_>>().join(","),
                f.calls.iter().map(|l| js(l)).collect::<Vec<_>>().join(","),
                f.clauses, f.params.iter().map(|l| js(l)).collect::<Vec<_>>().join(","), a, b, hash(&f.text), if i + 1 < n { "," } else { "" }
            );
        }
        s += "],\n\"rewrites\": {";
        s += &self.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
        s += "},\n\"dropped\": [";
        s += &self.dropped.iter().map(|l| js(l)).collect::<Vec<_>>().join(",");
        s += "],\n\"lost_anchors\": [";
        s += &self.lost.iter().map(|l| js(l)).collect::<Vec<_>>().join(",");
        s += "],\n\"unused_contracts\": [";
        s += &unused.iter().map(|l| js(l)).collect::<Vec<_>>().join(",");
        s += "],\n\"sources\": [";
        s += &self.sources.iter().map(|l| js(l)).collect::<Vec<_>>().join(",");
        s += "]\n}\n";
        s
    }
}
fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn module(name: &str, raw: &str, body: &str) -> String {
    format!("#[verifier::loop_isolation(false)]\npub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vx::*; #[allow(unused_imports)] use crate::sp::*;\n{}\n{}\n}}\n", name, raw, body)
}
/// Remove the function markers and return the line range of every function.
pub fn strip_markers(text: &str) -> (String, BTreeMap<String, (usize, usize)>) {
    let mut out = String::new();
    let mut m = BTreeMap::new();
    let mut stack = vec![];
    let mut line = 1;
    let mut rest = text;
    while let Some(p) = rest.find("/*@") {
        let (a, b) = rest.split_at(p);
        out.push_str(a);
        line += a.matches('\n').count();
        let q = b.find("@*/").unwrap();
        let tag = &b[3..q];
        if let Some(n) = tag.strip_prefix("F ") {
            stack.push((n.to_string(), line));
        } else if tag == "E" {
            let (n, l) = stack.pop().unwrap();
            m.insert(n, (l, line));
        }
        rest = &b[q + 3..];
    }
    out.push_str(rest);
    (out, m)
}

#[derive(Default, Clone)]
struct Ctx {
    self_ty: Option<String>,
    trait_: Option<String>,
    in_fn: bool,
    contract: FnContract,
    path: String,
    mut_self: bool,
    mut_ret: bool,
    conf_mut: bool,
    loops: Vec<String>,
    calls: BTreeSet<String>,
    floats: BTreeSet<String>,
    into_params: BTreeSet<String>,
    assoc: BTreeMap<String, String>,
    /// A parameter with the name of its function, which the verifier's front end rejects.
    twin: Option<String>,
    bad: Option<String>,
    /// `mut self` by value, which is shadowed by a local.
    own_self: bool,
    /// Locals that hold the shared backend of a request's future.
    shared: BTreeSet<String>,
    /// Type parameters that stand for the backend.
    backends: BTreeSet<String>,
}

struct V<'a, 'o> {
    w: &'a mut Walker<'o>,
    text: &'a str,
    file: String,
    dir: std::path::PathBuf,
    module: Vec<String>,
    e: Edits,
    ctx: Ctx,
    structs: BTreeMap<String, BTreeMap<String, String>>,
    simple_enum: bool,
    inlines: BTreeMap<String, R>,
}

fn sp<T: Spanned>(t: &T) -> R {
    t.span().byte_range()
}

impl<'a, 'o> V<'a, 'o> {
    fn t(&self, r: R) -> &'a str {
        &self.text[r]
    }
    fn is_test(attrs: &[syn::Attribute]) -> bool {
        attrs.iter().any(|a| {
            if a.path().is_ident("cfg") {
                let s = match &a.meta {
                    syn::Meta::List(l) => l.tokens.to_string(),
                    _ => String::new(),
                };
                let s = s.replace(' ', "");
                s == "test" || s == "hop_verif" || s.starts_with("feature=") || s.contains("not(no_std)")
            } else {
                a.path().is_ident("test")
            }
        })
    }
    fn drop_item(&mut self, r: R, why: &str) {
        self.w.dropped.push(why.to_string());
        self.e.replace(r, "");
    }
    fn attrs(&mut self, attrs: &[syn::Attribute], keep_repr: bool) {
        for a in attrs {
            if keep_repr && a.path().is_ident("repr") {
                continue;
            }
            self.e.replace(sp(a), "");
        }
    }
    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => {
                self.e.replace(sp(r), "pub");
                self.w.count("visibility widened to pub");
            }
            syn::Visibility::Inherited => {
                self.e.insert(at, "pub ");
                self.w.count("visibility widened to pub");
            }
        }
    }
    /// `const X: &[T] = &[a, b]` as `&[T; 2]`.
    fn backends(&mut self, g: &syn::Generics) {
        self.ctx.backends = if self.alias().is_none() { BTreeSet::new() } else {
            g.type_params()
                .filter(|p| p.bounds.iter().any(|b| norm(self.t(sp(b))) == "Backend"))
                .map(|p| p.ident.to_string())
                .collect()
        };
    }
    /// The type of errors of the one backend under contract.
    fn backend_error(&self) -> String {
        format!("crate::{}::backend::memory::Error", self.alias().unwrap_or_default())
    }
    /// `poll` of a request: `if self.fut.is_none() { ..; self.fut.replace(Box::pin(async move B)); } <poll self.fut>`.
    /// The block is executed where the future is made, and its value is the future's.
    fn poll_body(&mut self, b: &syn::Block) -> bool {
        let (i, tail) = match &b.stmts[..] {
            [syn::Stmt::Expr(syn::Expr::If(i), None), syn::Stmt::Expr(t, None)] if i.else_branch.is_none() => (i, t),
            _ => return false,
        };
        let t = self.t(sp(tail)).replace(char::is_whitespace, "");
        let polls = t.strip_prefix("self.fut.as_mut().").and_then(|t| t.strip_suffix(".as_mut().poll(cx)"));
        if !polls.map(|t| t == "unwrap()" || (t.starts_with("expect(\"") && t.ends_with("\")") && t.matches('"').count() == 2)).unwrap_or(false) {
            return false;
        }
        let last = match i.then_branch.stmts.last() {
            Some(syn::Stmt::Expr(e, _)) => e,
            _ => return false,
        };
        let made = match last {
            syn::Expr::MethodCall(m) if m.method == "replace" && m.args.len() == 1 && self.t(sp(&*m.receiver)) == "self.fut" => &m.args[0],
            syn::Expr::Assign(a) if self.t(sp(&*a.left)) == "self.fut" => match &*a.right {
                syn::Expr::Call(c) if self.t(sp(&*c.func)) == "Some" && c.args.len() == 1 => &c.args[0],
                _ => return false,
            },
            _ => return false,
        };
        let block = match made {
            syn::Expr::Call(c) if self.t(sp(&*c.func)) == "Box::pin" && c.args.len() == 1 => match &c.args[0] {
                syn::Expr::Async(a) if a.capture.is_some() => &a.block,
                _ => return false,
            },
            _ => return false,
        };
        let end = sp(i.then_branch.stmts.last().unwrap()).end;
        self.e.replace(sp(last).start..sp(block).start, "");
        self.e.replace(sp(block).end..end, "");
        self.e.replace(sp(i).end..sp(tail).end, " else { vx_pending() }");
        self.w.count("poll of a request's future written out: the future is executed where it is made");
        true
    }
    fn const_slice(&mut self, ty: &syn::Type, e: &syn::Expr) {
        if let (syn::Type::Reference(t), syn::Expr::Reference(r)) = (ty, e) {
            if let (syn::Type::Slice(s), syn::Expr::Array(a)) = (&*t.elem, &*r.expr) {
                self.e.insert(sp(&*s.elem).end, format!("; {}", a.elems.len()));
                self.w.count("constant slice given the type of its array");
            }
        }
    }
    /// The name under which the crate of this file is extracted as a module.
    fn alias(&self) -> Option<&'o str> {
        let m = self.module.first()?;
        self.w.o.also.iter().map(|(n, _)| n.as_str()).find(|n| n == m)
    }
    /// A path of another crate's source, in the extracted text.
    fn rebase(&self, l: &str) -> String {
        match self.alias() {
            Some(a) if l.starts_with("crate::") => format!("crate::{}{}", a, &l["crate".len()..]),
            Some(_) if l.starts_with("hop_engine::dashmap::") => l["hop_engine::".len()..].to_string(),
            Some(_) if l.starts_with("hop_engine::") => format!("crate{}", &l["hop_engine".len()..]),
            _ => l.to_string(),
        }
    }
    fn is_dropped(&self, path: &str) -> bool {
        let under = |d: &String| path == d || path.starts_with(&format!("{}::", d));
        self.w.db.drop.iter().any(under) || self.w.o.skip_mods.iter().any(under)
    }
    fn dropped_use(&self, l: &str) -> bool {
        let l = l.split(" as ").next().unwrap();
        let mut m = self.module.clone();
        let mut abs = String::new();
        for (i, s) in l.split("::").enumerate() {
            match s {
                "crate" => m = self.alias().map(|a| vec![a.to_string()]).unwrap_or_default(),
                "self" => {}
                "super" => {
                    m.pop();
                }
                _ => {
                    abs = m.iter().cloned().chain(l.split("::").skip(i).map(|s| s.to_string())).collect::<Vec<_>>().join("::");
                    break;
                }
            }
        }
        self.is_dropped(&abs)
    }
    fn mpath(&self, name: &str) -> String {
        let mut p = self.module.clone();
        p.push(name.to_string());
        p.join("::")
    }
    fn item(&mut self, i: &syn::Item) {
        use syn::Item::*;
        let r = sp(i);
        let name = match i {
            Struct(s) => s.ident.to_string(),
            Enum(s) => s.ident.to_string(),
            Trait(s) => s.ident.to_string(),
            Fn(s) => s.sig.ident.to_string(),
            Impl(im) => norm(self.t(sp(&*im.self_ty))),
            Type(t) => t.ident.to_string(),
            _ => String::new(),
        };
        if !name.is_empty() && (self.is_dropped(&self.mpath(&name)) || self.is_dropped(&self.mpath(name.split('<').next().unwrap()))) {
            return self.drop_item(r, &format!("{} (configured)", self.mpath(&name)));
        }
        match i {
            Use(u) => {
                if Self::is_test(&u.attrs) {
                    return self.drop_item(r, "test use");
                }
                let mut leaves = vec![];
                flatten(&u.tree, String::new(), &mut leaves);
                let lead = if u.leading_colon.is_some() { "::" } else { "" };
                let mut s = String::new();
                for l in leaves {
                    if self.dropped_use(&l) {
                        self.w.dropped.push(format!("use {} in {}", l, self.module.join("::")));
                        continue;
                    }
                    let l = self.rebase(&l);
                    if let Some(l) = map_use(&format!("{}{}", lead, l)) {
                        let vis = if matches!(u.vis, syn::Visibility::Inherited) { "" } else { "pub " };
                        s += &format!("{}use {}; ", vis, l);
                    }
                }
                self.e.replace(r, s);
            }
            ExternCrate(_) | Macro(_) => self.drop_item(r, "extern crate or macro"),
            Mod(m) => {
                if Self::is_test(&m.attrs) {
                    return self.drop_item(r, &format!("test module in {}", self.file));
                }
                let name = m.ident.to_string();
                let plain = name.trim_start_matches("r#").to_string();
                let mut path = self.module.clone();
                path.push(plain.clone());
                if self.is_dropped(&path.join("::")) {
                    return self.drop_item(r, &format!("module {}", path.join("::")));
                }
                let body = match &m.content {
                    Some(_) => return self.drop_item(r, &format!("inline module {}", path.join("::"))),
                    None => {
                        let a = self.dir.join(format!("{}.rs", plain));
                        let b = self.dir.join(&plain).join("mod.rs");
                        let f = if a.exists() { a } else { b };
                        self.w.file(&f, &path)
                    }
                };
                let raw = self.w.db.raw(&path);
                let name = if plain == "impl" { "r#impl".to_string() } else if plain=="type" { "r#type".into() } else { name };
                self.e.replace(r, module(&name, &raw, &body));
            }
            Struct(s) => {
                if Self::is_test(&s.attrs) {
                    return self.drop_item(r, "test item");
                }
                let at = s.struct_token.span.byte_range().start;
                self.vis(&s.vis, at);
                self.backends(&s.generics);
                self.type_attrs(&s.attrs, &s.ident.to_string(), at, &s.vis, r.end);
                for f in &s.fields {
                    self.attrs(&f.attrs, false);
                    let at = f.ident.as_ref().map(|i| sp(i).start).unwrap_or(sp(&f.ty).start);
                    self.vis(&f.vis, at);
                    self.visit_type(&f.ty);
                }
                self.visit_generics(&s.generics);
                if derives(&s.attrs).iter().any(|d| d == "Default") {
                    self.derive_default(s, r.end);
                }
            }
            Enum(s) => {
                if Self::is_test(&s.attrs) {
                    return self.drop_item(r, "test item");
                }
                let at = s.enum_token.span.byte_range().start;
                self.vis(&s.vis, at);
                self.simple_enum = s.variants.iter().all(|v| v.fields.is_empty());
                self.type_attrs(&s.attrs, &s.ident.to_string(), at, &s.vis, r.end);
                self.simple_enum = false;
                // Discriminants are moved into a generated function over the variants
                // (the verifier's front end miscounts explicit ones).
                let table = s.variants.iter().all(|v| v.fields.is_empty()) && s.variants.iter().any(|v| v.discriminant.is_some());
                let mut arms = String::new();
                let mut base: Option<String> = None;
                let mut off = 0;
                for v in &s.variants {
                    if let (true, Some((eq, d))) = (table, &v.discriminant) {
                        base = Some(self.t(sp(d)).to_string());
                        off = 0;
                        self.e.replace(eq.span.byte_range().start..sp(d).end, "");
                    }
                    let val = match &base {
                        Some(b) if off == 0 => format!("({})", b),
                        Some(b) => format!("(({}) + {})", b, off),
                        None => format!("{}", off),
                    };
                    arms += &format!("{}::{} => {} as u8, ", s.ident, v.ident, val);
                    off += 1;
                    self.attrs(&v.attrs, false);
                    for f in &v.fields {
                        self.attrs(&f.attrs, false);
                        self.visit_type(&f.ty);
                    }
                }
                if table {
                    self.w.count("discriminants moved into a generated function");
                    self.e.insert(r.end, format!(
                        "\nimpl VxCode for {n} {{\n    open spec fn code(self) -> u8 {{ match self {{ {a} }} }}\n    fn vx_code(self) -> (r: u8) {{ match self {{ {a} }} }}\n}}\nimpl VxI64 for {n} {{\n    open spec fn i64_of(self) -> int {{ self.code() as int }}\n    fn vx_i64(self) -> (r: i64) {{ self.vx_code() as i64 }}\n}}\n",
                        n = s.ident, a = arms));
                }
                self.visit_generics(&s.generics);
            }
            Type(t) => {
                self.attrs(&t.attrs, false);
                self.vis(&t.vis, t.type_token.span.byte_range().start);
                self.visit_generics(&t.generics);
                self.visit_type(&t.ty);
            }
            Const(c) => {
                self.attrs(&c.attrs, false);
                self.vis(&c.vis, c.const_token.span.byte_range().start);
                self.const_slice(&c.ty, &c.expr);
                self.visit_type(&c.ty);
                self.visit_expr(&c.expr);
            }
            Static(_) => self.drop_item(r, "static"),
            Trait(t) => {
                self.attrs(&t.attrs, false);
                self.vis(&t.vis, t.trait_token.span.byte_range().start);
                let name = t.ident.to_string();
                self.ctx.self_ty = Some(name.clone());
                let raw = self.w.db.impls.get(&self.mpath(&name)).cloned().unwrap_or_default();
                self.e.insert(t.brace_token.span.open().byte_range().end, format!("\n{}", raw));
                for it in &t.items {
                    match it {
                        syn::TraitItem::Fn(f) => {
                            let path = self.mpath(&format!("{}::{}", name, f.sig.ident));
                            self.function(&f.attrs, None, &f.sig, f.default.as_ref(), path, sp(f), false);
                        }
                        syn::TraitItem::Type(ty) => self.attrs(&ty.attrs, false),
                        _ => {}
                    }
                }
                self.ctx.self_ty = None;
            }
            Impl(im) => self.item_impl(im, r),
            Fn(f) => {
                if Self::is_test(&f.attrs) {
                    return self.drop_item(r, "test fn");
                }
                let path = self.mpath(&f.sig.ident.to_string());
                self.function(&f.attrs, Some(&f.vis), &f.sig, Some(&f.block), path, r, true);
            }
            _ => self.drop_item(r, "unsupported item"),
        }
    }
    fn type_attrs(&mut self, attrs: &[syn::Attribute], name: &str, at: usize, vis: &syn::Visibility, end: usize) {
        let d = derives(attrs);
        let has = |x: &str| d.iter().any(|y| y == x);
        self.attrs(attrs, true);
        let over = self.w.db.types.get(&self.mpath(name)).cloned();
        let s = match over {
            Some(s) => s,
            None if has("Copy") && has("PartialEq") => "#[derive(Clone, Copy, PartialEq, Eq)]".to_string(),
            None if has("PartialEq") && has("Eq") && !has("Debug_") && self.ctx_simple_enum(name) => "#[derive(PartialEq, Eq)]".to_string(),
            None => String::new(),
        };
        let pos = match vis {
            syn::Visibility::Inherited => at,
            v => sp(v).start,
        };
        if s.contains("PartialEq, Eq)") {
            self.e.insert(end, format!("\nunsafe impl Structural for {} {{}}\n", name));
            self.w.count("derived PartialEq taken to be structural equality");
        }
        if !s.is_empty() {
            // must come before the visibility
            let prio = -1;
            self.e.list.push(crate::edits::Edit { start: pos, end: pos, parts: vec![Part::Lit(format!("{}\n", s))], prio });
        }
    }
    fn ctx_simple_enum(&self, _name: &str) -> bool {
        self.simple_enum
    }
    fn derive_default(&mut self, s: &syn::ItemStruct, at: usize) {
        let name = s.ident.to_string();
        let path = self.mpath(&format!("{}::Default::default", name));
        let c = self.w.db.fns.get_mut(&path).map(|c| {
            c.used = true;
            c.clone()
        });
        let body = match &s.fields {
            syn::Fields::Named(n) => {
                let f: Vec<String> = n.named.iter().map(|f| format!("{}: Default::default()", f.ident.as_ref().unwrap())).collect();
                format!("{} {{ {} }}", name, f.join(", "))
            }
            syn::Fields::Unnamed(n) => {
                let f: Vec<&str> = n.unnamed.iter().map(|_| "Default::default()").collect();
                format!("{}({})", name, f.join(", "))
            }
            syn::Fields::Unit => name.clone(),
        };
        if !s.generics.params.is_empty() {
            self.w.dropped.push(format!("derive(Default) of generic {}", name));
            return;
        }
        self.w.count("derive(Default) expanded to the impl the compiler generates");
        let spec = c.clone().map(|c| c.spec).unwrap_or_default();
        let ext = c.as_ref().map(|c| c.external).unwrap_or(false);
        self.w.fns.push(FnInfo { path: path.clone(), file: self.file.clone(), has_contract: c.is_some(), external: ext, clauses: clauses(&spec), ..Default::default() });
        self.e.insert(
            at,
            format!("\n/*@F {}@*/impl Default for {} {{ {} fn default() -> (ret: Self) {} {{ {} }} }}/*@E@*/\n", path, name, if ext { "#[verifier::external_body]" } else { "" }, spec, body),
        );
    }
    fn item_impl(&mut self, im: &syn::ItemImpl, r: R) {
        if Self::is_test(&im.attrs) {
            return self.drop_item(r, "test impl");
        }
        self.attrs(&im.attrs, false);
        let self_ty = norm(self.t(sp(&*im.self_ty)));
        let tr = im.trait_.as_ref().map(|(_, p, _)| {
            let s = p.segments.last().unwrap();
            (s.ident.to_string(), norm(self.t(sp(s))), p)
        });
        if let Some((n, _, _)) = &tr {
            if !keep_trait(n) {
                return self.drop_item(r, &format!("impl {} for {} in {}", n, self_ty, self.module.join("::")));
            }
        }
        let inherent = tr.as_ref().map(|(n, _, _)| inherent_trait(n)).unwrap_or(false);
        let base = match &tr {
            Some((_, full, _)) => format!("{}::{}", self_ty, full),
            None => self_ty.clone(),
        };
        let old = self.ctx.clone();
        self.ctx.self_ty = Some(self_ty.clone());
        self.backends(&im.generics);
        self.visit_generics(&im.generics);
        let mut item_ty = None;
        if let Some((n, _, p)) = &tr {
            self.ctx.trait_ = Some(n.clone());
            if inherent {
                let from = sp(*p).start;
                let to = sp(&*im.self_ty).start;
                self.e.replace(from..to, "");
                self.w.count(&format!("impl {} made inherent", n));
            } else {
                for s in &p.segments {
                    self.visit_path_arguments(&s.arguments);
                }
                if n == "From" || n == "TryFrom" {
                    if let syn::PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                        if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                            let g = self.t(sp(&im.generics));
                            let g = if im.generics.params.is_empty() { "" } else { g };
                            let st = self.t(sp(&*im.self_ty));
                            let tt = sp(t);
                            let err = if n == "TryFrom" {
                                im.items.iter().find_map(|i| match i {
                                    syn::ImplItem::Type(t) if t.ident == "Error" => Some(self.t(sp(&t.ty)).to_string()),
                                    _ => None,
                                })
                            } else {
                                None
                            };
                            let parts = if n == "From" {
                                vec![lit(format!("\nimpl{} vstd::std_specs::convert::FromSpecImpl<", g)), src(tt.clone()), lit(format!("> for {} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: ", st)), src(tt.clone()), lit(") -> Self { arbitrary() } }\n")]
                            } else {
                                vec![lit(format!("\nimpl{} vstd::std_specs::convert::TryFromSpecImpl<", g)), src(tt.clone()), lit(format!("> for {} {{ open spec fn obeys_try_from_spec() -> bool {{ false }} open spec fn try_from_spec(v: ", st)), src(tt.clone()), lit(format!(") -> Result<Self, {}> {{ arbitrary() }} }}\n", err.unwrap_or("()".into())))]
                            };
                            self.e.parts(r.end..r.end, parts);
                        }
                    }
                }
            }
        }
        self.visit_type(&im.self_ty);
        let mut raw = self.w.db.impls.get(&self.mpath(&base)).cloned().unwrap_or_default();
        if !raw.is_empty() {
            raw = format!("\n{}", raw);
        }
        self.e.insert(im.brace_token.span.open().byte_range().end, raw);
        for it in &im.items {
            if let syn::ImplItem::Type(t) = it {
                if inherent && t.ident == "Item" {
                    item_ty = Some(sp(&t.ty));
                } else if inherent {
                    self.ctx.assoc.insert(t.ident.to_string(), self.t(sp(&t.ty)).to_string());
                }
            }
        }
        for it in &im.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    if Self::is_test(&f.attrs) {
                        self.drop_item(sp(f), "test fn");
                        continue;
                    }
                    let path = self.mpath(&format!("{}::{}", base, f.sig.ident));
                    if let (true, Some(ty)) = (inherent, item_ty.clone()) {
                        if let syn::ReturnType::Type(_, t) = &f.sig.output {
                            let t0 = self.t(sp(&**t));
                            if t0.contains("Self::Item") {
                                let s = t0.replace("Self::Item", self.t(ty));
                                let rr = sp(&**t);
                                self.e.replace(rr.clone(), format!("(ret: {})", s));
                            }
                        }
                    }
                    let vis = if tr.is_some() && !inherent { None } else { Some(&f.vis) };
                    self.function(&f.attrs, vis, &f.sig, Some(&f.block), path, sp(f), true);
                }
                syn::ImplItem::Const(c) => {
                    self.attrs(&c.attrs, false);
                    self.vis(&c.vis, c.const_token.span.byte_range().start);
                    self.const_slice(&c.ty, &c.expr);
                    self.visit_type(&c.ty);
                    self.visit_expr(&c.expr);
                }
                syn::ImplItem::Type(t) => {
                    if inherent {
                        self.e.replace(sp(t), "");
                    } else {
                        self.visit_type(&t.ty);
                    }
                }
                _ => self.drop_item(sp(it), "impl item"),
            }
        }
        self.ctx = old;
    }
    #[allow(clippy::too_many_arguments)]
    fn function(&mut self, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: Option<&syn::Block>, path: String, r: R, _real: bool) {
        self.attrs(attrs, false);
        if let Some(a) = &sig.asyncness {
            self.e.replace(sp(a), "");
            self.w.count("async erased (a future is polled until it is ready)");
        }
        let old = self.ctx.clone();
        self.ctx.in_fn = true;
        self.ctx.path = path.clone();
        self.ctx.loops.clear();
        self.ctx.calls.clear();
        self.ctx.bad = None;
        self.ctx.floats.clear();
        self.ctx.into_params.clear();
        self.ctx.shared.clear();
        let has = self.w.db.fns.contains_key(&path);
        let contract = self
            .w
            .db
            .fns
            .get_mut(&path)
            .map(|c| {
                c.used = true;
                c.clone()
            })
            .unwrap_or_default();
        if contract.skip {
            self.ctx = old;
            return self.drop_item(r, &format!("fn {} (configured)", path));
        }
        // A parameter may have another name now than when the contract was written.
        let names = param_names(sig);
        let mut contract = contract;
        if let Some(was) = self.w.db.params.get(&path).cloned() {
            if was.len() == names.len() {
                for (a, b) in was.iter().zip(&names) {
                    if a != b && !names.contains(a) {
                        contract.rename(a, b);
                        self.w.count("contract follows a renamed parameter");
                    }
                }
            }
        }
        let twin = sig.ident.to_string();
        self.ctx.twin = None;
        if self.ctx.self_ty.is_none() && names.contains(&twin) {
            contract.rename(&twin, &format!("{}_", twin));
            self.w.count("parameter renamed (it has the name of its function)");
            self.ctx.twin = Some(twin);
        }
        self.ctx.contract = contract.clone();
        let start = match vis {
            Some(syn::Visibility::Inherited) | None => fn_start(sig),
            Some(v) => sp(v).start,
        };
        // markers and attributes
        let mut external = contract.external;
        let mut degraded = None;
        if self.w.o.degrade.contains(&path) {
            external = true;
            degraded = Some("not accepted by the verifier's front end".to_string());
        }
        // receiver
        self.ctx.mut_self = false;
        self.ctx.conf_mut = false;
        self.ctx.own_self = false;
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(rc) => {
                    if let Some((amp, lt)) = &rc.reference {
                        if rc.mutability.is_some() {
                            self.ctx.mut_self = true;
                        } else if self.w.db.mut_self.iter().any(|x| *x == path) {
                            self.ctx.mut_self = true;
                            self.ctx.conf_mut = true;
                            let at = lt.as_ref().map(|l| sp(l).end).unwrap_or(sp(amp).end);
                            self.e.insert(at, " mut ");
                            self.w.count("&self of an interior-mutable type made &mut self");
                        }
                    } else if let (Some(m), None) = (&rc.mutability, &rc.colon_token) {
                        self.ctx.own_self = true;
                        self.e.replace(sp(m), "");
                    }
                }
                syn::FnArg::Typed(p) => {
                    let ty = self.t(sp(&*p.ty));
                    if sig.asyncness.is_some() && matches!(&*p.ty, syn::Type::ImplTrait(_)) && ty.contains("'_") {
                        // Only an async function may leave such a lifetime without a name.
                        let at = sp(&*p.ty).start;
                        for (i, _) in ty.match_indices("'_") {
                            self.e.replace(at + i..at + i + 2, "'vx_a");
                        }
                        match &sig.generics.lt_token {
                            Some(lt) => self.e.insert(sp(lt).end, "'vx_a, "),
                            None => self.e.insert(sp(&sig.ident).end, "<'vx_a>"),
                        }
                        self.w.count("lifetime of an async function's argument named");
                    }
                    if let syn::Pat::Ident(id) = &*p.pat {
                        if ty == "f64" {
                            self.ctx.floats.insert(id.ident.to_string());
                        }
                        let by_bound = sig.generics.type_params().any(|g| g.ident.to_string() == *ty && g.bounds.iter().any(|b| norm(self.t(sp(b))).starts_with("Into<")));
                        if ty.contains("Into<") || by_bound {
                            self.ctx.into_params.insert(id.ident.to_string());
                        }
                    }
                    if let syn::Pat::Wild(w) = &*p.pat {
                        self.e.replace(sp(w), wild_name(&p.ty));
                    }
                    if self.w.db.by_ref.iter().any(|x| *x == path) && !matches!(&*p.ty, syn::Type::Reference(_)) {
                        self.e.insert(sp(&*p.ty).start, "&mut ");
                        self.w.count("parameter by value taken by reference (what is done to it is part of the contract)");
                    }
                    if let syn::Type::Reference(tr) = &*p.ty {
                        let inner = norm(self.t(sp(&*tr.elem)));
                        if tr.mutability.is_none() && self.w.db.mut_types.iter().any(|x| *x == inner) {
                            let at = tr.lifetime.as_ref().map(|l| sp(l).end).unwrap_or(sp(&tr.and_token).end);
                            self.e.insert(at, " mut ");
                            self.w.count("& of an interior-mutable parameter made &mut");
                        }
                    }
                }
            }
        }
        let poll = self.ctx.trait_.as_deref() == Some("Future") && sig.ident == "poll" && self.alias().is_some();
        if poll {
            self.ctx.own_self = true;
            let out = match &sig.output {
                syn::ReturnType::Type(_, t) => sp(&**t).end,
                _ => sp(&sig.ident).end,
            };
            let ty = self.ctx.assoc.get("Output").cloned().unwrap_or("()".into());
            let ty = self.ctx.backends.iter().fold(ty, |t, b| t.replace(&format!("{}::Error", b), &self.backend_error()));
            self.e.replace(sp(&sig.ident).start..out, format!("vx_poll(self, vx_b: &mut crate::{}::backend::MemoryBackend) -> (ret: {})", self.alias().unwrap(), ty));
        } else {
            visit::visit_signature(self, sig);
        }
        self.ctx.mut_ret = false;
        if let (syn::ReturnType::Type(_, t), true) = (&sig.output, self.ctx.mut_self) {
            if let syn::Type::Reference(tr) = &**t {
                let inner = norm(self.t(sp(&*tr.elem)));
                if tr.mutability.is_none() && self.w.db.mut_types.iter().any(|x| *x == inner) {
                    let at = tr.lifetime.as_ref().map(|l| sp(l).end).unwrap_or(sp(&tr.and_token).end);
                    self.e.insert(at, " mut ");
                    self.ctx.mut_ret = true;
                    self.w.count("& of an interior-mutable result made &mut");
                }
            }
        }
        // result name
        if let (syn::ReturnType::Type(_, t), false) = (&sig.output, poll) {
            let rr = sp(&**t);
            if !self.t(rr.clone()).contains("Self::Item") || !self.ctx.trait_.as_deref().map(inherent_trait).unwrap_or(false) {
                let name = contract.ret.clone().unwrap_or("ret".into());
                self.e.insert(rr.start, format!("({}: ", name));
                self.e.insert(rr.end, ")");
            }
        }
        if let (true, Some(b), false) = (poll, block, external) {
            if !self.poll_body(b) {
                external = true;
                degraded = Some("poll isn't of the shape that can be written out".to_string());
            }
        }
        if let Some(b) = block {
            let open = b.brace_token.span.open().byte_range();
            let mut spec = contract.spec.clone();
            if !spec.is_empty() {
                spec = format!("\n{}\n", spec);
            }
            self.e.insert(open.start, spec);
            let opaque = matches!(&sig.output, syn::ReturnType::Type(_, t) if self.t(sp(&**t)).contains("impl "));
            if degraded.is_some() && !opaque {
                // the front end refused it: the contract stays, the body goes
                self.e.replace(sp(b), "{ unimplemented!() }");
            } else {
            if self.ctx.own_self {
                self.e.insert(open.end, " let mut vx_self = self; ");
                self.w.count("`mut self` by value: the receiver is moved to a local");
            }
            if !contract.entry.is_empty() {
                self.e.insert(open.end, format!("\n{}\n", contract.entry));
            }
            if self.w.o.probe && has && !external {
                self.e.list.push(crate::edits::Edit { start: open.end, end: open.end, parts: vec![Part::Lit(" assert(false); /*PROBE*/ ".to_string())], prio: -3 });
            }
            let body = self.t(sp(b));
            for (what, list) in [("before", &contract.before), ("after", &contract.after)] {
                for (pat, ins) in list.iter() {
                    // `TEXT @N`: the Nth of several occurrences. A hint whose place is gone is
                    // left out; the obligations are the same without it.
                    let pat = pat.trim();
                    let (pat, nth, of) = match pat.rsplit_once(" @") {
                        Some((p, n)) => {
                            let (n, m) = n.split_once('/').expect("anchor: TEXT @N/OF");
                            (p, n.parse::<usize>().unwrap(), m.parse::<usize>().unwrap())
                        }
                        None => (pat, 0, 1),
                    };
                    let n = body.matches(pat).count();
                    if n != of {
                        self.w.lost.push(format!("{}: anchor {:?} found {} times", path, pat, n));
                        continue;
                    }
                    let off = sp(b).start + body.match_indices(pat).nth(nth).unwrap().0;
                    let at = if what == "before" { off } else { off + pat.len() };
                    self.e.insert(at, format!("\n{}\n", ins));
                }
            }
            self.visit_block(b);
            }
        } else if !contract.spec.is_empty() {
            // trait method declaration
            self.e.insert(r.end - 1, format!("\n{}\n", contract.spec));
        }
        if let Some(shape) = &contract.shape {
            if *shape != self.ctx.loops {
                self.ctx.bad = Some(format!("loops are {:?}, annotated for {:?}", self.ctx.loops, shape));
            }
        } else if has && !self.ctx.loops.is_empty() && contract.loops.is_empty() && !external {
            self.ctx.bad = Some("loops without an invariant".to_string());
        }
        if !has && !self.ctx.loops.is_empty() {
            self.ctx.bad = Some("new function with loops and without a contract".to_string());
        }
        if let (Some(b), false) = (self.ctx.bad.clone(), external) {
            external = true;
            degraded = Some(b.clone());
            self.w.lost.push(format!("{}: {}", path, b));
        }
        let mut pre = format!("/*@F {}@*/", path);
        if external && block.is_some() {
            pre += "#[verifier::external_body]\n";
        }
        if contract.loops.values().any(|l| l.inv.contains("ensures") || l.inv.contains("invariant_except_break")) && !external {
            pre += "#[verifier::allow_complex_invariants]\n";
        }
        if !contract.attrs.is_empty() {
            pre += &contract.attrs;
            pre.push('\n');
        }
        self.e.list.push(crate::edits::Edit { start, end: start, parts: vec![Part::Lit(pre)], prio: -2 });
        if let Some(syn::Visibility::Inherited) = vis {
            self.e.insert(start, "pub ");
            self.w.count("visibility widened to pub");
        } else if let Some(v) = vis {
            self.vis(v, start);
        }
        self.e.insert(r.end, "/*@E@*/");
        let info = FnInfo {
            path,
            file: self.file.clone(),
            line: sig.fn_token.span.start().line,
            has_contract: has,
            external,
            degraded,
            loops: self.ctx.loops.clone(),
            calls: self.ctx.calls.clone(),
            clauses: clauses(&contract.spec) + contract.loops.values().map(|l| clauses(&l.inv)).sum::<usize>(),
            text: self.t(r).to_string(),
            params: names,
        };
        self.w.fns.push(info);
        self.ctx = old;
    }

    // ---- expression level rewrites -------------------------------------
    fn loop_id(&mut self, kind: &str) -> (usize, crate::contracts::LoopSpec) {
        let n = self.ctx.loops.len();
        self.ctx.loops.push(kind.to_string());
        (n, self.ctx.contract.loops.get(&n).cloned().unwrap_or_default())
    }
    /// `f` applied to `x`: either a closure with one parameter or a path.
    fn apply(&self, f: &syn::Expr) -> Option<(Vec<Part>, Vec<Part>)> {
        match f {
            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = &c.inputs[0];
                let pat = match p {
                    syn::Pat::Wild(_) => vec![lit("_")],
                    p => vec![src(sp(p))],
                };
                Some((pat, vec![src(sp(&*c.body))]))
            }
            syn::Expr::Path(p) => Some((vec![lit("vx_x")], vec![src(sp(p)), lit("(vx_x)")])),
            _ => None,
        }
    }
    fn method(&mut self, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let r = sp(m);
        let rc = sp(&*m.receiver);
        let arg0 = m.args.first();
        let cat = |v: Vec<Vec<Part>>| v.into_iter().flatten().collect::<Vec<Part>>();
        let iterish = |e: &syn::Expr| matches!(e, syn::Expr::MethodCall(x) if matches!(x.method.to_string().as_str(), "iter"|"into_iter"|"chars"|"split"|"split_whitespace"|"filter"|"values"|"keys"));
        if let (Some(b), "self", None) = (self.inlines.get(&name), self.t(rc.clone()), arg0) {
            self.e.parts(r, vec![lit("("), src(b.clone()), lit(")")]);
            self.w.count("accessor written out in its caller");
            return true;
        }
        match (name.as_str(), arg0) {
            ("ok_or_else", Some(syn::Expr::Closure(c))) if c.inputs.is_empty() => {
                self.e.parts(r, cat(vec![vec![lit("(match "), src(rc), lit(" { Some(vx_v) => Ok(vx_v), None => Err("), src(sp(&*c.body)), lit(") })")]]));
                self.w.count("closure inlined: ok_or_else");
                true
            }
            ("or_else", Some(syn::Expr::Closure(c))) if c.inputs.is_empty() => {
                self.e.parts(r, cat(vec![vec![lit("(match "), src(rc), lit(" { Some(vx_v) => Some(vx_v), None => "), src(sp(&*c.body)), lit(" })")]]));
                self.w.count("closure inlined: or_else");
                true
            }
            ("unwrap_or_else", Some(syn::Expr::Closure(c))) if c.inputs.is_empty() => {
                self.e.parts(r, cat(vec![vec![lit("(match "), src(rc), lit(" { Some(vx_v) => vx_v, None => "), src(sp(&*c.body)), lit(" })")]]));
                self.w.count("closure inlined: unwrap_or_else");
                true
            }
            ("unwrap_or_else", Some(syn::Expr::Closure(c))) if c.inputs.len() == 1 => {
                let (p, b) = self.apply(arg0.unwrap()).unwrap();
                self.e.parts(r, cat(vec![vec![lit("(match "), src(rc), lit(" { Ok(vx_v) => vx_v, Err(")], p, vec![lit(") => ")], b, vec![lit(" })")]]));
                self.w.count("closure inlined: unwrap_or_else");
                true
            }
            ("map_err", Some(f)) => match self.apply(f) {
                Some((p, b)) => {
                    self.e.parts(r, cat(vec![vec![lit("(match "), src(rc), lit(" { Ok(vx_v) => Ok(vx_v), Err(")], p, vec![lit(") => Err(")], b, vec![lit(") })")]]));
                    self.w.count("closure inlined: map_err");
                    true
                }
                None => false,
            },
            ("and_then", Some(f)) => match self.apply(f) {
                Some((p, b)) => {
                    self.e.parts(r, cat(vec![vec![lit("(match "), src(rc), lit(" { Some(")], p, vec![lit(") => ")], b, vec![lit(", None => None })")]]));
                    self.w.count("closure inlined: and_then");
                    true
                }
                None => false,
            },
            ("map", Some(f)) => {
                if iterish(&m.receiver) {
                    return self.map_loop(&m.receiver, f, r);
                }
                match self.apply(f) {
                    Some((p, b)) => {
                        self.e.parts(r, cat(vec![vec![lit("(match "), src(rc), lit(" { Some(")], p, vec![lit(") => Some(")], b, vec![lit("), None => None })")]]));
                        self.w.count("closure inlined: Option::map");
                        true
                    }
                    None => false,
                }
            }
            ("collect", None) => {
                if let syn::Expr::MethodCall(inner) = &*m.receiver {
                    if inner.method == "map" {
                        if let Some(f) = inner.args.first() {
                            return self.map_loop(&inner.receiver, f, r);
                        }
                    }
                    if inner.method == "into_iter" && inner.args.is_empty() {
                        self.e.parts(r, vec![src(sp(&*inner.receiver)), lit(".vx_collect()")]);
                        self.w.count("call of a specified wrapper: into_iter().collect()");
                        return true;
                    }
                }
                false
            }
            ("all", Some(f)) | ("any", Some(f)) => match self.apply(f) {
                Some((p, b)) => {
                    let (n, l) = self.loop_id(&name);
                    let (init, neg) = if name == "all" { ("true", "!") } else { ("false", "") };
                    let stop = if name == "all" { "false" } else { "true" };
                    self.e.parts(
                        r,
                        cat(vec![
                            vec![lit("({ let mut vx_it".to_string() + &n.to_string() + " = "), src(rc), lit(format!(".vx_into_iter(); let mut vx_res{n} = {init};\n{}\nloop\n{}\n{{ {} match vx_it{n}.vx_next() {{ Some(", l.before, l.inv, l.entry))],
                            p,
                            vec![lit(format!(") => {{ if {neg}("))],
                            b,
                            vec![lit(format!(") {{ vx_res{n} = {stop}; break; }} }}, None => {{ break; }} }}\n{}\n }}\n{}\n vx_res{n} }})", l.end, l.exit))],
                        ]),
                    );
                    self.w.count(&format!("iterator loop written out: {}", name));
                    true
                }
                None => false,
            },
            ("get", Some(_)) if self.ctx.conf_mut && self.t(rc.clone()).starts_with("self") && self.t(rc.clone()).contains('.') => {
                self.e.replace(sp(&m.method), "get_mut");
                self.w.count("shared access to an interior-mutable value made unique");
                false
            }
            ("try_into", None) => {
                self.e.parts(r, vec![lit("vx_try_into("), src(rc), lit(")")]);
                self.w.count("call of a specified wrapper: try_into");
                true
            }
            ("into", None) => {
                if let syn::Expr::Path(p) = &*m.receiver {
                    if p.path.get_ident().map(|i| self.ctx.into_params.contains(&i.to_string())).unwrap_or(false) {
                        self.e.replace(sp(&m.method), "vx_into");
                        self.w.count("call of a specified wrapper: into");
                    }
                }
                false
            }
            ("clone_from_slice", Some(a)) | ("copy_from_slice", Some(a)) => {
                if let syn::Expr::Index(ix) = &*m.receiver {
                    if let syn::Expr::Range(rg) = &*ix.index {
                        if let (Some(lo), Some(hi)) = (&rg.start, &rg.end) {
                            self.e.parts(r, vec![src(sp(&*ix.expr)), lit(".vx_write_range("), src(sp(&**lo)), lit(", "), src(sp(&**hi)), lit(", "), src(sp(a)), lit(")")]);
                            self.w.count("call of a specified wrapper: range write");
                            return true;
                        }
                    }
                }
                false
            }
            ("drain", Some(syn::Expr::Range(rg))) if rg.start.is_none() && rg.end.is_some() && matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) => {
                self.e.parts(r, vec![src(rc), lit(".vx_drain_to("), src(sp(&**rg.end.as_ref().unwrap())), lit(")")]);
                self.w.count("call of a specified wrapper: drain(..n)");
                true
            }
            _ => {
                if let Some(n) = self.w.db.calls.iter().find(|c| self.module.join("::").starts_with(&c.0) && c.1 == name).map(|c| c.2.clone()) {
                    self.e.replace(sp(&m.method), n);
                    self.w.count(&format!("call of a specified wrapper: {}", name));
                    return false;
                }
                if let Some(n) = rename_method(&name) {
                    self.e.replace(sp(&m.method), n);
                    self.w.count(&format!("call of a specified wrapper: {}", name));
                }
                false
            }
        }
    }
    fn map_loop(&mut self, recv: &syn::Expr, f: &syn::Expr, r: R) -> bool {
        match self.apply(f) {
            Some((p, b)) => {
                let (n, l) = self.loop_id("map");
                let ty = if l.result.is_empty() { String::new() } else { format!(": {}", l.result) };
                let mut parts = vec![lit(format!("({{ let mut vx_it{n} = ")), src(sp(recv)), lit(format!(".vx_into_iter(); let mut vx_out{n}{ty} = Vec::new();\n{}\nloop\n{}\n{{ {} match vx_it{n}.vx_next() {{ Some(", l.before, l.inv, l.entry))];
                parts.extend(p);
                parts.push(lit(format!(") => {{ vx_out{n}.push(")));
                parts.extend(b);
                parts.push(lit(format!("); }}, None => {{ break; }} }}\n{}\n }}\n{}\n vx_out{n} }})", l.end, l.exit)));
                self.e.parts(r, parts);
                self.w.count("iterator loop written out: map");
                true
            }
            None => false,
        }
    }
    fn is_float(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Float(_) => true,
                syn::Lit::Int(i) => i.suffix() == "f64",
                _ => false,
            },
            syn::Expr::Path(p) => p.path.get_ident().map(|i| self.ctx.floats.contains(&i.to_string())).unwrap_or(false),
            syn::Expr::Unary(u) => self.is_float(&u.expr),
            syn::Expr::Paren(p) => self.is_float(&p.expr),
            syn::Expr::Binary(b) => self.is_float(&b.left) || self.is_float(&b.right),
            _ => false,
        }
    }
}

fn fn_start(sig: &syn::Signature) -> usize {
    let mut s = sig.fn_token.span.byte_range().start;
    if let Some(c) = &sig.constness {
        s = s.min(sp(c).start);
    }
    if let Some(c) = &sig.unsafety {
        s = s.min(sp(c).start);
    }
    s
}
fn clauses(s: &str) -> usize {
    // top-level clauses: non-empty lines ending in a comma (as the contract files are written)
    s.lines().filter(|l| l.trim_end().ends_with(',')).count()
}
fn rename_method(n: &str) -> Option<&'static str> {
    Some(match n {
        "to_be_bytes" => "vx_to_be_bytes",
        "as_ref" => "vx_as_ref",
        "iter" => "vx_iter",
        "into_iter" => "vx_into_iter",
        "chars" => "vx_chars",
        "starts_with" => "vx_starts_with",
        "split" => "vx_split",
        "to_owned" => "vx_to_owned",
        "into_owned" => "vx_into_owned",
        "to_vec" => "vx_to_vec",
        "parse" => "vx_parse",
        "rsplitn" => "vx_rsplitn",
        "splitn" => "vx_splitn",
        "split_once" => "vx_split_once",
        "rsplit_once" => "vx_rsplit_once",
        "as_deref" => "vx_as_deref",
        "is_empty" => "vx_is_empty",
        "as_bytes" => return None,
        _ => return None,
    })
}
fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}
fn flatten(t: &syn::UseTree, pre: String, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => flatten(&p.tree, format!("{}{}::", pre, p.ident), out),
        syn::UseTree::Name(n) => {
            if n.ident == "self" {
                out.push(pre.trim_end_matches("::").to_string())
            } else {
                out.push(format!("{}{}", pre, n.ident))
            }
        }
        syn::UseTree::Rename(n) => {
            if n.ident == "self" {
                out.push(format!("{} as {}", pre.trim_end_matches("::"), n.rename))
            } else {
                out.push(format!("{}{} as {}", pre, n.ident, n.rename))
            }
        }
        syn::UseTree::Glob(_) => out.push(format!("{}*", pre)),
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flatten(i, pre.clone(), out)
            }
        }
    }
}
fn map_use(l: &str) -> Option<String> {
    let first = l.split("::").next().unwrap();
    match first {
        "alloc" | "core" | "std" => {
            let rest = &l[first.len()..];
            if rest.starts_with("::sync") || rest.starts_with("::time") || rest.starts_with("::ops") || rest.starts_with("::fmt") || rest.starts_with("::result") || rest.starts_with("::error") || rest.starts_with("::hash") {
                if l.contains(" as CoreResult") {
                    return Some("std::result::Result as CoreResult".into());
                }
                return None;
            }
            Some(format!("std{}", rest))
        }
        "dashmap" | "arrayvec" | "log" | "futures_intrusive" | "libc" | "async_trait" | "tokio" => None,
        "hop_internal_metrics" => Some(format!("crate::vx::{}", &l["hop_internal_metrics::".len()..])),
        "hop_engine" => Some(format!("crate::{}{}", first, &l[first.len()..])),
        _ => Some(l.to_string()),
    }
}

impl<'ast> Visit<'ast> for V<'_, '_> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let _ = a;
    }
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        let s = i.to_string();
        if self.ctx.in_fn && (s == "int" || s == "nat") {
            self.e.replace(sp(i), format!("{}_", s));
            self.w.count("local renamed (verifier keyword)");
        }
    }
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        let seg = t.path.segments.last().unwrap();
        let n = seg.ident.to_string();
        let args: Vec<R> = match &seg.arguments {
            syn::PathArguments::AngleBracketed(a) => a
                .args
                .iter()
                .filter_map(|g| match g {
                    syn::GenericArgument::Type(t) => Some(sp(t)),
                    _ => None,
                })
                .collect(),
            _ => vec![],
        };
        let lt = match &seg.arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| match g {
                syn::GenericArgument::Lifetime(l) => Some(self.t(sp(l)).to_string() + " "),
                _ => None,
            }),
            _ => None,
        }
        .filter(|l| l != "'_ ")
        .unwrap_or_default();
        if t.path.segments.len() == 2 && t.path.segments[0].ident == "Self" {
            if let Some(a) = self.ctx.assoc.get(&n) {
                self.e.replace(sp(t), a.clone());
                return;
            }
        }
        if let ([q, e], true) = (&t.path.segments.iter().collect::<Vec<_>>()[..], n == "Error") {
            if self.ctx.backends.contains(&q.ident.to_string()) && e.arguments.is_empty() {
                self.e.replace(sp(t), self.backend_error());
                return;
            }
        }
        if n == "Arc" && args.len() == 1 && self.ctx.backends.contains(self.t(args[0].clone())) {
            self.e.replace(sp(&seg.ident), "VxArc");
            self.w.count("Arc of the backend: a handle without its contents");
        } else if n == "Arc" && args.len() == 1 {
            self.e.parts(sp(t), vec![src(args[0].clone())]);
            self.w.count("Arc<T> erased to T");
        } else if n == "Box" && args.len() == 1 && self.t(args[0].clone()).trim_start().starts_with("dyn ") {
            self.e.replace(sp(t), "VxBoxed");
            self.w.count("Box<dyn Trait> to an opaque type");
            return;
        } else if n == "Ref" && args.len() == 2 {
            self.e.parts(sp(t), vec![lit(format!("&{}", lt)), src(args[1].clone())]);
            self.w.count("Ref<K, V> to &V");
        } else if n == "RefMut" && args.len() == 2 {
            self.e.parts(sp(t), vec![lit(format!("&{}mut ", lt)), src(args[1].clone())]);
            self.w.count("RefMut<K, V> to &mut V");
        }
        visit::visit_type_path(self, t);
    }
    fn visit_type_impl_trait(&mut self, t: &'ast syn::TypeImplTrait) {
        visit::visit_type_impl_trait(self, t);
    }
    fn visit_trait_bound(&mut self, b: &'ast syn::TraitBound) {
        let seg = b.path.segments.last().unwrap();
        let n = match seg.ident.to_string().as_str() {
            "IntoIterator" => Some("VxIntoIterator"),
            "AsRef" => Some("VxAsRef"),
            "Into" => Some("VxInto"),
            _ => None,
        };
        if let Some(n) = n {
            self.e.replace(sp(&seg.ident), n);
            self.w.count("trait bound replaced by the specified trait of the same shape");
        }
        visit::visit_trait_bound(self, b);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if p.segments.len() > 1 {
            let f = &p.segments[0].ident;
            if f == "alloc" || f == "core" {
                self.e.replace(sp(f), "std");
            }
            if self.alias().is_some() && (f == "crate" || f == "hop_engine") {
                let s = if f == "crate" { format!("crate::{}", self.alias().unwrap()) } else { "crate".into() };
                self.e.replace(sp(f), s);
            }
            let s = self.t(sp(p)).replace(char::is_whitespace, "");
            let new = match s.as_str() {
                "i64::try_from" => Some("vx_i64_try_from"),
                "u64::try_from" => Some("vx_u64_try_from"),
                "u32::try_from" => Some("vx_u32_try_from"),
                "u16::try_from" => Some("vx_u16_try_from"),
                "i32::try_from" => Some("vx_i32_try_from"),
                "usize::try_from" => Some("vx_usize_try_from"),
                "u8::from_be_bytes" => Some("vx_u8_from_be_bytes"),
                "u16::from_be_bytes" => Some("vx_u16_from_be_bytes"),
                "u32::from_be_bytes" => Some("vx_u32_from_be_bytes"),
                "i64::from_be_bytes" => Some("vx_i64_from_be_bytes"),
                "f64::from_be_bytes" => Some("vx_f64_from_be_bytes"),
                "str::from_utf8" => Some("vx_str_from_utf8"),
                "String::from_utf8" => Some("vx_string_from_utf8"),
                "String::from_utf8_lossy" => Some("vx_string_lossy"),
                "ToOwned::to_owned" => Some("vx_to_owned"),
                "FromIterator::from_iter" => Some("vx_from_iter"),
                "Vec::is_empty" => Some("vx_vec_is_empty"),
                _ => None,
            };
            if let Some(n) = new {
                self.e.replace(sp(p), n);
                self.w.count(&format!("call of a specified wrapper: {}", s));
                return;
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if self.ctx.in_fn {
            if let syn::Expr::Path(p) = &*m.receiver {
                if p.path.get_ident().map(|i| self.ctx.shared.contains(&i.to_string())).unwrap_or(false) {
                    self.e.replace(sp(&*m.receiver), "vx_b");
                    self.w.count("call through the handle of the backend: on the backend");
                }
            }
            self.ctx.calls.insert(m.method.to_string());
            // the loop numbering follows the source: receivers first
            let deferred = matches!(m.method.to_string().as_str(), "all" | "any" | "map" | "collect");
            if deferred {
                // children of a written-out loop are visited after its number is taken
                let done = self.method(m);
                if done && m.method == "collect" {
                    if let syn::Expr::MethodCall(inner) = &*m.receiver {
                        self.visit_expr(&inner.receiver);
                        for a in &inner.args {
                            self.visit_expr(a);
                        }
                        return;
                    }
                }
            } else {
                self.method(m);
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if let Some(l) = seg.last() {
                let of = if seg.len() < 2 { String::new() } else {
                    match (seg[seg.len() - 2].as_str(), &self.ctx.self_ty) {
                        ("Self", Some(t)) => format!("{}::", t.split('<').next().unwrap()),
                        (t, _) => format!("{}::", t),
                    }
                };
                self.ctx.calls.insert(format!("{}{}", of, l));
            }
            let s = seg.join("::");
            if s == "Arc::new" && self.module.first().map_or(false, |m| m == "client") && self.alias().is_some() {
                self.e.replace(sp(&*c.func), "VxArc::new");
            } else if s == "Arc::new" && c.args.len() == 1 {
                self.e.parts(sp(c), vec![lit("("), src(sp(&c.args[0])), lit(")")]);
                self.w.count("Arc::new erased");
            }
            const INTS: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
            if seg.len() == 2 && seg[1] == "from" && INTS.contains(&seg[0].as_str()) {
                self.e.replace(sp(&*c.func), &format!("<{} as crate::vx::VxFrom<_>>::vx_from", seg[0]));
                self.w.count("T::from of integers");
            }
            if s == "Arc::clone" && !self.ctx.backends.is_empty() {
                self.e.replace(sp(&*c.func), "VxArc::clone");
            }
            if s == "Arc::downgrade" && c.args.len() == 1 {
                self.e.replace(sp(&*c.func), "Weak::vx_downgrade");
                self.w.count("Arc::downgrade to the specified Weak");
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let syn::Pat::Ident(p) = &l.pat {
            if p.mutability.is_none() && p.by_ref.is_none() {
                self.e.insert(sp(p).start, "mut ");
                self.w.count("let made let mut");
            }
            if let Some(i) = &l.init {
                let t = self.t(sp(&*i.expr));
                if t.contains("self.backend.take()") && self.ctx.trait_.as_deref() == Some("Future") {
                    self.ctx.shared.insert(p.ident.to_string());
                }
                if t.contains("as_float_mut") || t.contains("as_float_ref") || t.contains("::<f64>") {
                    self.ctx.floats.insert(p.ident.to_string());
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if self.ctx.twin.as_deref() == Some(&p.ident.to_string()) {
            self.e.replace(sp(&p.ident), format!("{}_", p.ident));
        }
        if let (Some(r), None, true) = (&p.by_ref, &p.mutability, self.ctx.mut_self) {
            self.e.insert(sp(r).end, " mut");
            self.w.count("ref pattern made ref mut");
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        if self.ctx.mut_ret && e.mutability.is_none() && self.t(sp(&*e.expr)).starts_with("self.") {
            self.e.insert(sp(&e.and_token).end, "mut ");
        }
        if let (true, Some(_), syn::Expr::Index(ix)) = (self.ctx.in_fn, &e.mutability, &*e.expr) {
            if let syn::Expr::Range(rg) = &*ix.index {
                if let (Some(lo), None) = (&rg.start, &rg.end) {
                    self.e.parts(sp(e), vec![src(sp(&*ix.expr)), lit(".vx_tail("), src(sp(&**lo)), lit(")")]);
                    self.w.count("call of a specified wrapper: &mut x[n..]");
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let (Some(i), Some(t)) = (p.path.get_ident(), &self.ctx.twin) {
            if i == t {
                self.e.replace(sp(i), format!("{}_", i));
            }
        }
        if self.ctx.own_self && p.path.is_ident("self") {
            self.e.replace(sp(p), "vx_self");
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        self.e.replace(sp(&*a.base).end..sp(a).end, "");
        self.w.count("await erased (a future is polled until it is ready)");
        visit::visit_expr_await(self, a);
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if self.ctx.in_fn && self.t(sp(&*c.ty)) == "u8" {
            self.e.parts(sp(c), vec![lit("("), src(sp(&*c.expr)), lit(").vx_code()")]);
            self.w.count("`as u8` to the generated or specified code function");
        }
        if self.ctx.in_fn && self.t(sp(&*c.ty)) == "i64" {
            self.e.parts(sp(c), vec![lit("("), src(sp(&*c.expr)), lit(").vx_i64()")]);
            self.w.count("`as i64` to the generated or specified function");
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if self.is_float(&b.left) || self.is_float(&b.right) {
            let f = match b.op {
                Add(_) => Some("vx_fadd"),
                Sub(_) => Some("vx_fsub"),
                Mul(_) => Some("vx_fmul"),
                _ => None,
            };
            if let Some(f) = f {
                self.e.parts(sp(b), vec![lit(format!("{}(", f)), src(sp(&*b.left)), lit(", "), src(sp(&*b.right)), lit(")")]);
                self.w.count("float operator to the uninterpreted float function");
            }
            let f = match b.op {
                AddAssign(_) => Some("vx_fadd"),
                SubAssign(_) => Some("vx_fsub"),
                _ => None,
            };
            if let Some(f) = f {
                self.e.parts(sp(b), vec![src(sp(&*b.left)), lit(format!(" = {}(", f)), src(sp(&*b.left)), lit(", "), src(sp(&*b.right)), lit(")")]);
                self.w.count("float operator to the uninterpreted float function");
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_unary(&mut self, u: &'ast syn::ExprUnary) {
        if let syn::UnOp::Neg(_) = u.op {
            if self.is_float(&u.expr) {
                self.e.parts(sp(u), vec![lit("vx_fneg("), src(sp(&*u.expr)), lit(")")]);
                self.w.count("float operator to the uninterpreted float function");
            }
        }
        visit::visit_expr_unary(self, u);
    }
    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        match &l.lit {
            syn::Lit::ByteStr(b) => {
                let v: Vec<String> = b.value().iter().map(|x| format!("{}u8", x)).collect();
                self.e.replace(sp(l), format!("&[{}]", v.join(", ")));
                self.w.count("byte string literal to array literal");
            }
            syn::Lit::Int(i) if i.suffix() == "f64" => {
                self.e.replace(sp(l), format!("{}.0f64", i.base10_digits()));
            }
            _ => {}
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let (n, l) = self.loop_id("for");
        self.e.parts(
            sp(f),
            vec![
                lit(format!("{{ let mut vx_it{n} = (")),
                src(sp(&*f.expr)),
                lit(format!(").vx_into_iter();\n{}\nloop\n{}\n{{ {} match vx_it{n}.vx_next() {{ Some(", l.before, l.inv, l.entry)),
                src(sp(&*f.pat)),
                lit(") => "),
                src(sp(&f.body)),
                lit(format!(", None => {{ break; }} }}\n{}\n }}\n{}\n{} }}", l.end, l.exit, if l.exit.is_empty() { "" } else { ";" })),
            ],
        );
        self.w.count("iterator loop written out: for");
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        let kind = if matches!(&*f.cond, syn::Expr::Let(_)) { "whilelet" } else { "while" };
        let (_, l) = self.loop_id(kind);
        self.loop_edits(&l, sp(f), &f.body);
        visit::visit_expr_while(self, f);
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        let (_, l) = self.loop_id("loop");
        self.loop_edits(&l, sp(f), &f.body);
        visit::visit_expr_loop(self, f);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let r = sp(m);
        let toks = m.tokens.clone();
        let args = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated, toks);
        match (n.as_str(), args) {
            ("debug_assert", Ok(a)) | ("assert", Ok(a)) if !a.is_empty() => {
                self.e.parts(r, vec![lit("vx_assert("), src(sp(&a[0])), lit(")")]);
                self.w.count("debug assertion to an obligation");
                let x = a[0].clone();
                // spans are kept, so edits inside the condition apply
                Visit::visit_expr(self, leak(x));
            }
            ("debug_assert_eq", Ok(a)) | ("assert_eq", Ok(a)) if a.len() >= 2 => {
                self.e.parts(r, vec![lit("vx_assert("), src(sp(&a[0])), lit(" == "), src(sp(&a[1])), lit(")")]);
                self.w.count("debug assertion to an obligation");
            }
            ("debug_assert_ne", Ok(a)) | ("assert_ne", Ok(a)) if a.len() >= 2 => {
                self.e.parts(r, vec![lit("vx_assert("), src(sp(&a[0])), lit(" != "), src(sp(&a[1])), lit(")")]);
                self.w.count("debug assertion to an obligation");
            }
            ("panic", _) | ("unreachable", _) | ("unimplemented", _) | ("todo", _) => {
                self.e.replace(r, "vx_unreachable()");
                self.w.count("panic to an obligation that it is unreachable");
            }
            ("vec", Ok(a)) => {
                for x in a {
                    Visit::visit_expr(self, leak(x));
                }
            }
            ("matches", _) | ("vec", _) => {}
            (x, _) if x == "debug" || x == "info" || x == "warn" || x == "error" || x == "trace" => {
                self.e.replace(r, "()");
                self.w.count("log statement dropped");
            }
            _ => {}
        }
    }
}

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

impl V<'_, '_> {
    fn loop_edits(&mut self, l: &crate::contracts::LoopSpec, r: R, body: &syn::Block) {
        let o = body.brace_token.span.open().byte_range();
        let c = body.brace_token.span.close().byte_range();
        if !l.before.is_empty() {
            self.e.insert(r.start, format!("{}\n", l.before));
        }
        if !l.inv.is_empty() {
            self.e.insert(o.start, format!("\n{}\n", l.inv));
        }
        if !l.entry.is_empty() {
            self.e.insert(o.end, format!("\n{}\n", l.entry));
        }
        if !l.end.is_empty() {
            self.e.insert(c.start, format!("\n{}\n", l.end));
        }
        if !l.exit.is_empty() {
            self.e.insert(r.end, format!("\n{}\n", l.exit));
        }
    }
}
#[allow(dead_code)]
fn unused(_: &V) {}

/// The name given to a parameter without one: that of its type.
fn wild_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Reference(r) => wild_name(&r.elem),
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string().to_lowercase(),
        _ => "unnamed".into(),
    }
}
pub fn param_names(sig: &syn::Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|i| match i {
            syn::FnArg::Typed(p) => Some(match &*p.pat {
                syn::Pat::Ident(id) => id.ident.to_string(),
                syn::Pat::Wild(_) => wild_name(&p.ty),
                _ => "_".into(),
            }),
            _ => None,
        })
        .collect()
}
