//! Turns the sources of /repo into text the verifier accepts, and puts the
//! contracts in. Every rule is listed in DESIGN.md; what a rule drops is
//! recorded in the map written next to the output.

mod expr;
mod inline;
mod item;
mod print;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;

/// What the verifier gets to know about one function.
#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub ret: Option<String>,
    pub spec: String,
    pub body: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_bodies: BTreeMap<usize, String>,
    pub nloops: Option<usize>,
    /// before a loop: ghost variables
    pub befores: BTreeMap<usize, String>,
    /// the kind of loop that each annotation is for
    pub kinds: BTreeMap<usize, String>,
    pub lift: Vec<(String, String)>,
    /// what an async block captures, and what it gives
    pub task: Option<String>,
    /// no branch of a select! may be given up
    pub keep_branches: bool,
    pub isolate: bool,
    /// `&self` becomes `&mut self`: what changes behind it is its own.
    pub mutself: bool,
    /// `ref` patterns that become `ref mut`, for the same reason.
    pub refmut: BTreeSet<String>,
    /// Calls that get the ghost state of the channels, as the function does.
    pub world: BTreeSet<String>,
    pub attrs: String,
    /// The contract is assumed: the body is not verified.
    pub assumed: Option<String>,
    pub used: bool,
}

#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, Contract>,
    pub modules: BTreeMap<String, String>,
    /// Text inside an impl or a trait.
    pub impls: BTreeMap<String, String>,
    /// Items replaced by a hand-written text (assumed).
    pub replace: BTreeMap<String, String>,
    pub supertraits: BTreeMap<String, String>,
    /// Impls of traits that become functions `NAME__impl` of the type.
    pub inherent: BTreeSet<String>,
}

impl Contracts {
    fn load(&mut self, path: &str) {
        let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        #[derive(Clone)]
        enum Dst {
            None,
            Spec(String),
            Body(String),
            Loop(String, usize),
            LoopBody(String, usize),
            Before(String, usize),
            Module(String),
            Impl(String),
            Replace(String),
        }
        let mut dst = Dst::None;
        let mut cur = String::new();
        for (ln, l) in text.lines().enumerate() {
            let t = l.trim();
            if let Some(d) = t.strip_prefix('@') {
                let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim();
                match cmd {
                    "fn" => {
                        let (key, ret) = match rest.split_once(" -> ") {
                            Some((k, r)) => (norm(k), Some(r.trim().to_string())),
                            None => (norm(rest), None),
                        };
                        cur = key.clone();
                        let c = self.fns.entry(key.clone()).or_default();
                        c.ret = ret;
                        dst = Dst::Spec(key);
                    }
                    "attr" => {
                        let c = self.fns.get_mut(&cur).unwrap();
                        c.attrs.push_str(rest);
                        c.attrs.push('\n');
                    }
                    "assumed" => self.fns.get_mut(&cur).unwrap().assumed = Some(rest.to_string()),
                    "body" => dst = Dst::Body(cur.clone()),
                    "loops" => self.fns.get_mut(&cur).unwrap().nloops = Some(rest.parse().unwrap()),
                    "lift" => {
                        let (n, s) = rest.split_once(' ').unwrap();
                        self.fns.get_mut(&cur).unwrap().lift.push((n.to_string(), s.to_string()))
                    }
                    "task" => self.fns.get_mut(&cur).unwrap().task = Some(rest.to_string()),
                    "isolate" => self.fns.get_mut(&cur).unwrap().isolate = true,
                    "keepbranches" => self.fns.get_mut(&cur).unwrap().keep_branches = true,
                    "mutself" => self.fns.get_mut(&cur).unwrap().mutself = true,
                    "world" => self.fns.get_mut(&cur).unwrap().world.extend(rest.split_whitespace().map(str::to_string)),
                    "refmut" => {
                        self.fns.get_mut(&cur).unwrap().refmut.insert(rest.to_string());
                    }
                    "loop" => {
                        let (n, kind) = rest.split_once(' ').unwrap_or((rest, ""));
                        let n = n.parse().unwrap();
                        self.fns.get_mut(&cur).unwrap().kinds.insert(n, kind.trim().to_string());
                        dst = Dst::Loop(cur.clone(), n)
                    }
                    "loopbody" => dst = Dst::LoopBody(cur.clone(), rest.parse().unwrap()),
                    "before" => dst = Dst::Before(cur.clone(), rest.parse().unwrap()),
                    "module" => dst = Dst::Module(norm(rest)),
                    "impl" => dst = Dst::Impl(norm(rest)),
                    "replace" => dst = Dst::Replace(norm(rest)),
                    "inherent" => {
                        self.inherent.insert(norm(rest));
                        dst = Dst::None;
                    }
                    "supertrait" => {
                        let (k, s) = rest.split_once(' ').unwrap();
                        self.supertraits.insert(norm(k), s.to_string());
                        dst = Dst::None;
                    }
                    _ => panic!("{path}:{}: unknown directive {cmd}", ln + 1),
                }
                continue;
            }
            if t.starts_with("//") && matches!(dst, Dst::None) {
                continue;
            }
            let d = match &dst {
                Dst::None if t.is_empty() => continue,
                Dst::None => panic!("{path}:{}: text outside of a directive", ln + 1),
                Dst::Spec(k) => &mut self.fns.get_mut(k).unwrap().spec,
                Dst::Body(k) => &mut self.fns.get_mut(k).unwrap().body,
                Dst::Loop(k, n) => self.fns.get_mut(k).unwrap().loops.entry(*n).or_default(),
                Dst::LoopBody(k, n) => self.fns.get_mut(k).unwrap().loop_bodies.entry(*n).or_default(),
                Dst::Before(k, n) => self.fns.get_mut(k).unwrap().befores.entry(*n).or_default(),
                Dst::Module(k) => self.modules.entry(k.clone()).or_default(),
                Dst::Impl(k) => self.impls.entry(k.clone()).or_default(),
                Dst::Replace(k) => self.replace.entry(k.clone()).or_default(),
            };
            d.push_str(l);
            d.push('\n');
        }
    }
}

/// A key without spaces, except between words.
pub fn norm(s: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        if c.is_whitespace() {
            let a = o.chars().last();
            let b = cs[i + 1..].iter().find(|c| !c.is_whitespace());
            let w = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
            if w(a) && w(b.copied()) {
                o.push(' ');
            }
        } else {
            o.push(c);
        }
    }
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Bool,
    Iter,
    Poll,
    Other,
}

#[derive(Default)]
pub struct World {
    pub contracts: Contracts,
    /// (module, is method, name) of every function, with what it returns.
    pub rets: Vec<(String, bool, String, Kind)>,
    /// Functions that return a lazy iterator made from a closure.
    pub from_fns: BTreeSet<String>,
    /// Functions that must not be verified (not supported).
    pub degrade: BTreeSet<String>,
    pub notes: Vec<String>,
    pub fns: Vec<FnInfo>,
    pub dropped: BTreeMap<String, usize>,
    pub fields: HashMap<String, BTreeSet<String>>,
    /// What kinds fields of this name have.
    pub fkinds: HashMap<String, Vec<Kind>>,
    pub mods: BTreeSet<String>,
    /// Names that are not imported, since what they name is not verified.
    pub drop_use: BTreeSet<String>,
}

pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub state: &'static str,
    pub why: String,
    pub kinds: Vec<&'static str>,
    pub calls: Vec<String>,
    pub id: usize,
}

impl World {
    pub fn drop_note(&mut self, what: &str) {
        *self.dropped.entry(what.to_string()).or_default() += 1;
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `extract CONFIG OUT MAP [degraded functions...]`; the configuration lists
/// `prelude FILE`, `contract FILE` and `source MODULE FILE`.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg = fs::read_to_string(&args[1]).expect("configuration");
    let base = std::path::Path::new(&args[1]).parent().unwrap();
    let mut w = World::default();
    for d in &args[4..] {
        w.degrade.insert(d.clone());
    }
    let mut preludes = vec![];
    let mut libraries = vec![];
    let mut uses_of: BTreeMap<String, String> = BTreeMap::new();
    let mut sources = vec![];
    let mut skip: BTreeSet<String> = BTreeSet::new();
    let mut broadcast: Vec<String> = vec![];
    for l in cfg.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f[..] {
            ["prelude", p] => preludes.push(base.join(p)),
            // a prelude that only those see that name it in `use`
            ["library", p] => libraries.push(base.join(p)),
            // names that one module takes from elsewhere
            ["use", m, ref names @ ..] => uses_of.entry(m.to_string()).or_default().push_str(&format!("use {};\n", names.join(" "))),
            ["contract", p] => w.contracts.load(base.join(p).to_str().unwrap()),
            ["broadcast", ref names @ ..] => broadcast.extend(names.iter().map(|n| n.to_string())),
            ["dropuse", ref names @ ..] => w.drop_use.extend(names.iter().map(|n| n.to_string())),
            // modules that are left out, and what is in them
            ["skip", ref names @ ..] => skip.extend(names.iter().map(|n| n.to_string())),
            ["source", m, p] => sources.push((m.to_string(), p.to_string())),
            [] => {}
            _ if l.starts_with('#') => {}
            _ => panic!("bad line in configuration: {l}"),
        }
    }
    let mut files = vec![];
    let mut i = 0;
    while i < sources.len() {
        let (m, p) = sources[i].clone();
        i += 1;
        let text = match fs::read_to_string(&p) {
            Ok(t) => t,
            Err(e) => {
                w.notes.push(format!("{p}: {e}"));
                continue;
            }
        };
        match syn::parse_file(&text) {
            Ok(f) => {
                // the files that this one brings in, and that are not listed
                for it in &f.items {
                    let syn::Item::Mod(d) = it else { continue };
                    let k = format!("{m}::{}", d.ident);
                    if d.content.is_some() || item::is_cfg_out(&d.attrs) || skip.contains(&k) || sources.iter().any(|s| s.0 == k) {
                        continue;
                    }
                    let at = std::path::Path::new(&p);
                    let stem = at.file_stem().unwrap().to_str().unwrap();
                    let dir = match stem {
                        "lib" | "mod" | "main" => at.parent().unwrap().to_path_buf(),
                        _ => at.parent().unwrap().join(stem),
                    };
                    let a = dir.join(format!("{}.rs", d.ident));
                    let b = dir.join(d.ident.to_string()).join("mod.rs");
                    let q = if b.exists() { b } else { a };
                    sources.push((k, q.to_str().unwrap().to_string()));
                }
                files.push((m, p, f))
            }
            Err(e) => {
                eprintln!("{p}: {e}");
                std::process::exit(3);
            }
        }
    }
    let shims: String = preludes.iter().chain(&libraries).map(|p| fs::read_to_string(p).unwrap_or_default()).collect();
    inline::run(&mut w, &mut files, shims);
    w.mods = sources.iter().map(|s| s.0.clone()).collect();
    for (m, _, f) in &files {
        item::collect(&mut w, m, &f.items);
    }
    // the tree of modules
    #[derive(Default)]
    struct Node {
        text: String,
        kids: BTreeMap<String, Node>,
    }
    let mut root = Node::default();
    for (m, p, f) in files {
        let mut text = uses_of.remove(&m).unwrap_or_default();
        text.push_str(&item::module(&mut w, &m, &p, f.items));
        if let Some(t) = w.contracts.modules.get(&m) {
            text.push_str("//@@src none\n");
            text.push_str(t);
        }
        let mut n = &mut root;
        for part in m.split("::") {
            n = n.kids.entry(part.to_string()).or_default();
        }
        n.text.push_str(&text);
    }
    fn emit(n: &Node, name: &str, uses: &str, out: &mut String) {
        if !name.is_empty() {
            out.push_str(&format!("pub mod {name} {{\n{uses}"));
            out.push_str(&n.text);
        }
        for (k, v) in &n.kids {
            emit(v, k, uses, out);
        }
        if !name.is_empty() {
            out.push_str("}\n");
        }
    }
    let mut out = String::from("#![allow(unused, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut uses = String::from("#[allow(unused_imports)] use vstd::prelude::*;\n");
    for p in preludes {
        let t = fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p:?}: {e}"));
        if let Some(m) = t.lines().find_map(|l| l.strip_prefix("pub mod ")) {
            uses.push_str(&format!("#[allow(unused_imports)] use crate::{}::*;\n", m.trim_end_matches(|c| c == ' ' || c == '{')));
        }
        out.push_str(&t);
        out.push('\n');
    }
    for p in libraries {
        out.push_str(&fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p:?}: {e}")));
        out.push('\n');
    }
    if !broadcast.is_empty() {
        uses.push_str(&format!("broadcast use {{{}}};\n", broadcast.join(", ")));
    }
    emit(&root, "", &uses, &mut out);
    out.push_str("}\nfn main() {}\n");
    // fill in the marks; with EXTRACT_VACUITY an assertion that must fail goes
    // to the start of every body
    let vacuity = std::env::var_os("EXTRACT_VACUITY").is_some();
    let mut fin = String::new();
    let by_id: HashMap<usize, String> = w.fns.iter().map(|f| (f.id, f.key.clone())).collect();
    for l in out.lines() {
        if let Some(m) = l.trim().strip_prefix("//@@") {
            let parts: Vec<&str> = m.split('_').collect();
            if parts.len() < 2 {
                fin.push_str(l);
                fin.push('\n');
                continue;
            }
            let id: usize = parts[1].parse().unwrap();
            let key = &by_id[&id];
            let c = w.contracts.fns.get(key).cloned().unwrap_or_default();
            let t = match parts[0] {
                "SPEC" => c.spec,
                "BODY" if vacuity => format!("{}assert(false);\n", c.body),
                "BODY" => c.body,
                "INV" => c.loops.get(&parts[2].parse().unwrap()).cloned().unwrap_or_default(),
                "BEF" => c.befores.get(&parts[2].parse().unwrap()).cloned().unwrap_or_default(),
                "LB" => c.loop_bodies.get(&parts[2].parse().unwrap()).cloned().unwrap_or_default(),
                _ => panic!("{m}"),
            };
            fin.push_str(&t);
        } else {
            fin.push_str(l);
            fin.push('\n');
        }
    }
    fs::write(&args[2], &fin).unwrap();
    // where each function came from
    let mut map = String::from("{\"functions\": [");
    for (i, f) in w.fns.iter().enumerate() {
        let c = w.contracts.fns.get(&f.key);
        map.push_str(&format!(
            "{}\n{{\"key\": {}, \"file\": {}, \"line\": {}, \"state\": {}, \"why\": {}, \"loops\": [{}], \"want_loops\": [{}], \"contract\": {}, \"calls\": [{}], \"id\": {}}}",
            if i > 0 { "," } else { "" },
            json(&f.key),
            json(&f.file),
            f.line,
            json(f.state),
            json(&f.why),
            f.kinds.iter().map(|k| json(k)).collect::<Vec<_>>().join(", "),
            (0..c.and_then(|c| c.nloops.or(c.loops.keys().max().map(|m| m + 1))).unwrap_or(0))
                .map(|i| json(c.and_then(|c| c.kinds.get(&i)).map_or("", |k| k.as_str())))
                .collect::<Vec<_>>()
                .join(", "),
            c.is_some(),
            f.calls.iter().map(|c| json(c)).collect::<Vec<_>>().join(", "),
            f.id,
        ));
    }
    let have: BTreeSet<&String> = w.fns.iter().map(|f| &f.key).collect();
    let lost: Vec<String> = w.contracts.fns.keys().filter(|k| !have.contains(k)).map(|k| json(k)).collect();
    map.push_str(&format!("\n], \"lost\": [{}], \"notes\": [{}], \"dropped\": {{{}}}}}\n",
        lost.join(", "),
        w.notes.iter().map(|n| json(n)).collect::<Vec<_>>().join(", "),
        w.dropped.iter().map(|(k, n)| format!("{}: {n}", json(k))).collect::<Vec<_>>().join(", ")));
    fs::write(&args[3], map).unwrap();
}
