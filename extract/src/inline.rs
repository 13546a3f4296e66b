//! A function without a contract is put into its callers where that keeps the
//! meaning, so that the callers can still be verified. Where it does not (the
//! form is not one of those below), the call stays, and the caller is undecided.

use crate::item::self_name;
use crate::{norm, World};
use proc_macro2::{Ident, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    module: String,
    ty: Option<String>,
    generics: BTreeSet<String>,
    sig: Signature,
    block: Block,
}

/// What a file imports and declares.
#[derive(Default, Clone)]
struct Names(BTreeMap<String, String>);

#[derive(Default)]
struct Table {
    free: BTreeMap<(String, String), Helper>,
    methods: BTreeMap<(String, String), Helper>,
    /// how many functions have this name
    count: BTreeMap<String, usize>,
    names: BTreeMap<String, Names>,
    /// fields of structs: (struct, field) -> name of its type
    fields: HashMap<(String, String), String>,
    /// text of the preludes, where a method of a library has its shim
    prelude: String,
}

fn generics(g: &Generics, to: &mut BTreeSet<String>) {
    for p in &g.params {
        match p {
            GenericParam::Type(t) => to.insert(t.ident.to_string()),
            GenericParam::Const(c) => to.insert(c.ident.to_string()),
            GenericParam::Lifetime(l) => to.insert(l.lifetime.to_string()),
        };
    }
}

fn uses(t: &UseTree, pre: &str, to: &mut BTreeMap<String, String>) {
    let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{a}::{b}") };
    match t {
        UseTree::Path(p) => uses(&p.tree, &j(pre, &p.ident.to_string()), to),
        UseTree::Name(n) if n.ident == "self" => {
            to.insert(pre.rsplit("::").next().unwrap().to_string(), pre.to_string());
        }
        UseTree::Name(n) => {
            to.insert(n.ident.to_string(), j(pre, &n.ident.to_string()));
        }
        UseTree::Rename(n) => {
            let p = if n.ident == "self" { pre.to_string() } else { j(pre, &n.ident.to_string()) };
            to.insert(n.rename.to_string(), p);
        }
        UseTree::Glob(_) => {
            to.insert("*".into(), pre.to_string());
        }
        UseTree::Group(g) => g.items.iter().for_each(|t| uses(t, pre, to)),
    }
}

fn bitflags_names(ts: TokenStream, to: &mut Vec<String>) {
    let mut after = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) if i == "struct" => after = true,
            TokenTree::Ident(i) if after => {
                to.push(i.to_string());
                after = false;
            }
            _ => after = false,
        }
    }
}

/// The last name of a type, without references and `Arc`.
fn type_name(t: &Type) -> Option<String> {
    match t {
        Type::Reference(r) => type_name(&r.elem),
        Type::Paren(p) => type_name(&p.elem),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            if s.ident == "Arc" || s.ident == "Box" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        return type_name(t);
                    }
                }
            }
            Some(s.ident.to_string())
        }
        _ => None,
    }
}

fn cfg_out(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.path().is_ident("cfg"))
}

fn usable(s: &Signature) -> bool {
    !matches!(&s.output, ReturnType::Type(_, t) if t.to_token_stream().to_string().contains("impl "))
        && s.unsafety.is_none()
        && s.inputs.iter().all(|a| match a {
            FnArg::Typed(p) => matches!(&*p.pat, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()),
            FnArg::Receiver(r) => r.colon_token.is_none() && !(r.reference.is_none() && r.mutability.is_some()),
        })
}

fn collect(w: &World, files: &[(String, String, File)], prelude: String) -> Table {
    let mut t = Table { prelude, ..Table::default() };
    for (m, _, f) in files {
        let mut n = BTreeMap::new();
        let mut decl = vec![];
        for i in &f.items {
            match i {
                Item::Use(u) => uses(&u.tree, "", &mut n),
                Item::Fn(f) if !cfg_out(&f.attrs) => {
                    decl.push(f.sig.ident.to_string());
                    *t.count.entry(f.sig.ident.to_string()).or_default() += 1;
                    if !w.contracts.fns.contains_key(&norm(&format!("{m}::{}", f.sig.ident))) && usable(&f.sig) {
                        let mut g = BTreeSet::new();
                        generics(&f.sig.generics, &mut g);
                        t.free.insert((m.clone(), f.sig.ident.to_string()), Helper { module: m.clone(), ty: None, generics: g, sig: f.sig.clone(), block: (*f.block).clone() });
                    }
                }
                Item::Struct(s) => {
                    decl.push(s.ident.to_string());
                    for (k, f) in s.fields.iter().enumerate() {
                        if let Some(ty) = type_name(&f.ty) {
                            t.fields.insert((s.ident.to_string(), f.ident.as_ref().map_or(k.to_string(), |i| i.to_string())), ty);
                        }
                    }
                }
                Item::Enum(s) => decl.push(s.ident.to_string()),
                Item::Type(s) => decl.push(s.ident.to_string()),
                Item::Trait(s) => decl.push(s.ident.to_string()),
                Item::Const(s) => decl.push(s.ident.to_string()),
                Item::Static(s) => decl.push(s.ident.to_string()),
                Item::Mod(s) => decl.push(s.ident.to_string()),
                Item::Macro(x) => bitflags_names(x.mac.tokens.clone(), &mut decl),
                Item::Impl(i) if !cfg_out(&i.attrs) => {
                    let ty = self_name(&i.self_ty);
                    let bare = ty.split('<').next().unwrap().to_string();
                    for x in &i.items {
                        let ImplItem::Fn(f) = x else { continue };
                        if cfg_out(&f.attrs) {
                            continue;
                        }
                        *t.count.entry(f.sig.ident.to_string()).or_default() += 1;
                        if i.trait_.is_some() || w.contracts.fns.contains_key(&norm(&format!("{m}::{ty}::{}", f.sig.ident))) || !usable(&f.sig) {
                            continue;
                        }
                        let mut g = BTreeSet::new();
                        generics(&f.sig.generics, &mut g);
                        generics(&i.generics, &mut g);
                        t.methods.insert((bare.clone(), f.sig.ident.to_string()), Helper { module: m.clone(), ty: Some(bare.clone()), generics: g, sig: f.sig.clone(), block: f.block.clone() });
                    }
                }
                _ => {}
            }
        }
        // one crate: paths without its name
        let inner = m.split("::").skip(1).collect::<Vec<_>>().join("::");
        let here = if inner.is_empty() { "crate".to_string() } else { format!("crate::{inner}") };
        for d in decl {
            n.insert(d.clone(), format!("{here}::{d}"));
        }
        for p in n.values_mut() {
            if let Some(r) = p.strip_prefix("self::") {
                *p = format!("{here}::{r}");
            } else if let Some(r) = p.strip_prefix("super::") {
                *p = format!("{}::{r}", here.rsplit_once("::").map_or("crate", |x| x.0));
            }
        }
        t.names.insert(m.clone(), Names(n));
    }
    t
}

/// Does leaving the body (`?`, `return`) occur in it?
#[derive(Default)]
struct Exits {
    ret: bool,
    try_: bool,
    /// returns of something else than an error
    other: bool,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.try_ = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        fn err(e: &Expr) -> bool {
            match e {
                Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")),
                Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "context" | "with_context" | "map_err") && err(&m.receiver),
                Expr::Path(p) => p.path.is_ident("None"),
                _ => false,
            }
        }
        if !r.expr.as_ref().is_some_and(|e| err(e)) {
            self.other = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
}
fn exits(b: &Block) -> Exits {
    let mut x = Exits::default();
    x.visit_block(b);
    x
}
fn exits_e(e: &Expr) -> bool {
    let mut x = Exits::default();
    x.visit_expr(e);
    x.ret || x.try_
}
fn exits_s(s: &Stmt) -> bool {
    let mut x = Exits::default();
    x.visit_stmt(s);
    x.ret || x.try_
}

/// What `?` does in a body that is put elsewhere.
#[derive(Clone, Copy, PartialEq)]
enum Leave {
    No,
    Opt,
    Res,
}
impl Leave {
    fn go_on(self, x: Expr, v: Ident, rest: Block) -> Expr {
        match self {
            Leave::Res => parse_quote!(match #x { Ok(#v) => #rest Err(__e) => Err(crate::shim::IntoR::into_r(__e)) }),
            _ => parse_quote!(match #x { Some(#v) => #rest None => None }),
        }
    }
}

/// The block without `return`: each one is at the end of a branch.
fn flatten(b: &Block, lv: Leave) -> Option<Block> {
    let Some(at) = b.stmts.iter().position(exits_s) else { return Some(b.clone()) };
    let mut pre: Vec<Stmt> = b.stmts[..at].to_vec();
    let rest = Block { brace_token: b.brace_token, stmts: b.stmts[at + 1..].to_vec() };
    let e: Expr = match &b.stmts[at] {
        Stmt::Expr(Expr::Return(r), _) => match &r.expr {
            Some(e) if !exits_e(e) => (**e).clone(),
            None => parse_quote!(()),
            _ => return None,
        },
        Stmt::Expr(Expr::If(i), semi) if !exits_e(&i.cond) => {
            let last = rest.stmts.is_empty();
            let unit = i.else_branch.is_none() || semi.is_some();
            let then = if last && !unit {
                flatten(&i.then_branch, lv)?
            } else {
                // it leaves, or it has no part in this
                ends(&i.then_branch).then(|| flatten(&i.then_branch, lv))??
            };
            let els: Block = match &i.else_branch {
                Some((_, e)) if last && !unit => match &**e {
                    Expr::Block(b) => flatten(&b.block, lv)?,
                    e => flatten(&parse_quote!({ #e }), lv)?,
                },
                None => flatten(&rest, lv)?,
                _ => return None,
            };
            let c = &i.cond;
            parse_quote!(if #c #then else #els)
        }
        Stmt::Expr(Expr::Match(m), None) if rest.stmts.is_empty() && !exits_e(&m.expr) => {
            let mut m = m.clone();
            for a in &mut m.arms {
                if a.guard.as_ref().is_some_and(|g| exits_e(&g.1)) {
                    return None;
                }
                let e = &a.body;
                let b: Block = match &**e {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                };
                let b = flatten(&b, lv)?;
                *a.body = parse_quote!(#b);
            }
            Expr::Match(m)
        }
        Stmt::Expr(Expr::Block(x), None) if rest.stmts.is_empty() && x.label.is_none() => {
            let b = flatten(&x.block, lv)?;
            parse_quote!(#b)
        }
        // what is evaluated first may leave
        Stmt::Local(l) if lv != Leave::No && l.init.as_ref().is_some_and(|i| i.diverge.is_none()) => {
            let mut l = l.clone();
            let (x, v) = lead(&mut l.init.as_mut()?.expr)?;
            let mut stmts = vec![Stmt::Local(l)];
            stmts.extend(rest.stmts);
            let rest = flatten(&Block { brace_token: b.brace_token, stmts }, lv)?;
            lv.go_on(x, v, rest)
        }
        Stmt::Expr(e, semi) if lv != Leave::No && lead(&mut e.clone()).is_some() => {
            let mut e = e.clone();
            let (x, v) = lead(&mut e)?;
            let mut stmts = vec![Stmt::Expr(e, *semi)];
            stmts.extend(rest.stmts);
            let rest = flatten(&Block { brace_token: b.brace_token, stmts }, lv)?;
            lv.go_on(x, v, rest)
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let rest = flatten(&rest, lv)?;
            match (&init.diverge, &*init.expr) {
                (Some((_, d)), e) if !exits_e(e) => {
                    let d: Block = match &**d {
                        Expr::Block(b) => b.block.clone(),
                        _ => return None,
                    };
                    if !ends(&d) {
                        return None;
                    }
                    let d = flatten(&d, lv)?;
                    let p = &l.pat;
                    parse_quote!(match #e { #p => #rest _ => #d })
                }
                _ => return None,
            }
        }
        _ => return None,
    };
    pre.push(Stmt::Expr(e, None));
    Some(Block { brace_token: b.brace_token, stmts: pre })
}

/// Takes out the `?` that is evaluated before all else of the expression.
fn lead(e: &mut Expr) -> Option<(Expr, Ident)> {
    fn quiet(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Reference(r) => quiet(&r.expr),
            _ => false,
        }
    }
    match e {
        Expr::Try(t) => {
            if exits_e(&t.expr) {
                return lead(&mut t.expr);
            }
            let v = format_ident!("__q{}", TRIES.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
            let x = (*t.expr).clone();
            *e = parse_quote!(#v);
            Some((x, v))
        }
        Expr::Cast(x) => lead(&mut x.expr),
        Expr::Paren(x) => lead(&mut x.expr),
        Expr::Field(x) => lead(&mut x.base),
        Expr::Unary(x) => lead(&mut x.expr),
        Expr::Binary(x) => lead(&mut x.left),
        Expr::MethodCall(x) => lead(&mut x.receiver),
        Expr::Match(x) => lead(&mut x.expr),
        Expr::If(x) => lead(&mut x.cond),
        Expr::Let(x) => lead(&mut x.expr),
        Expr::Call(x) => {
            let i = x.args.iter().position(|a| !quiet(a))?;
            quiet(&x.func).then(|| lead(&mut x.args[i]))?
        }
        Expr::Tuple(x) => {
            let i = x.elems.iter().position(|a| !quiet(a))?;
            lead(&mut x.elems[i])
        }
        _ => None,
    }
}
static TRIES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// The block ends with a `return`.
fn ends(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

/// Names bound by patterns.
#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

/// First names of paths, and all names inside of macros.
#[derive(Default)]
struct Paths {
    first: BTreeSet<String>,
    macros: Vec<(String, TokenStream)>,
    items: bool,
    selfs: bool,
}
impl<'a> Visit<'a> for Paths {
    fn visit_path(&mut self, p: &'a Path) {
        let s = p.segments[0].ident.to_string();
        if s == "Self" {
            self.selfs = true;
        }
        self.first.insert(s);
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        self.macros.push((m.path.segments.last().unwrap().ident.to_string(), m.tokens.clone()));
    }
    fn visit_item(&mut self, _: &'a Item) {
        self.items = true;
    }
}
fn words(ts: TokenStream, to: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                to.insert(i.to_string());
            }
            TokenTree::Group(g) => words(g.stream(), to),
            _ => {}
        }
    }
}
const LOGS: &[&str] = &["trace", "debug", "info", "warn", "error"];

/// What a parameter stands for.
#[derive(Clone)]
struct Place {
    /// `&`, `&mut` or nothing
    refs: Option<bool>,
    place: Expr,
}
impl Place {
    fn whole(&self) -> Expr {
        let p = &self.place;
        match self.refs {
            None => p.clone(),
            Some(false) => parse_quote!(&#p),
            Some(true) => parse_quote!(&mut #p),
        }
    }
}
struct Sub<'a> {
    map: &'a BTreeMap<String, Place>,
    bad: bool,
}
impl Sub<'_> {
    fn of(&self, e: &Expr) -> Option<Place> {
        match e {
            Expr::Path(p) => self.map.get(&p.path.get_ident()?.to_string()).cloned(),
            Expr::Paren(p) => self.of(&p.expr),
            _ => None,
        }
    }
}
impl VisitMut for Sub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(p) = self.of(&u.expr) {
                    *e = match p.refs {
                        Some(_) => p.place,
                        None => {
                            let q = p.place;
                            parse_quote!(*#q)
                        }
                    };
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(p) = self.of(&m.receiver) {
                    *m.receiver = p.place;
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some(p) = self.of(&f.base) {
                    *f.base = p.place;
                    return;
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Some(p) = self.of(&r.expr) {
                    let q = &p.place;
                    match p.refs {
                        Some(false) => self.bad = true,
                        _ => *e = parse_quote!(&mut #q),
                    }
                    return;
                }
            }
            Expr::Call(c) => {
                if !matches!(&*c.func, Expr::Path(p) if p.path.get_ident().is_some()) {
                    self.visit_expr_mut(&mut c.func);
                }
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Path(_) => {
                if let Some(p) = self.of(e) {
                    *e = p.whole();
                }
                return;
            }
            Expr::Assign(a) => {
                if self.of(&a.left).is_some() {
                    self.bad = true;
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() && self.of(&f.expr).is_some() {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if LOGS.contains(&n.as_str()) {
            m.tokens = TokenStream::new();
            return;
        }
        if n == "matches" {
            // an expression and a pattern
            let mut it = m.tokens.clone().into_iter();
            let mut head = TokenStream::new();
            for t in it.by_ref() {
                if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
                    break;
                }
                head.extend([t]);
            }
            if let Ok(mut e) = parse2::<Expr>(head) {
                let mut e2 = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e.clone()) });
                self.visit_expr_mut(&mut e2);
                if let Expr::Paren(p) = e2 {
                    e = *p.expr;
                }
                let rest: TokenStream = it.collect();
                let mut ws = BTreeSet::new();
                words(rest.clone(), &mut ws);
                if self.map.keys().any(|k| ws.contains(k)) {
                    self.bad = true;
                }
                m.tokens = quote::quote!(#e, #rest);
                return;
            }
        }
        let mut ws = BTreeSet::new();
        words(m.tokens.clone(), &mut ws);
        if self.map.keys().any(|k| ws.contains(k)) {
            self.bad = true;
        }
    }
}

/// `self`, a variable, or a field of one.
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some_and(|i| i.to_string().starts_with(|c: char| c.is_lowercase() || c == '_')),
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => is_place(&u.expr),
        _ => false,
    }
}

const PRELUDE: &[&str] = &[
    "Some", "None", "Ok", "Err", "Vec", "String", "Box", "Option", "bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "str", "self", "Self", "drop", "Default",
    "From", "Into", "std", "core", "char", "Iterator", "IntoIterator", "AsRef", "u128", "i128", "ToString", "TryFrom", "TryInto", "crate",
];

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Tail,
    Try,
}

struct V<'a> {
    t: &'a Table,
    module: String,
    ty: Option<String>,
    me: String,
    out: ReturnType,
    vars: BTreeMap<String, String>,
    done: BTreeSet<String>,
    n: usize,
    /// inside of a closure or an async block nothing returns from the function
    inner: usize,
}

impl V<'_> {
    fn type_of(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.is_ident("self") => self.ty.clone(),
            Expr::Path(p) => self.vars.get(&p.path.get_ident()?.to_string()).cloned(),
            Expr::Paren(p) => self.type_of(&p.expr),
            Expr::Reference(p) => self.type_of(&p.expr),
            Expr::Field(f) => {
                let b = self.type_of(&f.base)?;
                let n = match &f.member {
                    Member::Named(i) => i.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                };
                self.t.fields.get(&(b, n)).cloned()
            }
            _ => None,
        }
    }

    fn krate(m: &str) -> &str {
        m.split("::").next().unwrap()
    }

    /// The function that a path names.
    fn named(&self, p: &Path) -> Option<Helper> {
        let l = p.segments.last()?;
        if p.segments.iter().any(|s| !s.arguments.is_none()) {
            return None;
        }
        let name = l.ident.to_string();
        let h = match p.segments.len() {
            1 => match self.t.free.get(&(self.module.clone(), name.clone())) {
                Some(h) => h,
                None => {
                    let full = self.t.names.get(&self.module)?.0.get(&name)?.clone();
                    self.free(&full)?
                }
            },
            _ => {
                let q = p.segments[p.segments.len() - 2].ident.to_string();
                let ty = if q == "Self" { self.ty.clone()? } else { q.clone() };
                match self.t.methods.get(&(ty.clone(), name.clone())) {
                    Some(h) => {
                        // the type of this name
                        if q != "Self" && !(p.segments.len() == 2 && self.same(&h.module, &ty)) {
                            return None;
                        }
                        h
                    }
                    None => {
                        let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
                        let full = if full[0] == "crate" {
                            full.join("::")
                        } else {
                            let f = self.t.names.get(&self.module)?.0.get(&full[0])?.clone();
                            format!("{f}::{}", full[1..].join("::"))
                        };
                        self.free(&full)?
                    }
                }
            }
        };
        (Self::krate(&h.module) == Self::krate(&self.module)).then(|| h.clone())
    }

    fn free(&self, full: &str) -> Option<&Helper> {
        let (m, n) = full.rsplit_once("::")?;
        let k = Self::krate(&self.module);
        let m = match m.strip_prefix("crate") {
            Some("") => k.to_string(),
            Some(r) => format!("{k}{r}"),
            None => return None,
        };
        self.t.free.get(&(m, n.to_string()))
    }

    /// Does a name mean the same here and in that module?
    fn same(&self, module: &str, name: &str) -> bool {
        if module == self.module || PRELUDE.contains(&name) {
            return true;
        }
        let (Some(a), Some(b)) = (self.t.names.get(module).and_then(|n| n.0.get(name)), self.t.names.get(&self.module).and_then(|n| n.0.get(name))) else {
            return false;
        };
        let par = |p: &str| p.rsplit_once("::").map_or(String::new(), |x| x.0.to_string());
        let last = |p: &str| p.rsplit("::").next().unwrap().to_string();
        a == b || (last(a) == last(b) && (par(a).starts_with(&par(b)) || par(b).starts_with(&par(a))) && a.starts_with("crate") && b.starts_with("crate"))
    }

    fn target(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Paren(p) => self.target(&p.expr),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() || p.path.get_ident().is_some_and(|i| self.vars.contains_key(&i.to_string())) {
                    return None;
                }
                let h = self.named(&p.path)?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if h.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    let r = args.remove(0);
                    recv = Some(match r {
                        Expr::Reference(r) => *r.expr,
                        e => e,
                    });
                }
                Some((h, recv, args))
            }
            Expr::MethodCall(m) if m.turbofish.is_none() => {
                let n = m.method.to_string();
                let h = match self.type_of(&m.receiver) {
                    Some(t) if self.t.methods.contains_key(&(t.clone(), n.clone())) => &self.t.methods[&(t, n)],
                    Some(_) | None => {
                        // only if nothing else has this name
                        let mut it = self.t.methods.iter().filter(|((_, x), _)| *x == n);
                        let h = it.next()?.1;
                        if it.next().is_some() || self.t.count.get(&n) != Some(&1) || self.t.prelude.contains(&format!("fn {n}(")) || self.t.prelude.contains(&format!("fn {n}<")) {
                            return None;
                        }
                        h
                    }
                };
                if Self::krate(&h.module) != Self::krate(&self.module) || h.sig.receiver().is_none() {
                    return None;
                }
                Some((h.clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    fn ret_same(&self, a: &ReturnType, b: &ReturnType, mode: Mode) -> bool {
        let (ReturnType::Type(_, a), ReturnType::Type(_, b)) = (a, b) else {
            return mode == Mode::Tail && matches!((a, b), (ReturnType::Default, ReturnType::Default));
        };
        if mode == Mode::Tail {
            return a.to_token_stream().to_string() == b.to_token_stream().to_string();
        }
        let parts = |t: &Type| -> Option<(String, usize, String)> {
            let Type::Path(p) = t else { return None };
            let s = p.path.segments.last()?;
            let PathArguments::AngleBracketed(x) = &s.arguments else { return None };
            let e = (x.args.len() == 2).then(|| x.args[1].to_token_stream().to_string()).unwrap_or_default();
            Some((s.ident.to_string(), x.args.len(), e))
        };
        matches!((parts(a), parts(b)), (Some(a), Some(b)) if a == b)
    }

    fn expand(&mut self, call: &Expr, mode: Mode) -> Option<Expr> {
        // a future is run where it is awaited
        let (inner, awaited) = match call {
            Expr::Await(a) => (&*a.base, true),
            e => (e, false),
        };
        let (h, recv, args) = self.target(inner)?;
        if h.sig.asyncness.is_some() != awaited || h.sig.ident == self.me {
            return None;
        }
        let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { Some(p) } else { None }).collect();
        if params.len() != args.len() {
            return None;
        }
        // what the body names
        let mut ps = Paths::default();
        ps.visit_block(&h.block);
        if ps.items || ps.first.iter().any(|p| h.generics.contains(p)) || ps.first.contains(&h.sig.ident.to_string()) {
            return None;
        }
        let mut bound = Bound::default();
        bound.visit_block(&h.block);
        for (n, ts) in &ps.macros {
            if LOGS.contains(&n.as_str()) {
                continue;
            }
            if !matches!(n.as_str(), "matches" | "vec" | "assert" | "debug_assert" | "unreachable") {
                return None;
            }
            let mut ws = BTreeSet::new();
            words(ts.clone(), &mut ws);
            if h.module != self.module && !ws.iter().all(|x| bound.0.contains(x) || params.iter().any(|p| matches!(&*p.pat, Pat::Ident(i) if i.ident == x)) || self.same(&h.module, x) || x.starts_with(|c: char| c.is_lowercase())) {
                return None;
            }
        }
        let pnames: Vec<String> = params.iter().map(|p| if let Pat::Ident(i) = &*p.pat { i.ident.to_string() } else { String::new() }).collect();
        for f in &ps.first {
            if !bound.0.contains(f) && !pnames.contains(f) && !self.same(&h.module, f) {
                return None;
            }
        }
        if ps.selfs && h.ty != self.ty {
            return None;
        }
        // how the body is left
        let mut block = h.block.clone();
        let (mut lv, mut typed) = (Leave::No, None);
        if let ReturnType::Type(_, t) = &h.sig.output {
            let last = type_name(t);
            let mut ws = BTreeSet::new();
            words(t.to_token_stream(), &mut ws);
            let plain = h.module == self.module && !ws.contains("Self") && !ws.contains("impl") && !ws.iter().any(|x| h.generics.contains(x));
            if last.as_deref() == Some("Option") {
                lv = Leave::Opt;
            } else if last.as_deref() == Some("Result") && plain {
                if h.module.starts_with("spoa") {
                    lv = Leave::Res;
                }
                typed = Some((**t).clone());
            }
        }
        let x = exits(&block);
        let mut as_try = mode == Mode::Try;
        if x.ret || x.try_ {
            let free = self.inner == 0;
            if mode == Mode::Tail && free && self.ret_same(&h.sig.output, &self.out, Mode::Tail) {
            } else if mode == Mode::Try && free && !x.other && self.ret_same(&h.sig.output, &self.out, Mode::Try) {
            } else {
                block = flatten(&block, lv)?;
                let x = exits(&block);
                if x.ret || x.try_ {
                    return None;
                }
            }
        }
        // the parameters
        let mut map: BTreeMap<String, Place> = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut starts: Vec<Stmt> = vec![];
        self.n += 1;
        let conflict = |e: &Expr| {
            let mut w = BTreeSet::new();
            words(e.to_token_stream(), &mut w);
            w.iter().any(|x| bound.0.contains(x))
        };
        if let Some(r) = &recv {
            if !is_place(r) || conflict(r) {
                return None;
            }
            let rc = h.sig.receiver().unwrap();
            if !matches!(r, Expr::Path(p) if p.path.is_ident("self")) {
                map.insert("self".into(), Place { refs: rc.reference.as_ref().map(|_| rc.mutability.is_some()), place: r.clone() });
            }
        }
        for ((p, a), n) in params.iter().zip(&args).zip(&pnames) {
            let Pat::Ident(pi) = &*p.pat else { return None };
            let gen = matches!(&*p.ty, Type::Path(t) if t.path.get_ident().is_some_and(|i| h.generics.contains(&i.to_string())));
            let rebound = bound.0.contains(n);
            let (refs, base) = match a {
                Expr::Reference(r) => (Some(r.mutability.is_some()), (*r.expr).clone()),
                e => (None, e.clone()),
            };
            let plain = refs.is_none() && matches!(a, Expr::Path(_));
            if is_place(&base) && !conflict(&base) && !rebound && (refs.is_some() || (plain && (pi.mutability.is_none() || gen))) {
                map.insert(n.clone(), Place { refs, place: base });
                continue;
            }
            let fresh: Ident = format_ident!("__h{}_{}", self.n, n);
            let m = pi.mutability;
            let prim = matches!(&*p.ty, Type::Path(t) if t.path.get_ident().is_some_and(|i| PRELUDE.contains(&i.to_string().as_str()) && i != "Self"));
            if prim {
                let t = &p.ty;
                lets.push(parse_quote!(let #m #fresh: #t = #a;));
            } else {
                lets.push(parse_quote!(let #m #fresh = #a;));
            }
            if rebound {
                let o = &pi.ident;
                starts.push(parse_quote!(let #m #o = #fresh;));
            } else {
                map.insert(n.clone(), Place { refs: None, place: parse_quote!(#fresh) });
            }
        }
        let mut s = Sub { map: &map, bad: false };
        s.visit_block_mut(&mut block);
        if s.bad {
            return None;
        }
        lets.extend(starts);
        lets.extend(block.stmts);
        block.stmts = lets;
        self.done.insert(h.sig.ident.to_string());
        if let (true, Some(t)) = (mode != Mode::Tail, typed) {
            let r = format_ident!("__h{}", self.n);
            let b = block.clone();
            block.stmts = vec![parse_quote!(let #r: #t = #b;), Stmt::Expr(parse_quote!(#r), None)];
        }
        let only = match &block.stmts[..] {
            [Stmt::Expr(e, None)] => Some(e.clone()),
            _ => None,
        };
        let e: Expr = match only {
            Some(e) => parse_quote!((#e)),
            None => parse_quote!(#block),
        };
        Some(if std::mem::take(&mut as_try) { parse_quote!(#e?) } else { e })
    }

    /// What the function gives.
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.tail(&mut a.body)),
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::Return(r) => {
                if let Some(e) = &mut r.expr {
                    self.tail(e);
                }
            }
            e => {
                if let Some(n) = self.expand(e, Mode::Tail) {
                    *e = n;
                }
            }
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
            if semi.is_none() || matches!(e, Expr::Return(_)) {
                self.tail(e);
            }
        }
    }
}

impl VisitMut for V<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(c) => {
                self.inner += 1;
                self.visit_expr_mut(&mut c.body);
                self.inner -= 1;
                return;
            }
            Expr::Async(_) => {
                self.inner += 1;
                visit_mut::visit_expr_mut(self, e);
                self.inner -= 1;
                return;
            }
            Expr::Return(r) if self.inner == 0 => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
            }
            Expr::Try(t) => {
                if let Some(n) = self.expand(&t.expr, Mode::Try) {
                    *e = n;
                }
            }
            // a function given by name
            Expr::MethodCall(m) => {
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        if p.path.get_ident().is_some_and(|i| self.vars.contains_key(&i.to_string())) {
                            continue;
                        }
                        if self.named(&p.path).is_some_and(|h| h.sig.inputs.len() == 1 && h.sig.receiver().is_none()) {
                            let f = p.clone();
                            let c: Expr = parse_quote!(|__h0| #f(__h0));
                            *a = c;
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = self.expand(e, Mode::Plain) {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // select! and the like are not parsed here: only what is in their blocks
        let ts = std::mem::take(&mut m.tokens);
        m.tokens = self.groups(ts);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

impl V<'_> {
    /// Blocks of statements inside of a macro.
    fn groups(&mut self, ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => {
                    let whole = TokenStream::from(TokenTree::Group(g.clone()));
                    match parse2::<Block>(whole) {
                        Ok(mut b) => {
                            let before = b.to_token_stream().to_string();
                            self.visit_block_mut(&mut b);
                            let after = b.to_token_stream();
                            if after.to_string() == before {
                                TokenTree::Group(g)
                            } else {
                                after.into_iter().next().unwrap()
                            }
                        }
                        Err(_) => TokenTree::Group(g),
                    }
                }
                t => t,
            })
            .collect()
    }
}

pub fn run(w: &mut World, files: &mut [(String, String, File)], prelude: String) {
    let mut all = BTreeSet::new();
    // helpers of helpers
    for _ in 0..3 {
        let t = collect(w, files, prelude.clone());
        if t.free.is_empty() && t.methods.is_empty() {
            return;
        }
        let mut n = 0;
        for (m, _, f) in files.iter_mut() {
            for i in f.items.iter_mut() {
                let mut go = |sig: &Signature, b: &mut Block, ty: Option<String>| {
                    let mut vars = BTreeMap::new();
                    for a in &sig.inputs {
                        if let FnArg::Typed(p) = a {
                            if let Pat::Ident(i) = &*p.pat {
                                vars.insert(i.ident.to_string(), type_name(&p.ty).unwrap_or_default());
                            }
                        }
                    }
                    let mut bound = Bound::default();
                    bound.visit_block(b);
                    for x in bound.0 {
                        // a variable of unknown type
                        vars.insert(x, String::new());
                    }
                    let mut v = V { t: &t, module: m.clone(), ty, me: sig.ident.to_string(), out: sig.output.clone(), vars, done: BTreeSet::new(), n, inner: 0 };
                    v.tail_block(b);
                    v.visit_block_mut(b);
                    n = v.n;
                    all.extend(v.done);
                };
                match i {
                    Item::Fn(f) if !cfg_out(&f.attrs) => go(&f.sig, &mut f.block, None),
                    Item::Impl(i) if !cfg_out(&i.attrs) => {
                        let ty = self_name(&i.self_ty).split('<').next().unwrap().to_string();
                        for x in i.items.iter_mut() {
                            if let ImplItem::Fn(f) = x {
                                go(&f.sig, &mut f.block, Some(ty.clone()));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if n == 0 {
            break;
        }
    }
    for h in all {
        w.drop_note(&format!("put into its callers: {h}"));
    }
}
