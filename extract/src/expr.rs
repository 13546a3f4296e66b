//! Bodies of functions.

use crate::item::{from_fn_closure, kind_of, Paths};
use crate::{Contract, Kind, World};
use proc_macro2::Ident;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx<'a> {
    pub w: &'a World,
    pub module: String,
    pub krate: String,
    pub key: String,
    pub id: usize,
    pub c: &'a Contract,
    /// Parameters that became references.
    pub byref: BTreeSet<String>,
    pub vars: HashMap<String, Kind>,
    pub ret: Kind,
    pub sig: Signature,
    pub loops: usize,
    /// What kind of loop each is: a proof is about a loop of its kind.
    pub kinds: Vec<&'static str>,
    /// Inside the loop that ends the function; how many loops deep.
    tail: bool,
    depth: usize,
    pub uniq: usize,
    pub calls: BTreeSet<String>,
    pub lifted: Vec<(Signature, Block)>,
    pub tasks: usize,
    pub closures: HashMap<String, ExprClosure>,
    pub lifts: HashMap<String, (Ident, Vec<Ident>)>,
    pub dropped: Vec<String>,
    err: Option<String>,
}

impl<'a> Ctx<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(w: &'a World, module: &str, krate: &str, key: &str, id: usize, c: &'a Contract, byref: BTreeSet<String>, sig: &Signature) -> Self {
        let mut vars = HashMap::new();
        for i in &sig.inputs {
            if let FnArg::Typed(p) = i {
                if let Pat::Ident(n) = &*p.pat {
                    vars.insert(n.ident.to_string(), kind_of(&p.ty));
                }
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => Kind::Other,
            ReturnType::Type(_, t) => kind_of(t),
        };
        Ctx {
            w,
            module: module.into(),
            krate: krate.into(),
            key: key.into(),
            id,
            c,
            byref,
            vars,
            ret,
            sig: sig.clone(),
            loops: 0,
            kinds: vec![],
            tail: false,
            depth: 0,
            uniq: 0,
            calls: Default::default(),
            lifted: vec![],
            lifts: Default::default(),
            tasks: 0,
            closures: Default::default(),
            dropped: vec![],
            err: None,
        }
    }

    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.uniq += 1;
        format_ident!("__{p}{}", self.uniq)
    }

    /// What a call of a function of this name gives, if that is certain.
    fn ret_of(&self, method: bool, name: &str, qual: Option<&str>) -> Option<Kind> {
        let w = self.w;
        let of = |f: &dyn Fn(&str) -> bool| {
            let ks: BTreeSet<u8> = w.rets.iter().filter(|r| (!method || r.1) && r.2 == name && f(&r.0)).map(|r| r.3 as u8).collect();
            if ks.len() == 1 {
                w.rets.iter().find(|r| (!method || r.1) && r.2 == name && f(&r.0)).map(|r| r.3)
            } else {
                None
            }
        };
        if let Some(q) = qual {
            if let Some(k) = of(&|m| m.rsplit("::").next() == Some(q)) {
                return Some(k);
            }
        }
        of(&|m| m == self.module).or_else(|| of(&|_| true))
    }

    pub fn kind(&self, e: &Expr) -> Kind {
        use Kind::*;
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Group(p) => self.kind(&p.expr),
            Expr::Await(a) => self.kind(&a.base),
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Lit(l) => {
                if matches!(l.lit, Lit::Bool(_)) {
                    Bool
                } else {
                    Other
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => self.kind(&u.expr),
            Expr::Binary(b) => match b.op {
                BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => Bool,
                _ => Other,
            },
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if s == "None" {
                        return Opt;
                    }
                    if let Some(k) = self.vars.get(&s) {
                        return *k;
                    }
                }
                Other
            }
            Expr::Field(f) => {
                let n = match &f.member {
                    Member::Named(i) => i.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                };
                // a field of what the method is of
                let own = matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")).then(|| {
                    let t = self.key.rsplit_once("::").map_or("", |k| k.0);
                    let t = t.rsplit_once("for ").map_or(t, |t| t.1);
                    format!("{}.{n}", t.rsplit("::").next().unwrap_or(t))
                });
                match own.and_then(|o| self.w.fkinds.get(&o)).or(self.w.fkinds.get(&n)) {
                    Some(k) if k.iter().all(|x| *x == k[0]) => k[0],
                    _ => Other,
                }
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Other,
            },
            Expr::If(i) => {
                let a = match i.then_branch.stmts.last() {
                    Some(Stmt::Expr(e, None)) => self.kind(e),
                    _ => Other,
                };
                if a != Other {
                    return a;
                }
                i.else_branch.as_ref().map_or(Other, |(_, e)| self.kind(e))
            }
            Expr::Match(m) => m.arms.iter().map(|a| self.kind(&a.body)).find(|k| *k != Other).unwrap_or(Other),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    let n = p.path.segments.len();
                    let q = (n > 1).then(|| p.path.segments[n - 2].ident.to_string());
                    return match l.as_str() {
                        "Some" => Opt,
                        "Ok" | "Err" => Res,
                        "try_from" | "try_from_primitive" | "from_utf8" | "from_str" | "timeout" | "from_bytes" => Res,
                        "from_bits" => Opt,
                        _ => self.ret_of(false, &l, q.as_deref()).unwrap_or(Other),
                    };
                }
                Other
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "then" | "then_some" | "ok" | "err" | "zip" | "find" | "checked_add" | "checked_sub" | "checked_mul" | "get" | "get_mut"
                    | "pop" | "first" | "last" | "max" | "split_once" | "downcast_ref" | "find_map" | "checked_shl" | "checked_shr" | "strip_prefix" => Opt,
                    "ok_or" | "ok_or_else" | "map_err" | "parse" | "try_into" | "send" | "read" | "read_u32" | "read_exact" | "write_all" | "flush" | "context"
                    | "with_context" | "write_u32" => Res,
                    "iter" | "into_iter" | "split" | "rev" | "cloned" | "copied" | "enumerate" | "take_while" | "skip" | "chars" | "bytes"
                    | "intersection" | "iter_mut" | "drain" | "union" | "difference" | "keys" | "values" | "into_keys" | "into_values"
                        if !(matches!(n.as_str(), "cloned" | "copied") && self.kind(&m.receiver) == Opt) =>
                    {
                        Iter
                    }
                    "remove" | "next" if self.ret_of(true, &n, None).is_none() => Opt,
                    "take" => {
                        if m.args.is_empty() {
                            Opt
                        } else {
                            Iter
                        }
                    }
                    "is_some" | "is_none" | "is_ok" | "is_err" | "is_empty" | "contains" | "contains_key" | "has_remaining" | "any" | "all"
                    | "is_some_and" | "starts_with" | "ends_with" | "is_final" => Bool,
                    "map" | "filter" | "cloned" | "copied" | "or" | "or_else" | "and_then" | "inspect" | "by_ref" | "as_ref" | "as_mut" | "filter_map" | "and"
                    | "inspect_err" | "clone" | "as_deref" | "as_deref_mut" | "xor" | "replace"
                        if self.kind(&m.receiver) != Other =>
                    {
                        self.kind(&m.receiver)
                    }
                    "is_none_or" | "is_ok_and" | "is_err_and" | "eq_ignore_ascii_case" => Bool,
                    "position" | "strip_suffix" | "rsplit_once" | "split_first" | "split_last" | "first_mut" | "last_mut" | "min_by_key" | "max_by_key"
                    | "checked_div" | "checked_rem" | "to_ipv4" | "to_ipv4_mapped" => Opt,
                    "poll_recv" | "poll_next" | "poll_ready" => Poll,
                    "collect" => match &m.turbofish {
                        Some(t) => match t.args.first() {
                            Some(GenericArgument::Type(t)) => kind_of(t),
                            _ => Other,
                        },
                        None => Other,
                    },
                    "unwrap_or" | "unwrap_or_else" | "unwrap_or_default" | "unwrap" | "expect" => Other,
                    _ => self.ret_of(true, &n, None).unwrap_or(Other),
                }
            }
            _ => Other,
        }
    }
}

pub fn rewrite_fn(cx: &mut Ctx, b: &mut Block) -> std::result::Result<(), String> {
    Paths { krate: &cx.krate.clone(), bad: None }.visit_block_mut(b);
    // a loop at the end: what it breaks with is what the function returns
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Loop(l), None)) if l.label.is_none() => {
            let mut last = b.stmts.pop().unwrap();
            R { cx }.visit_block_mut(b);
            cx.tail = true;
            R { cx }.visit_stmt_mut(&mut last);
            b.stmts.push(last);
        }
        _ => R { cx }.visit_block_mut(b),
    }
    match cx.err.take() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

struct R<'a, 'b> {
    cx: &'a mut Ctx<'b>,
}

fn has_exit(e: &Expr) -> bool {
    use syn::visit::{self, Visit};
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
        fn visit_expr(&mut self, e: &'a Expr) {
            visit::visit_expr(self, e)
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// The function argument of a combinator, applied to what `pat` binds.
enum Fun {
    Closure(Pat, Expr),
    Path(Expr),
    Thunk(Expr),
}

impl R<'_, '_> {
    fn fun(&mut self, e: &Expr) -> Fun {
        if let Expr::Path(p) = e {
            if let Some(c) = p.path.get_ident().and_then(|i| self.cx.closures.get(&i.to_string())).cloned() {
                return self.fun(&Expr::Closure(c));
            }
        }
        match e {
            Expr::Closure(c) => {
                if has_exit(&c.body) {
                    self.cx.fail("a closure that returns early");
                }
                if c.inputs.is_empty() {
                    return Fun::Thunk((*c.body).clone());
                }
                if c.inputs.len() > 1 {
                    self.cx.fail("a closure with several arguments");
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Fun::Closure(p, (*c.body).clone())
            }
            e => Fun::Path(e.clone()),
        }
    }

    /// A pattern for the argument and the expression that uses it.
    fn apply(&mut self, f: Fun) -> (Pat, Expr) {
        match f {
            Fun::Closure(p, b) => (p, b),
            Fun::Path(f) => {
                let x = self.cx.fresh("x");
                if let Expr::Path(p) = &f {
                    let s = &p.path.segments;
                    if s.len() >= 2 && p.qself.is_none() {
                        let (t, f) = (s[s.len() - 2].ident.to_string(), &s[s.len() - 1].ident);
                        // a method by its path
                        if matches!(
                            (t.as_str(), f.to_string().as_str()),
                            ("str" | "String" | "ToString" | "ToOwned" | "Into" | "TryInto" | "Clone" | "AsRef", "trim" | "trim_start" | "trim_end" | "to_string" | "to_owned" | "into" | "try_into" | "clone"
                                | "as_ref" | "as_str" | "len" | "is_empty" | "to_lowercase" | "parse")
                        ) {
                            return (parse_quote!(#x), parse_quote!(#x.#f()));
                        }
                    }
                }
                (parse_quote!(#x), parse_quote!(#f(#x)))
            }
            Fun::Thunk(b) => (parse_quote!(_), b),
        }
    }

    fn call0(&mut self, f: &Expr) -> Expr {
        match self.fun(f) {
            Fun::Thunk(b) | Fun::Closure(_, b) => b,
            Fun::Path(f) => parse_quote!(#f()),
        }
    }

    /// A match on `recv` whose arms use `d`, which is evaluated in any case.
    fn eager(&mut self, recv: &Expr, d: Expr, arms: &dyn Fn(&Expr) -> proc_macro2::TokenStream) -> Expr {
        fn simple(e: &Expr) -> bool {
            match e {
                Expr::Lit(_) | Expr::Path(_) => true,
                Expr::Paren(p) => simple(&p.expr),
                Expr::Field(f) => simple(&f.base),
                Expr::Reference(r) => simple(&r.expr),
                Expr::Unary(u) => simple(&u.expr),
                Expr::Cast(c) => simple(&c.expr),
                Expr::Tuple(t) => t.elems.iter().all(simple),
                Expr::Struct(s) => s.fields.iter().all(|f| simple(&f.expr)) && s.rest.is_none(),
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase) && c.args.iter().all(simple),
                    _ => false,
                },
                _ => false,
            }
        }
        if simple(&d) {
            let a = arms(&d);
            return parse_quote!(match #recv { #a });
        }
        let (r, x) = (self.cx.fresh("r"), self.cx.fresh("d"));
        let a = arms(&parse_quote!(#x));
        parse_quote!({ let #r = #recv; let #x = #d; match #r { #a } })
    }

    fn stages(&mut self, e: &Expr) -> (Expr, Vec<ExprMethodCall>) {
        let mut st = vec![];
        let mut cur = e.clone();
        loop {
            match cur {
                Expr::MethodCall(m)
                    if matches!(m.method.to_string().as_str(), "map" | "filter" | "filter_map" | "cloned" | "copied" | "take" | "rev")
                        && self.cx.kind(&m.receiver) == Kind::Iter =>
                {
                    cur = (*m.receiver).clone();
                    st.push(m);
                }
                Expr::Paren(p) => cur = *p.expr,
                _ => break,
            }
        }
        st.reverse();
        (cur, st)
    }

    /// A loop over an iterator chain: `sink` gets the item.
    /// Gives the statements before the loop, and the loop.
    fn chain(&mut self, e: &Expr, sink: &mut dyn FnMut(&mut Self, Ident) -> Expr) -> (Vec<Stmt>, Expr) {
        let (base, mut st) = self.stages(e);
        let mut pre: Vec<Stmt> = vec![];
        let n = self.cx.loops;
        let next: Expr;
        let lazy = match &base {
            Expr::MethodCall(m) if self.cx.w.from_fns.contains(&m.method.to_string()) => {
                let (r, name, args) = (&m.receiver, format_ident!("{}__next", m.method), &m.args);
                Some(parse_quote!(#r.#name(#args)))
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if self.cx.w.from_fns.contains(&p.path.segments.last().unwrap().ident.to_string()) => {
                    let mut p = p.clone();
                    let l = p.path.segments.last_mut().unwrap();
                    l.ident = format_ident!("{}__next", l.ident);
                    let args = &c.args;
                    Some(parse_quote!(#p(#args)))
                }
                _ => None,
            },
            _ => None,
        };
        let it = format_ident!("__it{n}");
        match lazy {
            Some(e) => next = e,
            None => {
                let mut base = base.clone();
                // sets made on the spot live as long as the loop
                if let Expr::MethodCall(m) = &mut base {
                    if matches!(m.method.to_string().as_str(), "intersection" | "union" | "difference") {
                        for x in std::iter::once(&mut *m.receiver).chain(m.args.iter_mut()) {
                            let y = if let Expr::Reference(r) = x { &mut *r.expr } else { x };
                            if matches!(y, Expr::Call(_) | Expr::MethodCall(_)) {
                                let h = self.cx.fresh("set");
                                let old = std::mem::replace(y, parse_quote!(#h));
                                pre.push(parse_quote!(let #h = #old;));
                            }
                        }
                    }
                }
                while st.first().is_some_and(|m| m.method == "rev") {
                    st.remove(0);
                    base = parse_quote!(crate::shim::rev(#base));
                }
                pre.push(parse_quote!(let mut #it = #base;));
                let g = format_ident!("__MARK_GHOST_{n}");
                let _ = g;
                next = parse_quote!(#it.next());
            }
        }
        let x0 = self.cx.fresh("item");
        let mut guard: Option<(Ident, Expr)> = None;
        // innermost first
        let mut steps: Vec<(Ident, ExprMethodCall)> = vec![];
        for m in st {
            if m.method == "take" {
                if !steps.is_empty() {
                    self.cx.fail("take after another stage");
                }
                let k = format_ident!("__k{n}");
                guard = Some((k, m.args[0].clone()));
                continue;
            }
            if m.method == "rev" {
                self.cx.fail("rev after another stage");
            }
            steps.push((self.cx.fresh("item"), m));
        }
        // outermost value
        let last = steps.last().map_or(x0.clone(), |s| s.0.clone());
        let mut body: Expr = sink(self, last);
        for i in (0..steps.len()).rev() {
            let prev = if i == 0 { x0.clone() } else { steps[i - 1].0.clone() };
            let (out, m) = (steps[i].0.clone(), steps[i].1.clone());
            body = match m.method.to_string().as_str() {
                "map" => {
                    let f = self.fun(&m.args[0]);
                    let (p, b) = self.apply(f);
                    parse_quote!({ let #out = { let #p = #prev; #b }; #body })
                }
                "cloned" | "copied" => parse_quote!({ let #out = crate::shim::cloned(#prev); #body }),
                "filter_map" => {
                    let f = self.fun(&m.args[0]);
                    let (p, b) = self.apply(f);
                    parse_quote!({ if let Some(#out) = { let #p = #prev; #b } { #body } })
                }
                "filter" => {
                    let f = self.fun(&m.args[0]);
                    let (p, b) = self.apply(f);
                    parse_quote!({ let #out = #prev; if { let #p = &#out; #b } { #body } })
                }
                o => {
                    self.cx.fail(format!("iterator stage {o}"));
                    body
                }
            };
        }
        let lp: Expr = match guard {
            Some((k, n)) => {
                let lim = format_ident!("{k}_end");
                pre.push(parse_quote!(let mut #k: usize = 0;));
                pre.push(parse_quote!(let #lim: usize = #n;));
                parse_quote!(loop {
                    if #k == #lim { break; }
                    #k = #k + 1;
                    match #next { None => { break; } Some(#x0) => { #body } }
                })
            }
            None => parse_quote!(loop { match #next { None => { break; } Some(#x0) => { #body } } }),
        };
        (pre, lp)
    }

    fn collect(&mut self, recv: &Expr, target: Option<Type>) -> Expr {
        let n = self.cx.loops;
        let acc = format_ident!("__acc{n}");
        let stop = format_ident!("__stop{n}");
        let (kind, inner): (Kind, Option<Type>) = match &target {
            Some(Type::Path(p)) => {
                let l = p.path.segments.last().unwrap();
                let k = kind_of(target.as_ref().unwrap());
                let inner = match (&l.arguments, k) {
                    (PathArguments::AngleBracketed(a), Kind::Opt | Kind::Res) => match a.args.first() {
                        Some(GenericArgument::Type(t)) => Some(t.clone()),
                        _ => None,
                    },
                    _ => None,
                };
                (k, inner)
            }
            _ => (Kind::Other, None),
        };
        let from = |acc: &Ident, t: &Option<Type>| -> Expr {
            match t {
                Some(t) => parse_quote!(<#t as crate::shim::FromIterator<_>>::from_iter(#acc)),
                None => parse_quote!(crate::shim::FromIterator::from_iter(#acc)),
            }
        };
        match kind {
            Kind::Opt => {
                let (pre, lp) = self.chain(recv, &mut |_, x| parse_quote!(match #x { Some(__v) => { #acc.push(__v); } None => { #stop = true; break; } }));
                let fin = from(&acc, &inner);
                parse_quote!({ let mut #acc = Vec::new(); let mut #stop = false; #(#pre)* #lp if #stop { None } else { Some(#fin) } })
            }
            Kind::Res => {
                let (pre, lp) = self.chain(recv, &mut |_, x| parse_quote!(match #x { Ok(__v) => { #acc.push(__v); } Err(__e) => { #stop = Some(__e); break; } }));
                let fin = from(&acc, &inner);
                parse_quote!({ let mut #acc = Vec::new(); let mut #stop = None; #(#pre)* #lp match #stop { Some(__e) => Err(__e), None => Ok(#fin) } })
            }
            _ => {
                let (base, st) = self.stages(recv);
                let lazy = matches!(&base, Expr::MethodCall(m) if self.cx.w.from_fns.contains(&m.method.to_string()));
                if st.is_empty() && !lazy {
                    return match target {
                        Some(t) => parse_quote!(<#t as crate::shim::FromIterator<_>>::from_iter(#base)),
                        None => parse_quote!(crate::shim::FromIterator::from_iter(#base)),
                    };
                }
                let (pre, lp) = self.chain(recv, &mut |_, x| parse_quote!({ #acc.push(#x); }));
                let fin = from(&acc, &target);
                parse_quote!({ let mut #acc = Vec::new(); #(#pre)* #lp #fin })
            }
        }
    }

    /// Rewrites a method call, or leaves it.
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        use Kind::*;
        let name = m.method.to_string();
        let recv = (*m.receiver).clone();
        let k = self.cx.kind(&recv);
        let a = |i: usize| m.args[i].clone();
        let n = m.args.len();
        macro_rules! q { ($($t:tt)*) => { Some(parse_quote!($($t)*)) } }
        match (name.as_str(), n) {
            ("map", 1) if k == Opt => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Some(#p) => Some(#b), None => None })
            }
            ("map", 1) if k == Res => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })
            }
            ("map", 1) if k == Poll => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                // what a poll gives here is always an option
                if let Pat::Ident(i) = &p {
                    self.cx.vars.insert(i.ident.to_string(), Opt);
                }
                q!(match #recv { Poll::Ready(#p) => Poll::Ready(#b), Poll::Pending => Poll::Pending })
            }
            ("map", 1) if k != Iter => {
                self.cx.fail(format!("map of something unknown: {}", recv.to_token_stream()));
                None
            }
            ("and_then", 1) if k == Opt => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Some(#p) => #b, None => None })
            }
            ("and_then", 1) if k == Res => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(#p) => #b, Err(__e) => Err(__e) })
            }
            ("and_then", 1) => {
                self.cx.fail("and_then of something unknown");
                None
            }
            ("filter", 1) if k == Opt => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                let x = self.cx.fresh("x");
                q!(match #recv { Some(#x) => if { let #p = &#x; #b } { Some(#x) } else { None }, None => None })
            }
            ("then", 1) if k == Bool => {
                let b = self.call0(&a(0));
                q!(if #recv { Some(#b) } else { None })
            }
            ("then_some", 1) => Some(self.eager(&recv, a(0), &|b| quote!(true => Some(#b), false => None))),
            ("then", 1) => {
                // only bool has it here
                let b = self.call0(&a(0));
                q!(if #recv { Some(#b) } else { None })
            }
            ("zip", 1) if k == Opt => {
                let o = a(0);
                q!(match (#recv, #o) { (Some(__a), Some(__b)) => Some((__a, __b)), _ => None })
            }
            ("or", 1) if k == Opt => Some(self.eager(&recv, a(0), &|d| quote!(Some(__v) => Some(__v), None => #d))),
            ("and", 1) if k == Opt => Some(self.eager(&recv, a(0), &|d| quote!(Some(_) => #d, None => None))),
            ("or", 1) if k == Res => Some(self.eager(&recv, a(0), &|d| quote!(Ok(__v) => Ok(__v), Err(_) => #d))),
            ("and", 1) if k == Res => Some(self.eager(&recv, a(0), &|d| quote!(Ok(_) => #d, Err(__e) => Err(__e)))),
            ("xor", 1) if k == Opt => {
                let o = a(0);
                q!(match (#recv, #o) { (Some(__v), None) => Some(__v), (None, Some(__v)) => Some(__v), _ => None })
            }
            ("replace", 1) if k == Opt => {
                let v = a(0);
                q!(crate::shim::replace(&mut #recv, Some(#v)))
            }
            ("flatten", 0) if k == Opt => q!(match #recv { Some(__v) => __v, None => None }),
            ("transpose", 0) if k == Opt => q!(match #recv { Some(Ok(__v)) => Ok(Some(__v)), Some(Err(__e)) => Err(__e), None => Ok(None) }),
            ("transpose", 0) if k == Res => q!(match #recv { Ok(Some(__v)) => Some(Ok(__v)), Err(__e) => Some(Err(__e)), Ok(None) => None }),
            ("map_or", 2) if k == Opt || k == Res => {
                let d = a(0);
                let f = self.fun(&a(1));
                let (p, b) = self.apply(f);
                Some(self.eager(&recv, d, &|d| if k == Opt { quote!(Some(#p) => #b, None => #d) } else { quote!(Ok(#p) => #b, Err(_) => #d) }))
            }
            ("map_or_else", 2) if k == Opt => {
                let d = self.call0(&a(0));
                let f = self.fun(&a(1));
                let (p, b) = self.apply(f);
                q!(match #recv { Some(#p) => #b, None => #d })
            }
            ("map_or_else", 2) if k == Res => {
                let f = self.fun(&a(0));
                let (pe, e) = self.apply(f);
                let f = self.fun(&a(1));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(#p) => #b, Err(#pe) => #e })
            }
            ("is_none_or", 1) => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Some(#p) => #b, None => true })
            }
            ("is_ok_and", 1) => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(#p) => #b, Err(_) => false })
            }
            ("is_err_and", 1) => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(_) => false, Err(#p) => #b })
            }
            ("or_else", 1) if k == Res => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(__v) => Ok(__v), Err(#p) => #b })
            }
            ("inspect", 1) if k == Opt => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Some(__v) => { { let #p = &__v; #b; } Some(__v) } None => None })
            }
            ("inspect", 1) if k == Res => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(__v) => { { let #p = &__v; #b; } Ok(__v) } Err(__e) => Err(__e) })
            }
            ("inspect_err", 1) => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(__v) => Ok(__v), Err(__e) => { { let #p = &__e; #b; } Err(__e) } })
            }
            ("ok_or", 1) => Some(self.eager(&recv, a(0), &|e| quote!(Some(__v) => Ok(__v), None => Err(#e)))),
            ("ok_or_else", 1) => {
                let e = self.call0(&a(0));
                q!(match #recv { Some(__v) => Ok(__v), None => Err(#e) })
            }
            ("ok", 0) => q!(match #recv { Ok(__v) => Some(__v), Err(_) => None }),
            ("err", 0) => q!(match #recv { Ok(_) => None, Err(__e) => Some(__e) }),
            ("map_err", 1) => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })
            }
            ("unwrap_or", 1) if k == Opt => Some(self.eager(&recv, a(0), &|d| quote!(Some(__v) => __v, None => #d))),
            ("unwrap_or", 1) if k == Res => Some(self.eager(&recv, a(0), &|d| quote!(Ok(__v) => __v, Err(_) => #d))),
            ("unwrap_or", 1) => {
                // a field of unknown type
                let d = a(0);
                q!(crate::shim::UnwrapOr::unwrap_or_(#recv, #d))
            }
            ("unwrap_or_else", 1) if k == Opt => {
                let d = self.call0(&a(0));
                q!(match #recv { Some(__v) => __v, None => #d })
            }
            ("unwrap_or_else", 1) if k == Res => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Ok(__v) => __v, Err(#p) => #b })
            }
            ("unwrap_or_default", 0) => q!(crate::shim::UnwrapOr::unwrap_or_(#recv, crate::shim::Default::default())),
            ("or_else", 1) if k == Opt => {
                let d = self.call0(&a(0));
                q!(match #recv { Some(__v) => Some(__v), None => #d })
            }
            ("is_some_and", 1) => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                q!(match #recv { Some(#p) => #b, None => false })
            }
            ("put_u8" | "put_u32" | "put_u64" | "put_u16", 1) => {
                // a write into a part of a buffer
                let mut r = &recv;
                while let Expr::Paren(p) = r {
                    r = &p.expr;
                }
                if let Expr::Reference(r) = r {
                    if let Expr::Index(i) = &*r.expr {
                        if let Expr::Range(g) = &*i.index {
                            if let (Some(lo), RangeLimits::HalfOpen(_), Some(hi)) = (&g.start, &g.limits, &g.end) {
                                let (x, v, f) = (&i.expr, a(0), format_ident!("{name}_at"));
                                return q!(#x.#f(#lo, #hi, #v));
                            }
                        }
                    }
                }
                None
            }
            ("cloned" | "copied", 0) if k == Opt => q!(match #recv { Some(__v) => Some(crate::shim::cloned(__v)), None => None }),
            ("into", 0) if self.cx.krate == "spoa" => q!(crate::shim::IntoR::into_r(#recv)),
            ("into", 0) => q!(crate::shim::Into::into(#recv)),
            ("sort" | "sort_unstable", 0) => q!(crate::shim::sort(&mut #recv)),
            ("min", 1) => {
                let o = a(0);
                q!(crate::shim::min(#recv, #o))
            }
            ("max", 1) => {
                let o = a(0);
                q!(crate::shim::max(#recv, #o))
            }
            ("into_iter", 0) => q!(crate::shim::IntoIterator::into_iter(#recv)),
            ("iter", 0) => q!(crate::shim::Iterable::iter_(&#recv)),
            ("split", 1) => {
                let c = a(0);
                q!((#recv).split_(#c))
            }
            ("join", 1) if k != Iter => {
                let c = a(0);
                q!(crate::shim::str_join(&#recv, #c))
            }
            ("trim", 0) => q!((#recv).trim_()),
            ("trim_end" | "trim_start" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" | "into_bytes" | "as_bytes", 0)
            | ("starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "split_once" | "trim_matches" | "trim_start_matches" | "trim_end_matches"
              | "eq_ignore_ascii_case", 1) => {
                let (f, args) = (format_ident!("{name}_"), &m.args);
                q!((#recv).#f(#args))
            }
            ("replace", 2) => {
                let args = &m.args;
                q!((#recv).replace_(#args))
            }
            ("count", 0) if matches!(&recv, Expr::MethodCall(c) if c.method == "chars") => {
                let Expr::MethodCall(c) = &recv else { unreachable!() };
                let s = &c.receiver;
                q!((#s).char_count_())
            }
            ("enumerate" | "last" | "next_back", 0) | ("skip" | "chain", 1) if k == Iter => {
                let (f, args) = (format_ident!("{name}_"), &m.args);
                q!((#recv).#f(#args))
            }
            ("as_deref", 0) if k == Opt => q!(match &#recv { Some(__v) => Some(crate::shim::Deref_::deref_(__v)), None => None }),
            ("to_vec", 0) => q!((#recv).to_vec_()),
            ("count", 0) if k == Iter => {
                let c = format_ident!("__count{}", self.cx.loops);
                let (pre, lp) = self.chain(&recv, &mut |_, _| parse_quote!({ #c = #c + 1; }));
                q!({ let mut #c: usize = 0; #(#pre)* #lp #c })
            }
            ("position", 1) if k == Iter => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                let n = self.cx.loops;
                let (c, found) = (format_ident!("__count{n}"), format_ident!("__found{n}"));
                let (pre, lp) = self.chain(&recv, &mut |_, x| parse_quote!({ if { let #p = #x; #b } { #found = Some(#c); break; } #c = #c + 1; }));
                q!({ let mut #c: usize = 0; let mut #found = None; #(#pre)* #lp #found })
            }
            ("drain", 1) if matches!(&a(0), Expr::Range(r) if r.start.is_none() && r.end.is_none()) => q!((#recv).drain_()),
            ("dedup" | "reverse", 0) => {
                let f = format_ident!("{name}_");
                q!((#recv).#f())
            }
            ("to_be_bytes", 0) => {
                let f = format_ident!("{name}_");
                q!((#recv).#f())
            }
            ("parse", 0) => match &m.turbofish {
                Some(t) => {
                    let t = t.args.first().unwrap();
                    q!(crate::shim::parse::<#t, _>(&#recv))
                }
                None => q!(crate::shim::parse(&#recv)),
            },
            ("to_string", 0) => q!(crate::shim::Display::to_string(&#recv)),
            ("as_ref", 0) if k != Opt && k != Res => q!(crate::shim::AsRef::as_ref(&#recv)),
            ("try_into", 0) => q!(crate::shim::TryFrom::try_from(#recv)),
            ("collect", 0) => {
                let t = m.turbofish.as_ref().and_then(|t| match t.args.first() {
                    Some(GenericArgument::Type(t)) => Some(t.clone()),
                    _ => None,
                });
                Some(self.collect(&recv, t))
            }
            ("find", 1) if k == Iter => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                let n = self.cx.loops;
                let found = format_ident!("__found{n}");
                let (pre, lp) = self.chain(&recv, &mut |_, x| parse_quote!(if { let #p = &#x; #b } { #found = Some(#x); break; }));
                q!({ let mut #found = None; #(#pre)* #lp #found })
            }
            ("any" | "all", 1) if k == Iter => {
                let f = self.fun(&a(0));
                let (p, b) = self.apply(f);
                let n = self.cx.loops;
                let found = format_ident!("__found{n}");
                if name == "any" {
                    let (pre, lp) = self.chain(&recv, &mut |_, x| parse_quote!(if { let #p = #x; #b } { #found = true; break; }));
                    q!({ let mut #found = false; #(#pre)* #lp #found })
                } else {
                    let (pre, lp) = self.chain(&recv, &mut |_, x| parse_quote!(if !({ let #p = #x; #b }) { #found = false; break; }));
                    q!({ let mut #found = true; #(#pre)* #lp #found })
                }
            }
            ("extend", 1) => {
                let arg = a(0);
                let kk = self.cx.kind(&arg);
                if kk == Iter {
                    let (base, st) = self.stages(&arg);
                    if !st.is_empty() {
                        let tmp = format_ident!("__acc{}", self.cx.loops);
                        let (pre, lp) = self.chain(&arg, &mut |_, x| parse_quote!({ #tmp.push(#x); }));
                        return q!({ let mut #tmp = Vec::new(); #(#pre)* #lp #recv.extend_(#tmp) });
                    }
                    return q!(#recv.extend_(#base));
                }
                q!(#recv.extend_(#arg))
            }
            ("next", 0) => {
                if let Expr::Path(p) = &recv {
                    if let Some(i) = p.path.get_ident() {
                        if let Some((f, args)) = self.cx.lifts.get(&i.to_string()) {
                            return q!(#f(#(#args),*));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn mark_loop(&mut self, e: &mut Expr) {
        self.cx.depth += 1;
        self.mark_loop_(e);
        self.cx.depth -= 1;
    }

    fn mark_loop_(&mut self, e: &mut Expr) {
        let n = self.cx.loops;
        self.cx.loops += 1;
        self.cx.kinds.push(loop_kind(e));
        let id = self.cx.id;
        let inv = format_ident!("__MARK_INV_{id}_{n}");
        let lb = format_ident!("__MARK_LB_{id}_{n}");
        match e {
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x) = (&l.pat, &l.expr);
                    let b = &w.body;
                    let label = &w.label;
                    let mut l2: ExprLoop = parse_quote!(#label loop { match #x { #p => #b _ => { break; } } });
                    visit_mut::visit_block_mut(self, &mut l2.body);
                    let st = &l2.body.stmts;
                    *e = Expr::Verbatim(quote!(#label loop #inv { #lb #(#st)* }));
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    visit_mut::visit_block_mut(self, &mut w.body);
                    let (c, st, label) = (&w.cond, &w.body.stmts, &w.label);
                    *e = Expr::Verbatim(quote!(#label while #c #inv { #lb #(#st)* }));
                }
            }
            Expr::Loop(l) => {
                visit_mut::visit_block_mut(self, &mut l.body);
                let (st, label) = (&l.body.stmts, &l.label);
                *e = Expr::Verbatim(quote!(#label loop #inv { #lb #(#st)* }));
            }
            _ => unreachable!(),
        }
        // what is remembered of the state before the loop
        if self.cx.c.befores.contains_key(&n) {
            let bef = format_ident!("__MARK_BEF_{id}_{n}");
            *e = Expr::Verbatim(quote!({ #bef #e }));
        }
    }

    fn macro_(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "trace" | "debug" | "info" | "warn" | "error" | "pin_mut" => {
                self.cx.dropped.push(format!("macro {n}!"));
                Some(parse_quote!({}))
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                match m.parse_body::<M>() {
                    Ok(M(e, p, None)) => Some(parse_quote!(match #e { #p => true, _ => false })),
                    Ok(M(e, p, Some(g))) => Some(parse_quote!(match #e { #p if #g => true, _ => false })),
                    Err(_) => None,
                }
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                struct Rep(Expr, Expr);
                impl parse::Parse for Rep {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(e, i.parse()?))
                    }
                }
                if let Ok(Rep(x, n)) = m.parse_body::<Rep>() {
                    return Some(parse_quote!(crate::shim::vec_of(#x, #n)));
                }
                let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let x = self.cx.fresh("v");
                let xs = p.iter();
                Some(parse_quote!({ let mut #x = Vec::new(); #(#x.push(#xs);)* #x }))
            }
            "format" => self.format(m),
            "select" => self.select(m),
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(crate::shim::diverge())),
            "assert" | "debug_assert" => {
                let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let c = p.first()?;
                Some(parse_quote!(if !(#c) { crate::shim::diverge() }))
            }
            _ => {
                self.cx.fail(format!("macro {n}!"));
                None
            }
        }
    }

    /// `format!` of texts that are displayed one after the other.
    fn format(&mut self, m: &Macro) -> Option<Expr> {
        let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = p.first() else { return None };
        let mut args = p.iter().skip(1);
        let f = f.value();
        let (mut rest, mut text) = (f.as_str(), String::new());
        let mut parts: Vec<Expr> = vec![];
        while let Some(i) = rest.find(['{', '}']) {
            text += &rest[..i];
            if rest[i..].starts_with("{{") || rest[i..].starts_with("}}") {
                text.push_str(&rest[i..=i]);
                rest = &rest[i + 2..];
                continue;
            }
            let j = rest[i..].find('}')? + i;
            let name = rest[i + 1..j].trim();
            let e: Expr = if name.is_empty() {
                args.next()?.clone()
            } else {
                let i = parse_str::<Ident>(name).ok()?;
                parse_quote!(#i)
            };
            if !text.is_empty() {
                let t = std::mem::take(&mut text);
                parts.push(parse_quote!(#t));
            }
            parts.push(e);
            rest = &rest[j + 1..];
        }
        text += rest;
        if args.next().is_some() {
            return None;
        }
        if !text.is_empty() || parts.is_empty() {
            parts.push(parse_quote!(#text));
        }
        let mut out: Option<Expr> = None;
        for e in parts {
            let s: Expr = parse_quote!(crate::shim::Display::to_string(&#e));
            out = Some(match out {
                None => s,
                Some(o) => parse_quote!(crate::shim::concat(#o, #s)),
            });
        }
        out
    }

    /// `select!`: one of the branches, whichever.
    fn select(&mut self, m: &Macro) -> Option<Expr> {
        struct Arm(Pat, Expr, Expr);
        struct S(Vec<Arm>);
        impl parse::Parse for S {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                if i.peek(Ident) && i.peek2(Token![;]) {
                    i.parse::<Ident>()?;
                    i.parse::<Token![;]>()?;
                }
                let mut v = vec![];
                while !i.is_empty() {
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    i.parse::<Token![=]>()?;
                    let e = i.parse()?;
                    i.parse::<Token![=>]>()?;
                    let b: Expr = if i.peek(token::Brace) {
                        let b: Block = i.parse()?;
                        parse_quote!(#b)
                    } else {
                        i.parse()?
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    v.push(Arm(p, e, b));
                }
                Ok(S(v))
            }
        }
        let S(mut arms) = match m.parse_body::<S>() {
            Ok(s) => s,
            Err(e) => {
                self.cx.fail(format!("select!: {e}"));
                return None;
            }
        };
        self.cx.dropped.push("select! (any branch may be taken)".into());
        if arms.len() > 3 {
            self.cx.fail("select! with many branches");
            return None;
        }
        let mut paths = crate::item::Paths { krate: &self.cx.krate, bad: None };
        for Arm(p, e, b) in arms.iter_mut() {
            paths.visit_pat_mut(p);
            paths.visit_expr_mut(e);
            paths.visit_expr_mut(b);
        }
        // One of the branches that are left; one whose pattern does not fit is
        // out for good.
        fn sure(p: &Pat) -> bool {
            match p {
                Pat::Ident(i) => i.subpat.is_none(),
                Pat::Wild(_) => true,
                Pat::Tuple(t) => t.elems.iter().all(sure),
                _ => false,
            }
        }
        fn pick(arms: &[(&Arm, u8)], lost: &proc_macro2::TokenStream) -> Expr {
            let mut out: Option<Expr> = None;
            for (i, (Arm(p, e, b), k)) in arms.iter().enumerate().rev() {
                let this: Expr = if sure(p) {
                    parse_quote!({ let #p = #e; #b })
                } else if arms.len() == 1 {
                    parse_quote!({ if let #p = #e { #b } else { crate::shim::diverge() } })
                } else {
                    let rest: Vec<(&Arm, u8)> = arms.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, a)| *a).collect();
                    let o = pick(&rest, lost);
                    parse_quote!({ if let #p = #e { #b } else { #lost #o } })
                };
                out = Some(match out {
                    None => this,
                    Some(o) => parse_quote!(if crate::shim::choose(#k) #this else { #o }),
                });
            }
            out.unwrap()
        }
        let n = arms.len();
        let arms: Vec<(&Arm, u8)> = arms.iter().enumerate().map(|(i, a)| (a, (n - i) as u8)).collect();
        let lost = if self.cx.c.keep_branches { quote!(crate::shim::branch_lost();) } else { quote!() };
        Some(pick(&arms, &lost))
    }

    fn is_flags(e: &Expr) -> bool {
        match e {
            Expr::Path(p) => {
                let n = p.path.segments.len();
                n > 1 && p.path.segments[n - 2].ident == "Flags"
            }
            Expr::Call(c) => Self::is_flags(&c.func),
            Expr::Paren(p) => Self::is_flags(&p.expr),
            Expr::If(i) => matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(e, None)) if Self::is_flags(e)),
            Expr::Block(i) => matches!(i.block.stmts.last(), Some(Stmt::Expr(e, None)) if Self::is_flags(e)),
            Expr::Binary(b) => matches!(b.op, BinOp::BitOr(_)) && Self::is_flags(&b.left),
            _ => false,
        }
    }
}

/// Takes `&` out of a pattern; the names that are bound under one.
fn strip_refs(p: &mut Pat) -> Vec<Ident> {
    struct V(Vec<Ident>, usize);
    impl VisitMut for V {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                if r.mutability.is_none() {
                    let mut inner = (*r.pat).clone();
                    self.1 += 1;
                    self.visit_pat_mut(&mut inner);
                    self.1 -= 1;
                    *p = inner;
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            // constants and unit variants bind nothing
            if self.1 == 1 && p.by_ref.is_none() && !p.ident.to_string().starts_with(char::is_uppercase) {
                self.0.push(p.ident.clone());
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
    }
    let mut v = V(vec![], 0);
    v.visit_pat_mut(p);
    v.0
}

fn arg_names(s: &Signature) -> Vec<Ident> {
    s.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.clone()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

impl VisitMut for R<'_, '_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.by_ref.is_some() && self.cx.c.refmut.contains(&p.ident.to_string()) {
            p.mutability = Some(Default::default());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    // a reference in a pattern: what it binds is what is referred to
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let ids = strip_refs(&mut a.pat);
        if !ids.is_empty() {
            let b = &a.body;
            a.body = Box::new(parse_quote!({ #(let #ids = *#ids;)* #b }));
            if let Some((_, g)) = &mut a.guard {
                let old = g.clone();
                *g = Box::new(parse_quote!({ #(let #ids = *#ids;)* #old }));
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if let Expr::Let(l) = &mut *i.cond {
            let ids = strip_refs(&mut l.pat);
            if !ids.is_empty() {
                let st = &i.then_branch.stmts;
                i.then_branch = parse_quote!({ #(let #ids = *#ids;)* #(#st)* });
            }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
            if r.mutability.is_none() && matches!(*r.pat, Pat::Ident(_)) {
                let e = &i.expr;
                i.expr = parse_quote!(*(#e));
                l.pat = (*r.pat).clone();
            }
        }
        // a local iterator made from a closure becomes a function
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            if let Some(body) = from_fn_closure(&init.expr) {
                let name = p.ident.to_string();
                let want = self.cx.c.lift.iter().find(|x| x.0 == name || x.0 == "_");
                match want.and_then(|w| parse_str::<Signature>(&format!("fn {}__lazy{}", self.cx.sig.ident, w.1)).ok()) {
                    Some(mut s) => {
                        s.generics = self.cx.sig.generics.clone();
                        let args = arg_names(&s);
                        self.cx.lifts.insert(name, (s.ident.clone(), args));
                        let b: Block = match body {
                            Expr::Block(b) => b.block,
                            e => parse_quote!({ #e }),
                        };
                        self.cx.lifted.push((s, b));
                    }
                    None => self.cx.fail("a local lazy iterator"),
                }
                l.pat = parse_quote!(_);
                l.init.as_mut().unwrap().expr = parse_quote!(());
                return;
            }
        }
        // a local closure is put in where it is called
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            if let Expr::Closure(c) = &*init.expr {
                if !has_exit(&c.body) && c.asyncness.is_none() {
                    self.cx.closures.insert(p.ident.to_string(), c.clone());
                    l.pat = parse_quote!(_);
                    l.init.as_mut().unwrap().expr = parse_quote!(());
                    return;
                }
            }
        }
        if let Some(i) = &l.init {
            let mut k = self.cx.kind(&i.expr);
            let mut name = None;
            match &l.pat {
                Pat::Ident(p) => name = Some(p.ident.to_string()),
                Pat::Type(t) => {
                    k = kind_of(&t.ty);
                    if let Pat::Ident(p) = &*t.pat {
                        name = Some(p.ident.to_string());
                    }
                }
                _ => {}
            }
            if let Some(n) = name {
                self.cx.vars.insert(n.clone(), k);
                self.cx.byref.remove(&n);
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // a block behind a loop would be read as the loop's
        let n = b.stmts.len();
        for s in b.stmts.iter_mut().take(n.saturating_sub(1)) {
            if let Stmt::Expr(Expr::Verbatim(_), semi @ None) = s {
                *semi = Some(Default::default());
            }
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = self.macro_(&m.mac).unwrap_or(parse_quote!(()));
            let semi = m.semi_token;
            if let Expr::Block(b) = &e {
                if b.block.stmts.is_empty() {
                    *s = Stmt::Expr(parse_quote!(()), semi.or(Some(Default::default())));
                    return;
                }
            }
            *s = Stmt::Expr(e, semi);
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let new: Option<Expr> = match e {
                Expr::Await(a) => Some((*a.base).clone()),
                Expr::Macro(m) => {
                    let mac = m.mac.clone();
                    match self.macro_(&mac) {
                        Some(e) => Some(e),
                        None => {
                            self.cx.fail(format!("macro {}", mac.path.to_token_stream()));
                            return;
                        }
                    }
                }
                // &mut buf, where buf is a reference by now
                Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                    Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.cx.byref.contains(&i.to_string())) => Some((*r.expr).clone()),
                    _ => None,
                },
                // &x[..]
                Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                    Expr::Index(i) => match &*i.index {
                        Expr::Range(g) if g.start.is_none() && g.end.is_none() => {
                            let x = &i.expr;
                            Some(parse_quote!(crate::shim::AsSlice::as_slice_(&#x)))
                        }
                        _ => None,
                    },
                    _ => None,
                },
                Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.cx.closures.contains_key(&i.to_string()))) => {
                    let Expr::Path(p) = &*c.func else { unreachable!() };
                    let k = self.cx.closures[&p.path.get_ident().unwrap().to_string()].clone();
                    let xs: Vec<Ident> = c.args.iter().map(|_| self.cx.fresh("a")).collect();
                    let (args, ps, b) = (c.args.iter(), k.inputs.iter(), &k.body);
                    // the arguments first: their names are not the closure's
                    Some(parse_quote!({ #(let #xs = #args;)* #(let #ps = #xs;)* #b }))
                }
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let l = p.path.segments.last().unwrap().ident.to_string();
                        let n = p.path.segments.len();
                        let prim = n == 2 && p.qself.is_none() && matches!(p.path.segments[0].ident.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i16" | "i32" | "i64" | "i128" | "isize");
                        match l.as_str() {
                            // a conversion that keeps the value
                            "from" if prim => {
                                let (t, a) = (&p.path.segments[0], &c.args);
                                Some(parse_quote!((#a as #t)))
                            }
                            "from_be_bytes" if prim => {
                                let (t, a) = (&p.path.segments[0], &c.args);
                                let f = format_ident!("{}_from_be_bytes", t.ident);
                                Some(parse_quote!(crate::shim::#f(#a)))
                            }
                            "from_utf8_lossy" if n >= 2 && p.path.segments[n - 2].ident == "String" => {
                                let a = &c.args;
                                Some(parse_quote!(crate::shim::from_utf8_lossy(#a)))
                            }
                            "from" if n >= 2 && p.qself.is_none() && p.path.segments[n - 2].ident != "From" && p.path.segments[n - 2].ident.to_string().contains(|c: char| c.is_uppercase()) => {
                                let mut t = p.path.clone();
                                t.segments.pop();
                                t.segments.pop_punct();
                                let a = &c.args;
                                if self.cx.krate == "spoa" {
                                    Some(parse_quote!(crate::shim::IntoR::<#t>::into_r(#a)))
                                } else {
                                    Some(parse_quote!(<#t as crate::shim::From<_>>::from(#a)))
                                }
                            }
                            // a box for a value of any type
                            "new" if n >= 2 && p.path.segments[n - 2].ident == "Box" && self.cx.krate == "spoa" => {
                                let a = &c.args;
                                Some(parse_quote!(crate::shim::boxed(#a)))
                            }
                            "try_from" if n == 2 && p.qself.is_none() && p.path.segments[0].ident != "TryFrom" => {
                                let t = &p.path.segments[0];
                                let a = &c.args;
                                Some(parse_quote!(<#t as crate::shim::TryFrom<_>>::try_from(#a)))
                            }
                            "poll_fn" => match c.args.first() {
                                // waiting until it is ready
                                Some(Expr::Closure(k)) => {
                                    let b = &k.body;
                                    self.cx.dropped.push("poll_fn (waits until it is ready)".into());
                                    match (**b).clone() {
                                        Expr::MethodCall(m) => {
                                            let (r, f) = (&m.receiver, format_ident!("{}__wait", m.method));
                                            Some(parse_quote!(#r.#f()))
                                        }
                                        _ => None,
                                    }
                                }
                                _ => None,
                            },
                            _ => None,
                        }
                    } else {
                        None
                    }
                }
                Expr::MethodCall(m) => {
                    // <[u8; N]>::try_from(slice).unwrap()
                    if m.method == "unwrap" || m.method == "expect" {
                        let arr = match &*m.receiver {
                            Expr::Call(c) => match &*c.func {
                                Expr::Path(p) if p.path.segments.last().unwrap().ident == "try_from" => match &p.qself {
                                    Some(q) if matches!(*q.ty, Type::Array(_)) => {
                                        let Type::Array(t) = &*q.ty else { unreachable!() };
                                        let (n, a) = (&t.len, &c.args);
                                        Some(parse_quote!(crate::shim::array_from_slice(#a, #n)))
                                    }
                                    _ => None,
                                },
                                _ => None,
                            },
                            _ => None,
                        };
                        arr
                    } else {
                        let m = m.clone();
                        self.method(&m)
                    }
                }
                Expr::Binary(b) if matches!(b.op, BinOp::BitOr(_)) && (Self::is_flags(&b.left) || Self::is_flags(&b.right)) => {
                    let (x, y) = (&b.left, &b.right);
                    Some(parse_quote!(crate::shim::BitOr::bitor(#x, #y)))
                }
                Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) && Self::is_flags(&b.right) => {
                    let (x, y) = (&b.left, &b.right);
                    Some(parse_quote!(#x = crate::shim::BitOr::bitor(#x, #y)))
                }
                Expr::Try(t) if self.cx.krate == "spoa" && self.cx.ret == Kind::Res => {
                    let x = (*t.expr).clone();
                    if self.cx.kind(&x) == Kind::Opt {
                        self.cx.fail("? on an option in a function that returns a result");
                    }
                    Some(parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(crate::shim::IntoR::into_r(__e)) }))
                }
                Expr::ForLoop(f) => {
                    let (p, x, b, l) = (&f.pat, &f.expr, &f.body, &f.label);
                    if let Expr::Range(r) = &**x {
                        let (Some(lo), Some(hi), Pat::Ident(_) | Pat::Wild(_), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &**p, &r.limits) else {
                            self.cx.fail("a loop over a range");
                            return;
                        };
                        let (i, end) = (format_ident!("__k{}", self.cx.loops), format_ident!("__k{}_end", self.cx.loops));
                        *e = parse_quote!({ let mut #i = #lo; let #end = #hi; #l loop { if #i >= #end { break; } let #p = #i; #i = #i + 1; #b } });
                        continue;
                    }
                    let it = format_ident!("__it{}", self.cx.loops);
                    let x: Expr = if self.cx.kind(x) == Kind::Iter {
                        let (base, st) = self.stages(x);
                        if !st.is_empty() {
                            self.cx.fail("a loop over an iterator with stages");
                        }
                        base
                    } else {
                        parse_quote!(crate::shim::IntoIterator::into_iter(#x))
                    };
                    Some(parse_quote!({ let mut #it = #x; #l loop { match #it.next() { None => { break; } Some(#p) => #b } } }))
                }
                Expr::Closure(_) => {
                    self.cx.fail("a closure");
                    None
                }
                // a future that somebody else runs: its block becomes a function
                // of what it captures
                Expr::Async(a) => match self.cx.c.task.as_ref().and_then(|t| parse_str::<Signature>(&format!("fn {}__task{t}", self.cx.sig.ident)).ok()) {
                    Some(mut s) if self.cx.tasks == 0 => {
                        self.cx.tasks += 1;
                        let args = arg_names(&s);
                        for a in s.inputs.iter_mut() {
                            if let FnArg::Typed(t) = a {
                                if let Pat::Ident(i) = &mut *t.pat {
                                    i.mutability = Some(Default::default());
                                }
                            }
                        }
                        self.cx.dropped.push("async block (a function that the task runs)".into());
                        self.cx.lifted.push((s, a.block.clone()));
                        Some(parse_quote!(crate::shim::future(#(#args),*)))
                    }
                    _ => {
                        self.cx.fail("an async block");
                        None
                    }
                },
                Expr::Unsafe(_) => {
                    self.cx.fail("unsafe code");
                    None
                }
                _ => None,
            };
            match new {
                Some(n) => *e = n,
                None => break,
            }
        }
        match e {
            Expr::While(_) | Expr::Loop(_) => {
                self.mark_loop(e);
                return;
            }
            Expr::Break(b) if self.cx.tail && self.cx.depth == 1 && b.label.is_none() && b.expr.is_some() => {
                let v = b.expr.take().unwrap();
                *e = parse_quote!(return #v);
            }
            _ => {}
        }
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    self.cx.calls.insert(s.join("::"));
                    if self.cx.c.world.contains(s.last().unwrap()) || self.cx.c.world.contains(&s.join("::")) {
                        c.args.push(parse_quote!(__w));
                    }
                }
            }
            Expr::MethodCall(m) => {
                self.cx.calls.insert(format!(".{}", m.method));
                if self.cx.c.world.contains(&format!(".{}", m.method)) {
                    m.args.push(parse_quote!(__w));
                } else if self.cx.c.world.contains(&format!(".{}>", m.method)) {
                    // another method of the same meaning
                    m.method = format_ident!("{}_w", m.method);
                    m.args.push(parse_quote!(__w));
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn loop_kind(e: &Expr) -> &'static str {
    let named = |x: &Expr, p: &str| matches!(x, Expr::Path(n) if n.path.get_ident().is_some_and(|i| i.to_string().starts_with(p)));
    match e {
        Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => "while-let",
        Expr::While(_) => "while",
        Expr::Loop(l) => match l.body.stmts.first() {
            Some(Stmt::Expr(Expr::Match(m), _)) => match &*m.expr {
                Expr::MethodCall(c) if c.method == "next" && named(&c.receiver, "__it") => "each",
                Expr::MethodCall(c) if c.method.to_string().ends_with("__next") => "each",
                Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().ends_with("__next")) => "each",
                _ => "loop",
            },
            Some(Stmt::Expr(Expr::If(i), _)) if matches!(&*i.cond, Expr::Binary(b) if named(&b.left, "__k")) => "each",
            _ => "loop",
        },
        _ => "loop",
    }
}
