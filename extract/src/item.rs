//! Items: functions, types, impls and the code that derives write.

use crate::expr::{rewrite_fn, Ctx};
use crate::print::print;
use crate::{norm, FnInfo, Kind, World};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const BOUNDS: &[&str] = &[
    "Buf", "BufMut", "Into", "From", "AsRef", "IntoIterator", "Display", "MakeService", "Service", "Clone",
    "Copy", "FromIterator", "TryFromPrimitive", "AsyncRead", "AsyncWrite", "Sized", "FnOnce", "BufExt",
    "BufMutExt", "Reason", "Any", "StdError",
];

pub fn kind_of(t: &Type) -> Kind {
    match t {
        Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
            "Option" => Kind::Opt,
            "Result" | "StdResult" => Kind::Res,
            "bool" => Kind::Bool,
            "Poll" => Kind::Poll,
            "IntoIter" | "Iter" => Kind::Iter,
            _ => Kind::Other,
        },
        Type::Reference(r) => kind_of(&r.elem),
        Type::Paren(p) => kind_of(&p.elem),
        Type::ImplTrait(i) => {
            if i.to_token_stream().to_string().contains("Iterator") {
                Kind::Iter
            } else {
                Kind::Other
            }
        }
        _ => Kind::Other,
    }
}

fn ret_kind(s: &Signature) -> Kind {
    match &s.output {
        ReturnType::Default => Kind::Other,
        ReturnType::Type(_, t) => kind_of(t),
    }
}

fn lazy_item(s: &Signature) -> Option<Type> {
    // impl Iterator<Item = X>
    let ReturnType::Type(_, t) = &s.output else { return None };
    let Type::ImplTrait(i) = &**t else { return None };
    for b in &i.bounds {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last()?;
            if l.ident == "Iterator" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(a) = g {
                            if a.ident == "Item" {
                                return Some(a.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

pub fn is_cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string();
            s.contains("test") || s.contains("haproxy_verif")
        }
    })
}

/// Traits of other crates whose impls are given by the sources.
const FOREIGN: [&str; 16] = [
    "From", "Default", "TryFrom", "FromStr", "AsRef", "Clone", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Extend", "FromIterator", "Into", "IntoIterator", "Deref",
];

/// Made of constructors, fields and names only.
fn logical(e: &Expr) -> bool {
    let ctor = |p: &Path| p.segments.last().is_some_and(|s| s.ident.to_string().starts_with(char::is_uppercase));
    match e {
        Expr::Path(p) => p.qself.is_none(),
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_) | Lit::Int(_)),
        Expr::Paren(x) => logical(&x.expr),
        Expr::Field(x) => logical(&x.base),
        Expr::Tuple(x) => x.elems.iter().all(logical),
        Expr::Struct(x) => x.rest.is_none() && x.fields.iter().all(|f| logical(&f.expr)),
        Expr::Call(x) => matches!(&*x.func, Expr::Path(p) if ctor(&p.path)) && x.args.iter().all(logical),
        Expr::Match(x) => logical(&x.expr) && x.arms.iter().all(|a| a.guard.is_none() && logical(&a.body)),
        Expr::Block(x) => matches!(&x.block.stmts[..], [Stmt::Expr(e, None)] if logical(e)),
        _ => false,
    }
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Mod(m) => &m.attrs,
        Item::Fn(f) => &f.attrs,
        Item::Use(u) => &u.attrs,
        Item::Struct(u) => &u.attrs,
        Item::Enum(u) => &u.attrs,
        Item::Impl(u) => &u.attrs,
        Item::Trait(u) => &u.attrs,
        Item::Const(u) => &u.attrs,
        Item::Type(u) => &u.attrs,
        _ => &[],
    }
}

pub fn collect(w: &mut World, m: &str, items: &[Item]) {
    for i in items {
        if is_cfg_out(item_attrs(i)) {
            continue;
        }
        let add = |w: &mut World, method: bool, s: &Signature| {
            w.rets.push((m.to_string(), method, s.ident.to_string(), ret_kind(s)));
            if lazy_item(s).is_some() {
                w.from_fns.insert(s.ident.to_string());
            }
        };
        match i {
            Item::Fn(f) => {
                add(w, false, &f.sig);
            }
            Item::Struct(t) => {
                for (n, f) in t.fields.iter().enumerate() {
                    let name = f.ident.as_ref().map_or(n.to_string(), |i| i.to_string());
                    w.fkinds.entry(format!("{}.{name}", t.ident)).or_default().push(kind_of(&f.ty));
                    w.fkinds.entry(name).or_default().push(kind_of(&f.ty));
                }
            }
            Item::Impl(i) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        add(w, f.sig.receiver().is_some(), &f.sig);
                    }
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        add(w, true, &f.sig);
                    }
                }
            }
            _ => {}
        }
    }
}

/// Rewrites paths and types.
pub struct Paths<'a> {
    pub krate: &'a str,
    pub bad: Option<String>,
}

impl Paths<'_> {
    fn path(&mut self, p: &mut Path) {
        let Some(f) = p.segments.first().map(|s| s.ident.to_string()) else { return };
        if matches!(f.as_str(), "core" | "std") && p.segments.iter().nth(1).is_some_and(|s| s.ident == "result" || s.ident == "option") {
            p.segments[0].ident = format_ident!("core");
            return;
        }
        if f == "crate" {
            let second = p.segments.iter().nth(1).map(|s| s.ident.to_string()).unwrap_or_default();
            if second == "shim" || second == self.krate {
                return;
            }
            let mut segs: Vec<PathSegment> = vec![format_ident!("crate").into()];
            if !(self.krate == "spoa" && second == "spop") {
                segs.push(Ident::new(self.krate, Span::call_site()).into());
            }
            segs.extend(p.segments.iter().skip(1).cloned());
            p.segments = segs.into_iter().collect();
            p.leading_colon = None;
        } else if f == "haproxy_spop" {
            p.segments[0].ident = format_ident!("spop");
            p.segments.insert(0, format_ident!("crate").into());
        } else if p.segments.len() > 1
            && matches!(f.as_str(), "std" | "core" | "alloc" | "tokio" | "tower" | "bytes" | "futures" | "http" | "fmt" | "io" | "oneshot" | "mpsc" | "tokio_util" | "derive_more" | "cmp")
        {
            // from the first type on, or only the last name
            let up = |s: &PathSegment| s.ident.to_string().starts_with(|c: char| c.is_uppercase());
            let n = p.segments.len();
            let at = p.segments.iter().position(up).unwrap_or(n - 1);
            let mut rest: Vec<PathSegment> = p.segments.iter().skip(at).cloned().collect();
            if rest[0].ident == "Error" && at > 0 || rest[0].ident == "Builder" && at > 0 && p.segments[at - 1].ident == "task" {
                rest[0].ident = format_ident!("{}_{}", p.segments[at - 1].ident, rest[0].ident);
            }
            p.leading_colon = None;
            let mut segs: Vec<PathSegment> = vec![format_ident!("crate").into(), format_ident!("shim").into()];
            segs.append(&mut rest);
            p.segments = segs.into_iter().collect();
        }
    }
}

impl VisitMut for Paths<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let n = p.path.segments.len();
            let last = p.path.segments.last().unwrap().clone();
            let args: Vec<GenericArgument> = match &last.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(),
                _ => vec![],
            };
            if n == 2 && last.ident == "IntoIter" && p.qself.is_none() && args.is_empty() {
                let i = &p.path.segments[0].ident;
                *t = parse_quote!(crate::shim::IntoIter<<#i as crate::shim::IntoIterator>::Item>);
                return;
            }
            if n == 1 && last.ident == "IntoIter" && args.len() == 2 {
                let a = &args[0];
                *t = parse_quote!(crate::shim::IntoIter<#a>);
            } else if n == 1 && last.ident == "Iter" && !args.is_empty() {
                let a = args.iter().find(|a| matches!(a, GenericArgument::Type(_))).unwrap();
                *t = parse_quote!(crate::shim::IntoIter<& #a>);
            }
        }
        if let Type::TraitObject(o) = t {
            let s = o.to_token_stream().to_string();
            if s.contains("StdError") {
                *t = parse_quote!(crate::shim::DynError);
                return;
            }
            if s.contains("Reason") {
                *t = parse_quote!(crate::shim::DynReason);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn bound_ok(b: &mut TypeParamBound) -> bool {
    match b {
        TypeParamBound::Trait(t) => {
            let l = t.path.segments.last().unwrap().clone();
            let ok = BOUNDS.iter().any(|x| l.ident == x);
            if ok {
                t.path.leading_colon = None;
                t.path.segments = [l].into_iter().collect();
            }
            ok
        }
        _ => false,
    }
}

fn filter_bounds(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = std::mem::take(&mut t.bounds).into_iter().filter_map(|mut b| bound_ok(&mut b).then_some(b)).collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(wc) = &mut g.where_clause {
        wc.predicates = std::mem::take(&mut wc.predicates)
            .into_iter()
            .filter_map(|mut p| {
                if let WherePredicate::Type(t) = &mut p {
                    t.bounds = std::mem::take(&mut t.bounds).into_iter().filter_map(|mut b| bound_ok(&mut b).then_some(b)).collect();
                    if t.bounds.is_empty() {
                        return None;
                    }
                }
                Some(p)
            })
            .collect();
        if wc.predicates.is_empty() {
            g.where_clause = None;
        }
    }
}

/// Type parameters bound by one of the traits that the shims implement for
/// references, so that a value of the parameter is passed as a reference.
fn by_ref_params(gs: &[&Generics], names: &[&str]) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    let is = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if names.iter().any(|x| t.path.segments.last().unwrap().ident == x));
    for g in gs {
        for p in &g.params {
            if let GenericParam::Type(t) = p {
                if t.bounds.iter().any(is) {
                    o.insert(t.ident.to_string());
                }
            }
        }
        if let Some(wc) = &g.where_clause {
            for p in &wc.predicates {
                if let WherePredicate::Type(t) = p {
                    if t.bounds.iter().any(is) {
                        o.insert(t.bounded_ty.to_token_stream().to_string());
                    }
                }
            }
        }
    }
    o
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn ty_key(t: &impl ToTokens) -> String {
    norm(&t.to_token_stream().to_string())
}

pub fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let l = p.path.segments.last().unwrap();
            if p.path.segments.len() == 1 && matches!(l.arguments, PathArguments::None) {
                l.ident.to_string()
            } else if p.path.segments.len() == 1 {
                // generic arguments that are only parameters are left out
                l.ident.to_string()
            } else {
                ty_key(t)
            }
        }
        _ => ty_key(t),
    }
}

pub struct Em<'a> {
    pub w: &'a mut World,
    pub module: String,
    pub krate: String,
    pub file: String,
    pub out: String,
    /// the function is one of which nothing is said
    pub bare: bool,
}

pub fn module(w: &mut World, m: &str, file: &str, items: Vec<Item>) -> String {
    let krate = m.split("::").next().unwrap().to_string();
    let mut em = Em { w, module: m.to_string(), krate, file: file.to_string(), out: String::new(), bare: false };
    for i in items {
        if is_cfg_out(item_attrs(&i)) {
            continue;
        }
        em.item(i);
    }
    em.out
}

impl Em<'_> {
    fn put(&mut self, ts: TokenStream) {
        self.out.push_str(&print(ts, 0));
        self.out.push('\n');
    }

    fn paths(&self) -> Paths<'_> {
        Paths { krate: &self.krate, bad: None }
    }

    fn replaced(&mut self, name: &str) -> bool {
        let key = format!("{}::{name}", self.module);
        if let Some(t) = self.w.contracts.replace.get(&key) {
            let t = t.clone();
            self.out.push_str(&t);
            self.w.drop_note(&format!("replaced by a trusted text: {key}"));
            true
        } else {
            false
        }
    }

    fn item(&mut self, i: Item) {
        match i {
            Item::Use(u) => self.use_(u),
            Item::Const(mut c) => {
                if self.replaced(&c.ident.to_string()) {
                    return;
                }
                let (mut ty, mut e) = ((*c.ty).clone(), (*c.expr).clone());
                self.paths().visit_type_mut(&mut ty);
                self.paths().visit_expr_mut(&mut e);
                if let Type::Reference(r) = &mut ty {
                    r.lifetime = Some(parse_quote!('static));
                }
                c.attrs.clear();
                let n = &c.ident;
                self.put(const_(Some(quote!(pub)), n, &ty, &e, false));
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                if self.replaced(&t.ident.to_string()) {
                    return;
                }
                self.paths().visit_item_type_mut(&mut t);
                self.put(t.to_token_stream());
            }
            Item::Struct(s) => self.struct_(s),
            Item::Enum(e) => self.enum_(e),
            Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "bitflags" => self.bitflags(m.mac.tokens),
            Item::Fn(f) => {
                let key = format!("{}::{}", self.module, f.sig.ident);
                let ts = self.function(&key, f.sig, Some(*f.block), &Generics::default(), true, true);
                self.put(ts);
            }
            Item::Trait(t) => self.trait_(t),
            Item::Impl(i) => self.impl_(i),
            Item::Mod(m) => {
                if m.content.is_some() {
                    self.w.notes.push(format!("inline module {} is not followed", m.ident));
                }
            }
            other => {
                let s: String = other.to_token_stream().to_string().chars().take(40).collect();
                self.w.drop_note(&format!("item: {s}"));
            }
        }
    }

    fn use_(&mut self, mut u: ItemUse) {
        let first = match &u.tree {
            UseTree::Path(p) => p.ident.to_string(),
            _ => String::new(),
        };
        u.attrs.clear();
        u.vis = parse_quote!(pub);
        if !use_filter(&mut u.tree, &self.w.drop_use) {
            self.w.drop_note("use of a name that is not verified");
            return;
        }
        match first.as_str() {
            "self" => {
                // a module that is not among the sources
                if let UseTree::Path(p) = &u.tree {
                    if let UseTree::Path(q) = &*p.tree {
                        if !self.w.mods.contains(&format!("{}::{}", self.module, q.ident)) {
                            self.w.drop_note("use of a module that is not verified");
                            return;
                        }
                    }
                }
            }
            "super" => {}
            "haproxy_spop" => {
                let UseTree::Path(p) = &u.tree else { return };
                let t = &p.tree;
                u.tree = parse_quote!(crate::spop::#t);
            }
            "crate" => {
                let UseTree::Path(p) = &u.tree else { return };
                let k = format_ident!("{}", self.krate);
                let t = (*p.tree).clone();
                // one use per branch, since those of spop are elsewhere
                let branches: Vec<UseTree> = match t {
                    UseTree::Group(g) => g.items.into_iter().collect(),
                    t => vec![t],
                };
                for b in branches {
                    let head = match &b {
                        UseTree::Path(p) => p.ident.to_string(),
                        UseTree::Name(n) => n.ident.to_string(),
                        _ => String::new(),
                    };
                    if self.krate == "spoa" && head == "spop" {
                        self.put(quote!(pub use crate::#b;));
                    } else {
                        self.put(quote!(pub use crate::#k::#b;));
                    }
                }
                return;
            }
            _ => {
                // external: the shims stand in for it
                let s = u.to_token_stream().to_string();
                self.w.drop_note("use of an external crate");
                let n = norm(&s);
                if n.contains("Result as StdResult") {
                    self.put(quote!(pub use core::result::Result as StdResult;));
                }
                return;
            }
        }
        self.put(u.to_token_stream());
    }

    fn struct_(&mut self, mut s: ItemStruct) {
        let name = s.ident.clone();
        if self.replaced(&name.to_string()) {
            return;
        }
        let d = derives(&s.attrs);
        let display = s.attrs.iter().find(|a| a.path().is_ident("display")).map(|a| a.meta.to_token_stream().to_string());
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        for f in s.fields.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
        }
        self.paths().visit_item_struct_mut(&mut s);
        filter_bounds(&mut s.generics);
        self.type_derives(&name, &s.generics, &d);
        self.display_struct(&name, &d, display);
        self.struct_derives(&s, &d);
        if d.iter().any(|x| x == "Copy") {
            self.structural(&name, &s.generics);
        }
        self.put(s.to_token_stream());
    }

    /// Default and the order of the fields.
    fn struct_derives(&mut self, s: &ItemStruct, d: &[String]) {
        let has = |x: &str| d.iter().any(|y| y == x);
        let Fields::Named(f) = &s.fields else { return };
        let name = &s.ident;
        let (a, b, c) = s.generics.split_for_impl();
        let ids: Vec<&Ident> = f.named.iter().map(|f| f.ident.as_ref().unwrap()).collect();
        let tys: Vec<&Type> = f.named.iter().map(|f| &f.ty).collect();
        if has("Default") {
            self.put(quote! {
                impl #a crate::shim::Default for #name #b #c {
                    open spec fn default_spec() -> Self { #name { #(#ids: <#tys as crate::shim::Default>::default_spec()),* } }
                    fn default() -> (r: Self) { #name { #(#ids: <#tys as crate::shim::Default>::default()),* } }
                }
            });
        }
        if has("Ord") {
            let mut spec = quote!(true);
            for (i, t) in ids.iter().zip(&tys).rev() {
                spec = quote!(if self.#i != o.#i { <#t as crate::shim::Order>::le(self.#i, o.#i) } else { #spec });
            }
            self.put(quote! {
                impl crate::shim::Order for #name {
                    open spec fn le(self, o: Self) -> bool { #spec }
                }
            });
        }
    }

    fn structural(&mut self, name: &Ident, g: &Generics) {
        let (a, b, c) = g.split_for_impl();
        self.put(quote!(unsafe impl #a verus_builtin::Structural for #name #b #c {}));
        self.out.push_str("#[derive(Clone, Copy, PartialEq, Eq)]\n");
    }

    fn type_derives(&mut self, name: &Ident, g: &Generics, d: &[String]) {
        let has = |x: &str| d.iter().any(|y| y == x);
        if has("Clone") && !has("Copy") {
            let (a, b, c) = g.split_for_impl();
            self.put(quote! {
                impl #a Clone for #name #b #c {
                    #[verifier::external_body]
                    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                }
            });
        }
    }

    /// parse_display: `#[display("{a}.{b}")]` on a struct.
    fn display_struct(&mut self, name: &Ident, d: &[String], display: Option<String>) {
        if !d.iter().any(|x| x == "Display") {
            return;
        }
        let text = display.and_then(|s| s.split('"').nth(1).map(str::to_string)).unwrap_or_default();
        let mut parts: Vec<TokenStream> = vec![];
        let mut rest = &text[..];
        while let Some(i) = rest.find('{') {
            let cs: Vec<char> = rest[..i].chars().collect();
            if !cs.is_empty() {
                parts.push(quote!(+ seq![#(#cs),*]));
            }
            let Some(j) = rest[i..].find('}') else { break };
            let f = format_ident!("{}", &rest[i + 1..i + j]);
            parts.push(quote!(+ crate::shim::Display::disp(&self.#f)));
            rest = &rest[i + j + 1..];
        }
        let cs: Vec<char> = rest.chars().collect();
        if !cs.is_empty() {
            parts.push(quote!(+ seq![#(#cs),*]));
        }
        self.display_impl(name, d, quote!(Seq::<char>::empty() #(#parts)*));
    }

    fn display_impl(&mut self, name: &Ident, d: &[String], spec: TokenStream) {
        self.put(quote! {
            impl crate::shim::Display for #name {
                open spec fn disp(&self) -> Seq<char> { #spec }
                #[verifier::external_body]
                fn to_string(&self) -> (r: String) { unimplemented!() }
            }
        });
        if d.iter().any(|x| x == "FromStr") {
            self.put(quote! {
                impl crate::shim::FromStr for #name {
                    uninterp spec fn parse_spec(s: Seq<char>) -> Option<Self>;
                    #[verifier::external_body]
                    fn parse_(s: &str) -> (r: core::result::Result<Self, crate::shim::ParseError>) { unimplemented!() }
                }
            });
        }
    }

    /// parse_display: the names of the variants, in the style given.
    fn display_enum(&mut self, name: &Ident, e: &ItemEnum, d: &[String], display: Option<String>) {
        if !d.iter().any(|x| x == "Display") {
            return;
        }
        let style = display.unwrap_or_default();
        let arms = e.variants.iter().map(|v| {
            let n = v.ident.to_string();
            let t = match style.split('"').nth(1) {
                Some("snake_case") => {
                    let mut o = String::new();
                    for (i, c) in n.chars().enumerate() {
                        if c.is_uppercase() {
                            if i > 0 {
                                o.push('_');
                            }
                            o.extend(c.to_lowercase());
                        } else {
                            o.push(c);
                        }
                    }
                    o
                }
                Some("lowercase") => n.to_lowercase(),
                Some("UPPERCASE") => n.to_uppercase(),
                None => n,
                Some(s) => format!("{s}?{n}"),
            };
            let v = &v.ident;
            let cs = t.chars();
            quote!(#name::#v => seq![#(#cs),*],)
        });
        let spec = quote!(match self { #(#arms)* });
        self.display_impl(name, d, spec);
    }

    fn enum_(&mut self, mut e: ItemEnum) {
        let name = e.ident.clone();
        if self.replaced(&name.to_string()) {
            return;
        }
        let d = derives(&e.attrs);
        let repr = e.attrs.iter().find(|a| a.path().is_ident("repr")).cloned();
        let display = e.attrs.iter().find(|a| a.path().is_ident("display")).map(|a| a.meta.to_token_stream().to_string());
        e.attrs = repr.iter().cloned().collect();
        e.vis = parse_quote!(pub);
        let mut from: Vec<(Ident, Type)> = vec![];
        let mut all: Vec<(Ident, Type)> = vec![];
        let mut only: Vec<(Ident, Type)> = vec![];
        for v in e.variants.iter_mut() {
            let skip = v.attrs.iter().any(|a| a.path().is_ident("from") && a.meta.to_token_stream().to_string().contains("skip"));
            let froms = v.fields.iter().any(|f| f.attrs.iter().any(|a| a.path().is_ident("from")));
            v.attrs.clear();
            for f in v.fields.iter_mut() {
                f.attrs.clear();
                self.paths().visit_field_mut(f);
            }
            if let Fields::Unnamed(u) = &v.fields {
                if u.unnamed.len() == 1 {
                    let t = u.unnamed[0].ty.clone();
                    all.push((v.ident.clone(), t.clone()));
                    if froms {
                        only.push((v.ident.clone(), t.clone()));
                    }
                    if !skip || froms {
                        from.push((v.ident.clone(), t));
                    }
                }
            }
        }
        filter_bounds(&mut e.generics);
        self.type_derives(&name, &e.generics, &d);
        self.display_enum(&name, &e, &d, display);
        if d.iter().any(|x| x == "Copy") {
            self.structural(&name, &e.generics);
        }
        self.put(e.to_token_stream());
        let (a, b, c) = e.generics.split_for_impl();
        let has = |x: &str| d.iter().any(|y| y == x);
        if has("From") || (has("Error") && !has("Display")) {
            for (v, t) in if has("From") { &from } else { &only } {
                self.put(quote! {
                    impl #a crate::shim::From<#t> for #name #b #c {
                        open spec fn from_spec(v: #t) -> Self { #name::#v(v) }
                        fn from(v: #t) -> (r: Self) { #name::#v(v) }
                    }
                });
            }
        }
        if has("IntoPrimitive") {
            if let Some(prim) = repr.as_ref().and_then(|r| r.parse_args::<Ident>().ok()) {
                self.put(quote! {
                    impl crate::shim::From<#name> for #prim {
                        open spec fn from_spec(v: #name) -> Self { v as #prim }
                        fn from(v: #name) -> (r: Self) { v as #prim }
                    }
                });
            }
        }
        if has("Error") && !has("Display") {
            // thiserror: what it prints is not looked into
            self.put(quote! {
                impl #a crate::shim::Display for #name #b #c {
                    uninterp spec fn disp(&self) -> Seq<char>;
                    #[verifier::external_body]
                    fn to_string(&self) -> (r: String) { unimplemented!() }
                }
            });
        }
        if has("TryInto") {
            for (v, t) in &all {
                self.put(quote! {
                    impl crate::shim::TryFrom<#name> for #t {
                        open spec fn try_spec(v: #name) -> Option<Self> { match v { #name::#v(x) => Some(x), _ => None } }
                        fn try_from(v: #name) -> (r: core::result::Result<Self, crate::shim::TryError>) { match v { #name::#v(x) => Ok(x), _ => Err(crate::shim::TryError) } }
                    }
                });
            }
        }
        if has("TryFromPrimitive") {
            let prim = repr
                .and_then(|r| r.parse_args::<Ident>().ok())
                .unwrap_or(format_ident!("isize"));
            let mut spec = quote!(None);
            let mut body = quote!(Err(crate::shim::TryError));
            let mut next: TokenStream = quote!(0);
            let mut list = vec![];
            for v in &e.variants {
                if let Some((_, x)) = &v.discriminant {
                    next = quote!(#x);
                }
                list.push((v.ident.clone(), next.clone()));
                next = quote!(#next + 1);
            }
            for (v, n) in list.iter().rev() {
                spec = quote!(if n as int == #n { Some(#name::#v) } else { #spec });
                body = quote!(if n == (#name::#v as #prim) { Ok(#name::#v) } else { #body });
            }
            self.put(quote! {
                impl #name {
                    pub open spec fn prim_spec(n: #prim) -> Option<Self> { #spec }
                }
                impl crate::shim::TryFromPrimitive for #name {
                    type Primitive = #prim;
                    open spec fn prim(n: #prim) -> Option<Self> { #name::prim_spec(n) }
                    fn try_from_primitive(n: #prim) -> (r: core::result::Result<Self, crate::shim::TryError>) { #body }
                }
                impl crate::shim::TryFrom<#prim> for #name {
                    open spec fn try_spec(n: #prim) -> Option<Self> { #name::prim_spec(n) }
                    fn try_from(n: #prim) -> (r: core::result::Result<Self, crate::shim::TryError>) { #body }
                }
            });
        }
    }

    fn bitflags(&mut self, ts: TokenStream) {
        struct B(Ident, Ident, Vec<(Ident, Expr)>);
        impl parse::Parse for B {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                Attribute::parse_outer(i)?;
                i.parse::<Visibility>()?;
                i.parse::<Token![struct]>()?;
                let n = i.parse()?;
                i.parse::<Token![:]>()?;
                let t = i.parse()?;
                let c;
                braced!(c in i);
                let mut v = vec![];
                while !c.is_empty() {
                    Attribute::parse_outer(&c)?;
                    c.parse::<Token![const]>()?;
                    let n = c.parse()?;
                    c.parse::<Token![=]>()?;
                    v.push((n, c.parse()?));
                    c.parse::<Token![;]>()?;
                }
                Ok(B(n, t, v))
            }
        }
        let B(name, ty, consts) = match parse2(ts) {
            Ok(b) => b,
            Err(e) => {
                self.w.notes.push(format!("bitflags: {e}"));
                return;
            }
        };
        let vals: Vec<u64> = consts
            .iter()
            .map(|(_, e)| match e {
                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().unwrap_or(0),
                _ => 0,
            })
            .collect();
        let all = Literal::u64(vals.iter().fold(0, |a, b| a | b));
        let cs = consts.iter().map(|(n, e)| quote!(pub const #n: #name = #name { b: #e };));
        self.put(quote! {
            pub struct #name { pub b: #ty }
            impl #name {
                #(#cs)*
                pub open spec fn all_spec() -> #ty { #all as #ty }
                pub fn bits(&self) -> (r: #ty) ensures r == self.b { self.b }
                pub fn empty() -> (r: Self) ensures r.b == 0 { #name { b: 0 } }
                pub fn all() -> (r: Self) ensures r.b == Self::all_spec() { #name { b: #all } }
                pub fn from_bits_truncate(b: #ty) -> (r: Self) ensures r.b == b & Self::all_spec() { #name { b: b & #all } }
                pub fn from_bits_retain(b: #ty) -> (r: Self) ensures r.b == b { #name { b } }
                pub fn from_bits(b: #ty) -> (r: Option<Self>) ensures r == (if b & Self::all_spec() == b { Some(#name { b }) } else { None }) { if b & #all == b { Some(#name { b }) } else { None } }
                pub fn contains(&self, o: Self) -> (r: bool) ensures r == (self.b & o.b == o.b) { self.b & o.b == o.b }
                pub fn intersects(&self, o: Self) -> (r: bool) ensures r == (self.b & o.b != 0) { self.b & o.b != 0 }
                pub fn is_empty(&self) -> (r: bool) ensures r == (self.b == 0) { self.b == 0 }
                pub fn insert(&mut self, o: Self) ensures final(self).b == old(self).b | o.b { self.b = self.b | o.b; }
                pub fn remove(&mut self, o: Self) ensures final(self).b == old(self).b & !o.b { self.b = self.b & !o.b; }
                pub fn set(&mut self, o: Self, v: bool) ensures final(self).b == (if v { old(self).b | o.b } else { old(self).b & !o.b }) { if v { self.b = self.b | o.b; } else { self.b = self.b & !o.b; } }
                pub fn union(self, o: Self) -> (r: Self) ensures r.b == self.b | o.b { #name { b: self.b | o.b } }
            }
            impl crate::shim::BitOr for #name {
                open spec fn or_spec(self, o: Self) -> Self { #name { b: self.b | o.b } }
                fn bitor(self, o: Self) -> (r: Self) { #name { b: self.b | o.b } }
            }
            impl Clone for #name {
                fn clone(&self) -> (r: Self) ensures r == *self { #name { b: self.b } }
            }
            impl crate::shim::SizeOf for #name {
                open spec fn size_spec() -> nat { <#ty as crate::shim::SizeOf>::size_spec() }
                fn size() -> (r: usize) { <#ty as crate::shim::SizeOf>::size() }
            }
        });
    }

    fn trait_(&mut self, t: ItemTrait) {
        let name = t.ident.clone();
        if self.replaced(&name.to_string()) {
            return;
        }
        let key = format!("{}::{name}", self.module);
        let mut g = t.generics.clone();
        self.paths().visit_generics_mut(&mut g);
        filter_bounds(&mut g);
        let (a, _, c) = g.split_for_impl();
        let sup = self.w.contracts.supertraits.get(&key).map(|s| s.parse::<TokenStream>().unwrap());
        let sup = sup.map(|s| quote!(: #s));
        let mut fns = vec![];
        for i in t.items {
            match i {
                TraitItem::Fn(f) => {
                    let k = format!("{key}::{}", f.sig.ident);
                    fns.push(self.function(&k, f.sig, f.default, &g, false, true));
                }
                TraitItem::Type(t) => {
                    let n = &t.ident;
                    fns.push(quote!(type #n;))
                }
                _ => {}
            }
        }
        let extra: TokenStream = self.w.contracts.impls.get(&key).map(|s| s.parse().unwrap()).unwrap_or_default();
        self.put(quote!(pub trait #name #a #sup #c { #extra #(#fns)* }));
    }

    fn impl_(&mut self, i: ItemImpl) {
        let mut g = i.generics.clone();
        let by_ref = i.generics.clone();
        self.paths().visit_generics_mut(&mut g);
        filter_bounds(&mut g);
        let mut ty = (*i.self_ty).clone();
        let sname = self_name(&ty);
        self.paths().visit_type_mut(&mut ty);
        let mut tr = i.trait_.clone().map(|t| t.1);
        let key = match &tr {
            Some(t) => format!("{}::{} for {}", self.module, ty_key(t), sname),
            None => format!("{}::{sname}", self.module),
        };
        let key = norm(&key);
        if let Some(t) = &mut tr {
            let mut tt = Type::Path(TypePath { qself: None, path: t.clone() });
            self.paths().visit_type_mut(&mut tt);
            if let Type::Path(p) = tt {
                *t = p.path;
            }
        }
        if let Some(t) = self.w.contracts.replace.get(&key).cloned() {
            self.out.push_str(&t);
            self.w.drop_note(&format!("replaced by a trusted text: {key}"));
            return;
        }
        if let Some(t) = &tr {
            let n = t.segments.last().unwrap().ident.to_string();
            if matches!(n.as_str(), "Debug" | "Display" | "Error") {
                self.w.drop_note(&format!("impl {n}"));
                return;
            }
        }
        let (a, _, c) = g.split_for_impl();
        let mut fns = vec![];
        let inherent = self.w.contracts.inherent.contains(&key);
        if inherent {
            tr = None;
            self.w.drop_note(&format!("an impl of a trait as functions of the type: {key}"));
        }
        for x in i.items {
            match x {
                ImplItem::Fn(mut f) => {
                    if is_cfg_out(&f.attrs) {
                        continue;
                    }
                    // the verifier wants the type parameters named as in the trait
                    if tr.as_ref().is_some_and(|t| t.segments.last().unwrap().ident == "FromIterator") {
                        if let Some(GenericParam::Type(t)) = f.sig.generics.params.first() {
                            let old = t.ident.clone();
                            rename(&mut f, &old, &format_ident!("I"));
                        }
                    }
                    let k = format!("{key}::{}", f.sig.ident);
                    if inherent {
                        f.sig.ident = format_ident!("{}__impl", f.sig.ident);
                    }
                    let own_spec = tr.is_none();
                    // written by hand where nobody said what it does: what it
                    // gives when that is an expression of the logic, else nothing
                    let known = self.w.contracts.impls.contains_key(&key) || self.w.contracts.fns.contains_key(&norm(&k));
                    if let Some(t) = tr.as_ref().map(|t| t.segments.last().unwrap().ident.to_string()).filter(|t| !known && FOREIGN.contains(&t.as_str())) {
                        match self.own_spec(&t, &f) {
                            Some(s) => fns.push(s),
                            None => self.bare = true,
                        }
                    }
                    fns.push(self.function(&k, f.sig, Some(f.block), &by_ref, own_spec, own_spec));
                    self.bare = false;
                }
                ImplItem::Const(mut c) => {
                    let mut ty = c.ty.clone();
                    self.paths().visit_type_mut(&mut ty);
                    self.paths().visit_expr_mut(&mut c.expr);
                    let (n, e) = (&c.ident, &c.expr);
                    let ck = format!("{key}::{n}");
                    if let Some(t) = self.w.contracts.replace.get(&ck) {
                        fns.push(t.parse().unwrap());
                        continue;
                    }
                    let vis = tr.is_none().then(|| quote!(pub));
                    if let Type::Reference(r) = &mut ty {
                        r.lifetime = Some(parse_quote!('static));
                    }
                    fns.push(const_(vis, n, &ty, e, true));
                }
                ImplItem::Type(mut t) => {
                    self.paths().visit_type_mut(&mut t.ty);
                    let (n, y) = (&t.ident, &t.ty);
                    fns.push(quote!(type #n = #y;));
                }
                _ => {}
            }
        }
        let extra: TokenStream = self.w.contracts.impls.get(&key).map(|s| s.parse().unwrap()).unwrap_or_default();
        match tr {
            Some(t) => self.put(quote!(impl #a #t for #ty #c { #extra #(#fns)* })),
            None => self.put(quote!(impl #a #ty #c { #extra #(#fns)* })),
        }
    }

    /// What a conversion or a default gives, as a function of the logic.
    fn own_spec(&self, tr: &str, f: &ImplItemFn) -> Option<TokenStream> {
        let [Stmt::Expr(e, None)] = &f.block.stmts[..] else { return None };
        let mut e = e.clone();
        if !logical(&e) {
            return None;
        }
        self.paths().visit_expr_mut(&mut e);
        let out = match &f.sig.output {
            ReturnType::Type(_, _) => quote!(-> Self),
            _ => return None,
        };
        match (tr, f.sig.inputs.first()) {
            ("From", Some(FnArg::Typed(p))) => {
                let Pat::Ident(n) = &*p.pat else { return None };
                let (n, mut t) = (&n.ident, p.ty.clone());
                self.paths().visit_type_mut(&mut t);
                Some(quote!(open spec fn from_spec(#n: #t) #out { #e }))
            }
            ("Default", None) => Some(quote!(open spec fn default_spec() #out { #e })),
            _ => None,
        }
    }

    /// One function with its contract. `spec`: the contract goes here (for a
    /// method of a trait it is in the trait).
    fn function(&mut self, key: &str, mut sig: Signature, block: Option<Block>, outer: &Generics, vis: bool, spec: bool) -> TokenStream {
        let key = norm(key);
        let line = sig.ident.span().start().line;
        let vis = vis.then(|| quote!(pub));
        let mut key = key;
        // lazy iterators: the function becomes the one that makes one step
        let lazy = lazy_item(&sig);
        let mut block = block;
        if let Some(t) = lazy {
            sig.ident = format_ident!("{}__next", sig.ident);
            sig.output = parse_quote!(-> Option<#t>);
            key.push_str("__next");
            if let Some(b) = block {
                match from_fn_body(&b) {
                    Some(e) => block = Some(parse_quote!({ #e })),
                    None => {
                        block = Some(parse_quote!({ __unsupported_lazy }));
                    }
                }
            }
        }
        // service_fn(|_| async { Ok(service_fn(|request| async { .. })) }):
        // what is verified is what the service does with one request
        if let Some(b) = &block {
            if let Some((p, t, body)) = service_body(b) {
                if let Some((resp, err)) = service_types(&sig) {
                    sig.ident = format_ident!("{}__call", sig.ident);
                    sig.inputs = parse_quote!(#p: #t);
                    sig.output = parse_quote!(-> core::result::Result<#resp, #err>);
                    key.push_str("__call");
                    block = Some(body);
                    self.w.drop_note("service_fn (the service of every connection is the inner closure)");
                }
            }
        }
        let c = self.w.contracts.fns.get(&key).cloned();
        if let Some(x) = self.w.contracts.fns.get_mut(&key) {
            x.used = true;
        }
        let has_contract = c.is_some() || (!spec && !self.bare);
        let c = c.unwrap_or_default();
        let mut refs = by_ref_params(&[outer, &sig.generics], &["Buf", "BufMut"]);
        // a type that owns its stream gets the stream itself
        refs.extend(by_ref_params(&[&sig.generics], &["AsyncRead", "AsyncWrite"]));
        refs.remove("Self");
        let asy = sig.asyncness.take().is_some();
        if asy {
            self.w.drop_note("async (a function runs to its end)");
        }
        sig.constness = None;
        // values of Buf and so on are passed by reference
        let mut byref = BTreeSet::new();
        let mut mut_self = false;
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Typed(p) => {
                    let t = p.ty.to_token_stream().to_string();
                    if refs.contains(&t) {
                        if let Pat::Ident(i) = &mut *p.pat {
                            i.mutability = None;
                            byref.insert(i.ident.to_string());
                            let ty = p.ty.clone();
                            p.ty = parse_quote!(&mut #ty);
                        }
                    } else if t.strip_prefix("& mut ").is_some_and(|t| refs.contains(t)) {
                        if let Pat::Ident(i) = &*p.pat {
                            byref.insert(i.ident.to_string());
                        }
                    } else if t.starts_with("Pin < & mut") {
                        // a pinned reference is a reference
                        if let Type::Path(tp) = &*p.ty {
                            if let PathArguments::AngleBracketed(a) = &tp.path.segments[0].arguments {
                                if let Some(GenericArgument::Type(inner)) = a.args.first() {
                                    p.ty = Box::new(inner.clone());
                                    if let Pat::Ident(i) = &mut *p.pat {
                                        i.mutability = None;
                                        byref.insert(i.ident.to_string());
                                    }
                                }
                            }
                        }
                    }
                }
                FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() => {
                    r.mutability = None;
                    mut_self = true;
                }
                FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_none() && c.mutself => {
                    *a = parse_quote!(&mut self);
                }
                FnArg::Receiver(r) => {
                    if r.colon_token.is_some() && r.ty.to_token_stream().to_string().starts_with("Pin <") {
                        *a = parse_quote!(&mut self);
                    }
                }
            }
        }
        // a parameter with the name of its function
        let fname = sig.ident.clone();
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(p) = a {
                if let Pat::Ident(i) = &mut *p.pat {
                    if i.ident == fname {
                        let new = format_ident!("{}_", fname);
                        i.ident = new.clone();
                        if byref.remove(&fname.to_string()) {
                            byref.insert(new.to_string());
                        }
                        if let Some(b) = &mut block {
                            RenameVar(&fname, &new).visit_block_mut(b);
                        }
                    }
                }
            }
        }
        // patterns as parameters
        let mut lets: Vec<Stmt> = vec![];
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(p) = a {
                match &*p.pat {
                    Pat::Ident(_) => {}
                    Pat::Wild(_) => {
                        let n = format_ident!("__p{i}");
                        p.pat = parse_quote!(#n);
                    }
                    _ => {
                        let n = format_ident!("__p{i}");
                        let old = std::mem::replace(&mut *p.pat, parse_quote!(#n));
                        lets.push(parse_quote!(let #old = #n;));
                    }
                }
            }
        }
        if let Some(b) = &mut block {
            if mut_self {
                SelfVar.visit_block_mut(b);
                lets.push(parse_quote!(let mut __self = self;));
            }
            lets.append(&mut b.stmts);
            b.stmts = lets;
        }
        self.paths().visit_signature_mut(&mut sig);
        filter_bounds(&mut sig.generics);
        if !c.world.is_empty() {
            sig.inputs.push(parse_quote!(__w: &mut crate::shim::World));
        }
        let id = self.w.fns.len();
        let mut ctx = Ctx::new(self.w, &self.module, &self.krate, &key, id, &c, byref, &sig);
        let mut state = "verified";
        let mut why = String::new();
        let mut body = None;
        let mut loops = 0;
        let mut kinds = vec![];
        let mut calls = vec![];
        let mut lifted = vec![];
        if let Some(mut b) = block {
            match rewrite_fn(&mut ctx, &mut b) {
                Ok(()) => body = Some(b),
                Err(e) => {
                    state = "unsupported";
                    why = e;
                    body = Some(parse_quote!({ unimplemented!() }));
                }
            }
            loops = ctx.loops;
            kinds = std::mem::take(&mut ctx.kinds);
            calls = std::mem::take(&mut ctx.calls).into_iter().collect();
            lifted = std::mem::take(&mut ctx.lifted);
        } else {
            state = "declared";
        }
        let dropped = std::mem::take(&mut ctx.dropped);
        drop(ctx);
        for d in dropped {
            self.w.drop_note(&d);
        }
        if state == "verified" && self.w.degrade.contains(&key) {
            state = "unsupported";
            why = "the verifier does not support it".into();
            body = Some(parse_quote!({ unimplemented!() }));
        }
        if !has_contract && state != "declared" && self.w.degrade.contains(&format!("!{key}")) {
            // not even its signature: what calls it is not verified then
            self.w.fns.push(FnInfo { key, file: self.file.clone(), line, state: "unsupported", why: "left out: the verifier does not support its signature".into(), kinds, calls, id });
            return quote!();
        }
        if state == "verified" && !has_contract && std::env::var_os("EXTRACT_PLAIN").is_none() {
            state = "no contract";
            body = Some(parse_quote!({ unimplemented!() }));
        }
        if let Some(a) = &c.assumed {
            if state == "verified" || state == "unsupported" {
                state = "assumed";
                why = a.clone();
                body = Some(parse_quote!({ unimplemented!() }));
            }
        }
        self.w.fns.push(FnInfo { key: key.clone(), file: self.file.clone(), line, state, why, kinds, calls, id });
        let ext = matches!(state, "unsupported" | "no contract" | "assumed").then(|| quote!(#[verifier::external_body]));
        let attrs: TokenStream = c.attrs.parse().unwrap();
        let mspec = spec.then(|| format_ident!("__MARK_SPEC_{id}"));
        let mbody = format_ident!("__MARK_BODY_{id}");
        let name = &sig.ident;
        let (ga, _, gc) = sig.generics.split_for_impl();
        let ins = &sig.inputs;
        let ret = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => {
                let r: Ident = format_ident!("{}", c.ret.clone().unwrap_or("r".into()));
                Some(quote!(-> (#r: #t)))
            }
        };
        let body = match body {
            Some(b) => {
                let st = &b.stmts;
                quote!({ #mbody #(#st)* })
            }
            None => quote!(;),
        };
        let (m1, m2) = (format_ident!("__MARK_fn{id}"), format_ident!("__MARK_end{id}"));
        let lift: Vec<TokenStream> = lifted
            .into_iter()
            .map(|(s, b)| {
                let k = format!("{}::{}", self.module, s.ident);
                self.function(&k, s, Some(b), outer, true, true)
            })
            .collect();
        // what is known of a variable that a loop leaves alone stays known in it
        let iso = (loops > 0 && ext.is_none() && !c.isolate).then(|| quote!(#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]));
        quote!(#(#lift)* #m1 #ext #attrs #iso #vis fn #name #ga (#ins) #ret #gc #mspec #body #m2)
    }
}

/// The body of the inner closure of two nested `service_fn`.
fn service_body(b: &Block) -> Option<(Pat, Type, Block)> {
    fn closure(e: &Expr) -> Option<&ExprClosure> {
        let Expr::Call(c) = e else { return None };
        let Expr::Path(p) = &*c.func else { return None };
        if p.path.segments.last()?.ident != "service_fn" {
            return None;
        }
        match c.args.first()? {
            Expr::Closure(k) => Some(k),
            _ => None,
        }
    }
    fn inner(k: &ExprClosure) -> Option<&Block> {
        let mut e = &*k.body;
        if let Expr::Block(b) = e {
            match &b.block.stmts[..] {
                [Stmt::Expr(x, None)] => e = x,
                _ => return None,
            }
        }
        match e {
            Expr::Async(a) => Some(&a.block),
            _ => None,
        }
    }
    let [Stmt::Expr(e, None)] = &b.stmts[..] else { return None };
    let ob = inner(closure(e)?)?;
    let [Stmt::Expr(e, None)] = &ob.stmts[..] else { return None };
    let Expr::Call(ok) = e else { return None };
    let Expr::Path(p) = &*ok.func else { return None };
    if p.path.segments.last()?.ident != "Ok" {
        return None;
    }
    let k = closure(ok.args.first()?)?;
    let Pat::Type(t) = k.inputs.first()? else { return None };
    Some(((*t.pat).clone(), (*t.ty).clone(), inner(k)?.clone()))
}

/// Response and Error of the service that a function returns.
fn service_types(s: &Signature) -> Option<(Type, Type)> {
    let ReturnType::Type(_, t) = &s.output else { return None };
    let Type::ImplTrait(i) = &**t else { return None };
    for b in &i.bounds {
        if let TypeParamBound::Trait(t) = b {
            if let PathArguments::AngleBracketed(a) = &t.path.segments.last()?.arguments {
                let get = |n: &str| {
                    a.args.iter().find_map(|g| match g {
                        GenericArgument::AssocType(x) if x.ident == n => Some(x.ty.clone()),
                        _ => None,
                    })
                };
                return Some((get("Response")?, get("Error")?));
            }
        }
    }
    None
}

/// A constant; where its value cannot be used in a specification, it is said
/// what it is equal to.
fn const_(vis: Option<TokenStream>, n: &Ident, ty: &Type, e: &Expr, inside: bool) -> TokenStream {
    let name = if inside { quote!(Self::#n) } else { quote!(#n) };
    if let Expr::Reference(r) = e {
        if let Expr::Array(a) = &*r.expr {
            let xs = a.elems.iter();
            return quote!(#vis exec const #n: #ty ensures #name@ == seq![#(#xs),*] { #e });
        }
    }
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let mut p = p.clone();
            let l = p.path.segments.last_mut().unwrap();
            l.ident = format_ident!("{}_spec", l.ident);
            let a = &c.args;
            return quote!(#vis exec const #n: #ty ensures #name == #p(#a) { #e });
        }
    }
    if matches!(e, Expr::Cast(c) if matches!(*c.expr, Expr::Path(_))) {
        return quote!(#vis exec const #n: #ty ensures #name == #e { #e });
    }
    quote!(#vis const #n: #ty = #e;)
}

/// A variable gets another name (where it is used as an expression).
struct RenameVar<'a>(&'a Ident, &'a Ident);
impl VisitMut for RenameVar<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            // the function itself, not the variable
            if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) {
                self.visit_expr_mut(&mut c.func);
            }
            for a in c.args.iter_mut() {
                self.visit_expr_mut(a);
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(self.0) {
            p.path = self.1.clone().into();
        }
    }
}

fn rename(f: &mut ImplItemFn, old: &Ident, new: &Ident) {
    struct V<'a>(&'a Ident, &'a Ident);
    impl VisitMut for V<'_> {
        fn visit_ident_mut(&mut self, i: &mut Ident) {
            if i == self.0 {
                *i = self.1.clone();
            }
        }
    }
    V(old, new).visit_impl_item_fn_mut(f);
}

/// `mut self` becomes a variable.
struct SelfVar;
impl VisitMut for SelfVar {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = parse_quote!(__self);
        }
    }
}

fn use_filter(t: &mut UseTree, names: &BTreeSet<String>) -> bool {
    match t {
        UseTree::Path(p) => use_filter(&mut p.tree, names),
        UseTree::Name(n) => !names.contains(&n.ident.to_string()),
        UseTree::Rename(n) => !names.contains(&n.ident.to_string()),
        UseTree::Glob(_) => true,
        UseTree::Group(g) => {
            g.items = std::mem::take(&mut g.items).into_iter().filter_map(|mut i| use_filter(&mut i, names).then_some(i)).collect();
            !g.items.is_empty()
        }
    }
}

use proc_macro2::Literal as PLit;
struct Literal;
impl Literal {
    fn u64(v: u64) -> PLit {
        PLit::u64_unsuffixed(v)
    }
}

/// The body of `iter::from_fn(move || ...)`, when the block is only that.
pub fn from_fn_body(b: &Block) -> Option<Expr> {
    let [Stmt::Expr(e, None)] = &b.stmts[..] else { return None };
    from_fn_closure(e)
}

pub fn from_fn_closure(e: &Expr) -> Option<Expr> {
    let Expr::Call(c) = e else { return None };
    let Expr::Path(p) = &*c.func else { return None };
    if p.path.segments.last()?.ident != "from_fn" {
        return None;
    }
    let Expr::Closure(k) = c.args.first()? else { return None };
    if !k.inputs.is_empty() {
        return None;
    }
    Some((*k.body).clone())
}
