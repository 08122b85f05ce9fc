//! The rewriting rules. Everything that changes the text of an extracted function is in this file.
use crate::{Opts, Res};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct TypeMap { pub types: HashMap<String, String>, pub paths: Vec<(String, String)> }

fn sq(t: impl ToTokens) -> String { t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect() }

pub fn strip_generics(t: &Type) -> Type {
    let mut t = t.clone();
    if let Type::Path(p) = &mut t {
        // keep only lifetimes / concrete args as they are
        let s = p.path.segments.last().unwrap().clone();
        p.path.segments.clear(); p.path.segments.push(s);
    }
    t
}

impl VisitMut for TypeMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(i) = &*t { if let Some(syn::TypeParamBound::Trait(b)) = i.bounds.first() { if let Some(v) = self.types.get(&format!("impl {}", b.path.segments.last().unwrap().ident)) { *t = parse_str(v).expect("type map"); return; } } }
        if let Type::Path(p) = &*t { if p.path.segments.last().map_or(false, |s| !s.arguments.is_none()) { if let Some(v) = self.types.get(&sq(&*t)) { *t = parse_str(v).expect("type map"); return; } } }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let full = sq(&*p);
            if let Some(v) = self.types.get(&full) { *t = parse_str(v).expect("type map"); return; }
            let last = p.path.segments.last().unwrap().clone();
            if p.qself.is_none() || p.path.segments.len() == 1 {
                if let Some(v) = self.types.get(&last.ident.to_string()) {
                    if let Some(base) = v.strip_suffix("<>") {
                        let mut s = last.clone(); s.ident = Ident::new(base, s.ident.span());
                        *t = Type::Path(TypePath { qself: None, path: Path::from(s) });
                    } else { *t = parse_str(v).expect("type map"); }
                    return;
                }
            }
            if p.qself.is_none() && p.path.segments.len() > 1 && p.path.segments[0].ident != "Self" {
                // R2: module paths are dropped, the whole unit is one module
                *t = Type::Path(TypePath { qself: None, path: Path::from(last) });
            }
        }
        if let Type::ImplTrait(_) = t {
            if let Some(v) = self.types.get(&sq(&*t)) { *t = parse_str(v).expect("type map"); }
        }
    }
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        // R14: matching `x.as_mut()` is matching `&mut x` (Option)
        if let Expr::MethodCall(m) = &*l.expr { if m.method == "as_mut" && m.args.is_empty() { let r = (*m.receiver).clone(); *l.expr = parse_quote!(&mut #r); } }
        visit_mut::visit_expr_let_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            let full = sq(&*p);
            for (a, b) in &self.paths { if *a == full { *e = parse_str(b).expect("path map"); return; } }
            if let Some(q) = &p.qself {
                // `<T as Trait>::f` -> `T::f`
                let last = p.path.segments.last().unwrap().clone();
                let ty = q.ty.clone();
                *e = parse_quote!(<#ty>::#last);
                return;
            }
            if p.path.segments.len() >= 2 {
                let n = p.path.segments.len();
                let (a, b) = (p.path.segments[n - 2].clone(), p.path.segments[n - 1].clone());
                if n > 2 || a.ident == "super" || a.ident == "crate" {
                    if a.ident == "super" || a.ident == "crate" || a.ident == "self" || a.ident.to_string().chars().next().unwrap().is_lowercase() { *e = parse_quote!(#b); }
                    else { *e = parse_quote!(#a::#b); }
                }
                if let Expr::Path(p) = e { if p.path.segments.len() == 2 {
                    if let Some(v) = self.types.get(&p.path.segments[0].ident.to_string()) {
                        let v = v.split('<').next().unwrap();
                        if let Ok(ty) = parse_str::<Path>(v) {
                            let b = p.path.segments[1].clone();
                            let mut np = ty; np.segments.push(b); p.path = np;
                        }
                    }
                } }
            } else if p.path.segments.len() == 1 {
                if let Some(v) = self.types.get(&p.path.segments[0].ident.to_string()) { if let Ok(x) = parse_str::<Expr>(v.trim_end_matches("<>")) { *e = x; } }
            }
        }
        if let Expr::Struct(s) = e {
            fix_path(&mut s.path, &self.types);
            // PhantomData fields are dropped from the type and from its literals alike
            s.fields = std::mem::take(&mut s.fields).into_iter().filter(|f| !matches!(&f.expr, Expr::Path(p) if p.path.segments.last().unwrap().ident == "PhantomData")).collect();
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        match p {
            Pat::TupleStruct(t) => fix_path(&mut t.path, &self.types),
            Pat::Struct(t) => fix_path(&mut t.path, &self.types),
            Pat::Path(t) => fix_path(&mut t.path, &self.types),
            _ => {}
        }
    }
}
fn fix_path(p: &mut Path, types: &HashMap<String, String>) {
    // keep at most Type::Variant
    let n = p.segments.len();
    if n >= 2 && p.segments[n - 2].ident.to_string().chars().next().unwrap().is_lowercase() {
        let b = p.segments[n - 1].clone(); p.segments.clear(); p.segments.push(b);
    } else if n > 2 {
        let (a, b) = (p.segments[n - 2].clone(), p.segments[n - 1].clone());
        p.segments.clear(); p.segments.push(a); p.segments.push(b); p.leading_colon = None;
    }
    if let Some(v) = types.get(&p.segments[0].ident.to_string()) {
        let v = v.split('<').next().unwrap();
        if let Ok(np) = parse_str::<Path>(v) { p.segments[0] = np.segments[0].clone(); }
    }
}

pub struct Rewriter<'a> { o: &'a Opts, _tm: &'a TypeMap, err: Option<String>, nclosure: usize, fresh: usize }

const ITER: &[&str] = &[
    "iter", "into_iter", "enumerate", "rev", "skip", "take", "zip", "map", "filter", "filter_map", "collect", "sum", "product",
    "cloned", "copied", "chain", "find", "position", "all", "any", "min_by_key", "max_by_key", "min", "max", "flat_map", "flatten",
    "unzip", "last", "count", "fold", "min_by", "max_by", "take_while", "skip_while", "cmp", "partial_cmp", "clone", "into", "extend", "drain",
    "retain", "binary_search_by_key", "binary_search", "sort_by_key", "sort_unstable_by_key", "sort", "sort_unstable", "unwrap_or_else",
    "map_or", "and_then", "is_some_and", "nth", "partition", "keys", "values", "abs", "then", "then_some", "contains", "inner_product_iter", "sorted", "reduce",
    "is_empty", "first", "contains_key", "concat", "find_map", "get_mut", "entry", "or_default", "or_insert", "try_for_each", "for_each", "as_ref", "as_mut", "to_owned", "unwrap_or", "ok_or", "is_sorted_by_key", "repeat", "or_else", "is_none_or", "join", "map_err", "copysign", "rposition", "cumsum", "sort_by", "sort_unstable_by", "min_by_key", "truncate_at", "dedup", "to_vec", "map_or_else", "peekable", "next_if"
];

fn is_literal(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Bool(_) | Lit::Char(_) | Lit::Str(_)),
        Expr::Paren(p) => is_literal(&p.expr), Expr::Group(p) => is_literal(&p.expr),
        Expr::Cast(_) => true,
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && is_literal(&u.expr),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "nr_rows" | "nr_columns" | "nr_constraints" | "nr_variables" | "is_zero" | "is_some" | "is_none" | "v_is_empty" | "is_empty"),
        Expr::Binary(b) => (is_literal(&b.left) || is_literal(&b.right)) && matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_)),
        _ => false,
    }
}

/// R6: `&p` patterns -> binding-mode patterns plus copies. Returns the statements to insert.
fn deref_pat(p: &mut Pat, under_ref: bool, out: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) => { let mut inner = (*r.pat).clone(); deref_pat(&mut inner, true, out); *p = inner; }
        Pat::Ident(i) => {
            if i.by_ref.is_some() && i.subpat.is_none() { i.by_ref = None; i.mutability = None; }
            else if under_ref && i.subpat.is_none() && i.ident.to_string().chars().next().unwrap().is_lowercase() {
                let old = i.ident.clone(); let m = i.mutability.take();
                let new = format_ident!("{}__r", old);
                i.ident = new.clone();
                out.push(parse_quote!(let #m #old = *#new;));
            }
        }
        Pat::Tuple(t) => for e in t.elems.iter_mut() { deref_pat(e, under_ref, out) },
        Pat::TupleStruct(t) => for e in t.elems.iter_mut() { deref_pat(e, under_ref, out) },
        Pat::Struct(t) => for e in t.fields.iter_mut() { if e.colon_token.is_none() && under_ref { e.colon_token = Some(Default::default()); } deref_pat(&mut e.pat, under_ref, out) },
        Pat::Paren(t) => { let mut inner = (*t.pat).clone(); deref_pat(&mut inner, under_ref, out); *p = inner; }
        Pat::Type(t) => deref_pat(&mut t.pat, under_ref, out),
        Pat::Or(t) => for e in t.cases.iter_mut() { deref_pat(e, under_ref, out) },
        _ => {}
    }
}
fn has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl VisitMut for V {
        fn visit_pat_reference_mut(&mut self, _: &mut PatReference) { self.0 = true; }
        fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) { if i.by_ref.is_some() { self.0 = true; } }
    }
    let mut v = V(false); v.visit_pat_mut(&mut p.clone()); v.0
}

struct Number { k: usize }
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let body = match e { Expr::ForLoop(f) => Some(&mut f.body), Expr::While(f) => Some(&mut f.body), Expr::Loop(f) => Some(&mut f.body), _ => None };
        if let Some(b) = body { let k = Index::from(self.k); self.k += 1; b.stmts.insert(0, parse_quote!(__vx_loop!(#k);)); }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}
fn loop_no(e: &Expr) -> Option<usize> {
    let b = match e { Expr::ForLoop(f) => &f.body, Expr::While(f) => &f.body, Expr::Loop(f) => &f.body, _ => return None };
    if let Some(Stmt::Macro(m)) = b.stmts.first() { if m.mac.path.is_ident("__vx_loop") { return m.mac.tokens.to_string().parse().ok(); } }
    None
}
struct Drops;
impl VisitMut for Drops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln"),
            Stmt::Expr(Expr::Macro(m), _) => !matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln"),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Local(l) => !l.attrs.iter().any(|a| sq(a).contains("debug_assertions")),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}
struct BreakReturn;
impl VisitMut for BreakReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => return,
            Expr::Break(b) if b.label.is_none() && b.expr.is_some() => { let x = b.expr.clone().unwrap(); *e = parse_quote!(return #x); }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// R16/R17 helpers
struct Assigns(bool);
impl VisitMut for Assigns {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Assign(_) => self.0 = true,
            Expr::MethodCall(m) if m.method == "next_if" => self.0 = true,
            Expr::Binary(b) => if matches!(b.op, BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)) { self.0 = true; },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Inline<'a> { name: &'a Ident, body: &'a Expr, params: &'a [Ident], other: bool }
/// `return` and `?` leave the closure, not the function
struct Leaves(bool);
impl VisitMut for Leaves { fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Return(_) | Expr::Try(_)) { self.0 = true; } visit_mut::visit_expr_mut(self, e); } }
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e { if c.args.len() == self.params.len() { if let Expr::Path(p) = &*c.func { if p.path.is_ident(self.name) {
            let b = self.body;
            if self.params.is_empty() { *e = parse_quote!((#b)); } else { let ps = self.params; for a in c.args.iter_mut() { self.visit_expr_mut(a); } let a = &c.args; *e = parse_quote!({ let (#(#ps),*) = (#a); #b }); }
            return;
        } } } }
        if let Expr::Path(p) = e { if p.path.is_ident(self.name) { self.other = true; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Calls<'a>(&'a Ident, bool);
impl<'a> VisitMut for Calls<'a> {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) { if m.method == *self.0 { self.1 = true; } visit_mut::visit_expr_method_call_mut(self, m); }
}
struct Collects { ty: Type, name: Ident }
impl VisitMut for Collects {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // R22: `iter.map(|p| body).sum::<T>()` whose body calls the function itself is a loop that
        // adds from zero; `sum::<Option<T>>` ends at the first `None`
        let new: Option<Expr> = (|| {
            let Expr::MethodCall(c) = &*e else { return None };
            if c.method != "sum" { return None; }
            let Some(GenericArgument::Type(ty)) = c.turbofish.as_ref()?.args.first() else { return None };
            let Expr::MethodCall(m) = &*c.receiver else { return None };
            if m.method != "map" || m.args.len() != 1 { return None; }
            let Expr::Closure(k) = &m.args[0] else { return None };
            if k.inputs.len() != 1 { return None; }
            let mut body = (*k.body).clone();
            let mut a = Calls(&self.name, false);
            a.visit_expr_mut(&mut body);
            if !a.1 { return None; }
            let (it, p) = (&m.receiver, &k.inputs[0]);
            if let Type::Path(t) = ty { let l = t.path.segments.last().unwrap(); if l.ident == "Option" {
                let PathArguments::AngleBracketed(g) = &l.arguments else { return None };
                let Some(GenericArgument::Type(inner)) = g.args.first() else { return None };
                return Some(parse_quote!({ let mut v_sum = <#inner>::zero(); let mut v_none = false; for #p in #it { match #body { Some(v_x) => { v_sum += v_x; } None => { v_none = true; break; } } } if v_none { None } else { Some(v_sum) } }));
            } }
            Some(parse_quote!({ let mut v_sum = <#ty>::zero(); for #p in #it { let v_x = #body; v_sum += v_x; } v_sum }))
        })();
        if let Some(n) = new { *e = n; }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // R17: a closure without arguments that is bound by `let` and only called is its body (the
        // borrows it holds keep what it captures unchanged between the binding and the calls)
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr {
                    Expr::Closure(c) if c.inputs.is_empty() && c.capture.is_none() => Some((p.ident.clone(), (*c.body).clone(), vec![])),
                    // a closure that changes what it captures (two parameters or more) likewise
                    Expr::Closure(c) if c.inputs.len() > 1 && c.capture.is_none() && p.mutability.is_some() => {
                        let ps: Vec<Ident> = c.inputs.iter().filter_map(|i| match i { Pat::Ident(x) => Some(x.ident.clone()), Pat::Type(t) => match &*t.pat { Pat::Ident(x) => Some(x.ident.clone()), _ => None }, _ => None }).collect();
                        let mut l = Leaves(false); let mut body = (*c.body).clone(); l.visit_expr_mut(&mut body);
                        if ps.len() == c.inputs.len() && !l.0 { Some((p.ident.clone(), body, ps)) } else { None }
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, body, ps)) = found {
                let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                let mut v = Inline { name: &name, body: &body, params: &ps, other: false };
                for s in rest.iter_mut() { v.visit_stmt_mut(s); }
                if !v.other { b.stmts.truncate(i); b.stmts.extend(rest); continue; }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
        // R16: `let x = iter.map(|p| body).collect()` whose closure changes what it captures is a loop
        for s in b.stmts.iter_mut() {
            let expr: &mut Expr = match s { Stmt::Local(Local { init: Some(LocalInit { expr, diverge: None, .. }), .. }) => &mut **expr, Stmt::Expr(e @ Expr::MethodCall(_), None) => e, _ => continue };
            let new: Option<Expr> = (|| {
                let Expr::MethodCall(c) = &*expr else { return None };
                if c.method != "collect" && c.method != "unzip" { return None; }
                let Expr::MethodCall(m) = &*c.receiver else { return None };
                if m.method != "map" || m.args.len() != 1 { return None; }
                let Expr::Closure(k) = &m.args[0] else { return None };
                if k.inputs.len() != 1 { return None; }
                let mut body = (*k.body).clone();
                let mut a = Assigns(false);
                a.visit_expr_mut(&mut body);
                if !a.0 { return None; }
                let (it, p, ty) = (&m.receiver, &k.inputs[0], &self.ty);
                let end: Expr = if c.method == "unzip" { parse_quote!(collected.into_iter().unzip()) } else { parse_quote!(collected) };
                Some(parse_quote!({ let mut collected: Vec<#ty> = Vec::new(); for #p in #it { collected.push(#body); } #end }))
            })();
            if let Some(n) = new { *expr = n; }
        }
    }
}
struct Hooks<'a> { o: &'a Opts, done: Vec<bool> }
impl<'a> Hooks<'a> {
    fn hk(i: usize) -> Stmt { let k = Index::from(i); parse_quote!(__vx_hook!(#k);) }
    fn pat(key: &str) -> Option<(bool, String, usize)> {
        let (w, a) = key.split_once(' ')?;
        if w != "before" && w != "after" { return None; }
        let a = a.trim();
        let (a, n) = match a.rsplit_once('#') { Some((x, n)) if n.trim().parse::<usize>().is_ok() && x.trim_end().ends_with('"') => (x.trim(), n.trim().parse().unwrap()), _ => (a, 0) };
        Some((w == "before", a.trim_matches('"').chars().filter(|c| !c.is_whitespace()).collect(), n))
    }
}
/// text hooks: deepest statement containing the pattern, n-th in source order
struct TextHook<'a> { pat: &'a str, before: bool, idx: usize, want: usize, seen: usize, done: bool }
impl<'a> VisitMut for TextHook<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done { return; }
            let seen0 = self.seen;
            self.visit_stmt_mut(&mut b.stmts[i]);
            if self.done { return; }
            if self.seen == seen0 && sq(&b.stmts[i]).contains(self.pat) {
                if self.seen == self.want {
                    let h = Hooks::hk(self.idx);
                    if self.before { b.stmts.insert(i, h); } else { b.stmts.insert(i + 1, h); }
                    self.done = true; return;
                }
                self.seen += 1;
            }
            i += 1;
        }
    }
}
impl<'a> VisitMut for Hooks<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // loop hooks around statements
        let mut i = 0;
        while i < b.stmts.len() {
            let k = match &b.stmts[i] { Stmt::Expr(e, _) => loop_no(e), _ => None };
            if let Some(k) = k {
                for (h, (key, _)) in self.o.hooks.iter().enumerate() {
                    if self.done[h] { continue; }
                    if *key == format!("before_loop {k}") { b.stmts.insert(i, Self::hk(h)); i += 1; self.done[h] = true; }
                }
                let mut after = 0;
                for (h, (key, _)) in self.o.hooks.iter().enumerate() {
                    if self.done[h] { continue; }
                    if *key == format!("after_loop {k}") { b.stmts.insert(i + 1 + after, Self::hk(h)); after += 1; self.done[h] = true; }
                }
                i += after;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(k) = loop_no(e) {
            let b = match e { Expr::ForLoop(f) => &mut f.body, Expr::While(f) => &mut f.body, Expr::Loop(f) => &mut f.body, _ => unreachable!() };
            let mut at = 1;
            for (h, (key, _)) in self.o.hooks.iter().enumerate() {
                if self.done[h] { continue; }
                if *key == format!("loop_start {k}") { b.stmts.insert(at, Self::hk(h)); at += 1; self.done[h] = true; }
                if *key == format!("loop_end {k}") {
                    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
                    b.stmts.push(Self::hk(h)); self.done[h] = true;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Rewriter<'a> {
    pub fn new(o: &'a Opts, tm: &'a TypeMap) -> Self { Rewriter { o, _tm: tm, err: None, nclosure: 0, fresh: 0 } }
    pub fn run(&mut self, f: &mut ImplItemFn) -> Res<()> {
        Drops.visit_block_mut(&mut f.block);
        // R15: `break value` out of a loop that ends the function returns the value
        if let Some(Stmt::Expr(Expr::Loop(l), None)) = f.block.stmts.last_mut() { if l.label.is_none() { BreakReturn.visit_block_mut(&mut l.body); } }
        let ty: Type = syn::parse_str(self.o.collected.as_deref().unwrap_or("_")).map_err(|e| e.to_string())?;
        Collects { ty, name: f.sig.ident.clone() }.visit_block_mut(&mut f.block);
        Number { k: 0 }.visit_block_mut(&mut f.block);
        let mut h = Hooks { o: self.o, done: vec![false; self.o.hooks.len()] };
        h.visit_block_mut(&mut f.block);
        let mut done = h.done;
        for (i, (key, _)) in self.o.hooks.iter().enumerate() {
            if done[i] { continue; }
            if key == "start" { f.block.stmts.insert(0, Hooks::hk(i)); done[i] = true; continue; }
            if key == "end" {
                let n = f.block.stmts.len();
                let at = if matches!(f.block.stmts.last(), Some(Stmt::Expr(_, None))) { n - 1 } else { n };
                let unit_tail = matches!(f.block.stmts.last(), Some(Stmt::Expr(e, None)) if matches!(f.sig.output, ReturnType::Default) && (loop_no(e).is_some() || matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_))));
                let at = if unit_tail { n } else { at };
                f.block.stmts.insert(at, Hooks::hk(i)); done[i] = true; continue;
            }
            if let Some((before, p, n)) = Hooks::pat(key) {
                let mut t = TextHook { pat: &p, before, idx: i, want: n, seen: 0, done: false };
                t.visit_block_mut(&mut f.block);
                done[i] = t.done;
            }
        }
        if let Some(i) = done.iter().position(|d| !d) { return Err(format!("LOST hook `{}`", self.o.hooks[i].0)); }
        // R18: names that are types of the verifier are renamed
        struct Ren; impl VisitMut for Ren { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "real" || i == "int" || i == "nat" { *i = format_ident!("v_{}", i); } } }
        Ren.visit_block_mut(&mut f.block);
        // parameters with reference patterns
        let mut pre = vec![];
        for (n, a) in f.sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                t.attrs.clear();
                match &mut *t.pat {
                    Pat::Ident(_) => {}
                    p => { let id = format_ident!("arg{}", n); let old = p.clone(); *p = parse_quote!(#id); let mut o2 = vec![]; let mut old = old; deref_pat(&mut old, false, &mut o2); pre.push(parse_quote!(let #old = #id;)); pre.extend(o2); }
                }
            }
        }
        self.visit_block_mut(&mut f.block);
        for s in pre.into_iter().rev() { f.block.stmts.insert(0, s); }
        match self.err.take() { Some(e) => Err(e), None => Ok(()) }
    }
    fn native(&self) -> bool { self.o.native }
    fn desugar_for(&mut self, f: ExprForLoop) -> Vec<Stmt> {
        let k = loop_no(&Expr::ForLoop(f.clone())).unwrap();
        let (it, ix, en) = (format_ident!("it{}", k), format_ident!("ix{}", k), format_ident!("en{}", k));
        let ki = Index::from(k);
        let mut pat = (*f.pat).clone();
        let mut pre = vec![];
        deref_pat(&mut pat, false, &mut pre);
        let rest: Vec<Stmt> = f.body.stmts[1..].to_vec();
        let label = f.label.clone();
        let mut e = (*f.expr).clone();
        while let Expr::Paren(p) = e { e = *p.expr; }
        // ranges
        let range = |e: &Expr| -> Option<(Expr, Expr, bool)> {
            let mut e = e.clone(); while let Expr::Paren(p) = e { e = *p.expr; }
            if let Expr::Call(c) = &e { if sq(&c.func) == "VIntoIter::v_into_iter" { e = c.args[0].clone(); } }
            if let Expr::Range(r) = &e { if let (Some(a), Some(b)) = (&r.start, &r.end) { return Some(((**a).clone(), (**b).clone(), matches!(r.limits, RangeLimits::Closed(_)))); } }
            None
        };
        if let Some((a, b, closed)) = range(&e) {
            let cond: Expr = if closed { parse_quote!(#ix <= #en) } else { parse_quote!(#ix < #en) };
            return parse_quote! { let mut #ix: usize = #a; let #en: usize = #b; #label while #cond { __vx_loop!(#ki); let #pat = #ix; #(#pre)* #ix = #ix + 1; #(#rest)* } };
        }
        if let Expr::MethodCall(m) = &e {
            if m.method == "rev" || m.method == "v_rev" { if let Some((a, b, false)) = range(&m.receiver) {
                return parse_quote! { let #en: usize = #a; let mut #ix: usize = #b; #label while #en < #ix { __vx_loop!(#ki); #ix = #ix - 1; let #pat = #ix; #(#pre)* #(#rest)* } };
            } }
        }
        // iter_mut
        let mut enumerate = false;
        let mut base = e.clone();
        // enumerate().skip(n): the index counts from the start
        let mut skipped: Option<Expr> = None;
        if let Expr::MethodCall(m) = &base { if m.method == "v_skip" || m.method == "skip" { let r = (*m.receiver).clone(); if let Expr::MethodCall(m2) = &r { if m2.method == "v_enumerate" || m2.method == "enumerate" { if let Expr::MethodCall(m3) = &*m2.receiver { if m3.method == "iter_mut" { skipped = Some(m.args[0].clone()); base = r; } } } } } }
        if let Expr::MethodCall(m) = &base { if m.method == "v_enumerate" || m.method == "enumerate" { let r = (*m.receiver).clone(); if let Expr::MethodCall(m2) = &r { if m2.method == "iter_mut" { enumerate = true; base = r; } } } }
        let place = match &base {
            Expr::MethodCall(m) if m.method == "iter_mut" => Some((*m.receiver).clone()),
            Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
            Expr::Path(_) if self.o.mut_ref => Some(base.clone()),
            _ => None,
        };
        if let Some(place) = place {
            let (ipat, vpat): (Option<Pat>, Pat) = if enumerate { if let Pat::Tuple(t) = &pat { (Some(t.elems[0].clone()), t.elems[1].clone()) } else { (None, pat.clone()) } } else { (None, pat.clone()) };
            let (place, start, endx) = match range_index(&place) { Some((x, a, b, c)) => { let (a, b) = bounds(&x, a, b, c); (x, a, b) }, None => (place.clone(), parse_quote!(0), parse_quote!(#place.len())) };
            if let Some(k) = skipped {
                let il: Option<Stmt> = ipat.map(|p| parse_quote!(let #p = #ix - 1;));
                return parse_quote! { let #en: usize = #place.len(); let mut #ix: usize = v_at_most(#k, #en); #label while #ix < #en { __vx_loop!(#ki); let #vpat = &mut #place[#ix]; #ix = #ix + 1; #il #(#pre)* #(#rest)* } };
            }
            let il: Option<Stmt> = ipat.map(|p| parse_quote!(let #p = #ix - 1 - #start;));
            let dr: Expr = if matches!(place, Expr::Path(_)) && self.o.mut_ref { parse_quote!(&mut #place[#ix]) } else { parse_quote!(&mut #place[#ix]) };
            return parse_quote! { let mut #ix: usize = #start; let #en: usize = #endx; #label while #ix < #en { __vx_loop!(#ki); let #vpat = #dr; #ix = #ix + 1; #il #(#pre)* #(#rest)* } };

        }
        parse_quote! { let #it = VIntoIter::v_into_iter(#e); let mut #ix: usize = 0; #label while #ix < #it.len() { __vx_loop!(#ki); let #pat = #it.get(#ix); #ix = #ix + 1; #(#pre)* #(#rest)* } }
    }
}

/// `|&(i, _)| i`, `|(i, _)| *i`: the first projection
fn is_proj0(e: &Expr) -> bool {
    let Expr::Closure(c) = e else { return false };
    if c.inputs.len() != 1 { return false; }
    let mut p = c.inputs[0].clone(); let mut refd = false;
    if let Pat::Reference(r) = &p { refd = true; p = (*r.pat).clone(); }
    let Pat::Tuple(t) = &p else { return false };
    if t.elems.len() < 1 { return false; }
    if !t.elems.iter().skip(1).all(|x| matches!(x, Pat::Wild(_)) || matches!(x, Pat::Rest(_))) { return false; }
    let Pat::Ident(i) = &t.elems[0] else { return false };
    let b = sq(&c.body);
    if refd { b == i.ident.to_string() } else { b == format!("*{}", i.ident) || b == i.ident.to_string() }
}
fn range_index(e: &Expr) -> Option<(Expr, Option<Expr>, Option<Expr>, bool)> {
    if let Expr::Index(ix) = e {
        let mut r = (*ix.index).clone(); while let Expr::Paren(p) = r { r = *p.expr; }
        if let Expr::Range(r) = r { return Some(((*ix.expr).clone(), r.start.map(|x| *x), r.end.map(|x| *x), matches!(r.limits, RangeLimits::Closed(_)))); }
    }
    None
}
fn bounds(x: &Expr, a: Option<Expr>, b: Option<Expr>, closed: bool) -> (Expr, Expr) {
    let a: Expr = a.unwrap_or_else(|| parse_quote!(0));
    let b: Expr = match b { Some(b) => if closed { parse_quote!(#b + 1) } else { b }, None => parse_quote!(#x.len()) };
    (a, b)
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let last = stmts.len();
        for (n, mut s) in stmts.into_iter().enumerate() {
            // let-else / let with reference patterns
            if let Stmt::Local(l) = &mut s {
                l.attrs.clear();
                // R21: an array of values taken apart by name is read by index (a pattern without `..`)
                if let (Pat::Slice(ps), Some(LocalInit { expr, diverge: None, .. })) = (&l.pat, &l.init) {
                    if ps.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none())) {
                        let mut e = (**expr).clone(); self.visit_expr_mut(&mut e);
                        let a = format_ident!("v_ar{}", self.fresh); self.fresh += 1;
                        out.push(parse_quote!(let #a = #e;));
                        for (k, p) in ps.elems.iter().enumerate() { let k = syn::Index::from(k); out.push(parse_quote!(let #p = #a[#k];)); }
                        continue;
                    }
                }
                let mut pre = vec![];
                if has_ref(&l.pat) && !matches!(l.pat, Pat::Ident(_)) { deref_pat(&mut l.pat, false, &mut pre); }
                self.visit_local_mut(l);
                out.push(s); out.extend(pre);
                continue;
            }
            self.visit_stmt_mut(&mut s);
            match s {
                Stmt::Expr(Expr::ForLoop(f), semi) => {
                    let _ = semi;
                    out.extend(self.desugar_for(f));
                    let _ = (n, last);
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        if has_ref(&a.pat) {
            let mut pre = vec![]; deref_pat(&mut a.pat, false, &mut pre);
            if !pre.is_empty() {
                if let Some((_, g)) = &mut a.guard { let gg = (**g).clone(); **g = parse_quote!({ #(#pre)* #gg }); }
                let body = (*a.body).clone(); *a.body = parse_quote!({ #(#pre)* #body });
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        // let chains without else -> nesting
        if i.else_branch.is_none() {
            fn split(e: &Expr, out: &mut Vec<Expr>) { if let Expr::Binary(b) = e { if matches!(b.op, BinOp::And(_)) { split(&b.left, out); split(&b.right, out); return; } } out.push(e.clone()); }
            let mut parts = vec![]; split(&i.cond, &mut parts);
            if parts.len() > 1 && parts.iter().any(|p| matches!(p, Expr::Let(_))) {
                let mut body = i.then_branch.clone();
                for p in parts[1..].iter().rev() { let inner: Expr = Expr::If(ExprIf { attrs: vec![], if_token: Default::default(), cond: Box::new(p.clone()), then_branch: body.clone(), else_branch: None }); body = parse_quote!({ #inner }); }
                i.cond = Box::new(parts[0].clone()); i.then_branch = body;
            }
        }
        if let Expr::Let(l) = &mut *i.cond {
            if has_ref(&l.pat) { let mut pre = vec![]; deref_pat(&mut l.pat, false, &mut pre); for s in pre.into_iter().rev() { i.then_branch.stmts.insert(0, s); } }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }
    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        if let Expr::Let(l) = &mut *i.cond {
            // R5: while let P = e { .. }  ->  loop { match e { P => .., _ => break } } is avoided: keep
            if has_ref(&l.pat) { let mut pre = vec![]; deref_pat(&mut l.pat, false, &mut pre); for s in pre.into_iter().rev() { i.body.stmts.insert(1, s); } }
        }
        visit_mut::visit_expr_while_mut(self, i);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // R10: `x.last_mut().unwrap()` is the place `x[x.len() - 1]`
        fn last_place(e: &Expr) -> Option<Expr> {
            if let Expr::MethodCall(m) = e { if m.method == "unwrap" { if let Expr::MethodCall(m2) = &*m.receiver {
                let x = &m2.receiver;
                if m2.method == "last_mut" { return Some(parse_quote!(#x[#x.len() - 1])); }
                if m2.method == "first_mut" { return Some(parse_quote!(#x[0])); }
            } } }
            None
        }
        if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) { if let Some(p) = last_place(&u.expr) { *e = p; } } }
        if let Some(p) = last_place(e) { *e = p; }
        // R7: keyed searches and sorts on the first projection
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if matches!(n.as_str(), "dedup_by_key" | "binary_search_by_key" | "sort_unstable_by_key" | "sort_by_key" | "is_sorted_by_key" | "min_by_key" | "max_by_key") && m.args.last().map_or(false, is_proj0) {
                let keep: Vec<Expr> = m.args.iter().take(m.args.len() - 1).cloned().collect();
                m.args = keep.into_iter().collect();
                m.method = Ident::new(match n.as_str() { "binary_search_by_key" => "v_bsearch0", "is_sorted_by_key" => "v_is_sorted0", "min_by_key" => "v_min0", "dedup_by_key" => "v_dedup0", "max_by_key" => "v_max0", _ => "v_sort0" }, m.method.span());
            }
        }
        // closures
        if let Expr::Closure(c) = e {
            let k = self.nclosure; self.nclosure += 1;
            let marker = format_ident!("__vx_closure{}", k);
            let mut stmts: Vec<Stmt> = vec![];
            for (n, p) in c.inputs.iter().enumerate() {
                let mut p = p.clone();
                if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
                if matches!(p, Pat::Wild(_)) { continue; }
                let mut pre = vec![]; deref_pat(&mut p, false, &mut pre);
                let id = format_ident!("c{}", n);
                stmts.push(parse_quote!(let #p = #id;)); stmts.extend(pre);
            }
            let mut body = (*c.body).clone();
            self.visit_expr_mut(&mut body);
            let body: Expr = match body { Expr::Block(b) if b.label.is_none() => { let s = b.block.stmts; parse_quote!({ #(#stmts)* #(#s)* }) }, b => parse_quote!({ #(#stmts)* #b }) };
            *e = parse_quote!(|#marker| #body);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                let f = match b.op {
                    BinOp::Add(_) => "v_add", BinOp::Sub(_) => "v_sub", BinOp::Mul(_) => "v_mul", BinOp::Div(_) => "v_div", BinOp::Rem(_) => "v_rem",
                    BinOp::AddAssign(_) => "v_add_assign", BinOp::SubAssign(_) => "v_sub_assign", BinOp::MulAssign(_) => "v_mul_assign", BinOp::DivAssign(_) => "v_div_assign",
                    BinOp::BitOrAssign(_) => "v_or_assign", BinOp::BitAndAssign(_) => "v_and_assign",
                    BinOp::Lt(_) => "v_lt", BinOp::Le(_) => "v_le", BinOp::Gt(_) => "v_gt", BinOp::Ge(_) => "v_ge", BinOp::Eq(_) => "v_eq", BinOp::Ne(_) => "v_ne",
                    _ => return,
                };
                if self.native() || is_literal(&b.left) || is_literal(&b.right) {
                    return;
                }
                let (l, r) = (&b.left, &b.right);
                let fi = format_ident!("{}", f);
                *e = match f {
                    "v_add" => parse_quote!(VAdd::#fi(#l, #r)), "v_sub" => parse_quote!(VSub::#fi(#l, #r)), "v_mul" => parse_quote!(VMul::#fi(#l, #r)), "v_div" => parse_quote!(VDiv::#fi(#l, #r)), "v_rem" => parse_quote!(VRem::#fi(#l, #r)),
                    "v_add_assign" => parse_quote!(VAddAssign::#fi(&mut #l, #r)), "v_sub_assign" => parse_quote!(VSubAssign::#fi(&mut #l, #r)), "v_mul_assign" => parse_quote!(VMulAssign::#fi(&mut #l, #r)), "v_div_assign" => parse_quote!(VDivAssign::#fi(&mut #l, #r)),
                    "v_or_assign" | "v_and_assign" => parse_quote!(VBits::#fi(&mut #l, #r)),
                    // both sides are references when one of them is `&x`: one level less, so that `&mut` coerces
                    "v_eq" | "v_ne" if matches!(&**l, Expr::Reference(_)) || matches!(&**r, Expr::Reference(_)) => parse_quote!(VEq::#fi(#l, #r)),
                    "v_lt" | "v_le" | "v_gt" | "v_ge" if matches!(&**l, Expr::Reference(_)) || matches!(&**r, Expr::Reference(_)) => parse_quote!(VOrd::#fi(#l, #r)),
                    "v_eq" | "v_ne" => parse_quote!(VEq::#fi(&(#l), &(#r))),
                    _ => parse_quote!(VOrd::#fi(&(#l), &(#r))),
                };
            }
            Expr::Unary(u) => {
                if let UnOp::Neg(_) = u.op { if !self.native() && !is_literal(&u.expr) { let x = &u.expr; *e = parse_quote!(VNeg::v_neg(#x)); } }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Some((x, a, b, c)) = range_index(&r.expr) { let (a, b) = bounds(&x, a, b, c); *e = parse_quote!(#x.v_slice(#a, #b)); }
            }
            Expr::MethodCall(m) => {
                // R8: sub-slices
                if let Some((x, a, b, c)) = range_index(&m.receiver) {
                    let (a, b) = bounds(&x, a, b, c);
                    if matches!(m.method.to_string().as_str(), "rotate_left" | "rotate_right" | "reverse" | "v_sort0" | "v_dedup0" | "fill" | "swap") {
                        let args = m.args.clone(); let f = format_ident!("v_{}_range", m.method);
                        *e = parse_quote!(#x.#f(#a, #b, #args)); return;
                    }
                    *m.receiver = parse_quote!(#x.v_slice(#a, #b));
                }
                // R9: adaptors on ranges
                { let mut r = (*m.receiver).clone(); while let Expr::Paren(p) = r { r = *p.expr; }
                  if let Expr::Range(r) = &r { if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) && ITER.contains(&m.method.to_string().as_str()) { *m.receiver = parse_quote!(VIntoIter::v_into_iter(#r)); } } }
                if !self.o.keep_iter && ITER.contains(&m.method.to_string().as_str()) { m.method = format_ident!("v_{}", m.method); }
                if m.method == "v_unzip" { m.turbofish = None; }
                if m.method == "v_collect" { if self.o.sets && m.turbofish.is_none() { m.method = format_ident!("v_collect_set"); } if let Some(t) = m.turbofish.take() { if sq(&t).contains("HashSet<") { m.method = format_ident!("v_collect_set"); } if sq(&t).starts_with("::<Option<") { m.method = format_ident!("v_collect_option"); } } }
                if m.method == "v_sum" { m.turbofish = None; }
                // R1: extracted functions have no type parameters left
                if !m.method.to_string().starts_with("v_") { if let Some(t) = &m.turbofish { if t.args.iter().all(|a| matches!(a, GenericArgument::Type(Type::Path(p)) if p.path.get_ident().map_or(false, |i| i.to_string().len() <= 2))) { m.turbofish = None; } } }
                let _ = &mut self.fresh;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(x) = self.mac(&name, &m.mac) { *e = x; }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name.starts_with("__vx") { return; }
            if let Some(x) = self.mac(&name, &m.mac.clone()) { *s = Stmt::Expr(x, Some(Default::default())); }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
impl<'a> Rewriter<'a> {
    fn mac(&mut self, name: &str, mac: &Macro) -> Option<Expr> {
        use syn::parse::Parser;
        let args = || punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(mac.tokens.clone()).ok();
        let x: Expr = match name {
            "assert" => { let mut a = args()?.into_iter().next()?; self.visit_expr_mut(&mut a); parse_quote!(v_assert(#a)) }
            "assert_eq" => { let v: Vec<Expr> = args()?.into_iter().collect(); let (a, b) = (&v[0], &v[1]); let mut c: Expr = parse_quote!((#a) == (#b)); self.visit_expr_mut(&mut c); parse_quote!(v_assert(#c)) }
            "panic" | "unreachable" | "unimplemented" | "todo" => parse_quote!(v_unreachable()),
            "matches" => {
                let p = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>()?; Ok((e, p, g)) };
                let (mut s, p, g) = p.parse2(mac.tokens.clone()).ok()?;
                self.visit_expr_mut(&mut s);
                let g = g.map(|mut g| { self.visit_expr_mut(&mut g); quote!(if #g) });
                let mut arm: Arm = parse_quote!(#p #g => true,);
                let mut pre = vec![]; deref_pat(&mut arm.pat, false, &mut pre);
                parse_quote!(match #s { #arm _ => false })
            }
            "vec" => {
                if let Some(a) = args() {
                    let mut tm = TypeMap { types: self._tm.types.clone(), paths: self._tm.paths.clone() };
                    let mut v: Vec<Expr> = a.into_iter().collect(); for x in v.iter_mut() { tm.visit_expr_mut(x); self.visit_expr_mut(x); }
                    if v.is_empty() { parse_quote!(Vec::new()) } else { parse_quote!(v_vec([#(#v),*])) }
                } else {
                    let p = |i: parse::ParseStream| -> Result<(Expr, Expr)> { let e = i.parse()?; i.parse::<Token![;]>()?; let n = i.parse()?; Ok((e, n)) };
                    let (mut x, mut n) = p.parse2(mac.tokens.clone()).ok()?;
                    let mut tm = TypeMap { types: self._tm.types.clone(), paths: self._tm.paths.clone() };
                    tm.visit_expr_mut(&mut x); tm.visit_expr_mut(&mut n); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut n);
                    parse_quote!(v_vec_repeat(#x, #n))
                }
            }
            // R20: the text of a message is not looked at
            "format" => parse_quote!(v_text()),
            // R19: every key of the map once, as a chain of insertions
            "enum_map" => {
                let t = &mac.tokens;
                let m: ExprMatch = parse2(quote!(match () { #t })).ok()?;
                let mut x: Expr = parse_quote!(EnumMap::v_new());
                for mut a in m.arms { if a.guard.is_some() { return None; } let k = &a.pat; self.visit_expr_mut(&mut a.body); let b = &a.body; x = parse_quote!(#x.v_with(#k, #b)); }
                x
            }
            _ => return None,
        };
        Some(x)
    }
}
