//! vx: mechanical extraction of functions from /repo into a Verus file.
//!
//! usage: vx CONTRACT_FILE REPO_ROOT OUT.rs MAP.txt
//!
//! CONTRACT_FILE is Verus text with `//%%` blocks. Every block names a struct / enum / function of
//! the repository; its *current* text is read from REPO_ROOT, rewritten by the rules R1..R12 below and
//! printed with the contracts of the block attached. Exit code: 0 ok, 3 lost anchor.
mod rewrite;
use proc_macro2::{TokenStream, TokenTree, Delimiter, Spacing};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;

pub type Res<T> = Result<T, String>;

#[derive(Default, Debug, Clone)]
pub struct Opts {
    pub assume: bool,
    pub dense: Vec<String>,
    pub types: HashMap<String, String>,
    pub paths: Vec<(String, String)>,
    pub name: Option<String>,
    pub ctx: Option<String>,
    pub sig: Option<String>,
    pub ret: String,
    pub native: bool,
    pub spec: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, String>,
    pub hooks: Vec<(String, String)>, // (anchor key, text): start, end, loop_start k, loop_end k, before_loop k, after_loop k, before "pat", after "pat"
    pub closures: BTreeMap<usize, String>,
    pub substs: Vec<(String, String)>,
    pub keep_iter: bool,
    pub sets: bool,
    pub collected: Option<String>,
    pub mut_ref: bool,
}

fn parse_types(s: &str, m: &mut HashMap<String, String>) {
    for kv in s.split(";") {
        let kv = kv.trim();
        if kv.is_empty() { continue; }
        if let Some((k, v)) = kv.split_once('=') {
            m.insert(k.trim().to_string(), v.trim().to_string());
        }
    }
}

struct Repo { root: String, files: HashMap<String, syn::File> }
impl Repo {
    fn file(&mut self, f: &str) -> Res<&syn::File> {
        if !self.files.contains_key(f) {
            let p = format!("{}/{}", self.root, f);
            let t = std::fs::read_to_string(&p).map_err(|e| format!("LOST file {p}: {e}"))?;
            let parsed = syn::parse_file(&t).map_err(|e| format!("LOST parse {p}: {e}"))?;
            self.files.insert(f.to_string(), parsed);
        }
        Ok(&self.files[f])
    }
}

fn last_ident(ty: &syn::Type) -> Option<String> {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => last_ident(&r.elem),
        syn::Type::Slice(_) => Some("[]".into()),
        _ => None,
    }
}
fn norm(t: impl ToTokens) -> String { t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect() }

fn walk_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        match i {
            syn::Item::Mod(m) => {
                if m.attrs.iter().any(|a| norm(a).contains("cfg(test)")) { continue; }
                if m.ident == "test" || m.ident == "tests" { continue; }
                if let Some((_, v)) = &m.content { walk_items(v, out); }
            }
            _ => out.push(i),
        }
    }
}

/// path: `name` (free fn), `Type::name`, `Type as Trait::name`, `trait Trait::name`, with optional ` /filter/` on the whole normalised
/// impl header, and optional `#k` (k-th match, default must be unique).
fn find_fn(repo: &mut Repo, file: &str, path: &str) -> Res<(syn::ImplItemFn, Option<syn::Type>)> {
    let (path, filter) = match path.split_once(" /") {
        Some((p, f)) => (p.trim(), Some(f.trim_end_matches('/').replace(' ', ""))),
        None => (path.trim(), None),
    };
    let (path, idx) = match path.split_once('#') { Some((p, k)) => (p, Some(k.parse::<usize>().unwrap())), None => (path, None) };
    let f = repo.file(file)?.clone();
    let mut items = vec![];
    walk_items(&f.items, &mut items);
    let mut found: Vec<(syn::ImplItemFn, Option<syn::Type>)> = vec![];
    let (owner, name) = match path.rsplit_once("::") { Some((o, n)) => (Some(o.trim()), n.trim()), None => (None, path) };
    for it in items {
        match it {
            syn::Item::Fn(x) if owner.is_none() && x.sig.ident == name => {
                found.push((syn::ImplItemFn { attrs: x.attrs.clone(), vis: x.vis.clone(), defaultness: None, sig: x.sig.clone(), block: (*x.block).clone() }, None));
            }
            syn::Item::Trait(t) => {
                if let Some(o) = owner { if let Some(tn) = o.strip_prefix("trait ") {
                    if t.ident == tn {
                        for i in &t.items { if let syn::TraitItem::Fn(m) = i { if m.sig.ident == name { if let Some(b) = &m.default {
                            found.push((syn::ImplItemFn { attrs: m.attrs.clone(), vis: syn::Visibility::Inherited, defaultness: None, sig: m.sig.clone(), block: b.clone() }, None));
                        } } } }
                    }
                } }
            }
            syn::Item::Impl(im) => {
                let Some(o) = owner else { continue };
                let (ty, tr) = match o.split_once(" as ") { Some((a, b)) => (a.trim(), Some(b.trim())), None => (o, None) };
                if last_ident(&im.self_ty).as_deref() != Some(ty) { continue; }
                if let Some(tr) = tr {
                    match &im.trait_ { Some((_, p, _)) if p.segments.last().unwrap().ident == tr => {}, _ => continue }
                }
                if let Some(flt) = &filter {
                    let hdr = format!("{}|{}|{}", norm(&im.trait_.as_ref().map(|t| t.1.clone())), norm(&im.self_ty), norm(&im.generics));
                    if !hdr.contains(flt.as_str()) { continue; }
                }
                for i in &im.items {
                    if let syn::ImplItem::Fn(m) = i { if m.sig.ident == name { found.push((m.clone(), Some((*im.self_ty).clone()))); } }
                }
            }
            _ => {}
        }
    }
    match (found.len(), idx) {
        (0, _) => Err(format!("LOST fn {file} {path}")),
        (n, Some(k)) if k < n => Ok(found.swap_remove(k)),
        (1, None) => Ok(found.pop().unwrap()),
        (n, _) => Err(format!("LOST ambiguous fn {file} {path} ({n} candidates)")),
    }
}

/// pretty printer good enough for line-accurate diagnostics
fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    fn rec(ts: TokenStream, s: &mut String, ind: usize, inparen: bool) {
        let mut prev_joint = false;
        let mut at_start = true;
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        for (k, t) in toks.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{", "}"), Delimiter::None => ("", "") };
                    if g.delimiter() == Delimiter::Brace {
                        if !s.ends_with([' ', '\n']) { s.push(' '); }
                        if g.stream().is_empty() { s.push_str("{}"); }
                        else {
                            s.push_str("{\n"); for _ in 0..ind + 1 { s.push_str("    "); }
                            rec(g.stream(), s, ind + 1, false);
                            while s.ends_with(' ') { s.pop(); }
                            if !s.ends_with('\n') { s.push('\n'); }
                            for _ in 0..ind { s.push_str("    "); }
                            s.push('}');
                        }
                        let next_glue = matches!(toks.get(k + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), ',' | ';' | '.' | ')' | '?')) || matches!(toks.get(k + 1), Some(TokenTree::Ident(i)) if i == "else");
                        if !next_glue && !inparen { s.push('\n'); for _ in 0..ind { s.push_str("    "); } } else { s.push(' '); }
                    } else {
                        s.push_str(o); rec(g.stream(), s, ind, g.delimiter() != Delimiter::None || inparen); while s.ends_with(' ') { s.pop(); } s.push_str(c);
                        s.push(' ');
                    }
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?' ) && !prev_joint { while s.ends_with(' ') { s.pop(); } }
                    s.push(c);
                    prev_joint = p.spacing() == Spacing::Joint;
                    if c == ';' && !inparen { s.push('\n'); for _ in 0..ind { s.push_str("    "); } }
                    else if !prev_joint && !matches!(c, '.' | '&' | '!' | '\'') && c != '#' { s.push(' '); }
                }
                other => {
                    if !at_start && !s.ends_with([' ', '\n', '(', '[', '.', '&', '!', '\'', '#', ':', '*']) && !prev_joint { s.push(' '); }
                    let txt = other.to_string();
                    s.push_str(&txt);
                    s.push(' ');
                    prev_joint = false;
                }
            }
            at_start = false;
        }
    }
    rec(ts, &mut s, 0, false);
    // clean: "a ( b" -> "a(b"
    let mut out = String::with_capacity(s.len());
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ' ' && i + 1 < b.len() && (b[i + 1] == '(' || b[i + 1] == '[' ) && i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_') {
            // keep a space after keywords
            let mut j = i; while j > 0 && (b[j - 1].is_alphanumeric() || b[j - 1] == '_') { j -= 1; }
            let w: String = b[j..i].iter().collect();
            if !["if", "in", "match", "while", "return", "let", "mut", "else", "for", "as"].contains(&w.as_str()) { i += 1; continue; }
        }
        if b[i] == ' ' && i + 1 < b.len() && b[i + 1] == ':' && i + 2 < b.len() && b[i + 2] == ':' { i += 1; continue; }
        out.push(b[i]); i += 1;
    }
    out.replace(":: ", "::").replace("__vx_loop !", "__vx_loop!").replace("__vx_hook !", "__vx_hook!").replace("__vx_loop! (", "__vx_loop!(").replace("__vx_hook! (", "__vx_hook!(")
}

fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

/// token-level textual substitution, whitespace-insensitive; must match at least once
fn subst_ws(text: &str, from: &str, to: &str) -> Res<String> {
    let f = squeeze(from);
    let cs: Vec<char> = text.chars().collect();
    // map squeezed -> original positions
    let mut sq = String::new(); let mut pos = vec![];
    for (i, c) in cs.iter().enumerate() { if !c.is_whitespace() { sq.push(*c); pos.push(i); } }
    let sqc: Vec<char> = sq.chars().collect(); let fc: Vec<char> = f.chars().collect();
    let mut out = String::new(); let mut last = 0usize; let mut n = 0; let mut i = 0;
    while i + fc.len() <= sqc.len() {
        if sqc[i..i + fc.len()] == fc[..] {
            let a = pos[i]; let b = pos[i + fc.len() - 1] + 1;
            out.extend(&cs[last..a]); out.push_str(to); last = b; i += fc.len(); n += 1;
        } else { i += 1; }
    }
    out.extend(&cs[last..]);
    if n == 0 { return Err(format!("LOST subst pattern `{from}`")); }
    Ok(out)
}

/// Loop skeleton of the original body: which loops, in which order and nesting.
fn skeleton(f: &syn::ImplItemFn) -> String {
    struct V(String);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) { self.0.push_str("F("); syn::visit::visit_expr_for_loop(self, e); self.0.push(')'); }
        fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) { self.0.push_str("W("); syn::visit::visit_expr_while(self, e); self.0.push(')'); }
        fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) { self.0.push_str("L("); syn::visit::visit_expr_loop(self, e); self.0.push(')'); }
        fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.0.push_str("C("); syn::visit::visit_expr_closure(self, e); self.0.push(')'); }
    }
    let mut v = V(String::new());
    syn::visit::Visit::visit_block(&mut v, &f.block);
    if v.0.is_empty() { v.0.push('-'); }
    v.0
}

/// Emits one function. `stub`: signature and contract only, body not verified (the driver records it as not proved).
/// `vacuity`: `assert(false)` as the first statement; it must be refuted, else the precondition is contradictory.
fn emit_fn(repo: &mut Repo, file: &str, path: &str, o: &Opts, stub: bool, vacuity: bool, shape: &mut String) -> Res<String> {
    let (mut f, self_ty) = find_fn(repo, file, path)?;
    *shape = skeleton(&f);
    if stub { f.block = syn::parse_quote!({ unimplemented!() }); }
    // indexing a dense vector is indexing its data (Dense::index, Dense::index_mut)
    struct Dn<'a>(&'a [String]); impl<'a> VisitMut for Dn<'a> { fn visit_expr_index_mut(&mut self, e: &mut syn::ExprIndex) { syn::visit_mut::visit_expr_index_mut(self, e); let n = match &*e.expr { syn::Expr::Path(p) => p.path.get_ident().map(|x| x.to_string()), syn::Expr::Field(f) => if let syn::Member::Named(x) = &f.member { Some(x.to_string()) } else { None }, _ => None }; if n.map_or(false, |n| self.0.contains(&n)) { let b = (*e.expr).clone(); *e.expr = syn::parse_quote!(#b.data); } }
        // and iterating over it mutably is iterating over its data (Dense::iter_mut, Sparse::iter_mut)
        fn visit_expr_method_call_mut(&mut self, e: &mut syn::ExprMethodCall) { syn::visit_mut::visit_expr_method_call_mut(self, e); if e.method == "iter_mut" { let n = match &*e.receiver { syn::Expr::Path(p) => p.path.get_ident().map(|x| x.to_string()), syn::Expr::Field(f) => if let syn::Member::Named(x) = &f.member { Some(x.to_string()) } else { None }, _ => None }; if n.map_or(false, |n| self.0.contains(&n)) { let b = (*e.receiver).clone(); *e.receiver = syn::parse_quote!(#b.data); } } }
        // names listed with parentheses are keyed maps: indexing is looking the key up (EnumMap::index)
        fn visit_expr_mut(&mut self, x: &mut syn::Expr) { syn::visit_mut::visit_expr_mut(self, x); if let syn::Expr::Index(e) = x { let n = match &*e.expr { syn::Expr::Path(p) => p.path.get_ident().map(|x| x.to_string()), syn::Expr::Field(f) => if let syn::Member::Named(x) = &f.member { Some(x.to_string()) } else { None }, _ => None }; if n.map_or(false, |n| self.0.contains(&format!("{n}()"))) { let (b, i) = (&e.expr, &e.index); *x = syn::parse_quote!((*#b.v_at(#i))); } } } }
    Dn(&o.dense).visit_block_mut(&mut f.block);
    // R1: attributes, visibility
    f.attrs.clear(); f.vis = syn::Visibility::Inherited; f.defaultness = None;
    // R2 generics
    let mut tm = rewrite::TypeMap { types: o.types.clone(), paths: o.paths.clone() };
    let dropped: Vec<String> = f.sig.generics.params.iter().filter_map(|p| match p { syn::GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
    f.sig.generics.params = f.sig.generics.params.iter().cloned().filter_map(|p| match p {
        syn::GenericParam::Type(t) => if o.types.contains_key(&t.ident.to_string()) { None } else { Some(syn::GenericParam::Type(syn::TypeParam{attrs: vec![], colon_token: None, bounds: Default::default(), ident: t.ident, eq_token: None, default: None})) },
        other => Some(other) }).collect();
    let _ = dropped;
    f.sig.generics.where_clause = None;
    if let Some(n) = &o.name { f.sig.ident = syn::Ident::new(n, f.sig.ident.span()); }
    tm.visit_impl_item_fn_mut(&mut f);
    let stub_o = Opts { types: o.types.clone(), paths: o.paths.clone(), ret: o.ret.clone(), native: true, keep_iter: true, ..Default::default() };
    let mut rw = rewrite::Rewriter::new(if stub { &stub_o } else { o }, &tm);
    rw.run(&mut f)?;
    // R13: `mut self` -> `self`, bound to a mutable local
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first_mut() { if r.mutability.is_some() && r.reference.is_none() {
        r.mutability = None; 
        struct Ren; impl VisitMut for Ren { fn visit_ident_mut(&mut self, i: &mut syn::Ident) { if i == "self" { *i = syn::Ident::new("v_self", i.span()); } } }
        Ren.visit_block_mut(&mut f.block);
        if !stub { f.block.stmts.insert(0, syn::parse_quote!(let mut v_self = self;)); }
    } }
    // lifetimes of the impl block that its type no longer has are left out
    let ctx = o.ctx.clone().or_else(|| self_ty.as_ref().map(|t| { let mut t = t.clone(); tm.visit_type_mut(&mut t); pretty(rewrite::strip_generics(&t).to_token_stream()) }));
    {
        let mut known: Vec<String> = f.sig.generics.lifetimes().map(|l| l.lifetime.ident.to_string()).collect();
        known.push("static".to_string());
        if let Some(c) = &ctx { known.extend(c.match_indices('\'').map(|(i, _)| c[i + 1..].chars().take_while(|x| x.is_alphanumeric() || *x == '_').collect::<String>())); }
        struct Elide { known: Vec<String> }
        impl VisitMut for Elide { fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
            if t.lifetime.as_ref().map_or(false, |l| !self.known.contains(&l.ident.to_string())) { t.lifetime = None; }
            syn::visit_mut::visit_type_reference_mut(self, t);
        } }
        let mut e = Elide { known };
        for i in f.sig.inputs.iter_mut() { e.visit_fn_arg_mut(i); }
        e.visit_return_type_mut(&mut f.sig.output);
    }
    let sig = match &o.sig {
        Some(s) => s.clone(),
        None => {
            let mut sig = f.sig.clone();
            let ret = std::mem::replace(&mut sig.output, syn::ReturnType::Default);
            // patterns in params: `&p` etc. are left to rustc
            let mut s = pretty(quote!(#sig));
            if let syn::ReturnType::Type(_, t) = ret { let _ = write!(s, " -> ({}: {})", o.ret, pretty(t.to_token_stream()).trim()); }
            s
        }
    };
    let body = &f.block;
    let mut text = if stub { "{ unimplemented!() }".to_string() } else { pretty(quote!(#body)) };
    if !stub {
    for (k, spec) in &o.loops {
        let m = format!("__vx_loop!({k})");
        if !text.contains(&m) { return Err(format!("LOST loop {k} in {path}")); }
        let _ = spec;
    }
    // splice loops: `{ <ws> __vx_loop!(k);` -> `spec {`
    let mut k = 0;
    loop {
        let m = format!("__vx_loop!({k})");
        let Some(p) = text.find(&m) else { break };
        let semi = p + text[p..].find(';').unwrap() + 1;
        let brace = text[..p].rfind('{').unwrap();
        let spec = o.loops.get(&k).cloned().unwrap_or_default();
        text = format!("{}\n{}{{{}", &text[..brace], spec, &text[semi..]);
        k += 1;
    }
    // hooks
    for i in 0..o.hooks.len() + 1 {
        let m = format!("__vx_hook!({i});");
        if let Some(p) = text.find(&m) {
            let t = o.hooks.get(i).map(|h| h.1.clone()).unwrap_or_default();
            text = format!("{}\n{}\n{}", &text[..p], t, &text[p + m.len()..]);
        } else if i < o.hooks.len() { return Err(format!("LOST hook `{}` in {path}", o.hooks[i].0)); }
    }
    // closures: `__vx_closure!(k, body...)` were emitted as calls `__vx_closure_k(|..| body)`
    for (k, hdr) in &o.closures {
        let m = format!("| __vx_closure{k} |");
        let m2 = format!("|__vx_closure{k}|");
        let m3 = format!("| __vx_closure{k}|");
        if text.contains(&m) { text = text.replace(&m, hdr); }
        else if text.contains(&m2) { text = text.replace(&m2, hdr); }
        else if text.contains(&m3) { text = text.replace(&m3, hdr); }
        else { return Err(format!("LOST closure {k} in {path}")); }
    }
    if text.contains("__vx_closure") { return Err(format!("LOST closure without contract in {path}: {}", &text[text.find("__vx_closure").unwrap()..][..14])); }
    }
    if vacuity { let p = text.find('{').unwrap() + 1; text = format!("{{ assert(false); {}", &text[p..]); }
    let mut full = format!("{}{}\n{}\n{}{}", if stub { "#[verifier::external_body]\n" } else { "" }, o.attrs, sig, o.spec, text);
    for (a, b) in &o.substs { match subst_ws(&full, a, b) { Ok(t) => full = t, Err(e) => if !stub { return Err(format!("{e} in {path}")) } } }
    let ctx = match ctx.as_deref() { Some("free") | None => None, Some(x) => Some(x.trim().to_string()) };
    Ok(match ctx { Some(c) if c.starts_with("impl") => format!("{c} {{\n{full}\n}}\n"), Some(c) => { let mut l: Vec<String> = c.match_indices('\'').map(|(i, _)| c[i + 1..].chars().take_while(|x| x.is_alphanumeric() || *x == '_').collect::<String>()).filter(|x| !x.is_empty() && x != "_" && x != "static").collect(); l.sort(); l.dedup(); let g = if l.is_empty() { String::new() } else { format!("<{}>", l.iter().map(|x| format!("'{x}")).collect::<Vec<_>>().join(", ")) }; format!("impl{g} {c} {{\n{full}\n}}\n") }, None => format!("{full}\n") })
}

fn emit_struct(repo: &mut Repo, file: &str, name: &str, o: &Opts) -> Res<String> {
    let f = repo.file(file)?.clone();
    let mut items = vec![]; walk_items(&f.items, &mut items);
    let mut tm = rewrite::TypeMap { types: o.types.clone(), paths: o.paths.clone() };
    for it in items {
        match it {
            syn::Item::Struct(s) if s.ident == name => {
                let mut s = s.clone(); s.attrs.clear();
                s.generics.params = s.generics.params.into_iter().filter(|p| matches!(p, syn::GenericParam::Lifetime(_)) || matches!(p, syn::GenericParam::Type(t) if !o.types.contains_key(&t.ident.to_string()))).map(|p| match p { syn::GenericParam::Type(mut t) => { t.bounds.clear(); t.colon_token = None; t.default = None; syn::GenericParam::Type(t) }, p => p }).collect();
                s.generics.where_clause = None;
                let syn::Fields::Named(_) = &s.fields else { 
                    for fl in s.fields.iter_mut() { fl.attrs.clear(); fl.vis = syn::parse_quote!(pub); }
                    s.vis = syn::parse_quote!(pub); tm.visit_item_struct_mut(&mut s);
                    if let Some(n) = &o.name { s.ident = syn::Ident::new(n, s.ident.span()); }
                    return Ok(format!("{}\n{}\n", o.attrs, pretty(quote!(#s)))); };
                s.fields = match s.fields { syn::Fields::Named(mut n) => { n.named = n.named.into_iter().filter(|f| !norm(&f.ty).contains("PhantomData")).collect(); syn::Fields::Named(n) }, x => x };
                for fl in s.fields.iter_mut() { fl.attrs.clear(); fl.vis = syn::parse_quote!(pub); }
                s.vis = syn::parse_quote!(pub);
                tm.visit_item_struct_mut(&mut s);
                if let Some(n) = &o.name { s.ident = syn::Ident::new(n, s.ident.span()); }
                let mut t = format!("{}\n{}\n", o.attrs, pretty(quote!(#s)));
                for (a, b) in &o.substs { t = subst_ws(&t, a, b)?; }
                return Ok(t);
            }
            syn::Item::Enum(e) if e.ident == name => {
                let mut e = e.clone(); e.attrs.clear();
                e.generics.params = e.generics.params.into_iter().filter(|p| matches!(p, syn::GenericParam::Lifetime(_)) || matches!(p, syn::GenericParam::Type(t) if !o.types.contains_key(&t.ident.to_string()))).map(|p| match p { syn::GenericParam::Type(mut t) => { t.bounds.clear(); t.colon_token = None; t.default = None; syn::GenericParam::Type(t) }, p => p }).collect();
                e.generics.where_clause = None;
                for v in e.variants.iter_mut() { v.attrs.clear(); for fl in v.fields.iter_mut() { fl.attrs.clear(); } }
                e.vis = syn::parse_quote!(pub);
                tm.visit_item_enum_mut(&mut e);
                if let Some(n) = &o.name { e.ident = syn::Ident::new(n, e.ident.span()); }
                let mut t = format!("{}\n{}\n", o.attrs, pretty(quote!(#e)));
                for (a, b) in &o.substs { t = subst_ws(&t, a, b)?; }
                return Ok(t);
            }
            syn::Item::Const(c) if c.ident == name => {
                let mut c = c.clone(); c.attrs.clear(); c.vis = syn::parse_quote!(pub);
                return Ok(format!("{}\n", pretty(quote!(#c))));
            }
            _ => {}
        }
    }
    Err(format!("LOST item {file} {name}"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (cf, root, out, map) = (&a[1], &a[2], &a[3], &a[4]);
    let vacuity = a.iter().any(|x| x == "--vacuity");
    let stubs: Vec<usize> = a.iter().filter_map(|x| x.strip_prefix("--stub=")).flat_map(|x| x.split(',').map(|y| y.parse().unwrap()).collect::<Vec<_>>()).collect();
    let mut ord = 0usize;
    let text = std::fs::read_to_string(cf).expect("contract file");
    let mut repo = Repo { root: root.clone(), files: HashMap::new() };
    let mut gtypes: HashMap<String, String> = HashMap::new();
    let mut gpaths: Vec<(String, String)> = vec![];
    let mut gdense: Vec<String> = vec![];
    let mut o_text = String::new();
    let mut map_text = String::new();
    let mut lost = false;
    let dir = std::path::Path::new(cf).parent().unwrap();
    // includes first
    let mut expanded = String::new();
    fn expand(t: &str, dir: &std::path::Path, out: &mut String) {
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("//%%include ") {
                let t = std::fs::read_to_string(dir.join(f.trim())).expect("include");
                expand(&t, dir, out);
            } else if let Some(r) = l.trim().strip_prefix("//%%use ") {
                // contract proved in another unit, assumed here: its signature and contract only
                let (unit, f) = r.trim().split_once(' ').expect("unit file path");
                let mut other = String::new();
                expand(&std::fs::read_to_string(dir.join(format!("{unit}.rs"))).expect("unit"), dir, &mut other);
                let ls: Vec<&str> = other.lines().collect();
                let (f, within) = match f.trim().split_once(" in ") { Some((a, b)) => (a.trim(), Some(b.trim())), None => (f.trim(), None) };
                let at = ls.iter().enumerate().position(|(n, x)| x.trim().strip_prefix("//%%fn ").map_or(false, |y| y.trim() == f) && within.map_or(true, |w| ls[n + 1].trim() == format!("//% in {w}"))).unwrap_or_else(|| panic!("no contract of {f} in {unit}"));
                out.push_str(&format!("//%%fn {}\n//% assume {unit}\n", f.trim()));
                for x in &ls { if let Some(ty) = x.trim().strip_prefix("//%%types ") { out.push_str(&format!("//% types {ty}\n")); } if let Some(ty) = x.trim().strip_prefix("//%%path ") { out.push_str(&format!("//% path {ty}\n")); } }
                let mut keep = false;
                for x in &ls[at + 1..] {
                    if let Some(d) = x.trim().strip_prefix("//% ") { keep = ["types", "path", "as", "name", "in", "sig", "ret", "mut_ref", "attr", "spec"].contains(&d.split(' ').next().unwrap()); }
                    let end = x.trim() == "//%%end";
                    if keep || end { out.push_str(x); out.push('\n'); }
                    if end { break; }
                }
            } else { out.push_str(l); out.push('\n'); }
        }
    }
    expand(&text, dir, &mut expanded);
    let lines: Vec<&str> = expanded.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//%%types ") { parse_types(r, &mut gtypes); i += 1; continue; }
        if let Some(r) = t.strip_prefix("//%%dense ") { gdense.extend(r.split(',').map(|x| x.trim().to_string())); i += 1; continue; }
        if let Some(r) = t.strip_prefix("//%%path ") { let (a, b) = r.split_once('=').unwrap(); gpaths.push((squeeze(a), b.trim().to_string())); i += 1; continue; }
        let (kind, rest) = if let Some(r) = t.strip_prefix("//%%fn ") { ("fn", r) } else if let Some(r) = t.strip_prefix("//%%item ") { ("item", r) } else { o_text.push_str(l); o_text.push('\n'); i += 1; continue; };
        let (file, path) = rest.trim().split_once(' ').expect("file path");
        let mut o = Opts { types: gtypes.clone(), paths: gpaths.clone(), dense: gdense.clone(), ret: "r".into(), ..Default::default() };
        i += 1;
        let mut cur: Option<(String, String)> = None; // (directive, text)
        let flush = |cur: &mut Option<(String, String)>, o: &mut Opts| {
            if let Some((d, txt)) = cur.take() {
                let (w, arg) = d.split_once(' ').map(|(a, b)| (a.to_string(), b.trim().to_string())).unwrap_or((d.clone(), String::new()));
                match w.as_str() {
                    "types" => parse_types(&arg, &mut o.types),
                    "path" => { let (a, b) = arg.split_once('=').unwrap(); o.paths.insert(0, (squeeze(a), b.trim().to_string())); }
                    "assume" => o.assume = true,
                    "as" => o.name = Some(arg),
                    "in" => o.ctx = Some(arg),
                    "name" => o.name = Some(arg),
                    "sig" => o.sig = Some(if arg.is_empty() { txt } else { arg }),
                    "ret" => o.ret = arg,
                    "native" => o.native = true,
                    "keep_iter" => o.keep_iter = true,
                    "sets" => o.sets = true,
                    "collected" => o.collected = Some(arg.trim().to_string()),
                    "mut_ref" => o.mut_ref = true,
                    "attr" => { o.attrs.push_str(&arg); o.attrs.push('\n'); }
                    "spec" => o.spec = txt,
                    "loop" => { o.loops.insert(arg.parse().unwrap(), txt); }
                    "closure" => { let (k, h) = arg.split_once(' ').unwrap_or((&arg, "")); o.closures.insert(k.parse().unwrap(), format!("{h}\n{txt}")); }
                    "subst" => { let (a, b) = arg.split_once("=>").unwrap(); o.substs.push((a.trim().to_string(), b.trim().to_string())); }
                    "start" | "end" | "loop_start" | "loop_end" | "before_loop" | "after_loop" | "before" | "after" | "arm_start" => o.hooks.push((d.clone(), txt)),
                    other => panic!("unknown directive {other}"),
                }
            }
        };
        while i < lines.len() {
            let t = lines[i].trim();
            if t == "//%%end" { i += 1; break; }
            if let Some(d) = t.strip_prefix("//% ") { flush(&mut cur, &mut o); cur = Some((d.trim().to_string(), String::new())); }
            else if let Some((_, txt)) = &mut cur { txt.push_str(lines[i]); txt.push('\n'); }
            i += 1;
        }
        flush(&mut cur, &mut o);
        let id = ord; ord += 1;
        let mut shape = String::from("-");
        let mut lost_msg = String::new();
        let mut stubbed = stubs.contains(&id) || o.assume;
        let mut r = if kind == "fn" { emit_fn(&mut repo, file, path.trim(), &o, stubbed, vacuity && !stubbed, &mut shape) } else { emit_struct(&mut repo, file, path.trim(), &o) };
        if kind == "fn" && !stubbed {
            if let Err(e) = &r { lost_msg = e.clone(); eprintln!("{e}"); stubbed = true; r = emit_fn(&mut repo, file, path.trim(), &o, true, false, &mut shape); }
        }
        match r {
            Ok(t) => {
                let start = o_text.lines().count() + 1;
                o_text.push_str(&format!("// ---- extracted: {file} {path}\n"));
                o_text.push_str(&t);
                let end = o_text.lines().count();
                let state = if o.assume { "use" } else if stubbed { "stub" } else { kind };
                map_text.push_str(&format!("{state}\t{id}\t{file}\t{path}\t{start}\t{end}\t{shape}\t{}\t{}\t{lost_msg}\n", o.ctx.clone().unwrap_or_default(), o.substs.iter().map(|(a, b)| format!("{a} => {b}")).collect::<Vec<_>>().join(" ;; ")));
            }
            Err(e) => { eprintln!("{e}"); map_text.push_str(&format!("lost\t{id}\t{file}\t{path}\t0\t0\t{shape}\t\t\t{e}\n")); lost = true; }
        }
    }
    std::fs::write(out, o_text).unwrap();
    std::fs::write(map, map_text).unwrap();
    if lost { std::process::exit(3); }
}
