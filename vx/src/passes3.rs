//! Iterator chains become loops over vectors (`@iter` units): every adapter is materialised, in order.
//! Closures passed to adapters become loop bodies; this is only done for closures without `return`.
use crate::passes::*;
use proc_macro2::Span;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Iter {
    pub n: usize,
    pub strings: Vec<String>,
    pub applied: std::collections::BTreeMap<String, usize>,
}

const SOURCES: &[&str] = &["children", "children_with_tokens", "ancestors", "iter", "into_iter", "chars", "attributes", "get_interpolations", "find_iter", "descendants", "siblings"];
const ADAPT: &[&str] = &["filter_map", "filter", "map", "take_while", "skip_while", "flatten", "enumerate", "rev", "skip", "take", "copied", "cloned", "peekable", "flat_map"];

pub fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            SOURCES.contains(&n.as_str()) || (ADAPT.contains(&n.as_str()) && is_iter(&m.receiver))
        }
        Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last().is_some_and(|s| s.ident == "children"), _ => false },
        Expr::Block(b) => b.block.stmts.first().map(|s| s.to_token_stream().to_string().starts_with("let vx_s ")).unwrap_or(false),
        _ => false,
    }
}

/// a closure or a function path as (pattern, body)
fn parts(e: &Expr) -> Option<(Pat, Expr)> {
    match e {
        Expr::Closure(c) => {
            if c.inputs.len() != 1 {
                return None;
            }
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let mut h = HasReturn(false);
            syn::visit::Visit::visit_expr(&mut h, &c.body);
            if h.0 {
                return None;
            }
            Some((p, (*c.body).clone()))
        }
        Expr::Path(_) => Some((parse_quote!(vx_a), parse_quote!(#e(vx_a)))),
        _ => None,
    }
}
/// binding by reference: `|x| b` on `&T` items held by value
fn byref(p: &Pat) -> Stmt {
    match p {
        Pat::Reference(r) => {
            let q = &r.pat;
            parse_quote!(let #q = vx_x;)
        }
        p => parse_quote!(let #p = &vx_x;),
    }
}

/// `v.iter().any(|x| x == E)` on strings, E free of x: `vx_has(&v, &E)`
fn has_str(e: &Expr, strings: &[String]) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    if m.method != "any" || m.args.len() != 1 {
        return None;
    }
    let Expr::MethodCall(src) = &*m.receiver else { return None };
    if src.method != "iter" {
        return None;
    }
    let (p, b) = parts(m.args.first()?)?;
    let x = match &p {
        Pat::Ident(i) => i.ident.clone(),
        _ => return None,
    };
    let Expr::Binary(c) = &b else { return None };
    if !matches!(c.op, BinOp::Eq(_)) {
        return None;
    }
    fn plain(e: &Expr) -> &Expr {
        match e {
            Expr::Reference(r) => plain(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => plain(&u.expr),
            Expr::Paren(r) => plain(&r.expr),
            e => e,
        }
    }
    let is_x = |e: &Expr| matches!(plain(e), Expr::Path(p) if p.path.is_ident(&x));
    let other = if is_x(&c.left) { &c.right } else if is_x(&c.right) { &c.left } else { return None };
    let other = plain(other);
    if !StrEq::stringy(other, strings) || other.to_token_stream().into_iter().any(|t| t.to_string() == x.to_string()) {
        return None;
    }
    let v = &src.receiver;
    Some(parse_quote!(vx_has(&#v, &#other)))
}

impl VisitMut for Iter {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // a loop over a chain gets the materialised chain from a local
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mut s = s;
            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                let chain = match &*f.expr {
                    Expr::Block(_) => true,
                    Expr::Call(c) => c.args.iter().any(|a| matches!(a, Expr::Block(_))),
                    _ => false,
                };
                if chain {
                    let e = f.expr.clone();
                    out.push(parse_quote!(let vx_f = #e;));
                    f.expr = Box::new(parse_quote!(vx_f));
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // outermost first: a chain is taken apart from its end
        if let Some(n) = has_str(e, &self.strings) {
            *self.applied.entry("membership test as vx_has".into()).or_insert(0) += 1;
            self.n += 1;
            *e = n;
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let r = &m.receiver;
            if is_iter(r) {
                let f = m.args.first().and_then(parts);
                let lit = m.args.first().cloned();
                let new: Option<Expr> = match (name.as_str(), m.args.len()) {
                    ("filter_map", 1) => f.map(|(p, b)| parse_quote!({ let vx_s = #r; let mut vx_v = Vec::new(); for vx_x in vx_s { let #p = vx_x; match #b { Some(vx_y) => { vx_v.push(vx_y); } None => {} } } vx_v })),
                    ("map", 1) => f.map(|(p, b)| parse_quote!({ let vx_s = #r; let mut vx_v = Vec::new(); for vx_x in vx_s { let #p = vx_x; vx_v.push(#b); } vx_v })),
                    ("filter", 1) => f.map(|(p, b)| { let l = byref(&p); parse_quote!({ let vx_s = #r; let mut vx_v = Vec::new(); for vx_x in vx_s { let vx_k = { #l #b }; if vx_k { vx_v.push(vx_x); } } vx_v }) }),
                    ("take_while", 1) => f.map(|(p, b)| { let l = byref(&p); parse_quote!({ let vx_s = #r; let mut vx_v = Vec::new(); let mut vx_on = true; for vx_x in vx_s { if vx_on { let vx_k = { #l #b }; if vx_k { vx_v.push(vx_x); } else { vx_on = false; } } } vx_v }) }),
                    ("skip_while", 1) => f.map(|(p, b)| { let l = byref(&p); parse_quote!({ let vx_s = #r; let mut vx_v = Vec::new(); let mut vx_on = false; for vx_x in vx_s { if !vx_on { let vx_k = { #l #b }; if !vx_k { vx_on = true; } } if vx_on { vx_v.push(vx_x); } } vx_v }) }),
                    ("flatten", 0) => Some(parse_quote!(vx_flatten(#r))),
                    ("find", 1) => f.map(|(p, b)| { let l = byref(&p); parse_quote!({ let vx_s = #r; let mut vx_r = None; for vx_x in vx_s { if vx_r.is_none() { let vx_k = { #l #b }; if vx_k { vx_r = Some(vx_x); } } } vx_r }) }),
                    ("find_map", 1) => f.map(|(p, b)| parse_quote!({ let vx_s = #r; let mut vx_r = None; for vx_x in vx_s { if vx_r.is_none() { let #p = vx_x; vx_r = #b; } } vx_r })),
                    ("any", 1) => f.map(|(p, b)| parse_quote!({ let vx_s = #r; let mut vx_b = false; for vx_x in vx_s { if !vx_b { let #p = vx_x; vx_b = #b; } } vx_b })),
                    ("all", 1) => f.map(|(p, b)| parse_quote!({ let vx_s = #r; let mut vx_b = true; for vx_x in vx_s { if vx_b { let #p = vx_x; vx_b = #b; } } vx_b })),
                    ("position", 1) => f.map(|(p, b)| parse_quote!({ let vx_s = #r; let mut vx_r: Option<usize> = None; let mut vx_i: usize = 0; for vx_x in vx_s { if vx_r.is_none() { let #p = vx_x; if #b { vx_r = Some(vx_i); } else { vx_i = vx_i + 1; } } } vx_r })),
                    ("last", 0) => Some(parse_quote!(vx_last(#r))),
                    ("next", 0) => Some(parse_quote!(vx_first(#r))),
                    ("count", 0) => Some(parse_quote!((#r).len())),
                    ("nth", 1) => lit.map(|l| parse_quote!(vx_nth(#r, #l))),
                    ("skip", 1) => lit.map(|l| parse_quote!(vx_skip(#r, #l))),
                    ("take", 1) => lit.map(|l| parse_quote!(vx_take(#r, #l))),
                    ("copied", 0) => Some(parse_quote!(vx_copied(#r))),
                    ("collect", 0) => Some(parse_quote!(vx_collect(#r))),
                    ("rev", 0) => Some(parse_quote!(vx_rev(#r))),
                    _ => None,
                };
                if let Some(n) = new {
                    *self.applied.entry(format!("iterator adapter {name} as a loop or vector")).or_insert(0) += 1;
                    self.n += 1;
                    *e = n;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `?` in the body of an Option closure: `|x| f(e?)` -> `|x| match e { Some(vx_q) => f(vx_q), None => None }`
pub struct Quest;
impl VisitMut for Quest {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method != "and_then" && m.method != "filter_map" && m.method != "find_map" {
                return;
            }
            if let Some(Expr::Closure(c)) = m.args.first_mut() {
                struct Take(Option<Expr>, usize);
                impl VisitMut for Take {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if matches!(e, Expr::Closure(_)) {
                            return;
                        }
                        visit_mut::visit_expr_mut(self, e);
                        if let Expr::Try(t) = e {
                            self.1 += 1;
                            if self.0.is_none() {
                                self.0 = Some((*t.expr).clone());
                                *e = parse_quote!(vx_q);
                            }
                        }
                    }
                }
                let mut t = Take(None, 0);
                let mut b = (*c.body).clone();
                if matches!(b, Expr::MethodCall(_)) {
                    t.visit_expr_mut(&mut b);
                    if let (Some(x), 1) = (t.0, t.1) {
                        c.body = Box::new(parse_quote!(match #x { Some(vx_q) => #b, None => None }));
                    }
                }
            }
        }
    }
}

/// locals of a body that hold strings: bound to `.text()`, `.name()`, `.as_str()` or a string literal
pub fn string_locals(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            let name = match &l.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                },
                _ => None,
            };
            if let (Some(n), Some(i)) = (name, &l.init) {
                if StrEq::stringy(&i.expr, &self.0) {
                    self.0.push(n);
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// comparisons with string literals, string locals and with `.text()`, `.name()`, `.as_str()`
#[derive(Default)]
pub struct StrEq {
    pub strings: Vec<String>,
}
impl StrEq {
    fn stringy(e: &Expr, strings: &[String]) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
            Expr::MethodCall(m) => m.args.is_empty() && ["text", "name", "as_str"].contains(&m.method.to_string().as_str()),
            Expr::Reference(r) => Self::stringy(&r.expr, strings),
            Expr::Paren(r) => Self::stringy(&r.expr, strings),
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| strings.iter().any(|s| i == s)),
            _ => false,
        }
    }
}
impl VisitMut for StrEq {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            let neg = match b.op {
                BinOp::Eq(_) => false,
                BinOp::Ne(_) => true,
                _ => return,
            };
            if Self::stringy(&b.left, &self.strings) || Self::stringy(&b.right, &self.strings) {
                let (l, r) = (&b.left, &b.right);
                *e = if neg { parse_quote!(!vx_str_eq(&#l, &#r)) } else { parse_quote!(vx_str_eq(&#l, &#r)) };
            }
        }
    }
}

/// expands the named item macros of a file (parameters without repetitions)
pub fn expand_items(items: Vec<Item>, names: &[String]) -> Vec<Item> {
    use proc_macro2::{TokenStream, TokenTree};
    use std::collections::BTreeMap;
    let mut defs: BTreeMap<String, (Vec<String>, TokenStream)> = BTreeMap::new();
    for i in &items {
        if let Item::Macro(m) = i {
            if let Some(id) = &m.ident {
                if names.contains(&id.to_string()) {
                    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if let (Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) = (t.first(), t.get(3)) {
                        let mut ps = vec![];
                        let at: Vec<TokenTree> = a.stream().into_iter().collect();
                        for w in at.windows(2) {
                            if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) {
                                if p.as_char() == '$' {
                                    ps.push(i.to_string());
                                }
                            }
                        }
                        defs.insert(id.to_string(), (ps, b.stream()));
                    }
                }
            }
        }
    }
    fn sub(ts: TokenStream, b: &BTreeMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) {
                if p.as_char() == '$' {
                    if let Some(x) = b.get(&id.to_string()) {
                        out.extend(x.clone());
                        i += 2;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), b)))),
                t => out.push(t.clone()),
            }
            i += 1;
        }
        out.into_iter().collect()
    }
    let mut out = vec![];
    for i in items {
        if let Item::Macro(m) = &i {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if let (None, Some((ps, body))) = (&m.ident, defs.get(&n)) {
                let mut args: Vec<TokenStream> = vec![TokenStream::new()];
                for t in m.mac.tokens.clone() {
                    match &t {
                        TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()),
                        t => args.last_mut().unwrap().extend([t.clone()]),
                    }
                }
                let b: BTreeMap<String, TokenStream> = ps.iter().cloned().zip(args).collect();
                if let Ok(f) = parse2::<File>(sub(body.clone(), &b)) {
                    out.extend(f.items);
                    continue;
                }
            }
        }
        out.push(i);
    }
    let _ = Span::call_site();
    out
}

/// CamelCase -> SCREAMING_SNAKE_CASE
pub fn screaming(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('_');
        }
        o.push(c.to_ascii_uppercase());
    }
    o
}

/// the string literal handed to `Regex::new` in the initialiser of a static
pub fn regex_literal(repo: &str, path: &str, name: &str) -> Option<String> {
    let text = std::fs::read_to_string(format!("{repo}/{path}")).ok()?;
    let file = parse_file(&text).ok()?;
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Regex::new") {
                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = c.args.first() {
                    self.0.push(s.value());
                }
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    for i in &file.items {
        if let Item::Static(s) = i {
            if s.ident == name {
                let mut v = V(vec![]);
                syn::visit::Visit::visit_expr(&mut v, &s.expr);
                if v.0.len() == 1 {
                    return v.0.pop();
                }
            }
        }
    }
    None
}

/// `let f = if c { P } else { Q }; … f(x)` with function paths: `let f = c; … if f { P(x) } else { Q(x) }`;
/// `[a, b].contains(&x)`: a disjunction
#[derive(Default)]
pub struct FnSelect {
    pub sel: Vec<(String, Expr, Expr, Expr)>,
    pub mutable: Vec<String>,
}
/// every name bound as `mut`
pub fn mutable_names(f: &Signature, b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.mutability.is_some() {
                self.0.push(p.ident.to_string());
            }
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_signature(&mut v, f);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
fn sole(b: &Block) -> Option<&Expr> {
    match &b.stmts[..] {
        [Stmt::Expr(e, None)] => Some(e),
        _ => None,
    }
}
impl VisitMut for FnSelect {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for i in 0..b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let id = match &l.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                };
                if let (Some(id), Some(init)) = (id, &l.init) {
                    if let Expr::If(f) = &*init.expr {
                        if let (Some(p @ Expr::Path(_)), Some((_, els))) = (sole(&f.then_branch), &f.else_branch) {
                            if let Expr::Block(eb) = &**els {
                                if let Some(q @ Expr::Path(_)) = sole(&eb.block) {
                                    let two = |e: &Expr| matches!(e, Expr::Path(p) if p.path.segments.len() > 1);
                                    let mut rest = TokenCount(id.clone(), 0, 0);
                                    for s in &b.stmts[i + 1..] {
                                        syn::visit::Visit::visit_stmt(&mut rest, s);
                                    }
                                    if two(p) && two(q) && rest.1 > 0 && rest.1 == rest.2 {
                                        found = Some((id, p.clone(), q.clone(), (*f.cond).clone()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let Some((id, p, q, c)) = found {
                let v = Ident::new(&id, Span::call_site());
                b.stmts[i] = parse_quote!(let #v: bool = #c;);
                // an immutable condition is repeated instead, so that loops need not carry the equality
                let same = match &c {
                    Expr::Path(x) if x.path.get_ident().is_some_and(|x| !self.mutable.contains(&x.to_string())) => c.clone(),
                    _ => parse_quote!(#v),
                };
                self.sel.push((id, p, q, same));
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some((_, t, f, v)) = self.sel.iter().find(|s| p.path.is_ident(&s.0)) {
                    let a = &c.args;
                    *e = parse_quote!((if #v { #t(#a) } else { #f(#a) }));
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "contains" && m.args.len() == 1 {
                if let (Expr::Array(a), Expr::Reference(x)) = (&*m.receiver, &m.args[0]) {
                    let x = &x.expr;
                    if a.elems.iter().all(|l| matches!(l, Expr::Lit(_))) && !a.elems.is_empty() {
                        let mut it = a.elems.iter();
                        let f = it.next().unwrap();
                        let mut r: Expr = parse_quote!(#x == #f);
                        for y in it {
                            r = parse_quote!(#r || #x == #y);
                        }
                        *e = parse_quote!((#r));
                    }
                }
            }
        }
    }
}
/// uses of an identifier, and uses as a called function
struct TokenCount(String, usize, usize);
impl<'a> syn::visit::Visit<'a> for TokenCount {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(&self.0) {
            self.1 += 1;
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.is_ident(&self.0) {
                self.2 += 1;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
}

/// the names of the rules in RULE_DEFINITIONS, in order, from the literals their `name` functions return
pub fn rule_table(repo: &str) -> Option<Vec<String>> {
    let dir = format!("{repo}/crates/ludtwig/src/check");
    let file = parse_file(&std::fs::read_to_string(format!("{dir}/rules.rs")).ok()?).ok()?;
    let mut types = vec![];
    for i in &file.items {
        let (id, e) = match i {
            Item::Static(s) => (&s.ident, &s.expr),
            Item::Const(s) => (&s.ident, &s.expr),
            _ => continue,
        };
        if id == "RULE_DEFINITIONS" {
            let Expr::Reference(r) = &**e else { return None };
            let Expr::Array(a) = &*r.expr else { return None };
            for x in &a.elems {
                let Expr::Reference(x) = x else { return None };
                let Expr::Path(x) = &*x.expr else { return None };
                types.push(x.path.segments.last()?.ident.to_string());
            }
        }
    }
    let mut names = std::collections::BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(format!("{dir}/rules")).ok()?.flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        if f.extension().is_none_or(|e| e != "rs") {
            continue;
        }
        for i in parse_file(&std::fs::read_to_string(&f).ok()?).ok()?.items {
            if let Item::Impl(im) = i {
                if im.trait_.as_ref().is_some_and(|t| t.1.segments.last().is_some_and(|s| s.ident == "Rule")) {
                    for it in &im.items {
                        if let ImplItem::Fn(f) = it {
                            if f.sig.ident == "name" {
                                if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = sole(&f.block) {
                                    names.insert(im.self_ty.to_token_stream().to_string(), s.value());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if types.is_empty() {
        return None;
    }
    types.iter().map(|t| names.get(t).cloned()).collect()
}
pub fn rule_table_text(names: &[String]) -> String {
    let n = names.len();
    let mut t = String::from("/// the names of RULE_DEFINITIONS, in order (from the source)\nspec fn rule_names() -> Seq<Seq<char>> { seq![\n");
    for x in names {
        t.push_str(&format!("    {x:?}@,\n"));
    }
    t.push_str("] }\n");
    t.push_str(&format!("uninterp spec fn rule_defs() -> Seq<VxRule>;\n#[verifier::external_body]\nproof fn ax_rule_defs()\n    ensures rule_defs().len() == {n}, forall|i: int| 0 <= i < {n} ==> (#[trigger] rule_defs()[i]).nm() == rule_names()[i],\n{{ }}\n#[verifier::external_body]\nfn vx_rule_definitions() -> (r: &'static Vec<VxRule>)\n    ensures r@ == rule_defs(),\n{{ unimplemented!() }}\n"));
    // distinctness, one lemma per name
    for (i, x) in names.iter().enumerate() {
        t.push_str(&format!("proof fn rule_name_{i}_differs(j: int)\n    requires {i} < j < {n},\n    ensures rule_names()[j] != {x:?}@,\n{{\n    reveal_strlit({x:?});\n"));
        for (j, y) in names.iter().enumerate().skip(i + 1) {
            let d = x.chars().zip(y.chars()).position(|(a, b)| a != b);
            t.push_str(&format!("    if j == {j} {{ reveal_strlit({y:?}); "));
            if x.chars().count() == y.chars().count() {
                t.push_str(&format!("assert({x:?}@[{0}] != {y:?}@[{0}]); ", d.unwrap_or(0)));
            } else {
                t.push_str(&format!("assert({x:?}@.len() != {y:?}@.len()); "));
            }
            t.push_str("}\n");
        }
        t.push_str("}\n");
    }
    t.push_str(&format!("/// no two rules have the same name\nproof fn rule_names_differ(i: int, j: int)\n    requires 0 <= i < j < {n},\n    ensures rule_names()[i] != rule_names()[j],\n{{\n"));
    for i in 0..n {
        t.push_str(&format!("    if i == {i} {{ rule_name_{i}_differs(j); }}\n"));
    }
    t.push_str("}\n");
    t
}
