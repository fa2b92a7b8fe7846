//! Mechanical rewriting passes: Rust -> the subset Verus accepts. Each pass preserves the meaning
//! of the code; what is dropped is recorded in `Program::notes`.
use crate::collect::{cfg_of, Cfg};
use crate::model::*;
use crate::unit::Unit;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ cleaning

pub struct Clean;
impl VisitMut for Clean {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            let keep = match &s {
                Stmt::Local(l) => cfg_of(&l.attrs),
                Stmt::Item(i) => match i {
                    Item::Fn(f) => cfg_of(&f.attrs),
                    Item::Static(f) => cfg_of(&f.attrs),
                    Item::Use(_) => Cfg::Drop,
                    _ => Cfg::Keep,
                },
                Stmt::Expr(e, _) => cfg_of(expr_attrs(e)),
                Stmt::Macro(m) => cfg_of(&m.attrs),
            };
            if let Cfg::Keep = keep {
                b.stmts.push(s);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_field_mut(&mut self, f: &mut Field) {
        visit_mut::visit_field_mut(self, f);
        f.attrs.clear();
        f.vis = Visibility::Inherited;
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        let fields = std::mem::take(&mut e.fields);
        for f in fields {
            if let Cfg::Keep = cfg_of(&f.attrs) {
                e.fields.push(f);
            }
        }
        if e.rest.is_some() && !e.fields.empty_or_trailing() {
            e.fields.push_punct(Default::default());
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
}

pub fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(b) => &b.attrs,
        Expr::If(b) => &b.attrs,
        Expr::MethodCall(b) => &b.attrs,
        Expr::Call(b) => &b.attrs,
        Expr::Assign(b) => &b.attrs,
        Expr::Macro(b) => &b.attrs,
        Expr::Loop(b) => &b.attrs,
        Expr::While(b) => &b.attrs,
        Expr::ForLoop(b) => &b.attrs,
        Expr::Match(b) => &b.attrs,
        _ => &[],
    }
}

// ------------------------------------------------------------------ paths

/// Flattens `crate::a::b::Item`, `super::Item`, `module::item` to `Item` (all extracted code lives
/// in one module).
pub struct FlattenPaths<'a> {
    pub modules: &'a BTreeSet<String>,
}
impl FlattenPaths<'_> {
    fn fix(&self, p: &mut Path) {
        loop {
            if p.segments.len() < 2 {
                break;
            }
            let f = p.segments[0].ident.to_string();
            if f == "crate" || f == "super" || f == "self" || self.modules.contains(&f) {
                let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                p.segments = rest.into_iter().collect();
                p.leading_colon = None;
            } else {
                break;
            }
        }
    }
}
impl VisitMut for FlattenPaths<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.fix(p);
        visit_mut::visit_path_mut(self, p);
    }
}

// ------------------------------------------------------------------ macros

pub struct Macros<'a> {
    pub tmacro: &'a BTreeMap<String, String>,
    pub unsupported: Vec<String>,
    pub notes: Vec<String>,
    pub n: usize,
    /// format strings are kept as concatenations
    pub keep: bool,
}

struct ArgList(Vec<Expr>);
impl syn::parse::Parse for ArgList {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(input)?;
        Ok(ArgList(p.into_iter().collect()))
    }
}

pub fn mac_args(m: &Macro) -> Option<Vec<Expr>> {
    parse2::<ArgList>(m.tokens.clone()).ok().map(|a| a.0)
}

pub fn pe(s: &str) -> Expr {
    parse_str::<Expr>(s).unwrap_or_else(|e| panic!("vx internal: cannot parse expr `{s}`: {e}"))
}

impl Macros<'_> {
    fn t_expand(&mut self, m: &Macro) -> Option<String> {
        if m.path.segments.last().map(|s| s.ident == "T").unwrap_or(false) {
            let k = m.tokens.to_string();
            match self.tmacro.get(&k) {
                Some(v) => return Some(v.clone()),
                None => self.unsupported.push(format!("unknown T![{k}]")),
            }
        }
        None
    }
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if let Some(t) = self.t_expand(m) {
            return Some(pe(&t));
        }
        match name.as_str() {
            "debug_assert" | "assert" => {
                let a = mac_args(m)?;
                let e = &a[0];
                self.n += 1;
                Some(parse2(quote!({ let vx_c: bool = #e; __vx_assert!(vx_c); })).unwrap())
            }
            "debug_assert_eq" | "assert_eq" => {
                let a = mac_args(m)?;
                let (x, y) = (&a[0], &a[1]);
                let amp = |e: &Expr| -> TokenStream {
                    match e {
                        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                            quote!(& #e)
                        }
                        _ => quote!(& #e),
                    }
                };
                let (x, y) = (amp(x), amp(y));
                Some(parse2(quote!({ let vx_a = #x; let vx_b = #y; __vx_assert!(*vx_a == *vx_b); })).unwrap())
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(pe("vx_unreachable()")),
            "format" if self.keep => match self.concat(m) {
                Some(e) => Some(e),
                None => {
                    self.unsupported.push("format string of this shape".into());
                    None
                }
            },
            "print" | "println" | "eprint" | "eprintln" if self.keep => {
                let id = Ident::new(&format!("vx_{name}"), proc_macro2::Span::call_site());
                match self.concat(m) {
                    Some(e) => Some(parse_quote!(#id(#e))),
                    None => {
                        self.unsupported.push("format string of this shape".into());
                        None
                    }
                }
            }
            "format" => {
                self.notes.push("format!(..) replaced by an arbitrary String (message text is not modelled)".into());
                // arguments that can return early or fail are still evaluated
                let mut keep: Vec<Expr> = vec![];
                for a in mac_args(m).into_iter().flatten().skip(1) {
                    let s = a.to_token_stream().to_string();
                    if s.contains('?') || s.contains('[') || s.contains("unwrap") || s.contains("expect (") {
                        keep.push(a);
                    }
                }
                for k in keep.iter_mut() {
                    self.visit_expr_mut(k);
                }
                if keep.is_empty() { Some(pe("vx_opaque_string()")) } else { Some(parse_quote!({ #(let vx_f = &#keep;)* vx_opaque_string() })) }
            }
            "println" | "eprintln" | "print" | "eprint" => {
                self.notes.push("print macros dropped".into());
                Some(pe("vx_opaque_print()"))
            }
            "vec" | "matches" | "__vx_assert" | "__vx_loop" | "__vx_proof" | "__vx_contract" => None,
            _ => {
                self.unsupported.push(format!("macro {name}!"));
                None
            }
        }
    }
}

impl Macros<'_> {
    /// `format!("a{}b{x}", y)` -> concatenation of the pieces
    fn concat(&mut self, m: &Macro) -> Option<Expr> {
        let mut args = mac_args(m)?;
        let lit = match args.first()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        for a in args.iter_mut() {
            self.visit_expr_mut(a);
        }
        let mut rest = args.into_iter().skip(1);
        let mut pieces: Vec<Expr> = vec![];
        let mut cur = String::new();
        let mut it = lit.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    cur.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    cur.push('}');
                }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => name.push(c),
                        }
                    }
                    let e: Expr = if name.is_empty() {
                        rest.next()?
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        pe(&name)
                    } else {
                        return None;
                    };
                    if !cur.is_empty() {
                        let l = std::mem::take(&mut cur);
                        pieces.push(parse_quote!(vx_lit(#l)));
                    }
                    pieces.push(parse_quote!(vx_show(&#e)));
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() || pieces.is_empty() {
            pieces.push(parse_quote!(vx_lit(#cur)));
        }
        let mut it = pieces.into_iter();
        let mut acc = it.next()?;
        for p in it {
            acc = parse_quote!(vx_cat(#acc, #p));
        }
        Some(acc)
    }
}
impl VisitMut for Macros<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(r) = self.expand(&m.mac) {
                *e = r;
            } else {
                self.inner_tokens(&mut m.mac);
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Macro(m) = p {
            if let Some(t) = self.t_expand(&m.mac) {
                let path: Path = parse_str(&t).unwrap();
                *p = Pat::Path(ExprPath { attrs: vec![], qself: None, path });
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(r) = self.expand(&m.mac) {
                let semi = match &r {
                    Expr::Block(_) => None,
                    _ => m.semi_token.or(None),
                };
                let is_assert = matches!(m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default().as_str(), "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq");
                if is_assert {
                    *s = parse_quote!(let vx_u: () = #r;);
                    visit_mut::visit_stmt_mut(self, s);
                    return;
                }
                let r_is_unr = r.to_token_stream().to_string().contains("vx_unreachable");
                *s = Stmt::Expr(r, if r_is_unr { m.semi_token } else { semi });
            } else {
                self.inner_tokens(&mut m.mac);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

impl Macros<'_> {
    /// expands T! inside the tokens of macros that are kept (`vec!`, `matches!`)
    fn inner_tokens(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name.starts_with("__vx") {
            return;
        }
        m.tokens = self.expand_t_tokens(m.tokens.clone());
    }
    pub fn expand_t_tokens(&mut self, ts: TokenStream) -> TokenStream {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < toks.len() {
            if let TokenTree::Ident(id) = &toks[i] {
                if id == "T" {
                    if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (toks.get(i + 1), toks.get(i + 2)) {
                        if p.as_char() == '!' {
                            let k = g.stream().to_string();
                            if let Some(v) = self.tmacro.get(&k) {
                                let v: TokenStream = v.parse().unwrap();
                                out.extend(v);
                                i += 3;
                                continue;
                            }
                        }
                    }
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let inner = self.expand_t_tokens(g.stream());
                    out.push(TokenTree::Group(Group::new(g.delimiter(), inner)));
                }
                t => out.push(t.clone()),
            }
            i += 1;
        }
        out.into_iter().collect()
    }
}

// ------------------------------------------------------------------ token-pattern rewrites

pub struct Rewrites {
    pub rules: Vec<(Vec<TokenTree>, TokenStream, String, Option<std::mem::Discriminant<Expr>>)>,
    pub applied: BTreeMap<String, usize>,
}

impl Rewrites {
    pub fn new(u: &Unit) -> Self {
        let rules = u
            .rewrites
            .iter()
            .map(|(a, b)| {
                let at: TokenStream = a.parse().unwrap_or_else(|_| panic!("rewrite lhs {a}"));
                let bt: TokenStream = b.parse().unwrap_or_else(|_| panic!("rewrite rhs {b}"));
                let d = parse2::<Expr>(at.clone()).ok().map(|e| std::mem::discriminant(&e));
                (at.into_iter().collect(), bt, format!("{a} ==> {b}"), d)
            })
            .collect();
        Rewrites { rules, applied: BTreeMap::new() }
    }
}

fn is_meta(t: &TokenTree) -> Option<String> {
    if let TokenTree::Ident(i) = t {
        let s = i.to_string();
        if s.starts_with("__") && s.len() > 2 {
            return Some(s);
        }
    }
    None
}

pub type Binds = BTreeMap<String, Vec<TokenTree>>;

fn toks_eq(a: &[TokenTree], b: &[TokenTree]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (TokenTree::Group(g), TokenTree::Group(h)) => {
                g.delimiter() == h.delimiter()
                    && toks_eq(
                        &g.stream().into_iter().collect::<Vec<_>>(),
                        &h.stream().into_iter().collect::<Vec<_>>(),
                    )
            }
            (x, y) => x.to_string() == y.to_string(),
        })
}

pub fn match_toks(pat: &[TokenTree], inp: &[TokenTree], b: &Binds) -> Option<Binds> {
    if pat.is_empty() {
        return if inp.is_empty() { Some(b.clone()) } else { None };
    }
    if let Some(m) = is_meta(&pat[0]) {
        if let Some(prev) = b.get(&m) {
            if inp.len() >= prev.len() && toks_eq(prev, &inp[..prev.len()]) {
                return match_toks(&pat[1..], &inp[prev.len()..], b);
            }
            return None;
        }
        // `__id*` metavariables bind exactly one token, others one or more
        let single = m.starts_with("__id");
        let max = if single { 1.min(inp.len()) } else { inp.len() };
        for k in 1..=max {
            let mut nb = b.clone();
            nb.insert(m.clone(), inp[..k].to_vec());
            if let Some(r) = match_toks(&pat[1..], &inp[k..], &nb) {
                return Some(r);
            }
        }
        return None;
    }
    if inp.is_empty() {
        return None;
    }
    match (&pat[0], &inp[0]) {
        (TokenTree::Group(g), TokenTree::Group(h)) if g.delimiter() == h.delimiter() => {
            let gp: Vec<TokenTree> = g.stream().into_iter().collect();
            let hp: Vec<TokenTree> = h.stream().into_iter().collect();
            // try all bindings for the group content (first match only)
            let nb = match_toks(&gp, &hp, b)?;
            match_toks(&pat[1..], &inp[1..], &nb)
        }
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => None,
        (x, y) if x.to_string() == y.to_string() => match_toks(&pat[1..], &inp[1..], b),
        _ => None,
    }
}

pub fn subst(ts: TokenStream, b: &Binds) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for t in ts {
        if let Some(m) = is_meta(&t) {
            if let Some(v) = b.get(&m) {
                out.extend(v.iter().cloned());
                continue;
            }
        }
        match t {
            TokenTree::Group(g) => {
                let inner = subst(g.stream(), b);
                out.push(TokenTree::Group(Group::new(g.delimiter(), inner)));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

impl VisitMut for Rewrites {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..4 {
            let toks: Vec<TokenTree> = e.to_token_stream().into_iter().collect();
            if toks.len() > 400 {
                break;
            }
            let mut hit = None;
            let here = std::mem::discriminant(&*e);
            for (pat, rhs, name, d) in &self.rules {
                if d.map(|d| d != here).unwrap_or(false) {
                    continue;
                }
                if let Some(b) = match_toks(pat, &toks, &Binds::new()) {
                    hit = Some((subst(rhs.clone(), &b), name.clone()));
                    break;
                }
            }
            match hit {
                Some((ts, name)) => {
                    *self.applied.entry(name.clone()).or_insert(0) += 1;
                    *e = parse2::<Expr>(ts.clone())
                        .unwrap_or_else(|err| panic!("rewrite {name} gave unparsable `{ts}`: {err}"));
                }
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ------------------------------------------------------------------ type inference (shallow)

pub struct Sigs {
    pub rets: BTreeMap<String, Option<Type>>,
    pub fields: BTreeMap<(String, String), Type>,
    pub enums: BTreeSet<String>,
    pub params: BTreeMap<String, Vec<Type>>,
    pub methods_by_name: BTreeMap<String, Vec<String>>,
}

pub fn base_name(t: &Type) -> String {
    match t {
        Type::Reference(r) => base_name(&r.elem),
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Slice(_) => "[]".into(),
        _ => String::new(),
    }
}

pub fn type_arg(t: &Type) -> Option<Type> {
    match t {
        Type::Reference(r) => type_arg(&r.elem),
        Type::Path(p) => match &p.path.segments.last()?.arguments {
            PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            }),
            _ => None,
        },
        _ => None,
    }
}

pub fn pt(s: &str) -> Type {
    parse_str::<Type>(s).unwrap()
}

pub fn fn_inputs(sig: &Signature, self_name: &str) -> Vec<(String, Type, bool)> {
    // (name, type, is_self)
    sig.inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => {
                let t = if r.reference.is_some() {
                    if r.mutability.is_some() {
                        pt(&format!("&mut {self_name}"))
                    } else {
                        pt(&format!("&{self_name}"))
                    }
                } else {
                    pt(self_name)
                };
                ("self".to_string(), t, true)
            }
            FnArg::Typed(t) => {
                let n = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => "_".into(),
                };
                (n, (*t.ty).clone(), false)
            }
        })
        .collect()
}

impl Sigs {
    pub fn build(p: &Program) -> Sigs {
        let mut s = Sigs {
            rets: Default::default(),
            fields: Default::default(),
            enums: Default::default(),
            params: Default::default(),
            methods_by_name: Default::default(),
        };
        for f in &p.fns {
            let r = match &f.sig.output {
                ReturnType::Default => None,
                ReturnType::Type(_, t) => {
                    let mut t = (**t).clone();
                    if base_name(&t) == "Self" {
                        if let Some(i) = f.impl_idx {
                            t = p.impls[i].self_ty.clone();
                        }
                    }
                    Some(t)
                }
            };
            s.rets.insert(f.key.clone(), r);
            let sn = f.impl_idx.map(|i| p.impls[i].self_name.clone()).unwrap_or_default();
            s.params
                .insert(f.key.clone(), fn_inputs(&f.sig, if sn.is_empty() { "Self" } else { &sn }).into_iter().map(|x| x.1).collect());
            if f.impl_idx.is_some() {
                s.methods_by_name.entry(f.sig.ident.to_string()).or_default().push(f.key.clone());
            }
        }
        for st in &p.structs {
            for f in &st.fields {
                if let Some(i) = &f.ident {
                    s.fields.insert((st.ident.to_string(), i.to_string()), f.ty.clone());
                }
            }
        }
        for e in &p.enums {
            s.enums.insert(e.ident.to_string());
        }
        s
    }

    pub fn infer(&self, e: &Expr, env: &BTreeMap<String, Type>) -> Option<Type> {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Bool(_) => Some(pt("bool")),
                Lit::Int(i) => Some(if i.suffix().is_empty() { pt("i32") } else { pt(i.suffix()) }),
                Lit::Str(_) => Some(pt("&'static str")),
                Lit::Char(_) => Some(pt("char")),
                _ => None,
            },
            Expr::Paren(p) => self.infer(&p.expr, env),
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    return env.get(&n).cloned();
                }
                let f = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                if self.enums.contains(&f) {
                    return Some(pt(&f));
                }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.last().map(|s| s == "Some").unwrap_or(false) {
                        let inner = self.infer(&c.args[0], env)?;
                        return Some(pt(&format!("Option<{}>", inner.to_token_stream())));
                    }
                    let key = if segs.len() >= 2 {
                        format!("{}::{}", segs[segs.len() - 2], segs[segs.len() - 1])
                    } else {
                        segs[0].clone()
                    };
                    if let Some(r) = self.rets.get(&key) {
                        return r.clone();
                    }
                    if segs.len() >= 2 && self.enums.contains(&segs[segs.len() - 2]) {
                        return Some(pt(&segs[segs.len() - 2]));
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "to_owned" | "to_string" | "to_ascii_lowercase" | "to_lowercase" | "to_ascii_uppercase" => {
                        return Some(pt("String"))
                    }
                    "is_some" | "is_none" | "is_empty" | "contains" | "starts_with" | "ends_with" | "is_match"
                    | "is_some_and" | "is_none_or" => return Some(pt("bool")),
                    "len" | "count" => return Some(pt("usize")),
                    _ => {}
                }
                let rt = self.infer(&m.receiver, env);
                if let Some(rt) = &rt {
                    let bn = base_name(rt);
                    if let Some(r) = self.rets.get(&format!("{bn}::{name}")) {
                        return r.clone();
                    }
                    match name.as_str() {
                        "clone" => {
                            let mut t = rt.clone();
                            while let Type::Reference(r) = t {
                                t = *r.elem;
                            }
                            return Some(t);
                        }
                        "unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" => return type_arg(rt),
                        "map" if bn == "Option" => {
                            if let Some(Expr::Closure(c)) = m.args.first() {
                                let mut env2 = env.clone();
                                if let (Some(Pat::Ident(i)), Some(t)) = (c.inputs.first(), type_arg(rt)) {
                                    env2.insert(i.ident.to_string(), t);
                                }
                                let t = self.infer(&c.body, &env2)?;
                                return Some(pt(&format!("Option<{}>", t.to_token_stream())));
                            }
                        }
                        "or_else" if bn == "Option" => return Some(rt.clone()),
                        "get" | "last" | "first" | "pop" => {
                            let t = type_arg(rt);
                            return Some(match t {
                                Some(t) => pt(&format!("Option<{}>", t.to_token_stream())),
                                None => pt("Option<()>"),
                            });
                        }
                        _ => {}
                    }
                }
                if let Some(v) = self.methods_by_name.get(&name) {
                    if v.len() == 1 {
                        return self.rets.get(&v[0]).cloned().flatten();
                    }
                }
                None
            }
            Expr::Field(f) => {
                let t = self.infer(&f.base, env)?;
                if let Member::Named(n) = &f.member {
                    return self.fields.get(&(base_name(&t), n.to_string())).cloned();
                }
                None
            }
            Expr::Reference(r) => {
                let t = self.infer(&r.expr, env)?;
                Some(pt(&format!("&{}", t.to_token_stream())))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => Some(pt("bool")),
                UnOp::Deref(_) => {
                    let t = self.infer(&u.expr, env)?;
                    match t {
                        Type::Reference(r) => Some(*r.elem),
                        t => Some(t),
                    }
                }
                _ => self.infer(&u.expr, env),
            },
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_)
                | BinOp::And(_) | BinOp::Or(_) => Some(pt("bool")),
                _ => self.infer(&b.left, env).or_else(|| self.infer(&b.right, env)),
            },
            Expr::Try(t) => type_arg(&self.infer(&t.expr, env)?),
            Expr::Block(b) => self.infer_block(&b.block, env),
            Expr::If(i) => self.infer_block(&i.then_branch, env).or_else(|| {
                i.else_branch.as_ref().and_then(|(_, e)| self.infer(e, env))
            }),
            Expr::Match(m) => {
                let mut none = false;
                for a in &m.arms {
                    if a.body.to_token_stream().to_string() == "None" {
                        none = true;
                        continue;
                    }
                    let mut env2 = env.clone();
                    if let (Some(t), Pat::TupleStruct(ts)) = (self.infer(&m.expr, env), &a.pat) {
                        if let (Some(Pat::Ident(i)), Some(inner)) = (ts.elems.first(), type_arg(&t)) {
                            env2.insert(i.ident.to_string(), inner);
                        }
                    }
                    if let Some(t) = self.infer(&a.body, &env2) {
                        return Some(t);
                    }
                }
                let _ = none;
                None
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last()?.ident.to_string();
                match n.as_str() {
                    "matches" => Some(pt("bool")),
                    "format" => Some(pt("String")),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn infer_block(&self, b: &Block, env: &BTreeMap<String, Type>) -> Option<Type> {
        let mut env = env.clone();
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                bind_local(self, l, &mut env);
            }
        }
        match b.stmts.last()? {
            Stmt::Expr(e, None) => self.infer(e, &env),
            _ => None,
        }
    }
}

pub fn bind_local(s: &Sigs, l: &Local, env: &mut BTreeMap<String, Type>) {
    let (pat, ty) = match &l.pat {
        Pat::Type(t) => (&*t.pat, Some((*t.ty).clone())),
        p => (p, None),
    };
    let ty = ty.or_else(|| l.init.as_ref().and_then(|i| s.infer(&i.expr, env)));
    match pat {
        Pat::Ident(i) => {
            if let Some(t) = ty {
                env.insert(i.ident.to_string(), t);
            } else {
                env.remove(&i.ident.to_string());
            }
        }
        Pat::Tuple(tp) => {
            if let Some(Type::Tuple(tt)) = ty {
                for (p, t) in tp.elems.iter().zip(tt.elems.iter()) {
                    if let Pat::Ident(i) = p {
                        env.insert(i.ident.to_string(), t.clone());
                    }
                }
            }
        }
        Pat::TupleStruct(ts) => {
            if let (Some(Pat::Ident(i)), Some(t)) = (ts.elems.first(), ty.as_ref().and_then(type_arg)) {
                env.insert(i.ident.to_string(), t);
            }
        }
        _ => {}
    }
}

/// flow-insensitive environment of a function body
pub struct EnvBuilder<'a> {
    pub sigs: &'a Sigs,
    pub env: BTreeMap<String, Type>,
}
impl<'ast> Visit<'ast> for EnvBuilder<'_> {
    fn visit_local(&mut self, l: &'ast Local) {
        bind_local(self.sigs, l, &mut self.env);
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_let(&mut self, l: &'ast ExprLet) {
        if let Pat::TupleStruct(ts) = &*l.pat {
            let t = self.sigs.infer(&l.expr, &self.env);
            if let (Some(Pat::Ident(i)), Some(t)) = (ts.elems.first(), t.as_ref().and_then(type_arg)) {
                self.env.insert(i.ident.to_string(), t);
            }
        }
        syn::visit::visit_expr_let(self, l);
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        let t = self.sigs.infer(&m.expr, &self.env);
        for a in &m.arms {
            if let Pat::TupleStruct(ts) = &a.pat {
                if let (Some(Pat::Ident(i)), Some(t)) = (ts.elems.first(), t.as_ref().and_then(type_arg)) {
                    self.env.insert(i.ident.to_string(), t);
                }
            }
        }
        syn::visit::visit_expr_match(self, m);
    }
}

pub fn fn_env(p: &Program, s: &Sigs, f: &FnItem) -> BTreeMap<String, Type> {
    let sn = f.impl_idx.map(|i| p.impls[i].self_name.clone()).unwrap_or_else(|| "Self".into());
    let mut b = EnvBuilder { sigs: s, env: BTreeMap::new() };
    for (n, t, _) in fn_inputs(&f.sig, &sn) {
        b.env.insert(n, t);
    }
    b.visit_block(&f.block);
    b.env
}

// ------------------------------------------------------------------ desugaring

pub struct Desugar<'a> {
    pub sigs: &'a Sigs,
    pub env: BTreeMap<String, Type>,
}

fn closure_parts(e: &Expr) -> Option<(Option<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() > 1 {
            return None;
        }
        let pat = c.inputs.first().map(|p| match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        });
        let mut has_ret = HasReturn(false);
        has_ret.visit_expr(&c.body);
        if has_ret.0 {
            return None;
        }
        return Some((pat, (*c.body).clone()));
    }
    None
}

pub struct HasReturn(pub bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

fn recv_is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            matches!(
                n.as_str(),
                "iter" | "into_iter" | "chars" | "char_indices" | "bytes" | "lines" | "filter" | "take" | "skip"
                    | "enumerate" | "children" | "children_with_tokens" | "descendants" | "ancestors" | "split" | "rev"
                    | "iter_mut" | "zip" | "chain" | "filter_map" | "flat_map" | "peekable"
            ) || (n == "map" && recv_is_iter(&m.receiver))
        }
        _ => false,
    }
}

impl VisitMut for Desugar<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // Option combinators with closures
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let recv = (*m.receiver).clone();
            let rt = self.sigs.infer(&recv, &self.env);
            let optionish = match &rt {
                Some(t) => base_name(t) == "Option",
                None => !recv_is_iter(&recv),
            };
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            let new: Option<Expr> = match (name.as_str(), args.len()) {
                ("is_some_and", 1) => closure_parts(&args[0])
                    .and_then(|(p, b)| p.map(|p| parse_quote!(match #recv { Some(#p) => #b, None => false }))),
                ("is_none_or", 1) => closure_parts(&args[0])
                    .and_then(|(p, b)| p.map(|p| parse_quote!(match #recv { Some(#p) => #b, None => true }))),
                ("map", 1) if optionish => closure_parts(&args[0])
                    .and_then(|(p, b)| p.map(|p| parse_quote!(match #recv { Some(#p) => Some(#b), None => None }))),
                ("and_then", 1) if optionish => closure_parts(&args[0])
                    .and_then(|(p, b)| p.map(|p| parse_quote!(match #recv { Some(#p) => #b, None => None }))),
                ("filter", 1) if optionish => closure_parts(&args[0]).and_then(|(p, b)| {
                    p.map(|p| {
                        parse_quote!(match #recv { Some(vx_v) => { let vx_k = { let #p = &vx_v; #b }; if vx_k { Some(vx_v) } else { None } }, None => None })
                    })
                }),
                ("or_else", 1) if optionish => closure_parts(&args[0])
                    .and_then(|(p, b)| if p.is_none() { Some(parse_quote!(match #recv { Some(vx_v) => Some(vx_v), None => #b })) } else { None }),
                ("unwrap_or_else", 1) if optionish => closure_parts(&args[0])
                    .and_then(|(p, b)| if p.is_none() { Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => #b })) } else { None }),
                ("map_or", 2) if optionish => {
                    let d = args[0].clone();
                    closure_parts(&args[1])
                        .and_then(|(p, b)| p.map(|p| parse_quote!(match #recv { Some(#p) => #b, None => #d })))
                }
                ("map_or_else", 2) if optionish => {
                    let d = closure_parts(&args[0]);
                    closure_parts(&args[1]).and_then(|(p, b)| match (p, d) {
                        (Some(p), Some((None, d))) => Some(parse_quote!(match #recv { Some(#p) => #b, None => #d })),
                        _ => None,
                    })
                }
                _ => None,
            };
            if let Some(n) = new {
                *e = n;
            }
        }
        // range loops: the end is evaluated once
        if let Expr::ForLoop(fl) = e {
            if let Expr::Range(r) = &*fl.expr {
                if let (Some(end), RangeLimits::HalfOpen(_)) = (&r.end, &r.limits) {
                    let simple = matches!(&**end, Expr::Lit(_) | Expr::Path(_));
                    if !simple {
                        let end = end.clone();
                        let mut fl2 = fl.clone();
                        if let Expr::Range(r2) = &mut *fl2.expr {
                            r2.end = Some(parse_quote!(vx_end));
                        }
                        *e = parse_quote!({ let vx_end = #end; #fl2 });
                    }
                }
            }
        }
        // while let
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b) = (&l.pat, &l.expr, &w.body);
                let lab = &w.label;
                let n: Expr = parse_quote!(#lab loop { match #x { #p => #b _ => { break; } } });
                *e = n;
            }
        }
        // let chains
        if let Expr::If(i) = e {
            let mut conds = vec![];
            flatten_and(&i.cond, &mut conds);
            let has_let = conds.iter().any(|c| matches!(c, Expr::Let(_)));
            if conds.len() > 1 && has_let {
                let then = &i.then_branch;
                let els = i.else_branch.as_ref().map(|(_, e)| (**e).clone());
                let mut acc: Expr = parse_quote!(#then);
                for c in conds.into_iter().rev() {
                    acc = match &els {
                        Some(x) => parse_quote!(if #c { #acc } else { #x }),
                        None => parse_quote!(if #c { #acc }),
                    };
                }
                *e = acc;
            }
        }
    }
}

fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
        }
        e => out.push(e.clone()),
    }
}

// ------------------------------------------------------------------ hoisting nested items

pub struct RenameCalls<'a> {
    pub map: &'a BTreeMap<String, String>,
    pub shadow: BTreeSet<String>,
}
impl VisitMut for RenameCalls<'_> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            if self.shadow.contains(&n) {
                return;
            }
            if let Some(r) = self.map.get(&n) {
                p.path.segments[0].ident = Ident::new(r, p.path.segments[0].ident.span());
            }
        }
    }
}

pub fn hoist(p: &mut Program) {
    let mut i = 0;
    while i < p.fns.len() {
        let mut map = BTreeMap::new();
        let mut newf = vec![];
        let parent = p.fns[i].key.replace("::", "_");
        let f = &mut p.fns[i];
        let mut kept = vec![];
        for s in std::mem::take(&mut f.block.stmts) {
            match s {
                Stmt::Item(Item::Fn(n)) => {
                    let new = format!("{parent}__{}", n.sig.ident);
                    map.insert(n.sig.ident.to_string(), new.clone());
                    newf.push((new, n));
                }
                Stmt::Item(Item::Static(st)) => {
                    p.statics.push(StaticItem { name: st.ident.to_string(), ty: *st.ty, expr: *st.expr });
                }
                // a constant with a literal value is a local
                Stmt::Item(Item::Const(st)) if matches!(*st.expr, Expr::Lit(_)) => {
                    let (id, ty, ex) = (&st.ident, &st.ty, &st.expr);
                    kept.push(parse_quote!(let #id: #ty = #ex;));
                }
                Stmt::Item(Item::Const(st)) => {
                    p.statics.push(StaticItem { name: st.ident.to_string(), ty: *st.ty, expr: *st.expr });
                }
                s => kept.push(s),
            }
        }
        f.block.stmts = kept;
        if !map.is_empty() {
            let shadow: BTreeSet<String> =
                fn_inputs(&f.sig, "Self").into_iter().map(|x| x.0).filter(|n| map.contains_key(n)).collect();
            RenameCalls { map: &map, shadow }.visit_block_mut(&mut f.block);
            let (file, impl_free) = (f.file.clone(), f.key.clone());
            for (new, mut n) in newf {
                let shadow: BTreeSet<String> =
                    fn_inputs(&n.sig, "Self").into_iter().map(|x| x.0).filter(|k| map.contains_key(k)).collect();
                RenameCalls { map: &map, shadow }.visit_block_mut(&mut n.block);
                let line = n.sig.ident.span().start().line;
                n.sig.ident = Ident::new(&new, n.sig.ident.span());
                p.fns.push(FnItem {
                    key: new.clone(),
                    impl_idx: None,
                    sig: n.sig,
                    block: *n.block,
                    file: file.clone(),
                    line,
                    kind: "real",
                    origin: format!("{impl_free}/{new}"),
                    requires_not_at_end: false,
                    leading_asserts: vec![],
                });
            }
        }
        i += 1;
    }
}

// ------------------------------------------------------------------ closures and function pointers

struct Uses {
    used: BTreeSet<String>,
    mutated: BTreeSet<String>,
    bound: BTreeSet<String>,
}
fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Field(f) => root_ident(&f.base),
        Expr::Index(f) => root_ident(&f.expr),
        Expr::Paren(f) => root_ident(&f.expr),
        Expr::Unary(f) => root_ident(&f.expr),
        _ => None,
    }
}
impl<'ast> Visit<'ast> for Uses {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if p.path.segments.len() == 1 {
            self.used.insert(p.path.segments[0].ident.to_string());
        }
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.bound.insert(p.ident.to_string());
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        if let Some(r) = root_ident(&a.left) {
            self.mutated.insert(r);
        }
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        if matches!(
            b.op,
            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)
        ) {
            if let Some(r) = root_ident(&b.left) {
                self.mutated.insert(r);
            }
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, b: &'ast ExprReference) {
        if b.mutability.is_some() {
            if let Some(r) = root_ident(&b.expr) {
                self.mutated.insert(r);
            }
        }
        syn::visit::visit_expr_reference(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let n = m.method.to_string();
        if matches!(n.as_str(), "push" | "push_str" | "extend" | "insert" | "extend_from_slice" | "pop" | "clear" | "take" | "replace" | "remove") {
            if let Some(r) = root_ident(&m.receiver) {
                self.mutated.insert(r);
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        // identifiers inside kept macros count as uses
        fn walk(ts: TokenStream, out: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    TokenTree::Ident(i) => {
                        out.insert(i.to_string());
                    }
                    TokenTree::Group(g) => walk(g.stream(), out),
                    _ => {}
                }
            }
        }
        walk(m.tokens.clone(), &mut self.used);
    }
}

struct DerefVars<'a> {
    vars: &'a BTreeSet<String>,
}
impl VisitMut for DerefVars<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 1 && self.vars.contains(&p.path.segments[0].ident.to_string()) {
                let id = p.path.segments[0].ident.clone();
                *e = parse_quote!((*#id));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn is_copyish(t: &Type, fnptr: &BTreeSet<String>) -> bool {
    match t {
        Type::Reference(r) => r.mutability.is_none(),
        Type::Path(_) => {
            let b = base_name(t);
            matches!(
                b.as_str(),
                "bool" | "usize" | "u8" | "u16" | "u32" | "u64" | "i32" | "i64" | "char" | "SyntaxKind" | "TextRange"
            ) || fnptr.contains(&b)
        }
        _ => false,
    }
}

struct HofInfo {
    closure_params: Vec<(usize, String, Option<Type>)>, // (arg position, param name, ret type)
}

fn hof_info(f: &FnItem) -> Option<HofInfo> {
    let mut bounds: BTreeMap<String, Option<Type>> = BTreeMap::new();
    let mut add = |name: String, b: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
        for x in b {
            if let TypeParamBound::Trait(t) = x {
                let s = t.path.segments.last().unwrap();
                if matches!(s.ident.to_string().as_str(), "Fn" | "FnMut" | "FnOnce") {
                    if let PathArguments::Parenthesized(pa) = &s.arguments {
                        let r = match &pa.output {
                            ReturnType::Default => None,
                            ReturnType::Type(_, t) => Some((**t).clone()),
                        };
                        bounds.insert(name.clone(), r);
                    }
                }
            }
        }
    };
    for g in &f.sig.generics.params {
        if let GenericParam::Type(t) = g {
            add(t.ident.to_string(), &t.bounds);
        }
    }
    if let Some(w) = &f.sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                add(base_name(&t.bounded_ty), &t.bounds);
            }
        }
    }
    let mut out = vec![];
    for (i, a) in f.sig.inputs.iter().enumerate() {
        if let FnArg::Typed(t) = a {
            let name = match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => continue,
            };
            match &*t.ty {
                Type::Path(p) => {
                    if let Some(r) = p.path.get_ident().and_then(|i| bounds.get(&i.to_string())) {
                        out.push((i, name, r.clone()));
                    }
                }
                Type::ImplTrait(it) => {
                    for x in &it.bounds {
                        if let TypeParamBound::Trait(t) = x {
                            let s = t.path.segments.last().unwrap();
                            if matches!(s.ident.to_string().as_str(), "Fn" | "FnMut" | "FnOnce") {
                                if let PathArguments::Parenthesized(pa) = &s.arguments {
                                    let r = match &pa.output {
                                        ReturnType::Default => None,
                                        ReturnType::Type(_, t) => Some((**t).clone()),
                                    };
                                    out.push((i, name.clone(), r));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(HofInfo { closure_params: out })
    }
}

struct CallSub<'a> {
    map: &'a BTreeMap<String, (Expr, Vec<String>)>,
}
impl VisitMut for CallSub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some((f, caps)) = p.path.get_ident().and_then(|i| self.map.get(&i.to_string())) {
                    c.func = Box::new(f.clone());
                    for k in caps {
                        c.args.push(pe(k));
                    }
                }
            }
        }
    }
}

struct Lifter<'a> {
    sigs: &'a Sigs,
    hofs: &'a BTreeMap<String, (FnItem, HofInfoPub)>,
    env: BTreeMap<String, Type>,
    derefs: BTreeSet<String>,
    caller: FnItem,
    n: usize,
    new_fns: Vec<FnItem>,
    unsupported: Vec<String>,
    fnptr: &'a BTreeSet<String>,
    notes: Vec<String>,
}

#[derive(Clone)]
pub struct HofInfoPub {
    pub closure_params: Vec<(usize, String, Option<Type>)>,
}

impl VisitMut for Lifter<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut done = false;
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let name = p.path.segments.last().unwrap().ident.to_string();
                if let Some((hof, info)) = self.hofs.get(&name) {
                    let (hof, info) = (hof.clone(), info.clone());
                    self.specialise(c, &hof, &info);
                    done = true;
                }
            }
        }
        if !done {
            visit_mut::visit_expr_mut(self, e);
        }
    }
}

impl Lifter<'_> {
    fn specialise(&mut self, c: &mut ExprCall, hof: &FnItem, info: &HofInfoPub) {
        let k = self.n;
        self.n += 1;
        let base = self.caller.key.replace("::", "_");
        let mut caps_all: Vec<(String, Type, bool)> = vec![]; // name, type, by_mut_ref
        let mut lifted: BTreeMap<String, (Expr, Vec<String>)> = BTreeMap::new();
        // captured variables of all closures of this call
        let mut per: Vec<(usize, String, Option<Type>, Expr, Vec<String>)> = vec![];
        for (pos, pname, ret) in &info.closure_params {
            let arg = c.args[*pos].clone();
            let mut names = vec![];
            if let Expr::Closure(cl) = &arg {
                let mut u = Uses { used: Default::default(), mutated: Default::default(), bound: Default::default() };
                for i in &cl.inputs {
                    u.visit_pat(i);
                }
                u.visit_expr(&cl.body);
                for v in &u.used {
                    if u.bound.contains(v) && !self.env.contains_key(v) {
                        continue;
                    }
                    if cl.inputs.iter().any(|i| matches!(i, Pat::Ident(x) if x.ident == v.as_str())) {
                        continue;
                    }
                    let declared_inside = u.bound.contains(v);
                    if declared_inside {
                        continue;
                    }
                    if let Some(t) = self.env.get(v) {
                        let m = u.mutated.contains(v);
                        names.push(v.clone());
                        if let Some(x) = caps_all.iter_mut().find(|x| x.0 == *v) {
                            x.2 |= m;
                        } else {
                            caps_all.push((v.clone(), t.clone(), m));
                        }
                    } else if u.mutated.contains(v) {
                        self.unsupported.push(format!("{}: type of captured variable `{v}` unknown", self.caller.key));
                    }
                }
            }
            per.push((*pos, pname.clone(), ret.clone(), arg, names));
        }
        let passing = |name: &str, t: &Type, m: bool| -> (String, Type, bool) {
            // (argument in the specialised hof / closure, param type, needs deref in the body)
            if m {
                (name.to_string(), pt(&format!("&mut {}", strip_ref(t).to_token_stream())), true)
            } else if is_copyish(t, self.fnptr) {
                (name.to_string(), t.clone(), false)
            } else {
                (name.to_string(), pt(&format!("&{}", t.to_token_stream())), true)
            }
        };
        for (pos, pname, ret, arg, names) in &per {
            match arg {
                Expr::Closure(cl) => {
                    let fname = format!("{base}__c{k}_{pos}");
                    let pvar = match cl.inputs.first() {
                        Some(Pat::Ident(i)) => i.ident.to_string(),
                        Some(Pat::Type(t)) => match &*t.pat {
                            Pat::Ident(i) => i.ident.to_string(),
                            _ => "vx_p".into(),
                        },
                        _ => "vx_p".into(),
                    };
                    let pid = Ident::new(&pvar, proc_macro2::Span::call_site());
                    let mut inputs: Vec<FnArg> = vec![parse_quote!(#pid: &mut Parser)];
                    let mut derefs = BTreeSet::new();
                    for n in names {
                        let (_, t, m) = caps_all.iter().find(|x| x.0 == *n).unwrap();
                        let (_, ty, d) = passing(n, t, *m);
                        let id = Ident::new(n, proc_macro2::Span::call_site());
                        inputs.push(parse_quote!(#id: #ty));
                        if d {
                            derefs.insert(n.clone());
                        }
                    }
                    let mut body: Expr = (*cl.body).clone();
                    DerefVars { vars: &derefs }.visit_expr_mut(&mut body);
                    let block: Block = match body {
                        Expr::Block(b) if b.label.is_none() => b.block,
                        e => {
                            if ret.is_none() {
                                parse_quote!({ #e; })
                            } else {
                                parse_quote!({ #e })
                            }
                        }
                    };
                    let id = Ident::new(&fname, proc_macro2::Span::call_site());
                    let sig: Signature = match ret {
                        Some(t) => parse_quote!(fn #id(#(#inputs),*) -> #t),
                        None => parse_quote!(fn #id(#(#inputs),*)),
                    };
                    let line = self.caller.line;
                    self.new_fns.push(FnItem {
                        key: fname.clone(),
                        impl_idx: None,
                        sig,
                        block,
                        file: self.caller.file.clone(),
                        line,
                        kind: "closure",
                        origin: format!("{}/closure{k}.{pos}", self.caller.origin),
                        requires_not_at_end: ret.is_none(),
                        leading_asserts: vec![],
                    });
                    lifted.insert(pname.clone(), (pe(&fname), names.clone()));
                }
                Expr::Path(_) => {
                    lifted.insert(pname.clone(), (arg.clone(), vec![]));
                }
                _ => self.unsupported.push(format!("{}: closure argument of {} is neither closure nor path", self.caller.key, hof.key)),
            }
        }
        // the specialised higher-order function
        let hname = format!("{}__{base}__{k}", hof.key.replace("::", "_"));
        let mut sig = hof.sig.clone();
        sig.ident = Ident::new(&hname, proc_macro2::Span::call_site());
        sig.generics = Generics::default();
        let mut inputs: Vec<FnArg> = vec![];
        let mut args: Vec<Expr> = vec![];
        for (i, a) in hof.sig.inputs.iter().enumerate() {
            if info.closure_params.iter().any(|x| x.0 == i) {
                continue;
            }
            let mut a = a.clone();
            if let FnArg::Typed(t) = &mut a {
                if base_name(&t.ty) == "Parser" {
                    t.ty = Box::new(pt("&mut Parser"));
                }
            }
            inputs.push(a);
            args.push(c.args[i].clone());
        }
        for (n, t, m) in &caps_all {
            let (_, ty, d) = passing(n, t, *m);
            let id = Ident::new(n, proc_macro2::Span::call_site());
            inputs.push(parse_quote!(#id: #ty));
            let ae: Expr = if self.derefs.contains(n) { parse_quote!((*#id)) } else { parse_quote!(#id) };
            args.push(if *m {
                parse_quote!(&mut #ae)
            } else if d {
                parse_quote!(&#ae)
            } else {
                ae
            });
        }
        sig.inputs = inputs.into_iter().collect();
        let mut block = hof.block.clone();
        CallSub { map: &lifted }.visit_block_mut(&mut block);
        self.new_fns.push(FnItem {
            key: hname.clone(),
            impl_idx: None,
            sig,
            block,
            file: hof.file.clone(),
            line: hof.line,
            kind: "hof",
            origin: format!("{} specialised at {}/{k}", hof.key, self.caller.origin),
            requires_not_at_end: false,
            leading_asserts: vec![],
        });
        self.notes.push(format!("closures passed to `{}` are lambda-lifted; the function is specialised per call site", hof.key));
        c.func = Box::new(pe(&hname));
        c.args = args.into_iter().collect();
        for a in c.args.iter_mut() {
            visit_mut::visit_expr_mut(self, a);
        }
    }
}

fn strip_ref(t: &Type) -> Type {
    match t {
        Type::Reference(r) if r.mutability.is_some() => (*r.elem).clone(),
        t => t.clone(),
    }
}

pub fn lift_closures(p: &mut Program) {
    let mut hofs: BTreeMap<String, (FnItem, HofInfoPub)> = BTreeMap::new();
    for f in &p.fns {
        if let Some(i) = hof_info(f) {
            hofs.insert(f.sig.ident.to_string(), (f.clone(), HofInfoPub { closure_params: i.closure_params }));
        }
    }
    if hofs.is_empty() {
        return;
    }
    let fnptr: BTreeSet<String> = p.aliases.iter().filter(|a| matches!(&*a.ty, Type::BareFn(_))).map(|a| a.ident.to_string()).collect();
    p.fns.retain(|f| !hofs.contains_key(&f.sig.ident.to_string()));
    let mut i = 0;
    while i < p.fns.len() {
        let sigs = Sigs::build(p);
        let env = fn_env(p, &sigs, &p.fns[i]);
        let derefs: BTreeSet<String> = if p.fns[i].kind == "closure" {
            // captured variables passed by reference were rewritten to (*x)
            fn_inputs(&p.fns[i].sig, "Self")
                .into_iter()
                .skip(1)
                .filter(|(_, t, _)| matches!(t, Type::Reference(r) if r.mutability.is_some()))
                .map(|x| x.0)
                .collect()
        } else {
            BTreeSet::new()
        };
        let mut l = Lifter {
            sigs: &sigs,
            hofs: &hofs,
            env,
            derefs,
            caller: p.fns[i].clone(),
            n: 0,
            new_fns: vec![],
            unsupported: vec![],
            fnptr: &fnptr,
            notes: vec![],
        };
        let mut b = p.fns[i].block.clone();
        l.visit_block_mut(&mut b);
        let (nf, un, no) = (l.new_fns, l.unsupported, l.notes);
        p.fns[i].block = b;
        p.fns.extend(nf);
        p.unsupported.extend(un);
        for n in no {
            p.note(n);
        }
        i += 1;
    }
}

struct FnPtr<'a> {
    alias: &'a str,
    fn_names: &'a BTreeSet<String>,
    env: BTreeMap<String, Type>,
    params: &'a BTreeMap<String, Vec<Type>>,
    used: BTreeSet<String>,
}
impl VisitMut for FnPtr<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if p.path.segments.len() == 1 {
                    if let Some(t) = self.env.get(&n) {
                        if base_name(t) == self.alias {
                            let id = p.path.segments[0].ident.clone();
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            let f = Ident::new(&format!("vx_call_{}", self.alias), id.span());
                            *e = parse_quote!(#f(#id #(, #args)*));
                            return;
                        }
                    }
                }
                if let Some(ps) = self.params.get(&n) {
                    for (i, t) in ps.iter().enumerate() {
                        if base_name(t) == self.alias {
                            if let Some(Expr::Path(ap)) = c.args.get(i) {
                                let an = ap.path.segments.last().unwrap().ident.to_string();
                                if ap.path.segments.len() == 1 && !self.env.contains_key(&an) && self.fn_names.contains(&an) {
                                    self.used.insert(an.clone());
                                    c.args[i] = pe(&format!("{}::{an}", self.alias));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn defunctionalize(p: &mut Program) {
    let al: Vec<ItemType> = p.aliases.iter().filter(|a| matches!(&*a.ty, Type::BareFn(_))).cloned().collect();
    for a in al {
        let alias = a.ident.to_string();
        let Type::BareFn(bf) = &*a.ty else { continue };
        let sigs = Sigs::build(p);
        let fn_names: BTreeSet<String> = p.fns.iter().filter(|f| f.impl_idx.is_none()).map(|f| f.key.clone()).collect();
        let mut used = BTreeSet::new();
        for i in 0..p.fns.len() {
            let env = fn_env(p, &sigs, &p.fns[i]);
            let mut v = FnPtr { alias: &alias, fn_names: &fn_names, env, params: &sigs.params, used: BTreeSet::new() };
            let mut b = p.fns[i].block.clone();
            v.visit_block_mut(&mut b);
            used.extend(v.used);
            p.fns[i].block = b;
        }
        p.aliases.retain(|x| x.ident != a.ident);
        if used.is_empty() {
            continue;
        }
        p.note(format!(
            "function-pointer type {alias} is defunctionalised: an enum over exactly the functions passed as values ({})",
            used.iter().cloned().collect::<Vec<_>>().join(", ")
        ));
        let id = Ident::new(&alias, a.ident.span());
        let vars: Vec<Ident> = used.iter().map(|u| Ident::new(u, id.span())).collect();
        let en: ItemEnum = parse_quote!(#[derive(Clone, Copy)] enum #id { #(#vars),* });
        p.enums.push(en);
        let cf = Ident::new(&format!("vx_call_{alias}"), id.span());
        let nargs = bf.inputs.len();
        let params: Vec<FnArg> = bf
            .inputs
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let n = if i == 0 { Ident::new("parser", id.span()) } else { Ident::new(&format!("a{i}"), id.span()) };
                let ty = &t.ty;
                parse_quote!(#n: #ty)
            })
            .collect();
        let names: Vec<Ident> = (0..nargs)
            .map(|i| if i == 0 { Ident::new("parser", id.span()) } else { Ident::new(&format!("a{i}"), id.span()) })
            .collect();
        let out = &bf.output;
        let sig: Signature = parse_quote!(fn #cf(vx_f: #id, #(#params),*) #out);
        let arms: Vec<TokenStream> = vars.iter().map(|v| quote!(#id::#v => #v(#(#names),*),)).collect();
        let block: Block = parse_quote!({ match vx_f { #(#arms)* } });
        p.fns.push(FnItem {
            key: cf.to_string(),
            impl_idx: None,
            sig,
            block,
            file: "(generated dispatcher)".into(),
            line: 0,
            kind: "real",
            origin: format!("dispatcher of {alias}"),
            requires_not_at_end: false,
            leading_asserts: vec![],
        });
        p.parse_fns = used.into_iter().collect();
    }
}

// ------------------------------------------------------------------ dropped statics

pub struct DroppedStatics<'a> {
    pub names: &'a BTreeSet<String>,
    pub notes: Vec<String>,
}
impl VisitMut for DroppedStatics<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    if self.names.contains(&i.to_string()) {
                        let n = m.method.to_string();
                        if matches!(n.as_str(), "is_match" | "contains") {
                            self.notes.push(format!("`{i}.{n}(..)` replaced by an arbitrary bool"));
                            *e = pe("vx_opaque_bool()");
                        }
                    }
                }
            }
        }
    }
}

pub fn group_paren(ts: TokenStream) -> TokenStream {
    let g = Group::new(Delimiter::Parenthesis, ts);
    TokenTree::Group(g).into()
}

/// `fn f(mut self)` -> `fn f(self)` with `let mut vx_self = self;`
pub fn mut_self(p: &mut Program) {
    fn ren(ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("vx_self", i.span())),
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), ren(g.stream()))),
                t => t,
            })
            .collect()
    }
    for f in p.fns.iter_mut() {
        let mut hit = false;
        for a in f.sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = a {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    hit = true;
                }
            }
        }
        if hit {
            let ts = ren(f.block.to_token_stream());
            let mut b: Block = parse2(ts).unwrap();
            b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
            f.block = b;
        }
    }
}
