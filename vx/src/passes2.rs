//! Further mechanical rewriting passes: types, effects, early returns in closures, patterns.
use crate::model::*;
use crate::passes::*;
use crate::unit::Unit;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// `@retype A ==> B`: type expressions
pub struct Retype {
    pub rules: Vec<(Vec<TokenTree>, TokenStream, String)>,
    pub applied: BTreeSet<String>,
}
impl Retype {
    pub fn new(u: &Unit) -> Self {
        let rules = u
            .retypes
            .iter()
            .map(|(a, b)| {
                let at: TokenStream = a.parse().unwrap();
                (at.into_iter().collect(), b.parse().unwrap(), format!("type {a} ==> {b}"))
            })
            .collect();
        Retype { rules, applied: BTreeSet::new() }
    }
}
impl VisitMut for Retype {
    fn visit_type_param_bound_mut(&mut self, t: &mut TypeParamBound) {
        let toks: Vec<TokenTree> = t.to_token_stream().into_iter().collect();
        for (p, r, n) in &self.rules {
            if let Some(b) = match_toks(p, &toks, &Binds::new()) {
                if let Ok(x) = parse2::<TypeParamBound>(subst(r.clone(), &b)) {
                    self.applied.insert(n.clone());
                    *t = x;
                    return;
                }
            }
        }
        visit_mut::visit_type_param_bound_mut(self, t);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let toks: Vec<TokenTree> = t.to_token_stream().into_iter().collect();
        for (p, r, n) in &self.rules {
            if let Some(b) = match_toks(p, &toks, &Binds::new()) {
                if let Ok(x) = parse2::<Type>(subst(r.clone(), &b)) {
                    self.applied.insert(n.clone());
                    *t = x;
                    break;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// the value of a block whose early `return`s are in statement position becomes an expression:
/// `{ if c { return a; } rest }` -> `{ if c { a } else { rest } }`
pub fn unreturn(b: &Block) -> Option<Block> {
    for (i, s) in b.stmts.iter().enumerate() {
        if !has_ret_stmt(s) {
            continue;
        }
        let rest = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
        let mut out = b.stmts[..i].to_vec();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.clone()?;
                if has_ret_expr(&e) {
                    return None;
                }
                out.push(Stmt::Expr(*e, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::If(x), semi) => {
                if i + 1 == b.stmts.len() && semi.is_none() {
                    // tail position
                    let e = unret_tail(&Expr::If(x.clone()))?;
                    out.push(Stmt::Expr(e, None));
                    return Some(Block { brace_token: b.brace_token, stmts: out });
                }
                if x.else_branch.is_some() || has_ret_expr(&x.cond) {
                    return None;
                }
                if !matches!(x.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                    return None;
                }
                let t = unreturn(&x.then_branch)?;
                let e = if has_ret_block(&rest) { unreturn(&rest)? } else { rest };
                let c = &x.cond;
                let n: Expr = parse_quote!(if #c #t else #e);
                out.push(Stmt::Expr(n, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(e @ (Expr::Match(_) | Expr::Block(_)), None) if i + 1 == b.stmts.len() => {
                out.push(Stmt::Expr(unret_tail(e)?, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Local(l) => {
                // `let PAT = E else { return X; };`
                let init = l.init.as_ref()?;
                if has_ret_expr(&init.expr) {
                    return None;
                }
                let (_, d) = init.diverge.as_ref()?;
                let d = match &**d {
                    Expr::Block(b) => unreturn(&b.block)?,
                    _ => return None,
                };
                let e = if has_ret_block(&rest) { unreturn(&rest)? } else { rest };
                let (p, x) = (&l.pat, &init.expr);
                let n: Expr = parse_quote!(if let #p = #x #e else #d);
                out.push(Stmt::Expr(n, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            _ => return None,
        }
    }
    Some(b.clone())
}
fn unret_tail(e: &Expr) -> Option<Expr> {
    if !has_ret_expr(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => r.expr.as_ref().map(|e| (**e).clone()),
        Expr::Block(b) if b.label.is_none() => {
            let n = unreturn(&b.block)?;
            Some(parse_quote!(#n))
        }
        Expr::If(x) => {
            if has_ret_expr(&x.cond) {
                return None;
            }
            let mut x = x.clone();
            x.then_branch = unreturn(&x.then_branch)?;
            if let Some((t, e)) = &x.else_branch {
                x.else_branch = Some((*t, Box::new(unret_tail(e)?)));
            }
            Some(Expr::If(x))
        }
        Expr::Match(m) => {
            if has_ret_expr(&m.expr) {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                a.body = Box::new(unret_tail(&a.body)?);
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}
fn has_ret_expr(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(e);
    h.0
}
fn has_ret_stmt(s: &Stmt) -> bool {
    let mut h = HasReturn(false);
    h.visit_stmt(s);
    h.0
}
fn has_ret_block(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}

/// early returns in closures; `for` patterns; string literal patterns
pub struct Shape;
impl VisitMut for Shape {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Closure(c) => {
                if let Expr::Block(b) = &*c.body {
                    if has_ret_block(&b.block) {
                        if let Some(n) = unreturn(&b.block) {
                            c.body = Box::new(parse_quote!(#n));
                        }
                    }
                }
            }
            Expr::ForLoop(f) => {
                if !matches!(&*f.pat, Pat::Ident(_) | Pat::Wild(_)) {
                    let p = (*f.pat).clone();
                    *f.pat = parse_quote!(vx_e);
                    f.body.stmts.insert(0, parse_quote!(let #p = vx_e;));
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                if let Some((x, pat, guard)) = matches_parts(&m.mac) {
                    if guard.is_none() && pat_has_str(&pat) {
                        let (p, cond) = str_pat(&pat, &mut 0);
                        *e = parse_quote!(match #x { #p => #cond, _ => false });
                    }
                }
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| pat_has_str(&a.pat)) {
                    // if-chain on a scrutinee that is a plain string
                    let x = &m.expr;
                    let mut acc: Option<Expr> = None;
                    let mut ok = true;
                    for a in m.arms.iter().rev() {
                        if a.guard.is_some() {
                            ok = false;
                            break;
                        }
                        let b = &a.body;
                        match &a.pat {
                            Pat::Wild(_) if acc.is_none() => acc = Some((**b).clone()),
                            p @ (Pat::Lit(_) | Pat::Or(_)) if acc.is_some() => {
                                let mut n = 0;
                                let (sp, c) = str_pat(p, &mut n);
                                if sp.to_token_stream().to_string() != "vx_s0" {
                                    ok = false;
                                    break;
                                }
                                let rest = acc.take().unwrap();
                                acc = Some(parse_quote!(if #c { #b } else { #rest }));
                            }
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if let (true, Some(a)) = (ok, acc) {
                        *e = parse_quote!({ let vx_s0 = #x; #a });
                    }
                }
            }
            _ => {}
        }
    }
}

struct MatchesArgs(Expr, Pat, Option<Expr>);
impl syn::parse::Parse for MatchesArgs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let e: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>();
        Ok(MatchesArgs(e, p, g))
    }
}
pub fn matches_parts(m: &Macro) -> Option<(Expr, Pat, Option<Expr>)> {
    parse2::<MatchesArgs>(m.tokens.clone()).ok().map(|a| (a.0, a.1, a.2))
}
fn pat_has_str(p: &Pat) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_lit_str(&mut self, _: &'a LitStr) {
            self.0 = true;
        }
    }
    let mut f = F(false);
    f.visit_pat(p);
    f.0
}
/// a pattern with string literals -> pattern binding the strings, and the condition on them
fn str_pat(p: &Pat, n: &mut usize) -> (Pat, Expr) {
    match p {
        Pat::Lit(l) => {
            let id: Ident = Ident::new(&format!("vx_s{n}"), proc_macro2::Span::call_site());
            *n += 1;
            (parse_quote!(#id), parse_quote!(vx_str_eq(#id, #l)))
        }
        Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(_))) => {
            let id: Ident = Ident::new(&format!("vx_s{n}"), proc_macro2::Span::call_site());
            *n += 1;
            let mut c: Option<Expr> = None;
            for l in &o.cases {
                c = Some(match c {
                    None => parse_quote!(vx_str_eq(#id, #l)),
                    Some(c) => parse_quote!(#c || vx_str_eq(#id, #l)),
                });
            }
            let c = c.unwrap();
            (parse_quote!(#id), parse_quote!((#c)))
        }
        Pat::TupleStruct(t) => {
            let mut t = t.clone();
            let mut c: Expr = parse_quote!(true);
            for x in t.elems.iter_mut() {
                let (np, nc) = str_pat(x, n);
                *x = np;
                if nc.to_token_stream().to_string() != "true" {
                    c = if c.to_token_stream().to_string() == "true" { nc } else { parse_quote!(#c && #nc) };
                }
            }
            (Pat::TupleStruct(t), c)
        }
        Pat::Tuple(t) => {
            let mut t = t.clone();
            let mut c: Expr = parse_quote!(true);
            for x in t.elems.iter_mut() {
                let (np, nc) = str_pat(x, n);
                *x = np;
                if nc.to_token_stream().to_string() != "true" {
                    c = if c.to_token_stream().to_string() == "true" { nc } else { parse_quote!(#c && #nc) };
                }
            }
            (Pat::Tuple(t), c)
        }
        Pat::Paren(q) => str_pat(&q.pat, n),
        Pat::Reference(r) => str_pat(&r.pat, n),
        p => (p.clone(), parse_quote!(true)),
    }
}

/// `continue` in `for` bodies (Verus has none): nesting, or a flag when the jump is deeper
pub struct Uncontinue(usize);
impl Uncontinue {
    pub fn new() -> Self {
        Uncontinue(0)
    }
    fn block(&mut self, b: &Block, flag: &Ident, used: &mut bool) -> Block {
        Block { brace_token: b.brace_token, stmts: self.stmts(false, &b.stmts, flag, used) }
    }
    fn stmts(&mut self, top: bool, ss: &[Stmt], flag: &Ident, used: &mut bool) -> Vec<Stmt> {
        let mut out = vec![];
        for (i, s) in ss.iter().enumerate() {
            if !has_cont(s) {
                out.push(s.clone());
                continue;
            }
            let rest = &ss[i + 1..];
            match s {
                Stmt::Expr(Expr::Continue(_), _) => {
                    *used = true;
                    out.push(parse_quote!(#flag = false;));
                    return out;
                }
                Stmt::Expr(Expr::If(x), _) if top && x.else_branch.is_none() && ends_cont(&x.then_branch) => {
                    let n = x.then_branch.stmts.len();
                    let t = Block { brace_token: x.then_branch.brace_token, stmts: x.then_branch.stmts[..n - 1].to_vec() };
                    let r = self.stmts(top, rest, flag, used);
                    let c = &x.cond;
                    let e: Expr = parse_quote!(if #c #t else { #(#r)* });
                    out.push(Stmt::Expr(e, Some(Default::default())));
                    return out;
                }
                Stmt::Local(l) if top && l.init.as_ref().is_some_and(|i| i.diverge.is_some()) => {
                    let init = l.init.as_ref().unwrap();
                    if let Expr::Block(d) = &*init.diverge.as_ref().unwrap().1 {
                        if ends_cont(&d.block) {
                            let n = d.block.stmts.len();
                            let t = &d.block.stmts[..n - 1];
                            let r = self.stmts(top, rest, flag, used);
                            let (p, x) = (&l.pat, &init.expr);
                            let e: Expr = parse_quote!(if let #p = #x { #(#r)* } else { #(#t)* });
                            out.push(Stmt::Expr(e, Some(Default::default())));
                            return out;
                        }
                    }
                    out.push(s.clone());
                }
                Stmt::Local(l) if top => {
                    // `let x = match e { P => v, Q => continue };`
                    if let Some(LocalInit { expr, diverge: None, .. }) = &l.init {
                        if let Expr::Match(m) = &**expr {
                            let good: Vec<&Arm> = m.arms.iter().filter(|a| !cont_expr(&a.body)).collect();
                            if good.len() == 1 && good[0].guard.is_none() {
                                let r = self.stmts(top, rest, flag, used);
                                let mut m = m.clone();
                                for a in m.arms.iter_mut() {
                                    if cont_expr(&a.body) {
                                        a.body = Box::new(parse_quote!({}));
                                    } else {
                                        let (p, v) = (&l.pat, &a.body);
                                        a.body = Box::new(parse_quote!({ let #p = #v; #(#r)* }));
                                    }
                                }
                                out.push(Stmt::Expr(Expr::Match(m), Some(Default::default())));
                                return out;
                            }
                        }
                    }
                    out.push(s.clone());
                }
                Stmt::Expr(e, semi) => {
                    let e = self.expr(e, flag, used);
                    out.push(Stmt::Expr(e, *semi));
                    if !rest.is_empty() {
                        let r = self.stmts(top, rest, flag, used);
                        out.push(parse_quote!(if #flag { #(#r)* }));
                    }
                    return out;
                }
                s => out.push(s.clone()),
            }
        }
        out
    }
    fn expr(&mut self, e: &Expr, flag: &Ident, used: &mut bool) -> Expr {
        match e {
            Expr::Continue(_) => {
                *used = true;
                parse_quote!({ #flag = false; })
            }
            Expr::Block(b) => {
                let mut b = b.clone();
                b.block = self.block(&b.block, flag, used);
                Expr::Block(b)
            }
            Expr::If(x) => {
                let mut x = x.clone();
                x.then_branch = self.block(&x.then_branch, flag, used);
                if let Some((t, e)) = &x.else_branch {
                    x.else_branch = Some((*t, Box::new(self.expr(e, flag, used))));
                }
                Expr::If(x)
            }
            Expr::Match(m) => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    a.body = Box::new(self.expr(&a.body, flag, used));
                }
                Expr::Match(m)
            }
            e => e.clone(),
        }
    }
}
fn cont_expr(e: &Expr) -> bool {
    match e {
        Expr::Continue(c) => c.label.is_none(),
        Expr::Block(b) => b.block.stmts.len() == 1 && ends_cont(&b.block),
        _ => false,
    }
}
fn ends_cont(b: &Block) -> bool {
    let n = b.stmts.len();
    n > 0 && matches!(&b.stmts[n - 1], Stmt::Expr(Expr::Continue(c), _) if c.label.is_none()) && !b.stmts[..n - 1].iter().any(has_cont)
}
fn has_cont(s: &Stmt) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
            self.0 |= c.label.is_none();
        }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F(false);
    f.visit_stmt(s);
    f.0
}
impl VisitMut for Uncontinue {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        if f.body.stmts.iter().any(has_cont) {
            let flag = Ident::new(&format!("vx_go{}", self.0), proc_macro2::Span::call_site());
            self.0 += 1;
            let mut used = false;
            let stmts = f.body.stmts.clone();
            f.body.stmts = self.stmts(true, &stmts, &flag, &mut used);
            if used {
                f.body.stmts.insert(0, parse_quote!(let mut #flag = true;));
            }
        }
    }
}

/// `@effect name Type fns..`: ghost state threaded through the listed functions
pub fn effects(p: &mut Program, u: &Unit) {
    for (name, ty, fns) in &u.effects {
        let id = Ident::new(name, proc_macro2::Span::call_site());
        let t: Type = parse_str(ty).unwrap();
        struct Calls<'a>(&'a BTreeSet<String>, Ident);
        impl VisitMut for Calls<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let id = &self.1;
                match e {
                    Expr::Call(c) => {
                        if let Expr::Path(q) = &*c.func {
                            let l = q.path.segments.last().unwrap().ident.to_string();
                            if self.0.contains(&l) {
                                c.args.push(parse_quote!(#id));
                            }
                        }
                    }
                    Expr::MethodCall(c) if self.0.contains(&c.method.to_string()) => c.args.push(parse_quote!(#id)),
                    _ => {}
                }
            }
        }
        let set: BTreeSet<String> = fns.iter().cloned().collect();
        for f in p.fns.iter_mut() {
            Calls(&set, id.clone()).visit_block_mut(&mut f.block);
            if set.contains(&f.sig.ident.to_string()) {
                f.sig.inputs.push(parse_quote!(#id: &mut #t));
            }
        }
        p.note(format!("ghost state `{name}: {ty}` added to {}", fns.join(", ")));
    }
}

/// parameters written as patterns other than an identifier
pub fn flat_params(_p: &mut Program) {
    let _ = quote!();
}
