//! Contract synthesis for functions that drive the parser (`&mut Parser` parameter or receiver).
//!
//! The contract follows from the types alone plus three analyses of the body:
//! - marker discipline: a `Marker` parameter is the innermost open marker, a returned one becomes it;
//! - progress: on which results (always / Some / None / true / false) at least one token was consumed,
//!   an optimistic abstract interpretation whose outcome Verus then has to accept;
//! - rank: a topological order of the calls made before anything was consumed, which together with the
//!   number of remaining tokens is the termination measure.
//! Nothing here is trusted: a wrong guess is a failed obligation.
use crate::model::*;
use crate::passes::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct AutoSpec {
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub attrs: Vec<String>,
    pub proofs: Vec<(String, String, String)>,
}

const PURE: &[&str] = &[
    "peek", "peek_token", "peek_nth_token", "get_pos", "at_set", "at", "at_following", "peek_next_non_trivia_kind", "at_twig_tag",
    "at_twig_block_open", "at_twig_block_close", "at_twig_var_open", "at_twig_comment_open", "at_following_content", "at_end",
];
const BUMPS: &[&str] = &["bump", "bump_as", "bump_next_n_as"];

#[derive(Clone, Copy, Debug, PartialEq)]
struct Sum {
    pos: bool,
    neg: bool,
}

#[derive(Clone, Copy, Debug)]
struct Out {
    pos: Option<bool>,
    neg: Option<bool>,
}
impl Out {
    fn v(st: bool) -> Out {
        Out { pos: Some(st), neg: None }
    }
    fn both(st: bool) -> Out {
        Out { pos: Some(st), neg: Some(st) }
    }
    fn dead() -> Out {
        Out { pos: None, neg: None }
    }
    fn join(self) -> Option<bool> {
        j(self.pos, self.neg)
    }
    fn or(self, o: Out) -> Out {
        Out { pos: j(self.pos, o.pos), neg: j(self.neg, o.neg) }
    }
}
fn j(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(x), Some(y)) => Some(x && y),
        (Some(x), None) | (None, Some(x)) => Some(x),
        _ => None,
    }
}

struct Info {
    key: String,
    p: String,
    idx: usize,
    pure_: bool,
}

struct Ai<'a> {
    p: String,
    sums: &'a BTreeMap<String, Sum>,
    pures: &'a BTreeSet<String>,
    edges: Vec<(String, bool)>,
    rets: Vec<Out>,
    brk: Vec<Vec<bool>>,
    loop_heads: Vec<bool>,
    needs_tok: bool,
    touched: bool,
    cond: usize,
}

fn path_name(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        return Some(p.path.segments.last().unwrap().ident.to_string());
    }
    None
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Reference(r) => strip(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip(&u.expr),
        e => e,
    }
}

impl Ai<'_> {
    fn is_p(&self, e: &Expr) -> bool {
        path_name(strip(e)).as_deref() == Some(&self.p)
    }
    fn seq(&mut self, es: &[&Expr], mut st: bool) -> Option<bool> {
        for e in es {
            st = self.ev(e, st).join()?;
        }
        Some(st)
    }
    fn block(&mut self, b: &Block, mut st: bool) -> Out {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        let o = self.ev(&init.expr, st);
                        if let Some((_, d)) = &init.diverge {
                            let (a, b) = self.split(&l.pat, o);
                            if let Some(x) = b {
                                self.ev(d, x);
                            }
                            match a {
                                Some(x) => st = x,
                                None => return Out::dead(),
                            }
                        } else {
                            match o.join() {
                                Some(x) => st = x,
                                None => return Out::dead(),
                            }
                        }
                    }
                }
                Stmt::Expr(e, None) if i + 1 == n => return self.ev(e, st),
                Stmt::Expr(e, _) => match self.ev(e, st).join() {
                    Some(x) => st = x,
                    None => return Out::dead(),
                },
                _ => {}
            }
        }
        Out::v(st)
    }
    /// states in which the pattern matches / does not match
    fn split(&self, p: &Pat, o: Out) -> (Option<bool>, Option<bool>) {
        let s = p.to_token_stream().to_string();
        if s.starts_with("Some") || s == "true" {
            (o.pos, if matches!(p, Pat::TupleStruct(t) if !irrefutable(&t.elems[0])) { o.join() } else { o.neg })
        } else if s == "None" || s == "false" {
            (o.neg, o.pos)
        } else {
            (o.join(), o.join())
        }
    }
    fn cond(&mut self, e: &Expr, st: bool) -> (Option<bool>, Option<bool>) {
        match e {
            Expr::Let(l) => {
                let o = self.ev(&l.expr, st);
                self.split(&l.pat, o)
            }
            _ => {
                let o = self.ev(e, st);
                (o.pos, o.neg)
            }
        }
    }
    fn call(&mut self, name: &str, st: bool) -> Out {
        if self.pures.contains(name) {
            return Out::both(st);
        }
        let s = self.sums[name];
        self.edges.push((name.to_string(), st));
        self.touch();
        Out { pos: Some(st || s.pos), neg: Some(st || s.neg) }
    }
    fn touch(&mut self) {
        self.touched = true;
    }
    fn ev(&mut self, e: &Expr, st: bool) -> Out {
        match e {
            Expr::Paren(p) => self.ev(&p.expr, st),
            Expr::Group(p) => self.ev(&p.expr, st),
            Expr::Block(b) => self.block(&b.block, st),
            Expr::Unsafe(b) => self.block(&b.block, st),
            Expr::If(i) => {
                let (t, f) = self.cond(&i.cond, st);
                self.cond += 1;
                let mut o = Out::dead();
                if let Some(t) = t {
                    o = self.block(&i.then_branch, t);
                }
                if let Some(f) = f {
                    o = match &i.else_branch {
                        Some((_, e)) => o.or(self.ev(e, f)),
                        None => o.or(Out::v(f)),
                    };
                }
                self.cond -= 1;
                o
            }
            Expr::Match(m) => {
                let o = self.ev(&m.expr, st);
                let mut rest = o;
                let mut out = Out::dead();
                self.cond += 1;
                for a in &m.arms {
                    let (mut t, f) = self.split(&a.pat, rest);
                    if let Some((_, g)) = &a.guard {
                        if let Some(x) = t {
                            t = self.cond(g, x).0;
                        }
                    } else {
                        let s = a.pat.to_token_stream().to_string();
                        if s.starts_with("Some") && irrefutable_some(&a.pat) || s == "true" {
                            rest = Out { pos: None, neg: f };
                        } else if s == "None" || s == "false" {
                            rest = Out { pos: f, neg: None };
                        }
                    }
                    if let Some(t) = t {
                        out = out.or(self.ev(&a.body, t));
                    }
                }
                self.cond -= 1;
                out
            }
            Expr::Binary(b) => match b.op {
                BinOp::And(_) => {
                    let (t, f) = self.cond(&b.left, st);
                    self.cond += 1;
                    let (t2, f2) = match t {
                        Some(t) => self.cond(&b.right, t),
                        None => (None, None),
                    };
                    self.cond -= 1;
                    Out { pos: t2, neg: j(f, f2) }
                }
                BinOp::Or(_) => {
                    let (t, f) = self.cond(&b.left, st);
                    self.cond += 1;
                    let (t2, f2) = match f {
                        Some(f) => self.cond(&b.right, f),
                        None => (None, None),
                    };
                    self.cond -= 1;
                    Out { pos: j(t, t2), neg: f2 }
                }
                _ => match self.seq(&[&b.left, &b.right], st) {
                    Some(s) => Out::both(s),
                    None => Out::dead(),
                },
            },
            Expr::Unary(u) => {
                let o = self.ev(&u.expr, st);
                if matches!(u.op, UnOp::Not(_)) { Out { pos: o.neg, neg: o.pos } } else { o }
            }
            Expr::Try(t) => {
                let o = self.ev(&t.expr, st);
                if o.neg.is_some() {
                    self.rets.push(Out { pos: None, neg: o.neg });
                }
                match o.pos {
                    Some(x) => Out::v(x),
                    None => Out::dead(),
                }
            }
            Expr::Return(r) => {
                let o = match &r.expr {
                    Some(e) => self.ev(e, st),
                    None => Out::v(st),
                };
                self.rets.push(o);
                Out::dead()
            }
            Expr::Break(b) => {
                let o = match &b.expr {
                    Some(e) => self.ev(e, st),
                    None => Out::v(st),
                };
                if let (Some(x), Some(l)) = (o.join(), self.brk.last_mut()) {
                    l.push(x);
                }
                Out::dead()
            }
            Expr::Continue(_) => Out::dead(),
            Expr::Loop(l) => {
                self.loop_heads.push(st);
                self.brk.push(vec![]);
                self.cond += 1;
                self.block(&l.body, st);
                self.cond -= 1;
                let b = self.brk.pop().unwrap();
                match b.into_iter().reduce(|a, b| a && b) {
                    Some(x) => Out::both(x),
                    None => Out::dead(),
                }
            }
            Expr::While(w) => {
                self.loop_heads.push(st);
                self.brk.push(vec![]);
                let (t, f) = self.cond(&w.cond, st);
                self.cond += 1;
                if let Some(t) = t {
                    self.block(&w.body, t);
                }
                self.cond -= 1;
                let b = self.brk.pop().unwrap();
                match b.into_iter().map(Some).fold(f, j) {
                    Some(x) => Out::v(x),
                    None => Out::dead(),
                }
            }
            Expr::ForLoop(w) => {
                let Some(st) = self.ev(&w.expr, st).join() else { return Out::dead() };
                self.loop_heads.push(st);
                self.brk.push(vec![]);
                self.cond += 1;
                self.block(&w.body, st);
                self.cond -= 1;
                self.brk.pop();
                Out::v(st)
            }
            Expr::Call(c) => {
                let args: Vec<&Expr> = c.args.iter().collect();
                let n = path_name(&c.func).unwrap_or_default();
                let Some(s) = self.seq(&args, st) else { return Out::dead() };
                if n == "Some" || n == "Ok" {
                    return Out::v(s);
                }
                if n == "vx_unreachable" {
                    return Out::dead();
                }
                if c.args.iter().any(|a| self.is_p(a)) && (self.sums.contains_key(&n) || self.pures.contains(&n)) {
                    return self.call(&n, s);
                }
                Out::both(s)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.is_p(&m.receiver) {
                    let args: Vec<&Expr> = m.args.iter().collect();
                    let Some(s) = self.seq(&args, st) else { return Out::dead() };
                    if BUMPS.contains(&n.as_str()) {
                        if !self.touched && self.cond == 0 && self.rets.is_empty() {
                            self.needs_tok = true;
                        }
                        self.touch();
                        return Out::both(true);
                    }
                    if n == "expect" || n == "expect_any" {
                        self.touch();
                        return Out { pos: Some(true), neg: Some(s) };
                    }
                    if n == "recover" || n == "expect" {
                        self.touch();
                    }
                    let k = format!("Parser::{n}");
                    if self.sums.contains_key(&k) || self.pures.contains(&k) {
                        return self.call(&k, s);
                    }
                    return Out::both(s);
                }
                let o = self.ev(&m.receiver, st);
                let Some(_) = o.join() else { return Out::dead() };
                let r = match n.as_str() {
                    "is_some" => return o,
                    "is_none" => return Out { pos: o.neg, neg: o.pos },
                    "unwrap" | "expect" => match o.pos {
                        Some(x) => Out::v(x),
                        None => Out::dead(),
                    },
                    _ => Out::both(o.join().unwrap()),
                };
                let args: Vec<&Expr> = m.args.iter().collect();
                match r.join() {
                    Some(s) => match self.seq(&args, s) {
                        Some(s) => Out::both(s),
                        None => Out::dead(),
                    },
                    None => Out::dead(),
                }
            }
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if n == "None" { Out { pos: None, neg: Some(st) } } else { Out::both(st) }
            }
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => {
                if b.value { Out { pos: Some(st), neg: None } } else { Out { pos: None, neg: Some(st) } }
            }
            Expr::Assign(a) => match self.seq(&[&a.right, &a.left], st) {
                Some(s) => Out::v(s),
                None => Out::dead(),
            },
            Expr::Field(f) => self.ev(&f.base, st),
            Expr::Index(f) => self.both(&[&f.expr, &f.index], st),
            Expr::Reference(r) => self.ev(&r.expr, st),
            Expr::Cast(c) => self.ev(&c.expr, st),
            Expr::Tuple(t) => {
                let v: Vec<&Expr> = t.elems.iter().collect();
                self.both(&v, st)
            }
            Expr::Array(t) => {
                let v: Vec<&Expr> = t.elems.iter().collect();
                self.both(&v, st)
            }
            Expr::Struct(t) => {
                let v: Vec<&Expr> = t.fields.iter().map(|f| &f.expr).collect();
                self.both(&v, st)
            }
            Expr::Let(_) => {
                let (a, b) = self.cond(e, st);
                Out { pos: a, neg: b }
            }
            _ => Out::both(st),
        }
    }
    fn both(&mut self, es: &[&Expr], st: bool) -> Out {
        match self.seq(es, st) {
            Some(s) => Out::both(s),
            None => Out::dead(),
        }
    }
}
fn irrefutable(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().chars().next().is_some_and(|c| c.is_lowercase() || c == '_'),
        Pat::Wild(_) => true,
        Pat::Tuple(t) => t.elems.iter().all(irrefutable),
        Pat::Struct(_) => true,
        Pat::Paren(p) => irrefutable(&p.pat),
        _ => false,
    }
}
fn irrefutable_some(p: &Pat) -> bool {
    matches!(p, Pat::TupleStruct(t) if t.elems.len() == 1 && irrefutable(&t.elems[0]))
}

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// spec text of a boolean expression over the parser `p` (only at-tests and boolean connectives)
fn spec_of(e: &Expr, p: &str, pp: &str, pure_specs: &BTreeMap<String, String>) -> Option<String> {
    match strip(e) {
        Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(b.value.to_string()),
        Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
            let (x, y) = (spec_of(&b.left, p, pp, pure_specs)?, spec_of(&b.right, p, pp, pure_specs)?);
            Some(format!("({x} {} {y})", if matches!(b.op, BinOp::And(_)) { "&&" } else { "||" }))
        }
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => Some(format!("!{}", spec_of(&u.expr, p, pp, pure_specs)?)),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => spec_of(e, p, pp, pure_specs),
            _ => None,
        },
        Expr::MethodCall(m) if path_name(strip(&m.receiver)).as_deref() == Some(p) => {
            let n = m.method.to_string();
            let inn = |s: &str| Some(format!("{pp}.pk_in({s}_spec())"));
            match n.as_str() {
                "at" => Some(format!("({pp}.pk() == Some({}))", ts(&m.args[0]))),
                "at_end" => Some(format!("{pp}.pk().is_none()")),
                "at_twig_block_open" => inn("TWIG_BLOCK_OPEN_SET"),
                "at_twig_block_close" => inn("TWIG_BLOCK_CLOSE_SET"),
                "at_twig_var_open" => inn("TWIG_VAR_OPEN_SET"),
                "at_twig_comment_open" => inn("TWIG_COMMENT_OPEN_SET"),
                "at_set" => match strip(&m.args[0]) {
                    Expr::Array(a) => {
                        let v: Vec<String> = a.elems.iter().map(|k| format!("{pp}.pk() == Some({})", ts(k))).collect();
                        Some(format!("({})", v.join(" || ")))
                    }
                    Expr::Path(q) => {
                        let n = ts(q);
                        if n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) {
                            Some(format!("{pp}.pk_in({n}_spec())"))
                        } else {
                            Some(format!("{pp}.pk_in({n}@)"))
                        }
                    }
                    _ => None,
                },
                _ => pure_specs.get(&format!("Parser::{n}")).filter(|_| m.args.is_empty()).map(|s| s.replace("{P}", pp)),
            }
        }
        Expr::Call(c) if c.args.len() == 1 && path_name(strip(&c.args[0])).as_deref() == Some(p) => {
            pure_specs.get(&path_name(&c.func)?).map(|s| s.replace("{P}", pp))
        }
        _ => None,
    }
}

/// the condition of a `debug_assert!` (as rewritten by the macro pass)
fn assert_cond(s: &Stmt) -> Option<Expr> {
    let Stmt::Local(l) = s else { return block_assert(s) };
    let e = &l.init.as_ref()?.expr;
    if let Expr::Block(b) = &**e {
        return inner_assert(&b.block);
    }
    None
}
fn block_assert(s: &Stmt) -> Option<Expr> {
    if let Stmt::Expr(Expr::Block(b), _) = s {
        return inner_assert(&b.block);
    }
    None
}
fn inner_assert(b: &Block) -> Option<Expr> {
    if b.stmts.len() != 2 || !ts(&b.stmts[1]).contains("__vx_assert") {
        return None;
    }
    if let Stmt::Local(i) = &b.stmts[0] {
        return Some((*i.init.as_ref()?.expr).clone());
    }
    None
}

fn base(t: &Type) -> String {
    base_name(t)
}

/// postconditions carried by a value `v` of type `t`; pushes the position of a marker it holds
fn value_spec(t: &Type, v: &str, fp: &str, p: &Program, cl: &mut Vec<String>) -> Option<Vec<String>> {
    match t {
        Type::Tuple(tp) => {
            let mut out = vec![];
            for (i, x) in tp.elems.iter().enumerate() {
                out.extend(value_spec(x, &format!("{v}.{i}"), fp, p, cl)?);
            }
            Some(out)
        }
        _ => match base(t).as_str() {
            "Marker" => Some(vec![format!("{v}.pos")]),
            "CompletedMarker" => {
                cl.push(format!("{fp}.done({v})"));
                Some(vec![])
            }
            "Option" => {
                let s = ts(t);
                if s.contains("CompletedMarker") {
                    cl.push(format!("({v}.is_some() ==> {fp}.done({v}.unwrap()))"));
                } else if s.contains("Marker") {
                    return None;
                }
                Some(vec![])
            }
            n => {
                if let Some(e) = p.enums.iter().find(|e| e.ident == n) {
                    if e.variants.iter().any(|x| ts(&x.fields).contains("Marker")) {
                        return None;
                    }
                }
                Some(vec![])
            }
        },
    }
}

pub fn synthesize(p: &Program, manual: &BTreeSet<String>) -> BTreeMap<String, AutoSpec> {
    let sigs = Sigs::build(p);
    let mut infos: Vec<Info> = vec![];
    for (i, f) in p.fns.iter().enumerate() {
        if manual.contains(&f.key) {
            continue;
        }
        let mut name = None;
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    if f.key.starts_with("Parser::") && r.reference.is_some() && r.mutability.is_some() {
                        name = Some("self".to_string());
                    }
                }
                FnArg::Typed(t) => {
                    if let Type::Reference(r) = &*t.ty {
                        if r.mutability.is_some() && base(&r.elem) == "Parser" {
                            name = Some(ts(&t.pat).replace("mut ", ""));
                        }
                    }
                }
            }
        }
        // methods that touch the fields themselves are not in the synthesised fragment
        if let Some(n) = name {
            if n == "self" && touches_fields(&f.block) {
                continue;
            }
            infos.push(Info { key: f.key.clone(), p: n, idx: i, pure_: false });
        }
    }
    // purity: least non-pure set
    let keys: BTreeSet<String> = infos.iter().map(|i| i.key.clone()).collect();
    let mut pures: BTreeSet<String> = keys.clone();
    loop {
        let mut changed = false;
        for i in &infos {
            if pures.contains(&i.key) && !is_pure(&p.fns[i.idx].block, &i.p, &pures) {
                pures.remove(&i.key);
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    for i in infos.iter_mut() {
        i.pure_ = pures.contains(&i.key);
    }
    let mut pure_specs: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..3 {
        for i in infos.iter().filter(|i| i.pure_) {
            let f = &p.fns[i.idx];
            if f.sig.inputs.len() == 1 && ts(&f.sig.output).contains("bool") && f.block.stmts.len() == 1 {
                if let Stmt::Expr(e, None) = &f.block.stmts[0] {
                    if let Some(s) = spec_of(e, &i.p, "{P}", &pure_specs) {
                        pure_specs.insert(i.key.clone(), s);
                    }
                }
            }
        }
    }
    // progress summaries: greatest fixpoint
    let mut sums: BTreeMap<String, Sum> = infos.iter().filter(|i| !i.pure_).map(|i| (i.key.clone(), Sum { pos: true, neg: true })).collect();
    let run = |i: &Info, sums: &BTreeMap<String, Sum>| -> (Sum, Vec<(String, bool)>, Vec<bool>, bool) {
        let mut ai = Ai { p: i.p.clone(), sums, pures: &pures, edges: vec![], rets: vec![], brk: vec![], loop_heads: vec![], needs_tok: false, touched: false, cond: 0 };
        let o = ai.block(&p.fns[i.idx].block, false);
        let mut all = o;
        for r in &ai.rets {
            all = all.or(*r);
        }
        (Sum { pos: all.pos.unwrap_or(true), neg: all.neg.unwrap_or(true) }, ai.edges, ai.loop_heads, ai.needs_tok)
    };
    loop {
        let mut next = sums.clone();
        for i in infos.iter().filter(|i| !i.pure_) {
            let s = run(i, &sums).0;
            let o = sums[&i.key];
            next.insert(i.key.clone(), Sum { pos: o.pos && s.pos, neg: o.neg && s.neg });
        }
        if next == sums {
            break;
        }
        sums = next;
    }
    // ranks
    let mut edges: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for i in infos.iter().filter(|i| !i.pure_) {
        let e = run(i, &sums).1;
        edges.insert(i.key.clone(), e.into_iter().filter(|(_, pr)| !pr).map(|(n, _)| n).collect());
    }
    let mut rank: BTreeMap<String, usize> = BTreeMap::new();
    fn rk(k: &str, edges: &BTreeMap<String, BTreeSet<String>>, rank: &mut BTreeMap<String, usize>, stack: &mut Vec<String>) -> usize {
        if let Some(r) = rank.get(k) {
            return *r;
        }
        if stack.iter().any(|s| s == k) {
            return 0;
        }
        stack.push(k.to_string());
        let mut m = 0;
        for c in edges.get(k).into_iter().flatten() {
            m = m.max(rk(c, edges, rank, stack) + 1);
        }
        stack.pop();
        rank.insert(k.to_string(), m);
        m
    }
    for i in infos.iter().filter(|i| !i.pure_) {
        rk(&i.key, &edges, &mut rank, &mut vec![]);
    }
    let mut out = BTreeMap::new();
    for i in &infos {
        let f = &p.fns[i.idx];
        let pn = &i.p;
        let (op, fp) = (format!("old({pn})"), format!("final({pn})"));
        let mut a = AutoSpec::default();
        let mut req = vec![format!("{op}.wf()")];
        let mut ens: Vec<String> = vec![];
        if i.pure_ {
            ens.push(format!("{fp}.looked({op})"));
            if let Some(s) = pure_specs.get(&i.key) {
                ens.push(format!("r == {}", s.replace("{P}", &op)));
            }
            a.contract = format!("requires {},\nensures {},\n", req.join(", "), ens.join(", "));
            out.insert(i.key.clone(), a);
            continue;
        }
        let (_, _, heads, needs_tok) = run(i, &sums);
        let is_root = f.sig.inputs.len() == 1 && f.key == "root";
        let is_many = f.kind == "hof";
        let mut min_open = 1;
        let mut counters: Vec<String> = vec![];
        if is_root {
            req.push(format!("{op}.ev().len() == 0, {op}.opn().len() == 0"));
        } else {
            let nm = fn_inputs(&f.sig, "Parser").iter().filter(|(_, t, _)| base(t) == "Marker").count();
            min_open = 1 + nm;
            req.push(format!("{op}.opn().len() >= {min_open}"));
        }
        if !is_many && !is_root {
            req.push(format!("{op}.t().len() > 0"));
        }
        if f.requires_not_at_end || needs_tok {
            req.push(format!("{op}.pk().is_some()"));
        }
        let mut base_opn = format!("{op}.opn()");
        let mut inv_extra: Vec<String> = vec![];
        for (n, t, _) in fn_inputs(&f.sig, "Parser") {
            if &n == pn {
                continue;
            }
            let s = ts(&t);
            let mutref = matches!(&t, Type::Reference(r) if r.mutability.is_some());
            match base(&t).as_str() {
                "Marker" => {
                    req.push(format!("{n}.pos == {base_opn}.last()"));
                    base_opn = format!("{base_opn}.drop_last()");
                }
                _ if mutref && s.contains("CompletedMarker") && !s.contains("Option") => {
                    req.push(format!("{op}.done(*old({n}))"));
                    ens.push(format!("{fp}.done(*final({n}))"));
                    inv_extra.push(format!("{pn}.done(*{n})"));
                }
                "CompletedMarker" => {
                    req.push(format!("{op}.done({n})"));
                    inv_extra.push(format!("{pn}.done({n})"));
                }
                "Option" if s.contains("CompletedMarker") && !mutref => {
                    req.push(format!("({n}.is_some() ==> {op}.done({n}.unwrap()))"));
                    inv_extra.push(format!("({n}.is_some() ==> {pn}.done({n}.unwrap()))"));
                }
                _ if mutref && ["& mut i32", "& mut usize", "& mut u32", "& mut i64", "& mut u64"].contains(&s.as_str()) => {
                    // a counter: at most one step per round of the loop that drives the closure
                    req.push(format!("0 <= *old({n}) <= {op}.cur()"));
                    if is_many {
                        ens.push(format!("0 <= *final({n}) <= {fp}.cur() + 1"));
                        counters.push(n.clone());
                    } else {
                        ens.push(format!("*old({n}) <= *final({n}) <= *old({n}) + 1"));
                        inv_extra.push(format!("*{n} == *old({n})"));
                    }
                }
                _ => {}
            }
        }
        let mut stmts = f.block.stmts.iter();
        while let Some(c) = stmts.next().and_then(assert_cond) {
            match spec_of(&c, pn, &op, &pure_specs) {
                Some(s) => req.push(s),
                None => break,
            }
        }
        ens.insert(0, format!("{fp}.adv({op})"));
        let has_ret = !matches!(f.sig.output, ReturnType::Default);
        let mut opn_done = false;
        if let ReturnType::Type(_, t) = &f.sig.output {
            let mut cl = vec![];
            match value_spec(t, "r", &fp, p, &mut cl) {
                Some(ms) => {
                    let mut b = base_opn.clone();
                    for m in ms {
                        b = format!("{b}.push({m})");
                    }
                    ens.push(format!("{fp}.opn() == {b}"));
                    ens.extend(cl);
                    opn_done = true;
                }
                None => {
                    // an enum whose variants carry markers
                    let n = base(t);
                    if let Some(e) = p.enums.iter().find(|e| e.ident == n) {
                        let mut arms = vec![];
                        for v in &e.variants {
                            let mut pats = vec![];
                            let mut cl = vec![];
                            let mut b = base_opn.clone();
                            for (k, fl) in v.fields.iter().enumerate() {
                                let x = format!("x{k}");
                                for m in value_spec(&fl.ty, &x, &fp, p, &mut cl).unwrap_or_default() {
                                    b = format!("{b}.push({m})");
                                }
                                pats.push(x);
                            }
                            cl.insert(0, format!("{fp}.opn() == {b}"));
                            let pt = if pats.is_empty() { format!("{n}::{}", v.ident) } else { format!("{n}::{}({})", v.ident, pats.join(", ")) };
                            arms.push(format!("{pt} => {}", cl.join(" && ")));
                        }
                        ens.push(format!("(match r {{ {} }})", arms.join(", ")));
                        opn_done = true;
                    }
                }
            }
        }
        if !opn_done {
            ens.push(format!("{fp}.opn() == {base_opn}"));
        }
        let s = sums[&i.key];
        let prog = format!("{fp}.prog({op})");
        let rt = if has_ret { ts(&f.sig.output) } else { String::new() };
        if s.pos && s.neg {
            ens.push(prog);
        } else if rt.contains("-> Option") {
            if s.pos {
                ens.push(format!("(r.is_some() ==> {prog})"));
            }
            if s.neg {
                ens.push(format!("(r.is_none() ==> {prog})"));
            }
        } else if rt == "-> bool" {
            if s.pos {
                ens.push(format!("(r ==> {prog})"));
            }
            if s.neg {
                ens.push(format!("(!r ==> {prog})"));
            }
        } else if s.pos {
            ens.push(prog);
        }
        a.contract = format!(
            "requires {},\nensures {},\ndecreases {op}.t().len() - {op}.eff(), {}int,\n",
            req.join(", "),
            ens.join(", "),
            rank.get(&i.key).copied().unwrap_or(0)
        );
        // loops: the markers open at the loop are found by following the straight-line code
        let env = fn_env(p, &sigs, f);
        let mut lw = LoopWalk { p: pn.clone(), open: vec![], vars: vec![], found: vec![], env, after_if: vec![], depth: 0 };
        lw.block(&f.block);
        if lw.after_if.len() > 1 && !is_root {
            // cut points: what is known after every top-level `if`
            for (n, open) in &lw.after_if {
                let mut b = base_opn.clone();
                for (x, t, _) in fn_inputs(&f.sig, "Parser") {
                    if base(&t) == "Marker" && !lw_closed(open, &x) {
                        b = format!("{op}.opn()");
                    }
                }
                for m in open.iter().filter(|m| !m.starts_with('-')) {
                    b = format!("{b}.push({m}.pos)");
                }
                a.proofs.push(("stmt".into(), n.to_string(), format!("proof {{ assert({pn}.adv({op})); assert({pn}.opn() == {b}); }}")));
            }
        }
        for (k, (open, vars)) in lw.found.iter().enumerate() {
            let mut inv = vec![format!("{op}.wf()"), format!("{pn}.adv({op})")];
            if !is_root {
                inv.push(format!("{op}.opn().len() >= {min_open}"));
            }
            if !is_many && !is_root {
                inv.push(format!("{op}.t().len() > 0"));
            }
            let mut b = base_opn.clone();
            // a Marker parameter not yet completed is still open
            for (n, t, _) in fn_inputs(&f.sig, "Parser") {
                if base(&t) == "Marker" && !lw_closed(open, &n) {
                    b = format!("{op}.opn()");
                    inv.push(format!("{n}.pos == {op}.opn().last()"));
                }
            }
            for m in open.iter().filter(|m| !m.starts_with('-')) {
                b = format!("{b}.push({m}.pos)");
            }
            inv.push(format!("{pn}.opn() == {b}"));
            inv.extend(inv_extra.iter().cloned());
            for (v, opt) in vars {
                inv.push(if *opt { format!("({v}.is_some() ==> {pn}.done({v}.unwrap()))") } else { format!("{pn}.done({v})") });
            }
            if heads.get(k).copied().unwrap_or(false) {
                inv.push(format!("{pn}.prog({op})"));
            }
            let exc = if counters.is_empty() { String::new() } else {
                let l: Vec<String> = counters.iter().map(|n| format!("0 <= *{n} <= {pn}.cur()")).collect();
                format!("invariant_except_break {},\n", l.join(", "))
            };
            let lens = if counters.is_empty() { String::new() } else {
                let l: Vec<String> = counters.iter().map(|n| format!("0 <= *{n} <= {pn}.cur() + 1")).collect();
                format!("ensures {},\n", l.join(", "))
            };
            a.loops.insert(k, format!("{exc}invariant {},\n{lens}decreases {pn}.t().len() - {pn}.cur(),\n", inv.join(", ")));
        }
        if ts(&f.block).contains("\"\"") {
            a.proofs.push(("start".into(), String::new(), "proof { reveal_strlit(\"\"); }".into()));
        }
        a.attrs.push("#[verifier::spinoff_prover]".into());
        out.insert(i.key.clone(), a);
    }
    out
}

fn lw_closed(open: &[String], n: &str) -> bool {
    open.iter().any(|m| m == &format!("-{n}"))
}

struct LoopWalk {
    p: String,
    open: Vec<String>,
    vars: Vec<(String, bool)>,
    found: Vec<(Vec<String>, Vec<(String, bool)>)>,
    env: BTreeMap<String, Type>,
    after_if: Vec<(usize, Vec<String>)>,
    depth: usize,
}
impl LoopWalk {
    fn block(&mut self, b: &Block) {
        let nv = self.vars.len();
        self.depth += 1;
        for (k, s) in b.stmts.iter().enumerate() {
            if k > 0 && self.depth == 1 {
                if let Stmt::Expr(Expr::If(_), _) = &b.stmts[k - 1] {
                    self.after_if.push((k - 1, self.open.clone()));
                }
            }
            match s {
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        self.ex(&i.expr);
                        let name = match &l.pat {
                            Pat::Ident(i) => Some(i.ident.to_string()),
                            Pat::Type(t) => match &*t.pat {
                                Pat::Ident(i) => Some(i.ident.to_string()),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(n) = name {
                            // shadowed names: the initialiser decides
                            if let Expr::MethodCall(m) = strip(&i.expr) {
                                let t: Option<Type> = match m.method.to_string().as_str() {
                                    "complete" => Some(parse_quote!(CompletedMarker)),
                                    "start" | "precede" => Some(parse_quote!(Marker)),
                                    _ => None,
                                };
                                if let (Some(t), Some(r)) = (t, path_name(strip(&m.receiver))) {
                                    if r == self.p {
                                        self.env.insert(n.clone(), t);
                                    }
                                }
                            }
                            self.vars.retain(|v| v.0 != n);
                            if let Some(t) = self.env.get(&n) {
                                match base(t).as_str() {
                                    "Marker" => self.open.push(n),
                                    "CompletedMarker" => self.vars.push((n, false)),
                                    "Option" if ts(t).contains("CompletedMarker") => self.vars.push((n, true)),
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                Stmt::Expr(e, _) => self.ex(e),
                _ => {}
            }
        }
        self.depth -= 1;
        self.vars.truncate(nv.min(self.vars.len()));
    }
    fn ex(&mut self, e: &Expr) {
        match e {
            Expr::Loop(l) => {
                self.found.push((self.open.clone(), self.vars.clone()));
                let o = self.open.clone();
                self.block(&l.body);
                self.open = o;
            }
            Expr::While(w) => {
                self.found.push((self.open.clone(), self.vars.clone()));
                let o = self.open.clone();
                self.ex(&w.cond);
                self.block(&w.body);
                self.open = o;
            }
            Expr::ForLoop(w) => {
                self.found.push((self.open.clone(), self.vars.clone()));
                let o = self.open.clone();
                self.block(&w.body);
                self.open = o;
            }
            Expr::Block(b) => self.block(&b.block),
            Expr::If(i) => {
                self.ex(&i.cond);
                let o = self.open.clone();
                self.block(&i.then_branch);
                let t = self.open.clone();
                self.open = o;
                if let Some((_, e)) = &i.else_branch {
                    self.ex(e);
                } else if !diverges(&i.then_branch) {
                    self.open = t;
                }
            }
            Expr::Match(m) => {
                self.ex(&m.expr);
                let o = self.open.clone();
                let mut last = o.clone();
                for a in &m.arms {
                    self.open = o.clone();
                    self.ex(&a.body);
                    last = self.open.clone();
                }
                self.open = last;
            }
            Expr::MethodCall(m) => {
                self.ex(&m.receiver);
                for a in &m.args {
                    self.ex(a);
                }
                if m.method == "complete" && path_name(strip(&m.receiver)).as_deref() == Some(&self.p) {
                    self.close(&m.args[0]);
                }
            }
            Expr::Call(c) => {
                for a in &c.args {
                    self.ex(a);
                }
                if c.args.iter().any(|a| path_name(strip(a)).as_deref() == Some(&self.p)) {
                    for a in &c.args {
                        if let Some(n) = path_name(a) {
                            if self.env.get(&n).is_some_and(|t| base(t) == "Marker") {
                                self.close(a);
                            }
                        }
                    }
                }
            }
            Expr::Assign(a) => self.ex(&a.right),
            Expr::Paren(a) => self.ex(&a.expr),
            Expr::Unary(a) => self.ex(&a.expr),
            Expr::Try(a) => self.ex(&a.expr),
            Expr::Binary(b) => {
                self.ex(&b.left);
                self.ex(&b.right);
            }
            Expr::Return(r) => {
                if let Some(e) = &r.expr {
                    self.ex(e)
                }
            }
            _ => {}
        }
    }
    fn close(&mut self, a: &Expr) {
        if let Some(n) = path_name(strip(a)) {
            match self.open.iter().rposition(|m| *m == n) {
                Some(i) => {
                    self.open.remove(i);
                }
                None => self.open.push(format!("-{n}")),
            }
        }
    }
}
fn diverges(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _)))
}

fn touches_fields(b: &Block) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_field(&mut self, f: &'a ExprField) {
            if path_name(strip(&f.base)).as_deref() == Some("self") {
                self.0 = true;
            }
            visit::visit_expr_field(self, f);
        }
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn is_pure(b: &Block, p: &str, pures: &BTreeSet<String>) -> bool {
    struct V<'b>(bool, &'b str, &'b BTreeSet<String>);
    impl<'a> visit::Visit<'a> for V<'_> {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if path_name(strip(&m.receiver)).as_deref() == Some(self.1) {
                let n = m.method.to_string();
                if !PURE.contains(&n.as_str()) && !self.2.contains(&format!("Parser::{n}")) {
                    self.0 = false;
                }
                for a in &m.args {
                    self.visit_expr(a);
                }
                return;
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if c.args.iter().any(|a| path_name(strip(a)).as_deref() == Some(self.1)) {
                let n = path_name(&c.func).unwrap_or_default();
                if !self.2.contains(&n) {
                    self.0 = false;
                }
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            visit::visit_expr_assign(self, a);
        }
    }
    let mut v = V(true, p, pures);
    visit::Visit::visit_block(&mut v, b);
    v.0
}
