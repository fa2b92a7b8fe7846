//! Emission of the Verus file.
use crate::model::*;
use crate::passes::*;
use crate::unit::Unit;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Out {
    pub text: String,
    pub contracts: BTreeMap<String, String>,
    pub loops: BTreeMap<String, String>,
    pub proofs: BTreeMap<String, String>,
    pub attrs: BTreeMap<String, Vec<String>>,
    pub lost: Vec<String>,
    pub external: Vec<String>,
    pub nocontract: Vec<String>,
    pub under_contract: Vec<String>,
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct LoopMark {
    key: String,
    n: usize,
}
impl VisitMut for LoopMark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let key = self.key.clone();
        let mut mark = |b: &mut Block, n: &mut usize| {
            let id = format!("{key}#{n}");
            *n += 1;
            let s: Stmt = parse_quote!(__vx_loop!(#id););
            b.stmts.insert(0, s);
        };
        match e {
            Expr::Loop(l) => mark(&mut l.body, &mut self.n),
            Expr::While(l) => mark(&mut l.body, &mut self.n),
            Expr::ForLoop(l) => mark(&mut l.body, &mut self.n),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct ProofMark {
    id: String,
    wher: String,
    anchor: String,
    done: bool,
}
impl VisitMut for ProofMark {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // innermost statement first
        visit_mut::visit_block_mut(self, b);
        if self.done {
            return;
        }
        for i in 0..b.stmts.len() {
            let t = norm(&b.stmts[i].to_token_stream().to_string());
            if t.starts_with("__vx_") {
                continue;
            }
            if t.contains(&self.anchor) {
                let id = &self.id;
                let s: Stmt = parse_quote!(__vx_proof!(#id););
                let at = if self.wher == "before" { i } else { i + 1 };
                b.stmts.insert(at, s);
                self.done = true;
                return;
            }
        }
    }
}

fn strip_sig_vis(sig: &Signature, has_ret_name: bool) -> TokenStream {
    let mut s = sig.clone();
    s.constness = None;
    if s.generics.where_clause.as_ref().is_some_and(|w| w.to_token_stream().to_string().replace(' ', "").trim_end_matches(',') == "whereSelf:Sized") {
        s.generics.where_clause = None;
    }
    for a in s.inputs.iter_mut() {
        match a {
            FnArg::Typed(t) => t.attrs.clear(),
            FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
    if has_ret_name {
        if let ReturnType::Type(_, t) = &s.output {
            let t = t.clone();
            s.output = parse_quote!(-> __VxRet<#t>);
        }
    }
    s.to_token_stream()
}

pub fn emit(p: &mut Program, u: &mut Unit, auto: &BTreeMap<String, crate::auto::AutoSpec>) -> Out {
    let mut o = Out {
        text: String::new(),
        contracts: BTreeMap::new(),
        loops: BTreeMap::new(),
        proofs: BTreeMap::new(),
        attrs: BTreeMap::new(),
        lost: vec![],
        external: vec![],
        nocontract: vec![],
        under_contract: vec![],
    };
    let mut body = String::new();
    for e in &p.enums {
        let n = e.ident.to_string();
        let mut e = e.clone();
        e.attrs.clear();
        e.vis = Visibility::Inherited;
        for v in e.variants.iter_mut() {
            v.discriminant = None;
            v.attrs.clear();
        }
        if u.structural.contains(&n) {
            e.attrs.push(parse_quote!(#[derive(Clone, Copy, PartialEq, Eq, Structural)]));
        } else if p.parse_fns.len() > 0 && e.attrs.is_empty() && e.variants.iter().all(|v| p.parse_fns.contains(&v.ident.to_string())) {
            e.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
        }
        body.push_str(&e.to_token_stream().to_string());
        body.push('\n');
    }
    for s in &p.structs {
        let n = s.ident.to_string();
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = Visibility::Inherited;
        Clean.visit_item_struct_mut(&mut s);
        if u.structural.contains(&n) {
            s.attrs.push(parse_quote!(#[derive(Clone, Copy, PartialEq, Eq, Structural)]));
        }
        body.push_str(&s.to_token_stream().to_string());
        body.push('\n');
    }
    for t in &p.structs.iter().map(|s| (s.ident.to_string(), s.generics.clone())).collect::<Vec<_>>() {
        if u.plain_clone.contains(&t.0) {
            let g = &t.1;
            let (ig, tg, _) = g.split_for_impl();
            let id = Ident::new(&t.0, proc_macro2::Span::call_site());
            body.push_str(&format!(
                "impl {} Clone for {} {} {{ #[verifier::external_body] fn clone(&self) -> __VxRet<Self> {{ __vx_contract!(\"@clone\"); unimplemented!() }} }}\n",
                ig.to_token_stream(),
                id,
                tg.to_token_stream()
            ));
        }
    }
    for t in &p.enums.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>() {
        if u.plain_clone.contains(t) {
            body.push_str(&format!(
                "impl Clone for {t} {{ #[verifier::external_body] fn clone(&self) -> __VxRet<Self> {{ __vx_contract!(\"@clone\"); unimplemented!() }} }}\n"
            ));
        }
    }
    o.contracts.insert("@clone".into(), "ensures r == *self,\n".into());
    for t in &p.aliases {
        let mut t = t.clone();
        t.attrs.clear();
        t.vis = Visibility::Inherited;
        body.push_str(&t.to_token_stream().to_string());
        body.push('\n');
    }
    for t in &p.traits {
        let mut t = t.clone();
        Clean.visit_item_trait_mut(&mut t);
        t.vis = Visibility::Inherited;
        body.push_str(&t.to_token_stream().to_string());
        body.push('\n');
    }
    let mut stat = String::new();
    for s in &p.statics {
        let arr = match &s.expr {
            Expr::Reference(r) => match &*r.expr {
                Expr::Array(a) => Some(a.clone()),
                _ => None,
            },
            _ => None,
        };
        let elem = match &s.ty {
            Type::Reference(r) => match &*r.elem {
                Type::Slice(x) => base_name(&x.elem),
                _ => String::new(),
            },
            _ => String::new(),
        };
        let is_kind = elem == "SyntaxKind";
        if let (Some(a), true) = (arr, is_kind) {
            let el = a.elems.to_token_stream();
            stat.push_str(&format!(
                "spec fn {n}_spec() -> Seq<{elem}> {{ seq![{el}] }}\nexec static {n}: &'static [{elem}] ensures {n}@ == {n}_spec() {{ &[{el}] }}\n",
                n = s.name
            ));
        } else {
            let prim = matches!(base_name(&s.ty).as_str(), "usize" | "u8" | "u16" | "u32" | "bool");
            if prim {
                stat.push_str(&format!("const {}: {} = {};\n", s.name, s.ty.to_token_stream(), s.expr.to_token_stream()));
            }
        }
    }
    // functions
    let mut by_impl: BTreeMap<Option<usize>, Vec<usize>> = BTreeMap::new();
    for (i, f) in p.fns.iter().enumerate() {
        by_impl.entry(f.impl_idx).or_default().push(i);
    }
    for (imp, idxs) in &by_impl {
        if let Some(k) = imp {
            let h = &p.impls[*k];
            let (ig, _, wc) = h.generics.split_for_impl();
            let tr = h.trait_.as_ref().map(|t| format!("{} for ", t.to_token_stream())).unwrap_or_default();
            body.push_str(&format!("impl {} {tr}{} {} {{\n", ig.to_token_stream(), h.self_ty.to_token_stream(), wc.to_token_stream()));
            if let Some(t) = &h.trait_ {
                let tn = t.segments.last().unwrap().ident.to_string();
                if u.implspec.iter().any(|s| s.0 == tn) {
                    body.push_str(&format!("__vx_text!({:?});\n", format!("{tn}|{}", h.self_name)));
                }
            }
            let spec_impl = h.trait_.as_ref().is_some_and(|t| u.implspec.iter().any(|s| s.0 == t.segments.last().unwrap().ident.to_string()));
            for a in h.assoc.iter().filter(|_| !spec_impl) {
                body.push_str(&a.to_token_stream().to_string());
                body.push('\n');
            }
        }
        for &i in idxs {
            let f = p.fns[i].clone();
            let skey = if u.fns.contains_key(&f.key) { f.key.clone() } else { f.origin.clone() };
            let spec = u.fns.get_mut(&skey);
            let mut spec_c = match spec {
                Some(s) => {
                    s.used = true;
                    s.clone()
                }
                None => Default::default(),
            };
            let au = auto.get(&f.key);
            let by_trait = f.impl_idx.and_then(|k| p.impls[k].trait_.as_ref()).is_some_and(|t| u.implspec.iter().any(|s| s.0 == t.segments.last().unwrap().ident.to_string()));
            if by_trait {
                // the contract is the one of the trait
                o.under_contract.push(f.key.clone());
            } else if spec_c.contract.is_none() && au.is_none() {
                o.nocontract.push(f.key.clone());
            } else {
                o.under_contract.push(f.key.clone());
            }
            let mut text = spec_c.contract.clone().unwrap_or_default();
            if let Some(a) = au {
                if spec_c.contract.is_none() {
                    text = a.contract.clone();
                }
                for (k, l) in &a.loops {
                    spec_c.loops.entry(*k).or_insert_with(|| l.clone());
                }
                for at in &a.attrs {
                    spec_c.attrs.push(at.clone());
                }
                for pr in &a.proofs {
                    spec_c.proofs.push(pr.clone());
                }
            }
            for (k, t) in &spec_c.add_loops {
                let l = spec_c.loops.entry(*k).or_default();
                let t = t.trim();
                let (inv, ens) = match t.find("ensures") {
                    Some(i) => (t[..i].trim(), &t[i..]),
                    None => (t, ""),
                };
                let at = l.rfind("decreases").unwrap_or(l.len());
                let inv = inv.strip_prefix("invariant").unwrap_or(inv);
                // further invariants continue the last clause, which is the invariant list
                l.insert_str(at, &format!("{inv}\n{ens}\n"));
            }
            for a in &spec_c.add {
                text = merge_contract(&text, a);
            }
            let has_ret = !matches!(f.sig.output, ReturnType::Default);
            if let Some(r) = &spec_c.ret {
                text = format!("//@ret={r}\n{text}");
            }
            o.contracts.insert(f.key.clone(), text);
            let mut block = f.block.clone();
            if spec_c.external {
                o.external.push(f.key.clone());
                block = parse_quote!({ unimplemented!() });
            } else {
                let mut lm = LoopMark { key: f.key.clone(), n: 0 };
                lm.visit_block_mut(&mut block);
                for (k, t) in &spec_c.loops {
                    if *k >= lm.n {
                        o.lost.push(format!("{}: loop {k} not found", f.key));
                    }
                    o.loops.insert(format!("{}#{k}", f.key), t.clone());
                }
                for k in 0..lm.n {
                    if !spec_c.loops.contains_key(&k) {
                        o.lost.push(format!("{}: loop {k} has no invariant", f.key));
                    }
                }
                let mut order: Vec<usize> = (0..spec_c.proofs.len()).collect();
                order.sort_by_key(|i| {
                    let p = &spec_c.proofs[*i];
                    if p.0 == "stmt" { (0, -(p.1.parse::<i64>().unwrap())) } else { (1, *i as i64) }
                });
                for n in order {
                    let (wher, anchor, text) = &spec_c.proofs[n];
                    let id = format!("{}%{n}", f.key);
                    o.proofs.insert(id.clone(), text.clone());
                    let s: Stmt = parse_quote!(__vx_proof!(#id););
                    match wher.as_str() {
                        "start" => block.stmts.insert(0, s),
                        "stmt" => {
                            let at = anchor.parse::<usize>().unwrap() + 1;
                            block.stmts.insert(at, s);
                        }
                        "end" => {
                            let at = match block.stmts.last() {
                                Some(Stmt::Expr(_, None)) if has_ret => block.stmts.len() - 1,
                                _ => block.stmts.len(),
                            };
                            block.stmts.insert(at, s);
                        }
                        "loopstart" => {
                            struct LS(String, Stmt, bool);
                            impl VisitMut for LS {
                                fn visit_block_mut(&mut self, b: &mut Block) {
                                    if let Some(Stmt::Macro(m)) = b.stmts.first() {
                                        if m.mac.tokens.to_string() == format!("\"{}\"", self.0) {
                                            b.stmts.insert(1, self.1.clone());
                                            self.2 = true;
                                            return;
                                        }
                                    }
                                    visit_mut::visit_block_mut(self, b);
                                }
                            }
                            let mut ls = LS(format!("{}#{anchor}", f.key), s, false);
                            ls.visit_block_mut(&mut block);
                            if !ls.2 {
                                o.lost.push(format!("{}: loop {anchor} for proof not found", f.key));
                            }
                        }
                        "before" | "after" => {
                            let mut pm = ProofMark { id: id.clone(), wher: wher.clone(), anchor: norm(anchor), done: false };
                            pm.visit_block_mut(&mut block);
                            if !pm.done {
                                o.lost.push(format!("{}: proof anchor `{anchor}` not found", f.key));
                            }
                        }
                        w => panic!("bad @proof position {w}"),
                    }
                }
            }
            if !spec_c.external {
                // sanity mode: a reachable `assert(false)` must be refused
                match u.vacuity.as_str() {
                    "start" => block.stmts.insert(0, parse_quote!(__vx_assert!(false);)),
                    "end" => {
                        let at = match block.stmts.last() {
                            Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
                            _ => block.stmts.len(),
                        };
                        let diverges = matches!(block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                        if !diverges {
                            block.stmts.insert(at, parse_quote!(__vx_assert!(false);));
                        }
                    }
                    _ => {}
                }
            }
            let cm: Stmt = {
                let k = &f.key;
                parse_quote!(__vx_contract!(#k);)
            };
            block.stmts.insert(0, cm);
            let sig = strip_sig_vis(&f.sig, has_ret);
            let mut attrs: Vec<String> = spec_c.attrs.clone();
            if spec_c.external {
                attrs.push("#[verifier::external_body]".into());
            }
            let a: String = attrs.join("\n");
            let mk = format!("__vx_fn_marker!({:?}, {:?}, {});", f.key, f.file, f.line);
            body.push_str(&format!("{mk}\n{a}\n{}\n", quote!(#sig #block)));
        }
        if imp.is_some() {
            body.push_str("}\n");
        }
    }
    for (k, s) in &u.fns {
        if !s.used && !s.optional {
            o.lost.push(format!("function under contract not found: {k}"));
        }
    }
    // format
    let raw = format!("{body}");
    let fmt = rustfmt(&raw);
    let post = postprocess(&fmt, &o, u);
    let mut pre = String::new();
    for f in &u.preludes {
        pre.push_str(&std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}")));
        pre.push('\n');
    }
    let mut verb = String::new();
    for v in &u.verbatim {
        verb.push_str(v);
    }
    o.text = format!(
        "// generated by vx from the real sources on every run; do not edit\n#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\nuse vstd::prelude::*;\nuse vstd::slice::*;\nverus! {{\n{pre}\n{stat}\n{verb}\n{post}\n}} // verus!\nfn main() {{}}\n"
    );
    o
}

fn rustfmt(s: &str) -> String {
    use std::io::Write;
    use std::process::*;
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2024", "--config", "max_width=140,use_small_heuristics=Default"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustfmt");
    // markers are macro items; inside impls they are impl-item macros
    c.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
    let out = c.wait_with_output().unwrap();
    if !out.status.success() {
        eprintln!("vx: rustfmt failed: {}", String::from_utf8_lossy(&out.stderr));
        if let Ok(d) = std::env::var("VX_DUMP") {
            std::fs::write(d, s).ok();
        }
        std::process::exit(3);
    }
    String::from_utf8(out.stdout).unwrap()
}

fn lit(l: &str, mac: &str) -> Option<String> {
    let t = l.trim();
    let r = t.strip_prefix(mac)?.strip_prefix("(\"")?;
    let e = r.find("\");")?;
    Some(r[..e].to_string())
}

fn replace_ret(sig: &str, name: &str) -> String {
    if let Some(i) = sig.find("__VxRet<") {
        let st = i + "__VxRet<".len();
        let mut d = 1;
        let b: Vec<char> = sig[st..].chars().collect();
        let mut k = 0;
        while k < b.len() {
            match b[k] {
                '<' => d += 1,
                '>' if k > 0 && b[k - 1] == '-' => {}
                '>' => {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                _ => {}
            }
            k += 1;
        }
        let inner: String = b[..k].iter().collect();
        let rest: String = b[k + 1..].iter().collect();
        return format!("{}({name}: {}){}", &sig[..i], inner.trim().trim_end_matches(','), rest);
    }
    sig.to_string()
}

fn postprocess(s: &str, o: &Out, _u: &Unit) -> String {
    let mut out: Vec<String> = vec![];
    let mut total: Option<String> = None;
    let lines: Vec<&str> = s.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        // rustfmt may put an empty-ish body on one line; contracts are always on their own line
        if let Some(k) = lit(l, "__vx_contract!") {
            let c = o.contracts.get(&k).cloned().unwrap_or_default();
            let mut name = "r".to_string();
            let mut txt = String::new();
            for cl in c.lines() {
                if let Some(r) = cl.strip_prefix("//@ret=") {
                    name = r.to_string()
                } else {
                    txt.push_str(cl);
                    txt.push('\n');
                }
            }
            // the signature: back to the line that starts it
            let mut b = out.len();
            while b > 0 {
                b -= 1;
                let t = out[b].trim_start();
                if t.starts_with("fn ") || t.starts_with("exec fn ") || t.starts_with("pub fn ") {
                    break;
                }
            }
            let sig = out.split_off(b).join("\n");
            let p = sig.rfind('{').unwrap();
            let sig = sig[..p].trim_end().to_string();
            out.push(replace_ret(&sig, &name));
            for t in txt.lines() {
                if !t.trim().is_empty() {
                    out.push(format!("        {}", t.trim_end()));
                }
            }
            out.push("    {".into());
        } else if let Some(k) = lit(l, "__vx_loop!") {
            if let Some(t) = o.loops.get(&k) {
                let last = out.pop().unwrap();
                let p = last.rfind('{').unwrap();
                let mut hd = last[..p].trim_end().to_string();
                if t.contains("vx_it") && hd.trim_start().starts_with("for ") {
                    hd = hd.replacen(" in ", " in vx_it: ", 1);
                }
                out.push(hd);
                for x in t.lines() {
                    if !x.trim().is_empty() {
                        out.push(format!("            {}", x.trim_end()));
                    }
                }
                out.push("        {".into());
            }
        } else if let Some(k) = lit(l, "__vx_proof!") {
            out.push(format!("/*vx-proof {k}*/"));
            for t in o.proofs.get(&k).cloned().unwrap_or_default().lines() {
                out.push(t.to_string());
            }
        } else if let Some(k) = lit(l, "__vx_text!") {
            let (t, n) = k.split_once('|').unwrap();
            for s in _u.implspec.iter().filter(|s| s.0 == t) {
                out.push(s.1.replace("$TYPE", n).replace("$KIND", &crate::passes3::screaming(n)));
            }
        } else if l.trim_start().starts_with("__vx_fn_marker!(") {
            // may be wrapped by rustfmt over several lines
            let mut t = l.trim().to_string();
            while !t.ends_with(");") {
                i += 1;
                t.push_str(lines[i].trim());
            }
            let inner = &t["__vx_fn_marker!(".len()..t.len() - 2];
            let inner = inner.replace('"', "");
            total = inner.split(',').next().and_then(|k| _u.fns.get(k.trim())).and_then(|f| f.total.clone());
            out.push(format!("// vx-fn: {inner}"));
        } else if let (Some(c), Some(x)) = (&total, l.trim().strip_prefix("__vx_assert!(").and_then(|x| x.strip_suffix(");")).filter(|x| *x != "false")) {
            out.push(format!("assert(({c}) ==> ({x}));"));
            out.push(format!("vx_checked({x});"));
        } else if total.is_some() && l.contains("vx_unreachable()") {
            out.push(l.replace("vx_unreachable()", &format!("vx_refuse(Ghost({}))", total.as_ref().unwrap())));
        } else if l.contains("__vx_assert!(") {
            out.push(l.replace("__vx_assert!(", "assert("));
        } else {
            out.push(l.to_string());
        }
        i += 1;
    }
    out.join("\n")
}

/// adds the clauses of `b` to the clauses of the contract `a`
fn merge_contract(a: &str, b: &str) -> String {
    let mut secs: Vec<(String, String)> = ["requires", "ensures", "decreases"].iter().map(|k| (k.to_string(), String::new())).collect();
    for t in [a, b] {
        let mut cur = 0usize;
        for l in t.lines() {
            let mut l = l;
            for (i, k) in ["requires", "ensures", "decreases"].iter().enumerate() {
                if let Some(r) = l.strip_prefix(k) {
                    cur = i;
                    l = r;
                    break;
                }
            }
            if l.trim().is_empty() {
                continue;
            }
            let s = &mut secs[cur].1;
            s.push_str("    ");
            s.push_str(l.trim());
            if !l.trim().ends_with(',') && t.lines().last().map(str::trim) == Some(l.trim()) {
                s.push(',');
            }
            s.push('\n');
        }
    }
    secs.into_iter().filter(|s| !s.1.is_empty()).map(|(k, s)| format!("{k}\n{s}")).collect()
}
