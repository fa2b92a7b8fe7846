//! vx: extracts the real functions of /repo, mechanically rewrites them to the subset Verus accepts,
//! attaches the contracts of a unit file and writes one Verus file.
mod auto;
mod collect;
mod emit;
mod model;
mod passes;
mod passes2;
mod passes3;
mod unit;
use model::*;
use passes::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;

/// the discriminants of a field-less enum as a function, and its inverse
fn ordinals(e: &syn::ItemEnum) -> (String, bool) {
    let n = e.ident.to_string();
    let mut next: i128 = 0;
    let mut ok = true;
    let mut vs: Vec<(i128, String)> = vec![];
    for v in &e.variants {
        if let Some((_, d)) = &v.discriminant {
            match d {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => next = i.base10_parse().unwrap_or(-1),
                _ => ok = false,
            }
        }
        vs.push((next, v.ident.to_string()));
        next += 1;
    }
    let max = vs.iter().map(|v| v.0).max().unwrap_or(0);
    let last = &vs[vs.len() - 1].1;
    let chain = |v: &[(i128, String)]| -> String { v.iter().map(|(i, k)| format!("if i == {i} {{ {n}::{k} }} else ")).collect() };
    let arms: String = vs.iter().map(|(i, k)| format!("        {n}::{k} => {i},\n")).collect();
    let mut t = format!("/// discriminants of {n}, from its declaration\nspec fn {n}_ord(k: {n}) -> int {{\n    match k {{\n{arms}    }}\n}}\nspec fn {n}_from(i: int) -> {n} {{ {}{{ {n}::{last} }} }}\nspec fn {n}_max() -> int {{ {max} }}\n", chain(&vs));
    // kinds the lexer's patterns are attached to
    let lexed: Vec<String> = e
        .variants
        .iter()
        .filter(|v| v.attrs.iter().any(|a| a.path().is_ident("token") || a.path().is_ident("regex")))
        .map(|v| format!("{n}::{}", v.ident))
        .collect();
    if !lexed.is_empty() {
        t.push_str(&format!("/// the variants of {n} with a pattern for the lexer\nspec fn {n}_lexed(k: {n}) -> bool {{ match k {{ {} => true, _ => false }} }}\n", lexed.join(" | ")));
    }
    let mut disp = String::new();
    for (c, part) in vs.chunks(20).enumerate() {
        let (lo, hi) = (part[0].0, part[part.len() - 1].0);
        let l = &part[part.len() - 1].1;
        t.push_str(&format!("proof fn {n}_witness_{c}(i: int) -> (k: {n})\n    requires {lo} <= i <= {hi},\n    ensures {n}_ord(k) == i,\n{{ {}{{ {n}::{l} }} }}\n", chain(&part[..part.len() - 1])));
        disp.push_str(&format!("if {lo} <= i <= {hi} {{ {n}_witness_{c}(i) }} else "));
    }
    t.push_str(&format!("/// every number up to the largest discriminant is one\nproof fn {n}_witness(i: int) -> (k: {n})\n    requires 0 <= i <= {max},\n    ensures {n}_ord(k) == i,\n{{ {disp}{{ {n}::{last} }} }}\n"));
    (t, ok)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx UNIT REPO OUT.rs OUT.json");
        std::process::exit(2);
    }
    let mut u = unit::Unit::load(&a[1]);
    u.vacuity = a.get(5).and_then(|x| x.strip_prefix("--vacuity=")).unwrap_or("").to_string();
    let mut p = Program::default();
    collect::collect(&mut p, &u, &a[2]);
    for f in p.fns.iter_mut() {
        Clean.visit_block_mut(&mut f.block);
    }
    for e in p.enums.iter() {
        if u.ordinals.contains(&e.ident.to_string()) {
            let (t, ok) = ordinals(e);
            u.verbatim.push(t);
            if !ok {
                p.unsupported.push(format!("discriminants of {}", e.ident));
            }
        }
    }
    for e in p.enums.iter_mut() {
        e.attrs.clear();
    }
    for (path, name) in u.regexes.clone() {
        // the pattern of a static regex is read from the source; matching it stays uninterpreted
        match passes3::regex_literal(&a[2], &path, &name) {
            Some(l) => {
                u.verbatim.push(format!(
                    "#[verifier::external_body]\nfn vx_re_{name}(s: &str) -> (r: bool) ensures r == re_match({l:?}@, s@) {{ unimplemented!() }}\n"
                ));
                u.rewrites.push((format!("{name}.is_match(__x)"), format!("vx_re_{name}(__x)")));
            }
            None => p.unsupported.push(format!("pattern of {name}")),
        }
    }
    if u.ruletable {
        match passes3::rule_table(&a[2]) {
            Some(names) => {
                u.verbatim.push(passes3::rule_table_text(&names));
                u.rewrites.push(("RULE_DEFINITIONS".into(), "vx_rule_definitions()".into()));
            }
            None => p.unsupported.push("table of rule definitions".into()),
        }
    }
    // macros
    let tm = p.tmacro.clone();
    {
        let mut m = Macros { tmacro: &tm, unsupported: vec![], notes: vec![], n: 0, keep: false };
        for i in 0..p.fns.len() {
            m.keep = u.keepformat.iter().any(|k| *k == p.fns[i].key);
            let before = m.unsupported.len();
            let mut b = p.fns[i].block.clone();
            m.visit_block_mut(&mut b);
            p.fns[i].block = b;
            let k = p.fns[i].key.clone();
            for x in m.unsupported[before..].iter_mut() {
                *x = format!("{k}: {x}");
            }
        }
        for s in p.statics.iter_mut() {
            m.visit_expr_mut(&mut s.expr);
        }
        p.unsupported.extend(m.unsupported.clone());
        for n in m.notes.clone() {
            p.note(n);
        }
    }
    let mut rt = passes2::Retype::new(&u);
    for f in p.fns.iter_mut() {
        rt.visit_block_mut(&mut f.block);
        rt.visit_signature_mut(&mut f.sig);
    }
    let mods = p.modules.clone();
    let mut fl = FlattenPaths { modules: &mods };
    for f in p.fns.iter_mut() {
        fl.visit_block_mut(&mut f.block);
        fl.visit_signature_mut(&mut f.sig);
    }
    for s in p.structs.iter_mut() {
        fl.visit_item_struct_mut(s);
    }
    for s in p.enums.iter_mut() {
        fl.visit_item_enum_mut(s);
    }
    for s in p.statics.iter_mut() {
        fl.visit_expr_mut(&mut s.expr);
        fl.visit_type_mut(&mut s.ty);
    }
    hoist(&mut p);
    let mut it = passes3::Iter::default();
    for f in p.fns.iter_mut() {
        rt.visit_block_mut(&mut f.block);
        rt.visit_signature_mut(&mut f.sig);
        if u.iter {
            passes3::Quest.visit_block_mut(&mut f.block);
            passes3::FnSelect { mutable: passes3::mutable_names(&f.sig, &f.block), ..Default::default() }.visit_block_mut(&mut f.block);
        }
        passes2::Shape.visit_block_mut(&mut f.block);
        if u.iter {
            let mut strings = passes3::string_locals(&f.block);
            for a in f.sig.inputs.iter() {
                if let syn::FnArg::Typed(t) = a {
                    use quote::ToTokens;
                    if let syn::Pat::Ident(i) = &*t.pat {
                        if matches!(t.ty.to_token_stream().to_string().replace(' ', "").as_str(), "&str" | "String" | "&String" | "&'staticstr") {
                            strings.push(i.ident.to_string());
                        }
                    }
                }
            }
            it.strings = strings.clone();
            it.visit_block_mut(&mut f.block);
            passes2::Shape.visit_block_mut(&mut f.block);
            passes3::StrEq { strings }.visit_block_mut(&mut f.block);
        }
    }
    for h in p.impls.iter_mut() {
        rt.visit_type_mut(&mut h.self_ty);
    }
    for s in p.structs.iter_mut() {
        rt.visit_item_struct_mut(s);
    }
    for s in p.enums.iter_mut() {
        rt.visit_item_enum_mut(s);
    }
    let mut rw = Rewrites::new(&u);
    let ext: BTreeSet<String> = u.fns.iter().filter(|(_, s)| s.external).map(|(k, _)| k.clone()).collect();
    for f in p.fns.iter_mut() {
        if ext.contains(&f.key) {
            continue;
        }
        rw.visit_block_mut(&mut f.block);
    }
    {
        let sigs = Sigs::build(&p);
        for i in 0..p.fns.len() {
            let env = fn_env(&p, &sigs, &p.fns[i]);
            let mut d = Desugar { sigs: &sigs, env };
            let mut b = p.fns[i].block.clone();
            d.visit_block_mut(&mut b);
            p.fns[i].block = b;
        }
    }
    lift_closures(&mut p);
    defunctionalize(&mut p);
    // rewrites once more (closures lifted, combinators desugared)
    for f in p.fns.iter_mut() {
        if ext.contains(&f.key) {
            continue;
        }
        rw.visit_block_mut(&mut f.block);
    }
    for f in p.fns.iter_mut() {
        passes2::Uncontinue::new().visit_block_mut(&mut f.block);
    }
    passes2::effects(&mut p, &u);
    mut_self(&mut p);
    if u.auto_parser {
        // the contents of a literal recovery set are dropped: the contracts hold for every set
        struct Drop(usize);
        impl VisitMut for Drop {
            fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
                syn::visit_mut::visit_expr_method_call_mut(self, m);
                let k = match m.method.to_string().as_str() {
                    "recover" => 0,
                    "expect" | "expect_any" => 1,
                    _ => return,
                };
                if m.args.len() != k + 1 {
                    return;
                }
                if let syn::Expr::Reference(r) = &m.args[k] {
                    if let syn::Expr::Array(a) = &*r.expr {
                        if !a.elems.is_empty() && a.elems.iter().all(|e| matches!(e, syn::Expr::Path(_))) {
                            m.args[k] = syn::parse_quote!(vx_any_set());
                            self.0 += 1;
                        }
                    }
                }
            }
        }
        let mut d = Drop(0);
        for f in p.fns.iter_mut() {
            d.visit_block_mut(&mut f.block);
        }
        let n = d.0;
        p.note(format!("contents of {n} literal recovery sets dropped (contracts hold for every set)"));
    }
    let manual: BTreeSet<String> = u.fns.iter().filter(|(_, s)| s.contract.is_some()).map(|(k, _)| k.clone()).collect();
    let auto: BTreeMap<String, auto::AutoSpec> = if u.auto_parser { auto::synthesize(&p, &manual) } else { BTreeMap::new() };
    let o = emit::emit(&mut p, &mut u, &auto);
    std::fs::write(&a[3], &o.text).unwrap();
    let js = |v: &[String]| -> String {
        let x: Vec<String> = v.iter().map(|s| format!("{s:?}")).collect();
        format!("[{}]", x.join(", "))
    };
    let fns: Vec<String> = p
        .fns
        .iter()
        .map(|f| format!("{{\"key\": {:?}, \"file\": {:?}, \"line\": {}, \"kind\": {:?}, \"origin\": {:?}}}", f.key, f.file, f.line, f.kind, f.origin))
        .collect();
    for (k, v) in &it.applied {
        rw.applied.insert(k.clone(), *v);
    }
    for t in &rt.applied {
        rw.applied.insert(t.clone(), 1);
    }
    let rws: Vec<String> = rw.applied.iter().map(|(k, v)| format!("{k} (x{v})")).collect();
    let json = format!(
        "{{\"functions\": [{}],\n\"under_contract\": {},\n\"external\": {},\n\"no_contract\": {},\n\"lost\": {},\n\"unsupported\": {},\n\"notes\": {},\n\"rewrites\": {}}}\n",
        fns.join(",\n"),
        js(&o.under_contract),
        js(&o.external),
        js(&o.nocontract),
        js(&o.lost),
        js(&p.unsupported),
        js(&p.notes),
        js(&rws)
    );
    std::fs::write(&a[4], json).unwrap();
}
