//! Collecting items from the real source files.
use crate::model::*;
use crate::unit::Unit;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::*;

pub enum Cfg {
    Keep,
    Drop,
}

pub fn cfg_of(attrs: &[Attribute]) -> Cfg {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let t = a.meta.to_token_stream().to_string().replace(' ', "");
            if t == "cfg(debug_assertions)" {
                continue;
            }
            if t == "cfg(not(debug_assertions))" || t == "cfg(test)" {
                return Cfg::Drop;
            }
            if t == "cfg(not(test))" {
                continue;
            }
            // any other cfg (features): off
            return Cfg::Drop;
        }
    }
    Cfg::Keep
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => t.to_token_stream().to_string(),
    }
}

fn t_macro(p: &mut Program, m: &ItemMacro) {
    let name = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
    if name != "T" {
        return;
    }
    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let mut i = 0;
    while i + 3 < toks.len() + 1 {
        if let (Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) = (toks.get(i), toks.get(i + 3)) {
            let key = a.stream().to_string();
            let body: TokenStream = b.stream();
            let parts: Vec<String> = body
                .into_iter()
                .filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None })
                .collect();
            if parts.len() >= 2 {
                p.tmacro.insert(key, format!("{}::{}", parts[parts.len() - 2], parts[parts.len() - 1]));
            }
            i += 4;
            if let Some(TokenTree::Punct(_)) = toks.get(i) {
                i += 1;
            }
        } else {
            break;
        }
    }
}

pub fn add_fn(p: &mut Program, key: String, impl_idx: Option<usize>, sig: Signature, block: Block, file: &str) {
    let line = sig.ident.span().start().line;
    p.fns.push(FnItem {
        key: key.clone(),
        impl_idx,
        sig,
        block,
        file: file.to_string(),
        line,
        kind: "real",
        origin: key,
        requires_not_at_end: false,
        leading_asserts: vec![],
    });
}

pub fn collect(p: &mut Program, u: &Unit, repo: &str) {
    p.modules.extend(u.modules.iter().cloned());
    for (path, only) in &u.sources {
        let before = p.fns.len();
        let full = format!("{repo}/{path}");
        let text = std::fs::read_to_string(&full).unwrap_or_else(|e| {
            eprintln!("vx: cannot read {full}: {e}");
            std::process::exit(3)
        });
        let file = parse_file(&text).unwrap_or_else(|e| {
            eprintln!("vx: cannot parse {full}: {e}");
            std::process::exit(3)
        });
        let stem = std::path::Path::new(path).file_stem().unwrap().to_str().unwrap().to_string();
        p.modules.insert(stem);
        let want = |n: &str| -> bool {
            if u.skips.iter().any(|s| s == n) {
                return false;
            }
            match only {
                None => true,
                Some(v) => v.iter().any(|x| x == n),
            }
        };
        for it in crate::passes3::expand_items(file.items, &u.itemmacros) {
            match it {
                Item::Struct(s) => {
                    if let Cfg::Drop = cfg_of(&s.attrs) {
                        continue;
                    }
                    if want(&s.ident.to_string()) {
                        p.structs.push(s)
                    }
                }
                Item::Enum(s) => {
                    if let Cfg::Drop = cfg_of(&s.attrs) {
                        continue;
                    }
                    if want(&s.ident.to_string()) {
                        p.enums.push(s)
                    }
                }
                Item::Trait(s) => {
                    if want(&s.ident.to_string()) && !u.blanket.iter().any(|b| s.ident == b.0) {
                        p.traits.push(s)
                    }
                }
                Item::Type(s) => {
                    if want(&s.ident.to_string()) {
                        p.aliases.push(s)
                    }
                }
                Item::Static(s) => {
                    if want(&s.ident.to_string()) {
                        p.statics.push(StaticItem { name: s.ident.to_string(), ty: *s.ty, expr: *s.expr })
                    }
                }
                Item::Const(s) => {
                    if want(&s.ident.to_string()) {
                        p.statics.push(StaticItem { name: s.ident.to_string(), ty: *s.ty, expr: *s.expr })
                    }
                }
                Item::Fn(f) => {
                    if let Cfg::Drop = cfg_of(&f.attrs) {
                        continue;
                    }
                    let n = f.sig.ident.to_string();
                    if want(&n) {
                        let (mut sig, mut n) = (f.sig, n);
                        if n == "main" {
                            n = "vx_main".into();
                            sig.ident = Ident::new(&n, sig.ident.span());
                        }
                        add_fn(p, n, None, sig, *f.block, path);
                    }
                }
                Item::Macro(m) => t_macro(p, &m),
                Item::Mod(m) => {
                    if let Cfg::Keep = cfg_of(&m.attrs) {
                        p.modules.insert(m.ident.to_string());
                    }
                }
                Item::Impl(im) => {
                    if let Cfg::Drop = cfg_of(&im.attrs) {
                        continue;
                    }
                    let tn = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if let Some(t) = &tr {
                        // trait impls are extracted on request only
                        let id = format!("{t} for {tn}");
                        if !u.impls.iter().any(|i| *i == id || *i == format!("{t} for *")) && !u.blanket.iter().any(|b| b.0 == *t) {
                            continue;
                        }
                    } else if u.skips.contains(&tn) {
                        continue;
                    }
                    let inherent = tr.as_ref().is_some_and(|t| u.inherent.contains(&format!("{t} for {tn}")));
                    let idx = p.impls.len();
                    let mut hdr = ImplHdr {
                        generics: im.generics.clone(),
                        self_ty: (*im.self_ty).clone(),
                        self_name: tn.clone(),
                        trait_: if inherent { None } else { im.trait_.as_ref().map(|(_, p, _)| p.clone()) },
                        assoc: vec![],
                    };
                    let mut fns = vec![];
                    for i in im.items {
                        match i {
                            ImplItem::Fn(f) => {
                                if let Cfg::Drop = cfg_of(&f.attrs) {
                                    continue;
                                }
                                let key = format!("{tn}::{}", f.sig.ident);
                                if u.skips.contains(&key) {
                                    continue;
                                }
                                if let Some(v) = only {
                                    let by_trait = tr.as_ref().is_some_and(|t| {
                                        u.blanket.iter().any(|b| b.0 == *t) && (v.contains(t) || v.contains(&format!("{t}::{}", f.sig.ident)))
                                    });
                                    if !v.contains(&key) && !v.contains(&tn) && !by_trait {
                                        continue;
                                    }
                                }
                                fns.push((key, f.sig, f.block));
                            }
                            _ if inherent => {}
                            other => hdr.assoc.push(other),
                        }
                    }
                    if fns.is_empty() {
                        continue;
                    }
                    if let (Some(t), Some((_, tys))) = (&tr, u.blanket.iter().find(|b| Some(&b.0) == tr.as_ref())) {
                        // `impl<R: Bound> Trait for R`: one inherent impl per listed type
                        for ty in tys {
                            let idx = p.impls.len();
                            p.impls.push(ImplHdr {
                                generics: Generics::default(),
                                self_ty: parse_str(ty).unwrap(),
                                self_name: ty.clone(),
                                trait_: None,
                                assoc: vec![],
                            });
                            for (_, sig, block) in &fns {
                                let key = format!("{ty}::{}", sig.ident);
                                let tk = format!("{t}::{}", sig.ident);
                                if u.skips.contains(&tk) || u.skips.contains(&key) {
                                    continue;
                                }
                                add_fn(p, key, Some(idx), sig.clone(), block.clone(), path);
                                p.fns.last_mut().unwrap().origin = tk;
                            }
                        }
                        continue;
                    }
                    p.impls.push(hdr);
                    for (key, sig, block) in fns {
                        add_fn(p, key, Some(idx), sig, block, path);
                    }
                }
                _ => {}
            }
        }
        // free functions of the same name in two files: the later file's one is qualified
        let stem = std::path::Path::new(path).file_stem().unwrap().to_str().unwrap().to_string();
        let dup: Vec<String> = p.fns[before..]
            .iter()
            .filter(|f| f.impl_idx.is_none() && p.fns[..before].iter().any(|g| g.key == f.key))
            .map(|f| f.key.clone())
            .collect();
        if !dup.is_empty() {
            struct Ren<'a>(&'a [String], &'a str);
            impl syn::visit_mut::VisitMut for Ren<'_> {
                fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
                    if let Some(i) = e.path.get_ident() {
                        if self.0.iter().any(|d| i == d) {
                            let n = Ident::new(&format!("{}__{i}", self.1), i.span());
                            e.path = n.into();
                        }
                    }
                }
            }
            for f in p.fns[before..].iter_mut() {
                syn::visit_mut::VisitMut::visit_block_mut(&mut Ren(&dup, &stem), &mut f.block);
                if f.impl_idx.is_none() && dup.contains(&f.key) {
                    let n = format!("{stem}__{}", f.key);
                    f.sig.ident = Ident::new(&n, f.sig.ident.span());
                    f.key = n.clone();
                    f.origin = n;
                }
            }
        }
    }
    for (f, call, decl) in &u.closures {
        lift(p, f, call, decl);
    }
    p.fns.retain(|g| (!u.closures.iter().any(|(f, _, _)| *f == g.key) || u.fns.contains_key(&g.key)) && !u.skips.contains(&g.key));
}

/// The closure passed to `call` in function `f` becomes the function declared by `decl` (captured variables and
/// closure parameters by name); the call is replaced by `<call>_NAME(params)`.
fn lift(p: &mut Program, f: &str, call: &str, decl: &str) {
    let Ok(mut sig) = syn::parse_str::<ItemFn>(&format!("{decl} {{}}")).map(|i| i.sig) else {
        p.unsupported.push(format!("@closure {f} {call}: bad declaration"));
        return;
    };
    let names: Vec<Ident> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.clone()),
                _ => None,
            },
            _ => None,
        })
        .collect();
    // `.call`: the receiver is handed to the replacement as well
    let recv = call.starts_with('.');
    let call = call.trim_start_matches('.');
    // name of the replacement, what it takes, whether the receiver goes first
    struct Find<'a>(&'a str, Option<ExprClosure>, Ident, &'a [Ident], bool);
    impl syn::visit_mut::VisitMut for Find<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let args = match e {
                Expr::MethodCall(m) if m.method == self.0 => Some(&m.args),
                Expr::Call(c) => match &*c.func {
                    Expr::Path(q) if quote::quote!(#q).to_string().replace(' ', "") == self.0 => Some(&c.args),
                    _ => None,
                },
                _ => None,
            };
            if let (Some(a), None) = (args, &self.1) {
                if let Some(Expr::Closure(c)) = a.last() {
                    let c = c.clone();
                    self.1 = Some(c.clone());
                    // captured variables only: the closure's own parameters come first
                    let own = c.inputs.iter().filter(|q| !matches!(q, Pat::Ident(i) if i.ident.to_string().starts_with('_'))).count();
                    let (t, captured) = (&self.2, self.3.iter().skip(own));
                    *e = match &*e {
                        Expr::MethodCall(m) if self.4 => {
                            let r = &m.receiver;
                            syn::parse_quote!(#t(#r, #(#captured),*))
                        }
                        _ => syn::parse_quote!(#t(#(#captured),*)),
                    };
                    return;
                }
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
    let target = Ident::new(&format!("vx_call_{}", sig.ident), sig.ident.span());
    let mut file = None;
    for g in p.fns.iter_mut().filter(|g| g.key == f || g.origin == f) {
        let mut v = Find(call, None, target.clone(), &names, recv);
        syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut g.block);
        if let Some(c) = v.1 {
            let body: Block = match *c.body.clone() {
                Expr::Block(b) => b.block,
                e => syn::parse_quote!({ #e }),
            };
            file = Some((g.file.clone(), body, g.line, c));
        }
        break;
    }
    let Some((file, body, line, c)) = file else {
        p.unsupported.push(format!("@closure {f} {call}: no such closure"));
        return;
    };
    let key = sig.ident.to_string();
    p.note(format!("closure passed to {call} in {f} lifted to function {key}"));
    // closure parameters take the declared names, in order from the first
    let mut k = 0;
    for q in &c.inputs {
        if let Pat::Ident(i) = q {
            if i.ident.to_string().starts_with('_') {
                continue;
            }
            if let Some(FnArg::Typed(t)) = sig.inputs.iter_mut().nth(k) {
                *t.pat = q.clone();
            }
            k += 1;
        }
    }
    add_fn(p, key, None, sig, body, &file);
    p.fns.last_mut().unwrap().line = line;
}
