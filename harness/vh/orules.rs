//! The oracles of the properties, written from the property texts over the untyped tree.
use super::*;
use ludtwig_parser::syntax::untyped::SyntaxKind as K;
use std::collections::{BTreeMap, BTreeSet};

type N = SyntaxNode;
type Tk = SyntaxToken;
type El = SyntaxElement;

macro_rules! need { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

// ---------------------------------------------------------------- tree helpers
fn toks(n: &N) -> Vec<Tk> { n.descendants_with_tokens().filter_map(|e| e.into_token()).collect() }
fn ctoks(n: &N) -> Vec<Tk> { n.children_with_tokens().filter_map(|e| e.into_token()).collect() }
fn kid(n: &N, k: K) -> Option<N> { n.children().find(|c| c.kind() == k) }
fn ktok(n: &N, k: K) -> Option<Tk> { ctoks(n).into_iter().find(|t| t.kind() == k) }
fn trivia(k: K) -> bool { matches!(k, K::TK_WHITESPACE | K::TK_LINE_BREAK) }
fn r(n: &N) -> (usize, usize) { rg(n.text_range()) }
fn rt(t: &Tk) -> (usize, usize) { rg(t.text_range()) }
fn names(dir: &N) -> Vec<String> {
    kid(dir, K::LUDTWIG_DIRECTIVE_RULE_LIST).map(|l| ctoks(&l).into_iter().filter(|t| t.kind() == K::TK_WORD).map(|t| t.text().to_string()).collect()).unwrap_or_default()
}
fn eparent(e: &El) -> Option<N> { e.parent() }
/// rules named by the directive right in front of this element
fn dir_el(e: &El) -> Option<Vec<String>> {
    match e.prev_sibling_or_token() { Some(El::Node(p)) if p.kind() == K::LUDTWIG_DIRECTIVE_IGNORE => Some(names(&p)), _ => None }
}
fn dir_node(n: &N) -> Option<Vec<String>> {
    n.prev_sibling().filter(|p| p.kind() == K::LUDTWIG_DIRECTIVE_IGNORE).map(|p| names(&p))
}
fn hit(d: Option<Vec<String>>, rule: &str) -> bool { d.is_some_and(|l| l.is_empty() || l.iter().any(|x| x == rule)) }
fn in_error(e: &El) -> bool {
    matches!(e, El::Node(n) if n.kind() == K::ERROR) || eparent(e).is_some_and(|p| p.ancestors().any(|a| a.kind() == K::ERROR))
}
/// element seen by the rules of a full traversal
fn visited(e: &El, rule: &str) -> bool {
    if in_error(e) || hit(dir_el(e), rule) { return false; }
    let mut p = eparent(e);
    while let Some(n) = p {
        if hit(dir_el(&El::Node(n.clone())), rule) { return false; }
        p = n.parent();
    }
    true
}
fn visited_n(n: &N, rule: &str) -> bool { visited(&El::Node(n.clone()), rule) }
fn visited_t(t: &Tk, rule: &str) -> bool { visited(&El::Token(t.clone()), rule) }
/// element seen by the rules which walk the tree themselves (nodes decide)
fn root_visited(n: &N, rule: &str) -> bool {
    n.ancestors().all(|a| a.kind() != K::ERROR && !hit(dir_node(&a), rule))
}
fn tag_name(tag: &N) -> Option<Tk> {
    let s = kid(tag, K::HTML_STARTING_TAG)?;
    start_name(&s)
}
fn start_name(s: &N) -> Option<Tk> { ctoks(s).into_iter().find(|t| matches!(t.kind(), K::TK_WORD | K::TK_TWIG_COMPONENT_NAME)) }
fn sens_tag(n: &N) -> bool {
    n.kind() == K::HTML_TAG && tag_name(n).is_some_and(|t| ["pre", "textarea", "script", "style"].contains(&t.text()))
}
fn sens_str(n: &N) -> bool { matches!(n.kind(), K::HTML_STRING_INNER | K::TWIG_LITERAL_STRING_INNER) }
fn inside_for(n: &N) -> bool { n.ancestors().any(|a| sens_tag(&a) || sens_str(&a)) }
fn nl(env: &Env) -> &'static str { if env.crlf { "\r\n" } else { "\n" } }

fn multiset(mut v: Vec<D>) -> Vec<D> { v.sort(); v }
fn same(got: Vec<D>, want: Vec<D>, what: &str) -> Result<(), String> {
    let (g, w) = (multiset(got), multiset(want));
    if g == w { return Ok(()); }
    let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(3).collect();
    let missing: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(3).collect();
    Err(format!("{what}: unexpected {extra:?}, missing {missing:?} ({} reported, {} expected)", g.len(), w.len()))
}
/// keep the parts of a diagnostic that the specifications below fix
fn slim(v: Vec<D>) -> Vec<D> { v.into_iter().map(|mut d| { d.sev = 0; d.sec = vec![]; d }).collect() }
fn dd(rule: &str, at: (usize, usize), sug: Vec<(usize, usize, String)>) -> D { D { rule: rule.into(), sev: 0, at: Some(at), sec: vec![], sug } }

// ---------------------------------------------------------------- parser
fn c01(c: &Case, _e: &Env) -> Res {
    let p = parse(&c.text);
    let t = p.root.text().to_string();
    need!(t == c.text, "tree text differs from the input: {t:?}");
    let mut pos = 0;
    for k in toks(&p.root) {
        need!(rt(&k).0 == pos, "token {k:?} does not start at {pos}");
        pos = rt(&k).1;
        need!(!k.text().is_empty(), "empty token {k:?}");
    }
    need!(pos == c.text.len(), "tokens end at {pos}");
    Ok(true)
}
fn c02(c: &Case, _e: &Env) -> Res {
    let p = parse(&c.text);
    need!(p.root.kind() == K::ROOT, "root node is {:?}", p.root.kind());
    need!(p.root.descendants().filter(|n| n.kind() == K::ROOT).count() == 1, "more than one root node");
    for e in &p.errs { let _ = e.expected_message().len() + format!("{e}").len(); }
    Ok(true)
}
fn c03(c: &Case, _e: &Env) -> Res { let _ = parse(&c.text); Ok(true) }
fn c04(c: &Case, _e: &Env) -> Res {
    use logos::Logos;
    let p = parse(&c.text);
    let mut lx = K::lexer(&c.text);
    let mut v: Vec<((usize, usize), K)> = vec![];
    while let Some(k) = lx.next() { let s = lx.span(); v.push(((s.start, s.end), k.unwrap_or(K::TK_UNKNOWN))); }
    for e in &p.errs {
        let x = rg(e.range);
        if let Some(k) = e.found {
            need!(v.iter().any(|t| *t == (x, k)), "error {e} ({k:?}) does not point at a token of that kind");
        } else if v.is_empty() {
            need!(x == (0, 0), "error {e} of an empty file has a range");
        } else {
            need!(v.last().unwrap().0 == x, "error {e} at the end of the file is not at the last token");
        }
    }
    Ok(!p.errs.is_empty())
}

// ---------------------------------------------------------------- fixing
fn reference_apply(text: &str, mut s: Vec<(usize, usize, String)>) -> Option<String> {
    s.sort_by_key(|x| (x.0, x.1));
    let mut o = String::new();
    let mut pos = 0;
    for (a, b, w) in s {
        if a < pos { return None; }
        o.push_str(text.get(pos..a)?);
        o.push_str(&w);
        pos = b;
    }
    o.push_str(text.get(pos..)?);
    Some(o)
}
fn overlap(a: &(usize, usize, String), b: &(usize, usize, String)) -> bool {
    let (x, y) = if (a.0, a.1) <= (b.0, b.1) { (a, b) } else { (b, a) };
    y.0 < x.1
}
/// One round with the given suggestions: calls the real function with a context without rules, so
/// that it ends after this round.
fn one_round(text: &str, env: &Env, sug: &[(&'static str, (usize, usize, String))]) -> Result<Option<String>, String> {
    let mk = || -> Vec<CheckResult> {
        sug.iter().map(|(rule, s)| CheckResult {
            rule_name: rule, severity: Severity::Help, message: String::new(), primary: None, secondary: vec![],
            suggestions: vec![crate::check::rule::CheckSuggestion { syntax_range: TextRange::new((s.0 as u32).into(), (s.1 as u32).into()), replace_with: s.2.clone(), message: String::new() }],
        }).collect()
    };
    let p = parse(text);
    let ctx = file_ctx(text, config(0, env.crlf), vec![], p.root, p.errs);
    match crate::process::iteratively_apply_suggestions(ctx, mk()) {
        Ok((ctx, _res, dirty, it)) => {
            if dirty != (it > 0) { return Err(format!("changed={dirty} after {it} rounds")); }
            if ctx.tree_root.text().to_string() != ctx.source_code { return Err("the returned tree is not the tree of the returned text".into()); }
            if sug.is_empty() != !dirty { return Err(format!("changed={dirty} with {} suggestions", sug.len())); }
            Ok(Some(ctx.source_code))
        }
        Err(_) => Ok(None),
    }
}
fn check_round(text: &str, env: &Env, sug: &[(&'static str, (usize, usize, String))]) -> Result<bool, String> {
    let got = one_round(text, env, sug)?;
    let rules: Vec<&str> = sug.iter().map(|s| s.0).collect::<BTreeSet<_>>().into_iter().collect();
    let Some(got) = got else {
        let self_overlap = sug.iter().enumerate().any(|(i, a)| sug.iter().skip(i + 1).any(|b| a.0 == b.0 && overlap(&a.1, &b.1)));
        if !self_overlap { return Err("fixing failed although no rule's suggestions overlap each other".into()); }
        return Ok(false);
    };
    if sug.is_empty() { return if got == text { Ok(false) } else { Err("text changed without a suggestion".into()) }; }
    if rules.len() > 10 { return Ok(false); }
    // sets of whole rules first, then (if not found) any subset of few suggestions
    for mask in 1u32..(1 << rules.len()) {
        let set: Vec<_> = sug.iter().filter(|s| mask >> rules.iter().position(|x| *x == s.0).unwrap() & 1 == 1).map(|s| s.1.clone()).collect();
        if set.iter().enumerate().any(|(i, a)| set.iter().skip(i + 1).any(|b| overlap(a, b))) { continue; }
        if variants(text, set, &got) { return Ok(true); }
    }
    if sug.len() <= 10 {
        for mask in 1u32..(1 << sug.len()) {
            let set: Vec<_> = sug.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| s.1.clone()).collect();
            if set.iter().enumerate().any(|(i, a)| set.iter().skip(i + 1).any(|b| overlap(a, b))) { continue; }
            if variants(text, set, &got) { return Ok(true); }
        }
    }
    Err(format!("the new text is not the old one with a set of non overlapping suggestions applied: {got:?} from {sug:?}"))
}
/// several insertions at one place may be applied in either order
fn variants(text: &str, set: Vec<(usize, usize, String)>, got: &str) -> bool {
    let mut set = set;
    set.sort_by_key(|x| (x.0, x.1));
    fn go(text: &str, s: &mut Vec<(usize, usize, String)>, i: usize, got: &str, budget: &mut u32) -> bool {
        if *budget == 0 { return false; }
        if i == s.len() { *budget -= 1; return reference_apply(text, s.clone()).as_deref() == Some(got); }
        for j in i..s.len() {
            if j > i && (s[j].0, s[j].1) != (s[i].0, s[i].1) { break; }
            if j > i && s[j].2 == s[i].2 { continue; }
            s.swap(i, j);
            if go(text, s, i + 1, got, budget) { return true; }
            s.swap(i, j);
        }
        false
    }
    go(text, &mut set, 0, got, &mut 200)
}
fn bounds(text: &str) -> Vec<usize> { (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect() }
fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3)) }
fn c05(c: &Case, env: &Env) -> Res {
    // the suggestions of the real rules on this text
    let (_, _, real) = run(c, env, RULES);
    let sug: Vec<(&'static str, (usize, usize, String))> = real.iter().flat_map(|d| {
        let name = *RULES.iter().find(|r| **r == d.rule).unwrap();
        d.sug.iter().map(move |s| (name, s.clone()))
    }).collect();
    for s in &sug { need!(s.1.0 <= s.1.1 && s.1.1 <= c.text.len() && c.text.is_char_boundary(s.1.0) && c.text.is_char_boundary(s.1.1), "suggestion {s:?} is not a range of the text"); }
    let mut nt = check_round(&c.text, env, &sug)?;
    // and any other suggestions from any rules
    let mut g = Rng::new(hash(&c.text) ^ u64::from(c.cfg));
    let b = bounds(&c.text);
    for _ in 0..12 {
        let mut set: Vec<(&'static str, (usize, usize, String))> = vec![];
        for _ in 0..1 + g.below(6) {
            let a = g.below(b.len());
            let l = match g.below(4) { 0 => 0, 1 => 1, 2 => g.below(4), _ => g.below(b.len()) };
            let e = (a + l).min(b.len() - 1);
            let w = *g.pick::<&str>(&[&"", &"x", &"é", &"YY", &"\n", &"{"]);
            set.push((RULES[g.below(5)], (b[a], b[e], w.to_string())));
        }
        nt |= check_round(&c.text, env, &set)?;
    }
    Ok(nt)
}
fn c06(c: &Case, env: &Env) -> Res {
    let p = parse(&c.text);
    let cfg = config(c.cfg, env.crlf);
    let mk = |t: &str| { let p = parse(t); file_ctx(t, cfg.clone(), RULES.iter().map(|r| rule(r)).collect(), p.root, p.errs) };
    let ctx = mk(&c.text);
    let res = run_rules(&ctx);
    let had = res.iter().any(|r| !r.suggestions.is_empty());
    match crate::process::iteratively_apply_suggestions(ctx, res) {
        Err(_) => Ok(false),
        Ok((ctx, res, dirty, it)) => {
            need!(it < 11, "{it} rounds");
            need!(dirty == (it > 0) && dirty == had, "changed={dirty} after {it} rounds, suggestions at first: {had}");
            need!(dirty || ctx.source_code == c.text, "unchanged file has another text");
            need!(ctx.tree_root.text().to_string() == ctx.source_code, "the returned tree is not the tree of the returned text");
            let fresh = mk(&ctx.source_code);
            let f = ds(&run_rules(&fresh));
            same(ds(&res), f, "diagnostics of the fixed text")?;
            need!(res.iter().all(|r| r.suggestions.is_empty()), "suggestions remain");
            let e1: Vec<_> = ctx.parse_errors.iter().map(|e| (rg(e.range), e.expected_message())).collect();
            let e2: Vec<_> = fresh.parse_errors.iter().map(|e| (rg(e.range), e.expected_message())).collect();
            need!(e1 == e2, "syntax errors are not those of the fixed text");
            Ok(dirty)
        }
    }
}

// ---------------------------------------------------------------- run_rules
const ROOT_RULES: &[&str] = &["indentation", "twig-block-duplicate", "html-duplicate-id"];
fn c08(c: &Case, env: &Env) -> Res {
    let mut nt = false;
    let (root, cfg, got) = run(c, env, RULES);
    let mut want = vec![];
    let (ctx_in, ctx_out) = (run_ctx(&cfg, true), run_ctx(&cfg, false));
    for e in root.descendants_with_tokens() {
        if in_error(&e) { continue; }
        let inside = match &e { El::Node(n) => inside_for(n), El::Token(t) => t.parent().is_some_and(|p| inside_for(&p)) };
        let ctx = if inside { &ctx_in } else { &ctx_out };
        for name in RULES.iter().filter(|r| !ROOT_RULES.contains(r)) {
            let v = match &e { El::Node(n) => rule(name).check_node(n.clone(), ctx), El::Token(t) => rule(name).check_token(t.clone(), ctx) };
            let Some(v) = v else { continue };
            if visited(&e, name) { want.extend(ds(&v)); } else { nt = true; }
        }
    }
    let (g_root, g_rest): (Vec<D>, Vec<D>) = got.into_iter().partition(|d| ROOT_RULES.contains(&d.rule.as_str()));
    same(g_rest, want, "diagnostics with ignore directives")?;
    let mut want = indentation_spec(&root, &cfg, true);
    want.extend(duplicates_spec(&root));
    same(slim(g_root), slim(want), "diagnostics of the tree walking rules with ignore directives")?;
    nt |= root.descendants().any(|n| n.kind() == K::LUDTWIG_DIRECTIVE_IGNORE);
    Ok(nt)
}
fn c10(c: &Case, env: &Env) -> Res {
    let (root, _, got) = run(c, env, &["indentation", "twig-block-line-breaks"]);
    let mut nt = false;
    for n in root.descendants() {
        let (tag, s) = (sens_tag(&n), sens_str(&n));
        if !tag && !s { continue; }
        nt = true;
        let first = toks(&n).into_iter().find(|t| !trivia(t.kind()));
        let (mut a, b) = r(&n);
        if let (true, Some(f)) = (tag, first) { a = rt(&f).0; }
        for d in &got {
            if s && d.rule != "twig-block-line-breaks" { continue; }
            for x in &d.sug {
                let inside = if tag { (x.0 > a && x.0 < b) || (x.0 < b && x.1 > a && x.1 > x.0) } else { x.0 > a && x.1 < b || (x.0 < b && x.1 > a && x.1 > x.0) };
                need!(!inside, "{} suggests a change at {}..{} inside {:?} at {a}..{b}", d.rule, x.0, x.1, n.kind());
            }
        }
    }
    Ok(nt && !got.is_empty())
}

// ---------------------------------------------------------------- naming
fn snake(s: &str, upper: bool) -> bool {
    s.split('_').all(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit() || if upper { b.is_ascii_uppercase() } else { b.is_ascii_lowercase() }))
}
fn kebab(s: &str) -> bool {
    let mut it = s.chars();
    let Some(f) = it.next() else { return false };
    let low = |c: char| c.is_ascii_digit() || c.is_ascii_lowercase();
    let rest: String = it.collect();
    (low(f) || ":@#".contains(f)) && rest.chars().all(|c| low(c) || c == '-') && !rest.contains("--") && !rest.ends_with('-')
}
fn camel(s: &str) -> bool {
    let t = s.trim_start_matches('_');
    t.is_empty() || (t.starts_with(|c: char| c.is_ascii_lowercase()) && !t.contains(['_', '-']))
}
fn letters(s: &str) -> String { s.chars().filter(|c| c.is_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect() }
fn rename_ok(from: &str, to: &str, ok: bool) -> Result<(), String> {
    need!(!to.is_empty(), "empty name suggested for {from:?}");
    need!(ok, "suggested name {to:?} for {from:?} is rejected itself");
    need!(letters(from) == letters(to), "suggested name {to:?} does not keep the letters of {from:?}");
    Ok(())
}
fn c11(c: &Case, env: &Env) -> Res {
    use crate::check::naming_convention as nc;
    let w = c.text.as_str();
    if w.len() <= 24 && !w.is_empty() {
        for up in [false, true] {
            need!(nc::is_valid_ascii_alpha_snake_case(w, up) == snake(w, up), "snake case (screaming {up}) of {w:?} judged {}", !snake(w, up));
            if let Some(t) = nc::try_make_snake_case(w, up) { rename_ok(w, &t, snake(&t, up))?; }
        }
        need!(nc::is_valid_alphanumeric_kebab_case(w) == kebab(w), "kebab case of {w:?} judged {}", !kebab(w));
        if let Some(t) = nc::try_make_kebab_case(w) { rename_ok(w, &t, kebab(&t))?; }
        need!(nc::is_camel_case(w) == camel(w), "camel case of {w:?} judged {}", !camel(w));
    }
    // the rules report exactly the rejected names
    let mut nt = false;
    let (root, _, got) = run(c, env, &["twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-variable-definition-naming"]);
    let mut want: BTreeSet<(String, (usize, usize))> = BTreeSet::new();
    for n in root.descendants() {
        match n.kind() {
            K::TWIG_STARTING_BLOCK => if let Some(t) = ktok(&n, K::TK_WORD) {
                nt = true;
                if !snake(t.text(), false) && visited_n(&n, "twig-block-name-snake-case") { want.insert(("twig-block-name-snake-case".into(), rt(&t))); }
            },
            K::HTML_ATTRIBUTE => if let Some(t) = ktok(&n, K::TK_WORD) {
                let Some(tag) = n.parent().and_then(|p| p.parent()).filter(|g| g.kind() == K::HTML_STARTING_TAG) else { continue };
                if ktok(&tag, K::TK_TWIG_COMPONENT_NAME).is_some() { continue; }
                nt = true;
                if !kebab(t.text()) && visited_n(&n, "html-attribute-name-kebab-case") { want.insert(("html-attribute-name-kebab-case".into(), rt(&t))); }
            },
            K::TWIG_ASSIGNMENT | K::TWIG_FOR_BLOCK => {
                let constant = n.kind() == K::TWIG_ASSIGNMENT && kid(&n, K::TWIG_EXPRESSION).and_then(|e| kid(&e, K::TWIG_FUNCTION_CALL)).and_then(|f| kid(&f, K::TWIG_OPERAND)).and_then(|o| kid(&o, K::TWIG_LITERAL_NAME)).and_then(|l| ktok(&l, K::TK_WORD)).is_some_and(|t| t.text() == "constant");
                for l in n.children().filter(|x| x.kind() == K::TWIG_LITERAL_NAME) {
                    let Some(t) = ktok(&l, K::TK_WORD) else { continue };
                    nt = true;
                    let ok = if constant { snake(t.text(), true) } else { camel(t.text()) };
                    if !ok && visited_n(&n, "twig-variable-definition-naming") { want.insert(("twig-variable-definition-naming".into(), rt(&t))); }
                }
            }
            _ => {}
        }
    }
    let have: Vec<_> = got.iter().map(|d| (d.rule.clone(), d.at.unwrap_or((0, 0)))).collect();
    let set: BTreeSet<_> = have.iter().cloned().collect();
    need!(set.len() == have.len(), "a name is reported twice");
    need!(set == want, "reported names differ: only reported {:?}, only expected {:?}", set.difference(&want).collect::<Vec<_>>(), want.difference(&set).collect::<Vec<_>>());
    for d in &got {
        for s in &d.sug {
            need!(Some((s.0, s.1)) == d.at, "rename does not replace the name");
            let from = &c.text[s.0..s.1];
            rename_ok(from, &s.2, if d.rule.starts_with("twig-block") { snake(&s.2, false) } else { kebab(&s.2) })?;
        }
    }
    Ok(nt || w.len() <= 24)
}

// ---------------------------------------------------------------- trivia rules
fn c12(c: &Case, env: &Env) -> Res {
    let (root, _, got) = run(c, env, &["line-ending"]);
    let mut want = vec![];
    let mut nt = false;
    for t in toks(&root).iter().filter(|t| t.kind() == K::TK_LINE_BREAK && visited_t(t, "line-ending")) {
        nt = true;
        let base = rt(t).0;
        let b = t.text().as_bytes();
        let mut i = 0;
        while i < b.len() {
            let l = if b[i] == b'\n' { 1 } else if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') { 2 } else { i += 1; continue };
            if (l == 2) != env.crlf { want.push(dd("line-ending", (base + i, base + i + l), vec![(base + i, base + i + l, nl(env).into())])); }
            i += l;
        }
    }
    let sug: Vec<_> = got.iter().flat_map(|d| d.sug.clone()).collect();
    same(slim(got), want, "line endings")?;
    let fixed = reference_apply(&c.text, sug).ok_or("overlapping suggestions")?;
    need!(fixed.split('\n').count() == c.text.split('\n').count(), "number of lines changed");
    Ok(nt)
}
fn is_quote(k: K) -> bool { matches!(k, K::TK_SINGLE_QUOTES | K::TK_DOUBLE_QUOTES) }
fn c13(c: &Case, env: &Env) -> Res {
    let (root, cfg, got) = run(c, env, &["twig-string-quotation", "html-string-quotation"]);
    let mut want = vec![];
    let mut nt = false;
    for n in root.descendants() {
        let (rule, q, ik, twig) = match n.kind() {
            K::TWIG_LITERAL_STRING => ("twig-string-quotation", &cfg.format.twig_quotation, K::TWIG_LITERAL_STRING_INNER, true),
            K::HTML_STRING => ("html-string-quotation", &cfg.format.html_quotation, K::HTML_STRING_INNER, false),
            _ => continue,
        };
        nt = true;
        if !visited_n(&n, rule) { continue; }
        let q = if *q == Quotation::Single { '\'' } else { '"' };
        let inner = kid(&n, ik);
        let (open, close): (Option<Tk>, Option<Tk>) = match &inner {
            Some(i) => (
                ctoks(&n).into_iter().find(|t| is_quote(t.kind()) && rt(t).1 <= r(i).0),
                ctoks(&n).into_iter().rev().find(|t| is_quote(t.kind()) && rt(t).0 >= r(i).1),
            ),
            None => (ctoks(&n).into_iter().find(|t| is_quote(t.kind())), None),
        };
        let interpolated = inner.as_ref().is_some_and(|i| kid(i, K::TWIG_LITERAL_STRING_INTERPOLATION).is_some());
        if twig && q == '\'' && interpolated { continue; }
        let good = |t: &Option<Tk>| t.as_ref().is_some_and(|t| t.text() == q.to_string());
        if good(&open) && good(&close) { continue; }
        let mut sug = vec![];
        if let Some(i) = &inner {
            let text = i.text().to_string();
            let would_interpolate = twig && q == '"' && open.as_ref().is_some_and(|t| t.text() == "'") && text.contains("#{");
            if !text.contains(q) && !would_interpolate {
                let at = |t: &Option<Tk>, p: usize| t.as_ref().map_or((p, p), rt);
                let (o, k) = (at(&open, r(i).0), at(&close, r(i).1));
                sug = vec![(o.0, o.1, q.to_string()), (k.0, k.1, q.to_string())];
            }
        }
        want.push((rule.to_string(), r(&n), sug));
    }
    // the label may leave out leading whitespace
    let mut have: Vec<_> = vec![];
    for d in got {
        let at = d.at.ok_or("no label")?;
        let Some(w) = want.iter().find(|w| w.0 == d.rule && w.1.1 == at.1 && w.1.0 <= at.0 && c.text[w.1.0..at.0].trim().is_empty()) else {
            return Err(format!("{} reported at {at:?} where no string has a wrong quote", d.rule));
        };
        have.push((d.rule, w.1, d.sug));
    }
    let (mut a, mut b) = (have.clone(), want.clone());
    a.sort(); b.sort();
    need!(a == b, "quotes: only reported {:?}, only expected {:?}", a.iter().filter(|x| !b.contains(x)).collect::<Vec<_>>(), b.iter().filter(|x| !a.contains(x)).collect::<Vec<_>>());
    Ok(nt)
}
/// `directives`: also in files with ignore directives
fn indentation_spec(root: &N, cfg: &Config, _directives: bool) -> Vec<D> {
    let f = &cfg.format;
    let ch = if f.indentation_mode == IndentationMode::Tab { "\t" } else { " " };
    let mut want = vec![];
    let mut first = true;
    for t in toks(root) {
        let is_first = first;
        first = t.kind() == K::TK_LINE_BREAK;
        if first || !is_first { continue; }
        let Some(p) = t.parent() else { continue };
        if !root_visited(&p, "indentation") || p.ancestors().any(|a| sens_tag(&a)) { continue; }
        let mut level = 0;
        let mut sub = 0;
        for a in p.ancestors() {
            match a.kind() {
                K::BODY | K::TWIG_ARGUMENTS | K::TWIG_LITERAL_ARRAY_INNER | K::TWIG_LITERAL_HASH_ITEMS | K::TWIG_PROP_DECLARATION
                    if f.indent_children_of_blocks || a.parent().is_none_or(|p| p.kind() != K::TWIG_BLOCK) => level += 1,
                K::HTML_ATTRIBUTE_LIST => if let Some(n) = a.parent().filter(|p| p.kind() == K::HTML_STARTING_TAG).and_then(|p| start_name(&p)) { sub += n.text().chars().count() + 2; },
                _ => {}
            }
        }
        let want_str = format!("{}{}", ch.repeat(level * f.indentation_count as usize), " ".repeat(sub));
        let (a, b) = if t.kind() == K::TK_WHITESPACE { rt(&t) } else { (rt(&t).0, rt(&t).0) };
        let have = if t.kind() == K::TK_WHITESPACE { t.text() } else { "" };
        if have != want_str { want.push(dd("indentation", (a, b), vec![(a, b, want_str)])); }
    }
    want
}
fn c14(c: &Case, env: &Env) -> Res {
    let (root, cfg, got) = run(c, env, &["indentation"]);
    let want = indentation_spec(&root, &cfg, false);
    let nt = !want.is_empty();
    same(slim(got), want, "indentation")?;
    Ok(nt)
}

// ---------------------------------------------------------------- names of filters, tests and functions
fn plain(n: &N) -> Option<Tk> { kid(n, K::TWIG_LITERAL_NAME).and_then(|l| ktok(&l, K::TK_WORD)) }
fn called(n: &N) -> Option<Tk> { kid(n, K::TWIG_FUNCTION_CALL).and_then(|f| kid(&f, K::TWIG_OPERAND)).and_then(|o| plain(&o)) }
fn rhs(n: &N) -> Option<N> {
    let op = ctoks(n).into_iter().find(|t| !trivia(t.kind()))?;
    n.children().find(|x| x.kind() == K::TWIG_EXPRESSION && r(x).0 >= rt(&op).1)
}
fn binop(n: &N) -> Option<Tk> { ctoks(n).into_iter().find(|t| !trivia(t.kind())) }
fn c19(c: &Case, env: &Env) -> Res {
    let (root, cfg, got) = run(c, env, &["twig-valid-filter", "twig-valid-test", "twig-valid-function"]);
    let mut want = vec![];
    let mut nt = false;
    for n in root.descendants() {
        let (rule, t, list) = match n.kind() {
            K::TWIG_FILTER => {
                let Some(op) = n.children().filter(|x| x.kind() == K::TWIG_OPERAND).nth(1) else { continue };
                ("twig-valid-filter", plain(&op).or_else(|| called(&op)), &cfg.twig.valid_filters)
            }
            K::TWIG_BINARY_EXPRESSION if binop(&n).is_some_and(|o| matches!(o.kind(), K::TK_IS | K::TK_IS_NOT)) => {
                let Some(e) = rhs(&n) else { continue };
                ("twig-valid-test", plain(&e).or_else(|| called(&e)), &cfg.twig.valid_tests)
            }
            K::TWIG_FUNCTION_CALL => {
                let p = n.parent();
                if p.as_ref().is_some_and(|p| p.parent().is_some_and(|g| {
                    (g.kind() == K::TWIG_FILTER && g.children().filter(|x| x.kind() == K::TWIG_OPERAND).nth(1).as_ref() == Some(p))
                        || (g.kind() == K::TWIG_BINARY_EXPRESSION && binop(&g).is_some_and(|o| matches!(o.kind(), K::TK_IS | K::TK_IS_NOT)) && rhs(&g).as_ref() == Some(p))
                })) { continue; }
                ("twig-valid-function", kid(&n, K::TWIG_OPERAND).and_then(|o| plain(&o)), &cfg.twig.valid_functions)
            }
            _ => continue,
        };
        let Some(t) = t else { continue };
        nt = true;
        if visited_n(&n, rule) && !list.iter().any(|x| x == t.text()) { want.push(dd(rule, rt(&t), vec![])); }
    }
    same(slim(got), want, "unknown names")?;
    Ok(nt)
}
fn duplicates_spec(root: &N) -> Vec<D> {
    let mut want = vec![];
    let (mut ids, mut blocks): (BTreeMap<String, (usize, usize)>, BTreeMap<String, (usize, usize)>) = Default::default();
    for n in root.descendants() {
        match n.kind() {
            K::HTML_ATTRIBUTE if root_visited(&n, "html-duplicate-id") => {
                if !ktok(&n, K::TK_WORD).is_some_and(|t| t.text() == "id") { continue; }
                let Some(i) = kid(&n, K::HTML_STRING).and_then(|s| kid(&s, K::HTML_STRING_INNER)) else { continue };
                let text = i.text().to_string();
                if text.is_empty() || i.children().next().is_some() { continue; }
                if let Some(f) = ids.get(&text) { want.push(D { sec: vec![*f], ..dd("html-duplicate-id", r(&i), vec![]) }); } else { ids.insert(text, r(&i)); }
            }
            K::TWIG_BLOCK if root_visited(&n, "twig-block-duplicate") => {
                let Some(t) = kid(&n, K::TWIG_STARTING_BLOCK).and_then(|s| ktok(&s, K::TK_WORD)) else { continue };
                let name = t.text().to_string();
                if let Some(f) = blocks.get(&name) { want.push(D { sec: vec![*f], ..dd("twig-block-duplicate", rt(&t), vec![]) }); } else { blocks.insert(name, rt(&t)); }
            }
            _ => {}
        }
    }
    want
}
fn c20(c: &Case, env: &Env) -> Res {
    let (root, _, got) = run(c, env, &["html-duplicate-id", "twig-block-duplicate"]);
    let want = duplicates_spec(&root);
    let nt = !want.is_empty();
    same(got.into_iter().map(|d| D { sev: 0, ..d }).collect(), want, "duplicates")?;
    Ok(nt)
}
fn c21(c: &Case, env: &Env) -> Res {
    let rules = &["twig-logic-and", "twig-logic-or", "twig-use-is-same-as", "twig-use-is-not-same-as", "twig-prefer-shopware-extends", "twig-json-encode-escape-js"];
    let (root, _, got) = run(c, env, rules);
    let mut left = got;
    let mut nt = false;
    let mut take = |rule: &str, f: &dyn Fn(&D) -> bool| -> usize { let before = left.len(); left.retain(|d| !(d.rule == rule && f(d))); before - left.len() };
    for n in root.descendants() {
        if n.kind() == K::TWIG_BINARY_EXPRESSION {
            let Some(op) = binop(&n) else { continue };
            let (rule, word) = match op.kind() {
                K::TK_DOUBLE_AMPERSAND => ("twig-logic-and", "and"), K::TK_DOUBLE_PIPE => ("twig-logic-or", "or"),
                K::TK_TRIPLE_EQUAL => ("twig-use-is-same-as", "is same as"), K::TK_EXCLAMATION_MARK_DOUBLE_EQUALS => ("twig-use-is-not-same-as", "is not same as"),
                _ => continue,
            };
            nt = true;
            if !visited_n(&n, rule) { continue; }
            let o = rt(&op);
            let glued_before = op.prev_token().is_some_and(|t| !trivia(t.kind()));
            let glued_after = op.next_token().is_some_and(|t| !trivia(t.kind()));
            let call = word.starts_with("is");
            let err = std::cell::RefCell::new(None);
            let k = take(rule, &|d| {
                if d.at != Some(o) { return false; }
                if call && d.sug.is_empty() { return true; }
                if d.sug.len() != 1 { *err.borrow_mut() = Some("not one suggestion".to_string()); return true; }
                let (a, b, w) = &d.sug[0];
                if glued_before && !w.starts_with(char::is_whitespace) { *err.borrow_mut() = Some(format!("{w:?} touches the token in front of it")); }
                if call {
                    let Some(e) = rhs(&n) else { *err.borrow_mut() = Some("suggestion without an operand".into()); return true };
                    if (*a, *b) != (o.0, r(&e).1) { *err.borrow_mut() = Some(format!("replaces {a}..{b}")); }
                    if w.trim() != format!("{word}({})", e.text().to_string().trim()) { *err.borrow_mut() = Some(format!("replacement {w:?} does not keep the operand")); }
                } else {
                    if (*a, *b) != o { *err.borrow_mut() = Some(format!("replaces {a}..{b}")); }
                    if w.trim() != word { *err.borrow_mut() = Some(format!("replacement {w:?}")); }
                    if glued_after && !w.ends_with(char::is_whitespace) { *err.borrow_mut() = Some(format!("{w:?} touches the token behind it")); }
                }
                true
            });
            if let Some(m) = err.into_inner() { return Err(format!("{rule} at {o:?}: {m}")); }
            need!(k == 1, "{rule} reports the operator at {o:?} {k} times");
        } else if n.kind() == K::TWIG_EXTENDS {
            let Some(t) = ktok(&n, K::TK_EXTENDS) else { continue };
            nt = true;
            if !visited_n(&n, "twig-prefer-shopware-extends") { continue; }
            let k = take("twig-prefer-shopware-extends", &|d| d.sug == vec![(rt(&t).0, rt(&t).1, "sw_extends".to_string())]);
            need!(k == 1, "extends at {:?} reported {k} times", rt(&t));
        } else if n.kind() == K::TWIG_FILTER {
            let right = |f: &N| f.children().filter(|x| x.kind() == K::TWIG_OPERAND).nth(1).and_then(|o| plain(&o));
            let Some(t) = right(&n).filter(|t| t.text() == "raw") else { continue };
            let mut cur = n.clone();
            let mut found = false;
            while let Some(inner) = kid(&cur, K::TWIG_OPERAND).and_then(|o| kid(&o, K::TWIG_FILTER)) {
                if right(&inner).is_some_and(|t| t.text() == "json_encode") { found = true; }
                cur = inner;
            }
            if !found || !visited_n(&n, "twig-json-encode-escape-js") { continue; }
            nt = true;
            let k = take("twig-json-encode-escape-js", &|d| d.sug == vec![(rt(&t).0, rt(&t).1, "escape('js')".to_string())]);
            need!(k == 1, "raw at {:?} reported {k} times", rt(&t));
        }
    }
    need!(left.is_empty(), "reported without a reason: {:?}", left.first());
    Ok(nt)
}
fn twig_name(s: &str) -> bool {
    let w = |c: char| c.is_ascii_alphabetic() || c == '_' || ('\u{7f}'..='\u{ff}').contains(&c);
    s.chars().next().is_some_and(w) && s.chars().all(|c| w(c) || c.is_ascii_digit())
}
fn c22(c: &Case, env: &Env) -> Res {
    let (root, _, got) = run(c, env, &["twig-hash-key-no-quotes"]);
    let mut want = vec![];
    let mut nt = false;
    for n in root.descendants().filter(|n| n.kind() == K::TWIG_LITERAL_HASH_KEY) {
        let Some(s) = kid(&n, K::TWIG_LITERAL_STRING) else { continue };
        let Some(i) = kid(&s, K::TWIG_LITERAL_STRING_INNER) else { continue };
        nt = true;
        if !visited_n(&n, "twig-hash-key-no-quotes") || !twig_name(&i.text().to_string()) || toks(&i).len() != 1 { continue; }
        let q: Vec<_> = ctoks(&s).into_iter().filter(|t| is_quote(t.kind())).collect();
        let mut v: Vec<(usize, usize)> = q.iter().map(rt).collect();
        v.sort();
        want.push(v);
    }
    let mut have = vec![];
    for d in &got {
        need!(d.sug.iter().all(|s| s.2.is_empty()), "the fix inserts text");
        let mut v: Vec<_> = d.sug.iter().map(|s| (s.0, s.1)).filter(|s| s.0 < s.1).collect();
        v.sort();
        have.push(v);
    }
    have.sort(); want.sort();
    need!(have == want, "quoted keys: reported {have:?}, expected {want:?}");
    Ok(nt)
}
fn comment(n: &N) -> bool { matches!(n.kind(), K::TWIG_COMMENT | K::HTML_COMMENT | K::LUDTWIG_DIRECTIVE_IGNORE | K::LUDTWIG_DIRECTIVE_FILE_IGNORE) }
fn c23(c: &Case, env: &Env) -> Res {
    let (root, cfg, got) = run(c, env, &["whitespace-between-line-breaks", "twig-block-line-breaks"]);
    let mut want = vec![];
    let all = toks(&root);
    for w in all.windows(3) {
        if w[0].kind() == K::TK_LINE_BREAK && w[1].kind() == K::TK_WHITESPACE && w[2].kind() == K::TK_LINE_BREAK && visited_t(&w[0], "whitespace-between-line-breaks") {
            want.push(dd("whitespace-between-line-breaks", rt(&w[1]), vec![(rt(&w[1]).0, rt(&w[1]).1, String::new())]));
        }
    }
    let brk = nl(env);
    let amount = if cfg.format.linebreaks_around_blocks { 2 } else { 1 };
    let mut nt = !want.is_empty();
    for b in root.descendants().filter(|n| n.kind() == K::TWIG_BLOCK) {
        if !visited_n(&b, "twig-block-line-breaks") || b.ancestors().skip(1).any(|a| sens_tag(&a) || sens_str(&a)) { continue; }
        let Some(start) = kid(&b, K::TWIG_STARTING_BLOCK) else { continue };
        let prev = b.prev_sibling();
        let lead = prev.clone().filter(comment);
        let real_prev = match &lead { Some(cm) => cm.prev_sibling(), None => prev.clone() };
        let next = b.next_sibling();
        let real_next = match next.clone().filter(comment) { Some(cm) => cm.next_sibling(), None => next.clone() };
        if b.parent().is_none_or(|p| p.kind() == K::ROOT) && real_prev.is_none() { continue; }
        let Some(end) = kid(&b, K::TWIG_ENDING_BLOCK) else { continue };
        let mut ask = |t: Option<Tk>, n: usize| {
            let Some(t) = t else { return };
            let s = brk.repeat(n);
            if t.kind() == K::TK_LINE_BREAK {
                if t.text() != s { want.push(dd("twig-block-line-breaks", rt(&t), vec![(rt(&t).0, rt(&t).1, s)])); }
            } else {
                let p = rt(&t).0;
                want.push(dd("twig-block-line-breaks", (p, p), vec![(p, p, s)]));
            }
        };
        nt = true;
        let first = toks(lead.as_ref().unwrap_or(&start)).into_iter().next();
        ask(first, if real_prev.is_some() { amount } else { 1 });
        if !real_next.is_some_and(|x| x.kind() == K::TWIG_BLOCK) {
            let Some(e) = toks(&end).last().map(|t| rt(t).1) else { continue };
            let after = all.iter().find(|t| rt(t).0 >= e);
            // in unfinished markup an empty node can follow the block or close it: rowan sees no next token then, nothing is claimed
            if end.last_token().and_then(|t| t.next_token()).as_ref() != after { return Ok(false); }
            ask(after.cloned(), if next.is_some() { amount } else { 1 });
        }
    }
    same(slim(got), want, "line breaks")?;
    Ok(nt)
}
/// every raw value that is no kind is refused with a panic
pub fn raw_kinds() -> i32 {
    use ludtwig_parser::syntax::untyped::TemplateLanguage as L;
    use rowan::Language;
    std::panic::set_hook(Box::new(|_| {}));
    for raw in K::ROOT as u16 + 1..=u16::MAX {
        if raw < K::ROOT as u16 + 300 || raw % 997 == 0 || raw == u16::MAX { println!("raw value {raw}"); }
        // as a number: a value that is no kind may look like anything else inside a Result
        let k = std::panic::catch_unwind(|| std::hint::black_box(L::kind_from_raw(rowan::SyntaxKind(raw))) as u16);
        if k.is_ok() { println!("raw value {raw} is converted"); return 1; }
    }
    0
}
fn c18(_c: &Case, _e: &Env) -> Res {
    use ludtwig_parser::syntax::untyped::TemplateLanguage as L;
    use rowan::Language;
    let mut n = 0;
    for raw in 0..=K::ROOT as u16 {
        let k = std::panic::catch_unwind(|| L::kind_from_raw(rowan::SyntaxKind(raw)));
        need!(k.is_ok(), "raw value {raw} is refused");
        if let Ok(k) = k { need!(L::kind_to_raw(k).0 == raw && k as u16 == raw, "raw value {raw} is converted to {k:?}"); n += 1; }
    }
    // other values: in a process of its own, as a value that is no kind may end it
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("VXH", "1").arg("rawkinds").output();
    let o = o.map_err(|e| e.to_string())?;
    need!(o.status.success(), "values that are no kind are not refused: {}", String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or(""));
    need!(n == K::ROOT as usize + 1, "{n} kinds");
    Ok(true)
}

pub fn props() -> Vec<Prop> {
    macro_rules! p { ($id:literal, $f:expr, $g:literal, $pp:expr) => { Prop { id: $id, oracle: $f, gens: $g, parse_prop: $pp, rule: "" } } }
    vec![
        p!("C01", c01, b"ssstdmne", true), p!("C02", c02, b"sssstdmmne", true), p!("C03", c03, b"sssstdmmne", true), p!("C04", c04, b"sssmmn", true),
        p!("C05", c05, b"ttdms", false), p!("C06", c06, b"tttdmse", false), p!("C08", c08, b"dddddmi", false),
        p!("C10", c10, b"ttdm", false), p!("C11", c11, b"wwwwwwte", false), p!("C12", c12, b"ttdm", false), p!("C13", c13, b"teenm", false),
        p!("C14", c14, b"tttdms", false), p!("C17", oparse::c17, b"o", false), p!("C18", c18, b"w", false),
        p!("C19", c19, b"eeetn", false), p!("C20", c20, b"iiiitdm", false), p!("C21", c21, b"eeetnoo", false), p!("C22", c22, b"eeetn", false), p!("C23", c23, b"ttdm", false),
        p!("C25", super::ocli::c25, b"dtt", false),
        p!("C24", super::ocli::c24, b"dtt", false),
        p!("C07", super::ocli::c07, b"tdms", false), p!("C09", super::ocli::c09, b"dd", false), p!("C15", super::ocli::c15, b"w", false), p!("C16", super::ocli::c16, b"tdmse", false),
    ]
}
