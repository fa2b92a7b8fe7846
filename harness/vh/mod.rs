//! Replay oracles: they run the real code of /repo in process and judge what it did with
//! independently written specifications. Mounted into a mechanical copy of the ludtwig crate
//! (see bin/vhbuild) as `crate::check::vxh`; nothing of the crate itself is edited except that
//! `fn main` is renamed and calls in here when VXH is set.
#![allow(clippy::all, clippy::pedantic, dead_code, unused)]
pub mod gen_;
pub mod orules;
pub mod oparse;
pub mod ocli;
use gen_::Rng;
use crate::check::rule::{CheckResult, Rule, RuleRunContext, Severity, TreeTraversalContext};
use crate::check::rules::RULE_DEFINITIONS;
use crate::check::run_rules;
use crate::config::{Config, IndentationMode, LineEnding, Quotation};
use crate::process::FileContext;
use crate::{CliContext, CliSharedData};
use ludtwig_parser::syntax::untyped::*;
use std::collections::HashSet;
use std::io::Write;
use std::sync::{Arc, Mutex, mpsc};
use std::time::{Duration, Instant};

pub const RULES: &[&str] = &["ludtwig-ignore-file-not-on-top","whitespace-between-line-breaks","line-ending","indentation","twig-block-line-breaks","twig-block-name-snake-case","html-attribute-name-kebab-case","twig-logic-and","twig-logic-or","twig-string-quotation","html-string-quotation","twig-hash-key-no-quotes","twig-use-is-same-as","twig-use-is-not-same-as","twig-prefer-shopware-extends","twig-block-duplicate","twig-json-encode-escape-js","html-duplicate-id","twig-variable-definition-naming","twig-valid-filter","twig-valid-test","twig-valid-function"];

#[derive(Clone, Debug)]
pub struct Case { pub text: String, pub cfg: u32 }

/// the built-in defaults
pub fn default_config() -> Config {
    use figment::providers::{Format, Toml};
    figment::Figment::new().merge(Toml::string(&crate::config::DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", crate::config::LUDTWIG_VERSION))).extract().expect("default config")
}
pub fn config(bits: u32, crlf: bool) -> Config {
    let mut c = default_config();
    c.format.line_ending = if crlf { LineEnding::WindowsCRLF } else { LineEnding::UnixLF };
    c.format.indentation_mode = if bits & 1 != 0 { IndentationMode::Tab } else { IndentationMode::Space };
    c.format.indentation_count = [4, 2, 1, 3, 0, 4, 4, 8][(bits >> 1 & 7) as usize];
    c.format.indent_children_of_blocks = bits & 16 == 0;
    c.format.linebreaks_around_blocks = bits & 32 == 0;
    c.format.twig_quotation = if bits & 64 != 0 { Quotation::Single } else { Quotation::Double };
    c.format.html_quotation = if bits & 128 != 0 { Quotation::Single } else { Quotation::Double };
    if bits & 256 != 0 {
        c.twig.valid_filters = vec!["raw".into(), "my_filter".into(), "json_encode".into()];
        c.twig.valid_tests = vec!["my_test".into(), "same as".into()];
        c.twig.valid_functions = vec!["my_func".into(), "range".into(), "upper".into()];
    }
    c
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct D {
    pub rule: String,
    pub sev: u8,
    pub at: Option<(usize, usize)>,
    pub sec: Vec<(usize, usize)>,
    pub sug: Vec<(usize, usize, String)>,
}
pub fn rg(r: TextRange) -> (usize, usize) { (usize::from(r.start()), usize::from(r.end())) }
pub fn d(r: &CheckResult) -> D {
    D {
        rule: r.rule_name.to_string(),
        sev: match r.severity { Severity::Error => 0, Severity::Warning => 1, Severity::Help => 2, Severity::Info => 3 },
        at: r.primary.as_ref().map(|n| rg(n.syntax_range)),
        sec: r.secondary.iter().map(|n| rg(n.syntax_range)).collect(),
        sug: r.suggestions.iter().map(|s| { let (a, b) = rg(s.syntax_range); (a, b, s.replace_with.clone()) }).collect(),
    }
}
pub fn ds(r: &[CheckResult]) -> Vec<D> { r.iter().map(d).collect() }

pub struct Env { pub crlf: bool }
pub fn rule(name: &str) -> &'static dyn Rule { *RULE_DEFINITIONS.iter().find(|r| r.name() == name).unwrap_or_else(|| panic!("no rule {name}")) }

pub fn file_ctx(text: &str, cfg: Config, rules: Vec<&'static dyn Rule>, root: SyntaxNode, errs: Vec<ludtwig_parser::ParseError>) -> FileContext {
    let (tx, rx) = mpsc::channel();
    std::mem::forget(rx);
    FileContext {
        cli_context: CliContext { output_tx: tx, data: Arc::new(CliSharedData { fix: false, inspect: false, config: cfg, rule_definitions: rules.clone() }) },
        file_path: std::path::PathBuf::from("./vxh.html.twig"),
        tree_root: root, source_code: text.to_owned(), parse_errors: errs, file_rule_definitions: rules,
    }
}
pub struct Parsed { pub root: SyntaxNode, pub errs: Vec<ludtwig_parser::ParseError> }
pub fn parse(text: &str) -> Parsed {
    let (root, errs) = ludtwig_parser::parse(text).split();
    Parsed { root, errs }
}
/// Runs the given rules on the case and returns the tree and the diagnostics.
pub fn run(c: &Case, env: &Env, rules: &[&str]) -> (SyntaxNode, Config, Vec<D>) {
    let p = parse(&c.text);
    let cfg = config(c.cfg, env.crlf);
    let ctx = file_ctx(&c.text, cfg.clone(), rules.iter().map(|r| rule(r)).collect(), p.root.clone(), p.errs);
    let res = run_rules(&ctx);
    (p.root, cfg, ds(&res))
}
pub fn run_ctx(cfg: &Config, inside: bool) -> RuleRunContext {
    RuleRunContext {
        cli_data: Arc::new(CliSharedData { fix: false, inspect: false, config: cfg.clone(), rule_definitions: vec![] }),
        traversal_ctx: TreeTraversalContext { inside_trivia_sensitive_node: inside },
    }
}

pub type Res = Result<bool, String>;
pub type Oracle = fn(&Case, &Env) -> Res;
pub struct Prop { pub id: &'static str, pub oracle: Oracle, pub gens: &'static [u8], pub parse_prop: bool, pub rule: &'static str }

fn make(gens: &[u8], r: &mut Rng) -> String {
    let g = gens[r.below(gens.len())];
    let t = make1(g, r);
    if g == b'o' { return t; }
    let h = gen_::hints();
    let (ps, pk) = (if h.new_i.is_empty() { 6 } else { 25 }, if h.new_s.is_empty() { 15 } else { 35 });
    let t = if r.chance(pk) { gen_::sprinkle(r, &t) } else { t };
    if g != b'w' && r.chance(ps) { gen_::stretch(r, &t) } else { t }
}
fn make1(g: u8, r: &mut Rng) -> String {
    match g {
        b's' => gen_::soup(r),
        b't' => gen_::template(r, false),
        b'd' => gen_::template(r, true),
        b'e' => gen_::expr_template(r),
        b'm' => { let t = gen_::template(r, true); gen_::mutate(r, &t) }
        b'n' => { let t = gen_::expr_template(r); gen_::mutate(r, &t) }
        b'w' => gen_::word(r),
        b'i' => gen_::dups(r),
        b'o' => oparse::op_chain(r),
        _ => unreachable!(),
    }
}

fn guarded(o: Oracle, parse_prop: bool, c: &Case, e: &Env) -> Res {
    use std::panic::{AssertUnwindSafe, catch_unwind};
    if !parse_prop {
        // a parser panic is reported under the parser's own property
        if catch_unwind(|| { ludtwig_parser::parse(&c.text); }).is_err() { return Ok(false); }
    }
    match catch_unwind(AssertUnwindSafe(|| o(c, e))) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

fn minimize(o: Oracle, pp: bool, c: &Case, e: &Env) -> (Case, String) {
    let mut best = c.clone();
    let mut msg = guarded(o, pp, &best, e).err().unwrap_or_default();
    let t0 = Instant::now();
    let mut n = best.text.chars().count().max(2) / 2;
    while n >= 1 && t0.elapsed() < Duration::from_secs(10) {
        let mut i = 0;
        let mut any = false;
        loop {
            let ch: Vec<char> = best.text.chars().collect();
            if i >= ch.len() { break; }
            let mut v = ch.clone();
            v.drain(i..(i + n).min(ch.len()));
            let cand = Case { text: v.into_iter().collect(), cfg: best.cfg };
            if let Err(m) = guarded(o, pp, &cand, e) { best = cand; msg = m; any = true; } else { i += n; }
            if t0.elapsed() > Duration::from_secs(10) { break; }
        }
        if n == 1 && !any { break; }
        n = if n > 1 { n / 2 } else { 1 };
    }
    if let Err(m) = guarded(o, pp, &Case { text: best.text.clone(), cfg: 0 }, e) { best.cfg = 0; msg = m; }
    (best, msg)
}

static CUR: Mutex<Option<(Instant, Case)>> = Mutex::new(None);

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

fn write_replay(out: &str, id: &str, c: &Case, crlf: bool, msg: &str) {
    let first = msg.replace('\n', " | ");
    let body = format!("vh-replay property={id} cfg={} crlf={} bytes={}\n# {first}\n# replay: bin/replay <this file>   (the input follows after the next line)\n---\n{}", c.cfg, crlf as u8, c.text.len(), c.text);
    std::fs::write(out, body).expect("write replay");
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let props = orules::props();
    match a.get(1).map(String::as_str) {
        Some("list") => { for p in &props { println!("{}", p.id) } 0 }
        Some("rawkinds") => orules::raw_kinds(),
        Some("replay") => {
            let f = std::fs::read_to_string(&a[2]).expect("replay file");
            let (head, rest) = f.split_once('\n').unwrap();
            let text = rest.split_once("\n---\n").unwrap().1.to_string();
            let kv = |k: &str| head.split(' ').find_map(|w| w.strip_prefix(&format!("{k}="))).unwrap_or("0").to_string();
            let p = props.iter().find(|p| p.id == kv("property")).expect("property");
            let c = Case { text, cfg: kv("cfg").parse().unwrap() };
            let e = Env { crlf: kv("crlf") == "1" };
            spawn_watch(None, p.id, e.crlf, 5);
            *CUR.lock().unwrap() = Some((Instant::now(), c.clone()));
            let (o, pp) = (p.oracle, p.parse_prop);
            match big(move || guarded(o, pp, &c, &e)) {
                Ok(_) => { println!("holds"); 0 }
                Err(m) => { println!("VIOLATED: {m}"); 1 }
            }
        }
        Some("check") => {
            let id = a[2].clone();
            let p = props.into_iter().find(|p| p.id == id).expect("property");
            let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
            let secs: f64 = get("--secs").map_or(10.0, |s| s.parse().unwrap());
            let crlf = get("--crlf").is_some_and(|s| s == "1");
            let out = get("--out").unwrap_or_else(|| "replay.txt".into());
            let corpus = get("--corpus");
            spawn_watch(Some(out.clone()), p.id, crlf, 8);
            big(move || {
                let e = Env { crlf };
                let t0 = Instant::now();
                let mut seen = HashSet::new();
                let (mut evals, mut nontriv) = (0u64, 0u64);
                let mut samples: Vec<String> = vec![];
                let mut r = Rng::new(seed);
                let mut queue: Vec<Case> = vec![];
                if let Some(f) = corpus {
                    if let Ok(s) = std::fs::read_to_string(&f) {
                        for t in s.split("\n%%%%\n") { queue.push(Case { text: t.to_string(), cfg: 0 }); queue.push(Case { text: t.to_string(), cfg: 0x1ff }); }
                    }
                }
                if p.parse_prop { queue.extend(gen_::words_in_contexts().into_iter().map(|text| Case { text, cfg: 0 })); }
                let mut it = queue.into_iter();
                loop {
                    let c = match it.next() {
                        Some(c) => c,
                        None => {
                            if t0.elapsed().as_secs_f64() > secs { break; }
                            let text = make(p.gens, &mut r);
                            Case { text, cfg: if r.chance(40) { 0 } else { (r.next() & 0x1ff) as u32 } }
                        }
                    };
                    evals += 1;
                    *CUR.lock().unwrap() = Some((Instant::now(), c.clone()));
                    match guarded(p.oracle, p.parse_prop, &c, &e) {
                        Ok(nt) => {
                            if nt && seen.insert((c.text.clone(), c.cfg)) {
                                nontriv += 1;
                                if samples.len() < 3 { samples.push(c.text.clone()); }
                            }
                            if seen.len() > 3_000_000 { break; }
                        }
                        Err(m) => {
                            let (c, m) = minimize(p.oracle, p.parse_prop, &c, &e);
                            write_replay(&out, p.id, &c, crlf, &m);
                            println!("FAIL {}", m.replace('\n', " | "));
                            return 1;
                        }
                    }
                }
                println!("{{\"evaluations\":{evals},\"distinct_nontrivial\":{nontriv},\"samples\":[{}]}}", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
                0
            })
        }
        _ => 2,
    }
}

fn big<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap()
}

fn spawn_watch(out: Option<String>, id: &'static str, crlf: bool, limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let rss_kb = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4;
        let g = CUR.lock().unwrap();
        if let Some((t, c)) = g.as_ref() {
            // the minimizer does not update CUR; it has its own budget of 10 s
            let el = t.elapsed().as_secs();
            if el > limit + 12 || rss_kb > 6_000_000 {
                let m = format!("no result after {el} s ({} MB used)", rss_kb / 1000);
                if id == "C03" || id == "C06" {
                    if let Some(o) = &out { write_replay(o, id, c, crlf, &m); }
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
                println!("HANG {m} on {:?}", c.text);
                std::process::exit(3);
            }
        }
    });
}
