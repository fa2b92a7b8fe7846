//! Oracles which run the real program (this very binary without VXH) on files of a scratch directory.
use super::*;
use ludtwig_parser::syntax::untyped::SyntaxKind as K;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::SystemTime;

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("vxh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

struct Out { code: i32, err: String, all: String }
fn cli(dir: &Path, args: &[&str]) -> Out { cli_env(dir, args, &[]) }
fn cli_env(dir: &Path, args: &[&str], vars: &[(String, String)]) -> Out {
    let mut c = Command::new("/proc/self/exe");
    c.args(args).current_dir(dir).env_clear().env("HOME", dir).env("XDG_CONFIG_HOME", dir).env("NO_COLOR", "1").env("TERM", "dumb").stdin(std::process::Stdio::null());
    c.envs(vars.iter().map(|v| (&v.0, &v.1)));
    let o = c.output().expect("run ludtwig");
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let all = format!("{}{}", String::from_utf8_lossy(&o.stdout), err);
    Out { code: o.status.code().unwrap_or(-1), err, all }
}
fn toml_list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))).collect::<Vec<_>>().join(", ")) }
fn toml(c: &Config, active: &[String]) -> String {
    let f = &c.format;
    let q = |q: &Quotation| if *q == Quotation::Single { "single" } else { "double" };
    format!("version = \"{}\"\n[general]\nactive-rules = {}\n[format]\nline-ending = \"{}\"\nindentation-mode = \"{}\"\nindentation-count = {}\nindent-children-of-blocks = {}\nlinebreaks-around-blocks = {}\ntwig-quotation = \"{}\"\nhtml-quotation = \"{}\"\n[twig]\nvalid-filters = {}\nvalid-tests = {}\nvalid-functions = {}\n",
        crate::config::LUDTWIG_VERSION, toml_list(active), if f.line_ending == LineEnding::UnixLF { "unix_LF" } else { "windows_CRLF" },
        if f.indentation_mode == IndentationMode::Tab { "tab" } else { "space" }, f.indentation_count, f.indent_children_of_blocks, f.linebreaks_around_blocks, q(&f.twig_quotation), q(&f.html_quotation),
        toml_list(&c.twig.valid_filters), toml_list(&c.twig.valid_tests), toml_list(&c.twig.valid_functions))
}
fn h(s: &str) -> u64 { s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3)) }
/// some files, as a function of the case
fn files(c: &Case) -> Vec<(String, String)> {
    let mut v = vec![("a.html.twig".to_string(), c.text.clone())];
    let g = h(&c.text);
    if g & 3 != 0 { v.push(("sub/b.twig".into(), c.text.lines().rev().collect::<Vec<_>>().join("\n"))); }
    if g & 4 != 0 { v.push(("sub/deep/c.html".into(), c.text.chars().take(c.text.chars().count() / 2).collect())); }
    if g & 8 != 0 { v.push(("ok.twig".into(), "{% block ok %}\n    <a></a>\n{% endblock %}\n".into())); }
    if g & 16 != 0 { v.push(("and.twig".into(), "{{ a && b }}".into())); }
    v
}
fn old() -> SystemTime { SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000) }
fn put(dir: &Path, name: &str, body: &[u8]) {
    let p = dir.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, body).unwrap();
    std::fs::File::options().write(true).open(&p).unwrap().set_modified(old()).unwrap();
}
fn touched(dir: &Path, name: &str) -> bool { std::fs::metadata(dir.join(name)).and_then(|m| m.modified()).map_or(true, |t| t != old()) }
fn disabled(text: &str) -> Option<Vec<String>> {
    let mut v = vec![];
    for d in parse(text).root.children().filter(|n| n.kind() == K::LUDTWIG_DIRECTIVE_FILE_IGNORE) {
        let l: Vec<String> = d.children().filter(|n| n.kind() == K::LUDTWIG_DIRECTIVE_RULE_LIST).flat_map(|l| l.children_with_tokens().filter_map(|e| e.into_token()).filter(|t| t.kind() == K::TK_WORD).map(|t| t.text().to_string()).collect::<Vec<_>>()).collect();
        if l.is_empty() { return None; }
        v.extend(l);
    }
    Some(v)
}
fn active_for(text: &str, active: &[&'static str]) -> Vec<&'static str> {
    match disabled(text) { None => vec![], Some(d) => active.iter().copied().filter(|r| !d.iter().any(|x| x == r)).collect() }
}
fn ctx_of(text: &str, cfg: &Config, active: &[&'static str]) -> FileContext {
    let p = parse(text);
    file_ctx(text, cfg.clone(), active_for(text, active).into_iter().map(rule).collect(), p.root, p.errs)
}
const NAMED: &[&str] = RULES;

pub fn c07(c: &Case, env: &Env) -> Res {
    let s = Scratch::new();
    let cfg = config(c.cfg, env.crlf);
    let active: Vec<&'static str> = NAMED.to_vec();
    put(&s.0, "cfg.toml", toml(&cfg, &active.iter().map(|s| s.to_string()).collect::<Vec<_>>()).as_bytes());
    let fs = files(c);
    for (n, t) in &fs { put(&s.0, n, t.as_bytes()); }
    let bad = h(&c.text) & 32 != 0;
    let bad_bytes = [b"{{ a && b }}\n".as_slice(), &[0xff, 0xfe, b'x']].concat();
    if bad { put(&s.0, "bad.twig", &bad_bytes); }
    let chk = |n: &str, want: &[u8], may_touch: bool, what: &str| -> Result<(), String> {
        let b = std::fs::read(s.0.join(n)).map_err(|e| format!("{n}: {e}"))?;
        if b != want { return Err(format!("{what}: {n} contains {:?} instead of {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(want))); }
        if !may_touch && touched(&s.0, n) { return Err(format!("{what}: {n} was written")); }
        Ok(())
    };
    let o = cli(&s.0, &["-c", "cfg.toml", "."]);
    for (n, t) in &fs { chk(n, t.as_bytes(), false, "without --fix")?; }
    if bad { chk("bad.twig", &bad_bytes, false, "without --fix")?; if o.code != 1 { return Err("unreadable file, but exit status 0".into()); } }
    let _ = cli(&s.0, &["-i", "-v", "-c", "cfg.toml", "."]);
    for (n, t) in &fs { chk(n, t.as_bytes(), false, "with --inspect, without --fix")?; }
    let o = cli(&s.0, &["-f", "-c", "cfg.toml", "."]);
    let mut nt = false;
    for (n, t) in &fs {
        let ctx = ctx_of(t, &cfg, &active);
        let res = run_rules(&ctx);
        match crate::process::iteratively_apply_suggestions(ctx, res) {
            Ok((ctx, _, true, _)) => { nt = true; chk(n, ctx.source_code.as_bytes(), true, "with --fix")? }
            Ok((_, _, false, _)) => chk(n, t.as_bytes(), false, "with --fix, nothing to fix")?,
            Err(e) => { nt = true; chk(n, t.as_bytes(), false, "with --fix, fixing failed")?; if o.code != 1 || !o.err.contains("Error: ") { return Err("fixing failed, but no error is reported".into()); } }
        }
    }
    if bad { chk("bad.twig", &bad_bytes, false, "with --fix, unreadable")?; if o.code != 1 || !o.err.contains("bad.twig") { return Err("unreadable file is not reported".into()); } }
    // nothing else appeared
    let mut seen = vec![];
    fn ls(d: &Path, base: &Path, v: &mut Vec<String>) { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { ls(&p, base, v) } else { v.push(p.strip_prefix(base).unwrap().to_string_lossy().into_owned()) } } }
    ls(&s.0, &s.0, &mut seen);
    for n in seen { if n != "cfg.toml" && n != "bad.twig" && !fs.iter().any(|f| f.0 == n) { return Err(format!("file {n} was created")); } }
    Ok(nt)
}

fn codes(err: &str) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for l in err.lines() {
        for sev in ["error[", "warning[", "help[", "note["] {
            if let Some(x) = l.strip_prefix(sev).and_then(|x| x.split_once("]: ")) { *m.entry(x.0.to_string()).or_default() += 1; }
        }
    }
    m
}
pub fn c09(c: &Case, env: &Env) -> Res {
    let s = Scratch::new();
    let mut g = Rng::new(h(&c.text));
    let mut list: Vec<String> = RULES.iter().filter(|_| g.chance(60)).map(|s| s.to_string()).collect();
    for i in (1..list.len()).rev() { let j = g.below(i + 1); list.swap(i, j); }
    if !list.is_empty() && g.chance(25) { let x = list[g.below(list.len())].clone(); list.push(x); }
    let unknown = g.chance(20).then(|| g.pick(&["twig-unknown", "", "indentatio", "Indentation", "indentation ", "twig-logic-an"]).to_string());
    if let Some(u) = &unknown { let i = g.below(list.len() + 1); list.insert(i, u.clone()); }
    let cfg = config(c.cfg, env.crlf);
    // the selection itself
    let mut conf = cfg.clone();
    conf.general.active_rules = list.clone();
    let sel = crate::check::rules::get_config_active_rule_definitions(&conf);
    match (&sel, &unknown) {
        (Ok(_), Some(u)) => return Err(format!("unknown rule {u:?} is accepted")),
        (Err(e), None) => return Err(format!("known rules are rejected: {e}")),
        (Ok(v), None) => {
            let mut a: Vec<&str> = v.iter().map(|r| r.name()).collect();
            let mut b: Vec<&str> = list.iter().map(String::as_str).collect();
            a.sort(); b.sort(); b.dedup();
            if a != b { return Err(format!("active rules {a:?}, configured {b:?}")); }
        }
        (Err(_), Some(_)) => {}
    }
    // what a directive takes away: exactly the rules it names
    for _ in 0..6 {
        let n = g.pick(RULES);
        let names: Vec<String> = (0..1 + g.below(2)).map(|_| if g.chance(75) { super::gen_::near_name(&mut g, n) } else { g.pick(RULES).to_string() }).collect();
        let t = format!("{}{{# ludtwig-ignore-file {} #}}{}", if g.chance(50) { "" } else { "<p></p>" }, names.join(", "), if g.chance(50) { "\n" } else { "" });
        let all: Vec<&'static dyn crate::check::rule::Rule> = RULES.iter().map(|r| rule(r)).collect();
        let got: Vec<&str> = crate::check::rules::get_file_active_rule_definitions(&parse(&t).root, &all).iter().map(|r| r.name()).collect();
        let want = active_for(&t, RULES);
        if got != want { return Err(format!("{t:?}: rules {got:?} run, expected {want:?}")); }
    }
    put(&s.0, "cfg.toml", toml(&cfg, &list).as_bytes());
    put(&s.0, "t.html.twig", c.text.as_bytes());
    let fix = unknown.is_some();
    let o = if fix { cli(&s.0, &["-f", "-c", "cfg.toml", "t.html.twig"]) } else { cli(&s.0, &["-c", "cfg.toml", "t.html.twig"]) };
    if let Some(u) = unknown {
        if o.code != 1 || !o.err.contains(&u) { return Err(format!("unknown rule {u:?}: exit status {}, output {:?}", o.code, o.err)); }
        if o.all.contains("Files scanned") || touched(&s.0, "t.html.twig") { return Err(format!("unknown rule {u:?}, but files are processed")); }
        return Ok(true);
    }
    let act: Vec<&'static str> = RULES.iter().copied().filter(|r| list.iter().any(|l| l == r)).collect();
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    let on = active_for(&c.text, &act);
    for r in &on {
        let (_, _, d) = run(c, env, &[r]);
        for x in d { if x.rule != *r { return Err(format!("rule {r} reports as {}", x.rule)); } *want.entry(x.rule).or_default() += 1; }
    }
    let mut got = codes(&o.err);
    got.remove("SyntaxError");
    if got != want { return Err(format!("active {act:?}, for this file {on:?}: reported {got:?}, expected {want:?}")); }
    Ok(on.len() != act.len() || !want.is_empty())
}

pub fn c15(c: &Case, _env: &Env) -> Res {
    let s = Scratch::new();
    let g = h(&c.text) ^ u64::from(c.cfg).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let name = if g & 1 == 0 { "ludtwig-config.toml" } else { ["other.cfg", "conf", ".hidden", "a b.toml", "sub/x.toml", "./z.toml.bak"][(g >> 40) as usize % 6] };
    let args: Vec<&str> = if g & 1 == 0 { vec!["-C"] } else { vec!["-C", "-c", name] };
    std::fs::create_dir_all(s.0.join("sub")).unwrap();
    put(&s.0, "t.html.twig", b"{{ a && b }}");
    let fresh = crate::config::DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", crate::config::LUDTWIG_VERSION);
    let body = match g >> 1 & 3 { 0 => String::new(), 1 => c.text.clone(), 2 => "version = 1".into(), _ => fresh.clone() };
    let kind = g >> 3 & 3;
    match kind {
        0 => put(&s.0, name, body.as_bytes()),
        1 => std::fs::create_dir(s.0.join(name)).unwrap(),
        2 => { put(&s.0, "target.toml", body.as_bytes()); std::os::unix::fs::symlink(s.0.join("target.toml"), s.0.join(name)).unwrap(); }
        _ => {}
    }
    let o = cli(&s.0, &args);
    if kind < 3 {
        if o.code == 0 { return Err(format!("configuration exists, but exit status 0: {}", o.all)); }
        let ok = match kind {
            0 => std::fs::read(s.0.join(name)).unwrap() == body.as_bytes() && !touched(&s.0, name),
            1 => std::fs::read_dir(s.0.join(name)).is_ok_and(|mut d| d.next().is_none()),
            _ => std::fs::read(s.0.join("target.toml")).unwrap() == body.as_bytes() && !touched(&s.0, "target.toml") && std::fs::read_link(s.0.join(name)).is_ok_and(|t| t == s.0.join("target.toml")),
        };
        if !ok { return Err("what existed at the configuration path was changed".into()); }
    } else {
        if o.code != 0 { return Err(format!("exit status {} creating the configuration: {}", o.code, o.all)); }
        let got = std::fs::read_to_string(s.0.join(name)).unwrap_or_default();
        if got != fresh { return Err("the written configuration is not the default one".into()); }
        if got.contains("{{LUDTWIG_VERSION}}") || !got.contains(crate::config::LUDTWIG_VERSION) { return Err("the version is not filled in".into()); }
    }
    if touched(&s.0, "t.html.twig") || o.all.contains("Files scanned") { return Err("files were processed".into()); }
    Ok(true)
}

pub fn c16(c: &Case, env: &Env) -> Res {
    let s = Scratch::new();
    let cfg = config(c.cfg, env.crlf);
    let mut g = Rng::new(h(&c.text));
    let few = g.chance(50);
    let active: Vec<&'static str> = RULES.iter().copied().filter(|_| !few || g.chance(15)).collect();
    put(&s.0, "cfg.toml", toml(&cfg, &active.iter().map(|s| s.to_string()).collect::<Vec<_>>()).as_bytes());
    let fs = files(c);
    for (n, t) in &fs { put(&s.0, n, t.as_bytes()); }
    let inspect = g.chance(25);
    let bad = g.chance(15);
    if bad { put(&s.0, "bad.twig", &[0xff]); }
    let missing = g.chance(15);
    let only_missing = g.chance(5);
    let mut args = vec!["-c", "cfg.toml"];
    if inspect { args.push("-i"); }
    if !only_missing { args.push("."); }
    if missing || only_missing { args.push("nowhere"); }
    let o = cli(&s.0, &args);
    let (mut files_n, mut e, mut w, mut hl, mut inf) = (0, 0, 0, 0, 0);
    if !only_missing {
        for (_, t) in &fs {
            files_n += 1;
            let ctx = ctx_of(t, &cfg, &active);
            e += ctx.parse_errors.len();
            if inspect { inf += 1; }
            for d in ds(&run_rules(&ctx)) { match d.sev { 0 => e += 1, 1 => w += 1, 2 => hl += 1, _ => inf += 1 } }
        }
        if bad { files_n += 1; e += 1; }
    }
    if missing || only_missing { e += 1; }
    let want = format!("Files scanned: {files_n}, Errors: {e}, Warnings: {w}, Helps: {hl}, Info: {inf}, Total: {}", e + w + hl + inf);
    if !o.all.lines().any(|l| l == want) { return Err(format!("summary {:?} instead of {want:?}", o.all.lines().find(|l| l.starts_with("Files scanned")))); }
    if o.all.lines().filter(|l| l.starts_with("Files scanned: ")).count() != 1 { return Err("more than one summary".into()); }
    let code = i32::from(e + w + hl > 0);
    if o.code != code { return Err(format!("exit status {} with {want}", o.code)); }
    Ok(true)
}

/// one setting: its table and name, and the values it may have (a value is its text in the configuration file)
const SETTINGS: &[(&str, &str, &[&str])] = &[
    ("", "version", &["\"0.9.0\"", "\"v1\"", "\"\"", "\"next\""]),
    ("general", "active-rules", &["[]", "[\"indentation\"]", "[\"twig-logic-and\", \"line-ending\"]", "[\"twig-string-quotation\", \"html-string-quotation\", \"twig-block-line-breaks\", \"indentation\"]", "[\"twig-valid-filter\", \"twig-valid-test\", \"twig-valid-function\"]"]),
    ("format", "line-ending", &["\"unix_LF\"", "\"windows_CRLF\""]),
    ("format", "indentation-mode", &["\"space\"", "\"tab\""]),
    ("format", "indentation-count", &["0", "1", "2", "4", "255"]),
    ("format", "indent-children-of-blocks", &["true", "false"]),
    ("format", "linebreaks-around-blocks", &["true", "false"]),
    ("format", "twig-quotation", &["\"single\"", "\"double\""]),
    ("format", "html-quotation", &["\"single\"", "\"double\""]),
    ("twig", "valid-filters", &["[]", "[\"raw\"]", "[\"my_filter\", \"upper\"]"]),
    ("twig", "valid-tests", &["[]", "[\"same as\"]", "[\"my_test\", \"defined\"]"]),
    ("twig", "valid-functions", &["[]", "[\"range\"]", "[\"my_func\", \"block\"]"]),
];
fn unlist(v: &str) -> Vec<String> { v.split('"').skip(1).step_by(2).map(String::from).collect() }
fn set(c: &mut Config, name: &str, v: &str) {
    let s = v.trim_matches('"');
    let q = || if s == "single" { Quotation::Single } else { Quotation::Double };
    match name {
        "version" => c.version = s.into(),
        "active-rules" => c.general.active_rules = unlist(v),
        "line-ending" => c.format.line_ending = if s == "unix_LF" { LineEnding::UnixLF } else { LineEnding::WindowsCRLF },
        "indentation-mode" => c.format.indentation_mode = if s == "tab" { IndentationMode::Tab } else { IndentationMode::Space },
        "indentation-count" => c.format.indentation_count = s.parse().unwrap(),
        "indent-children-of-blocks" => c.format.indent_children_of_blocks = s == "true",
        "linebreaks-around-blocks" => c.format.linebreaks_around_blocks = s == "true",
        "twig-quotation" => c.format.twig_quotation = q(),
        "html-quotation" => c.format.html_quotation = q(),
        "valid-filters" => c.twig.valid_filters = unlist(v),
        "valid-tests" => c.twig.valid_tests = unlist(v),
        "valid-functions" => c.twig.valid_functions = unlist(v),
        _ => unreachable!(),
    }
}
pub fn c24(c: &Case, _env: &Env) -> Res {
    let s = Scratch::new();
    let mut g = Rng::new(h(&c.text) ^ u64::from(c.cfg).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let in_file = [0, 30, 60, 100][g.below(4)];
    let in_env = [0, 15, 50, 100][g.below(4)];
    // where the configuration file is, and whether there is one
    let dir = s.0.join("project");
    let absolute = dir.join("sub/abs.toml").to_string_lossy().to_string();
    let name = ["ludtwig-config.toml", "ludtwig-config.toml", "other.cfg", "sub/x.toml", "../x.toml", "conf", ".hidden", "a b.toml", "x.json", "sub/deep/y.toml.bak", "./z.toml", absolute.as_str()][g.below(12)];
    let args = if name == "ludtwig-config.toml" && g.chance(70) { vec![] } else { vec!["-c", name] };
    let present = g.chance(80);
    std::fs::create_dir_all(&dir).unwrap();
    let mut want = default_config();
    let (mut file, mut other, mut vars, mut table) = (String::new(), String::new(), vec![], "");
    let (mut what, mut broken) = (vec![], None);
    for (t, n, vals) in SETTINGS {
        if *t != table { table = t; for f in [&mut file, &mut other] { f.push_str(&format!("[{t}]\n")); } }
        other.push_str(&format!("{n} = {}\n", vals[0]));
        let (f, e) = (g.chance(in_file) && present, g.chance(in_env));
        let (vf, ve) = (vals[g.below(vals.len())], vals[g.below(vals.len())]);
        // a value that can not be used, in the file or in the environment
        let (bf, be) = (g.chance(2) && *n != "version", g.chance(1) && *n != "version");
        let wrong = "\"wrong\"";
        if f { file.push_str(&format!("{n} = {}\n", if bf { wrong } else { vf })); }
        if e {
            let key = format!("{t}{}{n}", if t.is_empty() { "" } else { "__" }).replace('-', "_").to_uppercase();
            let v = if be { wrong } else { ve };
            vars.push((format!("LUDTWIG_{key}"), v.trim_matches('"').to_string()));
            if be { broken = Some(*n); }
            set(&mut want, n, ve);
        } else if f {
            if bf { broken = Some(*n); }
            set(&mut want, n, vf);
        }
        what.push(format!("{n}: file {}, environment {}", if f { if bf { wrong } else { vf } } else { "-" }, if e { if be { wrong } else { ve } } else { "-" }));
    }
    if g.chance(30) { file.push_str("unknown = 1\n"); }
    if g.chance(30) { vars.push(("LUDTWIG_FORMAT__UNKNOWN".into(), "7".into())); }
    if g.chance(30) { vars.push(("OTHER_FORMAT__INDENTATION_MODE".into(), "tab".into())); vars.push(("FORMAT__INDENTATION_COUNT".into(), "9".into())); }
    // configuration files that are not the one that was asked for
    let decoy = g.chance(40);
    for n in ["ludtwig-config.toml", "../ludtwig-config.toml", "other.cfg", "../other.cfg", "sub/x.toml", "../x.toml", "../sub/x.toml"] {
        if n != name && decoy { put(&dir, n, other.as_bytes()); }
    }
    if present { put(&dir, name, file.as_bytes()); } else if g.chance(20) { std::fs::create_dir_all(dir.join(name)).unwrap(); }
    put(&dir, "t.html.twig", c.text.as_bytes());
    let what = format!("file {name} {}{}; {}", if present { "exists" } else { "does not exist" }, if decoy { ", others exist" } else { "" }, what.join("; "));
    let o = cli_env(&dir, &[args, vec!["-v", "t.html.twig"]].concat(), &vars);
    if let Some(b) = broken {
        if o.code == 0 || o.all.contains("Files scanned") { return Err(format!("{what}: {b} can not be used, but exit status {}", o.code)); }
        return Ok(true);
    }
    if let Some((_, x)) = o.all.split_once("Used config values: \n") {
        let w = format!("{want:#?}\n");
        if !x.starts_with(&w) {
            let (a, b) = x.lines().zip(w.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
            return Err(format!("{what}: used is {:?} instead of {:?}", a.trim(), b.trim()));
        }
    } else if !o.all.contains("Files scanned") { return Err(format!("{what}: stopped: {}", o.all)); }
    // what the rules do with it
    let act: Vec<&'static str> = RULES.iter().copied().filter(|r| want.general.active_rules.iter().any(|l| l == r)).collect();
    let mut exp: BTreeMap<String, usize> = BTreeMap::new();
    for d in ds(&run_rules(&ctx_of(&c.text, &want, &act))) { *exp.entry(d.rule).or_default() += 1; }
    let mut got = codes(&o.err);
    got.remove("SyntaxError");
    if got != exp && !act.contains(&"line-ending") { return Err(format!("{what}: reported {got:?}, expected {exp:?}")); }
    Ok(true)
}

/// a pattern of an ignore file: `name`, `/name`, `name/`, `*.ext`, each possibly with `!` in front
fn pattern_hits(pat: &str, base: &str, path: &str, is_dir: bool) -> bool {
    let Some(rel) = (if base.is_empty() { Some(path) } else { path.strip_prefix(base).and_then(|r| r.strip_prefix('/')) }) else { return false };
    let pat = pat.trim_start_matches('!');
    let name = rel.rsplit('/').next().unwrap();
    if let Some(ext) = pat.strip_prefix('*') { return name.ends_with(ext); }
    if let Some(p) = pat.strip_prefix('/') { return rel == p; }
    if let Some(p) = pat.strip_suffix('/') { return is_dir && name == p; }
    name == pat
}
pub fn c25(c: &Case, _env: &Env) -> Res {
    let s = Scratch::new();
    let mut g = Rng::new(h(&c.text) ^ u64::from(c.cfg).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    // a tree below `t`
    let mut dirs = vec!["t".to_string()];
    for i in 0..g.below(7) { let d = format!("{}/{}{}", dirs[g.below(dirs.len())], g.pick(&["d", "d", "d", "e", ".h"]), i); dirs.push(d); }
    let mut all: Vec<String> = vec![];
    for _ in 0..[1, 3, 8, 20, 60, 120][g.below(6)] {
        let n = format!("{}/{}{}{}", dirs[g.below(dirs.len())], g.pick(&["a", "b", "c", "A", "B", "x y", ".a", "é", "É", "e\u{301}", "a.b", "a-", "a "]), if g.chance(50) { g.below(30).to_string() } else { String::new() }, g.pick(&[".twig", ".twig", ".html", ".html.twig", ".html", ".txt", "", ".twig.bak", ".md", ".js.twig", ".htm"]));
        if !all.contains(&n) && !dirs.contains(&n) { all.push(n); }
    }
    // now and then a large file, and a deep tree
    let big = g.chance(4).then(|| [70_000, 1_200_000][g.below(2)]);
    if g.chance(4) { for i in 0..40 { let d = format!("{}/n{i}", dirs.last().unwrap()); dirs.push(d); } all.push(format!("{}/z.twig", dirs.last().unwrap())); }
    for (i, n) in all.iter().enumerate() { put(&s.0, n, &[b"{{ a && b }}\n".as_slice(), " \n".repeat(big.filter(|_| i % 4 == 1).unwrap_or(0) / 2).as_bytes()].concat()); }
    for d in &dirs { std::fs::create_dir_all(s.0.join(d)).unwrap(); }
    // ignore files: directory -> patterns
    let mut ign: Vec<(String, Vec<String>)> = vec![];
    for d in dirs.iter().map(String::as_str).chain([""]) {
        if !g.chance(25) { continue; }
        let mut v = vec![];
        for _ in 0..1 + g.below(3) {
            let inside: Vec<&String> = all.iter().chain(&dirs).filter(|p| p.starts_with(d) && p.len() > d.len() + 1).collect();
            let name = if inside.is_empty() { "a.twig" } else { inside[g.below(inside.len())].rsplit('/').next().unwrap() };
            if name.contains(' ') { continue; }
            v.push(match g.below(6) { 0 => format!("/{name}"), 1 => format!("{name}/"), 2 => "*.html".into(), 3 if v.len() > 0 && !name.starts_with('d') => format!("!{name}"), _ => name.to_string() });
        }
        if d.is_empty() { v.retain(|p| !p.starts_with('/') && !p.starts_with('!') && p != "t" && p != "t/"); }
        put(&s.0, &format!("{d}{}.ludtwig-ignore", if d.is_empty() { "" } else { "/" }), (v.join("\n") + "\n").as_bytes());
        ign.push((d.to_string(), v));
    }
    ign.sort_by_key(|i| i.0.len());
    let ignored = |p: &str, is_dir: bool| {
        let mut r = None;
        for (d, v) in &ign { let mut last = None; for x in v { if pattern_hits(x, d, p, is_dir) { last = Some(!x.starts_with('!')); } } if last.is_some() { r = last; } }
        r
    };
    // hidden directories are not entered unless an ignore file says so; a hidden file of the right type counts
    let out = |p: &str, is_dir: bool| match ignored(p, is_dir) { Some(b) => b, None => p.rsplit('/').next().unwrap().starts_with('.') };
    let typed = |p: &str| [".twig", ".html", ".htm", ".ejs"].iter().any(|e| p.ends_with(e));
    // everything below a directory, starting at one that is itself visible
    let below = |r: &str| -> Vec<String> {
        all.iter().filter(|p| p.starts_with(&format!("{r}/")) && typed(p)).filter(|p| {
            let mut i = r.len();
            while let Some(k) = p[i + 1..].find('/') { i += 1 + k; if out(&p[..i], true) { return false; } }
            ignored(p, false) != Some(true)
        }).cloned().collect()
    };
    let visible = |r: &str| -> bool { r.match_indices('/').map(|(i, _)| &r[..i]).chain([r]).filter(|d| *d != "t").all(|d| !out(d, true)) };
    let mut args: Vec<String> = vec![];
    let mut want: Vec<String> = vec![];
    for _ in 0..1 + g.below(3) {
        if g.chance(25) && !all.is_empty() {
            let f = &all[g.below(all.len())];
            want.push(f.clone());
            args.push(if g.chance(30) { format!("./{f}") } else { f.clone() });
        } else {
            let d = dirs[g.below(dirs.len())].clone();
            if !visible(&d) { continue; }
            want.extend(below(&d));
            args.push(match g.below(5) { 0 => format!("./{d}"), 1 => format!("{d}/"), 2 => s.0.join(&d).to_string_lossy().into_owned(), 3 => format!("t/../{d}"), _ => d });
        }
        if g.chance(20) { if let Some(l) = args.last().cloned() { args.push(l); } }
    }
    if args.is_empty() { args.push("t".into()); want.extend(below("t")); }
    if g.chance(15) { args.insert(g.below(args.len() + 1), "nowhere.twig".into()); }
    want.sort();
    let double = want.len();
    want.dedup();
    put(&s.0, "cfg.toml", b"[general]\nactive-rules = [\"twig-logic-and\"]\n");
    let fix = g.chance(20);
    let mut a = vec!["-c", "cfg.toml"];
    if fix { a.push("-f"); }
    a.extend(args.iter().map(String::as_str));
    let threads = ["1", "2", "8", "64"][g.below(4)];
    let o = cli_env(&s.0, &a, &[("RAYON_NUM_THREADS".into(), threads.into())]);
    let what = format!("{:?} with ignore files {ign:?} and {threads} threads", a);
    let mut got: Vec<String> = vec![];
    if fix {
        for n in &all { if std::fs::read_to_string(s.0.join(n)).unwrap().starts_with("{{ a and b }}\n") { got.push(n.clone()); } }
    } else {
        let base = std::fs::canonicalize(&s.0).unwrap();
        for l in o.err.lines() {
            if let Some((_, p)) = l.split_once("┌─ ") {
                let p = p.rsplitn(3, ':').last().unwrap();
                got.push(std::fs::canonicalize(s.0.join(p)).map(|p| p.strip_prefix(&base).unwrap().to_string_lossy().into_owned()).unwrap_or_else(|_| p.to_string()));
            }
        }
        got.sort();
    }
    got.sort();
    for w in got.windows(2) { if w[0] == w[1] { return Err(format!("{what}: {} is processed more than once", w[0])); } }
    if let Some(x) = want.iter().find(|x| !got.contains(x)) { return Err(format!("{what}: {x} is not processed")); }
    if let Some(x) = got.iter().find(|x| !want.contains(x)) { return Err(format!("{what}: {x} is processed")); }
    let n = o.all.lines().find_map(|l| l.strip_prefix("Files scanned: ")).and_then(|l| l.split(',').next()).unwrap_or("none");
    if n != want.len().to_string() { return Err(format!("{what}: files scanned is {n} instead of {}", want.len())); }
    Ok(double != want.len() || want.len() > 2)
}
