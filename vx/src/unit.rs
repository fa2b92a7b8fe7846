//! Unit files: which real source files are extracted, and the contracts attached to them.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub contract: Option<String>,
    pub external: bool,
    pub ret: Option<String>,
    pub add: Vec<String>,
    pub attrs: Vec<String>,
    /// `@total FN`: the function accepts every argument; its assertions may only fail where this condition is false
    pub total: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub add_loops: Vec<(usize, String)>,
    pub proofs: Vec<(String, String, String)>, // (where, anchor, text)
    pub used: bool,
    pub optional: bool,
}

#[derive(Default, Debug)]
pub struct Unit {
    pub sources: Vec<(String, Option<Vec<String>>)>,
    pub skips: Vec<String>,
    pub impls: Vec<String>,
    pub preludes: Vec<String>,
    pub verbatim: Vec<String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub rewrites: Vec<(String, String)>,
    pub auto_parser: bool,
    pub structural: Vec<String>,
    pub plain_clone: Vec<String>,
    pub opaque_types: Vec<String>,
    pub retypes: Vec<(String, String)>,
    pub effects: Vec<(String, String, Vec<String>)>,
    pub modules: Vec<String>,
    pub inherent: Vec<String>,
    pub ordinals: Vec<String>,
    pub vacuity: String,
    pub keepformat: Vec<String>,
    pub iter: bool,
    pub itemmacros: Vec<String>,
    pub blanket: Vec<(String, Vec<String>)>,
    pub regexes: Vec<(String, String)>,
    pub ruletable: bool,
    pub closures: Vec<(String, String, String)>,
    pub implspec: Vec<(String, String)>,
}

fn quoted(s: &str) -> (String, String) {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('"') {
        let mut out = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '\\' => {
                    if let Some(n) = it.next() {
                        out.push(n)
                    }
                }
                '"' => return (out, it.collect::<String>().trim().to_string()),
                c => out.push(c),
            }
        }
        panic!("unterminated quote in unit: {s}");
    }
    (s.to_string(), String::new())
}

impl Unit {
    pub fn load(path: &str) -> Unit {
        let mut u = Unit::default();
        u.load_into(path);
        u
    }

    fn load_into(&mut self, path: &str) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
        let mut blocks: Vec<(String, String)> = vec![];
        for line in text.lines() {
            if line.starts_with("#!") || line.starts_with("##") {
                continue;
            }
            if let Some(r) = line.strip_prefix('@') {
                blocks.push((r.trim().to_string(), String::new()));
            } else if let Some(b) = blocks.last_mut() {
                b.1.push_str(line);
                b.1.push('\n');
            }
        }
        for (head, body) in blocks {
            let (cmd, rest) = match head.split_once(' ') {
                Some((a, b)) => (a.to_string(), b.trim().to_string()),
                None => (head.clone(), String::new()),
            };
            let words: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
            match cmd.as_str() {
                "include" => {
                    let p = dir.join(&rest);
                    self.load_into(p.to_str().unwrap());
                }
                "source" => {
                    let only = if words.len() > 1 { Some(words[1..].to_vec()) } else { None };
                    self.sources.push((words[0].clone(), only));
                }
                "skip" => self.skips.extend(words),
                "unskip" => self.skips.retain(|s| !words.contains(s)),
                "impl" => self.impls.push(rest),
                "structural" => self.structural.extend(words),
                "plainclone" => self.plain_clone.extend(words),
                "prelude" => self.preludes.push(dir.join(&rest).to_str().unwrap().to_string()),
                "verbatim" => self.verbatim.push(body),
                "effect" => self.effects.push((words[0].clone(), words[1].clone(), words[2..].to_vec())),
                "iter" => self.iter = true,
                "itemmacros" => self.itemmacros.extend(words),
                "blanket" => self.blanket.push((words[0].clone(), words[1..].to_vec())),
                "implspec" => self.implspec.push((words[0].clone(), body)),
                "rule" => {
                    // @rule FILE TYPE NAME: a rule of the ludtwig crate with its name as contract
                    let (file, ty, name) = (words[0].clone(), words[1].clone(), words[2].clone());
                    self.sources.push((format!("crates/ludtwig/src/check/rules/{file}.rs"), None));
                    self.impls.push(format!("Rule for {ty}"));
                    self.inherent.push(format!("Rule for {ty}"));
                    match self.blanket.iter_mut().find(|b| b.0 == "RuleExt") {
                        Some(b) => b.1.push(ty.clone()),
                        None => self.blanket.push(("RuleExt".into(), vec![ty.clone()])),
                    }
                    self.verbatim.push(format!("impl {ty} {{ spec fn nm() -> Seq<char> {{ \"{name}\"@ }} }}\n"));
                    self.fns.entry(format!("{ty}::name")).or_default().contract = Some("    ensures r@ == Self::nm(),\n".into());
                }
                "closure" => {
                    // @closure FN CALL fn NAME(params): the closure passed to CALL in FN becomes a function
                    let mut it = rest.splitn(3, char::is_whitespace);
                    self.closures.push((it.next().unwrap().into(), it.next().unwrap().into(), it.next().unwrap_or("").trim().into()));
                }
                "ruletable" => self.ruletable = true,
                "regex" => self.regexes.push((words[0].clone(), words[1].clone())),
                "keepformat" => self.keepformat.extend(words),
                "ordinals" => self.ordinals.extend(words),
                "module" => self.modules.extend(words),
                "inherent" => {
                    self.impls.push(rest.clone());
                    self.inherent.push(rest);
                }
                "retype" => {
                    for l in body.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with("//")) {
                        let (a, b) = l.split_once("==>").expect("retype needs ==>");
                        self.retypes.push((a.trim().to_string(), b.trim().to_string()));
                    }
                }
                "auto" => self.auto_parser = rest == "parser",
                "rewrite" => {
                    for l in body.lines() {
                        let l = l.trim();
                        if l.is_empty() || l.starts_with("//") {
                            continue;
                        }
                        let (a, b) = l.split_once("==>").expect("rewrite needs ==>");
                        self.rewrites.push((a.trim().to_string(), b.trim().to_string()));
                    }
                }
                "fn" | "add" | "loop" | "addloop" | "proof" | "attr" | "total" => {
                    let name = words[0].clone();
                    let e = self.fns.entry(name).or_default();
                    match cmd.as_str() {
                        "fn" => {
                            for w in &words[1..] {
                                if w == "external" {
                                    e.external = true
                                } else if w == "optional" {
                                    e.optional = true
                                } else if let Some(r) = w.strip_prefix("ret=") {
                                    e.ret = Some(r.to_string())
                                } else {
                                    panic!("bad @fn flag {w}")
                                }
                            }
                            e.contract = Some(body);
                        }
                        "add" => e.add.push(body),
                        "total" => e.total = Some(body.trim().to_string()),
                        "attr" => e.attrs.push(body.trim().to_string()),
                        "addloop" => e.add_loops.push((words[1].parse().unwrap(), body)),
                        "loop" => {
                            e.loops.insert(words[1].parse().unwrap(), body);
                        }
                        _ => {
                            let w = words[1].clone();
                            let after = rest.splitn(3, char::is_whitespace).nth(2).unwrap_or("");
                            let (anchor, _) = quoted(after);
                            e.proofs.push((w, anchor, body));
                        }
                    }
                }
                _ => panic!("unknown unit directive @{head}"),
            }
        }
    }
}
