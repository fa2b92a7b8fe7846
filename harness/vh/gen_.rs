//! Input generators. Nothing here is taken from the code under test.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T: ?Sized>(&mut self, a: &[&'a T]) -> &'a T { a[self.below(a.len())] }
}

pub const FRAGS: &[&str] = &["<","div",">","</","/>","<!--","-->","<!","DOCTYPE"," ","\n","\r\n","\r","{{","}}","{%","%}","{#","#}","-%}","{%-","{{-","-}}","{%~","~%}","{#-","-#}","~}}","{{~","~#}","{#~","a","b","(",")","[","]","{","}",",",":",";","|","||","?","??","=>","=","==","===","!=","!==","<=","<=>","+","-","*","**","%","~","/","//","&","&&","!","is","is not","not in","in","not","and","or","b-or","b-and","b-xor","matches","starts with","ends with","'","\"","\\","#","#{","1","1.5",".","..","...","block","endblock","if","elseif","else","endif","set","endset","for","endfor","include","ignore missing","with","endwith","only","sw_include","sw_extends","extends","embed","endembed","sw_embed","sw_end_embed","macro","endmacro","same as","divisible by","import","from","as","use","props","component","endcomponent","cache","ttl","tags","endcache","script","style","textarea","pre","input","br","@click","é","💥","ludtwig-ignore","ludtwig-ignore-file","sw_icon","sw_thumbnails","sw_use","sw_import","sw_from","verbatim","endverbatim","apply","endapply","trans","endtrans","return","$","`","sw_silent_feature_call","endsw_silent_feature_call","twig:a:b","autoescape","endautoescape","deprecated","null","none","true","false","flush","do","sandbox","endsandbox","source","&nbsp;","&#10;","\t","constant","\u{a0}","\u{0}","\u{feff}","\u{c}","\u{b}","\u{85}","\u{2028}","\u{2029}","\u{200b}","ß","e\u{301}","^","doctype","html","IF","Block","_","0","\u{7f}"];

pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = 1 + r.below(4);
    for _ in 0..n {
        s.push_str(r.pick(&["{{ ", "{% ", "<a ", "", "{# ", "<!-- ", "<style>", "<script>", "{% set a = ", "{{ \"", "{{ (", "{{ a(", "{% block a %}", "{% if a %}", "<div>", "{% for a in ", "<div {% if a %}"]));
        for _ in 0..1 + r.below(8) {
            s.push_str(FRAGS[r.below(FRAGS.len())]);
            if r.chance(50) { s.push(' '); }
        }
    }
    s
}

pub const NAMES: &[&str] = &["a", "b", "foo", "fooBar", "foo_bar", "my_block", "MyBlock", "my-block", "__", "_x", "x1", "page_content", "FOO", "FOO_BAR", "_foo_bar", "fooBar_baz", "divider", "notA"];
pub const FILTERS: &[&str] = &["raw", "json_encode", "escape", "upper", "my_filter", "trans", "length", "first", "e"];
pub const FUNCS: &[&str] = &["range", "max", "block", "parent", "my_func", "path", "constant", "json_encode", "attribute"];
pub const TESTS: &[&str] = &["defined", "empty", "even", "my_test", "same as(a)", "divisible by(3)", "foo(b)", "iterable", "null"];
pub const BINOPS: &[&str] = &["+", "-", "*", "/", "//", "%", "**", "~", "..", "==", "!=", "<", ">", "<=", ">=", "<=>", "and", "or", "&&", "||", "b-and", "b-or", "b-xor", "in", "not in", "matches", "starts with", "ends with", "===", "!==", "??"];

/// a rule name, or something that only looks like one
pub fn near_name(r: &mut Rng, n: &str) -> String {
    match r.below(9) {
        0 => format!("{n}x"), 1 => format!("x{n}"), 2 => n[..n.len() - 1].to_string(), 3 => n[1..].to_string(), 4 => n.to_uppercase(),
        5 => format!("{n}-2"), 6 => n.replace('-', "_"), 7 => n.split('-').next().unwrap_or(n).to_string(),
        _ => { let mut c = n.to_string(); c[..1].make_ascii_uppercase(); c }
    }
}
pub struct T<'r> { pub r: &'r mut Rng, pub out: String, pub crlf: usize, pub dirs: bool, pub ind: usize }

impl T<'_> {
    fn p(&mut self, s: &str) { self.out.push_str(s); }
    fn sp(&mut self) { match self.r.below(8) { 0 => {}, 1 => self.p("  "), _ => self.p(" ") } }
    fn nl(&mut self) {
        let n = match self.r.below(10) { 0..=6 => 1, 7 | 8 => 2, _ => 3 };
        for i in 0..n {
            if self.r.below(100) < self.crlf { self.p("\r\n") } else { self.p("\n") }
            if i + 1 < n && self.r.chance(15) { let w = self.r.pick(&["  ", "\t", "    "]); self.p(w); }
        }
    }
    pub fn brk(&mut self) {
        match self.r.below(10) {
            0 | 1 => {}
            2 => self.p(" "),
            _ => {
                self.nl();
                match self.r.below(8) {
                    0 => { let w = self.r.pick(&["\t", "  ", " ", "   \t", "        "]); self.p(w) }
                    1 => {}
                    _ => for _ in 0..self.ind { self.p("    ") },
                }
            }
        }
    }
    pub fn string(&mut self, d: usize) {
        let q = self.r.pick(&["'", "\""]);
        self.p(q);
        for _ in 0..self.r.below(4) {
            match self.r.below(13) {
                0 => self.p("\\'"), 1 => self.p("\\\""),
                2 => self.p(if q == "'" { "\"" } else { "'" }),
                3 if q == "\"" && d > 0 => { self.p("#{"); self.expr(d - 1); self.p("}"); }
                4 => self.p(" "), 5 => self.p("a-b"), 6 => self.p("#{x"), 7 => self.p("1"), 8 => self.p("\\"),
                _ => { let n = self.r.pick(NAMES); self.p(n) }
            }
        }
        self.p(q);
    }
    pub fn args(&mut self, d: usize) {
        self.p("(");
        let n = self.r.below(3);
        for i in 0..n {
            if i > 0 { self.p(", "); }
            match self.r.below(8) {
                0 => { self.p("x=") ; self.expr(d) }
                1 => { self.p("i => "); self.expr(d) }
                2 => { self.p("(i, j) => "); self.expr(d) }
                _ => self.expr(d),
            }
        }
        self.p(")");
    }
    pub fn atom(&mut self, d: usize) {
        let k = if d == 0 { self.r.below(5) } else { self.r.below(14) };
        match k {
            0 | 1 | 2 => { let n = self.r.pick(NAMES); self.p(n) }
            3 => { let n = self.r.pick(&["1", "42", "1.5", "true", "null", "false"]); self.p(n) }
            4 => self.string(d.saturating_sub(1)),
            5 => { self.p("["); for i in 0..self.r.below(3) { if i > 0 { self.p(", ") } self.expr(d - 1) } self.p("]") }
            6 | 7 => {
                self.p("{");
                for i in 0..self.r.below(4) {
                    if i > 0 { self.p(","); self.sp(); }
                    match self.r.below(7) {
                        0 => self.p("1"), 1 => { self.p("("); self.expr(d - 1); self.p(")") }
                        2 => { let k = self.r.pick(&["'a b'", "\"\"", "' a'", "'a '", "\"1\"", "'a-b'", "'and'", "\"#{x}\"", "'\\''", "'é'", "\"_\""]); self.p(k) }
                        3 => { let n = self.r.pick(NAMES); self.p(n) }
                        _ => { let q = self.r.pick(&["'", "\""]); let n = self.r.pick(NAMES); self.p(q); self.p(n); self.p(q) }
                    }
                    self.p(": ");
                    self.expr(d - 1);
                }
                self.p("}")
            }
            8 => { let f = self.r.pick(FUNCS); self.p(f); self.args(d - 1) }
            9 => { self.p("("); self.expr(d - 1); self.p(")") }
            10 => { let u = self.r.pick(&["-", "+", "not "]); self.p(u); self.atom(d - 1) }
            11 => { self.atom(0); self.p("."); let n = self.r.pick(NAMES); self.p(n); if self.r.chance(30) { self.args(d - 1) } }
            12 => { self.atom(0); self.p("["); self.expr(d - 1); self.p("]") }
            _ => {
                self.atom(d - 1);
                for _ in 0..1 + self.r.below(3) {
                    if self.r.chance(20) { self.p(" ") }
                    self.p("|");
                    if self.r.chance(20) { self.p(" ") }
                    let f = self.r.pick(FILTERS); self.p(f);
                    if self.r.chance(30) { self.args(d - 1) }
                }
            }
        }
    }
    pub fn expr(&mut self, d: usize) {
        if d == 0 { return self.atom(0); }
        match self.r.below(10) {
            0..=4 => self.atom(d),
            5..=7 => {
                self.atom(d - 1);
                for _ in 0..1 + self.r.below(2) {
                    let op = self.r.pick(BINOPS);
                    let word = op.chars().next().unwrap().is_alphabetic();
                    if word || self.r.chance(80) { self.p(" "); }
                    self.p(op);
                    if word || self.r.chance(80) { self.p(" "); }
                    self.atom(d - 1);
                }
            }
            8 => { self.atom(d - 1); let o = self.r.pick(&[" is ", " is not "]); self.p(o); let t = self.r.pick(TESTS); self.p(t) }
            _ => { self.atom(d - 1); self.p(" ? "); self.atom(d - 1); self.p(" : "); self.expr(d - 1) }
        }
    }
    pub fn attr(&mut self, d: usize) {
        let n = self.r.pick(&["id", "class", "href", "dataFoo", "data_foo", "data-foo", ":v-bind", "@click", "_", "A", "aB", "x--y", "#slot", "id", "ID", "data-id"]);
        self.p(n);
        if self.r.chance(12) { return; }
        self.p("=");
        let q = self.r.pick(&["\"", "'", "\"", ""]);
        self.p(q);
        if n == "id" && !q.is_empty() && self.r.chance(35) {
            let v = self.r.pick(&["x ", " x", "X", "x", "x\n", "é", "x y", "x-1", "x\u{a0}", "xy", "X ", "&x", "x{#c#}", "x  y"]);
            self.p(v);
            self.p(q);
            return;
        }
        match self.r.below(9) {
            0 => { self.p("{{ "); self.expr(d.min(1)); self.p(" }}") }
            1 if d > 0 && !q.is_empty() => { self.p("{% if "); self.expr(1); self.p(" %}x{% endif %}") }
            2 if d > 0 && !q.is_empty() => { self.p("{% block "); let n = self.r.pick(NAMES); self.p(n); self.p(" %}x{% endblock %}") }
            3 if !q.is_empty() => self.p("a b"),
            4 if !q.is_empty() => self.p(if q == "'" { "\"" } else { "'" }),
            5 if !q.is_empty() => {}
            _ => { let v = self.r.pick(&["x", "y", "z", "x", "main"]); self.p(v) }
        }
        self.p(q);
    }
    pub fn directive(&mut self) {
        let f = if self.r.chance(85) { "ludtwig-ignore" } else { "ludtwig-ignore-file" };
        let (o, c) = if self.r.chance(70) { ("{# ", " #}") } else { ("<!-- ", " -->") };
        self.p(o); self.p(f);
        let n = match self.r.below(5) { 0 => 0, 1 => 2, _ => 1 };
        for i in 0..n {
            self.p(if i > 0 { ", " } else { " " });
            let rule = if self.r.chance(30) { "indentation" } else { self.r.pick(super::RULES) };
            if self.r.chance(12) { let near = near_name(self.r, rule); self.p(&near) } else { self.p(rule) }
        }
        self.p(c);
    }
    pub fn item(&mut self, d: usize) {
        let k = if d == 0 { self.r.below(6) } else { self.r.below(18) };
        match k {
            0 => { let w = self.r.pick(&["text", "lorem ipsum", "&nbsp;", "a - b", "x", "é", "1 < 2", "it's", "\"q\""]); self.p(w) }
            1 | 2 => { let o = self.r.pick(&["{{ ", "{{- ", "{{", "{{~ "]); self.p(o); self.expr(2); let c = self.r.pick(&[" }}", " -}}", "}}", " ~}}"]); self.p(c) }
            3 => { let c = self.r.pick(&["{# comment #}", "<!-- c -->", "<!-- {{ a }} -->", "{# <b> #}"]); self.p(c) }
            4 => { if self.dirs { self.directive() } else { self.p("w") } }
            5 => {
                match self.r.below(7) {
                    0 => { self.p("{% extends 'x.html' %}") }
                    1 => { self.p("{% sw_extends 'x' %}") }
                    2 => { self.p("{% include "); self.string(0); self.p(" with {'a': 1} only %}") }
                    3 => { self.p("{% set "); let n = self.r.pick(NAMES); self.p(n); self.p(" = "); self.expr(2); self.p(" %}") }
                    4 => { self.p("{% set "); let n = self.r.pick(NAMES); self.p(n); self.p(" = constant('X') %}") }
                    5 => { self.p("<!DOCTYPE html>") }
                    _ => { self.p("<hr/>") }
                }
            }
            6 | 7 | 8 => {
                let o = self.r.pick(&["{% block ", "{%- block ", "{%block "]); self.p(o);
                let n = self.r.pick(NAMES); self.p(n);
                if self.r.chance(8) { self.p(" "); self.expr(1); self.p(" %}"); return; }
                self.p(" %}");
                self.body(d - 1);
                self.p("{% endblock %}");
            }
            9 | 10 => {
                self.p("{% if "); self.expr(1); self.p(" %}"); self.body(d - 1);
                if self.r.chance(30) { self.p("{% elseif "); self.expr(1); self.p(" %}"); self.body(d - 1); }
                if self.r.chance(30) { self.p("{% else %}"); self.body(d - 1); }
                self.p("{% endif %}");
            }
            11 => {
                self.p("{% for "); let n = self.r.pick(NAMES); self.p(n);
                if self.r.chance(30) { self.p(", "); let n = self.r.pick(NAMES); self.p(n) }
                self.p(" in "); self.expr(1); self.p(" %}"); self.body(d - 1); self.p("{% endfor %}");
            }
            12 => {
                match self.r.below(6) {
                    0 => { self.p("{% apply upper %}"); self.body(d - 1); self.p("{% endapply %}") }
                    1 => { self.p("{% set x %}"); self.body(d - 1); self.p("{% endset %}") }
                    2 => { self.p("{% macro m(a, b) %}"); self.body(d - 1); self.p("{% endmacro %}") }
                    3 => { self.p("{% with {a: 1} %}"); self.body(d - 1); self.p("{% endwith %}") }
                    4 => { self.p("{% embed 'x' %}"); self.body(d - 1); self.p("{% endembed %}") }
                    _ => { self.p("{% verbatim %}"); self.body(d - 1); self.p("{% endverbatim %}") }
                }
            }
            _ => {
                let t = self.r.pick(&["div", "p", "span", "a", "ul", "pre", "textarea", "script", "style", "div", "section", "twig:my:comp"]);
                self.p("<"); self.p(t);
                for _ in 0..self.r.below(4) {
                    if self.r.chance(25) { self.nl(); for _ in 0..self.r.below(4) { self.p("    ") } } else { self.p(" ") }
                    match self.r.below(12) {
                        0 => { self.p("{% if a %}"); self.attr(0); self.p("{% endif %}") }
                        1 => { self.p("{{ "); self.expr(1); self.p(" }}") }
                        2 if self.dirs => { self.directive() }
                        _ => self.attr(d),
                    }
                }
                if self.r.chance(10) { self.p("/>"); return; }
                self.p(">");
                self.body(d - 1);
                self.p("</"); self.p(t); self.p(">");
            }
        }
    }
    pub fn body(&mut self, d: usize) {
        self.ind += 1;
        for _ in 0..self.r.below(4) { self.brk(); self.item(d); }
        self.ind -= 1;
        self.brk();
    }
}

pub fn template(r: &mut Rng, dirs: bool) -> String {
    let crlf = match r.below(4) { 0 => 50, 1 => 100, _ => 0 };
    let d = 1 + r.below(4);
    let n = 1 + r.below(4);
    let mut t = T { r, out: String::new(), crlf, dirs, ind: 0 };
    if t.r.chance(1) { t.p("\u{feff}"); }
    for _ in 0..n { t.item(d); t.brk(); }
    if t.r.chance(1) {
        // a long file: the same text many times over
        let n = [20, 70, 130, 300][t.r.below(4)];
        let one = t.out.clone();
        for _ in 0..n {
            if t.out.len() > 12_000 { break; }
            t.out.push_str(&one);
        }
    }
    t.out
}

pub fn expr_template(r: &mut Rng) -> String {
    let d = 1 + r.below(3);
    let mut t = T { r, out: String::new(), crlf: 0, dirs: false, ind: 0 };
    for _ in 0..1 + t.r.below(3) { t.p("{{ "); t.expr(d); t.p(" }}"); }
    t.out
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() { break; }
        let i = r.below(c.len());
        match r.below(5) {
            0 => { let j = (i + 1 + r.below(4)).min(c.len()); c.drain(i..j); }
            1 => { let f: Vec<char> = FRAGS[r.below(FRAGS.len())].chars().collect(); for (k, x) in f.into_iter().enumerate() { c.insert(i + k, x); } }
            2 => { c.truncate(i + 1); }
            3 => { let j = (i + 1 + r.below(6)).min(c.len()); let seg: Vec<char> = c[i..j].to_vec(); for (k, x) in seg.into_iter().enumerate() { c.insert(j + k, x); } }
            _ => { let f: Vec<char> = FRAGS[r.below(FRAGS.len())].chars().collect(); c.splice(i..(i + 1), f); }
        }
    }
    c.into_iter().collect()
}

/// characters on the far side of the usual classes: digits, letters and spaces that are not ASCII, controls, surrogates' neighbours
const ODD: &[char] = &['²', '½', '٣', 'Ⅷ', '５', 'ª', 'ａ', 'Ａ', 'ǆ', 'ǅ', 'İ', 'ı', 'ſ', 'K', 'ʰ', '一', '\u{301}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{85}', '\u{b}', '\u{c}', '\u{200b}', '\u{feff}', '\u{ad}', '\u{7f}', '\u{0}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{10ffff}', 'ÿ', 'Ā', '‿', '·', '€', '💥', '\u{80}', '~', '`', '^', '$', '{', '[', '/', ';', '?'];
fn odd_word(r: &mut Rng) -> String {
    let mut w: Vec<char> = r.pick(&["", "a", "ab", "a-b", "a_b", "aB", "A", "A_B", "x1", "data-x"]).chars().collect();
    for _ in 0..1 + r.below(2) {
        let c = if r.chance(75) { ODD[r.below(ODD.len())] } else { char::from_u32(r.below(0x3000) as u32).unwrap_or('ß') };
        let i = r.below(w.len() + 1);
        w.insert(i, c);
    }
    w.into_iter().collect()
}
/// the words of a text, a call's arguments with its name
fn spans(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_alphabetic() || b[i] == b'_' {
            let a = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'-') { i += 1; }
            v.push((a, i));
            if i < b.len() && b[i] == b'(' {
                let mut d = 0;
                for j in i..b.len() {
                    if b[j] == b'(' { d += 1 }
                    if b[j] == b')' { d -= 1; if d == 0 { v.push((a, j + 1)); break; } }
                }
            }
        } else { i += 1; }
    }
    v
}
/// two things of the text become the same
fn equal(r: &mut Rng, s: &mut String) {
    let v = spans(s);
    if v.len() < 2 { return; }
    let a = r.below(v.len());
    let b = if r.chance(70) { (a + 1 + r.below(3)).min(v.len() - 1) } else { r.below(v.len()) };
    let w = s[v[a].0..v[a].1].to_string();
    s.replace_range(v[b].0..v[b].1, &w);
}
/// a letter changes its case
fn recase(r: &mut Rng, s: &mut String) {
    let v = spans(s);
    if v.is_empty() { return; }
    let (a, b) = v[r.below(v.len())];
    let w = s[a..b].to_string();
    let w = match r.below(3) {
        0 => w.to_ascii_uppercase(),
        1 => { let k = r.below(w.len()); w.char_indices().map(|(i, c)| if i == k { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect() }
        _ => w[..1].to_ascii_uppercase() + &w[1..],
    };
    s.replace_range(a..b, &w);
}

pub fn word(r: &mut Rng) -> String {
    let n = if r.chance(4) { size(r).min(23) } else { r.below(9) };
    if r.chance(12) { return odd_word(r); }
    (0..n).map(|_| *["a", "b", "Z", "Q", "_", "-", "1", "0", "é", ":", "@", "#", "x", "A", "_", "-", "ß", " ", "."].get(r.below(19)).unwrap()).collect()
}

// ---------------------------------------------------------------- sizes and hints
/// Words and numbers of the code under test (lib/lits.py), new ones first. They only make inputs likelier.
pub struct Hints { pub new_s: Vec<String>, pub new_i: Vec<usize>, pub old_s: Vec<String> }
pub fn hints() -> &'static Hints {
    use std::sync::OnceLock;
    static H: OnceLock<Hints> = OnceLock::new();
    H.get_or_init(|| {
        let mut h = Hints { new_s: vec![], new_i: vec![], old_s: vec![] };
        let f = std::env::current_exe().ok().and_then(|p| p.parent().map(|p| p.join("vxh-dict.txt")));
        let text = f.and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        for l in text.lines() {
            let Some((k, v)) = l.split_once(' ') else { continue };
            let bytes: Vec<u8> = (0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect();
            match k {
                "S" => if let Ok(s) = String::from_utf8(bytes) { h.new_s.push(s) },
                "s" => if let Ok(s) = String::from_utf8(bytes) { h.old_s.push(s) },
                "I" => if let Ok(n) = v.parse() { h.new_i.push(n) },
                _ => {}
            }
        }
        h
    })
}
/// every word of the code under test (the lexer's token texts are among them) at each kind of place
/// where the parser decides by the next token
pub fn words_in_contexts() -> Vec<String> {
    let h = hints();
    let mut words: Vec<&str> = h.new_s.iter().chain(&h.old_s).map(String::as_str).filter(|w| w.chars().count() <= 30).collect();
    words.extend(["\n", "\r\n", " ", "\t", "1", "1.5", "a", "a-b", "\u{1}", "é", "&nbsp;", "<!DOCTYPE html>", "twig_comp", "\"", "'", "#{", "}"]);
    let ctx = ["@", "a @ b", "{{ @", "{{ @ }}", "{{ a @ }}", "{{ a @ b }}", "{{ a @ @ b", "{{ (@", "{{ [@", "{{ [a @", "{{ {@", "{{ {a: @", "{{ {a @", "{{ f(@", "{{ a.@", "{{ a|@", "{{ a[@", "{{ a ? @", "{{ \"#{@", "{% @ %}", "{% @", "{% block @ %}", "{% if @ %}a{% endif %}", "{% if a %}{% @ %}",
        "{% set a @ %}", "{% set a = @ %}", "{% for @ in b %}{% endfor %}", "{% for a @ %}", "{% extends @", "{% include 'a' @ %}", "{% include 'a' with @", "{% from a @ %}", "{% import a @ b %}", "{% macro a(@) %}{% endmacro %}", "{% macro a(b = @", "{% use 'a' with @ %}", "{% apply @ %}{% endapply %}", "{% cache 'a' @ %}", "{% embed 'a' @ %}{% endembed %}", "{% trans @ %}a{% endtrans %}", "{% props @ %}", "{% component a @ %}{% endcomponent %}", "{% form_theme a @", "{% sw_include @",
        "{# @ #}", "{# ludtwig-ignore @ #}", "{# ludtwig-ignore-file @", "<@", "<a @", "<a @>", "<a b@", "<a b=@", "<a b=@>", "<a b=\"@\">", "<a b='@", "<a>@</a>", "</@", "<a></@>", "<a></a @", "<!@", "<!-- @ -->", "<!DOCTYPE @>", "<script>@</script>", "<style>@</style>", "<a {% if b %}@{% endif %}>", "<a b=\"{% if b %}@{% endif %}\">"];
    let mut out = vec![];
    for c in ctx { for w in &words { out.push(c.replace('@', w)); } }
    out
}
/// a size: mostly powers of two and their neighbours, or a number of the changed code
pub fn size(r: &mut Rng) -> usize {
    let h = hints();
    let n = if !h.new_i.is_empty() && r.chance(60) { h.new_i[r.below(h.new_i.len())].min(1200) }
        else { [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 40, 50, 64, 100, 128, 200, 256][r.below(20)] };
    (n + r.below(4)).saturating_sub(1)
}
fn cut(r: &mut Rng, s: &str) -> usize {
    if s.is_empty() { return 0; }
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) { i -= 1; }
    i
}
fn special(r: &mut Rng) -> String {
    let h = hints();
    if !h.new_s.is_empty() && r.chance(75) { return h.new_s[r.below(h.new_s.len())].clone(); }
    if !h.old_s.is_empty() && r.chance(50) { return h.old_s[r.below(h.old_s.len())].clone(); }
    if r.chance(30) { return ODD[r.below(ODD.len())].to_string(); }
    r.pick(&["é", "ß", "Ä", "💥", "\u{a0}", "\t", " ", "_", "-", "0", "A", "e\u{301}", "\u{feff}", "\\", "'", "\"", "İ", "ǆ", "\u{2003}"]).to_string()
}
/// one thing many times: a stretched piece of the text, deep nesting, long names, long chains
pub fn stretch(r: &mut Rng, s: &str) -> String {
    let k = size(r);
    let small = k.min(60);
    let mut o = s.to_string();
    match r.below(16) {
        0 | 1 => { // a random piece, repeated
            let a = cut(r, s);
            let mut b = (a + 1 + r.below(24)).min(s.len());
            while !s.is_char_boundary(b) { b += 1; }
            let rep = s[a..b].repeat(k.min(6000 / (b - a).max(1)));
            o.insert_str(b, &rep);
        }
        2 => { let f = FRAGS[r.below(FRAGS.len())]; let i = cut(r, s); o.insert_str(i, &f.repeat(k)); }
        3 => { // a long name in the place of a short one
            let c = r.pick(&["x", "aB", "a_", "a-", "_", "é", "1", "-", "Ab", "-b", "_b"]);
            let n = NAMES[r.below(NAMES.len())];
            if let Some(i) = s.find(n) { o.replace_range(i..i + n.len(), &format!("a{}z", c.repeat(k))); } else { o.push_str(&format!("<a{} b{}=\"x\"\n title='y'></a{}>", "x".repeat(k), c.repeat(k), "x".repeat(k))); }
        }
        4 => { // empty lines in every style
            let c = r.pick(&["\n", "\r\n", "\n\r\n", "\r\n\n", " \n", "\n \n", "\r\n\t\r\n", "\r"]);
            let c = c.repeat(k);
            let i = match s.find('\n') { Some(i) if r.chance(70) => i, _ => cut(r, s) };
            o.insert_str(i, &c);
        }
        5 => { let (a, b) = [("<div>\n", "</div>\n"), ("{% if a %}\n", "{% endif %}\n"), ("<pre>", "</pre>"), ("{% for a in b %}", "{% endfor %}"), ("<p\n class='a'>", "</p>")][r.below(5)]; o = format!("{}{}{}", a.repeat(small), s, b.repeat(small)); }
        6 => { let mut x = String::new(); for i in 0..small { x.push_str(&format!("{{% block b{} %}}\n", i % (1 + small / 2))); } o = format!("{x}{s}{}", "{% endblock %}\n".repeat(small)); }
        7 => { let f = FILTERS[r.below(FILTERS.len())]; let g = FILTERS[r.below(FILTERS.len())]; o.push_str(&format!("{{{{ a|{}{}|{} }}}}", if r.chance(50) { "json_encode" } else { g }, format!("|{f}").repeat(k), if r.chance(50) { "raw" } else { g })); }
        8 => { let op = BINOPS[r.below(BINOPS.len())]; o.push_str(&format!("{{{{ a{} }}}}", format!(" {op} b").repeat(k))); }
        9 => { let (a, b) = [("(", ")"), ("[", "]"), ("{a: ", "}"), ("f(", ")"), ("not ", ""), ("-", ""), ("\"#{", "}\"")][r.below(7)]; o.push_str(&format!("{{{{ {}a && b{} }}}}", a.repeat(small), b.repeat(small))); }
        10 => { let mut x = String::from("<a"); for i in 0..k { x.push_str(&format!(" {}{}=\"{}\"", ["id", "a", "data", "dataA"][r.below(4)], if r.chance(50) { i.to_string() } else { String::new() }, if r.chance(50) { "x".to_string() } else { i.to_string() })); if r.chance(10) { x.push('\n'); } } x.push('>'); o.push_str(&x); o.push_str("</a>"); }
        11 => { let mut x = String::new(); for i in 0..k { x.push_str(&format!("<b id=\"{}\"></b>\n", [i, i / 2, 0, k - i][r.below(4)])); } o.push_str(&x); }
        12 => { let mut x = String::new(); for i in 0..k { x.push_str(&format!("{{% block b{} %}}x{{% endblock %}}\n", [i, i / 2, 0, k - i][r.below(4)])); } o.push_str(&x); }
        13 => { let a: Vec<String> = (0..k).map(|i| format!("'k{i}': \"v\"")).collect(); o.push_str(&format!("{{{{ {{{}}} }}}}", a.join(", "))); }
        14 => { let a: Vec<String> = (0..small).map(|_| { let n = super::RULES[r.below(super::RULES.len())]; if r.chance(20) { near_name(r, n) } else { n.to_string() } }).collect(); o = format!("{{# {} {} #}}{s}", r.pick(&["ludtwig-ignore", "ludtwig-ignore-file"]), a.join(", ")); }
        _ => { let i = cut(r, s); o.insert_str(i, &" ".repeat(k)); }
    }
    o
}
/// special characters and words at places where templates have names, values and whitespace
pub fn sprinkle(r: &mut Rng, s: &str) -> String {
    let mut o = s.to_string();
    for _ in 0..1 + r.below(3) {
        let w = special(r);
        match r.below(11) {
            8 | 9 => equal(r, &mut o),
            10 => recase(r, &mut o),
            0 | 1 => { let n = NAMES[r.below(NAMES.len())]; if let Some(i) = o.find(n) { o.replace_range(i..i + n.len(), &w); } else { let i = cut(r, &o); o.insert_str(i, &w); } }
            2 | 3 => { // next to a quote, an equals sign or a bracket
                let pos: Vec<usize> = o.char_indices().filter(|(_, c)| "'\"=(){}[]|><%#.,:".contains(*c)).map(|(i, _)| i).collect();
                if pos.is_empty() { continue; }
                let i = pos[r.below(pos.len())] + usize::from(r.chance(60));
                o.insert_str(i, &w);
            }
            4 => { let f = FILTERS[r.below(FILTERS.len())]; if let Some(i) = o.find(f) { o.replace_range(i..i + f.len(), &w); } }
            5 => { let t = ["div", "p", "span", "pre", "script", "block", "id", "class"][r.below(8)]; if o.contains(t) { o = o.replace(t, &w); } }
            6 => { // around names
                let n = NAMES[r.below(NAMES.len())]; if let Some(i) = o.find(n) { let i = if r.chance(50) { i } else { i + n.len() }; o.insert_str(i, &w); } }
            _ => { let i = cut(r, &o); o.insert_str(i, &w); }
        }
    }
    o
}

/// many ids and blocks, with directives between them
pub fn dups(r: &mut Rng) -> String {
    let mut t = T { r, out: String::new(), crlf: 10, dirs: true, ind: 0 };
    fn go(t: &mut T, d: usize) {
        for _ in 0..1 + t.r.below(4) {
            match t.r.below(9) {
                0..=3 => {
                    t.p("<p ");
                    if t.r.chance(20) { t.attr(0); t.p(" "); }
                    let n = t.r.pick(&["id", "id", "id", "id", "ID", "data-id", "class"]); t.p(n); t.p("=");
                    let q = t.r.pick(&["\"", "'", "\"", ""]);
                    let v = t.r.pick(&["x", "x", "x", "y", "main", "x ", " x", "X", "x y", "é", "{{ x }}", "x{{ a }}", "x{# c #}", ""]);
                    let v = if q.is_empty() { "x" } else { v };
                    t.p(q); t.p(v); t.p(q); t.p(">");
                    if d > 0 && t.r.chance(40) { go(t, d - 1); }
                    t.p("</p>");
                }
                4..=6 => {
                    t.p("{% block "); let n = t.r.pick(&["x", "x", "a", "X", "x_"]); t.p(n);
                    if t.r.chance(10) { t.p(" 'short' %}"); continue; }
                    t.p(" %}");
                    if d > 0 && t.r.chance(50) { go(t, d - 1); }
                    t.p("{% endblock %}");
                }
                7 => {
                    t.p("{# ludtwig-ignore"); let l = t.r.pick(&["", " html-duplicate-id", " twig-block-duplicate", " html-duplicate-id, twig-block-duplicate", " indentation", " twig-block-duplicate, twig-block-duplicate"]); t.p(l); t.p(" #}");
                }
                _ => { let w = t.r.pick(&["text", "{{ a }}", "{% foo %}", "<!-- c -->", "{% if a %}", "{% endif %}", "{% else %}"]); t.p(w) }
            }
            if t.r.chance(40) { t.brk(); }
        }
    }
    go(&mut t, 3);
    t.out
}
