//! Operator precedence: an independent implementation of Twig's documented operator table
//! (precedence climbing as described in Twig's documentation) against the tree of the real parser.
use super::*;
use ludtwig_parser::syntax::untyped::SyntaxKind as K;

const BIN: &[(&str, u32, bool)] = &[
    ("or", 10, false), ("||", 10, false), ("and", 15, false), ("&&", 15, false), ("b-or", 16, false), ("b-xor", 17, false), ("b-and", 18, false),
    ("==", 20, false), ("!=", 20, false), ("<=>", 20, false), ("<", 20, false), (">", 20, false), (">=", 20, false), ("<=", 20, false),
    ("not in", 20, false), ("in", 20, false), ("matches", 20, false), ("starts with", 20, false), ("ends with", 20, false), ("===", 20, false), ("!==", 20, false),
    ("..", 25, false), ("+", 30, false), ("-", 30, false), ("~", 40, false), ("*", 60, false), ("/", 60, false), ("//", 60, false), ("%", 60, false),
    ("is", 100, false), ("is not", 100, false), ("**", 200, true), ("??", 300, true),
];
const UN: &[(&str, u32)] = &[("not", 50), ("-", 500), ("+", 500)];

fn atom(s: &str) -> bool {
    let mut c = s.chars();
    let f = c.next().unwrap_or(' ');
    (f.is_ascii_lowercase() && s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) && !["or", "and", "in", "is", "not", "matches", "starts", "ends", "with", "null", "true", "false"].contains(&s))
        || (!s.is_empty() && s.chars().all(|c| c.is_ascii_digit()))
}
struct R<'a> { t: Vec<&'a str>, i: usize }
impl<'a> R<'a> {
    fn pk(&self) -> &'a str { self.t.get(self.i).copied().unwrap_or("") }
    fn bin(&self) -> Option<(String, u32, bool, usize)> {
        let two = format!("{} {}", self.pk(), self.t.get(self.i + 1).copied().unwrap_or(""));
        BIN.iter().find(|b| b.0 == two).map(|b| (two.clone(), b.1, b.2, 2)).or_else(|| BIN.iter().find(|b| b.0 == self.pk()).map(|b| (b.0.to_string(), b.1, b.2, 1)))
    }
    fn expr(&mut self, min: u32) -> Option<String> {
        let mut l = self.primary()?;
        while let Some((op, p, right, n)) = self.bin() {
            if p < min { break; }
            self.i += n;
            let r = self.expr(if right { p } else { p + 1 })?;
            l = format!("({op} {l} {r})");
        }
        if min == 0 && self.pk() == "?" {
            self.i += 1;
            let a = if self.pk() == ":" { "-".to_string() } else { self.expr(0)? };
            let b = if self.pk() == ":" { self.i += 1; self.expr(0)? } else { "-".into() };
            l = format!("(? {l} {a} {b})");
        }
        Some(l)
    }
    fn primary(&mut self) -> Option<String> {
        let t = self.pk();
        if let Some(u) = UN.iter().find(|u| u.0 == t) {
            self.i += 1;
            let e = self.expr(u.1)?;
            return Some(format!("({} {e})", u.0));
        }
        let mut e = if t == "(" {
            self.i += 1;
            let e = self.expr(0)?;
            if self.pk() != ")" { return None; }
            self.i += 1;
            format!("[{e}]")
        } else if atom(t) { self.i += 1; t.to_string() } else { return None };
        while let Some(f) = self.pk().strip_prefix('|') {
            if !atom(f) || f.as_bytes()[0].is_ascii_digit() { return None; }
            self.i += 1;
            e = format!("(| {e} {f})");
        }
        Some(e)
    }
}

fn sexpr(n: &SyntaxNode) -> String {
    let kids: Vec<SyntaxNode> = n.children().collect();
    let t: Vec<SyntaxToken> = n.children_with_tokens().filter_map(|e| e.into_token()).filter(|t| !matches!(t.kind(), K::TK_WHITESPACE | K::TK_LINE_BREAK)).collect();
    let op = || t.first().map(|t| t.text().split_whitespace().collect::<Vec<_>>().join(" ")).unwrap_or_default();
    match n.kind() {
        K::TWIG_EXPRESSION | K::TWIG_OPERAND if kids.len() == 1 => sexpr(&kids[0]),
        K::TWIG_BINARY_EXPRESSION | K::TWIG_UNARY_EXPRESSION => format!("({} {})", op(), kids.iter().map(sexpr).collect::<Vec<_>>().join(" ")),
        K::TWIG_PARENTHESES_EXPRESSION => format!("[{}]", kids.iter().map(sexpr).collect::<Vec<_>>().join(" ")),
        K::TWIG_FILTER => format!("(| {})", kids.iter().map(sexpr).collect::<Vec<_>>().join(" ")),
        K::TWIG_CONDITIONAL_EXPRESSION => {
            let mut parts = vec![String::new(), "-".into(), "-".into()];
            let mut slot = 0;
            for e in n.children_with_tokens() {
                match e {
                    SyntaxElement::Token(t) if t.kind() == K::TK_QUESTION_MARK => slot = 1,
                    SyntaxElement::Token(t) if t.kind() == K::TK_COLON => slot = 2,
                    SyntaxElement::Node(c) => parts[slot] = sexpr(&c),
                    _ => {}
                }
            }
            format!("(? {})", parts.join(" "))
        }
        _ => n.text().to_string().split_whitespace().collect(),
    }
}

pub fn c17(c: &Case, _e: &Env) -> Res {
    let Some(src) = c.text.strip_prefix("{{ ").and_then(|s| s.strip_suffix(" }}")) else { return Ok(false) };
    let mut p = R { t: src.split(' ').collect(), i: 0 };
    let Some(want) = p.expr(0) else { return Ok(false) };
    if p.i != p.t.len() { return Ok(false); }
    let parsed = parse(&c.text);
    if !parsed.errs.is_empty() { return Err(format!("{src:?} is reported as malformed: {}", parsed.errs[0])); }
    let Some(var) = parsed.root.children().find(|n| n.kind() == K::TWIG_VAR) else { return Err("no output expression in the tree".into()) };
    let got = var.children().map(|n| sexpr(&n)).collect::<Vec<_>>().join(" ");
    if got == want { Ok(p.t.len() > 3) } else { Err(format!("{src:?} is grouped as {got} instead of {want}")) }
}

pub fn op_chain(r: &mut Rng) -> String {
    fn operand(r: &mut Rng, d: usize, o: &mut String) {
        while r.chance(22) { o.push_str(r.pick(&["not ", "- ", "+ "])); }
        if d > 0 && r.chance(15) { o.push_str("( "); chain(r, d - 1, o); o.push_str(" )"); }
        else { o.push_str(r.pick(&["a", "b", "c", "d", "1", "22", "foo"])); }
        while r.chance(10) { o.push_str(" |"); o.push_str(r.pick(&["upper", "raw", "first"])); }
    }
    fn chain(r: &mut Rng, d: usize, o: &mut String) {
        operand(r, d, o);
        for _ in 0..(if r.chance(2) { super::gen_::size(r).min(70) } else { r.below(5) }) {
            let b = BIN[r.below(BIN.len())].0;
            o.push(' '); o.push_str(b); o.push(' ');
            if b.starts_with("is") { o.push_str(r.pick(&["defined", "empty", "even", "foo"])); } else { operand(r, d, o); }
        }
        if r.chance(15) && d > 0 {
            o.push_str(" ? ");
            if r.chance(75) { chain(r, d - 1, o); o.push(' '); }
            o.push_str(": ");
            chain(r, d - 1, o);
        }
    }
    let mut o = String::from("{{ ");
    chain(r, 2, &mut o);
    o.push_str(" }}");
    o
}
