// ---------------------------------------------------------------- trusted stand-ins for std / rowan (ludtwig crate)
pub assume_specification<T>[ std::mem::replace ](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

// ---- characters and strings of std: exact on ASCII, beyond it only that they are functions
pub open spec fn ch_up(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn ch_low(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn ch_num(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn ch_to_low(c: char) -> char { if ch_up(c) { (c as u8 + 32) as u8 as char } else { c } }
pub open spec fn ch_to_up(c: char) -> char { if ch_low(c) { (c as u8 - 32) as u8 as char } else { c } }
pub uninterp spec fn uni_num(c: char) -> bool;
pub uninterp spec fn uni_alpha(c: char) -> bool;
pub uninterp spec fn uni_low(c: char) -> bool;
pub uninterp spec fn uni_up(c: char) -> bool;
pub uninterp spec fn uni_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uni_upper(s: Seq<char>) -> Seq<char>;
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == (*c <= '\u{7f}');
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == (ch_up(*c) || ch_low(*c));
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == (ch_up(*c) || ch_low(*c) || ch_num(*c));
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == ch_up(*c);
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == ch_low(*c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == ch_num(*c);
pub assume_specification[ char::to_ascii_lowercase ](c: &char) -> (r: char) ensures r == ch_to_low(*c);
pub assume_specification[ char::to_ascii_uppercase ](c: &char) -> (r: char) ensures r == ch_to_up(*c);
pub assume_specification[ char::eq_ignore_ascii_case ](c: &char, d: &char) -> (r: bool) ensures r == (ch_to_low(*c) == ch_to_low(*d));
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == (if c <= '\u{7f}' { ch_num(c) } else { uni_num(c) });
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == (if c <= '\u{7f}' { ch_up(c) || ch_low(c) } else { uni_alpha(c) });
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == (if c <= '\u{7f}' { ch_up(c) || ch_low(c) || ch_num(c) } else { uni_alpha(c) || uni_num(c) });
pub assume_specification[ char::is_lowercase ](c: char) -> (r: bool) ensures r == (if c <= '\u{7f}' { ch_low(c) } else { uni_low(c) });
pub assume_specification[ char::is_uppercase ](c: char) -> (r: bool) ensures r == (if c <= '\u{7f}' { ch_up(c) } else { uni_up(c) });
pub assume_specification[ str::eq_ignore_ascii_case ](a: &str, b: &str) -> (r: bool) ensures r == (a@.map_values(|c: char| ch_to_low(c)) == b@.map_values(|c: char| ch_to_low(c)));
pub assume_specification[ str::to_ascii_lowercase ](a: &str) -> (r: String) ensures r@ == a@.map_values(|c: char| ch_to_low(c));
pub assume_specification[ str::to_ascii_uppercase ](a: &str) -> (r: String) ensures r@ == a@.map_values(|c: char| ch_to_up(c));
pub assume_specification[ str::to_lowercase ](a: &str) -> (r: String) ensures r@ == uni_lower(a@);
pub assume_specification[ str::to_uppercase ](a: &str) -> (r: String) ensures r@ == uni_upper(a@);

#[verifier::external_body]
fn vx_opaque_string() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_opaque_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn vx_opaque_print() { }
#[verifier::external_body]
fn vx_unreachable() -> (r: !)
    requires false,
{ panic!() }
/// `a == b` on strings
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }

/// the UTF-8 bytes of a text (vstd's definition of the encoding)
spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
/// byte position `i` does not cut a character
spec fn boundary(b: Seq<u8>, i: int) -> bool {
    0 <= i <= b.len() && (i == 0 || i == b.len() || !(0x80 <= b[i] < 0xc0))
}

proof fn lemma_prefix(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures utf8(s.take(i)).len() <= utf8(s.take(j)).len() <= utf8(s).len(),
{
    vstd::utf8::encode_utf8_concat(s.take(i), s.subrange(i, j));
    vstd::utf8::encode_utf8_concat(s.take(j), s.skip(j));
    assert(s.take(i) + s.subrange(i, j) =~= s.take(j));
    assert(s.take(j) + s.skip(j) =~= s);
}
/// the first byte of a text starts a character
proof fn lemma_first_byte(s: Seq<char>)
    ensures utf8(s).len() > 0 ==> !(0x80 <= utf8(s)[0] < 0xc0),
{ vstd::utf8::encode_utf8_valid_utf8(s); }
/// the end of a prefix of a text is a boundary of its bytes
proof fn lemma_prefix_boundary(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures boundary(utf8(s), utf8(s.take(i)).len() as int),
{
    vstd::utf8::encode_utf8_concat(s.take(i), s.skip(i));
    assert(s.take(i) + s.skip(i) =~= s);
    lemma_first_byte(s.skip(i));
    let p = utf8(s.take(i)).len();
    if 0 < p < utf8(s).len() { assert(utf8(s)[p as int] == utf8(s.skip(i))[0]); }
}
/// rowan::TextRange: start <= end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct TextRange { s: u32, e: u32 }
impl TextRange {
    fn start(self) -> (r: u32) ensures r == self.s { self.s }
    fn end(self) -> (r: u32) ensures r == self.e { self.e }
    fn len(self) -> (r: u32)
        requires self.s <= self.e,
        ensures r == self.e - self.s,
    { self.e - self.s }
    fn new(s: u32, e: u32) -> (r: TextRange)
        requires s <= e,
        ensures r.s == s, r.e == e,
    { TextRange { s, e } }
    fn at(s: u32, len: u32) -> (r: TextRange)
        requires s + len <= u32::MAX,
        ensures r.s == s, r.e == s + len,
    { TextRange { s, e: s + len } }
    fn cover(self, o: TextRange) -> (r: TextRange)
        ensures r.s == (if self.s <= o.s { self.s } else { o.s }), r.e == (if self.e >= o.e { self.e } else { o.e }),
    { TextRange { s: if self.s <= o.s { self.s } else { o.s }, e: if self.e >= o.e { self.e } else { o.e } } }
}
type TextSize = u32;
fn vx_usize(x: u32) -> (r: usize) ensures r == x { x as usize }

// ---- strings
#[verifier::external_body]
fn vx_to_string(s: &str) -> (r: String)
    ensures r@ == s@,
{ unimplemented!() }
#[verifier::external_body]
fn vx_lit(s: &str) -> (r: String)
    ensures r@ == s@,
{ unimplemented!() }
#[verifier::external_body]
fn vx_cat(a: String, b: String) -> (r: String)
    ensures r@ == a@ + b@,
{ unimplemented!() }
uninterp spec fn decimal(x: int) -> Seq<char>;
/// `Display` of the types that occur in format strings
trait VxShow {
    spec fn text(&self) -> Seq<char>;
}
impl VxShow for i32 { spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl VxShow for usize { spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl VxShow for String { spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> VxShow for &'a str { spec fn text(&self) -> Seq<char> { (*self)@ } }
impl<'a> VxShow for &'a String { spec fn text(&self) -> Seq<char> { (*self)@ } }
#[verifier::external_body]
fn vx_show<T: VxShow>(x: &T) -> (r: String)
    ensures r@ == x.text(),
{ unimplemented!() }
fn vx_drop<T>(x: T) { }
