// ---------------------------------------------------------------- trusted model of the rowan tree (red tree cursors)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct SyntaxNode { id: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct SyntaxToken { id: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum SyntaxElement { Node(SyntaxNode), Token(SyntaxToken) }
type NodeOrToken = SyntaxElement;

impl SyntaxNode {
    uninterp spec fn k(self) -> SyntaxKind;
    /// children with tokens, in order
    uninterp spec fn kids(self) -> Seq<SyntaxElement>;
    uninterp spec fn range(self) -> TextRange;
    uninterp spec fn txt(self) -> Seq<char>;
    spec fn up(self) -> Option<SyntaxNode> { up(SyntaxElement::Node(self)) }
    #[verifier::external_body]
    fn kind(&self) -> (r: SyntaxKind) ensures r == self.k() { unimplemented!() }
    #[verifier::external_body]
    fn text_range(&self) -> (r: TextRange) ensures r == self.range(), r.s <= r.e, cut(r.s as int), cut(r.e as int) { unimplemented!() }
    #[verifier::external_body]
    fn text(&self) -> (r: SyntaxText) ensures r@ == self.txt() { unimplemented!() }
    #[verifier::external_body]
    fn children_with_tokens(&self) -> (r: Vec<SyntaxElement>) ensures r@ == self.kids() { unimplemented!() }
    #[verifier::external_body]
    fn children(&self) -> (r: Vec<SyntaxNode>) ensures r@ == nodes(self.kids()) { unimplemented!() }
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<SyntaxNode>) ensures r == self.up() { unimplemented!() }
    /// the node itself, its parent and so on up to the root
    #[verifier::external_body]
    fn ancestors(&self) -> (r: Vec<SyntaxNode>) ensures r@ == line(*self) { unimplemented!() }
    #[verifier::external_body]
    fn prev_sibling(&self) -> (r: Option<SyntaxNode>) ensures r == prev_node(*self) { unimplemented!() }
    #[verifier::external_body]
    fn next_sibling(&self) -> (r: Option<SyntaxNode>) ensures r == next_node(*self) { unimplemented!() }
    #[verifier::external_body]
    fn first_token(&self) -> (r: Option<SyntaxToken>) ensures r == first_leaf(*self) { unimplemented!() }
    #[verifier::external_body]
    fn last_token(&self) -> (r: Option<SyntaxToken>) ensures r == last_leaf(*self) { unimplemented!() }
}
impl SyntaxToken {
    uninterp spec fn k(self) -> SyntaxKind;
    uninterp spec fn txt(self) -> Seq<char>;
    uninterp spec fn range(self) -> TextRange;
    uninterp spec fn before(self) -> Option<SyntaxToken>;
    uninterp spec fn after(self) -> Option<SyntaxToken>;
    spec fn up(self) -> Option<SyntaxNode> { up(SyntaxElement::Token(self)) }
    #[verifier::external_body]
    fn kind(&self) -> (r: SyntaxKind) ensures r == self.k() { unimplemented!() }
    #[verifier::external_body]
    fn text(&self) -> (r: &'static str) ensures r@ == self.txt() { unimplemented!() }
    #[verifier::external_body]
    fn text_range(&self) -> (r: TextRange)
        ensures r == self.range(), r.s <= r.e, r.e - r.s == utf8(self.txt()).len(), cut(r.s as int), cut(r.e as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn prev_token(&self) -> (r: Option<SyntaxToken>) ensures r == self.before() { unimplemented!() }
    #[verifier::external_body]
    fn next_token(&self) -> (r: Option<SyntaxToken>) ensures r == self.after() { unimplemented!() }
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<SyntaxNode>) ensures r == self.up() { unimplemented!() }
}
impl SyntaxElement {
    fn into_token(self) -> (r: Option<SyntaxToken>)
        ensures r == (match self { SyntaxElement::Token(t) => Some(t), _ => None::<SyntaxToken> }),
    { match self { SyntaxElement::Token(t) => Some(t), _ => None } }
    fn into_node(self) -> (r: Option<SyntaxNode>)
        ensures r == (match self { SyntaxElement::Node(t) => Some(t), _ => None::<SyntaxNode> }),
    { match self { SyntaxElement::Node(t) => Some(t), _ => None } }
    fn as_node(&self) -> (r: Option<SyntaxNode>)
        ensures r == (match *self { SyntaxElement::Node(t) => Some(t), _ => None::<SyntaxNode> }),
    { match self { SyntaxElement::Node(t) => Some(*t), _ => None } }
    fn as_token(&self) -> (r: Option<SyntaxToken>)
        ensures r == (match *self { SyntaxElement::Token(t) => Some(t), _ => None::<SyntaxToken> }),
    { match self { SyntaxElement::Token(t) => Some(*t), _ => None } }
    spec fn k(self) -> SyntaxKind { match self { SyntaxElement::Node(n) => n.k(), SyntaxElement::Token(t) => t.k() } }
    fn kind(&self) -> (r: SyntaxKind)
        ensures r == self.k(),
    { match self { SyntaxElement::Node(n) => n.kind(), SyntaxElement::Token(t) => t.kind() } }
    #[verifier::external_body]
    fn prev_sibling_or_token(&self) -> (r: Option<SyntaxElement>) ensures r == prev(*self) { unimplemented!() }
}
/// the text of the file whose elements a rule sees
uninterp spec fn file() -> Seq<char>;
/// byte position `p` of the file does not cut a character
spec fn cut(p: int) -> bool { exists|c: int| #![trigger file().take(c)] 0 <= c <= file().len() && p == utf8(file().take(c)).len() }
/// a token's text is the text of the file from its start on (C01)
#[verifier::external_body]
proof fn ax_token(t: SyntaxToken) -> (c: int)
    ensures 0 <= c && c + t.txt().len() <= file().len(), t.range().s == utf8(file().take(c)).len(), t.txt() == file().subrange(c, c + t.txt().len()),
{ unimplemented!() }
/// a part of a token's text that starts with the token ends between two characters
proof fn lemma_part(t: SyntaxToken, n: int)
    requires 0 <= n <= t.txt().len(),
    ensures cut(t.range().s + utf8(t.txt().take(n)).len()),
{
    let c = ax_token(t);
    assert(file().take(c) + t.txt().take(n) =~= file().take(c + n));
    vstd::utf8::encode_utf8_concat(file().take(c), t.txt().take(n));
}
/// so it is a boundary of the bytes of the file
proof fn lemma_cut(p: int)
    requires cut(p),
    ensures boundary(utf8(file()), p),
{
    let c = choose|c: int| #![trigger file().take(c)] 0 <= c <= file().len() && p == utf8(file().take(c)).len();
    lemma_prefix_boundary(file(), c);
}
spec fn place_of(e: SyntaxElement) -> TextRange { match e { SyntaxElement::Node(n) => n.range(), SyntaxElement::Token(t) => t.range() } }
/// the children of a node lie one behind the other in its range
#[verifier::external_body]
proof fn ax_tiles(n: SyntaxNode, i: int)
    requires 0 <= i < n.kids().len(),
    ensures n.range().s <= place_of(n.kids()[i]).s <= place_of(n.kids()[i]).e <= n.range().e,
        place_of(n.kids()[i]).s == (if i == 0 { n.range().s } else { place_of(n.kids()[i - 1]).e }),
        i == n.kids().len() - 1 ==> place_of(n.kids()[i]).e == n.range().e,
{ }
/// the parent of an element, and its place among the children
uninterp spec fn up(e: SyntaxElement) -> Option<SyntaxNode>;
uninterp spec fn pos(e: SyntaxElement) -> int;
uninterp spec fn depth(n: SyntaxNode) -> nat;
uninterp spec fn size(e: SyntaxElement) -> nat;
/// the elements of a tree and their parents fit together; trees are finite
#[verifier::external_body]
proof fn ax_child(n: SyntaxNode, i: int)
    requires 0 <= i < n.kids().len(),
    ensures up(n.kids()[i]) == Some(n), pos(n.kids()[i]) == i, size(n.kids()[i]) < size(SyntaxElement::Node(n)),
{ }
#[verifier::external_body]
proof fn ax_parent(e: SyntaxElement)
    ensures up(e) matches Some(p) ==> 0 <= pos(e) < p.kids().len() && p.kids()[pos(e)] == e && (e matches SyntaxElement::Node(n) ==> depth(n) == depth(p) + 1),
{ }
spec fn prev(e: SyntaxElement) -> Option<SyntaxElement> {
    match up(e) { Some(p) if pos(e) > 0 => Some(p.kids()[pos(e) - 1]), _ => None }
}
/// the nearest node before this one among the children of its parent
spec fn prev_node(n: SyntaxNode) -> Option<SyntaxNode> {
    match n.up() { Some(p) => last_node(p.kids().take(pos(SyntaxElement::Node(n)))), None => None }
}
spec fn last_node(s: Seq<SyntaxElement>) -> Option<SyntaxNode>
    decreases s.len()
{
    if s.len() == 0 { None } else { match s.last() { SyntaxElement::Node(n) => Some(n), _ => last_node(s.drop_last()) } }
}
/// the nearest node after this one among the children of its parent
spec fn next_node(n: SyntaxNode) -> Option<SyntaxNode> {
    match n.up() { Some(p) => { let s = nodes(p.kids().skip(pos(SyntaxElement::Node(n)) + 1)); if s.len() > 0 { Some(s[0]) } else { None } }, None => None }
}
/// the first and the last token in the tree below a node
uninterp spec fn first_leaf(n: SyntaxNode) -> Option<SyntaxToken>;
uninterp spec fn last_leaf(n: SyntaxNode) -> Option<SyntaxToken>;
spec fn line(n: SyntaxNode) -> Seq<SyntaxNode>
    decreases depth(n) via line_dec
{
    match n.up() { Some(p) => seq![n] + line(p), None => seq![n] }
}
#[via_fn]
proof fn line_dec(n: SyntaxNode) { ax_parent(SyntaxElement::Node(n)); }

spec fn nodes(s: Seq<SyntaxElement>) -> Seq<SyntaxNode>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { match s.last() { SyntaxElement::Node(n) => nodes(s.drop_last()).push(n), _ => nodes(s.drop_last()) } }
}
spec fn tokens(s: Seq<SyntaxElement>) -> Seq<SyntaxToken>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { match s.last() { SyntaxElement::Token(n) => tokens(s.drop_last()).push(n), _ => tokens(s.drop_last()) } }
}
spec fn nodes_of(s: Seq<SyntaxNode>, k: SyntaxKind) -> Seq<SyntaxNode>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if s.last().k() == k { nodes_of(s.drop_last(), k).push(s.last()) } else { nodes_of(s.drop_last(), k) }
}
/// first child node of a kind
spec fn first_node(s: Seq<SyntaxElement>, k: SyntaxKind) -> Option<SyntaxNode>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        match first_node(s.drop_last(), k) {
            Some(n) => Some(n),
            None => match s.last() { SyntaxElement::Node(n) => if n.k() == k { Some(n) } else { None }, _ => None },
        }
    }
}
/// first child token that satisfies p
spec fn first_tok(s: Seq<SyntaxElement>, p: spec_fn(SyntaxToken) -> bool) -> Option<SyntaxToken>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        match first_tok(s.drop_last(), p) {
            Some(n) => Some(n),
            None => match s.last() { SyntaxElement::Token(n) => if p(n) { Some(n) } else { None }, _ => None },
        }
    }
}
spec fn of_kind(k: SyntaxKind) -> spec_fn(SyntaxToken) -> bool { |t: SyntaxToken| t.k() == k }
spec fn trivia(k: SyntaxKind) -> bool { k == SyntaxKind::TK_WHITESPACE || k == SyntaxKind::TK_LINE_BREAK }
spec fn solid() -> spec_fn(SyntaxToken) -> bool { |t: SyntaxToken| !trivia(t.k()) }
proof fn lemma_take<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i], s.take(i + 1).len() == i + 1,
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn lemma_all<T>(s: Seq<T>)
    ensures s.take(s.len() as int) == s,
{ assert(s.take(s.len() as int) =~= s); }

#[verifier::external_body]
struct SyntaxText { x: usize }
impl SyntaxText {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn contains_char(&self, c: char) -> (r: bool) ensures r == self@.contains(c) { unimplemented!() }
}

// ---- typed nodes
trait AstNode: Sized {
    spec fn knd() -> SyntaxKind;
    spec fn node(&self) -> SyntaxNode;
    fn can_cast(kind: SyntaxKind) -> (r: bool) ensures r == (kind == Self::knd());
    fn cast(node: SyntaxNode) -> (r: Option<Self>)
        ensures r.is_some() == (node.k() == Self::knd()), r matches Some(x) ==> x.node() == node;
    fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.node();
}
spec fn ast_opt<N: AstNode>(r: Option<N>) -> Option<SyntaxNode> { match r { Some(x) => Some(x.node()), None => None } }
/// rowan::ast::support
#[verifier::external_body]
fn child<N: AstNode>(parent: &SyntaxNode) -> (r: Option<N>)
    ensures ast_opt(r) == first_node(parent.kids(), N::knd()),
        r matches Some(x) ==> x.node().k() == N::knd(),
{ unimplemented!() }
#[verifier::external_body]
fn children<N: AstNode>(parent: &SyntaxNode) -> (r: Vec<N>)
    ensures r@.len() == nodes_of(nodes(parent.kids()), N::knd()).len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).node() == nodes_of(nodes(parent.kids()), N::knd())[i],
{ unimplemented!() }
#[verifier::external_body]
fn token(parent: &SyntaxNode, kind: SyntaxKind) -> (r: Option<SyntaxToken>)
    ensures r == first_tok(parent.kids(), of_kind(kind)),
{ unimplemented!() }

// ---- ends of iterator chains
spec fn cat<T>(s: Seq<Vec<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last()@ }
}
fn vx_flatten<T>(v: Vec<Vec<T>>) -> (r: Vec<T>)
    ensures r@ == cat(v@),
{
    let mut r: Vec<T> = Vec::new();
    let ghost s = v@;
    proof { lemma_all(s); assert(s.take(0) =~= Seq::empty()); }
    for x in vx_it: v
        invariant vx_it.seq() == s, r@ == cat(s.take(vx_it.index@)),
    {
        proof { lemma_take(s, vx_it.index@); }
        let mut x = x;
        r.append(&mut x);
    }
    r
}
fn vx_collect<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
#[verifier::external_body]
fn vx_nth<T>(v: Vec<T>, i: usize) -> (r: Option<T>)
    ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }),
{ unimplemented!() }
#[verifier::external_body]
fn vx_first<T>(v: Vec<T>) -> (r: Option<T>)
    ensures r == (if 0 < v@.len() { Some(v@[0]) } else { None }),
{ unimplemented!() }
#[verifier::external_body]
fn vx_skip<T>(v: Vec<T>, i: usize) -> (r: Vec<T>)
    ensures r@ == (if i <= v@.len() { v@.skip(i as int) } else { Seq::empty() }),
{ unimplemented!() }
#[verifier::external_body]
fn vx_take<T>(v: Vec<T>, i: usize) -> (r: Vec<T>)
    ensures r@ == (if i <= v@.len() { v@.take(i as int) } else { v@ }),
{ unimplemented!() }
#[verifier::external_body]
fn vx_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }

// ---- Into<String>
trait VxInto: Sized { spec fn out(&self) -> Seq<char>; }
impl VxInto for String { spec fn out(&self) -> Seq<char> { self@ } }
impl<'a> VxInto for &'a str { spec fn out(&self) -> Seq<char> { (*self)@ } }
impl VxInto for char { spec fn out(&self) -> Seq<char> { seq![*self] } }
#[verifier::external_body]
fn vx_into<T: VxInto>(x: T) -> (r: String) ensures r@ == x.out() { unimplemented!() }
