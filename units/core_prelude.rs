// ---------------------------------------------------------------- trusted stand-ins for std / rowan
use std::mem;

pub assume_specification<T>[ std::mem::replace ](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

#[verifier::external_body]
fn vx_opaque_string() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_opaque_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn vx_into_string<S>(s: S) -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_unreachable() -> (r: !)
    requires false,
{ panic!() }

#[verifier::external_body]
fn vx_contains(s: &[SyntaxKind], k: &SyntaxKind) -> (r: bool)
    ensures r == s@.contains(*k)
{ unimplemented!() }
#[verifier::external_body]
fn vx_join_kinds(s: &[SyntaxKind]) -> (r: String) { unimplemented!() }

/// rowan::TextRange (a pair of offsets; only equality and endpoints matter here)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct TextRange { start: u32, end: u32 }

/// `slice[from..to].iter().map(|t| t.text).collect::<String>()`
#[verifier::external_body]
fn vx_concat_text(s: &[Token], from: usize, to: usize) -> (r: String)
    requires from <= to <= s@.len(),
    ensures r@ == texts(s@.subrange(from as int, to as int), (to - from) as int),
{ unimplemented!() }

/// `slice[from..].iter().take(n).collect::<Vec<_>>()`
#[verifier::external_body]
fn vx_take<'a>(s: &'a [Token<'a>], from: usize, n: usize) -> (r: Vec<&'a Token<'a>>)
    requires from <= s@.len(),
    ensures
        r@.len() == (if from + n <= s@.len() { n as int } else { s@.len() - from }),
        forall|i: int| 0 <= i < r@.len() ==> *r@[i] == s@[from + i],
{ unimplemented!() }

/// `slice[from..].get(n)`
#[verifier::external_body]
fn vx_from_get<'a>(s: &'a [Token<'a>], from: usize, n: usize) -> (r: Option<&'a Token<'a>>)
    requires from <= s@.len(),
    ensures
        from + n < s@.len() ==> r.is_some() && *r.unwrap() == s@[from + n],
        from + n >= s@.len() ==> r.is_none(),
{ unimplemented!() }

/// `vec.drain(..).rev()`
#[verifier::external_body]
fn vx_drain_rev<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures final(v)@.len() == 0, r@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < r@.len() ==> r@[i] == old(v)@[old(v)@.len() - 1 - i],
{ unimplemented!() }

/// `slice[from..].iter().filter(|t| !t.kind.is_trivia())` (also with `.map(|t| t.kind)`)
#[verifier::external_body]
struct VxToks<'a> { s: &'a [Token<'a>], p: usize }
impl<'a> VxToks<'a> {
    uninterp spec fn toks(&self) -> Seq<Token<'a>>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a Token<'a>>)
        ensures
            final(self).toks() == old(self).toks(),
            skip(old(self).toks(), old(self).pos()) < old(self).toks().len() ==> r.is_some()
                && *r.unwrap() == old(self).toks()[skip(old(self).toks(), old(self).pos())]
                && final(self).pos() == skip(old(self).toks(), old(self).pos()) + 1,
            skip(old(self).toks(), old(self).pos()) >= old(self).toks().len() ==> r.is_none() && final(self).pos() == skip(old(self).toks(), old(self).pos()),
    { unimplemented!() }
}
#[verifier::external_body]
struct VxKinds<'a> { s: &'a [Token<'a>], p: usize }
impl<'a> VxKinds<'a> {
    uninterp spec fn toks(&self) -> Seq<Token<'a>>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<SyntaxKind>)
        ensures
            final(self).toks() == old(self).toks(),
            skip(old(self).toks(), old(self).pos()) < old(self).toks().len() ==> r.is_some()
                && r.unwrap() == old(self).toks()[skip(old(self).toks(), old(self).pos())].kind
                && final(self).pos() == skip(old(self).toks(), old(self).pos()) + 1,
            skip(old(self).toks(), old(self).pos()) >= old(self).toks().len() ==> r.is_none() && final(self).pos() == skip(old(self).toks(), old(self).pos()),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_toks<'a>(s: &'a [Token<'a>], from: usize) -> (r: VxToks<'a>)
    requires from <= s@.len(),
    ensures r.toks() == s@, r.pos() == from,
{ unimplemented!() }
#[verifier::external_body]
fn vx_kinds<'a>(s: &'a [Token<'a>], from: usize) -> (r: VxKinds<'a>)
    requires from <= s@.len(),
    ensures r.toks() == s@, r.pos() == from,
{ unimplemented!() }
/// `slice.iter()`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxIter<'a, T> { s: &'a [T], p: usize }
impl<'a, T> VxIter<'a, T> {
    uninterp spec fn seq(&self) -> Seq<T>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).seq() == old(self).seq(),
            old(self).pos() < old(self).seq().len() ==> r.is_some() && *r.unwrap() == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).seq().len() ==> r.is_none() && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_iter<'a, T>(s: &'a [T]) -> (r: VxIter<'a, T>)
    ensures r.seq() == s@, r.pos() == 0,
{ unimplemented!() }

/// rowan::GreenNodeBuilder: `depth` = number of unfinished nodes, `roots` = elements at top level,
/// `text` = concatenation of the token texts. The requires clauses are rowan's own panics.
#[verifier::external_body]
struct GreenNode { x: usize }
impl GreenNode {
    uninterp spec fn text(&self) -> Seq<char>;
    /// the nodes and tokens of the tree in preorder
    uninterp spec fn items(&self) -> Seq<VxItem>;
}
/// what the builder was told, in order
enum VxItem { Start(RawKind), Tok(RawKind, Seq<char>), End }
#[verifier::external_body]
struct GreenNodeBuilder<'a> { x: &'a usize }
impl<'a> GreenNodeBuilder<'a> {
    uninterp spec fn depth(&self) -> int;
    uninterp spec fn roots(&self) -> int;
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn items(&self) -> Seq<VxItem>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.depth() == 0, r.roots() == 0, r.text() =~= Seq::<char>::empty(), r.items() == Seq::<VxItem>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn start_node(&mut self, k: RawKind)
        ensures final(self).depth() == old(self).depth() + 1, final(self).roots() == old(self).roots(), final(self).text() == old(self).text(),
            final(self).items() == old(self).items().push(VxItem::Start(k)),
    { unimplemented!() }
    #[verifier::external_body]
    fn token(&mut self, k: RawKind, t: &str)
        ensures final(self).depth() == old(self).depth(),
            final(self).roots() == old(self).roots() + (if old(self).depth() == 0 { 1int } else { 0int }),
            final(self).text() == old(self).text() + t@,
            final(self).items() == old(self).items().push(VxItem::Tok(k, t@)),
    { unimplemented!() }
    #[verifier::external_body]
    fn finish_node(&mut self)
        requires old(self).depth() >= 1,
        ensures final(self).depth() == old(self).depth() - 1,
            final(self).roots() == old(self).roots() + (if old(self).depth() == 1 { 1int } else { 0int }),
            final(self).text() == old(self).text(),
            final(self).items() == old(self).items().push(VxItem::End),
    { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: GreenNode)
        requires self.depth() == 0, self.roots() == 1,
        ensures r.text() == self.text(), r.items() == self.items(),
    { unimplemented!() }
}
#[verifier::external_body]
struct RawKind { x: u16 }
struct TemplateLanguage { }
impl TemplateLanguage {
    #[verifier::external_body]
    fn kind_to_raw(kind: SyntaxKind) -> (r: RawKind) ensures r == raw(kind), { unimplemented!() }
}
/// the raw kind of a syntax kind (unit kinds: its number, which is converted back to the same kind)
uninterp spec fn raw(k: SyntaxKind) -> RawKind;

// ---------------------------------------------------------------- specification
spec fn is_triv(k: SyntaxKind) -> bool { k == SyntaxKind::TK_WHITESPACE || k == SyntaxKind::TK_LINE_BREAK }

/// first non-trivia position at or after c
spec fn skip(t: Seq<Token>, c: int) -> int
    decreases t.len() - c
{
    if 0 <= c < t.len() && is_triv(t[c].kind) { skip(t, c + 1) } else { c }
}

/// concatenated texts of the first n tokens
spec fn texts(t: Seq<Token>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 || n > t.len() { Seq::empty() } else { texts(t, n - 1) + t[n - 1].text@ }
}

/// tokens a up to b with the kinds of the lexer
spec fn toks(t: Seq<Token>, a: int, b: int) -> Seq<VxItem>
    decreases b - a
{
    if b <= a { Seq::empty() } else { toks(t, a, b - 1).push(VxItem::Tok(raw(t[b - 1].kind), t[b - 1].text@)) }
}
/// the start events that lead out of event i: its node and the ones around it that were put there later
spec fn chain(ev: Seq<Event>, i: int) -> Seq<SyntaxKind>
    decreases ev.len() - i
{
    if 0 <= i < ev.len() {
        match ev[i] {
            Event::StartNode { kind, forward_parent } => match forward_parent {
                Some(f) => if f > 0 && i + f < ev.len() { seq![kind] + chain(ev, i + f) } else { seq![kind] },
                None => seq![kind],
            },
            _ => Seq::empty(),
        }
    } else { Seq::empty() }
}
/// the outermost node first
spec fn opened(k: Seq<SyntaxKind>) -> Seq<VxItem> {
    Seq::new(k.len(), |j: int| VxItem::Start(raw(k[k.len() - 1 - j])))
}
/// some earlier start event forwards to event i
spec fn targeted(ev: Seq<Event>, i: int) -> bool { exists|j: int| 0 <= j < i && has_fp(#[trigger] ev[j]) && j + fp_of(ev[j]) == i }
/// what event i stands for: white space in front of tokens and of the end, the kind the event names, each node once
spec fn item(t: Seq<Token>, ev: Seq<Event>, i: int) -> Seq<VxItem> {
    let c = fold(t, ev, i);
    let s = skip(t, c);
    match ev[i] {
        Event::StartNode { kind, forward_parent } => if targeted(ev, i) { Seq::empty() } else { opened(chain(ev, i)) },
        Event::AddToken { kind } => toks(t, c, s).push(VxItem::Tok(raw(kind), t[s].text@)),
        Event::AddNextNTokensAs { n, kind } => toks(t, c, s).push(VxItem::Tok(raw(kind), texts(t.subrange(s, s + n), n as int))),
        Event::ExplicitlyConsumeTrivia => toks(t, c, s),
        Event::FinishNode => (if i == ev.len() - 1 { toks(t, c, s) } else { Seq::empty() }).push(VxItem::End),
        Event::Placeholder => Seq::empty(),
    }
}
spec fn items(t: Seq<Token>, ev: Seq<Event>, n: int) -> Seq<VxItem>
    decreases n
{
    if n <= 0 { Seq::empty() } else { items(t, ev, n - 1) + item(t, ev, n - 1) }
}
/// start events that were handled ahead of their place are exactly the ones something forwards to
#[verifier::opaque]
spec fn ahead(orig: Seq<Event>, cur: Seq<Event>, at: int, except: int) -> bool {
    &&& fp_live(orig) && cur.len() == orig.len()
    &&& forall|j: int| at <= j < orig.len() && #[trigger] orig[j] is StartNode && cur[j] is Placeholder ==> targeted(orig, j)
    &&& forall|i: int| 0 <= i < orig.len() && has_fp(#[trigger] orig[i]) && cur[i] is Placeholder && i != except ==> cur[i + fp_of(orig[i])] is Placeholder
}
proof fn lemma_ahead_init(orig: Seq<Event>)
    requires live(orig, orig, 0),
    ensures ahead(orig, orig, 0, -1),
{ reveal(ahead); reveal(live); }
/// the event at `at` was handled ahead exactly if something forwards to it
proof fn lemma_ahead_at(orig: Seq<Event>, cur: Seq<Event>, at: int)
    requires ahead(orig, cur, at, -1), live(orig, cur, at), 0 <= at < orig.len(), orig[at] is StartNode,
    ensures cur[at] is Placeholder <==> targeted(orig, at),
{
    reveal(ahead);
    reveal(live);
    if targeted(orig, at) {
        let j = choose|j: int| 0 <= j < at && has_fp(#[trigger] orig[j]) && j + fp_of(orig[j]) == at;
        assert(cur[j] is Placeholder);
    }
}
/// event x is taken, the one behind it comes next
proof fn lemma_ahead_take(orig: Seq<Event>, cur: Seq<Event>, at: int, x: int, e: int, to: int)
    requires ahead(orig, cur, at, e), at <= to, 0 <= x < orig.len(), cur[x] == orig[x], x >= to ==> targeted(orig, x),
        e >= 0 ==> e < orig.len() && has_fp(orig[e]) && e + fp_of(orig[e]) == x,
    ensures ahead(orig, cur.update(x, Event::Placeholder), to, if has_fp(orig[x]) { x } else { -1 }),
{
    reveal(ahead);
    reveal(fp_live);
    let b = cur.update(x, Event::Placeholder);
    assert forall|j: int| to <= j < orig.len() && #[trigger] orig[j] is StartNode && b[j] is Placeholder implies targeted(orig, j) by { }
    let e2 = if has_fp(orig[x]) { x } else { -1 };
    assert forall|i: int| 0 <= i < orig.len() && has_fp(#[trigger] orig[i]) && b[i] is Placeholder && i != e2 implies b[i + fp_of(orig[i])] is Placeholder by {
        assert(i != x);
        assert(cur[i] is Placeholder);
        if i != e { assert(cur[i + fp_of(orig[i])] is Placeholder); }
    }
}
/// an event without a forward parent, or one handled before, is passed
proof fn lemma_ahead_pass(orig: Seq<Event>, cur: Seq<Event>, at: int)
    requires ahead(orig, cur, at, -1), 0 <= at < orig.len(), !(cur[at] is StartNode), cur[at] is Placeholder || cur[at] == orig[at],
    ensures ahead(orig, cur.update(at, Event::Placeholder), at + 1, -1),
{
    if cur[at] is Placeholder { reveal(ahead); assert(cur.update(at, Event::Placeholder) =~= cur); }
    else { lemma_ahead_take(orig, cur, at, at, -1, at + 1); }
}

/// sink cursor after one event
spec fn step(t: Seq<Token>, e: Event, c: int) -> int {
    match e {
        Event::AddToken { kind } => skip(t, c) + 1,
        Event::AddNextNTokensAs { n, kind } => skip(t, c) + n as int,
        Event::ExplicitlyConsumeTrivia => skip(t, c),
        _ => c,
    }
}
spec fn fold(t: Seq<Token>, ev: Seq<Event>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { step(t, ev[n - 1], fold(t, ev, n - 1)) }
}
/// event i can be replayed by the sink
spec fn ev_ok(t: Seq<Token>, ev: Seq<Event>, i: int) -> bool {
    match ev[i] {
        Event::AddToken { kind } => skip(t, fold(t, ev, i)) < t.len(),
        Event::AddNextNTokensAs { n, kind } => skip(t, fold(t, ev, i)) + n <= t.len(),
        _ => true,
    }
}
spec fn weight(e: Event) -> int {
    match e {
        Event::StartNode { kind, forward_parent } => 1,
        Event::Placeholder => 1,
        Event::FinishNode => -1,
        _ => 0,
    }
}
spec fn w(ev: Seq<Event>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { w(ev, n - 1) + weight(ev[n - 1]) }
}
spec fn is_start(e: Event) -> bool { e is StartNode }
spec fn has_fp(e: Event) -> bool {
    match e { Event::StartNode { kind, forward_parent } => forward_parent.is_some(), _ => false }
}
spec fn fp_of(e: Event) -> int {
    match e { Event::StartNode { kind, forward_parent } => if forward_parent.is_some() { forward_parent.unwrap() as int } else { 0 }, _ => 0 }
}
/// every forward parent points to a later start (or still open) event, and no two point to the same
#[verifier::opaque]
spec fn fp_wf(ev: Seq<Event>) -> bool {
    &&& forall|i: int| 0 <= i < ev.len() && has_fp(#[trigger] ev[i]) ==> fp_of(ev[i]) > 0 && i + fp_of(ev[i]) < ev.len()
        && (ev[i + fp_of(ev[i])] is StartNode || ev[i + fp_of(ev[i])] is Placeholder)
    &&& forall|i: int, j: int| 0 <= i < ev.len() && 0 <= j < ev.len() && has_fp(#[trigger] ev[i]) && has_fp(#[trigger] ev[j]) && i != j
        ==> i + fp_of(ev[i]) != j + fp_of(ev[j])
}
#[verifier::opaque]
spec fn ev_wf(ev: Seq<Event>, opn: Seq<usize>) -> bool {
    &&& ev.len() > 0 ==> weight(ev[0]) == 1
    &&& forall|k: int| 1 <= k < ev.len() ==> #[trigger] w(ev, k) >= 1
    &&& w(ev, ev.len() as int) == opn.len()
    &&& forall|i: int| 0 <= i < opn.len() ==> #[trigger] opn[i] < ev.len() && ev[opn[i] as int] is Placeholder
    &&& forall|i: int, j: int| 0 <= i < j < opn.len() ==> #[trigger] opn[i] < #[trigger] opn[j]
    &&& forall|j: int| 0 <= j < ev.len() && #[trigger] ev[j] is Placeholder ==> opn.contains(j as usize)
    &&& fp_wf(ev)
}
#[verifier::opaque]
spec fn tk_wf(t: Seq<Token>, ev: Seq<Event>, cur: int) -> bool {
    &&& 0 <= fold(t, ev, ev.len() as int) <= t.len()
    &&& 0 <= cur <= t.len()
    &&& skip(t, fold(t, ev, ev.len() as int)) == skip(t, cur)
    &&& forall|i: int| 0 <= i < ev.len() ==> ev_ok(t, ev, i)
}
spec fn err_ok(t: Seq<Token>, e: ParseError) -> bool {
    exists|i: int| 0 <= i < t.len() && #[trigger] t[i].range == e.range && (e.found.is_some() ==> e.found.unwrap() == t[i].kind)
        && (e.found.is_none() ==> i == t.len() - 1)
}
spec fn errs_ok(t: Seq<Token>, es: Seq<ParseError>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> err_ok(t, #[trigger] es[i])
}

// ---------------------------------------------------------------- lemmas
proof fn lemma_skip(t: Seq<Token>, c: int)
    requires 0 <= c <= t.len(),
    ensures c <= skip(t, c) <= t.len(), skip(t, skip(t, c)) == skip(t, c),
        skip(t, c) < t.len() ==> !is_triv(t[skip(t, c)].kind),
        forall|i: int| c <= i < skip(t, c) ==> is_triv(#[trigger] t[i].kind),
    decreases t.len() - c
{
    if c < t.len() && is_triv(t[c].kind) { lemma_skip(t, c + 1); }
}
proof fn lemma_skip_mid(t: Seq<Token>, a: int, b: int)
    requires 0 <= a <= b <= skip(t, a), a <= t.len(),
    ensures skip(t, b) == skip(t, a),
    decreases b - a
{
    lemma_skip(t, a);
    if a < b { lemma_skip_mid(t, a + 1, b); }
}
proof fn lemma_skip_mono(t: Seq<Token>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures skip(t, a) <= skip(t, b),
{
    lemma_skip(t, a);
    lemma_skip(t, b);
    if b <= skip(t, a) { lemma_skip_mid(t, a, b); }
}
proof fn lemma_texts_ext(t: Seq<Token>, a: int, n: int)
    requires 0 <= a, 0 <= n, a + n <= t.len(),
    ensures texts(t, a) + texts(t.subrange(a, a + n), n) == texts(t, a + n),
    decreases n
{
    if n == 0 {
        assert(texts(t, a) + Seq::<char>::empty() =~= texts(t, a));
    } else {
        lemma_texts_ext(t, a, n - 1);
        let s = t.subrange(a, a + n);
        let s1 = t.subrange(a, a + n - 1);
        lemma_texts_same(s, s1, n - 1);
        assert(s[n - 1] == t[a + n - 1]);
        assert(texts(t, a) + (texts(s, n - 1) + s[n - 1].text@) =~= (texts(t, a) + texts(s, n - 1)) + s[n - 1].text@);
    }
}
proof fn lemma_texts_same(a: Seq<Token>, b: Seq<Token>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures texts(a, n) == texts(b, n),
    decreases n
{
    if n > 0 { lemma_texts_same(a, b, n - 1); }
}
spec fn same_step(a: Event, b: Event) -> bool {
    a == b || (weight(a) == 1 && weight(b) == 1)
}
/// sequences agreeing up to start events replay identically
proof fn lemma_agree(t: Seq<Token>, a: Seq<Event>, b: Seq<Event>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> same_step(#[trigger] a[i], b[i]),
    ensures fold(t, a, n) == fold(t, b, n), w(a, n) == w(b, n),
    decreases n
{
    if n > 0 { lemma_agree(t, a, b, n - 1); assert(same_step(a[n - 1], b[n - 1])); }
}
proof fn lemma_agree_w(a: Seq<Event>, b: Seq<Event>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> same_step(#[trigger] a[i], b[i]),
    ensures w(a, n) == w(b, n),
    decreases n
{
    if n > 0 { lemma_agree_w(a, b, n - 1); assert(same_step(a[n - 1], b[n - 1])); }
}
proof fn lemma_fold_bounds(t: Seq<Token>, ev: Seq<Event>, n: int)
    requires 0 <= n <= ev.len(), forall|i: int| 0 <= i < ev.len() ==> ev_ok(t, ev, i),
    ensures 0 <= fold(t, ev, n) <= t.len(),
    decreases n
{
    if n > 0 {
        lemma_fold_bounds(t, ev, n - 1);
        lemma_skip(t, fold(t, ev, n - 1));
        assert(ev_ok(t, ev, n - 1));
    }
}
/// pushing a neutral event
proof fn lemma_ev_push0(ev: Seq<Event>, opn: Seq<usize>, e: Event)
    requires ev_wf(ev, opn), opn.len() >= 1, weight(e) == 0,
    ensures ev_wf(ev.push(e), opn),
{
    reveal(ev_wf);
    let b = ev.push(e);
    assert forall|k: int| 0 <= k <= ev.len() implies #[trigger] w(b, k) == w(ev, k) by { lemma_agree_w(ev, b, k); }
    assert(w(b, b.len() as int) == w(b, ev.len() as int) + weight(e));
    assert forall|j: int| 0 <= j < b.len() && #[trigger] b[j] is Placeholder implies opn.contains(j as usize) by {
        if j < ev.len() { assert(ev[j] is Placeholder); }
    }
    lemma_fp_push(ev, e);
}
proof fn lemma_fp_push(ev: Seq<Event>, e: Event)
    requires fp_wf(ev), !has_fp(e),
    ensures fp_wf(ev.push(e)),
{
    reveal(fp_wf);
    let b = ev.push(e);
    assert forall|i: int| 0 <= i < b.len() && has_fp(#[trigger] b[i]) implies fp_of(b[i]) > 0 && i + fp_of(b[i]) < b.len()
        && (b[i + fp_of(b[i])] is StartNode || b[i + fp_of(b[i])] is Placeholder) by {
        assert(i < ev.len());
        assert(b[i] == ev[i]);
        assert(b[i + fp_of(b[i])] == ev[i + fp_of(ev[i])]);
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && has_fp(#[trigger] b[i]) && has_fp(#[trigger] b[j]) && i != j
        implies i + fp_of(b[i]) != j + fp_of(b[j]) by {
        assert(b[i] == ev[i]);
        assert(b[j] == ev[j]);
    }
}
proof fn lemma_ev_start(ev: Seq<Event>, opn: Seq<usize>)
    requires ev_wf(ev, opn), ev.len() == 0 || opn.len() >= 1, ev.len() < usize::MAX,
    ensures ev_wf(ev.push(Event::Placeholder), opn.push(ev.len() as usize)),
{
    reveal(ev_wf);
    let b = ev.push(Event::Placeholder);
    let o = opn.push(ev.len() as usize);
    assert forall|k: int| 0 <= k <= ev.len() implies #[trigger] w(b, k) == w(ev, k) by { lemma_agree_w(ev, b, k); }
    assert(w(b, b.len() as int) == w(b, ev.len() as int) + 1);
    assert forall|j: int| 0 <= j < b.len() && #[trigger] b[j] is Placeholder implies o.contains(j as usize) by {
        if j < ev.len() { assert(ev[j] is Placeholder); let i = choose|i: int| 0 <= i < opn.len() && opn[i] == j as usize; assert(o[i] == j as usize); }
        else { assert(o[opn.len() as int] == j as usize); }
    }
    lemma_fp_push(ev, Event::Placeholder);
}
proof fn lemma_fp_close(ev: Seq<Event>, p: int, e: Event)
    requires fp_wf(ev), 0 <= p < ev.len(), ev[p] is Placeholder, e is StartNode, !has_fp(e),
    ensures fp_wf(ev.update(p, e)),
{
    reveal(fp_wf);
    let b = ev.update(p, e);
    assert forall|i: int| 0 <= i < b.len() && has_fp(#[trigger] b[i]) implies fp_of(b[i]) > 0 && i + fp_of(b[i]) < b.len()
        && (b[i + fp_of(b[i])] is StartNode || b[i + fp_of(b[i])] is Placeholder) by {
        assert(i != p);
        assert(b[i] == ev[i]);
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && has_fp(#[trigger] b[i]) && has_fp(#[trigger] b[j]) && i != j
        implies i + fp_of(b[i]) != j + fp_of(b[j]) by {
        assert(b[i] == ev[i]);
        assert(b[j] == ev[j]);
    }
}
proof fn lemma_ev_complete(ev: Seq<Event>, opn: Seq<usize>, k: SyntaxKind)
    requires ev_wf(ev, opn), opn.len() >= 1, ev.len() < usize::MAX,
    ensures ({
        let b = ev.update(opn.last() as int, Event::StartNode { kind: k, forward_parent: None });
        ev_wf(b.push(Event::FinishNode), opn.drop_last())
    }),
{
    reveal(ev_wf);
    let p = opn.last() as int;
    let e = Event::StartNode { kind: k, forward_parent: None };
    let b = ev.update(p, e);
    let c = b.push(Event::FinishNode);
    let o = opn.drop_last();
    assert(ev[p] is Placeholder);
    assert forall|n: int| 0 <= n <= ev.len() implies #[trigger] w(c, n) == w(ev, n) by { lemma_agree_w(ev, c, n); }
    assert(w(c, c.len() as int) == w(c, ev.len() as int) - 1);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] < c.len() && c[o[i] as int] is Placeholder by {
        assert(o[i] == opn[i]);
        assert(opn[i] < opn[opn.len() - 1]);
    }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] < #[trigger] o[j] by {
        assert(o[i] == opn[i]);
        assert(o[j] == opn[j]);
    }
    assert forall|j: int| 0 <= j < c.len() && #[trigger] c[j] is Placeholder implies o.contains(j as usize) by {
        assert(j != p && j < ev.len());
        assert(ev[j] is Placeholder);
        let i = choose|i: int| 0 <= i < opn.len() && opn[i] == j as usize;
        assert(i != opn.len() - 1);
        assert(o[i] == j as usize);
    }
    lemma_fp_close(ev, p, e);
    lemma_fp_push(b, Event::FinishNode);
}
/// `precede`: the fresh placeholder (last event) becomes the forward parent of the start event at p
proof fn lemma_fp_forward(ev: Seq<Event>, p: int, f: Option<usize>)
    requires fp_wf(ev), 0 <= p < ev.len() - 1, ev[p] is StartNode,
        f.is_some(), f.unwrap() as int == ev.len() - 1 - p,
        ev[ev.len() - 1] is Placeholder,
        forall|i: int| 0 <= i < ev.len() && has_fp(#[trigger] ev[i]) ==> i + fp_of(ev[i]) < ev.len() - 1,
    ensures fp_wf(ev.update(p, Event::StartNode { kind: ev[p]->StartNode_kind, forward_parent: f })),
{
    reveal(fp_wf);
    let e = Event::StartNode { kind: ev[p]->StartNode_kind, forward_parent: f };
    let b = ev.update(p, e);
    assert forall|i: int| 0 <= i < b.len() && has_fp(#[trigger] b[i]) implies fp_of(b[i]) > 0 && i + fp_of(b[i]) < b.len()
        && (b[i + fp_of(b[i])] is StartNode || b[i + fp_of(b[i])] is Placeholder) by {
        if i != p { assert(b[i] == ev[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && has_fp(#[trigger] b[i]) && has_fp(#[trigger] b[j]) && i != j
        implies i + fp_of(b[i]) != j + fp_of(b[j]) by {
        if i != p { assert(b[i] == ev[i]); }
        if j != p { assert(b[j] == ev[j]); }
    }
}
proof fn lemma_ev_forward(ev: Seq<Event>, opn: Seq<usize>, p: int, f: Option<usize>)
    requires ev_wf(ev, opn), 0 <= p < ev.len() - 1, ev[p] is StartNode, ev.len() <= usize::MAX,
        f.is_some(), f.unwrap() as int == ev.len() - 1 - p,
        ev[ev.len() - 1] is Placeholder,
        forall|i: int| 0 <= i < ev.len() && has_fp(#[trigger] ev[i]) ==> i + fp_of(ev[i]) < ev.len() - 1,
    ensures ev_wf(ev.update(p, Event::StartNode { kind: ev[p]->StartNode_kind, forward_parent: f }), opn),
{
    reveal(ev_wf);
    let e = Event::StartNode { kind: ev[p]->StartNode_kind, forward_parent: f };
    let b = ev.update(p, e);
    assert forall|n: int| 0 <= n <= ev.len() implies #[trigger] w(b, n) == w(ev, n) by { lemma_agree_w(ev, b, n); }
    assert forall|i: int| 0 <= i < opn.len() implies #[trigger] opn[i] < b.len() && b[opn[i] as int] is Placeholder by {
        assert(ev[opn[i] as int] is Placeholder);
    }
    assert forall|j: int| 0 <= j < b.len() && #[trigger] b[j] is Placeholder implies opn.contains(j as usize) by {
        assert(ev[j] is Placeholder);
    }
    lemma_fp_forward(ev, p, f);
}
/// appending one event to the replay
proof fn lemma_tk_push(t: Seq<Token>, ev: Seq<Event>, cur: int, e: Event, cur2: int)
    requires tk_wf(t, ev, cur), cur2 <= t.len(),
        match e {
            Event::AddToken { kind } => skip(t, cur) < t.len() && cur2 == skip(t, cur) + 1,
            Event::AddNextNTokensAs { n, kind } => cur2 == skip(t, cur) + n,
            Event::ExplicitlyConsumeTrivia => cur2 == cur,
            _ => cur2 == cur,
        },
    ensures tk_wf(t, ev.push(e), cur2),
{
    reveal(tk_wf);
    let b = ev.push(e);
    assert forall|n: int| 0 <= n <= ev.len() implies #[trigger] fold(t, b, n) == fold(t, ev, n) by { lemma_agree(t, ev, b, n); }
    let n = ev.len() as int;
    lemma_skip(t, fold(t, ev, n));
    lemma_skip(t, cur);
    assert(fold(t, b, n + 1) == step(t, e, fold(t, b, n)));
    assert forall|i: int| 0 <= i < b.len() implies ev_ok(t, b, i) by {
        assert(fold(t, b, i) == fold(t, ev, i));
        if i < n { assert(ev_ok(t, ev, i)); assert(b[i] == ev[i]); }
    }
}
/// the cursor may move over trivia
proof fn lemma_tk_eat(t: Seq<Token>, ev: Seq<Event>, cur: int)
    requires tk_wf(t, ev, cur),
    ensures tk_wf(t, ev, skip(t, cur)), cur <= skip(t, cur) <= t.len(), skip(t, skip(t, cur)) == skip(t, cur),
{
    reveal(tk_wf);
    lemma_skip(t, cur);
}
proof fn lemma_tk_same(t: Seq<Token>, ev: Seq<Event>, b: Seq<Event>, cur: int)
    requires tk_wf(t, ev, cur), ev.len() == b.len(), forall|i: int| 0 <= i < ev.len() ==> same_step(#[trigger] ev[i], b[i]),
    ensures tk_wf(t, b, cur),
{
    reveal(tk_wf);
    assert forall|n: int| 0 <= n <= ev.len() implies #[trigger] fold(t, b, n) == fold(t, ev, n) by { lemma_agree(t, ev, b, n); }
    assert forall|i: int| 0 <= i < b.len() implies ev_ok(t, b, i) by {
        assert(ev_ok(t, ev, i));
        assert(fold(t, b, i) == fold(t, ev, i));
        assert(same_step(ev[i], b[i]));
    }
}

// ---------------------------------------------------------------- sink
spec fn starts(ev: Seq<Event>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { starts(ev, n - 1) + (if ev[n - 1] is StartNode { 1int } else { 0int }) }
}
spec fn fins(ev: Seq<Event>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { fins(ev, n - 1) + (if ev[n - 1] is FinishNode { 1int } else { 0int }) }
}
proof fn lemma_w_split(ev: Seq<Event>, n: int)
    requires 0 <= n <= ev.len(), forall|i: int| 0 <= i < ev.len() ==> !(#[trigger] ev[i] is Placeholder),
    ensures w(ev, n) == starts(ev, n) - fins(ev, n),
    decreases n
{
    if n > 0 { lemma_w_split(ev, n - 1); assert(!(ev[n - 1] is Placeholder)); }
}
proof fn lemma_starts_update(ev: Seq<Event>, j: int, n: int)
    requires 0 <= j < ev.len(), 0 <= n <= ev.len(), ev[j] is StartNode,
    ensures starts(ev.update(j, Event::Placeholder), n) == starts(ev, n) - (if j < n { 1int } else { 0int }),
    decreases n
{
    if n > 0 { lemma_starts_update(ev, j, n - 1); }
}
proof fn lemma_starts_same(a: Seq<Event>, b: Seq<Event>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> (#[trigger] a[i] is StartNode <==> b[i] is StartNode),
    ensures starts(a, n) == starts(b, n),
    decreases n
{
    if n > 0 { lemma_starts_same(a, b, n - 1); assert(a[n - 1] is StartNode <==> b[n - 1] is StartNode); }
}
/// state of the event list while the sink works at position `at`
#[verifier::opaque]
spec fn live(orig: Seq<Event>, cur: Seq<Event>, at: int) -> bool {
    &&& cur.len() == orig.len()
    &&& forall|j: int| 0 <= j < at && j < cur.len() ==> #[trigger] cur[j] is Placeholder
    &&& forall|j: int| at <= j < cur.len() ==> #[trigger] cur[j] == orig[j] || (orig[j] is StartNode && cur[j] is Placeholder)
    &&& forall|j: int| 0 <= j < orig.len() ==> !(#[trigger] orig[j] is Placeholder)
    &&& fp_live(cur)
}
#[verifier::opaque]
spec fn fp_live(ev: Seq<Event>) -> bool {
    &&& forall|i: int| 0 <= i < ev.len() && has_fp(#[trigger] ev[i]) ==> fp_of(ev[i]) > 0 && i + fp_of(ev[i]) < ev.len()
        && ev[i + fp_of(ev[i])] is StartNode
    &&& forall|i: int, j: int| 0 <= i < ev.len() && 0 <= j < ev.len() && has_fp(#[trigger] ev[i]) && has_fp(#[trigger] ev[j]) && i != j
        ==> i + fp_of(ev[i]) != j + fp_of(ev[j])
}
/// no remaining event forwards to position x
#[verifier::opaque]
spec fn untargeted(ev: Seq<Event>, x: int) -> bool {
    forall|i: int| 0 <= i < ev.len() && has_fp(#[trigger] ev[i]) ==> i + fp_of(ev[i]) != x
}
proof fn lemma_starts_le(orig: Seq<Event>, cur: Seq<Event>, at: int, n: int)
    requires live(orig, cur, at), 0 <= at <= orig.len(), 0 <= n <= orig.len(),
    ensures starts(cur, n) <= starts(orig, n) - starts(orig, if n < at { n } else { at }), starts(cur, n) >= 0,
        n <= at ==> starts(cur, n) == 0,
    decreases n
{
    reveal(live);
    if n > 0 {
        lemma_starts_le(orig, cur, at, n - 1);
        if n - 1 < at { assert(cur[n - 1] is Placeholder); } else { assert(cur[n - 1] == orig[n - 1] || cur[n - 1] is Placeholder); }
    }
}
proof fn lemma_fp_remove(cur: Seq<Event>, x: int)
    requires fp_live(cur), 0 <= x < cur.len(), untargeted(cur, x) || !(cur[x] is StartNode),
    ensures fp_live(cur.update(x, Event::Placeholder)),
        has_fp(cur[x]) ==> x + fp_of(cur[x]) < cur.len() && fp_of(cur[x]) > 0 && cur[x + fp_of(cur[x])] is StartNode
            && untargeted(cur.update(x, Event::Placeholder), x + fp_of(cur[x])),
{
    reveal(fp_live);
    reveal(untargeted);
    let b = cur.update(x, Event::Placeholder);
    assert forall|i: int| 0 <= i < b.len() && has_fp(#[trigger] b[i]) implies fp_of(b[i]) > 0 && i + fp_of(b[i]) < b.len()
        && b[i + fp_of(b[i])] is StartNode by {
        assert(i != x);
        assert(b[i] == cur[i]);
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && has_fp(#[trigger] b[i]) && has_fp(#[trigger] b[j]) && i != j
        implies i + fp_of(b[i]) != j + fp_of(b[j]) by {
        assert(b[i] == cur[i]);
        assert(b[j] == cur[j]);
    }
    if has_fp(cur[x]) {
        assert forall|i: int| 0 <= i < b.len() && has_fp(#[trigger] b[i]) implies i + fp_of(b[i]) != x + fp_of(cur[x]) by {
            assert(i != x);
            assert(b[i] == cur[i]);
        }
    }
}
/// removing the start event at x, which nothing forwards to
proof fn lemma_live_take(orig: Seq<Event>, cur: Seq<Event>, at: int, x: int)
    requires live(orig, cur, at), 0 <= at <= x < cur.len(), untargeted(cur, x),
        cur[x] is StartNode,
    ensures
        live(orig, cur.update(x, Event::Placeholder), at),
        cur.len() == orig.len(),
        starts(cur.update(x, Event::Placeholder), cur.len() as int) == starts(cur, cur.len() as int) - 1,
        x == at ==> live(orig, cur.update(x, Event::Placeholder), at + 1),
        has_fp(cur[x]) ==> x + fp_of(cur[x]) < cur.len() && fp_of(cur[x]) > 0 && cur.update(x, Event::Placeholder)[x + fp_of(cur[x])] is StartNode
            && untargeted(cur.update(x, Event::Placeholder), x + fp_of(cur[x])),
{
    reveal(live);
    lemma_starts_update(cur, x, cur.len() as int);
    lemma_fp_remove(cur, x);
    let b = cur.update(x, Event::Placeholder);
    assert forall|j: int| at <= j < b.len() implies #[trigger] b[j] == orig[j] || (orig[j] is StartNode && b[j] is Placeholder) by {
        if j == x { assert(cur[x] == orig[x]); } else { assert(b[j] == cur[j]); }
    }
}
/// any other event becomes a placeholder when it is processed
proof fn lemma_live_skip(orig: Seq<Event>, cur: Seq<Event>, at: int)
    requires live(orig, cur, at), 0 <= at < cur.len(), !(cur[at] is StartNode),
    ensures live(orig, cur.update(at, Event::Placeholder), at + 1),
        starts(cur.update(at, Event::Placeholder), cur.len() as int) == starts(cur, cur.len() as int),
{
    reveal(live);
    let b = cur.update(at, Event::Placeholder);
    lemma_starts_same(cur, b, cur.len() as int);
    lemma_fp_remove(cur, at);
}
proof fn lemma_live_at(orig: Seq<Event>, cur: Seq<Event>, at: int)
    requires live(orig, cur, at), 0 <= at < orig.len(),
    ensures cur.len() == orig.len(), cur[at] == orig[at] || (orig[at] is StartNode && cur[at] is Placeholder),
        !(orig[at] is Placeholder),
        untargeted(cur, at),
{
    reveal(live);
    reveal(fp_live);
    reveal(untargeted);
    assert forall|i: int| 0 <= i < cur.len() && has_fp(#[trigger] cur[i]) implies i + fp_of(cur[i]) != at by {
        if i < at { assert(cur[i] is Placeholder); }
    }
}
proof fn lemma_live_init(orig: Seq<Event>)
    requires ev_wf(orig, Seq::empty()), orig.len() >= 1,
    ensures live(orig, orig, 0), orig.len() >= 2, orig[0] is StartNode, orig[orig.len() - 1] is FinishNode,
        forall|k: int| 1 <= k < orig.len() ==> #[trigger] w(orig, k) >= 1, w(orig, orig.len() as int) == 0,
{
    reveal(ev_wf);
    reveal(live);
    reveal(fp_wf);
    reveal(fp_live);
    assert forall|j: int| 0 <= j < orig.len() implies !(#[trigger] orig[j] is Placeholder) by {
        if orig[j] is Placeholder { assert(Seq::<usize>::empty().contains(j as usize)); }
    }
    assert(w(orig, 1) == w(orig, 0) + weight(orig[0]));
    assert(w(orig, orig.len() as int) == w(orig, orig.len() - 1) + weight(orig[orig.len() - 1]));
    assert(w(orig, orig.len() - 1) >= 1);
}
/// nodes open in the builder when the sink has replayed events before `at`
spec fn depth_at(orig: Seq<Event>, cur: Seq<Event>, at: int) -> int {
    starts(orig, orig.len() as int) - starts(cur, cur.len() as int) - fins(orig, at)
}
proof fn lemma_depth(orig: Seq<Event>, cur: Seq<Event>, at: int)
    requires live(orig, cur, at), 1 <= at <= orig.len(), orig.len() >= 2,
        forall|k: int| 1 <= k < orig.len() ==> #[trigger] w(orig, k) >= 1, w(orig, orig.len() as int) == 0,
    ensures at < orig.len() ==> depth_at(orig, cur, at) >= 1, at == orig.len() ==> depth_at(orig, cur, at) == 0,
{
    reveal(live);
    lemma_starts_le(orig, cur, at, cur.len() as int);
    lemma_w_split(orig, at);
    if at < orig.len() { assert(w(orig, at) >= 1); }
}

proof fn lemma_tk_same_all(t: Seq<Token>, a: Seq<Event>, cur: int)
    requires tk_wf(t, a, cur),
    ensures forall|b: Seq<Event>| b.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> same_step(#[trigger] a[i], b[i])) ==> #[trigger] tk_wf(t, b, cur),
{
    assert forall|b: Seq<Event>| b.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> same_step(#[trigger] a[i], b[i])) implies #[trigger] tk_wf(t, b, cur) by {
        lemma_tk_same(t, a, b, cur);
    }
}
