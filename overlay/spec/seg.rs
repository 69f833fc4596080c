// ---- segments of the op stream ----
pub open spec fn pre(a: Seq<Op>, b: Seq<Op>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
}
/// ops of b after its prefix a
pub open spec fn suffix(a: Seq<Op>, b: Seq<Op>) -> Seq<Op> { b.subrange(a.len() as int, b.len() as int) }

pub broadcast proof fn bl_suffix_self(a: Seq<Op>)
    ensures #[trigger] suffix(a, a) == Seq::<Op>::empty(),
{ assert(suffix(a, a) =~= Seq::<Op>::empty()); }
pub broadcast proof fn bl_suffix_push(a: Seq<Op>, b: Seq<Op>, x: Op)
    requires a.len() <= b.len(),
    ensures #[trigger] suffix(a, b.push(x)) == suffix(a, b).push(x),
{ assert(suffix(a, b.push(x)) =~= suffix(a, b).push(x)); }
pub broadcast proof fn bl_suffix_cat(a: Seq<Op>, b: Seq<Op>, c: Seq<Op>)
    requires pre(a, b), pre(b, c),
    ensures #![trigger suffix(a, c), suffix(b, c)] suffix(a, c) == suffix(a, b) + suffix(b, c),
{ assert(suffix(a, c) =~= suffix(a, b) + suffix(b, c)); }
pub broadcast proof fn bl_suffix_insert(a: Seq<Op>, b: Seq<Op>, c: Seq<Op>, x: Op)
    requires pre(a, b), pre(b, c),
    ensures #![trigger suffix(a, c.insert(b.len() as int, x)), suffix(b, c)]
        suffix(a, c.insert(b.len() as int, x)) == suffix(a, b).push(x) + suffix(b, c),
{ assert(suffix(a, c.insert(b.len() as int, x)) =~= suffix(a, b).push(x) + suffix(b, c)); }
pub broadcast proof fn bl_empty_add(b: Seq<Op>)
    ensures #[trigger] (Seq::<Op>::empty() + b) == b,
{ assert(Seq::<Op>::empty() + b =~= b); }
pub broadcast group bl_seg { bl_suffix_self, bl_suffix_push, bl_suffix_cat, bl_suffix_insert, bl_empty_add }

//@ [C05]
// ---- the grammar of the op stream: one automaton per node, run with an explicit stack ----
pub struct Fr { pub n: Option<Node>, pub s: int }
pub type Cfg = Option<Seq<Fr>>;

pub open spec fn is_leaf_node(n: Node) -> bool {
    n is CodeSpan || n is Emphasis || n is Italic || n is Strikethrough || n is Destination || n is Title
    || n is Icon || n is Modifier || n is Metadata || n is ThematicBreak
}
pub open spec fn is_inline_node(n: Node) -> bool {
    n is Anchor || n is Bold || n is CodeSpan || n is Emphasis || n is Italic || n is Strikethrough
}
pub open spec fn is_block_node(n: Node) -> bool {
    n is Code || n is Collapsible || n is Embed || n is Highlight || n is OrderedList || n is UnorderedList
    || n is Image || n is Images || n is ThematicBreak || n is Heading || n is Paragraph
}
/// next state of a node (None: the whole stream) in state s on a value (None) or a complete child; -1: not allowed
pub open spec fn delta(n: Option<Node>, s: int, ev: Option<Node>) -> int {
    match n {
        None => match ev {
            Some(Node::Metadata) => if s == 0 { 1 } else { -1 },
            Some(Node::Document) => if s <= 1 { 2 } else { -1 },
            _ => -1,
        },
        Some(n) => if is_leaf_node(n) {
            if ev is None && s == 0 { 1 } else { -1 }
        } else { match n {
            Node::Anchor | Node::Image => match ev {
                Some(Node::Title) => if s == 0 { 1 } else { -1 },
                Some(Node::Destination) => if s == 1 { 2 } else { -1 },
                _ => -1,
            },
            Node::Images => if ev == Some(Node::Image) { if s < 2 { s + 1 } else { 2 } } else { -1 },
            Node::Embed => if ev is None && s < 3 { s + 1 } else { -1 },
            Node::Code => match ev {
                Some(Node::Modifier) => if s == 0 { 1 } else { -1 },
                None => if s <= 1 { 2 } else { -1 },
                _ => -1,
            },
            Node::Bold => match ev {
                None => if s == 0 { 1 } else { -1 },
                Some(Node::Strikethrough) | Some(Node::Italic) => 0,
                _ => -1,
            },
            Node::Heading => match ev {
                None => if s == 0 { 1 } else { -1 },
                Some(Node::Anchor) => 0,
                _ => -1,
            },
            Node::Paragraph => match ev {
                None => if s == 0 { 1 } else { -1 },
                Some(c) => if is_inline_node(c) { 0 } else { -1 },
            },
            Node::Highlight => match ev {
                Some(Node::Modifier) => if s == 0 { 1 } else { -1 },
                Some(Node::Icon) => if s <= 1 { 2 } else { -1 },
                Some(Node::Paragraph) => if s != 3 { 3 } else { -1 },
                None => if s != 4 { 4 } else { -1 },
                _ => -1,
            },
            Node::Collapsible => match ev {
                Some(Node::Modifier) => if s == 0 { 1 } else { -1 },
                Some(Node::Document) => if s <= 1 { 2 } else { -1 },
                _ => -1,
            },
            Node::UnorderedList | Node::OrderedList => if ev == Some(Node::ListItem) { 1 } else { -1 },
            Node::ListItem => match ev {
                Some(Node::Paragraph) => if s == 0 { 1 } else { -1 },
                Some(Node::UnorderedList) | Some(Node::OrderedList) => if s == 1 { 2 } else { -1 },
                _ => -1,
            },
            Node::Document => match ev {
                None => 0,
                Some(c) => if is_block_node(c) { 0 } else { -1 },
            },
            _ => -1,
        } },
    }
}
/// may the node end in state s?
pub open spec fn accepts(n: Node, s: int) -> bool {
    if is_leaf_node(n) { s == 1 } else { match n {
        Node::Anchor | Node::Image | Node::Images | Node::Code | Node::Collapsible => s == 2,
        Node::Embed => s == 3,
        Node::Highlight => s != 4,
        Node::UnorderedList | Node::OrderedList => s == 1,
        Node::ListItem => s >= 1,
        _ => true,
    } }
}
pub open spec fn feed(c: Cfg, ev: Option<Node>) -> Cfg {
    match c {
        None => None,
        Some(k) => if k.len() == 0 { None } else {
            let t = k.last();
            let s2 = delta(t.n, t.s, ev);
            if s2 < 0 { None } else { Some(k.drop_last().push(Fr { n: t.n, s: s2 })) }
        },
    }
}
pub open spec fn step(c: Cfg, op: Op) -> Cfg {
    match c {
        None => None,
        Some(k) => match op.kind {
            OpKind::Start(n) => Some(k.push(Fr { n: Some(n), s: 0 })),
            OpKind::Value => feed(c, None),
            OpKind::End(n) => if k.len() > 0 && k.last().n == Some(n) && accepts(n, k.last().s) { feed(Some(k.drop_last()), Some(n)) } else { None },
        },
    }
}
pub open spec fn run(s: Seq<Op>, c: Cfg) -> Cfg
    decreases s.len(),
{
    if s.len() == 0 { c } else { step(run(s.drop_last(), c), s.last()) }
}
/// s is exactly one complete, well-formed node n
pub open spec fn is_node(s: Seq<Op>, n: Node) -> bool {
    forall|c: Cfg| #[trigger] run(s, c) == feed(c, Some(n))
}
/// s opens node n and leaves it in state st
pub open spec fn in_node(s: Seq<Op>, n: Node, st: int) -> bool {
    forall|c: Cfg| #[trigger] run(s, c) == (match c { None => None, Some(k) => Some(k.push(Fr { n: Some(n), s: st })) })
}
pub proof fn lemma_run_cat(a: Seq<Op>, b: Seq<Op>, c: Cfg)
    ensures run(a + b, c) == run(b, run(a, c)),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_run_cat(a, b.drop_last(), c);
    }
}
pub proof fn lemma_run_push(a: Seq<Op>, x: Op, c: Cfg)
    ensures run(a.push(x), c) == step(run(a, c), x),
{ assert(a.push(x).drop_last() =~= a); assert(a.push(x).last() == x); }

pub broadcast proof fn bl_open(x: Op)
    requires x.kind is Start,
    ensures #![trigger Seq::<Op>::empty().push(x)] in_node(Seq::<Op>::empty().push(x), x.kind->Start_0, 0),
{
    assert forall|c: Cfg| #[trigger] run(Seq::<Op>::empty().push(x), c) == (match c { None => None::<Seq<Fr>>, Some(k) => Some(k.push(Fr { n: Some(x.kind->Start_0), s: 0 })) }) by {
        lemma_run_push(Seq::<Op>::empty(), x, c);
    }
}
pub broadcast proof fn bl_value(s: Seq<Op>, n: Node, st: int, x: Op)
    requires in_node(s, n, st), x.kind is Value, delta(Some(n), st, None) >= 0,
    ensures #![trigger in_node(s, n, st), s.push(x)] in_node(s.push(x), n, delta(Some(n), st, None)),
{
    let d = delta(Some(n), st, None);
    assert forall|c: Cfg| #[trigger] run(s.push(x), c) == (match c { None => None::<Seq<Fr>>, Some(k) => Some(k.push(Fr { n: Some(n), s: d })) }) by {
        lemma_run_push(s, x, c);
        assert(run(s, c) == run(s, c));
        if let Some(k) = c { assert(k.push(Fr { n: Some(n), s: st }).drop_last() =~= k); }
    }
}
pub broadcast proof fn bl_child(s: Seq<Op>, n: Node, st: int, b: Seq<Op>, m: Node)
    requires in_node(s, n, st), is_node(b, m), delta(Some(n), st, Some(m)) >= 0,
    ensures #![trigger in_node(s, n, st), is_node(b, m), s + b] in_node(s + b, n, delta(Some(n), st, Some(m))),
{
    let d = delta(Some(n), st, Some(m));
    assert forall|c: Cfg| #[trigger] run(s + b, c) == (match c { None => None::<Seq<Fr>>, Some(k) => Some(k.push(Fr { n: Some(n), s: d })) }) by {
        lemma_run_cat(s, b, c);
        assert(run(b, run(s, c)) == feed(run(s, c), Some(m)));
        if let Some(k) = c { assert(k.push(Fr { n: Some(n), s: st }).drop_last() =~= k); }
    }
}
pub broadcast proof fn bl_close(s: Seq<Op>, n: Node, st: int, x: Op)
    requires in_node(s, n, st), x.kind == OpKind::End(n), accepts(n, st),
    ensures #![trigger in_node(s, n, st), s.push(x)] is_node(s.push(x), n),
{
    assert forall|c: Cfg| #[trigger] run(s.push(x), c) == feed(c, Some(n)) by {
        lemma_run_push(s, x, c);
        assert(run(s, c) == run(s, c));
        if let Some(k) = c { assert(k.push(Fr { n: Some(n), s: st }).drop_last() =~= k); }
    }
}
pub open spec fn list_node(k: ListKind) -> Node { match k { ListKind::Unordered => Node::UnorderedList, ListKind::Ordered => Node::OrderedList } }
/// a complete stream: [Metadata] Document
pub open spec fn well_formed(s: Seq<Op>) -> bool {
    run(s, Some(seq![Fr { n: None, s: 0 }])) == Some(seq![Fr { n: None, s: 2 }])
}
/// k images in a row, ready to be wrapped in an Images node
pub open spec fn images_run(s: Seq<Op>, k: int) -> bool {
    forall|x: Op| x.kind == OpKind::Start(Node::Images) ==> in_node(#[trigger] (Seq::<Op>::empty().push(x) + s), Node::Images, if k < 2 { k } else { 2 })
}
pub proof fn lemma_images0()
    ensures images_run(Seq::<Op>::empty(), 0),
{
    assert forall|x: Op| x.kind == OpKind::Start(Node::Images) implies in_node(#[trigger] (Seq::<Op>::empty().push(x) + Seq::<Op>::empty()), Node::Images, 0) by {
        bl_open(x); assert(Seq::<Op>::empty().push(x) + Seq::<Op>::empty() =~= Seq::<Op>::empty().push(x));
    }
}
pub broadcast proof fn bl_images(s: Seq<Op>, b: Seq<Op>, k: int)
    requires images_run(s, k), k >= 0, is_node(b, Node::Image),
    ensures #![trigger images_run(s, k), is_node(b, Node::Image), s + b] images_run(s + b, k + 1),
{
    assert forall|x: Op| x.kind == OpKind::Start(Node::Images) implies in_node(#[trigger] (Seq::<Op>::empty().push(x) + (s + b)), Node::Images, if k + 1 < 2 { k + 1 } else { 2 }) by {
        let o = Seq::<Op>::empty().push(x);
        assert(o + (s + b) =~= (o + s) + b);
        bl_child(o + s, Node::Images, if k < 2 { k } else { 2 }, b, Node::Image);
    }
}
pub proof fn lemma_stream(m: Seq<Op>, d: Seq<Op>)
    requires m.len() == 0 || is_node(m, Node::Metadata), is_node(d, Node::Document),
    ensures well_formed(m + d),
{
    let c: Cfg = Some(seq![Fr { n: None, s: 0 }]);
    lemma_run_cat(m, d, c);
    let c1 = run(m, c);
    if m.len() != 0 { assert(c1 == feed(c, Some(Node::Metadata))); assert(c1->Some_0 =~= seq![Fr { n: None, s: 1 }]); }
    assert(run(d, c1) == feed(c1, Some(Node::Document)));
    assert(run(d, c1)->Some_0 =~= seq![Fr { n: None, s: 2 }]);
}
pub broadcast group bl_grammar { bl_images, bl_open, bl_value, bl_child, bl_close }
//@end

//@ [C06]
// ---- the op stream carries the text, in order ----
pub open spec fn ends_with(t: Seq<u8>, c: Seq<u8>) -> bool { c.len() <= t.len() && t.subrange(t.len() - c.len(), t.len() as int) == c }
pub open spec fn chop(t: Seq<u8>, n: int) -> Seq<u8> { t.subrange(0, t.len() - n) }
/// the contents of s, concatenated, are t; the one line break in front of a collapsible's closing marker may be missing
pub open spec fn cov(s: Seq<Op>, src: Seq<u8>, t: Seq<u8>) -> bool
    decreases s.len(),
{
    if s.len() == 0 { t.len() == 0 } else {
        let c = content_text(s.last().content, src);
        ends_with(t, c) && {
            let r = chop(t, c.len() as int);
            cov(s.drop_last(), src, r)
            || (s.last().kind == OpKind::End(Node::Collapsible) && (
                (ends_with(r, seq![10u8]) && cov(s.drop_last(), src, chop(r, 1)))
                || (ends_with(r, seq![13u8, 10u8]) && cov(s.drop_last(), src, chop(r, 2)))))
        }
    }
}
pub broadcast proof fn bl_cov_empty(src: Seq<u8>)
    ensures #![trigger cov(Seq::<Op>::empty(), src, Seq::<u8>::empty())] cov(Seq::<Op>::empty(), src, Seq::<u8>::empty()),
{}
pub proof fn lemma_cov_push(s: Seq<Op>, src: Seq<u8>, t: Seq<u8>, x: Op)
    requires cov(s, src, t),
    ensures cov(s.push(x), src, t + content_text(x.content, src)),
{
    let c = content_text(x.content, src);
    assert(s.push(x).drop_last() =~= s);
    assert((t + c).subrange((t + c).len() - c.len(), (t + c).len() as int) =~= c);
    assert(chop(t + c, c.len() as int) =~= t);
}
pub proof fn lemma_cov_cat(a: Seq<Op>, b: Seq<Op>, src: Seq<u8>, ta: Seq<u8>, tb: Seq<u8>)
    requires cov(a, src, ta), cov(b, src, tb),
    ensures cov(a + b, src, ta + tb),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(ta + tb =~= ta); } else {
        let c = content_text(b.last().content, src);
        let r = chop(tb, c.len() as int);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert((ta + tb).subrange((ta + tb).len() - c.len(), (ta + tb).len() as int) =~= c);
        assert(chop(ta + tb, c.len() as int) =~= ta + r);
        if cov(b.drop_last(), src, r) {
            lemma_cov_cat(a, b.drop_last(), src, ta, r);
        } else if ends_with(r, seq![10u8]) && cov(b.drop_last(), src, chop(r, 1)) {
            lemma_cov_cat(a, b.drop_last(), src, ta, chop(r, 1));
            assert(chop(ta + r, 1) =~= ta + chop(r, 1));
            assert((ta + r).subrange((ta + r).len() - 1, (ta + r).len() as int) =~= seq![10u8]);
        } else {
            lemma_cov_cat(a, b.drop_last(), src, ta, chop(r, 2));
            assert(chop(ta + r, 2) =~= ta + chop(r, 2));
            assert((ta + r).subrange((ta + r).len() - 2, (ta + r).len() as int) =~= seq![13u8, 10u8]);
        }
    }
}
/// closing a collapsible may drop one line break
pub proof fn lemma_cov_close(s: Seq<Op>, src: Seq<u8>, t: Seq<u8>, e: Seq<u8>, x: Op)
    requires cov(s, src, t), x.kind == OpKind::End(Node::Collapsible), e.len() == 0 || line_break(e),
    ensures cov(s.push(x), src, t + e + content_text(x.content, src)),
{
    let c = content_text(x.content, src);
    let u = t + e + c;
    assert(s.push(x).drop_last() =~= s);
    assert(u.subrange(u.len() - c.len(), u.len() as int) =~= c);
    assert(chop(u, c.len() as int) =~= t + e);
    assert(chop(t + e, e.len() as int) =~= t);
    assert((t + e).subrange((t + e).len() - e.len(), (t + e).len() as int) =~= e);
    if e.len() == 0 { assert(t + e =~= t); }
}
pub broadcast proof fn bl_cov_push(s: Seq<Op>, src: Seq<u8>, t: Seq<u8>, x: Op)
    requires cov(s, src, t),
    ensures #![trigger cov(s, src, t), s.push(x)] cov(s.push(x), src, t + content_text(x.content, src)),
{ lemma_cov_push(s, src, t, x) }
pub broadcast proof fn bl_cov_cat(a: Seq<Op>, b: Seq<Op>, src: Seq<u8>, ta: Seq<u8>, tb: Seq<u8>)
    requires cov(a, src, ta), cov(b, src, tb),
    ensures #![trigger cov(a, src, ta), cov(b, src, tb), a + b] cov(a + b, src, ta + tb),
{ lemma_cov_cat(a, b, src, ta, tb) }
pub broadcast proof fn bl_toks_cat(toks: Seq<Token>, src: Seq<u8>, i: int, j: int, k: int)
    requires i <= j <= k,
    ensures #[trigger] (toks_text(toks, src, i, j) + toks_text(toks, src, j, k)) == toks_text(toks, src, i, k),
{ lemma_toks_text_split(toks, src, i, j, k) }
pub broadcast proof fn bl_add_empty(t: Seq<u8>)
    ensures #[trigger] (t + Seq::<u8>::empty()) == t,
{ assert(t + Seq::<u8>::empty() =~= t); }
pub broadcast group bl_carry { bl_cov_push, bl_cov_cat, bl_toks_cat, bl_add_empty }
pub proof fn carry0(p: Parser)
    ensures carries(p, p), toks_text(p.tokens@, src_of(p), p.pos as int, p.pos as int) == Seq::<u8>::empty(),
{ assert(suffix(p.ops@, p.ops@) =~= Seq::<Op>::empty()); }
/// like carries, up to token e
pub open spec fn carries_to(a: Parser, b: Parser, e: int) -> bool {
    cov(suffix(a.ops@, b.ops@), src_of(a), toks_text(a.tokens@, src_of(a), a.pos as int, e))
}
/// start of the text run not yet emitted
pub open spec fn pending(t: Option<usize>, p: Parser) -> int { match t { Some(s) => s as int, None => p.pos as int } }
/// the op stream between a and b carries the text of the tokens between them
pub open spec fn carries(a: Parser, b: Parser) -> bool {
    cov(suffix(a.ops@, b.ops@), src_of(a), toks_text(a.tokens@, src_of(a), a.pos as int, b.pos as int))
}
//@end
