//@ [C14]
// ---- round trip: a document printed, read, built again ----
/// where a text stands: None, directly in a paragraph; Some(n), in an inline construct of kind n (Image: in an image's alt text;
/// Heading: in a heading without `[`; Highlight: nowhere, only backslashes are escaped; Embed and Collapsible: in the first and
/// the second field of an embed; Modifier: in the language of a code block; Code: in its text)
pub open spec fn raw(o: Option<Node>) -> bool { o matches Some(n) && (n is Embed || n is Collapsible || n is Modifier || n is Code) }
/// a line feed may follow
pub open spec fn lined(o: Option<Node>) -> bool { o matches Some(n) && (n is Modifier || n is Code) }
pub open spec fn tick(c: char) -> bool { c == '`' }
/// three backticks in front
pub open spec fn ticks(t: Seq<char>) -> bool { t.len() > 2 && t[0] == '`' && t[1] == '`' && t[2] == '`' }
pub open spec fn lchar(n: Node) -> char { match n { Node::Italic => '_', Node::Strikethrough => '~', Node::CodeSpan => '`', _ => '*' } }
pub open spec fn ldel(n: Node) -> Seq<char> { match n { Node::Strikethrough => seq!['~', '~'], Node::Bold => seq!['*', '*'], n => seq![lchar(n)] } }
pub open spec fn leaf_n(n: Node) -> bool { n is Italic || n is Strikethrough || n is CodeSpan || n is Emphasis || n is Bold }
/// the characters that are escaped
pub open spec fn pcs(o: Option<Node>) -> Set<char> {
    match o {
        None => set!['\\', '*', '_', '~', '`', '[', '{'],
        Some(Node::Italic) => set!['\\', '_'],
        Some(Node::Strikethrough) => set!['\\', '~'],
        Some(Node::CodeSpan) => set!['\\', '`'],
        Some(Node::Bold) => set!['\\', '*', '_', '~'],
        Some(Node::Title) => set!['\\', '[', ']'],
        Some(Node::Destination) => set!['\\', '(', ')'],
        Some(Node::Image) => set!['\\', ']'],
        Some(Node::Heading) => set!['\\', '#', '['],
        Some(Node::Highlight) => set!['\\'],
        Some(Node::Code) => set!['\\'],
        Some(Node::Embed) => set!['\\', '{', '|'],
        Some(Node::Collapsible) => set!['\\', '{', '%', '}'],
        Some(Node::Modifier) => set!['\\', '`', '\n'],
        Some(n) => set!['\\', '*'],
    }
}
pub open spec fn two_nl() -> Seq<char> { seq!['\n', '\n'] }
/// what two line feeds are printed as
pub open spec fn qnl(o: Option<Node>) -> Seq<char> { if o is None { seq!['\\', '\n', '\\', '\n'] } else { seq!['\\', '\n', '\n'] } }
/// the printed form of a text, in one pass, without the last step
pub open spec fn tn(o: Option<Node>, t: Seq<char>) -> Seq<char>
    decreases t.len(),
{
    if t.len() == 0 { t }
    else if pcs(o).contains(t[0]) { seq!['\\', t[0]] + tn(o, t.drop_first()) }
    else if !raw(o) && t[0] == '\n' && t.len() > 1 && t[1] == '\n' { qnl(o) + tn(o, t.subrange(2, t.len() as int)) }
    else { seq![t[0]] + tn(o, t.drop_first()) }
}
pub open spec fn px(o: Option<Node>, t: Seq<char>) -> Seq<char>
    decreases t.len(),
{
    if t.len() == 0 { t }
    else if pcs(o).contains(t[0]) { seq!['\\', t[0]] + px(o, t.drop_first()) }
    else if o is None && t[0] == '%' && t.len() > 1 && t[1] == '}' { seq!['\\', '%'] + px(o, t.drop_first()) }
    else if o == Some(Node::Code) && ticks(t) { seq!['\\', '`', '`', '`'] + px(o, t.subrange(3, t.len() as int)) }
    else if !raw(o) && t[0] == '\n' && t.len() > 1 && t[1] == '\n' { qnl(o) + px(o, t.subrange(2, t.len() as int)) }
    else { seq![t[0]] + px(o, t.drop_first()) }
}
proof fn lemma_subst_skip(s: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires s.len() > 0, p.len() > 0, s[0] != p[0],
    ensures subst(s, p, q) == seq![s[0]] + subst(s.drop_first(), p, q),
{ lemma_has_prefix(s, p); }
proof fn lemma_tn(o: Option<Node>, t: Seq<char>)
    requires !raw(o),
    ensures subst(esc(t, pcs(o)), two_nl(), qnl(o)) == tn(o, t),
    decreases t.len(),
{
    let (cs, p, q) = (pcs(o), two_nl(), qnl(o));
    let e = esc(t, cs);
    if t.len() > 0 {
        let r = t.drop_first();
        lemma_tn(o, r);
        lemma_has_prefix(e, p);
        if cs.contains(t[0]) {
            assert(e =~= seq!['\\', t[0]] + esc(r, cs));
            assert(e.drop_first() =~= seq![t[0]] + esc(r, cs));
            assert(e.drop_first().drop_first() =~= esc(r, cs));
            assert(t[0] != '\n');
            lemma_subst_skip(e, p, q);
            lemma_subst_skip(e.drop_first(), p, q);
            assert(subst(e, p, q) =~= seq!['\\', t[0]] + subst(esc(r, cs), p, q));
        } else if t[0] == '\n' && t.len() > 1 && t[1] == '\n' {
            let r2 = t.subrange(2, t.len() as int);
            lemma_tn(o, r2);
            assert(r.drop_first() =~= r2);
            assert(e =~= seq!['\n', '\n'] + esc(r2, cs));
            assert(e.subrange(2, e.len() as int) =~= esc(r2, cs));
        } else {
            assert(e =~= seq![t[0]] + esc(r, cs));
            assert(e.drop_first() =~= esc(r, cs));
            if r.len() > 0 { assert(esc(r, cs)[0] == '\\' || esc(r, cs)[0] == r[0]); }
        }
    }
}
proof fn lemma_tx(t: Seq<char>)
    ensures subst(tn(None, t), seq!['%', '}'], seq!['\\', '%', '}']) == px(None, t),
    decreases t.len(),
{
    let (p, q) = (seq!['%', '}'], seq!['\\', '%', '}']);
    let n = tn(None, t);
    if t.len() > 0 {
        let r = t.drop_first();
        lemma_tx(r);
        lemma_has_prefix(n, p);
        if pcs(None).contains(t[0]) {
            assert(n.drop_first() =~= seq![t[0]] + tn(None, r));
            assert(n.drop_first().drop_first() =~= tn(None, r));
            lemma_subst_skip(n, p, q);
            lemma_subst_skip(n.drop_first(), p, q);
            assert(subst(n, p, q) =~= seq!['\\', t[0]] + subst(tn(None, r), p, q));
        } else if t[0] == '\n' && t.len() > 1 && t[1] == '\n' {
            let r2 = t.subrange(2, t.len() as int);
            lemma_tx(r2);
            let n1 = n.drop_first();
            let n2 = n1.drop_first();
            let n3 = n2.drop_first();
            assert(n1 =~= seq!['\n', '\\', '\n'] + tn(None, r2));
            assert(n2 =~= seq!['\\', '\n'] + tn(None, r2));
            assert(n3 =~= seq!['\n'] + tn(None, r2));
            assert(n3.drop_first() =~= tn(None, r2));
            lemma_subst_skip(n, p, q);
            lemma_subst_skip(n1, p, q);
            lemma_subst_skip(n2, p, q);
            lemma_subst_skip(n3, p, q);
            assert(subst(n, p, q) =~= seq!['\\', '\n', '\\', '\n'] + subst(tn(None, r2), p, q));
        } else {
            assert(n =~= seq![t[0]] + tn(None, r));
            assert(n.drop_first() =~= tn(None, r));
            if r.len() > 0 { assert(tn(None, r)[0] == '\\' || tn(None, r)[0] == r[0]); }
            if t[0] == '%' && r.len() > 0 && r[0] == '}' {
                let r1 = r.drop_first();
                lemma_tx(r1);
                assert(tn(None, r) =~= seq!['}'] + tn(None, r1));
                assert(n.subrange(2, n.len() as int) =~= tn(None, r1));
                assert(px(None, r) =~= seq!['}'] + px(None, r1));
                assert(subst(n, p, q) =~= seq!['\\', '%'] + px(None, r));
            }
        }
    }
}
proof fn lemma_px(n: Node, t: Seq<char>)
    requires !raw(Some(n)),
    ensures tn(Some(n), t) == px(Some(n), t),
    decreases t.len(),
{ if t.len() > 0 { lemma_px(n, t.drop_first()); if t.len() > 1 { lemma_px(n, t.subrange(2, t.len() as int)); } } }
/// what is printed with escapes only
proof fn lemma_esc(o: Option<Node>, t: Seq<char>)
    requires raw(o), o != Some(Node::Code),
    ensures esc(t, pcs(o)) == px(o, t),
    decreases t.len(),
{ if t.len() > 0 { lemma_esc(o, t.drop_first()); } }
/// the text of a code block
proof fn lemma_ticks(t: Seq<char>)
    ensures subst(esc(t, set!['\\']), seq!['`', '`', '`'], seq!['\\', '`', '`', '`']) == px(Some(Node::Code), t),
        esc(t, set!['\\']).len() >= t.len(), t.len() > 0 && t[0] != '\\' ==> esc(t, set!['\\'])[0] == t[0], t.len() > 0 && t[0] == '\\' ==> esc(t, set!['\\'])[0] == '\\',
    decreases t.len(),
{
    let (cs, p, q, o) = (set!['\\'], seq!['`', '`', '`'], seq!['\\', '`', '`', '`'], Some(Node::Code));
    let e = esc(t, cs);
    if t.len() > 0 {
        let r = t.drop_first();
        lemma_ticks(r);
        lemma_has_prefix(e, p);
        if t[0] == '\\' {
            assert(e =~= seq!['\\', t[0]] + esc(r, cs));
            assert(e.drop_first() =~= seq![t[0]] + esc(r, cs));
            assert(e.drop_first().drop_first() =~= esc(r, cs));
            lemma_subst_skip(e, p, q);
            lemma_subst_skip(e.drop_first(), p, q);
            assert(subst(e, p, q) =~= seq!['\\', t[0]] + px(o, r));
        } else {
            assert(e.drop_first() =~= esc(r, cs));
            if r.len() > 0 {
                let r1 = r.drop_first();
                lemma_ticks(r1);
                if r[0] == '`' {
                    assert(e.drop_first().drop_first() =~= esc(r1, cs));
                    assert(e[1] == '`');
                    if r1.len() > 0 {
                        let r2 = r1.drop_first();
                        lemma_ticks(r2);
                        assert(e[2] == esc(r1, cs)[0]);
                        if r1[0] == '`' { assert(e.subrange(3, e.len() as int) =~= esc(r2, cs)); assert(t.subrange(3, t.len() as int) =~= r2); }
                    }
                } else { assert(e[1] == esc(r, cs)[0]); }
            }
            assert(has_prefix(e, p) == ticks(t));
            assert(subst(e, p, q) =~= px(o, t));
        }
    }
}
/// no two stars are left in a bold text
proof fn lemma_stars(t: Seq<char>)
    ensures stars(px(Some(Node::Bold), t)) == px(Some(Node::Bold), t),
    decreases t.len(),
{
    let (p, q) = (seq!['*', '*'], seq!['\\', '*', '*']);
    let o = Some(Node::Bold);
    let x = px(o, t);
    if t.len() > 0 {
        let r = t.drop_first();
        lemma_stars(r);
        lemma_has_prefix(x, p);
        if pcs(o).contains(t[0]) {
            let x1 = x.drop_first();
            assert(x1 =~= seq![t[0]] + px(o, r));
            assert(x1.drop_first() =~= px(o, r));
            lemma_subst_skip(x, p, q);
            lemma_has_prefix(x1, p);
            if r.len() > 0 { assert(px(o, r)[0] == '\\' || px(o, r)[0] == r[0]); assert(px(o, r)[0] != '*'); }
            assert(subst(x1, p, q) =~= seq![t[0]] + subst(px(o, r), p, q));
            assert(subst(x, p, q) =~= x);
        } else if t[0] == '\n' && t.len() > 1 && t[1] == '\n' {
            let r2 = t.subrange(2, t.len() as int);
            lemma_stars(r2);
            let x1 = x.drop_first();
            let x2 = x1.drop_first();
            assert(x1 =~= seq!['\n', '\n'] + px(o, r2));
            assert(x2 =~= seq!['\n'] + px(o, r2));
            assert(x2.drop_first() =~= px(o, r2));
            lemma_subst_skip(x, p, q);
            lemma_subst_skip(x1, p, q);
            lemma_subst_skip(x2, p, q);
            assert(subst(x, p, q) =~= x);
        } else {
            assert(x.drop_first() =~= px(o, r));
            lemma_subst_skip(x, p, q);
            assert(subst(x, p, q) =~= x);
        }
    }
}
/// a node of a paragraph: a text, or an inline construct of kind n around a text
pub enum Pn { T(Seq<char>), L(Node, Seq<char>), A(Seq<char>, Seq<char>) }
/// a title in brackets and a destination in parentheses
pub open spec fn lc(n: Node, t: Seq<char>, u: Seq<char>) -> Seq<char> {
    seq!['['] + px(Some(n), t) + seq![']', '('] + px(Some(Node::Destination), u) + seq![')']
}
/// what it is printed as
pub open spec fn pc(x: Pn) -> Seq<char> {
    match x { Pn::T(t) => px(None, t), Pn::L(n, t) => ldel(n) + px(Some(n), t) + ldel(n), Pn::A(t, u) => lc(Node::Title, t, u) }
}
/// x is what this node is about
pub open spec fn node_is(v: ParagraphNodes, x: Pn) -> bool {
    match x {
        Pn::T(t) => v matches ParagraphNodes::Text(s) && s@ == t,
        Pn::L(Node::Italic, t) => v matches ParagraphNodes::Italic(s) && s.0@ == t,
        Pn::L(Node::Strikethrough, t) => v matches ParagraphNodes::Strikethrough(s) && s.0@ == t,
        Pn::L(Node::CodeSpan, t) => v matches ParagraphNodes::CodeSpan(s) && s.0@ == t,
        Pn::L(Node::Emphasis, t) => v matches ParagraphNodes::Emphasis(s) && s.0@ == t,
        Pn::L(Node::Bold, t) => v matches ParagraphNodes::Bold(b) && b.body@.len() == 1 && (b.body@[0] matches BoldNodes::Text(s) && s@ == t),
        Pn::A(t, u) => v matches ParagraphNodes::Anchor(a) && a.text@ == t && a.url@ == u,
        _ => false,
    }
}
proof fn lemma_lc(n: Node, t: Seq<char>, u: Seq<char>)
    requires !raw(Some(n)),
    ensures lc(n, t, u) == seq!['['] + blank(esc(t, pcs(Some(n)))) + seq![']', '('] + blank(esc(u, pcs(Some(Node::Destination)))) + seq![')'],
{
    lemma_tn(Some(n), t);
    lemma_px(n, t);
    lemma_tn(Some(Node::Destination), u);
    lemma_px(Node::Destination, u);
}
/// the text of a heading
proof fn lemma_hash(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '[',
    ensures subst(px(Some(Node::Highlight), t), seq!['#'], seq!['\\', '#']) == px(Some(Node::Heading), t),
    decreases t.len(),
{
    let (p, q) = (seq!['#'], seq!['\\', '#']);
    let (o, h) = (Some(Node::Highlight), Some(Node::Heading));
    let x = px(o, t);
    if t.len() > 0 {
        let r = t.drop_first();
        assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == t[i + 1]);
        lemma_hash(r);
        lemma_has_prefix(x, p);
        assert(t[0] != '[');
        if t[0] == '\\' {
            let x1 = x.drop_first();
            assert(x1 =~= seq![t[0]] + px(o, r));
            assert(x1.drop_first() =~= px(o, r));
            lemma_subst_skip(x, p, q);
            lemma_subst_skip(x1, p, q);
            assert(subst(x, p, q) =~= px(h, t));
        } else if t[0] == '\n' && t.len() > 1 && t[1] == '\n' {
            let r2 = t.subrange(2, t.len() as int);
            assert(forall|i: int| 0 <= i < r2.len() ==> #[trigger] r2[i] == t[i + 2]);
            lemma_hash(r2);
            let x1 = x.drop_first();
            let x2 = x1.drop_first();
            assert(x1 =~= seq!['\n', '\n'] + px(o, r2));
            assert(x2 =~= seq!['\n'] + px(o, r2));
            assert(x2.drop_first() =~= px(o, r2));
            lemma_subst_skip(x, p, q);
            lemma_subst_skip(x1, p, q);
            lemma_subst_skip(x2, p, q);
            assert(subst(x, p, q) =~= px(h, t));
        } else {
            assert(x.drop_first() =~= px(o, r));
            if t[0] == '#' { assert(x.subrange(1, x.len() as int) =~= px(o, r)); assert(subst(x, p, q) =~= px(h, t)); }
            else { lemma_subst_skip(x, p, q); assert(subst(x, p, q) =~= px(h, t)); }
        }
    }
}
proof fn lemma_node_shown(v: ParagraphNodes, x: Pn)
    requires node_is(v, x), x matches Pn::L(n, t) ==> t.len() > 0,
    ensures show_para_node(v) == pc(x),
{
    match x {
        Pn::T(t) => { lemma_tn(None, t); lemma_tx(t); }
        Pn::A(t, u) => { lemma_lc(Node::Title, t, u); }
        Pn::L(n, t) => {
            lemma_tn(Some(n), t);
            lemma_px(n, t);
            if n is Bold {
                lemma_stars(t);
                let b = v->Bold_0;
                assert(bold_has(b.body@[0]));
                reveal_with_fuel(show_bold_nodes, 2);
                assert(show_bold_nodes(b.body@, 1) =~= px(Some(n), t));
            }
        }
    }
}

// ---- bytes ----
/// bytes that are escaped
pub open spec fn dset(o: Option<Node>, b: u8) -> bool {
    match o {
        None => b == 0x2a || b == 0x5f || b == 0x7e || b == 0x60 || b == 0x5b || b == 0x7b,
        Some(Node::Italic) => b == 0x5f,
        Some(Node::Strikethrough) => b == 0x7e,
        Some(Node::CodeSpan) => b == 0x60,
        Some(Node::Bold) => b == 0x2a || b == 0x5f || b == 0x7e,
        Some(Node::Title) => b == 0x5b || b == 0x5d,
        Some(Node::Destination) => b == 0x28 || b == 0x29,
        Some(Node::Image) => b == 0x5d,
        Some(Node::Heading) => b == 0x5b,
        Some(Node::Highlight) => false,
        Some(Node::Code) => false,
        Some(Node::Embed) => b == 0x7b || b == 0x7c,
        Some(Node::Collapsible) => b == 0x7d || b == 0x25,
        Some(Node::Modifier) => b == 0x60 || b == 10,
        Some(n) => b == 0x2a,
    }
}
pub open spec fn hot(o: Option<Node>, e: Seq<u8>, i: int) -> bool {
    0 <= i < e.len() && (dset(o, e[i]) || (!raw(o) && e[i] == 10 && i + 1 < e.len() && e[i + 1] == 10)
    || (o == Some(Node::Code) && i + 2 < e.len() && e[i] == 0x60 && e[i + 1] == 0x60 && e[i + 2] == 0x60 && (i == 0 || e[i - 1] != 0x60)))
}
/// read as text, e means u: everything that could mean something else is escaped
pub open spec fn calm(o: Option<Node>, e: Seq<u8>, u: Seq<u8>) -> bool {
    !escst(e, e.len() as int) && unescaped(e) == u && (forall|i: int| #[trigger] hot(o, e, i) ==> escst(e, i))
    && (forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != 13)
}
proof fn lemma_cat_left(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(),
    ensures escst(a + b, i) == escst(a, i), unescaped_to(a + b, i) == unescaped_to(a, i),
    decreases i,
{ if i > 0 { lemma_cat_left(a, b, i - 1); assert((a + b)[i - 1] == a[i - 1]); } }
proof fn lemma_cat_right(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), !escst(a, a.len() as int),
    ensures escst(a + b, a.len() + i) == escst(b, i), unescaped_to(a + b, a.len() + i) == unescaped(a) + unescaped_to(b, i),
    decreases i,
{
    if i > 0 {
        lemma_cat_right(a, b, i - 1);
        assert((a + b)[a.len() + i - 1] == b[i - 1]);
        assert(unescaped_to(a + b, a.len() + i) =~= unescaped(a) + unescaped_to(b, i));
    } else { lemma_cat_left(a, b, a.len() as int); assert(unescaped(a) + unescaped_to(b, 0) =~= unescaped(a)); }
}
proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>)
    requires !escst(a, a.len() as int),
    ensures
        forall|i: int| 0 <= i <= a.len() ==> #[trigger] escst(a + b, i) == escst(a, i),
        forall|i: int| 0 <= i <= a.len() ==> #[trigger] unescaped_to(a + b, i) == unescaped_to(a, i),
        forall|i: int| a.len() <= i <= a.len() + b.len() ==> #[trigger] escst(a + b, i) == escst(b, i - a.len()),
        forall|i: int| a.len() <= i <= a.len() + b.len() ==> #[trigger] unescaped_to(a + b, i) == unescaped(a) + unescaped_to(b, i - a.len()),
{
    assert forall|i: int| 0 <= i <= a.len() implies #[trigger] escst(a + b, i) == escst(a, i) by { lemma_cat_left(a, b, i); }
    assert forall|i: int| 0 <= i <= a.len() implies #[trigger] unescaped_to(a + b, i) == unescaped_to(a, i) by { lemma_cat_left(a, b, i); }
    assert forall|i: int| a.len() <= i <= a.len() + b.len() implies #[trigger] escst(a + b, i) == escst(b, i - a.len()) by { lemma_cat_right(a, b, i - a.len()); }
    assert forall|i: int| a.len() <= i <= a.len() + b.len() implies #[trigger] unescaped_to(a + b, i) == unescaped(a) + unescaped_to(b, i - a.len()) by { lemma_cat_right(a, b, i - a.len()); }
}
proof fn lemma_calm_cons(o: Option<Node>, a: Seq<u8>, b: Seq<u8>, ua: Seq<u8>, ub: Seq<u8>)
    requires
        !escst(a, a.len() as int), unescaped(a) == ua, calm(o, b, ub),
        forall|i: int| 0 <= i < a.len() && #[trigger] hot(o, a + b, i) ==> escst(a, i),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 13,
    ensures calm(o, a + b, ua + ub),
{
    let e = a + b;
    lemma_cat(a, b);
    assert forall|i: int| #[trigger] hot(o, e, i) implies escst(e, i) by {
        if i >= a.len() { assert(hot(o, b, i - a.len())); }
    }
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 13 by { if i >= a.len() { assert(b[i - a.len()] != 13); } else { assert(a[i] != 13); } }
}
proof fn lemma_wide_bytes(c: char)
    requires (c as u32) >= 128,
    ensures encode_scalar(c as u32).len() > 0, forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 128,
{
    let u = c as u32;
    assert(0xc0u8 | ((u >> 6) & 0x1f) as u8 >= 128) by(bit_vector);
    assert(0xe0u8 | ((u >> 12) & 0x0f) as u8 >= 128) by(bit_vector);
    assert(0xf0u8 | ((u >> 18) & 0x07) as u8 >= 128) by(bit_vector);
    assert(0x80u8 | (u & 0x3f) as u8 >= 128) by(bit_vector);
    assert(0x80u8 | ((u >> 6) & 0x3f) as u8 >= 128) by(bit_vector);
    assert(0x80u8 | ((u >> 12) & 0x3f) as u8 >= 128) by(bit_vector);
}
pub open spec fn byte_of(c: char) -> Seq<u8> { encode_scalar(c as u32) }
proof fn lemma_head(s: Seq<char>)
    requires s.len() > 0,
    ensures
        sb(s) == byte_of(s[0]) + sb(s.drop_first()), byte_of(s[0]).len() > 0,
        (s[0] as u32) < 128 ==> byte_of(s[0]) == seq![s[0] as u32 as u8],
        (s[0] as u32) >= 128 ==> forall|i: int| 0 <= i < byte_of(s[0]).len() ==> #[trigger] byte_of(s[0])[i] >= 128,
{ if (s[0] as u32) < 128 { lemma_scalar_ascii(s[0]); } else { lemma_wide_bytes(s[0]); } }
/// ASCII bytes at the front are characters
proof fn lemma_ascii_front(s: Seq<char>, k: int)
    requires 0 <= k <= sb(s).len(), forall|i: int| 0 <= i < k ==> #[trigger] sb(s)[i] < 128,
    ensures k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] as u32 == sb(s)[i],
    decreases k,
{
    if k > 0 {
        if s.len() == 0 { assert(sb(s).len() == 0); }
        lemma_head(s);
        let r = s.drop_first();
        assert(sb(s)[0] == byte_of(s[0])[0]);
        assert(sb(s)[0] < 128);
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] sb(r)[i] < 128 by { assert(sb(s)[i + 1] == sb(r)[i]); }
        lemma_ascii_front(r, k - 1);
        assert forall|i: int| 0 <= i < k implies #[trigger] s[i] as u32 == sb(s)[i] by { if i > 0 { assert(s[i] == r[i - 1]); assert(sb(s)[i] == sb(r)[i - 1]); } }
    }
}
proof fn lemma_no_marker(a: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 0x5c,
    ensures forall|i: int| 0 <= i <= a.len() ==> !#[trigger] escst(a, i), unescaped(a) == a,
{
    lemma_unesc_run(a, 0, a.len() as int);
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(unescaped(a) =~= a);
}
/// two ASCII characters in front
proof fn lemma_two(c: char, d: char, s: Seq<char>)
    requires (c as u32) < 128, (d as u32) < 128,
    ensures sb(seq![c, d] + s) == seq![c as u32 as u8, d as u32 as u8] + sb(s),
{
    let x = seq![c, d] + s;
    lemma_head(x);
    assert(x.drop_first() =~= seq![d] + s);
    lemma_head(x.drop_first());
    assert(x.drop_first().drop_first() =~= s);
    assert(sb(x) =~= seq![c as u32 as u8, d as u32 as u8] + sb(s));
}
/// the first byte of a printed text
proof fn lemma_first_px(o: Option<Node>, t: Seq<char>)
    ensures
        sb(px(o, t)).len() > 0 && sb(px(o, t))[0] == 10 ==> t.len() > 0 && t[0] == '\n',
        sb(px(o, t)).len() > 0 ==> !dset(o, sb(px(o, t))[0]),
        t.len() > 0 ==> sb(px(o, t)).len() > 0,
{
    if t.len() > 0 { assert(px(o, t).len() > 0); lemma_head(px(o, t)); }
    if sb(px(o, t)).len() > 0 {
        if px(o, t).len() == 0 { assert(sb(px(o, t)).len() == 0); }
        lemma_head(px(o, t));
        if t.len() > 0 { assert(px(o, t)[0] == '\\' || (px(o, t)[0] == t[0] && !pcs(o).contains(t[0]))); }
        if (px(o, t)[0] as u32) >= 128 { assert(byte_of(px(o, t)[0])[0] >= 128); }
        assert(sb(px(o, t))[0] == byte_of(px(o, t)[0])[0]);
    }
}
/// a text that can be printed so that it can be read
pub open spec fn no3(t: Seq<char>) -> bool { forall|i: int| 0 <= i && i + 2 < t.len() && #[trigger] t[i] == '\n' && t[i + 1] == '\n' ==> t[i + 2] != '\n' }
pub open spec fn text_ok(o: Option<Node>, t: Seq<char>) -> bool {
    t.len() > 0 && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\r') && (o is Some && !raw(o) ==> no3(t))
}
/// what an escaped byte means
proof fn lemma_marked(b: u8)
    ensures !escst(seq![0x5cu8, b], 2), unescaped(seq![0x5cu8, b]) == seq![b], escst(seq![0x5cu8, b], 1), !escst(seq![0x5cu8, b], 0),
{
    let a = seq![0x5cu8, b];
    reveal_with_fuel(escst, 4);
    reveal_with_fuel(unescaped_to, 4);
    assert(unescaped(a) =~= seq![b]);
}
proof fn lemma_marked_cons(o: Option<Node>, c: u8, b: Seq<u8>, ub: Seq<u8>)
    requires calm(o, b, ub), c != 13,
    ensures calm(o, seq![0x5cu8, c] + b, seq![c] + ub),
{
    let a = seq![0x5cu8, c];
    lemma_marked(c);
    assert forall|i: int| 0 <= i < a.len() && #[trigger] hot(o, a + b, i) implies escst(a, i) by { assert((a + b)[0] == 0x5c); }
    lemma_calm_cons(o, a, b, seq![c], ub);
}
proof fn lemma_px_pair(o: Option<Node>, t: Seq<char>, r2: Seq<char>)
    requires !raw(o), t.len() > 1, t[0] == '\n', t[1] == '\n', r2 == t.subrange(2, t.len() as int), calm(o, sb(px(o, r2)), sb(r2)), o is Some ==> r2.len() == 0 || r2[0] != '\n',
    ensures calm(o, sb(qnl(o) + px(o, r2)), sb(t)),
{
    let b2 = sb(px(o, r2));
    lemma_first_px(o, r2);
    lemma_head(t);
    lemma_head(t.drop_first());
    assert(t.drop_first().drop_first() =~= r2);
    assert(sb(t) =~= seq![10u8] + (seq![10u8] + sb(r2)));
    if o is None {
        lemma_two('\\', '\n', px(o, r2));
        lemma_two('\\', '\n', seq!['\\', '\n'] + px(o, r2));
        assert(qnl(o) + px(o, r2) =~= seq!['\\', '\n'] + (seq!['\\', '\n'] + px(o, r2)));
        lemma_marked_cons(o, 10, b2, sb(r2));
        lemma_marked_cons(o, 10, seq![0x5cu8, 10u8] + b2, seq![10u8] + sb(r2));
    } else {
        lemma_one('\n', px(o, r2));
        lemma_two('\\', '\n', seq!['\n'] + px(o, r2));
        assert(qnl(o) + px(o, r2) =~= seq!['\\', '\n'] + (seq!['\n'] + px(o, r2)));
        let a = seq![10u8];
        lemma_no_marker(a);
        assert forall|i: int| 0 <= i < a.len() && #[trigger] hot(o, a + b2, i) implies escst(a, i) by { assert((a + b2)[0] == 10); if b2.len() > 0 { assert((a + b2)[1] == b2[0]); } }
        lemma_calm_cons(o, a, b2, a, sb(r2));
        lemma_marked_cons(o, 10, a + b2, a + sb(r2));
    }
}
/// a character that is printed as it is
proof fn lemma_px_same(o: Option<Node>, t: Seq<char>)
    requires t.len() > 0, !pcs(o).contains(t[0]), t[0] != '\r', t[0] == '\n' && !raw(o) ==> t.len() <= 1 || t[1] != '\n', !(o == Some(Node::Code) && ticks(t)), calm(o, sb(px(o, t.drop_first())), sb(t.drop_first())),
    ensures calm(o, sb(seq![t[0]] + px(o, t.drop_first())), sb(t)),
{
    let r = t.drop_first();
    let y = px(o, r);
    let (a, b) = (byte_of(t[0]), sb(y));
    lemma_head(t);
    lemma_first_px(o, r);
    lemma_head(seq![t[0]] + y);
    assert((seq![t[0]] + y).drop_first() =~= y);
    lemma_low_cs(o, t[0]);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 13 && a[i] != 0x5c by {
        if (t[0] as u32) >= 128 { assert(byte_of(t[0])[i] >= 128); }
    }
    lemma_no_marker(a);
    assert forall|i: int| 0 <= i < a.len() && #[trigger] hot(o, a + b, i) implies escst(a, i) by {
        assert((a + b)[i] == a[i]);
        if (t[0] as u32) < 128 {
            if a.len() + b.len() > 1 { assert((a + b)[1] == b[0]); }
            if a.len() + b.len() > 2 { assert((a + b)[2] == b[1]); }
            if o == Some(Node::Code) && a[0] == 0x60 && b.len() > 1 && b[0] == 0x60 && b[1] == 0x60 { lemma_two_ticks(r); }
        } else { assert(byte_of(t[0])[i] >= 128); }
    }
    lemma_calm_cons(o, a, b, a, sb(r));
}
/// backticks in front are printed as they are
proof fn lemma_two_ticks(r: Seq<char>)
    requires sb(px(Some(Node::Code), r)).len() > 1, sb(px(Some(Node::Code), r))[0] == 0x60, sb(px(Some(Node::Code), r))[1] == 0x60,
    ensures r.len() > 1, r[0] == '`', r[1] == '`',
{
    let o = Some(Node::Code);
    let x = px(o, r);
    lemma_ascii_front(x, 2);
    assert(x[0] as u32 == sb(x)[0] && x[1] as u32 == sb(x)[1]);
    assert(x[0] == '`' && x[1] == '`');
    let r1 = r.drop_first();
    assert(x =~= seq![r[0]] + px(o, r1));
    assert(px(o, r1)[0] == '`');
    assert(r1.len() > 0);
    assert(r1[0] == '`');
}
proof fn lemma_low_cs(o: Option<Node>, c: char)
    requires !pcs(o).contains(c),
    ensures c != '\\', (c as u32) < 128 ==> !dset(o, c as u32 as u8),
{ }
#[verifier::rlimit(60)]
proof fn lemma_px_ticks(t: Seq<char>)
    requires ticks(t), calm(Some(Node::Code), sb(px(Some(Node::Code), t.subrange(3, t.len() as int))), sb(t.subrange(3, t.len() as int))),
    ensures calm(Some(Node::Code), sb(px(Some(Node::Code), t)), sb(t)),
{
    hide(hot); hide(unescaped_to); hide(calm);
    let o = Some(Node::Code);
    let r3 = t.subrange(3, t.len() as int);
    let x = px(o, r3);
    let b = sb(x);
    let a = seq![0x5cu8, 0x60, 0x60, 0x60];
    let u = seq![0x60u8, 0x60, 0x60];
    lemma_head(t);
    lemma_head(t.drop_first());
    lemma_head(t.drop_first().drop_first());
    assert(t.drop_first().drop_first().drop_first() =~= r3);
    assert(sb(t) =~= u + sb(r3));
    lemma_two('`', '`', x);
    lemma_two('\\', '`', seq!['`', '`'] + x);
    assert(px(o, t) =~= seq!['\\', '`'] + (seq!['`', '`'] + x));
    assert(sb(px(o, t)) =~= a + b);
    lemma_ticks_text();
    lemma_ticks_hot(o, b);
    lemma_calm_cons(o, a, b, u, sb(r3));
}
proof fn lemma_ticks_text()
    ensures ({ let a = seq![0x5cu8, 0x60, 0x60, 0x60]; unescaped(a) == seq![0x60u8, 0x60, 0x60] && !escst(a, 0) && escst(a, 1) && !escst(a, 2) && !escst(a, 3) && !escst(a, 4) }),
{
    let a = seq![0x5cu8, 0x60, 0x60, 0x60];
    reveal_with_fuel(escst, 6);
    reveal_with_fuel(unescaped_to, 6);
    assert(unescaped(a) =~= seq![0x60u8, 0x60, 0x60]);
}
proof fn lemma_ticks_hot(o: Option<Node>, b: Seq<u8>)
    requires o == Some(Node::Code),
    ensures ({ let a = seq![0x5cu8, 0x60, 0x60, 0x60]; forall|i: int| 0 <= i < a.len() && #[trigger] hot(o, a + b, i) ==> escst(a, i) }),
{
    let a = seq![0x5cu8, 0x60, 0x60, 0x60];
    lemma_ticks_text();
    assert forall|i: int| 0 <= i < a.len() && #[trigger] hot(o, a + b, i) implies escst(a, i) by { assert((a + b)[0] == 0x5c); if i > 0 { assert((a + b)[i - 1] == a[i - 1]); } }
}
proof fn lemma_px_calm(o: Option<Node>, t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\r', o is Some && !raw(o) ==> no3(t),
    ensures calm(o, sb(px(o, t)), sb(t)),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(sb(t) =~= Seq::empty());
        assert(unescaped(sb(px(o, t))) =~= sb(t));
    } else {
        let r = t.drop_first();
        assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == t[i + 1]);
        if pcs(o).contains(t[0]) || o is None && t[0] == '%' && t.len() > 1 && t[1] == '}' {
            lemma_px_calm(o, r);
            lemma_head(t);
            assert((t[0] as u32) < 128);
            lemma_two('\\', t[0], px(o, r));
            assert(px(o, t) == seq!['\\', t[0]] + px(o, r));
            lemma_marked_cons(o, t[0] as u32 as u8, sb(px(o, r)), sb(r));
        } else if o == Some(Node::Code) && ticks(t) {
            let r3 = t.subrange(3, t.len() as int);
            assert(forall|i: int| 0 <= i < r3.len() ==> #[trigger] r3[i] == t[i + 3]);
            lemma_px_calm(o, r3);
            lemma_px_ticks(t);
        } else if !raw(o) && t[0] == '\n' && t.len() > 1 && t[1] == '\n' {
            let r2 = t.subrange(2, t.len() as int);
            assert(forall|i: int| 0 <= i < r2.len() ==> #[trigger] r2[i] == t[i + 2]);
            lemma_px_calm(o, r2);
            if t.len() > 2 && o is Some { assert(t[0] == '\n' && t[0int + 1] == '\n'); assert(r2[0] != '\n'); }
            lemma_px_pair(o, t, r2);
            assert(px(o, t) == qnl(o) + px(o, r2));
        } else {
            lemma_px_calm(o, r);
            lemma_px_same(o, t);
            assert(px(o, t) == seq![t[0]] + px(o, r));
        }
    }
}
proof fn lemma_one(c: char, s: Seq<char>)
    requires (c as u32) < 128,
    ensures sb(seq![c] + s) == seq![c as u32 as u8] + sb(s),
{ lemma_head(seq![c] + s); assert((seq![c] + s).drop_first() =~= s); }
/// `n` hashes and a space at byte a
pub open spec fn bhash(s: Seq<u8>, a: int, n: int) -> bool {
    0 <= a && a + n < s.len() && (forall|i: int| a <= i < a + n ==> #[trigger] s[i] == 0x23) && s[a + n] == 0x20
}
/// no block other than a paragraph starts at byte a
pub open spec fn safe_at(s: Seq<u8>, a: int) -> bool {
    !(a + 1 < s.len() && (s[a] == 0x2d || s[a] == 0x2b) && s[a + 1] == 0x20)
    && !(a + 1 < s.len() && s[a] == 0x21 && (s[a + 1] == 0x21 || s[a + 1] == 0x5b))
    && !(a + 2 < s.len() && s[a] == 0x2d && s[a + 1] == 0x2d && s[a + 2] == 0x2d)
    && (forall|n: int| 1 <= n <= 6 ==> !#[trigger] bhash(s, a, n))
}
proof fn lemma_safe(x: Seq<char>)
    requires !block_marker(x),
    ensures safe_at(sb(x), 0),
{
    let e = sb(x);
    if e.len() > 1 && e[0] < 128 && e[1] < 128 { lemma_ascii_front(x, 2); assert(x[0] as u32 == e[0] && x[1] as u32 == e[1]); }
    if e.len() > 2 && e[0] < 128 && e[1] < 128 && e[2] < 128 { lemma_ascii_front(x, 3); assert(x[0] as u32 == e[0] && x[1] as u32 == e[1] && x[2] as u32 == e[2]); }
    assert forall|n: int| 1 <= n <= 6 implies !#[trigger] bhash(e, 0, n) by {
        if bhash(e, 0, n) {
            assert forall|i: int| 0 <= i < n + 1 implies #[trigger] e[i] < 128 by { if i < n { assert(e[i] == 0x23); } }
            lemma_ascii_front(x, n + 1);
            assert forall|i: int| 0 <= i < n implies #[trigger] x[i] == '#' by { assert(x[i] as u32 == e[i]); assert(e[i] == 0x23); }
            assert(x[n] as u32 == e[n]);
            assert(hashes_at(x, n));
        }
    }
}
/// the last byte of a text
proof fn lemma_last(o: Option<Node>, e: Seq<u8>, t: Seq<char>)
    requires calm(o, e, sb(t)), e.len() > 0, t.len() > 0,
    ensures t.last() != '\n' ==> e.last() != 10,
{
    if e.last() == 10 {
        assert(unescaped(e).last() == 10);
        let d = t.drop_last();
        let l = seq![t.last()];
        assert(t =~= d + l);
        encode_utf8_concat(d, l);
        lemma_head(l);
        assert(l.drop_first() =~= Seq::<char>::empty());
        assert(sb(l) =~= byte_of(t.last()));
        if (t.last() as u32) >= 128 { assert(byte_of(t.last())[byte_of(t.last()).len() - 1] >= 128); }
        assert(sb(t).last() == byte_of(t.last()).last());
    }
}
/// the first text of a paragraph, with a backslash in front of a character that has none
proof fn lemma_gx(t: Seq<char>)
    requires text_ok(None, t), px(None, t)[0] == '-' || px(None, t)[0] == '+' || px(None, t)[0] == '!' || px(None, t)[0] == '#',
    ensures calm(None, sb(seq!['\\'] + px(None, t)), sb(t)), sb(seq!['\\'] + px(None, t)).len() > 0, t.last() != '\n' ==> sb(seq!['\\'] + px(None, t)).last() != 10,
{
    let x = px(None, t);
    let e = sb(seq!['\\'] + x);
    lemma_px_calm(None, t);
    lemma_head(t);
    let r = t.drop_first();
    assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == t[i + 1]);
    lemma_px_calm(None, r);
    assert(x[0] == '\\' || x[0] == t[0]);
    assert(x =~= seq![t[0]] + px(None, r));
    assert(seq!['\\'] + x =~= seq!['\\', t[0]] + px(None, r));
    lemma_two('\\', t[0], px(None, r));
    lemma_marked_cons(None, t[0] as u32 as u8, sb(px(None, r)), sb(r));
    assert(e[0] == 0x5c);
    lemma_last(None, e, t);
}

// ---- the printed document ----
pub open spec fn nn() -> Seq<u8> { seq![10u8, 10u8] }
pub open spec fn dl(d: u8) -> bool { special_byte(d) && d != 10 && d != 0x5c || d == 0x20 }
/// every one is a token of its own
pub open spec fn single(d: u8) -> bool { d == 0x5f || d == 0x5b || d == 0x5d || d == 0x28 || d == 0x29 || d == 0x7c }
pub open spec fn dbt(n: Node) -> u8 { match n { Node::Italic => 0x5f, Node::Strikethrough => 0x7e, Node::CodeSpan => 0x60, _ => 0x2a } }
pub open spec fn dby(n: Node) -> Seq<u8> { match n { Node::Strikethrough => seq![0x7eu8, 0x7eu8], Node::Bold => seq![0x2au8, 0x2au8], n => seq![dbt(n)] } }
pub open spec fn ok_node(x: Pn) -> bool { match x { Pn::T(t) => text_ok(None, t), Pn::L(n, t) => leaf_n(n) && text_ok(Some(n), t), Pn::A(t, u) => text_ok(Some(Node::Title), t) && text_ok(Some(Node::Destination), u) } }
/// y can follow x
pub open spec fn adj_ok(x: Pn, y: Pn) -> bool {
    match x { Pn::T(s) => !(y is T), Pn::L(m, s) => y matches Pn::L(n, t) ==> lchar(m) != lchar(n) || lchar(m) == '_', _ => true }
}
pub open spec fn ok_nodes(ns: Seq<Pn>) -> bool {
    ns.len() > 0 && (forall|j: int| 0 <= j < ns.len() ==> ok_node(#[trigger] ns[j]))
    && (forall|j: int, k: int| #![trigger ns[j], ns[k]] 0 <= j && k == j + 1 && k < ns.len() ==> adj_ok(ns[j], ns[k]))
    && (ns.last() matches Pn::T(t) ==> t.last() != '\n')
}
/// bytes a..b are a text that means u
pub open spec fn body(s: Seq<u8>, o: Option<Node>, a: int, b: int, u: Seq<u8>) -> bool {
    0 <= a < b <= s.len() && !escst(s, a) && !escst(s, b) && unescaped_to(s, b) == unescaped_to(s, a) + u
    && (forall|i: int| a <= i < b && #[trigger] hot(o, s, i) ==> escst(s, i))
    && (forall|i: int| a <= i < b ==> #[trigger] s[i] != 13)
    && (b < s.len() ==> (dl(s[b]) && dset(o, s[b])) || (b + 1 < s.len() && s[b] == 10 && (lined(o) || s[b + 1] == 10) && s[b - 1] != 10))
    && (o == Some(Node::Code) ==> a > 0 && s[a - 1] == 10)
}
/// n bytes d from a on, and no more
pub open spec fn delim(s: Seq<u8>, a: int, n: int, d: u8) -> bool {
    0 <= a && 1 <= n && a + n <= s.len() && dl(d) && !escst(s, a) && (forall|i: int| a <= i < a + n ==> #[trigger] s[i] == d)
    && (single(d) ==> n == 1) && (!single(d) && a + n < s.len() ==> s[a + n] != d)
}
/// bytes a..b are x, the text t, y
pub open spec fn span(s: Seq<u8>, x: u8, n: Node, y: u8, t: Seq<char>, a: int, b: int) -> bool {
    delim(s, a, 1, x) && body(s, Some(n), a + 1, b - 1, sb(t)) && delim(s, b - 1, 1, y)
}
/// bytes a..b are a title and a destination
pub open spec fn link(s: Seq<u8>, n: Node, t: Seq<char>, u: Seq<char>, a: int, b: int) -> bool {
    let m = a + sb(px(Some(n), t)).len() + 2;
    span(s, 0x5b, n, 0x5d, t, a, m) && span(s, 0x28, Node::Destination, 0x29, u, m, b)
}
/// bytes a..b are the node x
pub open spec fn piece(s: Seq<u8>, x: Pn, a: int, b: int) -> bool {
    match x {
        Pn::T(t) => body(s, None, a, b, sb(t)),
        Pn::L(n, t) => {
            let k = dby(n).len() as int;
            delim(s, a, k, dbt(n)) && body(s, Some(n), a + k, b - k, sb(t)) && delim(s, b - k, k, dbt(n))
        },
        Pn::A(t, u) => link(s, Node::Title, t, u, a, b),
    }
}
pub open spec fn follow(o: Option<Node>, e: Seq<u8>, post: Seq<u8>) -> bool {
    post.len() > 0 ==> (dl(post[0]) && dset(o, post[0])) || (post.len() > 1 && post[0] == 10 && (lined(o) || post[1] == 10) && e.last() != 10)
}
proof fn lemma_body(pre: Seq<u8>, e: Seq<u8>, post: Seq<u8>, o: Option<Node>, u: Seq<u8>)
    requires !escst(pre, pre.len() as int), calm(o, e, u), e.len() > 0, follow(o, e, post), o == Some(Node::Code) ==> pre.len() > 0 && pre.last() == 10,
    ensures body(pre + e + post, o, pre.len() as int, (pre + e).len() as int, u), !escst(pre + e, (pre + e).len() as int),
{
    let (d, s) = (pre + e, pre + e + post);
    let (i0, i1) = (pre.len() as int, d.len() as int);
    lemma_cat(pre, e);
    assert(escst(d, i1) == escst(e, i1 - i0));
    lemma_cat(d, post);
    assert(escst(s, i0) == escst(d, i0));
    assert(escst(s, i1) == escst(d, i1));
    assert(escst(d, i0) == escst(e, 0));
    assert(unescaped_to(d, i1) == unescaped(pre) + unescaped_to(e, e.len() as int));
    assert(unescaped_to(s, i0) == unescaped_to(d, i0));
    assert(unescaped_to(s, i1) == unescaped_to(d, i1));
    assert(unescaped_to(d, i0) == unescaped_to(pre, i0));
    assert forall|i: int| i0 <= i < i1 implies #[trigger] s[i] == e[i - i0] by {}
    assert forall|i: int| i0 <= i < i1 && #[trigger] hot(o, s, i) implies escst(s, i) by {
        assert(s[i] == e[i - i0]);
        if i > i0 { assert(s[i - 1] == e[i - 1 - i0]); }
        if i + 2 < i1 { assert(s[i + 2] == e[i + 2 - i0]); } else if i + 2 == i1 && post.len() > 0 { assert(s[i + 2] == post[0]); }
        if i + 1 < i1 { assert(s[i + 1] == e[i + 1 - i0]); }
        else if post.len() > 0 { assert(s[i + 1] == post[0]); assert(e[i - i0] == e.last()); }
        assert(hot(o, e, i - i0));
        assert(escst(s, i) == escst(d, i));
        assert(escst(d, i) == escst(e, i - i0));
    }
    assert forall|i: int| i0 <= i < i1 implies #[trigger] s[i] != 13 by { assert(e[i - i0] != 13); }
    assert(s[i1 - 1] == e.last());
    if post.len() > 0 { assert(s[i1] == post[0]); }
    if post.len() > 1 { assert(s[i1 + 1] == post[1]); }
}
proof fn lemma_delim(pre: Seq<u8>, n: Node, post: Seq<u8>)
    requires !escst(pre, pre.len() as int), leaf_n(n), post.len() > 0 && dbt(n) != 0x5f ==> post[0] != dbt(n),
    ensures delim(pre + dby(n) + post, pre.len() as int, dby(n).len() as int, dbt(n)), !escst(pre + dby(n), (pre + dby(n)).len() as int),
{ lemma_delim_of(pre, dby(n), dbt(n), post); }
proof fn lemma_delim_of(pre: Seq<u8>, e: Seq<u8>, x: u8, post: Seq<u8>)
    requires
        !escst(pre, pre.len() as int), dl(x), e.len() > 0, forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == x, single(x) ==> e.len() == 1,
        post.len() > 0 && !single(x) ==> post[0] != x,
    ensures delim(pre + e + post, pre.len() as int, e.len() as int, x), !escst(pre + e, (pre + e).len() as int),
{
    let (d, s) = (pre + e, pre + e + post);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 0x5c by { assert(e[i] == x); }
    lemma_no_marker(e);
    lemma_cat(pre, e);
    assert(escst(d, d.len() as int) == escst(e, e.len() as int));
    assert(escst(d, pre.len() as int) == escst(e, 0));
    lemma_cat(d, post);
    assert(escst(s, pre.len() as int) == escst(d, pre.len() as int));
    assert forall|i: int| pre.len() <= i < pre.len() + e.len() implies #[trigger] s[i] == x by { assert(s[i] == e[i - pre.len()]); }
    if post.len() > 0 { assert(s[d.len() as int] == post[0]); }
}
proof fn lemma_ldel(n: Node)
    requires leaf_n(n),
    ensures sb(ldel(n)) == dby(n), ldel(n).len() > 0, ldel(n)[0] == lchar(n), lchar(n) as u32 == dbt(n), dby(n).len() > 0, dby(n)[0] == dbt(n), dl(dbt(n)), dset(Some(n), dbt(n)), dset(None, dbt(n)),
{
    let z = Seq::<char>::empty();
    assert(sb(z) =~= Seq::<u8>::empty());
    match n {
        Node::Strikethrough => { lemma_two('~', '~', z); assert(seq!['~', '~'] + z =~= ldel(n)); }
        Node::Bold => { lemma_two('*', '*', z); assert(seq!['*', '*'] + z =~= ldel(n)); }
        n => { lemma_one(lchar(n), z); assert(seq![lchar(n)] + z =~= ldel(n)); }
    }
    assert(sb(ldel(n)) =~= dby(n));
}
/// the bytes of an inline construct
proof fn lemma_pc(n: Node, t: Seq<char>)
    requires leaf_n(n),
    ensures sb(pc(Pn::L(n, t))) == dby(n) + sb(px(Some(n), t)) + dby(n),
{
    lemma_ldel(n);
    encode_utf8_concat(ldel(n), px(Some(n), t));
    encode_utf8_concat(ldel(n) + px(Some(n), t), ldel(n));
}
proof fn lemma_span(pre: Seq<u8>, x: u8, n: Node, y: u8, t: Seq<char>, post: Seq<u8>)
    requires !escst(pre, pre.len() as int), text_ok(Some(n), t), single(x), single(y), dset(Some(n), y), !raw(Some(n)),
    ensures
        span(pre + (seq![x] + sb(px(Some(n), t)) + seq![y]) + post, x, n, y, t, pre.len() as int, (pre.len() + sb(px(Some(n), t)).len() + 2) as int),
        !escst(pre + (seq![x] + sb(px(Some(n), t)) + seq![y]), (pre.len() + sb(px(Some(n), t)).len() + 2) as int),
{
    let (a, m, b) = (seq![x], sb(px(Some(n), t)), seq![y]);
    lemma_px_calm(Some(n), t);
    lemma_first_px(Some(n), t);
    let s = pre + (a + m + b) + post;
    let p1 = pre + a;
    let p2 = p1 + m;
    lemma_delim_of(pre, a, x, m + b + post);
    lemma_body(p1, m, b + post, Some(n), sb(t));
    lemma_delim_of(p2, b, y, post);
    assert(s =~= pre + a + (m + b + post));
    assert(s =~= p1 + m + (b + post));
    assert(s =~= p2 + b + post);
    assert(pre + (a + m + b) =~= p2 + b);
}
/// the bytes of a title and a destination
pub open spec fn lby(n: Node, t: Seq<char>, u: Seq<char>) -> Seq<u8> {
    (seq![0x5bu8] + sb(px(Some(n), t)) + seq![0x5du8]) + (seq![0x28u8] + sb(px(Some(Node::Destination), u)) + seq![0x29u8])
}
proof fn lemma_lby(n: Node, t: Seq<char>, u: Seq<char>)
    ensures sb(lc(n, t, u)) == lby(n, t, u), lby(n, t, u).len() > 0, lby(n, t, u)[0] == 0x5b, lby(n, t, u).last() == 0x29, lc(n, t, u)[0] == '[', lc(n, t, u).len() > 0,
{
    let (x, y, z) = (px(Some(n), t), px(Some(Node::Destination), u), Seq::<char>::empty());
    assert(sb(z) =~= Seq::<u8>::empty());
    lemma_one(')', z);
    encode_utf8_concat(y, seq![')'] + z);
    lemma_two(']', '(', y + (seq![')'] + z));
    encode_utf8_concat(x, seq![']', '('] + (y + (seq![')'] + z)));
    lemma_one('[', x + (seq![']', '('] + (y + (seq![')'] + z))));
    assert(lc(n, t, u) =~= seq!['['] + (x + (seq![']', '('] + (y + (seq![')'] + z)))));
    assert(sb(lc(n, t, u)) =~= lby(n, t, u));
}
proof fn lemma_link(pre: Seq<u8>, n: Node, t: Seq<char>, u: Seq<char>, post: Seq<u8>)
    requires !escst(pre, pre.len() as int), text_ok(Some(n), t), n is Title || n is Image, text_ok(Some(Node::Destination), u),
    ensures link(pre + lby(n, t, u) + post, n, t, u, pre.len() as int, (pre + lby(n, t, u)).len() as int), !escst(pre + lby(n, t, u), (pre + lby(n, t, u)).len() as int),
{
    let a = seq![0x5bu8] + sb(px(Some(n), t)) + seq![0x5du8];
    let b = seq![0x28u8] + sb(px(Some(Node::Destination), u)) + seq![0x29u8];
    lemma_span(pre, 0x5b, n, 0x5d, t, b + post);
    lemma_span(pre + a, 0x28, Node::Destination, 0x29, u, post);
    assert(pre + lby(n, t, u) + post =~= pre + a + (b + post));
    assert(pre + lby(n, t, u) + post =~= pre + a + b + post);
    assert(pre + lby(n, t, u) =~= pre + a + b);
}
/// what may follow the node x
pub open spec fn next_ok(x: Pn, e: Seq<u8>, post: Seq<u8>) -> bool {
    match x { Pn::T(t) => follow(None, e, post), Pn::L(n, t) => post.len() > 0 && dbt(n) != 0x5f ==> post[0] != dbt(n), _ => true }
}
/// e is how x is printed, possibly with a backslash in front
pub open spec fn shows(x: Pn, e: Seq<u8>) -> bool { match x { Pn::T(t) => calm(None, e, sb(t)) && e.len() > 0, _ => e == sb(pc(x)) } }
proof fn lemma_leaf_piece(pre: Seq<u8>, n: Node, t: Seq<char>, e: Seq<u8>, post: Seq<u8>)
    requires !escst(pre, pre.len() as int), ok_node(Pn::L(n, t)), e == sb(pc(Pn::L(n, t))), post.len() > 0 && dbt(n) != 0x5f ==> post[0] != dbt(n),
    ensures piece(pre + e + post, Pn::L(n, t), pre.len() as int, (pre + e).len() as int), !escst(pre + e, (pre + e).len() as int), e.len() > 0,
{
    let (d, m) = (dby(n), sb(px(Some(n), t)));
    lemma_pc(n, t);
    lemma_ldel(n);
    lemma_px_calm(Some(n), t);
    lemma_first_px(Some(n), t);
    let s = pre + e + post;
    let p1 = pre + d;
    let p2 = p1 + m;
    assert(m + d + post =~= m + (d + post));
    assert((m + d + post)[0] == m[0]);
    lemma_delim(pre, n, m + d + post);
    assert((d + post)[0] == d[0]);
    lemma_body(p1, m, d + post, Some(n), sb(t));
    lemma_delim(p2, n, post);
    assert(s =~= p1 + (m + d + post));
    assert(s =~= p2 + (d + post));
    assert(s =~= p2 + d + post);
    assert(pre + e =~= p2 + d);
}
proof fn lemma_piece(pre: Seq<u8>, x: Pn, e: Seq<u8>, post: Seq<u8>)
    requires !escst(pre, pre.len() as int), ok_node(x), shows(x, e), next_ok(x, e, post),
    ensures piece(pre + e + post, x, pre.len() as int, (pre + e).len() as int), !escst(pre + e, (pre + e).len() as int), e.len() > 0,
{
    match x {
        Pn::T(t) => { lemma_body(pre, e, post, None, sb(t)); }
        Pn::A(t, u) => { lemma_lby(Node::Title, t, u); lemma_link(pre, Node::Title, t, u, post); }
        Pn::L(n, t) => { lemma_leaf_piece(pre, n, t, e, post); }
    }
}
/// the first n nodes of a paragraph
pub open spec fn pstr(ns: Seq<Pn>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { pstr(ns, n - 1) + pc(ns[n - 1]) } }
/// the paragraph gets a backslash in front
pub open spec fn hd(ns: Seq<Pn>) -> bool { block_marker(pstr(ns, ns.len() as int)) }
/// the bytes of node j, and of the first n nodes, of a paragraph at the start of a block
pub open spec fn ge(ns: Seq<Pn>, j: int) -> Seq<u8> { sb(if j == 0 && hd(ns) { seq!['\\'] + pc(ns[0]) } else { pc(ns[j]) }) }
pub open spec fn gb(ns: Seq<Pn>, n: int) -> Seq<u8>
    decreases n,
{ if n <= 0 { Seq::empty() } else { gb(ns, n - 1) + ge(ns, n - 1) } }
pub open spec fn dchar(c: char) -> bool { c == '*' || c == '_' || c == '~' || c == '`' || c == '[' }
proof fn lemma_pc_first(x: Pn)
    requires ok_node(x),
    ensures pc(x).len() > 0, !(x is T) ==> dchar(pc(x)[0]), x matches Pn::L(n, t) ==> pc(x)[0] == lchar(n),
{ match x { Pn::T(t) => {} Pn::L(n, t) => { lemma_ldel(n); assert(pc(x)[0] == ldel(n)[0]); } Pn::A(t, u) => { lemma_lby(Node::Title, t, u); } } }
proof fn lemma_pstr(ns: Seq<Pn>, n: int)
    requires ok_nodes(ns), 0 <= n <= ns.len(),
    ensures
        n > 0 ==> sb(if hd(ns) { seq!['\\'] + pstr(ns, n) } else { pstr(ns, n) }) == gb(ns, n),
        n > 0 ==> pstr(ns, n).len() >= pc(ns[0]).len() > 0 && pstr(ns, n)[0] == pc(ns[0])[0],
    decreases n,
{
    if n > 0 {
        lemma_pstr(ns, n - 1);
        assert(ok_node(ns[0]));
        lemma_pc_first(ns[0]);
        let (x, w) = (pstr(ns, n - 1), pc(ns[n - 1]));
        let m = seq!['\\'];
        if n == 1 {
            assert(x + w =~= w);
            assert(gb(ns, 0) + ge(ns, 0) =~= ge(ns, 0));
        } else {
            let y = if hd(ns) { m + x } else { x };
            encode_utf8_concat(y, w);
            assert(m + (x + w) =~= (m + x) + w);
        }
    }
}
proof fn lemma_hash_first(s: Seq<char>)
    requires block_marker(s),
    ensures s[0] == '-' || s[0] == '+' || s[0] == '!' || s[0] == '#',
{ }
proof fn lemma_shows(ns: Seq<Pn>, j: int)
    requires ok_nodes(ns), 0 <= j < ns.len(),
    ensures shows(ns[j], ge(ns, j)), ge(ns, j).len() > 0, !escst(ge(ns, j), ge(ns, j).len() as int),
        j == ns.len() - 1 ==> ge(ns, j).last() != 10,
        ns[j] matches Pn::L(n, t) ==> ge(ns, j)[0] == dbt(n), ns[j] is A ==> ge(ns, j)[0] == 0x5b,
        ns[j] is T && j > 0 ==> !dset(None, ge(ns, j)[0]),
{
    let x = ns[j];
    assert(ok_node(x));
    if j == 0 && hd(ns) {
        lemma_pstr(ns, ns.len() as int);
        let c = pc(x)[0];
        assert(c == '-' || c == '+' || c == '!' || c == '#') by { lemma_hash_first(pstr(ns, ns.len() as int)); }
        lemma_pc_first(x);
    }
    match x {
        Pn::T(t) => {
            lemma_px_calm(None, t);
            lemma_first_px(None, t);
            if j == 0 && hd(ns) { lemma_gx(t); }
            lemma_last(None, ge(ns, j), t);
        }
        Pn::A(t, u) => {
            lemma_pc_first(x);
            lemma_lby(Node::Title, t, u);
            let e = ge(ns, j);
            assert(e == sb(pc(x)));
            let z = Seq::<u8>::empty();
            lemma_piece(z, x, e, z);
            assert(z + e =~= e);
        }
        Pn::L(n, t) => {
            lemma_pc_first(x);
            lemma_pc(n, t);
            lemma_ldel(n);
            let e = ge(ns, j);
            assert(e == sb(pc(x)));
            let z = Seq::<u8>::empty();
            lemma_piece(z, x, e, z);
            assert(z + e =~= e);
            assert(e[0] == dby(n)[0]);
            assert(e.last() == dby(n).last());
            assert(dby(n).last() == dbt(n));
        }
    }
}
proof fn lemma_gb_open(ns: Seq<Pn>, n: int)
    requires ok_nodes(ns), 0 <= n <= ns.len(),
    ensures !escst(gb(ns, n), gb(ns, n).len() as int), n > 0 ==> gb(ns, n).len() > 0,
    decreases n,
{
    if n > 0 {
        lemma_gb_open(ns, n - 1);
        lemma_shows(ns, n - 1);
        let (a, e) = (gb(ns, n - 1), ge(ns, n - 1));
        lemma_cat(a, e);
        assert(escst(a + e, (a + e).len() as int) == escst(e, e.len() as int));
    }
}
/// what comes after the first n nodes
proof fn lemma_gb_tail(ns: Seq<Pn>, n: int, m: int) -> (w: Seq<u8>)
    requires ok_nodes(ns), 0 <= n <= m <= ns.len(),
    ensures gb(ns, m) == gb(ns, n) + w, n == m ==> w.len() == 0, n < m ==> w.len() > 0 && w[0] == ge(ns, n)[0],
    decreases m - n,
{
    if n == m { let w = Seq::<u8>::empty(); assert(gb(ns, m) =~= gb(ns, n) + w); w }
    else {
        let v = lemma_gb_tail(ns, n, m - 1);
        let w = v + ge(ns, m - 1);
        lemma_shows(ns, m - 1);
        assert(gb(ns, m) =~= gb(ns, n) + w);
        w
    }
}
pub open spec fn ends_block(post: Seq<u8>) -> bool { post.len() > 0 ==> post.len() > 1 && post[0] == 10 && post[1] == 10 }
proof fn lemma_node(ns: Seq<Pn>, j: int, pre: Seq<u8>, post: Seq<u8>)
    requires ok_nodes(ns), 0 <= j < ns.len(), !escst(pre, pre.len() as int), ends_block(post),
    ensures piece(pre + gb(ns, ns.len() as int) + post, ns[j], (pre.len() + gb(ns, j).len()) as int, (pre.len() + gb(ns, j + 1).len()) as int),
{
    let n = ns.len() as int;
    let w = lemma_gb_tail(ns, j + 1, n);
    let e = ge(ns, j);
    let (p, q) = (pre + gb(ns, j), w + post);
    lemma_gb_open(ns, j);
    lemma_cat(pre, gb(ns, j));
    assert(escst(p, p.len() as int) == escst(gb(ns, j), gb(ns, j).len() as int));
    lemma_shows(ns, j);
    assert(ok_node(ns[j]));
    if j + 1 < n {
        lemma_shows(ns, j + 1);
        assert(adj_ok(ns[j], ns[j + 1]));
        assert(ok_node(ns[j + 1]));
        assert(q[0] == ge(ns, j + 1)[0]);
        match ns[j + 1] { Pn::L(m, t) => { lemma_ldel(m); } _ => {} }
        match ns[j] { Pn::L(m, t) => { lemma_ldel(m); } _ => {} }
    } else {
        assert(q =~= post);
        match ns[j] { Pn::L(m, t) => { lemma_ldel(m); } _ => {} }
    }
    lemma_piece(p, ns[j], e, q);
    assert(pre + gb(ns, n) + post =~= p + e + q);
    assert((p + e).len() == pre.len() + gb(ns, j + 1).len());
}
proof fn lemma_safe_start(ns: Seq<Pn>, pre: Seq<u8>, post: Seq<u8>)
    requires ok_nodes(ns), ends_block(post),
    ensures safe_at(pre + gb(ns, ns.len() as int) + post, pre.len() as int),
{
    let n = ns.len() as int;
    let e = gb(ns, n);
    let s = pre + e + post;
    let (a, b) = (pre.len() as int, (pre.len() + e.len()) as int);
    lemma_pstr(ns, n);
    lemma_gb_open(ns, n);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] == s[a + i] by {}
    assert(s[a] == e[0]);
    if b < s.len() { assert(s[b] == post[0]); }
    if hd(ns) {
        lemma_one('\\', pstr(ns, n));
        assert(e[0] == 0x5c);
        assert forall|k: int| 1 <= k <= 6 implies !#[trigger] bhash(s, a, k) by { assert(s[a] != 0x23); }
    } else {
        lemma_safe(pstr(ns, n));
        if a + 1 < b { assert(e[1] == s[a + 1]); }
        if a + 2 < b { assert(e[2] == s[a + 2]); }
        assert forall|k: int| 1 <= k <= 6 implies !#[trigger] bhash(s, a, k) by {
            if bhash(s, a, k) {
                assert(s[a + k] == 0x20);
                if a + k >= b { if a + k > b { assert(s[b] == 0x23); } }
                assert forall|i: int| 0 <= i < k implies #[trigger] e[i] == 0x23 by { assert(s[a + i] == 0x23); assert(s[a + i] == e[i]); }
                assert(s[a + k] == e[k]);
                assert(bhash(e, 0, k));
            }
        }
    }
}
/// a block: a paragraph, a thematic break, a heading (level, text), an image (alt text, source), an embed (kind, arguments),
/// a code block (language, text)
pub enum Bn { P(Seq<Pn>), B, H(int, Seq<char>), I(Seq<char>, Seq<char>), E(Seq<char>, Seq<char>), C(Seq<char>, Seq<char>) }
pub open spec fn ok_heading(l: int, t: Seq<char>) -> bool {
    1 <= l <= 6 && text_ok(Some(Node::Heading), t) && t[0] != ' ' && t.last() != '\n' && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '['
}
/// n hashes
pub open spec fn hs(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0x23u8) }
pub open spec fn hby(l: int, t: Seq<char>) -> Seq<u8> { hs(l) + seq![0x20u8] + sb(px(Some(Node::Heading), t)) }
/// bytes a..z are a heading
pub open spec fn hpiece(s: Seq<u8>, l: int, t: Seq<char>, a: int, z: int) -> bool {
    delim(s, a, l, 0x23) && delim(s, a + l, 1, 0x20) && body(s, Some(Node::Heading), a + l + 1, z, sb(t))
}
proof fn lemma_hby(l: int, t: Seq<char>, pre: Seq<u8>, post: Seq<u8>)
    requires ok_heading(l, t), !escst(pre, pre.len() as int), ends_block(post),
    ensures
        hpiece(pre + hby(l, t) + post, l, t, pre.len() as int, (pre + hby(l, t)).len() as int), !escst(pre + hby(l, t), (pre + hby(l, t)).len() as int),
        hby(l, t).len() > 0,
{
    let o = Some(Node::Heading);
    let (h, w, m) = (hs(l), seq![0x20u8], sb(px(o, t)));
    let s = pre + hby(l, t) + post;
    lemma_px_calm(o, t);
    lemma_first_px(o, t);
    lemma_last(o, m, t);
    assert(m[0] != 0x20) by { lemma_head(px(o, t)); assert(px(o, t)[0] == '\\' || px(o, t)[0] == t[0]); if (px(o, t)[0] as u32) >= 128 { assert(byte_of(px(o, t)[0])[0] >= 128); } assert(m[0] == byte_of(px(o, t)[0])[0]); }
    let p1 = pre + h;
    let p2 = p1 + w;
    lemma_delim_of(pre, h, 0x23, w + m + post);
    lemma_delim_of(p1, w, 0x20, m + post);
    lemma_body(p2, m, post, o, sb(t));
    assert(s =~= pre + h + (w + m + post));
    assert(s =~= p1 + w + (m + post));
    assert(s =~= p2 + m + post);
    assert(pre + hby(l, t) =~= p2 + m);
}
pub open spec fn iby(t: Seq<char>, u: Seq<char>) -> Seq<u8> { seq![0x21u8] + lby(Node::Image, t, u) }
pub open spec fn ipiece(s: Seq<u8>, t: Seq<char>, u: Seq<char>, a: int, z: int) -> bool { delim(s, a, 1, 0x21) && link(s, Node::Image, t, u, a + 1, z) }
proof fn lemma_iby(t: Seq<char>, u: Seq<char>, pre: Seq<u8>, post: Seq<u8>)
    requires text_ok(Some(Node::Image), t), text_ok(Some(Node::Destination), u), !escst(pre, pre.len() as int), ends_block(post),
    ensures
        ipiece(pre + iby(t, u) + post, t, u, pre.len() as int, (pre + iby(t, u)).len() as int), !escst(pre + iby(t, u), (pre + iby(t, u)).len() as int),
        iby(t, u).len() > 0,
{
    let (x, y) = (seq![0x21u8], lby(Node::Image, t, u));
    let s = pre + iby(t, u) + post;
    lemma_lby(Node::Image, t, u);
    lemma_delim_of(pre, x, 0x21, y + post);
    lemma_link(pre + x, Node::Image, t, u, post);
    assert(s =~= pre + x + (y + post));
    assert(s =~= pre + x + y + post);
    assert(pre + iby(t, u) =~= pre + x + y);
}
pub open spec fn ek() -> Option<Node> { Some(Node::Embed) }
pub open spec fn ea() -> Option<Node> { Some(Node::Collapsible) }
pub open spec fn cm() -> Option<Node> { Some(Node::Modifier) }
pub open spec fn cc() -> Option<Node> { Some(Node::Code) }
pub open spec fn eby(t: Seq<char>, u: Seq<char>) -> Seq<u8> { seq![0x7bu8, 0x7b] + sb(px(ek(), t)) + seq![0x7cu8] + sb(px(ea(), u)) + seq![0x7du8, 0x7d] }
/// bytes a..z are an embed
pub open spec fn epiece(s: Seq<u8>, t: Seq<char>, u: Seq<char>, a: int, z: int) -> bool {
    let m = a + 2 + sb(px(ek(), t)).len();
    delim(s, a, 2, 0x7b) && body(s, ek(), a + 2, m, sb(t)) && delim(s, m, 1, 0x7c) && body(s, ea(), m + 1, z - 2, sb(u)) && delim(s, z - 2, 2, 0x7d)
}
proof fn lemma_eby(t: Seq<char>, u: Seq<char>, pre: Seq<u8>, post: Seq<u8>)
    requires text_ok(ek(), t), text_ok(ea(), u), !escst(pre, pre.len() as int), ends_block(post),
    ensures
        epiece(pre + eby(t, u) + post, t, u, pre.len() as int, (pre + eby(t, u)).len() as int), !escst(pre + eby(t, u), (pre + eby(t, u)).len() as int),
        eby(t, u).len() > 0,
{
    let (x, m, y, n, w) = (seq![0x7bu8, 0x7b], sb(px(ek(), t)), seq![0x7cu8], sb(px(ea(), u)), seq![0x7du8, 0x7d]);
    let s = pre + eby(t, u) + post;
    lemma_px_calm(ek(), t);
    lemma_px_calm(ea(), u);
    lemma_first_px(ek(), t);
    lemma_first_px(ea(), u);
    let p1 = pre + x;
    let p2 = p1 + m;
    let p3 = p2 + y;
    let p4 = p3 + n;
    let q1 = m + y + n + w + post;
    let q2 = y + n + w + post;
    let q3 = n + w + post;
    let q4 = w + post;
    assert(q1[0] == m[0]);
    lemma_delim_of(pre, x, 0x7b, q1);
    lemma_body(p1, m, q2, ek(), sb(t));
    lemma_delim_of(p2, y, 0x7c, q3);
    lemma_body(p3, n, q4, ea(), sb(u));
    lemma_delim_of(p4, w, 0x7d, post);
    assert(s =~= pre + x + q1);
    assert(s =~= p1 + m + q2);
    assert(s =~= p2 + y + q3);
    assert(s =~= p3 + n + q4);
    assert(s =~= p4 + w + post);
    assert(pre + eby(t, u) =~= p4 + w);
}
pub open spec fn fence() -> Seq<u8> { seq![0x60u8, 0x60, 0x60] }
pub open spec fn cby(l: Seq<char>, t: Seq<char>) -> Seq<u8> { fence() + sb(px(cm(), l)) + seq![10u8] + sb(px(cc(), t)) + seq![10u8] + fence() }
pub open spec fn ok_code(l: Seq<char>, t: Seq<char>) -> bool {
    (l.len() > 0 ==> text_ok(cm(), l) && l.last() != '\n') && text_ok(cc(), t) && t[0] != '\n' && t.last() != '\n'
}
/// an unescaped line feed
pub open spec fn lf_at(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == 10 && !escst(s, i) && s[i + 1] != 10 && s[i + 1] != 13 }
/// bytes a..z are a code block
pub open spec fn cpiece(s: Seq<u8>, l: Seq<char>, t: Seq<char>, a: int, z: int) -> bool {
    let m = a + 3 + sb(px(cm(), l)).len();
    delim(s, a, 3, 0x60) && (if l.len() > 0 { body(s, cm(), a + 3, m, sb(l)) } else { m == a + 3 }) && lf_at(s, m)
    && body(s, cc(), m + 1, z - 4, sb(t)) && lf_at(s, z - 4) && delim(s, z - 3, 3, 0x60)
}
proof fn lemma_feed(pre: Seq<u8>, post: Seq<u8>)
    requires !escst(pre, pre.len() as int), post.len() > 0, post[0] != 10, post[0] != 13,
    ensures lf_at(pre + seq![10u8] + post, pre.len() as int), !escst(pre + seq![10u8], pre.len() as int + 1),
{
    let n = seq![10u8];
    lemma_no_marker(n);
    lemma_cat(pre, n);
    lemma_cat(pre + n, post);
    let s = pre + n + post;
    assert(escst(pre + n, pre.len() as int) == escst(n, 0));
    assert(escst(pre + n, pre.len() as int + 1) == escst(n, 1));
    assert(escst(s, pre.len() as int) == escst(pre + n, pre.len() as int));
    assert(s[pre.len() as int] == 10);
    assert(s[pre.len() as int + 1] == post[0]);
}
#[verifier::rlimit(60)]
proof fn lemma_cby(l: Seq<char>, t: Seq<char>, pre: Seq<u8>, post: Seq<u8>)
    requires ok_code(l, t), !escst(pre, pre.len() as int), ends_block(post),
    ensures
        cpiece(pre + cby(l, t) + post, l, t, pre.len() as int, (pre + cby(l, t)).len() as int), !escst(pre + cby(l, t), (pre + cby(l, t)).len() as int),
        cby(l, t).len() > 0,
{
    let (x, m, y, n) = (fence(), sb(px(cm(), l)), seq![10u8], sb(px(cc(), t)));
    let s = pre + cby(l, t) + post;
    lemma_px_calm(cm(), l);
    lemma_px_calm(cc(), t);
    lemma_first_px(cm(), l);
    lemma_first_px(cc(), t);
    lemma_last(cc(), n, t);
    assert(n[0] != 13);
    let p1 = pre + x;
    let p2 = p1 + m;
    let p3 = p2 + y;
    let p4 = p3 + n;
    let p5 = p4 + y;
    let q1 = m + y + n + y + x + post;
    let q2 = y + n + y + x + post;
    let q3 = n + y + x + post;
    let q4 = y + x + post;
    let q5 = x + post;
    if l.len() == 0 { assert(px(cm(), l).len() == 0); assert(m =~= Seq::empty()); assert(q1[0] == 10); assert(p2 =~= p1); } else { assert(q1[0] == m[0]); }
    lemma_delim_of(pre, x, 0x60, q1);
    if l.len() > 0 { lemma_last(cm(), m, l); assert(q2[0] == 10); lemma_body(p1, m, q2, cm(), sb(l)); }
    assert(q3[0] == n[0]);
    lemma_feed(p2, q3);
    assert(p3.last() == 10);
    assert(q4[0] == 10);
    lemma_body(p3, n, q4, cc(), sb(t));
    assert(q5[0] == 0x60);
    lemma_feed(p4, q5);
    lemma_delim_of(p5, x, 0x60, post);
    assert(s =~= pre + x + q1);
    assert(s =~= p1 + m + q2);
    assert(s =~= p2 + y + q3);
    assert(s =~= p3 + n + q4);
    assert(s =~= p4 + y + q5);
    assert(s =~= p5 + x + post);
    assert(pre + cby(l, t) =~= p5 + x);
}
pub open spec fn ok_block(b: Bn) -> bool {
    match b {
        Bn::P(ns) => ok_nodes(ns), Bn::B => true, Bn::H(l, t) => ok_heading(l, t), Bn::I(t, u) => text_ok(Some(Node::Image), t) && text_ok(Some(Node::Destination), u),
        Bn::E(t, u) => text_ok(ek(), t) && text_ok(ea(), u), Bn::C(l, t) => ok_code(l, t),
    }
}
pub open spec fn ok_blocks(bs: Seq<Bn>) -> bool { forall|j: int| 0 <= j < bs.len() ==> ok_block(#[trigger] bs[j]) }
pub open spec fn be(b: Bn) -> Seq<u8> { match b { Bn::P(ns) => gb(ns, ns.len() as int), Bn::B => seq![0x2du8, 0x2du8, 0x2du8, 0x2du8, 0x2du8], Bn::H(l, t) => hby(l, t), Bn::I(t, u) => iby(t, u), Bn::E(t, u) => eby(t, u), Bn::C(l, t) => cby(l, t) } }
pub open spec fn bsep(n: int) -> Seq<u8> { if n <= 1 { Seq::empty() } else { nn() } }
/// metadata, if any
pub type Mt = Option<Seq<char>>;
pub open spec fn dash3() -> Seq<u8> { seq![0x2du8, 0x2d, 0x2d] }
pub open spec fn mtop(t: Seq<char>) -> Seq<u8> { dash3() + seq![10u8] + sb(t) + seq![10u8] }
pub open spec fn mby(mt: Mt) -> Seq<u8> { match mt { None => Seq::empty(), Some(t) => mtop(t) + dash3() + nn() } }
/// three dashes, and no more, at the start of a line
pub open spec fn dashed(s: Seq<u8>, i: int) -> bool {
    0 <= i && i + 2 < s.len() && s[i] == 0x2d && s[i + 1] == 0x2d && s[i + 2] == 0x2d && !(i + 3 < s.len() && s[i + 3] == 0x2d) && row_col(s, i).1 == 0
}
/// metadata that can be read back: no escapes, nothing that ends it
pub open spec fn ok_meta(mt: Mt) -> bool {
    match mt {
        None => true,
        Some(t) => sb(t).len() > 0 && sb(t)[0] != 10 && sb(t).last() != 10 && (forall|i: int| 0 <= i < sb(t).len() ==> #[trigger] sb(t)[i] != 0x5c && sb(t)[i] != 13)
            && forall|i: int| 4 <= i ==> !#[trigger] dashed(mtop(t), i),
    }
}
proof fn lemma_mby(mt: Mt)
    requires ok_meta(mt),
    ensures !escst(mby(mt), mby(mt).len() as int), mt is Some ==> mby(mt).len() > 2 && mby(mt)[mby(mt).len() - 1] == 10 && mby(mt)[mby(mt).len() - 2] == 10,
{
    if mt is Some {
        let (e, x) = (mby(mt), sb(mt->Some_0));
        assert(e[e.len() - 1] == nn()[1] && e[e.len() - 2] == nn()[0]);
    }
}
pub open spec fn bdoc(mt: Mt, bs: Seq<Bn>, n: int) -> Seq<u8>
    decreases n,
{ if n <= 0 { mby(mt) } else { bdoc(mt, bs, n - 1) + bsep(n) + be(bs[n - 1]) } }
/// where the n-th block (from 1) starts and ends
pub open spec fn st(mt: Mt, bs: Seq<Bn>, n: int) -> int { (bdoc(mt, bs, n - 1).len() + bsep(n).len()) as int }
pub open spec fn en(mt: Mt, bs: Seq<Bn>, n: int) -> int { bdoc(mt, bs, n).len() as int }
pub open spec fn dashes5(s: Seq<u8>, a: int) -> bool { 0 <= a && a + 5 <= s.len() && s[a] == 0x2d && s[a + 1] == 0x2d && s[a + 2] == 0x2d && s[a + 3] == 0x2d && s[a + 4] == 0x2d }
/// bytes a..z are the block b
pub open spec fn bpiece(s: Seq<u8>, b: Bn, a: int, z: int) -> bool {
    0 <= a < z <= s.len() && !escst(s, a) && !escst(s, z) && (a > 0 ==> s[a - 1] == 10 && !escst(s, a - 1))
    && (z < s.len() ==> z + 1 < s.len() && s[z] == 10 && s[z + 1] == 10)
    && match b {
        Bn::P(ns) => z == a + gb(ns, ns.len() as int).len() && safe_at(s, a) && forall|j: int| 0 <= j < ns.len() ==> piece(s, #[trigger] ns[j], a + gb(ns, j).len(), a + gb(ns, j + 1).len()),
        Bn::B => z == a + 5 && dashes5(s, a),
        Bn::H(l, t) => hpiece(s, l, t, a, z),
        Bn::I(t, u) => ipiece(s, t, u, a, z),
        Bn::E(t, u) => epiece(s, t, u, a, z),
        Bn::C(l, t) => cpiece(s, l, t, a, z),
    }
}
proof fn lemma_be(b: Bn)
    requires ok_block(b),
    ensures be(b).len() > 0, !escst(be(b), be(b).len() as int),
{
    let z = Seq::<u8>::empty();
    assert(z + be(b) =~= be(b));
    match b {
        Bn::P(ns) => { lemma_gb_open(ns, ns.len() as int); }
        Bn::B => { lemma_no_marker(be(b)); }
        Bn::H(l, t) => { lemma_hby(l, t, z, z); }
        Bn::I(t, u) => { lemma_iby(t, u, z, z); }
        Bn::E(t, u) => { lemma_eby(t, u, z, z); }
        Bn::C(l, t) => { lemma_cby(l, t, z, z); }
    }
}
proof fn lemma_bdoc_open(mt: Mt, bs: Seq<Bn>, n: int)
    requires ok_meta(mt), ok_blocks(bs), 0 <= n <= bs.len(),
    ensures !escst(bdoc(mt, bs, n), bdoc(mt, bs, n).len() as int), !escst(bdoc(mt, bs, n) + bsep(n + 1), (bdoc(mt, bs, n) + bsep(n + 1)).len() as int),
    decreases n,
{
    if n > 0 {
        lemma_bdoc_open(mt, bs, n - 1);
        lemma_be(bs[n - 1]);
        let (a, e) = (bdoc(mt, bs, n - 1) + bsep(n), be(bs[n - 1]));
        lemma_cat(a, e);
        assert(escst(a + e, (a + e).len() as int) == escst(e, e.len() as int));
    }
    lemma_mby(mt);
    let (a, e) = (bdoc(mt, bs, n), bsep(n + 1));
    lemma_no_marker(e);
    lemma_cat(a, e);
    assert(escst(a + e, (a + e).len() as int) == escst(e, e.len() as int));
}
proof fn lemma_bdoc_tail(mt: Mt, bs: Seq<Bn>, n: int, m: int) -> (w: Seq<u8>)
    requires 0 < n <= m,
    ensures bdoc(mt, bs, m) == bdoc(mt, bs, n) + w, n < m ==> w.len() >= 2 && w[0] == 10 && w[1] == 10, n == m ==> w.len() == 0,
    decreases m - n,
{
    if n == m { let w = Seq::<u8>::empty(); assert(bdoc(mt, bs, m) =~= bdoc(mt, bs, n) + w); w }
    else {
        let v = lemma_bdoc_tail(mt, bs, n, m - 1);
        let w = v + bsep(m) + be(bs[m - 1]);
        assert(bdoc(mt, bs, m) =~= bdoc(mt, bs, n) + w);
        w
    }
}
proof fn lemma_bdoc_front(mt: Mt, bs: Seq<Bn>, n: int) -> (w: Seq<u8>)
    requires 0 <= n,
    ensures bdoc(mt, bs, n) == mby(mt) + w, n == 0 ==> w.len() == 0, w == bdoc(None, bs, n),
    decreases n,
{
    if n == 0 { let w = Seq::<u8>::empty(); assert(bdoc(mt, bs, 0) =~= mby(mt) + w); w }
    else {
        let v = lemma_bdoc_front(mt, bs, n - 1);
        let w = v + bsep(n) + be(bs[n - 1]);
        assert(bdoc(mt, bs, n) =~= mby(mt) + w);
        w
    }
}
proof fn lemma_seg(mt: Mt, bs: Seq<Bn>, n: int, s: Seq<u8>)
    requires ok_meta(mt), ok_blocks(bs), 1 <= n <= bs.len(), s == bdoc(mt, bs, bs.len() as int),
    ensures bpiece(s, bs[n - 1], st(mt, bs, n), en(mt, bs, n)), n < bs.len() ==> en(mt, bs, n) < s.len() && st(mt, bs, n + 1) == en(mt, bs, n) + 2, n == bs.len() ==> en(mt, bs, n) == s.len(),
        n == 1 ==> st(mt, bs, n) == mby(mt).len(),
{
    let m = bs.len() as int;
    let w = lemma_bdoc_tail(mt, bs, n, m);
    let b = bs[n - 1];
    let (a, e) = (bdoc(mt, bs, n - 1) + bsep(n), be(b));
    let (i0, i1) = (st(mt, bs, n), en(mt, bs, n));
    lemma_be(b);
    lemma_bdoc_open(mt, bs, n - 1);
    lemma_bdoc_open(mt, bs, n);
    let d = bdoc(mt, bs, n);
    assert(d == a + e);
    lemma_cat(a, e);
    lemma_cat(d, w);
    assert(s == d + w);
    assert(s == a + e + w);
    assert(i0 == a.len());
    assert(i1 == d.len());
    assert(escst(s, i0) == escst(d, i0));
    assert(escst(s, i1) == escst(d, i1));
    assert(escst(d, i0) == escst(e, 0));
    if n < m { assert(s[i1] == w[0]); assert(s[i1 + 1] == w[1]); }
    lemma_mby(mt);
    if n == 1 { assert(a =~= mby(mt)); }
    if n > 1 || mt is Some {
        assert(a[i0 - 1] == 10 && a[i0 - 2] == 10);
        assert(s[i0 - 1] == a[i0 - 1]);
        assert(s[i0 - 2] == a[i0 - 2]);
        assert(!escst(s, i0 - 1));
    } else { assert(a.len() == 0); }
    match b {
        Bn::P(ns) => {
            lemma_safe_start(ns, a, w);
            assert forall|j: int| 0 <= j < ns.len() implies piece(s, #[trigger] ns[j], i0 + gb(ns, j).len(), i0 + gb(ns, j + 1).len()) by { lemma_node(ns, j, a, w); }
        }
        Bn::B => { assert forall|i: int| 0 <= i < 5 implies #[trigger] e[i] == s[i0 + i] by {} assert(e[0] == s[i0] && e[1] == s[i0 + 1] && e[2] == s[i0 + 2] && e[3] == s[i0 + 3] && e[4] == s[i0 + 4]); }
        Bn::H(l, t) => { lemma_hby(l, t, a, w); }
        Bn::I(t, u) => { lemma_iby(t, u, a, w); }
        Bn::E(t, u) => { lemma_eby(t, u, a, w); }
        Bn::C(l, t) => { lemma_cby(l, t, a, w); }
    }
}

// ---- its tokens ----
/// the byte tokens of this kind are made of
pub open spec fn kb(k: TokenKind) -> Option<u8> { if k is CollapsibleStart { Some(0x7bu8) } else if run_byte(k) is Some { run_byte(k) } else { one_byte(k) } }
/// a token that is text wherever it stands in a text of this place
pub open spec fn mild(o: Option<Node>, t: Token) -> bool {
    (!raw(o) ==> !(t.kind is Terminator)) && (kb(t.kind) matches Some(c) ==> !dset(o, c))
    && (o == Some(Node::Modifier) ==> !(t.kind is Terminator) && !(t.kind is Eol)) && (o == Some(Node::Code) ==> !holds(Pq::Line(TokenKind::Backtick, 3), t))
}
/// the first k tokens end at byte p
pub open spec fn cut(toks: Seq<Token>, k: int, p: int) -> bool { 0 <= k <= toks.len() && endpos(toks.take(k)) == p }
proof fn lemma_next_tok(toks: Seq<Token>, src: Seq<u8>, k: int, p: int)
    requires lexed(toks, src), cut(toks, k, p), p < src.len(), p == src.len() - 1 ==> !is_marker(src, p),
    ensures
        k < toks.len(), tok_good(toks[k], src), follows(p, toks[k], src), cut(toks, k + 1, toks[k].range.end as int),
        k > 0 && toks[k - 1].kind is Eol ==> !(toks[k].kind is Eol) && !(toks[k].kind is Terminator),
{
    if k == toks.len() { assert(toks.take(k) =~= toks); }
    else {
        lemma_chain_at(toks, src, k);
        assert(toks.take(k + 1).last() == toks[k]);
        if k > 0 {
            if k + 1 < toks.len() { lemma_chain_at(toks, src, k + 1); } else { assert(toks.take(k + 1) =~= toks); }
            assert(toks.take(k + 1).drop_last() =~= toks.take(k));
            assert(toks.take(k).last() == toks[k - 1]);
        }
    }
}
proof fn lemma_col_pos(src: Seq<u8>, i: int)
    ensures row_col(src, i).1 >= 0,
    decreases i,
{ if i > 0 { lemma_col_pos(src, i - 1); } }
/// a token at the start of a line does not follow a backtick
proof fn lemma_col_ticks(t: Token, src: Seq<u8>)
    requires tok_good(t, src), col0(t),
    ensures t.range.start > 0 ==> src[t.range.start - 1] != 0x60,
{ if t.range.start > 0 { lemma_col_pos(src, t.range.start - 1); } }
/// one token of a text
proof fn lemma_mild(t: Token, src: Seq<u8>, o: Option<Node>, st: int, p: int, en: int, u: Seq<u8>)
    requires body(src, o, st, en, u), st <= p < en, tok_good(t, src), follows(p, t, src),
    ensures mild(o, t), p < t.range.end <= en,
{
    let (a, b) = (t.range.start as int, t.range.end as int);
    if t.escaped { assert(escst(src, p + 1)); assert(a == p + 1 && a < en || a == en); }
    assert(a < en);
    if t.kind is Eol || t.kind is Terminator { assert(!escst(src, a)); assert(src[a] == 10); if o == Some(Node::Modifier) { assert(hot(o, src, a)); } }
    if t.kind is Terminator && !raw(o) {
        if a + 1 < en { assert(src[a + 1] != 13); } else { assert(src[en] != 13); assert(src[en - 1] == 10); }
        assert(brk(src, a) == 1);
        assert(hot(o, src, a));
    }
    if b > en {
        assert(dl(src[en]) || src[en] == 10);
        if t.kind is Literal { assert(special(src, en)); }
        assert(!(t.kind is Literal));
        assert(!escst(src, a));
        if t.kind is Eol { assert(src[a] != 13); }
        assert(run_byte(t.kind) is Some ==> src[en] == run_byte(t.kind)->Some_0 && src[a] == src[en]);
        if t.kind is CollapsibleEnd { assert(src[a] == 0x25 && src[en] == 0x7d); }
        assert(hot(o, src, a));
        assert(false);
    }
    if !mild(o, t) {
        assert(!(t.kind is Literal));
        assert(!escst(src, a));
        if o == Some(Node::Code) { lemma_col_ticks(t, src); assert(src[a] == 0x60 && src[a + 1] == 0x60 && src[a + 2] == 0x60); }
        else { assert(kb(t.kind) is Some && src[a] == kb(t.kind)->Some_0); }
        assert(hot(o, src, a));
        assert(false);
    }
}
pub open spec fn mild_run(o: Option<Node>, toks: Seq<Token>, k: int, m: int) -> bool { forall|j: int| k <= j < m ==> mild(o, #[trigger] toks[j]) }
/// the tokens of a text
proof fn lemma_walk(toks: Seq<Token>, src: Seq<u8>, o: Option<Node>, st: int, en: int, u: Seq<u8>, k: int, p: int) -> (m: int)
    requires lexed(toks, src), body(src, o, st, en, u), cut(toks, k, p), st <= p <= en,
    ensures k <= m, cut(toks, m, en), mild_run(o, toks, k, m), p < en ==> k < m,
    decreases en - p,
{
    if p == en { k }
    else {
        if is_marker(src, p) { assert(escst(src, p + 1)); }
        lemma_next_tok(toks, src, k, p);
        lemma_mild(toks[k], src, o, st, p, en, u);
        let m = lemma_walk(toks, src, o, st, en, u, k + 1, toks[k].range.end as int);
        assert forall|j: int| k <= j < m implies mild(o, #[trigger] toks[j]) by {}
        m
    }
}
proof fn lemma_break_tok(t: Token, src: Seq<u8>, en: int)
    requires tok_good(t, src), follows(en, t, src), 0 <= en < src.len(), src[en] == 10, !escst(src, en),
    ensures t.range.start == en, t.kind is Eol || t.kind is Terminator,
{
    assert(t.range.start == en);
    if t.kind is Literal { assert(special(src, en)); }
    assert(run_byte(t.kind) is Some ==> src[en] == run_byte(t.kind)->Some_0);
}
/// the blank line after a block
proof fn lemma_blank(toks: Seq<Token>, src: Seq<u8>, en: int, m: int)
    requires lexed(toks, src), 0 <= en, en + 1 < src.len(), src[en] == 10, src[en + 1] == 10, !escst(src, en), cut(toks, m, en),
    ensures m < toks.len(), toks[m].kind is Terminator, cut(toks, m + 1, en + 2), tok_text(toks[m], src) == nn(),
{
    assert(!is_marker(src, en));
    lemma_next_tok(toks, src, m, en);
    lemma_break_tok(toks[m], src, en);
    if toks[m].kind is Eol {
        assert(toks[m].range.end == en + 1);
        assert(!is_marker(src, en + 1));
        lemma_next_tok(toks, src, m + 1, en + 1);
        lemma_break_tok(toks[m + 1], src, en + 1);
    }
    assert(tok_text(toks[m], src) =~= nn());
}
/// the text of the tokens between two bytes
proof fn lemma_seg_text(toks: Seq<Token>, src: Seq<u8>, st: int, en: int, u: Seq<u8>, k: int, m: int)
    requires lexed(toks, src), unescaped_to(src, en) == unescaped_to(src, st) + u, cut(toks, k, st), cut(toks, m, en), k <= m,
    ensures toks_text(toks, src, k, m) == u,
{
    lemma_prefix_text(toks, src, k, st);
    lemma_prefix_text(toks, src, m, en);
    lemma_toks_text_split(toks, src, 0, k, m);
    let (x, y) = (toks_text(toks, src, k, m), unescaped_to(src, st));
    assert(y + x == y + u);
    assert(x =~= (y + x).subrange(y.len() as int, (y + x).len() as int));
    assert(u =~= (y + u).subrange(y.len() as int, (y + u).len() as int));
}
proof fn lemma_prefix_text(toks: Seq<Token>, src: Seq<u8>, k: int, p: int)
    requires lexed(toks, src), cut(toks, k, p),
    ensures toks_text(toks, src, 0, k) == unescaped_to(src, p),
{
    if k < toks.len() { lemma_chain_at(toks, src, k); } else { assert(toks.take(k) =~= toks); }
    lemma_chain_text(toks.take(k), src);
    lemma_toks_text_sub(toks, src, 0, k, 0, k);
    assert(toks.subrange(0, k) =~= toks.take(k));
}
proof fn lemma_all_toks(toks: Seq<Token>, src: Seq<u8>, m: int)
    requires lexed(toks, src), cut(toks, m, src.len() as int),
    ensures m == toks.len(),
{ if m < toks.len() { lemma_chain_at(toks, src, m); } }

/// the token of a delimiter
pub open spec fn lkind(n: Node) -> TokenKind { match n { Node::Italic => TokenKind::Underscore, Node::Strikethrough => TokenKind::Tilde, Node::CodeSpan => TokenKind::Backtick, _ => TokenKind::Star } }
pub open spec fn lq(n: Node) -> Pq { Pq::Is(lkind(n), dby(n).len() as int) }
proof fn lemma_delim_tok(toks: Seq<Token>, src: Seq<u8>, n: Node, k: int, a: int)
    requires lexed(toks, src), leaf_n(n), delim(src, a, dby(n).len() as int, dbt(n)), cut(toks, k, a),
    ensures k < toks.len(), holds(lq(n), toks[k]), toks[k].range.start == a, cut(toks, k + 1, a + dby(n).len()), tok_text(toks[k], src) == dby(n),
{
    lemma_mark_tok(toks, src, lkind(n), dbt(n), dby(n).len() as int, k, a);
    assert(tok_text(toks[k], src) =~= dby(n)) by { assert forall|i: int| 0 <= i < dby(n).len() implies src[a + i] == #[trigger] dby(n)[i] by {} }
}
/// a delimiter is a token
proof fn lemma_mark_tok(toks: Seq<Token>, src: Seq<u8>, q: TokenKind, d: u8, n: int, k: int, a: int)
    requires lexed(toks, src), delim(src, a, n, d), kb(q) == Some(d), d != 0x7b || (n >= 2 && q is LeftCurlyBrace), cut(toks, k, a),
    ensures k < toks.len(), holds(Pq::Is(q, n), toks[k]), toks[k].range.start == a, toks[k].range.end == a + n, cut(toks, k + 1, a + n), tok_good(toks[k], src),
        tok_text(toks[k], src) == Seq::new(n as nat, |i: int| d),
{
    let z = a + n;
    assert(src[a] == d);
    lemma_next_tok(toks, src, k, a);
    let t = toks[k];
    let b = t.range.end as int;
    assert(t.range.start == a);
    if t.kind is Literal { assert(d == 0x20 || special(src, a)); }
    assert(kb(t.kind) == Some(d));
    assert(t.kind == q);
    if !single(d) {
        if b < z { assert(src[b] == d); }
        if b > z { assert(src[z] == d); }
    }
    assert(b == z);
    assert(tok_text(t, src) =~= Seq::new(n as nat, |i: int| d)) by { assert forall|i: int| 0 <= i < n implies #[trigger] src[a + i] == d by {} }
}

// ---- how they are read ----
pub open spec fn top_cx(toks: Seq<Token>, src: Seq<u8>) -> Cx { Cx { t: toks, s: src, e: Seq::empty() } }
/// reading stops only at the end of a block
pub open spec fn open_run(c: Cx, k: int, m: int) -> bool { forall|j: int| k <= j < m ==> !#[trigger] stop_at(c, j) }
proof fn lemma_no_inline(c: Cx, i: int)
    requires 0 <= i < c.t.len(), mild(None, c.t[i]),
    ensures g_inline(c, i).n < 0, g_anchor(c, i).n < 0,
{ }
/// plain text
proof fn lemma_read_text(c: Cx, k: int, m: int, ts: int)
    requires 0 <= k <= m <= c.t.len(), mild_run(None, c.t, k, m), open_run(c, k, m),
    ensures k < m ==> g_para_rest(c, k, ts) == g_para_rest(c, m, if ts >= 0 { ts } else { k }),
    decreases m - k,
{
    if k < m {
        assert(mild(None, c.t[k]));
        assert(!stop_at(c, k));
        lemma_no_inline(c, k);
        lemma_read_text(c, k + 1, m, if ts >= 0 { ts } else { k });
    }
}
proof fn lemma_find(c: Cx, n: Node, i: int, m: int)
    requires leaf_n(n), 0 <= i <= m < c.t.len(), mild_run(Some(n), c.t, i, m), open_run(c, i, m + 1), holds(lq(n), c.t[m]),
    ensures find(c, i, lq(n)) == m,
    decreases m - i,
{
    assert(!stop_at(c, i));
    if i < m { assert(mild(Some(n), c.t[i])); lemma_find(c, n, i + 1, m); }
}
proof fn lemma_read_bold(c: Cx, k: int, m: int, ts: int)
    requires 0 <= k <= m < c.t.len(), mild_run(Some(Node::Bold), c.t, k, m), open_run(c, k, m + 1), holds(lq(Node::Bold), c.t[m]), ts >= 0 || k < m,
    ensures g_bold_rest(c, k, ts) == (G { n: m + 1, o: seq![a_val(txt(c, if ts >= 0 { ts } else { k }, m)), a_close(Node::Bold, txt(c, m, m + 1))] }),
    decreases m - k,
{
    assert(!stop_at(c, k));
    let s = if ts >= 0 { ts } else { k };
    if k < m {
        assert(mild(Some(Node::Bold), c.t[k]));
        assert(g_bold_in(c, k).n < 0);
        lemma_read_bold(c, k + 1, m, s);
    } else {
        assert(g_rest_text(c, ts, k).push(a_close(Node::Bold, txt(c, k, k + 1))) =~= seq![a_val(txt(c, s, m)), a_close(Node::Bold, txt(c, m, m + 1))]);
    }
}
/// the events of a node
pub open spec fn ev(x: Pn) -> Seq<AOp> {
    match x { Pn::T(t) => seq![a_val(sb(t))], Pn::L(n, t) => seq![a_open(n, dby(n)), a_val(sb(t)), a_close(n, dby(n))], Pn::A(t, u) => (seq![a_open(Node::Anchor, none())] + lev(t, u)).push(a_close(Node::Anchor, none())) }
}
/// the events of a title and a destination
pub open spec fn tev(t: Seq<char>) -> Seq<AOp> { seq![a_open(Node::Title, seq![0x5bu8]), a_val(sb(t)), a_close(Node::Title, seq![0x5du8])] }
pub open spec fn uev(u: Seq<char>) -> Seq<AOp> { seq![a_open(Node::Destination, seq![0x28u8]), a_val(sb(u)), a_close(Node::Destination, seq![0x29u8])] }
pub open spec fn lev(t: Seq<char>, u: Seq<char>) -> Seq<AOp> { tev(t) + uev(u) }
proof fn lemma_one_txt(c: Cx, k: int)
    requires 0 <= k < c.t.len(),
    ensures txt(c, k, k + 1) == tok_text(c.t[k], c.s),
{ assert(toks_text(c.t, c.s, k, k) =~= Seq::empty()); assert(toks_text(c.t, c.s, k, k + 1) =~= tok_text(c.t[k], c.s)); }
/// an inline construct, from its tokens k, k+1..m and m
proof fn lemma_read_leaf(c: Cx, n: Node, t: Seq<char>, k: int, m: int)
    requires
        leaf_n(n), 0 <= k, k + 1 < m < c.t.len(), holds(lq(n), c.t[k]), holds(lq(n), c.t[m]), mild_run(Some(n), c.t, k + 1, m), open_run(c, k, m + 1),
        tok_text(c.t[k], c.s) == dby(n), tok_text(c.t[m], c.s) == dby(n), txt(c, k + 1, m) == sb(t),
    ensures g_inline(c, k) == (G { n: m + 1, o: ev(Pn::L(n, t)) }),
{
    lemma_one_txt(c, k);
    lemma_one_txt(c, m);
    assert(!stop_at(c, k));
    assert(open_run(c, k + 1, m + 1)) by { assert forall|j: int| k + 1 <= j < m + 1 implies !#[trigger] stop_at(c, j) by {} }
    if n is Bold {
        lemma_read_bold(c, k + 1, m, -1);
        assert(g_bold(c, k).o =~= ev(Pn::L(n, t)));
    } else {
        lemma_find(c, n, k + 1, m);
        assert(g_leaf(c, k, n, lq(n), lq(n)) == (G { n: m + 1, o: ev(Pn::L(n, t)) }));
    }
}
/// the events of the nodes from j on, and of the end of the paragraph
pub open spec fn evs(ns: Seq<Pn>, j: int) -> Seq<AOp>
    decreases ns.len() - j,
{ if j < 0 || j >= ns.len() { seq![a_close(Node::Paragraph, none())] } else { ev(ns[j]) + evs(ns, j + 1) } }
/// only a blank line or the end stops
pub open spec fn plain_stop(c: Cx) -> bool { forall|i: int| 0 <= i ==> #[trigger] stop_at(c, i) == (i >= c.t.len() || c.t[i].kind is Terminator) }
proof fn lemma_no_term(c: Cx, o: Option<Node>, k: int, m: int)
    requires plain_stop(c), !raw(o), 0 <= k <= m <= c.t.len(), mild_run(o, c.t, k, m),
    ensures open_run(c, k, m),
{ assert forall|j: int| k <= j < m implies !#[trigger] stop_at(c, j) by { assert(mild(o, c.t[j])); } }
/// a text of a paragraph
proof fn lemma_text_at(c: Cx, t: Seq<char>, k: int, p: int, q: int) -> (m: int)
    requires lexed(c.t, c.s), plain_stop(c), piece(c.s, Pn::T(t), p, q), cut(c.t, k, p),
    ensures k < m, cut(c.t, m, q), g_para_rest(c, k, -1) == g_para_rest(c, m, k), txt(c, k, m) == sb(t),
{
    let m = lemma_walk(c.t, c.s, None, p, q, sb(t), k, p);
    lemma_no_term(c, None, k, m);
    lemma_read_text(c, k, m, -1);
    lemma_seg_text(c.t, c.s, p, q, sb(t), k, m);
    m
}
/// an inline construct of a paragraph
proof fn lemma_leaf_at(c: Cx, n: Node, t: Seq<char>, k: int, p: int, q: int) -> (m: int)
    requires lexed(c.t, c.s), plain_stop(c), leaf_n(n), piece(c.s, Pn::L(n, t), p, q), cut(c.t, k, p),
    ensures k < m, cut(c.t, m, q), g_inline(c, k) == (G { n: m, o: ev(Pn::L(n, t)) }), !stop_at(c, k),
{
    let d = dby(n).len() as int;
    lemma_delim_tok(c.t, c.s, n, k, p);
    let m1 = lemma_walk(c.t, c.s, Some(n), p + d, q - d, sb(t), k + 1, p + d);
    lemma_delim_tok(c.t, c.s, n, m1, q - d);
    lemma_seg_text(c.t, c.s, p + d, q - d, sb(t), k + 1, m1);
    lemma_no_term(c, Some(n), k + 1, m1);
    assert(!stop_at(c, k));
    assert(!stop_at(c, m1));
    assert forall|i: int| k <= i < m1 + 1 implies !#[trigger] stop_at(c, i) by {}
    lemma_read_leaf(c, n, t, k, m1);
    m1 + 1
}
/// the tokens of x, a text, y
proof fn lemma_span_toks(c: Cx, x: TokenKind, n: Node, y: TokenKind, t: Seq<char>, k: int, p: int, q: int) -> (m: int)
    requires
        lexed(c.t, c.s), plain_stop(c), !raw(Some(n)), kb(x) is Some, kb(y) is Some, single(kb(x)->Some_0), kb(x) != Some(0x7bu8), kb(y) != Some(0x7bu8),
        span(c.s, kb(x)->Some_0, n, kb(y)->Some_0, t, p, q), cut(c.t, k, p),
    ensures
        0 <= k, k + 1 < m < c.t.len(), cut(c.t, m + 1, q), is_at(c, k, Pq::Is(x, 1)), is_at(c, m, Pq::Is(y, 1)), mild_run(Some(n), c.t, k + 1, m), open_run(c, k, m + 1),
        txt(c, k, k + 1) == seq![kb(x)->Some_0], txt(c, k + 1, m) == sb(t), txt(c, m, m + 1) == seq![kb(y)->Some_0],
{
    lemma_mark_tok(c.t, c.s, x, kb(x)->Some_0, 1, k, p);
    let m = lemma_walk(c.t, c.s, Some(n), p + 1, q - 1, sb(t), k + 1, p + 1);
    lemma_mark_tok(c.t, c.s, y, kb(y)->Some_0, 1, m, q - 1);
    lemma_seg_text(c.t, c.s, p + 1, q - 1, sb(t), k + 1, m);
    lemma_no_term(c, Some(n), k + 1, m);
    lemma_one_txt(c, k);
    lemma_one_txt(c, m);
    assert(tok_text(c.t[k], c.s) =~= seq![kb(x)->Some_0]);
    assert(tok_text(c.t[m], c.s) =~= seq![kb(y)->Some_0]);
    assert(!stop_at(c, k));
    assert(!stop_at(c, m));
    assert forall|i: int| k <= i < m + 1 implies !#[trigger] stop_at(c, i) by {}
    m
}
proof fn lemma_find_title(c: Cx, n: Node, i: int, m: int)
    requires n is Title || n is Image, 0 <= i <= m < c.t.len(), mild_run(Some(n), c.t, i, m), open_run(c, i, m + 1), is_at(c, m, Pq::Is(TokenKind::RightSquareBracket, 1)),
    ensures find(c, i, Pq::Is(TokenKind::RightSquareBracket, 1)) == m,
    decreases m - i,
{
    assert(!stop_at(c, i));
    if i < m { assert(mild(Some(n), c.t[i])); lemma_find_title(c, n, i + 1, m); }
}
proof fn lemma_find_paren(c: Cx, i: int, m: int)
    requires 0 <= i <= m < c.t.len(), mild_run(Some(Node::Destination), c.t, i, m), open_run(c, i, m + 1), is_at(c, m, Pq::Is(TokenKind::RightParenthesis, 1)),
    ensures paren_end(c, i, 1, -1) == m,
    decreases m - i,
{
    assert(!stop_at(c, i));
    if i < m { assert(mild(Some(Node::Destination), c.t[i])); lemma_find_paren(c, i + 1, m); }
}
/// a title and a destination
proof fn lemma_link_at(c: Cx, n: Node, t: Seq<char>, u: Seq<char>, k: int, p: int, q: int) -> (m: int)
    requires lexed(c.t, c.s), plain_stop(c), n is Title || n is Image, link(c.s, n, t, u, p, q), cut(c.t, k, p),
    ensures k < m, cut(c.t, m, q), g_title(c, k).n >= 0, g_title(c, k).o == tev(t), g_dest(c, g_title(c, k).n) == (G { n: m, o: uev(u) }), !stop_at(c, k),
        is_at(c, k, Pq::Is(TokenKind::LeftSquareBracket, 1)), 
{
    let mid = p + sb(px(Some(n), t)).len() + 2;
    let a = lemma_span_toks(c, TokenKind::LeftSquareBracket, n, TokenKind::RightSquareBracket, t, k, p, mid);
    let b = lemma_span_toks(c, TokenKind::LeftParenthesis, Node::Destination, TokenKind::RightParenthesis, u, a + 1, mid, q);
    assert(!stop_at(c, k));
    assert(open_run(c, k + 1, a + 1)) by { assert forall|j: int| k + 1 <= j < a + 1 implies !#[trigger] stop_at(c, j) by {} }
    assert(open_run(c, a + 2, b + 1)) by { assert forall|j: int| a + 2 <= j < b + 1 implies !#[trigger] stop_at(c, j) by {} }
    lemma_find_title(c, n, k + 1, a);
    lemma_find_paren(c, a + 2, b);
    assert(g_title(c, k).o =~= tev(t));
    assert(g_dest(c, a + 1).o =~= uev(u));
    b + 1
}
proof fn lemma_anchor_at(c: Cx, t: Seq<char>, u: Seq<char>, k: int, p: int, q: int) -> (m: int)
    requires lexed(c.t, c.s), plain_stop(c), piece(c.s, Pn::A(t, u), p, q), cut(c.t, k, p),
    ensures k < m, cut(c.t, m, q), g_inline(c, k) == (G { n: m, o: ev(Pn::A(t, u)) }), !stop_at(c, k),
{
    let m = lemma_link_at(c, Node::Title, t, u, k, p, q);
    lemma_cat_assoc(seq![a_open(Node::Anchor, none())], tev(t), uev(u));
    assert(g_anchor(c, k) == (G { n: m, o: ev(Pn::A(t, u)) }));
    m
}
proof fn lemma_cat_assoc(r: Seq<AOp>, e: Seq<AOp>, v: Seq<AOp>)
    ensures (r + e) + v == r + (e + v),
{ assert((r + e) + v =~= r + (e + v)); }
/// the nodes of a paragraph from j on
proof fn lemma_read_nodes(c: Cx, ns: Seq<Pn>, a: int, z: int, j: int, k: int, ts: int) -> (m: int)
    requires
        lexed(c.t, c.s), plain_stop(c), ok_nodes(ns), bpiece(c.s, Bn::P(ns), a, z), 0 <= j <= ns.len(), cut(c.t, k, a + gb(ns, j).len()),
        ts >= 0 ==> j > 0 && ns[j - 1] is T,
    ensures k <= m, cut(c.t, m, z), g_para_rest(c, k, ts) == (G { n: m, o: g_rest_text(c, ts, k) + evs(ns, j) }), j < ns.len() ==> k < m,
    decreases ns.len() - j,
{
    if j == ns.len() {
        if z < c.s.len() { lemma_blank(c.t, c.s, z, k); } else { lemma_all_toks(c.t, c.s, k); }
        assert(stop_at(c, k));
        assert(g_rest_text(c, ts, k).push(a_close(Node::Paragraph, none())) =~= g_rest_text(c, ts, k) + evs(ns, j));
        k
    } else {
        let x = ns[j];
        let (p, q) = (a + gb(ns, j).len(), a + gb(ns, j + 1).len());
        assert(ok_node(x) && piece(c.s, x, p, q));
        let v = evs(ns, j + 1);
        match x {
            Pn::T(t) => {
                if j > 0 { assert(adj_ok(ns[j - 1], ns[j])); }
                assert(ts < 0);
                let m1 = lemma_text_at(c, t, k, p, q);
                let m = lemma_read_nodes(c, ns, a, z, j + 1, m1, k);
                assert(g_para_rest(c, k, ts) == g_para_rest(c, k, -1)) by { lemma_ts(c, k, ts); }
                assert(g_rest_text(c, k, m1) == ev(x));
                lemma_cat_assoc(g_rest_text(c, ts, k), ev(x), v);
                assert(g_rest_text(c, ts, k) + (ev(x) + v) =~= ev(x) + v);
                m
            }
            Pn::L(n, t) => {
                let m1 = lemma_leaf_at(c, n, t, k, p, q);
                let m = lemma_read_nodes(c, ns, a, z, j + 1, m1, -1);
                assert(g_rest_text(c, -1, m1) + v =~= v);
                lemma_take_inline(c, k, ts, m1, ev(x));
                lemma_cat_assoc(g_rest_text(c, ts, k), ev(x), v);
                m
            }
            Pn::A(t, u) => {
                let m1 = lemma_anchor_at(c, t, u, k, p, q);
                let m = lemma_read_nodes(c, ns, a, z, j + 1, m1, -1);
                assert(g_rest_text(c, -1, m1) + v =~= v);
                lemma_take_inline(c, k, ts, m1, ev(x));
                lemma_cat_assoc(g_rest_text(c, ts, k), ev(x), v);
                m
            }
        }
    }
}
/// no pending text is no pending text
proof fn lemma_ts(c: Cx, k: int, ts: int)
    requires ts < 0,
    ensures g_para_rest(c, k, ts) == g_para_rest(c, k, -1),
{ assert(g_rest_text(c, ts, k) == g_rest_text(c, -1, k)); }
proof fn lemma_take_inline(c: Cx, k: int, ts: int, m: int, e: Seq<AOp>)
    requires 0 <= k < m <= c.t.len(), !stop_at(c, k), g_inline(c, k) == (G { n: m, o: e }),
    ensures g_para_rest(c, k, ts) == after(g_rest_text(c, ts, k) + e, g_para_rest(c, m, -1)),
{ }
/// the token at k cannot start another block
pub open spec fn plain_start(toks: Seq<Token>, k: int) -> bool {
    0 <= k < toks.len() && !(toks[k].kind is Terminator) && !(toks[k].kind is LeftCurlyBrace) && !(toks[k].kind is CollapsibleStart)
    && !(toks[k].kind is Backtick && rlen(toks[k].range) == 3)
    && !(toks[k].kind is Bang && (rlen(toks[k].range) == 2 || k + 1 < toks.len() && toks[k + 1].kind is LeftSquareBracket))
    && !(toks[k].kind is Minus && (rlen(toks[k].range) == 3 || rlen(toks[k].range) == 5))
    && (k + 1 < toks.len() && toks[k + 1].kind is Space ==> list_marker_kind(toks[k]) is None && !(toks[k].kind is Hash && rlen(toks[k].range) <= 6))
}
proof fn lemma_plain_start(toks: Seq<Token>, src: Seq<u8>, ns: Seq<Pn>, a: int, z: int, k: int)
    requires lexed(toks, src), ok_nodes(ns), bpiece(src, Bn::P(ns), a, z), cut(toks, k, a),
    ensures plain_start(toks, k),
{
    let x = ns[0];
    assert(ok_node(x));
    assert(gb(ns, 0).len() == 0);
    let q = a + gb(ns, 1).len();
    assert(piece(src, x, a, q));
    lemma_piece_start(toks, src, x, a, q, k);
}
#[verifier::rlimit(60)]
proof fn lemma_piece_start(toks: Seq<Token>, src: Seq<u8>, x: Pn, a: int, q: int, k: int)
    requires lexed(toks, src), ok_node(x), piece(src, x, a, q), x is T ==> safe_at(src, a), cut(toks, k, a),
    ensures plain_start(toks, k),
{
    hide(body); hide(safe_at);
    match x {
        Pn::L(n, t) => { lemma_delim_tok(toks, src, n, k, a); }
        Pn::A(t, u) => { lemma_mark_tok(toks, src, TokenKind::LeftSquareBracket, 0x5b, 1, k, a); }
        Pn::T(u) => { lemma_text_start(toks, src, sb(u), a, q, k); }
    }
}
proof fn lemma_after_tok(toks: Seq<Token>, src: Seq<u8>, k: int)
    requires lexed(toks, src), 0 <= k, k + 1 < toks.len(),
    ensures tok_good(toks[k + 1], src), follows(toks[k].range.end as int, toks[k + 1], src),
{ lemma_chain_at(toks, src, k + 1); assert(toks.take(k + 1).last() == toks[k]); }
proof fn lemma_text_start(toks: Seq<Token>, src: Seq<u8>, u: Seq<u8>, a: int, q: int, k: int)
    requires lexed(toks, src), body(src, None, a, q, u), safe_at(src, a), cut(toks, k, a),
    ensures plain_start(toks, k),
{
    if is_marker(src, a) { assert(escst(src, a + 1)); assert(a + 1 != q); assert(a + 1 < src.len()); }
    lemma_next_tok(toks, src, k, a);
    let t = toks[k];
    lemma_mild(t, src, None, a, a, q, u);
    let (s, b) = (t.range.start as int, t.range.end as int);
    assert(t.kind is Literal || (s == a && !t.escaped));
    if t.kind is Bang && b == s + 2 { assert(src[s] == 0x21 && src[s + 1] == 0x21); }
    if t.kind is Minus && b >= s + 3 { assert(src[s] == 0x2d && src[s + 1] == 0x2d && src[s + 2] == 0x2d); }
    if k + 1 < toks.len() {
        lemma_after_tok(toks, src, k);
        lemma_second(t, toks[k + 1], src, u, a, q);
    }
}
/// the second token of a text at the start of a block
proof fn lemma_second(t: Token, v: Token, src: Seq<u8>, u: Seq<u8>, a: int, q: int)
    requires
        body(src, None, a, q, u), safe_at(src, a), tok_good(t, src), tok_good(v, src), a < t.range.end <= q, follows(t.range.end as int, v, src),
        t.kind is Literal || t.range.start == a,
    ensures !(t.kind is Bang && v.kind is LeftSquareBracket), v.kind is Space ==> list_marker_kind(t) is None && !(t.kind is Hash && rlen(t.range) <= 6),
{
    let (s, b) = (t.range.start as int, t.range.end as int);
    if t.kind is Bang && v.kind is LeftSquareBracket { assert(src[b] == 0x5b); if b > s + 1 { assert(src[s + 1] == 0x21); } assert(false); }
    if v.kind is Space {
        assert(v.range.start == b);
        assert(src[b] == 0x20);
        if list_marker_kind(t) is Some { assert(b == s + 1); assert(src[s] == 0x2d || src[s] == 0x2b); }
        if t.kind is Hash && b - s <= 6 { let n = b - s; assert(bhash(src, a, n)); }
    }
}
proof fn lemma_no_block(c: Cx, w: Cx, k: int)
    requires plain_start(c.t, k), w.t == c.t,
    ensures g_metadata(c, k).n < 0, g_code(c, k).n < 0, g_coll(c, k) == dno(c.t), g_embed(c, k).n < 0, g_highlight(c, k).n < 0,
        g_list(w, k, 0).n < 0, g_images(w, k).n < 0, g_break(w, k).n < 0, g_heading(w, k).n < 0,
{
    assert(g_image(w, k).n < 0) by { if c.t[k].kind is Bang { assert(g_title(w, k + 1).n < 0); } }
    assert(!item_prefix(w.t, k, 0, None));
    assert(g_item(w, k, 0, None).n < 0);
    assert(!coll_start(c, k));
}
pub open spec fn dashes() -> Seq<u8> { seq![0x2du8, 0x2du8, 0x2du8, 0x2du8, 0x2du8] }
/// the language of a code block
pub open spec fn mev(l: Seq<char>) -> Seq<AOp> { if l.len() == 0 { Seq::empty() } else { seq![a_open(Node::Modifier, none()), a_val(sb(l)), a_close(Node::Modifier, seq![10u8])] } }
pub open spec fn cstart(l: Seq<char>) -> Seq<u8> { if l.len() == 0 { fence().push(10) } else { fence() } }
/// the events of a block
pub open spec fn bev(b: Bn) -> Seq<AOp> {
    match b {
        Bn::P(ns) => seq![a_open(Node::Paragraph, none())] + evs(ns, 0),
        Bn::B => seq![a_open(Node::ThematicBreak, none()), a_val(dashes()), a_close(Node::ThematicBreak, none())],
        Bn::H(l, t) => seq![a_open(Node::Heading, hs(l) + seq![0x20u8]), a_val(sb(t)), a_close(Node::Heading, none())],
        Bn::I(t, u) => (seq![a_open(Node::Image, seq![0x21u8])] + lev(t, u)).push(a_close(Node::Image, none())),
        Bn::E(t, u) => seq![a_open(Node::Embed, seq![0x7bu8, 0x7b]), a_val(sb(t)), a_val(seq![0x7cu8]), a_val(sb(u)), a_close(Node::Embed, seq![0x7du8, 0x7d])],
        Bn::C(l, t) => (seq![a_open(Node::Code, cstart(l))] + mev(l)).push(a_val(sb(t).push(10))).push(a_close(Node::Code, fence())),
    }
}
/// the text of a heading
proof fn lemma_heading_text(c: Cx, k: int, m: int, ts: int)
    requires 0 <= k <= m <= c.t.len(), mild_run(Some(Node::Heading), c.t, k, m), open_run(c, k, m), stop_at(c, m), ts >= 0 || k < m,
    ensures g_heading_rest(c, k, ts) == (G { n: m, o: seq![a_val(txt(c, if ts >= 0 { ts } else { k }, m)), a_close(Node::Heading, none())] }),
    decreases m - k,
{
    let s = if ts >= 0 { ts } else { k };
    if k < m {
        assert(mild(Some(Node::Heading), c.t[k]));
        assert(!stop_at(c, k));
        assert(g_anchor(c, k).n < 0);
        lemma_heading_text(c, k + 1, m, s);
    } else {
        assert(g_rest_text(c, ts, k).push(a_close(Node::Heading, none())) =~= seq![a_val(txt(c, s, m)), a_close(Node::Heading, none())]);
    }
}
/// a block ends where its last token ends
proof fn lemma_block_end(c: Cx, z: int, m: int)
    requires lexed(c.t, c.s), plain_stop(c), cut(c.t, m, z), 0 <= z <= c.s.len(), z < c.s.len() ==> z + 1 < c.s.len() && c.s[z] == 10 && c.s[z + 1] == 10 && !escst(c.s, z),
    ensures stop_at(c, m), m == c.t.len() || c.t[m].kind is Terminator,
{ if z < c.s.len() { lemma_blank(c.t, c.s, z, m); } else { lemma_all_toks(c.t, c.s, m); } }
#[verifier::rlimit(60)]
proof fn lemma_heading_read(toks: Seq<Token>, src: Seq<u8>, l: int, t: Seq<char>, a: int, z: int, k: int) -> (m: int)
    requires lexed(toks, src), ok_heading(l, t), bpiece(src, Bn::H(l, t), a, z), cut(toks, k, a),
    ensures k < m, cut(toks, m, z), g_block(top_cx(toks, src), k) == (Gd { t: toks, n: m, o: bev(Bn::H(l, t)) }), g_metadata(top_cx(toks, src), k).n < 0,
{
    let c = top_cx(toks, src);
    let w = under(c, StopCondition::Terminator);
    lemma_under_stop(toks, src);
    lemma_mark_tok(toks, src, TokenKind::Hash, 0x23, l, k, a);
    lemma_col0(toks, src, Bn::H(l, t), a, z, k);
    lemma_mark_tok(toks, src, TokenKind::Space, 0x20, 1, k + 1, a + l);
    let m = lemma_walk(toks, src, Some(Node::Heading), a + l + 1, z, sb(t), k + 2, a + l + 1);
    lemma_seg_text(toks, src, a + l + 1, z, sb(t), k + 2, m);
    lemma_no_term(w, Some(Node::Heading), k + 2, m);
    lemma_block_end(w, z, m);
    lemma_heading_text(w, k + 2, m, -1);
    lemma_one_txt(w, k);
    assert(txt(w, k, k + 2) =~= hs(l) + seq![0x20u8]);
    assert(!stop_at(w, k));
    assert(!item_prefix(w.t, k, 0, None));
    assert(g_item(w, k, 0, None).n < 0);
    assert(!coll_start(c, k));
    assert(with_toks(c, toks) == c);
    assert(g_heading(w, k).n == m);
    assert(g_heading(w, k).o =~= bev(Bn::H(l, t)));
    m
}
#[verifier::rlimit(60)]
proof fn lemma_image_read(toks: Seq<Token>, src: Seq<u8>, t: Seq<char>, u: Seq<char>, a: int, z: int, k: int) -> (m: int)
    requires lexed(toks, src), bpiece(src, Bn::I(t, u), a, z), cut(toks, k, a),
    ensures k < m, cut(toks, m, z), g_block(top_cx(toks, src), k) == (Gd { t: toks, n: m, o: bev(Bn::I(t, u)) }), g_metadata(top_cx(toks, src), k).n < 0,
{
    let c = top_cx(toks, src);
    let w = under(c, StopCondition::Terminator);
    let b = Bn::I(t, u);
    lemma_under_stop(toks, src);
    lemma_mark_tok(toks, src, TokenKind::Bang, 0x21, 1, k, a);
    let m = lemma_link_at(w, Node::Image, t, u, k + 1, a + 1, z);
    lemma_block_end(w, z, m);
    lemma_one_txt(w, k);
    assert(tok_text(toks[k], src) =~= seq![0x21u8]);
    assert(txt(w, m, m) =~= none());
    let g = g_image(w, k);
    assert(g.n == m);
    lemma_cat_assoc(seq![a_open(Node::Image, seq![0x21u8])], tev(t), uev(u));
    assert(g.o =~= bev(b));
    assert(g_image(w, m).n < 0);
    assert(Seq::<AOp>::empty() + g.o =~= g.o);
    assert(g_images_rest(w, m, 1, g.o) == (G { n: m, o: g.o }));
    assert(g_images(w, k) == (G { n: m, o: bev(b) }));
    assert(!item_prefix(w.t, k, 0, None));
    assert(g_item(w, k, 0, None).n < 0);
    assert(!coll_start(c, k));
    assert(with_toks(c, toks) == c);
    m
}
/// tokens that are text here do not match
pub open spec fn skips(o: Option<Node>, q: Pq) -> bool {
    o == ek() && q == Pq::Is(TokenKind::Pipe, 1) || o == ea() && q == Pq::Is(TokenKind::RightCurlyBrace, 2) || o == cm() && q is EolTerm || o == cc() && q == Pq::Line(TokenKind::Backtick, 3)
}
proof fn lemma_find_raw(c: Cx, o: Option<Node>, q: Pq, i: int, m: int)
    requires skips(o, q), c.e.len() == 0, 0 <= i <= m < c.t.len(), mild_run(o, c.t, i, m), holds(q, c.t[m]),
    ensures find(c, i, q) == m,
    decreases m - i,
{
    assert(!stop_at(c, i));
    if i < m { assert(mild(o, c.t[i])); lemma_find_raw(c, o, q, i + 1, m); }
}
proof fn lemma_two_same(d: u8)
    ensures Seq::new(2, |i: int| d) == seq![d, d], Seq::new(3, |i: int| d) == seq![d, d, d], Seq::new(1, |i: int| d) == seq![d],
{ assert(Seq::new(2, |i: int| d) =~= seq![d, d]); assert(Seq::new(3, |i: int| d) =~= seq![d, d, d]); assert(Seq::new(1, |i: int| d) =~= seq![d]); }
/// a closing marker at the end of a block
proof fn lemma_closed(c: Cx, z: int, r: int)
    requires lexed(c.t, c.s), c.e.len() == 0, 0 <= r, cut(c.t, r + 1, z), 0 <= z <= c.s.len(), z < c.s.len() ==> z + 1 < c.s.len() && c.s[z] == 10 && c.s[z + 1] == 10 && !escst(c.s, z),
    ensures g_closed(c, r) == r + 1,
{ if z < c.s.len() { lemma_blank(c.t, c.s, z, r + 1); } else { lemma_all_toks(c.t, c.s, r + 1); } }
proof fn lemma_embed_read(toks: Seq<Token>, src: Seq<u8>, t: Seq<char>, u: Seq<char>, a: int, z: int, k: int) -> (m: int)
    requires lexed(toks, src), bpiece(src, Bn::E(t, u), a, z), cut(toks, k, a),
    ensures k < m, cut(toks, m, z), g_block(top_cx(toks, src), k) == (Gd { t: toks, n: m, o: bev(Bn::E(t, u)) }), g_metadata(top_cx(toks, src), k).n < 0,
{
    let c = top_cx(toks, src);
    let p = a + 2 + sb(px(ek(), t)).len();
    lemma_mark_tok(toks, src, TokenKind::LeftCurlyBrace, 0x7b, 2, k, a);
    lemma_col0(toks, src, Bn::E(t, u), a, z, k);
    let i = lemma_walk(toks, src, ek(), a + 2, p, sb(t), k + 1, a + 2);
    lemma_mark_tok(toks, src, TokenKind::Pipe, 0x7c, 1, i, p);
    let j = lemma_walk(toks, src, ea(), p + 1, z - 2, sb(u), i + 1, p + 1);
    lemma_mark_tok(toks, src, TokenKind::RightCurlyBrace, 0x7d, 2, j, z - 2);
    lemma_find_raw(c, ek(), Pq::Is(TokenKind::Pipe, 1), k + 1, i);
    lemma_find_raw(c, ea(), Pq::Is(TokenKind::RightCurlyBrace, 2), i + 1, j);
    lemma_closed(c, z, j);
    lemma_seg_text(toks, src, a + 2, p, sb(t), k + 1, i);
    lemma_seg_text(toks, src, p + 1, z - 2, sb(u), i + 1, j);
    lemma_one_txt(c, k);
    lemma_one_txt(c, i);
    lemma_one_txt(c, j);
    lemma_two_same(0x7b);
    lemma_two_same(0x7c);
    lemma_two_same(0x7d);
    assert(!coll_start(c, k));
    assert(with_toks(c, toks) == c);
    assert(g_embed(c, k).n == j + 1);
    assert(g_embed(c, k).o =~= bev(Bn::E(t, u)));
    assert(g_code(c, k).n < 0);
    j + 1
}
/// one line break
proof fn lemma_feed_tok(toks: Seq<Token>, src: Seq<u8>, k: int, p: int)
    requires lexed(toks, src), cut(toks, k, p), lf_at(src, p),
    ensures k < toks.len(), toks[k].kind is Eol, cut(toks, k + 1, p + 1), tok_text(toks[k], src) == seq![10u8], toks[k].range.start == p,
{
    assert(!is_marker(src, p));
    lemma_next_tok(toks, src, k, p);
    lemma_break_tok(toks[k], src, p);
    assert(brk(src, p) == 1);
    assert(brk(src, p + 1) == 0);
    assert(tok_text(toks[k], src) =~= seq![10u8]);
}
/// the language of a code block and the line break after it
proof fn lemma_lang_read(c: Cx, l: Seq<char>, t: Seq<char>, a: int, z: int, k: int) -> (j: int)
    requires lexed(c.t, c.s), c.e.len() == 0, cpiece(c.s, l, t, a, z), cut(c.t, k + 1, a + 3), 0 <= k < c.t.len(), c.t[k].kind is Backtick, tok_text(c.t[k], c.s) == fence(),
        c.t[k].range.start == a, c.t[k].range.end == a + 3, tok_good(c.t[k], c.s),
    ensures
        k + 1 < j <= c.t.len(), cut(c.t, j, a + 4 + sb(px(cm(), l)).len()),
        l.len() == 0 ==> is_at(c, k + 1, Pq::Eol) && j == k + 2 && txt(c, k, k + 2) == cstart(l),
        l.len() > 0 ==> !is_at(c, k + 1, Pq::Eol) && g_modifier(c, k + 1) == (G { n: j, o: mev(l) }) && txt(c, k, k + 1) == cstart(l),
{
    let p = a + 3 + sb(px(cm(), l)).len();
    lemma_one_txt(c, k);
    if l.len() == 0 {
        lemma_feed_tok(c.t, c.s, k + 1, p);
        lemma_one_txt(c, k + 1);
        assert(txt(c, k, k + 2) =~= cstart(l));
        k + 2
    } else {
        let i = lemma_walk(c.t, c.s, cm(), a + 3, p, sb(l), k + 1, a + 3);
        lemma_feed_tok(c.t, c.s, i, p);
        lemma_find_raw(c, cm(), Pq::EolTerm, k + 1, i);
        lemma_seg_text(c.t, c.s, a + 3, p, sb(l), k + 1, i);
        lemma_one_txt(c, i);
        assert(mild(cm(), c.t[k + 1]));
        assert(!col0(c.t[k + 1])) by {
            lemma_after_tok(c.t, c.s, k);
            let w = c.t[k + 1].range.start as int;
            if c.t[k + 1].escaped { assert(is_marker(c.s, a + 3)); assert(row_col(c.s, w) == row_col(c.s, a + 3)); }
            lemma_col_pos(c.s, a + 2);
            assert(c.s[a + 2] == 0x60);
        }
        assert(g_modifier(c, k + 1).o =~= mev(l));
        i + 1
    }
}
proof fn lemma_code_read(toks: Seq<Token>, src: Seq<u8>, l: Seq<char>, t: Seq<char>, a: int, z: int, k: int) -> (m: int)
    requires lexed(toks, src), ok_code(l, t), bpiece(src, Bn::C(l, t), a, z), cut(toks, k, a),
    ensures k < m, cut(toks, m, z), g_block(top_cx(toks, src), k) == (Gd { t: toks, n: m, o: bev(Bn::C(l, t)) }), g_metadata(top_cx(toks, src), k).n < 0,
{
    let c = top_cx(toks, src);
    let p = a + 4 + sb(px(cm(), l)).len();
    let q = Pq::Line(TokenKind::Backtick, 3);
    lemma_two_same(0x60);
    lemma_mark_tok(toks, src, TokenKind::Backtick, 0x60, 3, k, a);
    lemma_col0(toks, src, Bn::C(l, t), a, z, k);
    let j = lemma_lang_read(c, l, t, a, z, k);
    let i = lemma_walk(toks, src, cc(), p, z - 4, sb(t), j, p);
    lemma_feed_tok(toks, src, i, z - 4);
    lemma_mark_tok(toks, src, TokenKind::Backtick, 0x60, 3, i + 1, z - 3);
    assert(col0(toks[i + 1])) by { assert(!is_marker(src, z - 4)); }
    assert(mild_run(cc(), toks, j, i + 1)) by { assert forall|x: int| j <= x < i + 1 implies mild(cc(), #[trigger] toks[x]) by { if x == i { assert(toks[i].kind is Eol); } } }
    lemma_find_raw(c, cc(), q, j, i + 1);
    lemma_closed(c, z, i + 1);
    lemma_seg_text(toks, src, p, z - 4, sb(t), j, i);
    lemma_one_txt(c, i);
    lemma_one_txt(c, i + 1);
    assert(txt(c, j, i + 1) =~= sb(t).push(10));
    assert(Cx { t: c.t, s: c.s, e: Seq::empty() } == c);
    assert(with_toks(c, toks) == c);
    assert(g_code(c, k).n == i + 2);
    assert(g_code(c, k).o =~= bev(Bn::C(l, t)));
    i + 2
}
proof fn lemma_under_stop(toks: Seq<Token>, src: Seq<u8>)
    ensures plain_stop(under(top_cx(toks, src), StopCondition::Terminator)),
{
    let w = under(top_cx(toks, src), StopCondition::Terminator);
    assert forall|i: int| 0 <= i implies #[trigger] stop_at(w, i) == (i >= w.t.len() || w.t[i].kind is Terminator) by {
        if i < w.t.len() && w.t[i].kind is Terminator { assert(stop_hit(w.e[0], w.t, i)); }
    }
}
/// a block is read as what it is
proof fn lemma_block_read(toks: Seq<Token>, src: Seq<u8>, b: Bn, a: int, z: int, k: int) -> (m: int)
    requires lexed(toks, src), ok_block(b), bpiece(src, b, a, z), cut(toks, k, a),
    ensures k < m, cut(toks, m, z), g_block(top_cx(toks, src), k) == (Gd { t: toks, n: m, o: bev(b) }), g_metadata(top_cx(toks, src), k).n < 0,
{
    let c = top_cx(toks, src);
    let w = under(c, StopCondition::Terminator);
    lemma_under_stop(toks, src);
    assert(with_toks(c, toks) == c);
    match b {
        Bn::P(ns) => {
            lemma_plain_start(toks, src, ns, a, z, k);
            lemma_no_block(c, w, k);
            let m = lemma_read_nodes(w, ns, a, z, 0, k, -1);
            assert(g_rest_text(w, -1, k) + evs(ns, 0) =~= evs(ns, 0));
            lemma_block_para(c, k);
            m
        }
        Bn::B => { lemma_break_read(toks, src, a, z, k); k + 1 }
        Bn::H(l, t) => lemma_heading_read(toks, src, l, t, a, z, k),
        Bn::I(t, u) => lemma_image_read(toks, src, t, u, a, z, k),
        Bn::E(t, u) => lemma_embed_read(toks, src, t, u, a, z, k),
        Bn::C(l, t) => lemma_code_read(toks, src, l, t, a, z, k),
    }
}
/// nothing else is recognised at k
proof fn lemma_block_para(c: Cx, k: int)
    requires plain_start(c.t, k), with_toks(c, c.t) == c,
    ensures g_block(c, k) == (Gd { t: c.t, n: g_para(under(c, StopCondition::Terminator), k).n, o: g_para(under(c, StopCondition::Terminator), k).o }),
{ lemma_no_block(c, under(c, StopCondition::Terminator), k); }
/// tokens at the start of a block are at the start of a line
proof fn lemma_col0(toks: Seq<Token>, src: Seq<u8>, b: Bn, a: int, z: int, k: int)
    requires lexed(toks, src), bpiece(src, b, a, z), k < toks.len(), tok_good(toks[k], src), toks[k].range.start == a,
    ensures col0(toks[k]),
{ if a > 0 { assert(!is_marker(src, a - 1)); } }
proof fn lemma_break_read(toks: Seq<Token>, src: Seq<u8>, a: int, z: int, k: int)
    requires lexed(toks, src), bpiece(src, Bn::B, a, z), cut(toks, k, a),
    ensures k < toks.len(), cut(toks, k + 1, z), g_block(top_cx(toks, src), k) == (Gd { t: toks, n: k + 1, o: bev(Bn::B) }), g_metadata(top_cx(toks, src), k).n < 0,
{
    let c = top_cx(toks, src);
    let w = under(c, StopCondition::Terminator);
    lemma_next_tok(toks, src, k, a);
    let t = toks[k];
    let b = t.range.end as int;
    assert(t.range.start == a);
    if t.kind is Literal { assert(special(src, a)); }
    assert(t.kind is Minus);
    if b < z { assert(src[b] == 0x2d); }
    if b > z { assert(src[z] == 0x2d); }
    lemma_col0(toks, src, Bn::B, a, z, k);
    assert(!item_prefix(w.t, k, 0, None));
    assert(g_item(w, k, 0, None).n < 0);
    assert(!coll_start(c, k));
    assert(with_toks(c, toks) == c);
    lemma_one_txt(w, k);
    assert(tok_text(t, src) =~= dashes());
    assert(g_break(w, k).o =~= bev(Bn::B));
}
pub open spec fn sep_ev(n: int) -> Seq<AOp> { if n <= 1 { Seq::empty() } else { seq![a_val(nn())] } }
/// the blank line after the metadata
pub open spec fn after_meta(mt: Mt) -> Seq<AOp> { match mt { None => Seq::empty(), Some(t) => seq![a_val(nn())] } }
/// the events of the metadata
pub open spec fn meta_ev(mt: Mt) -> Seq<AOp> { match mt { None => Seq::empty(), Some(t) => seq![a_open(Node::Metadata, dash3()), a_val(meta_text(t)), a_close(Node::Metadata, dash3())] } }
pub open spec fn meta_text(t: Seq<char>) -> Seq<u8> { seq![10u8] + sb(t) + seq![10u8] }
/// the events of the first n blocks
pub open spec fn doc_ev(mt: Mt, bs: Seq<Bn>, n: int) -> Seq<AOp>
    decreases n,
{ if n <= 0 { after_meta(mt) } else { doc_ev(mt, bs, n - 1) + sep_ev(n) + bev(bs[n - 1]) } }
/// what comes after the n-th block
proof fn lemma_block_after(mt: Mt, bs: Seq<Bn>, toks: Seq<Token>, src: Seq<u8>, n: int, m: int)
    requires ok_meta(mt), ok_blocks(bs), src == bdoc(mt, bs, bs.len() as int), lexed(toks, src), 1 <= n <= bs.len(), cut(toks, m, en(mt, bs, n)),
    ensures
        n < bs.len() ==> 0 <= m < toks.len() && toks[m].kind is Terminator && cut(toks, m + 1, st(mt, bs, n + 1)) && tok_text(toks[m], src) == nn(),
        n == bs.len() ==> m == toks.len(),
{
    lemma_seg(mt, bs, n, src);
    if n < bs.len() { lemma_blank(toks, src, en(mt, bs, n), m); } else { lemma_all_toks(toks, src, m); }
}
/// from the n-th block to the end
#[verifier::rlimit(60)]
proof fn lemma_doc_read(mt: Mt, bs: Seq<Bn>, toks: Seq<Token>, src: Seq<u8>, n: int, k: int)
    requires ok_meta(mt), ok_blocks(bs), src == bdoc(mt, bs, bs.len() as int), lexed(toks, src), 1 <= n <= bs.len(), cut(toks, k, st(mt, bs, n)),
    ensures
        g_doc_rest(top_cx(toks, src), k).n >= 0,
        doc_ev(mt, bs, n - 1) + sep_ev(n) + g_doc_rest(top_cx(toks, src), k).o == doc_ev(mt, bs, bs.len() as int).push(a_close(Node::Document, none())),
        g_metadata(top_cx(toks, src), k).n < 0,
    decreases bs.len() - n,
{
    hide(bev);
    hide(bpiece);
    hide(ok_block);
    hide(be);
    let c = top_cx(toks, src);
    let (a, z, b) = (st(mt, bs, n), en(mt, bs, n), bs[n - 1]);
    lemma_seg(mt, bs, n, src);
    let m = lemma_block_read(toks, src, b, a, z, k);
    lemma_block_after(mt, bs, toks, src, n, m);
    assert(with_toks(c, toks) == c);
    assert forall|j: int| 0 <= j < toks.len() implies !#[trigger] stop_at(c, j) by {}
    assert(!stop_at(c, k));
    let gm = g_doc_rest(c, m);
    assert(g_doc_rest(c, k) == after_d(bev(b), gm));
    let pre = doc_ev(mt, bs, n - 1) + sep_ev(n);
    assert(doc_ev(mt, bs, n) == pre + bev(b));
    if n < bs.len() {
        assert(!stop_at(c, m));
        let gt = g_doc_rest(c, m + 1);
        lemma_one_txt(c, m);
        assert(g_block(c, m) == (Gd { t: toks, n: m + 1, o: sep_ev(n + 1) }));
        assert(gm == after_d(sep_ev(n + 1), gt));
        lemma_doc_read(mt, bs, toks, src, n + 1, m + 1);
        assert(pre + (bev(b) + (sep_ev(n + 1) + gt.o)) =~= doc_ev(mt, bs, n) + sep_ev(n + 1) + gt.o);
    } else {
        assert(gm == (Gd { t: toks, n: m, o: seq![a_close(Node::Document, none())] }));
        assert(pre + (bev(b) + gm.o) =~= doc_ev(mt, bs, n).push(a_close(Node::Document, none())));
    }
}
/// positions in front of a byte do not depend on what follows
proof fn lemma_row_prefix(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(),
    ensures row_col(a + b, i) == row_col(a, i), escst(a + b, i) == escst(a, i),
    decreases i,
{ if i > 0 { lemma_row_prefix(a, b, i - 1); assert((a + b)[i - 1] == a[i - 1]); } }
/// the metadata and its lines
pub open spec fn mpiece(s: Seq<u8>, t: Seq<char>) -> bool {
    let z = mtop(t).len() as int;
    z + 5 <= s.len() && z > 4 && s.subrange(3, z) == meta_text(t) && delim(s, 0, 3, 0x2d) && delim(s, z, 3, 0x2d) && s[3] == 10 && s[z - 1] == 10 && s[z + 3] == 10 && s[z + 4] == 10
    && (forall|i: int| 3 <= i < z ==> #[trigger] s[i] != 0x5c && s[i] != 13) && (forall|i: int| 0 <= i <= z + 4 ==> !#[trigger] escst(s, i))
    && (forall|i: int| 3 <= i < z ==> !(s[i] == 0x2d && s[i + 1] == 0x2d && s[i + 2] == 0x2d && s[i + 3] != 0x2d && #[trigger] row_col(s, i).1 == 0))
}
proof fn lemma_mpiece(t: Seq<char>, w: Seq<u8>)
    requires ok_meta(Some(t)),
    ensures mpiece(mby(Some(t)) + w, t),
{
    let (h, m, e) = (mtop(t), mby(Some(t)), sb(t));
    let s = m + w;
    let z = h.len() as int;
    let y = dash3() + nn() + w;
    assert(s =~= h + y);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] s[i] == m[i] by {}
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] != 0x5c by { if 4 <= i < 4 + e.len() { assert(m[i] == e[i - 4]); } }
    lemma_no_marker(m);
    lemma_cat(m, w);
    assert forall|i: int| 0 <= i <= z + 4 implies !#[trigger] escst(s, i) by { assert(escst(s, i) == escst(m, i)); }
    assert(s.subrange(3, z) =~= meta_text(t));
    assert(s[0] == 0x2d && s[1] == 0x2d && s[2] == 0x2d && s[3] == 10);
    assert(s[z] == 0x2d && s[z + 1] == 0x2d && s[z + 2] == 0x2d && s[z + 3] == 10 && s[z + 4] == 10);
    assert(s[z - 1] == 10);
    assert forall|i: int| 3 <= i < z implies #[trigger] s[i] != 0x5c && s[i] != 13 by { if 4 <= i < 4 + e.len() { assert(s[i] == e[i - 4]); } }
    assert forall|i: int| 3 <= i < z implies !(s[i] == 0x2d && s[i + 1] == 0x2d && s[i + 2] == 0x2d && s[i + 3] != 0x2d && #[trigger] row_col(s, i).1 == 0) by {
        lemma_row_prefix(h, y, i);
        assert(s[3] == 10);
        if i >= 4 { assert(!dashed(h, i)); assert(h[i] == s[i]); if i + 1 < z { assert(h[i + 1] == s[i + 1]); } if i + 2 < z { assert(h[i + 2] == s[i + 2]); } if i + 3 < z { assert(h[i + 3] == s[i + 3]); } }
    }
}
/// the tokens of the metadata
proof fn lemma_meta_walk(toks: Seq<Token>, src: Seq<u8>, t: Seq<char>, k: int, p: int) -> (m: int)
    requires lexed(toks, src), mpiece(src, t), cut(toks, k, p), 3 <= p <= mtop(t).len(), k >= 1,
    ensures k <= m < toks.len(), cut(toks, m, mtop(t).len() as int), find(top_cx(toks, src), k, Pq::Line(TokenKind::Minus, 3)) == m, is_at(top_cx(toks, src), m, Pq::Line(TokenKind::Minus, 3)),
        cut(toks, m + 1, (mtop(t).len() + 3) as int), tok_text(toks[m], src) == dash3(),
    decreases mtop(t).len() - p,
{
    let z = mtop(t).len() as int;
    let c = top_cx(toks, src);
    let q = Pq::Line(TokenKind::Minus, 3);
    if p == z {
        lemma_mark_tok(toks, src, TokenKind::Minus, 0x2d, 3, k, z);
        lemma_two_same(0x2d);
        assert(col0(toks[k])) by { assert(!is_marker(src, z - 1)); }
        assert(!stop_at(c, k));
        k
    } else {
        assert(!is_marker(src, p));
        lemma_next_tok(toks, src, k, p);
        let v = toks[k];
        let (a, b) = (v.range.start as int, v.range.end as int);
        assert(a == p);
        if b > z {
            assert(src[z] == 0x2d && src[z - 1] == 10);
            if v.kind is Literal { assert(special(src, z)); }
            if v.kind is Eol || v.kind is Terminator { assert(src[a] == 10); }
            assert(run_byte(v.kind) is Some ==> src[z] == src[a] && src[z - 1] == src[a]);
            assert(false);
        }
        if holds(q, v) {
            assert(src[a] == 0x2d && src[a + 1] == 0x2d && src[a + 2] == 0x2d && src[b] != 0x2d && b == a + 3);
            assert(row_col(src, a).1 == 0);
            assert(false);
        }
        assert(!stop_at(c, k));
        lemma_meta_walk(toks, src, t, k + 1, b)
    }
}
proof fn lemma_meta_read(toks: Seq<Token>, src: Seq<u8>, t: Seq<char>) -> (m: int)
    requires lexed(toks, src), mpiece(src, t),
    ensures 0 < m < toks.len(), g_metadata(top_cx(toks, src), 0) == (G { n: m, o: meta_ev(Some(t)) }), toks[m].kind is Terminator, tok_text(toks[m], src) == nn(), cut(toks, m + 1, mby(Some(t)).len() as int),
{
    let c = top_cx(toks, src);
    let z = mtop(t).len() as int;
    assert(toks.take(0) =~= Seq::empty());
    lemma_mark_tok(toks, src, TokenKind::Minus, 0x2d, 3, 0, 0);
    lemma_two_same(0x2d);
    let m = lemma_meta_walk(toks, src, t, 1, 3);
    assert forall|i: int| 3 <= i < z implies !#[trigger] is_marker(src, i) by {}
    lemma_unesc_run(src, 3, z);
    lemma_seg_text(toks, src, 3, z, meta_text(t), 1, m);
    lemma_one_txt(c, 0);
    lemma_one_txt(c, m);
    lemma_blank(toks, src, z + 3, m + 1);
    assert(g_metadata(c, 0).o =~= meta_ev(Some(t)));
    m + 1
}
#[verifier::rlimit(60)]
proof fn lemma_stream_read(mt: Mt, bs: Seq<Bn>, toks: Seq<Token>, src: Seq<u8>)
    requires ok_meta(mt), ok_blocks(bs), src == bdoc(mt, bs, bs.len() as int), lexed(toks, src),
    ensures g_stream(toks, src) == (meta_ev(mt) + seq![a_open(Node::Document, none())] + doc_ev(mt, bs, bs.len() as int)).push(a_close(Node::Document, none())),
{
    hide(bev);
    hide(bpiece);
    hide(ok_block);
    hide(be);
    hide(mpiece);
    hide(mby);
    hide(ok_meta);
    let c = top_cx(toks, src);
    let n = bs.len() as int;
    assert(toks.take(0) =~= Seq::empty());
    assert(with_toks(c, toks) == c);
    if n > 0 { lemma_seg(mt, bs, 1, src); }
    match mt {
        None => {
            reveal(mby);
            let o = g_doc_rest(c, 0).o;
            if n == 0 {
                lemma_all_toks(toks, src, 0);
                assert(o =~= doc_ev(mt, bs, 0).push(a_close(Node::Document, none())));
            } else {
                lemma_doc_read(mt, bs, toks, src, 1, 0);
                assert(doc_ev(mt, bs, 0) + sep_ev(1) + o =~= o);
            }
            assert(g_stream(toks, src) =~= seq![a_open(Node::Document, none())] + o);
        }
        Some(t) => {
            let w = lemma_bdoc_front(mt, bs, n);
            lemma_mpiece(t, w);
            let m = lemma_meta_read(toks, src, t);
            let (gm, gt) = (g_doc_rest(c, m), g_doc_rest(c, m + 1));
            lemma_one_txt(c, m);
            assert(!stop_at(c, m));
            assert(g_block(c, m) == (Gd { t: toks, n: m + 1, o: after_meta(mt) }));
            assert(gm == after_d(after_meta(mt), gt));
            if n == 0 {
                lemma_all_toks(toks, src, m + 1);
                assert(gt == (Gd { t: toks, n: m + 1, o: seq![a_close(Node::Document, none())] }));
                assert(gm.o =~= doc_ev(mt, bs, 0).push(a_close(Node::Document, none())));
            } else {
                lemma_doc_read(mt, bs, toks, src, 1, m + 1);
                assert(doc_ev(mt, bs, 0) + sep_ev(1) + gt.o =~= after_meta(mt) + gt.o);
                assert(gm.o == after_meta(mt) + gt.o);
            }
            assert(gm.o == doc_ev(mt, bs, n).push(a_close(Node::Document, none())));
            assert(g_stream(toks, src) =~= meta_ev(mt) + (seq![a_open(Node::Document, none())] + gm.o));
        }
    }
    assert(g_stream(toks, src) =~= (meta_ev(mt) + seq![a_open(Node::Document, none())] + doc_ev(mt, bs, n)).push(a_close(Node::Document, none())));
}

// ---- the tree of these events ----
pub open spec fn a_step(k: Option<Seq<GF>>, x: AOp) -> Option<Seq<GF>> {
    match k {
        None => None,
        Some(k) => match x.k {
            OpKind::Start(n) => Some(k.push(GF { n: Some(n), open: x.x, items: Seq::empty() })),
            OpKind::Value => if k.len() == 0 { None } else { Some(g_add(k, Item::Text(x.x))) },
            OpKind::End(n) => if k.len() >= 2 && k.last().n == Some(n) {
                Some(g_add(k.drop_last(), Item::Nd(GT { n, open: k.last().open, items: k.last().items })))
            } else { None },
        },
    }
}
pub open spec fn a_run(a: Seq<AOp>) -> Option<Seq<GF>>
    decreases a.len(),
{ if a.len() == 0 { Some(g_root()) } else { a_step(a_run(a.drop_last()), a.last()) } }
proof fn lemma_a_run(ops: Seq<Op>, src: Seq<u8>)
    ensures g_run(ops, src) == a_run(abs(ops, src)),
    decreases ops.len(),
{
    reveal(abs);
    if ops.len() > 0 {
        lemma_a_run(ops.drop_last(), src);
        assert(abs(ops, src).drop_last() =~= abs(ops.drop_last(), src));
        assert(abs(ops, src).last() == ab(ops.last(), src));
    }
}
proof fn lemma_a_push(a: Seq<AOp>, x: AOp)
    ensures a_run(a.push(x)) == a_step(a_run(a), x),
{ assert(a.push(x).drop_last() =~= a); }
proof fn lemma_a_cat3(a: Seq<AOp>, x: AOp, y: AOp, z: AOp)
    ensures a_run(a + seq![x, y, z]) == a_step(a_step(a_step(a_run(a), x), y), z),
{
    lemma_a_push(a, x);
    lemma_a_push(a.push(x), y);
    lemma_a_push(a.push(x).push(y), z);
    assert(a.push(x).push(y).push(z) =~= a + seq![x, y, z]);
}
proof fn lemma_a_cat1(a: Seq<AOp>, x: AOp)
    ensures a_run(a + seq![x]) == a_step(a_run(a), x),
{ lemma_a_push(a, x); assert(a.push(x) =~= a + seq![x]); }
/// a node around a text
pub open spec fn leaf_gt(n: Node, x: Seq<u8>, u: Seq<u8>) -> GT { GT { n, open: x, items: seq![Item::Text(u)] } }
proof fn lemma_leaf_run(a: Seq<AOp>, k: Seq<GF>, n: Node, x: Seq<u8>, u: Seq<u8>, y: Seq<u8>)
    requires a_run(a) == Some(k), k.len() > 0,
    ensures a_run(a + seq![a_open(n, x), a_val(u), a_close(n, y)]) == Some(g_add(k, Item::Nd(leaf_gt(n, x, u)))),
{
    lemma_a_cat3(a, a_open(n, x), a_val(u), a_close(n, y));
    let k1 = k.push(GF { n: Some(n), open: x, items: Seq::empty() });
    let k2 = k.push(GF { n: Some(n), open: x, items: seq![Item::Text(u)] });
    assert(k1.drop_last() =~= k);
    assert(k2.drop_last() =~= k);
    assert(Seq::<Item>::empty().push(Item::Text(u)) =~= seq![Item::Text(u)]);
    assert(g_add(k1, Item::Text(u)) =~= k2);
}
/// what a node becomes
pub open spec fn item(x: Pn) -> Item { match x { Pn::T(t) => Item::Text(sb(t)), Pn::L(n, t) => Item::Nd(leaf_gt(n, dby(n), sb(t))), Pn::A(t, u) => Item::Nd(GT { n: Node::Anchor, open: none(), items: link_items(t, u) }) } }
pub open spec fn link_items(t: Seq<char>, u: Seq<char>) -> Seq<Item> { seq![Item::Nd(leaf_gt(Node::Title, seq![0x5bu8], sb(t))), Item::Nd(leaf_gt(Node::Destination, seq![0x28u8], sb(u)))] }
/// a node around a title and a destination
proof fn lemma_link_run(a: Seq<AOp>, k: Seq<GF>, n: Node, x: Seq<u8>, t: Seq<char>, u: Seq<char>, y: Seq<u8>)
    requires a_run(a) == Some(k), k.len() > 0,
    ensures a_run(a + (seq![a_open(n, x)] + lev(t, u)).push(a_close(n, y))) == Some(g_add(k, Item::Nd(GT { n, open: x, items: link_items(t, u) }))),
{
    let (o, z) = (a_open(n, x), a_close(n, y));
    let a1 = a + seq![o];
    lemma_a_cat1(a, o);
    let k1 = k.push(GF { n: Some(n), open: x, items: Seq::empty() });
    let i1 = Item::Nd(leaf_gt(Node::Title, seq![0x5bu8], sb(t)));
    let i2 = Item::Nd(leaf_gt(Node::Destination, seq![0x28u8], sb(u)));
    let k2 = k.push(GF { n: Some(n), open: x, items: seq![i1] });
    let k3 = k.push(GF { n: Some(n), open: x, items: link_items(t, u) });
    assert(k1.drop_last() =~= k);
    assert(k2.drop_last() =~= k);
    assert(k3.drop_last() =~= k);
    lemma_leaf_run(a1, k1, Node::Title, seq![0x5bu8], sb(t), seq![0x5du8]);
    assert(Seq::<Item>::empty().push(i1) =~= seq![i1]);
    assert(g_add(k1, i1) =~= k2);
    lemma_leaf_run(a1 + tev(t), k2, Node::Destination, seq![0x28u8], sb(u), seq![0x29u8]);
    assert(seq![i1].push(i2) =~= link_items(t, u));
    assert(g_add(k2, i2) =~= k3);
    lemma_a_cat1(a1 + tev(t) + uev(u), z);
    assert(a1 + tev(t) + uev(u) + seq![z] =~= a + (seq![o] + lev(t, u)).push(z));
}
pub open spec fn items(ns: Seq<Pn>, n: int) -> Seq<Item>
    decreases n,
{ if n <= 0 { Seq::empty() } else { items(ns, n - 1).push(item(ns[n - 1])) } }
pub open spec fn evs_to(ns: Seq<Pn>, n: int) -> Seq<AOp>
    decreases n,
{ if n <= 0 { Seq::empty() } else { evs_to(ns, n - 1) + ev(ns[n - 1]) } }
proof fn lemma_evs(ns: Seq<Pn>, n: int)
    requires 0 <= n <= ns.len(),
    ensures evs_to(ns, n) + evs(ns, n) == evs(ns, 0),
    decreases n,
{
    if n > 0 { lemma_evs(ns, n - 1); lemma_cat_assoc(evs_to(ns, n - 1), ev(ns[n - 1]), evs(ns, n)); }
    else { assert(evs_to(ns, 0) + evs(ns, 0) =~= evs(ns, 0)); }
}
pub open spec fn in_para(k: Seq<GF>, it: Seq<Item>) -> Seq<GF> { k.push(GF { n: Some(Node::Paragraph), open: none(), items: it }) }
proof fn lemma_nodes_run(a: Seq<AOp>, k: Seq<GF>, ns: Seq<Pn>, n: int)
    requires a_run(a) == Some(in_para(k, Seq::empty())), 0 <= n <= ns.len(),
    ensures a_run(a + evs_to(ns, n)) == Some(in_para(k, items(ns, n))),
    decreases n,
{
    if n == 0 { assert(a + evs_to(ns, 0) =~= a); }
    else {
        lemma_nodes_run(a, k, ns, n - 1);
        let a1 = a + evs_to(ns, n - 1);
        let k1 = in_para(k, items(ns, n - 1));
        assert(k1.drop_last() =~= k);
        assert(g_add(k1, item(ns[n - 1])) =~= in_para(k, items(ns, n)));
        lemma_cat_assoc(a, evs_to(ns, n - 1), ev(ns[n - 1]));
        match ns[n - 1] {
            Pn::T(t) => { lemma_a_cat1(a1, a_val(sb(t))); }
            Pn::L(m, t) => { lemma_leaf_run(a1, k1, m, dby(m), sb(t), dby(m)); }
            Pn::A(t, u) => { lemma_link_run(a1, k1, Node::Anchor, none(), t, u, none()); }
        }
    }
}
pub open spec fn embed_items(t: Seq<char>, u: Seq<char>) -> Seq<Item> { seq![Item::Text(sb(t)), Item::Text(seq![0x7cu8]), Item::Text(sb(u))] }
pub open spec fn mod_items(l: Seq<char>) -> Seq<Item> { if l.len() == 0 { Seq::empty() } else { seq![Item::Nd(leaf_gt(Node::Modifier, none(), sb(l)))] } }
pub open spec fn code_items(l: Seq<char>, t: Seq<char>) -> Seq<Item> { mod_items(l).push(Item::Text(sb(t).push(10))) }
proof fn lemma_embed_run(a: Seq<AOp>, k: Seq<GF>, t: Seq<char>, u: Seq<char>)
    requires a_run(a) == Some(k), k.len() > 0,
    ensures a_run(a + bev(Bn::E(t, u))) == Some(g_add(k, Item::Nd(bgt(Bn::E(t, u))))),
{
    let (n, x, y) = (Node::Embed, seq![0x7bu8, 0x7b], seq![0x7du8, 0x7d]);
    let (v1, v2, v3) = (sb(t), seq![0x7cu8], sb(u));
    let a1 = a + seq![a_open(n, x), a_val(v1), a_val(v2)];
    lemma_a_cat3(a, a_open(n, x), a_val(v1), a_val(v2));
    let f = |i: Seq<Item>| k.push(GF { n: Some(n), open: x, items: i });
    let (i1, i2, i3) = (seq![Item::Text(v1)], seq![Item::Text(v1), Item::Text(v2)], embed_items(t, u));
    let e = Seq::<Item>::empty();
    assert(f(e).drop_last() =~= k && f(i1).drop_last() =~= k && f(i2).drop_last() =~= k && f(i3).drop_last() =~= k);
    assert(e.push(Item::Text(v1)) =~= i1);
    assert(i1.push(Item::Text(v2)) =~= i2);
    assert(i2.push(Item::Text(v3)) =~= i3);
    assert(g_add(f(e), Item::Text(v1)) =~= f(i1));
    assert(g_add(f(i1), Item::Text(v2)) =~= f(i2));
    assert(g_add(f(i2), Item::Text(v3)) =~= f(i3));
    assert(a_run(a1) == Some(f(i2)));
    lemma_a_push(a1, a_val(v3));
    lemma_a_push(a1.push(a_val(v3)), a_close(n, y));
    assert(a1.push(a_val(v3)).push(a_close(n, y)) =~= a + bev(Bn::E(t, u)));
}
proof fn lemma_code_run(a: Seq<AOp>, k: Seq<GF>, l: Seq<char>, t: Seq<char>)
    requires a_run(a) == Some(k), k.len() > 0,
    ensures a_run(a + bev(Bn::C(l, t))) == Some(g_add(k, Item::Nd(bgt(Bn::C(l, t))))),
{
    let (n, x, y, v) = (Node::Code, cstart(l), fence(), sb(t).push(10));
    let a1 = a + seq![a_open(n, x)];
    lemma_a_cat1(a, a_open(n, x));
    let f = |i: Seq<Item>| k.push(GF { n: Some(n), open: x, items: i });
    let e = Seq::<Item>::empty();
    let (i1, i2) = (mod_items(l), code_items(l, t));
    assert(f(e).drop_last() =~= k && f(i1).drop_last() =~= k && f(i2).drop_last() =~= k);
    let a2 = a1 + mev(l);
    if l.len() == 0 { assert(a2 =~= a1); }
    else {
        lemma_leaf_run(a1, f(e), Node::Modifier, none(), sb(l), seq![10u8]);
        assert(e.push(Item::Nd(leaf_gt(Node::Modifier, none(), sb(l)))) =~= i1);
        assert(g_add(f(e), Item::Nd(leaf_gt(Node::Modifier, none(), sb(l)))) =~= f(i1));
    }
    assert(a_run(a2) == Some(f(i1)));
    assert(g_add(f(i1), Item::Text(v)) =~= f(i2));
    lemma_a_push(a2, a_val(v));
    lemma_a_push(a2.push(a_val(v)), a_close(n, y));
    assert(a2.push(a_val(v)).push(a_close(n, y)) =~= a + bev(Bn::C(l, t)));
}
/// what a block becomes
pub open spec fn bgt(b: Bn) -> GT {
    match b {
        Bn::P(ns) => GT { n: Node::Paragraph, open: none(), items: items(ns, ns.len() as int) },
        Bn::B => leaf_gt(Node::ThematicBreak, none(), dashes()),
        Bn::H(l, t) => leaf_gt(Node::Heading, hs(l) + seq![0x20u8], sb(t)),
        Bn::I(t, u) => GT { n: Node::Image, open: seq![0x21u8], items: link_items(t, u) },
        Bn::E(t, u) => GT { n: Node::Embed, open: seq![0x7bu8, 0x7b], items: embed_items(t, u) },
        Bn::C(l, t) => GT { n: Node::Code, open: cstart(l), items: code_items(l, t) },
    }
}
proof fn lemma_block_run(a: Seq<AOp>, k: Seq<GF>, b: Bn)
    requires a_run(a) == Some(k), k.len() > 0,
    ensures a_run(a + bev(b)) == Some(g_add(k, Item::Nd(bgt(b)))),
{
    match b {
        Bn::P(ns) => {
            let n = ns.len() as int;
            let o = a_open(Node::Paragraph, none());
            let z = a_close(Node::Paragraph, none());
            lemma_a_cat1(a, o);
            let a1 = a + seq![o];
            lemma_nodes_run(a1, k, ns, n);
            lemma_evs(ns, n);
            assert(evs(ns, n) == seq![z]);
            lemma_a_cat1(a1 + evs_to(ns, n), z);
            let k2 = in_para(k, items(ns, n));
            assert(k2.drop_last() =~= k);
            assert(a1 + evs_to(ns, n) + seq![z] =~= a + (seq![o] + (evs_to(ns, n) + seq![z])));
        }
        Bn::B => { lemma_leaf_run(a, k, Node::ThematicBreak, none(), dashes(), none()); }
        Bn::H(l, t) => { lemma_leaf_run(a, k, Node::Heading, hs(l) + seq![0x20u8], sb(t), none()); }
        Bn::I(t, u) => { lemma_link_run(a, k, Node::Image, seq![0x21u8], t, u, none()); }
        Bn::E(t, u) => { lemma_embed_run(a, k, t, u); }
        Bn::C(l, t) => { lemma_code_run(a, k, l, t); }
    }
}
pub open spec fn sep_items(n: int) -> Seq<Item> { if n <= 1 { Seq::empty() } else { seq![Item::Text(nn())] } }
pub open spec fn meta_sep(mt: Mt) -> Seq<Item> { match mt { None => Seq::empty(), Some(t) => seq![Item::Text(nn())] } }
/// what comes before the document
pub open spec fn meta_items(mt: Mt) -> Seq<Item> { match mt { None => Seq::empty(), Some(t) => seq![Item::Nd(leaf_gt(Node::Metadata, dash3(), meta_text(t)))] } }
pub open spec fn m_root(mt: Mt) -> Seq<GF> { seq![GF { n: None, open: Seq::empty(), items: meta_items(mt) }] }
pub open spec fn doc_items(mt: Mt, bs: Seq<Bn>, n: int) -> Seq<Item>
    decreases n,
{ if n <= 0 { meta_sep(mt) } else { (doc_items(mt, bs, n - 1) + sep_items(n)).push(Item::Nd(bgt(bs[n - 1]))) } }
pub open spec fn in_doc(mt: Mt, it: Seq<Item>) -> Seq<GF> { m_root(mt).push(GF { n: Some(Node::Document), open: none(), items: it }) }
proof fn lemma_meta_run(mt: Mt)
    ensures a_run(meta_ev(mt) + seq![a_open(Node::Document, none())] + after_meta(mt)) == Some(in_doc(mt, meta_sep(mt))),
{
    let z = Seq::<AOp>::empty();
    let o = a_open(Node::Document, none());
    assert(a_run(z) == Some(g_root()));
    match mt {
        None => { assert(z + meta_ev(mt) =~= z); assert(m_root(mt) =~= g_root()); }
        Some(t) => {
            lemma_leaf_run(z, g_root(), Node::Metadata, dash3(), meta_text(t), dash3());
            assert(g_add(g_root(), Item::Nd(leaf_gt(Node::Metadata, dash3(), meta_text(t)))) =~= m_root(mt)) by {
                assert(Seq::<Item>::empty().push(Item::Nd(leaf_gt(Node::Metadata, dash3(), meta_text(t)))) =~= meta_items(mt));
            }
        }
    }
    let a = z + meta_ev(mt);
    assert(a =~= meta_ev(mt));
    assert(a_run(a) == Some(m_root(mt)));
    lemma_a_cat1(a, o);
    let k = in_doc(mt, Seq::empty());
    assert(a_run(a + seq![o]) == Some(k));
    match mt {
        None => { assert(a + seq![o] + after_meta(mt) =~= a + seq![o]); }
        Some(t) => { lemma_a_cat1(a + seq![o], a_val(nn())); assert(k.drop_last() =~= m_root(mt)); assert(Seq::<Item>::empty().push(Item::Text(nn())) =~= meta_sep(mt)); assert(g_add(k, Item::Text(nn())) =~= in_doc(mt, meta_sep(mt))); }
    }
}
#[verifier::rlimit(60)]
proof fn lemma_doc_run(mt: Mt, bs: Seq<Bn>, n: int)
    requires 0 <= n <= bs.len(),
    ensures a_run(meta_ev(mt) + seq![a_open(Node::Document, none())] + doc_ev(mt, bs, n)) == Some(in_doc(mt, doc_items(mt, bs, n))),
    decreases n,
{
    hide(bev); hide(bgt); hide(a_run); hide(meta_ev); hide(meta_items); hide(m_root); hide(sb);
    let o = meta_ev(mt) + seq![a_open(Node::Document, none())];
    if n == 0 { lemma_meta_run(mt);
    } else {
        lemma_doc_run(mt, bs, n - 1);
        let a0 = o + doc_ev(mt, bs, n - 1);
        let i0 = doc_items(mt, bs, n - 1);
        let a1 = a0 + sep_ev(n);
        let i1 = i0 + sep_items(n);
        let k0 = in_doc(mt, i0);
        if n > 1 {
            lemma_a_cat1(a0, a_val(nn()));
            assert(i1 =~= i0.push(Item::Text(nn())));
            assert(g_add(k0, Item::Text(nn())) =~= in_doc(mt, i1)) by { assert(k0.drop_last() =~= m_root(mt)); }
        } else { assert(i1 =~= i0); assert(a1 =~= a0); }
        assert(a_run(a1) == Some(in_doc(mt, i1)));
        let k1 = in_doc(mt, i1);
        lemma_block_run(a1, k1, bs[n - 1]);
        assert(k1.drop_last() =~= m_root(mt));
        assert(g_add(k1, Item::Nd(bgt(bs[n - 1]))) =~= in_doc(mt, doc_items(mt, bs, n)));
        assert(a1 + bev(bs[n - 1]) =~= o + doc_ev(mt, bs, n));
    }
}
proof fn lemma_top(mt: Mt, bs: Seq<Bn>, ops: Seq<Op>, src: Seq<u8>)
    requires abs(ops, src) == (meta_ev(mt) + seq![a_open(Node::Document, none())] + doc_ev(mt, bs, bs.len() as int)).push(a_close(Node::Document, none())),
    ensures top_items(ops, src) == meta_items(mt).push(Item::Nd(GT { n: Node::Document, open: none(), items: doc_items(mt, bs, bs.len() as int) })),
{
    let n = bs.len() as int;
    lemma_a_run(ops, src);
    lemma_doc_run(mt, bs, n);
    lemma_a_push(meta_ev(mt) + seq![a_open(Node::Document, none())] + doc_ev(mt, bs, n), a_close(Node::Document, none()));
    let k = in_doc(mt, doc_items(mt, bs, n));
    assert(k.drop_last() =~= m_root(mt));
    let g = GT { n: Node::Document, open: none(), items: doc_items(mt, bs, n) };
    assert(g_run(ops, src) == Some(g_add(m_root(mt), Item::Nd(g))));
    assert(top_items(ops, src) =~= meta_items(mt).push(Item::Nd(g)));
}
proof fn lemma_same_text(a: Seq<char>, b: Seq<char>)
    requires sb(a) == sb(b),
    ensures a == b,
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
// ---- what is built ----
/// a node as a value
pub open spec fn pvx(x: Pn) -> PV {
    match x {
        Pn::T(t) => PV::Text(sb(t)),
        Pn::L(Node::Italic, t) => PV::Italic(sb(t)),
        Pn::L(Node::Strikethrough, t) => PV::Strikethrough(sb(t)),
        Pn::L(Node::CodeSpan, t) => PV::CodeSpan(sb(t)),
        Pn::L(Node::Bold, t) => PV::Bold(seq![BV::Text(sb(t))]),
        Pn::L(n, t) => PV::Emphasis(sb(t)),
        Pn::A(t, u) => PV::Anchor(sb(t), sb(u)),
    }
}
proof fn lemma_link_items(t: Seq<char>, u: Seq<char>)
    ensures last_child(link_items(t, u), Node::Title) == Some(sb(t)), last_child(link_items(t, u), Node::Destination) == Some(sb(u)),
{
    let i = link_items(t, u);
    reveal_with_fuel(texts, 2);
    reveal_with_fuel(last_child, 3);
    let (x, y) = (seq![Item::Text(sb(t))], seq![Item::Text(sb(u))]);
    assert(x.drop_last() =~= Seq::<Item>::empty());
    assert(y.drop_last() =~= Seq::<Item>::empty());
    assert(texts(x) =~= sb(t));
    assert(texts(y) =~= sb(u));
    assert(i.drop_last() =~= seq![i[0]]);
}
proof fn lemma_para_items(ns: Seq<Pn>, n: int)
    requires ok_nodes(ns), 0 <= n <= ns.len(),
    ensures para_items(items(ns, n)).len() == n, forall|j: int| 0 <= j < n ==> para_items(items(ns, n))[j] == pvx(#[trigger] ns[j]),
    decreases n,
{
    if n > 0 {
        lemma_para_items(ns, n - 1);
        let x = ns[n - 1];
        assert(ok_node(x));
        assert(items(ns, n).drop_last() =~= items(ns, n - 1));
        match x {
            Pn::T(t) => {}
            Pn::L(m, t) => {
                let its = seq![Item::Text(sb(t))];
                reveal_with_fuel(texts, 2);
                reveal_with_fuel(bold_items, 2);
                assert(its.drop_last() =~= Seq::<Item>::empty());
                assert(texts(its) =~= sb(t));
                assert(bold_items(its) =~= seq![BV::Text(sb(t))]);
            }
            Pn::A(t, u) => { lemma_link_items(t, u); }
        }
        assert(para_items(items(ns, n)) =~= para_items(items(ns, n - 1)).push(pvx(x)));
    }
}
/// y is what this block is about
pub open spec fn block_is(y: YamdNodes, b: Bn) -> bool {
    match b {
        Bn::P(ns) => y matches YamdNodes::Paragraph(p) && p.body@.len() == ns.len() && forall|j: int| 0 <= j < ns.len() ==> node_is(#[trigger] p.body@[j], ns[j]),
        Bn::B => y is ThematicBreak,
        Bn::H(l, t) => y matches YamdNodes::Heading(h) && h.level == l && h.body@.len() == 1 && (h.body@[0] matches HeadingNodes::Text(s) && s@ == t),
        Bn::I(t, u) => y matches YamdNodes::Image(i) && i.alt@ == t && i.src@ == u,
        Bn::E(t, u) => y matches YamdNodes::Embed(e) && e.kind@ == t && e.args@ == u,
        Bn::C(l, t) => y matches YamdNodes::Code(c) && c.lang@ == l && c.code@ == t,
    }
}
proof fn lemma_node_built(v: ParagraphNodes, x: Pn)
    requires ok_node(x), pv(v) == pvx(x),
    ensures node_is(v, x),
{
    match v {
        ParagraphNodes::Text(s) => { lemma_same_text(s@, x->T_0); }
        ParagraphNodes::Italic(s) => { lemma_same_text(s.0@, x->L_1); }
        ParagraphNodes::Strikethrough(s) => { lemma_same_text(s.0@, x->L_1); }
        ParagraphNodes::CodeSpan(s) => { lemma_same_text(s.0@, x->L_1); }
        ParagraphNodes::Emphasis(s) => { lemma_same_text(s.0@, x->L_1); }
        ParagraphNodes::Bold(b) => {
            let w = bvs(b.body@);
            assert(w.len() == b.body@.len());
            assert(w[0] == bv(b.body@[0]));
            lemma_same_text(b.body@[0]->Text_0@, x->L_1);
        }
        ParagraphNodes::Anchor(a) => { lemma_same_text(a.text@, x->A_0); lemma_same_text(a.url@, x->A_1); }
    }
}
proof fn lemma_code_built(y: YamdNodes, l: Seq<char>, t: Seq<char>)
    requires ok_code(l, t), is_block(y, bgt(Bn::C(l, t)), 0),
    ensures block_is(y, Bn::C(l, t)),
{
    let c = y->Code_0;
    let i = code_items(l, t);
    let b = sb(t).push(10);
    reveal_with_fuel(texts, 3);
    reveal_with_fuel(last_child, 3);
    assert(i.drop_last() =~= mod_items(l));
    assert(texts(mod_items(l)) =~= none()) by { if l.len() > 0 { assert(mod_items(l).drop_last() =~= Seq::<Item>::empty()); } }
    assert(texts(i) =~= b);
    if l.len() > 0 {
        let x = seq![Item::Text(sb(l))];
        assert(x.drop_last() =~= Seq::<Item>::empty());
        assert(texts(x) =~= sb(l));
        assert(last_child(i, Node::Modifier) == Some(sb(l)));
    } else { assert(last_child(i, Node::Modifier) is None); assert(sb(l) =~= none()); }
    lemma_px_calm(cc(), t);
    lemma_last_byte(t);
    assert(b.drop_last() =~= sb(t));
    reveal_with_fuel(trim_end_b, 3);
    lemma_same_text(c.lang@, l);
    lemma_same_text(c.code@, t);
}
proof fn lemma_last_byte(t: Seq<char>)
    requires t.len() > 0, t.last() != '\n',
    ensures sb(t).len() > 0, sb(t).last() != 10,
{
    let d = t.drop_last();
    let l = seq![t.last()];
    assert(t =~= d + l);
    encode_utf8_concat(d, l);
    lemma_head(l);
    assert(l.drop_first() =~= Seq::<char>::empty());
    assert(sb(l) =~= byte_of(t.last()));
    if (t.last() as u32) >= 128 { assert(byte_of(t.last())[byte_of(t.last()).len() - 1] >= 128); }
    assert(sb(t).last() == byte_of(t.last()).last());
}
proof fn lemma_block_built(y: YamdNodes, b: Bn)
    requires ok_block(b), is_block(y, bgt(b), 0),
    ensures block_is(y, b),
{
    match b {
        Bn::P(ns) => {
            lemma_para_items(ns, ns.len() as int);
            let p = y->Paragraph_0;
            let w = pvs(p.body@);
            assert(w.len() == p.body@.len());
            assert forall|j: int| 0 <= j < ns.len() implies node_is(#[trigger] p.body@[j], ns[j]) by {
                assert(w[j] == pv(p.body@[j]));
                assert(ok_node(ns[j]));
                lemma_node_built(p.body@[j], ns[j]);
            }
        }
        Bn::B => {}
        Bn::H(l, t) => {
            let h = y->Heading_0;
            let its = seq![Item::Text(sb(t))];
            reveal_with_fuel(heading_items, 2);
            assert(its.drop_last() =~= Seq::<Item>::empty());
            assert(heading_items(its) =~= seq![HV::Text(sb(t))]);
            lemma_hlead(l);
            let w = hvs(h.body@);
            assert(w.len() == h.body@.len());
            assert(w[0] == hv(h.body@[0]));
            lemma_same_text(h.body@[0]->Text_0@, t);
        }
        Bn::I(t, u) => {
            let i = y->Image_0;
            lemma_link_items(t, u);
            assert(iv(i) == image_of(link_items(t, u)));
            lemma_same_text(i.alt@, t);
            lemma_same_text(i.src@, u);
        }
        Bn::E(t, u) => {
            let e = y->Embed_0;
            let i = embed_items(t, u);
            reveal_with_fuel(text_seq, 4);
            assert(i.drop_last() =~= seq![i[0], i[1]]);
            assert(i.drop_last().drop_last() =~= seq![i[0]]);
            assert(i.drop_last().drop_last().drop_last() =~= Seq::<Item>::empty());
            assert(text_seq(i) =~= seq![sb(t), seq![0x7cu8], sb(u)]);
            lemma_same_text(e.kind@, t);
            lemma_same_text(e.args@, u);
        }
        Bn::C(l, t) => { lemma_code_built(y, l, t); }
    }
}
proof fn lemma_no_blocks(mt: Mt, v: Seq<YamdNodes>)
    requires is_blocks(v, meta_sep(mt), 0),
    ensures v.len() == 0,
{ if mt is Some { assert(meta_sep(mt).drop_last() =~= Seq::<Item>::empty()); assert(is_blocks(v, Seq::empty(), 0)); } }
proof fn lemma_blocks(mt: Mt, v: Seq<YamdNodes>, bs: Seq<Bn>, n: int)
    requires ok_blocks(bs), 0 <= n <= bs.len(), is_blocks(v, doc_items(mt, bs, n), 0),
    ensures v.len() == n, forall|j: int| 0 <= j < n ==> block_is(#[trigger] v[j], bs[j]),
    decreases n,
{
    if n == 0 { lemma_no_blocks(mt, v); }
    if n > 0 {
        let it = doc_items(mt, bs, n);
        assert(it.drop_last() =~= doc_items(mt, bs, n - 1) + sep_items(n));
        let w = v.drop_last();
        let b = bs[n - 1];
        assert(ok_block(b));
        assert(is_block(v.last(), bgt(b), 0));
        let j1 = it.drop_last();
        assert(is_blocks(w, j1, 0));
        if n > 1 {
            assert(j1.drop_last() =~= doc_items(mt, bs, n - 1));
            assert(j1.last() == Item::Text(nn()));
            assert(is_blocks(w, j1.drop_last(), 0));
        } else { assert(j1 =~= doc_items(mt, bs, n - 1)); }
        lemma_blocks(mt, w, bs, n - 1);
        lemma_block_built(v.last(), b);
        assert forall|j: int| 0 <= j < n implies block_is(#[trigger] v[j], bs[j]) by {
            if j < n - 1 { assert(v[j] == w[j]); } else { assert(v[j] == v.last()); }
        }
    }
}

// ---- the theorem ----
/// a document of these blocks
pub open spec fn doc_is(y: Yamd, mt: Mt, bs: Seq<Bn>) -> bool {
    (match mt { None => y.metadata is None, Some(t) => y.metadata matches Some(m) && m@ == t }) && y.body@.len() == bs.len() && forall|j: int| 0 <= j < bs.len() ==> block_is(#[trigger] y.body@[j], bs[j])
}
proof fn lemma_para_shown(v: Seq<ParagraphNodes>, ns: Seq<Pn>, n: int)
    requires ok_nodes(ns), 0 <= n <= ns.len(), v.len() == ns.len(), forall|j: int| 0 <= j < ns.len() ==> node_is(#[trigger] v[j], ns[j]),
    ensures show_inlines(v, n) == pstr(ns, n),
    decreases n,
{
    if n > 0 {
        lemma_para_shown(v, ns, n - 1);
        assert(node_is(v[n - 1], ns[n - 1]) && ok_node(ns[n - 1]));
        lemma_node_shown(v[n - 1], ns[n - 1]);
    }
}
proof fn lemma_hashes(n: int, x: Seq<char>)
    requires 0 <= n,
    ensures sb(rep(seq!['#'], n) + x) == hs(n) + sb(x),
    decreases n,
{
    if n > 0 {
        let y = seq!['#'] + x;
        assert(rep(seq!['#'], n) + x =~= rep(seq!['#'], n - 1) + y);
        lemma_one('#', x);
        lemma_hashes(n - 1, y);
        assert(hs(n - 1) + (seq![0x23u8] + sb(x)) =~= hs(n) + sb(x));
    } else { assert(rep(seq!['#'], 0) + x =~= x); assert(hs(0) + sb(x) =~= sb(x)); }
}
proof fn lemma_hlead(n: int)
    requires 0 <= n,
    ensures lead_b(hs(n) + seq![0x20u8], 35u8) == n,
    decreases n,
{
    let s = hs(n) + seq![0x20u8];
    if n > 0 { lemma_hlead(n - 1); assert(s.drop_first() =~= hs(n - 1) + seq![0x20u8]); assert(s[0] == 0x23); }
    else { assert(s[0] == 0x20); }
}
proof fn lemma_embed_shown(y: YamdNodes, t: Seq<char>, u: Seq<char>)
    requires block_is(y, Bn::E(t, u)),
    ensures sb(show_block(y)) == eby(t, u),
{
    lemma_esc(ek(), t);
    lemma_esc(ea(), u);
    let (x, y1, z) = (px(ek(), t), px(ea(), u), Seq::<char>::empty());
    assert(sb(z) =~= Seq::<u8>::empty());
    lemma_two('}', '}', z);
    encode_utf8_concat(y1, seq!['}', '}'] + z);
    lemma_one('|', y1 + (seq!['}', '}'] + z));
    encode_utf8_concat(x, seq!['|'] + (y1 + (seq!['}', '}'] + z)));
    lemma_two('{', '{', x + (seq!['|'] + (y1 + (seq!['}', '}'] + z))));
    assert(show_block(y) =~= seq!['{', '{'] + (x + (seq!['|'] + (y1 + (seq!['}', '}'] + z)))));
    assert(sb(show_block(y)) =~= eby(t, u));
}
proof fn lemma_code_shown(y: YamdNodes, l: Seq<char>, t: Seq<char>)
    requires block_is(y, Bn::C(l, t)),
    ensures sb(show_block(y)) == cby(l, t),
{
    lemma_esc(cm(), l);
    lemma_ticks(t);
    let (x, y1, z) = (px(cm(), l), px(cc(), t), Seq::<char>::empty());
    assert(sb(z) =~= Seq::<u8>::empty());
    let w = seq!['\n', '`'] + (seq!['`', '`'] + z);
    lemma_two('`', '`', z);
    lemma_two('\n', '`', seq!['`', '`'] + z);
    encode_utf8_concat(y1, w);
    lemma_one('\n', y1 + w);
    encode_utf8_concat(x, seq!['\n'] + (y1 + w));
    lemma_one('`', x + (seq!['\n'] + (y1 + w)));
    lemma_two('`', '`', seq!['`'] + (x + (seq!['\n'] + (y1 + w))));
    assert(show_block(y) =~= seq!['`', '`'] + (seq!['`'] + (x + (seq!['\n'] + (y1 + w)))));
    assert(sb(show_block(y)) =~= cby(l, t));
}
/// how a block is printed
proof fn lemma_block_shown(y: YamdNodes, b: Bn)
    requires ok_block(b), block_is(y, b),
    ensures sb(match y { YamdNodes::Paragraph(p) => guarded(show_paragraph(p)), x => show_block(x) }) == be(b),
{
    match b {
        Bn::P(ns) => {
            let p = y->Paragraph_0;
            lemma_para_shown(p.body@, ns, ns.len() as int);
            lemma_pstr(ns, ns.len() as int);
            assert(show_paragraph(p) == pstr(ns, ns.len() as int));
        }
        Bn::B => {
            let z = Seq::<char>::empty();
            assert(sb(z) =~= Seq::<u8>::empty());
            lemma_one('-', z);
            lemma_two('-', '-', seq!['-'] + z);
            lemma_two('-', '-', seq!['-', '-'] + (seq!['-'] + z));
            assert(show_block(y) =~= seq!['-', '-'] + (seq!['-', '-'] + (seq!['-'] + z)));
            assert(sb(show_block(y)) =~= be(b));
        }
        Bn::H(l, t) => {
            let h = y->Heading_0;
            lemma_tn(Some(Node::Highlight), t);
            lemma_px(Node::Highlight, t);
            lemma_hash(t);
            let x = px(Some(Node::Heading), t);
            reveal_with_fuel(show_heading_nodes, 2);
            assert(show_heading_nodes(h.body@, 1) =~= x);
            lemma_hashes(l, seq![' '] + x);
            lemma_one(' ', x);
            assert(show_heading(h) =~= rep(seq!['#'], l) + (seq![' '] + x));
            assert(sb(show_block(y)) =~= be(b));
        }
        Bn::I(t, u) => {
            lemma_lc(Node::Image, t, u);
            lemma_lby(Node::Image, t, u);
            lemma_one('!', lc(Node::Image, t, u));
            assert(show_block(y) =~= seq!['!'] + lc(Node::Image, t, u));
        }
        Bn::E(t, u) => { lemma_embed_shown(y, t, u); }
        Bn::C(l, t) => { lemma_code_shown(y, l, t); }
    }
}
proof fn lemma_doc_shown(v: Seq<YamdNodes>, bs: Seq<Bn>, n: int)
    requires ok_blocks(bs), 0 <= n <= bs.len(), v.len() == bs.len(), forall|j: int| 0 <= j < bs.len() ==> block_is(#[trigger] v[j], bs[j]),
    ensures sb(show_blocks(v, n)) == bdoc(None, bs, n),
    decreases n,
{
    if n > 0 {
        lemma_doc_shown(v, bs, n - 1);
        let y = v[n - 1];
        assert(block_is(y, bs[n - 1]) && ok_block(bs[n - 1]));
        lemma_block_shown(y, bs[n - 1]);
        let d = if n <= 1 { Seq::<char>::empty() } else { two_nl() };
        let x = match y { YamdNodes::Paragraph(p) => guarded(show_paragraph(p)), x => show_block(x) };
        encode_utf8_concat(show_blocks(v, n - 1), d);
        encode_utf8_concat(show_blocks(v, n - 1) + d, x);
        if n > 1 { lemma_two('\n', '\n', Seq::empty()); assert(seq!['\n', '\n'] + Seq::<char>::empty() =~= two_nl()); assert(sb(Seq::<char>::empty()) =~= Seq::empty()); }
        assert(sb(d) =~= bsep(n));
    } else { assert(sb(show_blocks(v, n)) =~= Seq::empty()); }
}
proof fn lemma_meta_built(mt: Mt, d: GT)
    requires ok_meta(mt), d.n is Document,
    ensures root_meta(meta_items(mt).push(Item::Nd(d))) == (match mt { None => None, Some(t) => Some(sb(t)) }),
{
    let top = meta_items(mt).push(Item::Nd(d));
    assert(top.drop_last() =~= meta_items(mt));
    reveal_with_fuel(last_child, 3);
    reveal_with_fuel(texts, 3);
    match mt {
        None => {}
        Some(t) => {
            let (x, e) = (meta_text(t), sb(t));
            let i = seq![Item::Text(x)];
            assert(i.drop_last() =~= Seq::<Item>::empty());
            assert(texts(i) =~= x);
            reveal_with_fuel(trim_start_b, 3);
            reveal_with_fuel(trim_end_b, 3);
            let x1 = x.subrange(1, x.len() as int);
            assert(x1 =~= e + seq![10u8]);
            assert(x1[0] == e[0]);
            assert(x1.drop_last() =~= e);
        }
    }
}
proof fn lemma_meta_shown(y: Yamd, mt: Mt, bs: Seq<Bn>)
    requires doc_is(y, mt, bs), ok_meta(mt),
    ensures sb(show_yamd(y)) == mby(mt) + sb(show_blocks(y.body@, y.body@.len() as int)),
{
    let b = show_blocks(y.body@, y.body@.len() as int);
    match mt {
        None => { assert(show_yamd(y) =~= b); assert(mby(mt) + sb(b) =~= sb(b)); }
        Some(t) => {
            if t.last() == '\n' && t.len() > 0 {
                let l = seq!['\n'];
                assert(t =~= t.drop_last() + l);
                encode_utf8_concat(t.drop_last(), l);
                lemma_one('\n', Seq::empty());
                assert(l + Seq::<char>::empty() =~= l);
                assert(sb(t).last() == 10);
            }
            if t.len() == 0 { assert(sb(t).len() == 0); }
            let e5 = seq!['\n', '\n'] + b;
            let e4 = seq!['-', '-'] + (seq!['-'] + e5);
            let e3 = seq!['\n'] + e4;
            lemma_two('\n', '\n', b);
            lemma_one('-', e5);
            lemma_two('-', '-', seq!['-'] + e5);
            lemma_one('\n', e4);
            encode_utf8_concat(t, e3);
            let f = t + e3;
            lemma_two('-', '\n', f);
            lemma_two('-', '-', seq!['-', '\n'] + f);
            assert(show_yamd(y) =~= seq!['-', '-'] + (seq!['-', '\n'] + f));
            assert(sb(show_yamd(y)) =~= mby(mt) + sb(b));
        }
    }
}
proof fn lemma_body_built(mt: Mt, r: Yamd, bs: Seq<Bn>)
    requires ok_blocks(bs), is_yamd(r, meta_items(mt).push(Item::Nd(GT { n: Node::Document, open: none(), items: doc_items(mt, bs, bs.len() as int) }))), ok_meta(mt),
    ensures doc_is(r, mt, bs),
{
    hide(bev);
    hide(bgt);
    hide(be);
    hide(ok_block);
    hide(block_is);
    hide(is_block);
    hide(doc_items);
    let n = bs.len() as int;
    let d = GT { n: Node::Document, open: none(), items: doc_items(mt, bs, n) };
    let top = meta_items(mt).push(Item::Nd(d));
    assert(top.drop_last() =~= meta_items(mt));
    lemma_meta_built(mt, d);
    match mt { None => {} Some(t) => { lemma_same_text(r.metadata->Some_0@, t); assert(meta_items(mt).drop_last() =~= Seq::<Item>::empty()); } }
    let v = r.body@;
    reveal_with_fuel(is_root_body, 3);
    let k = choose|k: int| 0 <= k <= v.len() && is_root_body(#[trigger] v.subrange(0, k), top.drop_last()) && is_blocks(v.subrange(k, v.len() as int), d.items, 0);
    assert(v.subrange(0, k).len() == 0);
    assert(v.subrange(k, v.len() as int) =~= v);
    lemma_blocks(mt, v, bs, n);
}
/// Documents of these blocks survive being printed and read.
pub proof fn round_trip(y: Yamd, mt: Mt, bs: Seq<Bn>, s: &str, r: Yamd)
    requires
        doc_is(y, mt, bs), ok_meta(mt), ok_blocks(bs),
        // s is what y is printed as (contract of Yamd::fmt), r what s is read as
        s@ == show_yamd(y), src_small(sb(s@)), call_ensures(crate::deserialize, (s,), r),
    ensures doc_is(r, mt, bs),
{
    hide(bev);
    hide(bgt);
    hide(be);
    hide(ok_block);
    hide(block_is);
    hide(g_stream);
    let src = sb(s@);
    let n = bs.len() as int;
    lemma_doc_shown(y.body@, bs, n);
    lemma_meta_shown(y, mt, bs);
    let w = lemma_bdoc_front(mt, bs, n);
    assert(src == bdoc(mt, bs, n));
    let ops = choose|ops: Vec<crate::op::Op>| call_ensures(crate::op::parse, (s,), ops) && is_yamd(r, #[trigger] top_items(ops@, src));
    let toks = choose|t: Seq<Token>| #[trigger] lexed(t, src) && abs(ops@, src) == g_stream(t, src);
    lemma_stream_read(mt, bs, toks, src);
    lemma_top(mt, bs, ops@, src);
    lemma_body_built(mt, r, bs);
}
//@end
