//@ [C07]
// ---- recognition: which events a token sequence is read as ----
/// tokens, their source, and the stop conditions in force
pub struct Cx { pub t: Seq<Token>, pub s: Seq<u8>, pub e: Seq<StopCondition> }
pub open spec fn cx(p: Parser) -> Cx { Cx { t: p.tokens@, s: src_of(p), e: p.eof_stack@ } }

/// an event: its kind and its text
pub struct AOp { pub k: OpKind, pub x: Seq<u8> }
pub open spec fn ab(o: Op, s: Seq<u8>) -> AOp { AOp { k: o.kind, x: content_text(o.content, s) } }
#[verifier::opaque]
pub open spec fn abs(o: Seq<Op>, s: Seq<u8>) -> Seq<AOp> { Seq::new(o.len(), |i: int| ab(o[i], s)) }

pub broadcast proof fn bl_abs_empty(s: Seq<u8>)
    ensures #[trigger] abs(Seq::<Op>::empty(), s) == Seq::<AOp>::empty(),
{ reveal(abs); assert(abs(Seq::<Op>::empty(), s) =~= Seq::<AOp>::empty()); }
pub broadcast proof fn bl_abs_push(o: Seq<Op>, x: Op, s: Seq<u8>)
    ensures #[trigger] abs(o.push(x), s) == abs(o, s).push(ab(x, s)),
{ reveal(abs); assert(abs(o.push(x), s) =~= abs(o, s).push(ab(x, s))); }
pub broadcast proof fn bl_abs_cat(a: Seq<Op>, b: Seq<Op>, s: Seq<u8>)
    ensures #[trigger] abs(a + b, s) == abs(a, s) + abs(b, s),
{ reveal(abs); assert(abs(a + b, s) =~= abs(a, s) + abs(b, s)); }

pub open spec fn a_open(n: Node, x: Seq<u8>) -> AOp { AOp { k: OpKind::Start(n), x } }
pub open spec fn a_close(n: Node, x: Seq<u8>) -> AOp { AOp { k: OpKind::End(n), x } }
pub open spec fn a_val(x: Seq<u8>) -> AOp { AOp { k: OpKind::Value, x } }
pub open spec fn none() -> Seq<u8> { Seq::empty() }
pub open spec fn txt(c: Cx, i: int, j: int) -> Seq<u8> { toks_text(c.t, c.s, i, j) }

/// a recognised construct: the token after it (-1: not recognised) and its events
pub struct G { pub n: int, pub o: Seq<AOp> }
pub open spec fn no() -> G { G { n: -1, o: Seq::empty() } }
pub open spec fn after(o: Seq<AOp>, g: G) -> G { if g.n < 0 { no() } else { G { n: g.n, o: o + g.o } } }
/// an optional construct at i
pub open spec fn opt(g: G) -> Seq<AOp> { if g.n >= 0 { g.o } else { Seq::empty() } }
pub open spec fn past(g: G, i: int) -> int { if g.n >= 0 { g.n } else { i } }
pub open spec fn or(a: G, b: G) -> G { if a.n >= 0 { a } else { b } }

/// the events a node parser added, and where it stopped, are those of g
pub open spec fn did(a: Parser, b: Parser, ok: bool, g: G) -> bool {
    ok == (g.n >= 0) && (ok ==> b.pos == g.n && abs(suffix(a.ops@, b.ops@), src_of(a)) =~= g.o)
}

/// token patterns
pub enum Pq { Is(TokenKind, int), Line(TokenKind, int), Eol, EolTerm }
pub open spec fn holds(q: Pq, t: Token) -> bool {
    match q {
        Pq::Is(k, n) => t.kind == k && rlen(t.range) == n,
        Pq::Line(k, n) => t.kind == k && rlen(t.range) == n && col0(t),
        Pq::Eol => t.kind == TokenKind::Eol,
        Pq::EolTerm => t.kind == TokenKind::Eol || t.kind == TokenKind::Terminator,
    }
}
pub open spec fn is_at(c: Cx, i: int, q: Pq) -> bool { 0 <= i < c.t.len() && holds(q, c.t[i]) }
pub open spec fn stop_at(c: Cx, i: int) -> bool { at_stop(c.t, c.e, i) }
/// first token from i on that matches q, if no stop condition holds up to it; else -1
pub open spec fn find(c: Cx, i: int, q: Pq) -> int
    decreases c.t.len() - i,
{
    if i < 0 || at_stop(c.t, c.e, i) { -1 } else if holds(q, c.t[i]) { i } else { find(c, i + 1, q) }
}
/// open, text up to the first close, close
pub open spec fn g_leaf(c: Cx, i: int, n: Node, open: Pq, close: Pq) -> G {
    let m = find(c, i + 1, close);
    if is_at(c, i, open) && m >= 0 {
        G { n: m + 1, o: seq![a_open(n, txt(c, i, i + 1)), a_val(txt(c, i + 1, m)), a_close(n, txt(c, m, m + 1))] }
    } else { no() }
}
pub open spec fn g_title(c: Cx, i: int) -> G { g_leaf(c, i, Node::Title, Pq::Is(TokenKind::LeftSquareBracket, 1), Pq::Is(TokenKind::RightSquareBracket, 1)) }
pub open spec fn g_strike(c: Cx, i: int) -> G { g_leaf(c, i, Node::Strikethrough, Pq::Is(TokenKind::Tilde, 2), Pq::Is(TokenKind::Tilde, 2)) }
pub open spec fn g_italic(c: Cx, i: int) -> G { g_leaf(c, i, Node::Italic, Pq::Is(TokenKind::Underscore, 1), Pq::Is(TokenKind::Underscore, 1)) }
pub open spec fn g_emphasis(c: Cx, i: int) -> G { g_leaf(c, i, Node::Emphasis, Pq::Is(TokenKind::Star, 1), Pq::Is(TokenKind::Star, 1)) }
pub open spec fn g_code_span(c: Cx, i: int) -> G { g_leaf(c, i, Node::CodeSpan, Pq::Is(TokenKind::Backtick, 1), Pq::Is(TokenKind::Backtick, 1)) }

/// the closing parenthesis: the one that balances depth open ones, or else the last one before the stop
pub open spec fn paren_end(c: Cx, i: int, depth: int, last: int) -> int
    decreases c.t.len() - i,
{
    if i < 0 || at_stop(c.t, c.e, i) { last }
    else if c.t[i].kind == TokenKind::LeftParenthesis { paren_end(c, i + 1, depth + 1, last) }
    else if c.t[i].kind == TokenKind::RightParenthesis { if depth == 1 { i } else { paren_end(c, i + 1, depth - 1, i) } }
    else { paren_end(c, i + 1, depth, last) }
}
pub open spec fn g_dest(c: Cx, i: int) -> G {
    let m = paren_end(c, i + 1, 1, -1);
    if is_at(c, i, Pq::Is(TokenKind::LeftParenthesis, 1)) && m >= 0 {
        G { n: m + 1, o: seq![a_open(Node::Destination, txt(c, i, i + 1)), a_val(txt(c, i + 1, m)), a_close(Node::Destination, txt(c, m, m + 1))] }
    } else { no() }
}
pub open spec fn g_anchor(c: Cx, i: int) -> G {
    let a = g_title(c, i);
    let b = g_dest(c, a.n);
    if a.n >= 0 && b.n >= 0 { G { n: b.n, o: (seq![a_open(Node::Anchor, none())] + a.o + b.o).push(a_close(Node::Anchor, none())) } } else { no() }
}
/// the plain text since ts, if any
pub open spec fn g_rest_text(c: Cx, ts: int, i: int) -> Seq<AOp> { if ts >= 0 { seq![a_val(txt(c, ts, i))] } else { Seq::empty() } }
pub open spec fn g_bold_in(c: Cx, i: int) -> G { or(g_strike(c, i), g_italic(c, i)) }
pub open spec fn g_bold_rest(c: Cx, i: int, ts: int) -> G
    decreases c.t.len() - i,
{
    let g = g_bold_in(c, i);
    if i < 0 || stop_at(c, i) { no() }
    else if is_at(c, i, Pq::Is(TokenKind::Star, 2)) { G { n: i + 1, o: g_rest_text(c, ts, i).push(a_close(Node::Bold, txt(c, i, i + 1))) } }
    else if i < g.n <= c.t.len() { after(g_rest_text(c, ts, i) + g.o, g_bold_rest(c, g.n, -1)) }
    else { g_bold_rest(c, i + 1, if ts >= 0 { ts } else { i }) }
}
pub open spec fn g_bold(c: Cx, i: int) -> G {
    if is_at(c, i, Pq::Is(TokenKind::Star, 2)) { after(seq![a_open(Node::Bold, txt(c, i, i + 1))], g_bold_rest(c, i + 1, -1)) } else { no() }
}
/// one inline construct, in this order of preference
pub open spec fn g_inline(c: Cx, i: int) -> G {
    or(g_strike(c, i), or(g_italic(c, i), or(g_bold(c, i), or(g_anchor(c, i), or(g_code_span(c, i), g_emphasis(c, i))))))
}
pub open spec fn g_para_rest(c: Cx, i: int, ts: int) -> G
    decreases c.t.len() - i,
{
    let g = g_inline(c, i);
    if i < 0 || stop_at(c, i) { G { n: i, o: g_rest_text(c, ts, i).push(a_close(Node::Paragraph, none())) } }
    else if i < g.n <= c.t.len() { after(g_rest_text(c, ts, i) + g.o, g_para_rest(c, g.n, -1)) }
    else { g_para_rest(c, i + 1, if ts >= 0 { ts } else { i }) }
}
pub open spec fn g_para(c: Cx, i: int) -> G { after(seq![a_open(Node::Paragraph, none())], g_para_rest(c, i, -1)) }
pub open spec fn tsi(ts: Option<usize>) -> int { match ts { Some(s) => s as int, None => -1 } }

pub broadcast proof fn bl_after(a: Seq<AOp>, b: Seq<AOp>, g: G)
    ensures #[trigger] after(a, after(b, g)) == after(a + b, g),
{ if g.n >= 0 { assert(a + (b + g.o) =~= (a + b) + g.o); } }
pub broadcast group bl_gram { bl_abs_empty, bl_abs_push, bl_abs_cat }
//@end

//@ [C08]
/// one or two characters after the opening marker, then text with anchors up to the stop
pub open spec fn g_heading_rest(c: Cx, i: int, ts: int) -> G
    decreases c.t.len() - i,
{
    let g = g_anchor(c, i);
    if i < 0 || stop_at(c, i) { G { n: i, o: g_rest_text(c, ts, i).push(a_close(Node::Heading, none())) } }
    else if i < g.n <= c.t.len() { after(g_rest_text(c, ts, i) + g.o, g_heading_rest(c, g.n, -1)) }
    else { g_heading_rest(c, i + 1, if ts >= 0 { ts } else { i }) }
}
/// up to six `#` at the start of a line, one space
pub open spec fn g_heading(c: Cx, i: int) -> G {
    if 0 <= i < c.t.len() && c.t[i].kind == TokenKind::Hash && col0(c.t[i]) && rlen(c.t[i].range) <= 6 && is_at(c, i + 1, Pq::Is(TokenKind::Space, 1)) {
        after(seq![a_open(Node::Heading, txt(c, i, i + 2))], g_heading_rest(c, i + 2, -1))
    } else { no() }
}
pub open spec fn g_metadata(c: Cx, i: int) -> G { g_leaf(c, i, Node::Metadata, Pq::Line(TokenKind::Minus, 3), Pq::Line(TokenKind::Minus, 3)) }
pub open spec fn g_break(c: Cx, i: int) -> G {
    if is_at(c, i, Pq::Line(TokenKind::Minus, 5)) {
        G { n: i + 1, o: seq![a_open(Node::ThematicBreak, none()), a_val(txt(c, i, i + 1)), a_close(Node::ThematicBreak, none())] }
    } else { no() }
}
/// the rest of the opening line
pub open spec fn g_modifier(c: Cx, i: int) -> G {
    let m = find(c, i, Pq::EolTerm);
    if 0 <= i < c.t.len() && !col0(c.t[i]) && m >= 0 {
        G { n: m + 1, o: seq![a_open(Node::Modifier, none()), a_val(txt(c, i, m)), a_close(Node::Modifier, txt(c, m, m + 1))] }
    } else { no() }
}
/// where a closing marker at m ends: with its line break, or at a block boundary; else -1
pub open spec fn g_closed(c: Cx, m: int) -> int {
    if is_at(c, m + 1, Pq::Eol) { m + 2 }
    else if stop_at(c, m + 1) || c.t[m + 1].kind == TokenKind::Terminator { m + 1 }
    else { -1 }
}
/// fenced code: stop conditions of enclosing blocks do not apply inside
pub open spec fn g_code(c: Cx, i: int) -> G {
    let q = Pq::Line(TokenKind::Backtick, 3);
    let v = Cx { t: c.t, s: c.s, e: Seq::empty() };
    let b = if is_at(c, i + 1, Pq::Eol) { i + 2 } else { i + 1 };
    let mo = if b == i + 2 { no() } else { g_modifier(v, b) };
    let j = past(mo, b);
    let m = find(v, j, q);
    let end = g_closed(c, m);
    if is_at(c, i, q) && m >= 0 && end >= 0 {
        G { n: end, o: (seq![a_open(Node::Code, txt(c, i, b))] + opt(mo)).push(a_val(txt(c, j, m))).push(a_close(Node::Code, txt(c, m, end))) }
    } else { no() }
}
pub open spec fn g_embed(c: Cx, i: int) -> G {
    let m = find(c, i + 1, Pq::Is(TokenKind::Pipe, 1));
    let r = find(c, m + 1, Pq::Is(TokenKind::RightCurlyBrace, 2));
    let end = g_closed(c, r);
    if is_at(c, i, Pq::Line(TokenKind::LeftCurlyBrace, 2)) && m >= 0 && r >= 0 && end >= 0 {
        G { n: end, o: seq![a_open(Node::Embed, txt(c, i, i + 1)), a_val(txt(c, i + 1, m)), a_val(txt(c, m, m + 1)), a_val(txt(c, m + 1, r)), a_close(Node::Embed, txt(c, r, end))] }
    } else { no() }
}
pub open spec fn g_image(c: Cx, i: int) -> G {
    let a = g_title(c, i + 1);
    let b = g_dest(c, a.n);
    if is_at(c, i, Pq::Is(TokenKind::Bang, 1)) && a.n >= 0 && b.n >= 0 && (is_at(c, b.n, Pq::Eol) || stop_at(c, b.n)) {
        let end = if is_at(c, b.n, Pq::Eol) { b.n + 1 } else { b.n };
        G { n: end, o: (seq![a_open(Node::Image, txt(c, i, i + 1))] + a.o + b.o).push(a_close(Node::Image, txt(c, b.n, end))) }
    } else { no() }
}
/// a run of images up to the stop, after k of them with events acc; two or more are wrapped
pub open spec fn g_images_rest(c: Cx, i: int, k: int, acc: Seq<AOp>) -> G
    decreases c.t.len() - i,
{
    let g = g_image(c, i);
    if 0 <= i < g.n <= c.t.len() { g_images_rest(c, g.n, k + 1, acc + g.o) }
    else if !stop_at(c, i) || k == 0 { no() }
    else if k == 1 { G { n: i, o: acc } }
    else { G { n: i, o: (seq![a_open(Node::Images, none())] + acc).push(a_close(Node::Images, none())) } }
}
pub open spec fn g_images(c: Cx, i: int) -> G { g_images_rest(c, i, 0, Seq::empty()) }
//@end

//@ [C09]
pub open spec fn under(c: Cx, q: StopCondition) -> Cx { Cx { t: c.t, s: c.s, e: c.e.push(q) } }
pub open spec fn with_toks(c: Cx, t: Seq<Token>) -> Cx { Cx { t, s: c.s, e: c.e } }

// lists
pub open spec fn item_kind(c: Cx, i: int, level: int) -> Option<ListKind> {
    let m = if level == 0 { i } else { i + 1 };
    if 0 <= m < c.t.len() { list_marker_kind(c.t[m]) } else { None }
}
pub open spec fn g_list_node(k: ListKind) -> Node { match k { ListKind::Unordered => Node::UnorderedList, ListKind::Ordered => Node::OrderedList } }
/// a list item at this level: marker, text up to the next item or the stop, and the list nested in it
pub open spec fn g_item(c: Cx, i: int, level: int, kind: Option<ListKind>) -> G
    decreases c.t.len() - i, 0int,
{
    let b = if level == 0 { i + 2 } else { i + 3 };
    if 0 <= i && item_prefix(c.t, i, level, kind) {
        let pa = g_para(under(c, StopCondition::ListBoundary { level: level as usize, kind: item_kind(c, i, level)->Some_0 }), b);
        let sub = if !stop_at(c, pa.n) && i < pa.n <= c.t.len() { g_list(c, pa.n, level + 1) } else { no() };
        G { n: past(sub, pa.n), o: (seq![a_open(Node::ListItem, txt(c, i, b))] + pa.o + opt(sub)).push(a_close(Node::ListItem, none())) }
    } else { no() }
}
pub open spec fn g_list(c: Cx, i: int, level: int) -> G
    decreases c.t.len() - i, 1int,
{
    let it = g_item(c, i, level, None);
    let n = g_list_node(item_kind(c, i, level)->Some_0);
    if i < it.n <= c.t.len() { g_items(c, it.n, level, item_kind(c, i, level)->Some_0, seq![a_open(n, none())] + it.o) } else { no() }
}
/// the following items of a list of kind k, after events acc
pub open spec fn g_items(c: Cx, i: int, level: int, k: ListKind, acc: Seq<AOp>) -> G
    decreases c.t.len() - i, 1int,
{
    let it = g_item(c, i, level, Some(k));
    if i < it.n <= c.t.len() { g_items(c, it.n, level, k, acc + it.o) } else { G { n: i, o: acc.push(a_close(g_list_node(k), none())) } }
}

// highlights
pub open spec fn g_icon(c: Cx, i: int) -> G {
    let m = find(c, i + 2, Pq::Eol);
    if is_at(c, i, Pq::Line(TokenKind::Bang, 1)) && is_at(c, i + 1, Pq::Is(TokenKind::Space, 1)) && m >= 0 {
        G { n: m + 1, o: seq![a_open(Node::Icon, txt(c, i, i + 2)), a_val(txt(c, i + 2, m)), a_close(Node::Icon, txt(c, m, m + 1))] }
    } else { no() }
}
/// one paragraph of a highlight, with the blank line in front of it, if any
pub open spec fn g_hl_para(c: Cx, i: int) -> G {
    let tm = i < c.t.len() && c.t[i].kind == TokenKind::Terminator;
    let pa = g_para(under(under(c, StopCondition::HighlightEnd), StopCondition::Terminator), if tm { i + 1 } else { i });
    after(if tm { seq![a_val(txt(c, i, i + 1))] } else { Seq::empty() }, pa)
}
pub open spec fn g_hl_rest(c: Cx, i: int) -> G
    decreases c.t.len() - i,
{
    let g = g_hl_para(c, i);
    if i < 0 || stop_at(c, i) { no() }
    else if is_at(c, i, Pq::Line(TokenKind::Bang, 2)) {
        let end = if is_at(c, i + 1, Pq::Eol) { i + 2 } else { i + 1 };
        G { n: end, o: seq![a_close(Node::Highlight, txt(c, i, end))] }
    }
    else if i < g.n <= c.t.len() { after(g.o, g_hl_rest(c, g.n)) }
    else { no() }
}
pub open spec fn g_highlight(c: Cx, i: int) -> G {
    let mo = if is_at(c, i + 1, Pq::Eol) { no() } else { g_modifier(c, i + 2) };
    let j = past(mo, i + 2);
    let ic = g_icon(under(c, StopCondition::Terminator), j);
    let k = past(ic, j);
    if is_at(c, i, Pq::Line(TokenKind::Bang, 2)) && (is_at(c, i + 1, Pq::Is(TokenKind::Space, 1)) || is_at(c, i + 1, Pq::Eol)) && 0 <= k < c.t.len() && col0(c.t[k]) {
        after(seq![a_open(Node::Highlight, txt(c, i, i + 2))] + opt(mo) + opt(ic), g_hl_rest(c, k))
    } else { no() }
}

// documents and collapsibles; a collapsible that is not recognised turns its opening marker into text for good
pub struct Gd { pub t: Seq<Token>, pub n: int, pub o: Seq<AOp> }
pub open spec fn dno(t: Seq<Token>) -> Gd { Gd { t, n: -1, o: Seq::empty() } }
pub open spec fn after_d(o: Seq<AOp>, g: Gd) -> Gd { if g.n < 0 { g } else { Gd { t: g.t, n: g.n, o: o + g.o } } }
pub open spec fn as_text(t: Seq<Token>, i: int) -> Seq<Token> { t.update(i, Token { kind: TokenKind::Literal, ..t[i] }) }
pub open spec fn did_d(a: Parser, b: Parser, ok: bool, g: Gd) -> bool {
    ok == (g.n >= 0) && b.tokens@ =~= g.t && (ok ==> b.pos == g.n && abs(suffix(a.ops@, b.ops@), src_of(a)) =~= g.o)
}
pub open spec fn coll_start(c: Cx, i: int) -> bool {
    0 <= i && i + 1 < c.t.len() && c.t[i].kind == TokenKind::CollapsibleStart && col0(c.t[i])
    && (c.t[i + 1].kind == TokenKind::Space || c.t[i + 1].kind == TokenKind::Eol)
}
pub open spec fn g_coll(c: Cx, i: int) -> Gd
    decreases c.t.len() - i, 0int,
{
    let mo = g_modifier(c, i + 2);
    let j = past(mo, i + 2);
    if !coll_start(c, i) { dno(c.t) }
    else if !(i < j < c.t.len() && col0(c.t[j])) { dno(as_text(c.t, i)) }
    else {
        let d = g_doc(under(c, StopCondition::CollapsibleEnd), j);
        let v = with_toks(c, d.t);
        let k = if is_at(v, d.n, Pq::Eol) { d.n + 1 } else { d.n };
        let end = if is_at(v, k + 1, Pq::Eol) { k + 2 } else { k + 1 };
        if 0 <= k < d.t.len() && d.t[k].kind == TokenKind::CollapsibleEnd && col0(d.t[k]) {
            Gd { t: d.t, n: end, o: (seq![a_open(Node::Collapsible, txt(c, i, i + 2))] + opt(mo) + d.o).push(a_close(Node::Collapsible, txt(v, k, end))) }
        } else { dno(as_text(d.t, i)) }
    }
}
/// what a document reads at i: a blank line or a block, in this order of preference
pub open spec fn g_block(c: Cx, i: int) -> Gd
    decreases c.t.len() - i, 1int,
{
    let code = g_code(c, i);
    let co = g_coll(c, i);
    let v = with_toks(c, co.t);
    let w = under(v, StopCondition::Terminator);
    if 0 <= i < c.t.len() && c.t[i].kind == TokenKind::Terminator { Gd { t: c.t, n: i + 1, o: seq![a_val(txt(c, i, i + 1))] } }
    else if code.n >= 0 { Gd { t: c.t, n: code.n, o: code.o } }
    else if co.n >= 0 { co }
    else {
        let g = or(g_embed(v, i), or(g_highlight(v, i), or(g_list(w, i, 0), or(g_images(w, i), or(g_break(w, i), or(g_heading(w, i), g_para(w, i)))))));
        Gd { t: co.t, n: g.n, o: g.o }
    }
}
pub open spec fn g_doc_rest(c: Cx, i: int) -> Gd
    decreases c.t.len() - i, 2int,
{
    let b = g_block(c, i);
    if i < 0 || stop_at(c, i) { Gd { t: c.t, n: i, o: seq![a_close(Node::Document, none())] } }
    else if i < b.n <= c.t.len() && b.t.len() == c.t.len() { after_d(b.o, g_doc_rest(with_toks(c, b.t), b.n)) }
    else { dno(c.t) }
}
pub open spec fn g_doc(c: Cx, i: int) -> Gd
    decreases c.t.len() - i, 3int,
{ after_d(seq![a_open(Node::Document, none())], g_doc_rest(c, i)) }
/// the whole source: metadata, then a document
pub open spec fn g_stream(t: Seq<Token>, s: Seq<u8>) -> Seq<AOp> {
    let c = Cx { t, s, e: Seq::empty() };
    let m = g_metadata(c, 0);
    opt(m) + g_doc(c, past(m, 0)).o
}
pub broadcast proof fn bl_after_d(a: Seq<AOp>, b: Seq<AOp>, g: Gd)
    ensures #[trigger] after_d(a, after_d(b, g)) == after_d(a + b, g),
{ if g.n >= 0 { assert(a + (b + g.o) =~= (a + b) + g.o); } }
pub broadcast proof fn bl_push_pop(e: Seq<StopCondition>, q: StopCondition)
    ensures #[trigger] e.push(q).drop_last() == e,
{ assert(e.push(q).drop_last() =~= e); }
pub broadcast proof fn bl_push_cut(e: Seq<StopCondition>, q: StopCondition, n: int)
    requires n == e.len(),
    ensures #[trigger] e.push(q).subrange(0, n) == e,
{ assert(e.push(q).subrange(0, n) =~= e); }
//@end
