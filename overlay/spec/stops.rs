// ---- logical end of input (stop conditions) ----
use crate::op::parser::{Parser, StopCondition, ListKind};

pub open spec fn list_marker_kind(t: Token) -> Option<ListKind> {
    if t.kind == TokenKind::Minus && rlen(t.range) == 1 { Some(ListKind::Unordered) }
    else if t.kind == TokenKind::Plus && rlen(t.range) == 1 { Some(ListKind::Ordered) }
    else { None }
}
pub open spec fn marker_is(t: Token, kind: Option<ListKind>) -> bool {
    match list_marker_kind(t) { Some(k) => match kind { Some(want) => k == want, None => true }, None => false }
}
pub open spec fn space_of(t: Token, n: int) -> bool { t.kind == TokenKind::Space && rlen(t.range) == n }
pub open spec fn col0(t: Token) -> bool { t.position.column == 0 }

/// `-`/`+` and one space, after `level` spaces, at the start of a line
pub open spec fn item_prefix(toks: Seq<Token>, pos: int, level: int, kind: Option<ListKind>) -> bool {
    if level == 0 {
        pos + 1 < toks.len() && col0(toks[pos]) && marker_is(toks[pos], kind) && space_of(toks[pos + 1], 1)
    } else {
        pos + 2 < toks.len() && col0(toks[pos]) && space_of(toks[pos], level) && marker_is(toks[pos + 1], kind) && space_of(toks[pos + 2], 1)
    }
}
pub open spec fn want_kind(l: int, level: int, kind: ListKind) -> Option<ListKind> { if l == level { Some(kind) } else { None } }
/// a list item of this list, of a shallower one, or of one nested directly below
pub open spec fn list_boundary(toks: Seq<Token>, pos: int, level: int, kind: ListKind) -> bool {
    exists|l: int| 0 <= l <= level + 1 && #[trigger] item_prefix(toks, pos, l, want_kind(l, level, kind))
}

pub open spec fn stop_hit(c: StopCondition, toks: Seq<Token>, pos: int) -> bool {
    match c {
        StopCondition::Terminator => toks[pos].kind == TokenKind::Terminator,
        StopCondition::CollapsibleEnd =>
            (toks[pos].kind == TokenKind::CollapsibleEnd && col0(toks[pos]))
            || (toks[pos].kind == TokenKind::Eol && pos + 1 < toks.len()
                && toks[pos + 1].kind == TokenKind::CollapsibleEnd && col0(toks[pos + 1])),
        StopCondition::HighlightEnd => toks[pos].kind == TokenKind::Bang && col0(toks[pos]) && rlen(toks[pos].range) == 2,
        StopCondition::ListBoundary { level, kind } => col0(toks[pos]) && list_boundary(toks, pos, level as int, kind),
    }
}
pub open spec fn at_stop(toks: Seq<Token>, eofs: Seq<StopCondition>, pos: int) -> bool {
    pos >= toks.len() || exists|i: int| 0 <= i < eofs.len() && #[trigger] stop_hit(eofs[i], toks, pos)
}
pub proof fn lemma_at_stop_push(toks: Seq<Token>, eofs: Seq<StopCondition>, c: StopCondition, pos: int)
    ensures at_stop(toks, eofs.push(c), pos) == (at_stop(toks, eofs, pos) || stop_hit(c, toks, pos)),
{
    let e2 = eofs.push(c);
    if pos < toks.len() {
        if stop_hit(c, toks, pos) { assert(stop_hit(e2[eofs.len() as int], toks, pos)); }
        if at_stop(toks, eofs, pos) {
            let i = choose|i: int| 0 <= i < eofs.len() && #[trigger] stop_hit(eofs[i], toks, pos);
            assert(stop_hit(e2[i], toks, pos));
        }
        if at_stop(toks, e2, pos) {
            let i = choose|i: int| 0 <= i < e2.len() && #[trigger] stop_hit(e2[i], toks, pos);
            if i < eofs.len() { assert(stop_hit(eofs[i], toks, pos)); } else { assert(e2[i] == c); }
        }
    }
}
pub broadcast proof fn bl_at_stop_push(toks: Seq<Token>, eofs: Seq<StopCondition>, c: StopCondition, pos: int)
    ensures #[trigger] at_stop(toks, eofs.push(c), pos) == (at_stop(toks, eofs, pos) || stop_hit(c, toks, pos)),
{ lemma_at_stop_push(toks, eofs, c, pos); }

// ---- parser frame ----
pub open spec fn src_of(p: Parser) -> Seq<u8> { sb(p.source@) }

pub open spec fn stops_ok(eofs: Seq<StopCondition>) -> bool {
    forall|i: int| 0 <= i < eofs.len() ==> (#[trigger] eofs[i] matches StopCondition::ListBoundary { level, .. } ==> level <= 0x7fff_ffff)
}
pub open spec fn wf(p: Parser) -> bool {
    tokens_ok(p.tokens@, src_of(p)) && stops_ok(p.eof_stack@) && p.pos <= p.tokens@.len() && ops_ok(p.ops@, src_of(p))
}
/// everything but pos and ops is untouched; pos and ops only grow
pub open spec fn step_fr(a: Parser, b: Parser) -> bool {
    a.source == b.source && a.eof_stack@ =~= b.eof_stack@ && a.tokens@ == b.tokens@
    && a.pos <= b.pos && pre(a.ops@, b.ops@)
}
pub open spec fn undone(a: Parser, b: Parser) -> bool {
    a.source == b.source && a.eof_stack@ =~= b.eof_stack@ && a.tokens@ == b.tokens@
    && a.pos == b.pos && a.ops@ =~= b.ops@
}
/// collapsible starts may have been turned into literal text
pub open spec fn flip1(a: Token, b: Token) -> bool {
    a == b || (a.kind == TokenKind::CollapsibleStart && b == (Token { kind: TokenKind::Literal, ..a }))
}
pub open spec fn flipped(a: Seq<Token>, b: Seq<Token>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> flip1(a[i], #[trigger] b[i])
}
pub open spec fn step_flip(a: Parser, b: Parser) -> bool {
    a.source == b.source && a.eof_stack@ =~= b.eof_stack@ && flipped(a.tokens@, b.tokens@)
    && a.pos <= b.pos && pre(a.ops@, b.ops@)
}
pub open spec fn outcome_flip(a: Parser, b: Parser, ok: bool) -> bool {
    wf(b) && step_flip(a, b) && if ok { a.pos < b.pos } else { a.pos == b.pos && a.ops@ =~= b.ops@ }
}
pub proof fn lemma_flip_stop(a: Seq<Token>, b: Seq<Token>, c: StopCondition, pos: int)
    requires flipped(a, b), 0 <= pos < a.len(),
    ensures stop_hit(c, a, pos) == stop_hit(c, b, pos),
{
    assert(flip1(a[pos], b[pos]));
    if pos + 1 < a.len() { assert(flip1(a[pos + 1], b[pos + 1])); }
    if pos + 2 < a.len() { assert(flip1(a[pos + 2], b[pos + 2])); }
    match c {
        StopCondition::ListBoundary { level, kind } => {
            let lv = level as int;
            if list_boundary(a, pos, lv, kind) { let l = choose|l: int| 0 <= l <= lv + 1 && #[trigger] item_prefix(a, pos, l, want_kind(l, lv, kind)); assert(item_prefix(b, pos, l, want_kind(l, lv, kind))); }
            if list_boundary(b, pos, lv, kind) { let l = choose|l: int| 0 <= l <= lv + 1 && #[trigger] item_prefix(b, pos, l, want_kind(l, lv, kind)); assert(item_prefix(a, pos, l, want_kind(l, lv, kind))); }
        }
        _ => {}
    }
}
pub broadcast proof fn bl_flip_ok(a: Seq<Token>, b: Seq<Token>, src: Seq<u8>)
    requires flipped(a, b), tokens_ok(a, src),
    ensures #![trigger flipped(a, b), tokens_ok(b, src)] tokens_ok(b, src),
{
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] tok_ok(b[i], src) by { assert(flip1(a[i], b[i])); assert(tok_ok(a[i], src)); }
    reveal(adjacent);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i && j == i + 1 && j < b.len() implies b[j].range.start == b[i].range.end + (if b[j].escaped { 1int } else { 0int }) by {
        assert(flip1(a[i], b[i])); assert(flip1(a[j], b[j]));
    }
}
pub broadcast proof fn bl_flip_stop(a: Seq<Token>, b: Seq<Token>, eofs: Seq<StopCondition>, pos: int)
    requires #[trigger] flipped(a, b), 0 <= pos,
    ensures #[trigger] at_stop(b, eofs, pos) == at_stop(a, eofs, pos),
{
    if pos < a.len() {
        assert forall|i: int| 0 <= i < eofs.len() implies stop_hit(#[trigger] eofs[i], a, pos) == stop_hit(eofs[i], b, pos) by { lemma_flip_stop(a, b, eofs[i], pos); }
        if at_stop(a, eofs, pos) { let i = choose|i: int| 0 <= i < eofs.len() && #[trigger] stop_hit(eofs[i], a, pos); assert(stop_hit(eofs[i], b, pos)); }
        if at_stop(b, eofs, pos) { let i = choose|i: int| 0 <= i < eofs.len() && #[trigger] stop_hit(eofs[i], b, pos); assert(stop_hit(eofs[i], a, pos)); }
    }
}
pub broadcast proof fn bl_flip_text(a: Seq<Token>, b: Seq<Token>, src: Seq<u8>, i: int, j: int)
    requires flipped(a, b), 0 <= i, j <= a.len(),
    ensures #![trigger flipped(a, b), toks_text(b, src, i, j)] toks_text(b, src, i, j) == toks_text(a, src, i, j),
    decreases j - i,
{
    if i < j { bl_flip_text(a, b, src, i, j - 1); assert(flip1(a[j - 1], b[j - 1])); }
}
pub broadcast group bl_flip { bl_flip_ok, bl_flip_stop, bl_flip_text, bl_at_stop_push }
/// result frame of a node parser
pub open spec fn outcome(a: Parser, b: Parser, ok: bool) -> bool {
    wf(b) && if ok { step_fr(a, b) && a.pos < b.pos } else { undone(a, b) }
}
