// ---- the lexer's state ----
use crate::lexer::Lexer;

pub open spec fn plain(src: Seq<u8>, i: int) -> bool {
    true
//@ [C03,C06]
    && !special(src, i)
//@end
}
/// what reading the character c in bytes a..b tells about byte b
pub open spec fn char_step(src: Seq<u8>, a: int, b: int, c: char) -> bool {
    char_in(src, a, b, c)
    && (c != '\\' ==> !escst(src, b))
    && (c == '\\' ==> escst(src, b) == !escst(src, a))
    && (escst(src, a) ==> lit_body(src, a, b, true))
    && (!escst(src, a) && c != '\\' && plain(src, a) ==> (c != ' ' ==> lit_body(src, a, b, false))
        && forall|s: int, e: bool| s < a && #[trigger] lit_body(src, s, a, e) ==> lit_body(src, s, b, e))
//@ [C04]
    && row_col(src, b) == (if c == '\\' && !escst(src, a) { row_col(src, a) }
            else if c == '\n' && !escst(src, a) { (row_col(src, a).0 + 1, 0int) }
            else { (row_col(src, a).0, row_col(src, a).1 + 1) })
//@end
}
pub proof fn lemma_char(src: Seq<u8>, a: int, b: int, c: char)
    requires char_in(src, a, b, c),
    ensures char_step(src, a, b, c),
{
    if (c as u32) >= 0x80 {
        assert(src[b - 1] >= 0x80);
        assert forall|i: int| a <= i < b implies !#[trigger] is_marker(src, i) by { assert(src[i] >= 0x80); }
//@ [C03,C06]
        assert forall|i: int| a <= i < b implies !#[trigger] special(src, i) by { assert(src[i] >= 0x80); }
//@end
//@ [C04]
        lemma_cont(src, a + 1, b);
//@end
    }
}
pub proof fn lemma_chars(src: Seq<u8>, a: int, b: int)
    ensures forall|c: char| #[trigger] char_in(src, a, b, c) ==> char_step(src, a, b, c),
{
    assert forall|c: char| #[trigger] char_in(src, a, b, c) implies char_step(src, a, b, c) by { lemma_char(src, a, b, c); }
}
//@ [C04]
pub proof fn lemma_cont(src: Seq<u8>, a: int, b: int)
    requires 0 < a <= b <= src.len(), forall|k: int| a <= k < b ==> 0x80 <= #[trigger] src[k] < 0xc0,
    ensures row_col(src, b) == row_col(src, a),
    decreases b - a,
{ if a < b { lemma_cont(src, a, b - 1); assert(0x80 <= src[b - 1] < 0xc0); } }
//@end

// ---- the lexer's state ----
pub open spec fn opt_seq(o: Option<Token>) -> Seq<Token> { match o { Some(t) => seq![t], None => Seq::empty() } }
/// every token produced so far: handed out, queued, and the one held back
pub open spec fn made(l: Lexer) -> Seq<Token> { l.handed@ + l.queue@ + opt_seq(l.token) }
pub open spec fn lsrc(l: Lexer) -> Seq<u8> { l.iter.src() }
/// consistent with the source up to byte o
pub open spec fn core(l: Lexer, o: int) -> bool {
    let (m, src) = (made(l), lsrc(l));
    l.len == src.len() && 0 <= o <= l.iter.off() <= src.len() && src.len() <= isize::MAX
    && is_char_boundary(src, o) && is_char_boundary(src, l.iter.off()) && is_char_boundary(src, src.len() as int)
    && chain(m, src)
    && (l.token is None ==> m.len() == 0)
    && l.position.column <= l.iter.off() && l.position.row <= l.iter.off()
    && match l.literal_start {
        None => !l.escaped && endpos(m) == o,
        Some(p) => p.byte_index == endpos(m) + (if l.escaped { 1int } else { 0int }) && p.byte_index < o
            && (l.escaped ==> is_marker(src, endpos(m))) && l.escaped == escst(src, p.byte_index as int)
            && is_char_boundary(src, p.byte_index as int)
            && lit_body(src, p.byte_index as int, o, l.escaped)
//@ [C04]
            && pos_ok(p, src)
//@end
    }
}
/// the lexer's own row and column are those of byte o
pub open spec fn at_pos(l: Lexer, o: int) -> bool {
    true
//@ [C04]
    && l.position.row == row_col(lsrc(l), o).0 && l.position.column == row_col(lsrc(l), o).1
//@end
}
/// the last character read was one byte long
pub open spec fn last1(l: Lexer) -> bool { l.position.byte_index + 1 == l.iter.off() }
pub open spec fn fin(l: Lexer) -> bool {
    l.len == lsrc(l).len() && l.iter.off() == lsrc(l).len() && lsrc(l).len() <= isize::MAX && l.position.column <= l.len && l.literal_start is None && l.token is None
    && chain(made(l), lsrc(l)) && ended(made(l), lsrc(l))
}
pub open spec fn between(l: Lexer) -> bool {
    let (src, o) = (lsrc(l), l.iter.off());
    (core(l, o) && at_pos(l, o) && !escst(src, o))
    || (o == src.len() && is_marker(src, o - 1) && l.literal_start is None && core(l, o - 1))
}
/// between two calls of next
pub open spec fn lx(l: Lexer) -> bool { fin(l) || between(l) }

pub proof fn lemma_handed(l: Lexer)
    requires lx(l),
    ensures l.handed@.len() <= made(l).len() <= lsrc(l).len(), chain(made(l), lsrc(l)),
{ lemma_chain_len(made(l), lsrc(l)); }

pub open spec fn made_push(a: Lexer, b: Lexer) -> bool {
    b.handed@ == a.handed@ && b.token is Some && lsrc(a) == lsrc(b)
    && match a.token { Some(t) => b.queue@ == a.queue@.push(t), None => b.queue@ == a.queue@ && made(a).len() == 0 }
}
pub open spec fn made_swap(a: Lexer, b: Lexer) -> bool {
    b.handed@ == a.handed@ && a.token is Some && b.token is Some && lsrc(a) == lsrc(b) && b.queue@ == a.queue@
}
/// b holds back a new token where a held back another (now queued) or none
pub proof fn lemma_made_push(a: Lexer, b: Lexer)
    requires made_push(a, b),
    ensures made(b) == made(a).push(b.token->Some_0),
{
    assert(made(b) =~= made(a).push(b.token->Some_0));
}
/// b holds back another token in place of the one a held back
pub proof fn lemma_made_swap(a: Lexer, b: Lexer)
    requires made_swap(a, b),
    ensures made(b) == made(a).drop_last().push(b.token->Some_0), made(a).last() == a.token->Some_0, made(a).len() > 0,
{
    assert(made(b) =~= made(a).drop_last().push(b.token->Some_0));
}

pub proof fn lemma_tok(src: Seq<u8>, p: Position)
    requires
        !escst(src, p.byte_index as int), is_char_boundary(src, p.byte_index as int),
//@ [C04]
        pos_ok(p, src),
//@end
    ensures forall|t: Token| {
        &&& t.position == p && t.range.start == p.byte_index && !t.escaped && p.byte_index < t.range.end <= src.len()
        &&& is_char_boundary(src, t.range.end as int)
        &&& forall|i: int| t.range.start <= i < t.range.end ==> src[i] != 0x5c
//@ [C03,C06]
        &&& kind_ok(t, src) && !(t.kind is Literal)
//@end
    } ==> #[trigger] tok_good(t, src),
{ }

/// what becomes of the tokens made when b holds back one more than a, or another one in place of a's
pub proof fn lemma_step(a: Lexer, b: Lexer)
    ensures
        made_push(a, b) ==> made(b) == made(a).push(b.token->Some_0),
        made_swap(a, b) ==> made(b) == made(a).drop_last().push(b.token->Some_0) && made(a).last() == a.token->Some_0 && made(a).len() > 0,
        made_push(a, b) && chain_push(made(a), lsrc(b), b.token->Some_0) ==> chain(made(b), lsrc(b)) && endpos(made(b)) == b.token->Some_0.range.end,
        made_swap(a, b) && chain_push(made(a).drop_last(), lsrc(b), b.token->Some_0) ==> chain(made(b), lsrc(b)) && endpos(made(b)) == b.token->Some_0.range.end,
{
    if made_push(a, b) { lemma_made_push(a, b); }
    if made_swap(a, b) { lemma_made_swap(a, b); }
    if made_push(a, b) && chain_push(made(a), lsrc(b), b.token->Some_0) { lemma_chain_push(made(a), lsrc(b), b.token->Some_0); }
    if made_swap(a, b) && chain_push(made(a).drop_last(), lsrc(b), b.token->Some_0) { lemma_chain_push(made(a).drop_last(), lsrc(b), b.token->Some_0); }
}

/// b has queued what a held back
pub open spec fn made_flush(a: Lexer, b: Lexer) -> bool {
    b.handed@ == a.handed@ && b.token is None
    && b.queue@ == (match a.token { Some(t) => a.queue@.push(t), None => a.queue@ })
}
pub proof fn lemma_flush(a: Lexer, b: Lexer)
    ensures made_flush(a, b) ==> made(b) == made(a),
{ if made_flush(a, b) { assert(made(b) =~= made(a)); } }
