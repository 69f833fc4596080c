// ---- what the token stream of a source is ----
/// an escape backslash
pub open spec fn is_marker(src: Seq<u8>, i: int) -> bool { 0 <= i < src.len() && src[i] == 0x5c && !escst(src, i) }
pub open spec fn endpos(toks: Seq<Token>) -> int { if toks.len() == 0 { 0 } else { toks.last().range.end as int } }

//@ [C04]
/// (row, column) at byte i: columns count characters since the last line break; escape backslashes are not counted,
/// an escaped newline does not break the line
pub open spec fn row_col(src: Seq<u8>, i: int) -> (int, int)
    decreases i,
{
    if i <= 0 { (0, 0) } else {
        let (r, c) = row_col(src, i - 1);
        let b = src[i - 1];
        if is_marker(src, i - 1) || (0x80 <= b < 0xc0) { (r, c) }
        else if b == 10 && !escst(src, i - 1) { (r + 1, 0) }
        else { (r, c + 1) }
    }
}
pub open spec fn pos_ok(p: Position, src: Seq<u8>) -> bool {
    p.row == row_col(src, p.byte_index as int).0 && p.column == row_col(src, p.byte_index as int).1
}
//@end

//@ [C03,C06]
/// `\n` or `\r\n` at byte i: its length, else 0
pub open spec fn brk(src: Seq<u8>, i: int) -> int {
    if !(0 <= i < src.len()) { 0 } else if src[i] == 10 { 1 }
    else if src[i] == 13 && i + 1 < src.len() && src[i + 1] == 10 { 2 } else { 0 }
}
/// kinds that are one or more of the same byte
pub open spec fn run_byte(k: TokenKind) -> Option<u8> {
    match k {
        TokenKind::LeftCurlyBrace => Some(0x7bu8), TokenKind::RightCurlyBrace => Some(0x7du8), TokenKind::Tilde => Some(0x7eu8),
        TokenKind::Star => Some(0x2au8), TokenKind::Space => Some(0x20u8), TokenKind::Minus => Some(0x2du8), TokenKind::Hash => Some(0x23u8),
        TokenKind::GreaterThan => Some(0x3eu8), TokenKind::Bang => Some(0x21u8), TokenKind::Backtick => Some(0x60u8), TokenKind::Plus => Some(0x2bu8),
        _ => None,
    }
}
/// kinds that are exactly one byte
pub open spec fn one_byte(k: TokenKind) -> Option<u8> {
    match k {
        TokenKind::LeftSquareBracket => Some(0x5bu8), TokenKind::RightSquareBracket => Some(0x5du8), TokenKind::LeftParenthesis => Some(0x28u8),
        TokenKind::RightParenthesis => Some(0x29u8), TokenKind::Underscore => Some(0x5fu8), TokenKind::Pipe => Some(0x7cu8),
        _ => None,
    }
}
pub open spec fn special_byte(b: u8) -> bool {
    b == 0x7b || b == 0x7d || b == 0x7e || b == 0x2a || b == 0x2d || b == 0x23 || b == 0x3e || b == 0x21 || b == 0x60 || b == 0x2b
    || b == 0x5b || b == 0x5d || b == 0x28 || b == 0x29 || b == 0x5f || b == 0x7c || b == 0x5c || b == 10
}
/// text ends in front of this byte (unless it is escaped)
pub open spec fn special(src: Seq<u8>, i: int) -> bool {
    0 <= i < src.len() && (special_byte(src[i]) || brk(src, i) > 0
    || (src[i] == 0x25 && i + 1 < src.len() && src[i + 1] == 0x7d))
}
/// the kind of a token is determined by its bytes, and tokens are as long as they can be
pub open spec fn kind_ok(t: Token, src: Seq<u8>) -> bool {
    let (a, b) = (t.range.start as int, t.range.end as int);
    match t.kind {
        TokenKind::Literal => (!t.escaped ==> src[a] != 0x20) && (b == src.len() || special(src, b)),
        TokenKind::Eol => brk(src, a) > 0 && b == a + brk(src, a),
        TokenKind::Terminator => brk(src, a) > 0 && brk(src, a + brk(src, a)) > 0 && b == a + brk(src, a) + brk(src, a + brk(src, a)),
        TokenKind::CollapsibleStart => b == a + 2 && src[a] == 0x7b && src[a + 1] == 0x25,
        TokenKind::CollapsibleEnd => b == a + 2 && src[a] == 0x25 && src[a + 1] == 0x7d,
        k => match run_byte(k) {
            Some(c) => (forall|i: int| a <= i < b ==> #[trigger] src[i] == c) && (b == src.len() || src[b] != c)
                && (k is LeftCurlyBrace && b == a + 1 && b < src.len() ==> src[b] != 0x25),
            None => b == a + 1 && Some(src[a]) == one_byte(k),
        },
    }
}
//@end
/// bytes s..o belong to the text run that starts at s
pub open spec fn lit_body(src: Seq<u8>, s: int, o: int, esc: bool) -> bool {
    (forall|i: int| s <= i < o ==> !#[trigger] is_marker(src, i))
//@ [C03,C06]
    && (!esc ==> src[s] != 0x20) && (forall|i: int| s + (if esc { 1int } else { 0int }) <= i < o ==> !#[trigger] special(src, i))
//@end
}
pub open spec fn tok_good(t: Token, src: Seq<u8>) -> bool {
    let (a, b) = (t.range.start as int, t.range.end as int);
    0 <= a < b <= src.len() && is_char_boundary(src, a) && is_char_boundary(src, b)
    && t.position.byte_index == a
    && (forall|i: int| a <= i < b ==> !#[trigger] is_marker(src, i))
    && t.escaped == escst(src, a) && (t.escaped ==> t.kind is Literal)
//@ [C03,C06]
    && kind_ok(t, src) && (t.kind is Literal ==> lit_body(src, a, b, t.escaped))
//@end
//@ [C04]
    && pos_ok(t.position, src)
//@end
}
/// t directly follows what ends at byte e
pub open spec fn follows(e: int, t: Token, src: Seq<u8>) -> bool {
    t.range.start == e + (if t.escaped { 1int } else { 0int }) && (t.escaped ==> is_marker(src, e))
}
pub open spec fn chain(toks: Seq<Token>, src: Seq<u8>) -> bool
    decreases toks.len(),
{
    toks.len() == 0 || {
        let (r, t) = (toks.drop_last(), toks.last());
        chain(r, src) && tok_good(t, src) && follows(endpos(r), t, src)
//@ [C03,C06]
        && (r.len() > 0 && r.last().kind is Eol ==> !(t.kind is Eol) && !(t.kind is Terminator))
//@end
    }
}
/// The token stream of a source: a gapless chain of good tokens (only escape backslashes lie between tokens) up to
/// the end of the source (a last backslash that escapes nothing is dropped).
pub open spec fn lexed(toks: Seq<Token>, src: Seq<u8>) -> bool {
    chain(toks, src) && ended(toks, src)
}
pub open spec fn ended(toks: Seq<Token>, src: Seq<u8>) -> bool {
    endpos(toks) == src.len() || (endpos(toks) == src.len() - 1 && is_marker(src, src.len() - 1))
}

// ---- lemmas ----
/// t may follow the tokens toks
pub open spec fn chain_push(toks: Seq<Token>, src: Seq<u8>, t: Token) -> bool {
    chain(toks, src) && tok_good(t, src) && follows(endpos(toks), t, src)
//@ [C03,C06]
    && (toks.len() > 0 && toks.last().kind is Eol ==> !(t.kind is Eol) && !(t.kind is Terminator))
//@end
}
pub proof fn lemma_chain_push(toks: Seq<Token>, src: Seq<u8>, t: Token)
    requires chain_push(toks, src, t),
    ensures chain(toks.push(t), src), endpos(toks.push(t)) == t.range.end,
{ assert(toks.push(t).drop_last() =~= toks); }
pub proof fn lemma_chain_len(toks: Seq<Token>, src: Seq<u8>)
    requires chain(toks, src),
    ensures toks.len() <= endpos(toks) <= src.len(),
    decreases toks.len(),
{ if toks.len() > 0 { lemma_chain_len(toks.drop_last(), src); } }
pub proof fn lemma_chain_at(toks: Seq<Token>, src: Seq<u8>, k: int)
    requires chain(toks, src), 0 <= k < toks.len(),
    ensures tok_good(toks[k], src), follows(endpos(toks.take(k)), toks[k], src), chain(toks.take(k), src),
    decreases toks.len(),
{
    if k == toks.len() - 1 { assert(toks.take(k) =~= toks.drop_last()); }
    else { lemma_chain_at(toks.drop_last(), src, k); assert(toks.drop_last().take(k) =~= toks.take(k)); }
}
pub proof fn lemma_unesc_run(src: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= src.len(), forall|i: int| a <= i < b ==> !#[trigger] is_marker(src, i),
    ensures unescaped_to(src, b) == unescaped_to(src, a) + src.subrange(a, b),
    decreases b - a,
{
    if a < b {
        lemma_unesc_run(src, a, b - 1);
        assert(!is_marker(src, b - 1));
        assert(src.subrange(a, b) =~= src.subrange(a, b - 1).push(src[b - 1]));
        assert(unescaped_to(src, b) =~= unescaped_to(src, a) + src.subrange(a, b));
    } else { assert(unescaped_to(src, b) =~= unescaped_to(src, a) + src.subrange(a, b)); }
}
pub proof fn lemma_chain_text(toks: Seq<Token>, src: Seq<u8>)
    requires chain(toks, src),
    ensures toks_text(toks, src, 0, toks.len() as int) == unescaped_to(src, endpos(toks)),
    decreases toks.len(),
{
    if toks.len() > 0 {
        let (r, t) = (toks.drop_last(), toks.last());
        lemma_chain_text(r, src);
        lemma_chain_len(r, src);
        let n = toks.len() as int;
        lemma_toks_text_sub(toks, src, 0, n - 1, 0, n - 1);
        assert(toks.subrange(0, n - 1) =~= r);
        lemma_unesc_run(src, t.range.start as int, t.range.end as int);
        if t.escaped { assert(unescaped_to(src, t.range.start as int) == unescaped_to(src, endpos(r))); }
    }
}
/// what the parser builds on
pub proof fn lemma_lexed(toks: Seq<Token>, src: Seq<u8>)
    requires lexed(toks, src), src_small(src),
    ensures tokens_ok(toks, src), toks_text(toks, src, 0, toks.len() as int) == unescaped(src),
{
    lemma_chain_len(toks, src);
    lemma_chain_text(toks, src);
    reveal(adjacent);
    assert forall|i: int| 0 <= i < toks.len() implies #[trigger] tok_ok(toks[i], src) by {
        lemma_chain_at(toks, src, i);
//@ [C03,C06]
        let t = toks[i];
        if t.kind is Eol {
            if src[t.range.start as int] == 10 { assert(tok_text(t, src) =~= seq![10u8]); } else { assert(tok_text(t, src) =~= seq![13u8, 10u8]); }
        }
//@end
    }
    assert forall|i: int, j: int| #![trigger toks[i], toks[j]] 0 <= i && j == i + 1 && j < toks.len() implies
        toks[j].range.start == toks[i].range.end + (if toks[j].escaped { 1int } else { 0int }) by {
        lemma_chain_at(toks, src, j);
        assert(toks.take(j).last() == toks[i]);
    }
    if endpos(toks) != src.len() { assert(unescaped_to(src, src.len() as int) == unescaped_to(src, src.len() - 1)); }
}
