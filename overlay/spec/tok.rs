// ---- tokens and their text ----
use crate::lexer::{Token, TokenKind, Position};

pub open spec fn tok_ok(t: Token, src: Seq<u8>) -> bool {
    t.range.start < t.range.end <= src.len()
    && is_char_boundary(src, t.range.start as int) && is_char_boundary(src, t.range.end as int)
//@ [C03,C06]
    && (t.kind is Eol ==> line_break(tok_text(t, src)))
//@end
}
pub open spec fn line_break(t: Seq<u8>) -> bool { t == seq![10u8] || t == seq![13u8, 10u8] }

/// sources are shorter than 2 GiB (op::destination counts parentheses in an i32)
pub open spec fn src_small(src: Seq<u8>) -> bool { src.len() < 0x7fff_ffff }

/// What the lexer guarantees about byte ranges (C02) and the parser relies on.
pub open spec fn tokens_ok(toks: Seq<Token>, src: Seq<u8>) -> bool {
    toks.len() <= src.len() && src_small(src)
    && (forall|i: int| 0 <= i < toks.len() ==> #[trigger] tok_ok(toks[i], src))
    && adjacent(toks)
}
/// each token starts where the one before ends, or one escape backslash further
#[verifier::opaque]
pub open spec fn adjacent(toks: Seq<Token>) -> bool {
    forall|i: int, j: int| #![trigger toks[i], toks[j]] 0 <= i && j == i + 1 && j < toks.len() ==>
        toks[j].range.start == toks[i].range.end + (if toks[j].escaped { 1int } else { 0int })
}

pub open spec fn tok_text(t: Token, src: Seq<u8>) -> Seq<u8> {
    src.subrange(t.range.start as int, t.range.end as int)
}

/// is byte i escaped, i.e. is the byte before it a backslash that is not itself escaped?
pub open spec fn escst(src: Seq<u8>, i: int) -> bool
    decreases i,
{
    if i <= 0 { false } else { !escst(src, i - 1) && src[i - 1] == 0x5c }
}
/// the first i bytes of the source without its escape backslashes
pub open spec fn unescaped_to(src: Seq<u8>, i: int) -> Seq<u8>
    decreases i,
{
    if i <= 0 { Seq::empty() }
    else if !escst(src, i - 1) && src[i - 1] == 0x5c { unescaped_to(src, i - 1) }
    else { unescaped_to(src, i - 1).push(src[i - 1]) }
}
pub open spec fn unescaped(src: Seq<u8>) -> Seq<u8> { unescaped_to(src, src.len() as int) }

/// text of tokens i..j, escape backslashes dropped
pub open spec fn toks_text(toks: Seq<Token>, src: Seq<u8>, i: int, j: int) -> Seq<u8>
    decreases j - i,
{
    if i < j { toks_text(toks, src, i, j - 1) + tok_text(toks[j - 1], src) } else { Seq::empty() }
}

pub proof fn lemma_toks_text_split(toks: Seq<Token>, src: Seq<u8>, i: int, j: int, k: int)
    requires i <= j <= k,
    ensures toks_text(toks, src, i, k) == toks_text(toks, src, i, j) + toks_text(toks, src, j, k),
    decreases k - j,
{
    if j < k {
        lemma_toks_text_split(toks, src, i, j, k - 1);
        assert(toks_text(toks, src, i, k) =~= toks_text(toks, src, i, j) + toks_text(toks, src, j, k));
    } else {
        assert(toks_text(toks, src, i, k) =~= toks_text(toks, src, i, j) + toks_text(toks, src, j, k));
    }
}

/// a run of tokens with no escape inside is one contiguous slice of the source
pub proof fn lemma_toks_text_contiguous(toks: Seq<Token>, src: Seq<u8>, i: int, j: int)
    requires
        0 <= i < j <= toks.len(),
        forall|k: int| 0 <= k < toks.len() ==> #[trigger] tok_ok(toks[k], src),
        forall|a: int, b: int| #![trigger toks[a], toks[b]] i <= a && b == a + 1 && b < j ==> toks[b].range.start == toks[a].range.end,
    ensures
        toks[i].range.start < toks[j - 1].range.end,
        toks_text(toks, src, i, j) == src.subrange(toks[i].range.start as int, toks[j - 1].range.end as int),
    decreases j - i,
{
    assert(tok_ok(toks[j - 1], src));
    if i + 1 < j {
        lemma_toks_text_contiguous(toks, src, i, j - 1);
        assert(tok_ok(toks[j - 2], src));
        assert(toks[j - 1].range.start == toks[j - 2].range.end);
        assert(toks_text(toks, src, i, j) =~= src.subrange(toks[i].range.start as int, toks[j - 1].range.end as int));
    } else {
        assert(toks_text(toks, src, i, i) =~= Seq::empty());
        assert(toks_text(toks, src, i, j) =~= tok_text(toks[i], src));
    }
}

pub proof fn lemma_toks_text_sub(toks: Seq<Token>, src: Seq<u8>, a: int, b: int, i: int, j: int)
    requires 0 <= a <= b <= toks.len(), 0 <= i <= j <= b - a,
    ensures toks_text(toks.subrange(a, b), src, i, j) == toks_text(toks, src, a + i, a + j),
    decreases j - i,
{
    if i < j {
        lemma_toks_text_sub(toks, src, a, b, i, j - 1);
    }
}
