// ---- contents and their text ----
use crate::op::{Content, Node, Op, OpKind};

pub open spec fn content_text(c: Content, src: Seq<u8>) -> Seq<u8> {
    match c {
        Content::Span(r) => if r.start < r.end { src.subrange(r.start as int, r.end as int) } else { Seq::empty() },
        Content::Materialized(s) => sb(s@),
    }
}

pub open spec fn content_ok(c: Content, src: Seq<u8>) -> bool {
    match c {
        Content::Span(r) => r.start < r.end ==> r.end <= src.len() && is_char_boundary(src, r.start as int) && is_char_boundary(src, r.end as int),
        Content::Materialized(s) => true,
    }
}

pub open spec fn ops_ok(ops: Seq<Op>, src: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < ops.len() ==> content_ok(#[trigger] ops[i].content, src)
}

