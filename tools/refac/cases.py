CASES = []
def R(id, groups, *edits):
    CASES.append((id, groups.split(), edits))
H="src/op/heading.rs"; B="src/op/bold.rs"; P="src/op/paragraph.rs"; PA="src/op/parser.rs"; C="src/op/code.rs"; E_="src/op/embed.rs"
L="src/op/list.rs"; HL="src/op/highlight.rs"; CO="src/op/collapsible.rs"; ME="src/op/metadata.rs"; MO="src/op/modifier.rs"; D="src/op/destination.rs"
T="src/op/title.rs"; IM="src/op/image.rs"; IS="src/op/images.rs"; DO="src/op/document.rs"; AN="src/op/anchor.rs"; CS="src/op/code_span.rs"
LX="src/lexer/mod.rs"; TK="src/lexer/token.rs"; OP="src/op/mod.rs"; TY="src/op/to_yamd.rs"

# ---- parser: helper extraction
R("h-push-text-helper","op",
 (H,"""    if let Some(s) = text_start {
        let content = p.span(s..p.pos);
        p.ops.push(Op::new_value(content));
    }
""","""    push_text(p, text_start);
"""),
 (H,"pub fn heading(","""fn push_text(p: &mut Parser, text_start: Option<usize>) {
    if let Some(s) = text_start {
        let content = p.span(s..p.pos);
        p.ops.push(Op::new_value(content));
    }
}

pub fn heading("""))
R("h-flush-before-helper","op",
 (H,"""                if let Some(s) = text_start.take() {
                    let content = p.span(s..before_pos);
                    p.ops.insert(before_snap, Op::new_value(content));
                }
""","""                flush_text(p, &mut text_start, before_pos, before_snap);
"""),
 (H,"pub fn heading(","""fn flush_text(p: &mut Parser, text_start: &mut Option<usize>, end: usize, at: usize) {
    if let Some(s) = text_start.take() {
        let content = p.span(s..end);
        p.ops.insert(at, Op::new_value(content));
    }
}

pub fn heading("""))
R("h-while-let-to-loop","op",
 (H,"""    while let Some((pos, _)) = p.peek() {
        if p.at_eof() {
            break;
        } else {
            let before_pos""","""    loop {
        let Some((pos, _)) = p.peek() else {
            break;
        };
        if p.at_eof() {
            break;
        } else {
            let before_pos"""))
R("h-while-not-eof","op",
 (H,"""    while let Some((pos, _)) = p.peek() {
        if p.at_eof() {
            break;
        } else {
            let before_pos = p.pos;
            let before_snap = p.ops.len();
            if anchor(p) {
                if let Some(s) = text_start.take() {
                    let content = p.span(s..before_pos);
                    p.ops.insert(before_snap, Op::new_value(content));
                }
            } else {
                text_start.get_or_insert(pos);
                p.next();
            }
        }
    }
""","""    while !p.at_eof() {
        let before_pos = p.pos;
        let before_snap = p.ops.len();
        if anchor(p) {
            if let Some(s) = text_start.take() {
                let content = p.span(s..before_pos);
                p.ops.insert(before_snap, Op::new_value(content));
            }
        } else {
            text_start.get_or_insert(before_pos);
            p.next();
        }
    }
"""))
R("h-reorder-snap","op",(H,"""            let before_pos = p.pos;
            let before_snap = p.ops.len();
""","""            let before_snap = p.ops.len();
            let before_pos = p.pos;
"""))
R("h-negate-if","op",(H,"""            if anchor(p) {
                if let Some(s) = text_start.take() {
                    let content = p.span(s..before_pos);
                    p.ops.insert(before_snap, Op::new_value(content));
                }
            } else {
                text_start.get_or_insert(pos);
                p.next();
            }
""","""            if !anchor(p) {
                text_start.get_or_insert(pos);
                p.next();
            } else if let Some(s) = text_start.take() {
                let content = p.span(s..before_pos);
                p.ops.insert(before_snap, Op::new_value(content));
            }
"""))
R("h-match-start","op",(H,"""    let Some(start_range) = eat_seq!(p, is_hash, is_space) else {
        return false;
    };
""","""    let start_range = match eat_seq!(p, is_hash, is_space) {
        Some(range) => range,
        None => return false,
    };
"""))
R("h-text-start-match","op",(H,"text_start.get_or_insert(pos);","""if text_start.is_none() {
                    text_start = Some(pos);
                }"""))
R("h-const","op",(H,"t.range.len() <= 6","t.range.len() <= MAX_LEVEL"),(H,"fn is_hash","const MAX_LEVEL: usize = 6;\n\nfn is_hash"))
R("b-rollback-method","op",
 (B,"""    p.pos = start;
    p.ops.truncate(snap);
    false
""","""    p.rollback(start, snap);
    false
"""),
 (C,"""    let Some((body_range, close_range)) = scan else {
        p.pos = start_pos;
        p.ops.truncate(snap);
""","""    let Some((body_range, close_range)) = scan else {
        p.rollback(start_pos, snap);
"""),
 (IM,"""    if !title(p) {
        p.pos = start;
        p.ops.truncate(snap);
""","""    if !title(p) {
        p.rollback(start, snap);
"""),
 (PA,"""    /// Consumes the parser and""","""    /// Restores the cursor and drops the ops pushed since `snap`.
    pub(crate) fn rollback(&mut self, pos: usize, snap: usize) {
        self.pos = pos;
        self.ops.truncate(snap);
    }

    /// Consumes the parser and"""))
R("b-checkpoint-tuple","op",
 (B,"""    let start = p.pos;
    let snap = p.ops.len();
""","""    let (start, snap) = (p.pos, p.ops.len());
"""))
R("b-no-flag","op",
 (B,"""            p.ops.push(Op::new_end(Node::Bold, end_content));
            found_end = true;
            break;
""","""            p.ops.push(Op::new_end(Node::Bold, end_content));
            return true;
"""),(B,"    let mut found_end = false;\n",""),(B,"""    if found_end {
        return true;
    }

""",""))
R("b-if-let-take","op",(B,"""            let matched = strikethrough(p) || italic(p);
            if matched {
""","""            if strikethrough(p) || italic(p) {
"""))
R("b-inner-extract","op",(B,"""            let matched = strikethrough(p) || italic(p);
""","""            let matched = nested(p);
"""),(B,"pub fn bold","""fn nested(p: &mut Parser) -> bool {
    strikethrough(p) || italic(p)
}

pub fn bold"""))
R("p-loop","op",(P,"    while !p.at_eof() {\n","    loop {\n        if p.at_eof() {\n            break;\n        }\n"))
R("p-inline-helper","op",(P,"""        let matched =
            strikethrough(p) || italic(p) || bold(p) || anchor(p) || code_span(p) || emphasis(p);
        if matched {""","""        if inline(p) {"""),(P,"pub fn paragraph","""fn inline(p: &mut Parser) -> bool {
    strikethrough(p) || italic(p) || bold(p) || anchor(p) || code_span(p) || emphasis(p)
}

pub fn paragraph"""))
R("p-usepos","op",(P,"text_start.get_or_insert(p.pos);","text_start.get_or_insert(pos);"))
R("p-if-let-some-ref","op",(P,"""        if matched {
            if let Some(start) = text_start.take() {
                let content = p.span(start..pos);
                p.ops.insert(snap, Op::new_value(content));
            }
        } else {
            text_start.get_or_insert(p.pos);
            p.next();
        }
""","""        if !matched {
            text_start.get_or_insert(p.pos);
            p.next();
            continue;
        }
        if let Some(start) = text_start.take() {
            let content = p.span(start..pos);
            p.ops.insert(snap, Op::new_value(content));
        }
"""))
BLKEND_C="""    let end_range = if let Some(eol_range) = p.eat(is_eol) {
        close_range.start..eol_range.end
    } else if p.at_block_boundary() {
        close_range
    } else {
        p.pos = start_pos;
        p.ops.truncate(snap);
        return false;
    };
"""
R("c-block-end-helper","op",(C,BLKEND_C,"""    let Some(end_range) = block_end(p, close_range) else {
        p.pos = start_pos;
        p.ops.truncate(snap);
        return false;
    };
"""),(C,"pub fn code(","""fn block_end(p: &mut Parser, close: std::ops::Range<usize>) -> Option<std::ops::Range<usize>> {
    if let Some(eol_range) = p.eat(is_eol) {
        Some(close.start..eol_range.end)
    } else if p.at_block_boundary() {
        Some(close)
    } else {
        None
    }
}

pub fn code("""))
R("c-match-end","op",(C,BLKEND_C,"""    let end_range = match p.eat(is_eol) {
        Some(eol_range) => close_range.start..eol_range.end,
        None if p.at_block_boundary() => close_range,
        None => {
            p.pos = start_pos;
            p.ops.truncate(snap);
            return false;
        }
    };
"""))
R("c-reorder-spans","op",(C,"""    let body_content = p.span(body_range);
    let end_content = p.span(end_range);
    p.ops.push(Op::new_value(body_content));
""","""    let end_content = p.span(end_range);
    let body_content = p.span(body_range);
    p.ops.push(Op::new_value(body_content));
"""))
R("c-inline-content","op",(C,"""    let body_content = p.span(body_range);
    let end_content = p.span(end_range);
    p.ops.push(Op::new_value(body_content));
    p.ops.push(Op::new_end(Node::Code, end_content));
""","""    let body_content = p.span(body_range);
    p.ops.push(Op::new_value(body_content));
    let end_content = p.span(end_range);
    p.ops.push(Op::new_end(Node::Code, end_content));
"""))
R("c-modifier-if","op",(C,"""    let with_modifier = !p.get(first_range.end - 1).is_some_and(eol);
""","""    let with_modifier = match p.get(first_range.end - 1) {
        Some(t) => !eol(t),
        None => true,
    };
"""))
R("c-early","op",(C,"""    let first_range = eat_seq!(p, is_backtick3, is_eol).or_else(|| p.eat(is_backtick3));
    let Some(first_range) = first_range else {
        return false;
    };
""","""    let Some(first_range) = eat_seq!(p, is_backtick3, is_eol).or_else(|| p.eat(is_backtick3)) else {
        return false;
    };
"""))
R("c-snap-order","op",(C,"""    let start_pos = p.pos;
    let snap = p.ops.len();
""","""    let snap = p.ops.len();
    let start_pos = p.pos;
"""))
R("e-question-helper","op",(E_,"""    let Some((lhs_range, sep_range)) = p.eat_until(is_pipe) else {
        p.pos = start;
        return false;
    };

    let Some((rhs_range, close_range)) = p.eat_until(is_right_curly2) else {
        p.pos = start;
        return false;
    };
""","""    let Some((lhs_range, sep_range, rhs_range, close_range)) = parts(p) else {
        p.pos = start;
        return false;
    };
"""),(E_,"pub fn embed(","""type R = std::ops::Range<usize>;

fn parts(p: &mut Parser) -> Option<(R, R, R, R)> {
    let (lhs, sep) = p.eat_until(is_pipe)?;
    let (rhs, close) = p.eat_until(is_right_curly2)?;
    Some((lhs, sep, rhs, close))
}

pub fn embed("""))
R("e-emit-helper","op",(E_,"""    p.ops.push(Op::new_start(Node::Embed, start_content));
    p.ops.push(Op::new_value(lhs_content));
    p.ops.push(Op::new_value(sep_content));
    p.ops.push(Op::new_value(rhs_content));
    p.ops.push(Op::new_end(Node::Embed, end_content));
""","""    p.ops.push(Op::new_start(Node::Embed, start_content));
    for content in [lhs_content, sep_content, rhs_content] {
        p.ops.push(Op::new_value(content));
    }
    p.ops.push(Op::new_end(Node::Embed, end_content));
"""))
R("e-extend","op",(E_,"""    p.ops.push(Op::new_start(Node::Embed, start_content));
    p.ops.push(Op::new_value(lhs_content));
    p.ops.push(Op::new_value(sep_content));
    p.ops.push(Op::new_value(rhs_content));
    p.ops.push(Op::new_end(Node::Embed, end_content));
""","""    p.ops.extend([
        Op::new_start(Node::Embed, start_content),
        Op::new_value(lhs_content),
        Op::new_value(sep_content),
        Op::new_value(rhs_content),
        Op::new_end(Node::Embed, end_content),
    ]);
"""))
R("e-is-eol-shared","op",(E_,"""fn is_eol(t: &Token) -> bool {
    t.kind == TokenKind::Eol
}

""",""),(E_,"op::{Node, Op, Parser},","op::{Node, Op, Parser, parser::eol},"),(E_,"p.eat(is_eol)","p.eat(eol)"))
R("e-rename-pred","op",(E_,"fn is_pipe","fn is_separator"),(E_,"p.eat_until(is_pipe)","p.eat_until(is_separator)"))
R("e-pred-matches","op",(E_,"    t.kind == TokenKind::Pipe && t.range.len() == 1","    matches!(t.kind, TokenKind::Pipe) && t.range.len() == 1"))
R("e-pred-order","op",(E_,"    t.kind == TokenKind::LeftCurlyBrace && t.position.column == 0 && t.range.len() == 2","    t.position.column == 0 && t.range.len() == 2 && t.kind == TokenKind::LeftCurlyBrace"))
R("l-loop","op",(L,"    while list_item(p, level, Some(list_kind)).is_some() {}\n","    loop {\n        if list_item(p, level, Some(list_kind)).is_none() {\n            break;\n        }\n    }\n"))
R("l-no-alias","op",(L,"    let list_start_idx = snap;\n",""),(L,"        list_start_idx,\n","        snap,\n"))
R("l-marker-idx","op",(L,"    let marker_idx = p.pos + if level == 0 { 0 } else { 1 };\n","    let marker_idx = if level == 0 { p.pos } else { p.pos + 1 };\n"))
R("l-marker-match","op",(L,"    let marker_kind = ListKind::try_from(p.get(marker_idx)?).ok()?;\n","""    let Some(token) = p.get(marker_idx) else {
        return None;
    };
    let Ok(marker_kind) = ListKind::try_from(token) else {
        return None;
    };
"""))
R("l-prefix-helper","op",(L,"""    let start_range = if level == 0 {
        eat_seq!(p, |t: &Token| is_list_marker(t, kind), is_space)?
    } else {
        eat_seq!(
            p,
            |t: &Token| t.kind == TokenKind::Space && t.range.len() == level,
            |t: &Token| is_list_marker(t, kind),
            is_space
        )?
    };
""","""    let start_range = item_prefix(p, level, kind)?;
"""),(L,"fn list_item(","""fn item_prefix(p: &mut Parser, level: usize, kind: Option<ListKind>) -> Option<std::ops::Range<usize>> {
    if level == 0 {
        eat_seq!(p, |t: &Token| is_list_marker(t, kind), is_space)
    } else {
        eat_seq!(
            p,
            |t: &Token| t.kind == TokenKind::Space && t.range.len() == level,
            |t: &Token| is_list_marker(t, kind),
            is_space
        )
    }
}

fn list_item("""))
R("l-eof-guard","op",(L,"    if !p.at_eof() {\n        list_inner(p, level + 1);\n    }\n","    let more = !p.at_eof();\n    if more {\n        let _ = list_inner(p, level + 1);\n    }\n"))
R("hl-icon-rollback","op",(HL,"""    let Some((body_range, end_range)) = p.eat_until(is_eol) else {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    };

    let start_content""","""    let Some((body_range, end_range)) = p.eat_until(is_eol) else {
        p.pos = start;
        return false;
    };

    let start_content"""),(HL,"""fn icon(p: &mut Parser) -> bool {
    let start = p.pos;
    let snap = p.ops.len();
""","""fn icon(p: &mut Parser) -> bool {
    let start = p.pos;
"""))
R("hl-close-helper","op",(HL,"""        if let Some(close_range) = p.eat(is_two_bangs) {
            let end_range = if let Some(eol_range) = p.eat(is_eol) {
                close_range.start..eol_range.end
            } else {
                close_range
            };
            let end_content = p.span(end_range);
            p.ops.push(Op::new_end(Node::Highlight, end_content));
            return true;
        } else if""","""        if close(p) {
            return true;
        } else if"""),(HL,"pub fn highlight(","""fn close(p: &mut Parser) -> bool {
    let Some(close_range) = p.eat(is_two_bangs) else {
        return false;
    };
    let end_range = if let Some(eol_range) = p.eat(is_eol) {
        close_range.start..eol_range.end
    } else {
        close_range
    };
    let end_content = p.span(end_range);
    p.ops.push(Op::new_end(Node::Highlight, end_content));
    true
}

pub fn highlight("""))
R("hl-close-map","op",(HL,"""            let end_range = if let Some(eol_range) = p.eat(is_eol) {
                close_range.start..eol_range.end
            } else {
                close_range
            };
""","""            let end_range = match p.eat(is_eol) {
                Some(eol_range) => close_range.start..eol_range.end,
                None => close_range,
            };
"""))
R("hl-close-endpos","op",(HL,"""            let end_range = if let Some(eol_range) = p.eat(is_eol) {
                close_range.start..eol_range.end
            } else {
                close_range
            };
""","""            p.eat(is_eol);
            let end_range = close_range.start..p.pos;
"""))
R("hl-not-else","op",(HL,"""            return true;
        } else if let Some(term_range) = p.eat(is_terminator) {""","""            return true;
        }
        if let Some(term_range) = p.eat(is_terminator) {"""))
R("hl-skip-title","op",(HL,"""    let skip_title = p.get(start_range.end - 1).is_some_and(eol);
""",""" """),(HL,"""    if !skip_title {
        modifier(p);
    }
""","""    if has_title {
        modifier(p);
    }
"""),(HL,"""    let start_content = p.span(start_range);
    p.ops.push(Op::new_start(Node::Highlight, start_content));
""","""    let has_title = !p.get(start_range.end - 1).is_some_and(eol);
    let start_content = p.span(start_range);
    p.ops.push(Op::new_start(Node::Highlight, start_content));
"""))
R("co-fail-helper","op",(CO,"""    if !p.at(|t: &Token| t.position.column == 0) {
        p.pos = start;
        p.ops.truncate(snap);
        p.flip_to_literal(start);
        return false;
    }
""","""    if !p.at(|t: &Token| t.position.column == 0) {
        return fail(p, start, snap);
    }
"""),(CO,"""    let Some(end_range) = end_range else {
        p.pos = start;
        p.ops.truncate(snap);
        p.flip_to_literal(start);
        return false;
    };
""","""    let Some(end_range) = end_range else {
        return fail(p, start, snap);
    };
"""),(CO,"pub fn collapsible(","""fn fail(p: &mut Parser, start: usize, snap: usize) -> bool {
    p.pos = start;
    p.ops.truncate(snap);
    p.flip_to_literal(start);
    false
}

pub fn collapsible("""))
R("co-eat-is-eol","op",(CO,"    p.eat(|t: &Token| t.kind == TokenKind::Eol);\n","    p.eat(is_eol);\n"))
R("co-with-eof-fn","op",(CO,"""    p.with_eof(StopCondition::CollapsibleEnd, |p| {
        document(p);
    });
""","""    p.with_eof(StopCondition::CollapsibleEnd, document);
"""))
R("me-helper-leaf","op",
 (ME,"""    let start_content = p.span(start_range);
    let body_content = p.span(body_range);
    let end_content = p.span(end_range);
    p.ops.push(Op::new_start(Node::Metadata, start_content));
    p.ops.push(Op::new_value(body_content));
    p.ops.push(Op::new_end(Node::Metadata, end_content));
    true
""","""    emit(p, start_range, body_range, end_range);
    true
"""),(ME,"pub fn metadata(","""use std::ops::Range;

fn emit(p: &mut Parser, start: Range<usize>, body: Range<usize>, end: Range<usize>) {
    let start_content = p.span(start);
    let body_content = p.span(body);
    let end_content = p.span(end);
    p.ops.push(Op::new_start(Node::Metadata, start_content));
    p.ops.push(Op::new_value(body_content));
    p.ops.push(Op::new_end(Node::Metadata, end_content));
}

pub fn metadata("""))
R("leaf-method","op",
 (PA,"    /// Consumes the parser and","""    /// Pushes a leaf node.
    pub(crate) fn push_leaf(&mut self, node: fn() -> Node, start: Range<usize>, body: Range<usize>, end: Range<usize>) {
        let start_content = self.span(start);
        let body_content = self.span(body);
        let end_content = self.span(end);
        self.ops.push(Op::new_start(node(), start_content));
        self.ops.push(Op::new_value(body_content));
        self.ops.push(Op::new_end(node(), end_content));
    }

    /// Consumes the parser and"""),
 (T,"""    let start_content = p.span(start_range);
    let body_content = p.span(body_range);
    let end_content = p.span(end_range);
    p.ops.push(Op::new_start(Node::Title, start_content));
    p.ops.push(Op::new_value(body_content));
    p.ops.push(Op::new_end(Node::Title, end_content));
""","""    p.push_leaf(|| Node::Title, start_range, body_range, end_range);
"""),(T,"op::{Node, Op, Parser}","op::{Node, Parser}"))
R("leaf-method-2","op",
 (PA,"    /// Consumes the parser and","""    /// Pushes a leaf node.
    pub(crate) fn push_leaf(&mut self, start: Op, body: Range<usize>, end: Op) {
        let body_content = self.span(body);
        self.ops.push(start);
        self.ops.push(Op::new_value(body_content));
        self.ops.push(end);
    }

    /// Consumes the parser and"""),
 (T,"""    let body_content = p.span(body_range);
    let end_content = p.span(end_range);
    p.ops.push(Op::new_start(Node::Title, start_content));
    p.ops.push(Op::new_value(body_content));
    p.ops.push(Op::new_end(Node::Title, end_content));
""","""    let end_content = p.span(end_range);
    p.push_leaf(
        Op::new_start(Node::Title, start_content),
        body_range,
        Op::new_end(Node::Title, end_content),
    );
"""))
R("mo-at","op",(MO,"    if p.peek().is_some_and(|(_, t)| t.position.column == 0) {","    if p.at(|t| t.position.column == 0) {"))
R("mo-else","op",(MO,"""    if p.peek().is_some_and(|(_, t)| t.position.column == 0) {
        return false;
    }

    let Some""","""    let at_line_start = p.peek().is_some_and(|(_, t)| t.position.column == 0);
    if at_line_start {
        return false;
    }
    let Some"""))
R("mo-if-let","op",(MO,"""    let Some((body_range, end_range)) = p.eat_until(is_eol_or_terminator) else {
        return false;
    };

    let body_content = p.span(body_range);
    let end_content = p.span(end_range);
    p.ops
        .push(Op::new_start(Node::Modifier, Content::Span(0..0)));
    p.ops.push(Op::new_value(body_content));
    p.ops.push(Op::new_end(Node::Modifier, end_content));
    true
""","""    if let Some((body_range, end_range)) = p.eat_until(is_eol_or_terminator) {
        let body_content = p.span(body_range);
        let end_content = p.span(end_range);
        p.ops
            .push(Op::new_start(Node::Modifier, Content::Span(0..0)));
        p.ops.push(Op::new_value(body_content));
        p.ops.push(Op::new_end(Node::Modifier, end_content));
        true
    } else {
        false
    }
"""))
R("d-next","op",(D,"""        match token.kind {
            TokenKind::LeftParenthesis => {
                paren_count += 1;
                p.pos = i + 1;
            }
            TokenKind::RightParenthesis => {
                paren_count -= 1;
                end_pos = i;
                p.pos = i + 1;
                if paren_count == 0 {
                    break;
                }
            }
            _ => {
                p.pos = i + 1;
            }
        }
""","""        let kind = token.kind.clone();
        p.pos = i + 1;
        match kind {
            TokenKind::LeftParenthesis => paren_count += 1,
            TokenKind::RightParenthesis => {
                paren_count -= 1;
                end_pos = i;
                if paren_count == 0 {
                    break;
                }
            }
            _ => {}
        }
"""))
R("d-if-chain","op",(D,"""        match token.kind {
            TokenKind::LeftParenthesis => {
                paren_count += 1;
                p.pos = i + 1;
            }
            TokenKind::RightParenthesis => {
                paren_count -= 1;
                end_pos = i;
                p.pos = i + 1;
                if paren_count == 0 {
                    break;
                }
            }
            _ => {
                p.pos = i + 1;
            }
        }
""","""        if token.kind == TokenKind::LeftParenthesis {
            paren_count += 1;
            p.pos = i + 1;
        } else if token.kind == TokenKind::RightParenthesis {
            paren_count -= 1;
            end_pos = i;
            p.pos = i + 1;
            if paren_count == 0 {
                break;
            }
        } else {
            p.pos = i + 1;
        }
"""))
R("d-option-end","op",(D,"    let mut end_pos = start;\n","    let mut end_pos: Option<usize> = None;\n"),
 (D,"                end_pos = i;\n","                end_pos = Some(i);\n"),
 (D,"""    if start == end_pos {
        p.pos = start;
        return false;
    }
""","""    let Some(end_pos) = end_pos else {
        p.pos = start;
        return false;
    };
"""))
R("d-usize","op",(D,"let mut paren_count = 1;","let mut paren_count: usize = 1;"))
R("im-or","op",(IM,"""    if !title(p) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }

    if !destination(p) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }
""","""    if !title(p) || !destination(p) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }
"""))
R("im-end-content","op",(IM,"""    if let Some(eol_range) = p.eat(is_eol) {
        let end_content = p.span(eol_range);
        p.ops.push(Op::new_end(Node::Image, end_content));
        return true;
    } else if p.at_eof() {
        p.ops.push(Op::new_end(Node::Image, Content::Span(0..0)));
        return true;
    }

    p.pos = start;
    p.ops.truncate(snap);
    false
""","""    let end_content = if let Some(eol_range) = p.eat(is_eol) {
        p.span(eol_range)
    } else if p.at_eof() {
        Content::Span(0..0)
    } else {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    };
    p.ops.push(Op::new_end(Node::Image, end_content));
    true
"""))
R("is-bool","op",(IS,"    while p.peek().is_some() {\n        if image(p) {\n            count += 1;\n        } else if p.at_eof() {\n            break;\n        } else {","    while p.peek().is_some() {\n        if image(p) {\n            count += 1;\n            continue;\n        }\n        if p.at_eof() {\n            break;\n        } else {"))
R("is-loop","op",(IS,"    while p.peek().is_some() {\n","    while let Some(_) = p.peek() {\n"))
R("is-ge2","op",(IS,"    if count > 1 {","    if count >= 2 {"),(IS,"    count > 0\n","    count != 0\n"))
R("do-continue","op",(DO,"""        } else if code(p) || collapsible(p) || embed(p) || highlight(p) {
        } else {
            p.with_eof(StopCondition::Terminator, |p| {
                if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                    paragraph(p);
                }
            });
        }
""","""        } else if !(code(p) || collapsible(p) || embed(p) || highlight(p)) {
            p.with_eof(StopCondition::Terminator, |p| {
                if !(list(p, 0) || images(p) || thematic_break(p) || heading(p)) {
                    paragraph(p);
                }
            });
        }
"""))
R("do-block-helper","op",(DO,"""            p.with_eof(StopCondition::Terminator, |p| {
                if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                    paragraph(p);
                }
            });
""","""            p.with_eof(StopCondition::Terminator, block);
"""),(DO,"pub fn document(","""fn block(p: &mut Parser) {
    if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
        paragraph(p);
    }
}

pub fn document("""))
R("do-block-helper-2","op",(DO,"""        } else if code(p) || collapsible(p) || embed(p) || highlight(p) {
        } else {
            p.with_eof(StopCondition::Terminator, |p| {
                if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                    paragraph(p);
                }
            });
        }
""","""        } else if !fenced(p) {
            p.with_eof(StopCondition::Terminator, |p| block(p));
        }
"""),(DO,"pub fn document(","""fn fenced(p: &mut Parser) -> bool {
    code(p) || collapsible(p) || embed(p) || highlight(p)
}

fn block(p: &mut Parser) {
    let matched = list(p, 0) || images(p) || thematic_break(p) || heading(p);
    if !matched {
        paragraph(p);
    }
}

pub fn document("""))
R("do-early-continue","op",(DO,"""            p.ops.push(Op::new_value(content));
        } else if code(p) || collapsible(p) || embed(p) || highlight(p) {
        } else {
            p.with_eof(StopCondition::Terminator, |p| {
                if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                    paragraph(p);
                }
            });
        }

        debug_assert!(
            p.pos > before,
            "document loop made no progress at token {before}"
        );
""","""            p.ops.push(Op::new_value(content));
            continue;
        }
        if code(p) || collapsible(p) || embed(p) || highlight(p) {
            continue;
        }
        p.with_eof(StopCondition::Terminator, |p| {
            if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                paragraph(p);
            }
        });

        debug_assert!(
            p.pos > before,
            "document loop made no progress at token {before}"
        );
"""))
R("an-nested-if","op",(AN,"""    if !title(p) || !destination(p) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }
    p.ops.push(Op::new_end(Node::Anchor, Content::Span(0..0)));
    true
""","""    if title(p) && destination(p) {
        p.ops.push(Op::new_end(Node::Anchor, Content::Span(0..0)));
        return true;
    }
    p.pos = start;
    p.ops.truncate(snap);
    false
"""))
R("cs-matchret","op",(CS,"""    let Some(start_range) = p.eat(is_backtick) else {
        return false;
    };
    let Some((body_range, end_range)) = p.eat_until(is_backtick) else {
        p.pos = start;
        return false;
    };
""","""    let start_range = match p.eat(is_backtick) {
        Some(r) => r,
        None => return false,
    };
    let (body_range, end_range) = match p.eat_until(is_backtick) {
        Some(r) => r,
        None => {
            p.pos = start;
            return false;
        }
    };
"""))
R("pa-eat-while","op",(PA,"""        let token = self.tokens.get(self.pos)?;
        if pred(token) {
            let start = self.pos;
            self.pos += 1;
            Some(start..self.pos)
        } else {
            None
        }
""","""        let start = self.pos;
        if !self.at(pred) {
            return None;
        }
        self.pos += 1;
        Some(start..self.pos)
"""))
R("pa-at-match","op",(PA,"        self.peek().is_some_and(|(_, t)| pred(t))\n","""        match self.peek() {
            Some((_, t)) => pred(t),
            None => false,
        }
"""))
R("pa-peek-map","op",(PA,"        Some((self.pos, self.tokens.get(self.pos)?))\n","        self.tokens.get(self.pos).map(|t| (self.pos, t))\n"))
R("pa-until-restructure","op",(PA,"""        while let Some(token) = self.tokens.get(self.pos) {
            if self.at_eof() {
                break;
            }
            if matcher(token) {
                let before = start..self.pos;
                let match_start = self.pos;
                self.pos += 1;
                return Some((before, match_start..self.pos));
            }
            self.pos += 1;
        }
""","""        while !self.at_eof() {
            let at = self.pos;
            if self.at(&matcher) {
                self.pos += 1;
                return Some((start..at, at..at + 1));
            }
            self.pos += 1;
        }
"""))
R("pa-until-vars","op",(PA,"""                let before = start..self.pos;
                let match_start = self.pos;
                self.pos += 1;
                return Some((before, match_start..self.pos));
""","""                let end = self.pos;
                self.pos = end + 1;
                return Some((start..end, end..end + 1));
"""))
R("pa-eofs-extend","op",(PA,"""        for &c in conds {
            self.eof_stack.push(c);
        }
        let result = f(self);
        for _ in conds {
            self.eof_stack.pop();
        }
        result
""","""        let depth = self.eof_stack.len();
        self.eof_stack.extend_from_slice(conds);
        let result = f(self);
        self.eof_stack.truncate(depth);
        result
"""))
R("pa-ateof-for","op",(PA,"        self.eof_stack.iter().any(|cond| cond.matches(token, self))\n","""        for cond in &self.eof_stack {
            if cond.matches(token, self) {
                return true;
            }
        }
        false
"""))
R("pa-span-if","op",(PA,"""        if range.is_empty() {
            return Content::Span(0..0);
        }
        let tokens""","""        if range.start >= range.end {
            return Content::Span(0..0);
        }
        let tokens"""))
R("pa-span-index","op",(PA,"""            let byte_start = tokens.first().unwrap().range.start;
            let byte_end = tokens.last().unwrap().range.end;
""","""            let byte_start = tokens[0].range.start;
            let byte_end = tokens[tokens.len() - 1].range.end;
"""))
R("pa-boundary","op",(PA,"        self.at_eof() || self.at(|t| t.kind == TokenKind::Terminator)\n","""        if self.at_eof() {
            return true;
        }
        self.at(|t| t.kind == TokenKind::Terminator)
"""))
R("pa-listkind-match","op",(PA,"""        if value.kind == TokenKind::Minus && value.range.len() == 1 {
            Ok(ListKind::Unordered)
        } else if value.kind == TokenKind::Plus && value.range.len() == 1 {
            Ok(ListKind::Ordered)
        } else {
            Err(())
        }
""","""        if value.range.len() != 1 {
            return Err(());
        }
        match value.kind {
            TokenKind::Minus => Ok(ListKind::Unordered),
            TokenKind::Plus => Ok(ListKind::Ordered),
            _ => Err(()),
        }
"""))
R("pa-islist-match","op",(PA,"    ListKind::try_from(t).is_ok_and(|k| kind.is_none_or(|want| k == want))\n","""    match (ListKind::try_from(t), kind) {
        (Ok(k), Some(want)) => k == want,
        (Ok(_), None) => true,
        (Err(_), _) => false,
    }
"""))
R("pa-boundary-level-helper","op",(PA,"""        if matched {
            return true;
        }
    }
    false
}

impl StopCondition""","""        if !matched {
            continue;
        }
        return true;
    }
    false
}

impl StopCondition"""))
R("pa-flip-if","op",(PA,"""        if let Some(token) = self.tokens.get_mut(pos) {
            token.kind = TokenKind::Literal;
        }
""","""        if pos < self.tokens.len() {
            self.tokens[pos].kind = TokenKind::Literal;
        }
"""))
R("pa-stops-replace","op",(PA,"        let saved = std::mem::take(&mut self.eof_stack);\n","        let saved = std::mem::replace(&mut self.eof_stack, Vec::new());\n"))
R("op-parse-chain","op",(OP,"""    let mut parser = Parser::from(input);
    metadata::metadata(&mut parser);
    document::document(&mut parser);
    parser.into_ops()
""","""    let mut p: Parser = input.into();
    metadata::metadata(&mut p);
    document::document(&mut p);
    p.into_ops()
"""))
R("op-new-module","op",
 ("src/op/util.rs",None,"""use crate::op::Parser;

/// Restores the cursor and drops the ops pushed since `snap`.
pub(crate) fn rollback(p: &mut Parser, pos: usize, snap: usize) -> bool {
    p.pos = pos;
    p.ops.truncate(snap);
    false
}
"""),
 (OP,"mod to_yamd;\n","mod to_yamd;\nmod util;\n"),
 (AN,"use crate::op::{Content, Node, Op, Parser, destination::destination, title::title};","use crate::op::{Content, Node, Op, Parser, destination::destination, title::title, util::rollback};"),
 (AN,"""        p.pos = start;
        p.ops.truncate(snap);
        return false;
""","""        return rollback(p, start, snap);
"""))
# ---- lexer
R("lx-take-while-loop","lexer",(LX,"        while self.next_is(c) {}\n","        loop {\n            if !self.next_is(c) {\n                break;\n            }\n        }\n"))
R("lx-emit-single","lexer",(LX,"    fn advance(&mut self) {","""    fn emit_single(&mut self, kind: TokenKind, position: Position) {
        self.emit(self.to_token(kind, position, 1))
    }

    fn advance(&mut self) {"""),
 (LX,"'[' => self.emit(self.to_token(TokenKind::LeftSquareBracket, position, 1)),","'[' => self.emit_single(TokenKind::LeftSquareBracket, position),"),
 (LX,"']' => self.emit(self.to_token(TokenKind::RightSquareBracket, position, 1)),","']' => self.emit_single(TokenKind::RightSquareBracket, position),"),
 (LX,"'|' => self.emit(self.to_token(TokenKind::Pipe, position, 1)),","'|' => self.emit_single(TokenKind::Pipe, position),"))
R("lx-escape-helper","lexer",(LX,"""            '\\\\' => {
                self.emit_literal_if_started(position.byte_index);
                if let Some((pos, _)) = self.next_char(true) {
                    self.escaped = true;
                    self.literal_start.get_or_insert(pos);
                }
            }
""","""            '\\\\' => self.escape(position),
"""),(LX,"    fn parse(&mut self","""    fn escape(&mut self, position: Position) {
        self.emit_literal_if_started(position.byte_index);
        if let Some((pos, _)) = self.next_char(true) {
            self.escaped = true;
            self.literal_start.get_or_insert(pos);
        }
    }

    fn parse(&mut self"""))
R("lx-eol-if","lexer",(LX,"""        let Some(t) = self
            .token
            .replace(self.to_token(TokenKind::Eol, position, len_in_bytes))
        else {
            return;
        };
        if t.kind == TokenKind::Eol {
            self.token.replace(self.to_token(
                TokenKind::Terminator,
                t.position,
                t.range.len() + len_in_bytes,
            ));
            return;
        }
        self.queue.push_back(t);
""","""        let eol = self.to_token(TokenKind::Eol, position, len_in_bytes);
        if let Some(t) = self.token.replace(eol) {
            if t.kind == TokenKind::Eol {
                let len = t.range.len() + len_in_bytes;
                self.token = Some(self.to_token(TokenKind::Terminator, t.position, len));
            } else {
                self.queue.push_back(t);
            }
        }
"""))
R("lx-next-is-match","lexer",(LX,"""        let Some((_, next_char)) = self.iter.peek() else {
            return false;
        };
        if *next_char == char {
            self.next_char(false);
            return true;
        }
        false
""","""        match self.iter.peek() {
            Some((_, next_char)) if *next_char == char => {
                self.next_char(false);
                true
            }
            _ => false,
        }
"""))
R("lx-next-char-let","lexer",(LX,"""        if let Some((byte_offset, char)) = self.iter.next() {
            self.position.byte_index = byte_offset;
            let res = Some((self.position.clone(), char));
            if char != '\\\\' || escaped {
                self.position.column += 1;
            }
            return res;
        }
        None
""","""        let (byte_offset, char) = self.iter.next()?;
        self.position.byte_index = byte_offset;
        let position = self.position.clone();
        if char != '\\\\' || escaped {
            self.position.column += 1;
        }
        Some((position, char))
"""))
R("lx-emit-match","lexer",(LX,"""        if let Some(l) = self.token.replace(token) {
            self.queue.push_back(l);
        }
    }

    fn next_is""","""        match self.token.replace(token) {
            Some(l) => self.queue.push_back(l),
            None => {}
        }
    }

    fn next_is"""))
R("lx-push-helper","lexer",(LX,"""        if let Some(l) = self.token.replace(token) {
            self.queue.push_back(l);
        }
    }

    fn next_is""","""        self.push(token);
    }

    fn push(&mut self, token: Token) {
        if let Some(l) = self.token.replace(token) {
            self.queue.push_back(l);
        }
    }

    fn next_is"""),(LX,"""            if let Some(token) = self.token.replace(Token {
                kind: TokenKind::Literal,
                range: start_position.byte_index..end_byte_index,
                position: start_position,
                escaped: self.escaped,
            }) {
                self.queue.push_back(token);
            }
            self.escaped = false;
""","""            let escaped = self.escaped;
            self.push(Token {
                kind: TokenKind::Literal,
                range: start_position.byte_index..end_byte_index,
                position: start_position,
                escaped,
            });
            self.escaped = false;
"""))
R("lx-mem-take-escaped","lexer",(LX,"                escaped: self.escaped,\n","                escaped: std::mem::take(&mut self.escaped),\n"),(LX,"            }) {\n                self.queue.push_back(token);\n            }\n            self.escaped = false;\n","            }) {\n                self.queue.push_back(token);\n            }\n"))
R("lx-advance-finish","lexer",(LX,"""            if let Some((position, char)) = self.next_char(false) {
                self.parse(position, char);
            } else {
                self.position.byte_index = self.len;
                self.emit_literal_if_started(self.position.byte_index);
                if let Some(token) = self.token.take() {
                    self.queue.push_back(token)
                }
                return;
            }
""","""            let Some((position, char)) = self.next_char(false) else {
                self.finish();
                return;
            };
            self.parse(position, char);
"""),(LX,"    fn advance(&mut self) {","""    fn finish(&mut self) {
        self.position.byte_index = self.len;
        self.emit_literal_if_started(self.position.byte_index);
        if let Some(token) = self.token.take() {
            self.queue.push_back(token)
        }
    }

    fn advance(&mut self) {"""))
R("lx-run-kind","lexer",(LX,"""            '~' => self.take_while('~', TokenKind::Tilde, position),
            '*' => self.take_while('*', TokenKind::Star, position),
""","""            '~' | '*' => {
                let kind = if char == '~' { TokenKind::Tilde } else { TokenKind::Star };
                self.take_while(char, kind, position)
            }
"""))
R("lx-arm-order","lexer",(LX,"""            '~' => self.take_while('~', TokenKind::Tilde, position),
            '*' => self.take_while('*', TokenKind::Star, position),
""","""            '*' => self.take_while('*', TokenKind::Star, position),
            '~' => self.take_while('~', TokenKind::Tilde, position),
"""))
R("lx-crlf-nested","lexer",(LX,"            '\\r' if self.next_is('\\n') => self.eol(position, 2),\n","""            '\\r' if self.next_is('\\n') => {
                let len = 2;
                self.eol(position, len)
            }
"""))
R("lx-totoken-end","lexer",(LX,"""        Token::new(
            kind,
            position.byte_index..position.byte_index + len_in_bytes,
            position,
        )
    }

    fn take_while""","""        let start = position.byte_index;
        let end = start + len_in_bytes;
        Token::new(kind, start..end, position)
    }

    fn take_while"""))
R("lx-kind-fn","lexer",(LX,"""            '[' => self.emit(self.to_token(TokenKind::LeftSquareBracket, position, 1)),
            ']' => self.emit(self.to_token(TokenKind::RightSquareBracket, position, 1)),
            '(' => self.emit(self.to_token(TokenKind::LeftParenthesis, position, 1)),
            ')' => self.emit(self.to_token(TokenKind::RightParenthesis, position, 1)),
            '_' => self.emit(self.to_token(TokenKind::Underscore, position, 1)),
            '|' => self.emit(self.to_token(TokenKind::Pipe, position, 1)),
            _ => {
                self.literal_start.get_or_insert(position);
            }
""","""            _ => match single(char) {
                Some(kind) => self.emit(self.to_token(kind, position, 1)),
                None => {
                    self.literal_start.get_or_insert(position);
                }
            },
"""),(LX,"impl<'input> Iterator","""fn single(char: char) -> Option<TokenKind> {
    match char {
        '[' => Some(TokenKind::LeftSquareBracket),
        ']' => Some(TokenKind::RightSquareBracket),
        '(' => Some(TokenKind::LeftParenthesis),
        ')' => Some(TokenKind::RightParenthesis),
        '_' => Some(TokenKind::Underscore),
        '|' => Some(TokenKind::Pipe),
        _ => None,
    }
}

impl<'input> Iterator"""))
R("lx-literal-is-none","lexer",(LX,"""            _ => {
                self.literal_start.get_or_insert(position);
            }
""","""            _ => {
                if self.literal_start.is_none() {
                    self.literal_start = Some(position);
                }
            }
"""))
R("lx-token-self","lexer",(TK,"""        Self {
            kind,
            range,
            position,
            escaped: false,
        }
""","""        Token {
            escaped: false,
            kind,
            position,
            range,
        }
"""))
# ---- tree
R("ty-push-list","tree",(TY,"""                Node::UnorderedList => {
                    let level = count_list_depth(&stack);
                    stack.push(Frame::UnorderedList {
                        level,
                        items: Vec::new(),
                    });
                }
                Node::OrderedList => {
                    let level = count_list_depth(&stack);
                    stack.push(Frame::OrderedList {
                        level,
                        items: Vec::new(),
                    });
                }
""","""                Node::UnorderedList => stack.push(Frame::UnorderedList {
                    level: count_list_depth(&stack),
                    items: Vec::new(),
                }),
                Node::OrderedList => stack.push(Frame::OrderedList {
                    level: count_list_depth(&stack),
                    items: vec![],
                }),
"""))
R("ty-value-merge","tree",(TY,"""                    Frame::Italic { text: t } => t.push_str(&text),
                    Frame::Strikethrough { text: t } => t.push_str(&text),
                    Frame::CodeSpan { text: t } => t.push_str(&text),
""","""                    Frame::Italic { text: t }
                    | Frame::Strikethrough { text: t }
                    | Frame::CodeSpan { text: t } => t.push_str(&text),
"""))
R("ty-value-helper","tree",(TY,"""                let text = op.content.to_string(source);
                let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
                match top {
                    Frame::Heading { body, .. } => {
                        body.push(HeadingNodes::Text(text));
                    }
                    Frame::Paragraph { body } => {
                        body.push(ParagraphNodes::Text(text));
                    }
                    Frame::Bold { body } => {
                        body.push(BoldNodes::Text(text));
                    }
                    Frame::Italic { text: t } => t.push_str(&text),
                    Frame::Strikethrough { text: t } => t.push_str(&text),
                    Frame::CodeSpan { text: t } => t.push_str(&text),
                    Frame::Emphasis { text: t } => t.push_str(&text),
                    Frame::Title { text: t } => t.push_str(&text),
                    Frame::Destination { text: t } => t.push_str(&text),
                    Frame::Modifier { text: t } => t.push_str(&text),
                    Frame::Icon { text: t } => t.push_str(&text),
                    Frame::Code { code, .. } => code.push_str(&text),
                    Frame::Embed { values } => values.push(text),
                    Frame::Metadata { text: t } => t.push_str(&text),
                    Frame::ThematicBreak => {}
                    Frame::Highlight { .. } | Frame::Document { .. } => {}
                    // coverage: defensive catchall; every frame that accepts Value is enumerated above
                    _ => {}
                }
""","""                let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
                push_value(top, op.content.to_string(source));
"""),(TY,"fn extract_heading_level","""fn push_value(top: &mut Frame, text: String) {
    match top {
        Frame::Heading { body, .. } => body.push(HeadingNodes::Text(text)),
        Frame::Paragraph { body } => body.push(ParagraphNodes::Text(text)),
        Frame::Bold { body } => body.push(BoldNodes::Text(text)),
        Frame::Italic { text: t } => t.push_str(&text),
        Frame::Strikethrough { text: t } => t.push_str(&text),
        Frame::CodeSpan { text: t } => t.push_str(&text),
        Frame::Emphasis { text: t } => t.push_str(&text),
        Frame::Title { text: t } => t.push_str(&text),
        Frame::Destination { text: t } => t.push_str(&text),
        Frame::Modifier { text: t } => t.push_str(&text),
        Frame::Icon { text: t } => t.push_str(&text),
        Frame::Code { code, .. } => code.push_str(&text),
        Frame::Embed { values } => values.push(text),
        Frame::Metadata { text: t } => t.push_str(&text),
        _ => {}
    }
}

fn extract_heading_level"""))
R("ty-depth-loop","tree",(TY,"""    stack
        .iter()
        .filter(|f| matches!(f, Frame::UnorderedList { .. } | Frame::OrderedList { .. }))
        .count()
""","""    let mut depth = 0;
    for frame in stack {
        if matches!(frame, Frame::UnorderedList { .. } | Frame::OrderedList { .. }) {
            depth += 1;
        }
    }
    depth
"""))
R("ty-trim-match","tree",(TY,"""    if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
        let trimmed = t.trim_end_matches('\\n');
        if trimmed.is_empty() {
            body.pop();
        } else {
            *t = trimmed.to_owned();
        }
    }
""","""    let Some(ParagraphNodes::Text(t)) = body.last_mut() else {
        return;
    };
    let trimmed = t.trim_end_matches('\\n').to_string();
    if trimmed.is_empty() {
        body.pop();
    } else {
        *t = trimmed;
    }
"""))
R("ty-trim-truncate","tree",(TY,"""        let trimmed = t.trim_end_matches('\\n');
        if trimmed.is_empty() {
            body.pop();
        } else {
            *t = trimmed.to_owned();
        }
""","""        let len = t.trim_end_matches('\\n').len();
        if len == 0 {
            body.pop();
        } else {
            t.truncate(len);
        }
"""))
R("ty-final-let","tree",(TY,"""    match stack.pop().ok_or(UnbalancedOpStream)? {
        Frame::Yamd { metadata, body } => Ok(Yamd::new(metadata, body)),
        // coverage: the root frame is invariantly Yamd; reaching this means stack corruption
        _ => Err(UnbalancedOpStream),
    }
""","""    let Some(Frame::Yamd { metadata, body }) = stack.pop() else {
        return Err(UnbalancedOpStream);
    };
    Ok(Yamd::new(metadata, body))
"""))
R("ty-embed-match","tree",(TY,"""                        let kind = values.first().cloned().unwrap_or_default();
                        let args = values.get(2).cloned().unwrap_or_default();
""","""                        let args = values.get(2).cloned().unwrap_or_default();
                        let kind = values.first().cloned().unwrap_or_default();
"""))
R("ty-embed-get0","tree",(TY,"values.first().cloned().unwrap_or_default()","values.get(0).cloned().unwrap_or_default()"))
R("ty-close-inline","tree",(TY,"""                    (Node::Italic, Frame::Italic { text }) => {
                        let italic = Italic::new(text);
                        match stack.last_mut().ok_or(UnbalancedOpStream)? {
                            Frame::Paragraph { body } => body.push(italic.into()),
                            Frame::Bold { body } => body.push(italic.into()),
                            // coverage: defensive catchall; Italic's parent is always Paragraph or Bold
                            _ => {}
                        }
                    }
""","""                    (Node::Italic, Frame::Italic { text }) => {
                        let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
                        let italic = Italic::new(text);
                        if let Frame::Paragraph { body } = top {
                            body.push(ParagraphNodes::Italic(italic));
                        } else if let Frame::Bold { body } = top {
                            body.push(BoldNodes::Italic(italic));
                        }
                    }
"""))
R("ty-close-fn","tree",(TY,"""                    (Node::Title, Frame::Title { text }) => {
                        let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
                        match top {
                            Frame::Anchor { text: t, .. } => *t = text,
                            Frame::Image { alt, .. } => *alt = text,
                            // coverage: defensive catchall; Title's parent is always Anchor or Image
                            _ => {}
                        }
                    }
""","""                    (Node::Title, Frame::Title { text }) => {
                        set_title(stack.last_mut().ok_or(UnbalancedOpStream)?, text);
                    }
"""),(TY,"fn extract_heading_level","""fn set_title(parent: &mut Frame, title: String) {
    match parent {
        Frame::Anchor { text, .. } => *text = title,
        Frame::Image { alt, .. } => *alt = title,
        _ => {}
    }
}

fn extract_heading_level"""))
R("ty-top-fn","tree",(TY,"""                let text = op.content.to_string(source);
                let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
""","""                let text = op.content.to_string(source);
                let top = top(&mut stack)?;
"""),(TY,"fn extract_heading_level","""fn top(stack: &mut [Frame]) -> Result<&mut Frame, UnbalancedOpStream> {
    stack.last_mut().ok_or(UnbalancedOpStream)
}

fn extract_heading_level"""))
R("ty-level-loop","tree",(TY,"    s.chars().take_while(|&c| c == '#').count() as u8\n","""    let mut level = 0usize;
    for c in s.chars() {
        if c != '#' {
            break;
        }
        level += 1;
    }
    level as u8
"""))
R("ty-handle-end","tree",(TY,"""                    (Node::Metadata, Frame::Metadata { text }) => {
                        let metadata = text.trim_matches('\\n').to_owned();
                        if let Some(Frame::Yamd { metadata: m, .. }) = stack.last_mut() {
                            *m = Some(metadata);
                        }
                    }
""","""                    (Node::Metadata, Frame::Metadata { text }) => {
                        if let Some(Frame::Yamd { metadata, .. }) = stack.last_mut() {
                            *metadata = Some(text.trim_matches('\\n').to_owned());
                        }
                    }
"""))
R("ty-fromnode-default","tree",(TY,"""            Node::Image => Frame::Image {
                alt: String::new(),
                src: String::new(),
            },
""","""            Node::Image => {
                let (alt, src) = (String::new(), String::new());
                Frame::Image { alt, src }
            }
"""))
R("ty-for-iter","tree",(TY,"    for op in ops {\n","    for op in ops.iter() {\n"))
R("ty-finish-split","tree",(TY,"""    match stack.last_mut().ok_or(UnbalancedOpStream)? {
        Frame::ListItem { nested_list, .. } => *nested_list = Some(list),
        _ => push_yamd_node(stack, list.into()),
    }
    Ok(())
""","""    let top = stack.last_mut().ok_or(UnbalancedOpStream)?;
    if let Frame::ListItem { nested_list, .. } = top {
        *nested_list = Some(list);
    } else {
        push_yamd_node(stack, list.into());
    }
    Ok(())
"""))
R("ty-collapsible-doc","tree",(TY,"                                *body = children;\n","                                let _ = std::mem::replace(body, children);\n"))
R("ty-body-append","tree",(TY,"                                body.extend(children);\n","                                let mut children = children;\n                                body.append(&mut children);\n"))
# ---- content
R("ct-asstr-guard","content op",(OP,"""            Content::Span(range) => {
                if range.is_empty() {
                    ""
                } else {
                    &source[range.clone()]
                }
            }
            Content::Materialized(s) => s.as_str(),
""","""            Content::Span(range) if range.is_empty() => "",
            Content::Span(range) => &source[range.start..range.end],
            Content::Materialized(s) => s,
"""))
R("ct-from-tokens-loop","content op",(OP,"            let s: String = tokens.iter().map(|t| &source[t.range.clone()]).collect();\n            Content::Materialized(s)\n","""            let mut s = String::new();
            for t in tokens {
                s.push_str(&source[t.range.clone()]);
            }
            Content::Materialized(s)
"""))
R("ct-contig-loop","content op",(OP,"""        let is_contiguous = tokens
            .windows(2)
            .all(|w| w[0].range.end == w[1].range.start);
        if is_contiguous {""","""        let mut is_contiguous = true;
        for i in 1..tokens.len() {
            if tokens[i - 1].range.end != tokens[i].range.start {
                is_contiguous = false;
                break;
            }
        }
        if is_contiguous {"""))
R("ct-contig-fn","content op",(OP,"""        let is_contiguous = tokens
            .windows(2)
            .all(|w| w[0].range.end == w[1].range.start);
        if is_contiguous {""","""        if contiguous(tokens) {"""),(OP,"impl From<&[Token]> for Content","""fn contiguous(tokens: &[Token]) -> bool {
    tokens
        .windows(2)
        .all(|w| w[0].range.end == w[1].range.start)
}

impl From<&[Token]> for Content"""))
R("ct-first-last-match","content op",(OP,"""        if tokens.is_empty() {
            Content::Span(0..0)
        } else {
            let start = tokens.first().unwrap().range.start;
            let end = tokens.last().unwrap().range.end;
            Content::Span(start..end)
        }
""","""        match (tokens.first(), tokens.last()) {
            (Some(first), Some(last)) => Content::Span(first.range.start..last.range.end),
            _ => Content::Span(0..0),
        }
"""))
R("ct-isempty","content op",(OP,"            Content::Span(range) => range.is_empty(),\n","            Content::Span(range) => range.start >= range.end,\n"))
R("ct-span-of-fn","content op",(OP,"""            let start = tokens.first().unwrap().range.start;
            let end = tokens.last().unwrap().range.end;
            Content::Span(start..end)
        } else {
            let s: String""","""            Content::from(tokens)
        } else {
            let s: String"""))
# ---- display
N="src/nodes/"
R("ds-anchor-escape-fn","display",(N+"anchor.rs","""            self.text
                .replace("\\\\", "\\\\\\\\")
                .replace("[", "\\\\[")
                .replace("]", "\\\\]")
                .replace("\\n\\n", "\\\\\\n\\n"),
""","""            escape_text(&self.text),
"""),(N+"anchor.rs","impl Display for Anchor","""fn escape_text(text: &str) -> String {
    text.replace("\\\\", "\\\\\\\\")
        .replace("[", "\\\\[")
        .replace("]", "\\\\]")
        .replace("\\n\\n", "\\\\\\n\\n")
}

impl Display for Anchor"""))
R("ds-anchor-let","display",(N+"anchor.rs","""        write!(
            f,
            "[{}]({})",
            self.text""","""        let text = self
            .text"""),(N+"anchor.rs","""                .replace("\\n\\n", "\\\\\\n\\n"),
            self.url""","""                .replace("\\n\\n", "\\\\\\n\\n");
        let url = self.url"""),(N+"anchor.rs","""                .replace("\\n\\n", "\\\\\\n\\n")
        )
""","""                .replace("\\n\\n", "\\\\\\n\\n");
        write!(f, "[{text}]({url})")
"""))
R("ds-images-loop","display",(N+"images.rs","""        write!(
            f,
            "{}",
            self.body
                .iter()
                .map(|image| image.to_string())
                .collect::<Vec<_>>()
                .join("\\n")
        )
""","""        for (i, image) in self.body.iter().enumerate() {
            if i > 0 {
                write!(f, "\\n")?;
            }
            write!(f, "{}", image)?;
        }
        Ok(())
"""))
R("ds-images-let","display",(N+"images.rs","""        write!(
            f,
            "{}",
            self.body
                .iter()
                .map(|image| image.to_string())
                .collect::<Vec<_>>()
                .join("\\n")
        )
""","""        let lines: Vec<String> = self.body.iter().map(ToString::to_string).collect();
        f.write_str(&lines.join("\\n"))
"""))
R("ds-bold-write-str","display",(N+"bold.rs","""        write!(f, "**")?;
        for""","""        f.write_str("**")?;
        for"""))
R("ds-bold-early","display",(N+"bold.rs","""        if !has_content {
            return Ok(());
        }
        write!(f, "**")?;
        for node in &self.body {
            write!(f, "{}", node.to_string().replace("**", "\\\\**"))?;
        }
        write!(f, "**")
""","""        if has_content {
            write!(f, "**")?;
            for node in self.body.iter() {
                let text = node.to_string().replace("**", "\\\\**");
                write!(f, "{}", text)?;
            }
            write!(f, "**")?;
        }
        Ok(())
"""))
R("ds-bold-has-fn","display",(N+"bold.rs","""        let has_content = self.body.iter().any(|node| match node {
            BoldNodes::Text(t) => !t.is_empty(),
            _ => true,
        });
        if !has_content {""","""        if !self.has_content() {"""),(N+"bold.rs","""    pub fn new(body: Vec<BoldNodes>) -> Self {
        Self { body }
    }
""","""    pub fn new(body: Vec<BoldNodes>) -> Self {
        Self { body }
    }

    fn has_content(&self) -> bool {
        self.body.iter().any(|node| match node {
            BoldNodes::Text(t) => !t.is_empty(),
            _ => true,
        })
    }
"""))
R("ds-escape-marker-any","display",(N+"paragraph.rs","""    if s.starts_with("- ")
        || s.starts_with("+ ")
        || s.starts_with("# ")
        || s.starts_with("!!")
        || s.starts_with("---")
    {""","""    if ["- ", "+ ", "# ", "!!", "---"].iter().any(|m| s.starts_with(m)) {"""))
R("ds-escape-marker-neg","display",(N+"paragraph.rs","""    if s.starts_with("- ")
        || s.starts_with("+ ")
        || s.starts_with("# ")
        || s.starts_with("!!")
        || s.starts_with("---")
    {
        format!("\\\\{}", s)
    } else {
        s
    }
""","""    let is_marker = s.starts_with("- ")
        || s.starts_with("+ ")
        || s.starts_with("# ")
        || s.starts_with("!!")
        || s.starts_with("---");
    if !is_marker {
        return s;
    }
    format!("\\\\{s}")
"""))
R("ds-list-loop","display",(N+"list.rs","""                .map(|list_item| format!(
                    "{}{} {}",
                    " ".repeat(self.level),
                    self.list_type,
                    list_item.to_string().replace(pat, rep)
                ))
""","""                .map(|list_item| {
                    let indent = " ".repeat(self.level);
                    let text = list_item.to_string().replace(pat, rep);
                    format!("{}{} {}", indent, self.list_type, text)
                })
"""))
R("ds-listitem-iflet","display",(N+"list_item.rs","""        match &self.nested_list {
            Some(nested) => write!(f, "{}\\n{}", text, nested),
            None => write!(f, "{}", text),
        }
""","""        write!(f, "{}", text)?;
        if let Some(nested) = &self.nested_list {
            write!(f, "\\n{}", nested)?;
        }
        Ok(())
"""))
R("ds-highlight-match","display",(N+"highlight.rs","""        let title = self
            .title
            .as_ref()
            .map_or("".to_string(), |t| format!(" {}", t.replace("\\\\", "\\\\\\\\")));
""","""        let title = match &self.title {
            Some(t) => format!(" {}", t.replace("\\\\", "\\\\\\\\")),
            None => String::new(),
        };
"""))
R("ds-yamd-body-fn","display",(N+"yamd.rs","""        let body = self
            .body
            .iter()
            .map(|node| match node {
                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                other => other.to_string(),
            })
            .collect::<Vec<_>>()
            .join("\\n\\n");
""","""        let body = join_blocks(&self.body);
"""),(N+"yamd.rs","impl Display for Yamd {","""fn join_blocks(body: &[YamdNodes]) -> String {
    body.iter()
        .map(|node| match node {
            YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
            other => other.to_string(),
        })
        .collect::<Vec<_>>()
        .join("\\n\\n")
}

impl Display for Yamd {"""))
R("ds-yamd-fmt-delegate","display",(N+"yamd.rs","            YamdNodes::Paragraph(node) => write!(f, \"{}\", node),\n","            YamdNodes::Paragraph(node) => node.fmt(f),\n"))
R("ds-yamd-iflet","display",(N+"yamd.rs","""        match &self.metadata {
            Some(metadata) => {
                let sep = if metadata.ends_with('\\n') { "" } else { "\\n" };
                write!(f, "---\\n{}{}---\\n\\n{}", metadata, sep, body)
            }
            None => write!(f, "{}", body),
        }
""","""        if let Some(metadata) = &self.metadata {
            let sep = if metadata.ends_with('\\n') { "" } else { "\\n" };
            write!(f, "---\\n{}{}---\\n\\n", metadata, sep)?;
        }
        write!(f, "{}", body)
"""))
R("ds-heading-loop","display",(N+"heading.rs","""        let body: String = self.body.iter().map(|n| n.to_string()).collect();
        write!(f, "{} {}", "#".repeat(self.level as usize), body)
""","""        write!(f, "{} ", "#".repeat(self.level as usize))?;
        for node in &self.body {
            write!(f, "{}", node)?;
        }
        Ok(())
"""))
R("ds-codespan-else","display",(N+"code_span.rs","""        if self.0.is_empty() {
            return Ok(());
        }
        write!(
            f,
            "`{}`",
            self.0
                .replace("\\\\", "\\\\\\\\")
                .replace("`", "\\\\`")
                .replace("\\n\\n", "\\\\\\n\\n")
        )
""","""        let CodeSpan(body) = self;
        if body.is_empty() {
            Ok(())
        } else {
            let body = body
                .replace("\\\\", "\\\\\\\\")
                .replace("`", "\\\\`")
                .replace("\\n\\n", "\\\\\\n\\n");
            write!(f, "`{}`", body)
        }
"""))
R("ds-replace-char","display",(N+"italic.rs","""                .replace("_", "\\\\_")""","""                .replace('_', "\\\\_")"""))
# ---- types
R("cn-code-match","types tree display",(N+"code.rs","""        let code = code.into();
        let code = code.trim_end_matches('\\n').to_owned();
        Self {
            lang: lang.into(),
            code,
        }
""","""        let code: String = code.into();
        Self {
            lang: lang.into(),
            code: code.trim_end_matches('\\n').to_string(),
        }
"""))
R("cn-yamd-match","types tree display",(N+"yamd.rs","""        let metadata = metadata.map(|m| m.trim_matches('\\n').to_owned());
        Self { metadata, body }
""","""        let metadata = match metadata {
            Some(m) => Some(m.trim_matches('\\n').to_owned()),
            None => None,
        };
        Self { metadata, body }
"""))
R("cn-highlight-into","types tree display",(N+"highlight.rs","            title: title.map(|title| title.into()),\n","            title: title.map(Into::into),\n"))
R("cn-anchor-let","types tree display",(N+"anchor.rs","""        Anchor {
            text: text.into(),
            url: url.into(),
        }
""","""        let text = text.into();
        let url = url.into();
        Self { text, url }
"""))
R("cn-from-new","types tree display",(N+"code_span.rs","        CodeSpan(value)\n    }\n}","        Self::new(value)\n    }\n}"))

# ---- std string functions
R("st-strip-prefix","display",(N+"paragraph.rs",'''s.starts_with("- ")
''','''s.strip_prefix("- ").is_some()
'''))
R("st-ends-str","display",(N+"yamd.rs","metadata.ends_with('\\n')",'metadata.ends_with("\\n")'))
R("st-strip-suffix","display",(N+"yamd.rs","let sep = if metadata.ends_with('\\n') { \"\" } else { \"\\n\" };","let sep = if metadata.strip_suffix('\\n').is_some() { \"\" } else { \"\\n\" };"))
R("st-chars-last","display",(N+"yamd.rs","metadata.ends_with('\\n')","metadata.as_bytes().last() == Some(&b'\\n')"))
R("st-len-zero","display",(N+"code_span.rs","self.0.is_empty()","self.0.len() == 0"))
R("st-count-zero","display",(N+"code_span.rs","self.0.is_empty()","self.0.chars().count() == 0"))
R("st-replace-char","display",(N+"code_span.rs",'''                .replace("\\\\", "\\\\\\\\")
                .replace("`", "\\\\`")''','''                .replace('\\\\', "\\\\\\\\")
                .replace('`', "\\\\`")'''))
R("st-replace-char-p","display",(N+"paragraph.rs",'''.replace("*", "\\\\*")
                    .replace("_", "\\\\_")''','''.replace('*', "\\\\*")
                    .replace('_', "\\\\_")'''))
R("st-guard-contains","display",(N+"code.rs",'''self.code.replace("\\\\", "\\\\\\\\").replace("```", "\\\\```")''','''if self.code.contains('\\\\') || self.code.contains("```") { self.code.replace("\\\\", "\\\\\\\\").replace("```", "\\\\```") } else { self.code.clone() }'''))
R("st-trim-len","tree",(TY,'''        if trimmed.is_empty() {
            body.pop();''','''        if trimmed.len() == 0 {
            body.pop();'''))
R("st-trim-not-empty","tree",(TY,'''        if trimmed.is_empty() {
            body.pop();
        } else {
            *t = trimmed.to_owned();
        }''','''        if !trimmed.is_empty() {
            *t = trimmed.to_string();
        } else {
            body.pop();
        }'''))
R("st-content-len","content op",(OP,"            Content::Materialized(s) => s.is_empty(),","            Content::Materialized(s) => s.len() == 0,"))
R("st-content-range","content op",(OP,"            Content::Span(range) => range.is_empty(),","            Content::Span(range) => range.start >= range.end,"))
R("st-marker-list","display",(N+"paragraph.rs",'''    if s.starts_with("- ")
        || s.starts_with("+ ")
        || s.starts_with("# ")
        || s.starts_with("## ")
        || s.starts_with("### ")
        || s.starts_with("#### ")
        || s.starts_with("##### ")
        || s.starts_with("###### ")
        || s.starts_with("!!")
        || s.starts_with("![")
        || s.starts_with("---")
    {
        format!("\\\\{}", s)
    } else {
        s
    }
}
''','''    let hijacks = s.starts_with("- ")
        || s.starts_with("+ ")
        || s.starts_with("# ")
        || s.starts_with("## ")
        || s.starts_with("### ")
        || s.starts_with("#### ")
        || s.starts_with("##### ")
        || s.starts_with("###### ")
        || s.starts_with("!!")
        || s.starts_with("![")
        || s.starts_with("---");
    if !hijacks {
        return s;
    }
    format!("\\\\{}", s)
}
'''))
R("st-marker-array","display",(N+"paragraph.rs",'''    if s.starts_with("- ")
        || s.starts_with("+ ")
        || s.starts_with("# ")
        || s.starts_with("## ")
        || s.starts_with("### ")
        || s.starts_with("#### ")
        || s.starts_with("##### ")
        || s.starts_with("###### ")
        || s.starts_with("!!")
        || s.starts_with("![")
        || s.starts_with("---")
    {''','''    const MARKERS: [&str; 11] = ["- ", "+ ", "# ", "## ", "### ", "#### ", "##### ", "###### ", "!!", "![", "---"];
    if MARKERS.iter().any(|m| s.starts_with(m)) {'''))
