//! Independent reading of an op stream as a tree, and of that tree as a Yamd document.
use crate::oracle::text;
use yamd::nodes::*;
use yamd::op::{Content, Node, Op, OpKind};

pub const NODES: [Node; 24] = [
    Node::Anchor, Node::Bold, Node::Code, Node::CodeSpan, Node::Collapsible, Node::Destination, Node::Document, Node::Embed, Node::Emphasis, Node::Heading, Node::Highlight, Node::Icon,
    Node::Image, Node::Images, Node::Italic, Node::ListItem, Node::Modifier, Node::Metadata, Node::OrderedList, Node::Paragraph, Node::Strikethrough, Node::ThematicBreak, Node::Title, Node::UnorderedList,
];
/// Node has no Clone
pub fn copy(n: &Node) -> Node {
    match n {
        Node::Anchor => Node::Anchor,
        Node::Bold => Node::Bold,
        Node::Code => Node::Code,
        Node::CodeSpan => Node::CodeSpan,
        Node::Collapsible => Node::Collapsible,
        Node::Destination => Node::Destination,
        Node::Document => Node::Document,
        Node::Embed => Node::Embed,
        Node::Emphasis => Node::Emphasis,
        Node::Heading => Node::Heading,
        Node::Highlight => Node::Highlight,
        Node::Icon => Node::Icon,
        Node::Image => Node::Image,
        Node::Images => Node::Images,
        Node::Italic => Node::Italic,
        Node::ListItem => Node::ListItem,
        Node::Modifier => Node::Modifier,
        Node::Metadata => Node::Metadata,
        Node::OrderedList => Node::OrderedList,
        Node::Paragraph => Node::Paragraph,
        Node::Strikethrough => Node::Strikethrough,
        Node::ThematicBreak => Node::ThematicBreak,
        Node::Title => Node::Title,
        Node::UnorderedList => Node::UnorderedList,
    }
}
/// Op streams are written as strings starting with U+0001: a..x start node 0..23, A..X end it, y ends the innermost
/// open node, # after a start is its opening text, digits are values spanning the source, others values of that text.
pub fn program(x: &str) -> Vec<Op> {
    let mut ops: Vec<Op> = vec![];
    let mut open: Vec<Node> = vec![];
    for (i, c) in x.char_indices().skip(1) {
        match c {
            'a'..='x' => {
                let n = copy(&NODES[(c as u8 - b'a') as usize]);
                open.push(copy(&n));
                ops.push(Op { kind: OpKind::Start(n), content: Content::Span(0..0) });
            }
            'A'..='X' => {
                let n = copy(&NODES[(c as u8 - b'A') as usize]);
                open.pop();
                ops.push(Op { kind: OpKind::End(n), content: Content::Span(0..0) });
            }
            'y' => {
                let n = open.pop().unwrap_or(Node::Document);
                ops.push(Op { kind: OpKind::End(n), content: Content::Materialized("end".into()) });
            }
            '#' if matches!(ops.last().map(|o| &o.kind), Some(OpKind::Start(_))) => {
                let o = ops.last_mut().unwrap();
                let mut s = text(o, x).unwrap().to_string();
                s.push('#');
                o.content = Content::Materialized(s);
            }
            '0'..='9' => ops.push(Op { kind: OpKind::Value, content: Content::Span(i..i + 1) }),
            c => ops.push(Op { kind: OpKind::Value, content: Content::Materialized(c.to_string()) }),
        }
    }
    ops
}

pub enum It {
    Text(String),
    Nd(Node, String, Vec<It>),
}
/// None: not balanced
pub fn items(ops: &[Op], x: &str) -> Option<Vec<It>> {
    fn go(ops: &[Op], i: &mut usize, x: &str, inner: Option<&Node>) -> Option<Vec<It>> {
        let mut r = vec![];
        loop {
            let Some(o) = ops.get(*i) else { return if inner.is_none() { Some(r) } else { None } };
            *i += 1;
            match &o.kind {
                OpKind::Start(n) => {
                    let open = text(o, x).ok()?.to_string();
                    let ch = go(ops, i, x, Some(n))?;
                    r.push(It::Nd(copy(n), open, ch));
                }
                OpKind::Value => r.push(It::Text(text(o, x).ok()?.to_string())),
                OpKind::End(n) => return if inner == Some(n) { Some(r) } else { None },
            }
        }
    }
    go(ops, &mut 0, x, None)
}
fn texts(v: &[It]) -> String {
    v.iter().map(|i| if let It::Text(t) = i { t.as_str() } else { "" }).collect()
}
fn last(v: &[It], n: Node) -> Option<String> {
    v.iter().rev().find_map(|i| match i {
        It::Nd(m, _, c) if *m == n => Some(texts(c)),
        _ => None,
    })
}
fn nds<'a>(v: &'a [It]) -> impl Iterator<Item = (&'a Node, &'a str, &'a [It])> + 'a {
    v.iter().filter_map(|i| if let It::Nd(n, o, c) = i { Some((n, o.as_str(), c.as_slice())) } else { None })
}
fn anchor(c: &[It]) -> Anchor {
    Anchor::new(last(c, Node::Title).unwrap_or_default(), last(c, Node::Destination).unwrap_or_default())
}
fn image(c: &[It]) -> Image {
    Image::new(last(c, Node::Title).unwrap_or_default(), last(c, Node::Destination).unwrap_or_default())
}
fn bold(v: &[It]) -> Vec<BoldNodes> {
    v.iter()
        .filter_map(|i| match i {
            It::Text(t) => Some(BoldNodes::Text(t.clone())),
            It::Nd(Node::Italic, _, c) => Some(BoldNodes::Italic(Italic(texts(c)))),
            It::Nd(Node::Strikethrough, _, c) => Some(BoldNodes::Strikethrough(Strikethrough(texts(c)))),
            _ => None,
        })
        .collect()
}
fn para(v: &[It]) -> Vec<ParagraphNodes> {
    v.iter()
        .filter_map(|i| match i {
            It::Text(t) => Some(ParagraphNodes::Text(t.clone())),
            It::Nd(n, _, c) => match n {
                Node::Anchor => Some(ParagraphNodes::Anchor(anchor(c))),
                Node::Bold => Some(ParagraphNodes::Bold(Bold { body: bold(c) })),
                Node::Italic => Some(ParagraphNodes::Italic(Italic(texts(c)))),
                Node::Strikethrough => Some(ParagraphNodes::Strikethrough(Strikethrough(texts(c)))),
                Node::CodeSpan => Some(ParagraphNodes::CodeSpan(CodeSpan(texts(c)))),
                Node::Emphasis => Some(ParagraphNodes::Emphasis(Emphasis(texts(c)))),
                _ => None,
            },
        })
        .collect()
}
fn trimmed(mut p: Vec<ParagraphNodes>) -> Vec<ParagraphNodes> {
    if let Some(ParagraphNodes::Text(t)) = p.last().cloned() {
        p.pop();
        let t = t.trim_end_matches('\n');
        if !t.is_empty() {
            p.push(ParagraphNodes::Text(t.to_string()));
        }
    }
    p
}
fn list(n: &Node, c: &[It], d: usize) -> List {
    let t = if *n == Node::OrderedList { ListTypes::Ordered } else { ListTypes::Unordered };
    let body = nds(c)
        .filter(|x| *x.0 == Node::ListItem)
        .map(|(_, _, c)| {
            let text = nds(c).filter(|x| *x.0 == Node::Paragraph).last().map(|x| trimmed(para(x.2))).unwrap_or_default();
            let nested = nds(c).filter(|x| matches!(x.0, Node::OrderedList | Node::UnorderedList)).last().map(|x| list(x.0, x.2, d + 1));
            ListItem { text, nested_list: nested }
        })
        .collect();
    List { list_type: t, level: d, body }
}
fn blocks(v: &[It], d: usize) -> Vec<YamdNodes> {
    nds(v)
        .filter_map(|(n, open, c)| {
            Some(match n {
                Node::Paragraph => YamdNodes::Paragraph(Paragraph { body: para(c) }),
                Node::Heading => YamdNodes::Heading(Heading {
                    level: open.len().saturating_sub(open.trim_start_matches('#').len()) as u8,
                    body: c
                        .iter()
                        .filter_map(|i| match i {
                            It::Text(t) => Some(HeadingNodes::Text(t.clone())),
                            It::Nd(Node::Anchor, _, c) => Some(HeadingNodes::Anchor(anchor(c))),
                            _ => None,
                        })
                        .collect(),
                }),
                Node::Image => YamdNodes::Image(image(c)),
                Node::Images => YamdNodes::Images(Images { body: nds(c).filter(|x| *x.0 == Node::Image).map(|x| image(x.2)).collect() }),
                Node::Code => YamdNodes::Code(Code { lang: last(c, Node::Modifier).unwrap_or_default(), code: texts(c).trim_end_matches('\n').to_string() }),
                Node::OrderedList | Node::UnorderedList => YamdNodes::List(list(n, c, d)),
                Node::Highlight => YamdNodes::Highlight(Highlight {
                    title: last(c, Node::Modifier),
                    icon: last(c, Node::Icon),
                    body: nds(c).filter(|x| *x.0 == Node::Paragraph).map(|x| Paragraph { body: trimmed(para(x.2)) }).collect(),
                }),
                Node::ThematicBreak => YamdNodes::ThematicBreak(ThematicBreak {}),
                Node::Embed => {
                    let t: Vec<String> = c.iter().filter_map(|i| if let It::Text(t) = i { Some(t.clone()) } else { None }).collect();
                    YamdNodes::Embed(Embed { kind: t.first().cloned().unwrap_or_default(), args: t.get(2).cloned().unwrap_or_default() })
                }
                Node::Collapsible => YamdNodes::Collapsible(Collapsible {
                    title: last(c, Node::Modifier).unwrap_or_default(),
                    body: nds(c).filter(|x| *x.0 == Node::Document).last().map(|x| blocks(x.2, d)).unwrap_or_default(),
                }),
                _ => return None,
            })
        })
        .collect()
}
pub fn yamd(v: &[It]) -> Yamd {
    Yamd {
        metadata: last(v, Node::Metadata).map(|m| m.trim_matches('\n').to_string()),
        body: nds(v).filter(|x| *x.0 == Node::Document).flat_map(|x| blocks(x.2, 0)).collect(),
    }
}
pub fn max_hashes(ops: &[Op], x: &str) -> usize {
    ops.iter().map(|o| text(o, x).unwrap_or("").len()).max().unwrap_or(0)
}
