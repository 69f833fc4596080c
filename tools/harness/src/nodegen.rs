//! Hand-built documents, written as strings: U+0002, then a tape of choices (one character each, '0'..) and texts
//! (ended by U+0003). Any string is a tape; a choice beyond its end is the first one, a text is empty.
use yamd::nodes::*;

pub trait Src {
    fn pick(&mut self, n: usize) -> usize;
    /// a number up to 302, often one where something may change
    fn size(&mut self) -> usize;
    fn text(&mut self) -> String;
}
pub struct Tape<'a>(pub std::str::Chars<'a>);
impl Src for Tape<'_> {
    fn pick(&mut self, n: usize) -> usize {
        self.0.next().map(|c| (c as usize).wrapping_sub(48) % n).unwrap_or(0)
    }
    fn size(&mut self) -> usize {
        self.pick(400)
    }
    fn text(&mut self) -> String {
        let mut r = String::new();
        for c in self.0.by_ref() {
            if c == '\u{3}' {
                break;
            }
            r.push(c);
        }
        r
    }
}
/// how many children: mostly few
fn many(s: &mut dyn Src) -> usize {
    match s.pick(32) {
        31 => match s.pick(8) {
            7 => s.size(),
            _ => 5 + s.pick(16),
        },
        n => n % 4,
    }
}
fn anchor(s: &mut dyn Src) -> Anchor {
    let (t, u) = (s.text(), s.text());
    Anchor { text: t, url: u }
}
fn bold(s: &mut dyn Src) -> Bold {
    let n = many(s);
    Bold {
        body: (0..n)
            .map(|_| match s.pick(4) {
                0 => BoldNodes::Italic(Italic(s.text())),
                1 => BoldNodes::Strikethrough(Strikethrough(s.text())),
                _ => BoldNodes::Text(s.text()),
            })
            .collect(),
    }
}
fn inlines(s: &mut dyn Src) -> Vec<ParagraphNodes> {
    let n = many(s);
    (0..n)
        .map(|_| match s.pick(10) {
            0 => ParagraphNodes::Anchor(anchor(s)),
            1 => ParagraphNodes::Bold(bold(s)),
            2 => ParagraphNodes::Italic(Italic(s.text())),
            3 => ParagraphNodes::Strikethrough(Strikethrough(s.text())),
            4 => ParagraphNodes::CodeSpan(CodeSpan(s.text())),
            5 => ParagraphNodes::Emphasis(Emphasis(s.text())),
            _ => ParagraphNodes::Text(s.text()),
        })
        .collect()
}
fn image(s: &mut dyn Src) -> Image {
    let (t, u) = (s.text(), s.text());
    Image { alt: t, src: u }
}
fn list(s: &mut dyn Src, level: usize, d: usize) -> List {
    let list_type = if s.pick(2) == 0 { ListTypes::Unordered } else { ListTypes::Ordered };
    let n = many(s);
    let body = (0..n)
        .map(|_| {
            let text = inlines(s);
            let nested_list = if d > 0 && s.pick(4) == 1 { Some(list(s, level + 1, d - 1)) } else { None };
            ListItem { text, nested_list }
        })
        .collect();
    List { list_type, level, body }
}
pub fn block(s: &mut dyn Src, d: usize) -> YamdNodes {
    match s.pick(12) {
        0 => YamdNodes::ThematicBreak(ThematicBreak {}),
        1 => {
            let level = if s.pick(8) == 7 { s.size() as u8 } else { s.pick(9) as u8 };
            let n = s.pick(3);
            let body = (0..n).map(|_| if s.pick(2) == 0 { HeadingNodes::Text(s.text()) } else { HeadingNodes::Anchor(anchor(s)) }).collect();
            YamdNodes::Heading(Heading { level, body })
        }
        2 => YamdNodes::Image(image(s)),
        3 => {
            let n = many(s);
            YamdNodes::Images(Images { body: (0..n).map(|_| image(s)).collect() })
        }
        4 => {
            let (l, c) = (s.text(), s.text());
            YamdNodes::Code(Code { lang: l, code: c })
        }
        5 => {
            let level = if s.pick(12) == 11 { s.size() } else { s.pick(3) };
            let d = if s.pick(16) == 15 { 8 } else { 2 };
            YamdNodes::List(list(s, level, d))
        }
        6 => {
            let title = if s.pick(2) == 1 { Some(s.text()) } else { None };
            let icon = if s.pick(2) == 1 { Some(s.text()) } else { None };
            let n = many(s);
            YamdNodes::Highlight(Highlight { title, icon, body: (0..n).map(|_| Paragraph { body: inlines(s) }).collect() })
        }
        7 => {
            let (k, a) = (s.text(), s.text());
            YamdNodes::Embed(Embed { kind: k, args: a })
        }
        8 if d > 0 => {
            let title = s.text();
            let n = many(s);
            YamdNodes::Collapsible(Collapsible { title, body: (0..n).map(|_| block(s, d - 1)).collect() })
        }
        _ => YamdNodes::Paragraph(Paragraph { body: inlines(s) }),
    }
}
pub fn doc(s: &mut dyn Src) -> Yamd {
    let n = many(s);
    let body = (0..n).map(|_| block(s, 2)).collect();
    let metadata = if s.pick(3) == 1 { Some(s.text()) } else { None };
    Yamd { metadata, body }
}
pub fn read(x: &str) -> Yamd {
    doc(&mut Tape(x.strip_prefix('\u{2}').unwrap_or(x).chars()))
}
