//! Independent reading of the printed form of every node: escapes are placed character by character.
use yamd::nodes::*;

/// every character of `one` gets a backslash in front, and so does every (leftmost, non-overlapping) occurrence of a string of `more`, one after the other
fn esc(s: &str, one: &str, more: &[(&str, &str)]) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if one.contains(c) {
            r.push('\\');
        }
        r.push(c);
    }
    for (p, q) in more {
        r = subst(&r, p, q);
    }
    r
}
fn subst(s: &str, p: &str, q: &str) -> String {
    let mut r = String::new();
    let mut t = s;
    while !t.is_empty() {
        if let Some(u) = t.strip_prefix(p) {
            r.push_str(q);
            t = u;
        } else {
            let c = t.chars().next().unwrap();
            r.push(c);
            t = &t[c.len_utf8()..];
        }
    }
    r
}
const BLANK: (&str, &str) = ("\n\n", "\\\n\n");

pub fn anchor(a: &Anchor) -> String {
    let mut r = String::from("[");
    r += &esc(&a.text, "\\[]", &[BLANK]);
    r += "](";
    r += &esc(&a.url, "\\()", &[BLANK]);
    r.push(')');
    r
}
pub fn italic(i: &Italic) -> String {
    ["_", &esc(&i.0, "\\_", &[BLANK]), "_"].concat()
}
pub fn strikethrough(i: &Strikethrough) -> String {
    ["~~", &esc(&i.0, "\\~", &[BLANK]), "~~"].concat()
}
pub fn emphasis(i: &Emphasis) -> String {
    ["*", &esc(&i.0, "\\*", &[BLANK]), "*"].concat()
}
pub fn code_span(i: &CodeSpan) -> String {
    if i.0.is_empty() { String::new() } else { ["`", &esc(&i.0, "\\`", &[BLANK]), "`"].concat() }
}
pub fn bold_node(n: &BoldNodes) -> String {
    match n {
        BoldNodes::Italic(i) => italic(i),
        BoldNodes::Strikethrough(i) => strikethrough(i),
        BoldNodes::Text(t) => esc(t, "\\*_~", &[BLANK]),
    }
}
pub fn bold(b: &Bold) -> String {
    if b.body.iter().all(|n| matches!(n, BoldNodes::Text(t) if t.is_empty())) {
        return String::new();
    }
    let mut r = String::from("**");
    for n in &b.body {
        r += &subst(&bold_node(n), "**", "\\**");
    }
    r += "**";
    r
}
pub fn para_node(n: &ParagraphNodes) -> String {
    match n {
        ParagraphNodes::Anchor(x) => anchor(x),
        ParagraphNodes::Bold(x) => bold(x),
        ParagraphNodes::Italic(x) => italic(x),
        ParagraphNodes::Strikethrough(x) => strikethrough(x),
        ParagraphNodes::CodeSpan(x) => code_span(x),
        ParagraphNodes::Emphasis(x) => emphasis(x),
        ParagraphNodes::Text(t) => esc(t, "\\*_~`[{", &[("\n\n", "\\\n\\\n"), ("%}", "\\%}")]),
    }
}
pub fn inlines(b: &[ParagraphNodes]) -> String {
    let mut r = String::new();
    for n in b {
        r += &para_node(n);
    }
    r
}
pub fn lead(s: String) -> String {
    let b = s.as_bytes();
    let two = b.len() >= 2 && ((matches!(b[0], b'-' | b'+' | b'#') && b[1] == b' ') || (b[0] == b'!' && matches!(b[1], b'!' | b'[')));
    let three = b.len() >= 3 && b[..3] == *b"---";
    let hashes = b.iter().take_while(|c| **c == b'#').count();
    let heading = (1..=6).contains(&hashes) && b.get(hashes) == Some(&b' ');
    if two || three || heading { format!("\\{s}") } else { s }
}
pub fn heading_node(n: &HeadingNodes) -> String {
    match n {
        HeadingNodes::Text(t) => subst(&esc(t, "\\", &[BLANK]), "#", "\\#"),
        HeadingNodes::Anchor(x) => anchor(x),
    }
}
pub fn heading(h: &Heading) -> String {
    let mut r = String::new();
    for _ in 0..h.level {
        r.push('#');
    }
    r.push(' ');
    for n in &h.body {
        r += &heading_node(n);
    }
    r
}
pub fn image(i: &Image) -> String {
    ["![", &esc(&i.alt, "\\]", &[BLANK]), "](", &esc(&i.src, "\\()", &[BLANK]), ")"].concat()
}
fn sep(v: Vec<String>, s: &str) -> String {
    let mut r = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            r += s;
        }
        r += x;
    }
    r
}
pub fn images(i: &Images) -> String {
    sep(i.body.iter().map(image).collect(), "\n")
}
pub fn code(c: &Code) -> String {
    ["```", &esc(&c.lang, "\\`\n", &[]), "\n", &esc(&c.code, "\\", &[("```", "\\```")]), "\n```"].concat()
}
pub fn list_item(i: &ListItem) -> String {
    match &i.nested_list {
        None => inlines(&i.text),
        Some(l) => [inlines(&i.text), "\n".into(), list(l)].concat(),
    }
}
pub fn list(l: &List) -> String {
    let m = match l.list_type {
        ListTypes::Unordered => "-",
        ListTypes::Ordered => "+",
    };
    sep(
        l.body
            .iter()
            .map(|i| {
                let t = subst(&list_item(i), &format!("\n{m} "), &format!("\n\\{m} "));
                let mut r = String::new();
                for _ in 0..l.level {
                    r.push(' ');
                }
                r += m;
                r.push(' ');
                r + &t
            })
            .collect(),
        "\n",
    )
}
pub fn highlight(h: &Highlight) -> String {
    let mut r = String::from("!!");
    if let Some(t) = &h.title {
        r.push(' ');
        r += &esc(t, "\\", &[]);
    }
    r.push('\n');
    if let Some(t) = &h.icon {
        r += "! ";
        r += &esc(t, "\\", &[]);
        r.push('\n');
    }
    r += &sep(h.body.iter().map(|p| lead(subst(&inlines(&p.body), "!!", "\\!!"))).collect(), "\n\n");
    r + "\n!!"
}
pub fn embed(e: &Embed) -> String {
    ["{{", &esc(&e.kind, "\\{|", &[]), "|", &esc(&e.args, "\\{%}", &[]), "}}"].concat()
}
pub fn collapsible(c: &Collapsible) -> String {
    ["{% ", &esc(&c.title, "\\", &[("%}", "\\%}")]), "\n", &body(&c.body), "\n%}"].concat()
}
pub fn block(n: &YamdNodes) -> String {
    match n {
        YamdNodes::Paragraph(p) => inlines(&p.body),
        YamdNodes::Heading(x) => heading(x),
        YamdNodes::Image(x) => image(x),
        YamdNodes::Images(x) => images(x),
        YamdNodes::Code(x) => code(x),
        YamdNodes::List(x) => list(x),
        YamdNodes::Highlight(x) => highlight(x),
        YamdNodes::ThematicBreak(_) => "-----".into(),
        YamdNodes::Embed(x) => embed(x),
        YamdNodes::Collapsible(x) => collapsible(x),
    }
}
fn body(b: &[YamdNodes]) -> String {
    sep(b.iter().map(|n| if matches!(n, YamdNodes::Paragraph(_)) { lead(block(n)) } else { block(n) }).collect(), "\n\n")
}
pub fn yamd(y: &Yamd) -> String {
    let b = body(&y.body);
    match &y.metadata {
        None => b,
        Some(m) => ["---\n", m, if m.ends_with('\n') { "" } else { "\n" }, "---\n\n", &b].concat(),
    }
}
