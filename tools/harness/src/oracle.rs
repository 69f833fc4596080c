//! Executable reading of each property. Err: violated on this input. Ok(true): the input exercised the property.
use crate::lexref;
use yamd::lexer::Lexer;
use yamd::op::{Content, Node, Op, OpKind};

pub fn check(prop: &str, x: &str) -> Result<bool, String> {
    match prop {
        "C01" => c01(x),
        "C02" => c02(x),
        "C03" => c03(x),
        "C04" => c04(x),
        "C05" => c05(x),
        "C06" => c06(x),
        "C07" | "C08" | "C09" => crate::gram::check(prop, x),
        "C10" => c10(x),
        "C11" => c11(x),
        "C12" => c12(x),
        "C13" => c13(x),
        "C14" => c14(x),
        "C15" => c15(x),
        p => Err(format!("unknown property {p}")),
    }
}

fn c01(x: &str) -> Result<bool, String> {
    let n = Lexer::new(x).take(x.len() + 1).count();
    if n > x.len() {
        return Err("the lexer yields more tokens than the source has bytes".into());
    }
    let ops = yamd::parse(x);
    let _ = yamd::try_to_yamd(&ops, x);
    let y = yamd::to_yamd(&ops, x);
    let s = y.to_string();
    let y2 = yamd::deserialize(&s);
    let _ = y2.to_string();
    Ok(!x.is_empty())
}

fn toks(x: &str) -> Vec<yamd::lexer::Token> {
    Lexer::new(x).take(x.len() + 1).collect()
}

fn c02(x: &str) -> Result<bool, String> {
    let ts = toks(x);
    let mut e = 0usize;
    let mut text = String::new();
    for (i, t) in ts.iter().enumerate() {
        if t.range.start >= t.range.end || t.range.end > x.len() || !x.is_char_boundary(t.range.start) || !x.is_char_boundary(t.range.end) {
            return Err(format!("token {i} has the byte range {:?}, which is no non-empty piece of the source", t.range));
        }
        let gap = x.get(e..t.range.start);
        let want = if t.escaped { "\\" } else { "" };
        if gap != Some(want) {
            return Err(format!("between byte {e} and token {i} at {:?} (escaped: {}) lies {gap:?}", t.range, t.escaped));
        }
        if t.position.byte_index != t.range.start {
            return Err(format!("token {i}: position.byte_index {} but the range starts at {}", t.position.byte_index, t.range.start));
        }
        e = t.range.end;
        text.push_str(&x[t.range.clone()]);
    }
    if &x[e..] != "" && &x[e..] != "\\" {
        return Err(format!("the source from byte {e} on ({:?}) is in no token", &x[e..]));
    }
    if text != lexref::unescaped(x) {
        return Err(format!("the token texts concatenate to {text:?}, not to the source without its escape backslashes {:?}", lexref::unescaped(x)));
    }
    let mut l = Lexer::new(x);
    for _ in 0..=x.len() {
        if l.next().is_none() {
            break;
        }
    }
    if l.next().is_some() {
        return Err("a token after the end".into());
    }
    Ok(!ts.is_empty())
}

fn c03(x: &str) -> Result<bool, String> {
    let ts = toks(x);
    let rs = lexref::lex(x);
    for i in 0..ts.len().max(rs.len()) {
        let a = ts.get(i).map(|t| (t.kind.clone(), t.range.clone(), t.escaped));
        let b = rs.get(i).map(|t| (t.kind.clone(), t.start..t.end, t.escaped));
        if a != b {
            return Err(format!("token {i} is {a:?}, the lexical rules say {b:?}"));
        }
    }
    Ok(ts.len() > 1)
}

fn c04(x: &str) -> Result<bool, String> {
    let ts = toks(x);
    // (row, column) of every byte that starts a character, counted independently
    let mut pos = std::collections::HashMap::new();
    let (mut r, mut c, mut esc) = (0usize, 0usize, false);
    for (i, ch) in x.char_indices() {
        pos.insert(i, (r, c));
        if ch == '\\' && !esc {
            esc = true;
            continue;
        }
        if ch == '\n' && !esc {
            r += 1;
            c = 0;
        } else {
            c += 1;
        }
        esc = false;
    }
    for (i, t) in ts.iter().enumerate() {
        if t.position.byte_index != t.range.start {
            return Err(format!("token {i} at {:?}: byte_index {}", t.range, t.position.byte_index));
        }
        let want = pos.get(&t.range.start);
        if want != Some(&(t.position.row, t.position.column)) {
            return Err(format!("token {i} at {:?}: row/column {}/{}, should be {want:?}", t.range, t.position.row, t.position.column));
        }
    }
    Ok(ts.len() > 1)
}

// ---- grammar of the op stream
pub fn nm(n: &Node) -> String {
    format!("{n:?}")
}
fn leaf(n: &str) -> bool {
    matches!(n, "CodeSpan" | "Emphasis" | "Italic" | "Strikethrough" | "Destination" | "Title" | "Icon" | "Modifier" | "Metadata" | "ThematicBreak")
}
fn block(n: &str) -> bool {
    matches!(n, "Code" | "Collapsible" | "Embed" | "Highlight" | "OrderedList" | "UnorderedList" | "Image" | "Images" | "ThematicBreak" | "Heading" | "Paragraph")
}
fn inline(n: &str) -> bool {
    matches!(n, "Anchor" | "Bold" | "CodeSpan" | "Emphasis" | "Italic" | "Strikethrough")
}
/// the children of a node: "" is a value
fn children_ok(n: &str, ch: &[String]) -> bool {
    let c: Vec<&str> = ch.iter().map(|s| s.as_str()).collect();
    let c = c.as_slice();
    match n {
        "" => matches!(c, ["Document"] | ["Metadata", "Document"]),
        n if leaf(n) => c == [""],
        "Anchor" | "Image" => c == ["Title", "Destination"],
        "Images" => c.len() >= 2 && c.iter().all(|x| *x == "Image"),
        "Embed" => c == ["", "", ""],
        "Code" => matches!(c, [""] | ["Modifier", ""]),
        "Bold" => c.iter().all(|x| matches!(*x, "" | "Strikethrough" | "Italic")) && !c.windows(2).any(|w| w == ["", ""]),
        "Heading" => c.iter().all(|x| matches!(*x, "" | "Anchor")) && !c.windows(2).any(|w| w == ["", ""]),
        "Paragraph" => c.iter().all(|x| x.is_empty() || inline(x)) && !c.windows(2).any(|w| w == ["", ""]),
        "Highlight" => {
            let mut c = c;
            if let ["Modifier", r @ ..] = c {
                c = r;
            }
            if let ["Icon", r @ ..] = c {
                c = r;
            }
            c.iter().all(|x| matches!(*x, "" | "Paragraph")) && !c.windows(2).any(|w| w[0] == w[1]) && c.last() != Some(&"")
        }
        "Collapsible" => matches!(c, ["Document"] | ["Modifier", "Document"]),
        "UnorderedList" | "OrderedList" => !c.is_empty() && c.iter().all(|x| *x == "ListItem"),
        "ListItem" => matches!(c, ["Paragraph"] | ["Paragraph", "UnorderedList"] | ["Paragraph", "OrderedList"]),
        "Document" => c.iter().all(|x| x.is_empty() || block(x)),
        _ => false,
    }
}
fn c05(x: &str) -> Result<bool, String> {
    let ops = yamd::parse(x);
    let mut st: Vec<(String, Vec<String>)> = vec![(String::new(), vec![])];
    for (i, o) in ops.iter().enumerate() {
        match &o.kind {
            OpKind::Start(n) => st.push((nm(n), vec![])),
            OpKind::Value => st.last_mut().unwrap().1.push(String::new()),
            OpKind::End(n) => {
                let (m, ch) = st.pop().unwrap();
                if m != nm(n) || st.is_empty() {
                    return Err(format!("event {i} ends {n:?} while {m:?} is open"));
                }
                if !children_ok(&m, &ch) {
                    return Err(format!("event {i}: a {m} made of {ch:?}"));
                }
                st.last_mut().unwrap().1.push(m);
            }
        }
    }
    let (m, ch) = st.pop().unwrap();
    if !st.is_empty() {
        return Err(format!("{m} is never ended"));
    }
    if !children_ok("", &ch) {
        return Err(format!("top level of the stream: {ch:?}"));
    }
    Ok(ops.len() > 2)
}

pub fn text<'a>(o: &'a Op, x: &'a str) -> Result<&'a str, String> {
    match &o.content {
        Content::Span(r) => {
            if r.start >= r.end {
                Ok("")
            } else {
                x.get(r.clone()).ok_or(format!("content {r:?} is no piece of the source"))
            }
        }
        Content::Materialized(s) => Ok(s),
    }
}
fn c06(x: &str) -> Result<bool, String> {
    let ops = yamd::parse(x);
    let want = lexref::unescaped(x);
    let mut w = want.as_str();
    for (i, o) in ops.iter().enumerate() {
        let t = text(o, x).map_err(|m| format!("event {i}: {m}"))?;
        if let Some(r) = w.strip_prefix(t) {
            // the line break in front of a collapsible's closing marker is dropped when the marker does not follow
            if !(matches!(o.kind, OpKind::End(Node::Collapsible)) && t.is_empty()) {
                w = r;
                continue;
            }
        }
        if matches!(o.kind, OpKind::End(Node::Collapsible)) {
            let r = w.strip_prefix("\r\n").or_else(|| w.strip_prefix('\n')).and_then(|r| r.strip_prefix(t));
            if let Some(r) = r {
                w = r;
                continue;
            }
        }
        return Err(format!("event {i} {:?} carries {t:?}, but the source goes on with {:?}", o.kind, w.chars().take(20).collect::<String>()));
    }
    if !w.is_empty() {
        return Err(format!("the source ends with {w:?}, which no event carries"));
    }
    Ok(ops.len() > 2)
}

fn stream(x: &str) -> Vec<Op> {
    if x.starts_with('\u{1}') { crate::treeref::program(x) } else { yamd::parse(x) }
}
fn c11(x: &str) -> Result<bool, String> {
    let ops = stream(x);
    let ok = crate::treeref::items(&ops, x).is_some();
    match (yamd::try_to_yamd(&ops, x).is_ok(), ok) {
        (true, false) => return Err(format!("try_to_yamd accepts a stream that is not well-formed: {:?}", ops.iter().map(|o| &o.kind).collect::<Vec<_>>())),
        (false, true) => return Err(format!("try_to_yamd rejects a well-formed stream: {:?}", ops.iter().map(|o| &o.kind).collect::<Vec<_>>())),
        _ => {}
    }
    if ok {
        yamd::to_yamd(&ops, x);
    }
    Ok(ops.len() > 1)
}
fn c12(x: &str) -> Result<bool, String> {
    let ops = stream(x);
    let Some(it) = crate::treeref::items(&ops, x) else { return Ok(false) };
    if crate::treeref::max_hashes(&ops, x) > 255 {
        return Ok(false);
    }
    let want = crate::treeref::yamd(&it);
    let got = yamd::to_yamd(&ops, x);
    if got != want {
        return Err(format!("the stream {:?} gives {got:?}, not {want:?}", ops.iter().map(|o| (&o.kind, text(o, x).unwrap_or(""))).collect::<Vec<_>>()));
    }
    if !x.starts_with('\u{1}') && yamd::deserialize(x) != want {
        return Err("deserialize differs from to_yamd(parse)".into());
    }
    Ok(!want.body.is_empty() || want.metadata.is_some())
}

fn c10_one(ts: &[yamd::lexer::Token], x: &str) -> Result<(), String> {
    let want: String = ts.iter().map(|t| &x[t.range.clone()]).collect();
    let c = Content::from_tokens(ts, x);
    let contiguous = (1..ts.len()).all(|i| ts[i - 1].range.end == ts[i].range.start);
    let span = match (ts.first(), ts.last()) {
        (Some(a), Some(b)) => a.range.start..b.range.end,
        _ => 0..0,
    };
    let show = || format!("tokens {:?}", ts.iter().map(|t| t.range.clone()).collect::<Vec<_>>());
    if c.as_str(x) != want || c.to_string(x) != want || c.is_empty() != want.is_empty() {
        return Err(format!("{}: content {c:?} has the text {:?} (empty: {}), the tokens have {want:?}", show(), c.as_str(x), c.is_empty()));
    }
    let exp = if contiguous { Content::Span(span.clone()) } else { Content::Materialized(want) };
    if c != exp {
        return Err(format!("{}: content {c:?}, not {exp:?}", show()));
    }
    for (n, c) in [("slice", Content::from(ts)), ("vector", Content::from(ts.to_vec()))] {
        if c != Content::Span(span.clone()) {
            return Err(format!("{}: content of the {n} is {c:?}, not the span {span:?}", show()));
        }
    }
    if let [a, b] = ts {
        let c = Content::from(&[a.clone(), b.clone()]);
        if c != Content::Span(span.clone()) {
            return Err(format!("{}: content of the array is {c:?}, not the span {span:?}", show()));
        }
    }
    for (o, k) in [(Op::new_value(ts), OpKind::Value), (Op::new_start(Node::Bold, ts), OpKind::Start(Node::Bold)), (Op::new_end(Node::Code, ts.to_vec()), OpKind::End(Node::Code))] {
        if o.kind != k || o.content != Content::Span(span.clone()) {
            return Err(format!("{}: op {o:?}", show()));
        }
    }
    Ok(())
}
/// arrays of n tokens, for some n
fn c10_array(ts: &[yamd::lexer::Token], x: &str) -> Result<(), String> {
    macro_rules! sizes {
        ($($n:literal)*) => {
            match ts.len() {
                $($n => {
                    let a: &[yamd::lexer::Token; $n] = ts.try_into().unwrap();
                    let want = if $n == 0 { 0..0 } else { ts[0].range.start..ts[ts.len() - 1].range.end };
                    let c = Content::from(a);
                    if c != Content::Span(want.clone()) || Op::new_value(a).content != Content::Span(want.clone()) {
                        return Err(format!("{x:?}: content of an array of {} tokens is {c:?}, not the span {want:?}", $n));
                    }
                })*
                _ => {}
            }
        };
    }
    sizes!(0 1 2 3 4 5 7 8 9 10 12 15 16 17 20 24 31 32 33 40 48 50 63 64 65 70 80 99 100 101 127 128 129 150 200 255 256 257 300 500 511 512 513 600 1023 1024 1025);
    Ok(())
}
const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 50, 63, 64, 65, 70, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 500, 511, 512, 513, 600, 1023, 1024, 1025];
/// tokens that no lexer makes: any ranges on character boundaries, overlapping, touching, in any order, of any kind
fn c10_any(x: &str) -> Result<(), String> {
    use yamd::lexer::{Position, Token, TokenKind};
    let at: Vec<usize> = x.char_indices().map(|p| p.0).chain([x.len()]).take(60).collect();
    let mut h = x.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) | 1;
    let mut rnd = |n: usize| {
        h ^= h << 13;
        h ^= h >> 7;
        h ^= h << 17;
        (h >> 11) as usize % n
    };
    for _ in 0..6 {
        let n = match rnd(12) { 0 => SIZES[rnd(SIZES.len())], 1 => rnd(30), _ => rnd(5) };
        let mode = rnd(4);
        let mut v: Vec<Token> = Vec::new();
        for k in 0..n {
            let prev = v.last().and_then(|t: &Token| at.iter().position(|a| *a == t.range.end)).unwrap_or(0);
            let i = match if k == 0 { 9 } else { mode + rnd(3) } {
                0..=2 => prev,
                3 => (prev + rnd(3)).min(at.len() - 1),
                4 => prev.saturating_sub(rnd(3)),
                _ => rnd(at.len()),
            };
            let j = (i + rnd(5)).min(at.len() - 1);
            let kinds = [TokenKind::Literal, TokenKind::Eol, TokenKind::Terminator, TokenKind::Space, TokenKind::Star, TokenKind::CollapsibleEnd];
            let p = Position { byte_index: at[i], column: rnd(3), row: rnd(3) };
            let mut t = Token::new(kinds[rnd(kinds.len())].clone(), at[i]..at[j], p);
            t.escaped = rnd(3) == 0;
            v.push(t);
        }
        c10_one(&v, x)?;
        c10_array(&v, x)?;
    }
    Ok(())
}
fn c10(x: &str) -> Result<bool, String> {
    c10_any(x)?;
    let ts = toks(x);
    let n = ts.len().min(14);
    for i in 0..=n {
        for j in i..=n {
            c10_one(&ts[i..j], x)?;
        }
        for j in 0..i.min(n) {
            if i < n {
                c10_one(&[ts[i].clone(), ts[j].clone()], x)?;
                c10_one(&[ts[j].clone(), ts[i].clone()], x)?;
                c10_one(&[ts[i].clone(), ts[j].clone(), ts[i].clone()], x)?;
            }
        }
    }
    if ts.len() > 14 {
        let k = ts.len();
        for (i, j) in [(0, k), (1, k), (0, k - 1), (k / 2, k), (0, k / 2), (k - 14, k), (k / 3, k - 1)] {
            c10_one(&ts[i..j], x)?;
        }
        let mut v = ts.clone();
        v.reverse();
        c10_one(&v, x)?;
        v.rotate_left(k / 2);
        c10_one(&v, x)?;
        v.remove(k / 2);
        c10_one(&v, x)?;
    }
    let m = Content::Materialized(x.to_string());
    if m.as_str("zz") != x || m.to_string("") != x || m.is_empty() != x.is_empty() {
        return Err(format!("owned content: {:?} {:?} {}", m.as_str("zz"), m.to_string(""), m.is_empty()));
    }
    for c in x.chars().take(12) {
        let m = Content::Materialized(c.to_string());
        if m.is_empty() || m.as_str(x) != c.to_string() || m.to_string(x) != c.to_string() {
            return Err(format!("owned content {c:?}: {:?} {:?} {}", m.as_str(x), m.to_string(x), m.is_empty()));
        }
    }
    for (i, _) in x.char_indices().take(12) {
        for (j, _) in x.char_indices().take(12).chain([(x.len(), ' ')]) {
            let s = Content::Span(i..j);
            let want = if i < j { &x[i..j] } else { "" };
            if s.as_str(x) != want || s.to_string(x) != want || s.is_empty() != want.is_empty() {
                return Err(format!("span {i}..{j}: {:?} {:?} {}", s.as_str(x), s.to_string(x), s.is_empty()));
            }
        }
    }
    for k in [Content::Span(0..x.len()), Content::Materialized(x.to_string())] {
        let c2 = match &k { Content::Span(r) => Content::Span(r.clone()), Content::Materialized(s) => Content::Materialized(s.clone()) };
        if Op::new_value(k).content != c2 {
            return Err("new_value changes its content".into());
        }
    }
    Ok(ts.len() > 1)
}

// ---- hand-built documents
use yamd::nodes::*;
fn doc_of(x: &str) -> yamd::Yamd {
    if x.starts_with('\u{2}') { crate::nodegen::read(x) } else { yamd::deserialize(x) }
}
fn same<T: std::fmt::Display + std::fmt::Debug>(n: &T, want: String) -> Result<(), String> {
    let got = n.to_string();
    if got != want { Err(format!("{n:?} is printed as {got:?}, not {want:?}")) } else { Ok(()) }
}
fn c13_inlines(b: &[ParagraphNodes]) -> Result<(), String> {
    use crate::show;
    for n in b {
        match n {
            ParagraphNodes::Anchor(x) => same(x, show::anchor(x))?,
            ParagraphNodes::Bold(x) => {
                for m in &x.body {
                    same(m, show::bold_node(m))?;
                }
                same(x, show::bold(x))?
            }
            ParagraphNodes::Italic(x) => same(x, show::italic(x))?,
            ParagraphNodes::Strikethrough(x) => same(x, show::strikethrough(x))?,
            ParagraphNodes::CodeSpan(x) => same(x, show::code_span(x))?,
            ParagraphNodes::Emphasis(x) => same(x, show::emphasis(x))?,
            ParagraphNodes::Text(_) => {}
        }
        same(n, show::para_node(n))?;
    }
    Ok(())
}
fn c13_list(l: &List) -> Result<(), String> {
    use crate::show;
    for i in &l.body {
        c13_inlines(&i.text)?;
        if let Some(n) = &i.nested_list {
            c13_list(n)?;
        }
        same(i, show::list_item(i))?;
    }
    same(&l.list_type, if l.list_type == ListTypes::Ordered { "+".into() } else { "-".into() })?;
    same(l, show::list(l))
}
fn c13_block(n: &YamdNodes) -> Result<(), String> {
    use crate::show;
    match n {
        YamdNodes::Paragraph(p) => {
            c13_inlines(&p.body)?;
            same(p, show::inlines(&p.body))?
        }
        YamdNodes::Heading(x) => {
            for m in &x.body {
                same(m, show::heading_node(m))?;
            }
            same(x, show::heading(x))?
        }
        YamdNodes::Image(x) => same(x, show::image(x))?,
        YamdNodes::Images(x) => same(x, show::images(x))?,
        YamdNodes::Code(x) => same(x, show::code(x))?,
        YamdNodes::List(x) => c13_list(x)?,
        YamdNodes::Highlight(x) => {
            for p in &x.body {
                c13_inlines(&p.body)?;
            }
            same(x, show::highlight(x))?
        }
        YamdNodes::ThematicBreak(x) => same(x, "-----".into())?,
        YamdNodes::Embed(x) => same(x, show::embed(x))?,
        YamdNodes::Collapsible(x) => {
            for m in &x.body {
                c13_block(m)?;
            }
            same(x, show::collapsible(x))?
        }
    }
    same(n, show::block(n))
}
fn c13(x: &str) -> Result<bool, String> {
    let y = doc_of(x);
    for n in &y.body {
        c13_block(n)?;
    }
    same(&y, crate::show::yamd(&y))?;
    Ok(!y.body.is_empty())
}

fn rebuilt(n: &YamdNodes) -> YamdNodes {
    match n {
        YamdNodes::Paragraph(p) => Paragraph::from(re_inlines(&p.body)).into(),
        YamdNodes::Heading(h) => Heading::new(
            h.level,
            h.body
                .iter()
                .map(|m| match m {
                    HeadingNodes::Text(t) => t.clone().into(),
                    HeadingNodes::Anchor(a) => Anchor::new(a.text.as_str(), a.url.as_str()).into(),
                })
                .collect(),
        )
        .into(),
        YamdNodes::Image(i) => Image::new(i.alt.as_str(), i.src.as_str()).into(),
        YamdNodes::Images(i) => Images::new(i.body.iter().map(|i| Image::new(i.alt.clone(), i.src.clone())).collect()).into(),
        YamdNodes::Code(c) => Code::new(c.lang.as_str(), c.code.as_str()).into(),
        YamdNodes::List(l) => re_list(l).into(),
        YamdNodes::Highlight(h) => Highlight::new(h.title.clone(), h.icon.as_deref(), h.body.iter().map(|p| Paragraph::new(re_inlines(&p.body))).collect()).into(),
        YamdNodes::ThematicBreak(_) => ThematicBreak::new().into(),
        YamdNodes::Embed(e) => Embed::new(e.kind.as_str(), e.args.clone()).into(),
        YamdNodes::Collapsible(c) => Collapsible::new(c.title.as_str(), c.body.iter().map(rebuilt).collect()).into(),
    }
}
fn re_list(l: &List) -> List {
    List::new(l.list_type.clone(), l.level, l.body.iter().map(|i| ListItem::new(re_inlines(&i.text), i.nested_list.as_ref().map(re_list))).collect())
}
fn re_inlines(b: &[ParagraphNodes]) -> Vec<ParagraphNodes> {
    b.iter()
        .map(|n| match n {
            ParagraphNodes::Anchor(a) => Anchor::new(a.text.clone(), a.url.clone()).into(),
            ParagraphNodes::Bold(b) => Bold::from(
                b.body
                    .iter()
                    .map(|m| match m {
                        BoldNodes::Italic(i) => Italic::new(i.0.as_str()).into(),
                        BoldNodes::Strikethrough(i) => Strikethrough::from(i.0.clone()).into(),
                        BoldNodes::Text(t) => t.clone().into(),
                    })
                    .collect::<Vec<_>>(),
            )
            .into(),
            ParagraphNodes::Italic(i) => Italic::from(i.0.clone()).into(),
            ParagraphNodes::Strikethrough(i) => Strikethrough::new(i.0.as_str()).into(),
            ParagraphNodes::Text(t) => t.clone().into(),
            ParagraphNodes::CodeSpan(i) => (if i.0.len() % 2 == 0 { CodeSpan::new(i.0.clone()) } else { CodeSpan::from(i.0.clone()) }).into(),
            ParagraphNodes::Emphasis(i) => (if i.0.len() % 2 == 0 { Emphasis::new(i.0.as_str()) } else { Emphasis::from(i.0.clone()) }).into(),
        })
        .collect()
}
/// what the constructors store: code without line feeds at its end, metadata without them at both ends, all else as given
fn stored(n: &YamdNodes) -> YamdNodes {
    match n {
        YamdNodes::Code(c) => {
            let mut s = c.code.as_str();
            while let Some(t) = s.strip_suffix('\n') {
                s = t;
            }
            YamdNodes::Code(Code { lang: c.lang.clone(), code: s.into() })
        }
        YamdNodes::Collapsible(c) => YamdNodes::Collapsible(Collapsible { title: c.title.clone(), body: c.body.iter().map(stored).collect() }),
        n => n.clone(),
    }
}
fn c15(x: &str) -> Result<bool, String> {
    let y = doc_of(x);
    let got = yamd::Yamd::new(y.metadata.clone(), y.body.iter().map(rebuilt).collect());
    let meta = y.metadata.as_ref().map(|m| {
        let mut s = m.as_str();
        while let Some(t) = s.strip_suffix('\n').or(s.strip_prefix('\n')) {
            s = t;
        }
        s.to_string()
    });
    let want = yamd::Yamd { metadata: meta, body: y.body.iter().map(stored).collect() };
    if got != want {
        return Err(format!("constructed {got:?} from the fields of {want:?}"));
    }
    if !Paragraph::default().body.is_empty() || !Bold::default().body.is_empty() || yamd::Yamd::default() != yamd::Yamd::new(None, vec![]) {
        return Err("a default node is not empty".into());
    }
    for m in [x, "\n\n", "a\n\nb\n"] {
        let c = Code::new(m.to_string(), m.to_string());
        if c.lang != m || c.code != m.trim_end_matches('\n') {
            return Err(format!("Code::new of {m:?} stores {c:?}"));
        }
    }
    Ok(!y.body.is_empty() || y.metadata.is_some())
}

/// the document that this text stands for: blocks are separated by U+0003, the nodes of a paragraph by U+0004; a block U+0005 is
/// a thematic break, U+0005 and `h`, `m`, `e` or `c` start a heading (a digit and its text), an image, an embed or code; a node that starts with U+0006 and
/// one of `iscebat` is an inline node; U+0007 separates two fields; a first block that starts with U+0002 is metadata. Brought into the class of C14: no `\r`, nothing empty, no two
/// texts in a row, no two nodes with the same delimiter in a row (but italics), at most two line feeds in a row inside nodes, none
/// at the end of a paragraph's last text or a heading, no `[` and no leading space in a heading, no backslash and no line that starts
/// with exactly three dashes in metadata.
pub fn plain_doc(x: &str) -> yamd::Yamd {
    let text = |s: &str, two: bool| {
        let mut n: String = s.chars().filter(|c| *c != '\r').collect();
        while two && n.contains("\n\n\n") {
            n = n.replace("\n\n\n", "\n\n");
        }
        n
    };
    let mut body = vec![];
    let mut meta = None;
    let mut x = x;
    if let Some(r) = x.strip_prefix('\u{2}') {
        let (m, r) = r.split_once('\u{3}').unwrap_or((r, ""));
        x = r;
        let l: Vec<String> = text(&m.replace('\\', ""), false).split('\n').map(|l| if l.starts_with("---") && !l.starts_with("----") { format!("-{l}") } else { l.to_string() }).collect();
        let m = l.join("\n").trim_matches('\n').to_string();
        if !m.is_empty() {
            meta = Some(m);
        }
    }
    for t in x.split('\u{3}') {
        let (f, g) = t.split_once('\u{7}').unwrap_or((t, ""));
        if let Some(f) = f.strip_prefix('\u{5}') {
            if let Some(h) = f.strip_prefix('h') {
                let (l, h) = match h.chars().next().and_then(|c| c.to_digit(10)) { Some(d) => (d as u8, &h[1..]), None => (1, h) };
                let h = text(&h.replace('[', ""), true);
                let h = h.trim_start_matches(' ').trim_end_matches('\n');
                if !h.is_empty() && (1..=6).contains(&l) {
                    body.push(YamdNodes::Heading(Heading { level: l, body: vec![HeadingNodes::Text(h.to_string())] }));
                }
            } else if let Some(a) = f.strip_prefix('m') {
                let (a, u) = (text(a, true), text(g, true));
                if !a.is_empty() && !u.is_empty() {
                    body.push(YamdNodes::Image(Image { alt: a, src: u }));
                }
            } else if let Some(k) = f.strip_prefix('e') {
                let (k, a) = (text(k, false), text(g, false));
                if !k.is_empty() && !a.is_empty() {
                    body.push(YamdNodes::Embed(Embed { kind: k, args: a }));
                }
            } else if let Some(l) = f.strip_prefix('c') {
                let (l, c) = (text(l, false), text(g, false));
                if !c.trim_matches('\n').is_empty() {
                    body.push(YamdNodes::Code(Code { lang: l.trim_end_matches('\n').to_string(), code: c.trim_matches('\n').to_string() }));
                }
            } else {
                body.push(YamdNodes::ThematicBreak(ThematicBreak::default()));
            }
            continue;
        }
        let mut v: Vec<(char, String, String)> = vec![];
        for n in t.split('\u{4}') {
            let mut k = 't';
            let mut n = n;
            if let Some(r) = n.strip_prefix('\u{6}') {
                if let Some(c) = r.chars().next().filter(|c| "iscebat".contains(*c)) {
                    k = c;
                    n = &r[1..];
                }
            }
            let (n, u) = if k == 'a' { n.split_once('\u{7}').unwrap_or((n, "u")) } else { (n, "") };
            let (n, u) = (text(n, k != 't'), text(u, true));
            if n.is_empty() || k == 'a' && u.is_empty() {
                continue;
            }
            let star = |c: char| if c == 'e' { 'b' } else { c };
            match v.last_mut() {
                Some((l, s, _)) if *l == 't' && k == 't' => s.push_str(&n),
                Some((l, _, _)) if !"tia".contains(*l) && star(*l) == star(k) => {}
                _ => v.push((k, n, u)),
            }
        }
        if let Some((k, s, _)) = v.last_mut() {
            if *k == 't' {
                s.truncate(s.trim_end_matches('\n').len());
                if s.is_empty() {
                    v.pop();
                }
            }
        }
        if !v.is_empty() {
            let node = |(k, s, u): (char, String, String)| match k {
                'i' => ParagraphNodes::Italic(Italic(s)),
                's' => ParagraphNodes::Strikethrough(Strikethrough(s)),
                'c' => ParagraphNodes::CodeSpan(CodeSpan(s)),
                'e' => ParagraphNodes::Emphasis(Emphasis(s)),
                'b' => ParagraphNodes::Bold(Bold { body: vec![BoldNodes::Text(s)] }),
                'a' => ParagraphNodes::Anchor(Anchor { text: s, url: u }),
                _ => ParagraphNodes::Text(s),
            };
            body.push(YamdNodes::Paragraph(Paragraph { body: v.into_iter().map(node).collect() }));
        }
    }
    yamd::Yamd { metadata: meta, body }
}
fn c14(x: &str) -> Result<bool, String> {
    let y = plain_doc(x);
    let s = y.to_string();
    let z = yamd::deserialize(&s);
    if z != y {
        return Err(format!("{y:?} is printed as {s:?}, which reads as {z:?}"));
    }
    Ok(!y.body.is_empty() || y.metadata.is_some())
}
