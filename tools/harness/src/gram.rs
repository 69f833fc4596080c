//! A reference parser, over the lexer's tokens: which (event, text) list a source is read as. Written like the
//! contracts in overlay/spec/gram.rs: every construct is a function from a position to its end and its events.
use yamd::lexer::{Lexer, Token, TokenKind as T};
use yamd::op::{Node, Node::*, Op, OpKind};

#[derive(Clone, Copy, PartialEq)]
enum Stop {
    Term,
    CollEnd,
    HlEnd,
    Item(usize, T2),
}
#[derive(Clone, Copy, PartialEq)]
enum T2 {
    Minus,
    Plus,
}
#[derive(PartialEq, Clone, Copy)]
pub enum Ev {
    Open(usize),
    Close(usize),
    Val,
}
pub type Out = Vec<(Ev, String)>;
fn id(n: Node) -> usize {
    crate::treeref::NODES.iter().position(|x| *x == n).unwrap()
}
struct C<'a> {
    t: Vec<Token>,
    s: &'a str,
    e: Vec<Stop>,
}
type R = Option<(usize, Out)>;

impl C<'_> {
    fn txt(&self, i: usize, j: usize) -> String {
        self.t[i..j].iter().map(|t| &self.s[t.range.clone()]).collect()
    }
    fn open(&self, n: Node, i: usize, j: usize) -> (Ev, String) {
        (Ev::Open(id(n)), self.txt(i, j))
    }
    fn close(&self, n: Node, i: usize, j: usize) -> (Ev, String) {
        (Ev::Close(id(n)), self.txt(i, j))
    }
    fn val(&self, i: usize, j: usize) -> (Ev, String) {
        (Ev::Val, self.txt(i, j))
    }
    fn col0(&self, i: usize) -> bool {
        i < self.t.len() && self.t[i].position.column == 0
    }
    fn k(&self, i: usize, k: T) -> bool {
        i < self.t.len() && self.t[i].kind == k
    }
    fn is(&self, i: usize, k: T, n: usize) -> bool {
        self.k(i, k) && self.t[i].range.len() == n
    }
    fn line(&self, i: usize, k: T, n: usize) -> bool {
        self.is(i, k, n) && self.col0(i)
    }
    fn marker(&self, i: usize) -> Option<T2> {
        if self.is(i, T::Minus, 1) {
            Some(T2::Minus)
        } else if self.is(i, T::Plus, 1) {
            Some(T2::Plus)
        } else {
            None
        }
    }
    fn prefix(&self, i: usize, level: usize) -> Option<T2> {
        if !self.col0(i) {
            return None;
        }
        let m = if level == 0 {
            i
        } else if self.is(i, T::Space, level) {
            i + 1
        } else {
            return None;
        };
        let k = self.marker(m)?;
        if self.is(m + 1, T::Space, 1) { Some(k) } else { None }
    }
    fn stop(&self, i: usize) -> bool {
        i >= self.t.len()
            || self.e.iter().any(|c| match c {
                Stop::Term => self.k(i, T::Terminator),
                Stop::CollEnd => self.k(i, T::CollapsibleEnd) && self.col0(i) || self.k(i, T::Eol) && self.k(i + 1, T::CollapsibleEnd) && self.col0(i + 1),
                Stop::HlEnd => self.line(i, T::Bang, 2),
                Stop::Item(l, k) => (0..=l + 1).any(|x| self.prefix(i, x).is_some_and(|m| x != *l || m == *k)),
            })
    }
    fn find(&self, mut i: usize, q: impl Fn(usize) -> bool) -> Option<usize> {
        while !self.stop(i) {
            if q(i) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn leaf(&self, i: usize, n: Node, o: impl Fn(usize) -> bool, c: impl Fn(usize) -> bool) -> R {
        if !o(i) {
            return None;
        }
        let m = self.find(i + 1, c)?;
        let k = id(n);
        Some((m + 1, vec![(Ev::Open(k), self.txt(i, i + 1)), self.val(i + 1, m), (Ev::Close(k), self.txt(m, m + 1))]))
    }
    fn title(&self, i: usize) -> R {
        self.leaf(i, Title, |i| self.is(i, T::LeftSquareBracket, 1), |i| self.is(i, T::RightSquareBracket, 1))
    }
    fn strike(&self, i: usize) -> R {
        self.leaf(i, Strikethrough, |i| self.is(i, T::Tilde, 2), |i| self.is(i, T::Tilde, 2))
    }
    fn italic(&self, i: usize) -> R {
        self.leaf(i, Italic, |i| self.is(i, T::Underscore, 1), |i| self.is(i, T::Underscore, 1))
    }
    fn emphasis(&self, i: usize) -> R {
        self.leaf(i, Emphasis, |i| self.is(i, T::Star, 1), |i| self.is(i, T::Star, 1))
    }
    fn code_span(&self, i: usize) -> R {
        self.leaf(i, CodeSpan, |i| self.is(i, T::Backtick, 1), |i| self.is(i, T::Backtick, 1))
    }
    fn metadata(&self, i: usize) -> R {
        self.leaf(i, Metadata, |i| self.line(i, T::Minus, 3), |i| self.line(i, T::Minus, 3))
    }
    fn dest(&self, i: usize) -> R {
        if !self.is(i, T::LeftParenthesis, 1) {
            return None;
        }
        // the parenthesis that balances, or else the last closing one
        let (mut d, mut last, mut j) = (1i64, None, i + 1);
        while !self.stop(j) && d > 0 {
            if self.k(j, T::LeftParenthesis) {
                d += 1;
            }
            if self.k(j, T::RightParenthesis) {
                d -= 1;
                last = Some(j);
            }
            j += 1;
        }
        let m = last?;
        Some((m + 1, vec![self.open(Destination, i, i + 1), self.val(i + 1, m), self.close(Destination, m, m + 1)]))
    }
    fn anchor(&self, i: usize) -> R {
        let (a, x) = self.title(i)?;
        let (b, y) = self.dest(a)?;
        let mut r = vec![self.open(Anchor, 0, 0)];
        r.extend(x);
        r.extend(y);
        r.push(self.close(Anchor, 0, 0));
        Some((b, r))
    }
    /// text and the constructs of `inner` up to the stop, or to an `end`
    fn runs(&self, mut i: usize, end: impl Fn(usize) -> bool, inner: impl Fn(usize) -> R) -> (usize, Out) {
        let (mut r, mut ts) = (vec![], i);
        while !self.stop(i) && !end(i) {
            match inner(i) {
                Some((n, x)) => {
                    if ts < i {
                        r.push(self.val(ts, i));
                    }
                    r.extend(x);
                    i = n;
                    ts = n;
                }
                None => i += 1,
            }
        }
        if ts < i {
            r.push(self.val(ts, i));
        }
        (i, r)
    }
    fn bold(&self, i: usize) -> R {
        let q = |i| self.is(i, T::Star, 2);
        if !q(i) {
            return None;
        }
        let (n, x) = self.runs(i + 1, q, |i| self.strike(i).or_else(|| self.italic(i)));
        if self.stop(n) {
            return None;
        }
        let mut r = vec![self.open(Bold, i, i + 1)];
        r.extend(x);
        r.push(self.close(Bold, n, n + 1));
        Some((n + 1, r))
    }
    fn inline(&self, i: usize) -> R {
        self.strike(i).or_else(|| self.italic(i)).or_else(|| self.bold(i)).or_else(|| self.anchor(i)).or_else(|| self.code_span(i)).or_else(|| self.emphasis(i))
    }
    fn para(&self, i: usize) -> (usize, Out) {
        let (n, x) = self.runs(i, |_| false, |i| self.inline(i));
        let mut r = vec![self.open(Paragraph, 0, 0)];
        r.extend(x);
        r.push(self.close(Paragraph, 0, 0));
        (n, r)
    }
    fn heading(&self, i: usize) -> R {
        if !(self.k(i, T::Hash) && self.col0(i) && self.t[i].range.len() <= 6 && self.is(i + 1, T::Space, 1)) {
            return None;
        }
        let (n, x) = self.runs(i + 2, |_| false, |i| self.anchor(i));
        let mut r = vec![self.open(Heading, i, i + 2)];
        r.extend(x);
        r.push(self.close(Heading, 0, 0));
        Some((n, r))
    }
    fn tbreak(&self, i: usize) -> R {
        if !self.line(i, T::Minus, 5) {
            return None;
        }
        Some((i + 1, vec![self.open(ThematicBreak, 0, 0), self.val(i, i + 1), self.close(ThematicBreak, 0, 0)]))
    }
    fn modifier(&self, i: usize) -> R {
        if self.col0(i) {
            return None;
        }
        let m = self.find(i, |i| self.k(i, T::Eol) || self.k(i, T::Terminator))?;
        Some((m + 1, vec![self.open(Modifier, 0, 0), self.val(i, m), self.close(Modifier, m, m + 1)]))
    }
    fn closed(&self, m: usize) -> Option<usize> {
        if self.k(m + 1, T::Eol) {
            Some(m + 2)
        } else if self.stop(m + 1) || self.k(m + 1, T::Terminator) {
            Some(m + 1)
        } else {
            None
        }
    }
    fn with(&self, e: Vec<Stop>) -> C<'_> {
        C { t: self.t.clone(), s: self.s, e }
    }
    fn under(&self, more: &[Stop]) -> C<'_> {
        let mut e = self.e.clone();
        e.extend_from_slice(more);
        self.with(e)
    }
    fn code(&self, i: usize) -> R {
        if !self.line(i, T::Backtick, 3) {
            return None;
        }
        let v = self.with(vec![]);
        let eol = self.k(i + 1, T::Eol);
        let b = if eol { i + 2 } else { i + 1 };
        let mo = if eol { None } else { v.modifier(b) };
        let mut r = vec![self.open(Code, i, b)];
        let mut j = b;
        if let Some((n, x)) = mo {
            j = n;
            r.extend(x);
        }
        let m = v.find(j, |i| v.line(i, T::Backtick, 3))?;
        let end = self.closed(m)?;
        r.push(self.val(j, m));
        r.push(self.close(Code, m, end));
        Some((end, r))
    }
    fn embed(&self, i: usize) -> R {
        if !self.line(i, T::LeftCurlyBrace, 2) {
            return None;
        }
        let m = self.find(i + 1, |i| self.is(i, T::Pipe, 1))?;
        let c = self.find(m + 1, |i| self.is(i, T::RightCurlyBrace, 2))?;
        let end = self.closed(c)?;
        Some((end, vec![self.open(Embed, i, i + 1), self.val(i + 1, m), self.val(m, m + 1), self.val(m + 1, c), self.close(Embed, c, end)]))
    }
    fn image(&self, i: usize) -> R {
        if !self.is(i, T::Bang, 1) {
            return None;
        }
        let (a, x) = self.title(i + 1)?;
        let (b, y) = self.dest(a)?;
        let end = if self.k(b, T::Eol) {
            b + 1
        } else if self.stop(b) {
            b
        } else {
            return None;
        };
        let mut r = vec![self.open(Image, i, i + 1)];
        r.extend(x);
        r.extend(y);
        r.push(self.close(Image, b, end));
        Some((end, r))
    }
    fn images(&self, mut i: usize) -> R {
        let (mut k, mut r) = (0, vec![]);
        while let Some((n, x)) = self.image(i) {
            k += 1;
            r.extend(x);
            i = n;
        }
        if k == 0 || !self.stop(i) {
            return None;
        }
        if k > 1 {
            r.insert(0, self.open(Images, 0, 0));
            r.push(self.close(Images, 0, 0));
        }
        Some((i, r))
    }
    fn item(&self, i: usize, level: usize, want: Option<T2>) -> R {
        let k = self.prefix(i, level)?;
        if want.is_some_and(|w| w != k) {
            return None;
        }
        let b = if level == 0 { i + 2 } else { i + 3 };
        let (mut n, x) = self.under(&[Stop::Item(level, k)]).para(b);
        let mut r = vec![self.open(ListItem, i, b)];
        r.extend(x);
        if !self.stop(n) {
            if let Some((m, y)) = self.list(n, level + 1) {
                n = m;
                r.extend(y);
            }
        }
        r.push(self.close(ListItem, 0, 0));
        Some((n, r))
    }
    fn list(&self, i: usize, level: usize) -> R {
        let k = self.prefix(i, level)?;
        let node = || if k == T2::Minus { UnorderedList } else { OrderedList };
        let mut r = vec![self.open(node(), 0, 0)];
        let mut i = i;
        while let Some((n, x)) = self.item(i, level, Some(k)) {
            r.extend(x);
            i = n;
        }
        r.push(self.close(node(), 0, 0));
        Some((i, r))
    }
    fn icon(&self, i: usize) -> R {
        if !(self.line(i, T::Bang, 1) && self.is(i + 1, T::Space, 1)) {
            return None;
        }
        let m = self.find(i + 2, |i| self.k(i, T::Eol))?;
        Some((m + 1, vec![self.open(Icon, i, i + 2), self.val(i + 2, m), self.close(Icon, m, m + 1)]))
    }
    fn highlight(&self, i: usize) -> R {
        if !(self.line(i, T::Bang, 2) && (self.is(i + 1, T::Space, 1) || self.k(i + 1, T::Eol))) {
            return None;
        }
        let mut r = vec![self.open(Highlight, i, i + 2)];
        let mut j = i + 2;
        if !self.k(i + 1, T::Eol) {
            if let Some((n, x)) = self.modifier(j) {
                j = n;
                r.extend(x);
            }
        }
        if let Some((n, x)) = self.under(&[Stop::Term]).icon(j) {
            j = n;
            r.extend(x);
        }
        if !self.col0(j) {
            return None;
        }
        while !self.stop(j) {
            if self.line(j, T::Bang, 2) {
                let end = if self.k(j + 1, T::Eol) { j + 2 } else { j + 1 };
                r.push(self.close(Highlight, j, end));
                return Some((end, r));
            }
            if self.k(j, T::Terminator) {
                r.push(self.val(j, j + 1));
                j += 1;
            }
            let (n, x) = self.under(&[Stop::HlEnd, Stop::Term]).para(j);
            r.extend(x);
            j = n;
        }
        None
    }
    /// one that is not recognised leaves its opening marker as text for good
    fn coll(&mut self, i: usize) -> R {
        if !(self.k(i, T::CollapsibleStart) && self.col0(i) && (self.k(i + 1, T::Space) || self.k(i + 1, T::Eol))) {
            return None;
        }
        let mut r = vec![self.open(Collapsible, i, i + 2)];
        let mut j = i + 2;
        if let Some((n, x)) = self.modifier(j) {
            j = n;
            r.extend(x);
        }
        if self.col0(j) {
            self.e.push(Stop::CollEnd);
            let (mut k, x) = self.doc(j);
            self.e.pop();
            r.extend(x);
            if self.k(k, T::Eol) {
                k += 1;
            }
            if self.k(k, T::CollapsibleEnd) && self.col0(k) {
                let end = if self.k(k + 1, T::Eol) { k + 2 } else { k + 1 };
                r.push(self.close(Collapsible, k, end));
                return Some((end, r));
            }
        }
        self.t[i].kind = T::Literal;
        None
    }
    fn doc(&mut self, mut i: usize) -> (usize, Out) {
        let mut r = vec![self.open(Document, 0, 0)];
        while !self.stop(i) {
            let (n, x) = if self.k(i, T::Terminator) {
                (i + 1, vec![self.val(i, i + 1)])
            } else if let Some(x) = self.code(i) {
                x
            } else if let Some(x) = self.coll(i) {
                x
            } else if let Some(x) = self.embed(i).or_else(|| self.highlight(i)) {
                x
            } else {
                let c = self.under(&[Stop::Term]);
                c.list(i, 0).or_else(|| c.images(i)).or_else(|| c.tbreak(i)).or_else(|| c.heading(i)).unwrap_or_else(|| c.para(i))
            };
            r.extend(x);
            i = n;
        }
        r.push(self.close(Document, 0, 0));
        (i, r)
    }
}

pub fn reference(x: &str) -> Out {
    let mut c = C { t: Lexer::new(x).take(x.len() + 1).collect(), s: x, e: vec![] };
    let (mut i, mut r) = (0, vec![]);
    if let Some((n, y)) = c.metadata(0) {
        i = n;
        r.extend(y);
    }
    r.extend(c.doc(i).1);
    r
}
pub fn events(ops: &[Op], x: &str) -> Out {
    ops.iter()
        .map(|o| {
            let n = |n: &Node| crate::treeref::NODES.iter().position(|y| y == n).unwrap();
            let e = match &o.kind {
                OpKind::Start(a) => Ev::Open(n(a)),
                OpKind::End(a) => Ev::Close(n(a)),
                OpKind::Value => Ev::Val,
            };
            (e, o.content.to_string(x))
        })
        .collect()
}
const INLINE: &[Node] = &[Anchor, Bold, CodeSpan, Emphasis, Italic, Strikethrough, Title, Destination];
const LEAF: &[Node] = &[Heading, ThematicBreak, Code, Embed, Image, Images, Metadata];

/// the stream without its inline nodes, their text kept, with the innermost open node of each event
fn skeleton(o: &Out) -> Vec<(Ev, String, Option<usize>)> {
    let mut r: Vec<(Ev, String, Option<usize>)> = vec![];
    let mut st: Vec<usize> = vec![];
    let inl = |k: usize| INLINE.contains(&crate::treeref::NODES[k]);
    for (e, s) in o {
        match e {
            Ev::Open(k) if !inl(*k) => {
                r.push((*e, s.clone(), st.last().copied()));
                st.push(*k);
            }
            Ev::Close(k) if !inl(*k) => {
                r.push((*e, s.clone(), st.last().copied()));
                st.pop();
            }
            _ => match r.last_mut() {
                Some((Ev::Val, t, _)) if !st.last().is_some_and(|k| crate::treeref::NODES[*k] == Embed) => t.push_str(s),
                _ => r.push((Ev::Val, s.clone(), st.last().copied())),
            },
        }
    }
    r
}
/// compares yamd's events with the reference; says which of C07, C08, C09 a difference belongs to
pub fn check(prop: &str, x: &str) -> Result<bool, String> {
    let want = reference(x);
    let got = events(&yamd::parse(x), x);
    if want == got {
        return Ok(want.len() > 4);
    }
    let (sw, sg) = (skeleton(&want), skeleton(&got));
    let name = |k: usize| format!("{:?}", crate::treeref::NODES[k]);
    let show = |e: Option<&(Ev, String)>| match e {
        None => "the end".to_string(),
        Some((Ev::Open(k), s)) => format!("start of {} {s:?}", name(*k)),
        Some((Ev::Close(k), s)) => format!("end of {} {s:?}", name(*k)),
        Some((Ev::Val, s)) => format!("text {s:?}"),
    };
    let mut involved = vec![];
    if sw == sg {
        involved.push("C07");
        // an inline difference inside a heading is also one of the heading
        let d = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        let mut st = vec![];
        for (e, _) in &want[..d] {
            match e {
                Ev::Open(k) => st.push(*k),
                Ev::Close(_) => {
                    st.pop();
                }
                _ => {}
            }
        }
        if st.iter().any(|k| LEAF.contains(&crate::treeref::NODES[*k])) {
            involved.push("C08");
        }
    } else {
        let d = sw.iter().zip(&sg).position(|(a, b)| a != b).unwrap_or(sw.len().min(sg.len()));
        let mut ks = vec![];
        for e in [sw.get(d), sg.get(d)].into_iter().flatten() {
            ks.extend(e.2);
            if let Ev::Open(k) | Ev::Close(k) = e.0 {
                ks.push(k);
            }
        }
        if ks.iter().any(|k| LEAF.contains(&crate::treeref::NODES[*k])) {
            involved.push("C08");
        } else if ks.iter().any(|k| crate::treeref::NODES[*k] == Modifier) {
            involved.extend(["C08", "C09"]);
        } else {
            involved.push("C09");
        }
    }
    if sw != sg {
        // the same blocks, with a first difference at or inside an inline node: also one of the inline constructs
        let blank = |s: &[(Ev, String, Option<usize>)]| s.iter().map(|e| (e.0, if e.0 == Ev::Val { 0 } else { e.1.len() }, e.2)).collect::<Vec<_>>();
        let d = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        let mut st = vec![];
        for (e, _) in &want[..d] {
            match e {
                Ev::Open(k) => st.push(*k),
                Ev::Close(_) => {
                    st.pop();
                }
                _ => {}
            }
        }
        if blank(&sw) == blank(&sg) && st.iter().any(|k| INLINE.contains(&crate::treeref::NODES[*k])) {
            involved.push("C07");
        }
    }
    if !involved.contains(&prop) {
        return Ok(true);
    }
    let d = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Err(format!("event {d} of the parse is {}, but by the grammar it is {}", show(got.get(d)), show(want.get(d))))
}
