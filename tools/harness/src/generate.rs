//! Inputs: an exhaustive enumeration of short token sequences, random token soups, documents built from the
//! constructs, and mutations of both.
const FRAGS: &[&str] = &[
    "\n", "\n\n", "\r\n", "\r", " ", "  ", "   ", "-", "- ", " - ", "  - ", "+", "+ ", " + ", "--", "---", "-----", "\n---\n", "---\n", "#", "# ", "## ", "####### ", "{", "{{", "}", "}}", "|",
    "%", "{%", "{% ", "{%\n", "%}", "\n%}", "\n%}\n", "\n{% ", "\n{% t\n", "!", "!!", "!! ", "\n!!", "\n!!\n", "\n!! ", "! ", "\n! ", "*", "**", "***", "~", "~~", "_", "__", "`", "``", "```", "\n```", "```\n",
    "[", "]", "(", ")", "![", "](", "![a](b)", "[a](b)", ">", "a", "b c", "t", "\\", "é", "🤔", "中", "\t", "0", "\u{200d}", "\\\n", "\\\\", "- a\n", "+ b\n", " - c\n", "  + d\n", "**b**", "_i_", "*e*", "~~s~~", "`c`",
    "{{youtube|x}}", "{% t\n", "x\n", "\n\n\n", "\n\n\n\n", "\r\n\r\n",
    "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\0", "\u{b}", "\u{c}", "\u{3000}", "e\u{301}", "İ", "ß", "'", "\"", "<", "&", "$", "=", ":", ";", ",", ".", "/", "?", "@", "^", "A", "9", "1.", "\u{10ffff}", "\u{7f}",
];
const SMALL: &[&str] = &["\n", " ", "-", "+", "#", "{%", "%}", "!!", "!", "*", "**", "~~", "_", "`", "```", "[", "]", "(", ")", "![", "{{", "}}", "|", "a", "\\", "\n\n"];

pub struct Gen {
    prop: String,
    s: u64,
    threads: u64,
    exh: Option<Vec<usize>>,
    exh_on: bool,
    exh_max: usize,
    tick: u64,
    pool: Vec<String>,
}
impl Gen {
    pub fn new(prop: &str, seed: u64, t: u64, threads: u64) -> Gen {
        let mut g = Gen { prop: prop.to_string(), s: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (t + 1).wrapping_mul(0xd1342543de82ef95) | 1, threads, exh: Some(vec![]), exh_on: true, exh_max: 4, tick: 0, pool: vec![] };
        for _ in 0..8 {
            g.rng();
        }
        // each thread enumerates every threads-th sequence
        for _ in 0..t {
            g.exh_next();
        }
        g
    }
    fn rng(&mut self) -> u64 {
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        self.s
    }
    fn below(&mut self, n: usize) -> usize {
        (self.rng() >> 11) as usize % n
    }
    fn exh_next(&mut self) -> Option<String> {
        let v = self.exh.as_mut()?;
        let r: String = v.iter().map(|i| SMALL[*i]).collect();
        // next sequence in shortlex order
        let mut k = v.len();
        loop {
            if k == 0 {
                let n = v.len() + 1;
                if n > self.exh_max {
                    self.exh = None;
                } else {
                    *v = vec![0; n];
                }
                break;
            }
            k -= 1;
            if v[k] + 1 < SMALL.len() {
                v[k] += 1;
                for x in v[k + 1..].iter_mut() {
                    *x = 0;
                }
                break;
            }
        }
        Some(r)
    }
    pub fn next(&mut self) -> (String, bool) {
        self.tick += 1;
        if self.tick % 3 == 0 && self.exh_on {
            if let Some(r) = self.exh_next() {
                for _ in 1..self.threads {
                    if self.exh_next().is_none() {
                        break;
                    }
                }
                return (r, true);
            }
            self.exh_on = false;
        }
        if self.below(20) == 0 && !matches!(self.prop.as_str(), "C13" | "C15") {
            let r = if matches!(self.prop.as_str(), "C11" | "C12") && self.below(3) > 0 { self.big_program() } else { self.scale() };
            return (r, false);
        }
        if matches!(self.prop.as_str(), "C13" | "C15") && self.below(5) > 0 {
            let mut r = Rec(self, String::from("\u{2}"));
            crate::nodegen::doc(&mut r);
            return (r.1, false);
        }
        if matches!(self.prop.as_str(), "C11" | "C12") && self.below(3) > 0 {
            return (self.program(), false);
        }
        if self.prop == "C14" && self.below(5) > 0 {
            return (self.plain(), false);
        }
        let r = match self.below(10) {
            0..=2 => self.soup(8),
            3 => self.soup(20),
            4..=7 => self.doc(),
            _ => self.mutate(),
        };
        if self.pool.len() < 64 {
            self.pool.push(r.clone());
        } else if self.below(8) == 0 {
            let i = self.below(64);
            self.pool[i] = r.clone();
        }
        (r, false)
    }
    /// a literal of the crate's source
    fn literal(&mut self) -> &'static str {
        let d = &crate::dict::dict().strs;
        if d.is_empty() { "x" } else { &d[self.below(d.len())] }
    }
    fn frag(&mut self) -> &'static str {
        if self.below(12) == 0 { self.literal() } else { FRAGS[self.below(FRAGS.len())] }
    }
    /// a size at or near one where a counter may end or a limit may lie
    fn size(&mut self, max: usize) -> usize {
        const B: &[usize] = &[7, 8, 10, 12, 16, 20, 32, 50, 64, 100, 128, 200, 256, 300, 512, 1000, 1024, 4096, 65536];
        let d = &crate::dict::dict().nums;
        if self.below(3) == 0 && !d.is_empty() {
            let n = d[self.below(d.len())];
            if n <= max && (n < 2000 || self.below(6) == 0) {
                return (n + self.below(4)).saturating_sub(1).min(max + 2);
            }
        }
        let k = B.iter().filter(|b| **b <= max).count();
        // the largest ones are costly
        let m = if k > 14 && self.below(6) > 0 { 14 } else { k };
        let i = self.below(m);
        (B[i] + self.below(4)).saturating_sub(1).min(max + 2)
    }
    /// documents in which one thing is repeated or nested many times
    fn scale(&mut self) -> String {
        const U: &[&str] = &[
            "a", "é", "🤔", " ", "*", "**", "_", "`", "-", "#", "!", "{", "}", "~", "+", ">", "|", "%", "[", "]", "(", ")", "\\", "\\a", "\\*", "\n", "\r\n", "\r", "a ", "a[", "b]", "a(", "a b", "()", "[]", "{%", "%}", "![", "a|", "x\n", "é-", "a\\\\", "_a_", "*a*", "**b**",
            "`c`", "~~d~~", "[a](b)", "a**b** ",
        ];
        const L: &[&str] = &[
            "- a\n", "+ a\n", " - a\n", "![a](b)\n", "para\n\n", "# h\n\n", "-----\n\n", "{{a|b}}\n\n", "- a\n\n+ b\n\n", "```l\nc\n```\n\n", "!!\na\n!!\n\n", "{% t\na\n%}\n\n", "a\n", "![a](b)\n\n", "- a\n - b\n", "\n\n", "\r\n\r\n",
        ];
        const W: &[(&str, &str)] = &[
            ("", ""), ("x", "y"), ("**", "**"), ("_", "_"), ("*", "*"), ("~~", "~~"), ("`", "`"), ("```", "\n```"), ("```l\n", "\n```"), ("[", "](u)"), ("[t](", ")"), ("![", "](u)"), ("![t](", ")"), ("# ", ""), ("#", ""), ("- ", ""), ("- a\n", "- b"), ("{{", "|x}}"),
            ("{{y|", "}}"), ("{% ", "\na\n%}"), ("{% t\n", "\n%}"), ("!! ", "\na\n!!"), ("!!\n! ", "\na\n!!"), ("!!\n", "\n!!"), ("---\n", "\n---\n\nx"), ("a\n\n", "\n\nb"), ("**b", "_i_**"), (" - ", ""), ("+ ", "\n - x"), ("# a [b](c", ") d"),
        ];
        match self.below(8) {
            0..=3 => {
                // a long run within a construct
                let u = if self.below(8) == 0 { self.literal() } else { U[self.below(U.len())] };
                let plain = u.chars().all(|c| c.is_alphanumeric() || c == ' ');
                let n = self.size(if plain { 65536 } else { 1024 });
                let (a, b) = W[self.below(W.len())];
                let (a2, b2) = if self.below(3) == 0 { W[self.below(W.len())] } else { ("", "") };
                let tail = if self.below(2) == 0 { self.soup(6) } else { String::new() };
                if self.below(8) == 0 {
                    return format!("{a}{}{tail}{}{b}{b2}", u.repeat(n), u.repeat(n));
                }
                format!("{a2}{a}{}{b}{b2}{tail}", u.repeat(n))
            }
            4 | 5 => {
                // many lines or blocks
                let u = L[self.below(L.len())];
                let n = self.size(300);
                let (a, b) = if self.below(2) == 0 { W[self.below(W.len())] } else { ("", "") };
                format!("{a}{}{b}", u.repeat(n))
            }
            6 => {
                // nested lists, up and down
                let n = if self.below(6) == 0 { self.size(256) } else { self.size(32) };
                let mut r = String::new();
                let odd = self.below(3) == 0;
                for i in 0..n {
                    r.push_str(&" ".repeat(i));
                    r.push_str(if odd && i % 2 == 1 { "+ " } else { "- " });
                    r.push_str(["a\n", "b\n", "**c**\n"][self.below(3)]);
                }
                for _ in 0..self.below(4) {
                    let i = self.below(n + 2);
                    r.push_str(&" ".repeat(i));
                    r.push_str(["- z\n", "+ z\n"][self.below(2)]);
                }
                r
            }
            _ => {
                // balanced, or nearly
                let n = self.size(256);
                let m = (n + self.below(3)).saturating_sub(1);
                match self.below(3) {
                    0 => format!("[a]({}u{})", "(".repeat(n), ")".repeat(m)),
                    1 => format!("![a]({}u{})", "(".repeat(n), ")".repeat(m)),
                    _ => {
                        let k = n.min(20);
                        format!("{}a\n{}", "{% t\n".repeat(k), "%}\n".repeat(k))
                    }
                }
            }
        }
    }
    /// op streams with deep nesting or many children
    fn big_program(&mut self) -> String {
        // a Document holds what a pattern opens; each pattern opens nodes that may hold the next one
        const DEEP: &[&str] = &["eg", "xp", "sp", "xpsp", "egxp", "b", "g", "ebg", "t", "epg"];
        const WIDE: &[&str] = &["ty", "t1y", "jy", "mmyy", "nmyy", "cqyy", "xpyy", "xpty1yy", "vy", "hy", "h1yy", "1", "é", "a", "egyy", "ktyy", "hy", "by1y", "ay", "vy1", "x", "y", "p"];
        const PATH: &[&str] = &["", "g", "g", "g", "gt", "gx", "gxp", "gk", "gn", "geg", "gtb", "gj", "gc", "gh", "gm", "r", "gtd"];
        let p = PATH[self.below(PATH.len())];
        let mut r = format!("\u{1}{p}");
        let mut open = p.len();
        if self.below(2) == 0 {
            let n = self.size(1024);
            let d = DEEP[self.below(DEEP.len())];
            r.push_str(&d.repeat(n));
            open += d.len() * n;
            if self.below(2) == 0 {
                r.push_str("1é");
            }
            let m = open + self.below(9) / 7;
            for _ in 0..m - usize::from(self.below(8) == 0 && m > 0) {
                r.push('y');
                if self.below(64) == 0 {
                    r.push('1');
                }
            }
        } else {
            let w = WIDE[self.below(WIDE.len())];
            let n = self.size(1024);
            r.push_str(&w.repeat(n));
            for _ in 0..open {
                r.push('y');
            }
        }
        r
    }
    fn soup(&mut self, n: usize) -> String {
        let k = 1 + self.below(n);
        (0..k).map(|_| self.frag()).collect()
    }
    fn mutate(&mut self) -> String {
        if self.pool.is_empty() {
            return self.soup(6);
        }
        let i = self.below(self.pool.len());
        let mut c: Vec<char> = self.pool[i].chars().collect();
        for _ in 0..1 + self.below(3) {
            let p = self.below(c.len() + 1);
            match self.below(6) {
                5 if !c.is_empty() => {
                    // repeat a segment
                    let p = p.min(c.len() - 1);
                    let q = p + 1 + self.below((c.len() - p).min(24));
                    let seg: Vec<char> = c[p..q].to_vec();
                    for _ in 0..1 + self.below(12) {
                        c.splice(p..p, seg.iter().copied());
                    }
                    c.truncate(600);
                }
                0 if !c.is_empty() => {
                    let p = p.min(c.len() - 1);
                    c.remove(p);
                }
                1 if !c.is_empty() => {
                    let p = p.min(c.len() - 1);
                    let d = c[p];
                    c.insert(p, d);
                }
                2 => c.truncate(p),
                3 if self.pool.len() > 1 => {
                    let j = self.below(self.pool.len());
                    let o: Vec<char> = self.pool[j].chars().collect();
                    let q = self.below(o.len() + 1);
                    c.truncate(p);
                    c.extend(&o[q..]);
                    c.truncate(400);
                }
                _ => {
                    let f: Vec<char> = self.frag().chars().collect();
                    c.splice(p..p, f);
                }
            }
        }
        c.into_iter().collect()
    }
    fn text(&mut self) -> String {
        match self.below(16) {
            14 => {
                // many tokens
                let k = 1 + self.below(14);
                (0..k).map(|_| ["a[", "(", "]b", "{", "é|", "-", "#", ")", "\\*", "\\a", "  ", "!", "_ ", "}", "%", "+"][self.below(16)]).collect()
            }
            15 => {
                let u = ["a[", "(", ")", "]", "b|", "\\[", "é{", "-", " ", "word "][self.below(10)];
                u.repeat(1 + self.below(20))
            }
            0 => "a b".into(),
            1 => "é🤔".into(),
            2 => "x\\*y".into(),
            3 => "\\".to_string() + ["[", "*", "`", "_", "~", "\n", "\\", "a", "#", "{", "!"][self.below(11)],
            4 => self.frag().into(),
            5 => "two  words".into(),
            6 => "a\nb".into(),
            7 => " lead".into(),
            8 => "trail ".into(),
            9 => "a(b)c".into(),
            10 => String::new(),
            _ => ["a", "b", "word", "z"][self.below(4)].into(),
        }
    }
    fn inline(&mut self, d: usize) -> String {
        let t = self.text();
        match self.below(12) {
            0 => format!("**{}**", if d > 0 { self.inline(d - 1) } else { t }),
            1 => format!("_{t}_"),
            2 => format!("*{t}*"),
            3 => format!("~~{t}~~"),
            4 => format!("`{t}`"),
            5 => format!("[{t}]({})", self.text()),
            6 => format!("[{t}](u({})v)", self.text()),
            _ => t,
        }
    }
    fn inlines(&mut self) -> String {
        let k = 1 + if self.below(6) == 0 { self.below(12) } else { self.below(4) };
        (0..k).map(|_| self.inline(1)).collect()
    }
    fn block(&mut self, d: usize) -> String {
        match self.below(14) {
            0 => format!("{} {}", "#".repeat(1 + self.below(8)), self.inlines()),
            1 => format!("```{}\n{}\n```", self.text(), self.text()),
            2 => {
                let sp = if self.below(2) == 0 { " " } else { "\n" };
                format!("{{%{sp}{}\n{}\n%}}", self.text(), if d > 0 { self.blocks(d - 1) } else { self.text() })
            }
            3 => format!("!! {}\n! {}\n{}\n\n{}\n!!", self.text(), self.text(), self.inlines(), self.inlines()),
            4 => format!("!!\n{}\n!!", self.inlines()),
            5 => "-----".into(),
            6 => format!("{{{{{}|{}}}}}", self.text(), self.text()),
            7 => {
                let k = 1 + if self.below(4) == 0 { self.below(8) } else { self.below(3) };
                (0..k).map(|_| format!("![{}]({})", self.text(), self.text())).collect::<Vec<_>>().join("\n")
            }
            8 | 9 | 10 => {
                let k = 1 + if self.below(4) == 0 { self.below(14) } else { self.below(5) };
                let deep = if self.below(4) == 0 { 9 } else { 4 };
                let stair = self.below(3) == 0;
                let mut r = vec![];
                let mut up = 0;
                for _ in 0..k {
                    let lv = if stair { (up + self.below(3)).saturating_sub(usize::from(self.below(2) == 0)).min(deep) } else { self.below(deep) };
                    up = lv;
                    let m = if self.below(3) == 0 { "+" } else { "-" };
                    r.push(format!("{}{m} {}", " ".repeat(lv), self.inlines()));
                }
                r.join("\n")
            }
            _ => self.inlines(),
        }
    }
    fn blocks(&mut self, d: usize) -> String {
        let k = 1 + if self.below(10) == 0 { self.below(9) } else { self.below(3) };
        let mut r = String::new();
        for i in 0..k {
            if i > 0 {
                r.push_str(["\n\n", "\n\n", "\n\n", "\n", "", "\n\n\n", "\r\n\r\n"][self.below(7)]);
            }
            r.push_str(&self.block(d));
        }
        r
    }
    fn doc(&mut self) -> String {
        let mut r = String::new();
        if self.below(6) == 0 {
            r.push_str(&format!("---\n{}\n---{}", self.text(), ["\n\n", "\n", "", "\n\n\n"][self.below(4)]));
        }
        r.push_str(&self.blocks(2));
        if self.below(3) == 0 {
            r.push_str(["\n", "\n\n", " ", "\\", "\r\n"][self.below(5)]);
        }
        if self.below(8) == 0 {
            r = r.replace('\n', "\r\n");
        }
        r
    }

    /// the text of a hand-built node
    fn raw(&mut self) -> String {
        const S: &[&str] = &[
            "\n", "\n\n", "\n\n\n", "\n- ", "\n+ ", "- ", "+ ", "# ", "#", "!!", "!", "---", "-", "{", "{{", "}", "%}", "%", "*", "**", "***", "_", "__", "~", "~~", "`", "``", "```", "````", "[", "]", "(", ")", "|", "\\", "\\\\", "a", "b c", " ", "é",
            "\r\n", "x", "\r", "\t", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\0", "\u{3000}", "İ", "🤔", "<", "&", "\"", "'", "1.", "A", ">", ":", "/",
        ];
        if self.below(256) == 0 {
            let u = S[self.below(S.len())];
            return u.repeat(self.size(1024));
        }
        let k = if self.below(16) == 0 { self.below(14) } else { self.below(5) };
        (0..k).map(|_| if self.below(12) == 0 { self.literal() } else { S[self.below(S.len())] }).collect()
    }
    /// some text, with delimiters and markers at its ends
    fn piece(&mut self, short: bool) -> String {
        const H: &[&str] = &["# ", "## ", "### ", "#### ", "##### ", "###### ", "####### ", "#", "- ", "+ ", "-----", "!!", "!! ", "!!\n", "!", "{% ", "{%\n", "```\n", "```", "---\n", "{{a|b}}", "![a](b)", "%}", "%}\n", "\n%}", " ", " - "];
        const T: &[&str] = &["%}", "\n%}", "%", "!!", "\n!!", "```", "\n```", "\n---", "\\", " ", "}}", ")", "]", "(", "\n-", "-", "{", "|", "**", "`"];
        let mut r = String::new();
        if self.below(3) == 0 {
            r.push_str(H[self.below(H.len())]);
        }
        match self.below(if short { 9 } else { 6 }) {
            0 => r.push_str(&self.block(1)),
            1 => r.push_str(&self.soup(6)),
            2 => r.push_str(&self.inlines()),
            k if k > 5 => r.push_str(T[self.below(T.len())]),
            _ => r.push_str(&self.raw()),
        }
        if self.below(3) == 0 {
            r.push_str(T[self.below(T.len())]);
        }
        r
    }
    /// a document of paragraphs and some other blocks (see oracle::plain_doc)
    fn plain(&mut self) -> String {
        const K: &[char] = &['i', 's', 'c', 'e', 'b', 'a'];
        let n = 1 + if self.below(24) == 0 { self.size(100) } else { self.below(4) };
        let mut r = String::new();
        if self.below(5) == 0 {
            r.push('\u{2}');
            r.push_str(&self.piece(true));
            r.push('\u{3}');
        }
        for i in 0..n {
            if i > 0 {
                r.push('\u{3}');
            }
            match self.below(14) {
                0 => {
                    r.push('\u{5}');
                    continue;
                }
                1 => {
                    r.push_str("\u{5}h");
                    r.push((b'1' + self.below(6) as u8) as char);
                    let s = self.below(2) == 0;
                    r.push_str(&self.piece(s));
                    continue;
                }
                2 => {
                    r.push_str("\u{5}m");
                    r.push_str(&self.piece(true));
                    r.push('\u{7}');
                    r.push_str(&self.piece(true));
                    continue;
                }
                k @ (3 | 4) => {
                    r.push('\u{5}');
                    r.push(if k == 3 { 'e' } else { 'c' });
                    if self.below(3) > 0 || k == 3 {
                        r.push_str(&self.piece(true));
                    }
                    r.push('\u{7}');
                    r.push_str(&self.piece(true));
                    continue;
                }
                _ => {}
            }
            let m = match self.below(32) { 0 => 1 + self.size(40), 1..=15 => 1 + self.below(5), _ => 1 };
            for j in 0..m {
                if j > 0 {
                    r.push('\u{4}');
                }
                let mut k = 't';
                if m > 1 && self.below(2) == 0 {
                    k = K[self.below(K.len())];
                    r.push('\u{6}');
                    r.push(k);
                }
                r.push_str(&self.piece(m > 1));
                if k == 'a' {
                    r.push('\u{7}');
                    r.push_str(&self.piece(true));
                }
            }
        }
        r
    }
    /// an op stream (see treeref::program): mostly the children each node may have, sometimes anything
    fn program(&mut self) -> String {
        use crate::treeref::{NODES, copy};
        use yamd::op::Node::{self, *};
        let mut r = String::from("\u{1}");
        let mut open: Vec<Node> = vec![];
        let wild = self.below(4) == 0;
        let n = 2 + self.below(26);
        for _ in 0..n {
            let pick: &[Node] = match open.last() {
                None => &[Metadata, Document, Document, Document],
                Some(Document) => &[Paragraph, Heading, Image, Images, Code, UnorderedList, OrderedList, Highlight, ThematicBreak, Embed, Collapsible, Paragraph],
                Some(Paragraph) => &[Anchor, Bold, Italic, Strikethrough, CodeSpan, Emphasis],
                Some(Bold) => &[Italic, Strikethrough],
                Some(Heading) => &[Anchor],
                Some(Anchor) | Some(Image) => &[Title, Destination],
                Some(Images) => &[Image],
                Some(Code) => &[Modifier],
                Some(Highlight) => &[Modifier, Icon, Paragraph, Paragraph],
                Some(Collapsible) => &[Modifier, Document, Document],
                Some(UnorderedList) | Some(OrderedList) => &[ListItem],
                Some(ListItem) => &[Paragraph, Paragraph, UnorderedList, OrderedList],
                _ => &[],
            };
            match self.below(if wild { 12 } else { 10 }) {
                0..=4 if !pick.is_empty() => {
                    let x = copy(&pick[self.below(pick.len())]);
                    let i = NODES.iter().position(|y| *y == x).unwrap();
                    r.push((b'a' + i as u8) as char);
                    if x == Heading {
                        for _ in 0..self.below(5) {
                            r.push('#');
                        }
                    }
                    open.push(x);
                }
                0..=7 if !open.is_empty() && self.below(3) > 0 => {
                    if self.below(10) == 0 {
                        // the first character of a literal that is not an instruction
                        let x = self.frag().chars().next().unwrap_or('é');
                        r.push(if x.is_ascii_alphabetic() { 'é' } else { x });
                    } else {
                        r.push_str(["\n", "\n", "é", "+", "7", "#", "\r\n", "\n\n", " ", "\t"][self.below(10)])
                    }
                }
                0..=9 => {
                    if open.pop().is_some() {
                        r.push('y');
                    }
                }
                10 => {
                    let i = self.below(24);
                    r.push((b'a' + i as u8) as char);
                    open.push(copy(&NODES[i]));
                }
                _ => {
                    let i = self.below(24);
                    r.push((b'A' + i as u8) as char);
                    open.pop();
                }
            }
        }
        if self.below(12) > 0 {
            for _ in 0..open.len() {
                r.push('y');
            }
        }
        r
    }
}

/// makes random choices and writes them down
struct Rec<'a>(&'a mut Gen, String);
impl crate::nodegen::Src for Rec<'_> {
    fn pick(&mut self, n: usize) -> usize {
        let i = self.0.below(n);
        self.1.push(char::from_u32(48 + i as u32).unwrap());
        i
    }
    fn size(&mut self) -> usize {
        let i = self.0.size(300);
        self.1.push(char::from_u32(48 + i as u32).unwrap());
        i
    }
    fn text(&mut self) -> String {
        let t = self.0.raw();
        self.1.push_str(&t);
        self.1.push('\u{3}');
        t
    }
}
