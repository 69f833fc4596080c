//! An independent reading of the lexical rules: a character-level scan with lookahead.
use yamd::lexer::TokenKind as K;

#[derive(Debug, Clone, PartialEq)]
pub struct RTok {
    pub kind: K,
    pub start: usize,
    pub end: usize,
    pub escaped: bool,
    pub row: usize,
    pub col: usize,
}

fn brk(c: &[(usize, char)], i: usize) -> usize {
    match c.get(i) {
        Some((_, '\n')) => 1,
        Some((_, '\r')) if matches!(c.get(i + 1), Some((_, '\n'))) => 2,
        _ => 0,
    }
}
fn run_kind(c: char) -> Option<K> {
    Some(match c {
        '{' => K::LeftCurlyBrace,
        '}' => K::RightCurlyBrace,
        '~' => K::Tilde,
        '*' => K::Star,
        '-' => K::Minus,
        '#' => K::Hash,
        '>' => K::GreaterThan,
        '!' => K::Bang,
        '`' => K::Backtick,
        '+' => K::Plus,
        _ => return None,
    })
}
fn one_kind(c: char) -> Option<K> {
    Some(match c {
        '[' => K::LeftSquareBracket,
        ']' => K::RightSquareBracket,
        '(' => K::LeftParenthesis,
        ')' => K::RightParenthesis,
        '_' => K::Underscore,
        '|' => K::Pipe,
        _ => return None,
    })
}
fn special(c: &[(usize, char)], i: usize) -> bool {
    let Some((_, x)) = c.get(i) else { return true };
    brk(c, i) > 0 || *x == '\\' || run_kind(*x).is_some() || one_kind(*x).is_some() || (*x == '%' && matches!(c.get(i + 1), Some((_, '}'))))
}

pub fn lex(src: &str) -> Vec<RTok> {
    let c: Vec<(usize, char)> = src.char_indices().collect();
    let n = c.len();
    let at = |i: usize| if i < n { c[i].0 } else { src.len() };
    // row/col of every character
    let mut rc = Vec::with_capacity(n + 1);
    let (mut r, mut k, mut esc) = (0, 0, false);
    let mut escv = Vec::with_capacity(n + 1);
    for (_, ch) in &c {
        rc.push((r, k));
        escv.push(esc);
        if *ch == '\\' && !esc {
            esc = true;
            continue;
        }
        if *ch == '\n' && !esc {
            r += 1;
            k = 0;
        } else {
            k += 1;
        }
        esc = false;
    }
    rc.push((r, k));
    let mut out = vec![];
    let mut i = 0;
    while i < n {
        let s = i;
        let x = c[i].1;
        let (kind, escaped, e);
        if x == '\\' || !special(&c, i) && x != ' ' {
            // text, perhaps with an escaped first character
            let esc = x == '\\';
            let st = if esc { i + 1 } else { i };
            if st >= n {
                break;
            }
            let mut j = st + 1;
            while j < n && !special(&c, j) {
                j += 1;
            }
            out.push(RTok { kind: K::Literal, start: at(st), end: at(j), escaped: esc, row: rc[st].0, col: rc[st].1 });
            i = j;
            continue;
        } else if brk(&c, i) > 0 {
            let b = brk(&c, i);
            let b2 = brk(&c, i + b);
            kind = if b2 > 0 { K::Terminator } else { K::Eol };
            e = i + b + b2;
            escaped = false;
        } else if x == '{' && matches!(c.get(i + 1), Some((_, '%'))) {
            kind = K::CollapsibleStart;
            e = i + 2;
            escaped = false;
        } else if x == '%' {
            kind = K::CollapsibleEnd;
            e = i + 2;
            escaped = false;
        } else if let Some(k1) = one_kind(x) {
            kind = k1;
            e = i + 1;
            escaped = false;
        } else {
            kind = if x == ' ' { K::Space } else { run_kind(x).unwrap() };
            let mut j = i + 1;
            while j < n && c[j].1 == x {
                j += 1;
            }
            e = j;
            escaped = false;
        }
        out.push(RTok { kind, start: at(s), end: at(e), escaped, row: rc[s].0, col: rc[s].1 });
        i = e;
    }
    out
}

/// the source without its escape backslashes
pub fn unescaped(src: &str) -> String {
    let mut o = String::new();
    let mut it = src.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            if let Some(d) = it.next() {
                o.push(d);
            }
        } else {
            o.push(c);
        }
    }
    o
}
