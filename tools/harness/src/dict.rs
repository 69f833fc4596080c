//! The literals of the crate's source (its tests left out), to build inputs from: what the code compares with is
//! what an input has to hold to reach the code behind the comparison.
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub strs: Vec<String>,
    pub nums: Vec<usize>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let root = std::env::var("YH_SRC").unwrap_or_else(|_| "/repo/src".into());
        walk(std::path::Path::new(&root), &mut d);
        d.strs.sort();
        d.strs.dedup();
        d.nums.sort();
        d.nums.dedup();
        d
    })
}
fn walk(p: &std::path::Path, d: &mut Dict) {
    let Ok(es) = std::fs::read_dir(p) else { return };
    let mut es: Vec<_> = es.flatten().map(|e| e.path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            walk(&e, d);
        } else if e.extension().is_some_and(|x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&e) {
                let t = t.split("\nmod tests {").next().unwrap();
                scan(t, d);
            }
        }
    }
}
fn esc(c: &[char], i: &mut usize) -> Option<char> {
    // c[*i] is behind the backslash
    let k = *c.get(*i)?;
    *i += 1;
    Some(match k {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' => {
            let h: String = c.get(*i..*i + 2)?.iter().collect();
            *i += 2;
            u8::from_str_radix(&h, 16).ok()? as char
        }
        'u' => {
            let e = c[*i..].iter().position(|x| *x == '}')? + *i;
            let h: String = c[*i + 1..e].iter().filter(|x| **x != '_').collect();
            *i = e + 1;
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        '\n' => {
            while c.get(*i).is_some_and(|x| x.is_whitespace()) {
                *i += 1;
            }
            return None;
        }
        x => x,
    })
}
fn scan(t: &str, d: &mut Dict) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '"' {
            i += 1;
            let mut s = String::new();
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    if let Some(x) = esc(&c, &mut i) {
                        s.push(x);
                    }
                } else {
                    s.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            push(d, s);
        } else if c[i] == '\'' {
            // a character, or a lifetime
            let mut j = i + 1;
            let x = if c.get(j) == Some(&'\\') {
                j += 1;
                esc(&c, &mut j)
            } else {
                let x = c.get(j).copied();
                j += 1;
                x
            };
            if c.get(j) == Some(&'\'') {
                if let Some(x) = x {
                    push(d, x.to_string());
                }
                i = j + 1;
            } else {
                i += 1;
            }
        } else if c[i].is_ascii_digit() {
            let b = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let s: String = c[b..i].iter().filter(|x| **x != '_').collect();
            let n = if let Some(h) = s.strip_prefix("0x") {
                let h: String = h.chars().take_while(|x| x.is_ascii_hexdigit()).collect();
                usize::from_str_radix(&h, 16).ok()
            } else {
                let h: String = s.chars().take_while(|x| x.is_ascii_digit()).collect();
                h.parse().ok()
            };
            if let Some(n) = n {
                if n > 1 && n <= 1 << 17 {
                    d.nums.push(n);
                }
                if let Some(x) = char::from_u32(n as u32).filter(|x| n > 3 && n < 0x110000 && !x.is_ascii_alphanumeric()) {
                    push(d, x.to_string());
                }
            }
        } else if c[i].is_alphabetic() || c[i] == '_' {
            let b = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let s: String = c[b..i].iter().collect();
            let n = match s.as_str() {
                "u8" | "i8" => 256,
                "u16" | "i16" => 65536,
                _ => 0,
            };
            if n > 0 {
                d.nums.extend([n / 2, n]);
            }
        } else {
            i += 1;
        }
    }
}
fn push(d: &mut Dict, s: String) {
    if !s.is_empty() && s.chars().count() <= 40 && !s.contains(['\u{1}', '\u{2}', '\u{3}']) {
        d.strs.push(s);
    }
}
