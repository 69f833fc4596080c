//! The trusted contracts on the standard library (overlay/spec/{std,chars,show,strx}.rs), checked on the standard library: every
//! string up to a length over a small alphabet, every character for the encoding. This bounds what the assumption leaves open.

const A: &[char] = &['a', '\n', '\\', 'é', '😀'];

fn strings(n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| A.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}
/// vstd::utf8::encode_scalar
fn encode(c: char) -> Vec<u8> {
    let x = c as u32;
    let t = |k: u32| 0x80 + ((x >> (6 * k)) & 0x3f) as u8;
    match x {
        0..=0x7f => vec![x as u8],
        0x80..=0x7ff => vec![0xc0 + (x >> 6) as u8, t(0)],
        0x800..=0xffff => vec![0xe0 + (x >> 12) as u8, t(1), t(0)],
        _ => vec![0xf0 + (x >> 18) as u8, t(2), t(1), t(0)],
    }
}
fn trim_end_b(t: &[u8], c: u8) -> &[u8] {
    if t.last() == Some(&c) { trim_end_b(&t[..t.len() - 1], c) } else { t }
}
fn trim_start_b(t: &[u8], c: u8) -> &[u8] {
    if t.first() == Some(&c) { trim_start_b(&t[1..], c) } else { t }
}
fn has_prefix(s: &[char], p: &[char]) -> bool {
    p.len() <= s.len() && s[..p.len()] == *p
}
fn subst(s: &[char], p: &[char], q: &[char]) -> Vec<char> {
    if s.is_empty() {
        vec![]
    } else if !p.is_empty() && has_prefix(s, p) {
        [q, &subst(&s[p.len()..], p, q)].concat()
    } else {
        [&s[..1], &subst(&s[1..], p, q)].concat()
    }
}
fn substn(s: &[char], p: &[char], q: &[char], n: usize) -> Vec<char> {
    if s.is_empty() || n == 0 {
        s.to_vec()
    } else if !p.is_empty() && has_prefix(s, p) {
        [q, &substn(&s[p.len()..], p, q, n - 1)].concat()
    } else {
        [&s[..1], &substn(&s[1..], p, q, n)].concat()
    }
}
fn occurs(s: &[char], p: &[char], i: usize) -> bool {
    i + p.len() <= s.len() && s[i..i + p.len()] == *p
}
/// the byte offset of character i
fn offset(s: &[char], i: usize) -> usize {
    s[..i].iter().map(|c| encode(*c).len()).sum()
}
/// is_ws of overlay/spec/strx.rs
fn is_ws(c: char) -> bool {
    let x = c as u32;
    (0x9..=0xd).contains(&x) || x == 0x20 || x == 0x85 || x == 0xa0 || x == 0x1680 || (0x2000..=0x200a).contains(&x) || [0x2028, 0x2029, 0x202f, 0x205f, 0x3000].contains(&x)
}
fn trim_end_ws(t: &[char]) -> &[char] {
    match t.last() {
        Some(c) if is_ws(*c) => trim_end_ws(&t[..t.len() - 1]),
        _ => t,
    }
}
fn trim_start_ws(t: &[char]) -> &[char] {
    match t.first() {
        Some(c) if is_ws(*c) => trim_start_ws(&t[1..]),
        _ => t,
    }
}
fn text(t: &[char]) -> String {
    t.iter().collect()
}
fn joined(v: &[String], sep: &str, n: usize) -> String {
    match n {
        0 => String::new(),
        1 => v[0].clone(),
        _ => joined(v, sep, n - 1) + sep + &v[n - 1],
    }
}
/// char_in of overlay/spec/chars.rs
fn char_in(s: &str, a: usize, b: usize, c: char) -> bool {
    let t = s.as_bytes();
    a < b && b <= t.len() && s.is_char_boundary(a) && s.is_char_boundary(b) && if (c as u32) < 0x80 { b == a + 1 && t[a] as u32 == c as u32 } else { t[a] >= 0xc0 && t[a + 1..b].iter().all(|x| (0x80..0xc0).contains(x)) }
}

/// the number of comparisons made, or the first that fails
pub fn conform() -> Result<u64, String> {
    let mut n = 0u64;
    let mut ok = |b: bool, what: &dyn Fn() -> String| {
        n += 1;
        if b { Ok(()) } else { Err(what()) }
    };
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        ok(c.to_string().as_bytes() == encode(c), &|| format!("encoding of {c:?}"))?;
        let x = c as u32;
        let (digit, alpha) = ((0x30..=0x39).contains(&x), (0x41..=0x5a).contains(&x) || (0x61..=0x7a).contains(&x));
        ok(c.is_whitespace() == is_ws(c), &|| format!("is_whitespace of {c:?}"))?;
        ok(c.is_ascii() == (x < 128) && c.is_ascii_digit() == digit && c.is_ascii_alphabetic() == alpha && c.is_ascii_alphanumeric() == (digit || alpha), &|| format!("is_ascii of {c:?}"))?;
        ok(c.is_ascii_punctuation() == ((0x21..=0x7e).contains(&x) && !digit && !alpha), &|| format!("is_ascii_punctuation of {c:?}"))?;
        ok(c.is_ascii_whitespace() == [0x20, 0x9, 0xa, 0xc, 0xd].contains(&x), &|| format!("is_ascii_whitespace of {c:?}"))?;
        ok(c.is_control() == (x < 0x20 || (0x7f..=0x9f).contains(&x)), &|| format!("is_control of {c:?}"))?;
        ok(c.is_alphanumeric() == (c.is_alphabetic() || c.is_numeric()), &|| format!("is_alphanumeric of {c:?}"))?;
        ok(x >= 128 || c.is_alphabetic() == alpha && c.is_numeric() == digit, &|| format!("is_alphabetic of {c:?}"))?;
        for s in [format!("{c}a{c}"), format!("a{c}a"), format!("{c}{c}"), c.to_string()] {
            let cs: Vec<char> = s.chars().collect();
            ok(s.trim_start() == text(trim_start_ws(&cs)) && s.trim_end() == text(trim_end_ws(&cs)) && s.trim() == text(trim_end_ws(trim_start_ws(&cs))), &|| format!("trim of {s:?}"))?;
        }
    }
    let all = strings(6);
    let short = strings(2);
    for s in &all {
        let cs: Vec<char> = s.chars().collect();
        let b: Vec<u8> = cs.iter().flat_map(|c| encode(*c)).collect();
        ok(s.as_bytes() == b, &|| format!("bytes of {s:?}"))?;
        ok(s.is_empty() == b.is_empty() && s.len() == b.len(), &|| format!("len of {s:?}"))?;
        for i in 0..=b.len() + 1 {
            let bound = i == b.len() || i < b.len() && !(0x80..0xc0).contains(&b[i]);
            ok(s.is_char_boundary(i) == bound, &|| format!("is_char_boundary({i}) of {s:?}"))?;
        }
        for (i, _) in s.char_indices() {
            for (k, _) in s[i..].char_indices() {
                ok(s[i..i + k].as_bytes() == &b[i..i + k], &|| format!("slice of {s:?}"))?;
            }
        }
        for c in ['a', '\n', '\\'] {
            ok(s.trim_end_matches(c).as_bytes() == trim_end_b(&b, c as u8), &|| format!("trim_end_matches of {s:?}"))?;
            ok(s.trim_start_matches(c).as_bytes() == trim_start_b(&b, c as u8), &|| format!("trim_start_matches of {s:?}"))?;
            ok(s.trim_matches(c).as_bytes() == trim_end_b(trim_start_b(&b, c as u8), c as u8), &|| format!("trim_matches of {s:?}"))?;
            ok(s.ends_with(c) == (cs.last() == Some(&c)), &|| format!("ends_with of {s:?}"))?;
        }
        // Peekable<CharIndices>
        let mut it = s.char_indices().peekable();
        let mut off = 0;
        loop {
            match it.peek() {
                None => ok(off == b.len(), &|| format!("peek at the end of {s:?}"))?,
                Some((i, c)) => ok(*i == off && (off + 1..=b.len()).any(|e| char_in(s, off, e, *c)), &|| format!("peek in {s:?}"))?,
            }
            let Some((i, c)) = it.next() else { break };
            let e = it.clone().next().map_or(b.len(), |x| x.0);
            ok(i == off && char_in(s, off, e, c), &|| format!("next in {s:?}"))?;
            off = e;
        }
        ok(off == b.len() && it.next().is_none(), &|| format!("end of {s:?}"))?;
    }
    for s in &strings(5) {
        let cs: Vec<char> = s.chars().collect();
        for p in short.iter().filter(|p| !p.is_empty()) {
            let pc: Vec<char> = p.chars().collect();
            ok(s.starts_with(p.as_str()) == has_prefix(&cs, &pc), &|| format!("starts_with({p:?}) of {s:?}"))?;
            for k in 0..4 {
                ok(s.replacen(p.as_str(), "\\a", k) == text(&substn(&cs, &pc, &['\\', 'a'], k)), &|| format!("replacen({p:?}, {k}) of {s:?}"))?;
            }
            for q in ["", "\\a", "\\\n\\\n"] {
                ok(s.replace(p.as_str(), q).chars().collect::<Vec<_>>() == subst(&cs, &pc, &q.chars().collect::<Vec<_>>()), &|| format!("replace({p:?}, {q:?}) of {s:?}"))?;
            }
        }
    }
    for s in &strings(5) {
        let cs: Vec<char> = s.chars().collect();
        ok(s.chars().count() == cs.len() && s.chars().count() <= s.len() && s.as_bytes().len() == s.len(), &|| format!("chars().count() of {s:?}"))?;
        // the empty pattern too: the contracts do not exclude it here
        for p in &short {
            let pc: Vec<char> = p.chars().collect();
            let at: Vec<usize> = (0..=cs.len()).filter(|i| occurs(&cs, &pc, *i)).collect();
            let pre = has_prefix(&cs, &pc);
            let suf = pc.len() <= cs.len() && cs[cs.len() - pc.len()..] == *pc;
            let q = p.as_str();
            ok(s.starts_with(q) == pre && s.ends_with(q) == suf, &|| format!("ends_with({p:?}) of {s:?}"))?;
            ok(s.contains(q) == !at.is_empty(), &|| format!("contains({p:?}) of {s:?}"))?;
            ok(s.find(q) == at.first().map(|i| offset(&cs, *i)), &|| format!("find({p:?}) of {s:?}"))?;
            ok(s.rfind(q) == at.last().map(|i| offset(&cs, *i)), &|| format!("rfind({p:?}) of {s:?}"))?;
            ok(s.strip_prefix(q).map(str::to_string) == pre.then(|| text(&cs[pc.len()..])), &|| format!("strip_prefix({p:?}) of {s:?}"))?;
            ok(s.strip_suffix(q).map(str::to_string) == suf.then(|| text(&cs[..cs.len() - pc.len()])), &|| format!("strip_suffix({p:?}) of {s:?}"))?;
        }
        for c in A.iter().copied() {
            let at: Vec<usize> = (0..cs.len()).filter(|i| cs[*i] == c).collect();
            let (pre, suf) = (cs.first() == Some(&c), cs.last() == Some(&c));
            ok(s.starts_with(c) == pre && s.ends_with(c) == suf && s.contains(c) == cs.contains(&c), &|| format!("starts_with({c:?}) of {s:?}"))?;
            ok(s.find(c) == at.first().map(|i| offset(&cs, *i)) && s.rfind(c) == at.last().map(|i| offset(&cs, *i)), &|| format!("find({c:?}) of {s:?}"))?;
            ok(s.strip_prefix(c).map(str::to_string) == pre.then(|| text(&cs[1..])), &|| format!("strip_prefix({c:?}) of {s:?}"))?;
            ok(s.strip_suffix(c).map(str::to_string) == suf.then(|| text(&cs[..cs.len() - 1])), &|| format!("strip_suffix({c:?}) of {s:?}"))?;
            for q in ["", "\\a"] {
                let qc: Vec<char> = q.chars().collect();
                ok(s.replace(c, q) == text(&subst(&cs, &[c], &qc)) && (0..4).all(|k| s.replacen(c, q, k) == text(&substn(&cs, &[c], &qc, k))), &|| format!("replace({c:?}) of {s:?}"))?;
            }
        }
        let d: std::collections::VecDeque<char> = cs.iter().copied().collect();
        ok(d.back() == cs.last() && d.front() == cs.first() && d.is_empty() == cs.is_empty(), &|| format!("VecDeque of {s:?}"))?;
    }
    for s in &short {
        for k in 0..5 {
            ok(s.repeat(k) == (0..k).map(|_| s.as_str()).collect::<String>(), &|| format!("repeat({k}) of {s:?}"))?;
        }
        for t in &short {
            for u in &["", "\n", "\n\n"] {
                for v in [vec![], vec![s.clone()], vec![s.clone(), t.clone()], vec![t.clone(), s.clone(), t.clone()]] {
                    ok(v.join(u) == joined(&v, u, v.len()), &|| format!("join of {v:?}"))?;
                }
            }
            ok(Into::<String>::into(s.clone()) == *s, &|| format!("into of {s:?}"))?;
            // mem::take, mem::replace, Option::replace, Option::get_or_insert, Vec::extend
            let (mut a, mut v, mut w, mut o, mut x, mut y) = (s.clone(), vec![s.clone()], true, Some(s.clone()), s.clone(), Some(3usize));
            ok(std::mem::take(&mut a) == *s && a.is_empty(), &|| "mem::take of a String".into())?;
            ok(std::mem::take(&mut v) == [s.clone()] && v.is_empty(), &|| "mem::take of a Vec".into())?;
            ok(std::mem::take(&mut w) && !w, &|| "mem::take of a bool".into())?;
            ok(std::mem::take(&mut o) == Some(s.clone()) && o.is_none(), &|| "mem::take of an Option".into())?;
            ok(std::mem::replace(&mut x, t.clone()) == *s && x == *t, &|| "mem::replace".into())?;
            ok(y.replace(4) == Some(3) && y == Some(4), &|| "Option::replace".into())?;
            o.get_or_insert(t.clone());
            ok(o.as_ref() == Some(t), &|| "Option::get_or_insert".into())?;
            o.get_or_insert(s.clone());
            ok(o.as_ref() == Some(t), &|| "Option::get_or_insert of Some".into())?;
            v = vec![s.clone()];
            v.extend(vec![t.clone(), s.clone()]);
            ok(v == [s.clone(), t.clone(), s.clone()], &|| "Vec::extend".into())?;
        }
    }
    for a in 0..6usize {
        for b in 0..6usize {
            ok((a..b).is_empty() != (a < b), &|| "Range::is_empty".into())?;
            ok((a..b).clone() == (a..b), &|| "Range::clone".into())?;
        }
    }
    Ok(n)
}
