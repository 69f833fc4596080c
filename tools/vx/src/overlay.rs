use std::collections::{BTreeMap, BTreeSet};

/// A clause: raw Verus text, with the property tags it belongs to ("" = base).
#[derive(Clone, Debug)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
    pub at: String,
}

#[derive(Clone, Debug, Default)]
pub struct LoopOv {
    pub inv: Vec<Clause>,
    pub inv_xb: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub start: Vec<Clause>,
    pub end: Vec<Clause>,
    pub before: Vec<Clause>,
    pub after: Vec<Clause>,
}

#[derive(Clone, Debug, Default)]
pub struct FnOv {
    pub ret: Option<String>,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub start: Vec<Clause>,
    pub end: Vec<Clause>,
    pub before_ret: Vec<(Option<usize>, Clause)>,
    pub after_call: Vec<(String, usize, Clause)>,
    pub before_call: Vec<(String, usize, Clause)>,
    pub loops: BTreeMap<usize, LoopOv>,
    pub subst: Vec<(String, String)>,
    pub trusted: bool,
    pub attrs: Vec<String>,
    pub skip: bool,
    pub params: Option<String>,
    pub rename: Option<String>,
    pub generics: Option<String>,
    pub spec: Option<String>,
    pub at: String,
}

#[derive(Default)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnOv>,
    /// derive list for a type
    pub derives: BTreeMap<String, String>,
    pub type_attrs: BTreeMap<String, Vec<String>>,
    pub inline: BTreeSet<String>,
    pub skip_items: BTreeSet<String>,

    pub mod_extra: BTreeMap<String, String>,
    pub impls_rename: BTreeMap<String, String>,
    pub use_drop: BTreeSet<String>,
    /// traits whose impls stay trait impls
    pub keep_trait: BTreeSet<String>,
    /// struct path -> (field type as written, type printed instead)
    pub typesubst: BTreeMap<String, Vec<(String, String)>>,
    /// struct path -> (ghost field, its initial value)
    pub ghost_fields: BTreeMap<String, Vec<(String, String)>>,
    /// text printed at the head of every module
    pub prelude: String,
    /// modules (type definitions) that do not get it
    pub noprelude: BTreeSet<String>,
    /// Display impls are printed as functions on VfFmt
    pub display: bool,
}

/// `//@ [C05] ... //@end` regions of a spec file are kept only when a tag is selected.
pub fn filter_tagged(t: &str, tags: &BTreeSet<String>) -> String {
    let mut out = String::new();
    let mut keep = true;
    for l in t.lines() {
        let s = l.trim_start();
        if let Some(r) = s.strip_prefix("//@end") {
            let _ = r;
            keep = true;
            continue;
        }
        if let Some(r) = s.strip_prefix("//@ [") {
            let ts: Vec<&str> = r.trim_end().trim_end_matches(']').split(',').map(|x| x.trim()).collect();
            keep = ts.iter().any(|t| tags.contains(*t));
            continue;
        }
        if keep {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

impl Overlay {
    pub fn parse(&mut self, file: &str, t: &str, tags: &BTreeSet<String>) -> Result<(), String> {
        let mut cur_fn: Option<String> = None;
        let mut cur_loop: usize = 0;
        let mut lines = t.lines().enumerate().peekable();
        while let Some((n, l)) = lines.next() {
            if l.trim().is_empty() || l.starts_with("//") {
                continue;
            }
            if !l.starts_with('@') {
                return Err(format!("{file}:{}: text outside directive: {l}", n + 1));
            }
            let mut body = String::new();
            while let Some((_, nl)) = lines.peek() {
                if nl.starts_with('@') {
                    break;
                }
                let (_, nl) = lines.next().unwrap();
                if nl.starts_with("//") {
                    continue;
                }
                body.push_str(nl);
                body.push('\n');
            }
            let mut head = l.trim_end().to_string();
            let mut ctags: Vec<String> = vec![];
            let mut excl: Vec<String> = vec![];
            if head.ends_with(']') {
                if let Some(p) = head.rfind('[') {
                    if p > 0 && head.as_bytes()[p - 1] == b' ' {
                        for t in head[p + 1..head.len() - 1].split(',') {
                            let t = t.trim();
                            if let Some(x) = t.strip_prefix('!') {
                                excl.push(x.to_string());
                            } else {
                                ctags.push(t.to_string());
                            }
                        }
                        head.truncate(p);
                    }
                }
            }
            let on = (ctags.is_empty() || ctags.iter().any(|t| tags.contains(t)))
                && !excl.iter().any(|t| tags.contains(t));
            let head = head.trim_end().to_string();
            let (d, arg) = match head.find(' ') {
                Some(p) => (head[..p].to_string(), head[p + 1..].trim().to_string()),
                None => (head.clone(), String::new()),
            };
            let at = format!("{}:{}", file.rsplit('/').next().unwrap(), n + 1);
            let cl = Clause { tags: ctags.clone(), text: body.trim_end().to_string(), at: at.clone() };
            match d.as_str() {
                "@derive" => {
                    let (a, b) = arg.split_once(' ').unwrap_or((&arg, ""));
                    self.derives.insert(a.to_string(), b.to_string());
                    continue;
                }
                "@typeattr" => {
                    let (a, b) = arg.split_once(' ').unwrap();
                    self.type_attrs.entry(a.to_string()).or_default().push(b.to_string());
                    continue;
                }
                "@display" => {
                    self.display = true;
                    continue;
                }
                "@typesubst" => {
                    let (ty, r) = arg.split_once(' ').unwrap();
                    let (a, b) = r.split_once("=>>").ok_or(format!("{at}: no =>>"))?;
                    self.typesubst.entry(ty.to_string()).or_default().push((a.trim().to_string(), b.trim().to_string()));
                    continue;
                }
                "@ghostfield" => {
                    if on {
                        let (ty, r) = arg.split_once(' ').unwrap();
                        let (a, b) = r.split_once(" = ").ok_or(format!("{at}: no ="))?;
                        self.ghost_fields.entry(ty.to_string()).or_default().push((a.trim().to_string(), b.trim().to_string()));
                    }
                    continue;
                }
                "@inline" => {
                    self.inline.insert(arg);
                    continue;
                }
                "@skipitem" => {
                    self.skip_items.insert(arg);
                    continue;
                }
                "@keeptrait" => {
                    self.keep_trait.insert(arg);
                    continue;
                }
                "@dropuse" => {
                    self.use_drop.insert(arg);
                    continue;
                }
                "@extra" => {
                    if on {
                        self.mod_extra.entry(arg).or_default().push_str(&body);
                    }
                    continue;
                }
                "@prelude" => {
                    if on {
                        self.prelude.push_str(&body);
                    }
                    continue;
                }
                "@noprelude" => {
                    self.noprelude.insert(arg);
                    continue;
                }
                "@renameimpl" => {
                    let (a, b) = arg.split_once("=>").unwrap();
                    self.impls_rename.insert(a.trim().to_string(), b.trim().to_string());
                    continue;
                }
                "@fn" => {
                    let mut w = arg.split_whitespace();
                    let name = w.next().unwrap().to_string();
                    let ret = w.next().map(String::from);
                    let f = self.fns.entry(name.clone()).or_default();
                    if f.at.is_empty() {
                        f.at = at;
                    }
                    if ret.is_some() {
                        f.ret = ret;
                    }
                    cur_fn = Some(name);
                    cur_loop = 0;
                    continue;
                }
                _ => {}
            }
            let Some(fname) = &cur_fn else { return Err(format!("{at}: no @fn")) };
            let f = self.fns.get_mut(fname).unwrap();
            if d == "@loop" {
                cur_loop = arg.parse().map_err(|_| format!("{at}: loop number"))?;
                f.loops.entry(cur_loop).or_default();
                continue;
            }
            if !on {
                continue;
            }
            match d.as_str() {
                "@requires" => f.req.push(cl),
                "@ensures" => f.ens.push(cl),
                "@decreases" => f.dec = Some(if arg.is_empty() { body.trim().to_string() } else { arg }),
                "@start" => f.start.push(cl),
                "@end" => f.end.push(cl),
                "@before_return" => f.before_ret.push((arg.parse().ok(), cl)),
                "@after_call" | "@before_call" => {
                    let (a, b) = arg.split_once(' ').unwrap_or((&arg, "0"));
                    let v = if d == "@after_call" { &mut f.after_call } else { &mut f.before_call };
                    v.push((a.to_string(), b.parse().unwrap(), cl));
                }
                "@subst" => {
                    let (a, b) = body.split_once("=>>").or_else(|| arg.split_once("=>>")).ok_or(format!("{at}: =>> expected"))?;
                    f.subst.push((a.trim().to_string(), b.trim().to_string()));
                }
                "@trusted" => f.trusted = true,
                "@skip" => f.skip = true,
                "@attr" => f.attrs.push(arg),
                "@params" => f.params = Some(arg),
                "@generics" => f.generics = Some(arg),
                "@rename" => f.rename = Some(arg),
                "@spec" => f.spec = Some(body),
                "@inv" => f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.inv.push(cl),
                "@invxb" => f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.inv_xb.push(cl),
                "@lensures" => f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.ens.push(cl),
                "@ldecreases" => {
                    f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.dec =
                        Some(if arg.is_empty() { body.trim().to_string() } else { arg })
                }
                "@lstart" => f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.start.push(cl),
                "@lend" => f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.end.push(cl),
                "@lbefore" => f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.before.push(cl),
                "@lafter" => f.loops.get_mut(&cur_loop).ok_or(format!("{at}: no @loop"))?.after.push(cl),
                _ => return Err(format!("{at}: unknown directive {d}")),
            }
        }
        Ok(())
    }
}
