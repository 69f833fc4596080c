use crate::overlay::{Clause, FnOv, Overlay};
use crate::printer::{Piece, Printer};
use crate::Mode;
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

pub struct Cx {
    pub ov: Overlay,
    macros: BTreeMap<String, (TokenStream, TokenStream)>,
    inl: BTreeMap<String, ImplItemFn>,
    /// helper functions without a contract, inlined at their calls
    cands: Vec<crate::inline::Cand>,
    scopes: BTreeMap<String, BTreeMap<String, String>>,
    /// predicate name -> modules where it is defined with a spec twin
    pure: BTreeMap<String, Vec<String>>,
    pub functions: Vec<Value>,
    lost: Vec<String>,
    used_fn_ov: BTreeSet<String>,
    pub unsupported: Vec<String>,
    pub rewrites: BTreeMap<String, usize>,
    in_trait: bool,
    table: Vec<Vec<Piece>>,
    /// reachability probes: `assert(false)` at the start of every body and loop
    pub probe: u8,
    clones: BTreeSet<String>,
}

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.to_token_stream().to_string();
            s.contains("test") || s.contains("\"serde\"") || s.contains("vx_hook")
        }
    })
}

fn ts(s: &str) -> R<TokenStream> {
    s.parse::<TokenStream>().map_err(|e| format!("tokenize {s:?}: {e}"))
}

fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    out.push(a.into());
                }
                flat(g.stream(), out);
                if !b.is_empty() {
                    out.push(b.into());
                }
            }
            TokenTree::Punct(p) => {
                // joint puncts stay separate characters; spacing is restored when printing
                out.push(format!("{}{}", p.as_char(), if p.spacing() == proc_macro2::Spacing::Joint { "\u{1}" } else { "" }));
            }
            t => out.push(t.to_string()),
        }
    }
}

fn unflat(v: &[String]) -> String {
    let mut s = String::new();
    for t in v {
        if let Some(p) = t.strip_suffix('\u{1}') {
            s.push_str(p);
        } else {
            s.push_str(t);
            s.push(' ');
        }
    }
    s
}

fn norm(v: &[String]) -> Vec<String> {
    v.iter().map(|s| s.trim_end_matches('\u{1}').to_string()).collect()
}

impl Cx {
    pub fn probe_stmt(&mut self, at: &str) -> Option<Stmt> {
        if self.probe != 1 {
            return None;
        }
        self.stmt_ph("probe", &[Clause { tags: vec![], text: "assert(false);".into(), at: at.into() }])
    }
    pub fn new(ov: Overlay) -> Self {
        Cx {
            ov,
            macros: Default::default(),
            inl: Default::default(),
            cands: vec![],
            scopes: Default::default(),
            pure: Default::default(),
            functions: vec![],
            lost: vec![],
            used_fn_ov: Default::default(),
            unsupported: vec![],
            rewrites: Default::default(),
            in_trait: false,
            table: vec![],
            probe: 0,
            clones: Default::default(),
        }
    }

    fn count(&mut self, r: &str) {
        *self.rewrites.entry(r.to_string()).or_default() += 1;
    }

    pub fn lost_anchors(&self) -> Vec<String> {
        let mut l = self.lost.clone();
        for (k, f) in &self.ov.fns {
            if !self.used_fn_ov.contains(k) {
                l.push(format!("function {k} ({}) not found in the source", f.at));
            }
        }
        l
    }

    pub fn collect(&mut self, path: &str, f: &File) {
        for it in &f.items {
            match it {
                Item::Macro(m) if m.ident.is_some() => {
                    // single-arm macro_rules: ( matcher ) => { transcriber };
                    let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if let (Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) = (v.first(), v.get(3)) {
                        if v.len() <= 5 {
                            self.macros.insert(m.ident.as_ref().unwrap().to_string(), (a.stream(), b.stream()));
                        }
                    }
                }
                Item::Fn(f) if !cfg_test(&f.attrs) => {
                    let key = format!("{path}::{}", f.sig.ident);
                    if self.ov.fns.get(&key).map_or(false, |o| o.spec.is_some()) || self.auto_spec(path, f).is_some() {
                        let l = self.pure.entry(f.sig.ident.to_string()).or_default();
                        if !l.iter().any(|p| p == path) {
                            l.push(path.to_string());
                        }
                    }
                }
                Item::Impl(i) if !cfg_test(&i.attrs) => {
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            let n = f.sig.ident.to_string();
                            if self.ov.inline.contains(&n) {
                                self.inl.insert(n, f.clone());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// helper functions that the overlays do not know: inlined where they are called
    pub fn collect_helpers(&mut self, path: &str, f: &File) {
        self.scopes.insert(path.to_string(), crate::inline::scope(path, f));
        for it in &f.items {
            match it {
                Item::Fn(x) if !cfg_test(&x.attrs) => {
                    let key = format!("{path}::{}", x.sig.ident);
                    if self.ov.fns.contains_key(&key) || self.ov.skip_items.contains(&key) || self.auto_spec(path, x).is_some() {
                        continue;
                    }
                    self.cands.extend(crate::inline::cand(path, None, &Generics::default(), &x.sig, &x.block));
                }
                Item::Impl(i) if !cfg_test(&i.attrs) && i.trait_.is_none() => {
                    let Type::Path(tp) = &*i.self_ty else { continue };
                    let ty = tp.path.segments.last().unwrap().ident.to_string();
                    for ii in &i.items {
                        let ImplItem::Fn(x) = ii else { continue };
                        let key = format!("{path}::{ty}::{}", x.sig.ident);
                        if cfg_test(&x.attrs) || self.ov.fns.contains_key(&key) || self.ov.skip_items.contains(&key) || self.ov.inline.contains(&x.sig.ident.to_string()) {
                            continue;
                        }
                        self.cands.extend(crate::inline::cand(path, Some(ty.clone()), &i.generics, &x.sig, &x.block));
                    }
                }
                _ => {}
            }
        }
    }
    /// recursive helpers are not inlined
    pub fn drop_recursive(&mut self) {
        let names: BTreeSet<String> = self.cands.iter().map(|c| c.name.clone()).collect();
        let mut reach: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for c in &self.cands {
            reach.entry(c.name.clone()).or_default().extend(crate::inline::calls(&c.block).intersection(&names).cloned());
        }
        for _ in 0..names.len() {
            for n in &names {
                let add: BTreeSet<String> = reach[n].iter().flat_map(|m| reach[m].clone()).collect();
                reach.get_mut(n).unwrap().extend(add);
            }
        }
        self.cands.retain(|c| !reach[&c.name].contains(&c.name));
    }
    fn is_helper(&self, path: &str, ty: Option<&str>, name: &str) -> bool {
        self.cands.iter().any(|c| c.name == name && c.path == path && c.self_ty.as_deref() == ty)
    }
    /// the helper a call means, seen from module `path`
    fn helper(&self, path: &str, name: &str, ty: Option<&str>, method: bool) -> Option<crate::inline::Cand> {
        let l: Vec<_> = self.cands.iter().filter(|c| c.name == name && c.recv.is_some() == method && (method || ty.is_none() == c.self_ty.is_none())).collect();
        let l: Vec<_> = match ty {
            Some(t) if t != "Self" => l.into_iter().filter(|c| c.self_ty.as_deref() == Some(t)).collect(),
            _ => l,
        };
        let c = match l.len() {
            0 => return None,
            1 => l[0],
            _ => {
                let mut s = l.iter().filter(|c| c.path == path);
                let c = s.next()?;
                if s.next().is_some() {
                    return None;
                }
                c
            }
        };
        Some(c.clone())
    }

    /// A predicate `fn p(t: &Token, ..) -> bool { pure expression }` gets the spec twin `p__spec`.
    fn auto_spec(&self, path: &str, f: &ItemFn) -> Option<(TokenStream, Vec<Ident>)> {
        match &f.sig.output {
            ReturnType::Type(_, t) if t.to_token_stream().to_string() == "bool" => {}
            _ => return None,
        }
        if !f.sig.generics.params.is_empty() {
            return None;
        }
        let mut names = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Typed(p) => match (&*p.pat, &*p.ty) {
                    (Pat::Ident(i), Type::Reference(r)) if r.mutability.is_none() && i.mutability.is_none() => {
                        // only &Token-like parameters
                        if !matches!(r.elem.to_token_stream().to_string().as_str(), "Token" | "TokenKind") {
                            return None;
                        }
                        names.push(i.ident.clone());
                    }
                    (Pat::Ident(i), Type::Path(t)) if i.mutability.is_none() && i.by_ref.is_none() => {
                        if !matches!(t.to_token_stream().to_string().as_str(), "TokenKind" | "usize" | "u8" | "bool" | "char") {
                            return None;
                        }
                        names.push(i.ident.clone());
                    }
                    _ => return None,
                },
                _ => return None,
            }
        }
        if f.block.stmts.len() != 1 {
            return None;
        }
        let Stmt::Expr(e, None) = &f.block.stmts[0] else { return None };
        self.to_spec(path, e).map(|t| (t, names))
    }

    /// Converts a pure boolean expression into spec mode; None when it is not recognisably pure.
    fn to_spec(&self, path: &str, e: &Expr) -> Option<TokenStream> {
        Some(match e {
            Expr::Paren(p) => {
                let x = self.to_spec(path, &p.expr)?;
                quote!((#x))
            }
            Expr::Binary(b) => {
                let op = &b.op;
                match op {
                    BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {}
                    _ => return None,
                }
                let l = self.to_spec(path, &b.left)?;
                let r = self.to_spec(path, &b.right)?;
                quote!((#l #op #r))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => {
                    let x = self.to_spec(path, &u.expr)?;
                    quote!((!#x))
                }
                UnOp::Deref(_) => {
                    let x = self.to_spec(path, &u.expr)?;
                    quote!((*#x))
                }
                _ => return None,
            },
            Expr::Path(_) | Expr::Lit(_) => e.to_token_stream(),
            Expr::Field(f) => {
                let b = self.to_spec(path, &f.base)?;
                let m = &f.member;
                quote!(#b.#m)
            }
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => {
                if let Expr::Field(f) = &*m.receiver {
                    if f.member.to_token_stream().to_string() == "range" {
                        let b = self.to_spec(path, &m.receiver)?;
                        return Some(quote!(rlen(#b)));
                    }
                }
                return None;
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let name = p.path.segments.last()?.ident.to_string();
                let mods = self.pure.get(&name)?;
                let m = if mods.iter().any(|m| m == path) {
                    path.to_string()
                } else if mods.len() == 1 {
                    mods[0].clone()
                } else {
                    return None;
                };
                let args: Option<Vec<TokenStream>> = c.args.iter().map(|a| self.to_spec(path, a)).collect();
                let args = args?;
                let f: TokenStream = format!("crate::{m}::{name}__spec").parse().ok()?;
                quote!(#f(#(#args),*))
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => e.to_token_stream(),
            Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(x, None) => {
                    let x = self.to_spec(path, x)?;
                    quote!(({ #x }))
                }
                _ => return None,
            },
            Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)) => {
                let mut cs = vec![];
                conjuncts(&i.cond, &mut cs);
                if cs.iter().any(|c| matches!(c, Expr::Let(_))) || i.then_branch.stmts.len() != 1 {
                    return None;
                }
                let Stmt::Expr(a, None) = &i.then_branch.stmts[0] else { return None };
                let c = self.to_spec(path, &i.cond)?;
                let a = self.to_spec(path, a)?;
                let b = self.to_spec(path, &i.else_branch.as_ref()?.1)?;
                quote!((if #c { #a } else { #b }))
            }
            Expr::Match(m) => {
                let x = self.to_spec(path, &m.expr)?;
                let mut arms = TokenStream::new();
                for a in &m.arms {
                    if !a.attrs.is_empty() {
                        return None;
                    }
                    let p = &a.pat;
                    let b = self.to_spec(path, &a.body)?;
                    match &a.guard {
                        Some((_, g)) => {
                            let g = self.to_spec(path, g)?;
                            arms.extend(quote!(#p if #g => #b,));
                        }
                        None => arms.extend(quote!(#p => #b,)),
                    }
                }
                quote!((match #x { #arms }))
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                let x = self.to_spec(path, &r.expr)?;
                quote!(&#x)
            }
            _ => return None,
        })
    }

    fn raw(&mut self, pieces: Vec<Piece>) -> usize {
        self.table.push(pieces);
        self.table.len() - 1
    }
    fn stmt_ph(&mut self, kind: &'static str, c: &[Clause]) -> Option<Stmt> {
        if c.is_empty() {
            return None;
        }
        let p = c.iter().map(|c| Piece { text: c.text.clone(), kind, tags: c.tags.clone(), at: c.at.clone() }).collect();
        let n = Literal(self.raw(p));
        let n = n.0;
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        Some(parse_quote!(__vx_s!(#l);))
    }
    fn header_ph(&mut self, pieces: Vec<Piece>) -> Stmt {
        let n = self.raw(pieces);
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(__vx_h!(#l);)
    }

    // ------------------------------------------------------------------ items
    pub fn emit_file(&mut self, pr: &mut Printer, path: &str, src: &str, mode: Mode, f: &File) -> R<()> {
        for it in &f.items {
            match it {
                Item::Use(u) => {
                    if cfg_test(&u.attrs) {
                        continue;
                    }
                    let mut u = u.clone();
                    u.attrs.clear();
                    let Some(t) = self.filter_use(&u.tree, "") else { continue };
                    u.tree = t;
                    let s = u.to_token_stream().to_string().replace(' ', "");
                    if self.ov.use_drop.iter().any(|d| s.contains(d.as_str())) {
                        continue;
                    }
                    u.vis = parse_quote!(pub);
                    pr.raw("#[allow(unused_imports)] ");
                    pr.tokens(u.to_token_stream(), &self.table);
                    pr.raw("\n");
                }
                Item::Mod(_) | Item::Macro(_) => {}
                Item::Struct(s) => {
                    if cfg_test(&s.attrs) || self.ov.skip_items.contains(&format!("{path}::{}", s.ident)) {
                        continue;
                    }
                    let mut s = s.clone();
                    let conv = self.derived_struct(path, &s);
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for fl in s.fields.iter_mut() {
                        fl.vis = parse_quote!(pub);
                        fl.attrs.clear();
                    }
                    let skey = format!("{path}::{}", s.ident);
                    for (a, b) in self.ov.typesubst.get(&skey).cloned().unwrap_or_default() {
                        let want: String = a.split_whitespace().collect();
                        let mut hit = false;
                        for fl in s.fields.iter_mut() {
                            if fl.ty.to_token_stream().to_string().split_whitespace().collect::<String>() == want {
                                fl.ty = syn::parse_str(&b).map_err(|e| format!("{b}: {e}"))?;
                                hit = true;
                            }
                        }
                        if hit {
                            self.count("field type replaced by its trusted wrapper");
                        } else {
                            self.lost.push(format!("{skey}: field type `{a}` not found"));
                        }
                    }
                    if let Fields::Named(n) = &mut s.fields {
                        for (a, _) in self.ov.ghost_fields.get(&skey).cloned().unwrap_or_default() {
                            use syn::parse::Parser;
                            n.named.push(Field::parse_named.parse_str(&format!("pub {a}")).map_err(|e| format!("{a}: {e}"))?);
                            self.count("ghost field added");
                        }
                    }
                    self.derive(pr, path, &s.ident.to_string());
                    pr.tokens(s.to_token_stream(), &self.table);
                    pr.raw("\n");
                    pr.raw(&conv);
                }
                Item::Enum(e) => {
                    if cfg_test(&e.attrs) || self.ov.skip_items.contains(&format!("{path}::{}", e.ident)) {
                        continue;
                    }
                    let mut e = e.clone();
                    let conv = self.derived_enum(path, &e);
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    for v in e.variants.iter_mut() {
                        v.attrs.clear();
                        for fl in v.fields.iter_mut() {
                            fl.attrs.clear();
                        }
                    }
                    self.derive(pr, path, &e.ident.to_string());
                    pr.tokens(e.to_token_stream(), &self.table);
                    pr.raw("\n");
                    pr.raw(&conv);
                }
                Item::Const(c) => {
                    if cfg_test(&c.attrs) {
                        continue;
                    }
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    pr.tokens(c.to_token_stream(), &self.table);
                    pr.raw("\n");
                }
                Item::Fn(f) => {
                    if cfg_test(&f.attrs) {
                        continue;
                    }
                    let key = format!("{path}::{}", f.sig.ident);
                    if self.ov.skip_items.contains(&key) {
                        self.used_fn_ov.insert(key);
                        continue;
                    }
                    if mode == Mode::Body && self.is_helper(path, None, &f.sig.ident.to_string()) {
                        self.functions.push(json!({"fn": key, "src": format!("{src}:{}", f.sig.ident.span().start().line), "status": "inlined", "loops": 0, "lost": []}));
                        continue;
                    }
                    let auto = self.auto_spec(path, f);
                    self.emit_fn(pr, path, &key, src, mode, &f.sig, &f.block, auto, &BTreeMap::new(), None)?;
                }
                Item::Impl(i) => {
                    if cfg_test(&i.attrs) {
                        continue;
                    }
                    self.emit_impl(pr, path, src, mode, i)?;
                }
                Item::Type(t) => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    pr.tokens(t.to_token_stream(), &self.table);
                    pr.raw("\n");
                }
                other => {
                    self.unsupported.push(format!("{path}: item {}", other.to_token_stream().to_string().chars().take(60).collect::<String>()));
                }
            }
        }
        if let Some(x) = self.ov.mod_extra.get(path) {
            pr.raw(x);
        }
        Ok(())
    }

    fn derives(&self, path: &str, name: &str, attrs: &[Attribute], what: &str) -> bool {
        let mut ids = BTreeSet::new();
        for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
            crate::inline::idents(a.to_token_stream(), &mut ids);
        }
        ids.contains(what) && !self.ov.derives.get(&format!("{path}::{name}")).is_some_and(|d| d.contains(what))
    }
    /// what `derive(Clone)` and `derive(Default)` expand to, for structs of plain data
    fn derived_struct(&mut self, path: &str, s: &ItemStruct) -> String {
        let n = s.ident.to_string();
        let mut out = String::new();
        if !s.generics.params.is_empty() || self.ov.ghost_fields.contains_key(&format!("{path}::{n}")) {
            return out;
        }
        let Fields::Named(fs) = &s.fields else { return out };
        let fs: Vec<(String, String)> = fs.named.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), f.ty.to_token_stream().to_string().replace(' ', ""))).collect();
        let scalar = |t: &str| matches!(t, "usize" | "u8" | "u16" | "u32" | "u64" | "i32" | "i64" | "isize" | "bool" | "char");
        if self.derives(path, &n, &s.attrs, "Clone") {
            let l: Option<Vec<String>> = fs
                .iter()
                .map(|(f, t)| match t.as_str() {
                    t if scalar(t) => Some(format!("{f}: self.{f}")),
                    "Range<usize>" => Some(format!("{f}: self.{f}.clone()")),
                    t if self.clones.contains(t) => Some(format!("{f}: self.{f}.clone()")),
                    _ => None,
                })
                .collect();
            if let Some(l) = l {
                self.clones.insert(n.clone());
                self.count("derive(Clone) expanded");
                out.push_str(&format!("impl Clone for {n} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {n} {{ {} }} }} }}\n", l.join(", ")));
            }
        }
        if self.derives(path, &n, &s.attrs, "Default") {
            let l: Option<Vec<(String, &str)>> = fs
                .iter()
                .map(|(f, t)| match t.as_str() {
                    "bool" => Some((f.clone(), "false")),
                    "char" => None,
                    t if scalar(t) => Some((f.clone(), "0")),
                    _ => None,
                })
                .collect();
            if let Some(l) = l {
                self.count("derive(Default) expanded");
                let e: Vec<String> = l.iter().map(|(f, v)| format!("r.{f} == {v}")).collect();
                let b: Vec<String> = l.iter().map(|(f, v)| format!("{f}: {v}")).collect();
                out.push_str(&format!("impl Default for {n} {{ fn default() -> (r: Self) ensures {} {{ {n} {{ {} }} }} }}\n", e.join(", "), b.join(", ")));
            }
        }
        out
    }
    fn derived_enum(&mut self, path: &str, e: &ItemEnum) -> String {
        let n = e.ident.to_string();
        if !e.generics.params.is_empty() || e.variants.iter().any(|v| !matches!(v.fields, Fields::Unit)) || e.variants.is_empty() || !self.derives(path, &n, &e.attrs, "Clone") {
            return String::new();
        }
        self.clones.insert(n.clone());
        self.count("derive(Clone) expanded");
        let copy = if self.derives(path, &n, &e.attrs, "Copy") { format!("impl Copy for {n} {{}}\n") } else { String::new() };
        let arms: Vec<String> = e.variants.iter().map(|v| format!("{n}::{0} => {n}::{0}", v.ident)).collect();
        format!("{copy}impl Clone for {n} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ match self {{ {} }} }} }}\n", arms.join(", "))
    }
    fn derive(&mut self, pr: &mut Printer, path: &str, name: &str) {
        let key = format!("{path}::{name}");
        if let Some(d) = self.ov.derives.get(&key) {
            // `derive(Structural)` expands to a `const _` that this Verus rejects in nested modules;
            // its impl is printed by hand (the derive only checks that all fields are Structural)
            let mut l: Vec<&str> = d.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
            if l.contains(&"Structural") {
                l.retain(|x| *x != "Structural");
                pr.raw(&format!("unsafe impl Structural for {name} {{}}\n"));
            }
            if !l.is_empty() {
                pr.raw(&format!("#[derive({})]\n", l.join(", ")));
            }
        }
        for a in self.ov.type_attrs.get(&key).cloned().unwrap_or_default() {
            pr.raw(&format!("{a}\n"));
        }
    }

    fn filter_use(&self, t: &UseTree, parent: &str) -> Option<UseTree> {
        match t {
            UseTree::Path(p) => {
                let id = p.ident.to_string();
                if id == "serde" {
                    return None;
                }
                let inner = self.filter_use(&p.tree, &id)?;
                let mut p = p.clone();
                p.tree = Box::new(inner);
                Some(UseTree::Path(p))
            }
            UseTree::Name(n) => {
                let inlined = |c: &crate::inline::Cand| {
                    c.self_ty.is_none() && c.name == n.ident.to_string() && (matches!(parent, "super" | "self" | "crate") || c.path.rsplit("::").next() == Some(parent))
                };
                if self.cands.iter().any(inlined) || self.macros.contains_key(&n.ident.to_string()) || self.ov.use_drop.contains(&n.ident.to_string()) {
                    None
                } else {
                    Some(t.clone())
                }
            }
            UseTree::Group(g) => {
                let mut g2 = g.clone();
                g2.items = g.items.iter().filter_map(|i| self.filter_use(i, parent)).collect();
                if g2.items.is_empty() {
                    None
                } else {
                    Some(UseTree::Group(g2))
                }
            }
            _ => Some(t.clone()),
        }
    }

    fn emit_impl(&mut self, pr: &mut Printer, path: &str, src: &str, mode: Mode, i: &ItemImpl) -> R<()> {
        let ty = match &*i.self_ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => t.to_token_stream().to_string(),
        };
        let trait_name = i.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', ""));
        let ikey = match &trait_name {
            Some(t) => format!("{path}::{ty}::{t}"),
            None => format!("{path}::{ty}"),
        };
        if self.ov.skip_items.contains(&ikey) || self.ov.skip_items.contains(&format!("*::{}", trait_name.clone().unwrap_or_default())) {
            return Ok(());
        }
        let mut assoc: BTreeMap<String, Type> = BTreeMap::new();
        for ii in &i.items {
            if let ImplItem::Type(t) = ii {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        // an unnamed lifetime cannot be written in an inherent impl printed as is: it can
        let (ig, _, wc) = i.generics.split_for_impl();
        let sty = &i.self_ty;
        let keep = trait_name.as_ref().is_some_and(|t| self.ov.keep_trait.iter().any(|k| { let (n, m) = k.split_once('@').unwrap_or((k, "")); n == t.split('<').next().unwrap() && path.starts_with(m) }))
            && !self.ov.impls_rename.keys().any(|k| k.starts_with(&format!("{ikey}::")));
        if keep {
            let t = &i.trait_.as_ref().unwrap().1;
            pr.tokens(quote!(impl #ig #t for #sty #wc), &self.table);
        } else {
            if trait_name.is_some() {
                self.count("trait impl printed as inherent impl");
            }
            pr.tokens(quote!(impl #ig #sty #wc), &self.table);
        }
        pr.raw(" {\n");
        for ii in &i.items {
            if let ImplItem::Fn(f) = ii {
                if cfg_test(&f.attrs) {
                    continue;
                }
                let n = f.sig.ident.to_string();
                if self.ov.inline.contains(&n) {
                    continue;
                }
                let rn = self.ov.impls_rename.get(&format!("{ikey}::{n}")).cloned();
                let key = match &rn {
                    Some(r) => format!("{path}::{ty}::{r}"),
                    None if keep => format!("{ikey}::{n}"),
                    None => format!("{path}::{ty}::{n}"),
                };
                if mode == Mode::Body && trait_name.is_none() && self.is_helper(path, Some(&ty), &n) {
                    self.functions.push(json!({"fn": key, "src": format!("{src}:{}", f.sig.ident.span().start().line), "status": "inlined", "loops": 0, "lost": []}));
                    continue;
                }
                self.in_trait = keep;
                if self.ov.skip_items.contains(&key) {
                    self.used_fn_ov.insert(key);
                    continue;
                }
                self.emit_fn(pr, path, &key, src, mode, &f.sig, &f.block, None, &assoc, rn)?;
                if self.ov.display && n == "fmt" && trait_name.as_ref().is_some_and(|t| t.ends_with("Display")) {
                    pr.raw("/// std: ToString::to_string of a Display type\npub fn vf_to_string(&self) -> (r: String)\n    ensures r@ == self.shown(),\n    decreases *self, 1int,\n{ let mut f = VfFmt::new(); match self.fmt(&mut f) { Ok(()) => (), Err(_) => { crate::spec::vf_unreachable() } } f.into_string() }\n");
                }
            }
        }
        pr.raw("}\n");
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_fn(
        &mut self,
        pr: &mut Printer,
        path: &str,
        key: &str,
        src: &str,
        mode: Mode,
        sig: &Signature,
        block: &Block,
        auto: Option<(TokenStream, Vec<Ident>)>,
        assoc: &BTreeMap<String, Type>,
        rename: Option<String>,
    ) -> R<()> {
        let has = self.ov.fns.contains_key(key);
        let ov: FnOv = self.ov.fns.get(key).cloned().unwrap_or_default();
        self.used_fn_ov.insert(key.to_string());
        if ov.skip {
            return Ok(());
        }
        let mut sig = sig.clone();
        let mut block = block.clone();
        if let Some(r) = &rename {
            sig.ident = format_ident!("{}", r);
        }
        if let Some(r) = &ov.rename {
            sig.ident = format_ident!("{}", r);
        }
        let contract_only = mode == Mode::Contract || ov.trusted;
        // associated types
        if !assoc.is_empty() {
            let mut a = AssocSubst(assoc);
            a.visit_signature_mut(&mut sig);
            a.visit_block_mut(&mut block);
        }
        let mut lost: Vec<String> = vec![];
        if !contract_only {
            for (a, b) in &ov.subst {
                match subst_block(&block, a, b) {
                    Ok(Some(nb)) => {
                        block = nb;
                        self.count("overlay substitution");
                    }
                    Ok(None) => lost.push(format!("{key}: substitution anchor `{a}` not found")),
                    Err(e) => return Err(format!("{key}: {e}")),
                }
            }
        }
        // ---- ghost fields of struct literals
        if let Some((owner, _)) = key.rsplit_once("::") {
            if let Some(gf) = self.ov.ghost_fields.get(owner).cloned() {
                let mut g = GhostFields { ty: owner.rsplit("::").next().unwrap().to_string(), gf, hit: 0 };
                g.visit_block_mut(&mut block);
                for _ in 0..g.hit {
                    self.count("ghost field initialised in a struct literal");
                }
            }
        }
        // ---- rewrites
        let mut nl = 0;
        let mut hinted = 0;
        let mut kinds = vec![];
        if !contract_only {
            let mut refs = BTreeSet::new();
            let mut ranges = BTreeSet::new();
            for a in &sig.inputs {
                if let FnArg::Typed(p) = a {
                    if let Pat::Ident(i) = &*p.pat {
                        if p.ty.to_token_stream().to_string().replace(' ', "").ends_with("Range<usize>") {
                            ranges.insert(i.ident.to_string());
                        }
                    }
                    if let (Pat::Ident(i), Type::Reference(_)) = (&*p.pat, &*p.ty) {
                        refs.insert(i.ident.to_string());
                    }
                }
            }
            if search_loop(&mut block) {
                self.count("searching for loop read as any/all");
            }
            let mut rw = Rw { cx: self, path: path.to_string(), key: key.to_string(), n: 0, refs, ranges, err: vec![] };
            rw.visit_block_mut(&mut block);
            let err = std::mem::take(&mut rw.err);
            for e in err {
                self.unsupported.push(format!("{key}: {e}"));
            }
            // closures left over: annotate predicates
            let mut ca = CloAnn { cx: self, path: path.to_string() };
            ca.visit_block_mut(&mut block);
            // hints
            let ov = loop_names(&block, ov.clone());
            let mut h = Hints { cx: self, ov: &ov, loops: 0, kinds: vec![], rets: 0, calls: Default::default(), used_loops: Default::default(), used_calls: Default::default() };
            h.visit_block_mut(&mut block);
            nl = h.loops;
            hinted = h.used_loops.len();
            kinds = h.kinds.clone();
            let used = h.used_loops.clone();
            for k in ov.loops.keys() {
                if !used.contains(k) {
                    lost.push(format!("{key}: loop {k} not found"));
                }
            }
            for (n, k, _) in ov.after_call.iter().chain(ov.before_call.iter()) {
                if !h.used_calls.contains(&(n.clone(), *k)) {
                    lost.push(format!("{key}: call {n} #{k} not found"));
                }
            }
            // start/end hints
            if self.ov.display {
                if let Some(c) = lit_hint(&block, &key.to_string()) {
                    let s = self.stmt_ph("hint", &[c]).unwrap();
                    block.stmts.insert(0, s);
                }
            }
            if let Some(s) = self.stmt_ph("hint", &ov.start) {
                block.stmts.insert(0, s);
            }
            if !ov.end.is_empty() || self.probe == 2 {
                let hint = match self.probe {
                    2 => self.stmt_ph("probe", &[Clause { tags: vec![], text: "assert(false);".into(), at: key.into() }]).unwrap(),
                    _ => self.stmt_ph("hint", &ov.end).unwrap(),
                };
                let unit = matches!(sig.output, ReturnType::Default);
                match block.stmts.pop() {
                    Some(Stmt::Expr(e, None)) => {
                        if unit {
                            block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                            block.stmts.push(hint);
                        } else {
                            block.stmts.push(parse_quote!(let vf_ret = #e;));
                            block.stmts.push(hint);
                            block.stmts.push(Stmt::Expr(parse_quote!(vf_ret), None));
                        }
                    }
                    Some(s) => {
                        block.stmts.push(s);
                        block.stmts.push(hint);
                    }
                    None => block.stmts.push(hint),
                }
            }
        }
        self.lost.extend(lost.iter().cloned());
        // ---- signature
        let unnamed = "ret".to_string();
        let ret = ov.ret.clone().unwrap_or(unnamed);
        let mut pieces = vec![];
        if self.ov.display {
            if let ReturnType::Type(_, t) = &mut sig.output {
                if t.to_token_stream().to_string().replace(' ', "").ends_with("fmt::Result") {
                    **t = parse_quote!(Result<(), crate::spec::VfError>);
                }
            }
        }
        if let ReturnType::Type(_, t) = &sig.output {
            pieces.push(Piece { text: format!("-> ({ret}: {})", t.to_token_stream()), kind: "kw", tags: vec![], at: String::new() });
        }
        let mut ens = ov.ens.clone();
        let spec_name = format!("{}__spec", sig.ident);
        let mut spec_text = ov.spec.clone();
        if spec_text.is_none() {
            if let Some((body, names)) = &auto {
                let params = &sig.inputs;
                spec_text = Some(format!("pub open spec fn {spec_name}({}) -> bool {{ {} }}", params.to_token_stream(), body));
                let args: Vec<String> = names.iter().map(|n| n.to_string()).collect();
                ens.insert(0, Clause { tags: vec![], text: format!("{ret} == {spec_name}({})", args.join(", ")), at: "auto".into() });
                self.count("predicate spec twin");
            }
        }
        push_clauses(&mut pieces, "requires", "requires", &ov.req);
        push_clauses(&mut pieces, "ensures", "ensures", &ens);
        if let Some(d) = &ov.dec {
            pieces.push(Piece { text: format!("decreases {d}"), kind: "kw", tags: vec![], at: String::new() });
        }
        sig.output = ReturnType::Default;
        if self.ov.display {
            for a in sig.inputs.iter_mut() {
                if let FnArg::Typed(p) = a {
                    if p.ty.to_token_stream().to_string().contains("Formatter") {
                        p.ty = parse_quote!(&mut crate::spec::VfFmt);
                    }
                }
            }
        }
        if let Some(s) = spec_text {
            pr.raw(&s);
            pr.raw("\n");
        }
        let srcline = sig.ident.span().start().line;
        let srcs = format!("{src}:{srcline}");
        pr.set_fn(key, src);
        for a in &ov.attrs {
            pr.raw(&format!("{a}\n"));
        }
        if contract_only {
            pr.raw("#[verifier::external_body]\n");
        }
        if let Some(p) = &ov.params {
            let t = ts(p)?;
            let parsed: punctuated::Punctuated<FnArg, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::parse_terminated, t).map_err(|e| e.to_string())?;
            sig.inputs = parsed;
        }
        if let Some(g) = &ov.generics {
            sig.generics = if g == "none" { Generics::default() } else { parse_str(g).map_err(|e| e.to_string())? };
        }
        let mut sigts = sig.to_token_stream();
        if !std::mem::take(&mut self.in_trait) {
            sigts = quote!(pub #sigts);
        }
        pr.tokens(sigts, &self.table);
        pr.raw("\n");
        for p in &pieces {
            pr.piece(p);
        }
        if contract_only {
            pr.raw("{ unimplemented!() }\n");
        } else {
            if let Some(p) = self.probe_stmt(key) {
                let n = block.stmts.iter().take_while(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__vx_h") || m.mac.path.is_ident("__vx_s"))).count();
                block.stmts.insert(n, p);
            }
            pr.tokens(block.to_token_stream(), &self.table);
            pr.raw("\n");
        }
        pr.end_fn();
        self.functions.push(json!({
            "fn": key, "src": srcs,
            "status": if ov.trusted { "trusted" } else if mode == Mode::Contract { "contract-only" } else if has { "contract" } else if auto.is_some() { "auto-contract" } else { "no-contract" },
            "loops": nl,
            "hinted": hinted,
            "kinds": kinds,
            "lost": lost,
        }));
        Ok(())
    }
}

struct Literal(usize);

/// string literals of a function
/// the characters of every string literal in the block
fn lit_hint(b: &Block, at: &str) -> Option<Clause> {
    let mut l = Lits(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut l, b);
    if l.0.is_empty() {
        return None;
    }
    let text: String = l.0.iter().map(|s| format!("reveal_strlit({s:?}); assert({s:?}@ =~= seq![{}]);", s.chars().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", "))).collect();
    let text = text.replace("seq![]", "Seq::<char>::empty()");
    Some(Clause { tags: vec![], text: format!("proof {{ {text} }}"), at: at.to_string() })
}

struct Lits(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Lits {
    fn visit_lit_str(&mut self, l: &'a LitStr) {
        self.0.insert(l.value());
    }
}

fn push_clauses(pieces: &mut Vec<Piece>, kw: &'static str, kind: &'static str, c: &[Clause]) {
    if c.is_empty() {
        return;
    }
    pieces.push(Piece { text: kw.into(), kind: "kw", tags: vec![], at: String::new() });
    for c in c {
        let mut t = c.text.trim_end().to_string();
        if t.is_empty() {
            continue;
        }
        if !t.ends_with(',') {
            t.push(',');
        }
        pieces.push(Piece { text: t, kind, tags: c.tags.clone(), at: c.at.clone() });
    }
}

fn subst_block(b: &Block, from: &str, to: &str) -> R<Option<Block>> {
    let mut v = vec![];
    flat(b.to_token_stream(), &mut v);
    let mut f = vec![];
    flat(ts(from)?, &mut f);
    let nv = norm(&v);
    let nf = norm(&f);
    if nf.is_empty() || nv.len() < nf.len() {
        return Ok(None);
    }
    let mut out = vec![];
    let mut i = 0;
    let mut hit = false;
    while i < v.len() {
        if i + nf.len() <= v.len() && nv[i..i + nf.len()] == nf[..] {
            hit = true;
            out.push(format!(" {to} "));
            i += nf.len();
        } else {
            out.push(v[i].clone());
            i += 1;
        }
    }
    if !hit {
        return Ok(None);
    }
    let s = unflat(&out);
    parse_str::<Block>(&s).map(Some).map_err(|e| format!("after substitution of `{from}`: {e}\n{s}"))
}

struct GhostFields {
    ty: String,
    gf: Vec<(String, String)>,
    hit: usize,
}
impl VisitMut for GhostFields {
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, e);
        let n = e.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if e.path.segments.len() == 1 && (n == "Self" || n == self.ty) && e.rest.is_none() {
            for (a, b) in &self.gf {
                let name = format_ident!("{}", a.split(':').next().unwrap().trim());
                if let Ok(v) = parse_str::<Expr>(b) {
                    e.fields.push(parse_quote!(#name: #v));
                    self.hit += 1;
                }
            }
        }
    }
}

struct AssocSubst<'a>(&'a BTreeMap<String, Type>);
impl VisitMut for AssocSubst<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

// ---------------------------------------------------------------------- macro_rules expansion
fn expand_macro(m: &(TokenStream, TokenStream), args: TokenStream) -> R<TokenStream> {
    // matcher: $p:expr, $($x:expr),+ $(,)?
    let mt: Vec<TokenTree> = m.0.clone().into_iter().collect();
    let mut singles: Vec<String> = vec![];
    let mut rep: Option<String> = None;
    let mut i = 0;
    while i < mt.len() {
        if let TokenTree::Punct(p) = &mt[i] {
            if p.as_char() == '$' {
                match &mt[i + 1] {
                    TokenTree::Ident(id) => {
                        singles.push(id.to_string());
                        i += 4;
                        continue;
                    }
                    TokenTree::Group(g) => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let (Some(TokenTree::Punct(d)), Some(TokenTree::Ident(id))) = (inner.first(), inner.get(1)) {
                            if d.as_char() == '$' {
                                rep = Some(id.to_string());
                            }
                        }
                        i += 2;
                        continue;
                    }
                    _ => {}
                }
            }
        }
        i += 1;
    }
    let parsed: punctuated::Punctuated<Expr, Token![,]> =
        parse::Parser::parse2(punctuated::Punctuated::parse_terminated, args).map_err(|e| e.to_string())?;
    let exprs: Vec<Expr> = parsed.into_iter().collect();
    if exprs.len() < singles.len() {
        return Err("macro arity".into());
    }
    let mut env: BTreeMap<String, TokenStream> = BTreeMap::new();
    for (s, e) in singles.iter().zip(&exprs) {
        env.insert(s.clone(), e.to_token_stream());
    }
    let reps: Vec<TokenStream> = exprs[singles.len()..].iter().map(|e| e.to_token_stream()).collect();
    // hygiene: rename let-bound identifiers of the transcriber
    let mut locals = BTreeSet::new();
    find_lets(m.1.clone(), &mut locals);
    transcribe(m.1.clone(), &env, rep.as_deref(), &reps, None, &locals)
}

fn find_lets(t: TokenStream, out: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            find_lets(g.stream(), out);
        }
        if let (TokenTree::Ident(a), Some(TokenTree::Ident(b))) = (&v[i], v.get(i + 1)) {
            if a == "let" {
                out.insert(b.to_string());
            }
        }
    }
}

fn transcribe(
    t: TokenStream,
    env: &BTreeMap<String, TokenStream>,
    rep: Option<&str>,
    reps: &[TokenStream],
    cur: Option<usize>,
    locals: &BTreeSet<String>,
) -> R<TokenStream> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) {
                Some(TokenTree::Ident(id)) => {
                    let n = id.to_string();
                    if Some(n.as_str()) == rep {
                        let c = cur.ok_or("repetition variable outside repetition")?;
                        out.extend(reps[c].clone());
                    } else {
                        out.extend(env.get(&n).ok_or(format!("macro variable {n}"))?.clone());
                    }
                    i += 2;
                }
                Some(TokenTree::Group(g)) => {
                    // $( ... ) sep +/*
                    let mut sep = TokenStream::new();
                    let mut j = i + 2;
                    while j < v.len() {
                        if let TokenTree::Punct(p) = &v[j] {
                            if p.as_char() == '+' || p.as_char() == '*' {
                                break;
                            }
                        }
                        sep.extend([v[j].clone()]);
                        j += 1;
                    }
                    for k in 0..reps.len() {
                        if k > 0 {
                            out.extend(sep.clone());
                        }
                        out.extend(transcribe(g.stream(), env, rep, reps, Some(k), locals)?);
                    }
                    i = j + 1;
                }
                _ => return Err("macro syntax".into()),
            },
            TokenTree::Group(g) => {
                let inner = transcribe(g.stream(), env, rep, reps, cur, locals)?;
                let mut ng = Group::new(g.delimiter(), inner);
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
                i += 1;
            }
            TokenTree::Ident(id) if locals.contains(&id.to_string()) => {
                // field accesses keep their name
                let after_dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.')
                    && !(i > 1 && matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == '.'));
                if after_dot {
                    out.extend([v[i].clone()]);
                } else {
                    out.extend([TokenTree::Ident(Ident::new(&format!("{id}_m"), Span::call_site()))]);
                }
                i += 1;
            }
            t => {
                out.extend([t.clone()]);
                i += 1;
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------------- expression rewrites
struct Rw<'a> {
    cx: &'a mut Cx,
    path: String,
    key: String,
    n: usize,
    refs: BTreeSet<String>,
    ranges: BTreeSet<String>,
    err: Vec<String>,
}

fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        _ => None,
    }
}

struct HasExit(bool);
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_exit(e: &Expr) -> bool {
    let mut h = HasExit(false);
    h.visit_expr(e);
    h.0
}

struct Rename(String, Expr);
impl VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if ident_of(e).as_deref() == Some(&self.0) {
            *e = self.1.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let Some(to) = ident_of(&self.1) else { return };
        m.tokens = rename_tokens(m.tokens.clone(), &self.0, &to);
    }
}
fn rename_tokens(t: TokenStream, a: &str, b: &str) -> TokenStream {
    t.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_tokens(g.stream(), a, b))),
            t => t,
        })
        .collect()
}

struct CallParam(String, Expr, bool);
impl VisitMut for CallParam {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if ident_of(&c.func).as_deref() == Some(&self.0) {
                *e = self.1.clone();
                self.2 = true;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Rw<'_> {
    fn closure_body(&mut self, e: &Expr) -> Option<Expr> {
        if !has_exit(e) {
            return Some(e.clone());
        }
        if let Expr::Block(b) = e {
            if let Some(x) = (crate::inline::Elim { ret: crate::inline::Ret::Other }).block(&b.block) {
                self.cx.count("early return in a closure turned into nested ifs");
                return Some(parse_quote!(#x));
            }
        }
        self.err.push("closure with return/?".into());
        None
    }
    fn closure1(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let body = self.closure_body(&c.body)?;
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, body))
            }
            Expr::Path(p) => {
                let v = format_ident!("vf_x");
                if p.path.to_token_stream().to_string().replace(' ', "") == "ToString::to_string" {
                    return Some((parse_quote!(#v), parse_quote!(#v.to_string())));
                }
                Some((parse_quote!(#v), parse_quote!(#p(#v))))
            }
            _ => None,
        }
    }
    fn closure0(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Closure(c) if c.inputs.is_empty() => {
                self.closure_body(&c.body)
            }
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }
    /// `x[range]` (under `&`): the call of its contract
    fn range_index(&mut self, e: &Expr) -> Option<Expr> {
        let e = match e {
            Expr::Paren(p) => &*p.expr,
            e => e,
        };
        let Expr::Index(x) = e else { return None };
        fn is_range(me: &Rw, r: &Expr) -> bool {
            match r {
                Expr::Paren(p) => is_range(me, &p.expr),
                Expr::Range(_) => true,
                Expr::MethodCall(m) => m.method == "clone",
                Expr::Field(f) => f.member.to_token_stream().to_string() == "range",
                Expr::Path(_) => ident_of(r).is_some_and(|i| me.ranges.contains(&i) || i.ends_with("range")),
                Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(x, None)) if is_range(me, x)),
                _ => false,
            }
        }
        if !is_range(self, &x.index) {
            return None;
        }
        let base = &x.expr;
        let idx: Expr = match &*x.index {
            Expr::Range(r) => {
                let a: Expr = r.start.as_ref().map(|a| (**a).clone()).unwrap_or(parse_quote!(0));
                match (&r.end, &r.limits) {
                    (Some(b), RangeLimits::HalfOpen(_)) => parse_quote!(#a..#b),
                    (Some(b), RangeLimits::Closed(_)) => parse_quote!(#a..(#b) + 1),
                    (None, _) => parse_quote!(#a..#base.len()),
                }
            }
            r => r.clone(),
        };
        Some(parse_quote!(crate::spec::VfIdx::vf_idx(&*#base, #idx)))
    }
    fn seq_expr(&self, e: &Expr) -> Expr {
        // an expression denoting something indexable
        match e {
            Expr::Reference(_) => e.clone(),
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => self.seq_expr(&m.receiver),
            Expr::Path(_) if ident_of(e).map_or(false, |i| self.refs.contains(&i)) => e.clone(),
            Expr::Path(_) | Expr::Field(_) => parse_quote!(&#e),
            _ => e.clone(),
        }
    }
    /// the receiver under `.enumerate()`, if that is what `e` is
    fn peel_enum<'a>(&self, e: &'a Expr) -> (&'a Expr, bool) {
        match e {
            Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => (&m.receiver, true),
            _ => (e, false),
        }
    }
    /// with `en`, the pattern is that of an enumerated element: (index, element)
    fn bind_elem(&mut self, p: &Pat, en: bool, xs: &Ident, i: &Ident) -> TokenStream {
        if en {
            if let Pat::Tuple(t) = p {
                if t.elems.len() == 2 {
                    let (a, b) = (&t.elems[0], &t.elems[1]);
                    let b = self.bind_elem(b, false, xs, i);
                    let a = if matches!(a, Pat::Wild(_)) { quote!() } else { quote!(let #a = #i;) };
                    return quote!(#a #b);
                }
            }
            self.err.push("enumerate with a pattern that is no pair".into());
            return quote!();
        }
        match p {
            Pat::Reference(r) => {
                let q = &r.pat;
                quote!(let #q = #xs[#i];)
            }
            Pat::Wild(_) => quote!(),
            p => quote!(let #p = &#xs[#i];),
        }
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }

    /// a call of a helper function without a contract, as a block
    fn helper_call(&mut self, e: &Expr) -> Option<Expr> {
        if self.cx.cands.is_empty() {
            return None;
        }
        let (c, recv, args): (_, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (self.cx.helper(&self.path, &m.method.to_string(), None, true)?, Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.len();
                let name = p.path.segments[n - 1].ident.to_string();
                let q = (n > 1).then(|| p.path.segments[n - 2].ident.to_string()).filter(|q| q.starts_with(|c: char| c.is_uppercase()));
                match self.cx.helper(&self.path, &name, q.as_deref(), false) {
                    Some(h) => (h, None, c.args.iter().cloned().collect()),
                    None => {
                        let h = self.cx.helper(&self.path, &name, Some(q.as_deref()?), true)?;
                        let mut a = c.args.iter().cloned();
                        let r = a.next()?;
                        (h, Some(r), a.collect())
                    }
                }
            }
            _ => return None,
        };
        let mut c = c;
        if c.path != self.path || c.self_ty.is_some() {
            let mut bound = crate::inline::bound_block(&c.block);
            bound.extend(c.params.iter().map(|p| p.0.to_string()));
            if c.path == self.path {
                // same module: only `Self` has to be named
                let scope = BTreeMap::new();
                let mac = BTreeSet::new();
                let mut q = crate::inline::Qualify { scope: &scope, bound: &bound, macros: &mac, self_ty: c.self_ty.as_ref().map(|t| format!("crate::{}::{t}", c.path)) };
                q.visit_block_mut(&mut c.block);
            } else {
                let scope = self.cx.scopes.get(&c.path).cloned().unwrap_or_default();
                let mac = BTreeSet::new();
                let mut q = crate::inline::Qualify { scope: &scope, bound: &bound, macros: &mac, self_ty: c.self_ty.as_ref().map(|t| format!("crate::{}::{t}", c.path)) };
                q.visit_block_mut(&mut c.block);
                for p in c.params.iter_mut() {
                    q.visit_type_mut(&mut p.2);
                }
            }
        }
        let k = self.fresh();
        match crate::inline::inline(&c, recv.as_ref(), &args, k) {
            Some(b) => {
                self.cx.count("helper function without a contract inlined");
                let b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                Some(parse_quote!((#b)))
            }
            None => {
                self.err.push(format!("cannot inline the call of {}", c.name));
                None
            }
        }
    }

    fn inline_call(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let def = self.cx.inl.get(&m.method.to_string())?.clone();
        let recv = ident_of(&m.receiver)?;
        let recv_e: Expr = (*m.receiver).clone();
        let mut params = vec![];
        for a in def.sig.inputs.iter().skip(1) {
            if let FnArg::Typed(p) = a {
                if let Pat::Ident(i) = &*p.pat {
                    params.push((i.ident.clone(), (*p.ty).clone()));
                    continue;
                }
            }
            return None;
        }
        if params.len() != m.args.len() || has_exit(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: def.block.clone() })) {
            return None;
        }
        let mut block = def.block.clone();
        Rename("self".into(), recv_e.clone()).visit_block_mut(&mut block);
        let mut pre: Vec<Stmt> = vec![];
        for ((name, ty), arg) in params.iter().zip(m.args.iter()) {
            match arg {
                Expr::Closure(c) => {
                    if c.inputs.len() != 1 || has_exit(&c.body) {
                        self.err.push(format!("closure passed to {} has return/?", m.method));
                        return None;
                    }
                    let pn = match &c.inputs[0] {
                        Pat::Ident(i) => i.ident.to_string(),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(i) => i.ident.to_string(),
                            _ => return None,
                        },
                        _ => return None,
                    };
                    let mut body = (*c.body).clone();
                    if pn != recv {
                        Rename(pn, recv_e.clone()).visit_expr_mut(&mut body);
                    }
                    let mut cp = CallParam(name.to_string(), body, false);
                    cp.visit_block_mut(&mut block);
                    if !cp.2 {
                        return None;
                    }
                }
                Expr::Path(p) if matches!(ty, Type::ImplTrait(_)) => {
                    let body: Expr = parse_quote!(#p(#recv_e));
                    let mut cp = CallParam(name.to_string(), body, false);
                    cp.visit_block_mut(&mut block);
                    if !cp.2 {
                        return None;
                    }
                }
                Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_)) => {
                    let Expr::Array(a) = &*r.expr else { unreachable!() };
                    let mut vals: Vec<Expr> = vec![];
                    for (k, x) in a.elems.iter().enumerate() {
                        let v = format_ident!("{}_{}", name, k);
                        pre.push(parse_quote!(let #v = #x;));
                        vals.push(parse_quote!(#v));
                    }
                    let mut u = Unroll { name: name.to_string(), vals, bad: false };
                    u.visit_block_mut(&mut block);
                    if u.bad {
                        return None;
                    }
                    self.cx.count("loop over array literal unrolled");
                }
                e => {
                    pre.push(parse_quote!(let #name: #ty = #e;));
                }
            }
        }
        pre.extend(block.stmts);
        block.stmts = pre;
        self.cx.count("higher-order helper inlined");
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block }))
    }

    fn if_chain(&mut self, m: &ExprMatch) -> Option<Expr> {
        // match on a simple variable with literal patterns and guards
        let scr = &m.expr;
        ident_of(scr)?;
        if !m.arms.iter().any(|a| a.guard.is_some()) {
            return None;
        }
        fn cond(p: &Pat, scr: &Expr) -> Option<Option<Expr>> {
            match p {
                Pat::Lit(l) => Some(Some(parse_quote!(#scr == #l))),
                Pat::Wild(_) => Some(None),
                Pat::Or(o) => {
                    let mut acc: Option<Expr> = None;
                    for c in &o.cases {
                        let x = cond(c, scr)??;
                        acc = Some(match acc {
                            None => x,
                            Some(a) => parse_quote!(#a || #x),
                        });
                    }
                    let a = acc?;
                    Some(Some(parse_quote!((#a))))
                }
                _ => None,
            }
        }
        let mut tail: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let c = cond(&a.pat, scr)?;
            let c = match (c, &a.guard) {
                (Some(c), Some((_, g))) => Some(parse_quote!(#c && #g)),
                (Some(c), None) => Some(c),
                (None, Some((_, g))) => Some((**g).clone()),
                (None, None) => None,
            };
            let body = &a.body;
            let body: TokenStream = match &**body {
                Expr::Block(b) => b.block.to_token_stream(),
                e => quote!({ #e }),
            };
            tail = Some(match (c, tail) {
                (None, _) => parse2(body).ok()?,
                (Some(c), Some(t)) => {
                    let t: TokenStream = match &t {
                        Expr::If(_) | Expr::Block(_) => t.to_token_stream(),
                        t => quote!({ #t }),
                    };
                    parse_quote!(if #c #body else #t)
                }
                (Some(_), None) => return None,
            });
        }
        self.cx.count("match with guards printed as if-chain");
        tail
    }
}

fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            conjuncts(&b.left, out);
            conjuncts(&b.right, out);
        }
        e => out.push(e.clone()),
    }
}
/// the body has a `break` or `continue` of its own
fn leaves(b: &Block) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut l = L(false);
    l.visit_block(b);
    l.0
}

/// a body ending in `for p in xs { if c { return true; } } false` (or with false/true): `xs.iter().any(|p| c)`
fn search_loop(b: &mut Block) -> bool {
    fn lit(e: &Expr) -> Option<bool> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(b.value),
            _ => None,
        }
    }
    let n = b.stmts.len();
    if n < 2 {
        return false;
    }
    let (Stmt::Expr(Expr::ForLoop(f), _), Stmt::Expr(last, None)) = (&b.stmts[n - 2], &b.stmts[n - 1]) else { return false };
    let Some(dflt) = lit(last) else { return false };
    if f.label.is_some() || f.body.stmts.len() != 1 {
        return false;
    }
    let Stmt::Expr(Expr::If(i), _) = &f.body.stmts[0] else { return false };
    if i.else_branch.is_some() || i.then_branch.stmts.len() != 1 {
        return false;
    }
    let mut cs = vec![];
    conjuncts(&i.cond, &mut cs);
    if cs.iter().any(|c| matches!(c, Expr::Let(_)) || has_exit(c)) {
        return false;
    }
    let Stmt::Expr(Expr::Return(r), _) = &i.then_branch.stmts[0] else { return false };
    if r.expr.as_ref().and_then(|e| lit(e)) != Some(!dflt) {
        return false;
    }
    let xs: Expr = match &*f.expr {
        Expr::Reference(r) if r.mutability.is_none() => {
            let x = &r.expr;
            parse_quote!(#x.iter())
        }
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (*f.expr).clone(),
        _ => return false,
    };
    let (p, c) = (&f.pat, &i.cond);
    let e: Expr = if dflt { parse_quote!(#xs.all(|#p| !(#c))) } else { parse_quote!(#xs.any(|#p| #c)) };
    b.stmts.truncate(n - 2);
    b.stmts.push(Stmt::Expr(e, None));
    true
}

/// the loop body without its own `continue`s
fn no_continue(b: &Block) -> Option<Block> {
    struct Hide {
        n: usize,
        depth: usize,
    }
    impl VisitMut for Hide {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if matches!(e, Expr::Closure(_)) {
                return;
            }
            let inner = matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
            self.depth += inner as usize;
            visit_mut::visit_expr_mut(self, e);
            self.depth -= inner as usize;
            match e {
                Expr::Return(r) => {
                    let x = r.expr.as_ref();
                    *e = parse_quote!(__vx_ret(#x));
                }
                Expr::Try(t) => {
                    let x = &t.expr;
                    *e = parse_quote!(__vx_try(#x));
                }
                Expr::Continue(c) if c.label.is_none() && self.depth == 0 => {
                    self.n += 1;
                    *e = parse_quote!(return);
                }
                _ => {}
            }
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    struct Show;
    impl VisitMut for Show {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                let x = c.args.first();
                match ident_of(&c.func).as_deref() {
                    Some("__vx_ret") => *e = parse_quote!(return #x),
                    Some("__vx_try") => *e = parse_quote!(#x?),
                    _ => {}
                }
            }
        }
    }
    let mut b = b.clone();
    let mut h = Hide { n: 0, depth: 0 };
    h.visit_block_mut(&mut b);
    if h.n == 0 {
        return None;
    }
    let mut b = crate::inline::Elim { ret: crate::inline::Ret::Other }.block(&b)?;
    Show.visit_block_mut(&mut b);
    Some(b)
}

/// `loop { if c { break; } rest }`, `loop { let p = e else { break; }; rest }`,
/// `loop { if c { rest } else { break; } }`, `loop { match e { p => rest, _ => break } }` as `while`
fn loop_as_while(l: &ExprLoop) -> Option<Expr> {
    fn brk(e: &Expr) -> bool {
        match e {
            Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
            Expr::Block(b) if b.label.is_none() => brk_block(&b.block),
            _ => false,
        }
    }
    fn brk_block(b: &Block) -> bool {
        b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(e, _) if brk(e))
    }
    fn plain(c: &Expr) -> bool {
        let mut cs = vec![];
        conjuncts(c, &mut cs);
        !cs.iter().any(|c| matches!(c, Expr::Let(_)))
    }
    let lab = &l.label;
    let st = &l.body.stmts;
    let rest = st.get(1..)?;
    match st.first()? {
        Stmt::Expr(Expr::If(i), _) => {
            if i.else_branch.is_none() && brk_block(&i.then_branch) && plain(&i.cond) {
                let c = &i.cond;
                return Some(parse_quote!(#lab while !(#c) { #(#rest)* }));
            }
            let (_, els) = i.else_branch.as_ref()?;
            let single = plain(&i.cond) || matches!(&*i.cond, Expr::Let(_));
            if rest.is_empty() && brk(els) && single {
                let (c, b) = (&i.cond, &i.then_branch);
                return Some(parse_quote!(#lab while #c #b));
            }
            if rest.is_empty() && brk_block(&i.then_branch) && plain(&i.cond) {
                let (c, b) = (&i.cond, els);
                return Some(parse_quote!(#lab while !(#c) { #b }));
            }
            None
        }
        Stmt::Local(x) => {
            let init = x.init.as_ref()?;
            let (_, els) = init.diverge.as_ref()?;
            if !brk(els) {
                return None;
            }
            let (p, e) = (&x.pat, &init.expr);
            Some(parse_quote!(#lab while let #p = #e { #(#rest)* }))
        }
        Stmt::Expr(Expr::Match(m), _) if rest.is_empty() && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
            let n = m.arms.iter().position(|a| brk(&a.body))?;
            let (p, e, b) = (&m.arms[1 - n].pat, &m.expr, &m.arms[1 - n].body);
            if !matches!(p, Pat::TupleStruct(_)) {
                return None;
            }
            Some(parse_quote!(#lab while let #p = #e { #b }))
        }
        _ => None,
    }
}

/// `if a && let p = e && b { x } else { y }` as nested ifs
fn let_chain(e: &ExprIf) -> Option<Expr> {
    let mut cs = vec![];
    conjuncts(&e.cond, &mut cs);
    if cs.len() < 2 || !cs.iter().any(|c| matches!(c, Expr::Let(_))) {
        return None;
    }
    let els = e.else_branch.as_ref().map(|(_, b)| match &**b {
        Expr::Block(b) => b.block.to_token_stream(),
        x => quote!({ #x }),
    });
    let mut body: TokenStream = e.then_branch.to_token_stream();
    let mut plain: Option<Expr> = None;
    let wrap = |c: &Expr, body: TokenStream| match &els {
        Some(y) => quote!({ if #c #body else #y }),
        None => quote!({ if #c #body }),
    };
    for c in cs.iter().rev() {
        if let Expr::Let(_) = c {
            if let Some(p) = plain.take() {
                body = wrap(&p, body);
            }
            body = wrap(c, body);
        } else {
            plain = Some(match plain.take() {
                None => c.clone(),
                Some(p) => parse_quote!(#c && #p),
            });
        }
    }
    if let Some(p) = plain.take() {
        body = wrap(&p, body);
    }
    parse2::<Block>(body).ok().map(|b| match b.stmts.into_iter().next() {
        Some(Stmt::Expr(e, None)) => e,
        _ => unreachable!(),
    })
}

fn binds(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> visit::Visit<'a> for B {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let n = i.ident.to_string();
            if n.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') {
                self.0 = true;
            }
        }
        fn visit_field_pat(&mut self, f: &'a FieldPat) {
            visit::visit_field_pat(self, f);
        }
    }
    let mut b = B(false);
    visit::Visit::visit_pat(&mut b, p);
    b.0
}
/// the alternatives of a pattern whose or-patterns bind variables
fn split_or(p: &Pat) -> Vec<Pat> {
    struct S(Option<usize>, usize);
    impl VisitMut for S {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if self.1 > 0 {
                return;
            }
            if let Pat::Or(o) = p {
                if binds(&Pat::Or(o.clone())) {
                    self.1 = o.cases.len();
                    if let Some(k) = self.0 {
                        *p = o.cases[k].clone();
                    }
                    return;
                }
            }
            if let Pat::Paren(x) = p {
                *p = (*x.pat).clone();
                self.visit_pat_mut(p);
                return;
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut s = S(None, 0);
    s.visit_pat_mut(&mut p.clone());
    if s.1 == 0 {
        return vec![p.clone()];
    }
    let mut out = vec![];
    for k in 0..s.1 {
        let mut q = p.clone();
        S(Some(k), 0).visit_pat_mut(&mut q);
        out.extend(split_or(&q));
    }
    out
}

struct Unroll {
    name: String,
    vals: Vec<Expr>,
    bad: bool,
}
impl VisitMut for Unroll {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::ForLoop(f), _) = &s {
                if ident_of(&f.expr).as_deref() == Some(&self.name) {
                    for v in &self.vals {
                        let body = &f.body.stmts;
                        match &*f.pat {
                            Pat::Wild(_) => out.push(parse_quote!({ #(#body)* })),
                            Pat::Reference(r) => {
                                let p = &r.pat;
                                out.push(parse_quote!({ let #p = #v; #(#body)* }));
                            }
                            _ => self.bad = true,
                        }
                    }
                    continue;
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let n = self.vals.len();
            if m.method == "extend_from_slice" && m.args.len() == 1 && ident_of(&m.args[0]).as_deref() == Some(&self.name) && matches!(&*m.receiver, Expr::Field(_) | Expr::Path(_)) {
                let (r, vals) = (&m.receiver, &self.vals);
                let pushes = vals.iter().map(|v| quote!(#r.push(#v);));
                *e = parse_quote!({ #(#pushes)* });
                return;
            }
            if m.method == "len" && m.args.is_empty() && ident_of(&m.receiver).as_deref() == Some(&self.name) {
                let l = proc_macro2::Literal::usize_unsuffixed(n);
                *e = parse_quote!(#l);
                return;
            }
        }
        if ident_of(e).as_deref() == Some(&self.name) {
            self.bad = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// an expression without calls that may be written twice
fn trivial(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Return(r) => r.expr.as_ref().is_none_or(|e| trivial(e)),
        Expr::Tuple(t) => t.elems.is_empty(),
        Expr::Block(b) if b.label.is_none() => match &b.block.stmts[..] {
            [] => true,
            [Stmt::Expr(e, _)] => trivial(e),
            _ => false,
        },
        _ => false,
    }
}

impl VisitMut for Rw<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            if let Expr::MethodCall(m) = &mut *i.expr {
                let ty = &t.ty;
                if m.method == "collect" && m.turbofish.is_none() && ty.to_token_stream().to_string().starts_with("Vec <") {
                    m.turbofish = Some(parse_quote!(::<#ty>));
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            match name.as_str() {
                "debug_assert" | "assert" => {
                    let p: R<punctuated::Punctuated<Expr, Token![,]>> =
                        parse::Parser::parse2(punctuated::Punctuated::parse_terminated, m.mac.tokens.clone()).map_err(|e| e.to_string());
                    if let Ok(p) = p {
                        if let Some(c) = p.first() {
                            self.cx.count("debug_assert! turned into a proof obligation");
                            let n = self.cx.raw(vec![Piece { text: format!("assert({});", c.to_token_stream()), kind: "debug_assert", tags: vec![], at: self.key.clone() }]);
                            let l = proc_macro2::Literal::usize_unsuffixed(n);
                            *s = parse_quote!(__vx_s!(#l););
                            return;
                        }
                    }
                }
                "__vx_s" | "__vx_h" => return,
                _ => {
                    let mac = &m.mac;
                    let e: Expr = parse_quote!(#mac);
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- pre-order rewrites (the result is visited again)
        if let Some(x) = self.helper_call(e) {
            *e = x;
        }
        if let Expr::Match(m) = e {
            // match X { P if G => A, _ => B }  ==>  if let P = X { if G { A } else { B } } else { B }   (B trivial)
            if m.arms.len() == 2 && m.arms[0].guard.is_some() && m.arms[1].guard.is_none() && matches!(m.arms[1].pat, Pat::Wild(_)) && trivial(&m.arms[1].body) {
                let (x, p, g, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].guard.as_ref().unwrap().1, &m.arms[0].body, &m.arms[1].body);
                let a: Block = match &**a {
                    Expr::Block(b) if b.label.is_none() => b.block.clone(),
                    a => parse_quote!({ #a }),
                };
                self.cx.count("match with a guard as if let and if");
                *e = parse_quote!(if let #p = #x { if #g #a else { #b } } else { #b });
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() >= 2 && s[s.len() - 2..] == ["mem".to_string(), "take".to_string()] {
                    self.cx.count("mem::take given a trusted contract");
                    p.path = parse_quote!(crate::spec::VfTake::vf_take);
                }
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Some(x) = self.range_index(&r.expr) {
                    self.cx.count("range index given a trusted contract");
                    *e = x;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if matches!(m.method.to_string().as_str(), "trim_matches" | "trim_end_matches" | "trim_start_matches")
                && m.args.len() == 1
                && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))
            {
                m.method = format_ident!("vf_{}", m.method);
                self.cx.count("str::trim_matches family given a trusted contract");
            } else if m.method == "extend" && matches!((&*m.receiver, m.args.first()), (Expr::Path(_) | Expr::Field(_), Some(Expr::Array(_)))) {
                let Some(Expr::Array(a)) = m.args.first() else { unreachable!() };
                let k = self.fresh();
                let r = &m.receiver;
                let xs: Vec<Ident> = (0..a.elems.len()).map(|i| format_ident!("vf_a{k}_{i}")).collect();
                let es = a.elems.iter();
                self.cx.count("Vec::extend of an array literal printed as pushes");
                *e = parse_quote!({ #(let #xs = #es;)* #(#r.push(#xs);)* });
            } else if m.method == "extend" && m.args.len() == 1 && ident_of(&m.args[0]).is_some() {
                let (r, a) = (&m.receiver, &m.args[0]);
                self.cx.count("Vec::extend given a trusted contract");
                *e = parse_quote!(crate::spec::vf_extend(#r, #a));
            } else if m.method == "get_or_insert" && m.args.len() == 1 {
                let (r, a) = (&m.receiver, &m.args[0]);
                self.cx.count("Option::get_or_insert given a trusted contract");
                *e = parse_quote!(crate::spec::vf_get_or_insert(&mut #r, #a));
            } else if m.method == "peekable" {
                if let Expr::MethodCall(c) = &*m.receiver {
                    if c.method == "char_indices" {
                        let r = &c.receiver;
                        self.cx.count("str::char_indices().peekable() given a trusted contract");
                        *e = parse_quote!(crate::spec::CharPeek::new(#r));
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if let Some(d) = self.cx.macros.get(&name).cloned() {
                match expand_macro(&d, m.mac.tokens.clone()).and_then(|t| parse2::<Block>(quote!({ #t })).map_err(|e| e.to_string())) {
                    Ok(b) => {
                        self.cx.count("macro_rules expanded");
                        // {{ .. }} -> { .. }
                        let b = if b.stmts.len() == 1 {
                            match &b.stmts[0] {
                                Stmt::Expr(Expr::Block(i), None) => i.block.clone(),
                                _ => b,
                            }
                        } else {
                            b
                        };
                        *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    }
                    Err(x) => self.err.push(format!("macro {name}: {x}")),
                }
            } else {
                let toks = m.mac.tokens.clone();
                match name.as_str() {
                    "matches" => {
                        struct MArgs(Expr, Pat, Option<Expr>);
                        impl parse::Parse for MArgs {
                            fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                                let e: Expr = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) {
                                    i.parse::<Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _ = i.parse::<Option<Token![,]>>();
                                Ok(MArgs(e, p, g))
                            }
                        }
                        if let Ok(MArgs(x, p, g)) = parse2::<MArgs>(toks) {
                            self.cx.count("matches! expanded");
                            *e = match g {
                                Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
                                None => parse_quote!(match #x { #p => true, _ => false }),
                            };
                        }
                    }
                    "vec" => {
                        let p: syn::Result<punctuated::Punctuated<Expr, Token![,]>> = parse::Parser::parse2(punctuated::Punctuated::parse_terminated, toks);
                        if let Ok(p) = p {
                            let xs = p.iter();
                            *e = if p.is_empty() {
                                parse_quote!(Vec::new())
                            } else {
                                parse_quote!({ let mut vf_v = Vec::new(); #(vf_v.push(#xs);)* vf_v })
                            };
                            self.cx.count("vec! expanded");
                        }
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        *e = parse_quote!(crate::spec::vf_unreachable());
                        self.cx.count("panicking macro turned into an unreachability obligation");
                    }
                    "write" => {
                        if let Some(x) = self.expand_write(toks) {
                            *e = x;
                        }
                    }
                    "format" => {
                        if let Some(x) = self.expand_format(toks) {
                            *e = x;
                        }
                    }
                    _ => self.err.push(format!("macro {name}!")),
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.args.iter().any(|a| matches!(a, Expr::Closure(_) | Expr::Path(_))) && self.cx.inl.contains_key(&m.method.to_string()) {
                match self.inline_call(&m.clone()) {
                    Some(x) => *e = x,
                    None => self.err.push(format!("cannot inline call of {}", m.method)),
                }
            }
        }
        if let Expr::If(i) = e {
            if let Some(x) = let_chain(i) {
                self.cx.count("let chain printed as nested ifs");
                *e = x;
            }
        }
        {
            let body = match e {
                Expr::While(w) => Some(&mut w.body),
                Expr::Loop(l) => Some(&mut l.body),
                Expr::ForLoop(f) => Some(&mut f.body),
                _ => None,
            };
            if let Some(b) = body.and_then(|b| no_continue(b).map(|n| (b, n))) {
                *b.0 = b.1;
                self.cx.count("continue turned into nested ifs");
            }
        }
        if let Expr::Loop(l) = e {
            if let Some(x) = loop_as_while(l) {
                self.cx.count("loop whose first step decides whether to go on printed as while");
                *e = x;
            }
        }
        if let Expr::ForLoop(f) = e {
            if let (Expr::Array(a), None) = (&*f.expr, &f.label) {
                if a.elems.len() <= 8 && !leaves(&f.body) {
                    let k = self.fresh();
                    let (pat, body) = (&f.pat, &f.body.stmts);
                    let xs: Vec<Ident> = (0..a.elems.len()).map(|i| format_ident!("vf_a{k}_{i}")).collect();
                    let es = a.elems.iter();
                    self.cx.count("loop over array literal unrolled");
                    let runs = xs.iter().map(|x| quote!({ let #pat = #x; #(#body)* }));
                    *e = parse_quote!({ #(let #xs = #es;)* #(#runs)* });
                }
            }
        }
        if let Expr::While(w) = e {
            let mut cs = vec![];
            conjuncts(&w.cond, &mut cs);
            if cs.len() > 1 && cs.iter().any(|c| matches!(c, Expr::Let(_))) {
                let (c, b, l) = (&w.cond, &w.body, &w.label);
                self.cx.count("while with a let chain printed as loop");
                *e = parse_quote!(#l loop { if #c #b else { break; } });
            }
        }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                let alts = split_or(&l.pat);
                if alts.len() > 1 {
                    let (x, b) = (&l.expr, &i.then_branch);
                    let els: Expr = match &i.else_branch {
                        Some((_, b)) => (**b).clone(),
                        None => parse_quote!({}),
                    };
                    self.cx.count("or-pattern with bindings split");
                    *e = parse_quote!(match #x { #(#alts => #b,)* _ => #els });
                }
            }
        }
        if let Expr::Match(m) = e {
            let mut arms = vec![];
            for a in &m.arms {
                let alts = split_or(&a.pat);
                if alts.len() > 1 {
                    self.cx.count("or-pattern with bindings split");
                    for q in alts {
                        let mut b = a.clone();
                        b.pat = q;
                        b.comma = Some(Default::default());
                        arms.push(b);
                    }
                } else {
                    arms.push(a.clone());
                }
            }
            m.arms = arms;
        }
        if let Expr::Match(m) = e {
            if let Some(x) = self.if_chain(&m.clone()) {
                *e = x;
            }
        }
        // vstd says nothing of str::len, and the type of the receiver is not known here
        if let Expr::Binary(b) = e {
            let zero = matches!(&*b.right, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0");
            if let (BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Gt(_), true, Expr::MethodCall(m)) = (&b.op, zero, &mut *b.left) {
                if m.method == "len" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_)) {
                    m.method = format_ident!("vf_len");
                    self.cx.count("len() compared with 0 given a trusted contract");
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let k = self.fresh();
            let (xs, i, done) = (format_ident!("vf_xs{k}"), format_ident!("vf_i{k}"), format_ident!("vf_done{k}"));
            let pat = &f.pat;
            let body = &f.body.stmts;
            let label = &f.label;
            match &*f.expr {
                Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                    let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                    let hi = format_ident!("vf_hi{k}");
                    *e = match r.limits {
                        RangeLimits::HalfOpen(_) => {
                            parse_quote!({ let #hi = #b; let mut #i = #a; #label while #i < #hi { let #pat = #i; #i += 1; #(#body)* } })
                        }
                        RangeLimits::Closed(_) => {
                            parse_quote!({ let #hi = #b; let mut #i = #a; let mut #done = #i > #hi; #label while !#done { let #pat = #i; if #i == #hi { #done = true; } else { #i += 1; } #(#body)* } })
                        }
                    };
                    self.cx.count("for over a range printed as while");
                }
                x => {
                    // take(n): a bound on the index; skip(n): where it starts
                    let mut x = x.clone();
                    let mut tk: Vec<Expr> = vec![];
                    let mut from: Expr = parse_quote!(0);
                    while let Expr::MethodCall(m) = &x {
                        if m.method == "take" && m.args.len() == 1 && from.to_token_stream().to_string() == "0" {
                            tk.push(m.args[0].clone());
                        } else if m.method == "skip" && m.args.len() == 1 && tk.is_empty() && from.to_token_stream().to_string() == "0" {
                            from = m.args[0].clone();
                        } else {
                            break;
                        }
                        x = (*m.receiver).clone();
                    }
                    let (x, en) = self.peel_enum(&x);
                    let s = self.seq_expr(x);
                    let b = self.bind_elem(pat, en, &xs, &i);
                    *e = parse_quote!({ let #xs = #s; let mut #i: usize = #from; #label while #i < #xs.len() #(&& #i < #tk)* { #b #i += 1; #(#body)* } });
                    self.cx.count("for over a slice printed as while");
                }
            }
        }
        if let Some(x) = self.iter_chain(e) {
            *e = x;
        }
        // --- children
        visit_mut::visit_expr_mut(self, e);
        // --- post-order rewrites
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), 2) = (&*c.func, c.args.len()) {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                let s = s.strip_prefix("std::").or(s.strip_prefix("core::")).unwrap_or(&s);
                if s == "cmp::min" || s == "cmp::max" {
                    let (a, b) = (&c.args[0], &c.args[1]);
                    self.cx.count("cmp::min/max printed as if");
                    *e = if s == "cmp::min" {
                        parse_quote!({ let vf_a = #a; let vf_b = #b; if vf_b < vf_a { vf_b } else { vf_a } })
                    } else {
                        parse_quote!({ let vf_a = #a; let vf_b = #b; if vf_b < vf_a { vf_a } else { vf_b } })
                    };
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let recv = (*m.receiver).clone();
            let a0 = m.args.first().cloned();
            let two = m.args.len() == 2;
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            let new: Option<Expr> = match (name.as_str(), m.args.len()) {
                ("is_some_and", 1) => self.closure1(&a0.unwrap()).map(|(p, b)| parse_quote!(match #recv { Some(#p) => #b, None => false })),
                ("is_none_or", 1) => self.closure1(&a0.unwrap()).map(|(p, b)| parse_quote!(match #recv { Some(#p) => #b, None => true })),
                ("is_ok_and", 1) => self.closure1(&a0.unwrap()).map(|(p, b)| parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false })),
                ("ok", 0) => Some(parse_quote!(match #recv { Ok(vf_o) => Some(vf_o), Err(_) => None })),
                ("ok_or", 1) => {
                    let x = a0.unwrap();
                    Some(parse_quote!(match #recv { Some(vf_o) => Ok(vf_o), None => Err(#x) }))
                }
                ("or_else", 1) => self.closure0(&a0.unwrap()).map(|b| parse_quote!(match #recv { Some(vf_o) => Some(vf_o), None => #b })),
                ("unwrap_or_else", 1) => self.closure0(&a0.unwrap()).map(|b| parse_quote!(match #recv { Some(vf_o) => vf_o, None => #b })),
                ("and_then", 1) => self.closure1(&a0.unwrap()).map(|(p, b)| parse_quote!(match #recv { Some(#p) => #b, None => None })),
                ("map", 1) if matches!(a0, Some(Expr::Closure(_))) => {
                    self.closure1(&a0.unwrap()).map(|(p, b)| parse_quote!(match #recv { Some(#p) => Some(#b), None => None }))
                }
                ("map_or", 2) if two => {
                    let d = m.args[0].clone();
                    self.closure1(&m.args[1].clone()).map(|(p, b)| parse_quote!({ let vf_d = #d; match #recv { Some(#p) => #b, None => vf_d } }))
                }
                ("replace", 2) | ("replacen", 3) => match &m.args[0] {
                    Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => {
                        let n = format_ident!("vf_{name}_char");
                        Some(parse_quote!(#recv.#n(#(#args),*)))
                    }
                    Expr::Lit(_) | Expr::Reference(_) => {
                        let n = format_ident!("vf_{name}");
                        Some(parse_quote!(#recv.#n(#(#args),*)))
                    }
                    _ if self.cx.ov.display && name == "replace" => Some(parse_quote!(#recv.vf_replace(#(#args),*))),
                    _ => None,
                },
                ("repeat", 1) if self.cx.ov.display => Some(parse_quote!(#recv.vf_repeat(#(#args),*))),
                ("join", 1) if self.cx.ov.display => Some(parse_quote!(crate::spec::vf_join(&#recv, #(#args),*))),
                ("to_string", 0) if self.cx.ov.display => Some(parse_quote!(#recv.vf_to_string())),
                ("starts_with" | "ends_with" | "contains" | "find" | "rfind" | "strip_prefix" | "strip_suffix", 1) if matches!(a0, Some(Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::Char(_), .. }))) => {
                    let n = match &m.args[0] {
                        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => format_ident!("vf_{name}"),
                        _ => format_ident!("vf_{name}_char"),
                    };
                    Some(parse_quote!(#recv.#n(#(#args),*)))
                }
                ("trim" | "trim_start" | "trim_end", 0) => {
                    let n = format_ident!("vf_{name}");
                    Some(parse_quote!(#recv.#n()))
                }
                ("count", 0) => match &recv {
                    Expr::MethodCall(c) if c.method == "chars" && c.args.is_empty() => {
                        let r = &c.receiver;
                        Some(parse_quote!(#r.vf_char_count()))
                    }
                    _ => None,
                },
                ("or", 1) => {
                    let x = a0.unwrap();
                    Some(parse_quote!({ let vf_a = #recv; let vf_b = #x; match vf_a { Some(vf_o) => Some(vf_o), None => vf_b } }))
                }
                ("then_some", 1) => {
                    let x = a0.unwrap();
                    Some(parse_quote!({ let vf_a = #recv; let vf_b = #x; if vf_a { Some(vf_b) } else { None } }))
                }
                ("then", 1) => self.closure0(&a0.unwrap()).map(|b| parse_quote!(if #recv { Some(#b) } else { None })),
                ("filter", 1) => self.closure1(&a0.unwrap()).map(|(p, b)| parse_quote!(match #recv { Some(vf_o) => { let vf_k = { let #p = &vf_o; #b }; if vf_k { Some(vf_o) } else { None } }, None => None })),
                ("expect", 1) => Some(parse_quote!(#recv.unwrap())),
                _ => None,
            };
            if let Some(n) = new {
                self.cx.count(&if matches!(name.as_str(), "replace" | "replacen" | "repeat" | "join" | "to_string" | "starts_with" | "ends_with" | "contains" | "find" | "rfind" | "strip_prefix" | "strip_suffix" | "trim" | "trim_start" | "trim_end" | "count") {
                    format!("str::{name} given a trusted contract")
                } else {
                    format!("Option/Result combinator {name} printed as match")
                });
                *e = n;
            }
        }
    }
}

impl Rw<'_> {
    /// Iterator chains with a closed-form loop reading.
    fn iter_chain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        let k = self.n;
        let (xs, i, r) = (format_ident!("vf_xs{k}"), format_ident!("vf_i{k}"), format_ident!("vf_r{k}"));
        // take(n): a bound on the index
        let takes = std::cell::RefCell::new(Vec::<Expr>::new());
        let peel_take = |x: &Expr| -> Expr {
            let mut x = x.clone();
            while let Expr::MethodCall(m) = &x {
                if m.method != "take" || m.args.len() != 1 {
                    break;
                }
                takes.borrow_mut().push(m.args[0].clone());
                x = (*m.receiver).clone();
            }
            x
        };
        let src = |me: &Self, x: &Expr| -> Option<(Expr, bool)> {
            let x = peel_take(x);
            let (x, en) = me.peel_enum(&x);
            let x = &peel_take(x);
            match x {
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((me.seq_expr(&m.receiver), en)),
                _ => None,
            }
        };
        match name.as_str() {
            "any" | "all" if m.args.len() == 1 => {
                // windows(2)
                if let Expr::MethodCall(w) = &peel_take(&m.receiver) {
                    if w.method == "windows" && w.args.len() == 1 && w.args[0].to_token_stream().to_string() == "2" {
                        let s = self.seq_expr(&w.receiver);
                        let Expr::Closure(c) = &m.args[0] else { return None };
                        let Pat::Ident(p) = &c.inputs[0] else { return None };
                        let tk = takes.take();
                        let mut body = (*c.body).clone();
                        // w[0] -> xs[i], w[1] -> xs[i+1]
                        struct W(String, Ident, Ident, bool);
                        impl VisitMut for W {
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if let Expr::Index(x) = e {
                                    if ident_of(&x.expr).as_deref() == Some(&self.0) {
                                        let (xs, i) = (&self.1, &self.2);
                                        match x.index.to_token_stream().to_string().as_str() {
                                            "0" => *e = parse_quote!(#xs[#i]),
                                            "1" => *e = parse_quote!(#xs[#i + 1]),
                                            _ => self.3 = true,
                                        }
                                        return;
                                    }
                                }
                                if ident_of(e).as_deref() == Some(&self.0) {
                                    self.3 = true;
                                }
                                visit_mut::visit_expr_mut(self, e);
                            }
                        }
                        let mut w = W(p.ident.to_string(), xs.clone(), i.clone(), false);
                        w.visit_expr_mut(&mut body);
                        if w.3 {
                            return None;
                        }
                        self.fresh();
                        self.cx.count("windows(2).all/any printed as while");
                        return Some(if name == "all" {
                            parse_quote!({ let #xs = #s; let mut #r = true; let mut #i: usize = 0; while #i < #xs.len() && #xs.len() - #i > 1 #(&& #i < #tk)* { if !(#body) { #r = false; break; } #i += 1; } #r })
                        } else {
                            parse_quote!({ let #xs = #s; let mut #r = false; let mut #i: usize = 0; while #i < #xs.len() && #xs.len() - #i > 1 #(&& #i < #tk)* { if #body { #r = true; break; } #i += 1; } #r })
                        });
                    }
                }
                takes.borrow_mut().clear();
                let (s, en) = src(self, &m.receiver)?;
                let tk = takes.take();
                let (p, b) = self.closure1(&m.args[0])?;
                self.fresh();
                let bind = self.bind_elem(&p, en, &xs, &i);
                self.cx.count("iter().any/all printed as while");
                Some(if name == "any" {
                    parse_quote!({ let #xs = #s; let mut #r = false; let mut #i: usize = 0; while #i < #xs.len() #(&& #i < #tk)* { #bind if #b { #r = true; break; } #i += 1; } #r })
                } else {
                    parse_quote!({ let #xs = #s; let mut #r = true; let mut #i: usize = 0; while #i < #xs.len() #(&& #i < #tk)* { #bind if !(#b) { #r = false; break; } #i += 1; } #r })
                })
            }
            "count" if m.args.is_empty() => {
                let Expr::MethodCall(f) = &*m.receiver else { return None };
                if f.method == "take_while" && f.args.len() == 1 {
                    let Expr::MethodCall(c) = &*f.receiver else { return None };
                    if c.method != "chars" || !c.args.is_empty() {
                        return None;
                    }
                    let s = &c.receiver;
                    let (p, b) = self.closure1(&f.args[0])?;
                    self.fresh();
                    let bind = self.bind_elem(&p, false, &xs, &i);
                    self.cx.count("chars().take_while().count() printed as while");
                    return Some(parse_quote!({ let #xs = crate::spec::vf_chars(#s); let mut #i: usize = 0; while #i < #xs.len() { #bind if !(#b) { break; } #i += 1; } #i }));
                }
                if f.method != "filter" {
                    return None;
                }
                let (s, en) = src(self, &f.receiver)?;
                let tk = takes.take();
                let (p, b) = self.closure1(&f.args[0])?;
                self.fresh();
                let bind = self.bind_elem(&p, en, &xs, &i);
                self.cx.count("iter().filter().count() printed as while");
                Some(parse_quote!({ let #xs = #s; let mut #r: usize = 0; let mut #i: usize = 0; while #i < #xs.len() #(&& #i < #tk)* { #bind if #b { #r += 1; } #i += 1; } #r }))
            }
            "collect" if m.args.is_empty() => {
                let turbofish = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', ""));
                let Expr::MethodCall(f) = &*m.receiver else { return None };
                if f.method != "map" {
                    return None;
                }
                let (s, en) = src(self, &f.receiver)?;
                let tk = takes.take();
                let (p, b) = self.closure1(&f.args[0])?;
                self.fresh();
                let bind = self.bind_elem(&p, en, &xs, &i);
                let acc = format_ident!("vf_acc{k}");
                match turbofish.as_deref() {
                    Some("::<Vec<_>>") | Some("::<Vec<String>>") => {
                        self.cx.count("iter().map().collect() printed as while");
                        Some(parse_quote!({ let #xs = #s; let mut #acc: Vec<String> = Vec::new(); let mut #i: usize = 0; while #i < #xs.len() #(&& #i < #tk)* { #bind #acc.push(#b); #i += 1; } #acc }))
                    }
                    None | Some("::<String>") => {
                        self.cx.count("iter().map().collect() printed as while");
                        if self.cx.ov.display {
                            return Some(parse_quote!({ let #xs = #s; let mut #acc = String::new(); let mut #i: usize = 0; while #i < #xs.len() #(&& #i < #tk)* { #bind crate::spec::vf_append(&mut #acc, #b); #i += 1; } #acc }));
                        }
                        Some(parse_quote!({ let #xs = #s; let mut #acc = String::new(); let mut #i: usize = 0; while #i < #xs.len() #(&& #i < #tk)* { #bind crate::spec::vf_push(&mut #acc, #b); #i += 1; } #acc }))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// `write!(f, "lit{}lit", a, ..)`: a sequence of writes of the literal pieces and the arguments.
    fn fmt_pieces(&mut self, toks: TokenStream, skip: usize) -> Option<(Vec<Expr>, Vec<(String, Option<Expr>)>)> {
        let p: punctuated::Punctuated<Expr, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::parse_terminated, toks).ok()?;
        let v: Vec<Expr> = p.into_iter().collect();
        let head = v[..skip].to_vec();
        let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = v.get(skip)? else { return None };
        let s = s.value();
        let mut args = v[skip + 1..].iter().cloned();
        let mut out = vec![];
        let mut lit = String::new();
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let end = cs[i..].iter().position(|c| *c == '}')? + i;
                    let name: String = cs[i + 1..end].iter().collect();
                    let a: Expr = if name.is_empty() {
                        args.next()?
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.chars().next()?.is_numeric() {
                        let id = format_ident!("{}", name);
                        parse_quote!(#id)
                    } else {
                        return None;
                    };
                    out.push((std::mem::take(&mut lit), Some(a)));
                    i = end + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        if args.next().is_some() {
            return None;
        }
        if !lit.is_empty() {
            out.push((lit, None));
        }
        Some((head, out))
    }
    fn expand_write(&mut self, toks: TokenStream) -> Option<Expr> {
        let (h, ps) = match self.fmt_pieces(toks, 1) {
            Some(x) => x,
            None => {
                self.err.push("write! with unsupported arguments".into());
                return None;
            }
        };
        let f = &h[0];
        let mut stmts: Vec<Stmt> = vec![];
        for (l, a) in ps {
            if !l.is_empty() {
                stmts.push(parse_quote!(crate::spec::vf_lit(#f, #l)?;));
            }
            if let Some(a) = a {
                stmts.push(parse_quote!((#a).fmt(#f)?;));
            }
        }
        self.cx.count("write! expanded");
        Some(parse_quote!({ #(#stmts)* Ok(()) }))
    }
    fn expand_format(&mut self, toks: TokenStream) -> Option<Expr> {
        let (_, ps) = match self.fmt_pieces(toks, 0) {
            Some(x) => x,
            None => {
                self.err.push("format! with unsupported arguments".into());
                return None;
            }
        };
        let mut stmts: Vec<Stmt> = vec![];
        for (l, a) in ps {
            if !l.is_empty() {
                stmts.push(parse_quote!(vf_f.write_lit(#l);));
            }
            if let Some(a) = a {
                stmts.push(parse_quote!(vf_f.write_shown((#a).vf_to_string());));
            }
        }
        self.cx.count("format! expanded");
        Some(parse_quote!({ let mut vf_f = crate::spec::VfFmt::new(); #(#stmts)* vf_f.into_string() }))
    }
}

/// Remaining closures `|t: &Token| <pure bool>` get `-> (b: bool) ensures b == <spec>`.
struct CloAnn<'a> {
    cx: &'a mut Cx,
    path: String,
}
impl VisitMut for CloAnn<'_> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        let body = match &*c.body {
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e, None) => e.clone(),
                _ => return,
            },
            e => e.clone(),
        };
        if let Some(sp) = self.cx.to_spec(&self.path, &body) {
            self.cx.count("predicate closure annotated");
            // give an untyped parameter its type
            if c.inputs.len() == 1 {
                if let Pat::Ident(i) = &c.inputs[0] {
                    let i = i.ident.clone();
                    c.inputs[0] = Pat::Type(parse_quote!(#i: &crate::lexer::Token));
                }
            }
            let h = self.cx.header_ph(vec![Piece { text: format!("-> (vf_b: bool) ensures vf_b == ({sp})"), kind: "kw", tags: vec![], at: String::new() }]);
            let b: Block = parse_quote!({ #h #body });
            c.output = ReturnType::Default;
            c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
        }
    }
}

struct Hints<'a> {
    cx: &'a mut Cx,
    ov: &'a FnOv,
    loops: usize,
    rets: usize,
    calls: BTreeMap<String, usize>,
    kinds: Vec<&'static str>,
    used_loops: BTreeSet<usize>,
    used_calls: BTreeSet<(String, usize)>,
}

/// What the hints of a loop call vf_iK, vf_xsK, vf_rK and vf_accK, in the names this loop has for them: its own
/// number, and where the loop is written out in the source the variables that play their parts.
struct LoopNames {
    scope: Vec<String>,
    /// per loop: number in its condition, manual index and sequence, accumulators
    found: Vec<(Option<String>, Option<(String, String)>, Vec<String>)>,
}
struct Assigned(BTreeSet<String>);
impl<'a> Visit<'a> for Assigned {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Assign(a) => self.0.extend(ident_of(&a.left)),
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)) => self.0.extend(ident_of(&b.left)),
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "push" | "push_str" | "extend") => self.0.extend(ident_of(&m.receiver)),
            Expr::Call(c) => {
                for a in &c.args {
                    if let Expr::Reference(r) = a {
                        if r.mutability.is_some() {
                            self.0.extend(ident_of(&r.expr));
                        }
                    }
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
impl LoopNames {
    fn enter(&mut self, cond: Option<&Expr>, body: &Block) {
        let mut a = Assigned(BTreeSet::new());
        a.visit_block(body);
        let mut num = None;
        let mut manual = None;
        if let Some(c) = cond {
            let mut words = vec![];
            flat(c.to_token_stream(), &mut words);
            num = words.iter().find_map(|w| w.strip_prefix("vf_i").or(w.strip_prefix("vf_done")).filter(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit())).map(|n| n.to_string()));
            if let (None, Expr::Binary(b)) = (&num, c) {
                if let (BinOp::Lt(_), Some(i), Expr::MethodCall(m)) = (&b.op, ident_of(&b.left), &*b.right) {
                    if m.method == "len" && m.args.is_empty() && a.0.contains(&i) {
                        manual = Some((i, m.receiver.to_token_stream().to_string().replace(' ', "")));
                    }
                }
            }
        }
        let acc = a.0.iter().filter(|x| self.scope.contains(x) && !x.starts_with("vf_") && manual.as_ref().is_none_or(|m| m.0 != **x)).cloned().collect();
        self.found.push((num, manual, acc));
    }
}
impl<'a> Visit<'a> for LoopNames {
    fn visit_expr_while(&mut self, w: &'a ExprWhile) {
        self.visit_expr(&w.cond);
        self.enter(Some(&w.cond), &w.body);
        self.visit_block(&w.body);
    }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) {
        self.enter(None, &w.body);
        self.visit_block(&w.body);
    }
    fn visit_block(&mut self, b: &'a Block) {
        let n = self.scope.len();
        syn::visit::visit_block(self, b);
        self.scope.truncate(n);
    }
    fn visit_local(&mut self, l: &'a Local) {
        syn::visit::visit_local(self, l);
        let p = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let Pat::Ident(i) = p {
            if i.mutability.is_some() {
                self.scope.push(i.ident.to_string());
            }
        }
    }
}
fn word_subst(t: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            out.push_str(m.get(&w).unwrap_or(&w));
            w.clear();
            out.push(c);
        }
    }
    out.pop();
    out
}
fn loop_names(block: &Block, mut ov: FnOv) -> FnOv {
    let mut l = LoopNames { scope: vec![], found: vec![] };
    l.visit_block(block);
    let mut have = vec![];
    flat(block.to_token_stream(), &mut have);
    let have: BTreeSet<String> = have.into_iter().collect();
    for (k, (num, manual, acc)) in l.found.into_iter().enumerate() {
        let Some(lo) = ov.loops.get_mut(&k) else { continue };
        let mut all: Vec<&mut Clause> = vec![];
        all.extend(lo.inv.iter_mut());
        all.extend(lo.inv_xb.iter_mut());
        all.extend(lo.ens.iter_mut());
        all.extend(lo.start.iter_mut());
        all.extend(lo.end.iter_mut());
        all.extend(lo.before.iter_mut());
        all.extend(lo.after.iter_mut());
        let text: String = all.iter().map(|c| c.text.as_str()).chain(lo.dec.as_deref()).collect::<Vec<_>>().join(" ");
        let words: BTreeSet<String> = text.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| w.starts_with("vf_")).map(|w| w.to_string()).collect();
        let mut m = BTreeMap::new();
        for w in words {
            let stem = w.trim_end_matches(|c: char| c.is_ascii_digit());
            if !matches!(stem, "vf_i" | "vf_xs" | "vf_r" | "vf_acc" | "vf_hi" | "vf_done") || stem.len() == w.len() {
                continue;
            }
            let own = num.as_ref().map(|n| format!("{stem}{n}"));
            match (&own, stem, &manual) {
                (Some(o), _, _) if have.contains(o) => {
                    m.insert(w, o.clone());
                }
                (None, "vf_i", Some((i, _))) => {
                    m.insert(w, i.clone());
                }
                (None, "vf_xs", Some((_, x))) => {
                    m.insert(w, x.clone());
                }
                (_, "vf_r" | "vf_acc", _) if acc.len() == 1 && (own.is_some() || manual.is_some()) => {
                    m.insert(w, acc[0].clone());
                }
                _ => {}
            }
        }
        m.retain(|a, b| a != b);
        if m.is_empty() {
            continue;
        }
        for c in all {
            c.text = word_subst(&c.text, &m);
        }
        if let Some(d) = &mut lo.dec {
            *d = word_subst(d, &m);
        }
    }
    ov
}

struct CallFinder<'a> {
    names: &'a BTreeSet<String>,
    found: Vec<String>,
}
impl<'a, 'b> Visit<'b> for CallFinder<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => return,
            Expr::If(i) => {
                self.visit_expr(&i.cond);
                return;
            }
            Expr::Match(m) => {
                self.visit_expr(&m.expr);
                return;
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
        let n = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                _ => None,
            },
            Expr::MethodCall(m) => Some(m.method.to_string()),
            _ => None,
        };
        if let Some(n) = n {
            if self.names.contains(&n) {
                self.found.push(n);
            }
        }
    }
    fn visit_block(&mut self, _: &'b Block) {}
}

impl VisitMut for Hints<'_> {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        visit_mut::visit_expr_mut(self, &mut w.cond);
        let mut c = vec![];
        flat(w.cond.to_token_stream(), &mut c);
        let mut b = vec![];
        flat(w.body.to_token_stream(), &mut b);
        let has = |v: &[String], p: &str| v.iter().any(|x| x.strip_prefix(p).is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit())));
        self.kinds.push(if !has(&c, "vf_i") && !has(&c, "vf_done") {
            "while"
        } else if has(&c, "vf_hi") || has(&c, "vf_done") {
            "range"
        } else if has(&b, "vf_acc") {
            "collect"
        } else if has(&b, "vf_r") {
            "any"
        } else {
            "each"
        });
        self.loop_body(&mut w.body);
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        self.kinds.push("loop");
        self.loop_body(&mut w.body);
    }
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let k = self.rets;
            self.rets += 1;
            let cl: Vec<Clause> = self.ov.before_ret.iter().filter(|(n, _)| n.is_none() || *n == Some(k)).map(|(_, c)| c.clone()).collect();
            if let Some(s) = self.cx.stmt_ph("hint", &cl) {
                let r = r.clone();
                *e = parse_quote!({ #s #r });
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let names: BTreeSet<String> = self.ov.after_call.iter().chain(self.ov.before_call.iter()).map(|(n, _, _)| n.clone()).collect();
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // which loop (if any) is this statement?
            let is_loop = match &s {
                Stmt::Expr(Expr::While(_) | Expr::Loop(_), _) => true,
                Stmt::Local(l) => matches!(l.init.as_ref().map(|i| &*i.expr), Some(Expr::Loop(_))),
                _ => false,
            };
            let k = self.loops;
            let mut found = vec![];
            if !names.is_empty() {
                let mut cf = CallFinder { names: &names, found: vec![] };
                cf.visit_stmt(&s);
                for n in cf.found {
                    let c = self.calls.entry(n.clone()).or_default();
                    found.push((n, *c));
                    *c += 1;
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            let mut pre = vec![];
            let mut post = vec![];
            if is_loop {
                if let Some(l) = self.ov.loops.get(&k) {
                    pre.extend(self.cx.stmt_ph("hint", &l.before));
                    post.extend(self.cx.stmt_ph("hint", &l.after));
                }
            }
            for f in &found {
                let a: Vec<Clause> = self.ov.before_call.iter().filter(|(n, c, _)| (n.clone(), *c) == *f).map(|x| x.2.clone()).collect();
                if !a.is_empty() {
                    self.used_calls.insert(f.clone());
                    pre.extend(self.cx.stmt_ph("hint", &a));
                }
                let a: Vec<Clause> = self.ov.after_call.iter().filter(|(n, c, _)| (n.clone(), *c) == *f).map(|x| x.2.clone()).collect();
                if !a.is_empty() {
                    self.used_calls.insert(f.clone());
                    post.extend(self.cx.stmt_ph("hint", &a));
                }
            }
            out.extend(pre);
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
    }
}

impl Hints<'_> {
    fn loop_body(&mut self, body: &mut Block) {
        let k = self.loops;
        self.loops += 1;
        self.visit_block_mut(body);
        if self.cx.ov.display {
            if let Some(c) = lit_hint(body, &self.ov.at) {
                let s = self.cx.stmt_ph("hint", &[c]).unwrap();
                body.stmts.insert(0, s);
            }
        }
        if let Some(p) = self.cx.probe_stmt(&format!("loop {k}")) {
            body.stmts.insert(0, p);
        }
        let Some(l) = self.ov.loops.get(&k).cloned() else { return };
        self.used_loops.insert(k);
        if let Some(s) = self.cx.stmt_ph("hint", &l.start) {
            body.stmts.insert(0, s);
        }
        if let Some(s) = self.cx.stmt_ph("hint", &l.end) {
            // after the last statement; give a trailing unit expression its semicolon
            if let Some(Stmt::Expr(e, None)) = body.stmts.last().cloned() {
                body.stmts.pop();
                body.stmts.push(Stmt::Expr(e, Some(Default::default())));
            }
            body.stmts.push(s);
        }
        let mut p = vec![];
        push_clauses(&mut p, "invariant_except_break", "invariant", &l.inv_xb);
        push_clauses(&mut p, "invariant", "invariant", &l.inv);
        push_clauses(&mut p, "ensures", "loop-ensures", &l.ens);
        if let Some(d) = &l.dec {
            p.push(Piece { text: format!("decreases {d},"), kind: "decreases", tags: vec![], at: self.ov.at.clone() });
        }
        if !p.is_empty() {
            let h = self.cx.header_ph(p);
            body.stmts.insert(0, h);
        }
    }
}
