//! Inlining of helper functions that have no contract, and elimination of `return` and `?` from their bodies.
use proc_macro2::{Group, Ident, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Cand {
    pub name: String,
    pub path: String,
    pub self_ty: Option<String>,
    /// receiver: '&', 'm' (&mut), 'v' (value)
    pub recv: Option<char>,
    pub params: Vec<(Ident, bool, Type)>,
    pub generics: BTreeSet<String>,
    pub block: Block,
}

// ------------------------------------------------------------------ scopes

/// names a module defines or imports -> their absolute paths
pub fn scope(path: &str, f: &File) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let here = if path.is_empty() { "crate".to_string() } else { format!("crate::{path}") };
    for it in &f.items {
        let n = match it {
            Item::Fn(x) => &x.sig.ident,
            Item::Struct(x) => &x.ident,
            Item::Enum(x) => &x.ident,
            Item::Const(x) => &x.ident,
            Item::Static(x) => &x.ident,
            Item::Type(x) => &x.ident,
            Item::Trait(x) => &x.ident,
            Item::Mod(x) => &x.ident,
            Item::Use(u) => {
                uses(&u.tree, String::new(), &here, &mut m);
                continue;
            }
            _ => continue,
        };
        m.insert(n.to_string(), format!("{here}::{n}"));
    }
    m
}
fn uses(t: &UseTree, pre: String, here: &str, m: &mut BTreeMap<String, String>) {
    let join = |a: &str| -> String {
        if pre.is_empty() {
            match a {
                "self" => here.to_string(),
                "super" => here.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default(),
                a => a.to_string(),
            }
        } else if a == "super" {
            pre.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default()
        } else {
            format!("{pre}::{a}")
        }
    };
    match t {
        UseTree::Path(p) => uses(&p.tree, join(&p.ident.to_string()), here, m),
        UseTree::Name(n) if n.ident == "self" => {
            if let Some(l) = pre.rsplit("::").next() {
                m.insert(l.to_string(), pre.clone());
            }
        }
        UseTree::Name(n) => {
            m.insert(n.ident.to_string(), join(&n.ident.to_string()));
        }
        UseTree::Rename(r) => {
            m.insert(r.rename.to_string(), join(&r.ident.to_string()));
        }
        UseTree::Group(g) => g.items.iter().for_each(|i| uses(i, pre.clone(), here, m)),
        UseTree::Glob(_) => {}
    }
}

/// makes the names of a block absolute
pub struct Qualify<'a> {
    pub scope: &'a BTreeMap<String, String>,
    pub bound: &'a BTreeSet<String>,
    pub macros: &'a BTreeSet<String>,
    pub self_ty: Option<String>,
}
impl Qualify<'_> {
    fn target(&self, id: &str) -> Option<String> {
        if self.bound.contains(id) {
            return None;
        }
        if id == "Self" {
            return self.self_ty.clone();
        }
        self.scope.get(id).cloned()
    }
    fn toks(&self, t: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut prev = String::new();
        for x in t {
            let s = match &x {
                TokenTree::Ident(i) => i.to_string(),
                TokenTree::Punct(p) => p.as_char().to_string(),
                _ => String::new(),
            };
            match x {
                TokenTree::Ident(i) if prev != "." && prev != ":" => match self.target(&i.to_string()) {
                    Some(a) => out.extend(a.parse::<TokenStream>().unwrap()),
                    None => out.extend([TokenTree::Ident(i)]),
                },
                TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream())))]),
                x => out.extend([x]),
            }
            prev = s;
        }
        out
    }
}
impl VisitMut for Qualify<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() {
            return;
        }
        let first = p.segments[0].clone();
        if let Some(a) = self.target(&first.ident.to_string()) {
            let mut q: Path = parse_str(&a).unwrap();
            q.segments.last_mut().unwrap().arguments = first.arguments;
            for s in p.segments.iter().skip(1) {
                q.segments.push(s.clone());
            }
            *p = q;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // a constant or unit variant written as a bare name
        if let Pat::Ident(i) = p {
            if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                if let Some(a) = self.target(&i.ident.to_string()) {
                    let q: Path = parse_str(&a).unwrap();
                    *p = parse_quote!(#q);
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

// ------------------------------------------------------------------ names

struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        let s = i.ident.to_string();
        if !s.starts_with(|c: char| c.is_uppercase()) {
            self.0.insert(s);
        }
        visit::visit_pat_ident(self, i);
    }
    fn visit_field_pat(&mut self, f: &'a FieldPat) {
        visit::visit_field_pat(self, f);
    }
}
pub fn bound_block(b: &Block) -> BTreeSet<String> {
    let mut v = Bound(BTreeSet::new());
    v.visit_block(b);
    v.0
}
pub fn bound_expr(e: &Expr) -> BTreeSet<String> {
    let mut v = Bound(BTreeSet::new());
    v.visit_expr(e);
    v.0
}
pub fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ return and ?

struct HasExit(bool);
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn exit_e(e: &Expr) -> bool {
    let mut h = HasExit(false);
    h.visit_expr(e);
    h.0
}
fn exit_s(s: &Stmt) -> bool {
    let mut h = HasExit(false);
    h.visit_stmt(s);
    h.0
}
pub fn exit_b(b: &Block) -> bool {
    b.stmts.iter().any(exit_s)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ret {
    Opt,
    Res,
    Other,
}
pub fn ret_kind(r: &ReturnType) -> Ret {
    match r {
        ReturnType::Type(_, t) => {
            let s = t.to_token_stream().to_string();
            if s.starts_with("Option") {
                Ret::Opt
            } else if s.starts_with("Result") {
                Ret::Res
            } else {
                Ret::Other
            }
        }
        _ => Ret::Other,
    }
}

type K<'a> = &'a dyn Fn(Expr) -> Option<Vec<Stmt>>;

static QN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub struct Elim {
    pub ret: Ret,
}
impl Elim {
    /// the block without `return` and `?`: same value, same effects
    pub fn block(&self, b: &Block) -> Option<Block> {
        if !exit_b(b) {
            return Some(b.clone());
        }
        let stmts = self.stmts(&b.stmts, &|v| Some(if is_unit(&v) { vec![] } else { vec![Stmt::Expr(v, None)] }))?;
        Some(Block { brace_token: b.brace_token, stmts })
    }
    fn mk(&self, stmts: Vec<Stmt>) -> Block {
        Block { brace_token: Default::default(), stmts }
    }
    /// what comes after must not see the names bound in a branch
    fn apart(&self, branch: &BTreeSet<String>, k: K) -> Option<()> {
        let mut ids = BTreeSet::new();
        for s in k(parse_quote!(vf_probe))? {
            idents(s.to_token_stream(), &mut ids);
        }
        if branch.is_disjoint(&ids) { Some(()) } else { None }
    }
    fn stmts(&self, s: &[Stmt], k: K) -> Option<Vec<Stmt>> {
        let mut out = vec![];
        for (i, x) in s.iter().enumerate() {
            let last = i + 1 == s.len();
            let rest = &s[i + 1..];
            if !exit_s(x) {
                if last {
                    if let Stmt::Expr(e, None) = x {
                        out.extend(k(e.clone())?);
                        return Some(out);
                    }
                }
                out.push(x.clone());
                continue;
            }
            match x {
                Stmt::Expr(e, None) if last => {
                    out.extend(self.expr(e, k)?);
                    return Some(out);
                }
                Stmt::Expr(e, _) => {
                    out.extend(self.expr(e, &|v| {
                        let mut o: Vec<Stmt> = if is_unit(&v) { vec![] } else { vec![Stmt::Expr(v, Some(Default::default()))] };
                        o.extend(self.stmts(rest, k)?);
                        Some(o)
                    })?);
                    return Some(out);
                }
                Stmt::Local(l) => {
                    let init = l.init.as_ref()?;
                    let pat = &l.pat;
                    match &init.diverge {
                        None => out.extend(self.expr(&init.expr, &|v| {
                            let mut o: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
                            o.extend(self.stmts(rest, k)?);
                            Some(o)
                        })?),
                        Some((_, els)) => out.extend(self.expr(&init.expr, &|v| {
                            let then = self.mk(self.stmts(rest, k)?);
                            let Expr::Block(eb) = &**els else { return None };
                            let eb = self.mk(self.stmts(&eb.block.stmts, &|_| Some(vec![]))?);
                            Some(vec![Stmt::Expr(parse_quote!(if let #pat = #v #then else #eb), None)])
                        })?),
                    }
                    return Some(out);
                }
                _ => return None,
            }
        }
        out.extend(k(parse_quote!(()))?);
        Some(out)
    }
    fn expr(&self, e: &Expr, k: K) -> Option<Vec<Stmt>> {
        if !exit_e(e) {
            return k(e.clone());
        }
        match e {
            Expr::Paren(p) => self.expr(&p.expr, k),
            Expr::Return(r) => match &r.expr {
                None => Some(vec![]),
                Some(x) => self.expr(x, &|v| Some(vec![Stmt::Expr(v, None)])),
            },
            Expr::Try(t) => self.expr(&t.expr, &|v| {
                let q = format_ident!("vf_q{}", QN.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
                let b = self.mk(k(parse_quote!(#q))?);
                Some(vec![Stmt::Expr(
                    match self.ret {
                        Ret::Opt => parse_quote!(match #v { Some(#q) => #b, None => None }),
                        Ret::Res => parse_quote!(match #v { Ok(#q) => #b, Err(vf_e) => Err(vf_e) }),
                        Ret::Other => return None,
                    },
                    None,
                )])
            }),
            Expr::Block(b) if b.label.is_none() => {
                self.apart(&bound_block(&b.block), k)?;
                self.stmts(&b.block.stmts, k)
            }
            Expr::If(i) => {
                let go = |c: Expr| -> Option<Vec<Stmt>> {
                    let mut bd = bound_expr(&c);
                    bd.extend(bound_block(&i.then_branch));
                    self.apart(&bd, k)?;
                    let a = self.mk(self.stmts(&i.then_branch.stmts, k)?);
                    let b = match &i.else_branch {
                        Some((_, x)) => self.mk(self.expr_or_block(x, k)?),
                        None => self.mk(k(parse_quote!(()))?),
                    };
                    Some(vec![Stmt::Expr(parse_quote!(if #c #a else #b), None)])
                };
                if exit_e(&i.cond) {
                    if let Expr::Let(l) = &*i.cond {
                        let p = &l.pat;
                        return self.expr(&l.expr, &|v| go(parse_quote!(let #p = #v)));
                    }
                    return self.expr(&i.cond, &go);
                }
                go((*i.cond).clone())
            }
            Expr::Match(m) => self.expr(&m.expr, &|v| {
                let mut m2 = m.clone();
                *m2.expr = v;
                for a in m2.arms.iter_mut() {
                    if a.guard.as_ref().is_some_and(|g| exit_e(&g.1)) {
                        return None;
                    }
                    let mut b = Bound(BTreeSet::new());
                    b.visit_arm(a);
                    self.apart(&b.0, k)?;
                    let blk = self.mk(self.expr_or_block(&a.body, k)?);
                    *a.body = parse_quote!(#blk);
                    a.comma = None;
                }
                Some(vec![Stmt::Expr(Expr::Match(m2), None)])
            }),
            Expr::MethodCall(m) if !m.args.iter().any(exit_e) => self.expr(&m.receiver, &|v| {
                let mut m2 = m.clone();
                *m2.receiver = v;
                k(Expr::MethodCall(m2))
            }),
            Expr::Field(f) => self.expr(&f.base, &|v| {
                let mut f2 = f.clone();
                *f2.base = v;
                k(Expr::Field(f2))
            }),
            Expr::Reference(r) => self.expr(&r.expr, &|v| {
                let mut r2 = r.clone();
                *r2.expr = v;
                k(Expr::Reference(r2))
            }),
            Expr::Unary(u) => self.expr(&u.expr, &|v| {
                let mut u2 = u.clone();
                *u2.expr = v;
                k(Expr::Unary(u2))
            }),
            Expr::Call(c) if c.args.iter().filter(|a| exit_e(a)).count() == 1 => {
                let n = c.args.iter().position(exit_e)?;
                if c.args.iter().take(n).any(|a| !matches!(a, Expr::Path(_) | Expr::Lit(_))) {
                    return None;
                }
                self.expr(&c.args[n], &|v| {
                    let mut c2 = c.clone();
                    c2.args[n] = v;
                    k(Expr::Call(c2))
                })
            }
            Expr::Binary(b) if !exit_e(&b.right) => self.expr(&b.left, &|v| {
                let mut b2 = b.clone();
                *b2.left = v;
                k(Expr::Binary(b2))
            }),
            _ => None,
        }
    }
    fn expr_or_block(&self, e: &Expr, k: K) -> Option<Vec<Stmt>> {
        match e {
            Expr::Block(b) if b.label.is_none() => {
                self.apart(&bound_block(&b.block), k)?;
                self.stmts(&b.block.stmts, k)
            }
            e => self.expr(e, k),
        }
    }
}
pub fn is_unit(e: &Expr) -> bool {
    matches!(e, Expr::Tuple(t) if t.elems.is_empty())
}

// ------------------------------------------------------------------ substitution

fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

/// replaces the variable by an expression; `place`: the variable is a reference to that place
pub struct Subst {
    pub from: String,
    pub to: Expr,
    pub place: Option<Expr>,
    pub bad: bool,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(pl) = self.place.clone() {
            match e {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && ident_of(&u.expr).as_deref() == Some(&self.from) => {
                    *e = pl;
                    return;
                }
                Expr::Field(f) if ident_of(&f.base).as_deref() == Some(&self.from) => {
                    *f.base = pl;
                    return;
                }
                Expr::MethodCall(m) if ident_of(&m.receiver).as_deref() == Some(&self.from) => {
                    *m.receiver = pl;
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                _ => {}
            }
        }
        if ident_of(e).as_deref() == Some(&self.from) {
            *e = self.to.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && ident_of(&f.expr).as_deref() == Some(&self.from) {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut ids = BTreeSet::new();
        idents(m.tokens.clone(), &mut ids);
        if !ids.contains(&self.from) {
            return;
        }
        match ident_of(&self.to) {
            Some(to) if self.place.is_none() => m.tokens = rename(m.tokens.clone(), &self.from, &to),
            _ => self.bad = true,
        }
    }
}
fn rename(t: TokenStream, a: &str, b: &str) -> TokenStream {
    t.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename(g.stream(), a, b))),
            t => t,
        })
        .collect()
}

/// replaces calls of a closure parameter by the closure's body
struct Beta {
    name: String,
    clo: ExprClosure,
    bad: bool,
}
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if ident_of(&c.func).as_deref() == Some(&self.name) {
                if c.args.len() != self.clo.inputs.len() {
                    self.bad = true;
                    return;
                }
                let mut body = (*self.clo.body).clone();
                let mut pre: Vec<Stmt> = vec![];
                for (p, a) in self.clo.inputs.iter().zip(c.args.iter()) {
                    let p0 = match p {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    match (p0, ident_of(a)) {
                        (Pat::Ident(i), Some(x)) if i.mutability.is_none() && i.by_ref.is_none() => {
                            if i.ident != x {
                                if bound_expr(&body).contains(&x) || bound_expr(&body).contains(&i.ident.to_string()) {
                                    self.bad = true;
                                    return;
                                }
                                let mut s = Subst { from: i.ident.to_string(), to: a.clone(), place: None, bad: false };
                                s.visit_expr_mut(&mut body);
                                self.bad |= s.bad;
                            }
                        }
                        (Pat::Wild(_), Some(_)) => {}
                        _ => pre.push(parse_quote!(let #p = #a;)),
                    }
                }
                *e = if pre.is_empty() { parse_quote!((#body)) } else { parse_quote!({ #(#pre)* #body }) };
            }
        }
    }
}

struct NoLife;
impl VisitMut for NoLife {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        *l = Lifetime::new("'_", l.span());
    }
}

fn mentions(t: &Type, gs: &BTreeSet<String>) -> bool {
    let mut ids = BTreeSet::new();
    idents(t.to_token_stream(), &mut ids);
    !ids.is_disjoint(gs) || ids.contains("impl") || ids.contains("dyn") || ids.contains("Self")
}

/// the call `f(args)` or `recv.f(args)` as a block
pub fn inline(c: &Cand, recv: Option<&Expr>, args: &[Expr], fresh: usize) -> Option<Block> {
    let mut block = c.block.clone();
    let bound = bound_block(&block);
    let mut pre: Vec<Stmt> = vec![];
    let mut list: Vec<(String, bool, Option<Type>, char, Expr)> = vec![];
    if let Some(k) = c.recv {
        list.push(("self".into(), false, None, k, recv?.clone()));
    } else if recv.is_some() {
        return None;
    }
    if args.len() != c.params.len() {
        return None;
    }
    for ((n, m, t), a) in c.params.iter().zip(args) {
        let k = match t {
            Type::Reference(r) if r.mutability.is_some() => 'm',
            Type::Reference(_) => '&',
            _ => 'v',
        };
        list.push((n.to_string(), *m, Some(t.clone()), k, a.clone()));
    }
    // names substituted for parameters must not be captured, nor parameters be shadowed
    let mut taken: BTreeSet<String> = BTreeSet::new();
    let mut jobs: Vec<(String, Expr, Option<Expr>)> = vec![];
    for (n, (name, mutable, ty, kind, arg)) in list.into_iter().enumerate() {
        if let Expr::Closure(clo) = &arg {
            if clo.inputs.iter().any(|_| exit_e(&clo.body)) {
                return None;
            }
            if bound.contains(&name) {
                return None;
            }
            // the closure's free names must not be captured
            let mut ids = BTreeSet::new();
            idents(clo.to_token_stream(), &mut ids);
            let mut own = Bound(BTreeSet::new());
            own.visit_expr_closure(clo);
            if ids.difference(&own.0).any(|x| bound.contains(x)) {
                return None;
            }
            let mut b = Beta { name: name.clone(), clo: clo.clone(), bad: false };
            b.visit_block_mut(&mut block);
            if b.bad {
                return None;
            }
            jobs.push((name, arg, None));
            continue;
        }
        let plain = ident_of(&arg);
        let (to, place): (Expr, Option<Expr>) = match (&plain, kind) {
            (Some(_), 'm' | '&') => (arg.clone(), None),
            (Some(x), 'v') if !mutable && *x == name => (arg.clone(), None),
            (None, 'v') if !mutable && matches!(&arg, Expr::Path(_)) && ty.as_ref().is_some_and(|t| mentions(t, &c.generics)) => (arg.clone(), None),
            (Some(_), 'v') if !mutable && ty.as_ref().is_some_and(|t| mentions(t, &c.generics)) => (arg.clone(), None),
            (None, 'm' | '&') if matches!(&arg, Expr::Reference(r) if ident_of(&r.expr).is_some()) => {
                let Expr::Reference(r) = &arg else { unreachable!() };
                (parse_quote!((#arg)), Some((*r.expr).clone()))
            }
            _ => {
                let f = format_ident!("vf_{}_{}_{}", name.trim_start_matches('_'), fresh, n);
                let mt: Option<Token![mut]> = if mutable { Some(Default::default()) } else { None };
                let val: Expr = match (name.as_str(), kind) {
                    ("self", 'm') => parse_quote!(&mut #arg),
                    ("self", '&') => parse_quote!(&#arg),
                    _ => arg.clone(),
                };
                match ty {
                    Some(mut t) if !mentions(&t, &c.generics) => {
                        NoLife.visit_type_mut(&mut t);
                        pre.push(parse_quote!(let #mt #f: #t = #val;));
                    }
                    _ => pre.push(parse_quote!(let #mt #f = #val;)),
                }
                (parse_quote!(#f), None)
            }
        };
        jobs.push((name, to, place));
    }
    for (name, to, place) in &jobs {
        let identity = place.is_none() && ident_of(to).as_deref() == Some(name);
        if identity {
            continue;
        }
        if bound.contains(name) {
            return None;
        }
        if let Some(x) = place.as_ref().and_then(ident_of).or_else(|| ident_of(to)) {
            if bound.contains(&x) {
                return None;
            }
            taken.insert(x);
        }
    }
    // simultaneous substitution: through fresh names
    for (i, (name, to, place)) in jobs.iter().enumerate() {
        if place.is_none() && ident_of(to).as_deref() == Some(name) {
            continue;
        }
        let t = format_ident!("vf_sub_{}_{}", fresh, i);
        let mut s = Subst { from: name.clone(), to: parse_quote!(#t), place: None, bad: false };
        s.visit_block_mut(&mut block);
        if s.bad {
            return None;
        }
    }
    for (i, (name, to, place)) in jobs.iter().enumerate() {
        if place.is_none() && ident_of(to).as_deref() == Some(name) {
            continue;
        }
        let mut s = Subst { from: format!("vf_sub_{}_{}", fresh, i), to: to.clone(), place: place.clone(), bad: false };
        s.visit_block_mut(&mut block);
        if s.bad {
            return None;
        }
    }
    pre.extend(block.stmts);
    block.stmts = pre;
    Some(block)
}

/// helper functions of a module: no contract, not recursive, body without early exits
pub fn cand(path: &str, self_ty: Option<String>, gen: &Generics, sig: &Signature, block: &Block) -> Option<Cand> {
    let mut generics: BTreeSet<String> = gen.type_params().map(|t| t.ident.to_string()).collect();
    generics.extend(sig.generics.type_params().map(|t| t.ident.to_string()));
    if sig.asyncness.is_some() || sig.unsafety.is_some() {
        return None;
    }
    const STD: &[&str] = &[
        "len", "is_empty", "push", "pop", "get", "get_mut", "next", "peek", "iter", "map", "insert", "remove", "take", "replace", "clone", "first", "last", "contains", "starts_with", "ends_with", "as_str", "as_ref", "as_mut", "to_string", "into",
        "from", "new", "extend", "truncate", "clear", "find", "split", "trim", "min", "max", "unwrap", "expect", "ok", "err", "filter", "any", "all", "count", "collect", "chars", "bytes", "push_str", "fmt", "default", "eq", "ne", "cmp", "push_back", "pop_front",
    ];
    if sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_))) && STD.contains(&sig.ident.to_string().as_str()) {
        return None;
    }
    let mut recv = None;
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                recv = Some(match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => 'm',
                    (Some(_), None) => '&',
                    _ => 'v',
                });
                if r.colon_token.is_some() {
                    return None;
                }
            }
            FnArg::Typed(p) => match &*p.pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => params.push((i.ident.clone(), i.mutability.is_some(), (*p.ty).clone())),
                _ => return None,
            },
        }
    }
    let mut block = Elim { ret: ret_kind(&sig.output) }.block(block)?;
    block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
    if block.stmts.iter().any(|s| matches!(s, Stmt::Item(_))) {
        return None;
    }
    Some(Cand { name: sig.ident.to_string(), path: path.to_string(), self_ty, recv, params, generics, block })
}

/// names called in a block
pub fn calls(b: &Block) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    idents(b.to_token_stream(), &mut s);
    let _ = quote!();
    s
}
