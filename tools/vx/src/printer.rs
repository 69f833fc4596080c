use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Piece {
    pub text: String,
    pub kind: &'static str,
    pub tags: Vec<String>,
    pub at: String,
}

pub struct Printer {
    out: String,
    line: usize,
    lines: Vec<Value>,
    indent: usize,
    at_bol: bool,
    cur_fn: String,
    cur_src: String,
    last_src_line: usize,
}

impl Printer {
    pub fn new() -> Self {
        Printer {
            out: String::new(),
            line: 1,
            lines: vec![],
            indent: 0,
            at_bol: true,
            cur_fn: String::new(),
            cur_src: String::new(),
            last_src_line: 0,
        }
    }
    pub fn finish(self) -> String {
        self.out
    }
    pub fn lines_json(&self) -> Vec<Value> {
        self.lines.clone()
    }
    fn push(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.at_bol = true;
            } else {
                self.at_bol = false;
            }
        }
        self.out.push_str(s);
    }
    pub fn raw(&mut self, s: &str) {
        self.push(s);
    }
    pub fn set_fn(&mut self, f: &str, src: &str) {
        self.cur_fn = f.to_string();
        self.cur_src = src.to_string();
        self.last_src_line = 0;
        let v = json!({"line": self.line, "kind": "fn", "fn": f, "src": src});
        self.lines.push(v);
    }
    pub fn end_fn(&mut self) {
        let v = json!({"line": self.line, "kind": "endfn", "fn": self.cur_fn});
        self.lines.push(v);
        self.cur_fn.clear();
    }
    pub fn piece(&mut self, p: &Piece) {
        self.nl();
        if p.kind != "kw" {
            let n = p.text.lines().count();
            let v = json!({"line": self.line, "to": self.line + n.max(1) - 1, "kind": p.kind, "tags": p.tags, "at": p.at, "fn": self.cur_fn});
            self.lines.push(v);
        }
        self.push(&p.text);
        self.nl();
    }
    fn nl(&mut self) {
        if !self.at_bol {
            self.push("\n");
        }
    }
    fn ind(&mut self) {
        if self.at_bol {
            let s = "  ".repeat(self.indent.min(12));
            self.push(&s);
            self.at_bol = false;
        }
    }
    fn src(&mut self, line: usize) {
        if line > 1 && line != self.last_src_line && !self.cur_fn.is_empty() {
            self.last_src_line = line;
            let v = json!({"line": self.line, "kind": "code", "fn": self.cur_fn, "src": format!("{}:{}", self.cur_src, line)});
            self.lines.push(v);
        }
    }
    pub fn tokens(&mut self, ts: TokenStream, table: &[Vec<Piece>]) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut tight = true;
        while i < v.len() {
            // placeholders
            if let TokenTree::Ident(id) = &v[i] {
                let id = id.to_string();
                if id == "__vx_s" || id == "__vx_h" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let n: usize = g.stream().to_string().trim().parse().unwrap();
                        if id == "__vx_s" {
                            for p in &table[n] {
                                self.piece(p);
                            }
                        }
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        tight = true;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    self.ind();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(hg))) = (inner.first(), inner.get(2)) {
                                if id.to_string() == "__vx_h" {
                                    let n: usize = hg.stream().to_string().trim().parse().unwrap();
                                    for p in &table[n] {
                                        self.piece(p);
                                    }
                                    self.ind();
                                }
                            }
                            self.push(if self.at_bol { "{" } else { " {" });
                            if g.stream().is_empty() {
                                self.push("}");
                            } else {
                                self.push("\n");
                                self.indent += 1;
                                self.tokens(g.stream(), table);
                                self.indent -= 1;
                                self.nl();
                                self.ind();
                                self.push("}");
                            }
                            // a newline unless an expression obviously continues
                            let cont = match v.get(i + 1) {
                                Some(TokenTree::Punct(p)) => true & (p.as_char() != '#'),
                                Some(TokenTree::Ident(id)) => id.to_string() == "else",
                                Some(TokenTree::Group(g2)) => g2.delimiter() != Delimiter::Brace,
                                None => true,
                                _ => false,
                            };
                            if !cont {
                                self.push("\n");
                            }
                            tight = false;
                        }
                        d => {
                            let (a, b) = match d {
                                Delimiter::Parenthesis => ("(", ")"),
                                Delimiter::Bracket => ("[", "]"),
                                _ => ("", ""),
                            };
                            self.push(a);
                            self.tokens(g.stream(), table);
                            self.push(b);
                            tight = false;
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.src(p.span().start().line);
                    self.ind();
                    let glue = tight || matches!(c, ';' | ',' | '.' | '?');
                    if !glue {
                        self.push(" ");
                    }
                    self.push(&c.to_string());
                    if c == ';' {
                        self.push("\n");
                        tight = true;
                    } else {
                        tight = p.spacing() == Spacing::Joint || c == '.' || c == '&' || c == '!';
                    }
                }
                TokenTree::Ident(id) => {
                    self.src(id.span().start().line);
                    self.ind();
                    if !tight {
                        self.push(" ");
                    }
                    self.push(&id.to_string());
                    tight = false;
                }
                TokenTree::Literal(l) => {
                    self.ind();
                    if !tight {
                        self.push(" ");
                    }
                    self.push(&l.to_string());
                    tight = false;
                }
            }
            i += 1;
        }
    }
}
