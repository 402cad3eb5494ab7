use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

struct P<'a> {
    out: String,
    /// source line of the first token on each output line
    lines: Vec<usize>,
    cur: usize,
    indent: usize,
    at_bol: bool,
    loops: Option<&'a HashMap<usize, String>>,
    dl: Option<&'a str>,
    prologue: Option<String>,
    joint: bool,
}

impl<'a> P<'a> {
    fn nl(&mut self) {
        if !self.at_bol {
            self.out.push('\n');
            self.lines.push(self.cur);
            self.cur = 0;
            self.at_bol = true;
        }
    }
    fn tok(&mut self, s: &str, line: usize) {
        if self.at_bol {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.at_bol = false;
        } else if !self.joint {
            self.out.push(' ');
        }
        self.joint = false;
        self.out.push_str(s);
        if self.cur == 0 {
            self.cur = line;
        }
    }
    fn raw(&mut self, s: &str) {
        for l in s.lines() {
            self.nl();
            self.tok(l, 0);
            self.nl();
        }
    }
    fn run(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            let t = &v[i];
            let line = t.span().start().line;
            let line = if line <= 1 { 0 } else { line };
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("(", ")"),
                    };
                    let mut inner = g.stream();
                    let brace = g.delimiter() == Delimiter::Brace;
                    let mut body_text = String::new();
                    if brace {
                        // loop marker
                        let iv: Vec<TokenTree> = inner.clone().into_iter().take(4).collect();
                        if iv.len() == 4 {
                            if let (TokenTree::Ident(id), TokenTree::Group(n)) = (&iv[0], &iv[2]) {
                                if id == "__vx_loop" {
                                    let k: usize = n.stream().to_string().trim().parse().unwrap();
                                    let t = self.loops.and_then(|l| l.get(&k)).cloned().or(self.dl.map(|s| s.to_string()));
                                    if let Some(t) = t {
                                        // `body:` lines are ghost statements at the start of the body
                                        let (b, h): (Vec<&str>, Vec<&str>) = t.lines().partition(|l| l.starts_with("body:"));
                                        body_text = b.iter().map(|l| format!("{}\n", &l[5..])).collect();
                                        self.raw(&format!("{}\n", h.join("\n")));
                                    }
                                    inner = inner.into_iter().skip(4).collect();
                                }
                            }
                        }
                    }
                    if matches!(g.delimiter(), Delimiter::Parenthesis | Delimiter::Bracket) {
                        self.joint = self.joint || !self.out.ends_with(|c: char| ",=&|<>+-*/!{(".contains(c)) && !self.at_bol && {
                            // keep `if (`, `in (`, `return (` apart
                            let last: String = self.out.chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                            let last: String = last.chars().rev().collect();
                            !matches!(last.as_str(), "if" | "in" | "return" | "match" | "while" | "let" | "else" | "as" | "mut" | "for" | "ref")
                        };
                    }
                    self.tok(a, line);
                    if brace {
                        self.indent += 1;
                        self.nl();
                        if let Some(p) = self.prologue.take() {
                            self.raw(&p);
                        }
                        if !body_text.is_empty() {
                            self.raw(&body_text);
                        }
                    } else {
                        self.joint = true;
                    }
                    self.run(inner);
                    if brace {
                        self.indent -= 1;
                        self.nl();
                        self.tok(b, g.span_close().start().line);
                        // stay on the line for else / . / ? / ) / , / ;
                        match v.get(i + 1) {
                            Some(TokenTree::Ident(id)) if id == "else" => {}
                            Some(TokenTree::Punct(_)) => {}
                            None => {}
                            Some(TokenTree::Group(_)) => {}
                            _ => self.nl(),
                        }
                    } else {
                        self.joint = true;
                        self.tok(b, 0);
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?' | ':') {
                        self.joint = true;
                    }
                    if c == ':' && p.spacing() == Spacing::Alone && !self.out.ends_with(':') {}
                    self.tok(&c.to_string(), line);
                    if p.spacing() == Spacing::Joint || c == '.' || c == '\'' {
                        self.joint = true;
                    }
                    if matches!(c, '&' | '!' | '$' | '#') && p.spacing() == Spacing::Joint {
                        self.joint = true;
                    }
                    if c == ';' || c == ',' && self.out.len() > 0 && self.brace_ctx(&v) {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => {
                    let n = id.to_string();
                    // words of the verifier's language
                    if matches!(n.as_str(), "tracked" | "ghost" | "proof" | "spec" | "exec" | "open" | "closed" | "requires" | "ensures" | "invariant" | "decreases" | "recommends" | "assert" | "assume" | "choose" | "forall" | "exists" | "broadcast" | "opens_invariants" | "returns" | "via" | "when" | "is" | "has" | "implies") {
                        self.tok(&(n + "_"), line)
                    } else {
                        self.tok(&n, line)
                    }
                }
                TokenTree::Literal(l) => self.tok(&l.to_string(), line),
            }
            i += 1;
        }
    }
    fn brace_ctx(&self, _v: &[TokenTree]) -> bool {
        // match arms end with ',' after a brace group
        self.out.ends_with("},")
    }
}

pub fn text(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), lines: vec![], cur: 0, indent: 0, at_bol: true, loops: None, dl: None, prologue: None, joint: false };
    p.run(ts);
    p.out
}

pub fn body(ts: TokenStream, loops: &HashMap<usize, String>, dl: Option<&str>, prologue: &str) -> (String, Vec<usize>) {
    let mut p = P {
        out: String::new(),
        lines: vec![],
        cur: 0,
        indent: 0,
        at_bol: true,
        loops: Some(loops),
        dl,
        prologue: if prologue.trim().is_empty() { None } else { Some(prologue.to_string()) },
        joint: false,
    };
    p.run(ts);
    let c = p.cur;
    p.lines.push(c);
    (p.out, p.lines)
}

pub fn hash(ts: TokenStream) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    ts.to_string().hash(&mut h);
    format!("{:016x}", h.finish())
}
