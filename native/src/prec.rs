//! Grouping of operator expressions against the documented precedence table
//! (CodeParser/Data/Precedence.wl) and the operator tables next to it.

use crate::checks::{opts, Cfg};
use crate::tree::*;
use std::collections::HashMap;
use std::sync::OnceLock;
use wolfram_parser::cst::*;
use wolfram_parser::tokenize::*;
use wolfram_parser::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Binary,
    Infix,
    Prefix,
    Postfix,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub text: String,
    pub kind: Kind,
    pub rank: u32,
    pub right: bool,
    pub head: String,
    pub token: String,
}

fn strip_comments(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    let mut d = 0;
    while i < b.len() {
        if b[i..].starts_with(b"(*") {
            d += 1;
            i += 2;
        } else if d > 0 && b[i..].starts_with(b"*)") {
            d -= 1;
            i += 2;
        } else {
            if d == 0 {
                o.push(b[i])
            }
            i += 1;
        }
    }
    String::from_utf8(o).unwrap()
}
fn entries(file: &str) -> Vec<(String, String)> {
    let t = strip_comments(&std::fs::read_to_string(format!("/repo/CodeParser/Data/{file}")).unwrap());
    let mut v = vec![];
    for l in t.lines() {
        if let Some((a, b)) = l.split_once("->") {
            v.push((a.trim().to_string(), b.trim().trim_end_matches(',').to_string()));
        }
    }
    v
}
/// name -> (rank, right associative)
pub fn table() -> &'static HashMap<String, (u32, bool)> {
    static T: OnceLock<HashMap<String, (u32, bool)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m: HashMap<String, (u32, bool)> = HashMap::new();
        let mut cur = 0;
        for (k, v) in entries("Precedence.wl") {
            if let Some(inner) = v.strip_prefix('{') {
                let f: Vec<&str> = inner.trim_end_matches('}').split(',').map(|s| s.trim()).collect();
                cur = if f[0] == "Next" { cur + 1 } else { f[0].parse().unwrap() };
                m.insert(k, (cur, f[1] == "Associativity`Right"));
            } else {
                let t = m[v.as_str()];
                m.insert(k, t);
            }
        }
        assert!(m.len() > 150);
        m
    })
}
fn spelling(token: &str) -> Option<String> {
    if let Some(n) = token.strip_prefix("LongName`") {
        return Some(format!("\\[{n}]"));
    }
    let t = [
        ("Slash", "/"), ("Caret", "^"), ("CaretEqual", "^="), ("CaretColonEqual", "^:="), ("SlashAt", "/@"), ("MinusGreater", "->"),
        ("AtAtAt", "@@@"), ("SlashSemi", "/;"), ("SlashDot", "/."), ("ColonGreater", ":>"), ("SlashSlashDot", "//."), ("PlusEqual", "+="),
        ("StarEqual", "*="), ("MinusEqual", "-="), ("SlashEqual", "/="), ("LessMinusGreater", "<->"), ("SlashSlashAt", "//@"), ("At", "@"),
        ("AtAt", "@@"), ("SlashSlash", "//"), ("Question", "?"), ("BarMinusGreater", "|->"), ("SlashSlashEqual", "//="),
        ("Minus", "-"), ("EqualEqualEqual", "==="), ("EqualBangEqual", "=!="), ("Plus", "+"), ("Dot", "."), ("StarStar", "**"),
        ("AmpAmp", "&&"), ("BarBar", "||"), ("Bar", "|"), ("LessGreater", "<>"), ("TildeTilde", "~~"), ("AtStar", "@*"), ("SlashStar", "/*"),
        ("EqualEqual", "=="), ("BangEqual", "!="), ("Less", "<"), ("Greater", ">"), ("LessEqual", "<="), ("GreaterEqual", ">="),
        ("Bang", "!"), ("PlusPlus", "++"), ("MinusMinus", "--"), ("DotDot", ".."), ("DotDotDot", "..."), ("Amp", "&"), ("SingleQuote", "'"), ("BangBang", "!!"),
        ("Star", "*"),
    ];
    t.iter().find(|x| x.0 == token).map(|x| x.1.to_string())
}

pub fn ops() -> &'static Vec<Op> {
    static O: OnceLock<Vec<Op>> = OnceLock::new();
    O.get_or_init(|| {
        let mut v = vec![];
        for (file, pat) in [
            ("InfixParselets.wl", [("BinaryOperatorParselet[", Kind::Binary), ("InfixOperatorParselet[", Kind::Infix), ("PostfixOperatorParselet[", Kind::Postfix)].to_vec()),
            ("PrefixParselets.wl", [("PrefixOperatorParselet[", Kind::Prefix)].to_vec()),
        ] {
            for (k, val) in entries(file) {
                let Some(tok) = k.strip_prefix("Token`") else { continue };
                let Some(text) = spelling(tok) else { continue };
                for (p, kind) in &pat {
                    let p = format!("Parselet`{p}");
                    if let Some(args) = val.strip_prefix(p.as_str()) {
                        let f: Vec<&str> = args.trim_end_matches(']').split(',').map(|s| s.trim()).collect();
                        let Some(&(rank, right)) = table().get(f[0]) else { continue };
                        v.push(Op { text: text.clone(), kind: kind.clone(), rank, right, head: f[1].to_string(), token: tok.to_string() });
                    }
                }
            }
        }
        // Star has a parselet of its own, an ordinary infix operator at the Star precedence
        let (rank, right) = table()["Precedence`Star"];
        v.push(Op { text: "*".into(), kind: Kind::Infix, rank, right, head: "Times".into(), token: "Star".into() });
        // The text must be one token of that name (checked by the code's own tokenizer elsewhere): skip
        // spellings the character table does not know.
        v.retain(|o| !o.text.starts_with("\\[") || crate::refwl::names().1.contains_key(&o.text[2..o.text.len() - 1]));
        assert!(v.len() > 200, "{}", v.len());
        v
    })
}

#[derive(Clone, Debug)]
pub enum Item {
    Atom(usize),
    Op(usize),
}

/// Reference: precedence climbing over ranks. `min` is (rank, right) of the operator to the left.
struct P<'a> {
    items: &'a [Item],
    at: usize,
}
fn continues(next: &Op, min: Option<(u32, bool)>) -> bool {
    match min {
        None => true,
        Some((r, right)) => next.rank > r || next.rank == r && right,
    }
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&'static Op> {
        match self.items.get(self.at) {
            Some(Item::Op(i)) => Some(&ops()[*i]),
            _ => None,
        }
    }
    fn parse(&mut self, min: Option<(u32, bool)>) -> String {
        let mut left = match &self.items[self.at] {
            Item::Atom(i) => {
                self.at += 1;
                atom(*i)
            },
            Item::Op(i) => {
                let o = &ops()[*i];
                self.at += 1;
                let a = self.parse(Some((o.rank, o.right)));
                format!("[{} {a}]", o.text)
            },
        };
        while let Some(o) = self.peek() {
            if !continues(o, min) {
                break;
            }
            match o.kind {
                Kind::Postfix => {
                    self.at += 1;
                    left = format!("[{left} {}]", o.text);
                },
                Kind::Binary => {
                    self.at += 1;
                    let r = self.parse(Some((o.rank, o.right)));
                    left = format!("[{left} {} {r}]", o.text);
                },
                Kind::Infix => {
                    let mut s = format!("[{left}");
                    while let Some(p) = self.peek() {
                        if p.kind != Kind::Infix || p.head != o.head {
                            // (an operator of the same head joins the chain, whatever its own rank)
                            break;
                        }
                        self.at += 1;
                        s.push_str(&format!(" {} {}", p.text, self.parse(Some((o.rank, o.right)))));
                    }
                    left = s + "]";
                },
                Kind::Prefix => unreachable!(),
            }
        }
        left
    }
}
fn atom(i: usize) -> String {
    ["a", "b", "c", "d", "e"][i].to_string()
}

fn sexp(n: &C) -> String {
    match n {
        Cst::Token(t) => String::from_utf8_lossy(t.input.as_bytes()).to_string(),
        _ => {
            let v: Vec<String> = children(n)
                .into_iter()
                .filter(|k| !matches!(k, Cst::Token(t) if t.tok.isTrivia()))
                .map(sexp)
                .collect();
            format!("[{}]", v.join(" "))
        },
    }
}

fn excluded(o: &Op) -> bool {
    // handled by parselets with their own grammar around them
    ["LongName`Minus", "LongName`InvisibleApplication"].contains(&o.token.as_str()) && false
}

pub fn check(items: &[Item], cfg: &Cfg) -> Result<(), String> {
    let mut txt = String::new();
    for i in items {
        match i {
            Item::Atom(k) => txt.push_str(&atom(*k)),
            Item::Op(k) => txt.push_str(&ops()[*k].text),
        }
        txt.push(' ');
    }
    // one token per piece, or the pieces run together: then this is another expression
    let toks: Vec<Vec<u8>> = iter::tokens(&txt, &opts(cfg)).filter(|t| !t.tok.isTrivia()).map(|t| t.input.as_bytes().to_vec()).collect();
    let want_toks: Vec<Vec<u8>> = txt.split(' ').filter(|s| !s.is_empty()).map(|s| s.as_bytes().to_vec()).collect();
    if toks != want_toks {
        return Ok(());
    }
    let want = P { items, at: 0 }.parse(None);
    let r = parse_bytes_cst_seq(txt.as_bytes(), &opts(cfg));
    let got: Vec<String> = r.syntax.0.iter().filter(|k| !matches!(k, Cst::Token(t) if t.tok.isTrivia())).map(sexp).collect();
    if got != [want.clone()] {
        return Err(format!("{txt}: grouped as {}, expected {want}", got.join(" ")));
    }
    Ok(())
}

/// Random expression of a few operators, chosen by the bytes.
pub fn c11(b: &[u8], cfg: &Cfg) -> Result<(), String> {
    let cfg = Cfg { first: 0, ..cfg.clone() };
    let mut it = b.iter().copied();
    let mut nx = || it.next().unwrap_or(0) as usize;
    let (pre, inf, post) = classes();
    let n = 1 + nx() % 4;
    let pick = |l: &Vec<usize>, x: usize, y: usize| l[(x * 256 + y) % l.len()];
    let mut v = vec![];
    for k in 0..=n {
        if nx() % 6 == 0 {
            v.push(Item::Op(pick(pre, nx(), nx())));
        }
        v.push(Item::Atom(k));
        if nx() % 8 == 0 {
            v.push(Item::Op(pick(post, nx(), nx())));
        }
        if k < n {
            v.push(Item::Op(pick(inf, nx(), nx())));
        }
    }
    check(&v, &cfg)
}
pub fn classes() -> &'static (Vec<usize>, Vec<usize>, Vec<usize>) {
    static C: OnceLock<(Vec<usize>, Vec<usize>, Vec<usize>)> = OnceLock::new();
    C.get_or_init(|| {
        let all = ops();
        let f = |p: &dyn Fn(&Op) -> bool| (0..all.len()).filter(|i| p(&all[*i]) && !excluded(&all[*i])).collect::<Vec<_>>();
        (
            f(&|o| o.kind == Kind::Prefix),
            f(&|o| o.kind == Kind::Binary || o.kind == Kind::Infix),
            f(&|o| o.kind == Kind::Postfix),
        )
    })
}
/// Every pair of binary or infix operators, and every prefix or postfix operator with each of them.
pub fn pairs() -> Result<u64, String> {
    let (pre, inf, post) = classes();
    let cfg = Cfg::default();
    let mut jobs: Vec<Vec<Item>> = vec![];
    use Item::*;
    for x in inf {
        for y in inf {
            jobs.push(vec![Atom(0), Op(*x), Atom(1), Op(*y), Atom(2)]);
        }
        for p in pre {
            jobs.push(vec![Op(*p), Atom(0), Op(*x), Atom(1)]);
            jobs.push(vec![Atom(0), Op(*x), Op(*p), Atom(1)]);
            jobs.push(vec![Atom(0), Op(*x), Op(*p), Atom(1), Op(*x), Atom(2)]);
        }
        for p in post {
            jobs.push(vec![Atom(0), Op(*x), Atom(1), Op(*p)]);
            jobs.push(vec![Atom(0), Op(*p), Op(*x), Atom(1)]);
        }
    }
    for p in pre {
        for q in post {
            jobs.push(vec![Op(*p), Atom(0), Op(*q)]);
        }
    }
    let n = jobs.len() as u64;
    crate::whole::par(jobs, move |j| check(j, &cfg))?;
    Ok(n)
}
