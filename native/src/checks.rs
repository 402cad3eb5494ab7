//! Per-property oracles on one input, against independent references.

use crate::gen::Rng;
use crate::prec;
use crate::refdec::{positions, step, BadKind, Conv};
use crate::reflex;
use crate::refwl;
use crate::show;
use crate::tree::*;
use wolfram_parser::cst::*;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::*;
use wolfram_parser::*;

#[cfg(codeparser_verif)]
use wolfram_parser::verif as hk;

pub type Chk = fn(&[u8], &Cfg) -> Result<(), String>;
type R = Result<(), String>;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub conv: Conv,
    pub tab: u32,
    pub first: u8,
    pub issues: bool,
    pub oob: bool,
    pub boxes: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { conv: Conv::LineCol, tab: 1, first: 0, issues: true, oob: true, boxes: false }
    }
}
impl Cfg {
    pub fn random(r: &mut Rng) -> Self {
        Cfg {
            conv: if r.chance(1, 2) { Conv::LineCol } else { Conv::CharIdx },
            tab: [1, 4, 8, 3, 2, 5][r.below(6)],
            first: [0, 0, 0, 0, 0, 1, 2][r.below(7)],
            issues: !r.chance(1, 5),
            oob: !r.chance(1, 5),
            boxes: r.chance(1, 6),
        }
    }
    pub fn encode(&self) -> String {
        format!("{} {} {} {} {} {}", if self.conv == Conv::LineCol { 0 } else { 1 }, self.tab, self.first, self.issues as u8, self.oob as u8, self.boxes as u8)
    }
    pub fn decode(s: &str) -> Self {
        let v: Vec<u32> = s.split(' ').filter_map(|x| x.parse().ok()).collect();
        if v.len() < 6 {
            return Cfg::default();
        }
        Cfg { conv: if v[0] == 0 { Conv::LineCol } else { Conv::CharIdx }, tab: v[1], first: v[2] as u8, issues: v[3] != 0, oob: v[4] != 0, boxes: v[5] != 0 }
    }
}

pub fn opts(c: &Cfg) -> ParseOptions {
    let o = ParseOptions::default()
        .tab_width(c.tab)
        .source_convention(match c.conv {
            Conv::LineCol => SourceConvention::LineColumn,
            Conv::CharIdx => SourceConvention::CharacterIndex,
        })
        .first_line_behavior(match c.first {
            0 => FirstLineBehavior::NotScript,
            1 => FirstLineBehavior::Check,
            _ => FirstLineBehavior::Script,
        });
    #[cfg(codeparser_verif)]
    let o = hk::set_options(o, c.issues, c.oob, c.boxes);
    o
}

pub fn inputs_of(prop: &str) -> Vec<(&'static str, Chk)> {
    match prop {
        "C01" => vec![("source characters", c01)],
        "C02" => vec![("positions of source characters", c02_chars), ("positions of tokens", c02_tokens)],
        "C03" => vec![("token tiling", c03), ("tokenize_bytes tiling", c03_api)],
        "C04" => vec![("Wolfram characters", c04)],
        "C05" => vec![("totality", c05)],
        "C06" => vec![("number tokens", c06)],
        "C07" => vec![("strings and comments", c07), ("strings and comments in trees", c07_tree)],
        "C08" => vec![("newline kinds", c08)],
        "C09" => vec![("leaves tile the input", c09_tile), ("leaf text is the slice at its span", c09_slice)],
        "C10" => vec![("span nesting", c10)],
        "C11" => vec![("grouping by precedence", prec::c11)],
        "C12" => vec![("span algebra", c12)],
        "C15" => vec![("issue lists", c15), ("issues do not influence the result", c15_inv)],
        "C16" => vec![("printing source characters", c16), ("printing Wolfram characters", c16_wl)],
        "C17" => vec![("aggregation", c17)],
        _ => vec![],
    }
}

// ---------------------------------------------------------------- C01
fn kind_name(k: BadKind) -> &'static str {
    match k {
        BadKind::Incomplete => "IncompleteUTF8Sequence",
        BadKind::Surrogate => "StraySurrogate",
        BadKind::Bom => "BOM",
    }
}
fn c01(b: &[u8], c: &Cfg) -> R {
    let o = opts(c);
    let mut last = None;
    #[cfg(codeparser_verif)]
    {
        let (v, flag) = hk::source_chars(b, &o);
        let flags = hk::source_flags(b, &o);
        let mut off = 0;
        for (i, (cp, after, _)) in v.iter().enumerate() {
            let (want, n) = refwl::src(b, off);
            if off < b.len() {
                if let (_, _, Some(k)) = step(&b[off..]) {
                    last = Some(kind_name(k))
                }
            }
            if (*cp, *after) != (want, n) {
                return Err(format!("at {off}: read code point {cp} ending at {after}, expected {want} ending at {n}"));
            }
            if flags[i].map(|f| f.as_str()) != last {
                return Err(format!("at {off}: flag {:?}, expected {last:?}", flags[i]));
            }
            off = n;
        }
        if off != b.len() || v.last().map(|x| x.0) != Some(-1) {
            return Err(format!("reading stops at {off} of {}", b.len()));
        }
        if flag.map(|f| f.as_str()) != last {
            return Err(format!("flag {flag:?}, expected {last:?}"));
        }
    }
    #[cfg(not(codeparser_verif))]
    {
        let mut p = 0;
        while p < b.len() {
            let (_, n, k) = step(&b[p..]);
            if let Some(k) = k {
                last = Some(kind_name(k))
            }
            p += n;
        }
    }
    match safe_string(b, &o) {
        Ok(s) => {
            if last.is_some() || s.as_bytes() != b {
                return Err(format!("safe_string accepted, expected {last:?}"));
            }
        },
        Err(f) => {
            if Some(f.as_str()) != last {
                return Err(format!("safe_string gave {f:?}, expected {last:?}"));
            }
        },
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let mut off = 0;
        for ch in iter::source_chars(s, &o) {
            let (want, n) = refwl::src(b, off);
            let got = match ch {
                SourceCharacter::Char(c) => c as i32,
                SourceCharacter::CRLF => -2,
                SourceCharacter::Unsafe1ByteUtf8Sequence => -3,
                SourceCharacter::Unsafe2ByteUtf8Sequence => -4,
                SourceCharacter::Unsafe3ByteUtf8Sequence => -5,
                _ => -99,
            };
            if got != want {
                return Err(format!("source_chars at {off}: {ch:?}, expected {want}"));
            }
            off = n;
        }
        if off != b.len() {
            return Err(format!("source_chars stops at {off}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tokens
pub struct Tk<'i> {
    pub kind: TokenKind,
    pub text: &'i [u8],
    pub src: Span,
    pub end: Option<usize>,
}
/// The token sequence including the final EndOfFile token where available.
pub fn lex<'i>(b: &'i [u8], c: &Cfg) -> Result<Option<Vec<Tk<'i>>>, String> {
    let o = opts(c);
    #[cfg(codeparser_verif)]
    {
        let (v, done) = hk::lex(b, &o);
        if !done {
            return Err("tokenizing does not end".into());
        }
        return Ok(Some(
            v.iter()
                .map(|(t, e)| {
                    let n = t.input.as_bytes().len();
                    // the token's text is a slice of the input
                    let p = t.input.as_bytes().as_ptr() as usize - b.as_ptr() as usize;
                    Tk { kind: t.tok, text: &b[p..p + n], src: t.src, end: Some(*e) }
                })
                .collect(),
        ));
    }
    #[cfg(not(codeparser_verif))]
    {
        let Ok(s) = std::str::from_utf8(b) else { return Ok(None) };
        let mut v = vec![];
        for t in iter::tokens(s, &o) {
            let n = t.input.as_bytes().len();
            let p = t.input.as_bytes().as_ptr() as usize - b.as_ptr() as usize;
            v.push(Tk { kind: t.tok, text: &b[p..p + n], src: t.src, end: None });
            if v.len() > b.len() + 4 {
                return Err("tokenizing does not end".into());
            }
        }
        Ok(Some(v))
    }
}
fn at_of(b: &[u8], t: &[u8]) -> usize {
    t.as_ptr() as usize - b.as_ptr() as usize
}
/// Where tokenizing starts: after the first line if that starts with the tokens # and !.
fn begin(b: &[u8], c: &Cfg) -> usize {
    if c.first == 0 {
        return 0;
    }
    let Ok(Some(ts)) = lex(b, &Cfg { first: 0, ..c.clone() }) else { return 0 };
    if ts.len() < 2 || ts[0].kind != TokenKind::Hash || ts[1].kind != TokenKind::Bang {
        return 0;
    }
    match ts.iter().find(|t| t.kind == TokenKind::ToplevelNewline) {
        Some(t) => at_of(b, t.text) + t.text.len(),
        None => ts.iter().filter(|t| t.kind != TokenKind::EndOfFile).last().map_or(0, |t| at_of(b, t.text) + t.text.len()),
    }
}
fn only_continuation(rest: &[u8]) -> bool {
    // line continuations directly before the end of input, with the white space they swallow
    let mut p = 0;
    if !rest.starts_with(b"\\") {
        return false;
    }
    while p < rest.len() {
        let (cp, e, n) = refwl::wl(rest, p);
        let ok = (-18..=-16).contains(&cp) && e == 2 || cp == 32 || cp == 9 || cp == 11 || cp == 12;
        if !ok {
            return false;
        }
        p = n;
    }
    true
}

fn c02_chars(b: &[u8], c: &Cfg) -> R {
    #[cfg(codeparser_verif)]
    {
        let pos = positions(b, c.conv, c.tab);
        let (v, _) = hk::source_chars(b, &opts(c));
        for (_, after, l) in v {
            if pos.get(after).copied().flatten() != Some(loc(l)) {
                return Err(format!("position after offset {after} is {l}, expected {:?}", pos.get(after)));
            }
        }
        for (_, _, after, l, _, _) in hk::wl_chars(b, &opts(c), 1 | 4 | 2) {
            if pos.get(after).copied().flatten() != Some(loc(l)) {
                return Err(format!("position after the Wolfram character ending at {after} is {l}, expected {:?}", pos.get(after)));
            }
        }
    }
    let _ = (b, c);
    Ok(())
}
fn c02_tokens(b: &[u8], c: &Cfg) -> R {
    let Some(ts) = lex(b, c)? else { return Ok(()) };
    let pos = positions(b, c.conv, c.tab);
    let mut prev: Option<(u32, u32)> = None;
    for t in ts {
        let s = at_of(b, t.text);
        let e = s + t.text.len();
        if Some(loc(t.src.start())) != pos[s] || Some(loc(t.src.end())) != pos[e] {
            return Err(format!("token {:?} {} at {s} has span {}, expected {:?} to {:?}", t.kind, show(t.text), t.src, pos[s], pos[e]));
        }
        if let Some(p) = prev {
            if p != loc(t.src.start()) {
                return Err(format!("token {:?} at {s} starts at {} but the previous token ended at {p:?}", t.kind, t.src.start()));
            }
        }
        prev = Some(loc(t.src.end()));
    }
    Ok(())
}

fn c03(b: &[u8], c: &Cfg) -> R {
    let Some(ts) = lex(b, c)? else { return Ok(()) };
    let mut off = begin(b, c);
    let mut eof = false;
    for t in &ts {
        let s = at_of(b, t.text);
        if s != off {
            return Err(format!("token {:?} {} starts at {s}, the previous one ended at {off}", t.kind, show(t.text)));
        }
        if t.kind == TokenKind::EndOfFile {
            eof = true;
            if !t.text.is_empty() && !only_continuation(t.text) {
                return Err(format!("end of file token has text {}", show(t.text)));
            }
        } else if t.text.is_empty() {
            return Err(format!("empty token {:?} at {s}", t.kind));
        }
        off = s + t.text.len();
        if t.end.map_or(false, |e| e != off) {
            return Err(format!("token {:?} {} ends at {off} but the reader is at {:?}", t.kind, show(t.text), t.end));
        }
    }
    if off != b.len() && !(!eof && only_continuation(&b[off..])) {
        return Err(format!("tokens stop at {off} of {}", b.len()));
    }
    Ok(())
}
fn c03_api(b: &[u8], c: &Cfg) -> R {
    let o = opts(c);
    let Ok(NodeSeq(ts)) = tokenize_bytes(b, &o) else { return Ok(()) };
    let unterminated = ts.iter().any(|t| t.tok.isUnterminated());
    let mut off = begin(b, c);
    for t in &ts {
        let tb = t.input.as_bytes();
        if !b[off..].starts_with(tb) || tb.is_empty() {
            return Err(format!("tokenize_bytes: token {:?} {} at {off}", t.tok, show(tb)));
        }
        off += tb.len();
    }
    if !unterminated && off != b.len() && !only_continuation(&b[off..]) {
        return Err(format!("tokenize_bytes stops at {off} of {}", b.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
fn c04(b: &[u8], c: &Cfg) -> R {
    #[cfg(codeparser_verif)]
    for policy in [7u8, 0, 0x1b] {
        let mut off = 0;
        for (cp, e, after, _, peeked_at, peek) in hk::wl_chars(b, &opts(c), policy) {
            let want = refwl::wl(b, off);
            if (cp, e, after) != want {
                return Err(format!("at {off}: read (code point, escape, end) {:?}, expected {want:?}", (cp, e, after)));
            }
            if peeked_at != off || peek != cp {
                return Err(format!("at {off}: peek gave {peek} and left the reader at {peeked_at}"));
            }
            off = after;
        }
        if off != b.len() {
            return Err(format!("Wolfram characters stop at {off}"));
        }
    }
    #[cfg(not(codeparser_verif))]
    if let Ok(s) = std::str::from_utf8(b) {
        let mut off = 0;
        for ch in iter::wolfram_chars(s, &opts(c)) {
            let (cp, _, n) = refwl::wl(b, off);
            if cp >= 0 && ch.point != char::from_u32(cp as u32).unwrap() {
                return Err(format!("at {off}: {ch:?}, expected {cp}"));
            }
            off = n;
        }
    }
    let _ = c;
    Ok(())
}

// ---------------------------------------------------------------- C05
fn c05(b: &[u8], c: &Cfg) -> R {
    let o = opts(c);
    lex(b, c)?;
    if let Ok(s) = std::str::from_utf8(b) {
        if iter::tokens(s, &o).take(b.len() + 4).count() > b.len() + 2 {
            return Err("token iterator does not end".into());
        }
        if iter::wolfram_chars(s, &o).take(b.len() + 4).count() > b.len() + 2 {
            return Err("character iterator does not end".into());
        }
    }
    let _ = tokenize_bytes(b, &o);
    let _ = safe_string(b, &o);
    let _ = parse_bytes_cst_seq(b, &o);
    for m in [StringifyMode::Normal, StringifyMode::Tag, StringifyMode::File] {
        let _ = parse_to_token(b, &o, m);
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
fn c06(b: &[u8], c: &Cfg) -> R {
    let Some(ts) = lex(b, c)? else { return Ok(()) };
    for t in ts {
        let s = at_of(b, t.text);
        let d0 = b.get(s).map_or(false, |x| x.is_ascii_digit());
        let d1 = b.get(s) == Some(&b'.') && b.get(s + 1).map_or(false, |x| x.is_ascii_digit());
        let name = format!("{:?}", t.kind);
        if d0 || d1 {
            // what follows is literal text up to the first backslash
            let lit = &b[s..b[s..].iter().position(|x| *x == b'\\').map_or(b.len(), |i| s + i)];
            let (n, k) = reflex::number(lit);
            if n + 2 > lit.len() && s + lit.len() != b.len() {
                continue;
            }
            if t.text.len() != n || name != k {
                return Err(format!("at {s}: token {name} {}, expected {k} {}", show(t.text), show(&b[s..s + n])));
            }
        } else if ["Integer", "Real", "Rational", "Error_Number"].contains(&&name[..]) && !t.text.contains(&b'\\') {
            return Err(format!("at {s}: {name} token {}", show(t.text)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn c07(b: &[u8], c: &Cfg) -> R {
    let Some(ts) = lex(b, c)? else { return Ok(()) };
    for t in ts {
        let s = at_of(b, t.text);
        let name = format!("{:?}", t.kind);
        if b[s..].starts_with(b"\"") {
            let (e, done) = reflex::string(b, s);
            let k = if done { "String" } else { "Error_UnterminatedString" };
            if s + t.text.len() != e || name != k {
                return Err(format!("at {s}: token {name} of {} bytes, expected {k} of {}", t.text.len(), e - s));
            }
        } else if b[s..].starts_with(b"(*") {
            let (e, done) = reflex::comment(b, s);
            let k = if done { "Comment" } else { "Error_UnterminatedComment" };
            if s + t.text.len() != e || name != k {
                return Err(format!("at {s}: token {name} of {} bytes, expected {k} of {}", t.text.len(), e - s));
            }
        } else if name == "String" || name == "Comment" || name == "Error_UnterminatedString" || name == "Error_UnterminatedComment" {
            if !t.text.starts_with(b"(\\") && !t.text.starts_with(b"\\") {
                return Err(format!("at {s}: {name} token {}", show(t.text)));
            }
        }
    }
    Ok(())
}
/// In parsed trees too, except that a tag or file name after `::`, `#`, `<<`,
/// `>>` is also a String token.
fn c07_tree(b: &[u8], c: &Cfg) -> R {
    let r = parse_bytes_cst_seq(b, &opts(c));
    let NodeSeq(ns) = &r.syntax;
    let mut ls = vec![];
    for n in ns {
        leaves(n, &mut ls)
    }
    for t in ls {
        let tb = t.input.as_bytes();
        let name = format!("{:?}", t.tok);
        if tb.starts_with(b"\"") && !t.tok.isUnterminated() {
            let (e, done) = reflex::string(tb, 0);
            if !done || e != tb.len() || name != "String" {
                return Err(format!("leaf {name} {}", show(tb)));
            }
        } else if tb.starts_with(b"(*") && !t.tok.isUnterminated() {
            let (e, done) = reflex::comment(tb, 0);
            if !done || e != tb.len() || name != "Comment" {
                return Err(format!("leaf {name} {}", show(tb)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08
fn is_group(n: &C) -> bool {
    matches!(n, Cst::Group(_) | Cst::GroupMissingCloser(_))
}
fn c08_walk(n: &C, depth: usize, ex: &[Span]) -> R {
    if let Cst::Token(t) = n {
        let want = if depth == 0 { TokenKind::ToplevelNewline } else { TokenKind::InternalNewline };
        if (t.tok == TokenKind::ToplevelNewline || t.tok == TokenKind::InternalNewline) && t.tok != want && !ex.contains(&t.src) {
            return Err(format!("newline at {} inside {depth} groups is {:?}", t.src, t.tok));
        }
        return Ok(());
    }
    if let Cst::Call(CallNode { head, body }) = n {
        let hd: Vec<&C> = match head {
            CallHead::Concrete(s) => s.0.iter().collect(),
            CallHead::Aggregate(b) => vec![&**b],
        };
        for h in hd {
            c08_walk(h, depth, ex)?;
        }
        let ch: &Vec<C> = match body {
            CallBody::Group(GroupNode(o)) => &o.children.0,
            CallBody::GroupMissingCloser(GroupMissingCloserNode(o)) => &o.children.0,
        };
        return group(ch, depth, ex);
    }
    if is_group(n) {
        let ch: Vec<&C> = children(n);
        let own: Vec<C> = ch.into_iter().cloned().collect();
        return group(&own, depth, ex);
    }
    // a top-level newline ends an operand: no operator continues it from the next line
    // (except within a chain that has started, such as a + b <newline> + c)
    let ch = children(n);
    if depth == 0 && matches!(n, Cst::Infix(_) | Cst::Binary(_) | Cst::Ternary(_) | Cst::Postfix(_) | Cst::Compound(_)) {
        if let Some(Cst::Token(t)) = ch.iter().skip(1).find(|k| !matches!(k, Cst::Token(t) if t.tok.isTriviaButNotToplevelNewline())) {
            if t.tok == TokenKind::ToplevelNewline {
                return Err(format!("the top-level newline at {} does not end the operand before it", t.src));
            }
        }
    }
    for k in ch {
        c08_walk(k, depth, ex)?;
    }
    Ok(())
}
fn group(ch: &[C], depth: usize, ex: &[Span]) -> R {
    // opener and closer belong to the outside; everything between them to the inside
    for k in ch {
        c08_walk(k, depth + 1, ex)?;
    }
    Ok(())
}
fn c08(b: &[u8], c: &Cfg) -> R {
    let r = parse_bytes_cst_seq(b, &opts(c));
    // the file name after << >> >>> has to be on the same line, in a group or not
    let mut ex = vec![];
    let mut file = false;
    for t in tree_leaves(&r.syntax.0) {
        if file && t.tok == TokenKind::ToplevelNewline {
            ex.push(t.src);
        }
        if !t.tok.isTrivia() && !t.tok.isEmpty() {
            file = [TokenKind::LessLess, TokenKind::GreaterGreater, TokenKind::GreaterGreaterGreater].contains(&t.tok);
        }
    }
    for n in &r.syntax.0 {
        c08_walk(n, 0, &ex)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C09, C10
fn tree_leaves<'a, 'i>(ns: &'a [C<'i>]) -> Vec<&'a T<'i>> {
    let mut ls = vec![];
    for n in ns {
        leaves(n, &mut ls)
    }
    ls
}
fn c09_tile(b: &[u8], c: &Cfg) -> R {
    let r = parse_bytes_cst_seq(b, &opts(c));
    let ns = &r.syntax.0;
    if ns.iter().any(has_missing_closer) {
        return Ok(());
    }
    let ls = tree_leaves(ns);
    if ls.iter().any(|t| t.tok.isUnterminated()) {
        return Ok(());
    }
    let pos = positions(b, c.conv, c.tab);
    let mut off = begin(b, c);
    for t in ls {
        let tb = t.input.as_bytes();
        if !b[off..].starts_with(tb) {
            return Err(format!("leaf {:?} {} does not continue the input at {off}", t.tok, show(tb)));
        }
        let e = off + tb.len();
        if Some(loc(t.src.start())) != pos[off] || Some(loc(t.src.end())) != pos[e] {
            return Err(format!("leaf {:?} {} at {off} has span {}, expected {:?} to {:?}", t.tok, show(tb), t.src, pos[off], pos[e]));
        }
        off = e;
    }
    if off != b.len() && !only_continuation(&b[off..]) {
        return Err(format!("leaves stop at {off} of {}", b.len()));
    }
    Ok(())
}
fn c09_slice(b: &[u8], c: &Cfg) -> R {
    let r = parse_bytes_cst_seq(b, &opts(c));
    let pos = positions(b, c.conv, c.tab);
    let off = |p: (u32, u32)| pos.iter().position(|q| *q == Some(p));
    for t in tree_leaves(&r.syntax.0) {
        let tb = t.input.as_bytes();
        let (Some(s), Some(e)) = (off(loc(t.src.start())), off(loc(t.src.end()))) else {
            return Err(format!("leaf {:?} {} has span {} which is no pair of positions of the input", t.tok, show(tb), t.src));
        };
        if s > e || &b[s..e] != tb {
            return Err(format!("leaf {:?} has text {} but span {} is {:?}", t.tok, show(tb), t.src, b.get(s..e).map(show)));
        }
    }
    Ok(())
}
fn c10_walk(n: &C) -> R {
    let ch = children(n);
    if ch.is_empty() {
        return Ok(());
    }
    let s = n.get_source();
    let (a, z) = (ch[0].get_source(), ch[ch.len() - 1].get_source());
    if s.start() != a.start() || s.end() != z.end() {
        return Err(format!("node with span {s} has children from {} to {}", a.start(), z.end()));
    }
    for w in ch.windows(2) {
        let (x, y) = (w[0].get_source(), w[1].get_source());
        if loc(x.end()) > loc(y.start()) {
            return Err(format!("child {x} is followed by child {y}"));
        }
    }
    for k in ch {
        let x = k.get_source();
        if loc(x.start()) > loc(x.end()) || loc(x.start()) < loc(s.start()) || loc(x.end()) > loc(s.end()) {
            return Err(format!("child {x} is not inside its parent {s}"));
        }
        c10_walk(k)?;
    }
    Ok(())
}
fn c10(b: &[u8], c: &Cfg) -> R {
    let r = parse_bytes_cst_seq(b, &opts(c));
    // recovery from unterminated tokens and groups re-reads text
    if tree_leaves(&r.syntax.0).iter().any(|t| t.tok.isUnterminated()) || r.syntax.0.iter().any(has_missing_closer) {
        return Ok(());
    }
    let seq = |ns: &[C]| -> R {
        for w in ns.windows(2) {
            let (x, y) = (w[0].get_source(), w[1].get_source());
            if loc(x.end()) > loc(y.start()) {
                return Err(format!("expression {x} is followed by {y}"));
            }
        }
        for n in ns {
            c10_walk(n)?;
        }
        Ok(())
    };
    seq(&r.syntax.0)?;
    if std::str::from_utf8(b).is_ok() {
        let agg = abstract_cst::aggregate_cst_seq(r.syntax);
        seq(&agg.0)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
fn c12(b: &[u8], _c: &Cfg) -> R {
    let mut v = [0u32; 8];
    for i in 0..8 {
        let g = |j: usize| b.get(4 * i + j).copied().unwrap_or(0) as u32;
        v[i] = match g(3) % 4 {
            0 => g(0) % 4,
            1 => g(0) | g(1) << 8,
            2 => u32::MAX - g(0) % 4,
            _ => g(0) | g(1) << 8 | g(2) << 16 | (g(3) / 4) << 26,
        };
    }
    c12_on(v)
}
pub fn c12_on(v: [u32; 8]) -> R {
    let nz = |x: u32| std::num::NonZeroU32::new(x.max(1)).unwrap();
    let lc = |a: u32, b: u32| LineColumn(nz(a), nz(b));
    let key = |l: LineColumn| (l.0.get(), l.1.get());
    let p: Vec<LineColumn> = (0..4).map(|i| lc(v[2 * i], v[2 * i + 1])).collect();
    for x in &p {
        for y in &p {
            let want = key(*x).cmp(&key(*y));
            if x.partial_cmp(y) != Some(want) || Location::from(*x).partial_cmp(&Location::from(*y)) != Some(want) {
                return Err(format!("order of {x} and {y} is {:?}", x.partial_cmp(y)));
            }
        }
    }
    for (x, y) in [(v[0], v[1]), (v[2], v[3])] {
        if Location::CharacterIndex(x).partial_cmp(&Location::CharacterIndex(y)) != Some(x.cmp(&y)) {
            return Err(format!("order of indices {x} and {y}"));
        }
    }
    if Location::CharacterIndex(v[0]).partial_cmp(&Location::from(p[0])).is_some() {
        return Err("positions of different conventions compare".into());
    }
    let sort = |x: LineColumn, y: LineColumn| if key(x) <= key(y) { (x, y) } else { (y, x) };
    let (a0, a1) = sort(p[0], p[1]);
    let (b0, b1) = sort(p[2], p[3]);
    let (sa, sb) = (Span::line_column(a0, a1), Span::line_column(b0, b1));
    if sa.start() != Location::from(a0) || sa.end() != Location::from(a1) || sa.start_end() != (Location::from(a0), Location::from(a1)) {
        return Err(format!("span of {a0} and {a1} is {sa}"));
    }
    let at = Span::at(Location::from(p[0]));
    if at.start() != Location::from(p[0]) || at.end() != Location::from(p[0]) {
        return Err(format!("Span::at({}) is {at}", p[0]));
    }
    let meet = key(a0) <= key(b1) && key(b0) <= key(a1);
    if sa.overlaps(sb) != meet || sb.overlaps(sa) != meet {
        return Err(format!("{sa} overlaps {sb}: {} and {}, expected {meet}", sa.overlaps(sb), sb.overlaps(sa)));
    }
    let la = LineColumnSpan { start: a0, end: a1 };
    for x in &p {
        let want = key(a0) <= key(*x) && key(*x) <= key(a1);
        if la.contains(*x) != want {
            return Err(format!("{sa} contains {x}: {}, expected {want}", la.contains(*x)));
        }
    }
    if Span::from(la).start_end() != sa.start_end() {
        return Err("LineColumnSpan conversion".into());
    }
    let (c0, c1) = (v[0].min(v[1]), v[0].max(v[1]));
    let (d0, d1) = (v[2].min(v[3]), v[2].max(v[3]));
    let (sc, sd) = (Span::from_character_span(c0, c1), Span::from_character_span(d0, d1));
    if sc.start() != Location::CharacterIndex(c0) || sc.end() != Location::CharacterIndex(c1) {
        return Err(format!("span of indices {c0} and {c1} is {sc}"));
    }
    let meet = c0 <= d1 && d0 <= c1;
    if sc.overlaps(sd) != meet {
        return Err(format!("{sc} overlaps {sd}: expected {meet}"));
    }
    #[cfg(codeparser_verif)]
    {
        for x in &p {
            if x.1.get() < u32::MAX {
                let n = hk::loc_next(Location::from(*x));
                if n != Location::from(lc(x.0.get(), x.1.get() + 1)) || hk::loc_previous(n) != Location::from(*x) {
                    return Err(format!("next position of {x} is {n}"));
                }
            }
        }
        if v[0] < u32::MAX {
            let n = hk::loc_next(Location::CharacterIndex(v[0]));
            if n != Location::CharacterIndex(v[0] + 1) || hk::loc_previous(n) != Location::CharacterIndex(v[0]) {
                return Err(format!("next index of {} is {n}", v[0]));
            }
        }
        let s = hk::span_new(Location::from(a0), Location::from(a1));
        if s.start() != Location::from(a0) || s.end() != Location::from(a1) {
            return Err(format!("Span::new({a0},{a1}) is {s}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15
fn c15(b: &[u8], c: &Cfg) -> R {
    let r = parse_bytes_cst_seq(b, &opts(c));
    for (n, l) in [("fatal", &r.fatal_issues), ("non-fatal", &r.non_fatal_issues)] {
        for (i, x) in l.iter().enumerate() {
            if l[..i].contains(x) {
                return Err(format!("{n} issue {} recorded twice", x.msg));
            }
            if (x.sev == issue::Severity::Fatal) != (n == "fatal") {
                return Err(format!("issue {} of severity {:?} is in the {n} list", x.msg, x.sev));
            }
        }
    }
    if r.fatal_issues.len() > 10 {
        return Err(format!("{} fatal issues", r.fatal_issues.len()));
    }
    #[cfg(codeparser_verif)]
    {
        // an arbitrary history of reports, from the bytes of the input and the issues just seen
        let pool: Vec<_> = r.fatal_issues.iter().chain(r.non_fatal_issues.iter()).cloned().collect();
        let mut mk = vec![];
        for (i, x) in b.iter().enumerate() {
            let mut is = match pool.get(*x as usize % (pool.len() + 3)) {
                Some(p) => p.clone(),
                None => match pool.first() {
                    Some(p) => p.clone(),
                    None => return Ok(()),
                },
            };
            if x % 3 == 0 {
                is.sev = issue::Severity::Fatal;
            }
            if x % 5 < 4 {
                is.msg = format!("m{}", x % 17);
            }
            if i % 7 == 0 {
                is.val = (x % 2) as f64;
            }
            mk.push(is);
        }
        let (f, n) = hk::add_issues(&mk, &opts(c));
        let mut wf: Vec<issue::Issue> = vec![];
        let mut wn: Vec<issue::Issue> = vec![];
        for i in &mk {
            if i.sev == issue::Severity::Fatal {
                if wf.len() < 10 && !wf.contains(i) {
                    wf.push(i.clone())
                }
            } else if !wn.contains(i) {
                wn.push(i.clone())
            }
        }
        if f != wf || n != wn {
            return Err(format!("{} reports gave {} fatal and {} other issues, expected {} and {}", mk.len(), f.len(), n.len(), wf.len(), wn.len()));
        }
    }
    Ok(())
}
fn c15_inv(b: &[u8], c: &Cfg) -> R {
    let on = Cfg { issues: true, ..c.clone() };
    let off = Cfg { issues: false, ..c.clone() };
    let (x, y) = (parse_bytes_cst_seq(b, &opts(&on)), parse_bytes_cst_seq(b, &opts(&off)));
    if x.syntax != y.syntax {
        return Err("the tree depends on issue checking".into());
    }
    if x.unsafe_character_encoding != y.unsafe_character_encoding {
        return Err("the encoding flag depends on issue checking".into());
    }
    if let (Some(p), Some(q)) = (lex(b, &on)?, lex(b, &off)?) {
        if p.len() != q.len() || p.iter().zip(&q).any(|(s, t)| s.kind != t.kind || s.text != t.text || s.src != t.src) {
            return Err("the tokens depend on issue checking".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16
fn c16(b: &[u8], c: &Cfg) -> R {
    let Ok(s) = std::str::from_utf8(b) else { return Ok(()) };
    if s.contains('\u{feff}') {
        return Ok(());
    }
    let out: String = iter::source_chars(s, &opts(c)).map(|c| c.to_string()).collect();
    if out != s {
        return Err(format!("source characters print as {}", show(out.as_bytes())));
    }
    Ok(())
}
/// Each Wolfram character prints as text that reads back as the same character.
fn c16_wl(b: &[u8], c: &Cfg) -> R {
    let Ok(s) = std::str::from_utf8(b) else { return Ok(()) };
    if s.contains('\u{feff}') {
        return Ok(());
    }
    let o = opts(c);
    for ch in iter::wolfram_chars(s, &o) {
        let t = ch.to_string();
        let mut it = iter::wolfram_chars(&t, &o);
        let back = it.next();
        // \[Raw...] characters print plain
        if format!("{ch:?}").contains("Raw") {
            continue;
        }
        if back != Some(ch) || it.next().is_some() {
            return Err(format!("{ch:?} prints as {t:?} which reads as {back:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17
fn is_agg_trivia(t: &T) -> bool {
    matches!(
        t.tok,
        TokenKind::Whitespace | TokenKind::Comment | TokenKind::InternalNewline | TokenKind::ToplevelNewline | TokenKind::Boxes_MultiWhitespace
    )
}
fn same_node(a: &C, g: &C) -> R {
    if std::mem::discriminant(a) != std::mem::discriminant(g) {
        return Err(format!("node kind changed at {}", a.get_source()));
    }
    if let (Cst::Token(x), Cst::Token(y)) = (a, g) {
        if x != y {
            return Err(format!("token {x:?} became {y:?}"));
        }
        return Ok(());
    }
    if op_name(a) != op_name(g) {
        return Err(format!("operator {} became {} at {}", op_name(a), op_name(g), a.get_source()));
    }
    if let (Cst::Call(x), Cst::Call(y)) = (a, g) {
        // the head is a sequence before and one node after
        let CallHead::Concrete(h) = &x.head else { return Err("call head".into()) };
        let CallHead::Aggregate(k) = &y.head else { return Err("aggregate call head".into()) };
        let kept: Vec<&C> = h.0.iter().filter(|n| !matches!(n, Cst::Token(t) if is_agg_trivia(t))).collect();
        if kept.len() != 1 {
            return Err(format!("call head with {} nodes", kept.len()));
        }
        same_node(kept[0], k)?;
    }
    same_seq(&children(a), &children(g))
}
fn same_seq(a: &[&C], g: &[&C]) -> R {
    let kept: Vec<&&C> = a.iter().filter(|n| !matches!(n, Cst::Token(t) if is_agg_trivia(t))).collect();
    if kept.len() != g.len() {
        return Err(format!("{} nodes that are not trivia became {}", kept.len(), g.len()));
    }
    for (x, y) in kept.iter().zip(g) {
        same_node(x, y)?;
    }
    Ok(())
}
fn c17(b: &[u8], c: &Cfg) -> R {
    let r = parse_bytes_cst_seq(b, &opts(c));
    let agg = abstract_cst::aggregate_cst_seq(r.syntax.clone());
    same_seq(&r.syntax.0.iter().collect::<Vec<_>>(), &agg.0.iter().collect::<Vec<_>>())
}
