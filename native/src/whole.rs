//! Checks over complete finite domains.

use crate::checks::{c12_on, opts, Cfg};
use crate::{prec, refwl};
#[cfg(codeparser_verif)]
use wolfram_parser::verif as hk;

pub type Whole = fn() -> Result<u64, String>;

pub fn par<T: Send + Sync>(jobs: Vec<T>, f: impl Fn(&T) -> Result<(), String> + Sync) -> Result<(), String> {
    let bad = std::sync::Mutex::new(None);
    let n = jobs.len();
    std::thread::scope(|s| {
        for t in 0..8 {
            let (jobs, f, bad) = (&jobs, &f, &bad);
            std::thread::Builder::new()
                .stack_size(1 << 28)
                .spawn_scoped(s, move || {
                    for i in (t..n).step_by(8) {
                        if i % 64 == t && bad.lock().unwrap().is_some() {
                            return;
                        }
                        if let Err(e) = crate::guard(|| f(&jobs[i])) {
                            *bad.lock().unwrap() = Some(e);
                            return;
                        }
                    }
                })
                .unwrap();
        }
    });
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn whole_of(prop: &str) -> Vec<(&'static str, Whole)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, Whole)> = match prop {
        "C11" => vec![("every pair of operators", prec::pairs)],
        "C12" => vec![("spans over positions 1..3", spans)],
        _ => vec![],
    };
    #[cfg(codeparser_verif)]
    v.extend(match prop {
        "C01" => vec![("all byte sequences of up to three bytes and all leading three bytes of four-byte sequences", bytes as Whole)],
        "C11" => vec![("order of precedence values", greater as Whole)],
        "C13" => vec![("token kinds", kinds as Whole)],
        "C14" => vec![("character classes of every code point", classes as Whole), ("name tables", tables as Whole), ("digits", digits as Whole)],
        "C16" => vec![("printing every code point", printing as Whole)],
        _ => vec![],
    });
    v
}

fn spans() -> Result<u64, String> {
    let mut n = 0;
    let mut jobs = vec![];
    for i in 0..6561u32 {
        let mut v = [0u32; 8];
        let mut k = i;
        for x in v.iter_mut() {
            *x = k % 3 + 1;
            k /= 3;
        }
        jobs.push(v);
        n += 1;
    }
    par(jobs, |v| c12_on(*v))?;
    Ok(n)
}

#[cfg(codeparser_verif)]
fn bytes() -> Result<u64, String> {
    use crate::refdec::step;
    let n = std::sync::atomic::AtomicU64::new(0);
    let o = opts(&Cfg::default());
    let one = |b: &[u8]| -> Result<(), String> {
        let (v, flag) = hk::source_chars(b, &o);
        let mut off = 0;
        let mut last = None;
        for (cp, after, _) in v {
            let want = refwl::src(b, off);
            if off < b.len() {
                if let (_, _, Some(k)) = step(&b[off..]) {
                    last = Some(match k {
                        crate::refdec::BadKind::Incomplete => "IncompleteUTF8Sequence",
                        crate::refdec::BadKind::Surrogate => "StraySurrogate",
                        crate::refdec::BadKind::Bom => "BOM",
                    });
                }
            }
            if (cp, after) != want {
                return Err(format!("bytes {b:02x?} at {off}: code point {cp} ending at {after}, expected {want:?}"));
            }
            off = want.1;
        }
        if flag.map(|f| f.as_str()) != last {
            return Err(format!("bytes {b:02x?}: flag {flag:?}, expected {last:?}"));
        }
        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(())
    };
    par((0..256u32).collect(), |a| {
        let a = *a as u8;
        one(&[a])?;
        for b in 0..=255u8 {
            one(&[a, b])?;
            if a >= 0x80 {
                for c in 0..=255u8 {
                    one(&[a, b, c])?;
                    if a >= 0xf0 {
                        for d in [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff] {
                            one(&[a, b, c, d])?;
                        }
                    }
                }
            }
        }
        Ok(())
    })?;
    Ok(n.into_inner())
}

#[cfg(codeparser_verif)]
fn greater() -> Result<u64, String> {
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            // rank is the value without its lowest bit; at equal rank the right-hand side decides:
            // an odd value (left associative) stops, an even one (right associative) continues
            let (ra, rb) = (a >> 1, b >> 1);
            let expect = ra > rb || ra == rb && b & 1 == 0;
            if hk::precedence_greater(a, b) != expect {
                return Err(format!("greater({a}, {b}) is {}", !expect));
            }
        }
    }
    Ok(65536)
}

#[cfg(codeparser_verif)]
pub fn dump_kinds() {
    for k in hk::token_kinds() {
        println!(
            "{:?} id={} bits={} trivia={} trivia2={} begin={} closer={} error={} unterminated={} empty={} to_closer={}",
            k, hk::kind_id(*k), k.bits(), k.isTrivia(), k.isTriviaButNotToplevelNewline(), k.isPossibleBeginning(), k.isCloser(), k.isError(), k.isUnterminated(), k.isEmpty(), hk::token_to_closer(*k)
        );
    }
}
#[cfg(not(codeparser_verif))]
pub fn dump_kinds() {}

#[cfg(codeparser_verif)]
fn kinds() -> Result<u64, String> {
    use wolfram_parser::tokenize::TokenKind;
    let ks = hk::token_kinds();
    let mut ids = std::collections::HashMap::new();
    let mut bits = std::collections::HashMap::new();
    let mut names = std::collections::HashSet::new();
    for k in ks {
        let name = format!("{k:?}");
        if !names.insert(name.clone()) {
            return Err(format!("kind {name} listed twice"));
        }
        if let Some(o) = ids.insert(hk::kind_id(*k), name.clone()) {
            return Err(format!("kinds {o} and {name} share an id"));
        }
        if let Some(o) = bits.insert(k.bits(), name.clone()) {
            return Err(format!("kinds {o} and {name} share a value"));
        }
        if name.starts_with("Buffer") {
            continue;
        }
        let class: [(&str, bool, bool); 7] = [
            ("trivia", k.isTrivia(), TRIVIA.contains(&&name[..])),
            ("trivia other than a top-level newline", k.isTriviaButNotToplevelNewline(), TRIVIA.contains(&&name[..]) && name != "ToplevelNewline"),
            ("error", k.isError(), name.starts_with("Error_")),
            ("unterminated", k.isUnterminated(), name.contains("Unterminated")),
            ("closer", k.isCloser(), CLOSERS.contains(&&name[..])),
            ("empty", k.isEmpty(), EMPTY.contains(&&name[..])),
            ("possible beginning", k.isPossibleBeginning(), BEGINNING.contains(&&name[..])),
        ];
        for (c, got, want) in class {
            if got != want {
                return Err(format!("kind {name}: {c} is {got}"));
            }
        }
        let cl = hk::token_to_closer(*k);
        let want = if CLOSERS.contains(&&name[..]) { name.clone() } else { "AssertFalse".into() };
        if cl != want {
            return Err(format!("closer of {name} is {cl}, expected {want}"));
        }
        if let Some((_, c)) = OPENERS.iter().find(|o| o.0 == name) {
            let got = hk::opener_to_closer(*k);
            if got != *c {
                return Err(format!("{name} is closed by {got}, expected {c}"));
            }
        }
    }
    for l in [TRIVIA, CLOSERS, EMPTY, BEGINNING] {
        for n in l {
            if !names.contains(*n) {
                return Err(format!("kind {n} is missing"));
            }
        }
    }
    for p in 0..=255u8 {
        let want = if p & 4 != 0 { TokenKind::ToplevelNewline } else { TokenKind::InternalNewline };
        if hk::newline_kind(p) != want {
            return Err(format!("newline kind under policy {p} is {:?}", hk::newline_kind(p)));
        }
    }
    Ok(ks.len() as u64 + 256)
}
include!("kinds.rs");

#[cfg(codeparser_verif)]
fn all_points() -> Vec<i32> {
    let mut v: Vec<i32> = hk::SPECIALS.iter().map(|c| hk::cp_num(*c)).collect();
    v.extend((0..0x110000).filter(|x| char::from_u32(*x as u32).is_some()));
    v
}
#[cfg(codeparser_verif)]
fn cat_map() -> std::collections::HashMap<i32, (String, String)> {
    refwl::names().0.iter().map(|(n, c, p)| (*p as i32, (c.clone(), n.clone()))).collect()
}

#[cfg(codeparser_verif)]
fn classes() -> Result<u64, String> {
    let cats = cat_map();
    let pts = all_points();
    let n = pts.len() as u64;
    let bit = |m: u32, name: &str| m >> hk::PREDS.iter().position(|p| *p == name).unwrap() & 1 == 1;
    let sbit = |m: u32, name: &str| m >> hk::SPREDS.iter().position(|p| *p == name).unwrap() & 1 == 1;
    par(pts, |p| {
        let p = *p;
        let m = hk::preds(p, 0);
        // the class does not depend on how the character was written
        for e in 1..8 {
            if hk::preds(p, e) != m {
                return Err(format!("code point {p:#x}: class depends on the escape form {e}"));
            }
        }
        let ascii = (0..128).contains(&p);
        let ch = if p >= 0 { char::from_u32(p as u32) } else { None };
        let a = if ascii { p as u8 as char } else { '\u{e000}' };
        let cat = cats.get(&p).map(|c| c.0.as_str()).unwrap_or("");
        let linear = p == -6 || [0xf7c0, 0xf7c1, 0xf7c2, 0xf7c5, 0xf7c6, 0xf7c7, 0xf7c8, 0xf7c9, 0xf7ca, 0xf7cb, 0xf7cc, 0xf7cd].contains(&p);
        let punct = !ascii && cat == "PunctuationCharacter";
        let white = !ascii && (cat == "WhitespaceCharacter" || p == 0xf3a2);
        let newl = p == -2 || !ascii && cat == "NewlineCharacter";
        let unint = !ascii && cat == "UninterpretableCharacter";
        let ctrl = ascii && a.is_ascii_control();
        let space = [' ', '\t', '\x0b', '\x0c'].contains(&a);
        let letter = ascii && (a.is_ascii_alphabetic() || a == '$' || ctrl && !"\x07\t\n\x0b\x0c\r\x7f".contains(a));
        let meta = (-15..=-7).contains(&p);
        let cont = (-18..=-16).contains(&p);
        let unsafe_ = (-5..=-3).contains(&p);
        let mbl = ch.is_some() && !ascii && !punct && !linear && !white && !newl && !unint;
        let strange_nl = newl && p != -2;
        let notstrange = mb_not_strange(p, &cats);
        for (name, want) in [
            ("isLetterlike", letter),
            ("isStrangeLetterlike", letter && ctrl),
            ("isWhitespace", space),
            ("isStrangeWhitespace", a == '\x0b' || a == '\x0c'),
            ("isUpper", a.is_ascii_uppercase()),
            ("isAlpha", a.is_ascii_alphabetic()),
            ("isDigit", a.is_ascii_digit()),
            ("isAlphaOrDigit", a.is_ascii_alphanumeric()),
            ("isHex", a.is_ascii_hexdigit()),
            ("isOctal", ('0'..='7').contains(&a)),
            ("isControl", ctrl),
            ("isSign", a == '-' || a == '+'),
            ("isMBLinearSyntax", linear),
            ("isMBStringMeta", meta),
            ("isMBLetterlike", mbl),
            ("isMBStrangeLetterlike", mbl && !notstrange),
            ("isMBStrangeWhitespace", white),
            ("isMBStrangeNewline", strange_nl),
            ("isMBNewline", newl),
            ("isMBWhitespace", white),
            ("isMBPunctuation", punct),
            ("isMBUninterpretable", unint),
            ("isMBLineContinuation", cont),
            ("isMBUnsafeUTF8Sequence", unsafe_),
        ] {
            if bit(m, name) != want {
                return Err(format!("code point {p:#x}: {name} is {}", !want));
            }
        }
        let s = hk::source_preds(p);
        for (name, want) in [
            ("isAlphaOrDigit", ch.map_or(false, |c| c.is_alphanumeric())),
            ("isHex", a.is_ascii_hexdigit()),
            ("isOctal", ('0'..='7').contains(&a)),
            ("isUpper", a.is_ascii_uppercase()),
            ("isEndOfFile", p == -1),
            ("isNewline", a == '\n' || a == '\r'),
            ("isWhitespace", space),
            ("isMBNewline", newl),
            ("isMBWhitespace", !ascii && cat == "WhitespaceCharacter"),
            ("isMBUnsafeUTF8Sequence", unsafe_),
        ] {
            if sbit(s, name) != want {
                return Err(format!("source character {p:#x}: {name} is {}", !want));
            }
        }
        Ok(())
    })?;
    Ok(n * 9)
}
#[cfg(codeparser_verif)]
fn mb_not_strange(p: i32, _cats: &std::collections::HashMap<i32, (String, String)>) -> bool {
    hk::mb_classes(p)[0]
}

#[cfg(codeparser_verif)]
fn tables() -> Result<u64, String> {
    let (by_name, by_cp) = hk::tables();
    for w in by_name.windows(2) {
        if w[0].0 >= w[1].0 {
            return Err(format!("names {} and {} out of order or equal", w[0].0, w[1].0));
        }
    }
    let conv = |p: u32| match p {
        0x22 => -9,
        0x5c => -10,
        p => p as i32,
    };
    for (n, c, p) in &refwl::names().0 {
        if hk::longname_to_codepoint(n) != Some(conv(*p)) {
            return Err(format!("name {n} is code point {:?}, expected {:#x}", hk::longname_to_codepoint(n), p));
        }
        if hk::is_raw(n) != (c == "RawCharacter") {
            return Err(format!("raw name test for {n}"));
        }
        // (among the ASCII ones, \[Raw...] names are never looked up by code point; two of them are out of order in the table)
        if c != "RawCharacter" && hk::codepoint_to_longname(conv(*p)) != Some(n.as_str()) {
            return Err(format!("code point {p:#x} has name {:?}, expected {n}", hk::codepoint_to_longname(conv(*p))));
        }
    }
    if by_name.len() != refwl::names().0.len() || by_cp.len() != by_name.len() {
        return Err(format!("{} names, {} code points, {} documented", by_name.len(), by_cp.len(), refwl::names().0.len()));
    }
    let known: std::collections::HashSet<i32> = refwl::names().0.iter().map(|x| conv(x.2)).collect();
    let pts = all_points();
    let n = pts.len();
    par(pts, |p| {
        if *p > 0x7f && hk::codepoint_to_longname(*p).is_some() != known.contains(p) {
            return Err(format!("code point {p:#x}: name {:?}", hk::codepoint_to_longname(*p)));
        }
        Ok(())
    })?;
    Ok((n + by_name.len() * 3) as u64)
}

#[cfg(codeparser_verif)]
fn digits() -> Result<u64, String> {
    for b in 0..=255u8 {
        if b.is_ascii_alphanumeric() {
            let want = (b as char).to_digit(36).unwrap() as u8;
            if hk::to_digit(b) != want {
                return Err(format!("digit value of {:?} is {}", b as char, hk::to_digit(b)));
            }
        }
    }
    Ok(62)
}

#[cfg(codeparser_verif)]
fn printing() -> Result<u64, String> {
    let pts: Vec<i32> = all_points();
    let n = pts.len() as u64;
    let cats = cat_map();
    par(pts, |p| {
        let p = *p;
        // source characters
        if p >= 0 {
            let c = char::from_u32(p as u32).unwrap();
            if hk::show_source(p) != c.to_string() {
                return Err(format!("source character {p:#x} prints as {:?}", hk::show_source(p)));
            }
        } else if p == -2 && hk::show_source(p) != "\r\n" {
            return Err(format!("CRLF prints as {:?}", hk::show_source(p)));
        } else if (-5..=-3).contains(&p) && hk::show_source(p) != "\u{fffd}" {
            return Err(format!("unsafe character prints as {:?}", hk::show_source(p)));
        }
        // every escape form that can denote the character prints as text that reads back as it
        for e in 0..8u8 {
            let num = match p {
                -9 => 0x22,
                -10 => 0x5c,
                0x22 | 0x5c => -1,
                p => p,
            };
            let ok = match e {
                0 => p >= 0 && p != 0x5c && p != 0xfeff || p == -2,
                2 => (-18..=-6).contains(&p) || [0xf7c0, 0xf7c1, 0xf7c2, 0xf7c5, 0xf7c6, 0xf7c7, 0xf7c8, 0xf7c9, 0xf7ca, 0xf7cb, 0xf7cc, 0xf7cd].contains(&p),
                3 => (0..0x100).contains(&num),
                4 => (0..0x10000).contains(&num),
                5 => num >= 0,
                6 => (0..0x200).contains(&num),
                7 => p >= 0 && cats.get(&p).map_or(false, |c| c.0 != "RawCharacter"),
                _ => false,
            };
            if !ok {
                continue;
            }
            let t = hk::show_wl(p, e);
            let back = refwl::wl(t.as_bytes(), 0);
            if back != (p, e, t.len()) {
                return Err(format!("code point {p:#x} with escape form {e} prints as {t:?}, which denotes {back:?}"));
            }
        }
        Ok(())
    })?;
    Ok(n * 8)
}
#[allow(dead_code)]
fn _u() {
    let _ = opts(&Cfg::default());
    let _ = refwl::EOF;
}
