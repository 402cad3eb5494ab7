//! Independent reference for Wolfram characters (escapes), written from the
//! documentation of character escapes and the data file LongNames.wl.

use crate::refdec::{step, RChar};
use std::collections::HashMap;
use std::sync::OnceLock;

pub const EOF: i32 = -1;
pub const CRLF: i32 = -2;

/// name -> (category, code point), in file order
pub fn names() -> &'static (Vec<(String, String, u32)>, HashMap<String, usize>) {
    static N: OnceLock<(Vec<(String, String, u32)>, HashMap<String, usize>)> = OnceLock::new();
    N.get_or_init(|| {
        let txt = std::fs::read_to_string("/repo/CodeParser/Data/LongNames.wl").expect("LongNames.wl");
        let mut v: Vec<(String, String, u32)> = vec![];
        let mut m = HashMap::new();
        // entries may be wrapped over lines: "Name" -> {Category, 16^^hhhh, ...
        let b: Vec<char> = txt.chars().filter(|c| !c.is_whitespace()).collect();
        let s: String = b.into_iter().collect();
        let mut at = 0;
        while let Some(p) = s[at..].find("\"->{") {
            let q = at + p;
            let start = s[..q].rfind('"').unwrap() + 1;
            let name = &s[start..q];
            let rest = &s[q + 4..];
            at = q + 4;
            let Some(comma) = rest.find(',') else { continue };
            let cat = &rest[..comma];
            if !cat.ends_with("Character") || !cat.chars().all(|c| c.is_ascii_alphabetic()) {
                continue;
            }
            let r2 = &rest[comma + 1..];
            if !r2.starts_with("16^^") {
                continue;
            }
            let hex: String = r2[4..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
            let cp = u32::from_str_radix(&hex, 16).unwrap();
            m.insert(name.to_string(), v.len());
            v.push((name.to_string(), cat.to_string(), cp));
        }
        assert!(v.len() > 1000, "LongNames.wl not understood");
        (v, m)
    })
}

pub fn src(b: &[u8], o: usize) -> (i32, usize) {
    if o >= b.len() {
        return (EOF, o);
    }
    let (c, n, _) = step(&b[o..]);
    let k = match c {
        RChar::Ch(c) => c as i32,
        RChar::CrLf => CRLF,
        RChar::Bad(n) => -2 - n as i32,
    };
    (k, o + n)
}

fn digits(b: &[u8], o: usize, n: usize, radix: u32) -> Option<u32> {
    let mut v = 0;
    for i in 0..n {
        let c = *b.get(o + i)?;
        v = v * radix + (c as char).to_digit(radix)?;
    }
    Some(v)
}

/// (code point, escape, offset after) of the Wolfram character at `o`.
pub fn wl(b: &[u8], o: usize) -> (i32, u8, usize) {
    let (c, n) = src(b, o);
    if c != '\\' as i32 {
        return (c, 0, n);
    }
    let lit = ('\\' as i32, 0, n);
    let (d, m) = src(b, n);
    let num = |len: usize, radix: u32, from: usize, esc: u8| match digits(b, from, len, radix) {
        None => lit,
        Some(0x22) => (-9, esc, from + len),
        Some(0x5c) => (-10, esc, from + len),
        Some(v) => match char::from_u32(v) {
            Some(c) => (c as i32, esc, from + len),
            None => lit,
        },
    };
    match d {
        -2 => return (-18, 2, m),
        EOF => return lit,
        x if x < 0 => return lit,
        _ => {},
    }
    match char::from_u32(d as u32).unwrap() {
        '\n' => (-16, 2, m),
        '\r' => (-17, 2, m),
        '<' => (-7, 2, m),
        '>' => (-8, 2, m),
        '"' => (-9, 2, m),
        '\\' => (-10, 2, m),
        'b' => (-11, 2, m),
        'f' => (-12, 2, m),
        'n' => (-13, 2, m),
        'r' => (-14, 2, m),
        't' => (-15, 2, m),
        ' ' => (-6, 2, m),
        ')' => (0xf7c0, 2, m),
        '!' => (0xf7c1, 2, m),
        '@' => (0xf7c2, 2, m),
        '%' => (0xf7c5, 2, m),
        '^' => (0xf7c6, 2, m),
        '&' => (0xf7c7, 2, m),
        '*' => (0xf7c8, 2, m),
        '(' => (0xf7c9, 2, m),
        '_' => (0xf7ca, 2, m),
        '+' => (0xf7cb, 2, m),
        '/' => (0xf7cc, 2, m),
        '`' => (0xf7cd, 2, m),
        '.' => num(2, 16, m, 3),
        ':' => num(4, 16, m, 4),
        '|' => num(6, 16, m, 5),
        '0'..='7' => num(3, 8, n, 6),
        '[' => {
            let len = b[m..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
            if b.get(m + len) != Some(&b']') {
                return lit;
            }
            let name = std::str::from_utf8(&b[m..m + len]).unwrap();
            let (v, idx) = names();
            match idx.get(name) {
                None => lit,
                Some(&i) => {
                    let (_, cat, cp) = &v[i];
                    let cp = match cp {
                        0x22 => -9,
                        0x5c => -10,
                        c => *c as i32,
                    };
                    (cp, if cat == "RawCharacter" { 1 } else { 7 }, m + len + 1)
                },
            }
        },
        _ => lit,
    }
}
