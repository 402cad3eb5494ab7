//! Independent executable reference for the reading layer, written from the
//! Unicode standard (Table 3-7) and from the documented position rules.
//! Nothing here calls the code under test.

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RChar {
    Ch(char),
    CrLf,
    /// Ill-formed sequence (or BOM / surrogate encoding) of n bytes.
    Bad(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BadKind {
    Incomplete,
    Surrogate,
    Bom,
}

/// Decode one source character at the start of `b` (non-empty).
pub fn step(b: &[u8]) -> (RChar, usize, Option<BadKind>) {
    let c = b[0];
    let at = |i: usize| -> Option<u8> { b.get(i).copied() };
    if c == b'\r' {
        if at(1) == Some(b'\n') {
            return (RChar::CrLf, 2, None);
        }
        return (RChar::Ch('\r'), 1, None);
    }
    if c < 0x80 {
        return (RChar::Ch(c as char), 1, None);
    }
    // (low, high) of the second byte, number of continuation bytes
    let (lo, hi, n) = match c {
        0xC2..=0xDF => (0x80, 0xBF, 1),
        0xE0 => (0xA0, 0xBF, 2),
        0xE1..=0xEF => (0x80, 0xBF, 2),
        0xF0 => (0x90, 0xBF, 3),
        0xF1..=0xF3 => (0x80, 0xBF, 3),
        0xF4 => (0x80, 0x8F, 3),
        _ => return (RChar::Bad(1), 1, Some(BadKind::Incomplete)),
    };
    let mut got = 1;
    for i in 1..=n {
        let (l, h) = if i == 1 { (lo, hi) } else { (0x80, 0xBF) };
        match at(i) {
            Some(x) if x >= l && x <= h => got += 1,
            _ => return (RChar::Bad(got), got, Some(BadKind::Incomplete)),
        }
    }
    let mut v: u32 = match n {
        1 => (c & 0x1f) as u32,
        2 => (c & 0x0f) as u32,
        _ => (c & 0x07) as u32,
    };
    for i in 1..=n {
        v = (v << 6) | (b[i] & 0x3f) as u32;
    }
    if v == 0xFEFF {
        return (RChar::Bad(3), 3, Some(BadKind::Bom));
    }
    match char::from_u32(v) {
        Some(ch) => (RChar::Ch(ch), n + 1, None),
        None => (RChar::Bad(3), 3, Some(BadKind::Surrogate)),
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Conv {
    LineCol,
    CharIdx,
}

/// Positions at every byte offset that is a source-character boundary.
/// (line, col) for LineCol ; (0, index) for CharIdx.
pub fn positions(b: &[u8], conv: Conv, tab: u32) -> Vec<Option<(u32, u32)>> {
    let mut out = vec![None; b.len() + 1];
    let mut o = 0;
    let mut p: (u32, u32) = match conv {
        Conv::LineCol => (1, 1),
        Conv::CharIdx => (0, 1),
    };
    loop {
        out[o] = Some(p);
        if o == b.len() {
            break;
        }
        let (c, n, _) = step(&b[o..]);
        o += n;
        p = match conv {
            Conv::LineCol => match c {
                RChar::CrLf | RChar::Ch('\n') | RChar::Ch('\r') => {
                    (p.0 + 1, 1)
                },
                RChar::Ch('\t') => {
                    // next tab stop: the smallest 1 + k*tab that is > col
                    let mut k = 1;
                    while k <= p.1 {
                        k += tab;
                    }
                    (p.0, k)
                },
                _ => (p.0, p.1 + 1),
            },
            Conv::CharIdx => match c {
                RChar::CrLf => (0, p.1 + 2),
                _ => (0, p.1 + 1),
            },
        };
    }
    out
}
