//! Independent reference for number, string and comment tokens.

use crate::refdec::{step, RChar};
use crate::refwl::wl;

/// Longest number literal at the start of `b` (a digit, or a dot and a digit).
/// Returns (length, kind).
pub fn number(b: &[u8]) -> (usize, &'static str) {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let dig = |i: usize| at(i).is_ascii_digit();
    let run = |mut i: usize| {
        while b.get(i).map_or(false, |c| c.is_ascii_digit()) {
            i += 1
        }
        i
    };
    let mut bad = false; // invalid base or digit
    let mut real = false;
    let mut radix = 0u32;
    // a run of digits of the current base; letters belong to it once a base was given
    let arun = |mut i: usize, radix: u32, bad: &mut bool| {
        loop {
            let c = at(i);
            if i >= b.len() || !c.is_ascii_alphanumeric() {
                return i;
            }
            if radix == 0 {
                if !c.is_ascii_digit() {
                    return i;
                }
            } else if (c as char).to_digit(36).unwrap() >= radix {
                *bad = true;
            }
            i += 1;
        }
    };
    let kind = |bad: bool, real: bool, neg: bool| {
        if bad {
            "Error_Number"
        } else if real {
            "Real"
        } else if neg {
            "Rational"
        } else {
            "Integer"
        }
    };
    let mut p = run(0);
    let mut has_int = p > 0;
    if p > 0 && at(p) == b'^' && at(p + 1) == b'^' {
        let d: &[u8] = {
            let z = b[..p].iter().take_while(|c| **c == b'0').count();
            &b[z..p]
        };
        if d.is_empty() || d.len() > 2 {
            bad = true;
            radix = 0;
        } else {
            radix = std::str::from_utf8(d).unwrap().parse().unwrap();
            bad = !(2..=36).contains(&radix);
        }
        p += 2;
        if at(p).is_ascii_alphanumeric() {
            let e = arun(p, radix, &mut bad);
            has_int = e > p;
            p = e;
        } else {
            has_int = false;
            if at(p) != b'.' {
                return (p, "Error_Number");
            }
        }
    }
    if at(p) == b'.' {
        if at(p + 1) == b'.' {
            return (p, if has_int { kind(bad, real, false) } else { "Error_Number" });
        }
        let e = arun(p + 1, radix, &mut bad);
        if e == p + 1 && !has_int {
            return (e, "Error_Number");
        }
        real = true;
        p = e;
    }
    if at(p) == b'`' {
        real = true;
        p += 1;
        let acc = at(p) == b'`';
        if acc {
            p += 1
        }
        let mut sign_at = None;
        if at(p) == b'-' || at(p) == b'+' {
            if !(dig(p + 1) || at(p + 1) == b'.') {
                return if acc { (p + 1, "Error_Number") } else { (p, kind(bad, real, false)) };
            }
            sign_at = Some(p);
            p += 1;
        }
        let e = run(p);
        let mut some = e > p;
        p = e;
        if at(p) == b'.' {
            if sign_at.is_none() && !some && !dig(p + 1) {
                // a dot that does not start a precision
                if acc {
                    return (p + 1, "Error_Number");
                }
                if at(p + 1) == b'-' || at(p + 1) == b'+' {
                    return (p + 2, "Error_Number");
                }
                return (p, kind(bad, real, false));
            }
            if at(p + 1) == b'.' {
                if some {
                    return (p, kind(bad, real, false));
                }
                return (sign_at.unwrap(), kind(bad, real, false));
            }
            let e = run(p + 1);
            some |= e > p + 1;
            p = e;
            if !some {
                return (p, "Error_Number");
            }
        }
        if acc && !some {
            return (p, "Error_Number");
        }
    }
    if at(p) == b'*' && at(p + 1) == b'^' {
        p += 2;
        let mut neg = false;
        if at(p) == b'-' || at(p) == b'+' {
            neg = at(p) == b'-';
            p += 1;
        }
        if !dig(p) {
            return (p, "Error_Number");
        }
        let e = run(p);
        let nonzero = b[p..e].iter().any(|c| *c != b'0');
        p = e;
        if at(p) == b'.' {
            if at(p + 1) == b'.' {
                return (p, kind(bad, real, neg && nonzero));
            }
            let e = arun(p + 1, radix, &mut bad);
            return (e, "Error_Number");
        }
        return (p, kind(bad, real, neg && nonzero));
    }
    (p, kind(bad, real, false))
}

/// String starting at the double quote at `o`: (end, terminated).
pub fn string(b: &[u8], o: usize) -> (usize, bool) {
    let mut p = o + 1;
    loop {
        if p >= b.len() {
            return (b.len(), false);
        }
        let (c, e, n) = wl(b, p);
        if c == '"' as i32 && e == 0 {
            return (n, true);
        }
        p = n;
    }
}

/// Comment starting at `(*` at `o`: (end, terminated).
pub fn comment(b: &[u8], o: usize) -> (usize, bool) {
    let mut p = o + 2;
    let mut depth = 1;
    while p < b.len() {
        let rest = &b[p..];
        if rest.starts_with(b"(*") {
            depth += 1;
            p += 2;
        } else if rest.starts_with(b"*)") {
            depth -= 1;
            p += 2;
            if depth == 0 {
                return (p, true);
            }
        } else {
            let (c, n, _) = step(rest);
            let _: RChar = c;
            p += n;
        }
    }
    (b.len(), false)
}
