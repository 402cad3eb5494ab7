#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &'a [&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
}

/// Fragments of Wolfram Language text (as bytes), covering every lexical class.
pub const LEX: &[&[u8]] = &[
    b"a", b"b", b"x1", b"$a", b"foo", b"`", b"a`b", b"`c", b"A", b"e", b"f", b"F", b"0", b"1", b"2", b"9",
    b"12", b"16", b"36", b"37", b".", b"..", b"^", b"^^", b"*^", b"*", b"`5", b"``5", b"-", b"+", b"--",
    b"++", b"=", b"==", b"===", b":", b"::", b":::", b":=", b":>", b"<", b"<<", b"<>", b"<=", b"<|", b"|>",
    b"->", b"<->", b">", b">>", b">>>", b">=", b"!", b"!!", b"!=", b"=!=", b"@", b"@@", b"@@@", b"@*",
    b"/", b"//", b"/@", b"//@", b"/.", b"//.", b"/;", b"/:", b"/*", b"/=", b"+=", b"-=", b"*=", b"//=",
    b"*(", b"&", b"&&", b"|", b"||", b"|->", b",", b";", b";;", b"?", b"??", b"~", b"~~", b"'", b"#",
    b"##", b"#1", b"%", b"%%", b"%1", b"_", b"__", b"___", b"_.", b"_a", b"a_", b"^=", b"^:=", b"=.",
    b"(", b")", b"[", b"]", b"[[", b"]]", b"{", b"}", b"(*", b"*)", b"\"", b"\\\"", b"\\\\", b"\"abc\"",
    b" ", b"\t", b"\n", b"\r", b"\r\n", b"\\\n", b"\\\r\n", b"\\\r", b"\\", b"\x0b", b"\x0c", b"\x00",
    b"\x07", b"\x1b", b"\x7f", b"\\[Alpha]", b"\\[Pi", b"\\[", b"\\[XYZ]", b"\\[RawTab]", b"\\[RawNewLine]",
    b"\\[RawDoubleQuote]", b"\\[RawBackslash]", b"\\[LeftAssociation]", b"\\[RightAssociation]",
    b"\\[Integral]", b"\\[DifferentialD]", b"\\[IndentingNewLine]", b"\\[LineSeparator]",
    b"\\[InvisibleSpace]", b"\\[Minus]", b"\\[Rule]", b"\\[RawLeftBracket]", b"\\[RawDot]", b"\\[Equal]",
    b"\\:", b"\\:0041", b"\\:03b1", b"\\:000a", b"\\:0022", b"\\:005c", b"\\:f", b"\\.", b"\\.41", b"\\.0d",
    b"\\.5c", b"\\.7", b"\\|", b"\\|000041", b"\\|01d4b2", b"\\|10ffff", b"\\|1100", b"\\041", b"\\101",
    b"\\12", b"\\8", b"\\b", b"\\f", b"\\n", b"\\r", b"\\t", b"\\<", b"\\>", b"\\!", b"\\%", b"\\&", b"\\(",
    b"\\)", b"\\*", b"\\+", b"\\/", b"\\@", b"\\^", b"\\_", b"\\`", b"\\ ", b"\\a", b"\\|00d800",
    b"\xc3\xa9", b"\xce\xb1", b"\xe2\x80\x8b", b"\xe2\x86\x92", b"\xef\x9f\x80", b"\xef\x9f\x89",
    b"\xf0\x9d\x92\xb2", b"\xe2\x80\xa8", b"\xe2\x80\xa9", b"\xef\xa3\x90", b"\xe3\x80\x80", b"\xc2\xa0",
    b"\xee\x80\x80", b"\xef\xb7\x90", b"#!", b"#!a\n",
];

/// Ill-formed or unusual byte fragments.
pub const BAD: &[&[u8]] = &[
    b"\x80", b"\xbf", b"\xc0", b"\xc1", b"\xc2", b"\xdf", b"\xe0", b"\xe0\x80", b"\xe0\xa0", b"\xe1", b"\xe1\x80",
    b"\xed", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xee\x80\x80", b"\xef\xbb\xbf", b"\xef\xbb",
    b"\xf0", b"\xf0\x80", b"\xf0\x90", b"\xf0\x90\x80", b"\xf0\x90\x80\x80", b"\xf4", b"\xf4\x8f", b"\xf4\x90",
    b"\xf4\x8f\xbf\xbf", b"\xf5", b"\xff", b"\xfe", b"\xef\xbf\xbf",
];

pub fn random_input(r: &mut Rng, bad: bool, max_frag: usize) -> Vec<u8> {
    let n = r.below(max_frag) + 1;
    let mut v = Vec::new();
    let mode = r.below(8);
    let sub: Vec<&[u8]> = if mode < 4 {
        // concentrate on a few fragments
        (0..(2 + r.below(6))).map(|_| LEX[r.below(LEX.len())]).collect()
    } else {
        LEX.to_vec()
    };
    for _ in 0..n {
        if bad && r.chance(1, 10) {
            v.extend_from_slice(BAD[r.below(BAD.len())]);
        } else if r.chance(1, 40) {
            v.push(r.below(if bad { 256 } else { 128 }) as u8);
        } else {
            v.extend_from_slice(sub[r.below(sub.len())]);
        }
    }
    v
}

/// Inputs found to matter once; always tried.
pub const REGRESSIONS: &[&[u8]] = &[
    b"", b"\\:d800", b"\\|00d800", b"\\|110000x", b"(\xff", b"[\xff\n", b"(a\n\n", b"\"a\n\n\n", b"\xc3\xa9\"", b"(\n\xef\xbb\xbf",
    b"\\[Alpha", b"\\[", b"\\\\[Alpha]", b"1\\\n2", b"a\\\n", b"a\\\n  ", b"(* (* *)", b"(**)", b"(*)*)", b"\"\\\"\"",
    b"16^^ff.8`20*^-3", b"1`-.", b"1``.", b"1.`+", b"37^^1", b"0^^1a", b"1..2", b"1*^", b"1*^-0", b"1*^-5", b"1.*^5.", b"1*^5..",
    b"{a\n,b}\nc", b"a+\nb", b"a\n+b", b"f[\n]\n", b"\\(x\\)", b"\\!\\(x", b"#a", b"#\"a\"", b"a::b", b"a::", b"<<a[b]", b"a>>b[ c", b"%%%1", b"##2", b"_.", b"a_b__c",
    b"[", b"]", b"(", b")", b"{", b"}", b"[[", b"]]", b"a[b", b"a[b}", b"(a]", b"<|a", b"|>", b"\\[LeftAssociation]a", b"a;;b;;c", b";;;;", b"a;;", b"a;", b"a;;;b",
    b"a//b", b"a~b~c", b"a~b", b"a/:b=c", b"a/:b:=c", b"a/:b=.", b"a:b:c", b"a=.", b"a=!b", b"-a", b"!!a", b"a!!", b"++a--", b"a'''", b"\\[Integral]a\\[DifferentialD]b",
    b"\r\n\r\n", b"\r\r\n\n", b"\t\tb\t", b"\xff\xfe", b"\xed\xa0\x80", b"\xef\xbb\xbfa", b"\xe2\x80\xa8",
];

fn over(alpha: &[&[u8]], max: usize, out: &mut Vec<Vec<u8>>) {
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for p in &layer {
            for a in alpha {
                let mut q = p.clone();
                q.extend_from_slice(a);
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
}

/// Small inputs enumerated completely for a property.
pub fn fixed(prop: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = REGRESSIONS.iter().map(|b| b.to_vec()).collect();
    match prop {
        "C01" => {
            over(&[b"a", b"\r", b"\n", b"\xc3\xa9", b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\xf0\x90\x80", b"\x80", b"\xe2\x82"], 4, &mut v);
        },
        "C02" => over(&[b"a", b"\r", b"\n", b"\t", b" ", b"\xc3\xa9", b"\xff", b"\\", b"\"", b"1"], 4, &mut v),
        "C04" => {
            over(&[b"\\", b"[", b"]", b":", b"0", b"d", b"A", b"\""], 5, &mut v);
            for (n, _, _) in &crate::refwl::names().0 {
                v.push(format!("\\[{n}]").into_bytes());
                v.push(format!("\\\\[{n}]").into_bytes());
                v.push(format!("\\[{n}").into_bytes());
                v.push(format!("\\[{n}x]").into_bytes());
            }
            for x in 0..0x300u32 {
                v.push(format!("\\:{x:04x}").into_bytes());
                v.push(format!("\\.{:02X}", x & 0xff).into_bytes());
                v.push(format!("\\{:03o}", x & 0x1ff).into_bytes());
                v.push(format!("\\|{x:06x}").into_bytes());
            }
            for x in [0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xffff, 0xfffe, 0x10000, 0x10ffff, 0x110000, 0xffffff] {
                v.push(format!("\\:{:04x}z", x & 0xffff).into_bytes());
                v.push(format!("\\|{x:06x}z").into_bytes());
            }
            for x in 0..128u8 {
                v.push(vec![b'\\', x]);
                v.push(vec![b'\\', x, b'\\', x]);
                v.push(vec![b'"', b'\\', x, b'"']);
            }
        },
        "C06" => {
            over(&[b"1", b"0", b".", b"`", b"^", b"*", b"-"], 6, &mut v);
            let mut w = vec![];
            over(&[b".", b"`", b"^", b"*", b"+", b"a", b"9"], 4, &mut w);
            for x in &w {
                for p in [&b"16^^"[..], b"2^^1", b"36^^Z", b"1*^", b"1`", b"1``", b"1.5`3"] {
                    let mut q = p.to_vec();
                    q.extend_from_slice(x);
                    v.push(q);
                }
            }
        },
        "C07" => {
            over(&[b"(*", b"*)", b"(", b"*", b")", b"\"", b"\\", b"\n"], 5, &mut v);
        },
        "C08" => over(&[b"\n", b"(", b")", b"[", b"]", b"a", b"+"], 5, &mut v),
        "C09" | "C10" | "C17" | "C05" | "C03" | "C15" => {
            over(&[b"a", b"+", b"(", b")", b"[", b"\n", b",", b";;", b"_"], 4, &mut v);
            let mut w = vec![];
            for x in LEX {
                for y in LEX {
                    let mut q = x.to_vec();
                    q.extend_from_slice(y);
                    w.push(q);
                }
            }
            v.extend(w);
            for (n, cat, cp) in &crate::refwl::names().0 {
                if cat == "LetterlikeCharacter" {
                    continue;
                }
                let l = format!("\\[{n}]");
                let c = char::from_u32(*cp).unwrap_or(' ');
                for t in [format!("a{l}b"), format!("{l}a"), format!("a{l}"), format!("f[a{l}b]"), format!("{{{l}\n}}"), format!("a {c} b"), format!("a\n{l}\nb{l}"), format!("(a{l}{l}b{c}{c})"), format!("{l}{l}"), format!("a+b{l}c*d{l}e")] {
                    v.push(t.into_bytes());
                }
            }
            for x in BAD {
                for y in LEX {
                    let mut q = y.to_vec();
                    q.extend_from_slice(x);
                    v.push(q.clone());
                    q.extend_from_slice(y);
                    v.push(q);
                }
            }
        },
        "C16" => {
            for x in 0..128u8 {
                v.push(vec![b'\\', x]);
            }
            for (n, _, _) in &crate::refwl::names().0 {
                v.push(format!("\\[{n}]").into_bytes());
            }
        },
        _ => {},
    }
    v
}

const TREE: &[&[u8]] = &[
    b"a", b"b", b"1", b"f[", b"(", b")", b"[", b"]", b"{", b"}", b"<|", b"|>", b",", b";", b"+", b"-", b"*", b" ", b"\n", b"=", b":=",
    b"->", b"_", b"__", b"_.", b"#", b"#1", b"%", b"::", b";;", b"&", b"//", b"@", b"/@", b"~", b"?", b":", b"/:", b"=.", b"'", b"!", b"\"s\"",
    b"(*c*)", b"\t", b"++", b"--", b"..", b".", b"^", b"||", b"&&", b"==", b"<", b">", b"!=", b"===", b"=!=", b"[[", b"]]", b"\\[Integral]", b"\\[DifferentialD]",
    b"\\(", b"\\)", b"\\!\\(", b"\\+", b"<<", b">>", b">>>", b"\"", b"(*", b"*)", b"\r\n", b"\\\n", b"\xc3\xa9",
];
const NUM: &[&[u8]] = &[b"0", b"1", b"7", b"9", b"16", b"36", b"00", b".", b"..", b"`", b"``", b"^^", b"^", b"*^", b"*", b"+", b"-", b"a", b"f", b"Z", b"z", b" "];
const ESC: &[&[u8]] = &[
    b"\\", b"[", b"]", b":", b".", b"|", b"0", b"1", b"7", b"8", b"a", b"F", b"d800", b"0041", b"0022", b"005c", b"5c", b"22", b"Alpha", b"RawTab", b"\n", b"\r", b"\r\n", b" ", b"\t",
    b"\"", b"<", b">", b"b", b"n", b"(", b")", b"\xc3\xa9", b"\xff", b"10ffff", b"110000", b"RawDoubleQuote", b"RawBackslash",
];
const STR: &[&[u8]] = &[b"\"", b"(*", b"*)", b"(", b"*", b")", b"\\", b"\\\"", b"\\\\", b"\n", b"\\\n", b"\r\n", b"a", b" ", b"\t", b"\\[RawDoubleQuote]", b"\\:0022", b"\\.22", b"\\\r\n  ", b"\xff", b"\xc3\xa9"];

/// `\[Name]` or the character itself, of any character that is not a letter.
fn long_name(r: &mut Rng, v: &mut Vec<u8>) {
    let n = &crate::refwl::names().0;
    for _ in 0..20 {
        let (n, cat, cp) = &n[r.below(n.len())];
        if cat == "LetterlikeCharacter" {
            continue;
        }
        match char::from_u32(*cp) {
            Some(c) if r.chance(1, 3) => v.extend_from_slice(c.to_string().as_bytes()),
            _ => v.extend_from_slice(format!("\\[{n}]").as_bytes()),
        }
        return;
    }
}
/// Strings of the given pieces.
fn of(r: &mut Rng, p: &[&[u8]], max: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(max) + 1 {
        v.extend_from_slice(p[r.below(p.len())]);
    }
    v
}
/// Bracket-balanced text with newlines.
fn balanced(r: &mut Rng, depth: usize, v: &mut Vec<u8>) {
    for _ in 0..r.below(4) + 1 {
        if depth > 0 && r.chance(1, 3) {
            let (o, c) = [(&b"f["[..], &b"]"[..]), (b"(", b")"), (b"{", b"}"), (b"<|", b"|>"), (b"[", b"]"), (b"[[", b"]]"), (b"a::[", b"]"), (b"\\[LeftCeiling]", b"\\[RightCeiling]"), (b"\\[LeftDoubleBracket]", b"\\[RightDoubleBracket]"), (b"\\[LeftAssociation]", b"\\[RightAssociation]")][r.below(10)];
            v.extend_from_slice(o);
            balanced(r, depth - 1, v);
            v.extend_from_slice(c);
        } else {
            v.extend_from_slice(TREE[r.below(TREE.len())]);
            if r.chance(1, 3) {
                v.extend_from_slice([&b"\n"[..], b"\r\n", b"\r", b" \n", b"\n\n"][r.below(5)]);
            }
        }
    }
}

pub fn input(prop: &str, r: &mut Rng) -> Vec<u8> {
    let g = r.below(10);
    match prop {
        "C01" => {
            if g < 4 {
                (0..r.below(8) + 1).map(|_| [r.below(256) as u8, (0x80 + r.below(128)) as u8, 0xe0 + r.below(32) as u8][r.below(3)]).collect()
            } else {
                random_input(r, true, 8)
            }
        },
        "C04" | "C16" if g < 6 => of(r, ESC, 8),
        "C06" if g < 8 => of(r, NUM, 9),
        "C07" if g < 7 => of(r, STR, 10),
        "C08" if g < 6 => {
            let mut v = vec![];
            balanced(r, 4, &mut v);
            v
        },
        "C09" | "C10" | "C17" | "C15" | "C05" if g < 3 => {
            let mut v = vec![];
            balanced(r, 4, &mut v);
            v
        },
        "C09" | "C10" | "C17" | "C15" | "C05" | "C08" if g < 5 => of(r, TREE, 12),
        "C09" | "C10" | "C17" | "C15" | "C05" | "C08" | "C03" | "C02" if g < 7 => {
            let mut v = vec![];
            let k = 2 + r.below(5);
            for _ in 0..r.below(8) + 1 {
                if r.below(k) == 0 {
                    long_name(r, &mut v);
                } else {
                    v.extend_from_slice(TREE[r.below(TREE.len())]);
                }
            }
            v
        },
        "C05" if g < 8 => of(r, NUM, 9),
        "C05" | "C02" | "C03" if g < 9 => of(r, ESC, 8),
        "C11" => (0..24).map(|_| r.below(256) as u8).collect(),
        "C12" => (0..32).map(|_| r.below(256) as u8).collect(),
        _ => {
            let n = if r.chance(1, 20) { 60 } else { 10 };
            random_input(r, true, n)
        },
    }
}
