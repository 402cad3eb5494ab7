// GENERATED FILE: prelude (specifications) + code extracted from /repo by vx.
#![allow(unused_imports, non_snake_case, non_camel_case_types, dead_code, unused_variables, unused_mut, unused_assignments, unreachable_code, unused_parens, non_upper_case_globals, unreachable_patterns, unused_must_use, unused_braces)]
use vstd::prelude::*;
use vstd::slice::*;
use CodePoint::*;
use core::cmp::Ordering;

verus! {


// ---------------------------------------------------------------- runtime checks
/// assert!/debug_assert!: the condition must hold on every path
pub fn rt_assert(b: bool) -> (res: ())
    requires b,
    ensures b,
{}
pub fn none_of<'a, T>(v: &'a Vec<T>) -> (res: Option<&'a T>) ensures res is None { None }

/// panic!/unreachable!/todo!/unimplemented!: must not be reachable
#[verifier::external_body]
pub fn unreached<T>() -> (res: T)
    requires false,
{ unimplemented!() }

// ---------------------------------------------------------------- opaque text
#[verifier::external_body]
pub fn opaque_string() -> (res: String) { unimplemented!() }
#[verifier::external_body]
pub fn opaque_string1<A>(a: &A) -> (res: String) { unimplemented!() }
#[verifier::external_body]
pub fn opaque_string2<A, B>(a: &A, b: &B) -> (res: String) { unimplemented!() }
#[verifier::external_body]
pub fn opaque_string3<A, B, C>(a: &A, b: &B, c: &C) -> (res: String) { unimplemented!() }
/// one arbitrary element of a collection the code iterates over, or its end
#[verifier::external_body]
pub fn any_item<T>(v: &Vec<T>) -> (res: Option<T>) { unimplemented!() }

pub fn vec_of1<T>(a: T) -> (res: Vec<T>) ensures res@ == seq![a] { let mut v = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }
pub fn vec_of2<T>(a: T, b: T) -> (res: Vec<T>) ensures res@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); proof { assert(v@ =~= seq![a, b]); } v }
pub fn vec_of3<T>(a: T, b: T, c: T) -> (res: Vec<T>) ensures res@ == seq![a, b, c] { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); proof { assert(v@ =~= seq![a, b, c]); } v }

/// index into a 128-entry handler table
pub fn table_index(i: usize) -> (res: u8)
    requires i < 128,
    ensures res == i,
{ i as u8 }

// ---------------------------------------------------------------- std pieces
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct NonZeroU32(pub u32);
impl NonZeroU32 {
    pub const MIN: NonZeroU32 = NonZeroU32(1);
    pub fn get(self) -> (res: u32) ensures res == self.0 { self.0 }
    pub fn new(v: u32) -> (res: Option<NonZeroU32>)
        ensures res == (if v == 0 { None::<NonZeroU32> } else { Some(NonZeroU32(v)) }),
    { if v == 0 { None } else { Some(NonZeroU32(v)) } }
    pub fn checked_add(self, n: u32) -> (res: Option<NonZeroU32>)
        ensures res == (if self.0 + n > u32::MAX { None::<NonZeroU32> } else { Some(NonZeroU32((self.0 + n) as u32)) }),
    { match self.0.checked_add(n) { Some(v) => Some(NonZeroU32(v)), None => None } }
    pub fn saturating_add(self, n: u32) -> (res: NonZeroU32)
        ensures res.0 as int == (if self.0 + n > u32::MAX { u32::MAX as int } else { self.0 + n }),
    { match self.0.checked_add(n) { Some(v) => NonZeroU32(v), None => NonZeroU32(u32::MAX) } }
}

pub assume_specification[char::from_u32](v: u32) -> (res: Option<char>)
    ensures
        res is Some <==> scalar(v as int),
        res is Some ==> res->0 as u32 == v;

pub assume_specification[String::len](s: &String) -> (res: usize);
pub uninterp spec fn uni_alnum(c: char) -> bool;
pub uninterp spec fn uni_alpha(c: char) -> bool;
pub assume_specification[char::is_alphanumeric](c: char) -> (res: bool)
    ensures res == uni_alnum(c),
        (c as u32) < 128 ==> res == ascii_alnum(c);
pub assume_specification[char::is_digit](c: char, radix: u32) -> (res: bool)
    requires 2 <= radix <= 36,
    ensures radix == 16 ==> res == is_hex_char(c), radix == 10 ==> res == ('0' <= c && c <= '9'), radix == 8 ==> res == ('0' <= c && c <= '7');
pub assume_specification[char::is_control](c: char) -> (res: bool)
    ensures (c as u32) < 128 ==> res == ((c as u32) < 32 || c as u32 == 127);
pub assume_specification[char::is_ascii](c: &char) -> (res: bool)
    ensures res == ((*c as u32) < 128);
pub assume_specification[i32::is_negative](v: i32) -> (res: bool) ensures res == (v < 0);
pub assume_specification[char::is_ascii_uppercase](c: &char) -> (res: bool)
    ensures res == ('A' <= *c && *c <= 'Z');
pub fn u32_from_be_bytes(b: [u8; 4]) -> (res: u32)
    ensures res == b[0] * 0x1000000 + b[1] * 0x10000 + b[2] * 0x100 + b[3],
{ (b[0] as u32) * 0x1000000 + (b[1] as u32) * 0x10000 + (b[2] as u32) * 0x100 + (b[3] as u32) }

pub open spec fn ascii_alnum(c: char) -> bool {
    ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
}
pub open spec fn is_hex_char(c: char) -> bool {
    ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')
}
pub open spec fn is_octal_char(c: char) -> bool { '0' <= c && c <= '7' }
pub open spec fn scalar(v: int) -> bool { 0 <= v <= 0xd7ff || 0xe000 <= v <= 0x10ffff }

// ---------------------------------------------------------------- T::try_from(n)
pub trait Num: Sized { spec fn val(&self) -> int; fn wide(self) -> (res: i128) ensures res == self.val(); }
impl Num for u8 { open spec fn val(&self) -> int { *self as int } fn wide(self) -> (res: i128) { self as i128 } }
impl Num for u16 { open spec fn val(&self) -> int { *self as int } fn wide(self) -> (res: i128) { self as i128 } }
impl Num for u32 { open spec fn val(&self) -> int { *self as int } fn wide(self) -> (res: i128) { self as i128 } }
impl Num for i32 { open spec fn val(&self) -> int { *self as int } fn wide(self) -> (res: i128) { self as i128 } }
impl Num for usize { open spec fn val(&self) -> int { *self as int } fn wide(self) -> (res: i128) { self as i128 } }
pub fn try_i32<T: Num>(t: T) -> (res: Result<i32, ()>)
    ensures res == (if i32::MIN <= t.val() <= i32::MAX { Ok::<i32, ()>(t.val() as i32) } else { Err::<i32, ()>(()) }),
{ let w = t.wide(); if i32::MIN as i128 <= w && w <= i32::MAX as i128 { Ok(w as i32) } else { Err(()) } }
pub fn try_u32<T: Num>(t: T) -> (res: Result<u32, ()>)
    ensures res == (if 0 <= t.val() <= u32::MAX { Ok::<u32, ()>(t.val() as u32) } else { Err::<u32, ()>(()) }),
{ let w = t.wide(); if 0 <= w && w <= u32::MAX as i128 { Ok(w as u32) } else { Err(()) } }
pub fn try_u8<T: Num>(t: T) -> (res: Result<u8, ()>)
    ensures res == (if 0 <= t.val() <= u8::MAX { Ok::<u8, ()>(t.val() as u8) } else { Err::<u8, ()>(()) }),
{ let w = t.wide(); if 0 <= w && w <= u8::MAX as i128 { Ok(w as u8) } else { Err(()) } }
pub fn try_usize<T: Num>(t: T) -> (res: Result<usize, ()>)
    ensures res == (if 0 <= t.val() <= usize::MAX { Ok::<usize, ()>(t.val() as usize) } else { Err::<usize, ()>(()) }),
{ let w = t.wide(); if 0 <= w && w <= usize::MAX as i128 { Ok(w as usize) } else { Err(()) } }

// ---------------------------------------------------------------- ordering
/// (a, b).partial_cmp(&(c, d)) on pairs of numbers
pub trait Ordnum: Copy { spec fn num(&self) -> int; fn num_u32(self) -> (res: u32) ensures res == self.num(); }
impl Ordnum for u32 { open spec fn num(&self) -> int { *self as int } fn num_u32(self) -> (res: u32) { self } }
impl Ordnum for NonZeroU32 { open spec fn num(&self) -> int { self.0 as int } fn num_u32(self) -> (res: u32) { self.0 } }
impl<'a, T: Ordnum> Ordnum for &'a T { open spec fn num(&self) -> int { (**self).num() } fn num_u32(self) -> (res: u32) { (*self).num_u32() } }
pub open spec fn lex(a: int, b: int, c: int, d: int) -> core::cmp::Ordering {
    if a < c { core::cmp::Ordering::Less } else if a > c { core::cmp::Ordering::Greater }
    else if b < d { core::cmp::Ordering::Less } else if b > d { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
pub fn lex_cmp<A: Ordnum, B: Ordnum, C: Ordnum, D: Ordnum>(a: A, b: B, c: C, d: D) -> (res: core::cmp::Ordering)
    ensures res == lex(a.num(), b.num(), c.num(), d.num()),
{
    let (a, b, c, d) = (a.num_u32(), b.num_u32(), c.num_u32(), d.num_u32());
    if a < c { core::cmp::Ordering::Less } else if a > c { core::cmp::Ordering::Greater }
    else if b < d { core::cmp::Ordering::Less } else if b > d { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}

// ---------------------------------------------------------------- bit operations
pub broadcast group group_bits {
    bit_and_3f, bit_and_1f, bit_and_0f, bit_and_07, bit_shl6, bit_shl12, bit_shl18, bit_shl4, bit_shl8, bit_shl3,
    bit_or64, bit_or4096, bit_or262144, bit_or256, bit_or16, bit_or8, bit_shl4_u8, bit_or16_u8, bit_and1_u8
}
pub broadcast proof fn bit_and_3f(x: u32) ensures #[trigger] (x & 0x3f) == x % 64 { assert(x & 0x3f == x % 64) by (bit_vector); }
pub broadcast proof fn bit_and_1f(x: u32) ensures #[trigger] (x & 0x1f) == x % 32 { assert(x & 0x1f == x % 32) by (bit_vector); }
pub broadcast proof fn bit_and_0f(x: u32) ensures #[trigger] (x & 0x0f) == x % 16 { assert(x & 0x0f == x % 16) by (bit_vector); }
pub broadcast proof fn bit_and_07(x: u32) ensures #[trigger] (x & 0x07) == x % 8 { assert(x & 0x07 == x % 8) by (bit_vector); }
pub broadcast proof fn bit_shl3(x: u32) requires x <= 0x1000000 ensures #[trigger] (x << 3) == x * 8 { assert(x <= 0x1000000 ==> x << 3 == x * 8) by (bit_vector); }
pub broadcast proof fn bit_shl4(x: u32) requires x <= 0x1000000 ensures #[trigger] (x << 4) == x * 16 { assert(x <= 0x1000000 ==> x << 4 == x * 16) by (bit_vector); }
pub broadcast proof fn bit_shl6(x: u32) requires x <= 0x1000000 ensures #[trigger] (x << 6) == x * 64 { assert(x <= 0x1000000 ==> x << 6 == x * 64) by (bit_vector); }
pub broadcast proof fn bit_shl8(x: u32) requires x <= 0x10000 ensures #[trigger] (x << 8) == x * 256 { assert(x <= 0x10000 ==> x << 8 == x * 256) by (bit_vector); }
pub broadcast proof fn bit_shl12(x: u32) requires x <= 0x1000 ensures #[trigger] (x << 12) == x * 4096 { assert(x <= 0x1000 ==> x << 12 == x * 4096) by (bit_vector); }
pub broadcast proof fn bit_shl18(x: u32) requires x <= 0x1000 ensures #[trigger] (x << 18) == x * 262144 { assert(x <= 0x1000 ==> x << 18 == x * 262144) by (bit_vector); }
pub broadcast proof fn bit_or8(a: u32, b: u32) requires a % 8 == 0, b < 8 ensures #[trigger] (a | b) == a + b { assert(a % 8 == 0 && b < 8 ==> (a | b) == add(a, b) && a <= 0xfffffff8) by (bit_vector); }
pub broadcast proof fn bit_or16(a: u32, b: u32) requires a % 16 == 0, b < 16 ensures #[trigger] (a | b) == a + b { assert(a % 16 == 0 && b < 16 ==> (a | b) == add(a, b) && a <= 0xfffffff0) by (bit_vector); }
pub broadcast proof fn bit_or64(a: u32, b: u32) requires a % 64 == 0, b < 64 ensures #[trigger] (a | b) == a + b { assert(a % 64 == 0 && b < 64 ==> (a | b) == add(a, b) && a <= 0xffffffc0) by (bit_vector); }
pub broadcast proof fn bit_or4096(a: u32, b: u32) requires a % 4096 == 0, b < 4096 ensures #[trigger] (a | b) == a + b { assert(a % 4096 == 0 && b < 4096 ==> (a | b) == add(a, b) && a <= 0xfffff000) by (bit_vector); }
pub broadcast proof fn bit_or256(a: u32, b: u32) requires a % 256 == 0, b < 256 ensures #[trigger] (a | b) == a + b { assert(a % 256 == 0 && b < 256 ==> (a | b) == add(a, b) && a <= 0xffffff00) by (bit_vector); }
pub broadcast proof fn bit_or262144(a: u32, b: u32) requires a % 262144 == 0, b < 262144 ensures #[trigger] (a | b) == a + b { assert(a % 262144 == 0 && b < 262144 ==> (a | b) == add(a, b) && a <= 0xfffc0000) by (bit_vector); }
pub broadcast proof fn bit_shl4_u8(x: u8) requires x < 16 ensures #[trigger] (x << 4) == x * 16 { assert(x < 16 ==> x << 4 == x * 16) by (bit_vector); }
pub broadcast proof fn bit_or16_u8(a: u8, b: u8) requires a % 16 == 0, b < 16 ensures #[trigger] (a | b) == a + b { assert(a % 16 == 0 && b < 16 ==> (a | b) == add(a, b) && a <= 0xf0) by (bit_vector); }
pub broadcast proof fn bit_and1_u8(x: u8) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by (bit_vector); }

/// policies are sets of bits
pub broadcast proof fn bits_policy(a: u8, b: u8) ensures #[trigger] ((a | b) & b) == b { assert((a | b) & b == b) by (bit_vector); }

// ---------------------------------------------------------------- conversions
pub trait IntoCP: Sized {
    spec fn cp(&self) -> CodePoint;
    fn into_(self) -> (res: CodePoint) ensures res == self.cp();
}
impl IntoCP for char { open spec fn cp(&self) -> CodePoint { CodePoint::Char(*self) } fn into_(self) -> (res: CodePoint) { CodePoint::Char(self) } }
impl IntoCP for u8 { open spec fn cp(&self) -> CodePoint { CodePoint::Char(*self as char) } fn into_(self) -> (res: CodePoint) { CodePoint::Char(self as char) } }
impl IntoCP for CodePoint { open spec fn cp(&self) -> CodePoint { *self } fn into_(self) -> (res: CodePoint) { self } }
pub fn cp_from<T: IntoCP>(t: T) -> (res: CodePoint) ensures res == t.cp() { t.into_() }

// ---------------------------------------------------------------- issues (opaque)
/// everything of an issue but its severity
#[verifier::external_body]
pub struct IssueRest { x: u8 }
pub struct Issue { pub sev: Severity, pub rest: IssueRest }
/// `==` on issues
pub uninterp spec fn issue_eq(a: Issue, b: Issue) -> bool;
pub open spec fn has_issue(v: Seq<Issue>, x: Issue) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] issue_eq(v[i], x) }
#[verifier::external_body]
pub fn vec_contains(v: &Vec<Issue>, x: &Issue) -> (res: bool) ensures res == has_issue(v@, *x) { unimplemented!() }
/// each issue once, fatal ones apart, at most ten of them
#[verifier::opaque]
pub open spec fn iss_ok(fatal: Seq<Issue>, other: Seq<Issue>) -> bool {
    &&& fatal.len() <= 10
    &&& forall|i: int| 0 <= i < fatal.len() ==> (#[trigger] fatal[i]).sev == Severity::Fatal
    &&& forall|i: int| 0 <= i < other.len() ==> (#[trigger] other[i]).sev != Severity::Fatal
    &&& forall|i: int, j: int| 0 <= i < j < fatal.len() ==> !#[trigger] issue_eq(fatal[i], fatal[j])
    &&& forall|i: int, j: int| 0 <= i < j < other.len() ==> !#[trigger] issue_eq(other[i], other[j])
}
#[verifier::external_body]
pub struct CodeAction { x: u8 }
#[verifier::external_body]
pub fn SyntaxIssue(tag: IssueTag, msg: String, sev: Severity, src: Span, val: f64, actions: Vec<CodeAction>, desc: Vec<String>) -> (res: Issue) ensures res.sev == sev { unimplemented!() }
#[verifier::external_body]
pub fn EncodingIssue(tag: IssueTag, msg: String, sev: Severity, src: Span, val: f64, actions: Vec<CodeAction>, desc: Vec<String>) -> (res: Issue) ensures res.sev == sev { unimplemented!() }
#[verifier::external_body]
pub fn FormatIssue(tag: IssueTag, msg: String, sev: Severity, src: Span, val: f64, actions: Vec<CodeAction>, desc: Vec<String>) -> (res: Issue) ensures res.sev == sev { unimplemented!() }
impl CodeAction {
    #[verifier::external_body]
    pub fn replace_text(label: String, src: Span, t: String) -> (res: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_text(label: String, src: Span, t: String) -> (res: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_text(label: String, src: Span) -> (res: Self) { unimplemented!() }
}

// ---------------------------------------------------------------- source characters
/// byte at i, or -1 past the end
pub open spec fn byt(s: Seq<u8>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { -1 } }
pub open spec fn inr(b: int, lo: int, hi: int) -> bool { lo <= b && b <= hi }
pub open spec fn chr(v: int) -> CodePoint { CodePoint::Char(v as u32 as char) }

/// The strict UTF-8 decoding of one source character at offset o:
/// (character, offset after it).  Written from the Unicode standard's table of
/// well-formed sequences, "maximal subpart" practice for ill-formed ones.
#[verifier::opaque]
pub open spec fn step(s: Seq<u8>, o: int) -> (CodePoint, int) {
    let b0 = byt(s, o);
    let b1 = byt(s, o + 1);
    let b2 = byt(s, o + 2);
    let b3 = byt(s, o + 3);
    if o >= s.len() { (CodePoint::EndOfFile, o) }
    else if b0 == 0x0d && b1 == 0x0a { (CodePoint::CRLF, o + 2) }
    else if b0 < 0x80 { (chr(b0), o + 1) }
    else if inr(b0, 0xc2, 0xdf) {
        if inr(b1, 0x80, 0xbf) { (chr((b0 - 0xc0) * 64 + (b1 - 0x80)), o + 2) }
        else { (CodePoint::Unsafe1ByteUtf8Sequence, o + 1) }
    }
    else if inr(b0, 0xe0, 0xef) {
        if !inr(b1, if b0 == 0xe0 { 0xa0 } else { 0x80 }, 0xbf) { (CodePoint::Unsafe1ByteUtf8Sequence, o + 1) }
        else if !inr(b2, 0x80, 0xbf) { (CodePoint::Unsafe2ByteUtf8Sequence, o + 2) }
        else {
            let v = (b0 - 0xe0) * 4096 + (b1 - 0x80) * 64 + (b2 - 0x80);
            if 0xd800 <= v <= 0xdfff || v == 0xfeff { (CodePoint::Unsafe3ByteUtf8Sequence, o + 3) }
            else { (chr(v), o + 3) }
        }
    }
    else if inr(b0, 0xf0, 0xf4) {
        if !inr(b1, if b0 == 0xf0 { 0x90 } else { 0x80 }, if b0 == 0xf4 { 0x8f } else { 0xbf }) { (CodePoint::Unsafe1ByteUtf8Sequence, o + 1) }
        else if !inr(b2, 0x80, 0xbf) { (CodePoint::Unsafe2ByteUtf8Sequence, o + 2) }
        else if !inr(b3, 0x80, 0xbf) { (CodePoint::Unsafe3ByteUtf8Sequence, o + 3) }
        else { (chr((b0 - 0xf0) * 262144 + (b1 - 0x80) * 4096 + (b2 - 0x80) * 64 + (b3 - 0x80)), o + 4) }
    }
    else { (CodePoint::Unsafe1ByteUtf8Sequence, o + 1) }
}

pub open spec fn is_unsafe(c: CodePoint) -> bool {
    c == CodePoint::Unsafe1ByteUtf8Sequence || c == CodePoint::Unsafe2ByteUtf8Sequence || c == CodePoint::Unsafe3ByteUtf8Sequence
}

/// which kind of unsafe encoding the character at o is
pub open spec fn unsafe_kind(s: Seq<u8>, o: int) -> UnsafeCharacterEncoding {
    let v = (byt(s, o) - 0xe0) * 4096 + (byt(s, o + 1) - 0x80) * 64 + (byt(s, o + 2) - 0x80);
    if step(s, o).0 == CodePoint::Unsafe3ByteUtf8Sequence && inr(byt(s, o), 0xe0, 0xef) {
        if v == 0xfeff { UnsafeCharacterEncoding::BOM } else { UnsafeCharacterEncoding::StraySurrogate }
    } else { UnsafeCharacterEncoding::IncompleteUTF8Sequence }
}

/// position after reading character c at position l
pub open spec fn adv(l: Location, tab: u32, c: CodePoint) -> Location {
    match l {
        Location::LineColumn(LineColumn(ln, col)) => {
            if c == CodePoint::EndOfFile { l }
            else if c == CodePoint::Char('\n') || c == CodePoint::Char('\r') || c == CodePoint::CRLF {
                Location::LineColumn(LineColumn(NonZeroU32((ln.0 + 1) as u32), NonZeroU32(1)))
            } else if c == CodePoint::Char('\t') {
                // first column of the next tab stop
                Location::LineColumn(LineColumn(ln, NonZeroU32((((col.0 - 1) / (tab as int) + 1) * tab + 1) as u32)))
            } else {
                Location::LineColumn(LineColumn(ln, NonZeroU32((col.0 + 1) as u32)))
            }
        }
        Location::CharacterIndex(i) => {
            if c == CodePoint::EndOfFile { l }
            else if c == CodePoint::CRLF { Location::CharacterIndex((i + 2) as u32) }
            else { Location::CharacterIndex((i + 1) as u32) }
        }
    }
}

/// all characters but newlines, tab and the end advance alike
pub broadcast proof fn adv_plain(l: Location, tab: u32, c: CodePoint)
    ensures
        #![trigger adv(l, tab, c)]
        c != CodePoint::EndOfFile && c != CodePoint::CRLF && c != CodePoint::Char('\n') && c != CodePoint::Char('\r') && c != CodePoint::Char('\t')
          ==> adv(l, tab, c) == adv(l, tab, CodePoint::Char('a')),
        c == CodePoint::EndOfFile ==> adv(l, tab, c) == l,
        is_lc(adv(l, tab, c)) == is_lc(l),
        c == CodePoint::Char('\r') ==> adv(l, tab, c) == adv(l, tab, CodePoint::Char('\n')),
{}

pub open spec fn loc_le(a: Location, b: Location) -> bool {
    match (a, b) {
        (Location::LineColumn(LineColumn(l1, c1)), Location::LineColumn(LineColumn(l2, c2))) => l1.0 < l2.0 || (l1.0 == l2.0 && c1.0 <= c2.0),
        (Location::CharacterIndex(i), Location::CharacterIndex(j)) => i <= j,
        _ => false,
    }
}

/// walking the input from `from` to `to`: (position, an unsafe character was met, `to` is a character boundary)
pub struct Walk { pub loc: Location, pub uns: bool, pub bnd: bool }
pub open spec fn walk(s: Seq<u8>, tab: u32, l: Location, u: bool, from: int, to: int) -> Walk
    decreases (if to > from { to - from } else { 0 }),
{
    if from >= to || from >= s.len() || from < 0 { Walk { loc: l, uns: u, bnd: from == to } }
    else {
        let st = step(s, from);
        walk(s, tab, adv(l, tab, st.0), u || is_unsafe(st.0), if st.1 > from { st.1 } else { from + 1 }, to)
    }
}
pub open spec fn start_loc(lc: bool) -> Location {
    if lc { Location::LineColumn(LineColumn(NonZeroU32(1), NonZeroU32(1))) } else { Location::CharacterIndex(1) }
}
#[verifier::opaque]
pub open spec fn pos(s: Seq<u8>, tab: u32, lc: bool, o: int) -> Location { walk(s, tab, start_loc(lc), false, 0, o).loc }
#[verifier::opaque]
pub open spec fn uns(s: Seq<u8>, o: int) -> bool { walk(s, 1, start_loc(true), false, 0, o).uns }
#[verifier::opaque]
pub open spec fn bnd(s: Seq<u8>, o: int) -> bool { walk(s, 1, start_loc(true), false, 0, o).bnd }
/// the input and tab width are within the 32-bit position counters
#[verifier::opaque]
pub open spec fn small(n: int, tab: u32) -> bool { tab >= 1 && (n + 2) * (tab + 2) <= 0x7fff_ffff }

/// the input's length is well within 32 bits
pub broadcast proof fn small_len(n: int, tab: u32)
    ensures #![trigger small(n, tab)] small(n, tab) && n >= 0 ==> n < 0x2fff_ffff && tab >= 1,
{ reveal(small); if small(n, tab) && n >= 0 { assert((n + 2) * 3 <= (n + 2) * (tab + 2)) by (nonlinear_arith) requires tab >= 1, n >= 0; } }

pub proof fn walk_shape(s: Seq<u8>, t1: u32, l1: Location, t2: u32, l2: Location, u: bool, from: int, to: int)
    ensures walk(s, t1, l1, u, from, to).uns == walk(s, t2, l2, u, from, to).uns,
            walk(s, t1, l1, u, from, to).bnd == walk(s, t2, l2, u, from, to).bnd,
    decreases (if to > from { to - from } else { 0 }),
{
    if from >= to || from >= s.len() || from < 0 {} else {
        let st = step(s, from);
        step_facts(s, from);
        walk_shape(s, t1, adv(l1, t1, st.0), t2, adv(l2, t2, st.0), u || is_unsafe(st.0), st.1, to);
    }
}
pub proof fn walk_compose(s: Seq<u8>, tab: u32, l: Location, u: bool, from: int, a: int, to: int)
    requires 0 <= from, a <= to, a <= s.len(), walk(s, tab, l, u, from, a).bnd,
    ensures walk(s, tab, l, u, from, to) == walk(s, tab, walk(s, tab, l, u, from, a).loc, walk(s, tab, l, u, from, a).uns, a, to),
    decreases (if to > from { to - from } else { 0 }),
{
    if from >= a || from >= s.len() { } else {
        let st = step(s, from);
        step_facts(s, from);
        walk_compose(s, tab, adv(l, tab, st.0), u || is_unsafe(st.0), st.1, a, to);
    }
}
pub open spec fn loc_ok(l: Location, lc: bool, o: int, tab: u32) -> bool {
    match l {
        Location::LineColumn(LineColumn(ln, col)) => lc && 1 <= ln.0 <= 1 + o && 1 <= col.0 <= 1 + o * tab,
        Location::CharacterIndex(i) => !lc && 1 <= i <= 1 + o,
    }
}
pub proof fn adv_facts(l: Location, lc: bool, tab: u32, o: int, o2: int, n: int, c: CodePoint)
    requires loc_ok(l, lc, o, tab), 0 <= o < o2 <= n, small(n, tab), c == CodePoint::CRLF ==> o2 >= o + 2,
    ensures loc_ok(adv(l, tab, c), lc, o2, tab), loc_le(l, adv(l, tab, c)),
       c != CodePoint::EndOfFile ==> l != adv(l, tab, c),
{
    reveal(small);
    assert((o + 1) * tab <= o2 * tab) by (nonlinear_arith) requires o + 1 <= o2, tab >= 1;
    assert(o2 * tab + 1 <= (n + 2) * (tab + 2)) by (nonlinear_arith) requires o2 <= n, 0 <= o2, tab >= 1;
    assert((o + 1) * tab == o * tab + tab) by (nonlinear_arith);
    assert(o2 + 2 <= (n + 2) * (tab + 2)) by (nonlinear_arith) requires o2 <= n, 0 <= o2, tab >= 1;
    match l {
        Location::LineColumn(LineColumn(ln, col)) => {
            let q = (col.0 - 1) / (tab as int);
            assert(col.0 - 1 < (q + 1) * tab && q * tab <= col.0 - 1) by (nonlinear_arith) requires q == (col.0 - 1) / (tab as int), tab >= 1, col.0 >= 1;
            assert((q + 1) * tab == q * tab + tab) by (nonlinear_arith);
        }
        _ => {}
    }
}
pub proof fn step_facts(s: Seq<u8>, o: int)
    ensures 0 <= o < s.len() ==> o < step(s, o).1 <= s.len() && step(s, o).0 != CodePoint::EndOfFile,
            o >= s.len() ==> step(s, o) == (CodePoint::EndOfFile, o),
            step(s, o).0 == CodePoint::CRLF ==> step(s, o).1 == o + 2,
{ reveal(step); }
/// ASCII characters are their bytes
pub broadcast proof fn step_ascii(s: Seq<u8>, o: int)
    ensures
        #![trigger step(s, o)]
        0 <= o < s.len() && s[o] < 0x80 && s[o] != 0x0d ==> step(s, o) == (CodePoint::Char(s[o] as char), o + 1),
        step(s, o).0 is Char && (step(s, o).0->0 as u32) < 128 && o >= 0 ==> o < s.len() && step(s, o).0->0 as u32 == s[o] && step(s, o).1 == o + 1,
        o >= s.len() ==> step(s, o) == (CodePoint::EndOfFile, o),
        0 <= o < s.len() ==> o < step(s, o).1 <= s.len() && step(s, o).0 != CodePoint::EndOfFile,
        !is_lcont(step(s, o).0) && !strmeta(step(s, o).0) && step(s, o).0 != CodePoint::LinearSyntax_Space,
{ reveal(step); }
/// positions of boundaries are ordered like the boundaries, and have room for one more character
pub broadcast proof fn pos_pair(s: Seq<u8>, tab: u32, lc: bool, a: int, b: int)
    ensures
        #![trigger pos(s, tab, lc, a), pos(s, tab, lc, b)]
        0 <= a <= b <= s.len() && bnd(s, a) && bnd(s, b) && small(s.len() as int, tab) ==> loc_le(pos(s, tab, lc, a), pos(s, tab, lc, b)),
{ if 0 <= a <= b <= s.len() && bnd(s, a) && bnd(s, b) && small(s.len() as int, tab) { pos_mono(s, tab, lc, a, b); } }
pub broadcast proof fn pos_room(s: Seq<u8>, tab: u32, lc: bool, a: int)
    ensures
        #![trigger pos(s, tab, lc, a)]
        0 <= a <= s.len() && bnd(s, a) && small(s.len() as int, tab) ==> room(pos(s, tab, lc, a)) && is_lc(pos(s, tab, lc, a)) == lc,
{ if 0 <= a <= s.len() && bnd(s, a) && small(s.len() as int, tab) { lemma_step(s, tab, lc, a); loc_room(pos(s, tab, lc, a), lc, a, s.len() as int, tab); } }
/// room for one more character on the current position
pub open spec fn room(l: Location) -> bool {
  match l {
    Location::LineColumn(LineColumn(ln, col)) => 1 <= ln.0 < 0x7fff_ffff && 1 <= col.0 < 0x7fff_ffff,
    Location::CharacterIndex(i) => 1 <= i < 0x7fff_ffff,
  }
}
pub open spec fn tabroom(l: Location, tab: u32) -> bool {
  l matches Location::LineColumn(LineColumn(ln, col)) ==> tab >= 1 && col.0 + tab + 1 <= u32::MAX
}
pub proof fn loc_room(l: Location, lc: bool, o: int, n: int, tab: u32)
  requires loc_ok(l, lc, o, tab), 0 <= o <= n, small(n, tab),
  ensures room(l), tabroom(l, tab), tab >= 1,
{
    reveal(small);
    assert(o * tab + tab + 2 <= (n + 2) * (tab + 2)) by (nonlinear_arith) requires o <= n, 0 <= o, tab >= 1;
    assert(o + 2 <= (n + 2) * (tab + 2)) by (nonlinear_arith) requires o <= n, 0 <= o, tab >= 1;
}
pub broadcast proof fn sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
    ensures
        #![trigger s.subrange(a, b).subrange(c, d)]
        0 <= a <= b <= s.len() && 0 <= c <= d <= b - a ==> s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{ if 0 <= a <= b <= s.len() && 0 <= c <= d <= b - a { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); } }
/// columns (or characters) available to the left
pub open spec fn left(l: Location) -> int {
  match l { Location::LineColumn(LineColumn(_, col)) => col.0 - 1, Location::CharacterIndex(i) => i - 1 }
}
/// a..b is a run of well-formed characters
#[verifier::opaque]
pub open spec fn clean(s: Seq<u8>, a: int, b: int) -> bool
    decreases (if b > a { b - a } else { 0 }),
{
    a == b || (0 <= a < b && a < s.len() && a < step(s, a).1 && !is_unsafe(step(s, a).0) && clean(s, step(s, a).1, b))
}
pub broadcast proof fn clean0(s: Seq<u8>, a: int) ensures #[trigger] clean(s, a, a) { reveal(clean); }
pub broadcast proof fn clean_snoc(s: Seq<u8>, a: int, b: int)
    ensures
        #![trigger clean(s, a, step(s, b).1)]
        clean(s, a, b) && 0 <= b < s.len() && !is_unsafe(step(s, b).0) ==> clean(s, a, step(s, b).1),
    decreases (if b > a { b - a } else { 0 }),
{
    if clean(s, a, b) && 0 <= b < s.len() && !is_unsafe(step(s, b).0) {
        reveal(clean);
        step_facts(s, b);
        if a != b { clean_snoc(s, step(s, a).1, b); clean_le(s, step(s, a).1, b); } else { assert(clean(s, step(s, b).1, step(s, b).1)); }
    }
}
pub broadcast proof fn clean1(s: Seq<u8>, b: int)
    ensures
        #![trigger step(s, b)]
        clean(s, b, b), 0 <= b < s.len() && !is_unsafe(step(s, b).0) ==> clean(s, b, step(s, b).1),
{ reveal_with_fuel(clean, 2); step_facts(s, b); if 0 <= b < s.len() && !is_unsafe(step(s, b).0) { assert(clean(s, step(s, b).1, step(s, b).1)); } }
proof fn clean_le(s: Seq<u8>, a: int, b: int) requires clean(s, a, b) ensures a <= b { reveal(clean); }

pub proof fn walk_mono(s: Seq<u8>, tab: u32, lc: bool, l: Location, u: bool, from: int, to: int)
    requires 0 <= from <= to <= s.len(), loc_ok(l, lc, from, tab), small(s.len() as int, tab), walk(s, tab, l, u, from, to).bnd,
    ensures loc_ok(walk(s, tab, l, u, from, to).loc, lc, to, tab), loc_le(l, walk(s, tab, l, u, from, to).loc),
            u ==> walk(s, tab, l, u, from, to).uns,
            from < to ==> l != walk(s, tab, l, u, from, to).loc,
    decreases (if to > from { to - from } else { 0 }),
{
    if from >= to { } else {
        let st = step(s, from);
        step_facts(s, from);
        adv_facts(l, lc, tab, from, st.1, s.len() as int, st.0);
        assert(st.1 <= to) by { if st.1 > to { assert(walk(s, tab, adv(l, tab, st.0), u || is_unsafe(st.0), st.1, to).bnd == (st.1 == to)); } }
        walk_mono(s, tab, lc, adv(l, tab, st.0), u || is_unsafe(st.0), st.1, to);
    }
}
/// the facts about one step from a boundary
pub proof fn lemma_step(s: Seq<u8>, tab: u32, lc: bool, o: int)
    requires 0 <= o <= s.len(), bnd(s, o), small(s.len() as int, tab),
    ensures ({ let st = step(s, o);
        &&& o <= st.1 <= s.len()
        &&& (o < s.len() ==> o < st.1)
        &&& bnd(s, st.1)
        &&& pos(s, tab, lc, st.1) == adv(pos(s, tab, lc, o), tab, st.0)
        &&& uns(s, st.1) == (uns(s, o) || is_unsafe(st.0))
        &&& loc_ok(pos(s, tab, lc, o), lc, o, tab)
        &&& loc_ok(pos(s, tab, lc, st.1), lc, st.1, tab)
        &&& loc_le(pos(s, tab, lc, o), pos(s, tab, lc, st.1))
    }),
{
    reveal(pos); reveal(uns); reveal(bnd);
    let st = step(s, o);
    step_facts(s, o);
    walk_shape(s, 1, start_loc(true), tab, start_loc(lc), false, 0, o);
    walk_compose(s, tab, start_loc(lc), false, 0, o, st.1);
    walk_compose(s, 1, start_loc(true), false, 0, o, st.1);
    walk_mono(s, tab, lc, start_loc(lc), false, 0, o);
    if o < s.len() {
        let l = pos(s, tab, lc, o);
        adv_facts(l, lc, tab, o, st.1, s.len() as int, st.0);
        assert(walk(s, tab, l, uns(s, o), o, st.1) == walk(s, tab, adv(l, tab, st.0), uns(s, o) || is_unsafe(st.0), st.1, st.1));
        let l1 = pos(s, 1, true, o);
        assert(walk(s, 1, l1, uns(s, o), o, st.1) == walk(s, 1, adv(l1, 1, st.0), uns(s, o) || is_unsafe(st.0), st.1, st.1));
    }
}
pub proof fn lemma_bnd0(s: Seq<u8>, tab: u32, lc: bool)
    ensures bnd(s, 0), pos(s, tab, lc, 0) == start_loc(lc), !uns(s, 0),
{ reveal(pos); reveal(uns); reveal(bnd); }
pub broadcast proof fn pos_mono(s: Seq<u8>, tab: u32, lc: bool, a: int, b: int)
    requires 0 <= a <= b <= s.len(), bnd(s, a), bnd(s, b), small(s.len() as int, tab),
    ensures #[trigger] loc_le(pos(s, tab, lc, a), pos(s, tab, lc, b)),
{
    reveal(pos); reveal(uns); reveal(bnd);
    walk_shape(s, 1, start_loc(true), tab, start_loc(lc), false, 0, a);
    walk_shape(s, 1, start_loc(true), tab, start_loc(lc), false, 0, b);
    walk_compose(s, tab, start_loc(lc), false, 0, a, b);
    walk_mono(s, tab, lc, start_loc(lc), false, 0, a);
    walk_mono(s, tab, lc, pos(s, tab, lc, a), walk(s, tab, start_loc(lc), false, 0, a).uns, a, b);
}
pub proof fn pos_strict(s: Seq<u8>, tab: u32, lc: bool, a: int, b: int)
    requires 0 <= a < b <= s.len(), bnd(s, a), bnd(s, b), small(s.len() as int, tab),
    ensures pos(s, tab, lc, a) != pos(s, tab, lc, b),
{
    let st = step(s, a);
    lemma_step(s, tab, lc, a); step_facts(s, a);
    assert(st.1 <= b) by {
        reveal(bnd);
        walk_compose(s, 1, start_loc(true), false, 0, a, b);
        let w = walk(s, 1, start_loc(true), false, 0, a);
        assert(walk(s, 1, w.loc, w.uns, a, b) == walk(s, 1, adv(w.loc, 1, st.0), w.uns || is_unsafe(st.0), st.1, b));
        if st.1 > b { assert(!walk(s, 1, adv(w.loc, 1, st.0), w.uns || is_unsafe(st.0), st.1, b).bnd); }
    }
    adv_facts(pos(s, tab, lc, a), lc, tab, a, st.1, s.len() as int, st.0);
    pos_mono(s, tab, lc, st.1, b);
}
pub proof fn uns_mono(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), bnd(s, a), bnd(s, b), uns(s, a),
    ensures uns(s, b),
{
    reveal(uns); reveal(bnd);
    walk_compose(s, 1, start_loc(true), false, 0, a, b);
    uns_mono_walk(s, 1, pos0(s, a), a, b);
}
spec fn pos0(s: Seq<u8>, a: int) -> Location { walk(s, 1, start_loc(true), false, 0, a).loc }
proof fn uns_mono_walk(s: Seq<u8>, tab: u32, l: Location, from: int, to: int)
    ensures walk(s, tab, l, true, from, to).uns,
    decreases (if to > from { to - from } else { 0 }),
{
    if from >= to || from >= s.len() || from < 0 {} else {
        let st = step(s, from);
        step_facts(s, from);
        uns_mono_walk(s, tab, adv(l, tab, st.0), st.1, to);
    }
}

// ---------------------------------------------------------------- reader state
pub open spec fn is_lc(l: Location) -> bool { l is LineColumn }
/// o is a character boundary of the reader's input and l is its position
/// o is the offset of a character boundary and l its position
pub open spec fn at(s: Seq<u8>, tab: u32, lc: bool, o: int, l: Location) -> bool {
    0 <= o <= s.len() && bnd(s, o) && l == pos(s, tab, lc, o)
}
pub open spec fn at_r(r: Reader, o: int, l: Location) -> bool { at(r.input@, r.tab_width, is_lc(r.SrcLoc), o, l) }
pub open spec fn vpos(r: Reader, o: int, l: Location) -> bool {
    &&& at_r(r, o, l)
    &&& (r.unsafe_character_encoding_flag is None ==> !uns(r.input@, o))
}
pub open spec fn rinv(r: Reader) -> bool {
    &&& vpos(r, r.offset as int, r.SrcLoc)
    &&& (r.wasEOF ==> r.offset == r.input@.len())
    &&& small(r.input@.len() as int, r.tab_width)
    &&& (r.unsafe_character_encoding_flag is Some ==> exists|k: int| 0 <= k < r.input@.len() && #[trigger] bnd(r.input@, k) && is_unsafe(step(r.input@, k).0) && unsafe_kind(r.input@, k) == r.unsafe_character_encoding_flag->0)
}
/// what no reading operation changes
pub open spec fn same(a: Reader, b: Reader) -> bool {
    &&& a.input == b.input
    &&& a.tab_width == b.tab_width
    &&& is_lc(a.SrcLoc) == is_lc(b.SrcLoc)
    &&& a.check_issues == b.check_issues
    &&& (a.unsafe_character_encoding_flag is Some ==> b.unsafe_character_encoding_flag is Some)
    &&& a.compute_oob == b.compute_oob
    &&& a.encoding_mode == b.encoding_mode
    &&& (a.unsafe_character_encoding_flag is Some ==> b.unsafe_character_encoding_flag is Some)
    &&& (iss_ok(a.fatal_issues@, a.non_fatal_issues@) ==> iss_ok(b.fatal_issues@, b.non_fatal_issues@))
}
pub open spec fn same_issues(a: Reader, b: Reader) -> bool { a.fatal_issues == b.fatal_issues && a.non_fatal_issues == b.non_fatal_issues }
/// everything a reader remembers about its place, flags aside
pub open spec fn at_same_place(a: Reader, b: Reader) -> bool {
    a.offset == b.offset && a.SrcLoc == b.SrcLoc && a.wasEOF == b.wasEOF
}
pub open spec fn mark_of(r: Reader, m: InputMark) -> bool {
    &&& at_r(r, m.offset as int, m.src_loc) && m.offset <= r.offset
    &&& (m.wasEOF is Some ==> (m.wasEOF->0 ==> m.offset == r.input@.len()))
}

} // verus!
verus! {
impl CodePoint {
    #[verifier::external_body]
    pub fn graphicalString(&self) -> (res: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn safeAndGraphicalString(&self) -> (res: String) { unimplemented!() }
}
impl WLCharacter {
    #[verifier::external_body]
    pub fn graphicalString(&self) -> (res: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn safeAndGraphicalString(&self) -> (res: String) { unimplemented!() }
}
}
