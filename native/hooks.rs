// Included by /repo/crates/wolfram-parser/src/lib.rs inside `pub mod verif`
// when built with `--cfg codeparser_verif`. Only reads internal state and
// calls internal functions; it changes nothing in the library.

use crate::read::{code_point::CodePoint, Escape, Reader, WLCharacter};
use crate::source::{Location, NextPolicy, SourceCharacter, Span, TOPLEVEL};
use crate::tokenize::{Token, TokenKind, TokenStr, Tokenizer};
use crate::{EncodingMode, ParseOptions, UnsafeCharacterEncoding};

/// A code point as a plain number: scalar values are themselves, the special
/// code points are negative.
pub fn cp_num(c: CodePoint) -> i32 {
    match c {
        CodePoint::Char(c) => c as i32,
        CodePoint::EndOfFile => -1,
        CodePoint::CRLF => -2,
        CodePoint::Unsafe1ByteUtf8Sequence => -3,
        CodePoint::Unsafe2ByteUtf8Sequence => -4,
        CodePoint::Unsafe3ByteUtf8Sequence => -5,
        CodePoint::LinearSyntax_Space => -6,
        CodePoint::StringMeta_Open => -7,
        CodePoint::StringMeta_Close => -8,
        CodePoint::StringMeta_DoubleQuote => -9,
        CodePoint::StringMeta_Backslash => -10,
        CodePoint::StringMeta_Backspace => -11,
        CodePoint::StringMeta_FormFeed => -12,
        CodePoint::StringMeta_LineFeed => -13,
        CodePoint::StringMeta_CarriageReturn => -14,
        CodePoint::StringMeta_Tab => -15,
        CodePoint::LineContinuation_LineFeed => -16,
        CodePoint::LineContinuation_CarriageReturn => -17,
        CodePoint::LineContinuation_CRLF => -18,
        #[allow(unreachable_patterns)]
        _ => -99,
    }
}
pub const SPECIALS: &[CodePoint] = &[
    CodePoint::EndOfFile,
    CodePoint::CRLF,
    CodePoint::Unsafe1ByteUtf8Sequence,
    CodePoint::Unsafe2ByteUtf8Sequence,
    CodePoint::Unsafe3ByteUtf8Sequence,
    CodePoint::LinearSyntax_Space,
    CodePoint::StringMeta_Open,
    CodePoint::StringMeta_Close,
    CodePoint::StringMeta_DoubleQuote,
    CodePoint::StringMeta_Backslash,
    CodePoint::StringMeta_Backspace,
    CodePoint::StringMeta_FormFeed,
    CodePoint::StringMeta_LineFeed,
    CodePoint::StringMeta_CarriageReturn,
    CodePoint::StringMeta_Tab,
    CodePoint::LineContinuation_LineFeed,
    CodePoint::LineContinuation_CarriageReturn,
    CodePoint::LineContinuation_CRLF,
];
pub fn cp_of(n: i32) -> Option<CodePoint> {
    if n >= 0 {
        return char::from_u32(n as u32).map(CodePoint::Char);
    }
    SPECIALS.iter().copied().find(|c| cp_num(*c) == n)
}

pub fn esc_num(e: Escape) -> u8 {
    match e {
        Escape::None => 0,
        Escape::Raw => 1,
        Escape::Single => 2,
        Escape::Hex2 => 3,
        Escape::Hex4 => 4,
        Escape::Hex6 => 5,
        Escape::Octal => 6,
        Escape::LongName => 7,
    }
}
pub fn esc_of(n: u8) -> Escape {
    match n {
        0 => Escape::None,
        1 => Escape::Raw,
        2 => Escape::Single,
        3 => Escape::Hex2,
        4 => Escape::Hex4,
        5 => Escape::Hex6,
        6 => Escape::Octal,
        _ => Escape::LongName,
    }
}

pub fn set_options(o: ParseOptions, check_issues: bool, compute_oob: bool, boxes: bool) -> ParseOptions {
    let mut o = o;
    o.check_issues = check_issues;
    o.compute_oob = compute_oob;
    o.encoding_mode = if boxes { EncodingMode::Box } else { EncodingMode::Normal };
    o
}

/// Every source character with the offset and position after it.
pub fn source_chars(b: &[u8], o: &ParseOptions) -> (Vec<(i32, usize, Location)>, Option<UnsafeCharacterEncoding>) {
    let mut r = Reader::new(b, o);
    let mut v = vec![];
    loop {
        let c = r.next_source_char(TOPLEVEL);
        v.push((cp_num(c), r.offset, r.SrcLoc));
        if c == CodePoint::EndOfFile || v.len() > b.len() + 4 {
            break;
        }
    }
    (v, r.unsafe_character_encoding_flag)
}

/// The flag after each source character.
pub fn source_flags(b: &[u8], o: &ParseOptions) -> Vec<Option<UnsafeCharacterEncoding>> {
    let mut r = Reader::new(b, o);
    let mut v = vec![];
    loop {
        let c = r.next_source_char(TOPLEVEL);
        v.push(r.unsafe_character_encoding_flag);
        if c == CodePoint::EndOfFile || v.len() > b.len() + 4 {
            break;
        }
    }
    v
}

/// Every Wolfram character: (code point, escape, offset after, position after, offset after a
/// peek at the same place, and the character that peek gave).
pub fn wl_chars(b: &[u8], o: &ParseOptions, policy: u8) -> Vec<(i32, u8, usize, Location, usize, i32)> {
    let mut r = Reader::new(b, o);
    let mut v = vec![];
    let policy = NextPolicy::from_bits(policy);
    loop {
        let p = r.peek_wolfram_char(policy);
        let po = r.offset;
        let c = r.next_wolfram_char(policy);
        v.push((cp_num(c.point), esc_num(c.escape()), r.offset, r.SrcLoc, po, cp_num(p.point)));
        if c.point == CodePoint::EndOfFile || v.len() > b.len() + 4 {
            break;
        }
    }
    v
}

pub type Tok<'i> = Token<TokenStr<'i>, Span>;

/// All tokens through `next_token` at top level.
pub fn lex<'i>(b: &'i [u8], o: &ParseOptions) -> (Vec<(Tok<'i>, usize)>, bool) {
    let mut t = Tokenizer::new(b, o);
    let mut v = vec![];
    loop {
        let k = t.next_token();
        v.push((k, t.offset));
        if k.tok == TokenKind::EndOfFile {
            return (v, true);
        }
        if v.len() > b.len() + 4 {
            return (v, false);
        }
    }
}

pub const PREDS: &[&str] = &[
    "isLetterlike", "isStrangeLetterlike", "isWhitespace", "isStrangeWhitespace", "isUpper", "isAlpha", "isDigit",
    "isAlphaOrDigit", "isHex", "isOctal", "isControl", "isSign", "isMBLinearSyntax", "isMBStringMeta",
    "isMBLetterlike", "isMBStrangeLetterlike", "isMBStrangeWhitespace", "isMBStrangeNewline", "isMBNewline",
    "isMBWhitespace", "isMBPunctuation", "isMBUninterpretable", "isMBLineContinuation", "isMBUnsafeUTF8Sequence",
];
/// The character class predicates, as a bit set in the order of PREDS.
pub fn preds(n: i32, esc: u8) -> u32 {
    let c = WLCharacter::new_with_escape(cp_of(n).unwrap(), esc_of(esc));
    let v = [
        c.isLetterlike(), c.isStrangeLetterlike(), c.isWhitespace(), c.isStrangeWhitespace(), c.isUpper(), c.isAlpha(),
        c.isDigit(), c.isAlphaOrDigit(), c.isHex(), c.isOctal(), c.isControl(), c.isSign(), c.isMBLinearSyntax(),
        c.isMBStringMeta(), c.isMBLetterlike(), c.isMBStrangeLetterlike(), c.isMBStrangeWhitespace(),
        c.isMBStrangeNewline(), c.isMBNewline(), c.isMBWhitespace(), c.isMBPunctuation(), c.isMBUninterpretable(),
        c.isMBLineContinuation(), c.isMBUnsafeUTF8Sequence(),
    ];
    v.iter().enumerate().fold(0, |a, (i, b)| a | ((*b as u32) << i))
}
pub const SPREDS: &[&str] = &["isAlphaOrDigit", "isHex", "isOctal", "isUpper", "isEndOfFile", "isNewline", "isWhitespace", "isMBNewline", "isMBWhitespace", "isMBUnsafeUTF8Sequence"];
pub fn source_preds(n: i32) -> u32 {
    let c: SourceCharacter = cp_of(n).unwrap();
    let v = [c.isAlphaOrDigit(), c.isHex(), c.isOctal(), c.isUpper(), c.isEndOfFile(), c.isNewline(), c.isWhitespace(), c.isMBNewline(), c.isMBWhitespace(), c.isMBUnsafeUTF8Sequence()];
    v.iter().enumerate().fold(0, |a, (i, b)| a | ((*b as u32) << i))
}

pub fn longname_to_codepoint(s: &str) -> Option<i32> {
    crate::long_names::longname_to_codepoint(s).map(cp_num)
}
pub fn codepoint_to_longname(n: i32) -> Option<&'static str> {
    crate::long_names::codepoint_to_longname(cp_of(n)?)
}
pub fn is_raw(s: &str) -> bool {
    crate::long_names::isRaw(s)
}
pub fn tables() -> (Vec<(&'static str, i32)>, Vec<(i32, &'static str)>) {
    use crate::generated::long_names_registration::*;
    (
        LONGNAME_TO_CODEPOINT_MAP.iter().map(|(s, c)| (*s, cp_num(*c))).collect(),
        CODEPOINT_TO_LONGNAME_MAP.iter().map(|(c, s)| (cp_num(*c), *s)).collect(),
    )
}
pub fn mb_classes(n: i32) -> [bool; 5] {
    let c = cp_of(n).unwrap();
    use crate::long_names::*;
    [isMBNotStrangeLetterlike(c), isMBPunctuation(c), isMBWhitespace(c), isMBNewline(c), isMBUninterpretable(c)]
}

pub fn show_source(n: i32) -> String {
    format!("{}", cp_of(n).unwrap())
}
pub fn show_wl(n: i32, e: u8) -> String {
    format!("{}", WLCharacter::new_with_escape(cp_of(n).unwrap(), esc_of(e)))
}

pub fn token_kinds() -> &'static [TokenKind] {
    TokenKind::VARIANTS
}
pub fn newline_kind(policy: u8) -> TokenKind {
    TokenKind::newline_with_policy(NextPolicy::from_bits(policy))
}
pub fn kind_id(k: TokenKind) -> u16 {
    k.id()
}
/// Closer of an opener, as its name.
pub fn opener_to_closer(k: TokenKind) -> String {
    format!("{:?}", crate::tokenize::token_kind::GroupOpenerToCloser(k))
}
pub fn token_to_closer(k: TokenKind) -> String {
    format!("{:?}", crate::tokenize::token_kind::TokenToCloser(k))
}

/// Feed issues to the reader, return (fatal, non fatal).
pub fn add_issues(v: &[crate::issue::Issue], o: &ParseOptions) -> (Vec<crate::issue::Issue>, Vec<crate::issue::Issue>) {
    let mut r = Reader::new(b"", o);
    for i in v {
        r.addIssue(i.clone());
    }
    (r.fatal_issues, r.non_fatal_issues)
}

pub fn precedence_greater(a: u8, b: u8) -> bool {
    use crate::precedence::Precedence;
    let f = |x: u8| if x == 0 { None } else { Some(Precedence::new(x)) };
    Precedence::greater(f(a), f(b))
}
pub fn loc_next(l: Location) -> Location {
    l.next()
}
pub fn loc_previous(l: Location) -> Location {
    l.previous()
}
pub fn span_new(a: Location, b: Location) -> Span {
    Span::new(a, b)
}
pub fn to_digit(b: u8) -> u8 {
    crate::utils::toDigit(b)
}
