@module base
@source read/code_point.rs
@source source.rs
@source feature.rs
@source utils.rs
@source issue.rs
@source read/wl_character.rs
@source tokenize/tokenizer.rs
@source lib.rs
@consts CODEPOINT_BEL CODEPOINT_ESC CODEPOINT_ACTUAL_DOUBLEQUOTE CODEPOINT_ACTUAL_BACKSLASH CODEPOINT_DEL CODEPOINT_BOM
@consts CODEPOINT_LINEARSYNTAX_CLOSEPAREN CODEPOINT_LINEARSYNTAX_BANG CODEPOINT_LINEARSYNTAX_AT CODEPOINT_LINEARSYNTAX_PERCENT
@consts CODEPOINT_LINEARSYNTAX_CARET CODEPOINT_LINEARSYNTAX_AMP CODEPOINT_LINEARSYNTAX_STAR CODEPOINT_LINEARSYNTAX_OPENPAREN
@consts CODEPOINT_LINEARSYNTAX_UNDER CODEPOINT_LINEARSYNTAX_PLUS CODEPOINT_LINEARSYNTAX_SLASH CODEPOINT_LINEARSYNTAX_BACKTICK
@consts COMPUTE_SOURCE CHECK_ABORT FAST_STRING_SCAN ASCII_VTAB ASCII_FORM_FEED
@consts ENABLE_CHARACTER_DECODING_ISSUES TRACK_LC RETURN_TOPLEVELNEWLINE STRING_OR_COMMENT TAGSLOT_BEHAVIOR_FOR_STRINGS INTEGER_SHORT_CIRCUIT SCAN_FOR_UNRECOGNIZEDLONGNAMES
@type CodePoint #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type SourceCharacter
@type Buffer
@type LineColumn #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type Location #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type Span #[derive(Copy, Clone)]
@type NextPolicy #[derive(Copy, Clone)]
@type SourceConvention #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type IssueTag #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type Severity #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type Escape #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type WLCharacter #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type UnsafeCharacterEncoding #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type EncodingMode #[derive(Copy, Clone, PartialEq, Eq, Structural)]

@fns CodePoint::from_u32 CodePoint::from_u8 CodePoint::from_char CodePoint::as_char CodePoint::is_ascii CodePoint::as_i32 CodePoint::is_line_continuation
@fns <CodePoint as PartialEq<char>>::eq;Location::next;Location::previous;non_zero_u32_incr;Span::new;Span::at;Span::start;Span::end;isStraySurrogate;<Location as PartialOrd>::partial_cmp;<LineColumn as PartialOrd>::partial_cmp
@fns NextPolicy::contains NextPolicy::without NextPolicy::remove

@fn CodePoint::from_u32
@props C01 C05
@ens res is Some <==> scalar($0 as int)
@ens res is Some ==> res->0 == chr($0 as int)
@fn CodePoint::from_u8
@props C01
@ens res == CodePoint::Char($0 as char)
@fn CodePoint::from_char
@ens res == CodePoint::Char($0)
@fn CodePoint::as_char
@ens res == (if self is Char { Some(self->0) } else { None::<char> })
@fn CodePoint::as_i32
@props C05 C14
@ens res == cp_i32(self)
@fn CodePoint::is_ascii
@props C14
@ens res == (self is Char && (self->0 as u32) < 128)
@fn CodePoint::is_line_continuation
@props C14
@ens res == is_lcont(*self)
@raw
pub open spec fn is_lcont(c: CodePoint) -> bool {
  c == CodePoint::LineContinuation_LineFeed || c == CodePoint::LineContinuation_CarriageReturn || c == CodePoint::LineContinuation_CRLF
}
pub open spec fn cp_i32(c: CodePoint) -> int {
  match c {
    CodePoint::Char(ch) => ch as u32 as int,
    CodePoint::EndOfFile => -1, CodePoint::LinearSyntax_Space => -3, CodePoint::StringMeta_Open => -4, CodePoint::StringMeta_Close => -5,
    CodePoint::StringMeta_DoubleQuote => -6, CodePoint::StringMeta_Backslash => -7, CodePoint::StringMeta_Backspace => -8,
    CodePoint::StringMeta_FormFeed => -9, CodePoint::StringMeta_LineFeed => -10, CodePoint::StringMeta_CarriageReturn => -11,
    CodePoint::StringMeta_Tab => -12, CodePoint::CRLF => -13, CodePoint::Unsafe1ByteUtf8Sequence => -14,
    CodePoint::Unsafe2ByteUtf8Sequence => -15, CodePoint::Unsafe3ByteUtf8Sequence => -16, CodePoint::LineContinuation_LineFeed => -17,
    CodePoint::LineContinuation_CarriageReturn => -18, CodePoint::LineContinuation_CRLF => -19,
  }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<char> for CodePoint {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &char) -> bool { *self == CodePoint::Char(*other) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<CodePoint> for CodePoint {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &CodePoint) -> bool { *self == *other }
}
pub open spec fn pol(p: NextPolicy, bit: NextPolicy) -> bool { p.0 & bit.0 == bit.0 }

@raw
pub open spec fn loc_cmp(a: Location, b: Location) -> Option<core::cmp::Ordering> {
    match (a, b) {
        (Location::LineColumn(LineColumn(l1, c1)), Location::LineColumn(LineColumn(l2, c2))) => Some(lex(l1.0 as int, c1.0 as int, l2.0 as int, c2.0 as int)),
        (Location::CharacterIndex(i), Location::CharacterIndex(j)) => Some(lex(i as int, 0, j as int, 0)),
        _ => None,
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Location {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, other: &Location) -> Option<core::cmp::Ordering> { loc_cmp(*self, *other) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for LineColumn {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, other: &LineColumn) -> Option<core::cmp::Ordering> { Some(lex(self.0.0 as int, self.1.0 as int, other.0.0 as int, other.1.0 as int)) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Location {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Location) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LineColumn {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &LineColumn) -> bool { *self == *other }
}
@fn <Location as PartialOrd>::partial_cmp;<LineColumn as PartialOrd>::partial_cmp
@props C12
@fn <CodePoint as PartialEq<char>>::eq
@props C04 C14
@ens res == (*self == CodePoint::Char(*$1))

@fn non_zero_u32_incr
@props C02 C05
@req $0.0 < u32::MAX
@ens res.0 == $0.0 + 1

@fn Location::next
@props C02 C05 C12
@req self matches Location::LineColumn(LineColumn(_, c)) ==> c.0 < u32::MAX
@req self matches Location::CharacterIndex(i) ==> i < u32::MAX
@ens res == adv(self, 1, CodePoint::Char('a'))
@fn Location::previous
@props C02 C05 C12
@req self matches Location::LineColumn(LineColumn(_, c)) ==> c.0 > 1
@req self matches Location::CharacterIndex(i) ==> i >= 1
@ens adv(res, 1, CodePoint::Char('a')) == self
@ens self is LineColumn <==> res is LineColumn
@ens loc_le(res, self)

@fn Span::new
@props C02 C05 C12
@req[C05,C12] loc_le($0, $1)
@ens[C12] res.start == $0 && res.end == $1
@fn Span::at
@props C12
@ens[C12] res.start == $0 && res.end == $0
@fn Span::start
@props C12
@ens[C12] res == self.start
@fn Span::end
@props C12
@ens[C12] res == self.end

@fn isStraySurrogate
@props C01
@ens res == (0xd800 <= $0 <= 0xdfff)

@fn NextPolicy::contains
@props C08
@ens res == pol(*self, $1)
@fn NextPolicy::without
@props C08
@ens res.0 == self.0 & !$1.0
@fn NextPolicy::remove
@props C08
@ens final(self).0 == old(self).0 & !$1.0
