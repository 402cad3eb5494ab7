@module tokenkind
@source tokenize/token_kind.rs
@consts Group1::MASK Group2::MASK
@type Group1 #[derive(Copy, Clone)] #[repr(u16)]
@type Group2 #[derive(Copy, Clone)] #[repr(u16)]
@type TokenKind #[derive(Copy, Clone, PartialEq, Eq, Structural)] #[repr(u16)]
@type Closer #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@fns variant is_possible_beginning is_empty is_unterminated is_closer is_error
@fns TokenKind::bits TokenKind::id TokenKind::newline_with_policy TokenKind::isTrivia TokenKind::isTriviaButNotToplevelNewline TokenKind::isPossibleBeginning
@fns TokenKind::isCloser TokenKind::isError TokenKind::isUnterminated TokenKind::isEmpty GroupOpenerToCloser TokenToCloser
@raw
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenKind {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &TokenKind) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Closer {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Closer) -> bool { *self == *other }
}
// the documented classes
pub open spec fn k_trivia(k: TokenKind) -> bool {
  match k {
    TokenKind::InternalNewline
    | TokenKind::Comment
    | TokenKind::Whitespace
    | TokenKind::Buffer1
    | TokenKind::ToplevelNewline
    | TokenKind::Buffer2
    | TokenKind::Buffer3
    | TokenKind::Buffer4 => true,
    _ => false,
  }
}
pub open spec fn k_trivia_line(k: TokenKind) -> bool {
  match k {
    TokenKind::InternalNewline
    | TokenKind::Comment
    | TokenKind::Whitespace
    | TokenKind::Buffer1 => true,
    _ => false,
  }
}
/// kinds that no token read from text has
pub open spec fn k_never(k: TokenKind) -> bool {
  match k {
    TokenKind::Unknown | TokenKind::Buffer1 | TokenKind::Buffer2 | TokenKind::Buffer3 | TokenKind::Buffer4
    | TokenKind::Error_PrefixImplicitNull | TokenKind::Error_InfixImplicitNull
    | TokenKind::Fake_ImplicitTimes | TokenKind::Fake_ImplicitNull | TokenKind::Fake_ImplicitOne | TokenKind::Fake_ImplicitAll
    | TokenKind::Boxes_OpenParenStar | TokenKind::Boxes_StarCloseParen | TokenKind::Boxes_MultiSingleQuote | TokenKind::Boxes_MultiWhitespace => true,
    _ => false,
  }
}
pub open spec fn k_beginning(k: TokenKind) -> bool {
  match k {
    TokenKind::Symbol
    | TokenKind::String
    | TokenKind::Integer
    | TokenKind::Real
    | TokenKind::Rational
    | TokenKind::LinearSyntaxBlob
    | TokenKind::OpenParen
    | TokenKind::OpenCurly
    | TokenKind::Bang
    | TokenKind::Under
    | TokenKind::Minus
    | TokenKind::Hash
    | TokenKind::Plus
    | TokenKind::Percent
    | TokenKind::UnderUnder
    | TokenKind::UnderDot
    | TokenKind::LessBar
    | TokenKind::LessLess
    | TokenKind::MinusMinus
    | TokenKind::SemiSemi
    | TokenKind::PlusPlus
    | TokenKind::HashHash
    | TokenKind::BangBang
    | TokenKind::UnderUnderUnder
    | TokenKind::PercentPercent
    | TokenKind::LinearSyntax_Bang
    | TokenKind::LongName_Not
    | TokenKind::LongName_PlusMinus
    | TokenKind::LongName_OpenCurlyQuote
    | TokenKind::LongName_OpenCurlyDoubleQuote
    | TokenKind::LongName_ForAll
    | TokenKind::LongName_Exists
    | TokenKind::LongName_NotExists
    | TokenKind::LongName_Del
    | TokenKind::LongName_Product
    | TokenKind::LongName_Coproduct
    | TokenKind::LongName_Sum
    | TokenKind::LongName_Minus
    | TokenKind::LongName_MinusPlus
    | TokenKind::LongName_Sqrt
    | TokenKind::LongName_CubeRoot
    | TokenKind::LongName_Integral
    | TokenKind::LongName_ContourIntegral
    | TokenKind::LongName_DoubleContourIntegral
    | TokenKind::LongName_ClockwiseContourIntegral
    | TokenKind::LongName_CounterClockwiseContourIntegral
    | TokenKind::LongName_CircleTimes
    | TokenKind::LongName_LeftCeiling
    | TokenKind::LongName_LeftFloor
    | TokenKind::LongName_LeftAngleBracket
    | TokenKind::LongName_LeftAssociation
    | TokenKind::LongName_Piecewise
    | TokenKind::LongName_InvisiblePrefixScriptBase
    | TokenKind::LongName_ContinuedFractionK
    | TokenKind::LongName_ProbabilityPr
    | TokenKind::LongName_ExpectationE
    | TokenKind::LongName_Square
    | TokenKind::LongName_LeftBracketingBar
    | TokenKind::LongName_LeftDoubleBracketingBar
    | TokenKind::LongName_CapitalDifferentialD
    | TokenKind::LongName_DifferentialD => true,
    _ => false,
  }
}
pub open spec fn k_closer(k: TokenKind) -> bool {
  match k {
    TokenKind::CloseParen
    | TokenKind::CloseSquare
    | TokenKind::CloseCurly
    | TokenKind::BarGreater
    | TokenKind::LongName_CloseCurlyQuote
    | TokenKind::LongName_CloseCurlyDoubleQuote
    | TokenKind::LongName_RightCeiling
    | TokenKind::LongName_RightFloor
    | TokenKind::LongName_RightAngleBracket
    | TokenKind::LongName_RightDoubleBracket
    | TokenKind::LongName_RightAssociation
    | TokenKind::LongName_RightBracketingBar
    | TokenKind::LongName_RightDoubleBracketingBar => true,
    _ => false,
  }
}
pub open spec fn k_empty(k: TokenKind) -> bool {
  match k {
    TokenKind::EndOfFile
    | TokenKind::Error_Aborted
    | TokenKind::Error_ExpectedOperand
    | TokenKind::Error_ExpectedTag
    | TokenKind::Error_ExpectedFile
    | TokenKind::Error_PrefixImplicitNull
    | TokenKind::Error_InfixImplicitNull
    | TokenKind::Fake_ImplicitTimes
    | TokenKind::Fake_ImplicitNull
    | TokenKind::Fake_ImplicitOne
    | TokenKind::Fake_ImplicitAll => true,
    _ => false,
  }
}
pub open spec fn k_error(k: TokenKind) -> bool {
  match k {
    TokenKind::Error_ExpectedEqual
    | TokenKind::Error_Number
    | TokenKind::Error_UnhandledCharacter
    | TokenKind::Error_ExpectedLetterlike
    | TokenKind::Error_Aborted
    | TokenKind::Error_ExpectedOperand
    | TokenKind::Error_ExpectedTag
    | TokenKind::Error_ExpectedFile
    | TokenKind::Error_UnexpectedCloser
    | TokenKind::Error_PrefixImplicitNull
    | TokenKind::Error_InfixImplicitNull
    | TokenKind::Error_UnsafeCharacterEncoding
    | TokenKind::Error_UnterminatedComment
    | TokenKind::Error_UnterminatedString
    | TokenKind::Error_UnterminatedFileString
    | TokenKind::Error_UnterminatedLinearSyntaxBlob
    | TokenKind::Error_UnsupportedToken
    | TokenKind::Error_UnexpectedCommentCloser => true,
    _ => false,
  }
}
pub open spec fn k_unterminated(k: TokenKind) -> bool {
  match k {
    TokenKind::Error_UnterminatedComment
    | TokenKind::Error_UnterminatedString
    | TokenKind::Error_UnterminatedFileString
    | TokenKind::Error_UnterminatedLinearSyntaxBlob => true,
    _ => false,
  }
}
pub open spec fn k_opener(k: TokenKind) -> bool {
  match k {
    TokenKind::ColonColonOpenSquare
    | TokenKind::LongName_LeftAngleBracket
    | TokenKind::LongName_LeftAssociation
    | TokenKind::LongName_LeftBracketingBar
    | TokenKind::LongName_LeftCeiling
    | TokenKind::LongName_LeftDoubleBracket
    | TokenKind::LongName_LeftDoubleBracketingBar
    | TokenKind::LongName_LeftFloor
    | TokenKind::LessBar
    | TokenKind::OpenCurly
    | TokenKind::LongName_OpenCurlyDoubleQuote
    | TokenKind::LongName_OpenCurlyQuote
    | TokenKind::OpenParen
    | TokenKind::OpenSquare => true,
    _ => false,
  }
}
pub open spec fn k_close_of(k: TokenKind) -> Closer {
  match k {
    TokenKind::ColonColonOpenSquare => Closer::CloseSquare,
    TokenKind::LongName_LeftAngleBracket => Closer::LongName_RightAngleBracket,
    TokenKind::LongName_LeftAssociation => Closer::LongName_RightAssociation,
    TokenKind::LongName_LeftBracketingBar => Closer::LongName_RightBracketingBar,
    TokenKind::LongName_LeftCeiling => Closer::LongName_RightCeiling,
    TokenKind::LongName_LeftDoubleBracket => Closer::LongName_RightDoubleBracket,
    TokenKind::LongName_LeftDoubleBracketingBar => Closer::LongName_RightDoubleBracketingBar,
    TokenKind::LongName_LeftFloor => Closer::LongName_RightFloor,
    TokenKind::LessBar => Closer::BarGreater,
    TokenKind::OpenCurly => Closer::CloseCurly,
    TokenKind::LongName_OpenCurlyDoubleQuote => Closer::LongName_CloseCurlyDoubleQuote,
    TokenKind::LongName_OpenCurlyQuote => Closer::LongName_CloseCurlyQuote,
    TokenKind::OpenParen => Closer::CloseParen,
    TokenKind::OpenSquare => Closer::CloseSquare,
    _ => Closer::AssertFalse,
  }
}
pub open spec fn k_as_closer(k: TokenKind) -> Closer {
  match k {
    TokenKind::CloseParen => Closer::CloseParen,
    TokenKind::CloseSquare => Closer::CloseSquare,
    TokenKind::CloseCurly => Closer::CloseCurly,
    TokenKind::BarGreater => Closer::BarGreater,
    TokenKind::LongName_CloseCurlyQuote => Closer::LongName_CloseCurlyQuote,
    TokenKind::LongName_CloseCurlyDoubleQuote => Closer::LongName_CloseCurlyDoubleQuote,
    TokenKind::LongName_RightCeiling => Closer::LongName_RightCeiling,
    TokenKind::LongName_RightFloor => Closer::LongName_RightFloor,
    TokenKind::LongName_RightAngleBracket => Closer::LongName_RightAngleBracket,
    TokenKind::LongName_RightDoubleBracket => Closer::LongName_RightDoubleBracket,
    TokenKind::LongName_RightAssociation => Closer::LongName_RightAssociation,
    TokenKind::LongName_RightBracketingBar => Closer::LongName_RightBracketingBar,
    TokenKind::LongName_RightDoubleBracketingBar => Closer::LongName_RightDoubleBracketingBar,
    _ => Closer::AssertFalse,
  }
}
pub open spec fn k_id(k: TokenKind) -> u16 { (k as u16) % 512 }
pub uninterp spec fn in_beginning(n: Seq<char>) -> bool;
pub uninterp spec fn in_empty(n: Seq<char>) -> bool;
pub uninterp spec fn in_unterminated(n: Seq<char>) -> bool;
pub uninterp spec fn in_closers(n: Seq<char>) -> bool;
pub uninterp spec fn in_error(n: Seq<char>) -> bool;

@fn is_possible_beginning
@trusted
@ens res == in_beginning($0@)
@fn is_empty
@trusted
@ens res == in_empty($0@)
@fn is_unterminated
@trusted
@ens res == in_unterminated($0@)
@fn is_closer
@trusted
@ens res == in_closers($0@)
@fn is_error
@trusted
@ens res == in_error($0@)

//# the discriminant formula vx uses when it emits the enum
@fn variant
@props C13
@req $0 < 512
@ens[C13] res == $0 + 512 * (if in_beginning($1@) { 1int } else if in_closers($1@) { 2 } else if in_error($1@) { 3 } else { 0 }) + 2048 * (if in_empty($1@) { 1int } else if in_unterminated($1@) { 2 } else { 0 })
@pro
  assert(forall|id: u16, g: u16, h: u16| id < 512 && (g == 0 || g == 512 || g == 1024 || g == 1536) && (h == 0 || h == 2048 || h == 4096) ==>
    #[trigger] ((id | g) | h) == id + g + h) by (bit_vector);
  assert(forall|x: u16| x < 512 ==> #[trigger] (x & 511) == x) by (bit_vector);
  assert(forall|x: u16| x == 0 || x == 512 || x == 1024 || x == 1536 ==> #[trigger] (x & 1536) == x) by (bit_vector);
  assert(forall|x: u16| x == 0 || x == 2048 || x == 4096 ==> #[trigger] (x & 6144) == x) by (bit_vector);
@fn TokenKind::bits
@props C13
@ens[C13] res == self as u16
@fn TokenKind::id
@props C13
@ens[C13] res == k_id(self)
@pro
  assert(forall|x: u16| #[trigger] (x & 0x1ff) == x % 512) by (bit_vector);
@fn TokenKind::newline_with_policy
@props C08 C13
@ens res == (if pol($0, RETURN_TOPLEVELNEWLINE) { TokenKind::ToplevelNewline } else { TokenKind::InternalNewline })
@fn TokenKind::isTrivia
@props C13
@ens[C13] res == k_trivia(self)
@pro
  assert(forall|x: u16| (#[trigger] (x & 0x1f8) == 8) == (8 <= x % 512 < 16)) by (bit_vector);
@fn TokenKind::isTriviaButNotToplevelNewline
@props C13
@ens[C13] res == k_trivia_line(self)
@pro
  assert(forall|x: u16| (#[trigger] (x & 0x1fc) == 8) == (8 <= x % 512 < 12)) by (bit_vector);
@fn TokenKind::isPossibleBeginning
@props C13
@pro
  assert(0b11u16 << 9 == 1536) by (bit_vector);
@ens[C13] res == k_beginning(self)
@pro
  assert(forall|x: u16| (#[trigger] (x & 1536) == 512) == ((x / 512) % 4 == 1)) by (bit_vector);
@fn TokenKind::isCloser
@props C13
@pro
  assert(0b11u16 << 9 == 1536) by (bit_vector);
@ens[C13] res == k_closer(self)
@pro
  assert(forall|x: u16| (#[trigger] (x & 1536) == 1024) == ((x / 512) % 4 == 2)) by (bit_vector);
@fn TokenKind::isError
@props C13
@pro
  assert(0b11u16 << 9 == 1536) by (bit_vector);
@ens[C13] res == k_error(self)
@pro
  assert(forall|x: u16| (#[trigger] (x & 1536) == 1536) == ((x / 512) % 4 == 3)) by (bit_vector);
@fn TokenKind::isUnterminated
@props C13
@pro
  assert(0b11u16 << 11 == 6144) by (bit_vector);
@ens[C13] res == k_unterminated(self)
@pro
  assert(forall|x: u16| (#[trigger] (x & 6144) == 4096) == ((x / 2048) % 4 == 2)) by (bit_vector);
@fn TokenKind::isEmpty
@props C13
@pro
  assert(0b11u16 << 11 == 6144) by (bit_vector);
@ens[C13] res == k_empty(self)
@pro
  assert(forall|x: u16| (#[trigger] (x & 6144) == 2048) == ((x / 2048) % 4 == 1)) by (bit_vector);
@fn GroupOpenerToCloser
@props C13 C05
@req k_opener($0)
@ens[C13] res == k_close_of($0)
@fn TokenToCloser
@props C13
@ens[C13] res == k_as_closer($0)

@raw
//@lemma C13
pub proof fn kinds_distinct(a: TokenKind, b: TokenKind)
  requires k_id(a) == k_id(b)
  ensures a == b
{ hide(k_of); hide(k_id); kind_of_id(a); kind_of_id(b); }
pub proof fn closers_match(k: TokenKind)
  requires k_opener(k)
  ensures k_close_of(k) != Closer::AssertFalse, k_closer(k_back(k_close_of(k))), k_as_closer(k_back(k_close_of(k))) == k_close_of(k)
{ }
pub proof fn closers_back(k: TokenKind)
  requires k_as_closer(k) != Closer::AssertFalse
  ensures k_back(k_as_closer(k)) == k, k_closer(k)
{ }
pub open spec fn k_back(c: Closer) -> TokenKind {
  match c {
    Closer::BarGreater => TokenKind::BarGreater, Closer::CloseCurly => TokenKind::CloseCurly, Closer::CloseParen => TokenKind::CloseParen,
    Closer::CloseSquare => TokenKind::CloseSquare, Closer::LongName_CloseCurlyDoubleQuote => TokenKind::LongName_CloseCurlyDoubleQuote,
    Closer::LongName_CloseCurlyQuote => TokenKind::LongName_CloseCurlyQuote, Closer::LongName_RightAngleBracket => TokenKind::LongName_RightAngleBracket,
    Closer::LongName_RightAssociation => TokenKind::LongName_RightAssociation, Closer::LongName_RightBracketingBar => TokenKind::LongName_RightBracketingBar,
    Closer::LongName_RightCeiling => TokenKind::LongName_RightCeiling, Closer::LongName_RightDoubleBracket => TokenKind::LongName_RightDoubleBracket,
    Closer::LongName_RightDoubleBracketingBar => TokenKind::LongName_RightDoubleBracketingBar, Closer::LongName_RightFloor => TokenKind::LongName_RightFloor,
    Closer::AssertFalse => TokenKind::Unknown,
  }
}
