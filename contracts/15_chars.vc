@module chars
@source read/wl_character.rs
@source source.rs
@source long_names.rs
@source utils.rs
@source generated/long_names_registration.rs
@consts CODEPOINT_LONGNAME_* DIGIT_LOOKUP
@fns WLCharacter::* SourceCharacter::* isStrange isMBStrange toDigit ifASCIIWLCharacter
@fns isRaw longname_to_codepoint isMBNotStrangeLetterlike isMBPunctuation isMBWhitespace isMBNewline isMBUninterpretable asciiReplacements replacementGraphical certainCharacterReplacementActions
@skip WLCharacter::graphicalString WLCharacter::safeAndGraphicalString SourceCharacter::graphicalString SourceCharacter::safeAndGraphicalString

@raw
pub uninterp spec fn mb_punct_(c: char) -> bool;
pub open spec fn mb_punct(c: char) -> bool { c as u32 >= 128 && mb_punct_(c) }
pub uninterp spec fn mb_white_(c: char) -> bool;
pub open spec fn mb_white(c: char) -> bool { c as u32 >= 128 && mb_white_(c) }
pub uninterp spec fn mb_newline_(c: char) -> bool;
pub open spec fn mb_newline(c: char) -> bool { c as u32 >= 128 && mb_newline_(c) && !mb_white_(c) && !mb_punct_(c) && !mb_uninterp(c) && c != '\u{f3a2}' && !(0xf7c0 <= c as u32 <= 0xf7cd) }
pub uninterp spec fn mb_uninterp(c: char) -> bool;
pub uninterp spec fn mb_notstrange(c: char) -> bool;
pub uninterp spec fn mb_strange(c: char) -> bool;
pub uninterp spec fn name_cp(s: Seq<u8>) -> Option<CodePoint>;
pub uninterp spec fn name_raw(s: Seq<u8>) -> bool;
pub uninterp spec fn str_bytes(s: &str) -> Seq<u8>;

pub open spec fn letterlike(p: CodePoint) -> bool {
  p is Char && ({ let c = p->0; let v = c as u32;
     ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') || c == '$' || (v <= 0x1f && v != 7 && !(9 <= v <= 13)) })
}
pub open spec fn ws(p: CodePoint) -> bool { p is Char && ({ let v = p->0 as u32; v == 32 || v == 9 || v == 11 || v == 12 }) }
pub open spec fn digitp(p: CodePoint) -> bool { p is Char && '0' <= p->0 && p->0 <= '9' }
pub open spec fn alphap(p: CodePoint) -> bool { p is Char && (('A' <= p->0 && p->0 <= 'Z') || ('a' <= p->0 && p->0 <= 'z')) }
pub open spec fn upperp(p: CodePoint) -> bool { p is Char && 'A' <= p->0 && p->0 <= 'Z' }
pub open spec fn hexp(p: CodePoint) -> bool { p is Char && is_hex_char(p->0) }
pub open spec fn octp(p: CodePoint) -> bool { p is Char && is_octal_char(p->0) }
pub open spec fn uni_alnump(p: CodePoint) -> bool { p is Char && uni_alnum(p->0) }
pub open spec fn asciip(p: CodePoint) -> bool { p is Char && (p->0 as u32) < 128 }
pub open spec fn linsyn(p: CodePoint) -> bool {
  p == CodePoint::LinearSyntax_Space || (p is Char && ({ let v = p->0 as u32; 0xf7c0 <= v <= 0xf7c2 || 0xf7c5 <= v <= 0xf7cd }))
}
pub open spec fn strmeta(p: CodePoint) -> bool {
  p is StringMeta_Open || p is StringMeta_Close || p is StringMeta_Backslash || p is StringMeta_DoubleQuote || p is StringMeta_Backspace
  || p is StringMeta_FormFeed || p is StringMeta_LineFeed || p is StringMeta_CarriageReturn || p is StringMeta_Tab
}
pub open spec fn mbwhite(p: CodePoint) -> bool { p is Char && (mb_white(p->0) || p->0 == '\u{f3a2}') }
pub open spec fn mbnewline(p: CodePoint) -> bool { p is CRLF || (p is Char && mb_newline(p->0)) }
pub open spec fn mbpunct(p: CodePoint) -> bool { p is Char && mb_punct(p->0) }
pub open spec fn mbuninterp(p: CodePoint) -> bool { p is Char && mb_uninterp(p->0) }
pub open spec fn mbletter(p: CodePoint) -> bool {
  p is Char && !asciip(p) && !mbpunct(p) && !linsyn(p) && !mbwhite(p) && !mbnewline(p) && !mbuninterp(p)
}
/// value of a digit in bases up to 36
pub open spec fn digit_val(b: int) -> int {
  if 48 <= b <= 57 { b - 48 } else if 65 <= b <= 90 { b - 55 } else if 97 <= b <= 122 { b - 87 } else { 99 }
}

@fn WLCharacter::new
@props C04
@ens res.point == $0.cp() && res.escape == Escape::None
@fn WLCharacter::escaped;WLCharacter::new_with_escape
@props C04
@ens res.point == $0.cp() && res.escape == $1
@fn WLCharacter::to_point
@ens res == self.point
@fn WLCharacter::escape
@ens res == self.escape
@fn WLCharacter::isLetterlike
@props C14
@ens res == letterlike(self.point)
@fn WLCharacter::isStrangeLetterlike
@props C14
@ens res == (letterlike(self.point) && (self.point->0 as u32) < 32)
@fn WLCharacter::isWhitespace
@props C14
@ens res == ws(self.point)
@fn WLCharacter::isStrangeWhitespace
@props C14
@ens res == (self.point is Char && (self.point->0 as u32 == 11 || self.point->0 as u32 == 12))
@fn WLCharacter::isUpper
@props C14
@ens res == upperp(self.point)
@fn WLCharacter::isAlpha
@props C14
@ens res == alphap(self.point)
@fn WLCharacter::isDigit
@props C14 C06
@ens res == digitp(self.point)
@fn WLCharacter::isAlphaOrDigit
@props C14 C06
@ens res == (digitp(self.point) || alphap(self.point))
@fn WLCharacter::isHex
@props C14
@ens res == hexp(self.point)
@fn WLCharacter::isOctal
@props C14
@ens res == octp(self.point)
@fn WLCharacter::isControl
@props C14
@ens res == (self.point is Char && ((self.point->0 as u32) < 32 || self.point->0 as u32 == 127))
@fn WLCharacter::isSign
@props C14 C06
@ens res == (self.point == CodePoint::Char('+') || self.point == CodePoint::Char('-'))
@fn WLCharacter::isMBLinearSyntax
@props C14
@ens res == linsyn(self.point)
@fn WLCharacter::isMBStringMeta
@props C14
@ens res == strmeta(self.point)
@fn WLCharacter::isMBLetterlike
@props C14
@ens res == mbletter(self.point)
@fn WLCharacter::isMBStrangeLetterlike
@props C14
@ens res ==> mbletter(self.point)
@fn WLCharacter::isMBStrangeWhitespace
@props C14
@ens res == mbwhite(self.point)
@fn WLCharacter::isMBStrangeNewline
@props C14
@ens res == (mbnewline(self.point) && !(self.point is CRLF))
@fn WLCharacter::isMBNewline
@props C14
@ens res == mbnewline(self.point)
@fn WLCharacter::isMBWhitespace
@props C14
@ens res == mbwhite(self.point)
@fn WLCharacter::isMBPunctuation
@props C14
@ens res == mbpunct(self.point)
@fn WLCharacter::isMBUninterpretable
@props C14
@ens res == mbuninterp(self.point)
@fn WLCharacter::isMBLineContinuation
@props C14
@ens res == is_lcont(self.point)
@fn WLCharacter::isMBUnsafeUTF8Sequence
@props C14
@ens res == is_unsafe(self.point)

@fn SourceCharacter::isAlphaOrDigit
@props C14
@ens res == uni_alnump(*self)
@ens asciip(*self) ==> res == ascii_alnum(self->0)
@fn SourceCharacter::isHex
@props C14
@ens res == hexp(*self)
@fn SourceCharacter::isOctal
@props C14
@ens res == octp(self)
@fn SourceCharacter::isUpper
@props C14
@ens res == upperp(*self)
@fn SourceCharacter::isEndOfFile
@props C14
@ens res == (*self == CodePoint::EndOfFile)
@fn SourceCharacter::isNewline
@props C14
@ens res == (*self == CodePoint::Char('\n') || *self == CodePoint::Char('\r'))
@fn SourceCharacter::isWhitespace
@props C14
@ens res == ws(self)
@fn SourceCharacter::isMBNewline
@props C14
@ens res == mbnewline(self)
@fn SourceCharacter::isMBWhitespace
@props C14
@ens res == (self is Char && mb_white(self->0))
@fn SourceCharacter::isMBUnsafeUTF8Sequence
@props C14
@ens res == is_unsafe(*self)

@fn isStrange
@props C14
@ens res == ($0 is Char && ({ let v = $0->0 as u32; (v < 32 && v != 9 && v != 10 && v != 13 && v != 27) || v == 127 }))
@fn isMBStrange
@trusted
@ens res == ($0 is Char && mb_strange($0->0))
@ens res ==> !asciip($0)
@fn toDigit
@props C04 C14 C06
@ens res == digit_val($0 as int)
@fn ifASCIIWLCharacter
@ens res == ($0 > 0x7f || ascii_alnum($0 as char) || $0 == 0x5d || $0 == 0x5c || $0 == $1)

//# table look-ups: trusted here, decided exhaustively over all code points / names by the native check of C14
@fn isRaw
@trusted
@ens res == name_raw(str_bytes($0))
@fn longname_to_codepoint
@trusted
@ens res == name_cp(str_bytes($0))
@fn isMBNotStrangeLetterlike
@trusted
@ens res == ($0 is Char && mb_notstrange($0->0))
@fn isMBPunctuation
@trusted
@ens res == mbpunct($0)
@ens res ==> !asciip($0)
@fn isMBWhitespace
@trusted
@ens res == ($0 is Char && mb_white($0->0))
@ens res ==> !asciip($0)
@fn isMBNewline
@trusted
@ens res == mbnewline($0)
@ens res ==> !asciip($0)
@fn isMBUninterpretable
@trusted
@ens res == mbuninterp($0)
@ens res ==> !asciip($0)
@fn asciiReplacements;replacementGraphical;certainCharacterReplacementActions
@trusted
