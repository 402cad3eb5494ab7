@module chardec
@source read/character_decoder.rs
@source source.rs
@source read.rs
@type BufferAndLength #[derive(Copy, Clone)]
@fns read/character_decoder.rs:* BufferAndLength::between BufferAndLength::as_str Reader::next_wolfram_char Reader::peek_wolfram_char
@fns <NextPolicy as BitOrAssign>::bitor_assign;NextPolicy::none_
@broadcast step_ascii pos_pair pos_room clean0 clean_snoc bits_policy sub_sub
@default Reader req rinv(*$p)
@table CHARACTER_DECODER_HANDLER_TABLE | session: &mut Reader, mark: InputMark, policy: NextPolicy | WLCharacter | C04,C05,C02
requires index < 128, scan_ok(mark, policy), esc_pre(*old(session), mark), at_mark(*old(session), mark), old(session).offset < old(session).input@.len(), old(session).input@[old(session).offset as int] == index,
ensures rinv(*final(session)) && same(*old(session), *final(session)),
  (res, final(session).offset as int) == esc(old(session).input@, mark.offset as int),

@raw
pub open spec fn wlc(p: CodePoint, e: Escape) -> WLCharacter { WLCharacter { point: p, escape: e } }
pub open spec fn alldig(s: Seq<u8>, from: int, n: nat, radix: int) -> bool
  decreases n,
{ n == 0 || (alldig(s, from, (n - 1) as nat, radix) && digit_val(byt(s, from + n - 1)) < radix) }
pub open spec fn numval(s: Seq<u8>, from: int, n: nat, radix: int) -> int
  decreases n,
{ if n == 0 { 0 } else { numval(s, from, (n - 1) as nat, radix) * radix + digit_val(byt(s, from + n - 1)) } }
/// a numeric escape of n digits from `from`; the backslash alone if it is none
pub open spec fn numesc(s: Seq<u8>, bs: int, from: int, n: nat, radix: int, e: Escape) -> (WLCharacter, int) {
  let v = numval(s, from, n, radix);
  if !alldig(s, from, n, radix) || !scalar(v) { (wlc(CodePoint::Char('\\'), Escape::None), bs) }
  else if v == 0x22 { (wlc(CodePoint::StringMeta_DoubleQuote, e), from + n) }
  else if v == 0x5c { (wlc(CodePoint::StringMeta_Backslash, e), from + n) }
  else { (wlc(chr(v), e), from + n) }
}
/// end of the run of letters and digits at o
pub open spec fn run(s: Seq<u8>, o: int) -> int
  decreases s.len() - o,
  when 0 <= o
{ if o < s.len() && o < step(s, o).1 && uni_alnump(step(s, o).0) { run(s, step(s, o).1) } else { o } }
/// the escape whose text starts at n, just after a backslash: (character, offset after)
pub open spec fn esc(s: Seq<u8>, n: int) -> (WLCharacter, int) {
  let d = step(s, n);
  let lit = (wlc(CodePoint::Char('\\'), Escape::None), n);
  if d.0 == CodePoint::CRLF { (wlc(CodePoint::LineContinuation_CRLF, Escape::Single), d.1) }
  else if d.0 is Char {
    let c = d.0->0;
    let m = d.1;
    if c == '\n' { (wlc(CodePoint::LineContinuation_LineFeed, Escape::Single), m) }
    else if c == '\r' { (wlc(CodePoint::LineContinuation_CarriageReturn, Escape::Single), m) }
    else if c == '<' { (wlc(CodePoint::StringMeta_Open, Escape::Single), m) }
    else if c == '>' { (wlc(CodePoint::StringMeta_Close, Escape::Single), m) }
    else if c == '"' { (wlc(CodePoint::StringMeta_DoubleQuote, Escape::Single), m) }
    else if c == '\\' { (wlc(CodePoint::StringMeta_Backslash, Escape::Single), m) }
    else if c == 'b' { (wlc(CodePoint::StringMeta_Backspace, Escape::Single), m) }
    else if c == 'f' { (wlc(CodePoint::StringMeta_FormFeed, Escape::Single), m) }
    else if c == 'n' { (wlc(CodePoint::StringMeta_LineFeed, Escape::Single), m) }
    else if c == 'r' { (wlc(CodePoint::StringMeta_CarriageReturn, Escape::Single), m) }
    else if c == 't' { (wlc(CodePoint::StringMeta_Tab, Escape::Single), m) }
    else if c == ' ' { (wlc(CodePoint::LinearSyntax_Space, Escape::Single), m) }
    else if c == ')' { (wlc(chr(0xf7c0), Escape::Single), m) }
    else if c == '!' { (wlc(chr(0xf7c1), Escape::Single), m) }
    else if c == '@' { (wlc(chr(0xf7c2), Escape::Single), m) }
    else if c == '%' { (wlc(chr(0xf7c5), Escape::Single), m) }
    else if c == '^' { (wlc(chr(0xf7c6), Escape::Single), m) }
    else if c == '&' { (wlc(chr(0xf7c7), Escape::Single), m) }
    else if c == '*' { (wlc(chr(0xf7c8), Escape::Single), m) }
    else if c == '(' { (wlc(chr(0xf7c9), Escape::Single), m) }
    else if c == '_' { (wlc(chr(0xf7ca), Escape::Single), m) }
    else if c == '+' { (wlc(chr(0xf7cb), Escape::Single), m) }
    else if c == '/' { (wlc(chr(0xf7cc), Escape::Single), m) }
    else if c == '`' { (wlc(chr(0xf7cd), Escape::Single), m) }
    else if c == '.' { numesc(s, n, m, 2, 16, Escape::Hex2) }
    else if c == ':' { numesc(s, n, m, 4, 16, Escape::Hex4) }
    else if c == '|' { numesc(s, n, m, 6, 16, Escape::Hex6) }
    else if '0' <= c && c <= '7' { numesc(s, n, n, 3, 8, Escape::Octal) }
    else if c == '[' {
      let e = run(s, m + 1);
      let name = s.subrange(m, e);
      if upperp(step(s, m).0) && step(s, e).0 == CodePoint::Char(']') && name_cp(name) is Some {
        (wlc(name_cp(name)->0, if name_raw(name) { Escape::Raw } else { Escape::LongName }), e + 1)
      } else { lit }
    }
    else { lit }
  }
  else { lit }
}
/// the Wolfram character at o: (character, offset after)
#[verifier::opaque]
pub open spec fn wl(s: Seq<u8>, o: int) -> (WLCharacter, int) {
  let a = step(s, o);
  if a.0 != CodePoint::Char('\\') { (wlc(a.0, Escape::None), a.1) } else { esc(s, a.1) }
}
pub open spec fn esc_pre(r: Reader, m: InputMark) -> bool {
  &&& rinv(r) && mark_of(r, m) && left(m.src_loc) >= 1 && m.wasEOF is Some
}
pub open spec fn at_mark(r: Reader, m: InputMark) -> bool { r.offset == m.offset }
/// the inner scan after an escaped backslash has two backslashes to its left
pub open spec fn scan_ok(m: InputMark, p: NextPolicy) -> bool { pol(p, SCAN_FOR_UNRECOGNIZEDLONGNAMES) ==> left(m.src_loc) >= 2 }
pub open spec fn noscan(p: NextPolicy) -> bool { !pol(p, SCAN_FOR_UNRECOGNIZEDLONGNAMES) }
/// the reader is just after the (ASCII) character at the mark
pub open spec fn after_mark(r: Reader, m: InputMark) -> bool {
  m.offset < r.input@.len() && r.input@[m.offset as int] < 0x80 && r.input@[m.offset as int] != 0x0d && r.offset == m.offset + 1
}

@fn <NextPolicy as BitOrAssign>::bitor_assign
@inherent
@ens final(self).0 == old(self).0 | $1.0

@fn BufferAndLength::between
@trusted
@req $1@.len() <= $0@.len() && $1@ == $0@.subrange($0@.len() - $1@.len(), $0@.len() as int)
@ens res.buf@ == $0@.subrange(0, $0@.len() - $1@.len())
@fn BufferAndLength::as_str
@trusted
//# clean text, or one ASCII byte, is valid UTF-8
@req (self.buf@.len() == 1 && self.buf@[0] < 0x80) || exists|s: Seq<u8>, a: int, b: int| #[trigger] clean(s, a, b) && 0 <= a <= b <= s.len() && self.buf@ == s.subrange(a, b)
@ens str_bytes(res) == self.buf@

@fn CharacterDecoder_nextWLCharacter
@pro
proof { reveal(wl); }
@props C02 C04 C05
@req rinv(*old($0)) && noscan($1)
@ens rinv(*final($0)) && same(*old($0), *final($0))
@ens[C04] (res, final($0).offset as int) == wl(old($0).input@, old($0).offset as int)

@fn CharacterDecoder_handleStringMetaDoubleQuote;CharacterDecoder_handleStringMetaOpen;CharacterDecoder_handleStringMetaClose;CharacterDecoder_handleStringMetaBackslash;CharacterDecoder_handleUncommon
@props C02 C04 C05
@req esc_pre(*old($0), $1) && at_mark(*old($0), $1) && scan_ok($1, $2)
@ens rinv(*final($0)) && same(*old($0), *final($0))
@ens[C04] (res, final($0).offset as int) == esc(old($0).input@, $1.offset as int)
@fn CharacterDecoder_handleStringMetaDoubleQuote
@req byt(old($0).input@, old($0).offset as int) == 0x22
@fn CharacterDecoder_handleStringMetaOpen
@req byt(old($0).input@, old($0).offset as int) == 0x3c
@fn CharacterDecoder_handleStringMetaClose
@req byt(old($0).input@, old($0).offset as int) == 0x3e
@fn CharacterDecoder_handleStringMetaBackslash
@req byt(old($0).input@, old($0).offset as int) == 0x5c
@fn CharacterDecoder_handleUncommon
@req ({ let b = byt(old($0).input@, old($0).offset as int); b != 0x22 && b != 0x3c && b != 0x3e && b != 0x5c })

@fn CharacterDecoder_handleUnhandledEscape
@props C02 C04 C05
@req esc_pre(*old($0), $1) && at_mark(*old($0), $1) && scan_ok($1, $2)
@ens rinv(*final($0)) && same(*old($0), *final($0))
@ens[C04] final($0).offset == old($0).offset && res == wlc(CodePoint::Char('\\'), Escape::None)
@loop *
invariant rinv(*$0), same(*old($0), *$0), $0.offset >= $1.offset, curSource == step($0.input@, $0.offset as int).0,
decreases $0.input@.len() - $0.offset,

@fn CharacterDecoder_handleLongName;CharacterDecoder_handle4Hex;CharacterDecoder_handle2Hex;CharacterDecoder_handle6Hex;CharacterDecoder_handleOctal
@props C02 C04 C05
@req esc_pre(*old($0), $1) && after_mark(*old($0), $1) && scan_ok($1, $2)
@ens rinv(*final($0)) && same(*old($0), *final($0))
@ens[C04] (res, final($0).offset as int) == esc(old($0).input@, $1.offset as int)
@fn CharacterDecoder_handleLongName
@attr #[verifier::rlimit(30)]
@pro
proof { clean1($0.input@, $1.offset + 1); }
@req old($0).input@[$1.offset as int] == 0x5b
@loop *
invariant rinv(*$0), same(*old($0), *$0), curSource == step($0.input@, $0.offset as int).0, $0.offset >= $1.offset + 2,
  run($0.input@, $1.offset + 2) == run($0.input@, $0.offset as int), clean($0.input@, $1.offset + 1, $0.offset as int),
  !wellFormed,
ensures wellFormed == (curSource == CodePoint::Char(']')), run($0.input@, $0.offset as int) == $0.offset,
decreases $0.input@.len() - $0.offset,
@fn CharacterDecoder_handle4Hex
@attr #[verifier::rlimit(30)]
@req old($0).input@[$1.offset as int] == 0x3a
@pro
proof { reveal_with_fuel(alldig, 5); reveal_with_fuel(numval, 5); }
@loop *
invariant rinv(*$0), same(*old($0), *$0), $0.offset == $1.offset + 1 + _i, alldig($0.input@, $1.offset + 1, _i as nat, 16), clean($0.input@, $1.offset + 1, $0.offset as int),
@fn CharacterDecoder_handle2Hex
@req old($0).input@[$1.offset as int] == 0x2e
@pro
proof { reveal_with_fuel(alldig, 3); reveal_with_fuel(numval, 3); }
@loop *
invariant rinv(*$0), same(*old($0), *$0), $0.offset == $1.offset + 1 + _i, alldig($0.input@, $1.offset + 1, _i as nat, 16), clean($0.input@, $1.offset + 1, $0.offset as int),
@fn CharacterDecoder_handle6Hex
@attr #[verifier::rlimit(40)]
@req old($0).input@[$1.offset as int] == 0x7c
@pro
proof { reveal_with_fuel(alldig, 7); reveal_with_fuel(numval, 7); }
@loop *
invariant rinv(*$0), same(*old($0), *$0), $0.offset == $1.offset + 1 + _i, alldig($0.input@, $1.offset + 1, _i as nat, 16), clean($0.input@, $1.offset + 1, $0.offset as int),
@fn CharacterDecoder_handleOctal
@req 0x30 <= old($0).input@[$1.offset as int] <= 0x37
@pro
proof { clean1($0.input@, $1.offset as int); assert(step($0.input@, $1.offset as int).1 == $1.offset + 1); reveal_with_fuel(alldig, 4); reveal_with_fuel(numval, 4); }
@loop *
invariant rinv(*$0), same(*old($0), *$0), $0.offset == $1.offset + 1 + _i, alldig($0.input@, $1.offset as int, (1 + _i) as nat, 8), clean($0.input@, $1.offset as int, $0.offset as int),

@fn CharacterDecoder_handleBackslash
@props C02 C04 C05
@req rinv(*old($0)) && left(old($0).SrcLoc) >= 2 && !old($0).wasEOF
@ens rinv(*final($0)) && same(*old($0), *final($0)) && final($0).offset == old($0).offset
@ens[C04] res == wlc(CodePoint::StringMeta_Backslash, Escape::Single)
@loop *
invariant rinv(*$0), same(*old($0), *$0), !wellFormed, c != CodePoint::EndOfFile && !is_unsafe(c) ==> !$0.wasEOF,
decreases $0.input@.len() - $0.offset, if c == CodePoint::EndOfFile { 0int } else { 1int },

@fn CharacterDecoder_longNameSuggestion
@trusted
@fn check_strange_syntax_issue
@props C02 C05
@req rinv(*old($0)) && loc_le($3, old($0).SrcLoc) && left($3) >= 1
@ens rinv(*final($0)) && only_issues(*old($0), *final($0))
@loop *
invariant rinv(*$0), only_issues(*old($0), *$0),

@fn Reader::next_wolfram_char
@props C04 C05
@req rinv(*old(self)) && noscan($1)
@ens rinv(*final(self)) && same(*old(self), *final(self))
@ens[C04] (res, final(self).offset as int) == wl(old(self).input@, old(self).offset as int)
@fn Reader::peek_wolfram_char
@props C04 C05
@req rinv(*old(self)) && noscan($1)
@ens rinv(*final(self)) && same(*old(self), *final(self)) && at_same_place(*old(self), *final(self))
@ens[C04] res == wl(old(self).input@, old(self).offset as int).0
