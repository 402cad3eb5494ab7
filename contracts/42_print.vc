@module prt
@source byte_encoder.rs
@source source.rs
@source read/wl_character.rs
@source long_names.rs
@consts FROM_DIGIT_LOOKUP
@fns encodeBytes;fromDigit;<SourceCharacter as Display>::fmt;<WLCharacter as Display>::fmt;codepoint_to_longname;codepoint_has_longname

@raw
/// where Display writes to; `alt` is the alternate flag
pub struct Formatter { pub alt: bool, pub out: Ghost<Seq<char>> }
pub struct FmtError { }
pub type FmtResult = Result<(), FmtError>;
impl Formatter {
  pub fn alternate(&self) -> (res: bool) ensures res == self.alt { self.alt }
  #[verifier::external_body]
  pub fn write_char(&mut self, c: char) -> (res: FmtResult)
    ensures final(self).alt == old(self).alt, res is Ok ==> final(self).out@ == old(self).out@.push(c),
  { unimplemented!() }
}
#[verifier::external_body]
pub fn str_chars(s: &str) -> (res: Vec<char>) ensures res@ == s@ { unimplemented!() }
/// the name of a character
pub uninterp spec fn name_of(p: CodePoint) -> Option<Seq<char>>;
/// the text of a source character
pub open spec fn cp_text(p: CodePoint) -> Option<Seq<char>> {
  match p {
    CodePoint::Char(c) => Some(seq![c]),
    CodePoint::CRLF => Some(seq!['\r', '\n']),
    CodePoint::StringMeta_DoubleQuote => Some(seq!['"']),
    CodePoint::StringMeta_Backslash => Some(seq!['\\']),
    CodePoint::Unsafe1ByteUtf8Sequence | CodePoint::Unsafe2ByteUtf8Sequence | CodePoint::Unsafe3ByteUtf8Sequence => Some(seq!['\u{FFFD}']),
    _ => None,
  }
}
pub open spec fn single_text(p: CodePoint) -> Option<Seq<char>> {
  match p {
    CodePoint::StringMeta_Backspace => Some(seq!['b']),
    CodePoint::StringMeta_FormFeed => Some(seq!['f']),
    CodePoint::StringMeta_LineFeed => Some(seq!['n']),
    CodePoint::StringMeta_CarriageReturn => Some(seq!['r']),
    CodePoint::StringMeta_Tab => Some(seq!['t']),
    CodePoint::StringMeta_Open => Some(seq!['<']),
    CodePoint::StringMeta_Close => Some(seq!['>']),
    CodePoint::StringMeta_DoubleQuote => Some(seq!['"']),
    CodePoint::StringMeta_Backslash => Some(seq!['\\']),
    CodePoint::LineContinuation_LineFeed => Some(seq!['\n']),
    CodePoint::LineContinuation_CarriageReturn => Some(seq!['\r']),
    CodePoint::LineContinuation_CRLF => Some(seq!['\r', '\n']),
    CodePoint::LinearSyntax_Space => Some(seq![' ']),
    CodePoint::Char(c) =>
      if c as u32 == 0xf7c1 { Some(seq!['!']) } else if c as u32 == 0xf7c5 { Some(seq!['%']) } else if c as u32 == 0xf7c7 { Some(seq!['&']) }
      else if c as u32 == 0xf7c9 { Some(seq!['(']) } else if c as u32 == 0xf7c0 { Some(seq![')']) } else if c as u32 == 0xf7c8 { Some(seq!['*']) }
      else if c as u32 == 0xf7cb { Some(seq!['+']) } else if c as u32 == 0xf7cc { Some(seq!['/']) } else if c as u32 == 0xf7c2 { Some(seq!['@']) }
      else if c as u32 == 0xf7c6 { Some(seq!['^']) } else if c as u32 == 0xf7ca { Some(seq!['_']) } else if c as u32 == 0xf7cd { Some(seq!['`']) }
      else { None },
    _ => None,
  }
}
pub open spec fn dig(d: int) -> char { if d < 10 { (48 + d) as u8 as char } else { (87 + d) as u8 as char } }
/// n digits of v
pub open spec fn digs(v: int, n: nat, radix: int) -> Seq<char> decreases n
{ if n == 0 { Seq::empty() } else { digs(v / radix, (n - 1) as nat, radix).push(dig(v % radix)) } }
/// the number an escaped character stands for
pub open spec fn num_of(p: CodePoint) -> int {
  match p { CodePoint::Char(c) => c as int, CodePoint::StringMeta_DoubleQuote => 0x22, CodePoint::StringMeta_Backslash => 0x5c, _ => -1 }
}
/// the text of a Wolfram character; none for a character that has no text in that form
pub open spec fn shown(c: WLCharacter) -> Option<Seq<char>> {
  let v = num_of(c.point);
  match c.escape {
    Escape::None | Escape::Raw => cp_text(c.point),
    Escape::Single => match single_text(c.point) { Some(t) => Some(seq!['\\'] + t), None => None },
    Escape::LongName => match name_of(c.point) { Some(t) => Some(seq!['\\', '['] + t + seq![']']), None => None },
    Escape::Octal => if 0 <= v < 512 { Some(seq!['\\'] + digs(v, 3, 8)) } else { None },
    Escape::Hex2 => if 0 <= v < 256 { Some(seq!['\\', '.'] + digs(v, 2, 16)) } else { None },
    Escape::Hex4 => if 0 <= v < 65536 { Some(seq!['\\', ':'] + digs(v, 4, 16)) } else { None },
    Escape::Hex6 => if 0 <= v { Some(seq!['\\', '|'] + digs(v, 6, 16)) } else { None },
  }
}

@fn codepoint_to_longname
@trusted
@ens match res { Some(t) => name_of($0) == Some(t@), None => name_of($0) is None }
@fn codepoint_has_longname
@props C16
@ens res == (name_of(CodePoint::Char($0)) is Some)
@fn fromDigit
@props C16
@req $0 < 36
@ens[C16] res == dig($0 as int)
@fn encodeBytes
@props C05 C16
@req cp_text($1) is Some
@ens final($0).alt == old($0).alt
@ens[C16] res is Ok ==> final($0).out@ =~= old($0).out@ + cp_text($1)->0
@fn <SourceCharacter as Display>::fmt
@inherent
@props C05 C16
@req !old($1).alt && cp_text(*self) is Some
@ens final($1).alt == old($1).alt
@ens[C16] res is Ok ==> final($1).out@ == old($1).out@ + cp_text(*self)->0
@fn <WLCharacter as Display>::fmt
@attr #[verifier::rlimit(150)]
@inherent
@props C05 C16
@req !old($1).alt && shown(*self) is Some
@ens final($1).alt == old($1).alt
@ens[C16] res is Ok ==> final($1).out@ =~= old($1).out@ + shown(*self)->0
@pro
proof { reveal_with_fuel(digs, 7); }
@loop *
invariant 
  !$1.alt, !old($1).alt, _i0 <= _c0.len(), _c0@ == name_of(self.point)->0, name_of(self.point) is Some, self.escape is LongName,
  $1.out@ =~= old($1).out@ + seq!['\\', '['] + _c0@.take(_i0 as int),
decreases _c0.len() - _i0,

@module prtl
@broadcast step_ascii
@raw
pub open spec fn asc(t: Seq<char>) -> Seq<u8> { t.map_values(|c: char| c as u8) }
/// the table of names: a character that was read by a name other than a \[Raw...] one has a name, which is letters and
/// digits after a capital letter and reads as that character (checked natively for every entry)
#[verifier::external_body]
pub proof fn name_tab(n: Seq<u8>)
  ensures
    name_cp(n) is Some && name_raw(n) ==> cp_text(name_cp(n)->0) is Some,
    name_cp(n) is Some && !name_raw(n) ==> ({
      let t = name_of(name_cp(n)->0);
      &&& t is Some && t->0.len() > 0 && upperp(CodePoint::Char(t->0[0]))
      &&& forall|i: int| 0 <= i < t->0.len() ==> ascii_alnum(#[trigger] t->0[i])
      &&& name_cp(asc(t->0)) == name_cp(n) && !name_raw(asc(t->0))
    }),
{ }
/// C16: every character that is read from text can be printed in its form
#[verifier::rlimit(50)]
pub proof fn prints(s: Seq<u8>, o: int)
  requires 0 <= o < s.len(),
  ensures shown(wl(s, o).0) is Some,
{
  reveal(wl);
  step_facts(s, o);
  let a = step(s, o);
  if a.0 == CodePoint::Char('\\') {
    let n = a.1; let d = step(s, n);
    step_facts(s, n);
    if d.0 is Char {
      let m = d.1;
      if d.0->0 == '[' { name_tab(s.subrange(m, run(s, m + 1))); }
      numval_max(s, m, 2, 16); numval_max(s, m, 4, 16); numval_max(s, n, 3, 8);
      assert(pw(16, 2) == 256 && pw(16, 4) == 65536 && pw(8, 3) == 512) by (compute);
    }
  }
}
pub open spec fn pw(r: int, n: nat) -> int decreases n { if n == 0 { 1 } else { pw(r, (n - 1) as nat) * r } }
pub proof fn numval_max(s: Seq<u8>, from: int, n: nat, radix: int)
  requires radix > 0,
  ensures alldig(s, from, n, radix) ==> 0 <= numval(s, from, n, radix) < pw(radix, n),
  decreases n,
{ if n > 0 { numval_max(s, from, (n - 1) as nat, radix); if alldig(s, from, n, radix) { let v = numval(s, from, (n - 1) as nat, radix); let p = pw(radix, (n - 1) as nat); assert((v + 1) * radix <= p * radix) by (nonlinear_arith) requires v + 1 <= p, radix > 0; assert((v + 1) * radix == v * radix + radix) by (nonlinear_arith); assert(v * radix >= 0) by (nonlinear_arith) requires v >= 0, radix > 0; } } }
/// digits written and read again
pub proof fn digs_read(s: Seq<u8>, from: int, v: int, n: nat, radix: int)
  requires radix == 8 || radix == 16, 0 <= v < pw(radix, n), 0 <= from, from + n <= s.len(), s.subrange(from, from + n) == asc(digs(v, n, radix)),
  ensures alldig(s, from, n, radix), numval(s, from, n, radix) == v,
  decreases n,
{
  if n > 0 {
    let m = (n - 1) as nat;
    digs_len(v / radix, m, radix);
    assert(v / radix < pw(radix, m) && v / radix >= 0 && v == (v / radix) * radix + v % radix && 0 <= v % radix < radix) by (nonlinear_arith) requires 0 <= v < pw(radix, m) * radix, radix > 0;
    assert(asc(digs(v, n, radix)).drop_last() =~= asc(digs(v / radix, m, radix)));
    assert(s.subrange(from, from + m) =~= s.subrange(from, from + n).drop_last());
    digs_read(s, from, v / radix, m, radix);
    assert(s[from + m] == s.subrange(from, from + n)[m as int]);
    assert(asc(digs(v, n, radix))[m as int] == dig(v % radix) as u8);
  }
}
pub proof fn digs_len(v: int, n: nat, radix: int)
  ensures digs(v, n, radix).len() == n,
  decreases n,
{ if n > 0 { digs_len(v / radix, (n - 1) as nat, radix); } }
#[verifier::external_body]
pub proof fn uni_ascii(c: char)
  ensures (c as u32) < 128 ==> uni_alnum(c) == ascii_alnum(c),
{ }
/// letters and digits up to e
pub proof fn run_to(s: Seq<u8>, o: int, e: int)
  requires 0 <= o <= e < s.len(), forall|i: int| o <= i < e ==> #[trigger] s[i] < 0x80 && ascii_alnum(s[i] as char), s[e] == 0x5d,
  ensures run(s, o) == e,
  decreases e - o,
{ if o < e { assert(step(s, o) == (CodePoint::Char(s[o] as char), o + 1)); uni_ascii(s[o] as char); run_to(s, o + 1, e); } else { uni_ascii(']'); assert(step(s, o) == (CodePoint::Char(']'), o + 1)); } }
/// C16: the text of an escaped character reads as that character
#[verifier::rlimit(100)]
pub proof fn round_trip(s0: Seq<u8>, o0: int, s: Seq<u8>, o: int)
  requires
    0 <= o0 < s0.len(), 0 <= o, wl(s0, o0).0.escape != Escape::None, wl(s0, o0).0.escape != Escape::Raw,
    ({ let t = shown(wl(s0, o0).0)->0; o + t.len() <= s.len() && s.subrange(o, o + t.len()) == asc(t) && (t.last() == '\r' && o + t.len() < s.len() ==> s[o + t.len()] != 0x0a) }),
  ensures shown(wl(s0, o0).0) is Some, wl(s, o) == (wl(s0, o0).0, o + shown(wl(s0, o0).0)->0.len()),
{
  prints(s0, o0);
  reveal(wl);
  let c = wl(s0, o0).0; let t = shown(c)->0; let v = num_of(c.point);
  step_facts(s0, o0); step_facts(s0, o0 + 1);
  assert forall|i: int| 0 <= i < t.len() implies s[o + i] == #[trigger] t[i] as u8 by { assert(s[o + i] == s.subrange(o, o + t.len())[i]); assert(asc(t)[i] == t[i] as u8); }
  assert(t[0] == '\\');
  assert(step(s, o) == (CodePoint::Char('\\'), o + 1));
  let d = step(s, o + 1);
  match c.escape {
    Escape::Single => {
      let x = single_text(c.point)->0;
      assert(t[1] == x[0]);
      if x.len() == 2 { assert(t[2] == x[1]); assert(s[o + 2] == 0x0a); }
      step_cr(s, o + 1);
    },
    Escape::LongName => {
      let n = o0 + 1; let m = step(s0, n).1;
      name_tab(s0.subrange(m, run(s0, m + 1)));
      let x = name_of(c.point)->0; let e = o + 2 + x.len();
      assert(t[1] == '[' && t.len() == x.len() + 3 && t[t.len() - 1] == ']');
      assert(s[o + 1] == 0x5b && s[e] == 0x5d);
      assert forall|i: int| 0 <= i < x.len() implies #[trigger] s[o + 2 + i] == x[i] as u8 by { assert(t[2 + i] == x[i]); assert(s[o + (2 + i)] == t[2 + i] as u8); }
      assert forall|i: int| o + 3 <= i < e implies #[trigger] s[i] < 0x80 && ascii_alnum(s[i] as char) by { let j = i - o - 2; assert(s[o + 2 + j] == x[j] as u8); assert(ascii_alnum(x[j])); }
      run_to(s, o + 3, e);
      assert(s[o + 2 + 0] == x[0] as u8);
      assert forall|i: int| 0 <= i < x.len() implies s.subrange(o + 2, e)[i] == #[trigger] asc(x)[i] by { assert(s[o + 2 + i] == x[i] as u8); }
      assert(s.subrange(o + 2, e) =~= asc(x));
    },
    Escape::Octal => { tail_is(s, o, seq!['\\'], digs(v, 3, 8)); digs_len(v, 3, 8); assert(pw(8, 3) == 512) by (compute); digs_read(s, o + 1, v, 3, 8); assert(alldig(s, o + 1, 1, 8)) by { reveal_with_fuel(alldig, 4); } assert(digit_val(byt(s, o + 1)) < 8) by { reveal_with_fuel(alldig, 3); } dig_first(s, o, v); },
    Escape::Hex2 => { tail_is(s, o, seq!['\\', '.'], digs(v, 2, 16)); digs_len(v, 2, 16); assert(pw(16, 2) == 256) by (compute); digs_read(s, o + 2, v, 2, 16); assert(t[1] == '.'); },
    Escape::Hex4 => { tail_is(s, o, seq!['\\', ':'], digs(v, 4, 16)); digs_len(v, 4, 16); assert(pw(16, 4) == 65536) by (compute); digs_read(s, o + 2, v, 4, 16); assert(t[1] == ':'); },
    Escape::Hex6 => { tail_is(s, o, seq!['\\', '|'], digs(v, 6, 16)); digs_len(v, 6, 16); assert(pw(16, 6) == 16777216) by (compute); digs_read(s, o + 2, v, 6, 16); assert(t[1] == '|'); },
    _ => {},
  }
}
/// the part of the text after h
pub proof fn tail_is(s: Seq<u8>, o: int, h: Seq<char>, d: Seq<char>)
  requires 0 <= o, o + (h + d).len() <= s.len(), s.subrange(o, o + (h + d).len()) == asc(h + d),
  ensures s.subrange(o + h.len(), o + h.len() + d.len()) == asc(d),
{
  assert forall|i: int| 0 <= i < d.len() implies s.subrange(o + h.len(), o + h.len() + d.len())[i] == #[trigger] asc(d)[i] by {
    assert(s.subrange(o, o + (h + d).len())[h.len() + i] == s[o + h.len() + i]); assert(asc(h + d)[h.len() + i] == (h + d)[h.len() + i] as u8);
  }
  assert(s.subrange(o + h.len(), o + h.len() + d.len()) =~= asc(d));
}
pub proof fn step_cr(s: Seq<u8>, o: int)
  ensures 0 <= o < s.len() && s[o] == 0x0d ==> (if o + 1 < s.len() && s[o + 1] == 0x0a { step(s, o) == (CodePoint::CRLF, o + 2) } else { step(s, o) == (CodePoint::Char('\r'), o + 1) }),
{ reveal(step); }
pub proof fn dig_first(s: Seq<u8>, o: int, v: int)
  requires 0 <= v < 512, 0 <= o, o + 4 <= s.len(), s.subrange(o + 1, o + 4) == asc(digs(v, 3, 8)),
  ensures 48 <= s[o + 1] <= 55,
{
  reveal_with_fuel(digs, 4);
  assert(s[o + 1] == s.subrange(o + 1, o + 4)[0]);
  assert(asc(digs(v, 3, 8))[0] == digs(v, 3, 8)[0] as u8);
  assert(digs(v, 3, 8)[0] == dig(v / 8 / 8 % 8));
}
/// UTF-8
pub open spec fn enc(v: int) -> Seq<int> {
  if v < 0x80 { seq![v] }
  else if v < 0x800 { seq![0xc0 + v / 64, 0x80 + v % 64] }
  else if v < 0x10000 { seq![0xe0 + v / 4096, 0x80 + v / 64 % 64, 0x80 + v % 64] }
  else { seq![0xf0 + v / 262144, 0x80 + v / 4096 % 64, 0x80 + v / 64 % 64, 0x80 + v % 64] }
}
pub open spec fn text_bytes(t: Seq<char>) -> Seq<int> decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { text_bytes(t.drop_last()) + enc(t.last() as int) } }
pub proof fn enc_2(a: int, b: int)
  ensures 0xc2 <= a <= 0xdf && 0x80 <= b <= 0xbf ==> enc((a - 0xc0) * 64 + (b - 0x80)) == seq![a, b],
{ }
pub proof fn enc_3(a: int, b: int, c: int)
  ensures 0xe0 <= a <= 0xef && 0x80 <= b <= 0xbf && 0x80 <= c <= 0xbf && (a == 0xe0 ==> b >= 0xa0) ==> enc((a - 0xe0) * 4096 + (b - 0x80) * 64 + (c - 0x80)) == seq![a, b, c],
{
  let v = (a - 0xe0) * 4096 + (b - 0x80) * 64 + (c - 0x80);
  if 0xe0 <= a <= 0xef && 0x80 <= b <= 0xbf && 0x80 <= c <= 0xbf && (a == 0xe0 ==> b >= 0xa0) {
    assert(v / 64 == (a - 0xe0) * 64 + (b - 0x80)); assert(v / 4096 == a - 0xe0);
    assert(v / 64 % 64 == b - 0x80); assert(v % 64 == c - 0x80);
  }
}
pub proof fn enc_4(a: int, b: int, c: int, d: int)
  ensures 0xf0 <= a <= 0xf4 && 0x80 <= b <= 0xbf && 0x80 <= c <= 0xbf && 0x80 <= d <= 0xbf && (a == 0xf0 ==> b >= 0x90) ==> enc((a - 0xf0) * 262144 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80)) == seq![a, b, c, d],
{
  let v = (a - 0xf0) * 262144 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80);
  if 0xf0 <= a <= 0xf4 && 0x80 <= b <= 0xbf && 0x80 <= c <= 0xbf && 0x80 <= d <= 0xbf && (a == 0xf0 ==> b >= 0x90) {
    assert(v / 64 == (a - 0xf0) * 4096 + (b - 0x80) * 64 + (c - 0x80)); assert(v / 4096 == (a - 0xf0) * 64 + (b - 0x80)); assert(v / 262144 == a - 0xf0);
    assert(v / 4096 % 64 == b - 0x80); assert(v / 64 % 64 == c - 0x80); assert(v % 64 == d - 0x80);
  }
}
pub proof fn one_byte(c: char)
  ensures text_bytes(seq![c]) == enc(c as int),
{ reveal_with_fuel(text_bytes, 2); assert(seq![c].drop_last() =~= Seq::empty()); assert(text_bytes(seq![c]) =~= enc(c as int)); }
pub proof fn crlf_bytes()
  ensures text_bytes(seq!['\r', '\n']) == seq![13int, 10int],
{
  reveal_with_fuel(text_bytes, 2); assert(seq!['\r', '\n'].drop_last() =~= seq!['\r']); one_byte('\r');
  assert(enc(13) =~= seq![13int]); assert(enc(10) =~= seq![10int]);
  assert(text_bytes(seq!['\r', '\n']) =~= seq![13int, 10int]);
}
/// C16: a well-formed source character prints as the bytes it was read from
pub proof fn prints_back(s: Seq<u8>, o: int)
  requires 0 <= o < s.len(), !is_unsafe(step(s, o).0),
  ensures cp_text(step(s, o).0) is Some, text_bytes(cp_text(step(s, o).0)->0) =~= s.subrange(o, step(s, o).1).map_values(|b: u8| b as int),
{
  hide(enc); hide(text_bytes);
  reveal(step); step_facts(s, o); crlf_bytes();
  let b0 = byt(s, o); let b1 = byt(s, o + 1); let b2 = byt(s, o + 2); let b3 = byt(s, o + 3);
  enc_2(b0, b1); enc_3(b0, b1, b2); enc_4(b0, b1, b2, b3); enc_1(b0);
  if let CodePoint::Char(c) = step(s, o).0 { one_byte(c); }
}
pub proof fn enc_1(a: int)
  ensures 0 <= a < 0x80 ==> enc(a) == seq![a],
{ }
