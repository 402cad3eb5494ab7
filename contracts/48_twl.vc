@module twlm
@broadcast step_ascii
@raw
/// end of the run of spaces and tabs after a line continuation
#[verifier::opaque]
pub open spec fn skipws(s: Seq<u8>, o: int) -> int
  decreases s.len() - o,
  when 0 <= o
{ if ws(wl(s, o).0.point) && o < wl(s, o).1 <= s.len() { skipws(s, wl(s, o).1) } else { o } }
/// the Wolfram character at o, line continuations (with the white space that follows them) passed over
#[verifier::opaque]
pub open spec fn twl(s: Seq<u8>, o: int) -> (WLCharacter, int)
  decreases s.len() - o,
  when 0 <= o
{ if is_lcont(wl(s, o).0.point) && o < skipws(s, wl(s, o).1) <= s.len() { twl(s, skipws(s, wl(s, o).1)) } else { wl(s, o) } }
/// ... when the character c ending at n has been read
pub open spec fn twl_from(s: Seq<u8>, c: WLCharacter, n: int) -> (WLCharacter, int) {
  if is_lcont(c.point) { twl(s, skipws(s, n)) } else { (c, n) }
}
pub open spec fn point_ok(p: CodePoint) -> bool {
  p is Char || p is EndOfFile || is_unsafe(p) || p is CRLF || strmeta(p) || p is LinearSyntax_Space
}
/// what the name table holds (decided exhaustively by the native check of C14)
#[verifier::external_body]
pub proof fn name_cp_facts(s: Seq<u8>)
  ensures name_cp(s) is Some ==> (name_cp(s)->0 is Char || strmeta(name_cp(s)->0)),
{}
pub proof fn run_facts(s: Seq<u8>, o: int)
  requires 0 <= o <= s.len(),
  ensures o <= run(s, o) <= s.len(),
  decreases s.len() - o,
{ step_facts(s, o); if o < s.len() && o < step(s, o).1 && uni_alnump(step(s, o).0) { run_facts(s, step(s, o).1); } }
pub proof fn dig_facts(s: Seq<u8>, from: int, n: nat, radix: int)
  requires alldig(s, from, n, radix), radix <= 36, n >= 1,
  ensures from + n <= s.len(),
{ }
pub proof fn wl_facts(s: Seq<u8>, o: int)
  requires 0 <= o <= s.len(),
  ensures ({ let a = wl(s, o);
    &&& (o < s.len() ==> o < a.1 <= s.len() && !(a.0.point is EndOfFile))
    &&& (o == s.len() ==> a == (wlc(CodePoint::EndOfFile, Escape::None), o))
    &&& (point_ok(a.0.point) || is_lcont(a.0.point))
    &&& (a.0.escape == Escape::None && a.0.point is Char && (a.0.point->0 as u32) < 128 ==> a.1 == o + 1 && s[o] == a.0.point->0 as u32)
  }),
{
  reveal(wl);
  step_facts(s, o); step_ascii(s, o);
  let a = step(s, o);
  if a.0 == CodePoint::Char('\\') {
    let n = a.1;
    step_facts(s, n); step_ascii(s, n);
    let d = step(s, n);
    let m = d.1;
    if d.0 is Char {
      if d.0->0 == '[' {
        step_facts(s, m); step_ascii(s, m);
        if upperp(step(s, m).0) {
          run_facts(s, m + 1);
          let e = run(s, m + 1);
          step_facts(s, e); step_ascii(s, e);
          name_cp_facts(s.subrange(m, e));
        }
      }
      if alldig(s, m, 2, 16) { dig_facts(s, m, 2, 16); }
      if alldig(s, m, 4, 16) { dig_facts(s, m, 4, 16); }
      if alldig(s, m, 6, 16) { dig_facts(s, m, 6, 16); }
      if alldig(s, n, 3, 8) { dig_facts(s, n, 3, 8); }
    }
  }
}
pub proof fn skipws_facts(s: Seq<u8>, o: int)
  requires 0 <= o <= s.len(),
  ensures o <= skipws(s, o) <= s.len(), !ws(wl(s, skipws(s, o)).0.point),
  decreases s.len() - o,
{ reveal(skipws); wl_facts(s, o); if ws(wl(s, o).0.point) && o < wl(s, o).1 <= s.len() { skipws_facts(s, wl(s, o).1); } }
pub broadcast proof fn twl_facts(s: Seq<u8>, o: int)
  ensures
    #![trigger twl(s, o)]
    0 <= o <= s.len() ==> ({ let a = twl(s, o);
    &&& o <= a.1 <= s.len()
    &&& (a.0.point is EndOfFile <==> a.0 == wlc(CodePoint::EndOfFile, Escape::None))
    &&& (a.0.point is EndOfFile ==> a.1 == s.len())
    &&& (!(a.0.point is EndOfFile) ==> o < a.1)
    &&& point_ok(a.0.point)
  }),
  decreases s.len() - o,
{
  reveal(twl); reveal(skipws);
  if 0 <= o <= s.len() {
    wl_facts(s, o);
    if o < s.len() { skipws_facts(s, wl(s, o).1); twl_facts(s, skipws(s, wl(s, o).1)); }
  }
}


pub broadcast proof fn twl_read(s: Seq<u8>, o: int)
  ensures
    #![trigger wl(s, o)]
    0 <= o <= s.len() ==> twl(s, o) == twl_from(s, wl(s, o).0, wl(s, o).1)
      && skipws(s, o) == (if ws(wl(s, o).0.point) { skipws(s, wl(s, o).1) } else { o })
      && o <= wl(s, o).1 <= s.len() && (o < s.len() ==> o < wl(s, o).1)
      && (wl(s, o).0.point is EndOfFile <==> o == s.len())
      && (point_ok(wl(s, o).0.point) || is_lcont(wl(s, o).0.point)),
{
  reveal(twl); reveal(skipws);
  if 0 <= o <= s.len() {
    wl_facts(s, o);
    if o < s.len() { skipws_facts(s, wl(s, o).1); }
  }
}
/// a plain ASCII character is its byte, unless an escape or a line continuation comes first
pub broadcast proof fn twl_ascii(s: Seq<u8>, o: int)
  ensures
    #![trigger twl(s, o)]
    0 <= o <= s.len() && twl(s, o).0.point is Char && (twl(s, o).0.point->0 as u32) < 128 ==> o < s.len() && (s[o] == 0x5c || s[o] == twl(s, o).0.point->0 as u32),
{ reveal(wl); reveal(twl); if 0 <= o <= s.len() { wl_facts(s, o); step_facts(s, o); step_ascii(s, o); } }
pub broadcast proof fn pol_drop(a: u8, b: u8)
  ensures
    #![trigger (a & !b)]
    (b == 2 || b == 4 || b == 0) ==> (a & !b) & 0x40 == a & 0x40 && (a & !b) & 32 == a & 32,
    b == 2 || b == 0 ==> (a & !b) & 4 == a & 4,
    b == 4 ==> (a & !b) & 4 == 0,
{
  assert((b == 2 || b == 4 || b == 0) ==> (a & !b) & 32 == a & 32) by (bit_vector);
  assert((b == 2 || b == 4 || b == 0) ==> (a & !b) & 0x40 == a & 0x40) by (bit_vector);
  assert((b == 2 || b == 0) ==> (a & !b) & 4 == a & 4) by (bit_vector);
  assert((b == 4) ==> (a & !b) & 4 == 0) by (bit_vector);
}
pub broadcast proof fn pol_add(a: u8, b: u8)
  ensures
    #![trigger (a | b)]
    b == 8 ==> (a | b) & 0x40 == a & 0x40,
{ assert(b == 8 ==> (a | b) & 0x40 == a & 0x40) by (bit_vector); }

pub broadcast proof fn twl_plain(s: Seq<u8>, o: int)
  ensures
    #![trigger step(s, o), twl(s, o)]
    0 <= o <= s.len() && step(s, o).0 != CodePoint::Char('\\') ==> twl(s, o) == (wlc(step(s, o).0, Escape::None), step(s, o).1),
{ reveal(wl); reveal(twl); step_ascii(s, o); }
pub broadcast proof fn shl2(a: u8)
  ensures #![trigger a << 2] a == 1 ==> a << 2 == 4, a == 0 ==> a << 2 == 0,
{ assert(a == 1 ==> a << 2 == 4) by (bit_vector); assert(a == 0 ==> a << 2 == 0) by (bit_vector); }
/// end of the string whose text goes on at o: just behind the next quote that is not part of an escape
pub open spec fn str_end(s: Seq<u8>, o: int) -> (TokenKind, int)
  decreases s.len() - o,
  when 0 <= o
{
  let a = twl(s, o);
  if a.0.point is EndOfFile { (TokenKind::Error_UnterminatedString, a.1) }
  else if a.0.point == CodePoint::Char('"') { (TokenKind::String, a.1) }
  else if o < a.1 <= s.len() { str_end(s, a.1) } else { (TokenKind::String, o) }
}
/// end of the comment inside d open comments, when the character c that ends at o has been read
pub open spec fn com(s: Seq<u8>, c: CodePoint, o: int, d: int) -> (TokenKind, int)
  decreases s.len() - o,
  when 0 <= o
{
  let a = step(s, o);
  let b = step(s, a.1);
  if c is EndOfFile { (TokenKind::Error_UnterminatedComment, o) }
  else if o >= s.len() || !(o < a.1 <= s.len()) { (TokenKind::Error_UnterminatedComment, o) }
  else if c == CodePoint::Char('(') && a.0 == CodePoint::Char('*') { if a.1 < b.1 <= s.len() { com(s, b.0, b.1, d + 1) } else { (TokenKind::Error_UnterminatedComment, a.1) } }
  else if c == CodePoint::Char('*') && a.0 == CodePoint::Char(')') {
    if d == 1 { (TokenKind::Comment, a.1) } else if a.1 < b.1 <= s.len() { com(s, b.0, b.1, d - 1) } else { (TokenKind::Error_UnterminatedComment, a.1) }
  }
  else { com(s, a.0, a.1, d) }
}
/// end of the comment whose text goes on at o inside d open comments
pub open spec fn com_end(s: Seq<u8>, o: int, d: int) -> (TokenKind, int) { com(s, step(s, o).0, step(s, o).1, d) }

pub broadcast proof fn str_facts(s: Seq<u8>, o: int)
  ensures
    #![trigger str_end(s, o)]
    0 <= o <= s.len() ==> o <= str_end(s, o).1 <= s.len() && (str_end(s, o).0 == TokenKind::String || (str_end(s, o).0 == TokenKind::Error_UnterminatedString && str_end(s, o).1 == s.len())),
  decreases s.len() - o,
{
  if 0 <= o <= s.len() {
    twl_facts(s, o);
    let a = twl(s, o);
    if !(a.0.point is EndOfFile) && a.0.point != CodePoint::Char('"') { str_facts(s, a.1); }
  }
}
pub proof fn com_facts(s: Seq<u8>, c: CodePoint, o: int, d: int)
  requires 0 <= o <= s.len(), c is EndOfFile ==> o == s.len(),
  ensures o <= com(s, c, o, d).1 <= s.len(), com(s, c, o, d).0 == TokenKind::Comment || (com(s, c, o, d).0 == TokenKind::Error_UnterminatedComment && com(s, c, o, d).1 == s.len()),
  decreases s.len() - o,
{
  step_facts(s, o);
  let a = step(s, o);
  step_facts(s, a.1);
  let b = step(s, a.1);
  if c is EndOfFile || o >= s.len() {}
  else if c == CodePoint::Char('(') && a.0 == CodePoint::Char('*') { if a.1 < b.1 <= s.len() { com_facts(s, b.0, b.1, d + 1); } }
  else if c == CodePoint::Char('*') && a.0 == CodePoint::Char(')') { if d != 1 && a.1 < b.1 <= s.len() { com_facts(s, b.0, b.1, d - 1); } }
  else { com_facts(s, a.0, a.1, d); }
}
pub broadcast proof fn com_end_facts(s: Seq<u8>, o: int, d: int)
  ensures
    #![trigger com_end(s, o, d)]
    0 <= o <= s.len() ==> o <= com_end(s, o, d).1 <= s.len() && (com_end(s, o, d).0 == TokenKind::Comment || (com_end(s, o, d).0 == TokenKind::Error_UnterminatedComment && com_end(s, o, d).1 == s.len())),
{ if 0 <= o <= s.len() { step_facts(s, o); com_facts(s, step(s, o).0, step(s, o).1, d); } }

pub broadcast proof fn rinv_facts(r: Reader)
  ensures #![trigger rinv(r)] rinv(r) ==> at_r(r, r.offset as int, r.SrcLoc) && 0 <= r.offset <= r.input@.len() && (r.wasEOF ==> r.offset == r.input@.len()) && r.input@.len() < 0x2fff_ffff && small(r.input@.len() as int, r.tab_width),
{ small_len(r.input@.len() as int, r.tab_width); }
pub broadcast proof fn at_le(s: Seq<u8>, tab: u32, lc: bool, o1: int, l1: Location, o2: int, l2: Location)
  ensures #![trigger at(s, tab, lc, o1, l1), at(s, tab, lc, o2, l2), loc_le(l1, l2)] at(s, tab, lc, o1, l1) && at(s, tab, lc, o2, l2) && o1 <= o2 && small(s.len() as int, tab) ==> loc_le(l1, l2),
{ if at(s, tab, lc, o1, l1) && at(s, tab, lc, o2, l2) && o1 <= o2 && small(s.len() as int, tab) { pos_pair(s, tab, lc, o1, o2); } }
pub broadcast proof fn at_facts(s: Seq<u8>, tab: u32, lc: bool, o: int, l: Location)
  ensures #![trigger at(s, tab, lc, o, l)] at(s, tab, lc, o, l) ==> 0 <= o <= s.len() && (small(s.len() as int, tab) ==> is_lc(l) == lc),
{ if at(s, tab, lc, o, l) && small(s.len() as int, tab) { pos_room(s, tab, lc, o); } }
