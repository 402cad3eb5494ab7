@module tokz
@source tokenize/tokenizer.rs
@source tokenize/token.rs
@source lib.rs
@source source.rs
@source utils.rs
@source generated/long_names_registration.rs
@type Tokenizer
@type TrackedSourceLocations
@type TokenStart #[derive(Copy, Clone)]
@type Token #[derive(Copy, Clone)]
@type TokenStr #[derive(Copy, Clone)]
@type TokenString
@type TokenRef
@type NumberTokenizationContext
@type HandledFractionalPart
@type HandledFileOpsBracket
@type FirstLineBehavior #[derive(Copy, Clone)]
@consts TOPLEVEL INSIDE_SLOT INSIDE_SLOTSEQUENCE INSIDE_OUT INSIDE_STRINGIFY_AS_TAG INSIDE_STRINGIFY_AS_FILE
@deref Tokenizer reader Reader
@fns tokenize/tokenizer.rs:* TokenRef::new2 TokenStr::from_buf NextPolicy::from_bits BufferAndLength::from_buffer_with_len LongNameCodePointToOperator
@skip Tokenizer::new Tokenizer::handle_first_line TrackedSourceLocations::to_nodes UnsafeCharacterEncoding::as_str UnsafeCharacterEncoding::from_str UnsafeCharacterEncoding::from_missing_reason UnsafeCharacterEncoding::missing_reason
@broadcast step_ascii bits_policy sub_sub twl_facts twl_read twl_ascii small_len pol_drop pol_add twl_plain shl2 str_facts com_end_facts rinv_facts at_le at_facts
@table TOKENIZER_HANDLER_TABLE | session: &mut Tokenizer<'i>, token_start: &TokenStart<'i>, c: WLCharacter, policy: NextPolicy | TokenRef<'i> | C03,C05,C02,C06
requires index < 128, tinv(*old(session)), noscan(policy), at_first(*old(session), *token_start, c), c.point == CodePoint::Char(index as char),
ensures handled(*old(session), *final(session), *token_start, res), kind_ok(*final(session), *token_start, policy, res), num_ok(inp(*old(session)), so(*old(session), *token_start), policy, res.tok, off(*final(session))),

@raw
pub open spec fn iv(x: i32) -> int { x as int }
pub open spec fn uv(x: u32) -> int { x as int }
pub type c_int = i32;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
  #[verifier::external_body] pub fn new() -> (res: Self) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, t: T) -> (res: bool) { unimplemented!() }
}
pub trait IntoTK: Sized {
    spec fn tk(&self) -> TokenKind;
    fn into_(self) -> (res: TokenKind) ensures res == self.tk();
}
impl IntoTK for TokenKind { open spec fn tk(&self) -> TokenKind { *self } fn into_(self) -> (res: TokenKind) { self } }

pub open spec fn tinv(t: Tokenizer) -> bool { rinv(t.reader) }
/// what no tokenizing operation changes
pub open spec fn tsame(a: Tokenizer, b: Tokenizer) -> bool {
  same(a.reader, b.reader) && a.GroupStack@ == b.GroupStack@ && a.first_line_behavior == b.first_line_behavior
}
pub open spec fn inp(t: Tokenizer) -> Seq<u8> { t.reader.input@ }
pub open spec fn off(t: Tokenizer) -> int { t.reader.offset as int }
/// offset at which the token starts
pub open spec fn so(t: Tokenizer, ts: TokenStart) -> int { inp(t).len() - ts.buf@.len() }
pub open spec fn started(t: Tokenizer, ts: TokenStart) -> bool {
  &&& 0 <= so(t, ts) <= off(t)
  &&& ts.buf@ == inp(t).subrange(so(t, ts), inp(t).len() as int)
  &&& at_r(t.reader, so(t, ts), ts.loc)
}
/// the reader is somewhere behind the first character of the token
pub open spec fn going(t: Tokenizer, ts: TokenStart) -> bool {
  started(t, ts) && off(t) >= twl(inp(t), so(t, ts)).1
}
/// just behind it, and c is that character
pub open spec fn at_first(t: Tokenizer, ts: TokenStart, c: WLCharacter) -> bool {
  started(t, ts) && (c, off(t)) == twl(inp(t), so(t, ts))
}
pub open spec fn tok_text(tok: TokenRef) -> Seq<u8> { tok.input.buf.buf@ }
/// the token is the text and the positions between its start and the reader's place
pub open spec fn tok_ok(t: Tokenizer, ts: TokenStart, tok: TokenRef) -> bool {
  &&& tok_text(tok) == inp(t).subrange(so(t, ts), off(t))
  &&& tok.src.start == ts.loc && tok.src.end == t.reader.SrcLoc
}
pub open spec fn handled(a: Tokenizer, b: Tokenizer, ts: TokenStart, tok: TokenRef) -> bool {
  tinv(b) && tsame(a, b) && going(b, ts) && tok_ok(b, ts, tok)
}

@fn Tokenizer::token
@props C02 C03 C05
@req tinv(*self) && started(*self, *$2)
@ens[C02,C03] tok_ok(*self, *$2, res)
@ens res.tok == $1.tk()
@fn Tokenizer::error_token_at
@props C03 C05
@req started(*self, *$2) && k_error($1.tk())
@ens tok_text(res).len() == 0 && res.src.start == $2.loc && res.src.end == $2.loc && res.tok == $1.tk()
@fn Tokenizer::get_token_span
@props C02 C05
@req is_lc($1) == is_lc(self.reader.SrcLoc) && loc_le($1, self.reader.SrcLoc)
@ens[C02] res.start == $1 && res.end == self.reader.SrcLoc
@fn Tokenizer::get_token_buffer_and_length
@props C03 C05
@req tinv(*self)
@req $1@.len() >= inp(*self).len() - off(*self) && $1@.len() <= inp(*self).len() && $1@ == inp(*self).subrange(inp(*self).len() - $1@.len(), inp(*self).len() as int)
@ens[C03] res.buf@ == inp(*self).subrange(inp(*self).len() - $1@.len(), off(*self))
@fn Tokenizer::addSimpleLineContinuation;Tokenizer::addComplexLineContinuation;Tokenizer::addEmbeddedNewline;Tokenizer::addEmbeddedTab
@props C03
@ens final(self).reader == old(self).reader && final(self).GroupStack == old(self).GroupStack && final(self).first_line_behavior == old(self).first_line_behavior
@fn TokenRef::new2
@props C02 C03
@ens res.tok == $0 && res.input.buf == $1 && res.src == $2
@fn TokenStr::from_buf
@ens res.buf == $0
@fn NextPolicy::from_bits
@ens res.0 == $0
@fn BufferAndLength::from_buffer_with_len
@props C05
@req $1 <= $0@.len()
@ens res.buf@ == $0@.subrange(0, $1 as int)

@fn Tokenizer_nextWLCharacter
@props C02 C03 C04 C05
@req tinv(*old($0)) && noscan($2)
@ens tinv(*final($0)) && tsame(*old($0), *final($0))
@ens[C03,C04] (res, off(*final($0))) == twl(inp(*old($0)), off(*old($0)))
@fn Tokenizer_currentWLCharacter
@props C02 C03 C04 C05
@req tinv(*old($0)) && noscan($2)
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && at_same_place(old($0).reader, final($0).reader)
@ens[C04] res == twl(inp(*old($0)), off(*old($0))).0
@fn Tokenizer_nextWLCharacter
@terminates
@attr #[verifier::rlimit(40)]
@loop 0
invariant tinv(*$0), tsame(*old($0), *$0), off(*$0) >= off(*old($0)), twl(inp(*$0), off(*old($0))) == twl_from(inp(*$0), c, off(*$0)), is_lcont(c.point) ==> off(*$0) > off(*old($0)),
decreases inp(*$0).len() - off(*$0), if is_lcont(c.point) { 1int } else { 0int },
body:let ghost o1 = off(*$0);
@loop 1
invariant o1 <= off(*$0), tinv(*$0), tsame(*old($0), *$0), off(*$0) >= off(*old($0)), c == wl(inp(*$0), off(*$0)).0, twl(inp(*$0), off(*old($0))) == twl(inp(*$0), skipws(inp(*$0), off(*$0))),
decreases inp(*$0).len() - off(*$0),

@raw
/// the reader may go back to m without leaving the token
pub open spec fn back_ok(t: Tokenizer, ts: TokenStart, m: InputMark) -> bool {
  mark_of(t.reader, m) && m.wasEOF is Some && started(t, ts) && twl(inp(t), so(t, ts)).1 <= m.offset
}
/// scanning within a token: the reader stays behind the token's first character
pub open spec fn moved(a: Tokenizer, b: Tokenizer, ts: TokenStart) -> bool {
  tinv(b) && tsame(a, b) && off(a) <= off(b) && going(b, ts)
}
/// the next character
pub open spec fn nxt(t: Tokenizer) -> CodePoint { twl(inp(t), off(t)).0.point }
pub proof fn pol_consts()
  ensures noscan(TOPLEVEL), noscan(INSIDE_STRINGIFY_AS_TAG), noscan(INSIDE_STRINGIFY_AS_FILE), noscan(INSIDE_SLOT), noscan(INSIDE_SLOTSEQUENCE), noscan(INSIDE_OUT), pol(TOPLEVEL, RETURN_TOPLEVELNEWLINE), pol(INSIDE_STRINGIFY_AS_FILE, RETURN_TOPLEVELNEWLINE),
{
  assert(TOPLEVEL.0 & 0x40 == 0 && INSIDE_STRINGIFY_AS_TAG.0 & 0x40 == 0 && INSIDE_STRINGIFY_AS_FILE.0 & 0x40 == 0 && INSIDE_SLOT.0 & 0x40 == 0 && INSIDE_SLOTSEQUENCE.0 & 0x40 == 0 && INSIDE_OUT.0 & 0x40 == 0 && TOPLEVEL.0 & 4 == 4 && INSIDE_STRINGIFY_AS_FILE.0 & 4 == 4) by (compute);
}
@fn LongNameCodePointToOperator
@trusted
@req mb_punct($0)
@ens !k_trivia(res) && !k_error(res) && !k_empty(res) && res != TokenKind::String && !k_never(res)

@raw
/// neither end of file, newline, comment nor string
pub open spec fn k_plain(k: TokenKind) -> bool {
  k != TokenKind::EndOfFile && k != TokenKind::ToplevelNewline && k != TokenKind::InternalNewline && k != TokenKind::Comment
  && k != TokenKind::Error_UnterminatedComment && k != TokenKind::Error_UnterminatedString && !k_never(k)
}
pub open spec fn k_newline(p: NextPolicy) -> TokenKind { if pol(p, RETURN_TOPLEVELNEWLINE) { TokenKind::ToplevelNewline } else { TokenKind::InternalNewline } }
/// the characters that are newlines between tokens
pub open spec fn nlp(p: CodePoint) -> bool { p == CodePoint::Char('\n') || p == CodePoint::Char('\r') || mbnewline(p) }
/// what the token at `o` must be, where its first character decides that
pub open spec fn tok_kind_ok(s: Seq<u8>, o: int, p: NextPolicy, k: TokenKind, e: int) -> bool {
  let a = twl(s, o);
  let com = a.0 == wlc(CodePoint::Char('('), Escape::None) && byt(s, a.1) == 0x2a;
  let quo = a.0.point == CodePoint::Char('"');
  if a.0.point is EndOfFile { k == TokenKind::EndOfFile && e == s.len() }
  else if nlp(a.0.point) { k == k_newline(p) && e == a.1 }
  else if quo { (k, e) == str_end(s, a.1) }
  else if com { (k, e) == com_end(s, a.1 + 1, 1) }
  else { k_plain(k) && (k == TokenKind::String ==> pol(p, INSIDE_SLOT)) }
}
pub proof fn num_kind(s: Seq<u8>, o: int, p: NextPolicy)
  ensures
    digitp(twl(s, o).0.point) || twl(s, o).0.point == CodePoint::Char('.') ==> forall|k: TokenKind, e: int| k_plain(k) && k != TokenKind::String ==> #[trigger] tok_kind_ok(s, o, p, k, e),
{ }
pub open spec fn kind_ok(t: Tokenizer, ts: TokenStart, p: NextPolicy, tok: TokenRef) -> bool { tok_kind_ok(inp(t), so(t, ts), p, tok.tok, off(t)) }

@fn Tokenizer_nextToken
@props C02 C03 C05 C06 C07 C08
@req tinv(*old($0)) && noscan($1)
@ens tinv(*final($0)) && tsame(*old($0), *final($0))
@ens[C03] tok_text(res) == inp(*old($0)).subrange(off(*old($0)), off(*final($0)))
@ens[C02] res.src.start == old($0).reader.SrcLoc && res.src.end == final($0).reader.SrcLoc
@ens[C03] off(*final($0)) >= off(*old($0)) && (res.tok != TokenKind::EndOfFile ==> off(*final($0)) > off(*old($0))) && (res.tok == TokenKind::EndOfFile ==> off(*final($0)) == inp(*old($0)).len())
@ens[C07,C08] tok_kind_ok(inp(*old($0)), off(*old($0)), $1, res.tok, off(*final($0)))
@ens[C06] num_ok(inp(*old($0)), off(*old($0)), $1, res.tok, off(*final($0)))
@fn Tokenizer_nextToken_uncommon;Tokenizer_handleComma;Tokenizer_handleLineFeed;Tokenizer_handleOpenSquare;Tokenizer_handleOpenCurly;Tokenizer_handleSpace;Tokenizer_handleCloseSquare;Tokenizer_handleCloseCurly
@props C02 C03 C05
@req tinv(*old($0)) && noscan($3) && at_first(*old($0), *$1, $2)
@ens handled(*old($0), *final($0), *$1, res)
@ens[C07,C08] kind_ok(*final($0), *$1, $3, res)
@fn Tokenizer_handleStrangeWhitespace;Tokenizer_handleMBLinearSyntaxBlob;Tokenizer_handleSymbol;Tokenizer_handleString;Tokenizer_handleNumber;Tokenizer_handleColon;Tokenizer_handleOpenParen;Tokenizer_handleDot;Tokenizer_handleEqual;Tokenizer_handleUnder;Tokenizer_handleLess;Tokenizer_handleGreater;Tokenizer_handleMinus;Tokenizer_handleBar;Tokenizer_handleSemi;Tokenizer_handleBang;Tokenizer_handleHash;Tokenizer_handlePercent;Tokenizer_handleAmp;Tokenizer_handleSlash;Tokenizer_handleAt;Tokenizer_handlePlus;Tokenizer_handleTilde;Tokenizer_handleQuestion;Tokenizer_handleStar;Tokenizer_handleCaret;Tokenizer_handleUnhandledBackslash;Tokenizer_handleMBStrangeNewline;Tokenizer_handleMBStrangeWhitespace;Tokenizer_handleMBPunctuation;Tokenizer_handleNakedMBLinearSyntax
@props C02 C03 C05
@req tinv(*old($0)) && noscan($3) && at_first(*old($0), *$1, $2)
@ens handled(*old($0), *final($0), *$1, res)
@ens[C07,C08] kind_ok(*final($0), *$1, $3, res)
@loop *
invariant tinv(*$0), tsame(*old($0), *$0), going(*$0, *$1),
@fn Tokenizer_nextToken_uncommon
@props C06
@ens[C06] !digitp($2.point) ==> num_ok(inp(*old($0)), so(*old($0), *$1), $3, res.tok, off(*final($0)))
@fn Tokenizer_handleComma
@req $2.point == CodePoint::Char(',')
@fn Tokenizer_handleLineFeed
@props C08
@req $2.point == CodePoint::Char('\n')
@fn Tokenizer_handleOpenSquare
@req $2.point == CodePoint::Char('[')
@fn Tokenizer_handleOpenCurly
@req $2.point == CodePoint::Char('{')
@fn Tokenizer_handleSpace
@req $2.point == CodePoint::Char(' ')
@fn Tokenizer_handleCloseSquare
@req $2.point == CodePoint::Char(']')
@fn Tokenizer_handleCloseCurly
@req $2.point == CodePoint::Char('}')
@fn Tokenizer_handleStrangeWhitespace
@req $2.point == CodePoint::Char('\x0b') || $2.point == CodePoint::Char('\x0c')
@fn Tokenizer_handleMBLinearSyntaxBlob
@req $2.point == CodePoint::Char(CODEPOINT_LINEARSYNTAX_OPENPAREN)
@fn Tokenizer_handleSymbol
@req $2.point == CodePoint::Char('`') || letterlike($2.point) || mbletter($2.point)
@fn Tokenizer_handleString
@props C07
@req $2.point == CodePoint::Char('"')
@raw
/// the reader is inside the number that starts at ts
pub open spec fn numing(a: Tokenizer, t: Tokenizer, ts: TokenStart, p: NextPolicy) -> bool {
  tinv(t) && tsame(a, t) && going(t, ts) && noscan(p) && numf(inp(t), so(t, ts), pol(p, INTEGER_SHORT_CIRCUIT)) && (forall|k: TokenKind, e: int| k_plain(k) && k != TokenKind::String ==> #[trigger] tok_kind_ok(inp(t), so(t, ts), p, k, e))
}
/// the place of a `*` that may have to be given back
pub open spec fn star_ok(t: Tokenizer, ts: TokenStart, b: Option<&[u8]>, m: Option<InputMark>) -> bool {
  b is Some && m is Some && back_ok(t, ts, m->0) && b->0@.len() > 0 && (b->0@[0] == 0x2a || b->0@[0] == 0x5c)
}
/// b is a rest of the input
pub open spec fn suffix(t: Tokenizer, b: Seq<u8>) -> bool { b.len() <= inp(t).len() && b == inp(t).subrange(inp(t).len() - b.len(), inp(t).len() as int) }
pub open spec fn ch(c: WLCharacter, x: char) -> bool { c.point == CodePoint::Char(x) }
@raw
// the number grammar (C06), over Wolfram characters: pt is the character at o, nx the place after it
pub open spec fn pt(s: Seq<u8>, o: int) -> CodePoint { twl(s, o).0.point }
pub open spec fn nx(s: Seq<u8>, o: int) -> int { twl(s, o).1 }
pub open spec fn is_at(s: Seq<u8>, o: int, x: char) -> bool { pt(s, o) == CodePoint::Char(x) }
pub open spec fn pm_at(s: Seq<u8>, o: int) -> bool { is_at(s, o, '+') || is_at(s, o, '-') }
/// the end of the run of digits at o
#[verifier::opaque]
pub open spec fn drun(s: Seq<u8>, o: int) -> int
  decreases s.len() - o,
  when 0 <= o
{ if digitp(pt(s, o)) && o < nx(s, o) <= s.len() { drun(s, nx(s, o)) } else { o } }
/// .. of zeros
#[verifier::opaque]
pub open spec fn zrun(s: Seq<u8>, o: int) -> int
  decreases s.len() - o,
  when 0 <= o
{ if is_at(s, o, '0') && o < nx(s, o) <= s.len() { zrun(s, nx(s, o)) } else { o } }
/// .. of digits in a base (0: no base given)
#[verifier::opaque]
pub open spec fn arun(s: Seq<u8>, o: int, base: int) -> int
  decreases s.len() - o,
  when 0 <= o
{ if (digitp(pt(s, o)) || alphap(pt(s, o)) && base != 0) && o < nx(s, o) <= s.len() { arun(s, nx(s, o), base) } else { o } }
/// a digit of that run is too large for the base
#[verifier::opaque]
pub open spec fn abad(s: Seq<u8>, o: int, base: int) -> bool
  decreases s.len() - o,
  when 0 <= o
{ base != 0 && (digitp(pt(s, o)) || alphap(pt(s, o))) && o < nx(s, o) <= s.len() && (base <= digit_val(cp_i32(pt(s, o))) || abad(s, nx(s, o), base)) }
pub open spec fn kindx(x: NumberTokenizationContext, neg: bool, nz: bool) -> TokenKind {
  if x.InvalidBase || x.UnrecognizedDigit { TokenKind::Error_Number } else if x.Real { TokenKind::Real } else if neg && nz { TokenKind::Rational } else { TokenKind::Integer }
}
pub open spec fn kindof(x: NumberTokenizationContext) -> TokenKind { kindx(x, x.NegativeExponent, x.NonZeroExponentDigitCount != 0) }
pub open spec fn real(x: NumberTokenizationContext) -> NumberTokenizationContext { NumberTokenizationContext { Real: true, ..x } }
pub open spec fn seen(x: NumberTokenizationContext, s: Seq<u8>, o: int, base: int) -> NumberTokenizationContext { NumberTokenizationContext { UnrecognizedDigit: x.UnrecognizedDigit || abad(s, o, base), ..x } }
/// kind and end of the number, from a `*` at o on
#[verifier::opaque]
pub open spec fn n_star(s: Seq<u8>, o: int, x: NumberTokenizationContext) -> (TokenKind, int) {
  let p = nx(s, o);
  if !is_at(s, p, '^') { (kindof(x), o) } else { n_exp(s, nx(s, p), x) }
}
/// .. from the exponent on
#[verifier::opaque]
pub open spec fn n_exp(s: Seq<u8>, o: int, x: NumberTokenizationContext) -> (TokenKind, int) {
  let q = if pm_at(s, o) { nx(s, o) } else { o };
  if !digitp(pt(s, q)) { (TokenKind::Error_Number, q) } else {
    let z = base_at(s, q); let d = drun(s, z);
    let k = kindx(x, x.NegativeExponent || is_at(s, o, '-'), d > z || x.NonZeroExponentDigitCount != 0);
    if is_at(s, d, '.') && !is_at(s, nx(s, d), '.') { (TokenKind::Error_Number, arun(s, nx(s, d), x.Base as int)) } else { (k, d) }
  }
}
/// .. from a `.` at o on; lead: digits stand before it
#[verifier::opaque]
pub open spec fn n_frac(s: Seq<u8>, o: int, x: NumberTokenizationContext, lead: bool) -> (TokenKind, int) {
  let p = nx(s, o);
  if is_at(s, p, '.') { (if lead { kindof(x) } else { TokenKind::Error_Number }, o) } else {
    let e = arun(s, p, x.Base as int);
    let y = real(seen(x, s, p, x.Base as int));
    if e == p && !lead { (TokenKind::Error_Number, e) }
    else if is_at(s, e, '*') { n_star(s, e, y) } else if is_at(s, e, '`') { n_mark(s, nx(s, e), y) } else { (kindof(y), e) }
  }
}
/// .. from behind a first ` on
#[verifier::opaque]
pub open spec fn n_mark(s: Seq<u8>, o: int, x: NumberTokenizationContext) -> (TokenKind, int) {
  if is_at(s, o, '`') { n_sign(s, nx(s, o), real(x), true) } else { n_sign(s, o, real(x), false) }
}
#[verifier::opaque]
pub open spec fn n_sign(s: Seq<u8>, o: int, x: NumberTokenizationContext, acc: bool) -> (TokenKind, int) {
  let r = nx(s, o);
  if !pm_at(s, o) { n_prec(s, o, x, acc, false, 0) }
  else if digitp(pt(s, r)) || is_at(s, r, '.') { n_prec(s, r, x, acc, true, o) }
  else if acc { (TokenKind::Error_Number, r) } else { (kindof(x), o) }
}
#[verifier::opaque]
pub open spec fn n_prec(s: Seq<u8>, o: int, x: NumberTokenizationContext, acc: bool, sign: bool, so: int) -> (TokenKind, int) {
  let d = drun(s, o);
  if !digitp(pt(s, o)) { n_point(s, o, x, acc, sign, so, false) }
  else if is_at(s, d, '.') || is_at(s, d, '*') { n_point(s, d, x, acc, sign, so, true) }
  else { (kindof(x), d) }
}
#[verifier::opaque]
pub open spec fn n_point(s: Seq<u8>, o: int, x: NumberTokenizationContext, acc: bool, sign: bool, so: int, given: bool) -> (TokenKind, int) {
  let p = nx(s, o); let e = arun(s, p, 0);
  if !is_at(s, o, '.') { n_last(s, o, x, acc, given) }
  else if !sign && !given && !digitp(pt(s, p)) {
    if acc { (TokenKind::Error_Number, p) } else if pm_at(s, p) { (TokenKind::Error_Number, nx(s, p)) } else { (kindof(x), o) }
  }
  else if is_at(s, p, '.') { (kindof(x), if given { o } else { so }) }
  else if !given && e == p { (TokenKind::Error_Number, e) }
  else { n_last(s, e, x, acc, true) }
}
#[verifier::opaque]
pub open spec fn n_last(s: Seq<u8>, o: int, x: NumberTokenizationContext, acc: bool, given: bool) -> (TokenKind, int) {
  if acc && !given { (TokenKind::Error_Number, o) } else if is_at(s, o, '*') { n_star(s, o, x) } else { (kindof(x), o) }
}
/// .. from behind `base^^` on
#[verifier::opaque]
pub open spec fn n_base(s: Seq<u8>, o: int, x: NumberTokenizationContext) -> (TokenKind, int) {
  let e = arun(s, o, x.Base as int); let y = seen(x, s, o, x.Base as int);
  if digitp(pt(s, o)) || alphap(pt(s, o)) {
    if is_at(s, e, '*') { n_star(s, e, y) } else if is_at(s, e, '.') { n_frac(s, e, y, e > o) } else if is_at(s, e, '`') { n_mark(s, nx(s, e), y) } else { (kindof(y), e) }
  }
  else if is_at(s, o, '.') { n_frac(s, o, x, false) }
  else if pt(s, o) is EndOfFile { (TokenKind::Error_Number, nx(s, o)) }
  else { (TokenKind::Error_Number, o) }
}
pub open spec fn x_new() -> NumberTokenizationContext { NumberTokenizationContext { InvalidBase: false, UnrecognizedDigit: false, NegativeExponent: false, Real: false, NonZeroExponentDigitCount: 0, Base: 0 } }
/// where the digits of the base start, leading zeros left out
pub open spec fn base_at(s: Seq<u8>, o: int) -> int { if is_at(s, o, '0') { zrun(s, o) } else { o } }
/// the base whose digits are the text from z to d
pub open spec fn x_base(s: Seq<u8>, z: int, d: int) -> NumberTokenizationContext {
  let b = if d - z == 1 { digit_val(s[z] as int) } else if d - z == 2 { digit_val(s[z] as int) * 10 + digit_val(s[z + 1] as int) } else { 0 };
  NumberTokenizationContext { InvalidBase: !(2 <= b <= 36), Base: b as i32, ..x_new() }
}
/// kind and end of the number at o
#[verifier::opaque]
pub open spec fn num(s: Seq<u8>, o: int, short: bool) -> (TokenKind, int) { num_at(s, o, short) }
pub open spec fn num_at(s: Seq<u8>, o: int, short: bool) -> (TokenKind, int) {
  let d = drun(s, o);
  if is_at(s, o, '.') { n_frac(s, o, x_new(), false) }
  else if short { (TokenKind::Integer, d) }
  else if is_at(s, d, '^') { if is_at(s, nx(s, d), '^') { n_base(s, nx(s, nx(s, d)), x_base(s, base_at(s, o), d)) } else { (TokenKind::Integer, d) } }
  else if is_at(s, d, '*') { n_star(s, d, x_new()) }
  else if is_at(s, d, '.') { n_frac(s, d, x_new(), true) }
  else if is_at(s, d, '`') { n_mark(s, nx(s, d), x_new()) }
  else { (TokenKind::Integer, d) }
}
pub open spec fn num_start(s: Seq<u8>, o: int) -> bool { digitp(pt(s, o)) || is_at(s, o, '.') && digitp(pt(s, nx(s, o))) }
/// C06: the token at o is the number there
pub open spec fn num_ok(s: Seq<u8>, o: int, p: NextPolicy, k: TokenKind, e: int) -> bool { num_start(s, o) ==> (k, e) == num(s, o, pol(p, INTEGER_SHORT_CIRCUIT)) }
/// facts about the digits at o
pub open spec fn numf(s: Seq<u8>, o: int, short: bool) -> bool {
  &&& num(s, o, short) == num_at(s, o, short)
  &&& o <= zrun(s, o) <= drun(s, o) && drun(s, zrun(s, o)) == drun(s, o) && (!digitp(pt(s, zrun(s, o))) ==> drun(s, o) == zrun(s, o))
  &&& (is_at(s, o, '0') ==> zrun(s, o) == zrun(s, nx(s, o))) && (digitp(pt(s, o)) ==> drun(s, o) == drun(s, nx(s, o)))
}
pub proof fn num_facts(s: Seq<u8>, o: int, short: bool)
  requires 0 <= o <= s.len(),
  ensures numf(s, o, short),
{
  reveal(num); zd_run(s, o); drun_at(s, o);
}
pub open spec fn nw(t: Tokenizer, ts: TokenStart, p: NextPolicy) -> (TokenKind, int) { num(inp(t), so(t, ts), pol(p, INTEGER_SHORT_CIRCUIT)) }
/// a mark, fraction or exponent follows
pub open spec fn n_rest(t: Tokenizer, ts: TokenStart, p: NextPolicy, c: WLCharacter, dot: int, lead: bool, star: Option<InputMark>, x: NumberTokenizationContext) -> bool {
  &&& ch(c, '.') ==> off(t) == nx(inp(t), dot) && nw(t, ts, p) == n_frac(inp(t), dot, x, lead)
  &&& ch(c, '*') ==> star is Some && off(t) == nx(inp(t), star->0.offset as int) && nw(t, ts, p) == n_star(inp(t), star->0.offset as int, x)
  &&& ch(c, '`') ==> nw(t, ts, p) == n_mark(inp(t), off(t), x)
}
pub open spec fn mk_off(m: Option<InputMark>, sign: bool) -> int { if sign { m->0.offset as int } else { 0 } }
/// leading zeros are digits
pub proof fn zd_run(s: Seq<u8>, o: int)
  requires 0 <= o <= s.len(),
  ensures drun(s, zrun(s, o)) == drun(s, o), o <= zrun(s, o) <= drun(s, o), zrun(s, o) > o ==> digitp(pt(s, o)), !digitp(pt(s, zrun(s, o))) ==> drun(s, o) == zrun(s, o),
  decreases s.len() - o,
{ reveal(drun); reveal(zrun); twl_facts(s, o); if is_at(s, o, '0') && o < nx(s, o) <= s.len() { zd_run(s, nx(s, o)); } else if digitp(pt(s, o)) && o < nx(s, o) <= s.len() { zd_run(s, nx(s, o)); } }
pub proof fn arun_at(s: Seq<u8>, o: int, base: int)
  requires 0 <= o <= s.len(),
  ensures
    base == 0 ==> !abad(s, o, base) && !abad(s, nx(s, o), base),
    !(digitp(pt(s, o)) || alphap(pt(s, o)) && base != 0) ==> arun(s, o, base) == o && !abad(s, o, base),
    digitp(pt(s, o)) || alphap(pt(s, o)) && base != 0 ==> o < nx(s, o) && arun(s, o, base) == arun(s, nx(s, o), base) && abad(s, o, base) == (base != 0 && (base <= digit_val(cp_i32(pt(s, o))) || abad(s, nx(s, o), base))),
{ reveal(arun); reveal(abad); twl_facts(s, o); }
pub proof fn drun_at(s: Seq<u8>, o: int)
  requires 0 <= o <= s.len(),
  ensures digitp(pt(s, o)) ==> drun(s, o) == drun(s, nx(s, o)) && o < nx(s, o), !digitp(pt(s, o)) ==> drun(s, o) == o, is_at(s, o, '0') ==> zrun(s, o) == zrun(s, nx(s, o)), !is_at(s, o, '0') ==> zrun(s, o) == o,
{ reveal(drun); reveal(zrun); twl_facts(s, o); }
@fn Tokenizer_handleNumber
@props C06
@attr #[verifier::rlimit(600)] #[verifier::spinoff_prover]
@pro
hide(at); hide(rinv); hide(com); hide(str_end); hide(tok_kind_ok); hide(num_at); hide(numf); hide(n_rest);
proof { num_kind(inp(*$0), so(*$0, *$1), $3); reveal(numf); reveal(n_star); reveal(n_exp); num_facts(inp(*$0), so(*$0, *$1), pol($3, INTEGER_SHORT_CIRCUIT)); }
@cut 0
invariant_except_break
  Ctxt == x_new(), leading_digits_end_mark.offset == so(*$0, *$1),
  at_first(*$0, *$1, c), digitp(c.point) || (ch(c, '.') && digitp(nxt(*$0))),
  leadingDigitsCount == 0, mark_of($0.reader, leading_digits_end_mark),
invariant numing(*old($0), *$0, *$1, $3),
ensures
  n_rest(*$0, *$1, $3, c, leading_digits_end_mark.offset as int, leadingDigitsCount != 0, star_mark, Ctxt),
  ch(c, '.') || ch(c, '*') || ch(c, '`'),
  ch(c, '.') ==> mark_of($0.reader, leading_digits_end_mark) && (back_ok(*$0, *$1, leading_digits_end_mark) || nxt(*$0) != CodePoint::Char('.')),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
body:proof { reveal(num_at); reveal(numf); }
body:proof { reveal(n_rest); }
@cut 5
invariant_except_break
  leading_digits_end_mark.offset == drun(inp(*$0), so(*$0, *$1)), Ctxt == x_new(), leadingDigitsCount > 0, !pol($3, INTEGER_SHORT_CIRCUIT), digitp(pt(inp(*$0), so(*$0, *$1))), nonZeroStartBuf@.len() == inp(*$0).len() - base_at(inp(*$0), so(*$0, *$1)),
  off(*$0) == leading_digits_end_mark.offset,
  c == twl(inp(*$0), off(*$0)).0,
  back_ok(*$0, *$1, leading_digits_end_mark), suffix(*$0, nonZeroStartBuf@),
  nonZeroStartBuf@.len() >= inp(*$0).len() - off(*$0),
invariant numing(*old($0), *$0, *$1, $3),
ensures
  leading_digits_end_mark.offset == drun(inp(*$0), so(*$0, *$1)), Ctxt == x_new(), leadingDigitsCount > 0, !pol($3, INTEGER_SHORT_CIRCUIT), digitp(pt(inp(*$0), so(*$0, *$1))), nonZeroStartBuf@.len() == inp(*$0).len() - base_at(inp(*$0), so(*$0, *$1)),
  off(*$0) == nx(inp(*$0), leading_digits_end_mark.offset as int), c.point == pt(inp(*$0), leading_digits_end_mark.offset as int), ch(c, '^') ==> caret_1_mark->0.offset == leading_digits_end_mark.offset && caret1Buf->0@.len() == inp(*$0).len() - leading_digits_end_mark.offset, ch(c, '*') ==> star_mark->0.offset == leading_digits_end_mark.offset,
  back_ok(*$0, *$1, leading_digits_end_mark), suffix(*$0, nonZeroStartBuf@),
  ch(c, '^') || ch(c, '.') || ch(c, '*') || ch(c, '`'),
  ch(c, '^') ==> caret1Buf is Some && caret_1_mark is Some && back_ok(*$0, *$1, caret_1_mark->0) && suffix(*$0, caret1Buf->0@) && caret1Buf->0@.len() <= nonZeroStartBuf@.len(),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
body:proof { reveal(num_at); reveal(numf); }
body:proof { reveal(n_rest); }
@cut 7
invariant_except_break
  leading_digits_end_mark.offset == drun(inp(*$0), so(*$0, *$1)), Ctxt == x_new(), leadingDigitsCount > 0, !pol($3, INTEGER_SHORT_CIRCUIT), digitp(pt(inp(*$0), so(*$0, *$1))), nonZeroStartBuf@.len() == inp(*$0).len() - base_at(inp(*$0), so(*$0, *$1)),
  off(*$0) == nx(inp(*$0), leading_digits_end_mark.offset as int), c.point == pt(inp(*$0), leading_digits_end_mark.offset as int), ch(c, '^') ==> caret_1_mark->0.offset == leading_digits_end_mark.offset && caret1Buf->0@.len() == inp(*$0).len() - leading_digits_end_mark.offset, ch(c, '*') ==> star_mark->0.offset == leading_digits_end_mark.offset,
  back_ok(*$0, *$1, leading_digits_end_mark), suffix(*$0, nonZeroStartBuf@),
  ch(c, '^') || ch(c, '.') || ch(c, '*') || ch(c, '`'),
  ch(c, '^') ==> caret1Buf is Some && caret_1_mark is Some && back_ok(*$0, *$1, caret_1_mark->0) && suffix(*$0, caret1Buf->0@) && caret1Buf->0@.len() <= nonZeroStartBuf@.len(),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
invariant numing(*old($0), *$0, *$1, $3),
ensures
  n_rest(*$0, *$1, $3, c, leading_digits_end_mark.offset as int, leadingDigitsCount != 0, star_mark, Ctxt),
  ch(c, '.') || ch(c, '*') || ch(c, '`'),
  ch(c, '.') ==> mark_of($0.reader, leading_digits_end_mark) && (back_ok(*$0, *$1, leading_digits_end_mark) || nxt(*$0) != CodePoint::Char('.')),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
body:proof { reveal(num_at); reveal(numf); }
body:proof { reveal(n_rest); }
@cut 12
invariant_except_break
  nw(*$0, *$1, $3) == n_base(inp(*$0), off(*$0), Ctxt), leadingDigitsCount == 0,
  c == twl(inp(*$0), off(*$0)).0,
invariant numing(*old($0), *$0, *$1, $3),
ensures
  n_rest(*$0, *$1, $3, c, leading_digits_end_mark.offset as int, leadingDigitsCount != 0, star_mark, Ctxt),
  ch(c, '.') || ch(c, '*') || ch(c, '`'),
  ch(c, '.') ==> mark_of($0.reader, leading_digits_end_mark) && (back_ok(*$0, *$1, leading_digits_end_mark) || nxt(*$0) != CodePoint::Char('.')),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
body:proof { reveal(n_base); }
body:proof { reveal(n_rest); }
@cut 15
invariant_except_break
  n_rest(*$0, *$1, $3, c, leading_digits_end_mark.offset as int, leadingDigitsCount != 0, star_mark, Ctxt),
  ch(c, '.') || ch(c, '*') || ch(c, '`'),
  ch(c, '.') ==> mark_of($0.reader, leading_digits_end_mark) && (back_ok(*$0, *$1, leading_digits_end_mark) || nxt(*$0) != CodePoint::Char('.')),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
invariant numing(*old($0), *$0, *$1, $3),
ensures
  n_rest(*$0, *$1, $3, c, leading_digits_end_mark.offset as int, leadingDigitsCount != 0, star_mark, Ctxt),
  ch(c, '*') || ch(c, '`'),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
body:proof { reveal(n_frac); }
body:proof { reveal(n_rest); }
@cut 23
invariant_except_break
  n_rest(*$0, *$1, $3, c, leading_digits_end_mark.offset as int, leadingDigitsCount != 0, star_mark, Ctxt),
  ch(c, '*') || ch(c, '`'),
  ch(c, '*') ==> star_ok(*$0, *$1, starBuf, star_mark),
invariant numing(*old($0), *$0, *$1, $3),
ensures
  off(*$0) == nx(inp(*$0), star_mark->0.offset as int), nw(*$0, *$1, $3) == n_star(inp(*$0), star_mark->0.offset as int, Ctxt),
  ch(c, '*'), star_ok(*$0, *$1, starBuf, star_mark),
body:proof { reveal(n_mark); }
body:proof { reveal(n_rest); }
@cut 25
invariant_except_break
  nw(*$0, *$1, $3) == n_sign(inp(*$0), off(*$0), Ctxt, accuracy), !precOrAccSupplied,
  c == twl(inp(*$0), off(*$0)).0,
  !sign,
invariant numing(*old($0), *$0, *$1, $3),
ensures
  !precOrAccSupplied, nw(*$0, *$1, $3) == n_prec(inp(*$0), off(*$0), Ctxt, accuracy, sign, mk_off(sign_mark, sign)),
  c == twl(inp(*$0), off(*$0)).0,
  sign ==> sign_mark is Some && back_ok(*$0, *$1, sign_mark->0),
body:proof { reveal(n_sign); }
@cut 32
invariant_except_break
  !precOrAccSupplied, nw(*$0, *$1, $3) == n_prec(inp(*$0), off(*$0), Ctxt, accuracy, sign, mk_off(sign_mark, sign)),
  c == twl(inp(*$0), off(*$0)).0,
  sign ==> sign_mark is Some && back_ok(*$0, *$1, sign_mark->0),
invariant numing(*old($0), *$0, *$1, $3),
ensures
  nw(*$0, *$1, $3) == n_point(inp(*$0), off(*$0), Ctxt, accuracy, sign, mk_off(sign_mark, sign), precOrAccSupplied),
  c == twl(inp(*$0), off(*$0)).0,
  sign ==> sign_mark is Some && back_ok(*$0, *$1, sign_mark->0),
body:proof { reveal(n_prec); }
@cut 35
invariant_except_break
  nw(*$0, *$1, $3) == n_point(inp(*$0), off(*$0), Ctxt, accuracy, sign, mk_off(sign_mark, sign), precOrAccSupplied),
  c == twl(inp(*$0), off(*$0)).0,
  sign ==> sign_mark is Some && back_ok(*$0, *$1, sign_mark->0),
invariant numing(*old($0), *$0, *$1, $3),
ensures
  nw(*$0, *$1, $3) == n_last(inp(*$0), off(*$0), Ctxt, accuracy, precOrAccSupplied),
  c == twl(inp(*$0), off(*$0)).0,
body:proof { reveal(n_point); }
@cut 45
invariant_except_break
  nw(*$0, *$1, $3) == n_last(inp(*$0), off(*$0), Ctxt, accuracy, precOrAccSupplied),
  c == twl(inp(*$0), off(*$0)).0,
invariant numing(*old($0), *$0, *$1, $3),
ensures
  off(*$0) == nx(inp(*$0), star_mark->0.offset as int), nw(*$0, *$1, $3) == n_star(inp(*$0), star_mark->0.offset as int, Ctxt),
  ch(c, '*'), star_ok(*$0, *$1, starBuf, star_mark),
body:proof { reveal(n_last); }
@req digitp($2.point) || ($2.point == CodePoint::Char('.') && digitp(twl(inp(*old($0)), off(*old($0))).0.point))
@ens[C06] num_ok(inp(*old($0)), so(*old($0), *$1), $3, res.tok, off(*final($0)))
@fn Tokenizer_handleColon
@req $2.point == CodePoint::Char(':')
@fn Tokenizer_handleOpenParen
@props C07
@req $2.point == CodePoint::Char('(')
@fn Tokenizer_handleDot
@props C06
@ens[C06] num_ok(inp(*old($0)), so(*old($0), *$1), $3, res.tok, off(*final($0)))
@req $2.point == CodePoint::Char('.')
@fn Tokenizer_handleEqual
@req $2.point == CodePoint::Char('=')
@fn Tokenizer_handleUnder
@req $2.point == CodePoint::Char('_')
@fn Tokenizer_handleLess
@req $2.point == CodePoint::Char('<')
@fn Tokenizer_handleGreater
@req $2.point == CodePoint::Char('>')
@fn Tokenizer_handleMinus
@req $2.point == CodePoint::Char('-')
@fn Tokenizer_handleBar
@req $2.point == CodePoint::Char('|')
@fn Tokenizer_handleSemi
@req $2.point == CodePoint::Char(';')
@fn Tokenizer_handleBang
@req $2.point == CodePoint::Char('!')
@fn Tokenizer_handleHash
@req $2.point == CodePoint::Char('#')
@fn Tokenizer_handlePercent
@req $2.point == CodePoint::Char('%')
@fn Tokenizer_handleAmp
@req $2.point == CodePoint::Char('&')
@fn Tokenizer_handleSlash
@req $2.point == CodePoint::Char('/')
@fn Tokenizer_handleAt
@req $2.point == CodePoint::Char('@')
@fn Tokenizer_handlePlus
@req $2.point == CodePoint::Char('+')
@fn Tokenizer_handleTilde
@req $2.point == CodePoint::Char('~')
@fn Tokenizer_handleQuestion
@req $2.point == CodePoint::Char('?')
@fn Tokenizer_handleStar
@req $2.point == CodePoint::Char('*')
@fn Tokenizer_handleCaret
@req $2.point == CodePoint::Char('^')
@fn Tokenizer_handleUnhandledBackslash
@req $2.point == CodePoint::Char('\\')
@fn Tokenizer_handleMBStrangeNewline
@props C08
@req mbnewline($2.point) && !($2.point is CRLF)
@fn Tokenizer_handleMBStrangeWhitespace
@req mbwhite($2.point)
@fn Tokenizer_handleMBPunctuation
@req mbpunct($2.point)
@fn Tokenizer_handleNakedMBLinearSyntax
@req linsyn($2.point) && $2.point != CodePoint::Char(CODEPOINT_LINEARSYNTAX_OPENPAREN) && $2.point != CodePoint::Char(CODEPOINT_LINEARSYNTAX_BANG)
@fn Tokenizer_nextToken_uncommon
@req ({ let p = $2.point; !(p is Char && ({ let v = p->0 as u32; v == 10 || v == 32 || v == 34 || v == 36 || v == 44 || v == 45 || (48 <= v <= 57) || (65 <= v <= 90) || v == 91 || v == 93 || v == 123 || v == 125 })) })

@fn add_unexpected_char_issue
@props C02 C05
@req tinv(*old($0)) && is_lc($2) == is_lc(old($0).reader.SrcLoc) && loc_le($2, old($0).reader.SrcLoc)
@req $3 == IssueTag::UnexpectedSpaceCharacter || $3 == IssueTag::UnexpectedLetterlikeCharacter || $3 == IssueTag::UnexpectedNewlineCharacter
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && at_same_place(old($0).reader, final($0).reader)

@fn Tokenizer_handleComment
@props C02 C03 C05 C07
@terminates
@req tinv(*old($0)) && noscan($3) && started(*old($0), *$1) && off(*old($0)) == twl(inp(*old($0)), so(*old($0), *$1)).1
@req $2 == CodePoint::Char('*') && step(inp(*old($0)), off(*old($0))).0 == $2
@ens handled(*old($0), *final($0), *$1, res)
@ens[C07] (res.tok, off(*final($0))) == com_end(inp(*old($0)), off(*old($0)) + 1, 1)
@loop 0
invariant tinv(*$0), tsame(*old($0), *$0), going(*$0, *$1), noscan(policy), 1 <= iv(depth), iv(depth) + (if c is EndOfFile { 0int } else { 1int }) <= off(*$0),
  com(inp(*$0), c, off(*$0), iv(depth)) == com_end(inp(*old($0)), off(*old($0)) + 1, 1),
decreases inp(*$0).len() - off(*$0), if c is EndOfFile { 0int } else { 1int },

@fn Tokenizer_handleMBLinearSyntaxBlob
@terminates
@loop 0
invariant 1 <= iv(depth), iv(depth) + (if c.point is EndOfFile { 0int } else { 1int }) <= off(*$0),
decreases inp(*$0).len() - off(*$0), if c.point is EndOfFile { 0int } else { 1int },

@fn Tokenizer_handleSymbolSegment
@props C02 C03 C05
@terminates
@req tinv(*old($0)) && noscan($5) && going(*old($0), *$1) && is_lc($3) == is_lc(old($0).reader.SrcLoc) && loc_le($3, old($0).reader.SrcLoc)
@req letterlike($4.point) || mbletter($4.point)
@ens moved(*old($0), *final($0), *$1)
@loop 0
invariant moved(*old($0), *$0, *$1), noscan($5), charLoc == $0.reader.SrcLoc, c == twl(inp(*$0), off(*$0)).0,
decreases inp(*$0).len() - off(*$0),
@fn Tokenizer_handleSymbol
@terminates
@loop 0
decreases inp(*$0).len() - off(*$0),
@fn Tokenizer_handleString
@terminates
@loop 0
invariant noscan(policy), str_end(inp(*$0), off(*old($0))) == str_end(inp(*$0), off(*$0)),
decreases inp(*$0).len() - off(*$0),
@fn Tokenizer_handlePercent
@terminates
@loop 0
invariant c == twl(inp(*$0), off(*$0)).0,
decreases inp(*$0).len() - off(*$0),
@fn Tokenizer_handleUnhandledBackslash
@attr #[verifier::rlimit(100)] #[verifier::spinoff_prover]
@pro
hide(at); hide(rinv); hide(com); hide(str_end);
@loop *
invariant tinv(*$0), tsame(*old($0), *$0), going(*$0, *$1), noscan($3), back_ok(*$0, *$1, reset_mark),

@fn Tokenizer_backupAndWarn
@props C02 C03 C05
@req tinv(*old($0)) && mark_of(old($0).reader, $1) && $1.wasEOF is Some
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && off(*final($0)) == $1.offset && final($0).reader.SrcLoc == $1.src_loc && final($0).reader.wasEOF == $1.wasEOF->0
@fn Tokenizer_handleZeros;Tokenizer_handleDigits
@props C02 C03 C05 C06
@terminates
@req tinv(*old($0)) && noscan($2) && going(*old($0), *$1) && digitp($3.point)
@ens moved(*old($0), *final($0), *$1) && 1 <= res.0 <= off(*final($0)) - off(*old($0)) + 1 && res.1 == twl(inp(*final($0)), off(*final($0))).0
@fn Tokenizer_handleZeros
@req $3.point == CodePoint::Char('0')
@ens res.1.point != CodePoint::Char('0')
@ens[C06] off(*final($0)) == zrun(inp(*old($0)), off(*old($0))) && (!digitp(res.1.point) ==> drun(inp(*old($0)), off(*final($0))) == off(*final($0)))
@loop 0
invariant moved(*old($0), *$0, *$1), noscan($2), c == twl(inp(*$0), off(*$0)).0, 1 <= uv(count) <= off(*$0) - off(*old($0)) + 1, zrun(inp(*$0), off(*old($0))) == zrun(inp(*$0), off(*$0)),
decreases inp(*$0).len() - off(*$0),
body:proof { drun_at(inp(*$0), off(*$0)); }
@fn Tokenizer_handleDigits
@ens !digitp(res.1.point)
@ens[C06] off(*final($0)) == drun(inp(*old($0)), off(*old($0))) && (digitp(pt(inp(*old($0)), off(*old($0)))) ==> off(*final($0)) > off(*old($0)))
@loop 0
invariant moved(*old($0), *$0, *$1), noscan($2), c == twl(inp(*$0), off(*$0)).0, 1 <= uv(count) <= off(*$0) - off(*old($0)) + 1, drun(inp(*$0), off(*old($0))) == drun(inp(*$0), off(*$0)),
decreases inp(*$0).len() - off(*$0),
body:proof { drun_at(inp(*$0), off(*$0)); }
@fn Tokenizer_handleAlphaOrDigits
@props C02 C03 C05 C06
@terminates
@req tinv(*old($0)) && noscan($4) && going(*old($0), *$1) && (alphap($2.point) || digitp($2.point)) && $2 == twl(inp(*old($0)), off(*old($0))).0
@ens moved(*old($0), *final($0), *$1) && res.0 <= off(*final($0)) - off(*old($0)) && res.1 == twl(inp(*final($0)), off(*final($0))).0
@ens final($5).Base == old($5).Base
@ens[C06] off(*final($0)) == arun(inp(*old($0)), off(*old($0)), $3 as int) && *final($5) == seen(*old($5), inp(*old($0)), off(*old($0)), $3 as int) && (res.0 == 0 <==> off(*final($0)) == off(*old($0)))
@pro
proof { arun_at(inp(*$0), off(*$0), $3 as int); }
@loop 0
invariant moved(*old($0), *$0, *$1), noscan($4), c == twl(inp(*$0), off(*$0)).0, uv(count) <= off(*$0) - off(*old($0)), $5.Base == old($5).Base, uv(count) == 0 <==> off(*$0) == off(*old($0)),
  arun(inp(*$0), off(*old($0)), $3 as int) == arun(inp(*$0), off(*$0), $3 as int), (old($5).UnrecognizedDigit || abad(inp(*$0), off(*old($0)), $3 as int)) == ($5.UnrecognizedDigit || abad(inp(*$0), off(*$0), $3 as int)), *$5 == (NumberTokenizationContext { UnrecognizedDigit: $5.UnrecognizedDigit, ..*old($5) }),
decreases inp(*$0).len() - off(*$0),
body:proof { arun_at(inp(*$0), off(*$0), $3 as int); }
@fn Tokenizer_handlePossibleFractionalPart;Tokenizer_handlePossibleFractionalPartPastDot
@props C02 C03 C05 C06
@req tinv(*old($0)) && noscan($5) && going(*old($0), *$1)
@req mark_of(old($0).reader, $2) && (back_ok(*old($0), *$1, $2) || nxt(*old($0)) != CodePoint::Char('.'))
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && going(*final($0), *$1) && res.1 == twl(inp(*final($0)), off(*final($0))).0
@ens final($6).Base == old($6).Base
@ens res.0 is Bailout <==> nxt(*old($0)) == CodePoint::Char('.')
@ens res.0 is Bailout ==> off(*final($0)) == $2.offset
@ens[C06] res.0 is Bailout ==> *final($6) == *old($6)
@ens[C06] $4 == 0 ==> *final($6) == *old($6)
@ens[C06] res.0 is Count ==> off(*final($0)) == arun(inp(*old($0)), off(*old($0)), $4 as int) && *final($6) == seen(*old($6), inp(*old($0)), off(*old($0)), $4 as int) && (res.0->Count_0 == 0 <==> off(*final($0)) == off(*old($0)))
@pro
proof { arun_at(inp(*$0), off(*$0), $4 as int); }
@fn Tokenizer_handlePossibleFractionalPart
@req $3.point == CodePoint::Char('.')
@fn Tokenizer_handlePossibleFractionalPartPastDot
@req $3 == twl(inp(*old($0)), off(*old($0))).0
@fn NumberTokenizationContext::computeTok
@props C06
@ens[C06] res == (if self.InvalidBase || self.UnrecognizedDigit { TokenKind::Error_Number } else if self.Real { TokenKind::Real } else if self.NegativeExponent && self.NonZeroExponentDigitCount != 0 { TokenKind::Rational } else { TokenKind::Integer })
@fn NumberTokenizationContext::new
@props C06
@ens[C06] !res.InvalidBase && !res.UnrecognizedDigit && !res.Real && !res.NegativeExponent && res.NonZeroExponentDigitCount == 0 && res.Base == 0

@fn Tokenizer_handleFileOpsBrackets
@props C02 C03 C05
@terminates
@req tinv(*old($0)) && $2 == CodePoint::Char('[')
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && off(*final($0)) >= off(*old($0))
@ens res is Finished ==> res->Finished_0 == step(inp(*final($0)), off(*final($0))).0
@loop 0
invariant tinv(*$0), tsame(*old($0), *$0), off(*$0) >= off(*old($0)), c == step(inp(*$0), off(*$0)).0, 1 <= iv(depth) <= off(*$0) - off(*old($0)) + 1,
decreases inp(*$0).len() - off(*$0),

@raw
/// the token is empty and at the token's start
pub open spec fn tok_none(ts: TokenStart, tok: TokenRef) -> bool { tok_text(tok).len() == 0 && tok.src.start == ts.loc && tok.src.end == ts.loc }
/// the token starts at o in the input of t, and its text and positions are those of the input there
pub open spec fn tok_at(t: Tokenizer, o: int, tok: TokenRef) -> bool {
  let e = o + tok_text(tok).len();
  &&& 0 <= o <= e <= inp(t).len()
  &&& tok_text(tok) =~= inp(t).subrange(o, e)
  &&& vpos(t.reader, o, tok.src.start) && vpos(t.reader, e, tok.src.end)
}
@fn Tokenizer_handleString_stringifyAsTag
@props C02 C03 C05
@req tinv(*old($0)) && noscan($3) && at_first(*old($0), *$1, $2)
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && started(*final($0), *$1)
@ens (tok_ok(*final($0), *$1, res) && off(*final($0)) >= off(*old($0)) && res.tok == TokenKind::String) || (tok_none(*$1, res) && res.tok == TokenKind::Error_ExpectedTag)
@fn Tokenizer_handleString_stringifyAsFile
@props C02 C03 C05
@terminates
@req tinv(*old($0)) && noscan($3) && started(*old($0), *$1) && ($2, off(*old($0))) == step(inp(*old($0)), so(*old($0), *$1))
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && started(*final($0), *$1)
@ens (tok_ok(*final($0), *$1, res) && off(*final($0)) >= off(*old($0)) && (res.tok == TokenKind::String || res.tok == TokenKind::Error_UnterminatedFileString)) || (tok_none(*$1, res) && res.tok == TokenKind::Error_ExpectedFile)
@loop 0
invariant tinv(*$0), tsame(*old($0), *$0), started(*$0, *$1), off(*$0) >= off(*old($0)), c == step(inp(*$0), off(*$0)).0,
decreases inp(*$0).len() - off(*$0),
@fn Tokenizer_nextToken_stringifyAsTag;Tokenizer_nextToken_stringifyAsFile
@props C02 C03 C05 C07
@req tinv(*old($0))
@ens tinv(*final($0)) && tsame(*old($0), *final($0))
@ens[C02,C03] tok_at(*final($0), off(*old($0)), res)
@ens[C03] tok_text(res).len() == 0 ==> k_error(res.tok)
@ens !k_never(res.tok) && res.tok != TokenKind::EndOfFile && res.tok != TokenKind::Colon
@pro
proof { pol_consts(); }
@fn Tokenizer_nextToken_stringifyAsTag
@ens !k_trivia(res.tok)
@fn Tokenizer_currentToken_stringifyAsTag
@ens !k_trivia(res.tok)
@fn Tokenizer_currentToken_stringifyAsTag;Tokenizer_currentToken_stringifyAsFile
@props C02 C03 C05 C07
@req tinv(*old($0))
@ens tinv(*final($0)) && tsame(*old($0), *final($0)) && at_same_place(old($0).reader, final($0).reader)
@ens[C02,C03] tok_at(*final($0), off(*old($0)), res)
@ens[C03] tok_text(res).len() == 0 ==> k_error(res.tok)
@ens !k_never(res.tok) && res.tok != TokenKind::EndOfFile && res.tok != TokenKind::Colon
@fn Tokenizer::peek_token_with
@props C02 C03 C05 C06 C07 C08
@req tinv(*old(self)) && noscan($1)
@ens tinv(*final(self)) && tsame(*old(self), *final(self)) && at_same_place(old(self).reader, final(self).reader)
@ens[C02,C03] tok_at(*final(self), off(*old(self)), res)
@ens[C03] tok_text(res).len() == 0 ==> res.tok == TokenKind::EndOfFile
@ens[C03] res.tok == TokenKind::EndOfFile ==> off(*old(self)) + tok_text(res).len() == inp(*old(self)).len()
@ens[C07,C08] exists|p: NextPolicy| pol(p, RETURN_TOPLEVELNEWLINE) == (pol($1, RETURN_TOPLEVELNEWLINE) && old(self).GroupStack@.len() == 0) && #[trigger] tok_kind_ok(inp(*old(self)), off(*old(self)), p, res.tok, off(*old(self)) + tok_text(res).len())
@ens[C06] num_ok(inp(*old(self)), off(*old(self)), $1, res.tok, off(*old(self)) + tok_text(res).len())
@fn Tokenizer::peek_token
@ens[C06] num_ok(inp(*old(self)), off(*old(self)), TOPLEVEL, res.tok, off(*old(self)) + tok_text(res).len())
@props C02 C03 C05 C07 C08
@req tinv(*old(self))
@ens tinv(*final(self)) && tsame(*old(self), *final(self)) && at_same_place(old(self).reader, final(self).reader)
@ens[C02,C03] tok_at(*final(self), off(*old(self)), res)
@ens[C03] tok_text(res).len() == 0 ==> res.tok == TokenKind::EndOfFile
@ens[C03] res.tok == TokenKind::EndOfFile ==> off(*old(self)) + tok_text(res).len() == inp(*old(self)).len()
@ens[C07,C08] exists|p: NextPolicy| pol(p, RETURN_TOPLEVELNEWLINE) == (old(self).GroupStack@.len() == 0) && #[trigger] tok_kind_ok(inp(*old(self)), off(*old(self)), p, res.tok, off(*old(self)) + tok_text(res).len())
@pro
proof { pol_consts(); }
@fn Tokenizer::next_token
@props C02 C03 C05 C07 C08
@req tinv(*old(self))
@ens tinv(*final(self)) && tsame(*old(self), *final(self))
@ens[C02,C03] tok_at(*final(self), off(*old(self)), res) && off(*final(self)) == off(*old(self)) + tok_text(res).len()
@pro
proof { pol_consts(); }
