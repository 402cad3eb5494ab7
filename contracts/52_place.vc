@module plc
@broadcast small_len at_facts
@raw
/// positions are unique: the same position is the same offset
pub proof fn at_uniq(s: Seq<u8>, tab: u32, lc: bool, o1: int, o2: int, l: Location)
  requires at(s, tab, lc, o1, l), at(s, tab, lc, o2, l), small(s.len() as int, tab),
  ensures o1 == o2,
{
  if o1 < o2 { pos_strict(s, tab, lc, o1, o2); } else if o2 < o1 { pos_strict(s, tab, lc, o2, o1); }
}
/// the offset a position of this input has
pub open spec fn place(r: Reader, l: Location) -> int { choose|o: int| at_r(r, o, l) }
pub proof fn place_is(r: Reader, o: int, l: Location)
  requires at_r(r, o, l), small(r.input@.len() as int, r.tab_width),
  ensures place(r, l) == o,
{ at_uniq(r.input@, r.tab_width, is_lc(r.SrcLoc), o, place(r, l), l); }
/// the token is a piece of this input
pub open spec fn tok_here(t: Tokenizer, tok: TokenRef) -> bool { tok_at(t, place(t.reader, tok.src.start), tok) }
pub broadcast proof fn tok_fwd(t: Tokenizer, o: int, tok: TokenRef)
  ensures #![trigger tok_at(t, o, tok)] tok_at(t, o, tok) && tinv(t) ==> tok_here(t, tok) && place(t.reader, tok.src.start) == o,
{ if tok_at(t, o, tok) && tinv(t) { place_is(t.reader, o, tok.src.start); } }
/// the offset of a token's text within the input; its address is the one its start position denotes
#[verifier::external_body]
pub fn offset_of_token(t: &Tokenizer, tok: &TokenRef) -> (res: usize)
  requires tinv(*t), tok_here(*t, *tok),
  ensures res == place(t.reader, tok.src.start),
{ unimplemented!() }
/// the end of the input is a character boundary
pub proof fn walk_end(s: Seq<u8>, tab: u32, l: Location, u: bool, from: int)
  requires 0 <= from <= s.len(),
  ensures walk(s, tab, l, u, from, s.len() as int).bnd,
  decreases s.len() - from,
{ step_facts(s, from); if from < s.len() { let st = step(s, from); walk_end(s, tab, adv(l, tab, st.0), u || is_unsafe(st.0), st.1); } }
/// an ill-formed character anywhere is seen by the end
pub proof fn uns_at(s: Seq<u8>, k: int)
  requires 0 <= k < s.len(), bnd(s, k), is_unsafe(step(s, k).0),
  ensures uns(s, s.len() as int), bnd(s, s.len() as int),
{
  step_facts(s, k);
  assert(uns(s, s.len() as int)) by {
    reveal(uns); reveal(bnd);
    walk_compose(s, 1, start_loc(true), false, 0, k, s.len() as int);
    let w = walk(s, 1, start_loc(true), false, 0, k);
    walk_stick(s, 1, adv(w.loc, 1, step(s, k).0), step(s, k).1, s.len() as int);
  }
  assert(bnd(s, s.len() as int)) by { reveal(bnd); walk_end(s, 1, start_loc(true), false, 0); }
}
pub proof fn walk_stick(s: Seq<u8>, tab: u32, l: Location, from: int, to: int)
  ensures walk(s, tab, l, true, from, to).uns,
  decreases (if to > from { to - from } else { 0 }),
{ if from >= to || from >= s.len() || from < 0 {} else { step_facts(s, from); let st = step(s, from); walk_stick(s, tab, adv(l, tab, st.0), if st.1 > from { st.1 } else { from + 1 }, to); } }
pub broadcast proof fn flag_uns(r: Reader)
  ensures #![trigger rinv(r)] rinv(r) && r.unsafe_character_encoding_flag is Some ==> uns(r.input@, r.input@.len() as int),
    rinv(r) && r.unsafe_character_encoding_flag is Some && r.unsafe_character_encoding_flag != Some(UnsafeCharacterEncoding::BOM) ==> !utf8(r.input@),
{
  if rinv(r) && r.unsafe_character_encoding_flag is Some {
    let k = choose|k: int| 0 <= k < r.input@.len() && #[trigger] bnd(r.input@, k) && is_unsafe(step(r.input@, k).0) && unsafe_kind(r.input@, k) == r.unsafe_character_encoding_flag->0;
    uns_at(r.input@, k);
  }
}
/// Rust's notion of well-formed UTF-8: byte-order marks are allowed
pub open spec fn utf8(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() && #[trigger] bnd(s, k) && is_unsafe(step(s, k).0) ==> unsafe_kind(s, k) == UnsafeCharacterEncoding::BOM }
pub broadcast proof fn utf8_safe(s: Seq<u8>)
  ensures #![trigger utf8(s)] !uns(s, s.len() as int) ==> utf8(s),
{ if !uns(s, s.len() as int) { assert forall|k: int| 0 <= k < s.len() && #[trigger] bnd(s, k) && is_unsafe(step(s, k).0) implies unsafe_kind(s, k) == UnsafeCharacterEncoding::BOM by { uns_at(s, k); } } }
pub broadcast proof fn step_fwd(s: Seq<u8>, o: int)
  ensures #![trigger step(s, o)] 0 <= o < s.len() ==> o < step(s, o).1 <= s.len() && step(s, o).0 != CodePoint::EndOfFile, o >= s.len() ==> step(s, o) == (CodePoint::EndOfFile, o),
{ step_facts(s, o); }
pub broadcast proof fn eof_kind(s: Seq<u8>, o: int, p: NextPolicy, k: TokenKind, e: int)
  ensures #![trigger tok_kind_ok(s, o, p, k, e)] tok_kind_ok(s, o, p, k, e) && k == TokenKind::EndOfFile && 0 <= o <= s.len() ==> twl(s, o).0.point is EndOfFile,
{ twl_facts(s, o); let a = twl(s, o); if 0 <= o <= s.len() { str_facts(s, a.1); com_end_facts(s, a.1 + 1, 1); } }
/// the tokens tile the text from a to b, each with its own positions
pub open spec fn tiled(r: Reader, v: Seq<TokenRef>, a: int, b: int) -> bool
  decreases v.len(),
{
  if v.len() == 0 { a == b }
  else {
    let l = v.last(); let m = b - tok_text(l).len();
    m < b && tok_text(l) == r.input@.subrange(m, b) && at_r(r, m, l.src.start) && at_r(r, b, l.src.end) && tiled(r, v.drop_last(), a, m)
  }
}
pub proof fn tiled_same(r1: Reader, r2: Reader, v: Seq<TokenRef>, a: int, b: int)
  requires tiled(r1, v, a, b), same(r1, r2),
  ensures tiled(r2, v, a, b),
  decreases v.len(),
{ if v.len() > 0 { tiled_same(r1, r2, v.drop_last(), a, b - tok_text(v.last()).len()); } }
pub broadcast proof fn tiled_step(r1: Reader, r2: Reader, v: Seq<TokenRef>, x: TokenRef, a: int, m: int, e: int)
  ensures #![trigger tiled(r1, v, a, m), tiled(r2, v.push(x), a, e)]
    tiled(r1, v, a, m) && same(r1, r2) && m < e && tok_text(x) =~= r2.input@.subrange(m, e) && 0 <= m && e <= r2.input@.len() && at_r(r2, m, x.src.start) && at_r(r2, e, x.src.end) ==> tiled(r2, v.push(x), a, e),
{ if tiled(r1, v, a, m) && same(r1, r2) { tiled_same(r1, r2, v, a, m); assert(v.push(x).drop_last() =~= v); } }
/// the text from m to e is a number, string, comment, newline .. as the token says it is (C06, C07, C08)
#[verifier::opaque]
pub open spec fn kinded(s: Seq<u8>, m: int, k: TokenKind, e: int) -> bool { (exists|p: NextPolicy| pol(p, RETURN_TOPLEVELNEWLINE) && #[trigger] tok_kind_ok(s, m, p, k, e)) && num_ok(s, m, TOPLEVEL, k, e) }
pub open spec fn tkinds(s: Seq<u8>, v: Seq<TokenRef>, b: int) -> bool
  decreases v.len(),
{ v.len() == 0 || { let m = b - tok_text(v.last()).len(); kinded(s, m, v.last().tok, b) && tkinds(s, v.drop_last(), m) } }
pub broadcast proof fn tkinds_step(s: Seq<u8>, v: Seq<TokenRef>, x: TokenRef, m: int, e: int, p: NextPolicy)
  ensures #![trigger tkinds(s, v, m), tkinds(s, v.push(x), e), tok_kind_ok(s, m, p, x.tok, e)]
    tkinds(s, v, m) && e == m + tok_text(x).len() && tok_kind_ok(s, m, p, x.tok, e) && pol(p, RETURN_TOPLEVELNEWLINE) && num_ok(s, m, TOPLEVEL, x.tok, e) ==> tkinds(s, v.push(x), e),
{ reveal(kinded); assert(v.push(x).drop_last() =~= v); }
