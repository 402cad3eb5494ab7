@module sess
@source lib.rs
@source read.rs
@source read/byte_decoder.rs
@source tokenize/tokenizer.rs
@source tokenize/token.rs
@source quirks.rs
@type ParseOptions
@type QuirkSettings #[derive(Copy, Clone)]
@type SourceConvention #[derive(Copy, Clone)]
@type NodeSeq
@fns Reader::new Tokenizer::new Tokenizer::handle_first_line SourceConvention::newSourceLocation TokenRef::skip TokenRef::reset TokenRef::at TokenRef::at_start TokenStr::into_empty is_len_zero tokenize_bytes safe_string
@broadcast small_len rinv_facts at_facts at_le tok_fwd pos_room flag_uns utf8_safe step_fwd eof_kind tiled_step tkinds_step

@raw
/// without the MathLink feature there is no aborting
pub fn abortQ() -> (res: bool) ensures !res { false }
pub open spec fn new_reader(r: Reader, input: Seq<u8>, o: ParseOptions) -> bool {
  &&& r.input@ == input && r.offset == 0 && !r.wasEOF && r.tab_width == o.tab_width
  &&& r.SrcLoc == start_loc(o.src_convention is LineColumn)
  &&& r.unsafe_character_encoding_flag is None && r.fatal_issues@.len() == 0 && r.non_fatal_issues@.len() == 0
}

@fn SourceConvention::newSourceLocation
@props C02
@ens[C02] res == start_loc(self is LineColumn)
@fn Reader::new
@props C01 C02 C03 C15
@ens new_reader(res, $0@, *$1)
@ens small($0@.len() as int, $1.tab_width) ==> rinv(res)
@pro
proof { reveal(pos); reveal(uns); reveal(bnd); }
@fn TokenRef::skip
@props C02 C03 C05 C09
@req tinv(*old($1)) && tok_here(*old($1), *self) && (self.tok == TokenKind::EndOfFile ==> place(old($1).reader, self.src.start) + tok_text(*self).len() == inp(*old($1)).len())
@ens tinv(*final($1)) && tsame(*old($1), *final($1))
@ens[C02,C03,C09] off(*final($1)) == place(old($1).reader, self.src.start) + tok_text(*self).len() && final($1).reader.SrcLoc == self.src.end
@ens final($1).reader.wasEOF == (self.tok == TokenKind::EndOfFile) && final($1).reader.unsafe_character_encoding_flag == old($1).reader.unsafe_character_encoding_flag
@fn TokenRef::reset
@props C02 C03 C05 C09
@req tinv(*old($1)) && tok_here(*old($1), *self) && !old($1).reader.wasEOF
@ens tinv(*final($1)) && tsame(*old($1), *final($1)) && !final($1).reader.wasEOF
@ens[C02,C03,C09] off(*final($1)) == place(old($1).reader, self.src.start) && final($1).reader.SrcLoc == self.src.start
@raw
/// a token of no width at the start of tok
pub open spec fn tok_zero(t: TokenRef, tok: TokenRef, k: TokenKind) -> bool {
  t.tok == k && tok_text(t).len() == 0 && t.src.start == tok.src.start && t.src.end == tok.src.start
}
pub open spec fn k_zero(k: TokenKind) -> bool {
  k == TokenKind::Fake_ImplicitOne || k == TokenKind::Fake_ImplicitAll || k == TokenKind::Fake_ImplicitTimes || k == TokenKind::Fake_ImplicitNull
  || k == TokenKind::Error_InfixImplicitNull || k == TokenKind::Error_ExpectedOperand || k == TokenKind::Error_PrefixImplicitNull
}
@fn is_len_zero
@props C09
@ens res == k_zero($0)
@fn TokenStr::into_empty
@ens res.buf.buf@.len() == 0
@fn TokenRef::at
@props C03 C05 C09
@ens[C09] res.tok == $0 && res.src == $1.src && (if k_zero($0) { tok_text(res).len() == 0 } else { res.input == $1.input })
@fn TokenRef::at_start
@props C03 C05 C09
@ens[C09] res.tok == $0 && res.src.start == $1.src.start && res.src.end == $1.src.start && (if k_zero($0) { tok_text(res).len() == 0 } else { res.input == $1.input })
@fn Tokenizer::handle_first_line
@props C02 C03 C05
@terminates
@req tinv(*old(self)) && off(*old(self)) == 0 && !old(self).reader.wasEOF
@ens tinv(*final(self)) && tsame(*old(self), *final(self)) && !final(self).reader.wasEOF
@ens[C03] old(self).first_line_behavior is NotScript ==> *final(self) == *old(self)
@loop *
invariant tinv(*self), tsame(*old(self), *self), !self.reader.wasEOF,
decreases inp(*self).len() - off(*self),
@fn Tokenizer::new
@props C02 C03 C05
@req small($0@.len() as int, $1.tab_width)
@ens tinv(res) && inp(res) == $0@ && res.GroupStack@.len() == 0 && !res.reader.wasEOF && res.reader.tab_width == $1.tab_width && is_lc(res.reader.SrcLoc) == ($1.src_convention is LineColumn) && res.first_line_behavior == $1.first_line_behavior
@ens[C03] $1.first_line_behavior is NotScript ==> off(res) == 0 && res.reader.fatal_issues@.len() == 0 && res.reader.non_fatal_issues@.len() == 0

@raw
pub open spec fn no_unterminated(v: Seq<TokenRef>) -> bool { forall|i: int| 0 <= i < v.len() ==> !k_unterminated(#[trigger] v[i].tok) }
#[verifier::external_body]
pub fn str_from_utf8<'a>(b: &'a [u8]) -> (res: Result<&'a str, Utf8Error>)
  ensures res is Ok <==> utf8(b@), res is Ok ==> str_bytes(res->Ok_0) == b@,
{ unimplemented!() }
#[derive(Debug)]
pub struct Utf8Error { }
#[verifier::external_body]
pub fn reparse_unterminated_tokens<'i>(tokens: NodeSeq<TokenRef<'i>>, input: &'i str, tab_width: usize) -> (res: NodeSeq<TokenRef<'i>>)
  ensures res.0@.len() == tokens.0@.len(), forall|i: int| 0 <= i < res.0@.len() ==> (#[trigger] res.0@[i]).tok == tokens.0@[i].tok && (!k_unterminated(tokens.0@[i].tok) ==> res.0@[i] == tokens.0@[i]),
    no_unterminated(res.0@) ==> res.0@ == tokens.0@,   // (a consequence of the line above)
{ unimplemented!() }
@fn tokenize_bytes
@props C01 C02 C03 C05 C06 C07 C08
@terminates
@req small($0@.len() as int, $1.tab_width)
@ens[C01] res is Err <==> uns($0@, $0@.len() as int)
@ens[C02,C03] res is Ok && $1.first_line_behavior is NotScript && no_unterminated(res->Ok_0.0@) ==> exists|r: Reader, e: int| #[trigger] tiled(r, res->Ok_0.0@, 0, e) && r.input@ == $0@ && r.tab_width == $1.tab_width && is_lc(r.SrcLoc) == ($1.src_convention is LineColumn) && twl($0@, e).0.point is EndOfFile
@ens[C06,C07,C08] res is Ok && no_unterminated(res->Ok_0.0@) ==> exists|e: int| 0 <= e <= $0@.len() && #[trigger] tkinds($0@, res->Ok_0.0@, e)
@loop 0
invariant tinv(tokenizer), !tokenizer.reader.wasEOF, inp(tokenizer) == $0@, tokenizer.GroupStack@.len() == 0, tkinds($0@, tokens@, off(tokenizer)), tokenizer.reader.tab_width == $1.tab_width && is_lc(tokenizer.reader.SrcLoc) == ($1.src_convention is LineColumn),
  $1.first_line_behavior is NotScript ==> tiled(tokenizer.reader, tokens@, 0, off(tokenizer)),
decreases inp(tokenizer).len() - off(tokenizer),
@fn safe_string
@props C01 C05
@terminates
@req small($0@.len() as int, $1.tab_width)
@ens[C01] res is Err <==> uns($0@, $0@.len() as int)
@ens[C01] res is Ok ==> str_bytes(res->Ok_0) == $0@
@loop 0
invariant tinv(tokenizer), inp(tokenizer) == $0@,
decreases inp(tokenizer).len() - off(tokenizer), if tokenizer.reader.wasEOF { 0int } else { 1int },
