@module drv
@source parse.rs
@source parse_cst.rs
@source lib.rs
@type ParseResult
@fns do_parse parse ParseCst::finish create_parse_result parse_bytes_cst_seq
@broadcast small_len rinv_facts at_facts at_le tok_fwd tok_keep tok_leaf leaf_tok key_same lex_kind cov_push cov_push_next cov_top cov_trivia cov_new cov_covers flag_uns utf8_safe eof_kind

@raw
pub open spec fn okey(s: Seq<u8>, o: ParseOptions) -> Key { Key { s: s, tab: o.tab_width, lc: o.src_convention is LineColumn, script: !(o.first_line_behavior is NotScript) } }
/// no leaf is an unterminated token
pub open spec fn no_unt(v: Seq<Tree>) -> bool { forall|i: int| 0 <= i < sums(v).lv.len() ==> !k_unterminated(#[trigger] sums(v).lv[i].tok) }
#[verifier::external_body]
pub fn set_quirks(q: QuirkSettings) { unimplemented!() }
#[verifier::external_body]
pub fn reparse_unterminated<'i>(nodes: NodeSeq<Tree<'i>>, input: &'i str, tab_width: usize) -> (res: NodeSeq<Tree<'i>>)
  ensures no_unt(res.0@) ==> res == nodes,
{ unimplemented!() }
/// derived Clone gives an equal value
pub trait CloneSame: Sized { fn clone(&self) -> (res: Self) ensures res == *self; }
impl CloneSame for Vec<Issue> { #[verifier::external_body] fn clone(&self) -> (res: Self) { unimplemented!() } }
impl CloneSame for TrackedSourceLocations { #[verifier::external_body] fn clone(&self) -> (res: Self) { unimplemented!() } }
@fn create_parse_result
@props C01 C15
@ens res.syntax == $1
@ens[C01] res.unsafe_character_encoding == $0.reader.unsafe_character_encoding_flag
@ens[C15] res.fatal_issues@ == $0.reader.fatal_issues@ && res.non_fatal_issues@ == $0.reader.non_fatal_issues@
@fn do_parse
@props C01 C05 C09 C10
@req small($0@.len() as int, $2.tab_width) && $1.node_stack@.len() == 0 && $1.finished@.len() == 0
@ens res.0.node_stack@.len() == 0
@ens[C09,C10] exists|e: int| #[trigger] cov(okey($0@, *$2), res.0, e) && twl($0@, e).0.point is EndOfFile && e <= $0@.len()
@ens[C01] res.1.unsafe_character_encoding is Some <==> uns($0@, $0@.len() as int)
@loop 0
invariant pinv(session), stk(session).len() == 0, session.context_stack@.len() == 0, session.tokenizer.GroupStack@.len() == 0, key(session.tokenizer) == okey($0@, *$2),
@fn ParseCst::finish
@props C05 C09
@req self.node_stack@.len() == 0
@ens[C09] no_unt(res.0@) ==> res.0@ == self.finished@
@fn parse;parse_bytes_cst_seq
@props C01 C05 C09 C10
@req small($0@.len() as int, $1.tab_width)
@ens[C09,C10] no_unt(res.syntax.0@) ==> exists|e: int| #[trigger] covers(okey($0@, *$1), res.syntax.0@, e) && twl($0@, e).0.point is EndOfFile && e <= $0@.len()
@ens[C01] res.unsafe_character_encoding is Some <==> uns($0@, $0@.len() as int)
