@module prs
@source parse.rs
@source parse/parselet.rs
@source parse/parselet/integral_parselet.rs
@source parse/parselet/semi_semi_parselet.rs
@source parse/parselet/times_parselet.rs
@source parse/parselet/under_parselet.rs
@source parse/token_parselets.rs
@source tokenize/token_kind.rs
@type ParserSession
@type Context
@type InfixParseletOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type CallParselet
@type LeafParselet
@type PrefixEndOfFileParselet
@type PrefixErrorParselet
@type PrefixCloserParselet
@type PrefixToplevelCloserParselet
@type PrefixUnsupportedTokenParselet
@type PrefixCommaParselet
@type PrefixUnhandledParselet
@type PrefixOperatorParselet
@type PrefixAssertFalseParselet
@type InfixImplicitTimesParselet
@type InfixAssertFalseParselet
@type InfixDifferentialDParselet
@type InfixToplevelNewlineParselet
@type BinaryOperatorParselet
@type InfixOperatorParselet
@type TimesParselet
@type PostfixOperatorParselet
@type GroupParselet
@type SymbolParselet
@type CommaParselet
@type SemiParselet
@type SemiSemiParselet
@type TildeParselet
@type ColonParselet
@type SlashColonParselet
@type EqualParselet
@type ColonEqualParselet
@type IntegralParselet
@type ColonColonParselet
@type GreaterGreaterParselet
@type GreaterGreaterGreaterParselet
@type LessLessParselet
@type HashParselet
@type HashHashParselet
@type PercentParselet
@type UnderParselet
@type UnderDotParselet
@konst under1Parselet under2Parselet under3Parselet
@fns parse.rs:* parse/parselet.rs:* parse/parselet/integral_parselet.rs:* parse/parselet/semi_semi_parselet.rs:* parse/parselet/times_parselet.rs:* parse/parselet/under_parselet.rs:*
@skip parse do_parse SyntaxErrorKind::to_symbol
@broadcast small_len rinv_facts at_facts at_le tok_fwd tok_keep tok_leaf leaf_tok zero_at zero_leaf kind_leaf tz_none tz_push tz_first tz_one tz_cons lex_kind cov_push cov_push_next key_same cov_cat_next cov_cat cov_node cov_top cov_trivia cov_new take_all here_keep

@raw
impl InfixOperator { pub fn into_ipo(self) -> (res: InfixParseletOperator) ensures res == InfixParseletOperator::Infix(self) { InfixParseletOperator::Infix(self) } }
impl BinaryOperator { pub fn into_ipo(self) -> (res: InfixParseletOperator) ensures res == InfixParseletOperator::Binary(self) { InfixParseletOperator::Binary(self) } }
pub open spec fn stk(s: ParserSession) -> Seq<Tree> { s.builder.node_stack@ }
pub open spec fn top_prec(s: ParserSession) -> Option<Precedence> { if s.context_stack@.len() == 0 { None } else { s.context_stack@.last().prec } }
pub open spec fn top_i(s: ParserSession) -> int { s.context_stack@.last().builder_data.start_index as int }
/// the reader is in order
pub open spec fn live(s: ParserSession) -> bool { tinv(s.tokenizer) && !s.tokenizer.reader.wasEOF }
/// the tree built so far covers the input up to o
pub open spec fn built(s: ParserSession, o: int) -> bool { cov(key(s.tokenizer), s.builder, o) }
/// .. up to the reader's place
pub open spec fn pinv(s: ParserSession) -> bool { live(s) && built(s, off(s.tokenizer)) }
/// the next token is tok
pub open spec fn next_is(s: ParserSession, tok: TokenRef) -> bool { tok_at(s.tokenizer, off(s.tokenizer), tok) }
/// a token for parse_prefix
pub open spec fn head_ok(s: ParserSession, tok: TokenRef) -> bool { next_is(s, tok) && !k_trivia(tok.tok) && !k_never(tok.tok) }
pub open spec fn kept(a: ParserSession, b: ParserSession) -> bool { tsame(a.tokenizer, b.tokenizer) && a.context_stack@ =~= b.context_stack@ }
/// only the reader has moved
pub open spec fn read(a: ParserSession, b: ParserSession) -> bool { kept(a, b) && live(b) && a.builder == b.builder }
/// one operand more on the stack
pub open spec fn grew(a: ParserSession, b: ParserSession) -> bool {
  kept(a, b) && pinv(b) && stk(b).len() == stk(a).len() + 1 && fin(stk(b).last())
}
/// the operand on top of the stack may have become a larger one
pub open spec fn climbed(a: ParserSession, b: ParserSession) -> bool {
  &&& kept(a, b) && pinv(b) && stk(b).len() == stk(a).len() && fin(stk(b).last())
  &&& rk(top_prec(a)) == Precedence::HIGHEST.0.v ==> stk(b) == stk(a)
}
/// the present context's part of the stack
pub open spec fn in_ctx(s: ParserSession) -> bool { s.context_stack@.len() > 0 && 0 <= top_i(s) < stk(s).len() }
/// its first node is the operand, and only trivia follow
pub open spec fn lhs_ready(s: ParserSession) -> bool {
  in_ctx(s) && fin(stk(s)[top_i(s)]) && forall|j: int| top_i(s) < j < stk(s).len() ==> trv(#[trigger] stk(s)[j])
}
/// the context's part of the stack has become one node
pub open spec fn ctx_done(a: ParserSession, b: ParserSession) -> bool {
  &&& tsame(a.tokenizer, b.tokenizer) && b.context_stack@ =~= a.context_stack@.drop_last()
  &&& stk(b).len() == top_i(a) + 1 && fin(stk(b).last())
}
/// more nodes in the present context
pub open spec fn ctx_more(a: ParserSession, b: ParserSession) -> bool {
  &&& tsame(a.tokenizer, b.tokenizer) && a.context_stack@.len() > 0 && b.context_stack@.len() == a.context_stack@.len()
  &&& b.context_stack@.drop_last() =~= a.context_stack@.drop_last() && b.context_stack@.last().builder_data == a.context_stack@.last().builder_data
  &&& stk(b).len() > top_i(a)
}
pub open spec fn k_under(k: TokenKind) -> bool { k == TokenKind::Under || k == TokenKind::UnderUnder || k == TokenKind::UnderUnderUnder }
pub open spec fn all_trivia(v: Seq<TokenRef>) -> bool { forall|i: int| 0 <= i < v.len() ==> k_trivia(#[trigger] v[i].tok) }
pub open spec fn comma_kind(k: TokenKind) -> bool { k == TokenKind::Comma || k == TokenKind::LongName_InvisibleComma }
@dispatch prefix__parse_prefix token_kind_to_prefix_parselet parse_prefix | kind: TokenKind, session: &mut ParserSession<'i>, token: TokenRef<'i> | () | C05 C09 C10
requires kind == token.tok, pinv(*old(session)), head_ok(*old(session), token),
ensures grew(*old(session), *final(session)),
@dispatch infix__parse_infix token_kind_to_infix_parselet parse_infix | kind: TokenKind, session: &mut ParserSession<'i>, finished: (), trivia1: (), token: TokenRef<'i> | () | C05 C09 C10
requires kind == token.tok, pinv(*old(session)), lhs_ready(*old(session)), next_is(*old(session), token), !(infix_sort(token.tok) is InfixAssertFalseParselet) && !(infix_sort(token.tok) is InfixToplevelNewlineParselet) && !(infix_sort(token.tok) is InfixImplicitTimesParselet) && !(infix_sort(token.tok) is InfixDifferentialDParselet),
ensures ctx_done(*old(session), *final(session)), pinv(*final(session)),
@dispatch infix__getPrecedence token_kind_to_infix_parselet getPrecedence | kind: TokenKind, session: &ParserSession<'i> | Option<Precedence> | C05 C11
requires !(infix_sort(kind) is InfixImplicitTimesParselet),
ensures rk(res) <= Precedence::HIGHEST.0.v, infix_sort(kind) is InfixAssertFalseParselet || infix_sort(kind) is InfixToplevelNewlineParselet || infix_sort(kind) is InfixDifferentialDParselet && top_prec(*session) == Some(Precedence::CLASS_INTEGRATIONOPERATORS) ==> res is None, 
@dispatch infix__getOp token_kind_to_infix_parselet getOp | kind: TokenKind | InfixParseletOperator | C05 C11
ensures res is Infix && res->Infix_0 != InfixOperator::CodeParser_InternalInvalid ==> infix_sort(kind) is InfixOperatorParselet || infix_sort(kind) is TimesParselet,
@dispatch infix__process_implicit_times token_kind_to_infix_parselet process_implicit_times | kind: TokenKind, session: &mut ParserSession<'i>, token: TokenRef<'i> | TokenRef<'i> | C05 C09
requires kind == token.tok, stk(*old(session)).len() > 0, fin(stk(*old(session)).last()),
ensures *final(session) == *old(session), (res == token || tok_zero(res, token, TokenKind::Fake_ImplicitTimes)) && (infix_sort(kind) is InfixImplicitTimesParselet || infix_sort(kind) is InfixDifferentialDParselet && top_prec(*old(session)) != Some(Precedence::CLASS_INTEGRATIONOPERATORS) ==> tok_zero(res, token, TokenKind::Fake_ImplicitTimes)),
@fn Context::new
@ens res.prec == $0 && res.builder_data == $1
@fn Context::set_precedence
@ens final(self).prec == $1.prec() && final(self).builder_data == old(self).builder_data
@fn ParserSession::input
@ens res@ == inp(self.tokenizer)
@fn ParserSession::new
@props C05 C09
@req small($0@.len() as int, $2.tab_width) 
@ens live(res) && res.builder == $1 && res.context_stack@.len() == 0 && res.tokenizer.GroupStack@.len() == 0 && inp(res.tokenizer) == $0@ && res.tokenizer.reader.tab_width == $2.tab_width && is_lc(res.tokenizer.reader.SrcLoc) == ($2.src_convention is LineColumn) && res.tokenizer.first_line_behavior == $2.first_line_behavior
@ens[C09] $2.first_line_behavior is NotScript ==> off(res.tokenizer) == 0
@fn ParserSession::parse_prefix
@props C05 C09 C10
@req pinv(*old(self)) && head_ok(*old(self), $1) 
@ens[C05,C09,C10] grew(*old(self), *final(self))
@fn ParserSession::parse_infix
@props C05 C09 C10
@req pinv(*old(self)) && lhs_ready(*old(self)) && next_is(*old(self), $3) && !(infix_sort($3.tok) is InfixAssertFalseParselet) && !(infix_sort($3.tok) is InfixToplevelNewlineParselet) && !(infix_sort($3.tok) is InfixImplicitTimesParselet) && !(infix_sort($3.tok) is InfixDifferentialDParselet) 
@ens[C05,C09,C10] ctx_done(*old(self), *final(self)) && pinv(*final(self))
@fn ParserSession::do_process_implicit_times
@props C05 C09
@req stk(*old(self)).len() > 0 && fin(stk(*old(self)).last()) 
@ens[C09] *final(self) == *old(self) && (res == $1 || tok_zero(res, $1, TokenKind::Fake_ImplicitTimes)) && (infix_sort($1.tok) is InfixImplicitTimesParselet || infix_sort($1.tok) is InfixDifferentialDParselet && top_prec(*old(self)) != Some(Precedence::CLASS_INTEGRATIONOPERATORS) ==> tok_zero(res, $1, TokenKind::Fake_ImplicitTimes))
@fn ParserSession::push_and_climb
@props C05 C09 C10
@req live(*old(self)) && !k_trivia($1.tok) && $1.tok != TokenKind::Colon && exists|o: int| #[trigger] lf(key(old(self).tokenizer), o, $1) && built(*old(self), o) && o + tok_text($1).len() == off(old(self).tokenizer) 
@ens[C05,C09,C10] grew(*old(self), *final(self))
@fn ParserSession::parse_climb
@props C05 C09 C10
@req pinv(*old(self)) && stk(*old(self)).len() > 0 && fin(stk(*old(self)).last()) 
@ens[C05,C09,C10] climbed(*old(self), *final(self))
@fn ParserSession::push_leaf
@props C05 C09 C10
@req !k_trivia($1.tok) 
@ens[C09,C10] kept(*old(self), *final(self)) && final(self).tokenizer == old(self).tokenizer && bumps(old(self).builder, final(self).builder, seq![$1]) && stk(*final(self)).len() == stk(*old(self)).len() + 1 && stk(*final(self)).last() == Cst::<TokenStr, Span>::Token($1)
@fn ParserSession::push_leaf_and_next;ParserSession::push_syntax_and_next
@props C05 C09 C10
@req pinv(*old(self)) && next_is(*old(self), $1) && !k_trivia($1.tok) && $1.tok != TokenKind::EndOfFile 
@ens[C09,C10] kept(*old(self), *final(self)) && pinv(*final(self)) && stk(*final(self)).len() == stk(*old(self)).len() + 1 && stk(*final(self)).last() == Cst::<TokenStr, Span>::Token($1)
@fn ParserSession::commit_syntax_and_next
@props C05 C09 C10
@req live(*old(self)) && (exists|o: int| #[trigger] tiledz(key(old(self).tokenizer), $1.0@, o, off(old(self).tokenizer)) && built(*old(self), o)) && next_is(*old(self), $2) && !k_trivia($2.tok) && $2.tok != TokenKind::EndOfFile 
@ens[C09,C10] kept(*old(self), *final(self)) && pinv(*final(self)) && stk(*final(self)).len() > stk(*old(self)).len()
@fn ParserSession::trivia_reset
@props C05 C09
@req live(*old(self)) && exists|o: int| #[trigger] tiledz(key(old(self).tokenizer), $1.0@, o, off(old(self).tokenizer)) 
@ens read(*old(self), *final(self)) && tiledz(key(old(self).tokenizer), $1.0@, off(final(self).tokenizer), off(old(self).tokenizer)) 
@ens[C09] forall|o: int| #[trigger] tiledz(key(old(self).tokenizer), $1.0@, o, off(old(self).tokenizer)) ==> off(final(self).tokenizer) == o
@fn ParserSession::current_token
@props C05 C09 C10
@req live(*old(self)) 
@ens[C09,C10] read(*old(self), *final(self)) && next_is(*final(self), res.1) && !k_never(res.1.tok) && tiledz(key(old(self).tokenizer), res.0.0@, off(old(self).tokenizer), off(final(self).tokenizer)) && all_trivia(res.0.0@) && !k_trivia(res.1.tok) 
@loop 0 
invariant read(*old(self), *self), next_is(*self, tok), !k_never(tok.tok), tiledz(key(old(self).tokenizer), trivia@, off(old(self).tokenizer), off(self.tokenizer)), all_trivia(trivia@),
@fn ParserSession::current_token_eat_trivia_but_not_toplevel_newlines_into
@props C05 C09 C10
@req live(*old(self)) 
@ens[C09,C10] read(*old(self), *final(self)) && next_is(*final(self), res.1) && !k_never(res.1.tok) && tiledz(key(old(self).tokenizer), res.0.0@, off(old(self).tokenizer), off(final(self).tokenizer)) && all_trivia(res.0.0@) && !k_trivia_line(res.1.tok) 
@loop 0 
invariant read(*old(self), *self), next_is(*self, tok), !k_never(tok.tok), tiledz(key(old(self).tokenizer), trivia@, off(old(self).tokenizer), off(self.tokenizer)), all_trivia(trivia@),
@fn ParserSession::current_token_eat_trivia
@props C05 C09 C10
@req pinv(*old(self)) 
@ens[C09,C10] kept(*old(self), *final(self)) && pinv(*final(self)) && next_is(*final(self), res.1) && !k_never(res.1.tok) && stk(*final(self)).len() >= stk(*old(self)).len() && (stk(*final(self)) == stk(*old(self)) || trv(stk(*final(self)).last())) && !k_trivia(res.1.tok)
@fn ParserSession::current_token_eat_trivia_but_not_toplevel_newlines
@props C05 C09 C10
@req pinv(*old(self)) 
@ens[C09,C10] kept(*old(self), *final(self)) && pinv(*final(self)) && next_is(*final(self), res.1) && !k_never(res.1.tok) && stk(*final(self)).len() >= stk(*old(self)).len() && (stk(*final(self)) == stk(*old(self)) || trv(stk(*final(self)).last())) && !k_trivia_line(res.1.tok)
@fn ParserSession::current_syntax_token_stringify_as_file
@props C05 C09 C10
@req pinv(*old(self)) 
@ens[C09,C10] kept(*old(self), *final(self)) && pinv(*final(self)) && next_is(*final(self), res.1) && !k_never(res.1.tok) && stk(*final(self)).len() >= stk(*old(self)).len() && (stk(*final(self)) == stk(*old(self)) || trv(stk(*final(self)).last())) && !k_trivia(res.1.tok) && res.1.tok != TokenKind::EndOfFile && res.1.tok != TokenKind::Colon 
@loop 0 
invariant read(*old(self), *self), next_is(*self, token), !k_never(token.tok), token.tok != TokenKind::EndOfFile, token.tok != TokenKind::Colon, tiledz(key(old(self).tokenizer), trivia@, off(old(self).tokenizer), off(self.tokenizer)), all_trivia(trivia@),
@fn ParserSession::reduce_prefix
@props C05 C09 C10
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_prefix_get
@props C05 C09 C10
@req $1 == PrefixOperator::Get 
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_infix
@props C05 C09 C10
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_postfix
@props C05 C09 C10
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_binary
@props C05 C09 C10
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_binary_unset
@props C05 C09 C10
@req $1 == BinaryOperator::Unset 
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_ternary
@props C05 C09 C10
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_ternary_tag_unset
@props C05 C09 C10
@req $1 == TernaryOperator::TagUnset 
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_prefix_binary
@props C05 C09 C10
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_syntax_error
@props C05 C09 C10
@req in_ctx(*old(self)) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_call
@props C05 C09 C10
@req in_ctx(*old(self)) && top_i(*old(self)) + 1 < stk(*old(self)).len() && exists|op: GroupOperator| call_op(op) && #[trigger] grp(stk(*old(self)).last(), op) 
@ens[C09,C10] ctx_done(*old(self), *final(self)) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::reduce_group;ParserSession::reduce_unterminated_group;ParserSession::reduce_group_missing_closer
@props C05 C09 C10
@req in_ctx(*old(self)) && old(self).tokenizer.GroupStack@.len() > 0 
@ens[C09,C10] same(old(self).tokenizer.reader, final(self).tokenizer.reader) && old(self).tokenizer.first_line_behavior == final(self).tokenizer.first_line_behavior && final(self).tokenizer.GroupStack@ == old(self).tokenizer.GroupStack@.drop_last() && final(self).context_stack@ == old(self).context_stack@.drop_last() && stk(*final(self)).len() == top_i(*old(self)) + 1 && grp(stk(*final(self)).last(), $1) && (pinv(*old(self)) ==> pinv(*final(self)))
@fn ParserSession::begin_infix
@props C09
@ens *final(self) == *old(self)
@fn ParserSession::check_colon_lhs
@props C05
@req lhs_ready(*self)
@fn ParserSession::push_context
@props C05 C09
@req stk(*old(self)).len() > 0 
@ens final(self).tokenizer == old(self).tokenizer && final(self).builder == old(self).builder && final(self).context_stack@ == old(self).context_stack@.push(*final(res)) && res.prec == $1.prec() && res.builder_data.start_index == stk(*old(self)).len() - 1
@fn ParserSession::top_context
@props C05
@req old(self).context_stack@.len() > 0 
@ens *res == old(self).context_stack@.last() && final(self).tokenizer == old(self).tokenizer && final(self).builder == old(self).builder && final(self).context_stack@ == old(self).context_stack@.drop_last().push(*final(res))
@fn ParserSession::top_precedence
@props C11
@ens[C11] res == top_prec(*self)
@fn ParserSession::set_precedence
@props C05
@req old(self).context_stack@.len() > 0 
@ens final(self).tokenizer == old(self).tokenizer && final(self).builder == old(self).builder && final(self).context_stack@.len() == old(self).context_stack@.len() && final(self).context_stack@.drop_last() == old(self).context_stack@.drop_last() && final(self).context_stack@.last().builder_data == old(self).context_stack@.last().builder_data && final(self).context_stack@.last().prec == $1.prec()
@fn ParserSession::push_group
@props C08
@ens final(self).builder == old(self).builder && final(self).context_stack@ == old(self).context_stack@ && final(self).tokenizer.reader == old(self).tokenizer.reader && final(self).tokenizer.first_line_behavior == old(self).tokenizer.first_line_behavior && final(self).tokenizer.GroupStack@ == old(self).tokenizer.GroupStack@.push($1)
@fn ParserSession::pop_group
@props C05 C08
@req old(self).tokenizer.GroupStack@.len() > 0 
@ens final(self).builder == old(self).builder && final(self).context_stack@ == old(self).context_stack@ && final(self).tokenizer.reader == old(self).tokenizer.reader && final(self).tokenizer.first_line_behavior == old(self).tokenizer.first_line_behavior && final(self).tokenizer.GroupStack@ == old(self).tokenizer.GroupStack@.drop_last()
@fn ParserSession::check_group
@props C08
@ens[C08] res <==> self.tokenizer.GroupStack@.contains($1) 
@loop * 
invariant _i0 <= self.tokenizer.GroupStack@.len(), forall|j: int| _i0 <= j < self.tokenizer.GroupStack@.len() ==> self.tokenizer.GroupStack@[j] != $1,
@fn ParserSession::check_pattern_precedence
@props C05
@loop * 
invariant _i0 <= self.context_stack@.len(),
@fn ParserSession::is_quiescent
@props C05
@req old(self).context_stack@.len() == 0 && old(self).tokenizer.GroupStack@.len() == 0 
@ens res && *final(self) == *old(self)
@fn PrefixOperatorParselet::new;BinaryOperatorParselet::new;InfixOperatorParselet::new;PostfixOperatorParselet::new
@ens res.precedence == $0 && res.Op == $1
@fn GroupParselet::new
@props C05
@req k_opener($0) 
@ens res.Op == $1 && res.closer == k_close_of($0)
@fn CallParselet::new
@ens res.GP == $0
@fn EqualParselet::new
@ens res.op.precedence == Precedence::EQUAL
@fn ColonEqualParselet::new
@ens res.op.precedence == Precedence::COLONEQUAL
@fn IntegralParselet::new
@ens res.Op1 == $0 && res.Op2 == $1
@fn UnderParselet::new
@ens res.BOp == $0 && res.PBOp == $1
@fn PrefixOperatorParselet::getPrecedence
@ens res == Some(self.precedence)
@fn LeafParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is LeafParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixErrorParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PrefixErrorParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixCloserParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PrefixCloserParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixEndOfFileParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PrefixEndOfFileParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixUnsupportedTokenParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PrefixUnsupportedTokenParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixCommaParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PrefixCommaParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixUnhandledParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PrefixUnhandledParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn SymbolParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is SymbolParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixOperatorParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PrefixOperatorParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn SemiSemiParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is SemiSemiParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn LessLessParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is LessLessParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn HashParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is HashParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@pro
proof { pol_consts(); }
@fn HashHashParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is HashHashParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@pro
proof { pol_consts(); }
@fn PercentParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is PercentParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@pro
proof { pol_consts(); }
@fn UnderParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is UnderParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn UnderDotParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is UnderDotParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn IntegralParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && prefix_sort($2.tok) is IntegralParselet 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixToplevelCloserParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && k_closer($2.tok) 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn PrefixAssertFalseParselet::parse_prefix
@props C05
@req false 
@ens[C05,C09,C10] grew(*old($1), *final($1))
@fn GroupParselet::parse_prefix
@props C05 C09 C10
@req pinv(*old($1)) && head_ok(*old($1), $2) && k_opener($2.tok) && self.closer == k_close_of($2.tok) 
@ens[C05,C09,C10] grew(*old($1), *final($1)) 
@ens rk(top_prec(*old($1))) == Precedence::HIGHEST.0.v ==> grp(stk(*final($1)).last(), self.Op) 
@loop 0 
invariant pinv(*$1), same(old($1).tokenizer.reader, $1.tokenizer.reader), $1.tokenizer.first_line_behavior == old($1).tokenizer.first_line_behavior, $1.tokenizer.GroupStack@.len() > 0, $1.tokenizer.GroupStack@.drop_last() =~= old($1).tokenizer.GroupStack@, $1.context_stack@.len() > 0, $1.context_stack@.drop_last() =~= old($1).context_stack@, top_i(*$1) == stk(*old($1)).len(), stk(*$1).len() > top_i(*$1), self.closer != Closer::AssertFalse,
@fn BinaryOperatorParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is BinaryOperatorParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn PostfixOperatorParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is PostfixOperatorParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn TildeParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is TildeParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn ColonParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is ColonParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn SlashColonParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is SlashColonParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn EqualParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is EqualParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn ColonEqualParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is ColonEqualParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn CommaParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is CommaParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn SemiParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is SemiParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn SemiSemiParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is SemiSemiParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn ColonColonParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is ColonColonParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn GreaterGreaterParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is GreaterGreaterParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn GreaterGreaterGreaterParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is GreaterGreaterGreaterParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn TimesParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is TimesParselet 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn InfixOperatorParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is InfixOperatorParselet && self.Op != InfixOperator::CodeParser_InternalInvalid 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn CallParselet::parse_infix
@props C05 C09 C10
@req pinv(*old($1)) && lhs_ready(*old($1)) && next_is(*old($1), $4) && infix_sort($4.tok) is CallParselet && call_op(self.GP.Op) && k_opener($4.tok) && self.GP.closer == k_close_of($4.tok) 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn InfixToplevelNewlineParselet::parse_infix;InfixImplicitTimesParselet::parse_infix;InfixAssertFalseParselet::parse_infix;InfixDifferentialDParselet::parse_infix
@props C05
@req false 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn InfixOperatorParselet::parse_loop
@props C05 C09 C10
@req pinv(*old($1)) && in_ctx(*old($1)) && fin(stk(*old($1)).last()) && self.Op != InfixOperator::CodeParser_InternalInvalid 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1)) 
@loop 0 
invariant pinv(*$1), ctx_more(*old($1), *$1), fin(stk(*$1).last()), in_ctx(*old($1)), self.Op != InfixOperator::CodeParser_InternalInvalid,
@fn CommaParselet::parse_loop
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) && fin(stk(*old($0)).last()) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0)) 
@loop 0 
invariant pinv(*$0), ctx_more(*old($0), *$0), fin(stk(*$0).last()), in_ctx(*old($0)),
@fn SemiParselet::parse_loop
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) && fin(stk(*old($0)).last()) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0)) 
@loop 0 
invariant pinv(*$0), ctx_more(*old($0), *$0), fin(stk(*$0).last()), in_ctx(*old($0)),
@fn ColonColonParselet::parse_loop
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) && fin(stk(*old($0)).last()) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0)) 
@loop 0 
invariant pinv(*$0), ctx_more(*old($0), *$0), fin(stk(*$0).last()), in_ctx(*old($0)),
@fn TimesParselet::parse_loop
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) && fin(stk(*old($0)).last()) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0)) 
@loop 0 
invariant pinv(*$0), ctx_more(*old($0), *$0), fin(stk(*$0).last()), in_ctx(*old($0)),
@fn CommaParselet::reduce_comma
@props C09
@ens *final($0) == *old($0)
@fn SemiParselet::reduce_CompoundExpression
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0))
@fn SemiSemiParselet::reduce_binary
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0))
@fn SemiSemiParselet::reduce_ternary
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0))
@fn SemiSemiParselet::parse1
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0))
@fn SemiSemiParselet::parse2
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0))
@fn EqualParselet::parse_infix_tag
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0))
@fn ColonEqualParselet::parse_infix_tag
@props C05 C09 C10
@req pinv(*old($0)) && in_ctx(*old($0)) 
@ens[C05,C09,C10] ctx_done(*old($0), *final($0)) && pinv(*final($0))
@fn IntegralParselet::parse1
@props C05 C09 C10
@req pinv(*old($1)) && in_ctx(*old($1)) 
@ens[C05,C09,C10] ctx_done(*old($1), *final($1)) && pinv(*final($1))
@fn UnderParselet::get_parse_infix_context_sensitive;UnderParselet::get_parse_under_context_sensitive
@props C05 C09 C10
@req live(*old($1)) && next_is(*old($1), $2) && k_under($2.tok) 
@ens[C09,C10] read(*old($1), *final($1)) && under_tok(res) == $2 && tiledz(key(old($1).tokenizer), under_lv(res), off(old($1).tokenizer), off(final($1).tokenizer))
@fn CallParselet::getPrecedence
@props C11
@ens res == Some(Precedence::CALL)
@fn TildeParselet::getPrecedence
@props C11
@ens res == Some(Precedence::TILDE)
@fn SlashColonParselet::getPrecedence
@props C11
@ens res == Some(Precedence::SLASHCOLON)
@fn CommaParselet::getPrecedence
@props C11
@ens res == Some(Precedence::COMMA)
@fn SemiParselet::getPrecedence
@props C11
@ens res == Some(Precedence::SEMI)
@fn ColonColonParselet::getPrecedence
@props C11
@ens res == Some(Precedence::COLONCOLON)
@fn GreaterGreaterParselet::getPrecedence
@props C11
@ens res == Some(Precedence::GREATERGREATER)
@fn GreaterGreaterGreaterParselet::getPrecedence
@props C11
@ens res == Some(Precedence::GREATERGREATERGREATER)
@fn SemiSemiParselet::getPrecedence
@props C11
@ens res == Some(Precedence::SEMISEMI)
@fn TimesParselet::getPrecedence
@props C11
@ens res == Some(Precedence::STAR)
@fn BinaryOperatorParselet::getPrecedence;InfixOperatorParselet::getPrecedence;PostfixOperatorParselet::getPrecedence
@props C11
@ens res == Some(self.precedence)
@fn EqualParselet::getPrecedence;ColonEqualParselet::getPrecedence
@props C11
@ens res == Some(self.op.precedence)
@fn ColonParselet::getPrecedence
@props C11
@ens res == Some(Precedence::FAKE_OPTIONALCOLON) || res == Some(Precedence::HIGHEST)
@fn InfixToplevelNewlineParselet::getPrecedence;InfixAssertFalseParselet::getPrecedence
@props C11
@ens res is None
@fn InfixImplicitTimesParselet::getPrecedence
@props C05
@req false 
@ens true
@fn InfixDifferentialDParselet::getPrecedence
@props C11
@ens res == (if top_prec(*$1) == Some(Precedence::CLASS_INTEGRATIONOPERATORS) { None } else { Some(Precedence::FAKE_IMPLICITTIMES) })
@fn BinaryOperatorParselet::getOp
@ens res == InfixParseletOperator::Binary(self.Op)
@fn InfixOperatorParselet::getOp
@ens res == InfixParseletOperator::Infix(self.Op)
@fn PostfixOperatorParselet::getOp
@ens res == InfixParseletOperator::Postfix(self.Op)
@fn TimesParselet::getOp
@ens res == InfixParseletOperator::Infix(InfixOperator::Times)
@fn InfixImplicitTimesParselet::process_implicit_times
@props C09
@ens *final($1) == *old($1) && tok_zero(res, $2, TokenKind::Fake_ImplicitTimes)
@fn InfixDifferentialDParselet::process_implicit_times
@props C09
@ens *final($1) == *old($1) && (if top_prec(*old($1)) == Some(Precedence::CLASS_INTEGRATIONOPERATORS) { res == $2 } else { tok_zero(res, $2, TokenKind::Fake_ImplicitTimes) })
@fn SemiSemiParselet::process_implicit_times
@props C05 C09
@req stk(*old($1)).len() > 0 && fin(stk(*old($1)).last()) 
@ens *final($1) == *old($1) && (res == $2 || tok_zero(res, $2, TokenKind::Fake_ImplicitTimes))
@fn CallParselet::getOp;TildeParselet::getOp;ColonParselet::getOp;SlashColonParselet::getOp;EqualParselet::getOp;ColonEqualParselet::getOp;CommaParselet::getOp;SemiParselet::getOp;SemiSemiParselet::getOp;ColonColonParselet::getOp;GreaterGreaterParselet::getOp;GreaterGreaterGreaterParselet::getOp;InfixToplevelNewlineParselet::getOp;InfixImplicitTimesParselet::getOp;InfixAssertFalseParselet::getOp;InfixDifferentialDParselet::getOp
@ens res == InfixParseletOperator::Infix(InfixOperator::CodeParser_InternalInvalid)
@fn BinaryOperatorParselet::process_implicit_times;InfixOperatorParselet::process_implicit_times;PostfixOperatorParselet::process_implicit_times;CallParselet::process_implicit_times;TildeParselet::process_implicit_times;ColonParselet::process_implicit_times;SlashColonParselet::process_implicit_times;EqualParselet::process_implicit_times;ColonEqualParselet::process_implicit_times;CommaParselet::process_implicit_times;SemiParselet::process_implicit_times;ColonColonParselet::process_implicit_times;GreaterGreaterParselet::process_implicit_times;GreaterGreaterGreaterParselet::process_implicit_times;TimesParselet::process_implicit_times;InfixToplevelNewlineParselet::process_implicit_times;InfixAssertFalseParselet::process_implicit_times
@ens *final($1) == *old($1) && res == $2
