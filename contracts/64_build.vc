@module bld
@source parse.rs
@source parse_cst.rs
@retype parse_cst.rs Context CstContext
@type CstContext
@type TriviaSeqRef
@type UnderParseData
@type SyntaxErrorData
@type ColonLHS
@type InfixParseCst
@type InfixParseGroup
@fns parse_cst.rs:*
@skip ParseCst::top_node ParseCst::with_prefix_parselet ParseCst::with_infix_parselet ParseCst::finish
@broadcast node_is_b sums_2 sum_is take_all

@raw
#[verifier::external_body]
pub fn reparse_unterminated_group_node<'i>(g: (GroupOperator, CstSeq<TokenStr<'i>>), input: &'i str, tab_width: usize) -> (res: GroupMissingCloserNode<TokenStr<'i>>)
  ensures res.0.op == g.0, g.1.0@.len() > 0 ==> res.0.children.0@.len() > 0 && node(res.0.children.0).full == node(g.1.0).full,
{ unimplemented!() }

pub open spec fn trv(c: Tree) -> bool { c is Token && k_trivia(c->Token_0.tok) }
/// a finished operand
pub open spec fn fin(c: Tree) -> bool { c is Token ==> !k_trivia(c->Token_0.tok) && c->Token_0.tok != TokenKind::Colon }
pub open spec fn grp(c: Tree, op: GroupOperator) -> bool {
  c is Group && c->Group_0.0.op == op && c->Group_0.0.children.0@.len() > 0 || c is GroupMissingCloser && c->GroupMissingCloser_0.0.op == op && c->GroupMissingCloser_0.0.children.0@.len() > 0
}
pub open spec fn under_lv<'i>(u: UnderParseData<'i>) -> Seq<TokenRef<'i>> {
  match u { UnderParseData::Under(t) => seq![t], UnderParseData::UnderSymbol { op, under, symbol } => seq![under] + seq![symbol] }
}
pub open spec fn under_tok<'i>(u: UnderParseData<'i>) -> TokenRef<'i> { match u { UnderParseData::Under(t) => t, UnderParseData::UnderSymbol { op, under, symbol } => under } }
@fn ParseCst::resettable_trivia_begin
@ens res@.len() == 0 && *final(self) == *old(self)
@fn ParseCst::resettable_trivia_push
@ens final($1)@ == old($1)@.push($2) && *final(self) == *old(self)
@fn ParseCst::resettable_trivia_end
@ens res.0 == $1 && *final(self) == *old(self)
@fn ParseCst::reset_trivia_seq
@props C05 C09
@ens *final(self) == *old(self) && (res is Some <==> $1.0@.len() > 0) && (res is Some ==> res->0 == $1.0@[0])
@fn ParseCst::push_trivia_seq
@props C05 C09 C10
@ens final(self).node_stack@.len() == old(self).node_stack@.len() + $1.0@.len() && (forall|i: int| 0 <= i < old(self).node_stack@.len() ==> #[trigger] final(self).node_stack@[i] == old(self).node_stack@[i]) && (forall|i: int| old(self).node_stack@.len() <= i < final(self).node_stack@.len() ==> #[trigger] final(self).node_stack@[i] == Cst::<TokenStr, Span>::Token($1.0@[i - old(self).node_stack@.len()]))
@ens[C09,C10] cats(*old(self), *final(self), $1.0@) 
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@loop * 
invariant self.finished@ == old(self).finished@, _i0 <= _w0.len(), _w0@ == $1.0@, self.node_stack@ =~= old(self).node_stack@ + toks($1.0@.take(_i0 as int)),
@fn ParseCst::new_builder
@props C09
@ens res.node_stack@.len() == 0 && res.finished@.len() == 0
@fn ParseCst::begin_context
@props C05
@req old(self).node_stack@.len() > 0 
@ens *final(self) == *old(self) && res.start_index == old(self).node_stack@.len() - 1
@fn ParseCst::is_quiescent
@ens res
@fn ParseCst::push_node
@props C05 C09 C10
@ens final(self).node_stack@ == old(self).node_stack@.push($1) && final(self).finished@ == old(self).finished@
@fn ParseCst::pop_node
@props C05 C09 C10
@req old(self).node_stack@.len() > 0 
@ens res == old(self).node_stack@.last() && final(self).node_stack@ == old(self).node_stack@.drop_last() && final(self).finished@ == old(self).finished@
@fn ParseCst::push_leaf;ParseCst::push_syntax
@props C05 C09 C10
@req !k_trivia($1.tok) 
@ens final(self).node_stack@.len() == old(self).node_stack@.len() + 1
@ens[C09,C10] bumps(*old(self), *final(self), seq![$1]) && final(self).node_stack@.last() == Cst::<TokenStr, Span>::Token($1)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn UnderParseData::into_cst
@props C05 C09 C10
@ens[C09,C10] sum(res).full && sum(res).ok && sum(res).lv == under_lv(self) && (res is Token ==> res->Token_0 == under_tok(self)) 
@pro
hide(sums); hide(sum);
@fn ParseCst::push_compound_blank
@props C05 C09 C10
@ens final(self).node_stack@.len() == old(self).node_stack@.len() + 1
@ens[C09,C10] bumps(*old(self), *final(self), under_lv($1)) && (final(self).node_stack@.last() is Token ==> final(self).node_stack@.last()->Token_0 == under_tok($1))
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::push_compound_pattern_blank
@props C05 C09 C10
@req $2.tok == TokenKind::Symbol 
@ens final(self).node_stack@.len() == old(self).node_stack@.len() + 1
@ens[C09,C10] bumps(*old(self), *final(self), seq![$2] + under_lv($3)) && final(self).node_stack@.last() is Compound 
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::push_compound_pattern_optional
@props C05 C09 C10
@req $2.tok == TokenKind::Symbol && $3.tok == TokenKind::UnderDot 
@ens final(self).node_stack@.len() == old(self).node_stack@.len() + 1
@ens[C09,C10] bumps(*old(self), *final(self), seq![$2] + seq![$3]) && final(self).node_stack@.last() is Compound 
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::push_compound_slot
@props C05 C09 C10
@req ($1 == CompoundOperator::Slot || $1 == CompoundOperator::SlotSequence) && ($2.tok == TokenKind::Hash || $2.tok == TokenKind::HashHash) && ($3.tok == TokenKind::Integer || $3.tok == TokenKind::String) 
@ens final(self).node_stack@.len() == old(self).node_stack@.len() + 1
@ens[C09,C10] bumps(*old(self), *final(self), seq![$2] + seq![$3]) && final(self).node_stack@.last() is Compound 
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::push_compound_out
@props C05 C09 C10
@req $1 == CompoundOperator::Out && $2.tok == TokenKind::Percent && $3.tok == TokenKind::Integer 
@ens final(self).node_stack@.len() == old(self).node_stack@.len() + 1
@ens[C09,C10] bumps(*old(self), *final(self), seq![$2] + seq![$3]) && final(self).node_stack@.last() is Compound 
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens res.0@ == old(self).node_stack@.skip($1.start_index as int) && final(self).node_stack@ == old(self).node_stack@.take($1.start_index as int) && final(self).finished@ == old(self).finished@
@fn ParseCst::reduce_prefix
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_prefix_get
@props C05 C09 C10
@req $2 == PrefixOperator::Get 
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_postfix
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_binary
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_binary_unset
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_ternary
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_ternary_tag_unset
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_prefix_binary
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_infix
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_group
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token) 
@ens grp(final(self).node_stack@.last(), $2)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_syntax_error
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_unterminated_group
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token) 
@ens grp(final(self).node_stack@.last(), $4)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_group_missing_closer
@props C05 C09 C10
@req $1.start_index < old(self).node_stack@.len() 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && !(final(self).node_stack@.last() is Token) 
@ens grp(final(self).node_stack@.last(), $2)
@pro
hide(sums); hide(sum);
proof { reveal(bumps); reveal(cuts); reveal(cats); }
@fn ParseCst::reduce_call
@props C05 C09 C10
@req $1.start_index + 1 < old(self).node_stack@.len() && exists|op: GroupOperator| call_op(op) && #[trigger] grp(old(self).node_stack@.last(), op) 
@ens final(self).node_stack@.len() == $1.start_index + 1
@ens[C09,C10] cuts(*old(self), *final(self), $1.start_index as int) && final(self).node_stack@.last() is Call 
@pro
proof { reveal(cuts); }
proof { let v = old(self).node_stack@; let i = $1.start_index as int; assert(v.skip(i).drop_last() =~= v.drop_last().skip(i)); assert(v.skip(i).last() == v.last()); assert(v.take(i) =~= v.drop_last().take(i)); }
@fn ParseCst::begin_infix;ParseCst::begin_group;ParseCst::infix_add;ParseCst::group_add
@props C09
@ens *final(self) == *old(self)
@fn ParseCst::finish_top_level_trivia
@props C05 C09 C10
@req k_trivia($1.tok) 
@ens[C09,C10] final(self).node_stack@ == old(self).node_stack@ && final(self).finished@ == old(self).finished@.push(Cst::Token($1))
@fn ParseCst::finish_top_level_expr
@props C05 C09 C10
@req old(self).node_stack@.len() == 1 
@ens[C09,C10] final(self).node_stack@.len() == 0 && final(self).finished@ == old(self).finished@.push(old(self).node_stack@[0])
@fn ParseCst::check_colon_lhs
@props C05
@req exists|i: int| 0 <= i < self.node_stack@.len() && fin(#[trigger] self.node_stack@[i]) && forall|j: int| i < j < self.node_stack@.len() ==> trv(#[trigger] self.node_stack@[j])
@loop 0
invariant_except_break _i0 <= self.node_stack@.len(), _r0 is None, forall|j: int| _i0 <= j < self.node_stack@.len() ==> trv(#[trigger] self.node_stack@[j]),
invariant true,
ensures _r0 is Some ==> exists|i: int| 0 <= i < self.node_stack@.len() && *_r0->0 == #[trigger] self.node_stack@[i] && !trv(self.node_stack@[i]) && forall|j: int| i < j < self.node_stack@.len() ==> trv(#[trigger] self.node_stack@[j]),
  _r0 is None ==> forall|j: int| 0 <= j < self.node_stack@.len() ==> trv(#[trigger] self.node_stack@[j]),
@fn ParseCst::top_node_is_span
@props C05
@req self.node_stack@.len() > 0 && fin(self.node_stack@.last())
@loop 0
invariant_except_break _i0 <= self.node_stack@.len(), _r0 is None, forall|j: int| _i0 <= j < self.node_stack@.len() ==> trv(#[trigger] self.node_stack@[j]),
invariant true,
ensures _r0 is Some ==> exists|i: int| 0 <= i < self.node_stack@.len() && *_r0->0 == #[trigger] self.node_stack@[i] && !trv(self.node_stack@[i]) && forall|j: int| i < j < self.node_stack@.len() ==> trv(#[trigger] self.node_stack@[j]),
  _r0 is None ==> forall|j: int| 0 <= j < self.node_stack@.len() ==> trv(#[trigger] self.node_stack@[j]),
