@module cstm
@source cst.rs
@source parse/operators.rs
@source precedence.rs
@source generated/precedence_values.rs
@source parse.rs
@type SyntaxErrorKind #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type Cst
@type CodeNode
@type BoxNode
@type BoxKind
@type OperatorNode
@type PrefixNode
@type BinaryNode
@type InfixNode
@type TernaryNode
@type PostfixNode
@type PrefixBinaryNode
@type CallNode
@type CallHead
@type CallBody
@type GroupNode
@type CompoundNode
@type SyntaxErrorNode
@type GroupMissingCloserNode
@type GroupMissingOpenerNode
@type TriviaSeq
@type CstSeq
@type InfixOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type PrefixOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type PostfixOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type BinaryOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type TernaryOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type PrefixBinaryOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type CompoundOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type GroupOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type CallOperator #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type Precedence #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@consts Precedence::*
@fns Precedence::bits Precedence::greater NodeSeq::is_empty NodeSeq::len OperatorNode::new PrefixNode::new BinaryNode::new InfixNode::new TernaryNode::new PostfixNode::new PrefixBinaryNode::new GroupNode::new GroupMissingCloserNode::new CompoundNode::new2 CompoundNode::new3 CallNode::concrete SyntaxErrorNode::new GroupOperator::try_to_call_operator

@raw
pub struct Expr { }
pub struct Symbol { }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct NonZeroU8 { pub v: u8 }
impl NonZeroU8 { pub fn get(self) -> (res: u8) ensures res == self.v { self.v } }
pub trait PrecLike: Sized {
  spec fn opt(self) -> Option<Precedence>;
  fn prec_is(self, p: Precedence) -> (res: bool) ensures res == (self.opt() == Some(p));
}
impl PrecLike for Option<Precedence> {
  open spec fn opt(self) -> Option<Precedence> { self }
  fn prec_is(self, p: Precedence) -> bool { match self { Some(s) => s.0.v == p.0.v, None => false } }
}
impl PrecLike for Precedence {
  open spec fn opt(self) -> Option<Precedence> { Some(self) }
  fn prec_is(self, p: Precedence) -> bool { self.0.v == p.0.v }
}
impl Precedence { pub fn rank(self) -> (res: u8) ensures res == self.0.v { self.0.v } }
pub trait IntoPrec: Sized {
  spec fn prec(self) -> Option<Precedence>;
  fn into_(self) -> (res: Option<Precedence>) ensures res == self.prec();
}
impl IntoPrec for Option<Precedence> { open spec fn prec(self) -> Option<Precedence> { self } fn into_(self) -> Option<Precedence> { self } }
impl IntoPrec for Precedence { open spec fn prec(self) -> Option<Precedence> { Some(self) } fn into_(self) -> Option<Precedence> { Some(self) } }
/// the rank of a precedence value, none being the lowest
pub open spec fn rk(p: Option<Precedence>) -> u8 { match p { Some(q) => q.0.v, None => 0 } }
pub fn vec_of2<T>(a: T, b: T) -> (res: Vec<T>) ensures res@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); v }

/// what a piece of syntax tree covers: its leaf tokens from left to right (zero-width ones included);
/// `ok`: no group without its closer in it; `full`: every node has a child
pub ghost struct Sum<I, S> { pub lv: Seq<Token<I, S>>, pub ok: bool, pub full: bool }
pub open spec fn none<I, S>() -> Sum<I, S> { Sum { lv: Seq::empty(), ok: true, full: true } }
pub open spec fn join<I, S>(a: Sum<I, S>, b: Sum<I, S>) -> Sum<I, S> { Sum { lv: a.lv + b.lv, ok: a.ok && b.ok, full: a.full && b.full } }
pub open spec fn node<I, S>(v: Vec<Cst<I, S>>) -> Sum<I, S> decreases v, v.len() + 1
{ let s = vsum(v, v.len() as nat); Sum { full: s.full && v.len() > 0, ..s } }
pub open spec fn sum<I, S>(c: Cst<I, S>) -> Sum<I, S> decreases c
{
  match c {
    Cst::Token(t) => Sum { lv: seq![t], ok: true, full: true },
    Cst::Call(n) => {
      let h = match n.head { CallHead::Concrete(h) => node(h.0), CallHead::Aggregate(b) => sum(*b) };
      match n.body { CallBody::Group(g) => join(h, node(g.0.children.0)), CallBody::GroupMissingCloser(g) => Sum { ok: false, ..join(h, node(g.0.children.0)) } }
    },
    Cst::SyntaxError(n) => node(n.children.0),
    Cst::Prefix(n) => node(n.0.children.0),
    Cst::Infix(n) => node(n.0.children.0),
    Cst::Postfix(n) => node(n.0.children.0),
    Cst::Binary(n) => node(n.0.children.0),
    Cst::Ternary(n) => node(n.0.children.0),
    Cst::PrefixBinary(n) => node(n.0.children.0),
    Cst::Compound(n) => node(n.0.children.0),
    Cst::Group(n) => node(n.0.children.0),
    Cst::GroupMissingCloser(n) => Sum { ok: false, ..node(n.0.children.0) },
    Cst::GroupMissingOpener(n) => Sum { ok: false, ..node(n.0.children.0) },
    Cst::Box(n) => Sum { ok: false, ..node(n.children.0) },
    Cst::Code(_) => Sum { ok: false, ..none() },
  }
}
pub open spec fn vsum<I, S>(v: Vec<Cst<I, S>>, n: nat) -> Sum<I, S> decreases v, n via vsum_dec::<I, S>
{ if n == 0 || n > v.len() { none() } else { join(vsum(v, (n - 1) as nat), sum(v[n - 1])) } }
#[via_fn]
proof fn vsum_dec<I, S>(v: Vec<Cst<I, S>>, n: nat)
{ broadcast use vstd::std_specs::vec::group_vec_axioms; if n == 0 || n > v.len() {} else { assert(decreases_to!(v => v[n - 1])); } }
/// the same for a sequence of trees
pub open spec fn sums<I, S>(v: Seq<Cst<I, S>>) -> Sum<I, S> decreases v.len()
{ if v.len() == 0 { none() } else { join(sums(v.drop_last()), sum(v.last())) } }
pub proof fn vsum_is<I, S>(v: Vec<Cst<I, S>>, n: nat)
  requires n <= v.len(),
  ensures vsum(v, n) == sums(v@.take(n as int)),
  decreases n,
{ if n > 0 { vsum_is(v, (n - 1) as nat); assert(v@.take(n as int).drop_last() =~= v@.take(n - 1)); assert(v@.take(n as int).last() == v[n - 1]); } }
pub proof fn node_is<I, S>(v: Vec<Cst<I, S>>)
  ensures node(v) == (Sum { full: sums(v@).full && v.len() > 0, ..sums(v@) }),
{ vsum_is(v, v.len() as nat); assert(v@.take(v.len() as int) =~= v@); }
pub proof fn join_assoc<I, S>(a: Sum<I, S>, b: Sum<I, S>, c: Sum<I, S>)
  ensures join(join(a, b), c) == join(a, join(b, c)),
{ assert(a.lv + b.lv + c.lv =~= a.lv + (b.lv + c.lv)); }
pub proof fn sums_push<I, S>(v: Seq<Cst<I, S>>, c: Cst<I, S>)
  ensures sums(v.push(c)) == join(sums(v), sum(c)),
{ assert(v.push(c).drop_last() =~= v); }
pub proof fn sums_cat<I, S>(a: Seq<Cst<I, S>>, b: Seq<Cst<I, S>>)
  ensures sums(a + b) == join(sums(a), sums(b)),
  decreases b.len(),
{
  if b.len() == 0 { assert(a + b =~= a); assert(sums(a).lv + Seq::empty() =~= sums(a).lv); assert(join(sums(a), none()) == sums(a)); }
  else { sums_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); join_assoc(sums(a), sums(b.drop_last()), sum(b.last())); }
}
pub open spec fn two<I, S>(v: Seq<Cst<I, S>>) -> bool { v.len() == 2 }
/// the tree made of these children
pub open spec fn made<I, S>(c: Cst<I, S>, v: Seq<Cst<I, S>>) -> bool { sum(c) == (Sum { full: sums(v).full && v.len() > 0, ..sums(v) }) }

@fn Precedence::bits
@props C11
@ens res == self.0.v
@fn Precedence::greater
@props C11
@terminates
//# one total order: a rank stays in front of an equal one exactly when it is even (left associative)
@ens[C11] res == (rk($0) > rk($1) || rk($0) == rk($1) && rk($0) % 2 == 0)
@pro
proof { let (l, r) = (rk($0), rk($1)); assert(((l | 1) > r) == (l > r || l == r && l % 2 == 0)) by (bit_vector); }
@fn NodeSeq::is_empty
@ens res == (self.0@.len() == 0)
@fn NodeSeq::len
@ens res == self.0@.len()
@fn OperatorNode::new
@props C05 C10
@req $1.0@.len() > 0
@ens res.op == $0 && res.children == $1
@fn PrefixNode::new;BinaryNode::new;InfixNode::new;TernaryNode::new;PostfixNode::new;PrefixBinaryNode::new;GroupNode::new;GroupMissingCloserNode::new
@props C05 C09 C10
@req $1.0@.len() > 0
@ens[C09,C10] res.0.op == $0 && res.0.children == $1
@fn SyntaxErrorNode::new
@props C05 C09 C10
@req $1.0@.len() > 0
@ens[C09,C10] res.err == $0 && res.children == $1
@fn CompoundNode::new2
@props C09 C10
@ens[C09,C10] res.0.op == $0 && res.0.children.0@ == seq![Cst::Token($1), Cst::Token($2)] && two(res.0.children.0@)
@fn CompoundNode::new3
@props C09 C10
@ens[C09,C10] res.0.op == $0 && res.0.children.0@ == seq![Cst::Token($1), $2] && two(res.0.children.0@)
@fn CallNode::concrete
@props C09 C10
@ens[C09,C10] res.head == CallHead::Concrete($0) && res.body == $1
@raw
pub open spec fn call_op(op: GroupOperator) -> bool { op == GroupOperator::CodeParser_GroupSquare || op == GroupOperator::CodeParser_GroupDoubleBracket || op == GroupOperator::CodeParser_GroupTypeSpecifier }
@fn GroupOperator::try_to_call_operator
@props C05
@req call_op(self)
@ens res is Some
