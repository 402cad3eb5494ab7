@module srcm
@source cst.rs
@source source.rs
@source tokenize/token.rs
@fns <Span as PartialOrd>::partial_cmp;<Span as TokenSource>::between;NodeSeq::first;NodeSeq::last;CstSeq::get_source;Cst::source;Cst::get_source;OperatorNode::get_source;OperatorNode::getSource;PrefixNode::get_source;BinaryNode::get_source;InfixNode::get_source;TernaryNode::get_source;PostfixNode::get_source;PrefixBinaryNode::get_source;GroupNode::get_source;GroupMissingCloserNode::get_source;GroupMissingOpenerNode::get_source;CompoundNode::get_source;CallNode::get_source;CallBody::as_op;CallBody::get_source;SyntaxErrorNode::get_source

@raw
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Span {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, other: &Span) -> Option<core::cmp::Ordering> { loc_cmp(self.start, other.start) }
}
impl PartialEq for Span { fn eq(&self, other: &Span) -> (res: bool) { self.start == other.start && self.end == other.end } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Span {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Span) -> bool { *self == *other }
}
/// what the trees need of a source region: two of them, one not before the other, have a region between
pub trait TokenSource: Sized {
  spec fn ok2(a: Self, b: Self) -> bool;
  spec fn bt(a: Self, b: Self) -> Self;
  fn between(start: Self, end: Self) -> (res: Self) requires Self::ok2(start, end) ensures res == Self::bt(start, end);
  fn clone(&self) -> (res: Self) ensures res == *self;
}
impl TokenSource for Span {
  open spec fn ok2(a: Span, b: Span) -> bool { loc_le(a.start, b.start) && loc_le(a.start, b.end) }
  open spec fn bt(a: Span, b: Span) -> Span { Span { start: a.start, end: b.end } }
  fn between(start: Span, end: Span) -> (res: Span) { Span::between(start, end) }
  fn clone(&self) -> (res: Span) { *self }
}
/// the region of a tree: from its first leaf to its last
pub open spec fn src<I, S: TokenSource>(c: Cst<I, S>) -> S decreases c, 3nat
{
  match c {
    Cst::Token(t) => t.src,
    Cst::Call(n) => {
      let h = match n.head { CallHead::Concrete(h) => isrc(h.0, 0), CallHead::Aggregate(b) => src(*b) };
      match n.body { CallBody::Group(g) => S::bt(h, vsrc(g.0.children.0)), CallBody::GroupMissingCloser(g) => S::bt(h, vsrc(g.0.children.0)) }
    },
    Cst::SyntaxError(n) => vsrc(n.children.0),
    Cst::Prefix(n) => vsrc(n.0.children.0),
    Cst::Infix(n) => vsrc(n.0.children.0),
    Cst::Postfix(n) => vsrc(n.0.children.0),
    Cst::Binary(n) => vsrc(n.0.children.0),
    Cst::Ternary(n) => vsrc(n.0.children.0),
    Cst::PrefixBinary(n) => vsrc(n.0.children.0),
    Cst::Compound(n) => vsrc(n.0.children.0),
    Cst::Group(n) => vsrc(n.0.children.0),
    Cst::GroupMissingCloser(n) => vsrc(n.0.children.0),
    Cst::GroupMissingOpener(n) => vsrc(n.0.children.0),
    Cst::Box(n) => n.src,
    Cst::Code(n) => n.src,
  }
}
pub open spec fn isrc<I, S: TokenSource>(v: Vec<Cst<I, S>>, i: int) -> S decreases v, 0nat via isrc_dec::<I, S>
{ if 0 <= i < v.len() { src(v[i]) } else { arbitrary() } }
#[via_fn]
proof fn isrc_dec<I, S: TokenSource>(v: Vec<Cst<I, S>>, i: int)
{ broadcast use vstd::std_specs::vec::group_vec_axioms; if 0 <= i < v.len() { assert(decreases_to!(v => v[i])); } }
pub open spec fn vsrc<I, S: TokenSource>(v: Vec<Cst<I, S>>) -> S decreases v, 1nat
{ S::bt(isrc(v, 0), isrc(v, v.len() - 1)) }
/// the regions needed to make up a tree's own are in order
pub open spec fn good<I, S: TokenSource>(c: Cst<I, S>) -> bool decreases c, 3nat
{
  match c {
    Cst::Token(_) => true,
    Cst::Call(n) => {
      let (ok, h) = match n.head { CallHead::Concrete(h) => (igood(h.0, 0), isrc(h.0, 0)), CallHead::Aggregate(b) => (good(*b), src(*b)) };
      match n.body { CallBody::Group(g) => ok && vgood(g.0.children.0) && S::ok2(h, vsrc(g.0.children.0)), CallBody::GroupMissingCloser(g) => ok && vgood(g.0.children.0) && S::ok2(h, vsrc(g.0.children.0)) }
    },
    Cst::SyntaxError(n) => vgood(n.children.0),
    Cst::Prefix(n) => vgood(n.0.children.0),
    Cst::Infix(n) => vgood(n.0.children.0),
    Cst::Postfix(n) => vgood(n.0.children.0),
    Cst::Binary(n) => vgood(n.0.children.0),
    Cst::Ternary(n) => vgood(n.0.children.0),
    Cst::PrefixBinary(n) => vgood(n.0.children.0),
    Cst::Compound(n) => vgood(n.0.children.0),
    Cst::Group(n) => vgood(n.0.children.0),
    Cst::GroupMissingCloser(n) => vgood(n.0.children.0),
    Cst::GroupMissingOpener(n) => vgood(n.0.children.0),
    Cst::Box(_) => true,
    Cst::Code(_) => true,
  }
}
pub open spec fn igood<I, S: TokenSource>(v: Vec<Cst<I, S>>, i: int) -> bool decreases v, 0nat via igood_dec::<I, S>
{ 0 <= i < v.len() && good(v[i]) }
#[via_fn]
proof fn igood_dec<I, S: TokenSource>(v: Vec<Cst<I, S>>, i: int)
{ broadcast use vstd::std_specs::vec::group_vec_axioms; if 0 <= i < v.len() { assert(decreases_to!(v => v[i])); } }
pub open spec fn vgood<I, S: TokenSource>(v: Vec<Cst<I, S>>) -> bool decreases v, 1nat
{ igood(v, 0) && igood(v, v.len() - 1) && S::ok2(isrc(v, 0), isrc(v, v.len() - 1)) }

@fn <Span as PartialOrd>::partial_cmp
@props C05 C10 C12
@fn <Span as TokenSource>::between
@inherent
@props C05 C10 C12
@req[C05] loc_le($0.start, $1.start) && loc_le($0.start, $1.end)
@ens[C10,C12] res == (Span { start: $0.start, end: $1.end })
@fn NodeSeq::first
@props C05 C10
@req self.0@.len() > 0
@ens *res == self.0@[0]
@fn NodeSeq::last
@props C05 C10
@req self.0@.len() > 0
@ens *res == self.0@.last()
@fn CstSeq::get_source
@props C05 C10
@req vgood(self.0)
@ens[C10] res == vsrc(self.0)
@fn Cst::source;Cst::get_source
@props C05 C10
@req good(*self)
@ens[C10] res == src(*self)
@fn OperatorNode::get_source;OperatorNode::getSource;SyntaxErrorNode::get_source
@props C05 C10
@req vgood(self.children.0)
@ens[C10] res == vsrc(self.children.0)
@fn PrefixNode::get_source;BinaryNode::get_source;InfixNode::get_source;TernaryNode::get_source;PostfixNode::get_source;PrefixBinaryNode::get_source;GroupNode::get_source;GroupMissingCloserNode::get_source;GroupMissingOpenerNode::get_source;CompoundNode::get_source
@props C05 C10
@req vgood(self.0.children.0)
@ens[C10] res == vsrc(self.0.children.0)
@fn CallBody::as_op
@props C10
@ens *res == (match *self { CallBody::Group(g) => g.0, CallBody::GroupMissingCloser(g) => g.0 })
@fn CallBody::get_source
@props C05 C10
@req vgood((match *self { CallBody::Group(g) => g.0, CallBody::GroupMissingCloser(g) => g.0 }).children.0)
@ens[C10] res == vsrc((match *self { CallBody::Group(g) => g.0, CallBody::GroupMissingCloser(g) => g.0 }).children.0)
@fn CallNode::get_source
@props C05 C10
@req good(Cst::Call(*self))
@ens[C10] res == src(Cst::Call(*self))
@pro
proof { reveal_with_fuel(good, 3); reveal_with_fuel(src, 3); reveal_with_fuel(igood, 2); reveal_with_fuel(isrc, 2); }
