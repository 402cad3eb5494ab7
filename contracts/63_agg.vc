@module aggs
@source agg.rs
@type AggNodeSeq
@raw
pub open spec fn gone_kind(k: TokenKind) -> bool { k == TokenKind::Comment || k == TokenKind::InternalNewline || k == TokenKind::ToplevelNewline || k == TokenKind::Whitespace || k == TokenKind::Boxes_MultiWhitespace }
/// the nodes aggregation drops: white space, newlines, comments
pub open spec fn gone<I, S>(c: Cst<I, S>) -> bool {
  match c { Cst::Token(t) => gone_kind(t.tok), Cst::Group(g) => g.0.op == GroupOperator::Token_Comment, _ => false }
}
/// r is the node c without what aggregation drops below it
pub open spec fn same_node<I, S>(c: Cst<I, S>, r: Cst<I, S>) -> bool decreases c, 0nat
{
  match (c, r) {
    (Cst::Token(t), Cst::Token(u)) => t == u,
    (Cst::Code(t), Cst::Code(u)) => t == u,
    (Cst::Call(n), Cst::Call(m)) => {
      &&& match (n.head, m.head) { (CallHead::Concrete(h), CallHead::Aggregate(b)) => agg_left(h.0, h.0.len() as nat, seq![*b]), _ => false }
      &&& match (n.body, m.body) {
        (CallBody::Group(g), CallBody::Group(h)) => g.0.op == h.0.op && agg_left(g.0.children.0, g.0.children.0.len() as nat, h.0.children.0@),
        (CallBody::GroupMissingCloser(g), CallBody::GroupMissingCloser(h)) => g.0.op == h.0.op && agg_left(g.0.children.0, g.0.children.0.len() as nat, h.0.children.0@),
        _ => false,
      }
    },
    (Cst::SyntaxError(n), Cst::SyntaxError(m)) => n.err == m.err && agg_left(n.children.0, n.children.0.len() as nat, m.children.0@),
    (Cst::Prefix(n), Cst::Prefix(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::Infix(n), Cst::Infix(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::Postfix(n), Cst::Postfix(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::Binary(n), Cst::Binary(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::Ternary(n), Cst::Ternary(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::PrefixBinary(n), Cst::PrefixBinary(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::Compound(n), Cst::Compound(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::Group(n), Cst::Group(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::GroupMissingCloser(n), Cst::GroupMissingCloser(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::GroupMissingOpener(n), Cst::GroupMissingOpener(m)) => n.0.op == m.0.op && agg_left(n.0.children.0, n.0.children.0.len() as nat, m.0.children.0@),
    (Cst::Box(n), Cst::Box(m)) => n.kind == m.kind && n.src == m.src && agg_left(n.children.0, n.children.0.len() as nat, m.children.0@),
    _ => false,
  }
}
/// w is what is left of the first n nodes of v
pub open spec fn agg_left<I, S>(v: Vec<Cst<I, S>>, n: nat, w: Seq<Cst<I, S>>) -> bool decreases v, n via left_dec::<I, S>
{
  if n == 0 || n > v.len() { w.len() == 0 }
  else if gone(v[n - 1]) { agg_left(v, (n - 1) as nat, w) }
  else { w.len() > 0 && same_node(v[n - 1], w.last()) && agg_left(v, (n - 1) as nat, w.drop_last()) }
}
#[via_fn]
proof fn left_dec<I, S>(v: Vec<Cst<I, S>>, n: nat, w: Seq<Cst<I, S>>)
{ broadcast use vstd::std_specs::vec::group_vec_axioms; if n == 0 || n > v.len() {} else { assert(decreases_to!(v => v[n - 1])); } }
/// every call has exactly one node in its head besides trivia
pub open spec fn calls<I, S>(c: Cst<I, S>) -> bool decreases c, 0nat
{
  match c {
    Cst::Token(_) => true,
    Cst::Code(_) => true,
    Cst::Call(n) => {
      &&& match n.head { CallHead::Concrete(h) => vcalls(h.0, h.0.len() as nat) && kept_n(h.0@) == 1, CallHead::Aggregate(_) => false }
      &&& match n.body { CallBody::Group(g) => vcalls(g.0.children.0, g.0.children.0.len() as nat), CallBody::GroupMissingCloser(g) => vcalls(g.0.children.0, g.0.children.0.len() as nat) }
    },
    Cst::SyntaxError(n) => vcalls(n.children.0, n.children.0.len() as nat),
    Cst::Prefix(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::Infix(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::Postfix(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::Binary(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::Ternary(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::PrefixBinary(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::Compound(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::Group(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::GroupMissingCloser(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::GroupMissingOpener(n) => vcalls(n.0.children.0, n.0.children.0.len() as nat),
    Cst::Box(n) => vcalls(n.children.0, n.children.0.len() as nat),
  }
}
pub open spec fn vcalls<I, S>(v: Vec<Cst<I, S>>, n: nat) -> bool decreases v, n via vcalls_dec::<I, S>
{ if n == 0 || n > v.len() { true } else { calls(v[n - 1]) && vcalls(v, (n - 1) as nat) } }
#[via_fn]
proof fn vcalls_dec<I, S>(v: Vec<Cst<I, S>>, n: nat)
{ broadcast use vstd::std_specs::vec::group_vec_axioms; if n == 0 || n > v.len() {} else { assert(decreases_to!(v => v[n - 1])); } }
pub open spec fn kept_n<I, S>(v: Seq<Cst<I, S>>) -> nat decreases v.len()
{ if v.len() == 0 { 0 } else { kept_n(v.drop_last()) + (if gone(v.last()) { 0nat } else { 1nat }) } }
pub proof fn vcalls_all<I, S>(v: Vec<Cst<I, S>>, n: nat, i: int)
  requires vcalls(v, n), 0 <= i < n <= v.len(),
  ensures calls(v[i]),
  decreases n,
{ if i < n - 1 { vcalls_all(v, (n - 1) as nat, i); } }
pub proof fn left_n<I, S>(v: Vec<Cst<I, S>>, n: nat, w: Seq<Cst<I, S>>)
  requires agg_left(v, n, w), n <= v.len(),
  ensures w.len() == kept_n(v@.take(n as int)),
  decreases n,
{
  if n > 0 {
    assert(v@.take(n as int).drop_last() =~= v@.take(n - 1)); assert(v@.take(n as int).last() == v[n - 1]);
    if gone(v[n - 1]) { left_n(v, (n - 1) as nat, w); } else { left_n(v, (n - 1) as nat, w.drop_last()); }
  }
}

pub broadcast proof fn left_push<I, S>(v: Vec<Cst<I, S>>, n: nat, w: Seq<Cst<I, S>>, y: Cst<I, S>)
  ensures #![trigger agg_left(v, n, w), w.push(y)] agg_left(v, n, w) && n < v.len() && !gone(v[n as int]) && same_node(v[n as int], y) ==> agg_left(v, n + 1, w.push(y)),
{ assert(w.push(y).drop_last() =~= w); }
pub broadcast proof fn left_skip<I, S>(v: Vec<Cst<I, S>>, n: nat, w: Seq<Cst<I, S>>)
  ensures #![trigger agg_left(v, n, w)] n < v.len() && gone(v[n as int]) && agg_left(v, n, w) ==> agg_left(v, n + 1, w),
{ }
pub broadcast proof fn left_one<I, S>(v: Vec<Cst<I, S>>, n: nat, w: Seq<Cst<I, S>>)
  ensures #![trigger agg_left(v, n, w)] agg_left(v, n, w) && n == v.len() ==> w.len() == kept_n(v@) && (w.len() == 1 ==> agg_left(v, n, seq![w[0]])),
{ if agg_left(v, n, w) && n == v.len() { left_n(v, n, w); assert(v@.take(n as int) =~= v@); if w.len() == 1 { assert(seq![w[0]] =~= w); } } }

@module aggm
@source abstract_cst.rs
@source cst.rs
@fns aggregate_cst_seq aggregate_cst aggregate_op CallBody::map_op
@broadcast left_push left_skip left_one

@raw
/// v.into_iter().next()
pub fn vec_next<T>(v: Vec<T>) -> (res: Option<T>)
  ensures v@.len() == 0 ==> res is None, v@.len() > 0 ==> res == Some(v@[0]),
{ let mut v = v; if v.len() == 0 { None } else { Some(v.remove(0)) } }
@fn aggregate_op
@props C05 C17
@req vcalls($0.children.0, $0.children.0.len() as nat)
@ens[C17] res.op == $0.op && agg_left($0.children.0, $0.children.0.len() as nat, res.children.0@)
@fn CallBody::map_op
@props C17
@req (match self { CallBody::Group(g) => $1.requires((g.0,)), CallBody::GroupMissingCloser(g) => $1.requires((g.0,)) })
@ens[C17] match (self, res) { (CallBody::Group(g), CallBody::Group(h)) => $1.ensures((g.0,), h.0), (CallBody::GroupMissingCloser(g), CallBody::GroupMissingCloser(h)) => $1.ensures((g.0,), h.0), _ => false }
@fn aggregate_cst_seq
@props C05 C17
@req vcalls($0.0, $0.0.len() as nat)
@ens[C17] agg_left($0.0, $0.0.len() as nat, res.0@)
@loop *
invariant
  _v0@ == agg@.skip(agg.len() - _v0.len()), _v0.len() <= agg.len(),
  vcalls(agg, agg.len() as nat),
  agg_left(agg, (agg.len() - _v0.len()) as nat, _o0@),
decreases _v0.len(),
body: proof { vcalls_all(agg, agg.len() as nat, agg.len() - _v0.len()); }
@fn aggregate_cst
@props C05 C17
@req calls($0)
@ens[C17] res is None <==> gone($0)
@ens[C17] res is Some ==> same_node($0, res->0)
@pro
proof { reveal_with_fuel(calls, 2); reveal_with_fuel(same_node, 2); }
@loop *
invariant
  _v0@ == children@.skip(children.len() - _v0.len()), _v0.len() <= children.len(),
  vcalls(children, children.len() as nat),
  agg_left(children, (children.len() - _v0.len()) as nat, _o0@),
decreases _v0.len(),
body: proof { vcalls_all(children, children.len() as nat, children.len() - _v0.len()); }
