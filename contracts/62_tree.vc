@module tree
@source parse_cst.rs
@type ParseCst
@broadcast small_len at_facts
@raw
pub type Tree<'i> = Cst<TokenStr<'i>, Span>;
/// the text being parsed and how its positions are counted; `script`: a first line may have been passed over
pub ghost struct Key { pub s: Seq<u8>, pub tab: u32, pub lc: bool, pub script: bool }
pub open spec fn key(t: Tokenizer) -> Key { Key { s: inp(t), tab: t.reader.tab_width, lc: is_lc(t.reader.SrcLoc), script: !(t.first_line_behavior is NotScript) } }
/// the token is the piece of text at o, with its positions
pub open spec fn lf(k: Key, o: int, tok: TokenRef) -> bool {
  let e = o + tok_text(tok).len();
  &&& 0 <= o <= e <= k.s.len() && tok_text(tok) =~= k.s.subrange(o, e)
  &&& at(k.s, k.tab, k.lc, o, tok.src.start) && at(k.s, k.tab, k.lc, e, tok.src.end)
}
/// the tokens lie end to end from a to b
#[verifier::opaque]
pub open spec fn tiledz(k: Key, v: Seq<TokenRef>, a: int, b: int) -> bool decreases v.len()
{ if v.len() == 0 { a == b } else { let m = b - tok_text(v.last()).len(); lf(k, m, v.last()) && tiledz(k, v.drop_last(), a, m) } }
/// the nodes built so far are complete, and their leaves are the text up to o
#[verifier::opaque]
pub open spec fn cov(k: Key, b: ParseCst, o: int) -> bool {
  let u = join(sums(b.finished@), sums(b.node_stack@));
  u.full && (!k.script && u.ok ==> tiledz(k, u.lv, 0, o))
}
pub broadcast proof fn tok_keep(t1: Tokenizer, t2: Tokenizer, o: int, tok: TokenRef)
  ensures #![trigger tok_at(t1, o, tok), tok_at(t2, o, tok)] tok_at(t1, o, tok) && same(t1.reader, t2.reader) ==> tok_at(t2, o, tok),
{ }
pub broadcast proof fn tok_leaf(t: Tokenizer, o: int, tok: TokenRef)
  ensures #![trigger tok_at(t, o, tok)] tok_at(t, o, tok) ==> lf(key(t), o, tok),
{ }
pub proof fn uns_mono(s: Seq<u8>, o: int, e: int)
  requires 0 <= o <= e <= s.len(), bnd(s, o), uns(s, o),
  ensures uns(s, e),
{ reveal(uns); reveal(bnd); walk_compose(s, 1, start_loc(true), false, 0, o, e); let w = walk(s, 1, start_loc(true), false, 0, o); walk_stick(s, 1, w.loc, o, e); }
/// a leaf behind the reader's place is a token of this input
pub broadcast proof fn leaf_tok(t: Tokenizer, o: int, tok: TokenRef)
  ensures #![trigger lf(key(t), o, tok)] lf(key(t), o, tok) && tinv(t) && o + tok_text(tok).len() <= off(t) ==> tok_at(t, o, tok),
{
  if lf(key(t), o, tok) && tinv(t) && o + tok_text(tok).len() <= off(t) {
    let e = o + tok_text(tok).len();
    if t.reader.unsafe_character_encoding_flag is None {
      if uns(inp(t), o) { uns_mono(inp(t), o, off(t)); }
      if uns(inp(t), e) { uns_mono(inp(t), e, off(t)); }
    }
  }
}
/// a token of no width where tok starts
pub broadcast proof fn zero_at(t: Tokenizer, o: int, tok: TokenRef, z: TokenRef)
  ensures #![trigger tok_at(t, o, tok), tok_at(t, o, z)] tok_at(t, o, tok) && tok_text(z).len() == 0 && z.src.start == tok.src.start && z.src.end == tok.src.start ==> tok_at(t, o, z),
{ if tok_at(t, o, tok) { assert(inp(t).subrange(o, o) =~= Seq::<u8>::empty()); } }
pub broadcast proof fn zero_leaf(k: Key, o: int, tok: TokenRef, z: TokenRef)
  ensures #![trigger lf(k, o, tok), lf(k, o, z)] lf(k, o, tok) && tok_text(z).len() == 0 && z.src.start == tok.src.start && z.src.end == tok.src.start ==> lf(k, o, z),
{ }
pub broadcast proof fn kind_leaf(k: Key, o: int, tok: TokenRef, z: TokenRef)
  ensures #![trigger lf(k, o, tok), lf(k, o, z)] lf(k, o, tok) && z.input == tok.input && z.src == tok.src ==> lf(k, o, z),
{ }
pub broadcast proof fn tz_none(k: Key, v: Seq<TokenRef>, a: int, b: int)
  ensures #![trigger tiledz(k, v, a, b)] v.len() == 0 ==> tiledz(k, v, a, b) == (a == b), tiledz(k, v, a, b) ==> a <= b,
  decreases v.len(),
{ reveal_with_fuel(tiledz, 2); if v.len() > 0 && tiledz(k, v, a, b) { tz_none(k, v.drop_last(), a, b - tok_text(v.last()).len()); } }
pub broadcast proof fn tz_push(k: Key, v: Seq<TokenRef>, x: TokenRef, a: int, m: int, e: int)
  ensures #![trigger tiledz(k, v, a, m), tiledz(k, v.push(x), a, e)] tiledz(k, v, a, m) && lf(k, m, x) && e == m + tok_text(x).len() ==> tiledz(k, v.push(x), a, e),
{ reveal_with_fuel(tiledz, 2); assert(v.push(x).drop_last() =~= v); }
/// the first of them lies where they start
pub broadcast proof fn tz_first(k: Key, v: Seq<TokenRef>, a: int, b: int)
  ensures #![trigger tiledz(k, v, a, b)] tiledz(k, v, a, b) && v.len() > 0 ==> lf(k, a, v[0]) && a + tok_text(v[0]).len() <= b,
  decreases v.len(),
{
  reveal_with_fuel(tiledz, 3);
  if tiledz(k, v, a, b) && v.len() > 0 {
    let m = b - tok_text(v.last()).len();
    if v.len() == 1 { assert(v.drop_last().len() == 0); } else { tz_first(k, v.drop_last(), a, m); assert(v.drop_last()[0] == v[0]); }
  }
}
pub broadcast proof fn tz_cons(k: Key, t: TokenRef, w: Seq<TokenRef>, a: int, e: int)
  ensures #![trigger tiledz(k, seq![t] + w, a, e)] lf(k, a, t) && tiledz(k, w, a + tok_text(t).len(), e) ==> tiledz(k, seq![t] + w, a, e),
{ if lf(k, a, t) && tiledz(k, w, a + tok_text(t).len(), e) { tz_one(k, t, a, a + tok_text(t).len()); tz_cat(k, seq![t], w, a, a + tok_text(t).len(), e); } }
pub broadcast proof fn lex_kind(s: Seq<u8>, o: int, p: NextPolicy, k: TokenKind, e: int)
  ensures #![trigger tok_kind_ok(s, o, p, k, e)] tok_kind_ok(s, o, p, k, e) && 0 <= o <= s.len() ==> !k_never(k),
{ twl_facts(s, o); let a = twl(s, o); if 0 <= o <= s.len() { str_facts(s, a.1); com_end_facts(s, a.1 + 1, 1); } }
pub proof fn tz_cat(k: Key, v: Seq<TokenRef>, w: Seq<TokenRef>, a: int, m: int, e: int)
  requires tiledz(k, v, a, m), tiledz(k, w, m, e),
  ensures tiledz(k, v + w, a, e),
  decreases w.len(),
{
  reveal_with_fuel(tiledz, 2);
  if w.len() == 0 { assert(v + w =~= v); } else { let n = e - tok_text(w.last()).len(); tz_cat(k, v, w.drop_last(), a, m, n); assert((v + w).drop_last() =~= v + w.drop_last()); assert((v + w).last() == w.last()); }
}
pub open spec fn toks<'i>(v: Seq<TokenRef<'i>>) -> Seq<Tree<'i>> { v.map_values(|t: TokenRef<'i>| Cst::Token(t)) }
pub proof fn sums_toks(v: Seq<TokenRef>)
  ensures sums(toks(v)).ok && sums(toks(v)).full && sums(toks(v)).lv == v,
  decreases v.len(),
{
  if v.len() == 0 { assert(toks(v).len() == 0); assert(sums(toks(v)).lv =~= v); }
  else { sums_toks(v.drop_last()); assert(toks(v).drop_last() =~= toks(v.drop_last())); assert(toks(v).last() == Cst::<TokenStr, Span>::Token(v.last())); assert(sums(toks(v)).lv =~= v); }
}
/// adding something at the end
pub proof fn cov_add(k: Key, b1: ParseCst, b2: ParseCst, m: Sum<TokenStr, Span>, o: int, e: int)
  requires cov(k, b1, o), m.full, m.ok ==> tiledz(k, m.lv, o, e),
    join(sums(b2.finished@), sums(b2.node_stack@)) == join(join(sums(b1.finished@), sums(b1.node_stack@)), m),
  ensures cov(k, b2, e),
{
  reveal(cov); let u = join(sums(b1.finished@), sums(b1.node_stack@));
  if !k.script && u.ok && m.ok { tz_cat(k, u.lv, m.lv, 0, o, e); }
}
/// one more node, with these leaves
#[verifier::opaque]
pub open spec fn bumps(a: ParseCst, b: ParseCst, lv: Seq<TokenRef>) -> bool {
  b.finished@ == a.finished@ && b.node_stack@.len() == a.node_stack@.len() + 1 && b.node_stack@.drop_last() =~= a.node_stack@ && sum(b.node_stack@.last()).full && sum(b.node_stack@.last()).ok && sum(b.node_stack@.last()).lv =~= lv
}
pub broadcast proof fn cov_push(k: Key, b1: ParseCst, b2: ParseCst, lv: Seq<TokenRef>, o: int, e: int)
  ensures #![trigger bumps(b1, b2, lv), cov(k, b1, o), cov(k, b2, e)] cov(k, b1, o) && bumps(b1, b2, lv) && tiledz(k, lv, o, e) ==> cov(k, b2, e),
{
  reveal(bumps); reveal(cats); reveal(cuts);
  if cov(k, b1, o) && bumps(b1, b2, lv) && tiledz(k, lv, o, e) {
    let c = b2.node_stack@.last();
    join_assoc(sums(b1.finished@), sums(b1.node_stack@), sum(c)); cov_add(k, b1, b2, sum(c), o, e);
  }
}
pub broadcast proof fn tz_one(k: Key, t: TokenRef, a: int, b: int)
  ensures #![trigger tiledz(k, seq![t], a, b)] lf(k, a, t) && b == a + tok_text(t).len() ==> tiledz(k, seq![t], a, b),
{ reveal_with_fuel(tiledz, 2); assert(seq![t].drop_last() =~= Seq::empty()); }
/// these tokens after the rest
#[verifier::opaque]
pub open spec fn cats(a: ParseCst, b: ParseCst, v: Seq<TokenRef>) -> bool { b.finished@ == a.finished@ && b.node_stack@ =~= a.node_stack@ + toks(v) }
pub broadcast proof fn cov_cat(k: Key, b1: ParseCst, b2: ParseCst, v: Seq<TokenRef>, o: int, e: int)
  ensures #![trigger cats(b1, b2, v), cov(k, b1, o), cov(k, b2, e)] cov(k, b1, o) && tiledz(k, v, o, e) && cats(b1, b2, v) ==> cov(k, b2, e),
{
  reveal(bumps); reveal(cats); reveal(cuts);
  if cov(k, b1, o) && tiledz(k, v, o, e) && cats(b1, b2, v) {
    sums_toks(v); sums_cat(b1.node_stack@, toks(v)); join_assoc(sums(b1.finished@), sums(b1.node_stack@), sums(toks(v))); cov_add(k, b1, b2, sums(toks(v)), o, e);
  }
}
pub broadcast proof fn key_same(a: Tokenizer, b: Tokenizer)
  ensures #![trigger tsame(a, b)] tsame(a, b) ==> key(a) == key(b),
{ }
pub broadcast proof fn cov_push_next(k: Key, b1: ParseCst, b2: ParseCst, t: TokenRef, o: int)
  ensures #![trigger bumps(b1, b2, seq![t]), cov(k, b1, o)] cov(k, b1, o) && bumps(b1, b2, seq![t]) && lf(k, o, t) ==> cov(k, b2, o + tok_text(t).len()),
{ tz_one(k, t, o, o + tok_text(t).len()); cov_push(k, b1, b2, seq![t], o, o + tok_text(t).len()); }
pub broadcast proof fn cov_cat_next(k: Key, b1: ParseCst, b2: ParseCst, v: Seq<TokenRef>, o: int, e: int)
  ensures #![trigger cats(b1, b2, v), cov(k, b1, o), tiledz(k, v, o, e)] cov(k, b1, o) && tiledz(k, v, o, e) && cats(b1, b2, v) ==> cov(k, b2, e),
{ cov_cat(k, b1, b2, v, o, e); }
/// the nodes from i on have become one node
#[verifier::opaque]
pub open spec fn cuts(a: ParseCst, b: ParseCst, i: int) -> bool {
  let c = b.node_stack@.last();
  &&& b.finished@ == a.finished@ && 0 <= i < a.node_stack@.len() && b.node_stack@.len() == i + 1 && b.node_stack@.drop_last() =~= a.node_stack@.take(i)
  &&& made(c, a.node_stack@.skip(i)) || !sum(c).ok && sum(c).full == sums(a.node_stack@.skip(i)).full
}
pub broadcast proof fn cov_node(k: Key, b1: ParseCst, b2: ParseCst, i: int, o: int)
  ensures #![trigger cuts(b1, b2, i), cov(k, b2, o)] cov(k, b1, o) && cuts(b1, b2, i) ==> cov(k, b2, o),
{
  reveal(bumps); reveal(cats); reveal(cuts);
  if cov(k, b1, o) && cuts(b1, b2, i) {
    let c = b2.node_stack@.last(); let v = b1.node_stack@; let p = v.take(i);
    assert(p + v.skip(i) =~= v); assert(p.push(c) =~= b2.node_stack@);
    sums_cat(p, v.skip(i)); sums_push(p, c);
    let f = sums(b1.finished@);
    join_assoc(f, sums(p), sums(v.skip(i))); join_assoc(f, sums(p), sum(c));
    reveal(cov);
  }
}
/// only leaves and whole nodes: a node is whole if its children are
pub broadcast proof fn node_is_b<I, S>(v: Vec<Cst<I, S>>)
  ensures #![trigger node(v)] node(v) == (Sum { full: sums(v@).full && v@.len() > 0, ..sums(v@) }),
{ node_is(v); }
pub proof fn sums_full<I, S>(v: Seq<Cst<I, S>>, i: int)
  requires sums(v).full, 0 <= i <= v.len(),
  ensures sums(v.skip(i)).full, sums(v.take(i)).full,
{ assert(v.take(i) + v.skip(i) =~= v); sums_cat(v.take(i), v.skip(i)); }
/// a node moves to the finished ones
pub broadcast proof fn cov_top(k: Key, b1: ParseCst, b2: ParseCst, o: int)
  ensures #![trigger cov(k, b1, o), cov(k, b2, o)]
    cov(k, b1, o) && b1.node_stack@.len() == 1 && b2.node_stack@.len() == 0 && b2.finished@ == b1.finished@.push(b1.node_stack@[0]) ==> cov(k, b2, o),
{
  if cov(k, b1, o) && b1.node_stack@.len() == 1 && b2.node_stack@.len() == 0 && b2.finished@ == b1.finished@.push(b1.node_stack@[0]) {
    let c = b1.node_stack@[0]; reveal(cov); reveal_with_fuel(sums, 3);
    sums_push(b1.finished@, c); assert(b1.node_stack@.drop_last().len() == 0); assert(b1.node_stack@.last() == c);
    assert(Seq::empty() + sum(c).lv =~= sum(c).lv); assert(sums(b2.finished@).lv + Seq::empty() =~= sums(b2.finished@).lv);
  }
}
pub broadcast proof fn cov_trivia(k: Key, b1: ParseCst, b2: ParseCst, t: TokenRef, o: int, e: int)
  ensures #![trigger cov(k, b1, o), cov(k, b2, e), lf(k, o, t)]
    cov(k, b1, o) && lf(k, o, t) && e == o + tok_text(t).len() && b1.node_stack@.len() == 0 && b2.node_stack@.len() == 0 && b2.finished@ == b1.finished@.push(Cst::Token(t)) ==> cov(k, b2, e),
{
  if cov(k, b1, o) && lf(k, o, t) && e == o + tok_text(t).len() && b1.node_stack@.len() == 0 && b2.node_stack@.len() == 0 && b2.finished@ == b1.finished@.push(Cst::Token(t)) {
    let c: Tree = Cst::Token(t); reveal(cov); sums_push(b1.finished@, c); tz_one(k, t, o, e);
    assert(sums(b1.finished@).lv + Seq::empty() =~= sums(b1.finished@).lv); assert(sums(b2.finished@).lv + Seq::empty() =~= sums(b2.finished@).lv);
    cov_add(k, b1, b2, sum(c), o, e);
  }
}
pub broadcast proof fn cov_new(k: Key, b: ParseCst, o: int)
  ensures #![trigger cov(k, b, o)] b.node_stack@.len() == 0 && b.finished@.len() == 0 && (k.script || o == 0) ==> cov(k, b, o),
{ reveal(cov); reveal(tiledz); if b.node_stack@.len() == 0 && b.finished@.len() == 0 { assert(join(sums(b.finished@), sums(b.node_stack@)).lv =~= Seq::empty()); } }
/// the trees cover the text up to o
#[verifier::opaque]
pub open spec fn covers(k: Key, v: Seq<Tree>, o: int) -> bool { sums(v).full && (!k.script && sums(v).ok ==> tiledz(k, sums(v).lv, 0, o)) }
pub broadcast proof fn cov_covers(k: Key, b: ParseCst, o: int)
  ensures #![trigger cov(k, b, o)] cov(k, b, o) && b.node_stack@.len() == 0 ==> covers(k, b.finished@, o),
{ reveal(cov); reveal(covers); if b.node_stack@.len() == 0 { let u = sums(b.finished@); let w = join(u, sums(b.node_stack@)); assert(w.lv =~= u.lv); } }
pub broadcast proof fn sums_2<I, S>(v: Seq<Cst<I, S>>)
  ensures #![trigger sums(v), two(v)] v.len() == 2 ==> sums(v).lv == sum(v[0]).lv + sum(v[1]).lv && sums(v).ok == (sum(v[0]).ok && sum(v[1]).ok) && sums(v).full == (sum(v[0]).full && sum(v[1]).full),
{
  if v.len() == 2 {
    reveal_with_fuel(sums, 3); assert(v.drop_last().drop_last().len() == 0); assert(v.drop_last().last() == v[0]);
    assert(Seq::empty() + sum(v[0]).lv =~= sum(v[0]).lv);
  }
}
pub broadcast proof fn take_all<T>(v: Seq<T>, n: int)
  ensures #![trigger v.take(n)] n == v.len() ==> v.take(n) == v,
{ if n == v.len() { assert(v.take(n) =~= v); } }
pub broadcast proof fn here_keep(t1: Tokenizer, t2: Tokenizer, o: int, tok: TokenRef)
  ensures #![trigger tok_at(t1, o, tok), tok_here(t2, tok)] tok_at(t1, o, tok) && same(t1.reader, t2.reader) && tinv(t2) ==> tok_here(t2, tok) && place(t2.reader, tok.src.start) == o,
{ if tok_at(t1, o, tok) && same(t1.reader, t2.reader) && tinv(t2) { tok_keep(t1, t2, o, tok); tok_fwd(t2, o, tok); } }
pub broadcast proof fn sum_is<I, S>(c: Cst<I, S>)
  ensures #![trigger sum(c)]
    c is Token ==> sum(c) == (Sum { lv: seq![c->Token_0], ok: true, full: true }),
    c is SyntaxError ==> sum(c) == node(c->SyntaxError_0.children.0),
    c is Prefix ==> sum(c) == node(c->Prefix_0.0.children.0),
    c is Infix ==> sum(c) == node(c->Infix_0.0.children.0),
    c is Postfix ==> sum(c) == node(c->Postfix_0.0.children.0),
    c is Binary ==> sum(c) == node(c->Binary_0.0.children.0),
    c is Ternary ==> sum(c) == node(c->Ternary_0.0.children.0),
    c is PrefixBinary ==> sum(c) == node(c->PrefixBinary_0.0.children.0),
    c is Compound ==> sum(c) == node(c->Compound_0.0.children.0),
    c is Group ==> sum(c) == node(c->Group_0.0.children.0),
    c is GroupMissingCloser ==> sum(c) == (Sum { ok: false, ..node(c->GroupMissingCloser_0.0.children.0) }),
    c is Call && c->Call_0.head is Concrete && c->Call_0.body is Group ==> sum(c) == join(node(c->Call_0.head->Concrete_0.0), node(c->Call_0.body->Group_0.0.children.0)),
    c is Call && c->Call_0.head is Concrete && c->Call_0.body is GroupMissingCloser ==> sum(c) == (Sum { ok: false, ..join(node(c->Call_0.head->Concrete_0.0), node(c->Call_0.body->GroupMissingCloser_0.0.children.0)) }),
{ reveal_with_fuel(sum, 2); }
