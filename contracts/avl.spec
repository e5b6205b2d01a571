// Mutable AVL trees (package avl): a tree as its entries in key order.

pred anode(n: *avl.AvlNode; k: Val, v: Val, l: *avl.AvlNode, r: *avl.AvlNode) {
  n.key |-> ?k2 &*& n.value |-> ?v2 &*& n.height |-> _ &*& n.left |-> ?l2 &*& n.right |-> ?r2
    &*& k := k2 &*& v := v2 &*& l := l2 &*& r := r2 &*& k2 != nil
  fact n != nil && k != nil
}
pred avl(x: *avl.AvlNode; es: Seq<KV>) {
  case x == nil => es := empty<KV>
  case x != nil => anode(x; ?k, ?v, ?l, ?r) &*& avl(l; ?a) &*& avl(r; ?b) &*& es := app(a, app(unit(KV(k, v)), b))
  fact (x == nil) == (len(es) == 0)
  fact nnk(es)
  use nnk_app, nnk_unit, nnk_empty
  assume len(es) <= MAXLEN
}
// the tree at x without the subtree at n, which a search for rank nk reaches;
// a and b are the entries before and after that subtree
pred ctx(x: *avl.AvlNode, n: *avl.AvlNode, nk: Int; a: Seq<KV>, b: Seq<KV>) {
  case x == n => a := empty<KV> &*& b := empty<KV>
  case x != n => anode(x; ?k, ?v, ?l, ?r) &*&
    (nk < rank(k)
      ? ctx(l, n, nk; ?a1, ?b1) &*& avl(r; ?t1) &*& a := a1 &*& b := app(b1, app(unit(KV(k, v)), t1))
      : ctx(r, n, nk; ?a1, ?b1) &*& avl(l; ?t1) &*& a := app(t1, app(unit(KV(k, v)), a1)) &*& b := b1)
  fact n != nil ==> x != nil
  fact x == n ==> len(a) == 0 && len(b) == 0
}
rule avl_join(x: *avl.AvlNode, n: *avl.AvlNode, nk: Int) {
  requires ctx(x, n, nk; ?a, ?b) &*& avl(n; ?t)
  ensures avl(x; app(a, app(t, b)))
}

pred mdside(f: Fn; b: Bool) {
  case closure avl.(*AvlNode).lmd$1 => b := true
  case closure avl.(*AvlNode).rmd$1 => b := false
  fact f != nil
}
functype avl.(*AvlNode)._md.call(self, n)(r) {
  reads mdside(self; ?b) &*& n.left |-> ?l &*& n.right |-> ?rr
  ensures b ? r == l &*& true : r == rr &*& true
}
func avl.(*AvlNode).lmd$1 implements avl.(*AvlNode)._md.call { tags C10 }
func avl.(*AvlNode).rmd$1 implements avl.(*AvlNode)._md.call { tags C10 }

func avl.(*AvlNode)._md(x, side)(r) {
  requires avl(x; ?es) &*& sortedkv(es) &*& mdside(side; ?b)
  ensures x == nil ? r == nil :
    anode(r; ?k, ?v, ?l, ?rr) &*& avl(l; ?t1) &*& avl(rr; ?t2) &*& ctx(x, r, rank(k); ?a, ?c)
    &*& es == app(a, app(t1, app(unit(KV(k, v)), app(t2, c))))
    &*& (b ? l == nil && len(a) == 0 : rr == nil && len(c) == 0)
  use order
  tags C10
}
func avl.(*AvlNode).lmd(x)(r) {
  requires avl(x; ?es) &*& sortedkv(es)
  ensures x == nil ? r == nil :
    anode(r; ?k, ?v, nil, ?rr) &*& avl(rr; ?t2) &*& ctx(x, r, rank(k); ?a, ?c)
    &*& len(a) == 0 &*& es == app(unit(KV(k, v)), app(t2, c))
  tags C10
}
func avl.(*AvlNode).rmd(x)(r) {
  requires avl(x; ?es) &*& sortedkv(es)
  ensures x == nil ? r == nil :
    anode(r; ?k, ?v, ?l, nil) &*& avl(l; ?t1) &*& ctx(x, r, rank(k); ?a, ?c)
    &*& len(c) == 0 &*& es == app(a, app(t1, unit(KV(k, v))))
  tags C10
}
func avl.(*AvlNode).Height(x)(h) {
  reads avl(x; ?es)
  ensures true
  tags C10
}
func avl.(*AvlNode).Size(x)(n) {
  reads avl(x; ?es)
  ensures n == len(es)
  tags C10
}
func avl.(*AvlNode).pop_node(x, n)(r) {
  requires anode(n; ?k, ?v, ?l, ?rr) &*& (l == nil || rr == nil) &*& avl(l; ?t1) &*& avl(rr; ?t2)
  requires x != n ==> x != nil
  requires x == n ? true &*& true : anode(x; ?kx, ?vx, ?lx, ?rx) &*&
    (rank(k) < rank(kx) ? ctx(lx, n, rank(k); ?a, ?b) &*& avl(rx; ?tx) : ctx(rx, n, rank(k); ?a, ?b) &*& avl(lx; ?tx))
  ensures anode(n; k, v, nil, nil)
  ensures x == n ? avl(r; app(t1, t2)) : r == x &*& 
    (rank(k) < rank(kx) ? anode(x; kx, vx, ?l2, rx) &*& avl(l2; app(a, app(t1, app(t2, b)))) &*& avl(rx; tx)
                        : anode(x; kx, vx, lx, ?r2) &*& avl(r2; app(a, app(t1, app(t2, b)))) &*& avl(lx; tx))
  tags C10
}
func avl.(*AvlNode).push_node(x, n)(r) {
  requires avl(x; ?es) &*& sortedkv(es) &*& anode(n; ?k, ?v, nil, nil) &*& !haskv(es, k)
  ensures avl(r; sins(es, KV(k, v))) &*& r != nil
  use order, smap
  tags C10
}
func avl.(*AvlNode).rotate_right(x)(r) {
  requires avl(x; ?es) &*& sortedkv(es)
  ensures avl(r; es) &*& (x != nil ==> r != nil)
  use order, smap, sinsx
  tags C10
}
func avl.(*AvlNode).rotate_left(x)(r) {
  requires avl(x; ?es) &*& sortedkv(es)
  ensures avl(r; es) &*& (x != nil ==> r != nil)
  use order, smap, sinsx
  tags C10
}
func avl.(*AvlNode).balance(x)(r) {
  requires avl(x; ?es) &*& sortedkv(es)
  ensures avl(r; es)
  loop 1 {
    inv avl(self; es) &*& self != nil
  }
  tags C10
}

func avl.(*AvlNode).Has(x, key)(r) {
  requires key != nil
  reads avl(x; ?es) &*& sortedkv(es)
  ensures r == haskv(es, key)
  use order, smap
  tags C10
}
func avl.(*AvlNode).Get(x, key)(v, err) {
  requires key != nil
  reads avl(x; ?es) &*& sortedkv(es)
  ensures haskv(es, key) ? err == nil && v == sget(es, rank(key)) : err != nil && v == nil
  use order, smap
  tags C10
}
func avl.(*AvlNode).Put(x, key, v)(r, u) {
  requires key != nil &*& avl(x; ?es) &*& sortedkv(es)
  ensures avl(r; sput(es, key, v)) &*& u == haskv(es, key)
  use order, trans, smap
  tags C10
}
func avl.(*AvlNode).Remove(x, key)(r, v, err) {
  requires key != nil &*& avl(x; ?es) &*& sortedkv(es)
  ensures haskv(es, key)
    ? err == nil &*& v == sget(es, rank(key)) &*& avl(r; srem(es, rank(key)))
    : err != nil &*& v == nil &*& r == x &*& avl(x; es)
  use order, smap
  tags C10
}

// ------------------------------------------------------------ iteration

pred btn(v: Val; t: BT) {
  case type *avl.AvlNode as x =>
    (x == nil ? t := BLeaf
    : x.key |-> ?k &*& x.value |-> ?w &*& x.left |-> ?l &*& x.right |-> ?r &*& k != nil
      &*& btn(box<*avl.AvlNode>(l); ?tl) &*& btn(box<*avl.AvlNode>(r); ?tr) &*& t := BNode(v, k, w, tl, tr))
}
implements types.BinaryTreeNode by *avl.AvlNode only Left only Right tags C10 C19
implements types.TreeNode by *avl.AvlNode only Key only Value tags C10 C19
rule avl_btn(x: *avl.AvlNode) {
  reads avl(x; ?es)
  ensures ro btn(box<*avl.AvlNode>(x); ?t) &*& kvs(t) == es
}
pred avlt(x: *avl.AvlTree; es: Seq<KV>) {
  x.root |-> ?r &*& avl(r; ?e2) &*& sortedkv(e2) &*& es := e2
  fact x != nil && sortedkv(es) && nnk(es) && len(es) <= MAXLEN
}
pred kvable(v: Val; es: Seq<KV>) {
  case type *avl.AvlNode as x => avl(x; ?e2) &*& es := e2
  case type *avl.AvlTree as x => avlt(x; ?e2) &*& es := e2
}
func avl.(*AvlNode).Iterate(x)(it) {
  borrows avl(x; ?es)
  entry avl_btn(x)
  ensures kviter(it; es)
  use kvofs
  tags C10
}
func avl.(*AvlNode).Keys(x)(it) {
  borrows avl(x; ?es)
  ensures kiter(it; keysof(es))
  tags C10
}
func avl.(*AvlNode).Values(x)(it) {
  borrows avl(x; ?es)
  ensures viter(it; valsof(es))
  tags C10
}
implements types.KVIterable by *avl.AvlNode tags C10
func avl.NewAvlTree()(t) {
  ensures avlt(t; empty<KV>)
  use order
  tags C10
}
func avl.(*AvlTree).Size(t)(n) {
  reads avlt(t; ?es)
  ensures n == len(es)
  tags C10
}
func avl.(*AvlTree).Has(t, key)(r) {
  requires key != nil
  reads avlt(t; ?es)
  ensures r == haskv(es, key)
  tags C10
}
func avl.(*AvlTree).Put(t, key, v)(err) {
  requires key != nil &*& avlt(t; ?es)
  ensures err == nil &*& avlt(t; sput(es, key, v))
  use smap
  tags C10
}
func avl.(*AvlTree).Get(t, key)(v, err) {
  requires key != nil
  reads avlt(t; ?es)
  ensures haskv(es, key) ? err == nil && v == sget(es, rank(key)) : err != nil && v == nil
  tags C10
}
func avl.(*AvlTree).Remove(t, key)(v, err) {
  requires key != nil &*& avlt(t; ?es)
  ensures haskv(es, key)
    ? err == nil &*& v == sget(es, rank(key)) &*& avlt(t; srem(es, rank(key)))
    : err != nil &*& v == nil &*& avlt(t; es)
  use smap
  tags C10
}
func avl.(*AvlTree).Iterate(t)(it) {
  borrows avlt(t; ?es)
  ensures kviter(it; es)
  tags C10
}
implements types.KVIterable by *avl.AvlTree tags C10
func avl.(*AvlTree).Items(t)(it) {
  borrows avlt(t; ?es)
  ensures itemiter(it; es)
  tags C10
}
func avl.(*AvlTree).Keys(t)(it) {
  borrows avlt(t; ?es)
  ensures kiter(it; keysof(es))
  tags C10
}
func avl.(*AvlTree).Values(t)(it) {
  borrows avlt(t; ?es)
  ensures viter(it; valsof(es))
  tags C10
}

// children of a node, as a node of a general tree
func avl.(*AvlNode).ChildCount(self)(n) {
  reads btn(boxptr(self); ?t)
  ensures n == len(bkids(t))
  tags C19
}
func avl.(*AvlNode).GetChild(self, i)(x) {
  reads btn(boxptr(self); ?t) &*& 0 <= i &*& i < len(bkids(t))
  ensures ro btn(x; bkids(t)[i])
  tags C19
}
func avl.(*AvlNode).Children(self)(it) {
  borrows btn(boxptr(self); ?t)
  ensures tniter(it; bkids(t), empty<GT>)
  tags C19
}
