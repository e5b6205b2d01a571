// Immutable AVL trees (package avl): every node that is part of a version is
// read-only for good (imm), so no version can change once it exists.

pred inode(n: *avl.ImmutableAvlNode; k: Val, v: Val, l: *avl.ImmutableAvlNode, r: *avl.ImmutableAvlNode) {
  n.key |-> ?k2 &*& n.value |-> ?v2 &*& n.height |-> _ &*& n.left |-> ?l2 &*& n.right |-> ?r2
    &*& k := k2 &*& v := v2 &*& l := l2 &*& r := r2 &*& k2 != nil
  fact n != nil && k != nil
}
pred iavl(x: *avl.ImmutableAvlNode; es: Seq<KV>) {
  case x == nil => es := empty<KV>
  case x != nil => inode(x; ?k, ?v, ?l, ?r) &*& iavl(l; ?a) &*& iavl(r; ?b) &*& es := app(a, app(unit(KV(k, v)), b))
  fact (x == nil) == (len(es) == 0)
  fact nnk(es)
  use nnk_app, nnk_unit, nnk_empty
  assume len(es) <= MAXLEN
}
// the tree at x around the node n that a search for rank nk reaches
pred ictx(x: *avl.ImmutableAvlNode, n: *avl.ImmutableAvlNode, nk: Int; a: Seq<KV>, b: Seq<KV>) {
  case x == n => a := empty<KV> &*& b := empty<KV>
  case x != n => inode(x; ?k, ?v, ?l, ?r) &*&
    (nk < rank(k)
      ? ictx(l, n, nk; ?a1, ?b1) &*& iavl(r; ?t1) &*& a := a1 &*& b := app(b1, app(unit(KV(k, v)), t1))
      : ictx(r, n, nk; ?a1, ?b1) &*& iavl(l; ?t1) &*& a := app(t1, app(unit(KV(k, v)), a1)) &*& b := b1)
  fact n != nil ==> x != nil
  fact x == n ==> len(a) == 0 && len(b) == 0
}

pred imdside(f: Fn; b: Bool) {
  case closure avl.(*ImmutableAvlNode).lmd$1 => b := true
  case closure avl.(*ImmutableAvlNode).rmd$1 => b := false
  fact f != nil
}
functype avl.(*ImmutableAvlNode)._md.call(self, n)(r) {
  reads imdside(self; ?b) &*& n.left |-> ?l &*& n.right |-> ?rr
  ensures b ? r == l &*& true : r == rr &*& true
}
func avl.(*ImmutableAvlNode).lmd$1 implements avl.(*ImmutableAvlNode)._md.call { tags C11 }
func avl.(*ImmutableAvlNode).rmd$1 implements avl.(*ImmutableAvlNode)._md.call { tags C11 }

func avl.(*ImmutableAvlNode)._md(x, side)(r) {
  requires imm iavl(x; ?es) &*& sortedkv(es) &*& imdside(side; ?b)
  ensures x == nil ? r == nil :
    imm inode(r; ?k, ?v, ?l, ?rr) &*& imm iavl(l; ?t1) &*& imm iavl(rr; ?t2) &*& imm ictx(x, r, rank(k); ?a, ?c)
    &*& es == app(a, app(t1, app(unit(KV(k, v)), app(t2, c))))
    &*& (b ? l == nil && len(a) == 0 : rr == nil && len(c) == 0)
  use order
  tags C11
}
func avl.(*ImmutableAvlNode).lmd(x)(r) {
  requires imm iavl(x; ?es) &*& sortedkv(es)
  ensures x == nil ? r == nil :
    imm inode(r; ?k, ?v, nil, ?rr) &*& imm iavl(rr; ?t2) &*& imm ictx(x, r, rank(k); ?a, ?c)
    &*& len(a) == 0 &*& es == app(unit(KV(k, v)), app(t2, c))
  tags C11
}
func avl.(*ImmutableAvlNode).rmd(x)(r) {
  requires imm iavl(x; ?es) &*& sortedkv(es)
  ensures x == nil ? r == nil :
    imm inode(r; ?k, ?v, ?l, nil) &*& imm iavl(l; ?t1) &*& imm ictx(x, r, rank(k); ?a, ?c)
    &*& len(c) == 0 &*& es == app(a, app(t1, unit(KV(k, v))))
  tags C11
}
func avl.(*ImmutableAvlNode).Copy(x)(r) {
  requires x == nil ? true &*& true : imm inode(x; ?k, ?v, ?l, ?rr)
  ensures x == nil ? r == nil : inode(r; k, v, l, rr)
  tags C11
}
func avl.(*ImmutableAvlNode).Height(x)(h) {
  reads x == nil ? true &*& true : inode(x; ?k, ?v, ?l, ?r)
  ensures true
  tags C11
}
func avl.(*ImmutableAvlNode).Size(x)(n) {
  reads iavl(x; ?es)
  ensures n == len(es)
  tags C11
}
func avl.(*ImmutableAvlNode).pop_node(x, n)(r, m) {
  requires imm inode(n; ?k, ?v, ?l, ?rr) &*& (l == nil || rr == nil) &*& imm iavl(l; ?t1) &*& imm iavl(rr; ?t2)
  requires imm ictx(x, n, rank(k); ?a, ?b)
  requires x == n ? true &*& true : imm inode(x; ?kx, ?vx, ?lx, ?rx) &*&
    (rank(k) < rank(kx) ? imm ictx(lx, n, rank(k); ?a1, ?b1) &*& imm iavl(rx; ?tx) : imm ictx(rx, n, rank(k); ?a1, ?b1) &*& imm iavl(lx; ?tx))
  ensures inode(m; k, v, nil, nil)
  ensures x == n ? imm iavl(r; app(t1, t2)) :
    (rank(k) < rank(kx) ? inode(r; kx, vx, ?l2, rx) &*& imm iavl(l2; app(a1, app(t1, app(t2, b1)))) &*& imm iavl(rx; tx)
                        : inode(r; kx, vx, lx, ?r2) &*& imm iavl(r2; app(a1, app(t1, app(t2, b1)))) &*& imm iavl(lx; tx))
  tags C11
}
func avl.(*ImmutableAvlNode).push_node(x, n)(r) {
  requires imm iavl(x; ?es) &*& sortedkv(es) &*& inode(n; ?k, ?v, nil, nil) &*& !haskv(es, k)
  ensures imm iavl(r; sins(es, KV(k, v))) &*& r != nil
  use order, smap
  tags C11
}
func avl.(*ImmutableAvlNode).rotate_right(x)(r) {
  requires imm iavl(x; ?es) &*& sortedkv(es)
  ensures imm iavl(r; es) &*& (x != nil ==> r != nil)
  use order, smap, sinsx
  tags C11
}
func avl.(*ImmutableAvlNode).rotate_left(x)(r) {
  requires imm iavl(x; ?es) &*& sortedkv(es)
  ensures imm iavl(r; es) &*& (x != nil ==> r != nil)
  use order, smap, sinsx
  tags C11
}
func avl.(*ImmutableAvlNode).balance(x)(r) {
  requires imm iavl(x; ?es) &*& sortedkv(es)
  ensures imm iavl(r; es)
  loop 1 {
    inv imm iavl(self; es) &*& self != nil
  }
  tags C11
}
func avl.(*ImmutableAvlNode).Has(x, key)(r) {
  requires key != nil
  reads iavl(x; ?es) &*& sortedkv(es)
  ensures r == haskv(es, key)
  use order, smap
  tags C11
}
func avl.(*ImmutableAvlNode).Get(x, key)(v, err) {
  requires key != nil
  reads iavl(x; ?es) &*& sortedkv(es)
  ensures haskv(es, key) ? err == nil && v == sget(es, rank(key)) : err != nil && v == nil
  use order, smap
  tags C11
}
func avl.(*ImmutableAvlNode).Put(x, key, v)(r, u) {
  requires key != nil &*& imm iavl(x; ?es) &*& sortedkv(es)
  ensures imm iavl(r; sput(es, key, v)) &*& u == haskv(es, key)
  use order, trans, smap
  tags C11
}
func avl.(*ImmutableAvlNode).Remove(x, key)(r, v, err) {
  requires key != nil &*& imm iavl(x; ?es) &*& sortedkv(es)
  ensures haskv(es, key)
    ? err == nil &*& v == sget(es, rank(key)) &*& imm iavl(r; srem(es, rank(key)))
    : err != nil &*& v == nil &*& imm iavl(r; es)
  use order, smap
  tags C11
}
pred btn(v: Val; t: BT) {
  case type *avl.ImmutableAvlNode as x =>
    (x == nil ? t := BLeaf
    : x.key |-> ?k &*& x.value |-> ?w &*& x.left |-> ?l &*& x.right |-> ?r &*& k != nil
      &*& btn(box<*avl.ImmutableAvlNode>(l); ?tl) &*& btn(box<*avl.ImmutableAvlNode>(r); ?tr) &*& t := BNode(v, k, w, tl, tr))
}
implements types.BinaryTreeNode by *avl.ImmutableAvlNode only Left only Right tags C11 C19
implements types.TreeNode by *avl.ImmutableAvlNode only Key only Value tags C11 C19
rule iavl_btn(x: *avl.ImmutableAvlNode) {
  reads iavl(x; ?es)
  ensures ro btn(box<*avl.ImmutableAvlNode>(x); ?t) &*& kvs(t) == es
}
pred iavlt(x: *avl.ImmutableAvlTree; es: Seq<KV>) {
  x.root |-> ?r &*& imm iavl(r; ?e2) &*& sortedkv(e2) &*& es := e2
  fact x != nil && sortedkv(es) && nnk(es) && len(es) <= MAXLEN
}
pred kvable(v: Val; es: Seq<KV>) {
  case type *avl.ImmutableAvlNode as x => iavl(x; ?e2) &*& es := e2
  case type *avl.ImmutableAvlTree as x => iavlt(x; ?e2) &*& es := e2
}
func avl.(*ImmutableAvlNode).Iterate(x)(it) {
  borrows iavl(x; ?es)
  entry iavl_btn(x)
  ensures kviter(it; es)
  use kvofs
  tags C11
}
func avl.(*ImmutableAvlNode).Keys(x)(it) {
  borrows iavl(x; ?es)
  ensures kiter(it; keysof(es))
  tags C11
}
func avl.(*ImmutableAvlNode).Values(x)(it) {
  borrows iavl(x; ?es)
  ensures viter(it; valsof(es))
  tags C11
}
implements types.KVIterable by *avl.ImmutableAvlNode tags C11
func avl.NewImmutableAvlTree()(t) {
  ensures iavlt(t; empty<KV>)
  use order
  tags C11
}
func avl.(*ImmutableAvlTree).Root(t)(r) {
  reads iavlt(t; ?es)
  ensures typeof(r) == typeid(*avl.ImmutableAvlNode) &*& imm iavl(unbox<*avl.ImmutableAvlNode>(r); es)
  tags C11
}
func avl.(*ImmutableAvlTree).Size(t)(n) {
  reads iavlt(t; ?es)
  ensures n == len(es)
  tags C11
}
func avl.(*ImmutableAvlTree).Has(t, key)(r) {
  requires key != nil
  reads iavlt(t; ?es)
  ensures r == haskv(es, key)
  tags C11
}
func avl.(*ImmutableAvlTree).Put(t, key, v)(err) {
  requires key != nil &*& iavlt(t; ?es)
  ensures err == nil &*& iavlt(t; sput(es, key, v))
  use smap
  tags C11
}
func avl.(*ImmutableAvlTree).Get(t, key)(v, err) {
  requires key != nil
  reads iavlt(t; ?es)
  ensures haskv(es, key) ? err == nil && v == sget(es, rank(key)) : err != nil && v == nil
  tags C11
}
func avl.(*ImmutableAvlTree).Remove(t, key)(v, err) {
  requires key != nil &*& iavlt(t; ?es)
  ensures haskv(es, key)
    ? err == nil &*& v == sget(es, rank(key)) &*& iavlt(t; srem(es, rank(key)))
    : err != nil &*& v == nil &*& iavlt(t; es)
  use smap
  tags C11
}
func avl.(*ImmutableAvlTree).Iterate(t)(it) {
  borrows iavlt(t; ?es)
  ensures kviter(it; es)
  tags C11
}
implements types.KVIterable by *avl.ImmutableAvlTree tags C11
func avl.(*ImmutableAvlTree).Items(t)(it) {
  borrows iavlt(t; ?es)
  ensures itemiter(it; es)
  tags C11
}
func avl.(*ImmutableAvlTree).Keys(t)(it) {
  borrows iavlt(t; ?es)
  ensures kiter(it; keysof(es))
  tags C11
}
func avl.(*ImmutableAvlTree).Values(t)(it) {
  borrows iavlt(t; ?es)
  ensures viter(it; valsof(es))
  tags C11
}

// children of a node, as a node of a general tree
func avl.(*ImmutableAvlNode).ChildCount(self)(n) {
  reads btn(boxptr(self); ?t)
  ensures n == len(bkids(t))
  tags C19
}
func avl.(*ImmutableAvlNode).GetChild(self, i)(x) {
  reads btn(boxptr(self); ?t) &*& 0 <= i &*& i < len(bkids(t))
  ensures ro btn(x; bkids(t)[i])
  tags C19
}
func avl.(*ImmutableAvlNode).Children(self)(it) {
  borrows btn(boxptr(self); ?t)
  ensures tniter(it; bkids(t), empty<GT>)
  tags C19
}
