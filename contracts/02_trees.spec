// Binary trees seen through types.BinaryTreeNode, and their traversal.

data BT = BLeaf | BNode(n: Val, k: Val, w: Val, l: BT, r: BT)

// the tree reachable from a node; only ever read
pred btn(v: Val; t: BT) {
  case v == nil => t := BLeaf
  fact t is BLeaf ? (v == nil || nilin(v)) : v != nil && !nilin(v) && t.n == v && t.k != nil
  fact v != nil ==> implements<types.BinaryTreeNode>(v)
}
iface types.BinaryTreeNode.Left(n)(l) {
  reads btn(n; ?t) &*& !(t is BLeaf)
  ensures ro btn(l; t.l) &*& (l == nil) == (t.l is BLeaf)
}
iface types.BinaryTreeNode.Right(n)(l) {
  reads btn(n; ?t) &*& !(t is BLeaf)
  ensures ro btn(l; t.r) &*& (l == nil) == (t.r is BLeaf)
}
iface types.TreeNode.Key(n)(k) {
  reads btn(n; ?t) &*& !(t is BLeaf)
  ensures k == t.k
}
iface types.TreeNode.Value(n)(w) {
  reads btn(n; ?t) &*& !(t is BLeaf)
  ensures w == t.w
}

// ------------------------------------------------------------ nil tests

ufun rvof(v: reflect.Value): Val
extern reflect.ValueOf(x)(v) {
  ensures rvof(v) == x
}
extern reflect.(Value).Kind(v)(k) {
  requires rvof(v) != nil
  ensures k == rkind(rvof(v))
}
extern reflect.(Value).IsNil(v)(r) {
  requires rkind(rvof(v)) == 18 || rkind(rvof(v)) == 19 || 21 <= rkind(rvof(v)) && rkind(rvof(v)) <= 23 || rkind(rvof(v)) == 26
  ensures r == nilin(rvof(v))
}
axiom nilin_kind(v: Val) : {nilin(v)} nilin(v) ==> rkind(v) == 18 || rkind(v) == 19 || 21 <= rkind(v) && rkind(v) <= 23 || rkind(v) == 26
func types.IsNil(x)(r) {
  ensures r == (x == nil || nilin(x))
  use nilin_kind
  tags C19
}

// ------------------------------------------------------------ traversal

fun inord(t: BT): Seq<BT> = match t { BLeaf => empty<BT>; BNode(n, k, w, l, r) => app(inord(l), app(unit(t), inord(r))) }
// what is still to be visited below a stack of nodes whose left subtrees are done
fun stk(s: Seq<Val>): Seq<BT> =
  len(s) <= 0 ? empty<BT> : app(unit(view(btn, s[len(s) - 1])), app(inord(view(btn, s[len(s) - 1]).r), stk(take(s, len(s) - 1))))
group stks
lemma stk_unit(s: Seq<Val>, x: Val) : {stk(app(s, unit(x)))} stk(app(s, unit(x))) == app(unit(view(btn, x)), app(inord(view(btn, x).r), stk(s)))
  by { seqeq(take(app(s, unit(x)), len(s)), s) }
def viewed(s: Seq<Val>): Bool = forall i: Int :: {s[i]} 0 <= i && i < len(s) ==> frozen(btn, s[i]) && !(view(btn, s[i]) is BLeaf) && view(btn, s[i]).n == s[i] && implements<types.BinaryTreeNode>(s[i])

pred tniter(f: Fn; r: Seq<BT>, g: Seq<GT>) {
  case closure tree.TraverseBinaryTreeInOrder$1 =>
    *stack |-> ?s &*& *cur |-> ?c &*& *tn_iterator |-> f &*& slice(s; ?A) &*& let q = arrseq(A, s.off, len(s))
    &*& viewed(q) &*& ro btn(c; ?tc) &*& (c == nil) == (tc is BLeaf) &*& r := app(inord(tc), stk(q)) &*& g := empty<GT>
  case closure tree.TraverseTreePreOrder$1 =>
    *stack |-> ?s &*& *tn_iterator |-> f &*& slice(s; ?A) &*& let q = arrseq(A, s.off, len(s))
    &*& gviewed(q) &*& r := empty<BT> &*& g := gstk(q)
  case closure tree.TraverseTreePostOrder$2 =>
    *stack |-> ?s &*& *tn_iterator |-> f &*& *pop |-> ?pf &*& ro popf(pf; _) &*& slice(s; ?A) &*& let q = arrseq(A, s.off, len(s))
    &*& pviewed(q) &*& r := empty<BT> &*& g := pstk(q)
  case closure types.MakeChildrenIterator$1$1 =>
    *i |-> ?i0 &*& *nodes |-> ?ns &*& *make_tn_iterator |-> ?mf &*& sharing(types.MakeChildrenIterator$1, mf, types.MakeChildrenIterator$1$1, f)
    &*& slice(ns; ?A) &*& let q = arrseq(A, ns.off, len(ns)) &*& viewed(q) &*& 0 <= i0 &*& i0 <= len(q) &*& r := drop(bvs(q), i0) &*& g := empty<GT>
  case closure trie.(*TSTNode).Children$1$1 =>
    *i |-> ?i0 &*& *nodes |-> ?ns &*& *make_tn_iterator |-> ?mf &*& sharing(trie.(*TSTNode).Children$1, mf, trie.(*TSTNode).Children$1$1, f)
    &*& slice(ns; ?A) &*& let q = arrseq(A, ns.off, len(ns)) &*& tviewed(q) &*& 0 <= i0 &*& i0 <= len(q) &*& r := empty<BT> &*& g := drop(gvs(q), i0)
  case closure types.ChainTreeNodeIterators$1$1 =>
    *i |-> ?i0 &*& *next |-> ?nx &*& *make_tni |-> ?mf &*& *tni_iterator |-> f &*& sharing(types.ChainTreeNodeIterators$1, mf, types.ChainTreeNodeIterators$1$1, f)
    &*& *capt(types.ChainTreeNodeIterators$1, mf, tnis) |-> ?ts &*& tniter(nx; empty<BT>, ?g0) &*& 0 <= i0 &*& i0 < len(ts) &*& slice(ts; ?A) &*& all(tniter, A, ts.off + i0 + 1, len(ts) - i0 - 1; ?R, ?G)
    &*& alle(R, ts.off + i0 + 1, len(ts) - i0 - 1) &*& r := empty<BT> &*& g := app(g0, gcat(G, ts.off + i0 + 1, len(ts) - i0 - 1))
  fact f != nil && (len(r) == 0 || len(g) == 0)
}
// iterators one after the other
fun gcat(G: Array<Int,Seq<GT>>, lo: Int, n: Int): Seq<GT> = n <= 0 ? empty<GT> : app(G[lo], gcat(G, lo + 1, n - 1))
def alle(R: Array<Int,Seq<BT>>, lo: Int, n: Int): Bool = forall i: Int :: {R[i]} lo <= i && i < lo + n ==> R[i] == empty<BT>
func types.ChainTreeNodeIterators(tnis)(it) {
  requires slice(tnis; ?A) &*& all(tniter, A, tnis.off, len(tnis); ?R, ?G) &*& alle(R, tnis.off, len(tnis))
  ensures len(tnis) == 0 ? it == nil : tniter(it; empty<BT>, gcat(G, tnis.off, len(tnis)))
  tags C15
}
func types.ChainTreeNodeIterators$1$1 implements types.TreeNodeIterator {
  tags C15
}
// an iterator over nodes of binary trees or over nodes of general trees
functype types.TreeNodeIterator(self)(n, next) {
  requires tniter(self; ?r, ?g)
  ensures len(r) > 0 ? n == r[0].n &*& !(r[0] is BLeaf) &*& ro btn(n; r[0]) &*& next != nil &*& tniter(next; drop(r, 1), g)
    : len(g) > 0 ? n == g[0].n &*& ro gtn(n; g[0]) &*& next != nil &*& tniter(next; r, drop(g, 1))
    : n == nil &*& next == nil
}
func tree.TraverseBinaryTreeInOrder(node)(it) {
  borrows btn(node; ?t)
  ensures tniter(it; inord(t), empty<GT>)
  use stks
  tags C10 C19
}
func tree.TraverseBinaryTreeInOrder$1 implements types.TreeNodeIterator {
  loop 1 {
    inv slice(stack; ?A) &*& let q = arrseq(A, stack.off, len(stack))
    inv viewed(q) &*& ro btn(cur; ?tc) &*& (cur == nil) == (tc is BLeaf) &*& r == app(inord(tc), stk(q))
    decreases len(inord(tc))
  }
  use stks
  tags C10 C19
}

// ------------------------------------------------------------ general trees

// a node, its children, and the entry kept at the node (if there is one)
data GT = GNode(n: Val, kids: Seq<GT>, has: Bool, k: Val, w: Val)

pred gtn(v: Val; t: GT) {
  case type *trie.TSTNode as x => x != nil &*& ttn(x; ?tt) &*& t := gtof(tt)
  fact v != nil && !nilin(v) && t.n == v && len(t.kids) <= MAXLEN
}
iface types.TreeNode.ChildCount(n)(c) {
  reads gtn(n; ?t)
  ensures c == len(t.kids)
}
iface types.TreeNode.GetChild(n, i)(x) {
  reads gtn(n; ?t) &*& 0 <= i &*& i < len(t.kids)
  ensures ro gtn(x; t.kids[i])
}
iface types.TreeNode.Children(n)(it) {
  borrows gtn(n; ?t)
  ensures tniter(it; empty<BT>, t.kids)
}

def gok(x: Val): Bool = frozen(gtn, x) && x != nil && !nilin(x) && view(gtn, x).n == x && len(view(gtn, x).kids) <= MAXLEN
def gpre(t: GT): Seq<GT> = app(unit(t), pres(t.kids))
opaque pres(s: Seq<GT>): Seq<GT> = len(s) <= 0 ? empty<GT> : app(gpre(s[0]), pres(drop(s, 1)))
fun gstk(s: Seq<Val>): Seq<GT> = len(s) <= 0 ? empty<GT> : app(gpre(view(gtn, s[len(s) - 1])), gstk(take(s, len(s) - 1)))
def gviewed(s: Seq<Val>): Bool = forall i: Int :: {s[i]} 0 <= i && i < len(s) ==> gok(s[i])
lemma gstk_unit(s: Seq<Val>, x: Val) : {gstk(app(s, unit(x)))} gstk(app(s, unit(x))) == app(gpre(view(gtn, x)), gstk(s))
  by { seqeq(take(app(s, unit(x)), len(s)), s) }
lemma pres_nil(s: Seq<GT>) use pres : {pres(s)} len(s) == 0 ==> pres(s) == empty<GT>
lemma pres_at(s: Seq<GT>, i: Int, j: Int) use pres : {pres(drop(s, i)), drop(s, j)} 0 <= i && i < len(s) && j == i + 1 ==> pres(drop(s, i)) == app(gpre(s[i]), pres(drop(s, j)))
  by { 0 <= i && i < len(s) && j == i + 1 ==> seqeq(drop(drop(s, i), 1), drop(s, j)) && drop(s, i)[0] == s[i] }

func tree.TraverseTreePreOrder(node)(it) {
  borrows (node == nil || nilin(node) ? let g = empty<GT> : gtn(node; ?t) &*& let g = gpre(t))
  ensures tniter(it; empty<BT>, g)
  use gstk_unit
  tags C19
}
func tree.TraverseTreePreOrder$1 implements types.TreeNodeIterator {
  loop 1 {
    inv next != nil ? tniter(next; empty<BT>, ?r1) &*& let ks = view(gtn, tn).kids &*& let z = len(ks) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(ks, z + 1) &*& child == ks[z].n &*& ro gtn(child; ks[z]) : let ks = view(gtn, tn).kids &*& let z = len(ks)
    inv slice(kids; ?K) &*& len(kids) == z &*& (forall i: Int :: {K[i]} kids.off <= i && i < kids.off + z ==> gok(K[i]) && view(gtn, K[i]) == ks[i - kids.off])
    decreases len(ks) - z
  }
  loop 2 {
    inv let ks = view(gtn, tn).kids &*& -1 <= i && i < len(ks)
    inv slice(stack; ?A) &*& let q = arrseq(A, stack.off, len(stack)) &*& gviewed(q)
    inv gstk(q) == app(pres(drop(ks, i + 1)), drop(g, 1 + len(pres(ks))))
    decreases i + 1
  }
  use gstk_unit, pres_at, pres_nil
  tags C19
}

// an entry's node comes after what its children from the i-th on still have
def gpost(t: GT): Seq<GT> = app(posts(t.kids), unit(t))
opaque posts(s: Seq<GT>): Seq<GT> = len(s) <= 0 ? empty<GT> : app(gpost(s[0]), posts(drop(s, 1)))
fun pent(x: Val, i: Int): Seq<GT> = app(posts(drop(view(gtn, x).kids, i)), unit(view(gtn, x)))
fun pstk(s: Seq<tree.entry>): Seq<GT> = len(s) <= 0 ? empty<GT> : app(pent(s[len(s) - 1].tn, s[len(s) - 1].i), pstk(take(s, len(s) - 1)))
def pviewed(s: Seq<tree.entry>): Bool = forall i: Int :: {s[i]} 0 <= i && i < len(s) ==> gok(s[i].tn) && 0 <= s[i].i && s[i].i <= len(view(gtn, s[i].tn).kids)
lemma pstk_unit(s: Seq<tree.entry>, x: tree.entry) : {pstk(app(s, unit(x)))} pstk(app(s, unit(x))) == app(pent(x.tn, x.i), pstk(s))
  by { seqeq(take(app(s, unit(x)), len(s)), s) }
lemma posts_nil(s: Seq<GT>) use posts : {posts(s)} len(s) == 0 ==> posts(s) == empty<GT>
lemma posts_at(s: Seq<GT>, i: Int, j: Int) use posts : {posts(drop(s, i)), drop(s, j)} 0 <= i && i < len(s) && j == i + 1 ==> posts(drop(s, i)) == app(gpost(s[i]), posts(drop(s, j)))
  by { 0 <= i && i < len(s) && j == i + 1 ==> seqeq(drop(drop(s, i), 1), drop(s, j)) && drop(s, i)[0] == s[i] }
lemma posts_lt(s: Seq<GT>, i: Int) use posts, posts_at : {posts(drop(s, i)), s[i]} 0 <= i && i < len(s) ==> len(posts(s[i].kids)) < len(posts(drop(s, i)))
  by { 0 <= i && i < len(s) ==> posts(drop(s, i)) == app(gpost(s[i]), posts(drop(s, i + 1))) }

pred popf(f: Fn; z: Int) {
  case closure tree.TraverseTreePostOrder$1 => z := 0
  fact f != nil
}
functype tree.TraverseTreePostOrder$2.call(self, stack)(s, tn, i) {
  requires ro popf(self; _)
  reads slice(stack; ?A) &*& 0 < len(stack)
  ensures s.base == stack.base && s.off == stack.off && len(s) == len(stack) - 1 && s.cap == stack.cap && tn == A[stack.off + len(stack) - 1].tn && i == A[stack.off + len(stack) - 1].i
}
func tree.TraverseTreePostOrder$1 implements tree.TraverseTreePostOrder$2.call { tags C19 }
func tree.TraverseTreePostOrder(node)(it) {
  borrows (node == nil || nilin(node) ? let g = empty<GT> : gtn(node; ?t) &*& let g = gpost(t))
  ensures tniter(it; empty<BT>, g)
  use pstk_unit
  tags C19
}
func tree.TraverseTreePostOrder$2 implements types.TreeNodeIterator {
  loop 1 {
    inv slice(stack; ?A) &*& let q = arrseq(A, stack.off, len(stack)) &*& pviewed(q)
    inv gok(tn) && 0 <= i && i <= len(view(gtn, tn).kids)
    inv g == app(pent(tn, i), pstk(q))
    decreases len(posts(drop(view(gtn, tn).kids, i)))
  }
  use pstk_unit, posts_at, posts_nil, posts_lt
  tags C19
}

// ------------------------------------------------------------ children of binary nodes

fun bkids(t: BT): Seq<BT> = t is BLeaf ? empty<BT> : app(t.l is BLeaf ? empty<BT> : unit(t.l), t.r is BLeaf ? empty<BT> : unit(t.r))
fun bvs(s: Seq<Val>): Seq<BT> = len(s) <= 0 ? empty<BT> : app(bvs(take(s, len(s) - 1)), unit(view(btn, s[len(s) - 1])))
lemma bvs_len(s: Seq<Val>) induct s : {bvs(s)} len(bvs(s)) == len(s)
lemma bvs_at(s: Seq<Val>, i: Int) induct s use bvs_len : {bvs(s)[i]} 0 <= i && i < len(s) ==> bvs(s)[i] == view(btn, s[i])
  by { i < len(s) - 1 && 0 <= i ==> take(s, len(s) - 1)[i] == s[i] && bvs(take(s, len(s) - 1))[i] == view(btn, s[i]) }
func types.make_child_slice(node)(ns) {
  reads btn(node; ?t)
  ensures slice(ns; ?A) &*& let q = arrseq(A, ns.off, len(ns)) &*& viewed(q) &*& bvs(q) == bkids(t)
  use bvs_len, bvs_at
  tags C19
}
func types.DoGetChild(node, i)(x) {
  reads btn(node; ?t) &*& 0 <= i &*& i < len(bkids(t))
  ensures ro btn(x; bkids(t)[i])
  use bvs_len, bvs_at
  tags C19
}
func types.DoChildCount(node)(n) {
  reads btn(node; ?t)
  ensures n == len(bkids(t))
  use bvs_len, bvs_at
  tags C19
}
func types.MakeChildrenIterator(node)(it) {
  borrows btn(node; ?t)
  ensures tniter(it; bkids(t), empty<GT>)
  use bvs_len, bvs_at
  tags C19
}
func types.MakeChildrenIterator$1$1 implements types.TreeNodeIterator { use bvs_len, bvs_at tags C19 }
