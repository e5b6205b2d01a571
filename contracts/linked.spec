// Doubly linked lists (package linked).

pred nd(x: *linked.Node; d: Val, nx: *linked.Node, pv: *linked.Node) {
  x.Data |-> ?d2 &*& x.Next |-> ?n2 &*& x.Prev |-> ?p2 &*& d := d2 &*& nx := n2 &*& pv := p2
  fact x != nil
}

// the list from h to t, linked consistently in both directions
pred dll(l: *linked.LinkedList; s: Seq<Val>) {
  l.Length |-> ?n &*& l.Head |-> ?h &*& l.Tail |-> ?t &*& deq(nd, h, t, n; ?A, ?lo, ?D, ?N, ?P)
    &*& s := arrseq(D, lo, n)
    &*& (n == 0 ? h == nil && t == nil : h == A[lo] && t == A[lo + n - 1])
    &*& (forall k: Int :: {N[k]} {A[k + 1]} lo <= k && k < lo + n - 1 ==> N[k] == A[k + 1])
    &*& (n > 0 ==> N[lo + n - 1] == nil && P[lo] == nil)
    &*& (forall k: Int :: {P[k]} {A[k - 1]} lo < k && k < lo + n ==> P[k] == A[k - 1])
  fact l != nil
  assume len(s) <= MAXLEN
}

// read-only views used by iterators: what follows x forwards and backwards
pred fwd(x: *linked.Node; s: Seq<Val>) {
  case x == nil => s := empty<Val>
  case x != nil => x.Data |-> ?d &*& x.Next |-> ?y &*& fwd(y; ?s2) &*& s := app(unit(d), s2)
  fact (x == nil) == (len(s) == 0)
}
pred bwd(x: *linked.Node; s: Seq<Val>) {
  case x == nil => s := empty<Val>
  case x != nil => x.Data |-> ?d &*& x.Prev |-> ?y &*& bwd(y; ?s2) &*& s := app(unit(d), s2)
  fact (x == nil) == (len(s) == 0)
}
pred kiter(f: Fn; r: Seq<Val>) {
  case closure linked.(*LinkedList).Items$1 =>
    *cur |-> ?c &*& *it |-> f &*& ro fwd(c; ?s2) &*& r := s2
  case closure linked.(*LinkedList).Backwards$1 =>
    *cur |-> ?c &*& *it |-> f &*& ro bwd(c; ?s2) &*& r := s2
}

func linked.New()(l) {
  ensures dll(l; empty<Val>)
  tags C06
}
func linked.(*LinkedList).Size(l)(n) {
  reads dll(l; ?s)
  ensures n == len(s)
  tags C06
}
func linked.(*LinkedList).EnqueBack(l, item)(err) {
  requires dll(l; ?s)
  ensures err == nil &*& dll(l; app(s, unit(item)))
  tags C06
}
func linked.(*LinkedList).EnqueFront(l, item)(err) {
  requires dll(l; ?s)
  ensures err == nil &*& dll(l; app(unit(item), s))
  tags C06
}
func linked.(*LinkedList).DequeBack(l)(item, err) {
  requires dll(l; ?s)
  ensures len(s) > 0
    ? err == nil &*& item == s[len(s) - 1] &*& dll(l; take(s, len(s) - 1))
    : err != nil &*& item == nil &*& dll(l; s)
  tags C06
}
func linked.(*LinkedList).DequeFront(l)(item, err) {
  requires dll(l; ?s)
  ensures len(s) > 0
    ? err == nil &*& item == s[0] &*& dll(l; drop(s, 1))
    : err != nil &*& item == nil &*& dll(l; s)
  tags C06
}
func linked.(*LinkedList).Push(l, item)(err) {
  requires dll(l; ?s)
  ensures err == nil &*& dll(l; app(s, unit(item)))
  tags C06
}
func linked.(*LinkedList).Pop(l)(item, err) {
  requires dll(l; ?s)
  ensures len(s) > 0
    ? err == nil &*& item == s[len(s) - 1] &*& dll(l; take(s, len(s) - 1))
    : err != nil &*& item == nil &*& dll(l; s)
  tags C06
}
func linked.(*LinkedList).First(l)(item) {
  reads dll(l; ?s)
  ensures item == (len(s) > 0 ? s[0] : nil)
  tags C06
}
func linked.(*LinkedList).Last(l)(item) {
  reads dll(l; ?s)
  ensures item == (len(s) > 0 ? s[len(s) - 1] : nil)
  tags C06
}
func linked.(*LinkedList).Has(l, item)(r) {
  reads dll(l; ?s) &*& nonnil(s)
  ensures r == has(s, item)
  loop 1 {
    inv next != nil ? kiter(next; ?r1) &*& let z = len(s) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(s, z + 1) &*& x == s[z] : let z = len(s)
    inv forall i: Int :: {s[i]} 0 <= i && i < z ==> rank(s[i]) != rank(item)
    decreases len(s) - z
  }
  tags C06
}
func linked.(*LinkedList).Items(l)(it) {
  borrows dll(l; ?s)
  entry l.Length |-> ?n &*& l.Head |-> ?h &*& l.Tail |-> ?t &*& deq(nd, h, t, n; ?A, ?lo, ?D, ?N, ?P)
    &*& ind(k, lo, lo + n, fwd(A[k]; drop(s, k - lo)))
  ensures kiter(it; s)
  tags C06
}
func linked.(*LinkedList).Items$1 implements types.KIterator { tags C06 }
func linked.(*LinkedList).Backwards(l)(it) {
  borrows dll(l; ?s)
  entry l.Length |-> ?n &*& l.Head |-> ?h &*& l.Tail |-> ?t &*& deq(nd, h, t, n; ?A, ?lo, ?D, ?N, ?P)
    &*& indup(k, lo, lo + n, bwd(A[k]; drop(rev(s), lo + n - 1 - k)))
  ensures kiter(it; rev(s))
  tags C06
}
func linked.(*LinkedList).Backwards$1 implements types.KIterator { tags C06 }
