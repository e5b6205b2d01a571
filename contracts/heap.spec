// Binary heaps and priority queues (package heap).

fun par(i: Int): Int = (i + 1) / 2 - 1
// how good a priority is: larger is better
fun wk(mn: Bool, e: heap.entry): Int = mn ? 0 - e.priority : e.priority
fun hcnt(q: Seq<heap.entry>, x: heap.entry): Int = len(q) <= 0 ? 0 : hcnt(take(q, len(q) - 1), x) + (q[len(q) - 1] == x ? 1 : 0)
fun hord(mn: Bool, q: Seq<heap.entry>): Bool = forall i: Int :: {q[i]} {par(i)} 0 < i && i < len(q) ==> wk(mn, q[par(i)]) >= wk(mn, q[i])
// in order except between k and its parent / its children
fun hup(mn: Bool, q: Seq<heap.entry>, k: Int): Bool = forall i: Int :: {q[i]} {par(i)} 0 < i && i < len(q) ==>
  (i != k ==> wk(mn, q[par(i)]) >= wk(mn, q[i])) && (par(i) == k && k > 0 ==> wk(mn, q[par(k)]) >= wk(mn, q[i]))
fun hdown(mn: Bool, q: Seq<heap.entry>, k: Int): Bool = forall i: Int :: {q[i]} {par(i)} 0 < i && i < len(q) ==>
  (par(i) != k ==> wk(mn, q[par(i)]) >= wk(mn, q[i])) && (par(i) == k && k > 0 ==> wk(mn, q[par(k)]) >= wk(mn, q[i]))
def best(mn: Bool, q: Seq<heap.entry>): Bool = forall i: Int :: {q[i]} 0 <= i && i < len(q) ==> wk(mn, q[0]) >= wk(mn, q[i])
def perm2(a: Seq<heap.entry>, b: Seq<heap.entry>): Bool = len(a) == len(b) && (forall x: heap.entry :: {hcnt(b, x)} {hcnt(a, x)} hcnt(b, x) == hcnt(a, x))
// b is a with one more entry e, in any order
fun ispush(a: Seq<heap.entry>, b: Seq<heap.entry>, e: heap.entry): Bool = len(b) == len(a) + 1
  && (forall x: heap.entry :: {hcnt(b, x)} {hcnt(a, x)} hcnt(b, x) == hcnt(a, x) + (x == e ? 1 : 0))

group heaps
lemma hcnt_unit(q: Seq<heap.entry>, y: heap.entry, x: heap.entry) : {hcnt(app(q, unit(y)), x)} hcnt(app(q, unit(y)), x) == hcnt(q, x) + (y == x ? 1 : 0)
  by { seqeq(take(app(q, unit(y)), len(q)), q) }
lemma hcnt_upd(q: Seq<heap.entry>, i: Int, y: heap.entry, x: heap.entry) induct q : {hcnt(upd(q, i, y), x)}
  0 <= i && i < len(q) ==> hcnt(upd(q, i, y), x) == hcnt(q, x) - (q[i] == x ? 1 : 0) + (y == x ? 1 : 0)
  by { i == len(q) - 1 ==> seqeq(take(upd(q, i, y), len(q) - 1), take(q, len(q) - 1));
       0 <= i && i < len(q) - 1 ==> seqeq(take(upd(q, i, y), len(q) - 1), upd(take(q, len(q) - 1), i, y)) }
lemma hcnt_last(q: Seq<heap.entry>, x: heap.entry) : {hcnt(take(q, len(q) - 1), x)} len(q) > 0 ==> hcnt(q, x) == hcnt(take(q, len(q) - 1), x) + (q[len(q) - 1] == x ? 1 : 0)
lemma hbest1(mn: Bool, q: Seq<heap.entry>, i: Int) induct i : {hord(mn, q), q[i]} hord(mn, q) && 0 <= i && i < len(q) ==> wk(mn, q[0]) >= wk(mn, q[i])
  by { 0 < i ==> 0 <= par(i) && par(i) < i }

pred hp(h: *heap.Heap; mn: Bool, q: Seq<heap.entry>) {
  h.min |-> ?m &*& h.list |-> ?sl &*& slice(sl; ?A) &*& mn := m &*& q := arrseq(A, sl.off, len(sl)) &*& sl.cap <= MAXLEN
  fact h != nil && len(q) <= MAXLEN
}
func heap.NewHeap(size, min)(h) {
  requires size >= 0
  ensures hp(h; min, empty<heap.entry>)
  tags C08
}
func heap.NewMinHeap(size)(h) {
  requires size >= 0
  ensures hp(h; true, empty<heap.entry>)
  tags C08
}
func heap.NewMaxHeap(size)(h) {
  requires size >= 0
  ensures hp(h; false, empty<heap.entry>)
  tags C08
}
func heap.(*Heap).Size(h)(n) {
  reads hp(h; ?mn, ?q)
  ensures n == len(q)
  tags C08
}
func heap.(*Heap).MinHeap(h)(r) {
  reads hp(h; ?mn, ?q)
  ensures r == mn
  tags C08
}
func heap.(*Heap).MaxHeap(h)(r) {
  reads hp(h; ?mn, ?q)
  ensures r == !mn
  tags C08
}
func heap.(*Heap).fixUp(h, k)() {
  requires hp(h; ?mn, ?q) &*& 0 <= k && k < len(q) &*& hup(mn, q, k)
  ensures hp(h; mn, ?q2) &*& hord(mn, q2) &*& perm2(q, q2)
  loop 1 {
    inv hp(h; mn, ?u) &*& 0 <= k && k < len(u) &*& parent == par(k) &*& hup(mn, u, k) &*& perm2(q, u)
    decreases k
  }
  use heaps
  tags C08
}
func heap.(*Heap).fixDown(h, k)() {
  requires hp(h; ?mn, ?q) &*& 0 <= k && k <= len(q) &*& hdown(mn, q, k)
  ensures hp(h; mn, ?q2) &*& hord(mn, q2) &*& perm2(q, q2)
  loop 1 {
    inv hp(h; mn, ?u) &*& 0 <= k && k <= len(u) &*& kid == (k + 1) * 2 - 1 &*& hdown(mn, u, k) &*& perm2(q, u)
    decreases len(u) - k
  }
  use heaps
  tags C08
}
func heap.(*Heap).Push(h, priority, item)() {
  requires hp(h; ?mn, ?q) &*& hord(mn, q)
  ensures hp(h; mn, ?q2) &*& hord(mn, q2) &*& ispush(q, q2, mk<heap.entry>(item, priority))
  use heaps
  tags C08
}
func heap.(*Heap).Pop(h)(r) {
  requires hp(h; ?mn, ?q) &*& hord(mn, q)
  ensures len(q) == 0
    ? r == nil &*& hp(h; mn, q)
    : r == q[0].item &*& best(mn, q) &*& hp(h; mn, ?q2) &*& hord(mn, q2) &*& ispush(q2, q, q[0])
  use heaps
  tags C08
}
func heap.(*Heap).Peek(h)(r) {
  reads hp(h; ?mn, ?q) &*& hord(mn, q)
  ensures len(q) == 0 ? r == nil : r == q[0].item && best(mn, q)
  use heaps
  tags C08
}
func heap.(*Heap).Verify(h)(err) {
  reads hp(h; ?mn, ?q)
  ensures (err == nil) == hord(mn, q)
  loop 1 {
    inv 1 <= i && (forall j: Int :: {q[j]} {par(j)} 0 < j && j < len(q) && j < i ==> wk(mn, q[par(j)]) >= wk(mn, q[j]))
    decreases len(q) - i
  }
  tags C08
}
fun hitems(q: Seq<heap.entry>): Seq<Val> = len(q) <= 0 ? empty<Val> : app(unit(q[0].item), hitems(drop(q, 1)))
pred viter(f: Fn; r: Seq<Val>) {
  case closure heap.(*Heap).Items$1 =>
    *i |-> ?n &*& *it |-> f &*& *h |-> ?x &*& ro hp(x; ?mn, ?q) &*& 0 <= n &*& n <= len(q) &*& r := hitems(drop(q, n))
}
lemma hitems_step(q: Seq<heap.entry>, n: Int) : {hitems(drop(q, n))} 0 <= n && n < len(q) ==> hitems(drop(q, n)) == app(unit(q[n].item), hitems(drop(q, n + 1)))
  by { 0 <= n && n < len(q) ==> seqeq(drop(drop(q, n), 1), drop(q, n + 1)) }
func heap.(*Heap).Items(h)(it) {
  borrows hp(h; ?mn, ?q)
  ensures viter(it; hitems(q))
  tags C08
}
func heap.(*Heap).Items$1 implements types.Iterator { tags C08 use hitems_step }

// ------------------------------------------------------------ unique priority queues

// any priority queue: its entries, the one served next first
pred apq(v: Val; mn: Bool, w: Seq<heap.entry>) {
  case type *heap.Heap as h => hp(h; ?m, ?q) &*& hord(m, q) &*& mn := m &*& w := q
  fact v != nil && best(mn, w)
  use hbest1
}
iface heap.PriorityQueue.Size(p)(n) {
  reads apq(p; ?mn, ?w)
  ensures n == len(w)
}
iface heap.PriorityQueue.Push(p, priority, item)() {
  requires apq(p; ?mn, ?w)
  ensures apq(p; mn, ?w2) &*& ispush(w, w2, mk<heap.entry>(item, priority))
}
iface heap.PriorityQueue.Peek(p)(r) {
  reads apq(p; ?mn, ?w)
  ensures len(w) == 0 ? r == nil : r == w[0].item
}
iface heap.PriorityQueue.Pop(p)(r) {
  requires apq(p; ?mn, ?w)
  ensures len(w) == 0
    ? r == nil &*& apq(p; mn, w)
    : r == w[0].item &*& apq(p; mn, ?w2) &*& ispush(w2, w, w[0])
}
implements heap.PriorityQueue by *heap.Heap tags C08 C09

// an entry whose item has rank r is held
fun hmem(w: Seq<heap.entry>, r: Int): Bool = exists i: Int :: {w[i]} 0 <= i && i < len(w) && rank(w[i].item) == r
// no two entries have items of the same rank
fun hone(w: Seq<heap.entry>): Bool = forall i: Int, j: Int :: {w[i], w[j]} 0 <= i && i < j && j < len(w) ==> rank(w[i].item) != rank(w[j].item)
// every item can be compared and hashed
fun hable(w: Seq<heap.entry>): Bool = forall i: Int :: {w[i]} 0 <= i && i < len(w) ==> w[i].item != nil && implements<types.Hashable>(w[i].item)
group uniq
lemma hcnt_nn(w: Seq<heap.entry>, x: heap.entry) induct w : {hcnt(w, x)} hcnt(w, x) >= 0
lemma hcnt_in0(w: Seq<heap.entry>, i: Int, x: heap.entry) induct w use hcnt_nn : {hcnt(w, x), w[i]} 0 <= i && i < len(w) && w[i] == x ==> hcnt(w, x) > 0
  by { 0 <= i && i < len(w) - 1 ==> take(w, len(w) - 1)[i] == w[i]; 0 <= i && i < len(w) - 1 && w[i] == x ==> hcnt(take(w, len(w) - 1), x) > 0 }
lemma hcnt_in(w: Seq<heap.entry>, i: Int) use hcnt_in0 : {w[i]} 0 <= i && i < len(w) ==> hcnt(w, w[i]) > 0
fun hpos(w: Seq<heap.entry>, x: heap.entry): Int = len(w) <= 0 ? 0 : w[len(w) - 1] == x ? len(w) - 1 : hpos(take(w, len(w) - 1), x)
lemma hcnt_ex(w: Seq<heap.entry>, x: heap.entry) induct w : {hcnt(w, x)} hcnt(w, x) > 0 ==> 0 <= hpos(w, x) && hpos(w, x) < len(w) && w[hpos(w, x)] == x
  by { len(w) > 0 && hcnt(w, x) > 0 && w[len(w) - 1] != x ==> hcnt(take(w, len(w) - 1), x) > 0 }
lemma hcnt_two(w: Seq<heap.entry>, i: Int, j: Int) induct w use hcnt_in, hcnt_nn : {w[i], w[j]} 0 <= i && i < j && j < len(w) && w[i] == w[j] ==> hcnt(w, w[i]) >= 2
lemma hone_eq(w: Seq<heap.entry>, x: heap.entry, y: heap.entry) use hcnt_ex : {hone(w), hcnt(w, x), hcnt(w, y)} hone(w) && hcnt(w, x) > 0 && hcnt(w, y) > 0 && rank(x.item) == rank(y.item) ==> x == y
lemma hone_le1(w: Seq<heap.entry>, x: heap.entry) induct w use hcnt_ex, hcnt_nn : {hone(w), hcnt(w, x)} hone(w) ==> hcnt(w, x) <= 1
  by { len(w) > 0 && hone(w) ==> hone(take(w, len(w) - 1)) ; len(w) > 0 && hone(w) && w[len(w) - 1] == x ==> hcnt(take(w, len(w) - 1), x) == 0 }
lemma hmem_cnt(w: Seq<heap.entry>, x: heap.entry) use hcnt_ex : {hcnt(w, x)} hcnt(w, x) > 0 ==> hmem(w, rank(x.item))
lemma push_mem(a: Seq<heap.entry>, b: Seq<heap.entry>, e: heap.entry, r: Int) use hcnt_in, hcnt_nn, hmem_cnt : {ispush(a, b, e), hmem(a, r)} {ispush(a, b, e), hmem(b, r)} ispush(a, b, e) ==> hmem(b, r) == (hmem(a, r) || r == rank(e.item))
  by { ispush(a, b, e) ==> hcnt(b, e) > 0;
       ispush(a, b, e) && hmem(a, r) ==> (exists i: Int :: {a[i]} 0 <= i && i < len(a) && rank(a[i].item) == r && hcnt(b, a[i]) > 0);
       ispush(a, b, e) && hmem(b, r) ==> (exists i: Int :: {b[i]} 0 <= i && i < len(b) && rank(b[i].item) == r && (hcnt(a, b[i]) > 0 || b[i] == e)) }
lemma push_one(a: Seq<heap.entry>, b: Seq<heap.entry>, e: heap.entry) use hcnt_in, hcnt_nn, hmem_cnt, hcnt_two, hone_eq, hone_le1 : {ispush(a, b, e)} ispush(a, b, e) && hone(a) && !hmem(a, rank(e.item)) ==> hone(b)
  by { ispush(a, b, e) && hone(a) && !hmem(a, rank(e.item)) ==> hcnt(a, e) == 0;
       ispush(a, b, e) && hone(a) && !hmem(a, rank(e.item)) ==> (forall i: Int, j: Int :: {b[i], b[j]} 0 <= i && i < j && j < len(b) && b[i] == b[j] ==> false) }
lemma pop_one(a: Seq<heap.entry>, b: Seq<heap.entry>, e: heap.entry) use hcnt_in, hcnt_nn, hmem_cnt, hcnt_two, hone_eq, hone_le1 : {ispush(a, b, e)} ispush(a, b, e) && hone(b) ==> hone(a) && !hmem(a, rank(e.item))
  by { ispush(a, b, e) && hone(b) ==> hcnt(b, e) > 0 && hcnt(a, e) == 0;
       ispush(a, b, e) && hone(b) ==> (forall i: Int, j: Int :: {a[i], a[j]} 0 <= i && i < j && j < len(a) && a[i] == a[j] ==> false);
       ispush(a, b, e) && hone(b) ==> (forall i: Int :: {a[i]} 0 <= i && i < len(a) ==> hcnt(b, a[i]) > 0 && a[i] != e) }
lemma push_able(a: Seq<heap.entry>, b: Seq<heap.entry>, e: heap.entry) use hcnt_in, hcnt_nn, hcnt_ex : {ispush(a, b, e)} ispush(a, b, e) ==> hable(b) == (hable(a) && e.item != nil && implements<types.Hashable>(e.item))
  by { ispush(a, b, e) && hable(b) ==> (forall i: Int :: {a[i]} 0 <= i && i < len(a) ==> hcnt(b, a[i]) > 0); ispush(a, b, e) ==> hcnt(b, e) > 0;
       ispush(a, b, e) ==> (forall i: Int :: {b[i]} 0 <= i && i < len(b) ==> hcnt(a, b[i]) > 0 || b[i] == e) }

pred upq(u: *heap.UniquePQ; mn: Bool, w: Seq<heap.entry>) {
  u.pq |-> ?p &*& u.set |-> ?s &*& apq(p; ?m, ?w2) &*& smp(s; ?q) &*& hable(w2) &*& hone(w2)
    &*& (forall r: Int :: {mem(q, r)} {hmem(w2, r)} mem(q, r) == hmem(w2, r)) &*& mn := m &*& w := w2
  fact u != nil && best(mn, w) && hone(w) && hable(w)
}
func heap.NewUnique(pq)(u) {
  requires apq(pq; ?mn, ?w) &*& len(w) == 0
  ensures upq(u; mn, w)
  use mem_none, keys_len
  tags C09
}
func heap.(*UniquePQ).Size(u)(n) {
  reads upq(u; ?mn, ?w)
  ensures n == len(w)
  tags C09
}
func heap.(*UniquePQ).Add(u, priority, item)() {
  requires item != nil && implements<types.Hashable>(item) &*& upq(u; ?mn, ?w)
  ensures hmem(w, rank(item))
    ? upq(u; mn, w)
    : upq(u; mn, ?w2) &*& ispush(w, w2, mk<heap.entry>(item, priority))
  use uniq, keys_len, mget_mem
  tags C09
}
func heap.(*UniquePQ).Push(u, priority, item)() {
  requires item != nil && implements<types.Hashable>(item) &*& upq(u; ?mn, ?w)
  ensures hmem(w, rank(item))
    ? upq(u; mn, w)
    : upq(u; mn, ?w2) &*& ispush(w, w2, mk<heap.entry>(item, priority))
  tags C09
}
func heap.(*UniquePQ).Peek(u)(r) {
  reads upq(u; ?mn, ?w)
  ensures len(w) == 0 ? r == nil : r == w[0].item
  tags C09
}
func heap.(*UniquePQ).Pop(u)(r) {
  requires upq(u; ?mn, ?w)
  ensures len(w) == 0
    ? r == nil &*& upq(u; mn, w)
    : r == w[0].item &*& upq(u; mn, ?w2) &*& ispush(w2, w, w[0])
  use uniq
  tags C09
}
