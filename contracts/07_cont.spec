// Comparing and hashing containers (packages list, linked, set).

fun samer(a: Seq<Val>, b: Seq<Val>): Bool = len(a) == len(b) && (forall i: Int :: {a[i]} {b[i]} 0 <= i && i < len(a) ==> rank(a[i]) == rank(b[i]))
fun lexlt(a: Seq<Val>, b: Seq<Val>): Bool = len(a) < len(b)
  || (len(a) == len(b) && (exists k: Int :: {a[k]} 0 <= k && k < len(a) && rank(a[k]) < rank(b[k]) && (forall j: Int :: {a[j]} {b[j]} 0 <= j && j < k ==> rank(a[j]) == rank(b[j]))))

// any container that can be iterated, as its items in order
pred acont(v: Val; q: Seq<Val>) {
  case type *list.List as x => lst(x; ?q2, _, _) &*& nonnil(q2) &*& q := q2
  case type *list.Sorted as x => srt(x; ?q2, _, _, _) &*& q := q2
  case type *set.SortedSet as x => sset(x; ?q2) &*& q := q2
  case type *linked.LinkedList as x => dll(x; ?q2) &*& nonnil(q2) &*& q := q2
  case type *linked.UniqueDeque as x => udq(x; ?q2) &*& q := q2
  fact v != nil && nonnil(q)
  assume len(q) <= MAXLEN
}
iface types.IterableContainer.Size(c)(n) {
  reads acont(c; ?q)
  ensures n == len(q)
}
iface types.IterableContainer.Items(c)(it) {
  borrows acont(c; ?q)
  ensures kiter(it; q)
}
iface types.IterableContainer.Has(c, item)(r) {
  requires item != nil
  reads acont(c; ?q)
  ensures r == mem(q, rank(item))
}
iface types.ListIterable.Items(c)(it) {
  borrows acont(c; ?q)
  ensures kiter(it; q)
}
implements types.IterableContainer by *list.List tags C23
implements types.IterableContainer by *list.Sorted tags C23
implements types.IterableContainer by *set.SortedSet tags C23
implements types.IterableContainer by *linked.LinkedList tags C23
implements types.IterableContainer by *linked.UniqueDeque use keys_len, mget_mem tags C23
implements types.ListIterable by *list.List tags C23
implements types.ListIterable by *list.Sorted tags C23
implements types.ListIterable by *set.SortedSet tags C23
implements types.ListIterable by *linked.LinkedList tags C23
implements types.ListIterable by *linked.UniqueDeque tags C23

func list.Equals(a, b)(r) {
  reads acont(a; ?p) &*& acont(b; ?q)
  ensures r == samer(p, q)
  loop 1 {
    inv ai != nil ? kiter(ai; ?r1) &*& let y = len(p) - len(r1) - 1 &*& 0 <= y &*& r1 == drop(p, y + 1) &*& ca == p[y] : let y = len(p)
    inv bi != nil ? kiter(bi; ?r2) &*& let z = len(q) - len(r2) - 1 &*& 0 <= z &*& r2 == drop(q, z + 1) &*& cb == q[z] : let z = len(q)
    inv y == z && len(p) == len(q)
    inv forall j: Int :: {p[j]} {q[j]} 0 <= j && j < y ==> rank(p[j]) == rank(q[j])
    decreases len(p) - y
  }
  tags C23
}
func list.Less(a, b)(r) {
  reads acont(a; ?p) &*& acont(b; ?q)
  ensures r == lexlt(p, q)
  loop 1 {
    inv ai != nil ? kiter(ai; ?r1) &*& let y = len(p) - len(r1) - 1 &*& 0 <= y &*& r1 == drop(p, y + 1) &*& ca == p[y] : let y = len(p)
    inv bi != nil ? kiter(bi; ?r2) &*& let z = len(q) - len(r2) - 1 &*& 0 <= z &*& r2 == drop(q, z + 1) &*& cb == q[z] : let z = len(q)
    inv y == z && len(p) == len(q)
    inv forall j: Int :: {p[j]} {q[j]} 0 <= j && j < y ==> rank(p[j]) == rank(q[j])
    decreases len(p) - y
  }
  tags C23
}
func list.(*List).Equals(l, b)(r) {
  reads lst(l; ?p, ?cp, ?fx) &*& nonnil(p) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && samer(p, q))
  tags C23
}
func list.(*List).Less(l, b)(r) {
  reads lst(l; ?p, ?cp, ?fx) &*& nonnil(p) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && lexlt(p, q))
  tags C23
}
func list.(*Sorted).Equals(l, b)(r) {
  reads srt(l; ?p, ?cp, ?fx, ?d) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && samer(p, q))
  tags C23
}
func list.(*Sorted).Less(l, b)(r) {
  reads srt(l; ?p, ?cp, ?fx, ?d) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && lexlt(p, q))
  tags C23
}
func linked.(*LinkedList).Equals(l, b)(r) {
  reads dll(l; ?p) &*& nonnil(p) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && samer(p, q))
  tags C23
}
func linked.(*LinkedList).Less(l, b)(r) {
  reads dll(l; ?p) &*& nonnil(p) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && lexlt(p, q))
  tags C23
}
func linked.(*UniqueDeque).Equals(l, b)(r) {
  reads udq(l; ?p) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && samer(p, q))
  tags C23
}
func linked.(*UniqueDeque).Less(l, b)(r) {
  reads udq(l; ?p) &*& (implements<types.IterableContainer>(b) ? acont(b; ?q) : let q = empty<Val>)
  ensures r == (implements<types.IterableContainer>(b) && lexlt(p, q))
  tags C23
}

// ------------------------------------------------------------ hashes

opaque le4(x: Int): Seq<Int> = app(app(app(unit(x % 256), unit((x / 256) % 256)), unit((x / 65536) % 256)), unit((x / 16777216) % 256))
fun hbytes(q: Seq<Val>): Seq<Int> = len(q) <= 0 ? empty<Int> : app(hbytes(take(q, len(q) - 1)), le4(hashOf(rank(q[len(q) - 1])) % 4294967296))
ufun fnv32(b: Seq<Int>): Int
lemma hb_step(q: Seq<Val>, k: Int, k1: Int) : {hbytes(take(q, k1)), take(q, k)} 0 <= k && k1 == k + 1 && k1 <= len(q) ==> hbytes(take(q, k1)) == app(hbytes(take(q, k)), le4(hashOf(rank(q[k])) % 4294967296))
  by { 0 <= k && k1 == k + 1 && k1 <= len(q) ==> seqeq(take(take(q, k1), k), take(q, k)) && take(q, k1)[k] == q[k] }
lemma hb_same(a: Seq<Val>, b: Seq<Val>) induct a : {samer(a, b), hbytes(b)} samer(a, b) ==> hbytes(a) == hbytes(b)
  by { samer(a, b) && len(a) > 0 ==> samer(take(a, len(a) - 1), take(b, len(b) - 1)) && rank(a[len(a) - 1]) == rank(b[len(b) - 1]) }

// the state of a hash under way: the bytes written so far
pred hash32(h: Val; b: Seq<Int>) {
  fact h != nil
}
extern fnv.New32a()(h) {
  ensures hash32(h; empty<Int>)
}
iface stdhash.Hash32.Write(h, p)(n, err) {
  requires hash32(h; ?b)
  reads slice(p; ?A)
  ensures hash32(h; app(b, arrseq(A, p.off, len(p))))
}
iface stdhash.Hash32.Sum32(h)(r) {
  reads hash32(h; ?b)
  ensures r == fnv32(b) && 0 <= r && r < 4294967296
}
extern binary.(littleEndian).PutUint32(e, b, x)() {
  requires len(b) >= 4 &*& slice(b; ?A)
  ensures slice(b; ?B) &*& (forall i: Int :: {B[i]} i < b.off || i >= b.off + 4 ==> B[i] == A[i]) &*& arrseq(B, b.off, 4) == le4(x)
}
func list.(*List).Hash(l)(r) {
  reads lst(l; ?q, ?cp, ?fx) &*& nonnil(q)
  ensures r == fnv32(hbytes(q))
  ensures forall p: Seq<Val> :: {samer(q, p)} samer(q, p) ==> r == fnv32(hbytes(p))
  loop 1 {
    inv hash32(h; hbytes(take(q, rangeindex + 1)))
    inv slice(bs; _) &*& len(bs) == 4
    inv -1 <= rangeindex && rangeindex < len(q)
    decreases len(q) - rangeindex
  }
  use hb_step, hb_same
  tags C23
}
func list.Hash(a)(r) {
  reads acont(a; ?q)
  ensures r == fnv32(hbytes(q))
  ensures forall p: Seq<Val> :: {samer(q, p)} samer(q, p) ==> r == fnv32(hbytes(p))
  loop 1 {
    inv next != nil ? kiter(next; ?r1) &*& let z = len(q) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(q, z + 1) &*& item == q[z] : let z = len(q)
    inv hash32(h; hbytes(take(q, z)))
    inv slice(bs; _) &*& len(bs) == 4
    decreases len(q) - z
  }
  use hb_step, hb_same
  tags C23
}
func list.(*Sorted).Hash(l)(r) {
  reads srt(l; ?q, ?cp, ?fx, ?d)
  ensures r == fnv32(hbytes(q))
  tags C23
}
func linked.(*LinkedList).Hash(l)(r) {
  reads dll(l; ?q) &*& nonnil(q)
  ensures r == fnv32(hbytes(q))
  tags C23
}
func linked.(*UniqueDeque).Hash(l)(r) {
  reads udq(l; ?q)
  ensures r == fnv32(hbytes(q))
  tags C23
}

// ------------------------------------------------------------ equality of sorted sets

lemma sorted_top(a: Seq<Val>, r: Int) : {mem(a, r), sortedr(a)} sortedr(a) && mem(a, r) ==> r <= rank(a[len(a) - 1]) && len(a) > 0
fun sortedr(q: Seq<Val>): Bool = sortedq(q, false)
lemma sorted_same(a: Seq<Val>, b: Seq<Val>) induct a use mem_idx, mem_none, mem_back, sorted_top : {samer(a, b)} sortedr(a) && sortedr(b) && subq(a, b) && subq(b, a) ==> samer(a, b)
  by { len(a) > 0 ==> mem(a, rank(a[len(a) - 1])); len(b) > 0 ==> mem(b, rank(b[len(b) - 1]));
       len(a) == 0 && subq(b, a) ==> len(b) == 0;
       sortedr(a) && sortedr(b) && subq(a, b) && subq(b, a) && len(a) > 0 ==> len(b) > 0 && rank(a[len(a) - 1]) == rank(b[len(b) - 1]);
       sortedr(a) && len(a) > 0 ==> sortedr(take(a, len(a) - 1)) && rdist(a); sortedr(b) && len(b) > 0 ==> sortedr(take(b, len(b) - 1)) && rdist(b);
       sortedr(a) && sortedr(b) && subq(a, b) && subq(b, a) && len(a) > 0 ==> subq(take(a, len(a) - 1), take(b, len(b) - 1)) && subq(take(b, len(b) - 1), take(a, len(a) - 1));
       sortedr(a) && sortedr(b) && subq(a, b) && subq(b, a) && len(a) > 0 ==> samer(take(a, len(a) - 1), take(b, len(b) - 1)) }
lemma same_sub(a: Seq<Val>, b: Seq<Val>) use mem_idx : {samer(a, b)} samer(a, b) ==> subq(a, b) && subq(b, a)
  by { samer(a, b) ==> (forall r: Int :: {mem(a, r)} mem(a, r) ==> (exists i: Int :: {a[i]} 0 <= i && i < len(a) && rank(a[i]) == r && rank(b[i]) == r));
       samer(a, b) ==> (forall r: Int :: {mem(b, r)} mem(b, r) ==> (exists i: Int :: {b[i]} 0 <= i && i < len(a) && rank(a[i]) == r && rank(b[i]) == r)) }
iface types.Set.Equals(s, o)(r) {
  requires typeof(s) == typeid(*set.SortedSet) && typeof(o) == typeid(*set.SortedSet)
  reads aset(s; ?a) &*& aset(o; ?b)
  ensures r == (subq(a, b) && subq(b, a))
}
implements types.Set by *set.SortedSet only Equals use sorted_same, same_sub tags C04
func set.(*MapSet).Equals(m, b)(r) {
  reads mset(m; ?p) &*& (typeof(b) == typeid(*set.MapSet) ? aset(b; ?q) : let q = empty<Val>)
  ensures r == (typeof(b) == typeid(*set.MapSet) && subq(p, q) && subq(q, p))
  use sorted_same, same_sub
  tags C04
}
