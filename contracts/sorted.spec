// Sorted lists (package list) and sorted sets (package set).

def sortedq(q: Seq<Val>, d: Bool): Bool =
  forall i: Int, j: Int :: {q[i], q[j]} 0 <= i && i < j && j < len(q) ==> rank(q[i]) <= rank(q[j]) && (d || rank(q[i]) != rank(q[j]))

// i is the first position of an equal item, or else where x belongs
def lower(q: Seq<Val>, x: Val, i: Int): Bool =
  0 <= i && i <= len(q)
  && (forall k: Int :: {q[k]} 0 <= k && k < i ==> rank(q[k]) < rank(x))
  && (forall k: Int :: {q[k]} i <= k && k < len(q) ==> rank(q[k]) >= rank(x))

pred srt(s: *list.Sorted; q: Seq<Val>, cp: Int, fx: Bool, dup: Bool) {
  lst(s.list; ?q2, ?c2, ?f2) &*& s.allowDups |-> ?d2 &*& q := q2 &*& cp := c2 &*& fx := f2 &*& dup := d2
    &*& sortedq(q2, d2) &*& nonnil(q2)
  fact s != nil && 0 <= len(q) && len(q) <= cp && cp <= MAXLEN && sortedq(q, dup) && nonnil(q)
}

extern log.Println(args)() { }
extern log.Panic(args)() { requires false }

func list.NewSorted(n, d)(s) {
  requires n >= 0
  ensures srt(s; empty<Val>, n, false, d)
  tags C03
}
func list.NewFixedSorted(n, d)(s) {
  requires n >= 0
  ensures srt(s; empty<Val>, n, true, d)
  tags C02 C03
}
func list.SortedFromSlice(items, d)(s) {
  reads slice(items; ?A) &*& let a = arrseq(A, items.off, len(items)) &*& nonnil(a)
  ensures srt(s; ?q, _, false, d)
  ensures forall r: Int :: {mem(q, r)} mem(q, r) <==> mem(a, r)
  ensures forall r: Int :: {cnt(q, r)} d ==> cnt(q, r) == cnt(a, r)
  use cnts, mems
  loop 1 {
    inv srt(s; ?q, _, false, d)
    inv -1 <= rangeindex && rangeindex < len(a)
    inv forall r: Int :: {mem(q, r)} mem(q, r) <==> mem(take(a, rangeindex + 1), r)
    inv forall r: Int :: {cnt(q, r)} d ==> cnt(q, r) == cnt(take(a, rangeindex + 1), r)
    decreases len(a) - rangeindex
  }
  tags C03
}
func list.(*Sorted).Clear(s)() {
  requires srt(s; ?q, ?cp, ?fx, ?d)
  ensures srt(s; empty<Val>, cp, fx, d)
  tags C02 C03
}
func list.(*Sorted).Size(s)(n) {
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures n == len(q)
  tags C03
}
func list.(*Sorted).Full(s)(r) {
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures r == (fx && len(q) == cp)
  tags C02
}
func list.(*Sorted).Empty(s)(r) {
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures r == (len(q) == 0)
  tags C03
}
func list.(*Sorted).Copy(s)(c) {
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures srt(c; q, cp, fx, d)
  tags C02 C03
}
func list.(*Sorted).Find(s, item)(i, found, err) {
  requires item != nil
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures err == nil && lower(q, item, i) && found == (i < len(q) && rank(q[i]) == rank(item))
  loop 1 {
    inv 0 <= l && l <= r + 1 && r < len(q)
    inv forall k: Int :: {q[k]} 0 <= k && k < l ==> rank(q[k]) < rank(item)
    inv forall k: Int :: {q[k]} r < k && k < len(q) ==> rank(q[k]) > rank(item)
    decreases r - l + 1
  }
  loop 2 {
    inv 0 <= j && j < len(q) && rank(q[j]) == rank(item)
    decreases j
  }
  tags C03
}
func list.(*Sorted).Has(s, item)(r) {
  requires item != nil
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures r == mem(q, rank(item))
  tags C03
}
func list.(*Sorted).Item(s, item)(x, err) {
  requires item != nil
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures mem(q, rank(item)) ? err == nil && rank(x) == rank(item) && (exists i: Int :: {q[i]} lower(q, item, i) && x == q[i]) : err != nil && x == nil
  tags C03
}
func list.(*Sorted).Get(s, i)(x, err) {
  reads srt(s; ?q, ?cp, ?fx, ?d)
  ensures 0 <= i && i < len(q) ? x == q[i] && err == nil : x == nil && err != nil
  tags C03
}
func list.(*Sorted).Remove(s, i)(err) {
  requires srt(s; ?q, ?cp, ?fx, ?d)
  ensures 0 <= i && i < len(q)
    ? err == nil &*& srt(s; rem(q, i), ?c2, fx, d) &*& (fx ==> c2 == cp)
    : err != nil &*& srt(s; q, cp, fx, d)
  tags C02 C03
}
func list.(*Sorted).Add(s, item)(err) {
  requires item != nil &*& srt(s; ?q, ?cp, ?fx, ?d)
  ensures !d && mem(q, rank(item))
    ? err == nil &*& srt(s; q, cp, fx, d)
    : (fx && len(q) == cp
      ? err != nil &*& srt(s; q, cp, fx, d)
      : err == nil &*& srt(s; ?q2, ?c2, fx, d) &*& (fx ==> c2 == cp) &*& len(q2) == len(q) + 1
        &*& (exists i: Int :: {ins(q, i, item)} lower(q, item, i) && q2 == ins(q, i, item)))
  tags C02 C03
}
func list.(*Sorted).Delete(s, item)(err) {
  requires item != nil &*& srt(s; ?q, ?cp, ?fx, ?d)
  ensures mem(q, rank(item))
    ? err == nil &*& srt(s; ?q2, ?c2, fx, d) &*& (fx ==> c2 == cp)
      &*& (exists i: Int :: {rem(q, i)} lower(q, item, i) && q2 == rem(q, i))
    : err != nil &*& srt(s; q, cp, fx, d)
  tags C02 C03
}
func list.(*Sorted).Extend(s, other)(err) {
  requires srt(s; ?q, ?cp, ?fx, ?d) &*& kiter(other; ?t) &*& nonnil(t)
  ensures srt(s; ?q2, ?c2, fx, d) &*& (fx ==> c2 == cp)
  ensures err == nil ==> (forall r: Int :: {mem(q2, r)} mem(q2, r) <==> mem(q, r) || mem(t, r))
  ensures err == nil && d ==> (forall r: Int :: {cnt(q2, r)} cnt(q2, r) == cnt(q, r) + cnt(t, r))
  ensures err != nil ==> fx && len(q2) == cp && (exists k: Int :: {take(t, k)} 0 <= k && k < len(t)
    && (d ==> len(q2) == len(q) + k) && (d || !mem(q2, rank(t[k])))
    && (forall r: Int :: {mem(q2, r)} mem(q2, r) <==> mem(q, r) || mem(take(t, k), r))
    && (forall r: Int :: {cnt(q2, r)} d ==> cnt(q2, r) == cnt(q, r) + cnt(take(t, k), r)))
  use cnts, mems
  loop 1 {
    inv srt(s; ?u, ?c1, fx, d) &*& (fx ==> c1 == cp)
    inv next != nil ? kiter(next; ?r1) &*& let z = len(t) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(t, z + 1) &*& item == t[z] : let z = len(t)
    inv let h = take(t, z)
    inv d ==> len(u) == len(q) + z
    inv forall r: Int :: {mem(u, r)} mem(u, r) <==> mem(q, r) || mem(h, r)
    inv forall r: Int :: {cnt(u, r)} d ==> cnt(u, r) == cnt(q, r) + cnt(h, r)
  }
  tags C02 C03
}
func list.(*Sorted).Items(s)(it) {
  borrows srt(s; ?q, ?cp, ?fx, ?d)
  ensures kiter(it; q)
  tags C03
}
func list.(*Sorted).ItemsInReverse(s)(it) {
  borrows srt(s; ?q, ?cp, ?fx, ?d)
  ensures kiter(it; rev(q))
  tags C03
}
