// Sets (package set).

pred sset(s: *set.SortedSet; q: Seq<Val>) {
  srt(s.Sorted; ?q2, _, ?f2, ?d2) &*& q := q2 &*& f2 == false &*& d2 == false
  fact s != nil && len(q) <= MAXLEN && sortedq(q, false) && nonnil(q)
}

func set.NewSortedSet(n)(s) {
  requires n >= 0
  ensures sset(s; empty<Val>)
  tags C03
}
func set.FromSlice(items)(s) {
  reads slice(items; ?A) &*& let a = arrseq(A, items.off, len(items)) &*& nonnil(a)
  ensures sset(s; ?q)
  ensures forall r: Int :: {mem(q, r)} mem(q, r) <==> mem(a, r)
  use mems
  loop 1 {
    inv sset(s; ?q)
    inv -1 <= rangeindex && rangeindex < len(a)
    inv forall r: Int :: {mem(q, r)} mem(q, r) <==> mem(take(a, rangeindex + 1), r)
    decreases len(a) - rangeindex
  }
  tags C03
}
func set.(*SortedSet).Copy(s)(c) {
  reads sset(s; ?q)
  ensures sset(c; q)
  tags C03
}
