// The unique deque (package linked): a linked list and a set of the same items.

pred udq(l: *linked.UniqueDeque; q: Seq<Val>) {
  l.queue |-> ?d &*& l.set |-> ?s &*& dll(d; ?q2) &*& typeof(s) == typeid(*set.SetMap) &*& aset(s; ?m)
    &*& (forall r: Int :: {mem(q2, r)} {mem(m, r)} mem(q2, r) == mem(m, r)) &*& rdist(q2) &*& nonnil(q2) &*& q := q2
  fact l != nil && rdist(q) && nonnil(q)
}
group deqs
lemma mem_front(q: Seq<Val>, r: Int) use mem_cons, mem_idx : {mem(drop(q, 1), r)} len(q) > 0 && rdist(q) ==> mem(drop(q, 1), r) == (mem(q, r) && r != rank(q[0]))
  by { len(q) > 0 ==> q == app(unit(q[0]), drop(q, 1)); len(q) > 0 && rdist(q) ==> !mem(drop(q, 1), rank(q[0])) }
lemma mem_back(q: Seq<Val>, r: Int) use mem_last, mem_idx : {mem(take(q, len(q) - 1), r)} len(q) > 0 && rdist(q) ==> mem(take(q, len(q) - 1), r) == (mem(q, r) && r != rank(q[len(q) - 1]))
  by { len(q) > 0 && rdist(q) ==> !mem(take(q, len(q) - 1), rank(q[len(q) - 1])) }

func linked.NewUniqueDeque()(l) {
  ensures udq(l; empty<Val>)
  use mem_none, keys_len
  tags C07
}
func linked.(*UniqueDeque).Size(l)(n) {
  reads udq(l; ?q)
  ensures n == len(q)
  tags C07
}
func linked.(*UniqueDeque).Items(l)(it) {
  borrows udq(l; ?q)
  ensures kiter(it; q)
  tags C07
}
func linked.(*UniqueDeque).Backwards(l)(it) {
  borrows udq(l; ?q)
  ensures kiter(it; rev(q))
  tags C07
}
func linked.(*UniqueDeque).Has(l, item)(r) {
  requires item != nil
  reads udq(l; ?q)
  ensures r == mem(q, rank(item))
  use keys_len, mget_mem
  tags C07
}
func linked.(*UniqueDeque).EnqueFront(l, item)(err) {
  requires item != nil &*& udq(l; ?q)
  ensures err == nil &*& udq(l; mem(q, rank(item)) ? q : app(unit(item), q))
  use mem_cons, mem_idx
  tags C07
}
func linked.(*UniqueDeque).EnqueBack(l, item)(err) {
  requires item != nil &*& udq(l; ?q)
  ensures err == nil &*& udq(l; mem(q, rank(item)) ? q : app(q, unit(item)))
  use mem_unit, mem_idx
  tags C07
}
func linked.(*UniqueDeque).Push(l, item)(err) {
  requires item != nil &*& udq(l; ?q)
  ensures err == nil &*& udq(l; mem(q, rank(item)) ? q : app(q, unit(item)))
  tags C07
}
func linked.(*UniqueDeque).DequeFront(l)(item, err) {
  requires udq(l; ?q)
  ensures len(q) > 0
    ? err == nil &*& item == q[0] &*& udq(l; drop(q, 1))
    : err != nil &*& item == nil &*& udq(l; q)
  use mem_front, mem_idx
  tags C07
}
func linked.(*UniqueDeque).DequeBack(l)(item, err) {
  requires udq(l; ?q)
  ensures len(q) > 0
    ? err == nil &*& item == q[len(q) - 1] &*& udq(l; take(q, len(q) - 1))
    : err != nil &*& item == nil &*& udq(l; q)
  use mem_back, mem_idx
  tags C07
}
func linked.(*UniqueDeque).Pop(l)(item, err) {
  requires udq(l; ?q)
  ensures len(q) > 0
    ? err == nil &*& item == q[len(q) - 1] &*& udq(l; take(q, len(q) - 1))
    : err != nil &*& item == nil &*& udq(l; q)
  tags C07
}
func linked.(*UniqueDeque).First(l)(item) {
  reads udq(l; ?q)
  ensures len(q) > 0 ? item == q[0] : item == nil
  tags C07
}
func linked.(*UniqueDeque).Last(l)(item) {
  reads udq(l; ?q)
  ensures len(q) > 0 ? item == q[len(q) - 1] : item == nil
  tags C07
}
