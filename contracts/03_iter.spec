// Iterators over entries, keys, values and items of maps.

fun kvof(q: Seq<BT>): Seq<KV> = len(q) <= 0 ? empty<KV> : app(unit(KV(q[0].k, q[0].w)), kvof(drop(q, 1)))
fun kvs(t: BT): Seq<KV> = match t { BLeaf => empty<KV>; BNode(n, k, w, l, r) => app(kvs(l), app(unit(KV(k, w)), kvs(r))) }
fun keysof(e: Seq<KV>): Seq<Val> = len(e) <= 0 ? empty<Val> : app(unit(e[0].k), keysof(drop(e, 1)))
fun valsof(e: Seq<KV>): Seq<Val> = len(e) <= 0 ? empty<Val> : app(unit(e[0].v), valsof(drop(e, 1)))

group kvofs
lemma kvof_app(a: Seq<BT>, b: Seq<BT>) induct a : {kvof(app(a, b))} kvof(app(a, b)) == app(kvof(a), kvof(b))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0] }
lemma kvof_unit(t: BT) : {kvof(unit(t))} kvof(unit(t)) == unit(KV(t.k, t.w))
  by { kvof(drop(unit(t), 1)) == empty<KV>; unit(t)[0] == t }
lemma kvof_inord(t: BT) induct t use kvof_app, kvof_unit : {kvof(inord(t))} kvof(inord(t)) == kvs(t)
  by { !(t is BLeaf) ==> kvof(app(inord(t.l), app(unit(t), inord(t.r)))) == app(kvof(inord(t.l)), app(kvof(unit(t)), kvof(inord(t.r)))) }

pred kviter(f: Fn; r: Seq<KV>) {
  case closure types.MakeKVIteratorFromTreeNodeIterator$1 =>
    *tni |-> ?t &*& *kv_iterator |-> f &*& tniter(t; ?q, empty<GT>) &*& r := kvof(q)
  fact f != nil
}
functype types.KVIterator(self)(key, value, next) {
  requires kviter(self; ?r)
  ensures len(r) > 0 ? key == r[0].k &*& value == r[0].v &*& next != nil &*& kviter(next; drop(r, 1)) : key == nil &*& value == nil &*& next == nil
}
pred viter(f: Fn; r: Seq<Val>) {
  case closure types.MakeValuesIterator$1 =>
    *kv_iterator |-> ?g &*& *v_iterator |-> f &*& kviter(g; ?s) &*& r := valsof(s)
  fact f != nil
}
functype types.Iterator(self)(item, next) {
  requires viter(self; ?r)
  ensures len(r) > 0 ? item == r[0] &*& next != nil &*& viter(next; drop(r, 1)) : item == nil &*& next == nil
}
pred kiter(f: Fn; r: Seq<Val>) {
  case closure types.MakeKeysIterator$1 =>
    *kv_iterator |-> ?g &*& *k_iterator |-> f &*& kviter(g; ?s) &*& r := keysof(s)
}
// iterators that box each entry as it is reached
pred itemiter(f: Fn; r: Seq<KV>) {
  case closure types.MakeItemsIterator$1 =>
    *kv_iterator |-> ?g &*& *kit |-> f &*& kviter(g; ?s) &*& r := s
  fact f != nil
}
functype types.KIterator.items(self)(item, next) {
  requires itemiter(self; ?r)
  ensures len(r) > 0 ? typeof(item) == typeid(*types.MapEntry) &*& let e = unbox<*types.MapEntry>(item) &*& e.Key |-> r[0].k &*& e.Value |-> r[0].v
      &*& next != nil &*& itemiter(next; drop(r, 1))
    : item == nil &*& next == nil
}

// anything that can be iterated, as the sequence of its entries in that order
pred kvable(v: Val; es: Seq<KV>) {
  fact v != nil
}
iface types.KVIterable.Iterate(m)(it) {
  borrows kvable(m; ?es)
  ensures kviter(it; es)
}
func types.MakeKVIteratorFromTreeNodeIterator(tni)(it) {
  requires tniter(tni; ?q, empty<GT>)
  ensures kviter(it; kvof(q))
  tags C10
}
func types.MakeKVIteratorFromTreeNodeIterator$1 implements types.KVIterator { tags C10 }
func types.MakeKeysIterator(obj)(it) {
  borrows kvable(obj; ?es)
  ensures kiter(it; keysof(es))
  tags C10
}
func types.MakeKeysIterator$1 implements types.KIterator { tags C10 }
func types.MakeValuesIterator(obj)(it) {
  borrows kvable(obj; ?es)
  ensures viter(it; valsof(es))
  tags C10
}
func types.MakeValuesIterator$1 implements types.Iterator { tags C10 }
func types.MakeItemsIterator(obj)(it) {
  borrows kvable(obj; ?es)
  ensures itemiter(it; es)
  tags C10
}
func types.MakeItemsIterator$1 implements types.KIterator.items { tags C10 }
