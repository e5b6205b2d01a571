// Sets as sequences of items with distinct ranks, in no particular order.

def rdist(q: Seq<Val>): Bool = forall i: Int, j: Int :: {q[i], q[j]} 0 <= i && i < j && j < len(q) ==> rank(q[i]) != rank(q[j])
fun subq(a: Seq<Val>, b: Seq<Val>): Bool = forall r: Int :: {mem(a, r)} {mem(b, r)} mem(a, r) ==> mem(b, r)
def isadd(a: Seq<Val>, b: Seq<Val>, r: Int): Bool =
  len(b) == len(a) + (mem(a, r) ? 0 : 1) && (forall k: Int :: {mem(b, k)} {mem(a, k)} mem(b, k) == (k == r || mem(a, k)))
def isdel(a: Seq<Val>, b: Seq<Val>, r: Int): Bool =
  len(b) == len(a) - 1 && (forall k: Int :: {mem(b, k)} {mem(a, k)} mem(b, k) == (k != r && mem(a, k)))
// the first position of rank r
fun pos(q: Seq<Val>, r: Int): Int = len(q) <= 0 ? 0 : mem(take(q, len(q) - 1), r) ? pos(take(q, len(q) - 1), r) : len(q) - 1

fun disjq(a: Seq<Val>, b: Seq<Val>): Bool = forall r: Int :: {mem(a, r)} {mem(b, r)} !(mem(a, r) && mem(b, r))
group sets
lemma mem_none(q: Seq<Val>, r: Int) : {mem(q, r)} len(q) == 0 ==> !mem(q, r)
lemma mem_last(q: Seq<Val>, r: Int) use mem_take : {mem(q, r), take(q, len(q) - 1)} len(q) > 0 ==> mem(q, r) == (mem(take(q, len(q) - 1), r) || rank(q[len(q) - 1]) == r)
  by { len(q) > 0 ==> take(q, len(q)) == q; len(q) > 0 ==> mem(take(q, len(q)), r) == (mem(take(q, len(q) - 1), r) || rank(q[len(q) - 1]) == r) }
lemma pos_at(q: Seq<Val>, r: Int) induct q use mem_take, mem_last : {pos(q, r)} mem(q, r) ==> 0 <= pos(q, r) && pos(q, r) < len(q) && rank(q[pos(q, r)]) == r
  by { len(q) > 0 && mem(q, r) ==> mem(take(q, len(q) - 1), r) || rank(q[len(q) - 1]) == r }
lemma rem_dist(q: Seq<Val>, i: Int, r: Int) use mem_rem, mem_idx : {mem(rem(q, i), r)} rdist(q) && 0 <= i && i < len(q) ==> mem(rem(q, i), r) == (mem(q, r) && r != rank(q[i]))
  by { rdist(q) && 0 <= i && i < len(q) ==> !mem(rem(q, i), rank(q[i])) }
lemma pigeon(a: Seq<Val>, b: Seq<Val>) induct a use mem_none, mem_last, pos_at, rem_dist, mem_idx : {subq(a, b)}
  rdist(a) && rdist(b) && subq(a, b) ==> len(a) <= len(b) && (len(a) == len(b) ==> subq(b, a))
  by { len(a) > 0 ==> mem(a, rank(a[len(a) - 1]));
       let i = pos(b, rank(a[len(a) - 1])) in len(a) > 0 && subq(a, b) ==> 0 <= i && i < len(b) && rank(b[i]) == rank(a[len(a) - 1]);
       let i = pos(b, rank(a[len(a) - 1])) in len(a) > 0 && subq(a, b) && rdist(b) ==> rdist(rem(b, i));
       len(a) > 0 && rdist(a) ==> rdist(take(a, len(a) - 1)) && !mem(take(a, len(a) - 1), rank(a[len(a) - 1]));
       let i = pos(b, rank(a[len(a) - 1])) in len(a) > 0 && subq(a, b) && rdist(b) && rdist(a) ==> subq(take(a, len(a) - 1), rem(b, i));
       let i = pos(b, rank(a[len(a) - 1])) in len(a) > 0 && subq(a, b) && rdist(b) && rdist(a) ==> len(a) - 1 <= len(b) - 1 && (len(a) == len(b) ==> subq(rem(b, i), take(a, len(a) - 1)));
       let i = pos(b, rank(a[len(a) - 1])) in len(a) > 0 && subq(a, b) && rdist(b) && rdist(a) && len(a) == len(b) ==>
         (forall r: Int :: {mem(b, r)} mem(b, r) ==> mem(rem(b, i), r) || r == rank(a[len(a) - 1])) }

lemma keys_len(es: Seq<KV>) induct es : {keysof(es)} len(keysof(es)) == len(es)
lemma keys_idx(es: Seq<KV>, i: Int) induct es use keys_len : {keysof(es)[i]} 0 <= i && i < len(es) ==> keysof(es)[i] == es[i].k
  by { len(es) > 0 ==> keysof(es) == app(unit(es[0].k), keysof(drop(es, 1))) ; 0 < i && i < len(es) ==> keysof(drop(es, 1))[i - 1] == es[i].k }
lemma mem_cons(x: Val, q: Seq<Val>, r: Int) use mem_idx : {mem(app(unit(x), q), r)} mem(app(unit(x), q), r) == (rank(x) == r || mem(q, r))
  by { app(unit(x), q)[0] == x; mem(q, r) ==> (exists j: Int :: {q[j]} 0 <= j && j < len(q) && rank(q[j]) == r && app(unit(x), q)[j + 1] == q[j]) ;
       mem(app(unit(x), q), r) && rank(x) != r ==> (exists j: Int :: {app(unit(x), q)[j]} 0 < j && j <= len(q) && rank(app(unit(x), q)[j]) == r && app(unit(x), q)[j] == q[j - 1]) }
lemma mget_mem(es: Seq<KV>, r: Int) induct es use mem_cons, mem_none, keys_len : {mget(es, r), keysof(es)} {mem(keysof(es), r)} (mget(es, r) != None) == mem(keysof(es), r)
  by { len(es) > 0 ==> keysof(es) == app(unit(es[0].k), keysof(drop(es, 1))) ; len(es) > 0 ==> (mget(drop(es, 1), r) != None) == mem(keysof(drop(es, 1)), r) }
lemma keys_dist(es: Seq<KV>) induct es use mget_mem, keys_len, mem_idx : {keysof(es), mdist(es)} mdist(es) ==> rdist(keysof(es))
  by { len(es) > 0 ==> keysof(es) == app(unit(es[0].k), keysof(drop(es, 1))) ; len(es) > 0 && mdist(es) ==> !mem(keysof(drop(es, 1)), rank(es[0].k)) && rdist(keysof(drop(es, 1)));
       len(es) > 0 && mdist(es) ==> (forall i: Int :: {keysof(es)[i]} 0 < i && i < len(es) ==> keysof(es)[i] == keysof(drop(es, 1))[i - 1] && rank(keysof(es)[i]) != rank(es[0].k)) }
lemma keys_nonnil(es: Seq<KV>) induct es use keys_len : {keysof(es), nnk(es)} nnk(es) ==> nonnil(keysof(es))
  by { len(es) > 0 ==> keysof(es) == app(unit(es[0].k), keysof(drop(es, 1))) }

// ------------------------------------------------------------ any set

// any of the library's sets, as its items in iteration order
pred aset(v: Val; q: Seq<Val>) {
  fact v != nil && nonnil(q) && rdist(q)
  assume len(q) <= MAXLEN
}
// a map over a set holds entries only
def okitem(v: Val, x: Val): Bool = x != nil && (typeof(v) == typeid(*set.MapSet) ==> typeof(x) == typeid(*types.MapEntry) && perm(entry, x))
def okitems(v: Val, q: Seq<Val>): Bool = forall i: Int :: {q[i]} 0 <= i && i < len(q) ==> okitem(v, q[i])
def union(a: Seq<Val>, b: Seq<Val>, c: Seq<Val>): Bool = forall r: Int :: {mem(c, r)} mem(c, r) == (mem(a, r) || mem(b, r))

iface types.Set.Size(s)(n) {
  reads aset(s; ?q)
  ensures n == len(q)
}
iface types.Set.Has(s, item)(r) {
  requires item != nil
  reads aset(s; ?q)
  ensures r == mem(q, rank(item))
}
iface types.Set.Item(s, item)(x, err) {
  requires item != nil && typeof(s) != typeid(*set.SetMap)
  reads aset(s; ?q)
  ensures mem(q, rank(item)) ? err == nil && x != nil && rank(x) == rank(item) : err != nil && x == nil
}
iface types.Set.Add(s, item)(err) {
  requires okitem(s, item) &*& aset(s; ?q)
  ensures err == nil &*& aset(s; ?q2) &*& isadd(q, q2, rank(item))
}
iface types.Set.Delete(s, item)(err) {
  requires item != nil &*& aset(s; ?q)
  ensures mem(q, rank(item))
    ? err == nil &*& aset(s; ?q2) &*& isdel(q, q2, rank(item))
    : err != nil &*& aset(s; q)
}
iface types.Set.Extend(s, items)(err) {
  requires aset(s; ?q) &*& kiter(items; ?t) &*& okitems(s, t)
  ensures err == nil &*& aset(s; ?q2) &*& union(q, t, q2)
}
iface types.Set.Items(s)(it) {
  borrows aset(s; ?q)
  ensures kiter(it; q)
}
iface types.Set.Union(s, o)(r, err) {
  reads aset(s; ?a) &*& aset(o; ?b) &*& okitems(s, a) &*& okitems(s, b)
  ensures err == nil &*& aset(r; ?c) &*& union(a, b, c)
}
iface types.Set.Intersect(s, o)(r, err) {
  reads aset(s; ?a) &*& aset(o; ?b) &*& okitems(s, a)
  ensures err == nil &*& aset(r; ?c) &*& (forall k: Int :: {mem(c, k)} mem(c, k) == (mem(a, k) && mem(b, k)))
}
iface types.Set.Subtract(s, o)(r, err) {
  reads aset(s; ?a) &*& aset(o; ?b) &*& okitems(s, a)
  ensures err == nil &*& aset(r; ?c) &*& (forall k: Int :: {mem(c, k)} mem(c, k) == (mem(a, k) && !mem(b, k)))
}
iface types.Set.Subset(s, o)(r) {
  reads aset(s; ?a) &*& aset(o; ?b)
  ensures r == subq(a, b)
}
iface types.Set.Superset(s, o)(r) {
  reads aset(s; ?a) &*& aset(o; ?b)
  ensures r == subq(b, a)
}
iface types.Set.ProperSubset(s, o)(r) {
  reads aset(s; ?a) &*& aset(o; ?b)
  ensures r == (subq(a, b) && !subq(b, a))
}
iface types.Set.ProperSuperset(s, o)(r) {
  reads aset(s; ?a) &*& aset(o; ?b)
  ensures r == (subq(b, a) && !subq(a, b))
}

// ------------------------------------------------------------ operations

func set.newSetBestType(a, n)(c) {
  requires n >= 0 && a != nil
  ensures aset(c; empty<Val>) &*& (typeof(c) == typeid(*set.MapSet)) == (typeof(a) == typeid(*set.MapSet))
  use keys_len
  tags C04
}
func set.Union(a, b)(c, err) {
  reads aset(a; ?p) &*& aset(b; ?q) &*& okitems(a, p) &*& okitems(a, q)
  ensures err == nil &*& aset(c; ?r) &*& union(p, q, r)
  use mem_none
  tags C04
}
func set.Intersect(a, b)(c, err) {
  reads aset(a; ?p) &*& aset(b; ?q) &*& okitems(a, p)
  ensures err == nil &*& aset(c; ?u) &*& (forall k: Int :: {mem(u, k)} mem(u, k) == (mem(p, k) && mem(q, k)))
  loop 1 {
    inv aset(c; ?u) &*& (typeof(c) == typeid(*set.MapSet)) == (typeof(a) == typeid(*set.MapSet))
    inv next != nil ? kiter(next; ?r1) &*& let z = len(p) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(p, z + 1) &*& item == p[z] : let z = len(p)
    inv forall k: Int :: {mem(u, k)} mem(u, k) == (mem(take(p, z), k) && mem(q, k))
  }
  use mem_none, mem_take
  tags C04
}
func set.Subtract(a, b)(c, err) {
  reads aset(a; ?p) &*& aset(b; ?q) &*& okitems(a, p)
  ensures err == nil &*& aset(c; ?u) &*& (forall k: Int :: {mem(u, k)} mem(u, k) == (mem(p, k) && !mem(q, k)))
  loop 1 {
    inv aset(c; ?u) &*& (typeof(c) == typeid(*set.MapSet)) == (typeof(a) == typeid(*set.MapSet))
    inv next != nil ? kiter(next; ?r1) &*& let z = len(p) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(p, z + 1) &*& item == p[z] : let z = len(p)
    inv forall k: Int :: {mem(u, k)} mem(u, k) == (mem(take(p, z), k) && !mem(q, k))
  }
  use mem_none, mem_take
  tags C04
}
func set.Subset(a, b)(r) {
  reads aset(a; ?p) &*& aset(b; ?q)
  ensures r == subq(p, q)
  loop 1 {
    inv next != nil ? kiter(next; ?r1) &*& let z = len(p) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(p, z + 1) &*& item == p[z] : let z = len(p)
    inv forall k: Int :: {mem(q, k)} {mem(take(p, z), k)} mem(take(p, z), k) ==> mem(q, k)
  }
  use mem_none, mem_take, pigeon, mem_idx
  tags C04
}
func set.ProperSubset(a, b)(r) {
  reads aset(a; ?p) &*& aset(b; ?q)
  ensures r == (subq(p, q) && !subq(q, p))
  use pigeon
  tags C04
}
func set.Superset(a, b)(r) {
  reads aset(a; ?p) &*& aset(b; ?q)
  ensures r == subq(q, p)
  tags C04
}
func set.ProperSuperset(a, b)(r) {
  reads aset(a; ?p) &*& aset(b; ?q)
  ensures r == (subq(q, p) && !subq(p, q))
  tags C04
}

// ------------------------------------------------------------ the sets

pred aset(v: Val; q: Seq<Val>) {
  case type *set.SortedSet as x => sset(x; ?q2) &*& q := q2
  case type *set.SetMap as x => smp(x; ?q2) &*& q := q2
  case type *set.MapSet as x => mset(x; ?q2) &*& q := q2
}
func set.(*SortedSet).union(s, o)(n, err) {
  reads sset(s; ?p) &*& sset(o; ?q)
  ensures err == nil &*& sset(n; ?c) &*& union(p, q, c)
  loop 1 {
    inv sset(n; ?u)
    inv si != nil ? kiter(si; ?r1) &*& let y = len(p) - len(r1) - 1 &*& 0 <= y &*& r1 == drop(p, y + 1) &*& cs == p[y] : let y = len(p)
    inv oi != nil ? kiter(oi; ?r2) &*& let z = len(q) - len(r2) - 1 &*& 0 <= z &*& r2 == drop(q, z + 1) &*& co == q[z] : let z = len(q)
    inv union(take(p, y), take(q, z), u)
    decreases len(p) + len(q) - y - z
  }
  use mem_none, mem_take, mem_ins
  tags C04
}
func set.(*SortedSet).Overlap(s, o)(r) {
  reads sset(s; ?p) &*& sset(o; ?q)
  ensures r == !disjq(p, q)
  loop 1 {
    inv si != nil ? kiter(si; ?r1) &*& let y = len(p) - len(r1) - 1 &*& 0 <= y &*& r1 == drop(p, y + 1) &*& cs == p[y] : let y = len(p)
    inv oi != nil ? kiter(oi; ?r2) &*& let z = len(q) - len(r2) - 1 &*& 0 <= z &*& r2 == drop(q, z + 1) &*& co == q[z] : let z = len(q)
    inv forall i: Int, j: Int :: {p[i], q[j]} 0 <= i && i < y && 0 <= j && j < len(q) ==> rank(p[i]) != rank(q[j])
    inv forall i: Int, j: Int :: {p[i], q[j]} 0 <= i && i < len(p) && 0 <= j && j < z ==> rank(p[i]) != rank(q[j])
    decreases len(p) + len(q) - y - z
  }
  use mem_idx
  tags C04
}
func set.SortedFromSet(s)(n) {
  reads s == nil ? let q = empty<Val> : aset(s; ?q)
  ensures sset(n; ?c) &*& (forall k: Int :: {mem(c, k)} mem(c, k) == mem(q, k))
  loop 1 {
    inv sset(n; ?u)
    inv next != nil ? kiter(next; ?r1) &*& let z = len(q) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(q, z + 1) &*& i == q[z] : let z = len(q)
    inv forall k: Int :: {mem(u, k)} mem(u, k) == mem(take(q, z), k)
  }
  use mem_none, mem_take, mem_ins
  tags C03
}
implements types.Set by *set.SortedSet skip Equals tags C04

pred smp(s: *set.SetMap; q: Seq<Val>) {
  s.Map |-> ?m &*& amap(m; ?es) &*& q := keysof(es)
  fact s != nil && nonnil(q) && rdist(q)
  use keys_len, keys_dist, keys_nonnil
}
func set.NewSetMap(m)(s) {
  requires amap(m; ?es)
  ensures smp(s; keysof(es))
  tags C05
}
func set.(*SetMap).Items(s)(it) {
  borrows smp(s; ?q)
  ensures kiter(it; q)
  tags C05
}
func set.(*SetMap).Add(s, item)(err) {
  requires item != nil &*& smp(s; ?q)
  ensures err == nil &*& smp(s; ?q2) &*& isadd(q, q2, rank(item))
  use keys_len, mget_mem
  tags C05
}
func set.(*SetMap).Delete(s, item)(err) {
  requires item != nil &*& smp(s; ?q)
  ensures mem(q, rank(item))
    ? err == nil &*& smp(s; ?q2) &*& isdel(q, q2, rank(item))
    : err != nil &*& smp(s; q)
  use keys_len, mget_mem
  tags C05
}
func set.(*SetMap).Extend(s, items)(err) {
  requires smp(s; ?q) &*& kiter(items; ?t) &*& nonnil(t)
  ensures err == nil &*& smp(s; ?q2) &*& union(q, t, q2)
  loop 1 {
    inv smp(s; ?u)
    inv next != nil ? kiter(next; ?r1) &*& let z = len(t) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(t, z + 1) &*& item == t[z] : let z = len(t)
    inv union(q, take(t, z), u)
  }
  use mem_none, mem_take
  tags C05
}
implements types.Set by *set.SetMap skip Equals skip Item use keys_len, mget_mem tags C05

// ------------------------------------------------------------ a map over a sorted set

// entries whose key and value never change again
pred entry(v: Val; e: KV) {
  case type *types.MapEntry as p => p.Key |-> ?k &*& p.Value |-> ?w &*& k != nil &*& e := KV(k, w)
  fact v != nil && !nilin(v) && e.k != nil
}
// an entry that never changes compares as its key does
axiom entry_rank(v: Val) : {perm(entry, v)} perm(entry, v) ==> rank(v) == rank(view(entry, v).k)
def ents(q: Seq<Val>): Bool = forall i: Int :: {q[i]} 0 <= i && i < len(q) ==> typeof(q[i]) == typeid(*types.MapEntry) && perm(entry, q[i])

pred mset(m: *set.MapSet; q: Seq<Val>) {
  m.Set |-> ?s &*& typeof(s) == typeid(*set.SortedSet) &*& aset(s; ?q2) &*& ents(q2) &*& q := q2
  fact m != nil && nonnil(q) && rdist(q) && ents(q)
}
fun kvents(q: Seq<Val>): Seq<KV> = len(q) <= 0 ? empty<KV> : app(unit(view(entry, q[0])), kvents(drop(q, 1)))
group kventss
lemma kv_len(q: Seq<Val>) induct q : {kvents(q)} len(kvents(q)) == len(q)
lemma kv_idx(q: Seq<Val>, i: Int) induct q use kv_len : {kvents(q)[i]} 0 <= i && i < len(q) ==> kvents(q)[i] == view(entry, q[i])
  by { len(q) > 0 ==> kvents(q) == app(unit(view(entry, q[0])), kvents(drop(q, 1))); 0 < i && i < len(q) ==> kvents(drop(q, 1))[i - 1] == view(entry, q[i]) }
lemma kv_ins(q: Seq<Val>, i: Int, x: Val) use kv_len, kv_idx : {kvents(ins(q, i, x))} 0 <= i && i <= len(q) ==> kvents(ins(q, i, x)) == ins(kvents(q), i, view(entry, x))
  by { 0 <= i && i <= len(q) ==> seqeq(kvents(ins(q, i, x)), ins(kvents(q), i, view(entry, x))) }
lemma kv_rem(q: Seq<Val>, i: Int) use kv_len, kv_idx : {kvents(rem(q, i))} 0 <= i && i < len(q) ==> kvents(rem(q, i)) == rem(kvents(q), i)
  by { 0 <= i && i < len(q) ==> seqeq(kvents(rem(q, i)), rem(kvents(q), i)) }
lemma kv_mem(q: Seq<Val>, r: Int) induct q use entry_rank, mem_cons, mem_none : {mget(kvents(q), r)} ents(q) ==> (mget(kvents(q), r) != None) == mem(q, r)
  by { len(q) > 0 ==> kvents(q) == app(unit(view(entry, q[0])), kvents(drop(q, 1))) && q == app(unit(q[0]), drop(q, 1));
       len(q) > 0 && ents(q) ==> ents(drop(q, 1)) && rank(q[0]) == rank(view(entry, q[0]).k) }
lemma kv_dist(q: Seq<Val>) induct q use entry_rank, kv_mem, mem_idx : {kvents(q)} ents(q) && rdist(q) ==> mdist(kvents(q))
  by { len(q) > 0 ==> kvents(q) == app(unit(view(entry, q[0])), kvents(drop(q, 1)));
       len(q) > 0 && ents(q) && rdist(q) ==> ents(drop(q, 1)) && rdist(drop(q, 1)) && !mem(drop(q, 1), rank(q[0])) && rank(q[0]) == rank(view(entry, q[0]).k) }
lemma kv_nnk(q: Seq<Val>) induct q : {kvents(q)} ents(q) ==> nnk(kvents(q))
  by { len(q) > 0 ==> kvents(q) == app(unit(view(entry, q[0])), kvents(drop(q, 1))); len(q) > 0 && ents(q) ==> ents(drop(q, 1)) && view(entry, q[0]).k != nil }
lemma kv_at(q: Seq<Val>, i: Int, r: Int) use kv_dist, kv_idx, kv_len, entry_rank, mget_ix : {mget(kvents(q), r), q[i]} ents(q) && rdist(q) && 0 <= i && i < len(q) && rank(q[i]) == r ==> mget(kvents(q), r) == Some(view(entry, q[i]).v)
  by { ents(q) && rdist(q) ==> mdist(kvents(q)); 0 <= i && i < len(q) ==> kvents(q)[i] == view(entry, q[i]) }

func types.(*MapEntry).Equals(m, other)(r) {
  requires perm(entry, boxptr(m)) && other != nil && (typeof(other) == typeid(*types.MapEntry) ==> perm(entry, other))
  ensures r == (rank(boxptr(m)) == rank(other))
  use entry_rank
  tags C05
}
func types.(*MapEntry).Less(m, other)(r) {
  requires perm(entry, boxptr(m)) && other != nil && (typeof(other) == typeid(*types.MapEntry) ==> perm(entry, other))
  ensures r == (rank(boxptr(m)) < rank(other))
  use entry_rank
  tags C05
}
func types.(*MapEntry).Hash(m)(r) {
  requires perm(entry, boxptr(m))
  ensures r == hashOf(rank(boxptr(m)))
  use entry_rank
  tags C05
}
func set.mapEntry(item)(me, err) {
  requires item != nil
  ensures typeof(item) == typeid(*types.MapEntry) ? err == nil && boxptr(me) == item : err != nil && me == nil
  tags C05
}
func set.asMapEntry(item)(me) {
  requires item != nil
  ensures typeof(item) == typeid(*types.MapEntry) ? boxptr(me) == item &*& true : imm entry(boxptr(me); KV(item, nil))
  tags C05
}
func set.NewMapSet(s)(m) {
  requires typeof(s) == typeid(*set.SortedSet) &*& aset(s; ?q) &*& ents(q)
  ensures mset(m; q)
  tags C05
}
func set.(*MapSet).Size(m)(n) {
  reads mset(m; ?q)
  ensures n == len(q)
  tags C05
}
func set.(*MapSet).Items(m)(it) {
  borrows mset(m; ?q)
  ensures kiter(it; q)
  tags C05
}
func set.(*MapSet).Has(m, key)(r) {
  requires key != nil
  reads mset(m; ?q)
  ensures r == mem(q, rank(key))
  use entry_rank
  tags C05
}
func set.(*MapSet).Add(m, item)(err) {
  requires item != nil &*& (typeof(item) == typeid(*types.MapEntry) ? imm entry(item; _) &*& true : true) &*& mset(m; ?q)
  ensures typeof(item) != typeid(*types.MapEntry)
    ? err != nil &*& mset(m; q)
    : (mem(q, rank(item))
      ? err == nil &*& mset(m; q)
      : err == nil &*& mset(m; ?q2) &*& (exists i: Int :: {ins(q, i, item)} 0 <= i && i <= len(q) && q2 == ins(q, i, item)))
  tags C05
}
func set.(*MapSet).Put(m, key, value)(err) {
  requires key != nil &*& mset(m; ?q)
  ensures err == nil &*& mset(m; ?q2) &*& isput(kvents(q), kvents(q2), key, value)
  use entry_rank, kventss, mget_ins, mget_del
  tags C05
}
func set.(*MapSet).Item(m, key)(me, err) {
  requires key != nil
  reads mset(m; ?q)
  ensures mem(q, rank(key)) ? err == nil && me != nil && rank(me) == rank(key) && (exists i: Int :: {q[i]} 0 <= i && i < len(q) && me == q[i]) : err != nil && me == nil
  use entry_rank
  tags C05
}
func set.(*MapSet).Get(m, key)(value, err) {
  requires key != nil
  reads mset(m; ?q)
  ensures mget(kvents(q), rank(key)) == None ? err != nil && value == nil : err == nil && mget(kvents(q), rank(key)) == Some(value)
  use entry_rank, kventss
  tags C05
}
func set.(*MapSet).Delete(m, item)(err) {
  requires item != nil &*& mset(m; ?q)
  ensures mem(q, rank(item))
    ? err == nil &*& mset(m; ?q2) &*& (exists i: Int :: {rem(q, i)} 0 <= i && i < len(q) && rank(q[i]) == rank(item) && q2 == rem(q, i))
    : err != nil &*& mset(m; q)
  use entry_rank
  tags C05
}
func set.(*MapSet).Remove(m, key)(value, err) {
  requires key != nil &*& mset(m; ?q)
  ensures mget(kvents(q), rank(key)) == None
    ? err != nil &*& value == nil &*& mset(m; q)
    : err == nil &*& mget(kvents(q), rank(key)) == Some(value) &*& mset(m; ?q2) &*& isrem(kvents(q), kvents(q2), rank(key))
  use entry_rank, kventss, mget_del
  tags C05
}
func set.(*MapSet).Extend(m, items)(err) {
  requires mset(m; ?q) &*& kiter(items; ?t) &*& ents(t)
  ensures err == nil &*& mset(m; ?q2) &*& union(q, t, q2)
  loop 1 {
    inv mset(m; ?u)
    inv items != nil ? kiter(items; ?r1) &*& let z = len(t) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(t, z + 1) &*& item == t[z] : let z = len(t)
    inv union(q, take(t, z), u)
  }
  use mem_none, mem_take, mem_ins
  tags C05
}
pred kviter(f: Fn; r: Seq<KV>) {
  case closure set.(*MapSet).Iterate$1 =>
    *items |-> ?g &*& *kvit |-> f &*& kiter(g; ?s) &*& ents(s) &*& r := kvents(s)
}
func set.(*MapSet).Iterate(m)(it) {
  borrows mset(m; ?q)
  ensures kviter(it; kvents(q))
  tags C05
}
func set.(*MapSet).Iterate$1 implements types.KVIterator { use kventss tags C05 }
pred kvable(v: Val; es: Seq<KV>) {
  case type *set.MapSet as x => mset(x; ?q) &*& es := kvents(q)
}
implements types.KVIterable by *set.MapSet tags C05
pred amap(v: Val; es: Seq<KV>) {
  case type *set.MapSet as x => mset(x; ?q) &*& es := kvents(q)
  use kv_dist, kv_nnk
}
implements types.Map by *set.MapSet use kventss tags C05
implements types.Set by *set.MapSet skip Equals tags C05

// ------------------------------------------------------------ the trees as maps

pred amap(v: Val; es: Seq<KV>) {
  case type *avl.AvlTree as x => avlt(x; ?e2) &*& es := e2
  case type *avl.ImmutableAvlTree as x => iavlt(x; ?e2) &*& es := e2
  use smdist
}
implements types.Map by *avl.AvlTree use smapm, smap tags C10
implements types.Map by *avl.ImmutableAvlTree use smapm, smap tags C11
