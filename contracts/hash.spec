// Hash tables (package hashtable), chained and linear.

// the bucket of a key of rank r among n: chained (w == 0) or linear with w bits
opaque hbk(r: Int, n: Int, w: Int): Int = w == 0
  ? (let h = hashOf(r) in (h < 0 ? (0 - h) % n : h % n))
  : (let m = hashOf(r) % pow2(w) in (m < n ? m : m - pow2(w - 1)))
// every key of the bucket belongs to bucket i
fun inbk(es: Seq<KV>, n: Int, w: Int, i: Int): Bool = len(es) <= 0 ? true : es[0].k != nil && hbk(rank(es[0].k), n, w) == i && inbk(drop(es, 1), n, w, i)
// the contents of m buckets from lo on, one after the other
fun cat(W: Array<Int,Seq<KV>>, lo: Int, m: Int): Seq<KV> = m <= 0 ? empty<KV> : app(W[lo], cat(W, lo + 1, m - 1))
fun hinv(W: Array<Int,Seq<KV>>, n: Int, w: Int): Bool = forall i: Int :: {W[i]} 0 <= i && i < n ==> inbk(W[i], n, w, i) && mdist(W[i])

group chains
lemma inbk_cons(x: KV, b: Seq<KV>, n: Int, w: Int, i: Int) : {inbk(app(unit(x), b), n, w, i)} inbk(app(unit(x), b), n, w, i) == (x.k != nil && hbk(rank(x.k), n, w) == i && inbk(b, n, w, i))
  by { drop(app(unit(x), b), 1) == b; app(unit(x), b)[0] == x }
lemma inbk_empty(b: Seq<KV>, n: Int, w: Int, i: Int) : {inbk(b, n, w, i)} len(b) == 0 ==> inbk(b, n, w, i)
lemma inbk_unit(x: KV, n: Int, w: Int, i: Int) use inbk_cons, inbk_empty : {inbk(unit(x), n, w, i)} inbk(unit(x), n, w, i) == (x.k != nil && hbk(rank(x.k), n, w) == i)
  by { unit(x)[0] == x; inbk(drop(unit(x), 1), n, w, i) }
lemma inbk_app(a: Seq<KV>, b: Seq<KV>, n: Int, w: Int, i: Int) induct a : {inbk(app(a, b), n, w, i)} inbk(app(a, b), n, w, i) == (inbk(a, n, w, i) && inbk(b, n, w, i))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0]; len(a) == 0 ==> app(a, b) == b }
lemma inbk_mput(es: Seq<KV>, k: Val, v: Val, n: Int, w: Int, i: Int) induct es use inbk_cons, inbk_empty, inbk_unit : {inbk(mput(es, k, v), n, w, i)}
  inbk(es, n, w, i) && k != nil && hbk(rank(k), n, w) == i ==> inbk(mput(es, k, v), n, w, i)
  by { len(es) > 0 ==> mput(es, k, v) == (rank(es[0].k) == rank(k) ? app(unit(KV(es[0].k, v)), drop(es, 1)) : app(unit(es[0]), mput(drop(es, 1), k, v)));
       len(es) > 0 && inbk(es, n, w, i) ==> inbk(drop(es, 1), n, w, i) }
lemma inbk_mrem(es: Seq<KV>, r: Int, n: Int, w: Int, i: Int) induct es use inbk_cons : {inbk(mrem(es, r), n, w, i)}
  inbk(es, n, w, i) ==> inbk(mrem(es, r), n, w, i)
  by { len(es) > 0 ==> mrem(es, r) == (rank(es[0].k) == r ? drop(es, 1) : app(unit(es[0]), mrem(drop(es, 1), r)));
       len(es) > 0 && inbk(es, n, w, i) ==> inbk(drop(es, 1), n, w, i) }
lemma inbk_get(es: Seq<KV>, n: Int, w: Int, i: Int, r: Int) induct es : {inbk(es, n, w, i), mget(es, r)} inbk(es, n, w, i) && hbk(r, n, w) != i ==> mget(es, r) == None
lemma hbk_range(r: Int, n: Int) use hbk, imod_range : {hbk(r, n, 0)} n > 0 ==> 0 <= hbk(r, n, 0) && hbk(r, n, 0) < n

group cats
lemma cat_get(W: Array<Int,Seq<KV>>, lo: Int, m: Int, n: Int, w: Int, r: Int) induct m use mapeq, chains :
  {mget(cat(W, lo, m), r), hinv(W, n, w)} hinv(W, n, w) && n == lo + m && 0 <= lo && 0 <= m ==> mget(cat(W, lo, m), r) == (lo <= hbk(r, n, w) && hbk(r, n, w) < n ? mget(W[hbk(r, n, w)], r) : None)
  by { m > 0 ==> cat(W, lo, m) == app(W[lo], cat(W, lo + 1, m - 1));
       m > 0 && hinv(W, n, w) && 0 <= lo && n == lo + m ==> (hbk(r, n, w) != lo ==> mget(W[lo], r) == None) }
lemma inbk_nnk(es: Seq<KV>, n: Int, w: Int, i: Int) induct es : {inbk(es, n, w, i), nnk(es)} inbk(es, n, w, i) ==> nnk(es)
lemma cat_out(W: Array<Int,Seq<KV>>, lo: Int, m: Int, j: Int, w: Seq<KV>) induct m : {cat(store(W, j, w), lo, m)} j < lo || j >= lo + m ==> cat(store(W, j, w), lo, m) == cat(W, lo, m)
lemma cat_len(W: Array<Int,Seq<KV>>, lo: Int, m: Int, j: Int, w: Seq<KV>) induct m use cat_out : {cat(store(W, j, w), lo, m)}
  lo <= j && j < lo + m ==> len(cat(store(W, j, w), lo, m)) == len(cat(W, lo, m)) - len(W[j]) + len(w)
  by { m > 0 ==> len(cat(W, lo, m)) == len(W[lo]) + len(cat(W, lo + 1, m - 1));
       m > 0 ==> len(cat(store(W, j, w), lo, m)) == len(store(W, j, w)[lo]) + len(cat(store(W, j, w), lo + 1, m - 1)) }
lemma cat_dist(W: Array<Int,Seq<KV>>, lo: Int, m: Int, n: Int, w: Int) induct m use cat_get, mapapp, mapeq, chains : {mdist(cat(W, lo, m)), hinv(W, n, w)} hinv(W, n, w) && n == lo + m && 0 <= lo ==> mdist(cat(W, lo, m))
  by { m > 0 ==> cat(W, lo, m) == app(W[lo], cat(W, lo + 1, m - 1));
       m > 0 && hinv(W, n, w) && n == lo + m && 0 <= lo ==> (forall r: Int :: {mget(W[lo], r)} {mget(cat(W, lo + 1, m - 1), r)} mget(W[lo], r) == None || mget(cat(W, lo + 1, m - 1), r) == None) }
lemma cat_nnk(W: Array<Int,Seq<KV>>, lo: Int, m: Int, n: Int, w: Int) induct m use inbk_nnk, mapapp : {nnk(cat(W, lo, m)), hinv(W, n, w)} hinv(W, n, w) && n == lo + m && 0 <= lo ==> nnk(cat(W, lo, m))
  by { m > 0 ==> cat(W, lo, m) == app(W[lo], cat(W, lo + 1, m - 1)); m > 0 && hinv(W, n, w) && n == lo + m && 0 <= lo ==> inbk(W[lo], n, w, lo) && nnk(W[lo]) }
lemma cat_empty(W: Array<Int,Seq<KV>>, lo: Int, m: Int) induct m : {cat(W, lo, m)} (forall i: Int :: {W[i]} lo <= i && i < lo + m ==> len(W[i]) == 0) ==> len(cat(W, lo, m)) == 0
  by { m > 0 ==> cat(W, lo, m) == app(W[lo], cat(W, lo + 1, m - 1)) }

pred chain(e: *hashtable.entry; es: Seq<KV>) {
  case e == nil => es := empty<KV>
  case e != nil => e.key |-> ?k &*& e.value |-> ?v &*& e.next |-> ?n &*& k != nil &*& chain(n; ?t) &*& es := app(unit(KV(k, v)), t)
  fact (e == nil) == (len(es) == 0)
}
func hashtable.(*entry).Put(e, key, v)(r, ap) {
  requires key != nil &*& chain(e; ?es)
  ensures chain(r; mput(es, key, v)) &*& ap == (mget(es, rank(key)) == None)
  use mapeq
  tags C12
}
func hashtable.(*entry).Get(e, key)(has, v) {
  requires key != nil
  reads chain(e; ?es)
  ensures has == (mget(es, rank(key)) != None) &*& (has ? mget(es, rank(key)) == Some(v) : v == nil)
  use mapeq
  tags C12
}
func hashtable.(*entry).Remove(e, key)(r) {
  requires key != nil &*& chain(e; ?es) &*& mget(es, rank(key)) != None
  ensures chain(r; mrem(es, rank(key)))
  use mapeq
  tags C12
}
pred htab(h: *hashtable.Hash; es: Seq<KV>) {
  h.table |-> ?t &*& h.size |-> ?n &*& t.off == 0 &*& len(t) > 0 &*& slice(t; ?A) &*& all(chain, A, 0, len(t); ?W)
    &*& hinv(W, len(t), 0) &*& es := cat(W, 0, len(t)) &*& n == len(es)
  fact h != nil && mdist(es) && nnk(es)
  use cats
  assume len(es) <= MAXLEN
}
func hashtable.NewHashTable(n)(h) {
  requires 0 <= n && n <= MAXLEN
  ensures htab(h; empty<KV>)
  use mapeq, chains, cats
  tags C12
}
func hashtable.(*Hash).bucket(h, key)(r) {
  requires key != nil
  reads h.table |-> ?t &*& len(t) > 0
  ensures r == hbk(rank(key), len(t), 0) &*& 0 <= r &*& r < len(t)
  use hbk, imod_range
  tags C12
}
func hashtable.(*Hash).Size(h)(n) {
  reads htab(h; ?es)
  ensures n == len(es)
  tags C12
}
func hashtable.(*Hash).Has(h, key)(r) {
  requires key != nil
  reads htab(h; ?es)
  ensures r == (mget(es, rank(key)) != None)
  use mapeq, chains, cats
  tags C12
}
func hashtable.(*Hash).Get(h, key)(v, err) {
  requires key != nil
  reads htab(h; ?es)
  ensures mget(es, rank(key)) == None ? err != nil && v == nil : err == nil && mget(es, rank(key)) == Some(v)
  use mapeq, chains, cats
  tags C12
}
func hashtable.(*Hash).Put(h, key, v)(err) {
  requires key != nil &*& htab(h; ?es)
  ensures err == nil &*& htab(h; ?e2) &*& isput(es, e2, key, v)
  use mapeq, mapop, chains, cats
  tags C12
}
func hashtable.(*Hash).expand(h)(err) {
  requires h.table |-> ?t &*& h.size |-> ?n0 &*& t.off == 0 &*& len(t) > 0 &*& slice(t; ?A) &*& all(chain, A, 0, len(t); ?W) &*& hinv(W, len(t), 0)
  ensures err == nil &*& htab(h; ?e2) &*& len(e2) == len(cat(W, 0, len(t))) &*& (forall r: Int :: {mget(e2, r)} mget(e2, r) == mget(cat(W, 0, len(t)), r))
  loop 1 {
    inv htab(self; ?cur) &*& -1 <= rangeindex && rangeindex < len(t)
    inv let i = rangeindex + 1 &*& let rem = cat(W, i, len(t) - i) &*& mdist(rem) &*& len(cur) + len(rem) == len(cat(W, 0, len(t)))
      &*& (forall r: Int :: {mget(cur, r)} {mget(rem, r)} mget(cat(W, 0, len(t)), r) == (mget(cur, r) == None ? mget(rem, r) : mget(cur, r)) && (mget(cur, r) == None || mget(rem, r) == None))
  }
  loop 2 {
    inv htab(self; ?cur) &*& ro chain(e; ?rest) &*& 0 <= rangeindex && rangeindex < len(t)
    inv let i = rangeindex &*& let rem = app(rest, cat(W, i + 1, len(t) - i - 1)) &*& mdist(rem) &*& len(cur) + len(rem) == len(cat(W, 0, len(t)))
      &*& (forall r: Int :: {mget(cur, r)} {mget(rem, r)} mget(cat(W, 0, len(t)), r) == (mget(cur, r) == None ? mget(rem, r) : mget(cur, r)) && (mget(cur, r) == None || mget(rem, r) == None))
  }
  use mapeq, chains, cats
  tags C12
}
func hashtable.(*Hash).Remove(h, key)(v, err) {
  requires key != nil &*& htab(h; ?es)
  ensures mget(es, rank(key)) == None
    ? err != nil &*& v == nil &*& htab(h; es)
    : err == nil &*& mget(es, rank(key)) == Some(v) &*& htab(h; ?e2) &*& isrem(es, e2, rank(key))
  use mapeq, mapop, chains, cats
  tags C12
}

pred kviter(f: Fn; r: Seq<KV>) {
  case closure hashtable.(*Hash).Iterate$1 =>
    *table |-> ?t &*& *i |-> ?k &*& *e |-> ?c &*& *kv_iterator |-> f &*& t.off == 0 &*& -1 <= k &*& k < len(t)
    &*& ro slice(t; ?A) &*& ro all(chain, A, 0, len(t); ?W) &*& ro chain(c; ?rest) &*& r := app(rest, cat(W, k + 1, len(t) - k - 1))
}
func hashtable.(*Hash).Iterate$1 implements types.KVIterator {
  loop 1 {
    inv ro slice(table; ?A) &*& ro all(chain, A, 0, len(table); ?W) &*& ro chain(e; ?rest) &*& -1 <= i &*& i < len(table)
      &*& r == app(rest, cat(W, i + 1, len(table) - i - 1))
    decreases len(table) - i
  }
  tags C12
}
pred kvable(v: Val; es: Seq<KV>) {
  case type *hashtable.Hash as x => htab(x; ?e2) &*& es := e2
}
func hashtable.(*Hash).Iterate(h)(it) {
  borrows htab(h; ?es)
  ensures kviter(it; es)
  tags C12
}
implements types.KVIterable by *hashtable.Hash tags C12
func hashtable.(*Hash).Items(h)(it) {
  borrows htab(h; ?es)
  ensures itemiter(it; es)
  tags C12
}
func hashtable.(*Hash).Keys(h)(it) {
  borrows htab(h; ?es)
  ensures kiter(it; keysof(es))
  tags C12
}
func hashtable.(*Hash).Values(h)(it) {
  borrows htab(h; ?es)
  ensures viter(it; valsof(es))
  tags C12
}
pred amap(v: Val; es: Seq<KV>) {
  case type *hashtable.Hash as x => htab(x; ?e2) &*& es := e2
}
implements types.Map by *hashtable.Hash tags C12
