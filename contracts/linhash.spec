// The linear hash table (package hashtable): a growing row of AVL trees.

lemma pow2_pos(w: Int) induct w : {pow2(w)} pow2(w) >= 1
lemma pow2_5(w: Int) : {pow2(w)} (w == 4 ==> pow2(w) == 16) && (w == 5 ==> pow2(w) == 32)
  by { pow2(0) == 1; pow2(1) == 2; pow2(2) == 4; pow2(3) == 8; pow2(4) == 16; pow2(5) == 32 }
lemma pow2_48(w: Int) : {pow2(w)} w == 48 ==> pow2(w) == 281474976710656
  by { pow2(0) == 1; pow2(1) == 2; pow2(2) == 4; pow2(3) == 8; pow2(4) == 16; pow2(5) == 32; pow2(6) == 64; pow2(7) == 128; pow2(8) == 256; pow2(9) == 512; pow2(10) == 1024; pow2(11) == 2048; pow2(12) == 4096; pow2(13) == 8192; pow2(14) == 16384; pow2(15) == 32768; pow2(16) == 65536; pow2(17) == 131072; pow2(18) == 262144; pow2(19) == 524288; pow2(20) == 1048576; pow2(21) == 2097152; pow2(22) == 4194304; pow2(23) == 8388608; pow2(24) == 16777216; pow2(25) == 33554432; pow2(26) == 67108864; pow2(27) == 134217728; pow2(28) == 268435456; pow2(29) == 536870912; pow2(30) == 1073741824; pow2(31) == 2147483648; pow2(32) == 4294967296; pow2(33) == 8589934592; pow2(34) == 17179869184; pow2(35) == 34359738368; pow2(36) == 68719476736; pow2(37) == 137438953472; pow2(38) == 274877906944; pow2(39) == 549755813888; pow2(40) == 1099511627776; pow2(41) == 2199023255552; pow2(42) == 4398046511104; pow2(43) == 8796093022208; pow2(44) == 17592186044416; pow2(45) == 35184372088832; pow2(46) == 70368744177664; pow2(47) == 140737488355328; pow2(48) == 281474976710656 }
lemma pow2_big(w: Int) induct w use pow2_pos, pow2_48 : {pow2(w)} w >= 48 ==> pow2(w) >= 281474976710656
  by { w > 48 ==> pow2(w) == 2 * pow2(w - 1) }
lemma mul_pos(p: Int, d: Int) induct d : {p * d} p > 0 && d >= 1 ==> p * d >= p
  by { p * d == p * (d - 1) + p }
opaque mq(p: Int, q: Int): Int = p * q
lemma mod_unique(h: Int, p: Int, q: Int) use mul_pos, mq, imod, idiv : {h % p, mq(p, q)} p > 0 && 0 <= h - mq(p, q) && h - mq(p, q) < p ==> h % p == h - mq(p, q)
  by { p > 0 ==> h == p * (h / p) + h % p; p > 0 ==> p * (q - h / p) == p * q - p * (h / p); p * (h / p - q) == p * (h / p) - p * q;
       q - h / p >= 1 && p > 0 ==> p * (q - h / p) >= p; h / p - q >= 1 && p > 0 ==> p * (h / p - q) >= p }
lemma mod_double(h: Int, p: Int) use mod_unique, mq, imod, idiv : {h % (2 * p), h % p} p > 0 ==> h % (2 * p) == h % p || h % (2 * p) == h % p + p
  by { p > 0 ==> h == 2 * p * (h / (2 * p)) + h % (2 * p);
       p > 0 && h % (2 * p) < p ==> h == mq(p, 2 * (h / (2 * p))) + h % (2 * p);
       p > 0 && h % (2 * p) < p ==> h % p == h - mq(p, 2 * (h / (2 * p)));
       p > 0 && h % (2 * p) >= p ==> h == mq(p, 2 * (h / (2 * p)) + 1) + h % (2 * p) - p;
       p > 0 && h % (2 * p) >= p ==> h % p == h - mq(p, 2 * (h / (2 * p)) + 1) }
lemma mod_high(h: Int, p: Int) use mod_unique, mq : {h % p} 0 < p && p <= h && h <= 2 * p ==> h % p == (h < 2 * p ? h - p : 0)
  by { mq(p, 1) == p; mq(p, 2) == 2 * p }
// n buckets addressed by w bits
def lin(n: Int, w: Int): Bool = 0 < w && pow2(w - 1) < n && n <= pow2(w)

group lins
lemma hbk_lin(r: Int, n: Int, w: Int) use hbk, pow2_pos, imod_range : {hbk(r, n, w)} lin(n, w) ==> 0 <= hbk(r, n, w) && hbk(r, n, w) < n
lemma hbk_split(r: Int, n: Int, w: Int, n1: Int, w1: Int) use hbk, pow2_pos, mod_double, imod_range, mod_high : {hbk(r, n1, w1), hbk(r, n, w)}
  lin(n, w) && n1 == n + 1 && w1 == (n1 > pow2(w) ? w + 1 : w) ==>
  hbk(r, n1, w1) == hbk(r, n, w) || hbk(r, n, w) == n % pow2(w - 1) && hbk(r, n1, w1) == n
  by { lin(n, w) && n1 == n + 1 && w1 == w && n1 <= pow2(w) ==> n % pow2(w - 1) == n - pow2(w - 1);
       lin(n, w) && n1 == n + 1 && n1 > pow2(w) ==> n == pow2(w) && n % pow2(w - 1) == 0 }
lemma inbk_split(es: Seq<KV>, n: Int, w: Int, n1: Int, w1: Int, j: Int) induct es use hbk_split : {inbk(es, n1, w1, j), inbk(es, n, w, j)}
  lin(n, w) && n1 == n + 1 && w1 == (n1 > pow2(w) ? w + 1 : w) && j != n % pow2(w - 1) && inbk(es, n, w, j) ==> inbk(es, n1, w1, j)
  by { len(es) > 0 ==> inbk(es, n1, w1, j) == (es[0].k != nil && hbk(rank(es[0].k), n1, w1) == j && inbk(drop(es, 1), n1, w1, j));
       len(es) > 0 && inbk(es, n, w, j) ==> hbk(rank(es[0].k), n, w) == j && inbk(drop(es, 1), n, w, j) }
// every key of es belongs to bucket x or bucket y
fun inbk2(es: Seq<KV>, n: Int, w: Int, x: Int, y: Int): Bool = len(es) <= 0 ? true : (hbk(rank(es[0].k), n, w) == x || hbk(rank(es[0].k), n, w) == y) && inbk2(drop(es, 1), n, w, x, y)
lemma inbk_two(es: Seq<KV>, n: Int, w: Int, n1: Int, w1: Int, x: Int, y: Int) induct es use hbk_split : {inbk2(es, n1, w1, x, y), inbk(es, n, w, x)}
  lin(n, w) && n1 == n + 1 && w1 == (n1 > pow2(w) ? w + 1 : w) && x == n % pow2(w - 1) && y == n && inbk(es, n, w, x) ==> inbk2(es, n1, w1, x, y)
  by { len(es) > 0 ==> inbk2(es, n1, w1, x, y) == ((hbk(rank(es[0].k), n1, w1) == x || hbk(rank(es[0].k), n1, w1) == y) && inbk2(drop(es, 1), n1, w1, x, y));
       len(es) > 0 && inbk(es, n, w, x) ==> hbk(rank(es[0].k), n, w) == x && inbk(drop(es, 1), n, w, x) }
lemma inbk_put(es: Seq<KV>, k: Val, v: Val, n: Int, w: Int, j: Int) use sput, lbk_range, inbk_app, inbk_unit : {inbk(sput(es, k, v), n, w, j)}
  inbk(es, n, w, j) && k != nil && hbk(rank(k), n, w) == j ==> inbk(sput(es, k, v), n, w, j)
  by { let i = lbk(es, rank(k)) in i < len(es) && rank(es[i].k) == rank(k) ==> seqeq(sput(es, k, v), app(take(es, i), app(unit(KV(es[i].k, v)), drop(es, i + 1))));
       let i = lbk(es, rank(k)) in !(i < len(es) && rank(es[i].k) == rank(k)) ==> seqeq(sput(es, k, v), app(take(es, i), app(unit(KV(k, v)), drop(es, i))));
       let i = lbk(es, rank(k)) in seqeq(es, app(take(es, i), drop(es, i)));
       let i = lbk(es, rank(k)) in i < len(es) ==> seqeq(es, app(take(es, i), app(unit(es[i]), drop(es, i + 1)))) }
lemma inbk_rem(es: Seq<KV>, q: Int, n: Int, w: Int, j: Int) use srem, shas, lbk_range, inbk_app, inbk_unit : {inbk(srem(es, q), n, w, j)}
  inbk(es, n, w, j) && shas(es, q) ==> inbk(srem(es, q), n, w, j)
  by { let i = lbk(es, q) in shas(es, q) ==> seqeq(srem(es, q), app(take(es, i), drop(es, i + 1)));
       let i = lbk(es, q) in shas(es, q) ==> seqeq(es, app(take(es, i), app(unit(es[i]), drop(es, i + 1)))) }
lemma cat_snoc(W: Array<Int,Seq<KV>>, lo: Int, m: Int, m1: Int) induct m : {cat(W, lo, m), cat(W, lo, m1)} m1 == m + 1 && 0 <= m ==> cat(W, lo, m1) == app(cat(W, lo, m), W[lo + m])
  by { m1 == m + 1 && 0 <= m ==> cat(W, lo, m1) == app(W[lo], cat(W, lo + 1, m)); m > 0 ==> cat(W, lo, m) == app(W[lo], cat(W, lo + 1, m - 1));
       m > 0 ==> cat(W, lo + 1, m) == app(cat(W, lo + 1, m - 1), W[lo + m]); m == 0 ==> cat(W, lo + 1, 0) == empty<KV> }

fun sinv(W: Array<Int,Seq<KV>>, n: Int): Bool = forall i: Int :: {W[i]} 0 <= i && i < n ==> sortedkv(W[i])
pred lht(h: *hashtable.LinearHash; es: Seq<KV>) {
  h.table |-> ?t &*& h.n |-> ?n &*& h.r |-> ?r &*& h.i |-> ?w &*& t.off == 0 &*& len(t) == n &*& lin(n, w) &*& slice(t; ?A) &*& all(avl, A, 0, n; ?W)
    &*& sinv(W, n) &*& hinv(W, n, w) &*& es := cat(W, 0, n) &*& r == len(es)
  fact h != nil && mdist(es) && nnk(es)
  use cats
  assume len(es) <= MAXLEN
}
func hashtable.NewLinearHash()(h) {
  ensures lht(h; empty<KV>)
  use mapeq, chains, cats, order, pow2_5
  tags C13
}
func hashtable.(*LinearHash).bucket(h, key)(r) {
  requires key != nil
  reads h.n |-> ?n &*& h.i |-> ?w &*& lin(n, w) && n <= MAXLEN + 1
  ensures r == hbk(rank(key), n, w) &*& 0 <= r &*& r < n
  use hbk, pow2_big, pow2_pos, imod_range
  tags C13
}
func hashtable.(*LinearHash).Size(h)(n) {
  reads lht(h; ?es)
  ensures n == len(es)
  tags C13
}
func hashtable.(*LinearHash).Has(h, key)(r) {
  requires key != nil
  reads lht(h; ?es)
  ensures r == (mget(es, rank(key)) != None)
  use mapeq, cats, smget
  tags C13
}
func hashtable.(*LinearHash).Get(h, key)(v, err) {
  requires key != nil
  reads lht(h; ?es)
  ensures mget(es, rank(key)) == None ? err != nil && v == nil : err == nil && mget(es, rank(key)) == Some(v)
  use mapeq, cats, smget
  tags C13
}
func hashtable.(*LinearHash).Put(h, key, v)(err) {
  requires key != nil &*& lht(h; ?es)
  ensures err == nil &*& lht(h; ?e2) &*& isput(es, e2, key, v)
  use mapeq, cats, smap, smget, smdist, smget_put, inbk_put
  tags C13
}
func hashtable.(*LinearHash).Remove(h, key)(v, err) {
  requires key != nil &*& lht(h; ?es)
  ensures mget(es, rank(key)) == None
    ? err != nil &*& v == nil &*& lht(h; es)
    : err == nil &*& mget(es, rank(key)) == Some(v) &*& lht(h; ?e2) &*& isrem(es, e2, rank(key))
  use mapeq, cats, smap, smget, smdist, smget_rem, inbk_rem
  tags C13
}
func hashtable.(*LinearHash).split(h)(err) {
  requires lht(h; ?es)
  ensures err == nil &*& lht(h; ?e2) &*& len(e2) == len(es) &*& (forall r: Int :: {mget(e2, r)} mget(e2, r) == mget(es, r))
  loop 1 {
    inv avl(bkt_a; ?a) &*& avl(bkt_b; ?b) &*& sortedkv(a) &*& sortedkv(b)
    inv ro (self.n |-> ?n1) &*& ro (self.i |-> ?w1) &*& inbk(a, n1, w1, bkt_idx) &*& inbk(b, n1, w1, n1 - 1)
    inv ro avl(old_bkt; ?t)
    inv next != nil ? kviter(next; ?r1) &*& let z = len(t) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(t, z + 1) &*& KV(key, value) == t[z] &*& mget(drop(t, z), rank(key)) == Some(value) : let z = len(t)
    inv let q = drop(t, z) &*& len(a) + len(b) + len(q) == len(t) &*& mdist(q) &*& nnk(q) &*& inbk2(q, n1, w1, bkt_idx, n1 - 1)
      &*& (forall r: Int :: {mget(a, r)} {mget(b, r)} {mget(q, r)} mget(t, r) == (mget(a, r) != None ? mget(a, r) : mget(b, r) != None ? mget(b, r) : mget(q, r)))
      &*& (forall r: Int :: {mget(q, r)} mget(q, r) != None ==> mget(a, r) == None && mget(b, r) == None)
  }
  use mapeq, cats, smap, smget, smdist, smget_put, inbk_put, sorted_empty, inbk_empty, inbk_get, lins, pow2_big, pow2_pos
  tags C13
}

pred kviter(f: Fn; r: Seq<KV>) {
  case closure hashtable.(*LinearHash).Iterate$1 =>
    *table |-> ?t &*& *i |-> ?k &*& *iter |-> ?c &*& *kv_iterator |-> f &*& t.off == 0 &*& 0 <= k &*& k < len(t)
    &*& ro slice(t; ?A) &*& ro all(avl, A, 0, len(t); ?W) &*& kviter(c; ?rest) &*& r := app(rest, cat(W, k + 1, len(t) - k - 1))
}
func hashtable.(*LinearHash).Iterate$1 implements types.KVIterator {
  loop 1 {
    inv ro slice(table; ?A) &*& ro all(avl, A, 0, len(table); ?W) &*& 0 <= i &*& i < len(table)
    inv iter == nil ? r == cat(W, i + 1, len(table) - i - 1) &*& true : kviter(iter; ?rest) &*& r == app(unit(KV(key, val)), app(rest, cat(W, i + 1, len(table) - i - 1)))
    decreases len(table) - i
  }
  tags C13
}
pred kvable(v: Val; es: Seq<KV>) {
  case type *hashtable.LinearHash as x => lht(x; ?e2) &*& es := e2
}
func hashtable.(*LinearHash).Iterate(h)(it) {
  borrows lht(h; ?es)
  ensures kviter(it; es)
  tags C13
}
implements types.KVIterable by *hashtable.LinearHash tags C13
func hashtable.(*LinearHash).Items(h)(it) {
  borrows lht(h; ?es)
  ensures itemiter(it; es)
  tags C13
}
func hashtable.(*LinearHash).Keys(h)(it) {
  borrows lht(h; ?es)
  ensures kiter(it; keysof(es))
  tags C13
}
func hashtable.(*LinearHash).Values(h)(it) {
  borrows lht(h; ?es)
  ensures viter(it; valsof(es))
  tags C13
}
pred amap(v: Val; es: Seq<KV>) {
  case type *hashtable.LinearHash as x => lht(x; ?e2) &*& es := e2
}
implements types.Map by *hashtable.LinearHash tags C13
