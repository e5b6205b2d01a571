// Sequences of entries: order, positions by key rank.

opaque sortedkv(es: Seq<KV>): Bool =
  forall i: Int, j: Int :: {es[i], es[j]} 0 <= i && i < j && j < len(es) ==> rank(es[i].k) < rank(es[j].k)
opaque below(a: Seq<KV>, b: Seq<KV>): Bool =
  forall i: Int, j: Int :: {a[i], b[j]} 0 <= i && i < len(a) && 0 <= j && j < len(b) ==> rank(a[i].k) < rank(b[j].k)
def nonnilk(es: Seq<KV>): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> es[i].k != nil

group order
lemma sorted_empty(es: Seq<KV>) use sortedkv : {sortedkv(es)} len(es) <= 1 ==> sortedkv(es)
lemma sorted_app(a: Seq<KV>, b: Seq<KV>) use sortedkv, below : {sortedkv(app(a, b))} sortedkv(app(a, b)) == (sortedkv(a) && sortedkv(b) && below(a, b))
  by { sortedkv(app(a, b)) ==> sortedkv(a); sortedkv(app(a, b)) ==> sortedkv(b); sortedkv(app(a, b)) ==> below(a, b);
       sortedkv(a) && sortedkv(b) && below(a, b) ==> sortedkv(app(a, b)) }
lemma below_app_l(a: Seq<KV>, b: Seq<KV>, c: Seq<KV>) use below : {below(app(a, b), c)} below(app(a, b), c) == (below(a, c) && below(b, c))
lemma below_app_r(a: Seq<KV>, b: Seq<KV>, c: Seq<KV>) use below : {below(a, app(b, c))} below(a, app(b, c)) == (below(a, b) && below(a, c))
lemma below_unit(x: KV, y: KV) use below : {below(unit(x), unit(y))} below(unit(x), unit(y)) == (rank(x.k) < rank(y.k))
lemma below_empty(a: Seq<KV>, b: Seq<KV>) use below : {below(a, b)} len(a) == 0 || len(b) == 0 ==> below(a, b)

group trans
lemma below_trans(a: Seq<KV>, x: KV, b: Seq<KV>) use below : {below(a, unit(x)), below(unit(x), b)} below(a, unit(x)) && below(unit(x), b) ==> below(a, b)
  by { below(a, unit(x)) ==> (forall i: Int :: {a[i]} 0 <= i && i < len(a) ==> rank(a[i].k) < rank(unit(x)[0].k)) }

// how many entries have a key below rank r: where r belongs in a sorted sequence
fun lbk(es: Seq<KV>, r: Int): Int = len(es) <= 0 ? 0 : lbk(take(es, len(es) - 1), r) + (rank(es[len(es) - 1].k) < r ? 1 : 0)

group lbks
lemma lbk_range(es: Seq<KV>, r: Int) induct es : {lbk(es, r)} 0 <= lbk(es, r) && lbk(es, r) <= len(es)
lemma lbk_app(a: Seq<KV>, b: Seq<KV>, r: Int) induct b : {lbk(app(a, b), r)} lbk(app(a, b), r) == lbk(a, r) + lbk(b, r)
  by { len(b) > 0 ==> seqeq(take(app(a, b), len(app(a, b)) - 1), app(a, take(b, len(b) - 1))); len(b) == 0 ==> app(a, b) == a }
lemma lbk_unit(x: KV, r: Int) : {lbk(unit(x), r)} lbk(unit(x), r) == (rank(x.k) < r ? 1 : 0)
  by { lbk(take(unit(x), 0), r) == 0 }
lemma lbk_lo(es: Seq<KV>, r: Int) induct es : {lbk(es, r)} (forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> rank(es[i].k) >= r) ==> lbk(es, r) == 0
lemma lbk_hi(es: Seq<KV>, r: Int) induct es : {lbk(es, r)} (forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> rank(es[i].k) < r) ==> lbk(es, r) == len(es)
lemma lbk_below(x: KV, b: Seq<KV>, r: Int) use below, lbk_lo : {below(unit(x), b), lbk(b, r)} below(unit(x), b) && r <= rank(x.k) ==> lbk(b, r) == 0
  by { below(unit(x), b) ==> (forall i: Int :: {b[i]} 0 <= i && i < len(b) ==> rank(unit(x)[0].k) < rank(b[i].k)) }
lemma lbk_above(x: KV, a: Seq<KV>, r: Int) use below, lbk_hi : {below(a, unit(x)), lbk(a, r)} below(a, unit(x)) && rank(x.k) <= r ==> lbk(a, r) == len(a)
  by { below(a, unit(x)) ==> (forall i: Int :: {a[i]} 0 <= i && i < len(a) ==> rank(a[i].k) < rank(unit(x)[0].k)) }

group lbkx
lemma lbk_spec(es: Seq<KV>, r: Int) induct es use sortedkv, lbk_range, lbk_lo, lbk_hi : {lbk(es, r), sortedkv(es)} sortedkv(es) ==>
  (forall i: Int :: {es[i]} 0 <= i && i < lbk(es, r) ==> rank(es[i].k) < r)
  && (forall i: Int :: {es[i]} lbk(es, r) <= i && i < len(es) ==> rank(es[i].k) >= r)
  by { sortedkv(es) && len(es) > 0 ==> sortedkv(take(es, len(es) - 1));
       sortedkv(es) && len(es) > 0 && rank(es[len(es) - 1].k) < r ==>
         (forall i: Int :: {take(es, len(es) - 1)[i]} 0 <= i && i < len(es) - 1 ==> rank(take(es, len(es) - 1)[i].k) < r);
       sortedkv(es) && len(es) > 0 && rank(es[len(es) - 1].k) < r ==> lbk(take(es, len(es) - 1), r) == len(es) - 1 }

group segs
lemma ins_app(a: Seq<KV>, b: Seq<KV>, i: Int, x: KV) : {ins(app(a, b), i, x)} 0 <= i && i <= len(a) + len(b) ==>
  ins(app(a, b), i, x) == (i <= len(a) ? app(ins(a, i, x), b) : app(a, ins(b, i - len(a), x)))
lemma ins_0(b: Seq<KV>, i: Int, x: KV) : {ins(b, i, x)} i == 0 ==> ins(b, i, x) == app(unit(x), b)
lemma ins_end(b: Seq<KV>, i: Int, x: KV) : {ins(b, i, x)} i == len(b) ==> ins(b, i, x) == app(b, unit(x))
lemma rem_app(a: Seq<KV>, b: Seq<KV>, i: Int) : {rem(app(a, b), i)} 0 <= i && i < len(a) + len(b) ==>
  rem(app(a, b), i) == (i < len(a) ? app(rem(a, i), b) : app(a, rem(b, i - len(a))))
lemma rem_0(a: Seq<KV>, i: Int) : {rem(a, i)} i == 0 && len(a) == 1 ==> rem(a, i) == empty<KV>
lemma upd_app(a: Seq<KV>, b: Seq<KV>, i: Int, x: KV) : {upd(app(a, b), i, x)} 0 <= i && i < len(a) + len(b) ==>
  upd(app(a, b), i, x) == (i < len(a) ? app(upd(a, i, x), b) : app(a, upd(b, i - len(a), x)))
lemma upd_0(a: Seq<KV>, i: Int, x: KV) : {upd(a, i, x)} i == 0 && len(a) == 1 ==> upd(a, i, x) == unit(x)
lemma below_ins_l(a: Seq<KV>, i: Int, x: KV, c: Seq<KV>) use below : {below(ins(a, i, x), c)} 0 <= i && i <= len(a) ==> below(ins(a, i, x), c) == (below(a, c) && below(unit(x), c))
  by { 0 <= i && i <= len(a) && below(ins(a, i, x), c) ==> below(a, c);
       0 <= i && i <= len(a) && below(ins(a, i, x), c) ==> ins(a, i, x)[i] == x;
       0 <= i && i <= len(a) && below(ins(a, i, x), c) ==> below(unit(x), c);
       0 <= i && i <= len(a) && below(a, c) && below(unit(x), c) ==> unit(x)[0] == x }
lemma below_ins_r(a: Seq<KV>, i: Int, x: KV, c: Seq<KV>) use below : {below(c, ins(a, i, x))} 0 <= i && i <= len(a) ==> below(c, ins(a, i, x)) == (below(c, a) && below(c, unit(x)))
  by { 0 <= i && i <= len(a) && below(c, ins(a, i, x)) ==> below(c, a);
       0 <= i && i <= len(a) && below(c, ins(a, i, x)) ==> ins(a, i, x)[i] == x;
       0 <= i && i <= len(a) && below(c, ins(a, i, x)) ==> below(c, unit(x));
       0 <= i && i <= len(a) && below(c, a) && below(c, unit(x)) ==> unit(x)[0] == x }
lemma below_rem_l(a: Seq<KV>, i: Int, c: Seq<KV>) use below : {below(rem(a, i), c)} 0 <= i && i < len(a) && below(a, c) ==> below(rem(a, i), c)
lemma below_rem_r(a: Seq<KV>, i: Int, c: Seq<KV>) use below : {below(c, rem(a, i))} 0 <= i && i < len(a) && below(c, a) ==> below(c, rem(a, i))
lemma sorted_rem(a: Seq<KV>, i: Int) use sortedkv : {sortedkv(rem(a, i))} 0 <= i && i < len(a) && sortedkv(a) ==> sortedkv(rem(a, i))
lemma sorted_upd(a: Seq<KV>, i: Int, x: KV) use sortedkv : {sortedkv(upd(a, i, x))} 0 <= i && i < len(a) && sortedkv(a) && rank(x.k) == rank(a[i].k) ==> sortedkv(upd(a, i, x))
lemma sorted_ins(a: Seq<KV>, i: Int, x: KV) use sortedkv, lbk_spec, lbk_range : {sortedkv(ins(a, i, x))} sortedkv(a) && i == lbk(a, rank(x.k)) && (i == len(a) || rank(a[i].k) != rank(x.k)) ==> sortedkv(ins(a, i, x))
  by { sortedkv(a) && i == lbk(a, rank(x.k)) && (i == len(a) || rank(a[i].k) != rank(x.k)) ==> (forall j: Int :: {a[j]} i <= j && j < len(a) ==> rank(a[j].k) > rank(x.k)) }

def haskv(es: Seq<KV>, k: Val): Bool = shas(es, rank(k))

// the finite map a sorted sequence stands for
opaque shas(es: Seq<KV>, r: Int): Bool = let i = lbk(es, r) in i < len(es) && rank(es[i].k) == r
opaque sget(es: Seq<KV>, r: Int): Val = let i = lbk(es, r) in es[i].v
opaque sins(es: Seq<KV>, x: KV): Seq<KV> = ins(es, lbk(es, rank(x.k)), x)
opaque sput(es: Seq<KV>, k: Val, v: Val): Seq<KV> =
  let i = lbk(es, rank(k)) in (i < len(es) && rank(es[i].k) == rank(k) ? upd(es, i, KV(es[i].k, v)) : ins(es, i, KV(k, v)))
opaque srem(es: Seq<KV>, r: Int): Seq<KV> = rem(es, lbk(es, r))

group smap
lemma shas_empty(es: Seq<KV>, r: Int) use shas, lbks : {shas(es, r)} len(es) == 0 ==> !shas(es, r)
lemma sins_empty(es: Seq<KV>, x: KV) use sins, lbks, segs : {sins(es, x)} len(es) == 0 ==> sins(es, x) == unit(x)
lemma sput_empty(es: Seq<KV>, k: Val, v: Val) use sput, lbks, segs : {sput(es, k, v)} len(es) == 0 ==> sput(es, k, v) == unit(KV(k, v))
lemma shas_tree(a: Seq<KV>, x: KV, b: Seq<KV>, r: Int) use shas, lbks, order : {shas(app(a, app(unit(x), b)), r)}
  sortedkv(app(a, app(unit(x), b))) ==> shas(app(a, app(unit(x), b)), r) == (r == rank(x.k) ? true : r < rank(x.k) ? shas(a, r) : shas(b, r))
lemma sget_tree(a: Seq<KV>, x: KV, b: Seq<KV>, r: Int) use sget, shas, lbks, order : {sget(app(a, app(unit(x), b)), r)}
  sortedkv(app(a, app(unit(x), b))) && shas(app(a, app(unit(x), b)), r) ==> sget(app(a, app(unit(x), b)), r) == (r == rank(x.k) ? x.v : r < rank(x.k) ? sget(a, r) : sget(b, r))
lemma sins_tree(a: Seq<KV>, x: KV, b: Seq<KV>, y: KV) use sins, lbks, order, segs : {sins(app(a, app(unit(x), b)), y)}
  sortedkv(app(a, app(unit(x), b))) && rank(x.k) != rank(y.k) ==>
  sins(app(a, app(unit(x), b)), y) == (rank(y.k) < rank(x.k) ? app(sins(a, y), app(unit(x), b)) : app(a, app(unit(x), sins(b, y))))
lemma sput_tree(a: Seq<KV>, x: KV, b: Seq<KV>, k: Val, v: Val) use sput, lbks, order, segs : {sput(app(a, app(unit(x), b)), k, v)}
  sortedkv(app(a, app(unit(x), b))) ==>
  sput(app(a, app(unit(x), b)), k, v) == (rank(k) == rank(x.k) ? app(a, app(unit(KV(x.k, v)), b)) : rank(k) < rank(x.k) ? app(sput(a, k, v), app(unit(x), b)) : app(a, app(unit(x), sput(b, k, v))))
lemma srem_tree(a: Seq<KV>, x: KV, b: Seq<KV>, r: Int) use srem, shas, lbks, order, segs : {srem(app(a, app(unit(x), b)), r)}
  sortedkv(app(a, app(unit(x), b))) && shas(app(a, app(unit(x), b)), r) ==>
  srem(app(a, app(unit(x), b)), r) == (r == rank(x.k) ? app(a, b) : r < rank(x.k) ? app(srem(a, r), app(unit(x), b)) : app(a, app(unit(x), srem(b, r))))
lemma sorted_sins(es: Seq<KV>, x: KV) use sins, shas, lbks, segs : {sortedkv(sins(es, x))} sortedkv(es) && !shas(es, rank(x.k)) ==> sortedkv(sins(es, x))
lemma sorted_sput(es: Seq<KV>, k: Val, v: Val) use sput, lbks, segs : {sortedkv(sput(es, k, v))} sortedkv(es) ==> sortedkv(sput(es, k, v))
lemma sorted_srem(es: Seq<KV>, r: Int) use srem, shas, lbks, segs : {sortedkv(srem(es, r))} sortedkv(es) && shas(es, r) ==> sortedkv(srem(es, r))
lemma sput_len(es: Seq<KV>, k: Val, v: Val) use sput, shas, lbks : {sput(es, k, v)} len(sput(es, k, v)) == len(es) + (shas(es, rank(k)) ? 0 : 1)
lemma sins_len(es: Seq<KV>, x: KV) use sins, lbks : {sins(es, x)} len(sins(es, x)) == len(es) + 1
lemma srem_len(es: Seq<KV>, r: Int) use srem, shas, lbks : {srem(es, r)} shas(es, r) ==> len(srem(es, r)) == len(es) - 1
// bounds of the result of an update
lemma sput_below(es: Seq<KV>, k: Val, v: Val, c: Seq<KV>) use sput, lbks, segs, below : {below(sput(es, k, v), c)} below(sput(es, k, v), c) == (below(es, c) && below(unit(KV(k, v)), c))
lemma sput_above(es: Seq<KV>, k: Val, v: Val, c: Seq<KV>) use sput, lbks, segs, below : {below(c, sput(es, k, v))} below(c, sput(es, k, v)) == (below(c, es) && below(c, unit(KV(k, v))))
lemma sins_below(es: Seq<KV>, x: KV, c: Seq<KV>) use sins, lbks, segs : {below(sins(es, x), c)} below(sins(es, x), c) == (below(es, c) && below(unit(x), c))
lemma sins_above(es: Seq<KV>, x: KV, c: Seq<KV>) use sins, lbks, segs : {below(c, sins(es, x))} below(c, sins(es, x)) == (below(c, es) && below(c, unit(x)))
lemma srem_below(es: Seq<KV>, r: Int, c: Seq<KV>) use srem, shas, lbks, segs : {below(srem(es, r), c)} shas(es, r) && below(es, c) ==> below(srem(es, r), c)
lemma srem_above(es: Seq<KV>, r: Int, c: Seq<KV>) use srem, shas, lbks, segs : {below(c, srem(es, r))} shas(es, r) && below(c, es) ==> below(c, srem(es, r))

group sinsx
lemma sins_lo(es: Seq<KV>, x: KV) use sins, lbks, segs : {sins(es, x), below(unit(x), es)} below(unit(x), es) ==> sins(es, x) == app(unit(x), es)
lemma sins_hi(es: Seq<KV>, x: KV) use sins, lbks, segs : {sins(es, x), below(es, unit(x))} below(es, unit(x)) ==> sins(es, x) == app(es, unit(x))
lemma shas_lo(es: Seq<KV>, x: KV, r: Int) use shas, lbks, below : {shas(es, r), below(unit(x), es)} below(unit(x), es) && r <= rank(x.k) ==> !shas(es, r)
  by { below(unit(x), es) ==> (forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> rank(unit(x)[0].k) < rank(es[i].k)) }
lemma shas_hi(es: Seq<KV>, x: KV, r: Int) use shas, lbks, below : {shas(es, r), below(es, unit(x))} below(es, unit(x)) && r >= rank(x.k) ==> !shas(es, r)
  by { below(es, unit(x)) && r >= rank(x.k) ==> lbk(es, r) == len(es) }
