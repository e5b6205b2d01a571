// Maps as sequences of entries in no particular order: the first entry whose
// key has rank r gives the value of r.

fun mget(es: Seq<KV>, r: Int): Opt = len(es) <= 0 ? None : rank(es[0].k) == r ? Some(es[0].v) : mget(drop(es, 1), r)
fun mput(es: Seq<KV>, k: Val, v: Val): Seq<KV> = len(es) <= 0 ? unit(KV(k, v))
  : rank(es[0].k) == rank(k) ? app(unit(KV(es[0].k, v)), drop(es, 1)) : app(unit(es[0]), mput(drop(es, 1), k, v))
fun mrem(es: Seq<KV>, r: Int): Seq<KV> = len(es) <= 0 ? es
  : rank(es[0].k) == r ? drop(es, 1) : app(unit(es[0]), mrem(drop(es, 1), r))
fun mdist(es: Seq<KV>): Bool = len(es) <= 0 ? true : mget(drop(es, 1), rank(es[0].k)) == None && mdist(drop(es, 1))

group mapeq
lemma mget_empty(es: Seq<KV>, r: Int) : {mget(es, r)} len(es) == 0 ==> mget(es, r) == None
lemma mget_cons(x: KV, b: Seq<KV>, r: Int) : {mget(app(unit(x), b), r)} mget(app(unit(x), b), r) == (rank(x.k) == r ? Some(x.v) : mget(b, r))
  by { drop(app(unit(x), b), 1) == b; app(unit(x), b)[0] == x }
lemma mget_unit(x: KV, r: Int) : {mget(unit(x), r)} mget(unit(x), r) == (rank(x.k) == r ? Some(x.v) : None)
  by { unit(x)[0] == x; mget(drop(unit(x), 1), r) == None }
lemma mget_app(a: Seq<KV>, b: Seq<KV>, r: Int) induct a : {mget(app(a, b), r)} mget(app(a, b), r) == (mget(a, r) == None ? mget(b, r) : mget(a, r))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0]; len(a) == 0 ==> app(a, b) == b }
lemma mput_empty(es: Seq<KV>, k: Val, v: Val) : {mput(es, k, v)} len(es) == 0 ==> mput(es, k, v) == unit(KV(k, v))
lemma mput_cons(x: KV, b: Seq<KV>, k: Val, v: Val) : {mput(app(unit(x), b), k, v)}
  mput(app(unit(x), b), k, v) == (rank(x.k) == rank(k) ? app(unit(KV(x.k, v)), b) : app(unit(x), mput(b, k, v)))
  by { drop(app(unit(x), b), 1) == b; app(unit(x), b)[0] == x }
lemma mrem_cons(x: KV, b: Seq<KV>, r: Int) : {mrem(app(unit(x), b), r)} mrem(app(unit(x), b), r) == (rank(x.k) == r ? b : app(unit(x), mrem(b, r)))
  by { drop(app(unit(x), b), 1) == b; app(unit(x), b)[0] == x }
lemma mdist_cons(x: KV, b: Seq<KV>) : {mdist(app(unit(x), b))} mdist(app(unit(x), b)) == (mget(b, rank(x.k)) == None && mdist(b))
  by { drop(app(unit(x), b), 1) == b; app(unit(x), b)[0] == x }
lemma mdist_empty(b: Seq<KV>) : {mdist(b)} len(b) == 0 ==> mdist(b)

group mapop
lemma mget_mput(es: Seq<KV>, k: Val, v: Val, r: Int) induct es use mapeq : {mget(mput(es, k, v), r)} mget(mput(es, k, v), r) == (r == rank(k) ? Some(v) : mget(es, r))
lemma mget_mrem(es: Seq<KV>, q: Int, r: Int) induct es use mapeq : {mget(mrem(es, q), r)} mdist(es) ==> mget(mrem(es, q), r) == (r == q ? None : mget(es, r))
lemma mdist_mput(es: Seq<KV>, k: Val, v: Val) induct es use mapeq, mget_mput : {mdist(mput(es, k, v))} mdist(es) ==> mdist(mput(es, k, v))
  by { len(es) > 0 ==> mput(es, k, v) == (rank(es[0].k) == rank(k) ? app(unit(KV(es[0].k, v)), drop(es, 1)) : app(unit(es[0]), mput(drop(es, 1), k, v)));
       len(es) > 0 && mdist(es) ==> mget(drop(es, 1), rank(es[0].k)) == None && mdist(drop(es, 1)) }
lemma mdist_mrem(es: Seq<KV>, q: Int) induct es use mapeq, mget_mrem : {mdist(mrem(es, q))} mdist(es) ==> mdist(mrem(es, q))
  by { len(es) > 0 ==> mrem(es, q) == (rank(es[0].k) == q ? drop(es, 1) : app(unit(es[0]), mrem(drop(es, 1), q)));
       len(es) > 0 && mdist(es) ==> mget(drop(es, 1), rank(es[0].k)) == None && mdist(drop(es, 1)) }
lemma len_mput(es: Seq<KV>, k: Val, v: Val) induct es : {mput(es, k, v)} len(mput(es, k, v)) == len(es) + (mget(es, rank(k)) == None ? 1 : 0)
lemma len_mrem(es: Seq<KV>, r: Int) induct es : {mrem(es, r)} len(mrem(es, r)) == len(es) - (mget(es, r) == None ? 0 : 1)
fun mdisj(a: Seq<KV>, b: Seq<KV>): Bool = len(a) <= 0 ? true : mget(b, rank(a[0].k)) == None && mdisj(drop(a, 1), b)
fun nnk(es: Seq<KV>): Bool = len(es) <= 0 ? true : es[0].k != nil && nnk(drop(es, 1))

group mapapp
lemma mdisj_get(a: Seq<KV>, b: Seq<KV>, r: Int) induct a : {mdisj(a, b), mget(a, r)} {mdisj(a, b), mget(b, r)} mdisj(a, b) && mget(a, r) != None ==> mget(b, r) == None
lemma mdist_app(a: Seq<KV>, b: Seq<KV>) induct a use mget_app : {mdist(app(a, b))} mdist(app(a, b)) == (mdist(a) && mdist(b) && mdisj(a, b))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0]; len(a) == 0 ==> app(a, b) == b;
       len(a) > 0 ==> mget(drop(app(a, b), 1), rank(a[0].k)) == (mget(drop(a, 1), rank(a[0].k)) == None ? mget(b, rank(a[0].k)) : mget(drop(a, 1), rank(a[0].k))) }
lemma mdisj_unit(a: Seq<KV>, x: KV, b: Seq<KV>) use mdisj_get, mapeq : {mdisj(a, app(unit(x), b))} mdisj(a, app(unit(x), b)) ==> mget(a, rank(x.k)) == None
  by { mdisj(a, app(unit(x), b)) && mget(a, rank(x.k)) != None ==> mget(app(unit(x), b), rank(x.k)) == None }
lemma mdisj_all(a: Seq<KV>, b: Seq<KV>) induct a : {mdisj(a, b)} (forall r: Int :: {mget(a, r)} {mget(b, r)} mget(a, r) == None || mget(b, r) == None) ==> mdisj(a, b)
  by { len(a) > 0 ==> mget(a, rank(a[0].k)) != None;
       len(a) > 0 && (forall r: Int :: {mget(a, r)} {mget(b, r)} mget(a, r) == None || mget(b, r) == None) ==>
         (forall r: Int :: {mget(drop(a, 1), r)} {mget(b, r)} mget(drop(a, 1), r) == None || mget(b, r) == None);
       len(a) > 0 && (forall r: Int :: {mget(a, r)} {mget(b, r)} mget(a, r) == None || mget(b, r) == None) ==> mget(b, rank(a[0].k)) == None;
       len(a) > 0 && (forall r: Int :: {mget(a, r)} {mget(b, r)} mget(a, r) == None || mget(b, r) == None) ==> mdisj(drop(a, 1), b) }
lemma nnk_app(a: Seq<KV>, b: Seq<KV>) induct a : {nnk(app(a, b))} nnk(app(a, b)) == (nnk(a) && nnk(b))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0]; len(a) == 0 ==> app(a, b) == b }
lemma nnk_unit(x: KV) : {nnk(unit(x))} nnk(unit(x)) == (x.k != nil)
  by { unit(x)[0] == x; nnk(drop(unit(x), 1)) }
lemma nnk_empty(a: Seq<KV>) : {nnk(a)} len(a) == 0 ==> nnk(a)

// sorted sequences of entries as maps
group smapm
lemma mget_none(es: Seq<KV>, r: Int) induct es : {mget(es, r)} (forall j: Int :: {es[j]} 0 <= j && j < len(es) ==> rank(es[j].k) != r) ==> mget(es, r) == None
lemma mget_at(es: Seq<KV>, i: Int, r: Int) use mget_app, mapeq : {mget(take(es, i), r)} 0 <= i && i < len(es) ==>
    mget(es, r) == (mget(take(es, i), r) != None ? mget(take(es, i), r) : rank(es[i].k) == r ? Some(es[i].v) : mget(drop(es, i + 1), r))
  by { 0 <= i && i < len(es) ==> seqeq(es, app(take(es, i), app(unit(es[i]), drop(es, i + 1)))) }
lemma mget_split(es: Seq<KV>, i: Int, r: Int) use mget_app : {mget(take(es, i), r)} 0 <= i && i <= len(es) ==>
    mget(es, r) == (mget(take(es, i), r) != None ? mget(take(es, i), r) : mget(drop(es, i), r))
  by { 0 <= i && i <= len(es) ==> seqeq(es, app(take(es, i), drop(es, i))) }
lemma smget(es: Seq<KV>, r: Int) use mget_at, shas, sget, lbk_spec, lbk_range, mget_none, sortedkv : {mget(es, r), sortedkv(es)} sortedkv(es) ==> mget(es, r) == (shas(es, r) ? Some(sget(es, r)) : None)
  by { sortedkv(es) ==> mget(take(es, lbk(es, r)), r) == None;
       sortedkv(es) && shas(es, r) ==> mget(es, r) == (mget(take(es, lbk(es, r)), r) != None ? mget(take(es, lbk(es, r)), r) : rank(es[lbk(es, r)].k) == r ? Some(es[lbk(es, r)].v) : mget(drop(es, lbk(es, r) + 1), r));
       sortedkv(es) && !shas(es, r) ==> (forall j: Int :: {es[j]} 0 <= j && j < len(es) ==> rank(es[j].k) != r) }

lemma smdist(es: Seq<KV>) induct es use sortedkv, mget_none : {mdist(es)} sortedkv(es) ==> mdist(es)
  by { len(es) > 0 && sortedkv(es) ==> sortedkv(drop(es, 1)); len(es) > 0 && sortedkv(es) ==> mget(drop(es, 1), rank(es[0].k)) == None }
lemma smget_put(es: Seq<KV>, k: Val, v: Val, r: Int) use sput, lbk_spec, lbk_range, mget_none, mget_at, mget_split, mapeq, sortedkv : {mget(sput(es, k, v), r)}
  sortedkv(es) ==> mget(sput(es, k, v), r) == (r == rank(k) ? Some(v) : mget(es, r))
  by { let i = lbk(es, rank(k)) in sortedkv(es) ==> mget(take(es, i), rank(k)) == None;
       let i = lbk(es, rank(k)) in i < len(es) && rank(es[i].k) == rank(k) ==> seqeq(sput(es, k, v), app(take(es, i), app(unit(KV(es[i].k, v)), drop(es, i + 1))));
       let i = lbk(es, rank(k)) in !(i < len(es) && rank(es[i].k) == rank(k)) ==> seqeq(sput(es, k, v), app(take(es, i), app(unit(KV(k, v)), drop(es, i))));
       let i = lbk(es, rank(k)) in mget(es, r) == (mget(take(es, i), r) != None ? mget(take(es, i), r) : mget(drop(es, i), r));
       let i = lbk(es, rank(k)) in i < len(es) ==> mget(es, r) == (mget(take(es, i), r) != None ? mget(take(es, i), r) : rank(es[i].k) == r ? Some(es[i].v) : mget(drop(es, i + 1), r)) }
lemma smget_rem(es: Seq<KV>, q: Int, r: Int) use srem, shas, lbk_spec, lbk_range, mget_none, mget_at, mget_split, mapeq, sortedkv : {mget(srem(es, q), r)}
  sortedkv(es) && shas(es, q) ==> mget(srem(es, q), r) == (r == q ? None : mget(es, r))
  by { let i = lbk(es, q) in shas(es, q) ==> seqeq(srem(es, q), app(take(es, i), drop(es, i + 1)));
       let i = lbk(es, q) in sortedkv(es) && shas(es, q) ==> mget(take(es, i), q) == None;
       let i = lbk(es, q) in sortedkv(es) && shas(es, q) ==> mget(drop(es, i + 1), q) == None;
       let i = lbk(es, q) in shas(es, q) ==> mget(es, r) == (mget(take(es, i), r) != None ? mget(take(es, i), r) : rank(es[i].k) == r ? Some(es[i].v) : mget(drop(es, i + 1), r)) }

group mapix
lemma mget_ins(es: Seq<KV>, i: Int, x: KV, r: Int) use mget_split, mapeq : {mget(ins(es, i, x), r)} 0 <= i && i <= len(es) && mget(es, rank(x.k)) == None ==>
    mget(ins(es, i, x), r) == (r == rank(x.k) ? Some(x.v) : mget(es, r))
  by { 0 <= i && i <= len(es) ==> seqeq(ins(es, i, x), app(take(es, i), app(unit(x), drop(es, i))));
       0 <= i && i <= len(es) ==> mget(es, r) == (mget(take(es, i), r) != None ? mget(take(es, i), r) : mget(drop(es, i), r));
       0 <= i && i <= len(es) ==> mget(es, rank(x.k)) == (mget(take(es, i), rank(x.k)) != None ? mget(take(es, i), rank(x.k)) : mget(drop(es, i), rank(x.k))) }
lemma mget_del(es: Seq<KV>, i: Int, r: Int) use mget_at, mapapp, mapeq : {mget(rem(es, i), r)} 0 <= i && i < len(es) && mdist(es) ==>
    mget(rem(es, i), r) == (r == rank(es[i].k) ? None : mget(es, r))
  by { 0 <= i && i < len(es) ==> seqeq(rem(es, i), app(take(es, i), drop(es, i + 1))) && seqeq(es, app(take(es, i), app(unit(es[i]), drop(es, i + 1))));
       0 <= i && i < len(es) ==> mget(es, r) == (mget(take(es, i), r) != None ? mget(take(es, i), r) : rank(es[i].k) == r ? Some(es[i].v) : mget(drop(es, i + 1), r));
       0 <= i && i < len(es) && mdist(es) ==> mdist(app(unit(es[i]), drop(es, i + 1))) && mdisj(take(es, i), app(unit(es[i]), drop(es, i + 1)));
       0 <= i && i < len(es) && mdist(es) ==> mget(take(es, i), rank(es[i].k)) == None && mget(drop(es, i + 1), rank(es[i].k)) == None }
lemma mget_ix(es: Seq<KV>, i: Int, r: Int) use mget_at, mapapp, mapeq : {mget(es, r), es[i]} 0 <= i && i < len(es) && mdist(es) && rank(es[i].k) == r ==> mget(es, r) == Some(es[i].v)
  by { 0 <= i && i < len(es) ==> seqeq(es, app(take(es, i), app(unit(es[i]), drop(es, i + 1))));
       0 <= i && i < len(es) && mdist(es) ==> mdist(app(unit(es[i]), drop(es, i + 1))) && mdisj(take(es, i), app(unit(es[i]), drop(es, i + 1)));
       0 <= i && i < len(es) && mdist(es) ==> mget(take(es, i), rank(es[i].k)) == None }

// what an update of a map does, in terms of lookups
def isput(a: Seq<KV>, b: Seq<KV>, k: Val, v: Val): Bool =
  len(b) == len(a) + (mget(a, rank(k)) == None ? 1 : 0) && (forall r: Int :: {mget(b, r)} {mget(a, r)} mget(b, r) == (r == rank(k) ? Some(v) : mget(a, r)))
def isrem(a: Seq<KV>, b: Seq<KV>, q: Int): Bool =
  len(b) == len(a) - 1 && (forall r: Int :: {mget(b, r)} {mget(a, r)} mget(b, r) == (r == q ? None : mget(a, r)))

// any of the library's maps, as its entries in iteration order
pred amap(v: Val; es: Seq<KV>) {
  fact v != nil && mdist(es) && nnk(es)
}
iface types.Map.Size(m)(n) {
  reads amap(m; ?es)
  ensures n == len(es)
}
iface types.Map.Has(m, key)(r) {
  requires key != nil
  reads amap(m; ?es)
  ensures r == (mget(es, rank(key)) != None)
}
iface types.Map.Get(m, key)(v, err) {
  requires key != nil
  reads amap(m; ?es)
  ensures mget(es, rank(key)) == None ? err != nil && v == nil : err == nil && mget(es, rank(key)) == Some(v)
}
iface types.Map.Put(m, key, v)(err) {
  requires key != nil &*& amap(m; ?es)
  ensures err == nil &*& amap(m; ?e2) &*& isput(es, e2, key, v)
}
iface types.Map.Remove(m, key)(v, err) {
  requires key != nil &*& amap(m; ?es)
  ensures mget(es, rank(key)) == None
    ? err != nil &*& v == nil &*& amap(m; es)
    : err == nil &*& mget(es, rank(key)) == Some(v) &*& amap(m; ?e2) &*& isrem(es, e2, rank(key))
}
iface types.Map.Iterate(m)(it) {
  borrows amap(m; ?es)
  ensures kviter(it; es)
}
iface types.Map.Keys(m)(it) {
  borrows amap(m; ?es)
  ensures kiter(it; keysof(es))
}
iface types.Map.Values(m)(it) {
  borrows amap(m; ?es)
  ensures viter(it; valsof(es))
}
