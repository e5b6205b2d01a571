// B+tree maps: no two entries have equal keys.

opaque zip(ks: Seq<Val>, vs: Seq<Val>): Seq<KV> = len(ks) <= 0 ? empty<KV> : app(zip(take(ks, len(ks) - 1), vs), unit(KV(ks[len(ks) - 1], vs[len(ks) - 1])))
group zips
lemma zip_len(ks: Seq<Val>, vs: Seq<Val>) induct ks use zip : {zip(ks, vs)} len(zip(ks, vs)) == len(ks)
lemma zip_at(ks: Seq<Val>, vs: Seq<Val>, i: Int) induct ks use zip, zip_len : {zip(ks, vs)[i]} 0 <= i && i < len(ks) ==> zip(ks, vs)[i] == KV(ks[i], vs[i])
  by { 0 <= i && i < len(ks) - 1 ==> take(ks, len(ks) - 1)[i] == ks[i] }
group zipx
lemma zip_ins(ks: Seq<Val>, vs: Seq<Val>, i: Int, k: Val, v: Val) use zips : {zip(ins(ks, i, k), ins(vs, i, v))} 0 <= i && i <= len(ks) && len(vs) == len(ks) ==> zip(ins(ks, i, k), ins(vs, i, v)) == ins(zip(ks, vs), i, KV(k, v))
lemma zip_upd(ks: Seq<Val>, vs: Seq<Val>, i: Int, v: Val) use zips : {zip(ks, upd(vs, i, v))} 0 <= i && i < len(ks) && len(vs) == len(ks) ==> zip(ks, upd(vs, i, v)) == upd(zip(ks, vs), i, KV(ks[i], v))
lemma zip_rem(ks: Seq<Val>, vs: Seq<Val>, i: Int) use zips : {zip(rem(ks, i), rem(vs, i))} 0 <= i && i < len(ks) && len(vs) == len(ks) ==> zip(rem(ks, i), rem(vs, i)) == rem(zip(ks, vs), i)
lemma zip_app(a: Seq<Val>, b: Seq<Val>, c: Seq<Val>, d: Seq<Val>) use zips : {zip(app(a, b), app(c, d))} len(a) == len(c) && len(b) == len(d) ==> zip(app(a, b), app(c, d)) == app(zip(a, c), zip(b, d))
lemma zip_sorted(ks: Seq<Val>, vs: Seq<Val>) use zips, sortedkv : {zip(ks, vs)} sortedkv(zip(ks, vs)) == sortedq(ks, false)
  by { sortedkv(zip(ks, vs)) ==> (forall i: Int, j: Int :: {ks[i], ks[j]} 0 <= i && i < j && j < len(ks) ==> rank(zip(ks, vs)[i].k) < rank(zip(ks, vs)[j].k)) }
lemma zip_lbk(ks: Seq<Val>, vs: Seq<Val>, r: Int) induct ks use zip, zips, lowk, lbk_app, lbk_unit : {lbk(zip(ks, vs), r)} lbk(zip(ks, vs), r) == lowk(ks, r)
lemma zip_nn(ks: Seq<Val>, vs: Seq<Val>) induct ks use zip, nnk_app, nnk_unit, nnk_empty : {nnk(zip(ks, vs))} nnk(zip(ks, vs)) == nonnil(ks)
lemma zip_two(ks: Seq<Val>, vs: Seq<Val>) use zips, sortedkv : {sortedkv(zip(ks, vs))} sortedkv(zip(ks, vs)) && len(ks) >= 2 ==> rank(ks[0]) < rank(ks[1])
  by { sortedkv(zip(ks, vs)) && len(ks) >= 2 ==> rank(zip(ks, vs)[0].k) < rank(zip(ks, vs)[1].k) }
lemma zip_sput(ks: Seq<Val>, vs: Seq<Val>, k: Val, v: Val) use zips, zip_lbk, zip_ins, zip_upd, sput, lowk_range : {sput(zip(ks, vs), k, v)} len(vs) == len(ks) ==>
  sput(zip(ks, vs), k, v) == (let i = lowk(ks, rank(k)) in i < len(ks) && rank(ks[i]) == rank(k) ? zip(ks, upd(vs, i, v)) : zip(ins(ks, i, k), ins(vs, i, v)))

ufun posof(xs: Seq<*bptree.BpNode>, x: *bptree.BpNode): Int
pred leaf(x: *bptree.BpNode; es: Seq<KV>, cp: Int, nx: *bptree.BpNode, pv: *bptree.BpNode) {
  bnode(x; ?k2, ?v2, ?p2, ?c2, ?w2, ?z2, ?n2, ?q2) &*& z2 == 0 && w2 == c2 && len(v2) == len(k2)
    &*& es := zip(k2, v2) &*& cp := c2 &*& nx := n2 &*& pv := q2
  fact x != nil && len(es) <= cp && cp <= MAXLEN
  use zips
}
def bplinks(xs: Seq<*bptree.BpNode>, NX: Array<*bptree.BpNode,*bptree.BpNode>, PV: Array<*bptree.BpNode,*bptree.BpNode>): Bool =
     (forall i: Int :: {NX[xs[i]]} 0 <= i && i < len(xs) ==> NX[xs[i]] == (i + 1 < len(xs) ? xs[i + 1] : nil))
  && (forall i: Int :: {PV[xs[i]]} 0 <= i && i < len(xs) ==> PV[xs[i]] == (i > 0 ? xs[i - 1] : nil))
def capn(xs: Seq<*bptree.BpNode>, CP: Array<*bptree.BpNode,Int>, n: Int): Bool = forall i: Int :: {CP[xs[i]]} 0 <= i && i < len(xs) ==> CP[xs[i]] == n

// Insertion into a leaf of the chain xs: the leaf holds the old entries with
// the key stored, or the leaf and a new leaf right after it hold them.
func bptree.(*BpNode).leaf_insert(x, key, value)(a, b, err) {
  requires key != nil &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& x.no_dup |-> true &*& let p = posof(xs, x) &*& 0 <= p && p < len(xs) && xs[p] == x
    &*& bplinks(xs, NX, PV) && capn(xs, CP, CP[x]) && CP[x] >= 2 && sortedkv(ES[x]) && nnk(ES[x])
  ensures err == nil && a == x &*& x.no_dup |-> true
  ensures b == nil
    ? set(leaf, xs; ?ES2, ?CP2, NX, PV) &*& capn(xs, CP2, CP[x]) && ES2[x] == sput(ES[x], key, value) && len(ES2[x]) > 0 && (forall y: *bptree.BpNode :: {ES2[y]} y != x ==> ES2[y] == ES[y])
    : set(leaf, ins(xs, p + 1, b); ?ES2, ?CP2, ?NX2, ?PV2) &*& b.no_dup |-> true &*& bplinks(ins(xs, p + 1, b), NX2, PV2) && capn(ins(xs, p + 1, b), CP2, CP[x])
       && app(ES2[x], ES2[b]) == sput(ES[x], key, value) && len(ES2[x]) > 0 && len(ES2[b]) > 0
       && (forall y: *bptree.BpNode :: {ES2[y]} y != x && y != b ==> ES2[y] == ES[y])
  use zips, zipx, lowks, lowk_spec, lowk_hd, order, smap
  tags C18
}

group cuts
lemma ins_appl(a: Seq<Val>, b: Seq<Val>, i: Int, k: Val) : {ins(app(a, b), i, k)} 0 <= i && i <= len(a) ==> ins(app(a, b), i, k) == app(ins(a, i, k), b)
lemma ins_appr(a: Seq<Val>, b: Seq<Val>, i: Int, k: Val) : {ins(app(a, b), i, k)} len(a) <= i && i <= len(a) + len(b) ==> ins(app(a, b), i, k) == app(a, ins(b, i - len(a), k))
lemma insr_appl(a: Seq<*bptree.BpNode>, b: Seq<*bptree.BpNode>, i: Int, k: *bptree.BpNode) : {ins(app(a, b), i, k)} 0 <= i && i <= len(a) ==> ins(app(a, b), i, k) == app(ins(a, i, k), b)
lemma insr_appr(a: Seq<*bptree.BpNode>, b: Seq<*bptree.BpNode>, i: Int, k: *bptree.BpNode) : {ins(app(a, b), i, k)} len(a) <= i && i <= len(a) + len(b) ==> ins(app(a, b), i, k) == app(a, ins(b, i - len(a), k))

// A full inner node takes one more child: every child keeps its place in one
// of the two halves, neither of which is empty.
func bptree.(*BpNode).internal_split(x, key, ptr)(a, b, err) {
  requires key != nil &*& bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv) &*& nonnil(ks) && sortedq(ks, false) && len(ps) == len(ks) && vc == 0 && pc == cp && len(ks) == cp && cp >= 2 && rank(ks[0]) < rank(ks[1])
  requires forall i: Int :: {ks[i]} 0 <= i && i < len(ks) ==> rank(ks[i]) != rank(key)
  ensures err == nil && a == x && b != nil
  ensures bnode(a; ?ka, _, ?pa, cp, 0, cp, nx, pv) &*& bnode(b; ?kb, _, ?pb, cp, 0, cp, nil, nil) &*& b.no_dup |-> _
  ensures let i = lowk(ks, rank(key)) &*& app(ka, kb) == ins(ks, i, key) && app(pa, pb) == ins(ps, i, ptr) && len(ka) > 0 && len(kb) > 0 && len(pa) == len(ka) && len(pb) == len(kb)
  use lowks, lowk_spec, lowk_hd, cuts
  tags C16 C17 C18
}

// The place after (before) place i of a leaf: in the same leaf if there is
// one, else the first (last) place of the next leaf that is not empty.
func bptree.next_location(i, leaf)(j, l, end) {
  requires set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& let p = posof(xs, leaf) &*& 0 <= p && p < len(xs) && xs[p] == leaf && bplinks(xs, NX, PV) && -1 <= i && i < MAXLEN
  ensures set(leaf, xs; ES, CP, NX, PV)
  ensures end ==> j == -1 && l == nil && i + 1 >= len(ES[leaf]) && (forall t: Int :: {xs[t]} p < t && t < len(xs) ==> len(ES[xs[t]]) == 0)
  ensures !end ==> (let q = posof(xs, l) in p <= q && q < len(xs) && xs[q] == l && 0 <= j && j < len(ES[l]) && trig(ES[l][j])
    && (q == p ? j == i + 1 : j == 0 && i + 1 >= len(ES[leaf]) && (forall t: Int :: {xs[t]} p < t && t < q ==> len(ES[xs[t]]) == 0)))
  loop 1 {
    inv set(leaf, xs; ES, CP, NX, PV) &*& let q = posof(xs, leaf) &*& p <= q && q < len(xs) && xs[q] == leaf && j >= 0
    inv q == p ? j == i + 1 : j == 0 && i + 1 >= len(ES[xs[p]]) && (forall t: Int :: {xs[t]} p < t && t < q ==> len(ES[xs[t]]) == 0)
    decreases len(xs) - q
  }
  use zips
  tags C16 C17 C18
}
func bptree.prev_location(i, leaf)(j, l, end) {
  requires set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& let p = posof(xs, leaf) &*& 0 <= p && p < len(xs) && xs[p] == leaf && bplinks(xs, NX, PV) && 0 <= i && i <= len(ES[leaf])
  ensures set(leaf, xs; ES, CP, NX, PV)
  ensures end ==> j == -1 && l == nil && i == 0 && (forall t: Int :: {xs[t]} 0 <= t && t < p ==> len(ES[xs[t]]) == 0)
  ensures !end ==> (let q = posof(xs, l) in 0 <= q && q <= p && xs[q] == l && 0 <= j && j < len(ES[l]) && trig(ES[l][j])
    && (q == p ? j == i - 1 : j == len(ES[l]) - 1 && i == 0 && (forall t: Int :: {xs[t]} q < t && t < p ==> len(ES[xs[t]]) == 0)))
  loop 1 {
    inv set(leaf, xs; ES, CP, NX, PV) &*& let q = posof(xs, leaf) &*& 0 <= q && q <= p && xs[q] == leaf && j < len(ES[leaf])
    inv q == p ? j == i - 1 : j == len(ES[leaf]) - 1 && i == 0 && (forall t: Int :: {xs[t]} q < t && t < p ==> len(ES[xs[t]]) == 0)
    decreases q
  }
  use zips
  tags C16 C17 C18
}

// the keys of a leaf are in order and none of them is nil
opaque okes(es: Seq<KV>): Bool = (forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> es[i].k != nil) && (forall i: Int, j: Int :: {es[i], es[j]} 0 <= i && i < j && j < len(es) ==> rank(es[i].k) <= rank(es[j].k))
group okess
lemma okes_zip(ks: Seq<Val>, vs: Seq<Val>) use okes, zips : {okes(zip(ks, vs))} okes(zip(ks, vs)) ==> nonnil(ks) && sortedq(ks, true)
  by { okes(zip(ks, vs)) ==> (forall i: Int :: {ks[i]} 0 <= i && i < len(ks) ==> zip(ks, vs)[i].k != nil);
       okes(zip(ks, vs)) ==> (forall i: Int, j: Int :: {ks[i], ks[j]} 0 <= i && i < j && j < len(ks) ==> rank(zip(ks, vs)[i].k) <= rank(zip(ks, vs)[j].k)) }
def under(es: Seq<KV>, n: Int, r: Int): Bool = forall m: Int :: {es[m]} 0 <= m && m < n ==> rank(es[m].k) < r
// The first place from leaf x on whose key is not below the key, or the last
// place of the last leaf if every key is below it.
func bptree.(*BpNode).leaf_get_start(x, key)(i, l) {
  requires key != nil &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& let p = posof(xs, x) &*& 0 <= p && p < len(xs) && xs[p] == x && bplinks(xs, NX, PV)
  requires forall t: Int :: {ES[xs[t]]} p <= t && t < len(xs) ==> okes(ES[xs[t]])
  decreases len(xs) - p
  ensures set(leaf, xs; ES, CP, NX, PV) &*& let q = posof(xs, l) &*& p <= q && q < len(xs) && xs[q] == l && 0 <= i && under(ES[l], i, rank(key))
  ensures forall t: Int :: {ES[xs[t]]} p <= t && t < q ==> under(ES[xs[t]], len(ES[xs[t]]), rank(key))
  ensures i < len(ES[l]) && rank(ES[l][i].k) >= rank(key) || q == len(xs) - 1 && under(ES[l], len(ES[l]), rank(key)) && i == (len(ES[l]) == 0 ? 0 : len(ES[l]) - 1)
  use zips, okess
  tags C16 C17 C18
}

// ------------------------------------------------------------ lookups in a tree
// a leaf that an inner node points to, and the key it is found by
data LF = LF(x: *bptree.BpNode, r: Int)
opaque catl(ps: Seq<*bptree.BpNode>, S: Array<*bptree.BpNode,Seq<LF>>): Seq<LF> =
  len(ps) <= 0 ? empty<LF> : app(catl(take(ps, len(ps) - 1), S), S[ps[len(ps) - 1]])
group catls
lemma catl_one(ps: Seq<*bptree.BpNode>, S: Array<*bptree.BpNode,Seq<LF>>) use catl : {catl(ps, S)} len(ps) == 1 ==> catl(ps, S) == S[ps[0]]
  by { len(ps) == 1 ==> catl(take(ps, 0), S) == empty<LF> }
lemma catl_app(a: Seq<*bptree.BpNode>, b: Seq<*bptree.BpNode>, S: Array<*bptree.BpNode,Seq<LF>>) induct b use catl : {catl(app(a, b), S)} catl(app(a, b), S) == app(catl(a, S), catl(b, S))
  by { len(b) > 0 ==> seqeq(take(app(a, b), len(app(a, b)) - 1), app(a, take(b, len(b) - 1))); len(b) == 0 ==> app(a, b) == a }
lemma catl_split(ps: Seq<*bptree.BpNode>, S: Array<*bptree.BpNode,Seq<LF>>, i: Int) use catl_app, catl_one : {catl(ps, S), S[ps[i]]} 0 <= i && i < len(ps) ==>
  catl(ps, S) == app(catl(take(ps, i), S), app(S[ps[i]], catl(drop(ps, i + 1), S)))
  by { 0 <= i && i < len(ps) ==> seqeq(ps, app(take(ps, i), app(unit(ps[i]), drop(ps, i + 1)))) }
lemma catl_first(ps: Seq<*bptree.BpNode>, S: Array<*bptree.BpNode,Seq<LF>>) use catl, catl_split : {catl(ps, S)} len(ps) > 0 && len(S[ps[0]]) > 0 ==> len(catl(ps, S)) > 0 && catl(ps, S)[0] == S[ps[0]][0]
  by { len(ps) > 0 ==> catl(take(ps, 0), S) == empty<LF>; len(ps) > 0 ==> catl(ps, S) == app(catl(take(ps, 0), S), app(S[ps[0]], catl(drop(ps, 1), S))) }
lemma catl_last(ps: Seq<*bptree.BpNode>, S: Array<*bptree.BpNode,Seq<LF>>) use catl : {catl(ps, S)} len(ps) > 0 && len(S[ps[len(ps) - 1]]) > 0 ==> len(catl(ps, S)) > 0 && catl(ps, S)[len(catl(ps, S)) - 1] == S[ps[len(ps) - 1]][len(S[ps[len(ps) - 1]]) - 1]

def before(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, n: Int, r: Int): Bool = forall t: Int :: {ES[xs[t]]} 0 <= t && t < n ==> under(ES[xs[t]], len(ES[xs[t]]), r)
// the leaves are in the chain, and what comes before one of them is below the key it is found by
opaque goods(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, s: Seq<LF>): Bool =
  forall j: Int :: {s[j]} 0 <= j && j < len(s) ==> 0 <= posof(xs, s[j].x) && posof(xs, s[j].x) < len(xs) && xs[posof(xs, s[j].x)] == s[j].x && before(xs, ES, posof(xs, s[j].x), s[j].r)
group goodl
lemma goods_at(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, s: Seq<LF>, j: Int) use goods : {goods(xs, ES, s), s[j]} goods(xs, ES, s) && 0 <= j && j < len(s) ==>
  0 <= posof(xs, s[j].x) && posof(xs, s[j].x) < len(xs) && xs[posof(xs, s[j].x)] == s[j].x && before(xs, ES, posof(xs, s[j].x), s[j].r)
lemma goods_sub(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, a: Seq<LF>, m: Seq<LF>, b: Seq<LF>) use goods : {goods(xs, ES, app(a, app(m, b)))} goods(xs, ES, app(a, app(m, b))) ==> goods(xs, ES, m)
  by { forall j: Int :: {m[j]} 0 <= j && j < len(m) ==> m[j] == app(a, app(m, b))[len(a) + j] }

// a tree over leaves that are kept in a chain
pred bt(x: *bptree.BpNode; h: Int, s: Seq<LF>) {
  case h == 0 => x.no_dup |-> _ &*& len(s) == 1 && s[0].x == x
  case h > 0 => x.no_dup |-> _ &*& bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, _, _) &*& set(bt, ps; ?H, ?S)
    &*& pc > 0 && len(ps) == len(ks) && len(ks) > 0 && nonnil(ks) && sortedq(ks, true) &*& s := catl(ps, S)
    &*& (forall i: Int :: {ps[i]} {ks[i]} 0 <= i && i < len(ps) ==> H[ps[i]] == h - 1 && len(S[ps[i]]) > 0 && rank(ks[i]) == S[ps[i]][0].r)
  fact x != nil && h >= 0 && len(s) > 0
  use catl_first
}
func bptree.(*BpNode).left_most_leaf(x)(l) {
  requires bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& goods(xs, ES, s)
  decreases h
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& l == s[0].x
  use catl_split, catl_first, goodl
  tags C16 C17 C18
}
func bptree.(*BpNode).right_most_leaf(x)(l) {
  requires bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& goods(xs, ES, s)
  decreases h
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& l == s[len(s) - 1].x
  use catl_split, catl_last, goodl
  tags C16 C17 C18
}
// The first place of the chain whose key is not below the key, or its last
// place if every key is below it.
func bptree.(*BpNode).get_start(x, key)(i, l) {
  requires key != nil &*& bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && goods(xs, ES, s) && before(xs, ES, posof(xs, s[0].x), rank(key))
  requires forall t: Int :: {ES[xs[t]]} 0 <= t && t < len(xs) ==> okes(ES[xs[t]])
  decreases 2 * h + 1
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& let q = posof(xs, l) &*& 0 <= q && q < len(xs) && xs[q] == l && 0 <= i && under(ES[l], i, rank(key)) && before(xs, ES, q, rank(key))
  ensures i < len(ES[l]) && rank(ES[l][i].k) >= rank(key) || q == len(xs) - 1 && under(ES[l], len(ES[l]), rank(key)) && i == (len(ES[l]) == 0 ? 0 : len(ES[l]) - 1)
  use zips, goodl
  tags C16 C17 C18
}
func bptree.(*BpNode).internal_get_start(x, key)(i, l) {
  requires key != nil &*& bt(x; ?h, ?s) &*& h > 0 &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && goods(xs, ES, s) && before(xs, ES, posof(xs, s[0].x), rank(key))
  requires forall t: Int :: {ES[xs[t]]} 0 <= t && t < len(xs) ==> okes(ES[xs[t]])
  decreases 2 * h
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& let q = posof(xs, l) &*& 0 <= q && q < len(xs) && xs[q] == l && 0 <= i && under(ES[l], i, rank(key)) && before(xs, ES, q, rank(key))
  ensures i < len(ES[l]) && rank(ES[l][i].k) >= rank(key) || q == len(xs) - 1 && under(ES[l], len(ES[l]), rank(key)) && i == (len(ES[l]) == 0 ? 0 : len(ES[l]) - 1)
  use catl_split, catl_first, goodl
  tags C16 C17 C18
}

// the entries of a chain of leaves
opaque lents(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>): Seq<KV> =
  len(xs) <= 0 ? empty<KV> : app(lents(take(xs, len(xs) - 1), ES), ES[xs[len(xs) - 1]])
lemma lents_one(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>) use lents : {lents(xs, ES)} len(xs) == 1 ==> lents(xs, ES) == ES[xs[0]]
  by { len(xs) == 1 ==> lents(take(xs, 0), ES) == empty<KV> }
lemma lents_app(a: Seq<*bptree.BpNode>, b: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>) induct b use lents : {lents(app(a, b), ES)} lents(app(a, b), ES) == app(lents(a, ES), lents(b, ES))
  by { len(b) > 0 ==> seqeq(take(app(a, b), len(app(a, b)) - 1), app(a, take(b, len(b) - 1))); len(b) == 0 ==> app(a, b) == a }
lemma lents_split(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, q: Int) use lents_app, lents_one : {lents(xs, ES), ES[xs[q]]} 0 <= q && q < len(xs) ==>
  lents(xs, ES) == app(lents(take(xs, q), ES), app(ES[xs[q]], lents(drop(xs, q + 1), ES)))
  by { 0 <= q && q < len(xs) ==> seqeq(xs, app(take(xs, q), app(unit(xs[q]), drop(xs, q + 1)))) }
lemma lbk_full(es: Seq<KV>, r: Int) induct es use lbk, lbks : {lbk(es, r)} lbk(es, r) == len(es) ==> under(es, len(es), r)
  by { len(es) > 0 && lbk(es, r) == len(es) ==> lbk(take(es, len(es) - 1), r) == len(es) - 1 && rank(es[len(es) - 1].k) < r;
       len(es) > 0 && lbk(es, r) == len(es) ==> (forall m: Int :: {es[m]} 0 <= m && m < len(es) - 1 ==> rank(take(es, len(es) - 1)[m].k) < r) }
group chains
lemma lents_under(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, r: Int) induct xs use lents, lbks : {lbk(lents(xs, ES), r)} before(xs, ES, len(xs), r) ==> lbk(lents(xs, ES), r) == len(lents(xs, ES))
  by { len(xs) > 0 && before(xs, ES, len(xs), r) ==> before(take(xs, len(xs) - 1), ES, len(xs) - 1, r) && under(ES[xs[len(xs) - 1]], len(ES[xs[len(xs) - 1]]), r);
       len(xs) > 0 && before(xs, ES, len(xs), r) ==> lbk(lents(take(xs, len(xs) - 1), ES), r) == len(lents(take(xs, len(xs) - 1), ES)) }
group chainl
lemma lbk_cut(es: Seq<KV>, r: Int, p: Int) use lbks, okes : {lbk(es, r), es[p]} 0 <= p && p < len(es) && okes(es) && under(es, p, r) && rank(es[p].k) >= r ==> lbk(es, r) == p
  by { 0 <= p && p < len(es) ==> seqeq(es, app(take(es, p), drop(es, p)));
       0 <= p && p < len(es) && under(es, p, r) ==> lbk(take(es, p), r) == p;
       0 <= p && p < len(es) && okes(es) && rank(es[p].k) >= r ==> (forall j: Int :: {drop(es, p)[j]} 0 <= j && j < len(es) - p ==> rank(drop(es, p)[j].k) >= r);
       0 <= p && p < len(es) && okes(es) && rank(es[p].k) >= r ==> lbk(drop(es, p), r) == 0 }
group chains
lemma okes_leaf(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, t: Int) use lents_split, okes : {okes(lents(xs, ES)), ES[xs[t]]} okes(lents(xs, ES)) && 0 <= t && t < len(xs) ==> okes(ES[xs[t]])
  by { 0 <= t && t < len(xs) ==> (forall m: Int :: {ES[xs[t]][m]} 0 <= m && m < len(ES[xs[t]]) ==> ES[xs[t]][m] == lents(xs, ES)[len(lents(take(xs, t), ES)) + m]) }
lemma start_at(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, q: Int, i: Int, r: Int) use lents_split, lents_under, lbk_cut, lbk_full : {lbk(lents(xs, ES), r), ES[xs[q]][i]}
  0 <= q && q < len(xs) && 0 <= i && i < len(ES[xs[q]]) && okes(lents(xs, ES)) && before(xs, ES, q, r) && under(ES[xs[q]], i, r) && rank(ES[xs[q]][i].k) >= r ==>
  lbk(lents(xs, ES), r) < len(lents(xs, ES)) && lents(xs, ES)[lbk(lents(xs, ES), r)] == ES[xs[q]][i]
  by { 0 <= q && q < len(xs) && before(xs, ES, q, r) ==> before(take(xs, q), ES, q, r);
       0 <= q && q < len(xs) && before(xs, ES, q, r) ==> lbk(lents(take(xs, q), ES), r) == len(lents(take(xs, q), ES));
       0 <= q && q < len(xs) && before(xs, ES, q, r) ==> under(lents(take(xs, q), ES), len(lents(take(xs, q), ES)), r);
       0 <= q && q < len(xs) && 0 <= i && i < len(ES[xs[q]]) ==> lents(xs, ES)[len(lents(take(xs, q), ES)) + i] == ES[xs[q]][i];
       0 <= q && q < len(xs) && 0 <= i && i < len(ES[xs[q]]) && before(xs, ES, q, r) && under(ES[xs[q]], i, r) ==> under(lents(xs, ES), len(lents(take(xs, q), ES)) + i, r) }

// a tree and its entries, in key order (and its height and chain of leaves)
pred bplus(t: *bptree.BpTree; es: Seq<KV>, h: Int, xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, NX: Array<*bptree.BpNode,*bptree.BpNode>, PV: Array<*bptree.BpNode,*bptree.BpNode>) {
  case h == 0 => t.root |-> ?x &*& t.size |-> ?n &*& xs := unit(x) &*& set(leaf, unit(x); ?E, ?CP, ?N, ?P) &*& ES := E &*& NX := N &*& PV := P &*& bt(x; 0, unit(LF(x, len(E[x]) > 0 ? rank(E[x][0].k) : 0)))
    &*& bplinks(unit(x), N, P) && goods(unit(x), E, unit(LF(x, len(E[x]) > 0 ? rank(E[x][0].k) : 0))) &*& es := lents(unit(x), E) &*& okes(lents(unit(x), E)) && n == len(lents(unit(x), E))
  case h > 0 => t.root |-> ?x &*& t.size |-> ?n &*& bt(x; h, ?s) &*& set(leaf, xs; ?E, ?CP, ?N, ?P) &*& ES := E &*& NX := N &*& PV := P
    &*& bplinks(xs, N, P) && goods(xs, E, s) && len(xs) > 0 && posof(xs, s[0].x) == 0
    &*& es := lents(xs, E) &*& okes(lents(xs, E)) && n == len(lents(xs, E))
    &*& (forall t: Int :: {E[xs[t]]} 0 <= t && t < len(xs) ==> len(E[xs[t]]) > 0)
  fact t != nil && okes(es) && h >= 0
  use lents_one
}
func bptree.(*BpTree).Size(t)(r) {
  reads bplus(t; ?es, _, _, _, _, _)
  ensures r == len(es)
  tags C16 C17
}
func bptree.(*BpTree).Has(t, key)(r) {
  requires key != nil &*& bplus(t; ?es, ?h, ?xs, ?ES, ?NX, ?PV)
  ensures bplus(t; es, h, xs, ES, NX, PV) &*& r == shas(es, rank(key))
  use zip_len, zip_at, okes, okes_leaf, lents_under, start_at, goods_at, shas, lbk_range, lents_one
  tags C16 C17 C18
}
func bptree.NewBpTree(node_size)(t) {
  requires node_size >= 0
  ensures bplus(t; empty<KV>, 0, _, _, _, _)
  use zips, okes, goods, lents_one
  tags C16 C17
}
func bptree.NewBpMap(node_size)(t) {
  requires node_size >= 0
  ensures bplus(t; empty<KV>, 0, _, _, _, _)
  use zips, okes, goods, lents_one
  tags C18
}
func bptree.(*BpMap).Size(t)(r) {
  reads bplus(t; ?es, _, _, _, _, _)
  ensures r == len(es)
  tags C18
}
func bptree.(*BpMap).Has(t, key)(r) {
  requires key != nil &*& bplus(t; ?es, ?h, ?xs, ?ES, ?NX, ?PV)
  ensures bplus(t; es, h, xs, ES, NX, PV) &*& r == shas(es, rank(key))
  tags C18
}
func bptree.(*BpMap).Get(t, key)(v, err) {
  requires key != nil &*& bplus(t; ?es, ?h, ?xs, ?ES, ?NX, ?PV)
  ensures bplus(t; es, h, xs, ES, NX, PV) &*& (err == nil) == shas(es, rank(key)) && (err == nil ? v == es[lbk(es, rank(key))].v : v == nil)
  use zip_len, zip_at, okes, okes_leaf, lents_under, start_at, goods_at, shas, lbk_range, lents_one
  tags C18
}
lemma lents_gaps(ys: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, p: Int) induct ys use lents : {lents(ys, ES), lents(take(ys, p), ES)} 0 <= p && p < len(ys) && (forall t: Int :: {ys[t]} p < t && t < len(ys) ==> len(ES[ys[t]]) == 0) ==>
  len(lents(ys, ES)) == len(lents(take(ys, p), ES)) + len(ES[ys[p]])
  by { len(ys) > 0 && p < len(ys) - 1 && 0 <= p ==> seqeq(take(take(ys, len(ys) - 1), p), take(ys, p));
       len(ys) > 0 && p < len(ys) - 1 && 0 <= p && (forall t: Int :: {ys[t]} p < t && t < len(ys) ==> len(ES[ys[t]]) == 0) ==> len(ES[ys[len(ys) - 1]]) == 0 && (forall t: Int :: {take(ys, len(ys) - 1)[t]} p < t && t < len(ys) - 1 ==> len(ES[take(ys, len(ys) - 1)[t]]) == 0);
       len(ys) > 0 && p < len(ys) - 1 && 0 <= p && (forall t: Int :: {ys[t]} p < t && t < len(ys) ==> len(ES[ys[t]]) == 0) ==> len(lents(take(ys, len(ys) - 1), ES)) == len(lents(take(take(ys, len(ys) - 1), p), ES)) + len(ES[ys[p]]) }
lemma lents_gap(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, p: Int, q: Int) use lents_gaps : {lents(take(xs, q), ES), lents(take(xs, p), ES)} 0 <= p && p < q && q <= len(xs) && (forall t: Int :: {xs[t]} p < t && t < q ==> len(ES[xs[t]]) == 0) ==>
  len(lents(take(xs, q), ES)) == len(lents(take(xs, p), ES)) + len(ES[xs[p]])
  by { 0 <= p && p < q && q <= len(xs) ==> seqeq(take(take(xs, q), p), take(xs, p));
       0 <= p && p < q && q <= len(xs) && (forall t: Int :: {xs[t]} p < t && t < q ==> len(ES[xs[t]]) == 0) ==> (forall t: Int :: {take(xs, q)[t]} p < t && t < q ==> len(ES[take(xs, q)[t]]) == 0) }
lemma lents_place(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, q: Int, i: Int) use lents_split : {lents(xs, ES), ES[xs[q]][i]} 0 <= q && q < len(xs) && 0 <= i && i < len(ES[xs[q]]) ==>
  len(lents(take(xs, q), ES)) + i < len(lents(xs, ES)) && lents(xs, ES)[len(lents(take(xs, q), ES)) + i] == ES[xs[q]][i]
lemma start_here(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, q: Int, i: Int, r: Int) use lents_split, lents_under, lbk_cut, lbk_full, lents_place : {lbk(lents(xs, ES), r), ES[xs[q]][i]}
  0 <= q && q < len(xs) && 0 <= i && i < len(ES[xs[q]]) && okes(lents(xs, ES)) && before(xs, ES, q, r) && under(ES[xs[q]], i, r) && rank(ES[xs[q]][i].k) >= r ==>
  lbk(lents(xs, ES), r) == len(lents(take(xs, q), ES)) + i
  by { 0 <= q && q < len(xs) && before(xs, ES, q, r) ==> before(take(xs, q), ES, q, r);
       0 <= q && q < len(xs) && before(xs, ES, q, r) ==> lbk(lents(take(xs, q), ES), r) == len(lents(take(xs, q), ES));
       0 <= q && q < len(xs) && before(xs, ES, q, r) ==> under(lents(take(xs, q), ES), len(lents(take(xs, q), ES)), r);
       0 <= q && q < len(xs) && 0 <= i && i < len(ES[xs[q]]) && before(xs, ES, q, r) && under(ES[xs[q]], i, r) ==> under(lents(xs, ES), len(lents(take(xs, q), ES)) + i, r) }
lemma lbk_under(es: Seq<KV>, r: Int) induct es use lbk, lbks, okes : {okes(es), lbk(es, r)} okes(es) ==> under(es, lbk(es, r), r)
  by { len(es) > 0 && okes(es) ==> okes(take(es, len(es) - 1));
       len(es) > 0 && okes(es) && rank(es[len(es) - 1].k) < r ==> under(es, len(es), r);
       len(es) > 0 ==> lbk(es, r) == lbk(take(es, len(es) - 1), r) + (rank(es[len(es) - 1].k) < r ? 1 : 0);
       len(es) > 0 && okes(es) ==> (forall m: Int :: {es[m]} 0 <= m && m < lbk(take(es, len(es) - 1), r) ==> rank(take(es, len(es) - 1)[m].k) < r) }
lemma lbk_over(es: Seq<KV>, r: Int, m: Int) induct es use lbk, lbks, okes, lbk_under : {okes(es), lbk(es, r), es[m]} okes(es) && lbk(es, r) <= m && m < len(es) ==> rank(es[m].k) >= r
  by { len(es) > 0 && okes(es) ==> okes(take(es, len(es) - 1));
       len(es) > 0 ==> lbk(es, r) == lbk(take(es, len(es) - 1), r) + (rank(es[len(es) - 1].k) < r ? 1 : 0);
       len(es) > 0 && okes(es) && rank(es[len(es) - 1].k) < r ==> under(es, len(es), r);
       len(es) > 0 && okes(es) && rank(es[len(es) - 1].k) < r ==> lbk(es, r) == len(es) }
// c entries with the key from the first one not below it on
opaque krun(es: Seq<KV>, r: Int, c: Int): Bool = 0 <= c && lbk(es, r) + c <= len(es) && (forall m: Int :: {es[m]} lbk(es, r) <= m && m < lbk(es, r) + c ==> rank(es[m].k) == r)
group kruns
lemma krun_zero(es: Seq<KV>, r: Int) use krun, lbk_range : {krun(es, r, 0)} krun(es, r, 0)
lemma krun_more(es: Seq<KV>, r: Int, c: Int, d: Int) use krun : {krun(es, r, c), krun(es, r, d)} krun(es, r, c) && d == c + 1 && lbk(es, r) + c < len(es) && rank(es[lbk(es, r) + c].k) == r ==> krun(es, r, d)
lemma krun_range(es: Seq<KV>, r: Int, c: Int) use krun : {krun(es, r, c)} krun(es, r, c) ==> 0 <= c && lbk(es, r) + c <= len(es)
lemma krun_end(es: Seq<KV>, r: Int, c: Int, r2: Int) use krun, okes, lbk_under, lbk_over, lbks : {krun(es, r, c), lbk(es, r2)} krun(es, r, c) && okes(es) && r2 == r + 1 && (lbk(es, r) + c == len(es) || rank(es[lbk(es, r) + c].k) != r) ==> lbk(es, r2) == lbk(es, r) + c
  by { krun(es, r, c) ==> seqeq(es, app(take(es, lbk(es, r) + c), drop(es, lbk(es, r) + c)));
       krun(es, r, c) && okes(es) && r2 == r + 1 ==> (forall m: Int :: {take(es, lbk(es, r) + c)[m]} 0 <= m && m < lbk(es, r) + c ==> rank(take(es, lbk(es, r) + c)[m].k) < r2);
       krun(es, r, c) && okes(es) && r2 == r + 1 ==> lbk(take(es, lbk(es, r) + c), r2) == lbk(es, r) + c;
       krun(es, r, c) && okes(es) && r2 == r + 1 && (lbk(es, r) + c == len(es) || rank(es[lbk(es, r) + c].k) != r) ==> (forall m: Int :: {drop(es, lbk(es, r) + c)[m]} 0 <= m && m < len(es) - (lbk(es, r) + c) ==> rank(drop(es, lbk(es, r) + c)[m].k) >= r2);
       krun(es, r, c) && okes(es) && r2 == r + 1 && (lbk(es, r) + c == len(es) || rank(es[lbk(es, r) + c].k) != r) ==> lbk(drop(es, lbk(es, r) + c), r2) == 0 }
// how many entries have the key
func bptree.(*BpTree).Count(t, key)(r) {
  requires key != nil &*& bplus(t; ?es, ?h, ?xs, ?ES, ?NX, ?PV)
  ensures bplus(t; es, h, xs, ES, NX, PV) &*& r == lbk(es, rank(key) + 1) - lbk(es, rank(key))
  loop 1 {
    inv set(leaf, xs; ES, ?CP, NX, PV) &*& krun(es, rank(key), count)
    inv end ==> lbk(es, rank(key)) + count == len(es)
    inv !end ==> (let q = posof(xs, l) in 0 <= q && q < len(xs) && xs[q] == l && 0 <= j && j < len(ES[l])
      && (len(lents(take(xs, q), ES)) + j == lbk(es, rank(key)) + count && lbk(es, rank(key)) + count < len(es) && es[lbk(es, rank(key)) + count] == ES[l][j] || count == 0 && rank(ES[l][j].k) < rank(key) && lbk(es, rank(key)) == len(es)))
    decreases len(es) - count
  }
  use zip_len, zip_at, okes_zip, okes_leaf, lents_under, start_here, lents_place, lents_gap, lents_gaps, krun_zero, krun_more, krun_end, krun_range, goods_at, lbk_range
  tags C16
}

// A cursor over the places of a chain of leaves, those of the entries r being
// still to come.
lemma lents_zero(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>) use lents : {lents(xs, ES)} len(lents(take(xs, 0), ES)) == 0
def off(xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, l: *bptree.BpNode): Int = len(lents(take(xs, posof(xs, l)), ES))
def inchain(xs: Seq<*bptree.BpNode>, l: *bptree.BpNode): Bool = 0 <= posof(xs, l) && posof(xs, l) < len(xs) && xs[posof(xs, l)] == l
def span(es: Seq<KV>, a: Int, b: Int): Seq<KV> = a < b ? drop(take(es, b), a) : empty<KV>
pred lociter(f: Fn; xs: Seq<*bptree.BpNode>, ES: Array<*bptree.BpNode,Seq<KV>>, r: Seq<KV>) {
  case closure bptree.(*BpNode).all$1 =>
    *j |-> ?j0 &*& *l |-> ?l0 &*& *end |-> ?e &*& *li |-> f &*& r := (e ? empty<KV> : drop(lents(xs, ES), off(xs, ES, l0) + j0))
    &*& (e || inchain(xs, l0) && 0 <= j0 && j0 < len(ES[l0])) && trig(ES[l0][j0])
  case closure bptree.(*BpNode).all_backward$1 =>
    *j |-> ?j0 &*& *l |-> ?l0 &*& *end |-> ?e &*& *li |-> f &*& r := (e ? empty<KV> : rev(take(lents(xs, ES), off(xs, ES, l0) + j0 + 1)))
    &*& (e || inchain(xs, l0) && 0 <= j0 && j0 < len(ES[l0])) && trig(ES[l0][j0])
  case closure bptree.(*BpNode).forward$1 =>
    *j |-> ?j0 &*& *l |-> ?l0 &*& *end |-> ?e &*& *li |-> f &*& *to |-> ?k &*& k != nil &*& r := (e ? empty<KV> : span(lents(xs, ES), off(xs, ES, l0) + j0 + 1, lbk(lents(xs, ES), rank(k) + 1)))
    &*& (e || inchain(xs, l0) && -1 <= j0 && j0 < len(ES[l0])) && okes(lents(xs, ES))
  case closure bptree.(*BpNode).backward$1 =>
    *j |-> ?j0 &*& *l |-> ?l0 &*& *end |-> ?e &*& *li |-> f &*& *to |-> ?k &*& k != nil &*& r := rev(e ? empty<KV> : span(lents(xs, ES), lbk(lents(xs, ES), rank(k)), off(xs, ES, l0) + j0 + 1))
    &*& (e || inchain(xs, l0) && 0 <= j0 && j0 < len(ES[l0])) && okes(lents(xs, ES)) && trig(ES[l0][j0])
  fact f != nil
}
functype bptree.loc_iterator(self)(i, leaf, next) {
  requires lociter(self; ?xs, ?ES, ?r) &*& set(leaf, xs; ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV)
  ensures set(leaf, xs; ES, CP, NX, PV)
  ensures len(r) > 0 ? next != nil &*& lociter(next; xs, ES, drop(r, 1)) &*& inchain(xs, leaf) && 0 <= i && i < len(ES[leaf]) && ES[leaf][i] == r[0] : next == nil
}
func bptree.(*BpNode).all$1 implements bptree.loc_iterator {
  use lents_gap, lents_gaps, lents_zero, lents_place
  tags C16 C17 C18
}
func bptree.(*BpNode).all_backward$1 implements bptree.loc_iterator {
  use lents_gap, lents_zero, lents_place
  tags C16
}
func bptree.(*BpNode).forward$1 implements bptree.loc_iterator {
  use zip_len, zip_at, lents_gap, lents_gaps, lents_zero, lents_place, okes_leaf, okes, lbk_range, lbk_under, lbk_over
  tags C17
}
func bptree.(*BpNode).all(x)(li) {
  requires bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && goods(xs, ES, s) && posof(xs, s[0].x) == 0
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& lociter(li; xs, ES, lents(xs, ES))
  use lents_gap, lents_gaps, lents_zero, lents_place, goods_at
  tags C16 C17 C18
}
func bptree.(*BpNode).all_backward(x)(li) {
  requires bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && goods(xs, ES, s) && posof(xs, s[0].x) == 0
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& lociter(li; xs, ES, rev(lents(xs, ES)))
  loop 1 {
    inv set(leaf, xs; ES, CP, NX, PV) &*& inchain(xs, l)
    decreases len(xs) - posof(xs, l)
  }
  use zip_len, lents_gap, lents_gaps, lents_zero, lents_place, goods_at
  tags C16
}
func bptree.(*BpNode).forward(x, from, to)(li) {
  requires from != nil && to != nil &*& bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && goods(xs, ES, s) && posof(xs, s[0].x) == 0 && okes(lents(xs, ES))
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& lociter(li; xs, ES, span(lents(xs, ES), lbk(lents(xs, ES), rank(from)), lbk(lents(xs, ES), rank(to) + 1)))
  use zip_len, zip_at, start_here, lents_under, lents_gap, lents_gaps, lents_zero, lents_place, okes_leaf, okes, lbk_range, goods_at
  tags C17
}

pred kviter(f: Fn; r: Seq<KV>) {
  case closure bptree.(*BpTree).Iterate$1 =>
    *li |-> ?g &*& *kvi |-> f &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) &*& lociter(g; xs, ES, ?q) &*& r := q
  case closure bptree.(*BpTree).Backward$1 =>
    *li |-> ?g &*& *kvi |-> f &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) &*& lociter(g; xs, ES, ?q) &*& r := q
}
func bptree.(*BpTree).Iterate$1 implements types.KVIterator {
  use zip_len, zip_at
  tags C16 C17
}
func bptree.(*BpTree).Backward$1 implements types.KVIterator {
  use zip_len, zip_at
  tags C16
}
func bptree.(*BpTree).Iterate(t)(it) {
  requires bplus(t; ?es, _, _, _, _, _)
  ensures kviter(it; es)
  use lents_one
  tags C16 C17
}
func bptree.(*BpTree).Backward(t)(it) {
  requires bplus(t; ?es, _, _, _, _, _)
  ensures kviter(it; rev(es))
  use lents_one
  tags C16
}
func bptree.(*BpMap).Iterate(t)(it) {
  requires bplus(t; ?es, _, _, _, _, _)
  ensures kviter(it; es)
  tags C18
}
// The last place of the key, or that of the first greater key, or the last
// place of all.
func bptree.(*BpNode).get_end(x, key)(i, l) {
  requires key != nil &*& bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && goods(xs, ES, s) && posof(xs, s[0].x) == 0 && okes(lents(xs, ES))
  requires forall t: Int :: {ES[xs[t]]} 0 <= t && t < len(xs) ==> len(ES[xs[t]]) > 0 || len(xs) == 1
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& inchain(xs, l) && 0 <= i && trig(ES[l][i])
  ensures len(ES[l]) == 0 ? len(lents(xs, ES)) == 0 : i < len(ES[l]) && lbk(lents(xs, ES), rank(key) + 1) == off(xs, ES, l) + i + (rank(ES[l][i].k) <= rank(key) ? 1 : 0)
  loop 1 {
    inv set(leaf, xs; ES, CP, NX, PV) &*& inchain(xs, pleaf) && 0 <= pi && trig(ES[pleaf][pi]) && trig(lbk(lents(xs, ES), rank(key)))
    inv !end ==> inchain(xs, leaf) && 0 <= i && trig(ES[leaf][i])
    inv !end && pi == i && pleaf == leaf
      && (len(ES[leaf]) == 0 ? len(lents(xs, ES)) == 0 : i < len(ES[leaf]) && (off(xs, ES, leaf) + i == lbk(lents(xs, ES), rank(key)) && krun(lents(xs, ES), rank(key), 0)
        || krun(lents(xs, ES), rank(key), 0) && rank(ES[leaf][i].k) < rank(key) && lbk(lents(xs, ES), rank(key)) == len(lents(xs, ES)) && off(xs, ES, leaf) + i + 1 == len(lents(xs, ES))))
      || pi < len(ES[pleaf]) && rank(ES[pleaf][pi].k) == rank(key) && krun(lents(xs, ES), rank(key), off(xs, ES, pleaf) + pi + 1 - lbk(lents(xs, ES), rank(key)))
        && (end ? off(xs, ES, pleaf) + pi + 1 == len(lents(xs, ES)) : i < len(ES[leaf]) && off(xs, ES, leaf) + i == off(xs, ES, pleaf) + pi + 1)
    decreases end ? 0 : len(lents(xs, ES)) - off(xs, ES, leaf) - i + 1
  }
  use zip_len, zip_at, okes_zip, okes_leaf, lents_under, start_here, lents_place, lents_gap, lents_gaps, lents_zero, kruns, goods_at, lbk_range
  tags C17
}
func bptree.(*BpNode).backward$1 implements bptree.loc_iterator {
  use zip_len, zip_at, lents_gap, lents_zero, lents_place, okes_leaf, okes, lbk_range, lbk_under, lbk_over
  tags C17
}
func bptree.(*BpNode).backward(x, from, to)(li) {
  requires from != nil && to != nil &*& bt(x; ?h, ?s) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && goods(xs, ES, s) && posof(xs, s[0].x) == 0 && okes(lents(xs, ES))
  requires forall t: Int :: {ES[xs[t]]} 0 <= t && t < len(xs) ==> len(ES[xs[t]]) > 0 || len(xs) == 1
  ensures bt(x; h, s) &*& set(leaf, xs; ES, CP, NX, PV) &*& lociter(li; xs, ES, rev(span(lents(xs, ES), lbk(lents(xs, ES), rank(to)), lbk(lents(xs, ES), rank(from) + 1))))
  use zip_len, zip_at, lents_gap, lents_zero, lents_place, okes_leaf, okes, lbk_range
  tags C17
}
pred kviter(f: Fn; r: Seq<KV>) {
  case closure bptree.(*BpTree).Range$1 =>
    *li |-> ?g &*& *kvi |-> f &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) &*& lociter(g; xs, ES, ?q) &*& r := q
}
func bptree.(*BpTree).Range$1 implements types.KVIterator {
  use zip_len, zip_at
  tags C17
}
// the entries between two keys, backwards if the first is the greater
func bptree.(*BpTree).Range(t, from, to)(it) {
  requires from != nil && to != nil &*& bplus(t; ?es, _, _, _, _, _)
  ensures kviter(it; rank(to) < rank(from) ? rev(span(es, lbk(es, rank(to)), lbk(es, rank(from) + 1))) : span(es, lbk(es, rank(from)), lbk(es, rank(to) + 1)))
  use lents_one
  tags C17
}
func bptree.(*BpTree).Find(t, key)(it) {
  requires key != nil &*& bplus(t; ?es, _, _, _, _, _)
  ensures kviter(it; span(es, lbk(es, rank(key)), lbk(es, rank(key) + 1)))
  tags C17
}

// the keys of a sequence of entries in key order, each once, without a leading p
opaque ukeys(p: Val, q: Seq<KV>): Seq<Val> =
  len(q) <= 0 ? empty<Val> : rank(q[0].k) == rank(p) ? ukeys(p, drop(q, 1)) : app(unit(q[0].k), ukeys(q[0].k, drop(q, 1)))
group ukeyl
lemma ukeys_end(p: Val, q: Seq<KV>) use ukeys : {ukeys(p, q)} len(q) == 0 ==> ukeys(p, q) == empty<Val>
lemma ukeys_same(p: Val, q: Seq<KV>) use ukeys : {ukeys(p, q)} len(q) > 0 && rank(q[0].k) == rank(p) ==> ukeys(p, q) == ukeys(p, drop(q, 1))
lemma ukeys_next(p: Val, q: Seq<KV>) use ukeys : {ukeys(p, q)} len(q) > 0 && rank(q[0].k) != rank(p) ==> len(ukeys(p, q)) > 0 && ukeys(p, q)[0] == q[0].k && drop(ukeys(p, q), 1) == ukeys(q[0].k, drop(q, 1))
  by { len(q) > 0 && rank(q[0].k) != rank(p) ==> seqeq(drop(app(unit(q[0].k), ukeys(q[0].k, drop(q, 1))), 1), ukeys(q[0].k, drop(q, 1))) }
pred kiter(f: Fn; r: Seq<Val>) {
  case closure bptree.(*BpTree).Keys$1 =>
    *li |-> ?g &*& *ki |-> f &*& *prev |-> ?p &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) &*& lociter(g; xs, ES, ?q) &*& (forall i: Int :: {q[i]} 0 <= i && i < len(q) ==> q[i].k != nil) &*& r := ukeys(p, q)
}
func bptree.(*BpTree).Keys$1 implements types.KIterator {
  use zip_len, zip_at, ukeys_end, ukeys_same, ukeys_next
  tags C16
}
func bptree.(*BpTree).Keys(t)(it) {
  requires bplus(t; ?es, _, _, _, _, _)
  ensures kiter(it; ukeys(nil, es))
  use lents_one, okes
  tags C16
}
func bptree.(*BpMap).Keys(t)(it) {
  requires bplus(t; ?es, _, _, _, _, _)
  ensures kiter(it; ukeys(nil, es))
  tags C18
}

// the last leaf of a run of leaves that hold one key only
opaque purees(es: Seq<KV>): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> rank(es[i].k) == rank(es[0].k)
lemma zip_pure(ks: Seq<Val>, vs: Seq<Val>) use purees, zip_len, zip_at : {purees(zip(ks, vs))} purees(zip(ks, vs)) == purek(ks)
  by { purees(zip(ks, vs)) ==> (forall i: Int :: {ks[i]} 0 <= i && i < len(ks) ==> rank(zip(ks, vs)[i].k) == rank(zip(ks, vs)[0].k)) }
func bptree.(*BpNode).find_end_of_pure_run(x)(e) {
  requires set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && inchain(xs, x)
  requires forall t: Int :: {ES[xs[t]]} 0 <= t && t < len(xs) ==> okes(ES[xs[t]]) && len(ES[xs[t]]) > 0
  ensures set(leaf, xs; ES, CP, NX, PV) &*& inchain(xs, e) && posof(xs, x) <= posof(xs, e)
  ensures forall t: Int :: {ES[xs[t]]} posof(xs, x) < t && t <= posof(xs, e) ==> purees(ES[xs[t]]) && rank(ES[xs[t]][0].k) == rank(ES[x][0].k)
  ensures posof(xs, e) + 1 < len(xs) ==> !(purees(ES[xs[posof(xs, e) + 1]]) && rank(ES[xs[posof(xs, e) + 1]][0].k) == rank(ES[x][0].k))
  loop 1 {
    inv set(leaf, xs; ES, CP, NX, PV) &*& inchain(xs, p) && posof(xs, x) <= posof(xs, p) && n == NX[p]
    inv forall t: Int :: {ES[xs[t]]} posof(xs, x) < t && t <= posof(xs, p) ==> purees(ES[xs[t]]) && rank(ES[xs[t]][0].k) == rank(ES[x][0].k)
    decreases len(xs) - posof(xs, p)
  }
  use zip_len, zip_at, okes_zip, zip_pure
  tags C16
}

// a leaf leaves the chain
func bptree.remove_linked_list_node(n)() {
  requires set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && inchain(xs, n)
  ensures set(leaf, rem(xs, posof(xs, n)); ES, CP, ?NX2, ?PV2) &*& bplinks(rem(xs, posof(xs, n)), NX2, PV2) &*& leaf(n; ES[n], CP[n], NX[n], PV[n])
  tags C17 C18
}

// Removal from a leaf of a map: what is asked of the value always holds.
pred always(f: Fn; u: Int) {
  case closure bptree.(*BpMap).Remove$1 => u := 0
  fact f != nil
}
functype types.WhereFunc(self, v)(r) {
  requires always(self; _)
  ensures always(self; _) &*& r
}
func bptree.(*BpMap).Remove$1 implements types.WhereFunc {
  tags C18
}
lemma srem_after(es: Seq<KV>, r: Int) use srem, shas, sortedkv, lbk_range : {srem(es, r)} sortedkv(es) && shas(es, r) ==> len(srem(es, r)) == len(es) - 1 && (lbk(es, r) < len(es) - 1 ==> srem(es, r)[lbk(es, r)] == es[lbk(es, r) + 1] && rank(srem(es, r)[lbk(es, r)].k) > r)
func bptree.(*BpNode).leaf_remove(x, key, where)(a, count, err) {
  requires key != nil &*& always(where; _) &*& set(leaf, ?xs; ?ES, ?CP, ?NX, ?PV) &*& bplinks(xs, NX, PV) && inchain(xs, x) && sortedkv(ES[x]) && nnk(ES[x])
  requires let p = posof(xs, x) &*& (p + 1 < len(xs) ==> nnk(ES[xs[p + 1]]) && (len(ES[xs[p + 1]]) > 0 ==> rank(ES[xs[p + 1]][0].k) > rank(key)))
  ensures err == nil &*& always(where; _) &*& count == (shas(ES[x], rank(key)) ? 1 : 0) && (a == nil) == (shas(ES[x], rank(key)) && len(ES[x]) == 1) && (a == nil || a == x)
  ensures a == nil
    ? set(leaf, rem(xs, p); ?ES2, ?CP2, ?NX2, ?PV2) &*& bplinks(rem(xs, p), NX2, PV2) && (forall y: *bptree.BpNode :: {ES2[y]} y != x ==> ES2[y] == ES[y])
    : set(leaf, xs; ?ES2, ?CP2, NX, PV) &*& ES2[x] == (shas(ES[x], rank(key)) ? srem(ES[x], rank(key)) : ES[x]) && (forall y: *bptree.BpNode :: {ES2[y]} y != x ==> ES2[y] == ES[y])
  loop 1 {
    inv always(where; _) &*& set(leaf, xs; ?E, ?C, NX, PV) &*& len(keys) == 0 && i >= 0 && (forall y: *bptree.BpNode :: {E[y]} y != x ==> E[y] == ES[y]) && shas(ES[x], rank(key))
    inv l == x && i == lbk(ES[x], rank(key)) && count == 0 && E[x] == ES[x] || count == 1 && i == 0 && E[x] == srem(ES[x], rank(key)) && l == NX[x]
    decreases 1 - count
  }
  loop 2 {
    inv always(where; _) &*& set(leaf, xs; ?E, ?C, NX, PV) &*& l == x && len(keys) == 0 && i == lbk(ES[x], rank(key)) && (forall y: *bptree.BpNode :: {E[y]} y != x ==> E[y] == ES[y])
    inv count == 0 && E[x] == ES[x] || count == 1 && E[x] == srem(ES[x], rank(key))
    decreases 1 - count
  }
  loop 3 {
    inv rangeindex == -1 && count == 1 &*& set(leaf, xs; ?E, ?C, NX, PV) &*& (forall y: *bptree.BpNode :: {E[y]} y != x ==> E[y] == ES[y]) && E[x] == srem(ES[x], rank(key))
    decreases 0
  }
  use zips, zipx, zip_rem, lowks, lowk_spec, srem_after, srem, shas
  tags C18
}
