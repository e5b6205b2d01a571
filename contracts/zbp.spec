// B+trees (package bptree).  Nodes first: leaves and inner nodes alike.

// a node: its keys, values and pointers, the room for each, its neighbours
pred bnode(x: *bptree.BpNode; ks: Seq<Val>, vs: Seq<Val>, ps: Seq<*bptree.BpNode>, cp: Int, vc: Int, pc: Int, nx: *bptree.BpNode, pv: *bptree.BpNode) {
  x.keys |-> ?K &*& x.values |-> ?V &*& x.pointers |-> ?P &*& x.next |-> ?n2 &*& x.prev |-> ?p2
    &*& slice(K; ?A) &*& slice(V; ?B) &*& slice(P; ?Q)
    &*& ks := arrseq(A, K.off, len(K)) &*& vs := arrseq(B, V.off, len(V)) &*& ps := arrseq(Q, P.off, len(P))
    &*& cp := K.cap &*& vc := V.cap &*& pc := P.cap &*& nx := n2 &*& pv := p2
  fact x != nil && len(ks) <= cp && len(vs) <= vc && len(ps) <= pc && cp <= MAXLEN && vc <= MAXLEN && pc <= MAXLEN
}
// all keys of the node are equal
def purek(ks: Seq<Val>): Bool = forall i: Int :: {ks[i]} 0 <= i && i < len(ks) ==> rank(ks[i]) == rank(ks[0])

func bptree.NewInternal(size)(n) {
  requires size >= 0
  ensures bnode(n; empty<Val>, empty<Val>, empty<*bptree.BpNode>, size, 0, size, nil, nil) &*& n.no_dup |-> false
  tags C16 C17 C18
}
func bptree.NewLeaf(size, no_dup)(n) {
  requires size >= 0
  ensures bnode(n; empty<Val>, empty<Val>, empty<*bptree.BpNode>, size, size, 0, nil, nil) &*& n.no_dup |-> no_dup
  tags C16 C17 C18
}
func bptree.(*BpNode).Full(x)(r) {
  reads bnode(x; ?ks, _, _, ?cp, _, _, _, _)
  ensures r == (len(ks) == cp)
  tags C16 C17 C18
}
func bptree.(*BpNode).Pure(x)(r) {
  reads bnode(x; ?ks, _, _, _, _, _, _, _) &*& nonnil(ks)
  ensures r == purek(ks)
  loop 1 {
    inv -1 <= rangeindex && rangeindex < len(ks)
    inv forall i: Int :: {ks[i]} 0 <= i && i <= rangeindex ==> rank(ks[i]) == rank(ks[0])
    decreases len(ks) - rangeindex
  }
  tags C16 C17 C18
}
func bptree.(*BpNode).Internal(x)(r) {
  reads bnode(x; _, _, _, _, _, ?pc, _, _)
  ensures r == (pc > 0)
  tags C16 C17 C18
}
func bptree.(*BpNode).NodeSize(x)(r) {
  reads bnode(x; _, _, _, ?cp, _, _, _, _)
  ensures r == cp
  tags C16 C17 C18
}
func bptree.(*BpNode).find(x, key)(i, has) {
  requires key != nil
  reads bnode(x; ?ks, _, _, _, _, _, _, _) &*& nonnil(ks) && sortedq(ks, true)
  ensures lower(ks, key, i) && has == (i < len(ks) && rank(ks[i]) == rank(key))
  loop 1 {
    inv 0 <= l && l <= r + 1 && r < len(ks)
    inv forall k: Int :: {ks[k]} 0 <= k && k < l ==> rank(ks[k]) < rank(key)
    inv forall k: Int :: {ks[k]} r < k && k < len(ks) ==> rank(ks[k]) > rank(key)
    decreases r - l + 1
  }
  loop 2 {
    inv 0 <= j && j <= m && m < len(ks) && rank(ks[m]) == rank(key)
    inv forall k: Int :: {ks[k]} j <= k && k <= m ==> rank(ks[k]) == rank(key)
    decreases j
  }
  tags C16 C17 C18
}
func bptree.(*BpNode).has(x, key)(r) {
  requires key != nil
  reads bnode(x; ?ks, _, _, _, _, _, _, _) &*& nonnil(ks) && sortedq(ks, true)
  ensures r <==> (exists i: Int :: {ks[i]} 0 <= i && i < len(ks) && rank(ks[i]) == rank(key))
  tags C16 C17 C18
}
func bptree.(*BpNode).put_key_at(x, i, key)(err) {
  requires bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv) &*& 0 <= i && i <= len(ks)
  ensures len(ks) < cp
    ? err == nil &*& bnode(x; ins(ks, i, key), vs, ps, cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  loop 1 {
    inv bnode(x; ?k2, vs, ps, cp, vc, pc, nx, pv) &*& len(k2) == len(ks) + 1 && i <= j && j <= len(ks)
    inv forall t: Int :: {k2[t]} 0 <= t && t <= j && t < len(ks) ==> k2[t] == ks[t]
    inv forall t: Int :: {k2[t]} j < t && t <= len(ks) ==> k2[t] == ks[t - 1]
    decreases j
  }
  tags C16 C17 C18
}
func bptree.(*BpNode).put_value_at(x, i, value)(err) {
  requires bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv) &*& 0 <= i && i <= len(vs)
  ensures len(vs) < vc && pc == 0
    ? err == nil &*& bnode(x; ks, ins(vs, i, value), ps, cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  loop 1 {
    inv bnode(x; ks, ?k2, ps, cp, vc, pc, nx, pv) &*& len(k2) == len(vs) + 1 && i <= j && j <= len(vs)
    inv forall t: Int :: {k2[t]} 0 <= t && t <= j && t < len(vs) ==> k2[t] == vs[t]
    inv forall t: Int :: {k2[t]} j < t && t <= len(vs) ==> k2[t] == vs[t - 1]
    decreases j
  }
  tags C16 C17 C18
}
func bptree.(*BpNode).put_pointer_at(x, i, pointer)(err) {
  requires bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv) &*& 0 <= i && i <= len(ps)
  ensures len(ps) < pc
    ? err == nil &*& bnode(x; ks, vs, ins(ps, i, pointer), cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  loop 1 {
    inv bnode(x; ks, vs, ?k2, cp, vc, pc, nx, pv) &*& len(k2) == len(ps) + 1 && i <= j && j <= len(ps)
    inv forall t: Int :: {k2[t]} 0 <= t && t <= j && t < len(ps) ==> k2[t] == ps[t]
    inv forall t: Int :: {k2[t]} j < t && t <= len(ps) ==> k2[t] == ps[t - 1]
    decreases j
  }
  tags C16 C17 C18
}
func bptree.(*BpNode).remove_key_at(x, i)(err) {
  requires bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv)
  ensures 0 <= i && i < len(ks)
    ? err == nil &*& bnode(x; rem(ks, i), vs, ps, cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  loop 1 {
    inv bnode(x; ?k2, vs, ps, cp, vc, pc, nx, pv) &*& len(k2) == len(ks) && i <= j && j < len(ks)
    inv forall t: Int :: {k2[t]} 0 <= t && t < j ==> k2[t] == rem(ks, i)[t]
    inv forall t: Int :: {k2[t]} j <= t && t < len(ks) ==> k2[t] == ks[t]
    decreases len(ks) - j
  }
  tags C16 C17 C18
}
func bptree.(*BpNode).remove_value_at(x, i)(err) {
  requires bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv)
  ensures 0 <= i && i < len(vs)
    ? err == nil &*& bnode(x; ks, rem(vs, i), ps, cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  loop 1 {
    inv bnode(x; ks, ?k2, ps, cp, vc, pc, nx, pv) &*& len(k2) == len(vs) && i <= j && j < len(vs)
    inv forall t: Int :: {k2[t]} 0 <= t && t < j ==> k2[t] == rem(vs, i)[t]
    inv forall t: Int :: {k2[t]} j <= t && t < len(vs) ==> k2[t] == vs[t]
    decreases len(vs) - j
  }
  tags C16 C17 C18
}
func bptree.(*BpNode).remove_ptr_at(x, i)(err) {
  requires bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv)
  ensures 0 <= i && i < len(ps)
    ? err == nil &*& bnode(x; ks, vs, rem(ps, i), cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  loop 1 {
    inv bnode(x; ks, vs, ?k2, cp, vc, pc, nx, pv) &*& len(k2) == len(ps) && i <= j && j < len(ps)
    inv forall t: Int :: {k2[t]} 0 <= t && t < j ==> k2[t] == rem(ps, i)[t]
    inv forall t: Int :: {k2[t]} j <= t && t < len(ps) ==> k2[t] == ps[t]
    decreases len(ps) - j
  }
  tags C16 C17 C18
}
// where a key goes among sorted ones: before its equals
opaque lowk(ks: Seq<Val>, r: Int): Int = len(ks) <= 0 ? 0 : lowk(take(ks, len(ks) - 1), r) + (rank(ks[len(ks) - 1]) < r ? 1 : 0)

group lowks
lemma lowk_range(ks: Seq<Val>, r: Int) induct ks use lowk : {lowk(ks, r)} 0 <= lowk(ks, r) && lowk(ks, r) <= len(ks)
lemma lowk_lo(ks: Seq<Val>, r: Int) induct ks use lowk : {lowk(ks, r)} (forall i: Int :: {ks[i]} 0 <= i && i < len(ks) ==> rank(ks[i]) >= r) ==> lowk(ks, r) == 0
lemma lowk_hi(ks: Seq<Val>, r: Int) induct ks use lowk : {lowk(ks, r)} (forall i: Int :: {ks[i]} 0 <= i && i < len(ks) ==> rank(ks[i]) < r) ==> lowk(ks, r) == len(ks)
lemma lowk_app(a: Seq<Val>, b: Seq<Val>, r: Int) induct b use lowk : {lowk(app(a, b), r)} lowk(app(a, b), r) == lowk(a, r) + lowk(b, r)
  by { len(b) > 0 ==> seqeq(take(app(a, b), len(app(a, b)) - 1), app(a, take(b, len(b) - 1))); len(b) == 0 ==> app(a, b) == a }
group lowx
lemma lowk_at(ks: Seq<Val>, r: Int, i: Int) use lowk, lowk_range, lowk_lo, lowk_hi, lowk_app : {lowk(ks, r), take(ks, i)} 0 <= i && i <= len(ks)
  && (forall k: Int :: {ks[k]} 0 <= k && k < i ==> rank(ks[k]) < r) && (forall k: Int :: {ks[k]} i <= k && k < len(ks) ==> rank(ks[k]) >= r) ==> i == lowk(ks, r)
  by { 0 <= i && i <= len(ks) ==> ks == app(take(ks, i), drop(ks, i));
       0 <= i && i <= len(ks) ==> lowk(ks, r) == lowk(take(ks, i), r) + lowk(drop(ks, i), r) }
lemma lowk_spec(ks: Seq<Val>, r: Int) induct ks use lowk, lowk_range, lowk_lo, lowk_hi : {lowk(ks, r)} sortedq(ks, true) ==>
  (forall i: Int :: {ks[i]} 0 <= i && i < lowk(ks, r) ==> rank(ks[i]) < r)
  && (forall i: Int :: {ks[i]} lowk(ks, r) <= i && i < len(ks) ==> rank(ks[i]) >= r)
  by { sortedq(ks, true) && len(ks) > 0 && rank(ks[len(ks) - 1]) < r ==>
         (forall i: Int :: {take(ks, len(ks) - 1)[i]} 0 <= i && i < len(ks) - 1 ==> rank(take(ks, len(ks) - 1)[i]) < r);
       sortedq(ks, true) && len(ks) > 0 && rank(ks[len(ks) - 1]) < r ==> lowk(take(ks, len(ks) - 1), r) == len(ks) - 1 }
lemma lowk_hd(ks: Seq<Val>, r: Int) use lowk_range, lowk_spec : {lowk(ks, r)} sortedq(ks, true) ==>
  (lowk(ks, r) < len(ks) ==> rank(ks[lowk(ks, r)]) >= r) && (lowk(ks, r) > 0 ==> rank(ks[lowk(ks, r) - 1]) < r)

func bptree.(*BpNode).put_kv(x, key, value)(err) {
  requires key != nil &*& bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv) &*& nonnil(ks) && sortedq(ks, true) && len(vs) == len(ks) && vc == cp && pc == 0
  ensures let i = lowk(ks, rank(key)) &*& len(ks) < cp
    ? err == nil &*& bnode(x; ins(ks, i, key), ins(vs, i, value), ps, cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  use lowks, lowk_spec, lowk_hd
  tags C16 C17 C18
}
func bptree.(*BpNode).put_kp(x, key, ptr)(err) {
  requires key != nil &*& bnode(x; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv) &*& nonnil(ks) && sortedq(ks, false) && len(ps) == len(ks) && vc == 0 && pc == cp
  requires forall i: Int :: {ks[i]} 0 <= i && i < len(ks) ==> rank(ks[i]) != rank(key)
  ensures let i = lowk(ks, rank(key)) &*& len(ks) < cp
    ? err == nil &*& bnode(x; ins(ks, i, key), vs, ins(ps, i, ptr), cp, vc, pc, nx, pv)
    : err != nil &*& bnode(x; ks, vs, ps, cp, vc, pc, nx, pv)
  use lowks, lowk_spec, lowk_hd
  tags C16 C17 C18
}
func bptree.balance_nodes(a, b)() {
  requires bnode(a; ?ks, ?vs, ?ps, ?cp, ?vc, ?pc, ?nx, ?pv) &*& nonnil(ks) && sortedq(ks, true) && len(ks) == cp && !purek(ks)
    && (vc == cp && len(vs) == cp && pc == 0 || pc == cp && len(ps) == cp && vc == 0)
  requires bnode(b; ?bs, ?ws, ?qs, cp, vc, pc, ?nx2, ?pv2) &*& len(bs) == 0 && len(ws) == 0 && len(qs) == 0
  ensures bnode(a; ?ka, ?va, ?pa, cp, vc, pc, nx, pv) &*& bnode(b; ?kb, ?vb, ?pb, cp, vc, pc, nx2, pv2)
  ensures ks == app(ka, kb) && vs == app(va, vb) && ps == app(pa, pb) && len(ka) > 0 && len(kb) > 0 && rank(ka[len(ka) - 1]) < rank(kb[0])
  ensures pc == 0 ? len(va) == len(ka) && len(pb) == 0 : len(pa) == len(ka) && len(vb) == 0
  loop 1 {
    inv 0 < m && m <= len(ks)
    inv forall t: Int :: {ks[t]} len(ks) / 2 - 1 <= t && t < m ==> rank(ks[t]) == rank(ks[m - 1])
    decreases len(ks) - m
  }
  loop 2 {
    inv 0 <= m && m < len(ks)
    inv forall t: Int :: {ks[t]} m <= t && t < len(ks) ==> rank(ks[t]) == rank(ks[len(ks) - 1])
    decreases m
  }
  loop 3 {
    inv bnode(b; ?kb, ?vb, ?pb, cp, vc, pc, nx2, pv2) &*& 0 < m && m < len(ks) && 0 <= i && i <= lim && len(kb) == lim && lim == len(ks) - m
    inv len(vb) == (vc > 0 ? lim : 0) && len(pb) == (pc > 0 ? lim : 0)
    inv forall t: Int :: {kb[t]} 0 <= t && t < i ==> kb[t] == ks[m + t]
    inv forall t: Int :: {vb[t]} 0 <= t && t < i && vc > 0 ==> vb[t] == vs[m + t]
    inv forall t: Int :: {pb[t]} 0 <= t && t < i && pc > 0 ==> pb[t] == ps[m + t]
    decreases lim - i
  }
  tags C16 C17 C18
}
