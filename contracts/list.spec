// Array lists (package list): the list as a sequence of items.

pred lst(l: *list.List; s: Seq<Val>, cp: Int, fx: Bool) {
  l.list |-> ?sl &*& l.fixed |-> ?f &*& slice(sl; ?A) &*& s := arrseq(A, sl.off, len(sl)) &*& cp := sl.cap &*& fx := f
  fact l != nil && 0 <= len(s) && len(s) <= cp && cp <= MAXLEN
}

func list.New(n)(l) {
  requires n >= 0
  ensures lst(l; empty<Val>, n, false)
  tags C01
}
func list.Fixed(n)(l) {
  requires n >= 0
  ensures lst(l; empty<Val>, n, true)
  tags C02
}
func list.FromSlice(xs)(l) {
  reads slice(xs; ?A)
  ensures lst(l; arrseq(A, xs.off, len(xs)), _, false)
  tags C01
}
func list.(*List).Copy(l)(r) {
  reads lst(l; ?s, ?cp, ?fx)
  ensures lst(r; s, cp, fx)
  tags C01 C02
}
func list.(*List).Clear(l)() {
  requires lst(l; ?s, ?cp, ?fx)
  ensures lst(l; empty<Val>, cp, fx)
  tags C01 C02
}
func list.(*List).Size(l)(n) {
  reads lst(l; ?s, ?cp, ?fx)
  ensures n == len(s)
  tags C01
}
func list.(*List).Full(l)(r) {
  reads lst(l; ?s, ?cp, ?fx)
  ensures r == (fx && len(s) == cp)
  tags C02
}
func list.(*List).Empty(l)(r) {
  reads lst(l; ?s, ?cp, ?fx)
  ensures r == (len(s) == 0)
  tags C01
}
func list.(*List).Has(l, item)(r) {
  reads lst(l; ?s, ?cp, ?fx) &*& nonnil(s)
  ensures r == has(s, item)
  loop 1 {
    inv -1 <= rangeindex && rangeindex < len(s)
    inv forall i: Int :: {s[i]} 0 <= i && i <= rangeindex ==> rank(s[i]) != rank(item)
    decreases len(s) - rangeindex
  }
  tags C01
}
func list.(*List).Get(l, i)(item, err) {
  reads lst(l; ?s, ?cp, ?fx)
  ensures 0 <= i && i < len(s) ? item == s[i] && err == nil : item == nil && err != nil
  tags C01
}
func list.(*List).Set(l, i, item)(err) {
  requires lst(l; ?s, ?cp, ?fx)
  ensures 0 <= i && i < len(s) ? err == nil &*& lst(l; upd(s, i, item), cp, fx) : err != nil &*& lst(l; s, cp, fx)
  tags C01 C02
}
func list.(*List).Insert(l, i, item)(err) {
  requires lst(l; ?s, ?cp, ?fx)
  ensures 0 <= i && i <= len(s) && (!fx || len(s) < cp)
    ? err == nil &*& lst(l; ins(s, i, item), ?c2, fx) &*& (fx ==> c2 == cp)
    : err != nil &*& lst(l; s, cp, fx)
  loop 1 {
    inv l.list |-> ?sl &*& l.fixed |-> fx &*& slice(sl; ?A)
    inv len(sl) == len(s) + 1 && (fx ==> sl.cap == cp)
    inv 0 <= i && i <= j && j <= len(s)
    inv let w = arrseq(A, sl.off, len(sl))
    inv forall k: Int :: {w[k]} 0 <= k && k < len(s) && k <= j ==> w[k] == s[k]
    inv forall k: Int :: {w[k]} j < k && k <= len(s) ==> w[k] == s[k - 1]
    decreases j
  }
  tags C01 C02
}
func list.(*List).Append(l, item)(err) {
  requires lst(l; ?s, ?cp, ?fx)
  ensures !fx || len(s) < cp
    ? err == nil &*& lst(l; app(s, unit(item)), ?c2, fx) &*& (fx ==> c2 == cp)
    : err != nil &*& lst(l; s, cp, fx)
  tags C01 C02
}
func list.(*List).Push(l, item)(err) {
  requires lst(l; ?s, ?cp, ?fx)
  ensures !fx || len(s) < cp
    ? err == nil &*& lst(l; app(s, unit(item)), ?c2, fx) &*& (fx ==> c2 == cp)
    : err != nil &*& lst(l; s, cp, fx)
  tags C01 C02
}
func list.(*List).Remove(l, i)(err) {
  requires lst(l; ?s, ?cp, ?fx)
  ensures 0 <= i && i < len(s)
    ? err == nil &*& lst(l; rem(s, i), ?c2, fx) &*& (fx ==> c2 == cp)
    : err != nil &*& lst(l; s, cp, fx)
  tags C01 C02
}
func list.(*List).Pop(l)(item, err) {
  requires lst(l; ?s, ?cp, ?fx)
  ensures len(s) > 0
    ? err == nil &*& item == s[len(s) - 1] &*& lst(l; take(s, len(s) - 1), ?c2, fx) &*& (fx ==> c2 == cp)
    : err != nil &*& item == nil &*& lst(l; s, cp, fx)
  tags C01 C02
}
func list.(*List).Extend(l, it)(err) {
  requires lst(l; ?s, ?cp, ?fx) &*& kiter(it; ?t)
  ensures fx && len(s) + len(t) > cp
    ? err != nil &*& lst(l; app(s, take(t, cp - len(s))), cp, fx)
    : err == nil &*& lst(l; app(s, t), ?c2, fx) &*& (fx ==> c2 == cp)
  loop 1 {
    inv lst(l; ?u, ?c1, fx) &*& (fx ==> c1 == cp)
    inv len(s) <= len(u) && len(u) <= len(s) + len(t) && (fx ==> len(u) <= cp)
    inv u == app(s, take(t, len(u) - len(s)))
    inv let q = len(u) - len(s)
    inv q < len(t) ? item == t[q] &*& next != nil &*& kiter(next; drop(t, q + 1)) : next == nil
  }
  tags C01 C02
}
func list.(*List).Items(l)(it) {
  borrows lst(l; ?s, ?cp, ?fx)
  ensures kiter(it; s)
  tags C01
}
pred kiter(f: Fn; r: Seq<Val>) {
  case closure list.(*List).Items$1 =>
    *i |-> ?k &*& *it |-> f &*& *l |-> ?lp &*& ro lst(lp; ?s2, _, _) &*& r := drop(s2, k) &*& 0 <= k && k <= len(s2)
  case closure list.(*List).ItemsInReverse$1 =>
    *i |-> ?k &*& *it |-> f &*& *l |-> ?lp &*& ro lst(lp; ?s2, _, _) &*& r := drop(rev(s2), len(s2) - 1 - k) &*& -1 <= k && k < len(s2)
}
func list.(*List).Items$1 implements types.KIterator { tags C01 }
func list.(*List).ItemsInReverse(l)(it) {
  borrows lst(l; ?s, ?cp, ?fx)
  ensures kiter(it; rev(s))
  tags C01
}
func list.(*List).ItemsInReverse$1 implements types.KIterator { tags C01 }
