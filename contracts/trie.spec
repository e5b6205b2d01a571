// The ternary search trie (package trie).  A stored key is its symbol: the
// bytes of the key and a final 0.  Nodes are never changed once they are part
// of a trie, so they are read-only for good (imm).

// an entry: the symbol and the value
data TE = TE(s: Seq<Int>, v: Val)

// ------------------------------------------------------------ symbols

opaque vsym(s: Seq<Int>): Bool = len(s) >= 2 && s[len(s) - 1] == 0 && (forall i: Int :: {s[i]} 0 <= i && i < len(s) - 1 ==> s[i] != 0)
opaque hasp(s: Seq<Int>, p: Seq<Int>): Bool = len(p) <= len(s) && take(s, len(p)) == p

group syms
lemma hasp_len(s: Seq<Int>, p: Seq<Int>) use hasp : {hasp(s, p)} hasp(s, p) ==> len(p) <= len(s)
lemma hasp_step(s: Seq<Int>, p: Seq<Int>, c: Int) use hasp : {hasp(s, app(p, unit(c)))} hasp(s, app(p, unit(c))) == (hasp(s, p) && len(p) < len(s) && s[len(p)] == c)
  by { hasp(s, app(p, unit(c))) ==> seqeq(take(s, len(p)), p) && take(s, len(p) + 1)[len(p)] == c;
       hasp(s, p) && len(p) < len(s) && s[len(p)] == c ==> seqeq(take(s, len(p) + 1), app(p, unit(c))) }
lemma hasp_take(s: Seq<Int>, d: Int) use hasp : {hasp(s, take(s, d))} 0 <= d && d <= len(s) ==> hasp(s, take(s, d))
// a symbol that ends within the common part is the common part
lemma vsym_end(s: Seq<Int>, d: Int) use vsym : {vsym(s), s[d]} vsym(s) && 0 <= d && d < len(s) ==> (s[d] == 0) == (d == len(s) - 1)
lemma vsym_len(s: Seq<Int>) use vsym : {vsym(s)} vsym(s) ==> len(s) >= 2
lemma hasp_all(s: Seq<Int>, t: Seq<Int>, p: Seq<Int>) use hasp : {hasp(s, p), hasp(t, p)} hasp(s, p) && hasp(t, p) && len(s) == len(p) && len(t) == len(p) ==> s == t
  by { hasp(s, p) && len(s) == len(p) ==> seqeq(s, p); hasp(t, p) && len(t) == len(p) ==> seqeq(t, p) }

// ------------------------------------------------------------ order

lemma strlt_at(a: Seq<Int>, b: Seq<Int>, d: Int) induct d use strorder : {strlt(a, b), take(a, d), take(b, d)} 0 <= d && d < len(a) && d < len(b) && take(a, d) == take(b, d) && a[d] < b[d] ==> strlt(a, b)
  by { 0 < d && d < len(a) && d < len(b) && take(a, d) == take(b, d) ==> take(a, d)[0] == take(b, d)[0] && a[0] == b[0];
       0 < d && d < len(a) && d < len(b) && take(a, d) == take(b, d) ==> seqeq(take(drop(a, 1), d - 1), drop(take(a, d), 1)) && seqeq(take(drop(b, 1), d - 1), drop(take(b, d), 1));
       0 < d && d < len(a) && d < len(b) && take(a, d) == take(b, d) && a[d] < b[d] ==> strlt(drop(a, 1), drop(b, 1)) }
lemma hasp_lt(a: Seq<Int>, b: Seq<Int>, p: Seq<Int>) use hasp, strlt_at : {hasp(a, p), hasp(b, p), strlt(a, b)} hasp(a, p) && hasp(b, p) && len(p) < len(a) && len(p) < len(b) && a[len(p)] < b[len(p)] ==> strlt(a, b)

opaque sortedte(es: Seq<TE>): Bool = forall i: Int, j: Int :: {es[i], es[j]} 0 <= i && i < j && j < len(es) ==> strlt(es[i].s, es[j].s)
// all entries lie above (below) s
opaque telo(es: Seq<TE>, s: Seq<Int>): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> strlt(s, es[i].s)
opaque tehi(es: Seq<TE>, s: Seq<Int>): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> strlt(es[i].s, s)
// how many entries lie below s: where s belongs
fun lbt(es: Seq<TE>, s: Seq<Int>): Int = len(es) <= 0 ? 0 : lbt(take(es, len(es) - 1), s) + (strlt(es[len(es) - 1].s, s) ? 1 : 0)

group lbts
lemma lbt_range(es: Seq<TE>, s: Seq<Int>) induct es : {lbt(es, s)} 0 <= lbt(es, s) && lbt(es, s) <= len(es)
lemma lbt_app(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) induct b : {lbt(app(a, b), s)} lbt(app(a, b), s) == lbt(a, s) + lbt(b, s)
  by { len(b) > 0 ==> seqeq(take(app(a, b), len(app(a, b)) - 1), app(a, take(b, len(b) - 1))); len(b) == 0 ==> app(a, b) == a }
lemma lbt_unit(x: TE, s: Seq<Int>) : {lbt(unit(x), s)} lbt(unit(x), s) == (strlt(x.s, s) ? 1 : 0)
  by { lbt(take(unit(x), 0), s) == 0 }
lemma lbt_lo(es: Seq<TE>, s: Seq<Int>) induct es use telo, strorder : {telo(es, s), lbt(es, s)} telo(es, s) ==> lbt(es, s) == 0
  by { telo(es, s) && len(es) > 0 ==> telo(take(es, len(es) - 1), s) }
lemma lbt_hi(es: Seq<TE>, s: Seq<Int>) induct es use tehi : {tehi(es, s), lbt(es, s)} tehi(es, s) ==> lbt(es, s) == len(es)
  by { tehi(es, s) && len(es) > 0 ==> tehi(take(es, len(es) - 1), s) }

// the finite map a sorted sequence of entries stands for
opaque thas(es: Seq<TE>, s: Seq<Int>): Bool = let i = lbt(es, s) in i < len(es) && es[i].s == s
opaque tget(es: Seq<TE>, s: Seq<Int>): Val = es[lbt(es, s)].v
opaque tput(es: Seq<TE>, x: TE): Seq<TE> =
  let i = lbt(es, x.s) in (i < len(es) && es[i].s == x.s ? upd(es, i, x) : ins(es, i, x))
opaque trem(es: Seq<TE>, s: Seq<Int>): Seq<TE> = rem(es, lbt(es, s))

group tmap
lemma telo_app(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use telo : {telo(app(a, b), s)} telo(app(a, b), s) == (telo(a, s) && telo(b, s))
  by { telo(app(a, b), s) ==> telo(a, s); telo(app(a, b), s) ==> (forall i: Int :: {b[i]} 0 <= i && i < len(b) ==> app(a, b)[len(a) + i] == b[i]) }
lemma tehi_app(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use tehi : {tehi(app(a, b), s)} tehi(app(a, b), s) == (tehi(a, s) && tehi(b, s))
  by { tehi(app(a, b), s) ==> tehi(a, s); tehi(app(a, b), s) ==> (forall i: Int :: {b[i]} 0 <= i && i < len(b) ==> app(a, b)[len(a) + i] == b[i]) }
lemma telo_nil(es: Seq<TE>, s: Seq<Int>) use telo : {telo(es, s)} len(es) == 0 ==> telo(es, s)
lemma tehi_nil(es: Seq<TE>, s: Seq<Int>) use tehi : {tehi(es, s)} len(es) == 0 ==> tehi(es, s)
lemma telo_unit(x: TE, s: Seq<Int>) use telo : {telo(unit(x), s)} telo(unit(x), s) == strlt(s, x.s)
  by { telo(unit(x), s) ==> strlt(s, unit(x)[0].s) }
lemma tehi_unit(x: TE, s: Seq<Int>) use tehi : {tehi(unit(x), s)} tehi(unit(x), s) == strlt(x.s, s)
  by { tehi(unit(x), s) ==> strlt(unit(x)[0].s, s) }
lemma thas_nil(es: Seq<TE>, s: Seq<Int>) use thas, lbts : {thas(es, s)} len(es) == 0 ==> !thas(es, s)
lemma thas_unit(x: TE, s: Seq<Int>) use thas, lbts, strorder : {thas(unit(x), s)} thas(unit(x), s) == (x.s == s)
lemma tget_unit(x: TE, s: Seq<Int>) use tget, lbts, strorder : {tget(unit(x), s)} x.s == s ==> tget(unit(x), s) == x.v
lemma thas_lo(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use thas, lbts, telo, strorder : {thas(app(a, b), s), telo(b, s)} telo(b, s) ==> thas(app(a, b), s) == thas(a, s)
  by { telo(b, s) ==> lbt(app(a, b), s) == lbt(a, s); telo(b, s) && lbt(a, s) == len(a) && len(b) > 0 ==> app(a, b)[len(a)] == b[0] && strlt(s, b[0].s) }
lemma thas_hi(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use thas, lbts : {thas(app(a, b), s), tehi(a, s)} tehi(a, s) ==> thas(app(a, b), s) == thas(b, s)
lemma tget_lo(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use tget, thas, lbts, telo, strorder : {tget(app(a, b), s), telo(b, s)} telo(b, s) && thas(a, s) ==> tget(app(a, b), s) == tget(a, s)
lemma tget_hi(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use tget, thas, lbts : {tget(app(a, b), s), tehi(a, s)} tehi(a, s) && thas(b, s) ==> tget(app(a, b), s) == tget(b, s)
lemma tput_nil(es: Seq<TE>, x: TE) use tput, lbts : {tput(es, x)} len(es) == 0 ==> tput(es, x) == unit(x)
  by { len(es) == 0 ==> seqeq(ins(es, 0, x), unit(x)) }
lemma tput_same(y: TE, x: TE) use tput, lbts, strorder : {tput(unit(y), x)} y.s == x.s ==> tput(unit(y), x) == unit(x)
  by { y.s == x.s ==> lbt(unit(y), x.s) == 0; seqeq(upd(unit(y), 0, x), unit(x)) }
lemma tput_under(es: Seq<TE>, x: TE) use tput, thas, lbts, thas_lo, telo, strorder : {tput(es, x), telo(es, x.s)} telo(es, x.s) ==> tput(es, x) == app(unit(x), es)
  by { telo(es, x.s) ==> lbt(es, x.s) == 0; telo(es, x.s) && len(es) > 0 ==> strlt(x.s, es[0].s); seqeq(ins(es, 0, x), app(unit(x), es)) }
lemma tput_over(es: Seq<TE>, x: TE) use tput, lbts : {tput(es, x), tehi(es, x.s)} tehi(es, x.s) ==> tput(es, x) == app(es, unit(x))
  by { tehi(es, x.s) ==> lbt(es, x.s) == len(es); seqeq(ins(es, len(es), x), app(es, unit(x))) }
lemma tput_lo(a: Seq<TE>, b: Seq<TE>, x: TE) use tput, lbts, telo, strorder : {tput(app(a, b), x), telo(b, x.s)} telo(b, x.s) ==> tput(app(a, b), x) == app(tput(a, x), b)
  by { telo(b, x.s) ==> lbt(app(a, b), x.s) == lbt(a, x.s); telo(b, x.s) && len(b) > 0 ==> app(a, b)[len(a)] == b[0] && strlt(x.s, b[0].s);
       telo(b, x.s) && lbt(a, x.s) < len(a) && a[lbt(a, x.s)].s == x.s ==> seqeq(upd(app(a, b), lbt(a, x.s), x), app(upd(a, lbt(a, x.s), x), b));
       seqeq(ins(app(a, b), lbt(a, x.s), x), app(ins(a, lbt(a, x.s), x), b)) }
lemma tput_hi(a: Seq<TE>, b: Seq<TE>, x: TE) use tput, lbts : {tput(app(a, b), x), tehi(a, x.s)} tehi(a, x.s) ==> tput(app(a, b), x) == app(a, tput(b, x))
  by { tehi(a, x.s) ==> lbt(app(a, b), x.s) == len(a) + lbt(b, x.s);
       tehi(a, x.s) && lbt(b, x.s) < len(b) ==> app(a, b)[len(a) + lbt(b, x.s)] == b[lbt(b, x.s)];
       lbt(b, x.s) < len(b) ==> seqeq(upd(app(a, b), len(a) + lbt(b, x.s), x), app(a, upd(b, lbt(b, x.s), x)));
       seqeq(ins(app(a, b), len(a) + lbt(b, x.s), x), app(a, ins(b, lbt(b, x.s), x))) }
lemma trem_unit(x: TE, s: Seq<Int>) use trem, lbts, strorder : {trem(unit(x), s)} x.s == s ==> trem(unit(x), s) == empty<TE>
  by { x.s == s ==> lbt(unit(x), s) == 0; seqeq(rem(unit(x), 0), empty<TE>) }
lemma trem_lo(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use trem, thas, lbts : {trem(app(a, b), s), telo(b, s)} telo(b, s) && thas(a, s) ==> trem(app(a, b), s) == app(trem(a, s), b)
  by { telo(b, s) && thas(a, s) ==> seqeq(rem(app(a, b), lbt(a, s)), app(rem(a, lbt(a, s)), b)) }
lemma trem_hi(a: Seq<TE>, b: Seq<TE>, s: Seq<Int>) use trem, thas, lbts : {trem(app(a, b), s), tehi(a, s)} tehi(a, s) && thas(b, s) ==> trem(app(a, b), s) == app(a, trem(b, s))
  by { tehi(a, s) && thas(b, s) ==> seqeq(rem(app(a, b), len(a) + lbt(b, s)), app(a, rem(b, lbt(b, s)))) }

// ------------------------------------------------------------ trees

// a node with its subtrees; s is the symbol of an accepting node
data TT = TNil | TN(n: *trie.TSTNode, sl: types.ByteSlice, s: Seq<Int>, v: Val, ch: Int, acc: Bool, l: TT, m: TT, r: TT)

pred ttn(x: *trie.TSTNode; t: TT) {
  case x == nil => t := TNil
  case x != nil => x.KV.key |-> ?k &*& x.KV.value |-> ?v &*& x.ch |-> ?c &*& x.accepting |-> ?a &*& x.l |-> ?l &*& x.m |-> ?m &*& x.r |-> ?r
    &*& (a ? slice(k; ?A) &*& let s = arrseq(A, k.off, len(k)) : k == nil &*& let s = empty<Int>)
    &*& ttn(l; ?tl) &*& ttn(m; ?tm) &*& ttn(r; ?tr) &*& t := TN(x, k, s, v, c, a, tl, tm, tr)
  fact (x == nil) == (t is TNil) && (x != nil ==> t.n == x && 0 <= t.ch && t.ch < 256 && (t.acc ==> len(t.s) == len(t.sl)))
}
def tint(t: TT): Bool = !(t.l is TNil) || !(t.m is TNil) || !(t.r is TNil)
// the entries below a node, in the order of the traversal
fun tents(t: TT): Seq<TE> = t is TNil ? empty<TE> : app(t.acc ? unit(TE(t.s, t.v)) : empty<TE>, app(tents(t.l), app(tents(t.m), tents(t.r))))
opaque chlt(es: Seq<TE>, d: Int, c: Int): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> d < len(es[i].s) && es[i].s[d] < c
opaque chgt(es: Seq<TE>, d: Int, c: Int): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> d < len(es[i].s) && es[i].s[d] > c
opaque allp(es: Seq<TE>, p: Seq<Int>): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> vsym(es[i].s) && hasp(es[i].s, p)
// the subtree belongs where the path p leads: a leaf holds a symbol that starts
// with p, an inner node splits the symbols by the byte after p
fun twf(t: TT, p: Seq<Int>): Bool = t is TNil ? true :
  tint(t) ? !t.acc && t.sl == nil && twf(t.l, p) && twf(t.m, app(p, unit(t.ch))) && twf(t.r, p) && chlt(tents(t.l), len(p), t.ch) && chgt(tents(t.r), len(p), t.ch)
  : t.acc && vsym(t.s) && t.s == imseq(t.sl) && len(t.s) == len(t.sl) && hasp(t.s, p) && t.ch == (len(p) < len(t.s) ? t.s[len(p)] : 0)

group wfs
lemma allp_app(a: Seq<TE>, b: Seq<TE>, p: Seq<Int>) use allp : {allp(app(a, b), p)} allp(app(a, b), p) == (allp(a, p) && allp(b, p))
  by { allp(app(a, b), p) ==> allp(a, p); allp(app(a, b), p) ==> (forall i: Int :: {b[i]} 0 <= i && i < len(b) ==> app(a, b)[len(a) + i] == b[i]) }
lemma allp_unit(x: TE, p: Seq<Int>) use allp : {allp(unit(x), p)} allp(unit(x), p) == (vsym(x.s) && hasp(x.s, p))
  by { allp(unit(x), p) ==> vsym(unit(x)[0].s) && hasp(unit(x)[0].s, p) }
lemma allp_nil(es: Seq<TE>, p: Seq<Int>) use allp : {allp(es, p)} len(es) == 0 ==> allp(es, p)
lemma allp_step(es: Seq<TE>, p: Seq<Int>, c: Int) use allp, hasp_step : {allp(es, app(p, unit(c)))} allp(es, app(p, unit(c))) ==> allp(es, p)
lemma allp_lo(es: Seq<TE>, p: Seq<Int>, c: Int, s: Seq<Int>) use allp, telo, hasp_step, hasp_lt : {allp(es, app(p, unit(c))), telo(es, s)} allp(es, app(p, unit(c))) && hasp(s, p) && len(p) < len(s) && s[len(p)] < c ==> telo(es, s)
lemma allp_hi(es: Seq<TE>, p: Seq<Int>, c: Int, s: Seq<Int>) use allp, tehi, hasp_step, hasp_lt : {allp(es, app(p, unit(c))), tehi(es, s)} allp(es, app(p, unit(c))) && hasp(s, p) && len(p) < len(s) && s[len(p)] > c ==> tehi(es, s)
lemma chlt_hi(es: Seq<TE>, p: Seq<Int>, d: Int, c: Int, s: Seq<Int>) use allp, tehi, chlt, hasp_lt : {allp(es, p), chlt(es, d, c), tehi(es, s)} allp(es, p) && d == len(p) && chlt(es, d, c) && hasp(s, p) && len(p) < len(s) && s[len(p)] >= c ==> tehi(es, s)
lemma chgt_lo(es: Seq<TE>, p: Seq<Int>, d: Int, c: Int, s: Seq<Int>) use allp, telo, chgt, hasp_lt : {allp(es, p), chgt(es, d, c), telo(es, s)} allp(es, p) && d == len(p) && chgt(es, d, c) && hasp(s, p) && len(p) < len(s) && s[len(p)] <= c ==> telo(es, s)
lemma chlt_nil(es: Seq<TE>, d: Int, c: Int) use chlt : {chlt(es, d, c)} len(es) == 0 ==> chlt(es, d, c)
lemma chgt_nil(es: Seq<TE>, d: Int, c: Int) use chgt : {chgt(es, d, c)} len(es) == 0 ==> chgt(es, d, c)
lemma chlt_unit(x: TE, d: Int, c: Int) use chlt : {chlt(unit(x), d, c)} d < len(x.s) && x.s[d] < c ==> chlt(unit(x), d, c)
lemma chgt_unit(x: TE, d: Int, c: Int) use chgt : {chgt(unit(x), d, c)} d < len(x.s) && x.s[d] > c ==> chgt(unit(x), d, c)
lemma chlt_put(es: Seq<TE>, x: TE, d: Int, c: Int) use chlt, tput, lbts : {chlt(tput(es, x), d, c)} chlt(es, d, c) && d < len(x.s) && x.s[d] < c ==> chlt(tput(es, x), d, c)
lemma chgt_put(es: Seq<TE>, x: TE, d: Int, c: Int) use chgt, tput, lbts : {chgt(tput(es, x), d, c)} chgt(es, d, c) && d < len(x.s) && x.s[d] > c ==> chgt(tput(es, x), d, c)
lemma chlt_rem(es: Seq<TE>, s: Seq<Int>, d: Int, c: Int) use chlt, trem, thas, lbts : {chlt(trem(es, s), d, c)} chlt(es, d, c) && thas(es, s) ==> chlt(trem(es, s), d, c)
lemma chgt_rem(es: Seq<TE>, s: Seq<Int>, d: Int, c: Int) use chgt, trem, thas, lbts : {chgt(trem(es, s), d, c)} chgt(es, d, c) && thas(es, s) ==> chgt(trem(es, s), d, c)
lemma wf_allp(t: TT, p: Seq<Int>) induct t use allp_app, allp_unit, allp_nil, allp_step : {twf(t, p)} twf(t, p) ==> allp(tents(t), p)
lemma wf_some(t: TT, p: Seq<Int>) induct t : {twf(t, p)} twf(t, p) ==> (t is TNil) == (len(tents(t)) == 0)

// ------------------------------------------------------------ nodes

func trie.(*KV).KeyEq(x, key)(r) {
  reads x.key |-> ?k &*& slice(k; ?A) &*& slice(key; ?B) &*& let a = arrseq(A, k.off, len(k)) &*& let b = arrseq(B, key.off, len(key))
  ensures r == seqeq(a, b)
  loop 1 {
    inv -1 <= rangeindex && rangeindex < len(k) && len(k) == len(key)
    inv forall i: Int :: {a[i]} {b[i]} 0 <= i && i <= rangeindex ==> a[i] == b[i]
    decreases len(k) - rangeindex
  }
  tags C14
}

def nlast(s: Seq<Int>, p: Seq<Int>): Bool = hasp(s, p) && len(p) < len(s)
lemma take_step(s: Seq<Int>, d: Int, d1: Int) : {take(s, d), take(s, d1)} 0 <= d && d < len(s) && d1 == d + 1 ==> take(s, d1) == app(take(s, d), unit(s[d]))
lemma take_all(s: Seq<Int>, d: Int) : {take(s, d)} d == len(s) ==> take(s, d) == s
def putin(t: TT, p: Seq<Int>, s: Seq<Int>): Bool = !(t is TNil) && twf(t, p) && tint(t) && hasp(s, p) && len(p) < len(s)
group sides
// where a symbol with path p lies relative to the entries of an inner node
lemma side_l(t: TT, p: Seq<Int>, s: Seq<Int>) use syms, hasp_lt, wfs, tmap : {twf(t, p), tehi(tents(t.l), s)} putin(t, p, s) && s[len(p)] >= t.ch ==> tehi(tents(t.l), s)
lemma side_r(t: TT, p: Seq<Int>, s: Seq<Int>) use syms, hasp_lt, wfs, tmap : {twf(t, p), telo(tents(t.r), s)} putin(t, p, s) && s[len(p)] <= t.ch ==> telo(tents(t.r), s)
lemma side_mlo(t: TT, p: Seq<Int>, s: Seq<Int>) use syms, hasp_lt, wfs, tmap : {twf(t, p), telo(tents(t.m), s)} putin(t, p, s) && s[len(p)] < t.ch ==> telo(tents(t.m), s)
  by { putin(t, p, s) ==> twf(t.m, app(p, unit(t.ch))) }
lemma side_mhi(t: TT, p: Seq<Int>, s: Seq<Int>) use syms, hasp_lt, wfs, tmap : {twf(t, p), tehi(tents(t.m), s)} putin(t, p, s) && s[len(p)] > t.ch ==> tehi(tents(t.m), s)
  by { putin(t, p, s) ==> twf(t.m, app(p, unit(t.ch))) }
lemma inner_ents(t: TT, p: Seq<Int>) : {twf(t, p), tents(t)} !(t is TNil) && tint(t) && twf(t, p) ==> tents(t) == app(tents(t.l), app(tents(t.m), tents(t.r)))
group tnodes
lemma put_l(n: *trie.TSTNode, t: TT, l2: TT, p: Seq<Int>, x: TE) use syms, sides, tmap, chlt_put, wf_allp :
  {twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, l2, t.m, t.r), p), tput(tents(t.l), x)}
  putin(t, p, x.s) && x.s[len(p)] < t.ch && twf(l2, p) && tents(l2) == tput(tents(t.l), x) && !(l2 is TNil)
  ==> twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, l2, t.m, t.r), p) && tents(TN(n, t.sl, t.s, t.v, t.ch, t.acc, l2, t.m, t.r)) == tput(tents(t), x)
  by { putin(t, p, x.s) && x.s[len(p)] < t.ch ==> telo(tents(t.m), x.s) && telo(tents(t.r), x.s) && telo(app(tents(t.m), tents(t.r)), x.s);
       putin(t, p, x.s) && x.s[len(p)] < t.ch ==> tput(app(tents(t.l), app(tents(t.m), tents(t.r))), x) == app(tput(tents(t.l), x), app(tents(t.m), tents(t.r))) }
lemma put_m(n: *trie.TSTNode, t: TT, m2: TT, p: Seq<Int>, x: TE) use syms, sides, tmap :
  {twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, m2, t.r), p), tput(tents(t.m), x)}
  putin(t, p, x.s) && x.s[len(p)] == t.ch && twf(m2, app(p, unit(t.ch))) && tents(m2) == tput(tents(t.m), x) && !(m2 is TNil)
  ==> twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, m2, t.r), p) && tents(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, m2, t.r)) == tput(tents(t), x)
  by { putin(t, p, x.s) && x.s[len(p)] == t.ch ==> tehi(tents(t.l), x.s) && telo(tents(t.r), x.s);
       putin(t, p, x.s) && x.s[len(p)] == t.ch ==> tput(app(tents(t.l), app(tents(t.m), tents(t.r))), x) == app(tents(t.l), app(tput(tents(t.m), x), tents(t.r))) }
lemma put_r(n: *trie.TSTNode, t: TT, r2: TT, p: Seq<Int>, x: TE) use syms, sides, tmap, chgt_put :
  {twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, t.m, r2), p), tput(tents(t.r), x)}
  putin(t, p, x.s) && x.s[len(p)] > t.ch && twf(r2, p) && tents(r2) == tput(tents(t.r), x) && !(r2 is TNil)
  ==> twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, t.m, r2), p) && tents(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, t.m, r2)) == tput(tents(t), x)
  by { putin(t, p, x.s) && x.s[len(p)] > t.ch ==> tehi(tents(t.l), x.s) && tehi(tents(t.m), x.s);
       putin(t, p, x.s) && x.s[len(p)] > t.ch ==> tput(app(tents(t.l), app(tents(t.m), tents(t.r))), x) == app(tents(t.l), app(tents(t.m), tput(tents(t.r), x))) }
// a leaf
def tleaf(t: TT): Bool = !(t is TNil) && !tint(t) && t.acc && vsym(t.s) && t.s == imseq(t.sl) && len(t.s) == len(t.sl)
def leafat(t: TT, p: Seq<Int>): Bool = tleaf(t) && hasp(t.s, p) && t.ch == (len(p) < len(t.s) ? t.s[len(p)] : 0)
lemma leaf_wf(t: TT, p: Seq<Int>) : {twf(t, p)} tleaf(t) ==> twf(t, p) == leafat(t, p)
lemma leaf_ents(t: TT) : {tents(t)} tleaf(t) ==> tents(t) == unit(TE(t.s, t.v))
lemma put_nil(es: Seq<TE>, x: TE) use tmap : {tput(es, x)} len(es) == 0 ==> tput(es, x) == unit(x)
lemma put_same(y: TE, x: TE) use tmap : {tput(unit(y), x)} y.s == x.s ==> tput(unit(y), x) == unit(x)
lemma split_l(n: *trie.TSTNode, sl: Slice, s: Seq<Int>, v: Val, c: Int, a: TT, b: TT, p: Seq<Int>) use syms, hasp_lt, tmap, chlt_unit, chlt_nil, chgt_nil, strorder :
  {twf(TN(n, sl, s, v, c, false, a, b, TNil), p)}
  sl == nil && leafat(a, p) && leafat(b, app(p, unit(c))) && len(p) < len(a.s) && a.s[len(p)] < c
  ==> twf(TN(n, sl, s, v, c, false, a, b, TNil), p) && tents(TN(n, sl, s, v, c, false, a, b, TNil)) == tput(unit(TE(b.s, b.v)), TE(a.s, a.v))
  by { leafat(a, p) ==> twf(a, p) && tents(a) == unit(TE(a.s, a.v));
       leafat(b, app(p, unit(c))) ==> twf(b, app(p, unit(c))) && tents(b) == unit(TE(b.s, b.v));
       leafat(a, p) && leafat(b, app(p, unit(c))) && len(p) < len(a.s) && a.s[len(p)] < c ==> strlt(a.s, b.s);
       leafat(a, p) && leafat(b, app(p, unit(c))) && len(p) < len(a.s) && a.s[len(p)] < c ==> telo(unit(TE(b.s, b.v)), TE(a.s, a.v).s) }
lemma split_r(n: *trie.TSTNode, sl: Slice, s: Seq<Int>, v: Val, c: Int, a: TT, b: TT, p: Seq<Int>) use syms, hasp_lt, tmap, chgt_unit, chlt_nil, chgt_nil, strorder :
  {twf(TN(n, sl, s, v, c, false, TNil, b, a), p)}
  sl == nil && leafat(a, p) && leafat(b, app(p, unit(c))) && len(p) < len(a.s) && a.s[len(p)] > c
  ==> twf(TN(n, sl, s, v, c, false, TNil, b, a), p) && tents(TN(n, sl, s, v, c, false, TNil, b, a)) == tput(unit(TE(b.s, b.v)), TE(a.s, a.v))
  by { leafat(a, p) ==> twf(a, p) && tents(a) == unit(TE(a.s, a.v));
       leafat(b, app(p, unit(c))) ==> twf(b, app(p, unit(c))) && tents(b) == unit(TE(b.s, b.v));
       leafat(a, p) && leafat(b, app(p, unit(c))) && len(p) < len(a.s) && a.s[len(p)] > c ==> strlt(b.s, a.s);
       leafat(a, p) && leafat(b, app(p, unit(c))) && len(p) < len(a.s) && a.s[len(p)] > c ==> tehi(unit(TE(b.s, b.v)), TE(a.s, a.v).s) }
lemma split_m(n: *trie.TSTNode, sl: Slice, s: Seq<Int>, v: Val, c: Int, m: TT, p: Seq<Int>) use chlt_nil, chgt_nil :
  {twf(TN(n, sl, s, v, c, false, TNil, m, TNil), p)}
  sl == nil && twf(m, app(p, unit(c))) && !(m is TNil)
  ==> twf(TN(n, sl, s, v, c, false, TNil, m, TNil), p) && tents(TN(n, sl, s, v, c, false, TNil, m, TNil)) == tents(m)
// two symbols with a common part are longer than it or equal
lemma sym_long(a: Seq<Int>, b: Seq<Int>, p: Seq<Int>) use hasp, vsym, hasp_all : {hasp(a, p), hasp(b, p), vsym(a), vsym(b)} vsym(a) && vsym(b) && hasp(a, p) && hasp(b, p) && a != b ==> len(p) < len(a)
  by { vsym(a) && hasp(a, p) && len(p) == len(a) ==> a == p;
       vsym(a) && vsym(b) && hasp(a, p) && hasp(b, p) && len(p) == len(a) ==> take(b, len(p))[len(p) - 1] == 0 && b[len(p) - 1] == 0 && len(b) == len(p) && seqeq(b, p) }
lemma sym_end(a: Seq<Int>, b: Seq<Int>, p: Seq<Int>) use syms : {hasp(a, p), hasp(b, p), vsym(a), vsym(b)} vsym(a) && vsym(b) && hasp(a, p) && hasp(b, p) && a != b && len(p) < len(a) && len(p) < len(b) && a[len(p)] == b[len(p)] ==> len(p) + 1 < len(a) && len(p) + 1 < len(b)
  by { vsym(a) && vsym(b) && hasp(a, p) && hasp(b, p) && len(p) < len(a) && len(p) < len(b) && a[len(p)] == b[len(p)] ==> hasp(a, app(p, unit(a[len(p)]))) && hasp(b, app(p, unit(a[len(p)]))) }
// below the end of a symbol there is only that symbol
lemma end_only(s: Seq<Int>, p: Seq<Int>) use hasp, vsym : {hasp(s, p), vsym(s), vsym(p)} hasp(s, p) && vsym(s) && vsym(p) ==> s == p
  by { hasp(s, p) && vsym(s) && vsym(p) ==> take(s, len(p))[len(p) - 1] == 0; hasp(s, p) && vsym(s) && vsym(p) ==> len(s) == len(p) && seqeq(s, p) }
lemma end_leaf(t: TT, p: Seq<Int>) use syms, chlt, chgt, wf_allp, allp, wf_some, end_only : {twf(t, p), vsym(p)} vsym(p) && twf(t, p) && !(t is TNil) ==> tleaf(t) && t.s == p
  by { twf(t, p) && !(t is TNil) && tint(t) ==> twf(t.l, p) && twf(t.m, app(p, unit(t.ch))) && twf(t.r, p);
       vsym(p) && twf(t, p) && !(t is TNil) && !(t.l is TNil) && tint(t) ==> len(tents(t.l)) > 0 && vsym(tents(t.l)[0].s) && hasp(tents(t.l)[0].s, p) && len(p) < len(tents(t.l)[0].s);
       vsym(p) && twf(t, p) && !(t is TNil) && !(t.r is TNil) && tint(t) ==> len(tents(t.r)) > 0 && vsym(tents(t.r)[0].s) && hasp(tents(t.r)[0].s, p) && len(p) < len(tents(t.r)[0].s);
       vsym(p) && twf(t, p) && !(t is TNil) && !(t.m is TNil) && tint(t) ==> len(tents(t.m)) > 0 && vsym(tents(t.m)[0].s) && hasp(tents(t.m)[0].s, app(p, unit(t.ch))) && len(p) < len(tents(t.m)[0].s) }
lemma put_end(n: *trie.TSTNode, t: TT, n2: *trie.TSTNode, sl2: types.ByteSlice, s2: Seq<Int>, v2: Val, c2: Int, p: Seq<Int>) use syms, hasp, tmap, end_leaf, put_m, leaf_ents, leaf_wf :
  {twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, TN(n2, sl2, s2, v2, c2, true, TNil, TNil, TNil), t.r), p), twf(t, p)}
  putin(t, p, s2) && vsym(s2) && s2 == imseq(sl2) && len(s2) == len(sl2) && t.ch == 0 && s2[len(p)] == 0 && c2 == 0
  ==> twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, TN(n2, sl2, s2, v2, c2, true, TNil, TNil, TNil), t.r), p)
   && tents(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, TN(n2, sl2, s2, v2, c2, true, TNil, TNil, TNil), t.r)) == tput(tents(t), TE(s2, v2))
  by { putin(t, p, s2) && vsym(s2) && s2[len(p)] == 0 ==> seqeq(s2, app(p, unit(0)));
       putin(t, p, s2) && vsym(s2) && t.ch == 0 && s2[len(p)] == 0 ==> twf(t.m, s2) && (t.m is TNil || t.m.s == s2);
       putin(t, p, s2) && vsym(s2) && t.ch == 0 && s2[len(p)] == 0 ==> unit(TE(s2, v2)) == tput(tents(t.m), TE(s2, v2));
       tents(TN(n2, sl2, s2, v2, c2, true, TNil, TNil, TNil)) == unit(TE(s2, v2));
       putin(t, p, s2) && vsym(s2) && s2 == imseq(sl2) && len(s2) == len(sl2) && t.ch == 0 && s2[len(p)] == 0 && c2 == 0 ==> twf(TN(n2, sl2, s2, v2, c2, true, TNil, TNil, TNil), app(p, unit(t.ch))) }
func trie.(*TSTNode).split(b, a, d)(r, err) {
  requires imm ttn(b; ?tb) &*& imm ttn(a; ?ta) &*& tleaf(tb) &*& tleaf(ta) &*& 0 <= d &*& d < len(ta.s) &*& let p = take(ta.s, d) &*& hasp(ta.s, p) &*& twf(tb, p) &*& ta.s != tb.s
  ensures err == nil &*& imm ttn(r; ?t) &*& twf(t, p) &*& tents(t) == tput(unit(TE(tb.s, tb.v)), TE(ta.s, ta.v)) &*& r != nil
  decreases len(tb.s) - d
  use syms, tnodes, take_step, take_all
  tags C14
}
func trie.(*TSTNode).insert(n, key, val, d)(r, err) {
  requires imm ttn(n; ?t) &*& imm slice(key; ?A) &*& let s = arrseq(A, key.off, len(key)) &*& vsym(s) &*& 0 <= d &*& d < len(s) &*& let p = take(s, d) &*& hasp(s, p) &*& twf(t, p)
  ensures err == nil &*& imm ttn(r; ?t2) &*& twf(t2, p) &*& tents(t2) == tput(tents(t), TE(s, val)) &*& r != nil
  use syms, tnodes, take_step, take_all, put_end, put_nil
  tags C14
}

// ------------------------------------------------------------ the trie

// the heads: the subtree of the symbols with a given first byte
def hv(x: *trie.TSTNode): TT = view(ttn, x)
opaque headsok(H: Array<Int,*trie.TSTNode>): Bool = forall i: Int :: {H[i]} 0 <= i && i < 256 ==> perm(ttn, H[i]) && twf(hv(H[i]), unit(i))
fun tcat(H: Array<Int,*trie.TSTNode>, n: Int): Seq<TE> = n <= 0 ? empty<TE> : app(tcat(H, n - 1), tents(hv(H[n - 1])))
// es: the stored symbols with their values; q: the same entries as they are
// handed out, every key a ByteSlice that nobody writes to
pred trie(t: *trie.TST; es: Seq<TE>, q: Seq<KV>) {
  t != nil &*& slice(t.heads; ?H) &*& headsok(H) &*& es := tcat(H, 256) &*& q := kcat(H, 256)
  use heads_q
  fact t != nil && tasc(es) && allp(es, empty<Int>) && tes(q) == es && allbs(q)
}
opaque goodkey(b: Seq<Int>): Bool = len(b) > 0 && (forall i: Int :: {b[i]} 0 <= i && i < len(b) ==> b[i] != 0)
def symof(b: Seq<Int>): Seq<Int> = app(b, unit(0))

func trie.New()(t) {
  ensures trie(t; empty<TE>, _)
  use headsok, tcat_nil
  tags C14
}
func trie.(*TST).ValidateKey(self, key)(err) {
  reads slice(key; ?K)
  ensures (err == nil) == goodkey(arrseq(K, key.off, len(key)))
  loop 1 {
    inv -1 <= rangeindex && rangeindex < len(key)
    inv forall i: Int :: {arrseq(K, key.off, len(key))[i]} 0 <= i && i <= rangeindex ==> arrseq(K, key.off, len(key))[i] != 0
    decreases len(key) - rangeindex
  }
  use goodkey
  tags C14
}
func trie.symbolOf(key)(r) {
  reads slice(key; ?K)
  ensures slice(r; ?A) &*& arrseq(A, r.off, len(r)) == symof(arrseq(K, key.off, len(key)))
  tags C14
}
lemma take_one(s: Seq<Int>, d: Int) : {take(s, d)} d == 1 && 0 < len(s) ==> take(s, d) == unit(s[0])
  by { 0 < len(s) ==> seqeq(take(s, 1), unit(s[0])) }
group heads
lemma head_hi(es: Seq<TE>, c: Int, s: Seq<Int>) use syms, hasp, wfs, hasp_lt, tmap : {allp(es, unit(c)), tehi(es, s)} allp(es, unit(c)) && len(s) > 0 && s[0] > c ==> tehi(es, s)
  by { allp(es, unit(c)) ==> allp(es, app(empty<Int>, unit(c))); len(s) > 0 ==> hasp(s, empty<Int>) }
lemma head_lo(es: Seq<TE>, c: Int, s: Seq<Int>) use syms, hasp, wfs, hasp_lt, tmap : {allp(es, unit(c)), telo(es, s)} allp(es, unit(c)) && len(s) > 0 && s[0] < c ==> telo(es, s)
  by { allp(es, unit(c)) ==> allp(es, app(empty<Int>, unit(c))); len(s) > 0 ==> hasp(s, empty<Int>) }
lemma tcat_hi(H: Array<Int,*trie.TSTNode>, n: Int, s: Seq<Int>) induct n use headsok, head_hi, wf_allp, tmap : {tcat(H, n), tehi(tcat(H, n), s)} headsok(H) && n <= 256 && len(s) > 0 && n <= s[0] ==> tehi(tcat(H, n), s)
  by { headsok(H) && 0 < n && n <= 256 ==> twf(hv(H[n - 1]), unit(n - 1)) && allp(tents(hv(H[n - 1])), unit(n - 1)); headsok(H) && 0 < n && n <= 256 && len(s) > 0 && n <= s[0] ==> tehi(tents(hv(H[n - 1])), s) }
lemma tcat_out(H: Array<Int,*trie.TSTNode>, n: Int, c: Int, x: *trie.TSTNode) induct n : {tcat(store(H, c, x), n)} n <= c ==> tcat(store(H, c, x), n) == tcat(H, n)
lemma tcat_nil(H: Array<Int,*trie.TSTNode>, n: Int) induct n : {tcat(H, n)} (forall i: Int :: {H[i]} 0 <= i && i < n ==> H[i] == nil) ==> tcat(H, n) == empty<TE>
  by { perm(ttn, nil) }
lemma headsok_at(H: Array<Int,*trie.TSTNode>, c: Int) use headsok : {headsok(H), H[c]} headsok(H) && 0 <= c && c < 256 ==> perm(ttn, H[c]) && twf(hv(H[c]), unit(c))
lemma headsok_set(H: Array<Int,*trie.TSTNode>, c: Int, x: *trie.TSTNode) use headsok : {headsok(store(H, c, x))} headsok(H) && 0 <= c && c < 256 && perm(ttn, x) && twf(hv(x), unit(c)) ==> headsok(store(H, c, x))
lemma tcat_put(H: Array<Int,*trie.TSTNode>, n: Int, c: Int, x: *trie.TSTNode, e: TE) induct n use headsok, head_lo, tcat_hi, tcat_out, wf_allp, tmap :
  {tput(tcat(H, n), e), tcat(store(H, c, x), n)} headsok(H) && n <= 256 && 0 <= c && c < n && len(e.s) > 0 && e.s[0] == c && tents(hv(x)) == tput(tents(hv(H[c])), e) ==> tcat(store(H, c, x), n) == tput(tcat(H, n), e)
  by { headsok(H) && 0 < n && n <= 256 ==> twf(hv(H[n - 1]), unit(n - 1)) && allp(tents(hv(H[n - 1])), unit(n - 1));
       headsok(H) && 0 < n && n <= 256 && len(e.s) > 0 && e.s[0] < n - 1 ==> telo(tents(hv(H[n - 1])), e.s);
       headsok(H) && 0 < n && n <= 256 && len(e.s) > 0 && e.s[0] == n - 1 ==> tehi(tcat(H, n - 1), e.s);
       0 < n ==> tput(tcat(H, n), e) == tput(app(tcat(H, n - 1), tents(hv(H[n - 1]))), e) }
lemma tcat_at(H: Array<Int,*trie.TSTNode>, n: Int, c: Int, s: Seq<Int>) induct n use headsok, head_lo, tcat_hi, wf_allp, tmap :
  {thas(tcat(H, n), s), tents(hv(H[c]))} headsok(H) && n <= 256 && 0 <= c && c < n && len(s) > 0 && s[0] == c ==> thas(tcat(H, n), s) == thas(tents(hv(H[c])), s) && (thas(tents(hv(H[c])), s) ==> tget(tcat(H, n), s) == tget(tents(hv(H[c])), s))
  by { headsok(H) && 0 < n && n <= 256 ==> twf(hv(H[n - 1]), unit(n - 1)) && allp(tents(hv(H[n - 1])), unit(n - 1));
       headsok(H) && 0 < n && n <= 256 && len(s) > 0 && s[0] < n - 1 ==> telo(tents(hv(H[n - 1])), s);
       headsok(H) && 0 < n && n <= 256 && len(s) > 0 && s[0] == n - 1 ==> tehi(tcat(H, n - 1), s);
       0 < n ==> thas(tcat(H, n), s) == thas(app(tcat(H, n - 1), tents(hv(H[n - 1]))), s);
       0 < n ==> tget(tcat(H, n), s) == tget(app(tcat(H, n - 1), tents(hv(H[n - 1]))), s) }
lemma tcat_rem(H: Array<Int,*trie.TSTNode>, n: Int, c: Int, x: *trie.TSTNode, s: Seq<Int>) induct n use headsok, head_lo, tcat_hi, tcat_out, wf_allp, tmap, tcat_at :
  {trem(tcat(H, n), s), tcat(store(H, c, x), n)} headsok(H) && n <= 256 && 0 <= c && c < n && len(s) > 0 && s[0] == c && thas(tents(hv(H[c])), s) && tents(hv(x)) == trem(tents(hv(H[c])), s) ==> tcat(store(H, c, x), n) == trem(tcat(H, n), s)
  by { headsok(H) && 0 < n && n <= 256 ==> twf(hv(H[n - 1]), unit(n - 1)) && allp(tents(hv(H[n - 1])), unit(n - 1));
       headsok(H) && 0 < n && n <= 256 && len(s) > 0 && s[0] < n - 1 ==> telo(tents(hv(H[n - 1])), s);
       headsok(H) && 0 < n && n <= 256 && len(s) > 0 && s[0] == n - 1 ==> tehi(tcat(H, n - 1), s);
       headsok(H) && 0 < n && n <= 256 && 0 <= c && c < n - 1 && len(s) > 0 && s[0] == c ==> thas(tcat(H, n - 1), s) == thas(tents(hv(H[c])), s);
       headsok(H) && n <= 256 && 0 <= c && c < n - 1 && len(s) > 0 && s[0] == c && thas(tents(hv(H[c])), s) && tents(hv(x)) == trem(tents(hv(H[c])), s) ==> tcat(store(H, c, x), n - 1) == trem(tcat(H, n - 1), s);
       c == n - 1 ==> tcat(store(H, c, x), n - 1) == tcat(H, n - 1);
       0 < n && c == n - 1 ==> tcat(store(H, c, x), n) == app(tcat(H, n - 1), tents(hv(x)));
       0 < n && c < n - 1 ==> tcat(store(H, c, x), n) == app(tcat(store(H, c, x), n - 1), tents(hv(H[n - 1])));
       0 < n ==> trem(tcat(H, n), s) == trem(app(tcat(H, n - 1), tents(hv(H[n - 1]))), s) }
lemma sym_good(b: Seq<Int>) use goodkey, vsym : {app(b, unit(0)), goodkey(b)} goodkey(b) ==> vsym(app(b, unit(0)))
func trie.(*TST).Put(self, key, value)(err) {
  requires trie(self; ?es, ?q)
  reads slice(key; ?K) &*& let b = arrseq(K, key.off, len(key))
  ensures (err == nil) == goodkey(b) &*& trie(self; goodkey(b) ? tput(es, TE(symof(b), value)) : es, _)
  use syms, heads, sym_good, take_one
  tags C14
}

fun tsz(t: TT): Int = t is TNil ? 0 : 1 + tsz(t.l) + tsz(t.m) + tsz(t.r)
lemma tsz_pos(t: TT) induct t : {tsz(t)} tsz(t) >= 0
lemma tsz_l(t: TT) use tsz_pos : {tsz(t), tsz(t.l)} !(t is TNil) ==> tsz(t.l) < tsz(t)
  by { tsz(t.l) >= 0 && tsz(t.m) >= 0 && tsz(t.r) >= 0 }
lemma tsz_m(t: TT) use tsz_pos : {tsz(t), tsz(t.m)} !(t is TNil) ==> tsz(t.m) < tsz(t)
  by { tsz(t.l) >= 0 && tsz(t.m) >= 0 && tsz(t.r) >= 0 }
lemma tsz_r(t: TT) use tsz_pos : {tsz(t), tsz(t.r)} !(t is TNil) ==> tsz(t.r) < tsz(t)
  by { tsz(t.l) >= 0 && tsz(t.m) >= 0 && tsz(t.r) >= 0 }
group walks
lemma walk_l(t: TT, p: Seq<Int>, s: Seq<Int>) use syms, sides, tmap : {twf(t, p), thas(tents(t), s)} putin(t, p, s) && s[len(p)] < t.ch ==> thas(tents(t), s) == thas(tents(t.l), s) && (thas(tents(t.l), s) ==> tget(tents(t), s) == tget(tents(t.l), s))
  by { putin(t, p, s) && s[len(p)] < t.ch ==> telo(tents(t.m), s) && telo(tents(t.r), s) && telo(app(tents(t.m), tents(t.r)), s);
       putin(t, p, s) ==> tents(t) == app(tents(t.l), app(tents(t.m), tents(t.r))) }
lemma walk_m(t: TT, p: Seq<Int>, s: Seq<Int>) use syms, sides, tmap : {twf(t, p), thas(tents(t), s)} putin(t, p, s) && s[len(p)] == t.ch ==> thas(tents(t), s) == thas(tents(t.m), s) && (thas(tents(t.m), s) ==> tget(tents(t), s) == tget(tents(t.m), s))
  by { putin(t, p, s) && s[len(p)] == t.ch ==> tehi(tents(t.l), s) && telo(tents(t.r), s);
       putin(t, p, s) ==> tents(t) == app(tents(t.l), app(tents(t.m), tents(t.r))) }
lemma walk_r(t: TT, p: Seq<Int>, s: Seq<Int>) use syms, sides, tmap : {twf(t, p), thas(tents(t), s)} putin(t, p, s) && s[len(p)] > t.ch ==> thas(tents(t), s) == thas(tents(t.r), s) && (thas(tents(t.r), s) ==> tget(tents(t), s) == tget(tents(t.r), s))
  by { putin(t, p, s) && s[len(p)] > t.ch ==> tehi(tents(t.l), s) && tehi(tents(t.m), s) && tehi(app(tents(t.l), tents(t.m)), s);
       putin(t, p, s) ==> tents(t) == app(tents(t.l), app(tents(t.m), tents(t.r))) }
lemma walk_leaf(t: TT, s: Seq<Int>) use tmap, leaf_ents : {tents(t), thas(tents(t), s)} tleaf(t) ==> thas(tents(t), s) == (t.s == s) && (t.s == s ==> tget(tents(t), s) == t.v)
lemma walk_nil(t: TT, s: Seq<Int>) use tmap : {thas(tents(t), s)} t is TNil ==> !thas(tents(t), s)
// no inner node lies at the end of a symbol
lemma inner_short(t: TT, p: Seq<Int>, s: Seq<Int>, d: Int) use end_leaf, syms : {twf(t, take(s, d)), vsym(s)} vsym(s) && 0 <= d && d <= len(s) && twf(t, take(s, d)) && tint(t) && !(t is TNil) ==> d < len(s)
  by { d == len(s) ==> seqeq(take(s, d), s) }
func trie.(*TST).Get(self, key)(value, err) {
  reads trie(self; ?es, ?q) &*& slice(key; ?K) &*& let b = arrseq(K, key.off, len(key))
  ensures (err == nil) == (goodkey(b) && thas(es, symof(b))) &*& (err == nil ==> value == tget(es, symof(b)))
  loop 1 {
    inv next != nil &*& next.n |-> ?x &*& next.d |-> ?d &*& ro ttn(x; ?t)
    inv 1 <= d &*& d <= len(b) + 1 &*& let s = symof(b) &*& let p = take(s, d) &*& hasp(s, p) &*& twf(t, p) &*& thas(es, s) == thas(tents(t), s) &*& (thas(tents(t), s) ==> tget(es, s) == tget(tents(t), s))
    decreases tsz(t)
  }
  use tsz_pos, tsz_l, tsz_m, tsz_r, syms, heads, walks, sym_good, take_one, take_step
  tags C14
}
func trie.(*TST).Has(self, key)(r) {
  reads trie(self; ?es, ?q) &*& slice(key; ?K) &*& let b = arrseq(K, key.off, len(key))
  ensures r == (goodkey(b) && thas(es, symof(b)))
  tags C14
}

// an inner node that lost its last child
def bare(t: TT): Bool = !(t is TNil) && !tint(t) && !t.acc && t.sl == nil
group rems
lemma rem_l(n: *trie.TSTNode, t: TT, l2: TT, p: Seq<Int>, s: Seq<Int>) use syms, sides, tmap, chlt_rem, walk_l, chlt_nil :
  {twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, l2, t.m, t.r), p), trem(tents(t.l), s)} {tents(TN(n, t.sl, t.s, t.v, t.ch, t.acc, l2, t.m, t.r)), trem(tents(t.l), s), twf(t, p)}
  putin(t, p, s) && s[len(p)] < t.ch && twf(l2, p) && thas(tents(t.l), s) && tents(l2) == trem(tents(t.l), s)
  ==> (let u = TN(n, t.sl, t.s, t.v, t.ch, t.acc, l2, t.m, t.r) in (twf(u, p) || bare(u)) && tents(u) == trem(tents(t), s))
  by { putin(t, p, s) && s[len(p)] < t.ch ==> telo(tents(t.m), s) && telo(tents(t.r), s) && telo(app(tents(t.m), tents(t.r)), s);
       putin(t, p, s) && s[len(p)] < t.ch && thas(tents(t.l), s) ==> trem(app(tents(t.l), app(tents(t.m), tents(t.r))), s) == app(trem(tents(t.l), s), app(tents(t.m), tents(t.r))) }
lemma rem_m(n: *trie.TSTNode, t: TT, m2: TT, p: Seq<Int>, s: Seq<Int>) use syms, sides, tmap, walk_m :
  {twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, m2, t.r), p), trem(tents(t.m), s)} {tents(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, m2, t.r)), trem(tents(t.m), s), twf(t, p)}
  putin(t, p, s) && s[len(p)] == t.ch && twf(m2, app(p, unit(t.ch))) && thas(tents(t.m), s) && tents(m2) == trem(tents(t.m), s)
  ==> (let u = TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, m2, t.r) in (twf(u, p) || bare(u)) && tents(u) == trem(tents(t), s))
  by { putin(t, p, s) && s[len(p)] == t.ch ==> tehi(tents(t.l), s) && telo(tents(t.r), s);
       putin(t, p, s) && s[len(p)] == t.ch && thas(tents(t.m), s) ==> thas(app(tents(t.m), tents(t.r)), s) && trem(app(tents(t.l), app(tents(t.m), tents(t.r))), s) == app(tents(t.l), app(trem(tents(t.m), s), tents(t.r))) }
lemma rem_r(n: *trie.TSTNode, t: TT, r2: TT, p: Seq<Int>, s: Seq<Int>) use syms, sides, tmap, chgt_rem, walk_r, chgt_nil :
  {twf(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, t.m, r2), p), trem(tents(t.r), s)} {tents(TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, t.m, r2)), trem(tents(t.r), s), twf(t, p)}
  putin(t, p, s) && s[len(p)] > t.ch && twf(r2, p) && thas(tents(t.r), s) && tents(r2) == trem(tents(t.r), s)
  ==> (let u = TN(n, t.sl, t.s, t.v, t.ch, t.acc, t.l, t.m, r2) in (twf(u, p) || bare(u)) && tents(u) == trem(tents(t), s))
  by { putin(t, p, s) && s[len(p)] > t.ch ==> tehi(tents(t.l), s) && tehi(tents(t.m), s);
       putin(t, p, s) && s[len(p)] > t.ch && thas(tents(t.r), s) ==> thas(app(tents(t.m), tents(t.r)), s) && trem(app(tents(t.l), app(tents(t.m), tents(t.r))), s) == app(tents(t.l), app(tents(t.m), trem(tents(t.r), s))) }
lemma rem_leaf(t: TT, s: Seq<Int>) use tmap, leaf_ents : {trem(tents(t), s)} tleaf(t) && t.s == s ==> trem(tents(t), s) == empty<TE>
lemma bare_ents(t: TT) : {tents(t)} bare(t) ==> tents(t) == empty<TE>

pred remf(f: Fn; s: Seq<Int>, v: Val) {
  case closure trie.(*TST).Remove$2 => *symbol |-> ?sy &*& slice(sy; ?A) &*& s := arrseq(A, sy.off, len(sy)) &*& *value |-> ?v1 &*& v := v1
    &*& *remove |-> f &*& *check |-> ?cf &*& sharing(trie.(*TST).Remove$1, cf, trie.(*TST).Remove$2, f) &*& *key |-> ?k
  fact f != nil
}
functype trie.(*TST).Remove$2.call(self, n, d)(r, err) {
  requires remf(self; ?s, ?v0) &*& imm ttn(n; ?t) &*& vsym(s) &*& 0 <= d &*& d <= len(s) &*& let p = take(s, d) &*& hasp(s, p) &*& twf(t, p)
  ensures (err == nil) == thas(tents(t), s)
    &*& (err == nil ? remf(self; s, tget(tents(t), s)) &*& imm ttn(r; ?t2) &*& (twf(t2, p) || bare(t2)) &*& tents(t2) == trem(tents(t), s) : remf(self; s, v0))
}
func trie.(*TST).Remove$2 implements trie.(*TST).Remove$2.call {
  use syms, rems, walks, take_step
  tags C14
}
func trie.(*TST).Remove(self, key)(value, err) {
  requires trie(self; ?es, ?q)
  reads slice(key; ?K) &*& let b = arrseq(K, key.off, len(key))
  ensures (err == nil) == (goodkey(b) && thas(es, symof(b))) &*& (err == nil ==> value == tget(es, symof(b))) &*& trie(self; err == nil ? trem(es, symof(b)) : es, _)
  use syms, heads, walks, sym_good, take_one, bare_ents
  tags C14
}

// ------------------------------------------------------------ nodes as general trees

def tkey(t: TT): Val = box<types.ByteSlice>(subslice(t.sl, 0, len(t.sl) - 1))
fun gtof(t: TT): GT = GNode(box<*trie.TSTNode>(t.n), app(t.l is TNil ? empty<GT> : unit(gtof(t.l)), app(t.m is TNil ? empty<GT> : unit(gtof(t.m)), t.r is TNil ? empty<GT> : unit(gtof(t.r)))), t.acc, tkey(t), t.v)
def tviewed(s: Seq<*trie.TSTNode>): Bool = forall i: Int :: {s[i]} 0 <= i && i < len(s) ==> s[i] != nil && frozen(ttn, s[i]) && view(ttn, s[i]).n == s[i] && !(view(ttn, s[i]) is TNil)
fun gvs(s: Seq<*trie.TSTNode>): Seq<GT> = len(s) <= 0 ? empty<GT> : app(gvs(take(s, len(s) - 1)), unit(gtof(view(ttn, s[len(s) - 1]))))
lemma gvs_len(s: Seq<*trie.TSTNode>) induct s : {gvs(s)} len(gvs(s)) == len(s)
lemma gvs_at(s: Seq<*trie.TSTNode>, i: Int) induct s use gvs_len : {gvs(s)[i]} 0 <= i && i < len(s) ==> gvs(s)[i] == gtof(view(ttn, s[i]))
  by { i < len(s) - 1 && 0 <= i ==> take(s, len(s) - 1)[i] == s[i] && gvs(take(s, len(s) - 1))[i] == gtof(view(ttn, s[i])) }
func trie.(*TSTNode).make_child_slice(x)(ns) {
  requires x != nil
  reads ttn(x; ?t)
  ensures slice(ns; ?A) &*& let q = arrseq(A, ns.off, len(ns)) &*& tviewed(q) &*& gvs(q) == gtof(t).kids
  use gvs_len, gvs_at
  tags C15
}
func trie.(*TSTNode).Children(x)(it) {
  requires x != nil
  borrows ttn(x; ?t)
  ensures tniter(it; empty<BT>, gtof(t).kids)
  use gvs_len, gvs_at
  tags C15
}
func trie.(*TSTNode).Children$1$1 implements types.TreeNodeIterator { use gvs_len, gvs_at tags C15 }
func trie.(*TSTNode).GetChild(x, i)(r) {
  requires x != nil
  reads ttn(x; ?t) &*& 0 <= i &*& i < len(gtof(t).kids)
  ensures ro gtn(r; gtof(t).kids[i])
  use gvs_len, gvs_at
  tags C15
}
func trie.(*TSTNode).ChildCount(x)(n) {
  requires x != nil
  reads ttn(x; ?t)
  ensures n == len(gtof(t).kids)
  use gvs_len, gvs_at
  tags C15
}

// ------------------------------------------------------------ the entries as they are iterated

opaque accs(g: Seq<GT>): Seq<KV> = len(g) <= 0 ? empty<KV> : app(g[0].has ? unit(KV(g[0].k, g[0].w)) : empty<KV>, accs(drop(g, 1)))
fun kents(t: TT): Seq<KV> = t is TNil ? empty<KV> : app(t.acc ? unit(KV(tkey(t), t.v)) : empty<KV>, app(kents(t.l), app(kents(t.m), kents(t.r))))
def tstok(x: GT): Bool = typeof(x.n) == typeid(*trie.TSTNode) && (x.has ==> len(unbox<types.ByteSlice>(x.k)) >= 0)
opaque allt(g: Seq<GT>): Bool = forall i: Int :: {g[i]} 0 <= i && i < len(g) ==> tstok(g[i])
lemma pres_nil(s: Seq<GT>) use pres : {pres(s)} len(s) == 0 ==> pres(s) == empty<GT>
lemma pres_app(a: Seq<GT>, b: Seq<GT>) induct a use pres : {pres(app(a, b))} pres(app(a, b)) == app(pres(a), pres(b))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0] }
lemma pres_unit(x: GT) use pres, pres_nil : {pres(unit(x))} pres(unit(x)) == gpre(x)
  by { unit(x)[0] == x && len(drop(unit(x), 1)) == 0; pres(drop(unit(x), 1)) == empty<GT> }
def gopt(t: TT): Seq<GT> = t is TNil ? empty<GT> : unit(gtof(t))
def gall(t: TT): Seq<GT> = t is TNil ? empty<GT> : gpre(gtof(t))
lemma pre_kids(t: TT) use pres_nil, pres_app, pres_unit : {gpre(gtof(t))} !(t is TNil) ==> gpre(gtof(t)) == app(unit(gtof(t)), app(gall(t.l), app(gall(t.m), gall(t.r))))
  by { pres(gopt(t.l)) == gall(t.l) && pres(gopt(t.m)) == gall(t.m) && pres(gopt(t.r)) == gall(t.r);
       !(t is TNil) ==> gtof(t).kids == app(gopt(t.l), app(gopt(t.m), gopt(t.r)));
       !(t is TNil) ==> pres(gtof(t).kids) == app(gall(t.l), app(gall(t.m), gall(t.r))) }
group accss
lemma accs_app(a: Seq<GT>, b: Seq<GT>) induct a use accs : {accs(app(a, b))} accs(app(a, b)) == app(accs(a), accs(b))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0] }
lemma accs_unit(x: GT) use accs : {accs(unit(x))} accs(unit(x)) == (x.has ? unit(KV(x.k, x.w)) : empty<KV>)
  by { accs(drop(unit(x), 1)) == empty<KV>; unit(x)[0] == x }
lemma accs_nil(g: Seq<GT>) use accs : {accs(g)} len(g) == 0 ==> accs(g) == empty<KV>
lemma allt_app(a: Seq<GT>, b: Seq<GT>) use allt : {allt(app(a, b))} allt(a) && allt(b) ==> allt(app(a, b))
lemma allt_unit(x: GT) use allt : {allt(unit(x))} allt(unit(x)) == tstok(x)
  by { allt(unit(x)) ==> tstok(unit(x)[0]) }
lemma allt_nil(g: Seq<GT>) use allt : {allt(g)} len(g) == 0 ==> allt(g)
lemma allt_head(g: Seq<GT>) use allt : {allt(g), g[0]} allt(g) && len(g) > 0 ==> tstok(g[0])
lemma allt_drop(g: Seq<GT>) use allt : {allt(drop(g, 1))} allt(g) && len(g) > 0 ==> allt(drop(g, 1))
  by { len(g) > 0 ==> forall i: Int :: {drop(g, 1)[i]} 0 <= i && i < len(drop(g, 1)) ==> drop(g, 1)[i] == g[i + 1] }
lemma accs_pre(t: TT) induct t use pre_kids, accs_app, accs_unit, accs_nil : {kents(t)} {accs(gpre(gtof(t)))} !(t is TNil) ==> accs(gpre(gtof(t))) == kents(t)
lemma allt_pre(t: TT, p: Seq<Int>) induct t use pre_kids, allt_app, allt_unit, allt_nil, vsym : {twf(t, p), gtof(t)} !(t is TNil) && twf(t, p) ==> allt(gpre(gtof(t)))
  by { !(t is TNil) && twf(t, p) ==> tstok(gtof(t));
       !(t is TNil) && twf(t, p) && tint(t) ==> allt(gall(t.l)) && allt(gall(t.m)) && allt(gall(t.r));
       !(t is TNil) && twf(t, p) ==> allt(app(unit(gtof(t)), app(gall(t.l), app(gall(t.m), gall(t.r))))) }

opaque tes(r: Seq<KV>): Seq<TE> = len(r) <= 0 ? empty<TE> : app(unit(TE(app(imseq(unbox<types.ByteSlice>(r[0].k)), unit(0)), r[0].v)), tes(drop(r, 1)))
opaque allbs(r: Seq<KV>): Bool = forall i: Int :: {r[i]} 0 <= i && i < len(r) ==> typeof(r[i].k) == typeid(types.ByteSlice)
lemma arr_snoc(A: Array<Int,Int>, o: Int, n: Int) : {arrseq(A, o, n)} n >= 1 ==> arrseq(A, o, n) == app(arrseq(A, o, n - 1), unit(A[o + n - 1]))
  by { n >= 1 ==> seqeq(arrseq(A, o, n), app(arrseq(A, o, n - 1), unit(A[o + n - 1]))) }
group tess
lemma sym_cut(t: TT) use vsym, arr_snoc : {tkey(t), vsym(t.s)} t.acc && vsym(t.s) && t.s == imseq(t.sl) && len(t.s) == len(t.sl) ==> app(imseq(unbox<types.ByteSlice>(tkey(t))), unit(0)) == t.s
  by { t.acc && vsym(t.s) && t.s == imseq(t.sl) && len(t.s) == len(t.sl) ==> seqeq(app(imseq(unbox<types.ByteSlice>(tkey(t))), unit(0)), t.s) }
lemma tes_app(a: Seq<KV>, b: Seq<KV>) induct a use tes : {tes(app(a, b))} tes(app(a, b)) == app(tes(a), tes(b))
  by { len(a) > 0 ==> seqeq(drop(app(a, b), 1), app(drop(a, 1), b)) && app(a, b)[0] == a[0] }
lemma tes_unit(x: KV) use tes : {tes(unit(x))} tes(unit(x)) == unit(TE(app(imseq(unbox<types.ByteSlice>(x.k)), unit(0)), x.v))
  by { tes(drop(unit(x), 1)) == empty<TE>; unit(x)[0] == x }
lemma tes_nil(r: Seq<KV>) use tes : {tes(r)} len(r) == 0 ==> tes(r) == empty<TE>
lemma allbs_app(a: Seq<KV>, b: Seq<KV>) use allbs : {allbs(app(a, b))} allbs(a) && allbs(b) ==> allbs(app(a, b))
lemma allbs_unit(x: KV) use allbs : {allbs(unit(x))} typeof(x.k) == typeid(types.ByteSlice) ==> allbs(unit(x))
lemma allbs_nil(r: Seq<KV>) use allbs : {allbs(r)} len(r) == 0 ==> allbs(r)
lemma tes_kents(t: TT, p: Seq<Int>) induct t use tes_app, tes_unit, tes_nil, allbs_app, allbs_unit, allbs_nil, sym_cut : {twf(t, p), kents(t)} twf(t, p) ==> tes(kents(t)) == tents(t) && allbs(kents(t))

// the entries are in ascending order, every symbol once
opaque tasc(es: Seq<TE>): Bool = forall i: Int, j: Int :: {es[i], es[j]} 0 <= i && i < j && j < len(es) ==> strlt(es[i].s, es[j].s)
opaque tbelow(a: Seq<TE>, b: Seq<TE>): Bool = forall i: Int, j: Int :: {a[i], b[j]} 0 <= i && i < len(a) && 0 <= j && j < len(b) ==> strlt(a[i].s, b[j].s)
group tascs
lemma tasc_app(a: Seq<TE>, b: Seq<TE>) use tasc, tbelow : {tasc(app(a, b))} tasc(a) && tasc(b) && tbelow(a, b) ==> tasc(app(a, b))
lemma tasc_one(es: Seq<TE>) use tasc : {tasc(es)} len(es) <= 1 ==> tasc(es)
lemma tbelow_app(a: Seq<TE>, b: Seq<TE>, c: Seq<TE>) use tbelow : {tbelow(a, app(b, c))} tbelow(a, b) && tbelow(a, c) ==> tbelow(a, app(b, c))
lemma tbelow_l(a: Seq<TE>, b: Seq<TE>, p: Seq<Int>, d: Int, c: Int) use tbelow, chlt, allp, hasp_step, hasp_lt : {tbelow(a, b), chlt(a, d, c), allp(b, app(p, unit(c)))} d == len(p) && chlt(a, d, c) && allp(a, p) && allp(b, app(p, unit(c))) ==> tbelow(a, b)
lemma tbelow_r(a: Seq<TE>, b: Seq<TE>, p: Seq<Int>, d: Int, c: Int) use tbelow, chgt, allp, hasp_step, hasp_lt : {tbelow(a, b), chgt(b, d, c), allp(a, app(p, unit(c)))} d == len(p) && chgt(b, d, c) && allp(b, p) && allp(a, app(p, unit(c))) ==> tbelow(a, b)
lemma tbelow_lr(a: Seq<TE>, b: Seq<TE>, p: Seq<Int>, d: Int, c: Int) use tbelow, chlt, chgt, allp, hasp_lt : {tbelow(a, b), chlt(a, d, c), chgt(b, d, c), allp(a, p)} d == len(p) && chlt(a, d, c) && chgt(b, d, c) && allp(a, p) && allp(b, p) ==> tbelow(a, b)
lemma wf_asc(t: TT, p: Seq<Int>) induct t use tasc_app, tasc_one, tbelow_app, tbelow_l, tbelow_r, tbelow_lr, wf_allp, inner_ents : {twf(t, p)} twf(t, p) ==> tasc(tents(t))
  by { twf(t, p) && !(t is TNil) && tint(t) ==> twf(t.l, p) && twf(t.m, app(p, unit(t.ch))) && twf(t.r, p);
       twf(t, p) && !(t is TNil) && tint(t) ==> allp(tents(t.l), p) && allp(tents(t.m), app(p, unit(t.ch))) && allp(tents(t.r), p);
       twf(t, p) && !(t is TNil) && tint(t) ==> tbelow(tents(t.l), tents(t.m)) && tbelow(tents(t.l), tents(t.r)) && tbelow(tents(t.m), tents(t.r)) }
fun kcat(H: Array<Int,*trie.TSTNode>, n: Int): Seq<KV> = n <= 0 ? empty<KV> : app(kcat(H, n - 1), kents(hv(H[n - 1])))
lemma tcat_p(H: Array<Int,*trie.TSTNode>, n: Int) induct n use headsok, wf_allp, allp_app, allp_nil, allp_step : {tcat(H, n)} headsok(H) && n <= 256 ==> allp(tcat(H, n), empty<Int>)
  by { 0 < n && headsok(H) && n <= 256 ==> perm(ttn, H[n - 1]) && twf(hv(H[n - 1]), unit(n - 1));
       0 < n && headsok(H) && n <= 256 ==> allp(tents(hv(H[n - 1])), app(empty<Int>, unit(n - 1))) }
lemma chlt_app(a: Seq<TE>, b: Seq<TE>, d: Int, c: Int) use chlt : {chlt(app(a, b), d, c)} chlt(a, d, c) && chlt(b, d, c) ==> chlt(app(a, b), d, c)
lemma chlt_more(es: Seq<TE>, d: Int, c: Int, c2: Int) use chlt : {chlt(es, d, c), chlt(es, d, c2)} chlt(es, d, c) && c <= c2 ==> chlt(es, d, c2)
lemma chlt_first(es: Seq<TE>, c: Int, c2: Int) use chlt, allp, hasp : {allp(es, unit(c)), chlt(es, 0, c2)} allp(es, unit(c)) && c < c2 ==> chlt(es, 0, c2)
  by { allp(es, unit(c)) ==> (forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> take(es[i].s, 1)[0] == c && es[i].s[0] == c && len(es[i].s) > 0) }
lemma tcat_first(H: Array<Int,*trie.TSTNode>, n: Int) induct n use headsok, wf_allp, chlt_app, chlt_nil, chlt_more, chlt_first : {tcat(H, n)} headsok(H) && n <= 256 ==> chlt(tcat(H, n), 0, n)
  by { 0 < n && headsok(H) && n <= 256 ==> perm(ttn, H[n - 1]) && twf(hv(H[n - 1]), unit(n - 1));
       0 < n && headsok(H) && n <= 256 ==> chlt(tcat(H, n - 1), 0, n - 1) && chlt(tcat(H, n - 1), 0, n) && chlt(tents(hv(H[n - 1])), 0, n) }
lemma tcat_asc(H: Array<Int,*trie.TSTNode>, n: Int) induct n use headsok, wf_asc, wf_allp, tasc_app, tasc_one, tbelow_l, tcat_p, tcat_first : {tcat(H, n)} headsok(H) && n <= 256 ==> tasc(tcat(H, n))
  by { 0 < n && headsok(H) && n <= 256 ==> perm(ttn, H[n - 1]) && twf(hv(H[n - 1]), unit(n - 1));
       0 < n && headsok(H) && n <= 256 ==> allp(tents(hv(H[n - 1])), app(empty<Int>, unit(n - 1))) && tasc(tents(hv(H[n - 1])));
       0 < n && headsok(H) && n <= 256 ==> chlt(tcat(H, n - 1), 0, n - 1) && allp(tcat(H, n - 1), empty<Int>);
       0 < n && headsok(H) && n <= 256 ==> tbelow(tcat(H, n - 1), tents(hv(H[n - 1]))) }
lemma kcat_tes(H: Array<Int,*trie.TSTNode>, n: Int) induct n use headsok, tess : {kcat(H, n)} headsok(H) && n <= 256 ==> tes(kcat(H, n)) == tcat(H, n) && allbs(kcat(H, n))
  by { 0 < n && headsok(H) && n <= 256 ==> perm(ttn, H[n - 1]) && twf(hv(H[n - 1]), unit(n - 1));
       0 < n && headsok(H) && n <= 256 ==> tes(kents(hv(H[n - 1]))) == tents(hv(H[n - 1])) && allbs(kents(hv(H[n - 1]))) }
lemma heads_q(H: Array<Int,*trie.TSTNode>) use tcat_p, tcat_asc, kcat_tes : {headsok(H)} headsok(H) ==> tasc(tcat(H, 256)) && allp(tcat(H, 256), empty<Int>) && tes(kcat(H, 256)) == tcat(H, 256) && allbs(kcat(H, 256))

// ------------------------------------------------------------ iteration

pred kviter(f: Fn; r: Seq<KV>) {
  case closure trie.(*TST).Iterate$1 =>
    *tni |-> ?it &*& *kv_iterator |-> f &*& (it == nil ? let g = empty<GT> : tniter(it; empty<BT>, ?g)) &*& allt(g) &*& r := accs(g)
  case closure trie.(*TST).PrefixFind$1 => r := empty<KV>
  case closure trie.(*TST).PrefixFind$2 => *tni |-> ?it &*& *kv_iterator |-> f &*& tniter(it; empty<BT>, ?g) &*& allt(g) &*& r := accs(g)
}
pred kvable(v: Val; es: Seq<KV>) {
  case type *trie.TST as x => trie(x; ?ts, ?q) &*& es := q
}
lemma gcat_end(G: Array<Int,Seq<GT>>, lo: Int, n: Int) induct n : {gcat(G, lo, n)} n > 0 ==> gcat(G, lo, n) == app(gcat(G, lo, n - 1), G[lo + n - 1])
  by { n > 1 ==> gcat(G, lo + 1, n - 1) == app(gcat(G, lo + 1, n - 2), G[lo + n - 1]); n > 1 ==> gcat(G, lo, n - 1) == app(G[lo], gcat(G, lo + 1, n - 2)); n > 0 ==> gcat(G, lo, n) == app(G[lo], gcat(G, lo + 1, n - 1)) }
group gcats
lemma gcat_upd(G: Array<Int,Seq<GT>>, lo: Int, n: Int, j: Int, x: Seq<GT>) induct n : {gcat(store(G, j, x), lo, n)} j >= lo + n ==> gcat(store(G, j, x), lo, n) == gcat(G, lo, n)
lemma gcat_last(G: Array<Int,Seq<GT>>, lo: Int, n: Int, m: Int, x: Seq<GT>) use gcat_end, gcat_upd : {gcat(store(G, m, x), lo, n)} n > 0 && m == lo + n - 1 ==> gcat(store(G, m, x), lo, n) == app(gcat(G, lo, n - 1), x)
lemma heads_iter(H: Array<Int,*trie.TSTNode>, i: Int) use headsok, accss : {headsok(H), H[i]} headsok(H) && 0 <= i && i < 256 ==> perm(ttn, H[i]) && (H[i] != nil && !(hv(H[i]) is TNil) ==> allt(gpre(gtof(hv(H[i])))) && accs(gpre(gtof(hv(H[i])))) == kents(hv(H[i])))
func trie.(*TST).Iterate(self)(it) {
  borrows trie(self; ?es, ?q)
  entry ro slice(self.heads; ?H) &*& headsok(H) &*& q == kcat(H, 256)
  ensures kviter(it; q)
  loop 1 {
    inv slice(tnis; ?A) &*& tnis.off == 0 &*& -1 <= rangeindex && rangeindex < 256 && len(tnis) <= rangeindex + 1 &*& all(tniter, A, tnis.off, len(tnis); ?R, ?G) &*& alle(R, tnis.off, len(tnis))
    inv let g = gcat(G, tnis.off, len(tnis)) &*& allt(g) &*& accs(g) == kcat(H, rangeindex + 1)
    decreases 256 - rangeindex
  }
  use heads_iter, accs_app, accs_nil, allt_app, allt_nil, gcats
  tags C15
}
func trie.(*TST).Iterate$1 implements types.KVIterator {
  loop 1 {
    inv (tni == nil ? let g = empty<GT> : tniter(tni; empty<BT>, ?g)) &*& allt(g) &*& accs(g) == r
    decreases len(g)
  }
  use accss, accs
  tags C15
}
implements types.KVIterable by *trie.TST tags C15
func trie.(*TST).Items(t)(it) {
  borrows trie(t; ?es, ?q)
  ensures itemiter(it; q)
  tags C15
}
func trie.(*TST).Keys(t)(it) {
  borrows trie(t; ?es, ?q)
  ensures kiter(it; keysof(q))
  tags C15
}
func trie.(*TST).Values(t)(it) {
  borrows trie(t; ?es, ?q)
  ensures viter(it; valsof(q))
  tags C15
}

// ------------------------------------------------------------ prefix search

// a key starts with b when its symbol does and is longer
def starts(s: Seq<Int>, b: Seq<Int>): Bool = hasp(s, b) && len(b) < len(s)
opaque pfil(es: Seq<TE>, b: Seq<Int>): Seq<TE> = len(es) <= 0 ? empty<TE> : app(starts(es[0].s, b) ? unit(es[0]) : empty<TE>, pfil(drop(es, 1), b))
group pfils
lemma pfil_app(a: Seq<TE>, c: Seq<TE>, b: Seq<Int>) induct a use pfil : {pfil(app(a, c), b)} pfil(app(a, c), b) == app(pfil(a, b), pfil(c, b))
  by { len(a) > 0 ==> seqeq(drop(app(a, c), 1), app(drop(a, 1), c)) && app(a, c)[0] == a[0] }
lemma pfil_unit(x: TE, b: Seq<Int>) use pfil : {pfil(unit(x), b)} pfil(unit(x), b) == (starts(x.s, b) ? unit(x) : empty<TE>)
  by { pfil(drop(unit(x), 1), b) == empty<TE>; unit(x)[0] == x }
lemma pfil_nil(es: Seq<TE>, b: Seq<Int>) use pfil : {pfil(es, b)} len(es) == 0 ==> pfil(es, b) == empty<TE>
opaque nost(es: Seq<TE>, b: Seq<Int>): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> !starts(es[i].s, b)
opaque allst(es: Seq<TE>, b: Seq<Int>): Bool = forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> starts(es[i].s, b)
lemma nost_drop(es: Seq<TE>, b: Seq<Int>) use nost : {nost(drop(es, 1), b)} nost(es, b) && len(es) > 0 ==> nost(drop(es, 1), b) && !starts(es[0].s, b)
  by { len(es) > 0 ==> forall i: Int :: {drop(es, 1)[i]} 0 <= i && i < len(drop(es, 1)) ==> drop(es, 1)[i] == es[i + 1] }
lemma allst_drop(es: Seq<TE>, b: Seq<Int>) use allst : {allst(drop(es, 1), b)} allst(es, b) && len(es) > 0 ==> allst(drop(es, 1), b) && starts(es[0].s, b)
  by { len(es) > 0 ==> forall i: Int :: {drop(es, 1)[i]} 0 <= i && i < len(drop(es, 1)) ==> drop(es, 1)[i] == es[i + 1] }
lemma pfil_none(es: Seq<TE>, b: Seq<Int>) induct es use pfil, nost_drop : {pfil(es, b), nost(es, b)} nost(es, b) ==> pfil(es, b) == empty<TE>
  by { nost(es, b) && len(es) > 0 ==> nost(drop(es, 1), b) }
lemma pfil_all(es: Seq<TE>, b: Seq<Int>) induct es use pfil, allst_drop : {pfil(es, b), allst(es, b)} allst(es, b) ==> pfil(es, b) == es
  by { allst(es, b) && len(es) > 0 ==> allst(drop(es, 1), b) && app(unit(es[0]), drop(es, 1)) == es }
lemma pfil_empty(es: Seq<TE>, b: Seq<Int>) use allst, allp, vsym, hasp, pfil_all : {pfil(es, b), allp(es, empty<Int>)} len(b) == 0 && allp(es, empty<Int>) ==> pfil(es, b) == es
  by { len(b) == 0 && allp(es, empty<Int>) ==> allst(es, b) }
// entries with another byte at some place do not start with b
lemma nost_lt(es: Seq<TE>, b: Seq<Int>, d: Int, c: Int) use nost, chlt, hasp : {nost(es, b), chlt(es, d, c)} chlt(es, d, c) && 0 <= d && d < len(b) && b[d] >= c ==> nost(es, b)
  by { 0 <= d && d < len(b) ==> (forall i: Int :: {es[i]} 0 <= i && i < len(es) && starts(es[i].s, b) ==> take(es[i].s, len(b))[d] == b[d] && es[i].s[d] == b[d]) }
lemma nost_gt(es: Seq<TE>, b: Seq<Int>, d: Int, c: Int) use nost, chgt, hasp : {nost(es, b), chgt(es, d, c)} chgt(es, d, c) && 0 <= d && d < len(b) && b[d] <= c ==> nost(es, b)
  by { 0 <= d && d < len(b) ==> (forall i: Int :: {es[i]} 0 <= i && i < len(es) && starts(es[i].s, b) ==> take(es[i].s, len(b))[d] == b[d] && es[i].s[d] == b[d]) }
lemma nost_ne(es: Seq<TE>, b: Seq<Int>, p: Seq<Int>, c: Int) use nost, allp, hasp : {nost(es, b), allp(es, app(p, unit(c)))} allp(es, app(p, unit(c))) && len(p) < len(b) && b[len(p)] != c ==> nost(es, b)
  by { len(p) < len(b) ==> (forall i: Int :: {es[i]} 0 <= i && i < len(es) && starts(es[i].s, b) ==> take(es[i].s, len(b))[len(p)] == b[len(p)] && es[i].s[len(p)] == b[len(p)]);
       allp(es, app(p, unit(c))) ==> (forall i: Int :: {es[i]} 0 <= i && i < len(es) ==> take(es[i].s, len(p) + 1)[len(p)] == c && es[i].s[len(p)] == c) }
lemma allst_lt(es: Seq<TE>, b: Seq<Int>, d: Int, c: Int) use allst, chlt, allp : {allst(es, b), chlt(es, d, c)} chlt(es, d, c) && allp(es, b) && d == len(b) ==> allst(es, b)
lemma allst_gt(es: Seq<TE>, b: Seq<Int>, d: Int, c: Int) use allst, chgt, allp : {allst(es, b), chgt(es, d, c)} chgt(es, d, c) && allp(es, b) && d == len(b) ==> allst(es, b)
lemma allst_m(es: Seq<TE>, b: Seq<Int>, c: Int) use allst, allp, hasp_step : {allst(es, b), allp(es, app(b, unit(c)))} allp(es, app(b, unit(c))) ==> allst(es, b)
def pin(t: TT, b: Seq<Int>, p: Seq<Int>): Bool = !(t is TNil) && twf(t, p) && tint(t) && len(p) < len(b)
group pwalks
lemma pf_l(t: TT, b: Seq<Int>, p: Seq<Int>) use pfil_app, pfil_none, nost_ne, nost_gt, wf_allp, inner_ents : {pfil(tents(t), b), pfil(tents(t.l), b), twf(t, p)} pin(t, b, p) && b[len(p)] < t.ch ==> pfil(tents(t), b) == pfil(tents(t.l), b)
  by { pin(t, b, p) ==> twf(t.l, p) && twf(t.m, app(p, unit(t.ch))) && twf(t.r, p);
       pin(t, b, p) && b[len(p)] < t.ch ==> nost(tents(t.m), b) && nost(tents(t.r), b);
       pin(t, b, p) && b[len(p)] < t.ch ==> pfil(tents(t.m), b) == empty<TE> && pfil(tents(t.r), b) == empty<TE> && pfil(app(tents(t.l), app(tents(t.m), tents(t.r))), b) == pfil(tents(t.l), b) }
lemma pf_m(t: TT, b: Seq<Int>, p: Seq<Int>) use pfil_app, pfil_none, nost_lt, nost_gt, wf_allp, inner_ents : {pfil(tents(t), b), pfil(tents(t.m), b), twf(t, p)} pin(t, b, p) && b[len(p)] == t.ch ==> pfil(tents(t), b) == pfil(tents(t.m), b)
  by { pin(t, b, p) ==> twf(t.l, p) && twf(t.m, app(p, unit(t.ch))) && twf(t.r, p);
       pin(t, b, p) && b[len(p)] == t.ch ==> nost(tents(t.l), b) && nost(tents(t.r), b);
       pin(t, b, p) && b[len(p)] == t.ch ==> pfil(tents(t.l), b) == empty<TE> && pfil(tents(t.r), b) == empty<TE> && pfil(app(tents(t.l), app(tents(t.m), tents(t.r))), b) == pfil(tents(t.m), b) }
lemma pf_r(t: TT, b: Seq<Int>, p: Seq<Int>) use pfil_app, pfil_none, nost_ne, nost_lt, wf_allp, inner_ents : {pfil(tents(t), b), pfil(tents(t.r), b), twf(t, p)} pin(t, b, p) && b[len(p)] > t.ch ==> pfil(tents(t), b) == pfil(tents(t.r), b)
  by { pin(t, b, p) ==> twf(t.l, p) && twf(t.m, app(p, unit(t.ch))) && twf(t.r, p);
       pin(t, b, p) && b[len(p)] > t.ch ==> nost(tents(t.l), b) && nost(tents(t.m), b);
       pin(t, b, p) && b[len(p)] > t.ch ==> pfil(tents(t.l), b) == empty<TE> && pfil(tents(t.m), b) == empty<TE> && pfil(app(tents(t.l), app(tents(t.m), tents(t.r))), b) == pfil(tents(t.r), b) }
lemma pf_all(t: TT, b: Seq<Int>) use pfil_app, pfil_all, allst_lt, allst_gt, allst_m, wf_allp, inner_ents : {pfil(tents(t), b), twf(t, b)} !(t is TNil) && twf(t, b) && tint(t) ==> pfil(tents(t), b) == tents(t)
  by { !(t is TNil) && twf(t, b) && tint(t) ==> twf(t.l, b) && twf(t.m, app(b, unit(t.ch))) && twf(t.r, b);
       !(t is TNil) && twf(t, b) && tint(t) ==> allst(tents(t.l), b) && allst(tents(t.m), b) && allst(tents(t.r), b);
       !(t is TNil) && twf(t, b) && tint(t) ==> pfil(tents(t.l), b) == tents(t.l) && pfil(tents(t.m), b) == tents(t.m) && pfil(tents(t.r), b) == tents(t.r);
       !(t is TNil) && twf(t, b) && tint(t) ==> pfil(app(tents(t.l), app(tents(t.m), tents(t.r))), b) == app(tents(t.l), app(tents(t.m), tents(t.r))) }
lemma pf_leaf(t: TT, b: Seq<Int>) use pfil_unit, leaf_ents : {pfil(tents(t), b)} tleaf(t) ==> pfil(tents(t), b) == (starts(t.s, b) ? tents(t) : empty<TE>)
lemma pf_nil(t: TT, b: Seq<Int>) use pfil_nil : {pfil(tents(t), b)} t is TNil ==> pfil(tents(t), b) == empty<TE>
lemma pf_heads(H: Array<Int,*trie.TSTNode>, n: Int, b: Seq<Int>) induct n use headsok, pfil_nil, pfil_app, pfil_none, nost_ne, wf_allp : {pfil(tcat(H, n), b)} headsok(H) && n <= 256 && len(b) > 0 && 0 <= b[0] && b[0] < 256 ==> pfil(tcat(H, n), b) == (b[0] < n ? pfil(tents(hv(H[b[0]])), b) : empty<TE>)
  by { 0 < n && headsok(H) && n <= 256 ==> perm(ttn, H[n - 1]) && twf(hv(H[n - 1]), unit(n - 1));
       0 < n && headsok(H) && n <= 256 ==> allp(tents(hv(H[n - 1])), app(empty<Int>, unit(n - 1)));
       0 < n && headsok(H) && n <= 256 && len(b) > 0 && b[0] != n - 1 ==> nost(tents(hv(H[n - 1])), b);
       0 < n && headsok(H) && n <= 256 && len(b) > 0 && b[0] != n - 1 ==> pfil(tents(hv(H[n - 1])), b) == empty<TE> }
lemma heads_tree(H: Array<Int,*trie.TSTNode>, i: Int) use headsok : {headsok(H), H[i]} headsok(H) && 0 <= i && i < 256 ==> perm(ttn, H[i]) && twf(hv(H[i]), unit(i))
lemma pf_first(H: Array<Int,*trie.TSTNode>, b: Seq<Int>, es: Seq<TE>) use headsok, pf_heads : {headsok(H), pfil(es, b)} headsok(H) && es == tcat(H, 256) && len(b) > 0 && 0 <= b[0] && b[0] < 256 ==> perm(ttn, H[b[0]]) && twf(hv(H[b[0]]), unit(b[0])) && pfil(es, b) == pfil(tents(hv(H[b[0]])), b)
lemma arr_starts(A: Array<Int,Int>, o: Int, n: Int, b: Seq<Int>) use hasp : {hasp(arrseq(A, o, n), b)} n >= 0 ==> starts(arrseq(A, o, n), b) == (len(b) < n && arrseq(A, o, len(b)) == b)
  by { n >= 0 && len(b) < n ==> seqeq(take(arrseq(A, o, n), len(b)), arrseq(A, o, len(b))) }
func trie.(*TST).PrefixFind(self, prefix)(it) {
  reads slice(prefix; ?B) &*& let b = arrseq(B, prefix.off, len(prefix))
  borrows trie(self; ?es, ?q)
  entry ro slice(self.heads; ?H) &*& headsok(H) &*& es == tcat(H, 256)
  ensures kviter(it; ?r) &*& tes(r) == pfil(es, b) &*& allbs(r)
  loop 1 {
    inv next.n |-> ?x &*& next.d |-> ?d &*& 1 <= d &*& d <= len(b) &*& perm(ttn, x) &*& twf(hv(x), take(b, d)) &*& pfil(es, b) == pfil(tents(hv(x)), b) &*& root == nil
    decreases tsz(hv(x))
  }
  use heads_tree, tsz_pos, tsz_l, tsz_m, tsz_r, pf_first, pwalks, pfil_empty, tes_kents, tes_nil, allbs_nil, accs_pre, allt_pre, take_step, take_all, take_one, arr_starts
  tags C15
}
func trie.(*TST).PrefixFind$1 implements types.KVIterator { tags C15 }
func trie.(*TST).PrefixFind$2 implements types.KVIterator {
  loop 1 {
    inv tniter(tni; empty<BT>, ?g) &*& allt(g) &*& accs(g) == r
    decreases len(g)
  }
  use accss, accs
  tags C15
}
