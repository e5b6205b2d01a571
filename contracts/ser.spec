// Serialization of array lists, sorted lists and sorted sets.

opaque unle4(s: Seq<Int>): Int = s[0] + 256 * s[1] + 65536 * s[2] + 16777216 * s[3]
lemma le4_un(x: Int) use le4, unle4 : {unle4(le4(x))} 0 <= x && x < 4294967296 ==> unle4(le4(x)) == x
  by { le4(x)[0] == x % 256 && le4(x)[1] == (x / 256) % 256 && le4(x)[2] == (x / 65536) % 256 && le4(x)[3] == (x / 16777216) % 256;
       0 <= x && x < 4294967296 ==> x % 256 + 256 * ((x / 256) % 256) + 65536 * ((x / 65536) % 256) + 16777216 * ((x / 16777216) % 256) == x }
lemma le4_len(x: Int) use le4 : {le4(x)} len(le4(x)) == 4
extern binary.(littleEndian).Uint32(e, b)(x) {
  requires len(b) >= 4
  reads slice(b; ?A)
  ensures x == unle4(arrseq(A, b.off, 4)) && 0 <= x && x < 4294967296
}

// the parts of a slice of byte slices, and what they hold in a row
pred seg(x: []byte; c: Seq<Int>) {
  slice(x; ?A) &*& c := arrseq(A, x.off, len(x))
}
pred segs(q: Seq<Slice>; c: Seq<Int>) {
  len(q) <= 0 ? c := empty<Int> : segs(take(q, len(q) - 1); ?c0) &*& seg(q[len(q) - 1]; ?c1) &*& c := app(c0, c1)
}
extern bytes.Join(s, sep)(r) {
  requires len(sep) == 0
  reads slice(s; ?I) &*& segs(arrseq(I, s.off, len(s)); ?c)
  ensures slice(r; ?B) &*& arrseq(B, r.off, len(r)) == c
}

// an item is its length followed by its encoding
fun encit(k: Int, s: Seq<Val>): Seq<Int> = len(s) <= 0 ? empty<Int> : app(app(encit(k, take(s, len(s) - 1)), le4(len(encof(k, s[len(s) - 1])))), encof(k, s[len(s) - 1]))
opaque enchdr(fx: Bool, cp: Int, n: Int): Seq<Int> = app(app(unit(fx ? 1 : 0), le4(fx ? cp : n)), le4(n))
opaque enclist(k: Int, fx: Bool, cp: Int, s: Seq<Val>): Seq<Int> = app(enchdr(fx, cp, len(s)), encit(k, s))
def serok(k: Int, s: Seq<Val>): Bool = forall i: Int :: {s[i]} 0 <= i && i < len(s) ==> s[i] != nil && okv(k, s[i]) && len(encof(k, s[i])) < 4294967296

lemma encit_step(k: Int, s: Seq<Val>, j: Int, j1: Int) : {encit(k, take(s, j1)), take(s, j)} 0 <= j && j1 == j + 1 && j1 <= len(s) ==> encit(k, take(s, j1)) == app(app(encit(k, take(s, j)), le4(len(encof(k, s[j])))), encof(k, s[j]))
  by { 0 <= j && j1 == j + 1 && j1 <= len(s) ==> seqeq(take(take(s, j1), j), take(s, j)) && take(s, j1)[j] == s[j] }
lemma encit_pre(k: Int, s: Seq<Val>, i: Int) induct s : {encit(k, s), encit(k, take(s, i))} 0 <= i && i <= len(s) ==> len(encit(k, take(s, i))) <= len(encit(k, s)) && take(encit(k, s), len(encit(k, take(s, i)))) == encit(k, take(s, i))
  by { 0 <= i && i < len(s) ==> seqeq(take(take(s, len(s) - 1), i), take(s, i)); i == len(s) ==> seqeq(take(s, i), s);
       0 <= i && i < len(s) ==> len(encit(k, take(s, i))) <= len(encit(k, take(s, len(s) - 1))) && take(encit(k, take(s, len(s) - 1)), len(encit(k, take(s, i)))) == encit(k, take(s, i));
       0 <= i && i < len(s) ==> seqeq(take(encit(k, s), len(encit(k, take(s, i)))), take(encit(k, take(s, len(s) - 1)), len(encit(k, take(s, i))))) }

// n items of c from the i-th on
opaque win(c: Seq<Int>, i: Int, n: Int): Seq<Int> = take(drop(c, i), n)
lemma arr_sub(A: Array<Int,Int>, o: Int, m: Int, p: Int, n: Int) use win : {arrseq(A, p, n), arrseq(A, o, m)} o <= p && 0 <= n && p + n <= o + m ==> arrseq(A, p, n) == win(arrseq(A, o, m), p - o, n)
  by { o <= p && 0 <= n && p + n <= o + m ==> seqeq(arrseq(A, p, n), take(drop(arrseq(A, o, m), p - o), n)) }
lemma enc_hdr(k: Int, fx: Bool, cp: Int, s: Seq<Val>) use win, enclist, enchdr, le4_len : {enclist(k, fx, cp, s)}
  len(enclist(k, fx, cp, s)) == 9 + len(encit(k, s)) && enclist(k, fx, cp, s)[0] == (fx ? 1 : 0)
  && win(enclist(k, fx, cp, s), 1, 4) == le4(fx ? cp : len(s)) && win(enclist(k, fx, cp, s), 5, 4) == le4(len(s))
  by { seqeq(take(drop(enclist(k, fx, cp, s), 1), 4), le4(fx ? cp : len(s))); seqeq(take(drop(enclist(k, fx, cp, s), 5), 4), le4(len(s))) }
lemma encit_at(k: Int, s: Seq<Val>, i: Int) use encit_step, encit_pre, le4_len : {encit(k, s), encit(k, take(s, i))} 0 <= i && i < len(s) ==>
  (let o = len(encit(k, take(s, i))) in let n = len(encof(k, s[i])) in o + 4 + n <= len(encit(k, s)) && take(drop(encit(k, s), o), 4) == le4(n) && take(drop(encit(k, s), o + 4), n) == encof(k, s[i]))
  by { 0 <= i && i < len(s) ==> encit(k, take(s, i + 1)) == app(app(encit(k, take(s, i)), le4(len(encof(k, s[i])))), encof(k, s[i]));
       0 <= i && i < len(s) ==> take(encit(k, s), len(encit(k, take(s, i + 1)))) == encit(k, take(s, i + 1)) && len(encit(k, take(s, i + 1))) <= len(encit(k, s));
       0 <= i && i < len(s) ==> seqeq(take(drop(encit(k, s), len(encit(k, take(s, i)))), 4), le4(len(encof(k, s[i]))));
       0 <= i && i < len(s) ==> seqeq(take(drop(encit(k, s), len(encit(k, take(s, i))) + 4), len(encof(k, s[i]))), encof(k, s[i])) }
lemma enc_at(k: Int, fx: Bool, cp: Int, s: Seq<Val>, i: Int) use win, enclist, enchdr, encit_at, enc_hdr : {enclist(k, fx, cp, s), encit(k, take(s, i))} 0 <= i && i < len(s) ==>
  (let o = 9 + len(encit(k, take(s, i))) in let n = len(encof(k, s[i])) in o + 4 + n <= len(enclist(k, fx, cp, s)) && win(enclist(k, fx, cp, s), o, 4) == le4(n) && win(enclist(k, fx, cp, s), o + 4, n) == encof(k, s[i]))
  by { drop(enclist(k, fx, cp, s), 9) == encit(k, s) }

lemma samer_push(a: Seq<Val>, b: Seq<Val>, x: Val, i: Int, j: Int) : {samer(app(a, unit(x)), take(b, j)), take(b, i)} 0 <= i && j == i + 1 && j <= len(b) && samer(a, take(b, i)) && rank(x) == rank(b[i]) ==> samer(app(a, unit(x)), take(b, j))

pred mlst(m: *list.MList; s: Seq<Val>, cp: Int, fx: Bool, k: Int) {
  lst(m.List; ?s2, ?c2, ?f2) &*& m.MarshalItem |-> ?f &*& imm marsh(f; ?k2) &*& m.UnmarshalItem |-> ?g &*& imm unmarsh(g; k2) &*& s := s2 &*& cp := c2 &*& fx := f2 &*& k := k2
  fact m != nil && 0 <= len(s) && len(s) <= cp && cp <= MAXLEN
}
func list.NewMList(l, f, g)(m) {
  requires lst(l; ?s, ?cp, ?fx) &*& imm marsh(f; ?k) &*& imm unmarsh(g; k)
  ensures mlst(m; s, cp, fx, k)
  tags C22
}
func list.(*MList).MarshalBinary(m)(bs, err) {
  reads mlst(m; ?s, ?cp, ?fx, ?k) &*& serok(k, s) &*& len(s) < 4294967296 &*& (fx ==> cp < 4294967296)
  ensures err == nil &*& slice(bs; ?B) &*& arrseq(B, bs.off, len(bs)) == enclist(k, fx, cp, s)
  loop 1 {
    inv next != nil ? kiter(next; ?r1) &*& let z = len(s) - len(r1) - 1 &*& 0 <= z &*& r1 == drop(s, z + 1) &*& item == s[z] : let z = len(s)
    inv items.off == 0 &*& slice(items; ?I) &*& segs(arrseq(I, items.off, len(items)); app(enchdr(fx, cp, len(s)), encit(k, take(s, z))))
    decreases len(s) - z
  }
  use encit_step, enchdr, enclist
  joinappend
  tags C22
}

// what a caller says the data encodes; the contracts hold whatever it says
ufun gfx(c: Seq<Int>): Bool
ufun gcp(c: Seq<Int>): Int
ufun gs(c: Seq<Int>): Seq<Val>
def encoded(k: Int, c: Seq<Int>): Bool =
  c == enclist(k, gfx(c), gcp(c), gs(c)) && serok(k, gs(c)) && len(gs(c)) < 4294967296 && (gfx(c) ==> len(gs(c)) <= gcp(c) && gcp(c) < 4294967296)

func list.(*MList).UnmarshalBinary(m, bytes)(err) {
  requires mlst(m; _, _, _, ?k)
  reads slice(bytes; ?A) &*& let c = arrseq(A, bytes.off, len(bytes)) &*& encoded(k, c)
  ensures err == nil &*& mlst(m; ?s, ?cp, gfx(c), k) &*& samer(s, gs(c)) &*& nonnil(s) &*& (gfx(c) ==> cp == gcp(c))
  loop 1 {
    inv 0 <= i && i <= len(gs(c)) && off == 9 + len(encit(k, take(gs(c), i)))
    inv mlst(m; ?s1, ?c1, gfx(c), k) &*& samer(s1, take(gs(c), i)) &*& nonnil(s1) &*& (gfx(c) ==> c1 == gcp(c))
    decreases len(gs(c)) - i
  }
  use encit_step, enc_at, enc_hdr, arr_sub, le4_un, le4_len, samer_push
  tags C22
}

// ------------------------------------------------------------ sorted lists and sets

pred msrt(m: *list.MSorted; s: Seq<Val>, cp: Int, fx: Bool, dup: Bool, k: Int) {
  mlst(m.MList; ?s2, ?c2, ?f2, ?k2) &*& m.AllowDups |-> ?d2 &*& s := s2 &*& cp := c2 &*& fx := f2 &*& dup := d2 &*& k := k2
  fact m != nil && 0 <= len(s) && len(s) <= cp && cp <= MAXLEN
}
func list.NewMSorted(l, f, g)(m) {
  requires srt(l; ?s, ?cp, ?fx, ?dup) &*& imm marsh(f; ?k) &*& imm unmarsh(g; k)
  ensures msrt(m; s, cp, fx, dup, k) &*& sortedq(s, dup) &*& nonnil(s)
  tags C22
}
func list.(*MSorted).Sorted(m)(l) {
  requires msrt(m; ?s, ?cp, ?fx, ?dup, ?k) &*& sortedq(s, dup) &*& nonnil(s)
  ensures srt(l; s, cp, fx, dup)
  tags C22
}
func list.(*MSorted).MarshalBinary(m)(bs, err) {
  reads msrt(m; ?s, ?cp, ?fx, ?dup, ?k) &*& serok(k, s) &*& len(s) < 4294967296 &*& (fx ==> cp < 4294967296)
  ensures err == nil &*& slice(bs; ?B) &*& arrseq(B, bs.off, len(bs)) == app(unit(dup ? 1 : 0), enclist(k, fx, cp, s))
  tags C22
}
func list.(*MSorted).UnmarshalBinary(m, bytes)(err) {
  requires msrt(m; _, _, _, _, ?k)
  reads slice(bytes; ?A) &*& let c = arrseq(A, bytes.off + 1, len(bytes) - 1) &*& len(bytes) >= 1 &*& encoded(k, c)
  ensures err == nil &*& msrt(m; ?s, ?cp, gfx(c), ?dup, k) &*& samer(s, gs(c)) &*& nonnil(s) &*& (gfx(c) ==> cp == gcp(c))
  ensures (A[bytes.off] == 1 ==> dup) && (A[bytes.off] == 0 ==> !dup)
  ensures forall d: Bool :: {sortedd(gs(c), d)} sortedd(gs(c), d) ==> sortedd(s, d)
  use same_sorted
  tags C22
}
fun sortedd(q: Seq<Val>, d: Bool): Bool = sortedq(q, d)
lemma same_sorted(a: Seq<Val>, b: Seq<Val>, d: Bool) : {samer(a, b), sortedd(b, d)} samer(a, b) && sortedd(b, d) ==> sortedd(a, d)

pred msset(m: *set.MSortedSet; s: Seq<Val>, cp: Int, fx: Bool, dup: Bool, k: Int) {
  msrt(m.MSorted; ?s2, ?c2, ?f2, ?d2, ?k2) &*& s := s2 &*& cp := c2 &*& fx := f2 &*& dup := d2 &*& k := k2
  fact m != nil && 0 <= len(s) && len(s) <= cp && cp <= MAXLEN
}
func set.NewMSortedSet(l, f, g)(m) {
  requires sset(l; ?s) &*& imm marsh(f; ?k) &*& imm unmarsh(g; k)
  ensures msset(m; s, _, false, false, k) &*& sortedq(s, false) &*& nonnil(s)
  tags C22
}
func set.(*MSortedSet).SortedSet(m)(l) {
  requires msset(m; ?s, ?cp, ?fx, ?dup, ?k) &*& fx == false &*& dup == false &*& sortedq(s, dup) &*& nonnil(s)
  ensures sset(l; s)
  tags C22
}
