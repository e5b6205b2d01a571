// Basic vocabulary: element laws, optional values, the contracts of the
// element interfaces and of the external functions the repository calls.

data Opt = None | Some(v: Val)
data KV = KV(k: Val, v: Val)

// hashOf: equal elements have equal hashes
ufun hashOf(r: Int): Int

// division by something other than a constant
opaque idiv(a: Int, b: Int): Int = rawdiv(a, b)
opaque imod(a: Int, b: Int): Int = rawmod(a, b)
lemma imod_range(a: Int, b: Int) use imod : {imod(a, b)} b > 0 ==> 0 <= imod(a, b) && imod(a, b) < b && (0 <= a && a < b ==> imod(a, b) == a)

fun pow2(n: Int): Int = n <= 0 ? 1 : 2 * pow2(n - 1)

def nonnil(s: Seq<Val>): Bool = forall i: Int :: {s[i]} 0 <= i && i < len(s) ==> s[i] != nil
def has(s: Seq<Val>, x: Val): Bool = exists i: Int :: {s[i]} 0 <= i && i < len(s) && rank(s[i]) == rank(x)

iface types.Equatable.Equals(a, b)(r) {
  ensures r == (rank(a) == rank(b))
}
iface types.Sortable.Less(a, b)(r) {
  ensures r == (rank(a) < rank(b))
}
iface types.Hashable.Hash(a)(r) {
  ensures r == hashOf(rank(a))
}

// ------------------------------------------------------------ iterators

// kiter(f; r): calling f yields the items of r in order
pred kiter(f: Fn; r: Seq<Val>) {
  fact f != nil
}

functype types.KIterator(self)(key, next) {
  requires kiter(self; ?r)
  ensures len(r) > 0 ? key == r[0] &*& next != nil &*& kiter(next; drop(r, 1)) : key == nil &*& next == nil
}

// ------------------------------------------------------------ errors

extern runtime.Stack(buf, all)(n) {
  requires slice(buf; _)
  ensures slice(buf; _) &*& 0 <= n && n <= len(buf)
}
extern fmt.Errorf(format, args)(err) {
  ensures err != nil
}
func errors.Errorf(format, args)(err) {
  ensures err != nil
}

// ------------------------------------------------------------ strings

// the order of strings: byte by byte
fun strlt(a: Seq<Int>, b: Seq<Int>): Bool = len(b) <= 0 ? false : len(a) <= 0 ? true : a[0] < b[0] || (a[0] == b[0] && strlt(drop(a, 1), drop(b, 1)))
group strorder
lemma strlt_irr(a: Seq<Int>) induct a : {strlt(a, a)} !strlt(a, a)
lemma strlt_tot(a: Seq<Int>, b: Seq<Int>) induct a : {strlt(a, b)} strlt(a, b) || strlt(b, a) || a == b
  by { len(a) > 0 && len(b) > 0 ==> a == app(unit(a[0]), drop(a, 1)) && b == app(unit(b[0]), drop(b, 1)); len(a) > 0 && len(b) > 0 ==> strlt(drop(a, 1), drop(b, 1)) || strlt(drop(b, 1), drop(a, 1)) || drop(a, 1) == drop(b, 1) }
lemma strlt_asym(a: Seq<Int>, b: Seq<Int>) induct a : {strlt(a, b)} strlt(a, b) ==> !strlt(b, a)
lemma strlt_trans(a: Seq<Int>, b: Seq<Int>, c: Seq<Int>) induct a : {strlt(a, b), strlt(b, c)} strlt(a, b) && strlt(b, c) ==> strlt(a, c)
