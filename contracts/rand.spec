// The source of random numbers behind a lock.

// the generator is the one with state st; whoever has this may draw from it
pred gen(s: Val; st: Int) {
  fact s != nil
}
ufun nextst(st: Int): Int
ufun seedst(seed: Int): Int
ufun out63(st: Int): Int
ufun out64(st: Int): Int

iface stdrand.Source.Int63(s)(n) {
  requires gen(s; ?st)
  ensures gen(s; nextst(st)) &*& n == out63(st)
}
iface stdrand.Source64.Uint64(s)(n) {
  requires gen(s; ?st)
  ensures gen(s; nextst(st)) &*& n == out64(st)
}
iface stdrand.Source.Seed(s, seed)() {
  requires gen(s; _)
  ensures gen(s; seedst(seed))
}
extern stdrand.NewSource(seed)(s) {
  ensures gen(s; seedst(seed)) &*& implements<stdrand.Source64>(s)
}

// A lock of a locked source.  unlocked(m; r, l): the caller does not hold the
// lock m, which guards the generator of r; l lists, for each time the caller
// has held it, the state in which the generator was found and was left.
// Taking the lock gives the generator to the caller, releasing it needs the
// generator back.
pred unlocked(m: *sync.Mutex; r: *rand.lockedSource, l: Seq<Int>) {
  fact r != nil
}
pred holding(m: *sync.Mutex; r: *rand.lockedSource, l: Seq<Int>, st: Int) {
}
pred source(r: *rand.lockedSource; st: Int) {
  r.src |-> ?s &*& gen(s; ?st2) &*& st := st2
  fact r != nil
}
extern sync.(*Mutex).Lock(m)() {
  requires unlocked(m; ?r, ?l)
  ensures holding(m; r, l, ?st) &*& source(r; st)
}
extern sync.(*Mutex).Unlock(m)() {
  requires holding(m; ?r, ?l, ?st) &*& source(r; ?st2)
  ensures unlocked(m; r, app(l, app(unit(st), unit(st2))))
}

// the caller held the lock once more and moved the generator from st to st2
def section(l: Seq<Int>, l2: Seq<Int>, st: Int, st2: Int): Bool = l2 == app(l, app(unit(st), unit(st2)))

func rand.(*lockedSource).Int63(r)(n) {
  requires unlocked(r.lk; r, ?l)
  ensures unlocked(r.lk; r, ?l2) &*& let st = l2[len(l)] &*& section(l, l2, st, nextst(st)) &*& n == out63(st)
  tags C25
}
func rand.(*lockedSource).Uint64(r)(n) {
  requires unlocked(r.lk; r, ?l)
  ensures unlocked(r.lk; r, ?l2) &*& let st = l2[len(l)] &*& section(l, l2, st, nextst(st)) &*& n == out64(st)
  tags C25
}
func rand.(*lockedSource).Seed(r, seed)() {
  requires unlocked(r.lk; r, ?l)
  ensures unlocked(r.lk; r, ?l2) &*& section(l, l2, l2[len(l)], seedst(seed))
  tags C25
}
func rand.(*lockedSource).seedPos(r, seed, readPos)() {
  requires unlocked(r.lk; r, ?l) &*& *readPos |-> _
  ensures unlocked(r.lk; r, ?l2) &*& section(l, l2, l2[len(l)], seedst(seed)) &*& *readPos |-> 0
  tags C25
}

// a function that draws from a generator
pred genfn(f: Fn; st: Int) {
  case closure stdrand.(Source).Int63$bound => gen(recv; ?st2) &*& st := st2
  fact f != nil
}
functype rand.read.call(self)(n) {
  requires genfn(self; ?st)
  ensures genfn(self; nextst(st)) &*& n == out63(st)
}
func stdrand.(Source).Int63$bound implements rand.read.call {
  tags C25
}
// the state after so many draws
fun after(st: Int, n: Int): Int = n <= 0 ? st : nextst(after(st, n - 1))
// the bytes handed out: seven from each number, low first
func rand.read(p, int63, readVal, readPos)(n, err) {
  requires slice(p; ?A) &*& genfn(int63; ?st) &*& *readVal |-> ?v &*& *readPos |-> ?q &*& 0 <= q && q <= 7
  ensures slice(p; ?B) &*& genfn(int63; ?st2) &*& *readVal |-> _ &*& *readPos |-> ?q2 &*& 0 <= q2 && q2 <= 7
  ensures n == len(p) && err == nil
  loop 1 {
    inv 0 <= n && n <= len(p) &*& slice(p; _) &*& genfn(int63; _) &*& 0 <= pos && pos <= 7
    decreases len(p) - n
  }
  tags C25
}
func rand.(*lockedSource).read(r, p, readVal, readPos)(n, err) {
  requires unlocked(r.lk; r, ?l) &*& slice(p; ?A) &*& *readVal |-> ?v &*& *readPos |-> ?q &*& 0 <= q && q <= 7
  ensures unlocked(r.lk; r, ?l2) &*& len(l2) == len(l) + 2 && take(l2, len(l)) == l
  ensures slice(p; ?B) &*& *readVal |-> _ &*& *readPos |-> ?q2 &*& 0 <= q2 && q2 <= 7
  ensures n == len(p) && err == nil
  tags C25
}
// what is made of a source uses it from then on
extern stdrand.New(src)(r) {
  requires typeof(src) == typeid(*rand.lockedSource) &*& let x = unbox<*rand.lockedSource>(src) &*& source(x; ?st) &*& *x.lk |-> _
  ensures r != nil &*& randfrom(r; x, st)
}
pred randfrom(r: *stdrand.Rand; x: *rand.lockedSource, st: Int) {
}
func rand.ThreadSafeRand(seed)(r) {
  ensures r != nil &*& randfrom(r; ?x, seedst(seed))
  tags C25
}
