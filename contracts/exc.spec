// Exception blocks (package exc).

// what was called, with which argument, in order
data Ev = Ev(f: Fn, x: Val) | Shut(c: Val)
pred trace(; h: Seq<Ev>) {
}
// what a call made after history h panics with (nil: it returns), and what it returns
ufun outc(h: Seq<Ev>, e: Ev): Val
ufun resc(h: Seq<Ev>, e: Ev): Val
def thrown(x: Val): Bool = implements<exc.Throwable>(x)

functype exc.call0(self)() {
  requires trace(; ?h)
  ensures trace(; app(h, unit(Ev(self, nil)))) &*& outc(h, Ev(self, nil)) == nil
  unwinds x: trace(; app(h, unit(Ev(self, nil)))) &*& x == outc(h, Ev(self, nil))
}
functype exc.call1(self, a)() {
  requires trace(; ?h)
  ensures trace(; app(h, unit(Ev(self, a)))) &*& outc(h, Ev(self, a)) == nil
  unwinds x: trace(; app(h, unit(Ev(self, a)))) &*& x == outc(h, Ev(self, a))
}
functype exc.call0r(self)(r) {
  requires trace(; ?h)
  ensures trace(; app(h, unit(Ev(self, nil)))) &*& outc(h, Ev(self, nil)) == nil &*& r == resc(h, Ev(self, nil))
  unwinds x: trace(; app(h, unit(Ev(self, nil)))) &*& x == outc(h, Ev(self, nil))
}
iface io.Closer.Close(c)(err) {
  requires trace(; ?h)
  ensures trace(; app(h, unit(Shut(c)))) &*& outc(h, Shut(c)) == nil &*& err == resc(h, Shut(c))
  unwinds x: trace(; app(h, unit(Shut(c)))) &*& x == outc(h, Shut(c))
}

// ------------------------------------------------------------ types at run time

ufun rtype(x: Val): Val
ufun rassign(a: Val, b: Val): Bool
ufun rkindof(a: Val): Int
ufun relem(a: Val): Val
ufun rptr(a: Val): Val
ufun rnfield(a: Val): Int
ufun rfield(a: Val, i: Int): Val
extern reflect.TypeOf(x)(t) {
  ensures t == rtype(x) &*& (x != nil ==> t != nil)
}
extern reflect.PtrTo(a)(t) {
  requires a != nil
  ensures t == rptr(a) &*& t != nil
}
iface reflect.Type.AssignableTo(a, b)(r) {
  requires b != nil
  ensures r == rassign(a, b)
}
iface reflect.Type.Kind(a)(r) {
  ensures r == rkindof(a)
}
iface reflect.Type.Elem(a)(r) {
  requires rkindof(a) == 22
  ensures r == relem(a) &*& r != nil
}
iface reflect.Type.NumField(a)(r) {
  requires rkindof(a) == 25
  ensures r == rnfield(a)
}
iface reflect.Type.Field(a, i)(r) {
  requires rkindof(a) == 25 && 0 <= i && i < rnfield(a)
  ensures r.Type == rfield(a, i) &*& r.Type != nil
}
// the type is that of b, or its first field is, or the first field of that, ...
fun embeds(a: Val, b: Val): Bool = rkindof(a) == 25 && rnfield(a) > 0 && (rassign(rptr(rfield(a, 0)), b) || embeds(rfield(a, 0), b))
def isaT(a: Val, b: Val): Bool = rassign(a, b) || rkindof(a) == 22 && rkindof(b) == 22 && embeds(relem(a), b)

func exc.isa(a, b)(r) {
  requires a != nil && b != nil
  ensures r == isaT(a, b)
  loop 1 {
    inv a != nil && b != nil &*& embeds(a, b) == embeds(relem(old(a)), b)
  }
  tags C24
}

// ------------------------------------------------------------ blocks

def okcs(cs: Seq<exc.catch>): Bool = forall i: Int :: {cs[i]} 0 <= i && i < len(cs) ==> cs[i].exception != nil && cs[i].catch != nil
def okfs(fs: Seq<Fn>): Bool = forall i: Int :: {fs[i]} 0 <= i && i < len(fs) ==> fs[i] != nil
pred blk(b: *exc.Block; f: Fn, cs: Seq<exc.catch>, fs: Seq<Fn>) {
  b.try |-> ?t &*& b.catches |-> ?c &*& slice(c; ?A) &*& b.finallies |-> ?g &*& slice(g; ?B)
    &*& f := t &*& cs := arrseq(A, c.off, len(c)) &*& fs := arrseq(B, g.off, len(g))
    &*& f != nil && okcs(cs) && okfs(fs) && c.cap <= MAXLEN && g.cap <= MAXLEN
  fact b != nil
}
func exc.Try(try)(b) {
  requires try != nil
  ensures blk(b; try, empty<exc.catch>, empty<Fn>)
  tags C24
}
func exc.(*Block).Catch(b, exc, do)(r) {
  requires blk(b; ?f, ?cs, ?fs) &*& exc != nil && do != nil
  ensures r == b &*& blk(b; f, app(cs, unit(mk<exc.catch>(rtype(exc), do))), fs)
  tags C24
}
func exc.(*Block).Finally(b, finally)(r) {
  requires blk(b; ?f, ?cs, ?fs) &*& finally != nil
  ensures r == b &*& blk(b; f, cs, app(fs, unit(finally)))
  tags C24
}

// the first handler that matches, the number of handlers if none does
fun fm(cs: Seq<exc.catch>, t: Val): Int = len(cs) <= 0 ? 0 : isaT(t, cs[0].exception) ? 0 : 1 + fm(drop(cs, 1), t)
fun fevs(fs: Seq<Fn>): Seq<Ev> = len(fs) <= 0 ? empty<Ev> : app(fevs(take(fs, len(fs) - 1)), unit(Ev(fs[len(fs) - 1], nil)))
// after the body, after the handler
def h1(h: Seq<Ev>, f: Fn): Seq<Ev> = app(h, unit(Ev(f, nil)))
def o1(h: Seq<Ev>, f: Fn): Val = outc(h, Ev(f, nil))
def hit(h: Seq<Ev>, f: Fn, cs: Seq<exc.catch>): Bool = o1(h, f) != nil && fm(cs, rtype(o1(h, f))) < len(cs)
def hev(h: Seq<Ev>, f: Fn, cs: Seq<exc.catch>): Ev = Ev(cs[fm(cs, rtype(o1(h, f)))].catch, o1(h, f))
def h2(h: Seq<Ev>, f: Fn, cs: Seq<exc.catch>): Seq<Ev> = hit(h, f, cs) ? app(h1(h, f), unit(hev(h, f, cs))) : h1(h, f)
def o2(h: Seq<Ev>, f: Fn, cs: Seq<exc.catch>): Val = hit(h, f, cs) ? outc(h1(h, f), hev(h, f, cs)) : o1(h, f)
// during the finally functions
def h3(h: Seq<Ev>, fs: Seq<Fn>, n: Int): Seq<Ev> = app(h, fevs(take(fs, n)))
def o3(h: Seq<Ev>, fs: Seq<Fn>, n: Int): Val = outc(h3(h, fs, n), Ev(fs[n], nil))
def quiet(h: Seq<Ev>, fs: Seq<Fn>, n: Int): Bool = forall i: Int :: {fs[i]} 0 <= i && i < n ==> o3(h, fs, i) == nil
// the block ran to its end and reports x
def ended(h: Seq<Ev>, hh: Seq<Ev>, f: Fn, cs: Seq<exc.catch>, fs: Seq<Fn>, x: Val): Bool =
  x == o2(h, f, cs) && (o1(h, f) == nil || thrown(o1(h, f))) && (x == nil || thrown(x))
    && quiet(h2(h, f, cs), fs, len(fs)) && hh == h3(h2(h, f, cs), fs, len(fs))
// the block was left by the panic x: an ordinary panic of the body or of the handler, or any of a finally function
def left(h: Seq<Ev>, hh: Seq<Ev>, f: Fn, cs: Seq<exc.catch>, fs: Seq<Fn>, x: Val): Bool =
  x == o1(h, f) && !thrown(x) && hh == h1(h, f)
  || (o1(h, f) == nil || thrown(o1(h, f))) && hit(h, f, cs) && x == o2(h, f, cs) && !thrown(x) && hh == h2(h, f, cs)
  || (o1(h, f) == nil || thrown(o1(h, f))) && (o2(h, f, cs) == nil || thrown(o2(h, f, cs)))
     && let n = len(hh) - len(h2(h, f, cs)) - 1 in 0 <= n && n < len(fs) && quiet(h2(h, f, cs), fs, n) && x == o3(h2(h, f, cs), fs, n) && hh == h3(h2(h, f, cs), fs, n + 1)

group evs
lemma fevs_len(fs: Seq<Fn>) induct fs : {len(fevs(fs))} len(fevs(fs)) == len(fs)
lemma fevs_next(fs: Seq<Fn>, n: Int) : {fevs(take(fs, n + 1))} 0 <= n && n < len(fs) ==> fevs(take(fs, n + 1)) == app(fevs(take(fs, n)), unit(Ev(fs[n], nil)))
  by { 0 <= n && n < len(fs) ==> seqeq(take(take(fs, n + 1), n), take(fs, n)) }

func exc.(*Block).run(b)(err) {
  requires trace(; ?h)
  reads blk(b; ?f, ?cs, ?fs)
  ensures trace(; ?hh) &*& ended(h, hh, f, cs, fs, err)
  unwinds x: trace(; ?hh) &*& left(h, hh, f, cs, fs, x)
  inlines exc.(*Block).exec, exc.Try
  loop 1 {
    inv trace(; h1(h, f)) &*& -1 <= rangeindex && rangeindex < len(cs) &*& err == o1(h, f) && thrown(err)
      && fm(cs, t) == rangeindex + 1 + fm(drop(cs, rangeindex + 1), t)
  }
  use evs
  loop 2 {
    inv trace(; h3(h2(h, f, cs), fs, rangeindex + 1)) &*& -1 <= rangeindex && rangeindex < len(fs) && quiet(h2(h, f, cs), fs, rangeindex + 1)
  }
  tags C24
}
func exc.(*Block).Unwind(b)() {
  requires trace(; ?h)
  reads blk(b; ?f, ?cs, ?fs)
  ensures trace(; ?hh) &*& ended(h, hh, f, cs, fs, nil)
  unwinds x: trace(; ?hh) &*& (x != nil && ended(h, hh, f, cs, fs, x) || left(h, hh, f, cs, fs, x))
  tags C24
}
func exc.(*Block).Error(b)(err) {
  requires trace(; ?h)
  reads blk(b; ?f, ?cs, ?fs)
  ensures trace(; ?hh) &*& ended(h, hh, f, cs, fs, err)
  unwinds x: trace(; ?hh) &*& left(h, hh, f, cs, fs, x)
  tags C24
}
func exc.(*Block).Exception(b)(err) {
  requires trace(; ?h)
  reads blk(b; ?f, ?cs, ?fs)
  ensures trace(; ?hh) &*& ended(h, hh, f, cs, fs, err)
  unwinds x: trace(; ?hh) &*& left(h, hh, f, cs, fs, x)
  tags C24
}

// ------------------------------------------------------------ throwing

pred exn(e: *exc.Exception; es: Seq<*exc.Error>) {
  e.Errors |-> ?sl &*& slice(sl; ?A) &*& es := arrseq(A, sl.off, len(sl)) &*& sl.cap <= MAXLEN
  fact e != nil
}
pred errv(e: *exc.Error; x: Val) {
  e.Err |-> ?y &*& e.Stack |-> ?s &*& slice(s; _) &*& x := y
  fact e != nil
}
func exc.Errorf(format, args)(e) {
  ensures errv(e; ?x) &*& x != nil
  tags C24
}
func exc.FromError(err)(e) {
  ensures errv(e; err)
  tags C24
}
func exc.(*Error).Exception(e)(x) {
  ensures exn(x; unit(e))
  tags C24
}
func exc.(*Exception).Exc(e)(r) {
  ensures r == e
  tags C24
}
func exc.(*Exception).Chain(e, err)(r) {
  requires exn(e; ?es)
  ensures exn(e; app(es, unit(err))) &*& r == box<*exc.Exception>(e)
  tags C24
}
func exc.(*Exception).Join(e, exc)(r) {
  reads exn(e; ?es) &*& exn(exc; ?fs)
  ensures exn(r; app(es, fs))
  tags C24
}
func exc.throw(e)() {
  ensures false
  unwinds x: x == e
  tags C24
}
func exc.Throw(e)() {
  ensures false
  unwinds x: x == e
  tags C24
}
func exc.ThrowErr(e)() {
  ensures false
  unwinds x: typeof(x) == typeid(*exc.Exception) &*& exn(unbox<*exc.Exception>(x); unit(e))
  tags C24
}
func exc.Throwf(format, args)() {
  ensures false
  unwinds x: typeof(x) == typeid(*exc.Exception) &*& exn(unbox<*exc.Exception>(x); ?es) &*& len(es) == 1 &*& errv(es[0]; ?y) &*& y != nil
  tags C24
}
func exc.ThrowOnError(err)() {
  ensures err == nil
  unwinds x: err != nil &*& typeof(x) == typeid(*exc.Exception) &*& exn(unbox<*exc.Exception>(x); ?es) &*& len(es) == 1 &*& errv(es[0]; err)
  tags C24
}
ufun chained(e: Val, err: *exc.Error): Val
iface exc.Throwable.Chain(e, err)(r) {
  ensures r == chained(e, err)
}
func exc.Rethrow(e, err)() {
  requires e != nil
  ensures false
  unwinds x: x == chained(e, err)
  tags C24
}

// ------------------------------------------------------------ closing

pred closing(f: Fn; mkr: Fn, body: Fn) {
  case closure exc.Close$1 => *makeCloser |-> ?m &*& *try |-> ?t &*& *c |-> ?c0 &*& c0 == nil &*& m != nil && t != nil &*& mkr := m &*& body := t
  fact f != nil
}
func exc.Close(makeCloser, try)(b) {
  requires makeCloser != nil && try != nil
  ensures blk(b; ?f, empty<exc.catch>, empty<Fn>) &*& closing(f; makeCloser, try)
  tags C24
}
def hm(h: Seq<Ev>, mkr: Fn): Seq<Ev> = app(h, unit(Ev(mkr, nil)))
def om(h: Seq<Ev>, mkr: Fn): Val = outc(h, Ev(mkr, nil))
def got(h: Seq<Ev>, mkr: Fn): Val = resc(h, Ev(mkr, nil))
def hb(h: Seq<Ev>, mkr: Fn, body: Fn): Seq<Ev> = app(hm(h, mkr), unit(Ev(body, got(h, mkr))))
def ob(h: Seq<Ev>, mkr: Fn, body: Fn): Val = outc(hm(h, mkr), Ev(body, got(h, mkr)))
def hs(h: Seq<Ev>, mkr: Fn, body: Fn): Seq<Ev> = app(hb(h, mkr, body), unit(Shut(got(h, mkr))))
def os(h: Seq<Ev>, mkr: Fn, body: Fn): Val = outc(hb(h, mkr, body), Shut(got(h, mkr)))
def rs(h: Seq<Ev>, mkr: Fn, body: Fn): Val = resc(hb(h, mkr, body), Shut(got(h, mkr)))
// the closer is made, used and closed, once each; it is closed also when the body throws
func exc.Close$1(self)() {
  requires trace(; ?h) &*& closing(self; ?mkr, ?body)
  ensures trace(; ?hh) &*& om(h, mkr) == nil && ob(h, mkr, body) == nil
    && (got(h, mkr) == nil ? hh == hb(h, mkr, body) : hh == hs(h, mkr, body) && os(h, mkr, body) == nil && rs(h, mkr, body) == nil)
  unwinds x: trace(; ?hh) &*& (om(h, mkr) != nil ? x == om(h, mkr) && hh == hm(h, mkr)
    : ob(h, mkr, body) != nil && !thrown(ob(h, mkr, body)) || got(h, mkr) == nil ? x == ob(h, mkr, body) && hh == hb(h, mkr, body)
    : hh == hs(h, mkr, body) && (os(h, mkr, body) != nil ? x == os(h, mkr, body) : rs(h, mkr, body) != nil ? typeof(x) == typeid(*exc.Exception) : x == ob(h, mkr, body)))
  inlines exc.Try, exc.(*Block).Finally, exc.(*Block).Unwind, exc.(*Block).run unroll 2, exc.(*Block).exec
  tags C24
}
