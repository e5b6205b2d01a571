// The worker pool (package pool), in a concurrent separation logic: what a
// thread may do is a matter of tokens it holds, and every token has one owner.
//
// A locker l (the mutex of the condition variable) guards the counter: it is the
// number of functions that were accepted and are not finished.
//   bal(l; k)       of the counter's units, k are this thread's to pass on
//   todo(f; l)      f is to be called, once, on behalf of the pool of l
//   sent(f; l)      f was put on a channel of that pool
//   done(l; f)      f was called and has returned
//   busy(l; f,ch,g) this thread took f off ch and has not accounted for it yet
// A channel ch belongs to a locker and a wait group g:
//   sendend(ch; l, g)  may be sent to (and closed, when not lent)
//   recvend(ch; l, g)  the worker's end
//   drained(g; ch)     ch is closed and everything sent on it was received
//   slot(g)            one registration in the wait group
// The read/write mutex of a pool guards pstate: the list of workers and the
// sending ends of their channels. Readers are lent it.
pred freshlock(l: sync.Locker)
pred locked(l: sync.Locker; n: Int)
pred bal(l: sync.Locker; k: Int)
pred todo(f: Fn; l: sync.Locker) {
  fact f != nil
}
pred sent(f: Fn; l: sync.Locker)
pred done(l: sync.Locker; f: Fn)
pred busy(l: sync.Locker; f: Fn, ch: Ref, g: *sync.WaitGroup)
pred settled(ch: Ref; l: sync.Locker, g: *sync.WaitGroup)
pred unheard(l: sync.Locker)
pred heard(l: sync.Locker)
pred rawchan(ch: Ref)
pred sendend(ch: Ref; l: sync.Locker, g: *sync.WaitGroup)
pred closedch(ch: Ref)
pred drained(g: *sync.WaitGroup; ch: Ref)
pred slot(g: *sync.WaitGroup)
pred held(m: *sync.RWMutex; W: []*pool.worker, A: Array<Int,*pool.worker>)
pred rheld(m: *sync.RWMutex; W: []*pool.worker)
pred saw(m: *sync.RWMutex; W: []*pool.worker)
pred freed(l: sync.Locker)
pred gone(g: *sync.WaitGroup)
pred duty(g: *sync.WaitGroup; A: Array<Int,*pool.worker>, lo: Int, n: Int)

// the receiving end, when everything received so far was run, counted and announced
pred recvend(ch: Ref; l: sync.Locker, g: *sync.WaitGroup) {
  settled(ch; ?l2, ?g2) &*& heard(l2) &*& l := l2 &*& g := g2
}
ufun islock(l: sync.Locker): Bool
ufun cellof(l: sync.Locker): *int
ufun alldone(g: *sync.WaitGroup): Bool
// l guards the cell x
pred lkh(l: sync.Locker, x: *int) {
  islock(l) && cellof(l) == x && l != nil
  fact islock(l) && cellof(l) == x && l != nil
}
// handing the counter, at zero, to a new lock
step share(l: sync.Locker, x: *int) {
  requires freshlock(l) &*& *x |-> 0
  ensures lkh(l, x) &*& islock(l) && cellof(l) == x && l != nil
}
// a new channel is put in the service of a pool
step serve(ch: Ref, l: sync.Locker, g: *sync.WaitGroup) {
  requires rawchan(ch)
  ensures recvend(ch; l, g) &*& sendend(ch; l, g) &*& bal(l; 0)
}

extern sync.NewCond(l)(c) {
  requires l == box<*sync.Mutex>(unbox<*sync.Mutex>(l)) &*& *unbox<*sync.Mutex>(l) |-> _
  ensures c != nil && c.L == l && l != nil &*& freshlock(l)
}
iface sync.Locker.Lock(l)() {
  requires islock(l)
  ensures locked(l; ?n) &*& *cellof(l) |-> n &*& 0 <= n && n < 9223372036854775807
}
iface sync.Locker.Unlock(l)() {
  requires locked(l; ?n0) &*& *cellof(l) |-> ?n1 &*& bal(l; ?k) &*& n0 - 1 <= n1 && n1 <= n0 + 1
  requires n1 < n0 ? busy(l; ?f, ?ch, ?g) &*& done(l; f) &*& k > 0 : true
  ensures freed(l) &*& bal(l; k + n1 - n0) &*& (n1 < n0 ? settled(ch; l, g) : true)
}
extern sync.(*Cond).Wait(c)() {
  requires locked(c.L; ?n) &*& *cellof(c.L) |-> n
  ensures locked(c.L; ?n2) &*& *cellof(c.L) |-> n2 &*& 0 <= n2 && n2 < 9223372036854775807
}
extern sync.(*Cond).Broadcast(c)() {
  requires unheard(c.L)
  ensures heard(c.L)
}
extern sync.(*WaitGroup).Add(g, n)() {
  requires n == 1
  ensures slot(g)
}
extern sync.(*WaitGroup).Done(g)() {
  requires slot(g) &*& drained(g; _)
  ensures gone(g)
}
extern sync.(*WaitGroup).Wait(g)() {
  requires duty(g; ?A, ?lo, ?n) &*& all(shut, A, lo, n)
  ensures alldone(g)
}
extern stdrand.Intn(n)(r) {
  requires n > 0
  ensures 0 <= r && r < n
}
extern pool.chan.make(n)(ch) {
  ensures ch != nil &*& rawchan(ch)
}
extern pool.chan.send(ch, f)() {
  requires todo(f; ?l) &*& bal(l; ?k) &*& k > 0
  reads sendend(ch; l, _)
  ensures bal(l; k - 1) &*& sent(f; l)
}
extern pool.chan.recv(ch)(f, ok) {
  requires recvend(ch; ?l, ?g) &*& bal(l; ?k)
  ensures ok ? busy(l; f, ch, g) &*& unheard(l) &*& todo(f; l) &*& bal(l; k + 1) : drained(g; ch) &*& bal(l; k)
}
extern pool.chan.close(ch)() {
  requires sendend(ch; _, _)
  ensures closedch(ch)
}
// calling what was submitted
functype pool.call0(f)() {
  requires todo(f; ?l)
  ensures done(l; f)
}

// a worker whose channel is open, and one whose channel was closed
pred wkr(w: *pool.worker; l: sync.Locker, g: *sync.WaitGroup) {
  imm (w.in |-> ?ch) &*& sendend(ch; ?l2, ?g2) &*& l := l2 &*& g := g2
  fact w != nil
}
pred shut(w: *pool.worker) {
  imm (w.in |-> ?ch) &*& closedch(ch)
}
// what the mutex of pool p guards
pred pstate(p: *pool.Pool; W: []*pool.worker, A: Array<Int,*pool.worker>) {
  p.workers |-> ?W2 &*& slice(W2; ?A2) &*& imm (p.workCond |-> ?c) &*& all(wkr, A2, W2.off, len(W2); ?L, ?G)
    &*& (forall i: Int :: {L[i]} W2.off <= i && i < W2.off + len(W2) ==> L[i] == c.L)
    &*& (forall i: Int :: {G[i]} W2.off <= i && i < W2.off + len(W2) ==> G[i] == p.wg)
    &*& W := W2 &*& A := A2
}
extern sync.(*RWMutex).Lock(m)() {
  ensures held(m; ?W, ?A) &*& pstate(outer<pool.Pool>(m, mu); W, A)
}
extern sync.(*RWMutex).Unlock(m)() {
  requires held(m; ?W, ?A) &*& pstate(outer<pool.Pool>(m, mu); ?W2, ?A2)
  ensures duty(outer<pool.Pool>(m, mu).wg; A, W.off, W2 == W ? 0 : len(W))
}
extern sync.(*RWMutex).RLock(m)() {
  ensures rheld(m; ?W) &*& lent pstate(outer<pool.Pool>(m, mu); W, _)
}
extern sync.(*RWMutex).RUnlock(m)() {
  requires rheld(m; ?W) &*& lent pstate(outer<pool.Pool>(m, mu); W, _)
  ensures saw(m; W)
}

// a pool as its users know it
pred poolh(p: *pool.Pool; l: sync.Locker) {
  imm (p.workCond |-> ?c) &*& c != nil &*& lkh(c.L, p.workin) &*& l := c.L
  fact p != nil
}

func pool.(*worker).work(w)() {
  requires imm (w.in |-> ?ch) &*& imm (w.wg |-> ?g) &*& imm (w.workCond |-> ?c) &*& imm (w.workin |-> ?x)
  requires c != nil && g != nil &*& lkh(c.L, x) &*& recvend(ch; c.L, g) &*& bal(c.L; 0) &*& slot(g)
  ensures bal(c.L; 0) &*& gone(g)
  loop 1 {
    inv recvend(ch; c.L, g) &*& bal(c.L; 0)
  }
  tags C26
}
func pool.(*Pool).Do(p, f)(err) {
  requires poolh(p; ?l) &*& bal(l; 0) &*& todo(f; l)
  ensures bal(l; 0) &*& saw(p.mu; ?W) &*& (len(W) > 0 ? err == nil &*& sent(f; l) : err != nil &*& todo(f; l))
  loop 1 {
    inv bal(l; 1) &*& todo(f; l) &*& 0 <= i
  }
  tags C26
}
func pool.(*Pool).WaitCount(p)(n) {
  requires poolh(p; ?l) &*& bal(l; 0)
  ensures bal(l; 0) &*& freed(l) &*& n >= 0
  tags C26
}
func pool.(*Pool).WaitLock(p)() {
  requires poolh(p; ?l)
  ensures locked(l; 0) &*& *cellof(l) |-> 0 &*& held(p.mu; ?W, ?A) &*& pstate(p; W, A)
  loop 1 {
    inv locked(l; ?n) &*& *cellof(l) |-> n &*& 0 <= n
  }
  tags C26
}
func pool.(*Pool).Unlock(p)() {
  requires poolh(p; ?l) &*& bal(l; 0) &*& locked(l; ?n) &*& *cellof(l) |-> n &*& held(p.mu; ?W, ?A) &*& pstate(p; W, A)
  ensures bal(l; 0) &*& freed(l) &*& duty(p.wg; _, _, _)
  tags C26
}
func pool.(*Pool).Stop(p)() {
  requires poolh(p; ?l)
  ensures alldone(p.wg)
  loop 1 {
    inv -1 <= rangeindex && rangeindex < len(workers) &*& duty(p.wg; ?A, workers.off, len(workers)) &*& slice(workers; A)
    inv all(shut, A, workers.off, rangeindex + 1) &*& all(wkr, A, workers.off + rangeindex + 1, len(workers) - rangeindex - 1; _, _)
    decreases len(workers) - rangeindex
  }
  tags C26
}
func pool.New(n)(p) {
  requires 0 <= n
  ensures poolh(p; ?l) &*& pstate(p; ?W, ?A) &*& len(W) == n
  loop 1 {
    inv 0 <= i && i <= n &*& pool.workers |-> ?W &*& W.cap == n && len(W) == i &*& slice(W; ?A) &*& imm (pool.workCond |-> ?c)
    inv i == 0 ? freshlock(c.L) &*& pool.workin |-> 0 : islock(c.L) && cellof(c.L) == pool.workin
    inv all(wkr, A, W.off, i; ?L, ?G)
    inv forall j: Int :: {L[j]} W.off <= j && j < W.off + i ==> L[j] == c.L
    inv forall j: Int :: {G[j]} W.off <= j && j < W.off + i ==> G[j] == pool.wg
    decreases n - i
  }
  tags C26
}
