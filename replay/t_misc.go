package main

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/timtadh/data-structures/exc"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/pool"
	trand "github.com/timtadh/data-structures/rand"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
)

type deque interface {
	types.Deque
	Push(types.Hashable) error
	Pop() (types.Hashable, error)
	Items() types.KIterator
	Backwards() types.KIterator
}

func runDeque(unique bool) func(ops []Op) error {
	return func(ops []Op) error {
		var d deque = linked.New()
		if unique {
			d = linked.NewUniqueDeque()
		}
		mode := 0
		if len(ops) > 0 {
			mode = ops[0].B
		}
		var m []types.Hashable
		for i, o := range ops {
			item := types.Hashable(key(o.A, mode, i))
			has := false
			for _, x := range m {
				has = has || x.Equals(item)
			}
			fail := func(f string, a ...interface{}) error {
				return errf("step %d: "+f, append([]interface{}{i}, a...)...)
			}
			switch o.C {
			case 0, 1, 2:
				var err error
				switch o.C {
				case 0:
					err = d.EnqueFront(item)
				case 1:
					err = d.EnqueBack(item)
				case 2:
					err = d.Push(item)
				}
				if err != nil {
					return fail("enqueue: %.100s", err)
				}
				if !(unique && has) {
					if o.C == 0 {
						m = append([]types.Hashable{item}, m...)
					} else {
						m = append(m[:len(m):len(m)], item)
					}
				}
			case 3, 4, 5:
				var x types.Hashable
				var err error
				switch o.C {
				case 3:
					x, err = d.DequeFront()
				case 4:
					x, err = d.DequeBack()
				case 5:
					x, err = d.Pop()
				}
				if (len(m) > 0) != (err == nil) {
					return fail("dequeue of %d: err=%v", len(m), err != nil)
				}
				if len(m) > 0 {
					w := m[0]
					if o.C == 3 {
						m = m[1:]
					} else {
						w = m[len(m)-1]
						m = m[:len(m)-1]
					}
					if x != w {
						return fail("dequeued %v want %v", x, w)
					}
				}
			case 6:
				if d.Has(item) != has {
					return fail("Has(%v) = %v", item, !has)
				}
			}
			if d.Size() != len(m) {
				return fail("Size() = %d want %d", d.Size(), len(m))
			}
			f, l := d.First(), d.Last()
			if len(m) == 0 && (f != nil || l != nil) || len(m) > 0 && (f != m[0] || l != m[len(m)-1]) {
				return fail("First/Last = %v/%v of %v", f, l, m)
			}
			if len(ops) < 30 || i%11 == 0 {
				a, err := collectK(d.Items(), len(m)+1)
				if err != nil {
					return fail("%v", err)
				}
				if err := sameSeq("Items", a, m); err != nil {
					return fail("%v", err)
				}
				a, err = collectK(d.Backwards(), len(m)+1)
				if err != nil {
					return fail("%v", err)
				}
				if err := sameSeq("Backwards", a, rev(m)); err != nil {
					return fail("%v", err)
				}
			}
		}
		return nil
	}
}

type pe struct {
	p    int
	item types.Hashable
}

func runHeap(unique bool) func(ops []Op) error {
	return func(ops []Op) error {
		min := len(ops)%2 == 0
		h := heap.NewHeap(len(ops)%4, min)
		if len(ops)%3 == 0 {
			if min {
				h = heap.NewMinHeap(0)
			} else {
				h = heap.NewMaxHeap(0)
			}
		}
		if h.MinHeap() != min || h.MaxHeap() == min {
			return errf("MinHeap/MaxHeap")
		}
		var q heap.PriorityQueue = h
		var u *heap.UniquePQ
		mode := 0
		if len(ops) > 0 {
			mode = ops[0].B
		}
		if unique {
			u = heap.NewUnique(h)
			q = u
		}
		var m []pe
		best := func() int {
			b := m[0].p
			for _, e := range m {
				if (min && e.p < b) || (!min && e.p > b) {
					b = e.p
				}
			}
			return b
		}
		for i, o := range ops {
			pr := o.B%9 - 4
			if o.B%50 == 49 {
				pr = minInt
			}
			if len(ops) <= 6 {
				pr = o.A
			}
			item := types.Hashable(key(o.A, mode, i))
			fail := func(f string, a ...interface{}) error {
				return errf("step %d: "+f, append([]interface{}{i}, a...)...)
			}
			if o.C < 3 {
				dup := false
				for _, e := range m {
					dup = dup || e.item.Equals(item)
				}
				q.Push(pr, item)
				if !(unique && dup) {
					m = append(m, pe{pr, item})
				}
			} else {
				pk := q.Peek()
				var x interface{}
				x = q.Pop()
				if len(m) == 0 {
					if x != nil || pk != nil {
						return fail("Pop/Peek of an empty queue = %v/%v", x, pk)
					}
				} else {
					if pk != x {
						return fail("Peek %v but Pop %v", pk, x)
					}
					at := -1
					for j, e := range m {
						if e.item == x {
							at = j
						}
					}
					if at < 0 {
						return fail("Pop = %v, not in the queue", x)
					}
					if m[at].p != best() {
						return fail("Pop returned priority %d, best is %d", m[at].p, best())
					}
					m = append(m[:at:at], m[at+1:]...)
				}
			}
			if q.Size() != len(m) {
				return fail("Size() = %d want %d", q.Size(), len(m))
			}
			if err := h.Verify(); err != nil {
				return fail("Verify: %.200s", err)
			}
			xs, err := collectV(h.Items(), len(m)+1)
			if err != nil || len(xs) != len(m) {
				return fail("Items yields %d of %d", len(xs), len(m))
			}
			bag := map[interface{}]int{}
			for _, x := range xs {
				bag[x]++
			}
			for _, e := range m {
				if bag[e.item] != 1 {
					return fail("Items lacks %v", e.item)
				}
			}
		}
		return nil
	}
}

// traversals

type tnode struct {
	id   int
	kids []*tnode
	cc   bool
}

func (n *tnode) Key() types.Hashable           { return types.Int(n.id) }
func (n *tnode) Value() interface{}            { return n.id }
func (n *tnode) GetChild(i int) types.TreeNode { return n.kids[i] }
func (n *tnode) ChildCount() int {
	if n.cc {
		return -1
	}
	return len(n.kids)
}
func (n *tnode) Children() types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(n.kids) {
			return nil, nil
		}
		i++
		return n.kids[i-1], it
	}
	return it
}

type bnode struct {
	id   int
	l, r *bnode
}

func (n *bnode) Key() types.Hashable { return types.Int(n.id) }
func (n *bnode) Value() interface{}  { return n.id }
func (n *bnode) Left() types.BinaryTreeNode {
	if n.l == nil {
		return nil
	}
	return n.l
}
func (n *bnode) Right() types.BinaryTreeNode {
	if n.r == nil {
		return nil
	}
	return n.r
}
func (n *bnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *bnode) ChildCount() int                  { return types.DoChildCount(n) }
func (n *bnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

func drain(it types.TreeNodeIterator, bound int) ([]int, error) {
	var out []int
	for n, next := it(); next != nil; n, next = next() {
		out = append(out, n.Value().(int))
		if len(out) > bound {
			return nil, errf("more than %d nodes", bound)
		}
	}
	return out, nil
}

func runTrav(ops []Op) error {
	var nodes []*tnode
	var root *tnode
	var broot *bnode
	for i, o := range ops {
		n := &tnode{id: i}
		if root == nil {
			root = n
		} else {
			p := nodes[o.A%len(nodes)]
			p.kids = append(p.kids, n)
		}
		nodes = append(nodes, n)
		p := &broot
		x := o.A*31 + o.B
		for *p != nil {
			if x&1 == 0 {
				p = &(*p).l
			} else {
				p = &(*p).r
			}
			x = x>>1 ^ o.B
		}
		*p = &bnode{id: i}
	}
	var pre, post func(n *tnode) []int
	pre = func(n *tnode) []int {
		if n == nil {
			return nil
		}
		out := []int{n.id}
		for _, k := range n.kids {
			out = append(out, pre(k)...)
		}
		return out
	}
	post = func(n *tnode) []int {
		if n == nil {
			return nil
		}
		var out []int
		for _, k := range n.kids {
			out = append(out, post(k)...)
		}
		return append(out, n.id)
	}
	var bpre, bin, bpost func(n *bnode) []int
	bpre = func(n *bnode) []int {
		if n == nil {
			return nil
		}
		return append(append([]int{n.id}, bpre(n.l)...), bpre(n.r)...)
	}
	bin = func(n *bnode) []int {
		if n == nil {
			return nil
		}
		return append(append(bin(n.l), n.id), bin(n.r)...)
	}
	bpost = func(n *bnode) []int {
		if n == nil {
			return nil
		}
		return append(append(bpost(n.l), bpost(n.r)...), n.id)
	}
	cmp := func(what string, it types.TreeNodeIterator, want []int) error {
		got, err := drain(it, len(want)+1)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			return errf("%s = %v (%v) want %v", what, got, err, want)
		}
		return nil
	}
	if err := cmp("preorder", tree.TraverseTreePreOrder(root), pre(root)); err != nil {
		return err
	}
	if err := cmp("postorder", tree.TraverseTreePostOrder(root), post(root)); err != nil {
		return err
	}
	if err := cmp("binary inorder", tree.TraverseBinaryTreeInOrder(broot), bin(broot)); err != nil {
		return err
	}
	if err := cmp("binary preorder", tree.TraverseTreePreOrder(broot), bpre(broot)); err != nil {
		return err
	}
	if err := cmp("binary postorder", tree.TraverseTreePostOrder(broot), bpost(broot)); err != nil {
		return err
	}
	for _, n := range nodes {
		n.cc = true
	}
	if err := cmp("preorder without counts", tree.TraverseTreePreOrder(root), pre(root)); err != nil {
		return err
	}
	t := avl.NewAvlTree()
	for i, o := range ops {
		t.Put(key(o.A, 0, 0), i)
	}
	if _, err := drain(tree.TraverseTreePreOrder(t.Root()), t.Size()); err != nil {
		return err
	}
	return nil
}

// exceptions

type exA struct{ exc.Exception }
type exB struct{ exA }
type exC struct{ exc.Exception }

type closer struct {
	log *[]string
	err error
}

func (c *closer) Close() error {
	*c.log = append(*c.log, "close")
	return c.err
}

// each op list describes a block: op 0 = what try throws, then catches / finallies
func runExc(ops []Op) error {
	mk := func(k int) exc.Throwable {
		switch k % 4 {
		case 1:
			return &exA{}
		case 2:
			return &exB{}
		case 3:
			return &exC{}
		}
		return &exc.Exception{}
	}
	if len(ops) == 0 {
		return nil
	}
	isa := func(thrown, want int) bool {
		thrown, want = thrown%4, want%4
		return want == 0 || thrown == want || (thrown == 2 && want == 1)
	}
	var log, want []string
	thrown := -1
	var th exc.Throwable
	foreign := false
	o := ops[0]
	if o.C%3 != 0 {
		thrown = o.A % 4
		th = mk(thrown)
	} else if o.A%5 == 4 {
		foreign = true
	}
	b := exc.Try(func() {
		log = append(log, "try")
		if th != nil {
			exc.Throw(th)
		}
		if foreign {
			panic("ordinary")
		}
	})
	want = append(want, "try")
	out := th
	caught := false
	chained := 0
	for i, o := range ops[1:] {
		i, o := i, o
		switch o.C % 3 {
		case 0:
			b.Catch(mk(o.A), func(e exc.Throwable) {
				log = append(log, fmt.Sprintf("catch%d", i))
				if e != th {
					log = append(log, "wrong exception")
				}
				if o.B%4 == 3 {
					exc.Rethrow(e, exc.Errorf("again"))
				} else if o.B%3 == 1 {
					exc.Throw(e)
				} else if o.B%3 == 2 {
					exc.Throw(mk(3))
				}
			})
			if th != nil && !caught && isa(thrown, o.A) {
				caught = true
				want = append(want, fmt.Sprintf("catch%d", i))
				switch o.B % 3 {
				case 0:
					out = nil
				case 1:
					out = th
				case 2:
					out = mk(3)
				}
				if o.B%4 == 3 {
					// the chained exception is the thrown one without its outer type
					out, chained = th.Exc(), 1
				}
			}
		default:
			b.Finally(func() { log = append(log, fmt.Sprintf("finally%d", i)) })
		}
	}
	if !foreign {
		for i, o := range ops[1:] {
			if o.C%3 != 0 {
				want = append(want, fmt.Sprintf("finally%d", i))
			}
		}
	}
	same := func(e exc.Throwable) bool {
		if out == nil || e == nil {
			return out == nil && e == nil
		}
		return e == out || fmt.Sprintf("%T", e) == fmt.Sprintf("%T", out)
	}
	var panicked interface{}
	func() {
		defer func() { panicked = recover() }()
		switch o.B % 3 {
		case 0:
			e := b.Exception()
			if !same(e) {
				log = append(log, fmt.Sprintf("Exception() = %T want %T", e, out))
			}
		case 1:
			e := b.Error()
			if (e == nil) != (out == nil) {
				log = append(log, "Error() wrong")
			}
		case 2:
			b.Unwind()
		}
	}()
	if foreign {
		if panicked != "ordinary" {
			return errf("an ordinary panic came out as %v", panicked)
		}
	} else if o.B%3 == 2 {
		e, _ := panicked.(exc.Throwable)
		if !same(e) {
			return errf("Unwind panicked with %T want %T", panicked, out)
		}
	} else if panicked != nil {
		return errf("unexpected panic %v", panicked)
	}
	if fmt.Sprint(log) != fmt.Sprint(want) {
		return errf("ran %v want %v", log, want)
	}
	if th != nil && len(th.Exc().Errors) != chained {
		return errf("the exception carries %d errors want %d", len(th.Exc().Errors), chained)
	}
	a1, b1 := exc.Errorf("a"), exc.Errorf("b")
	ea := &exc.Exception{Errors: []*exc.Error{a1}}
	eb := &exc.Exception{Errors: []*exc.Error{b1, a1}}
	if j := ea.Join(eb); len(j.Errors) != 3 || j.Errors[0] != a1 || j.Errors[1] != b1 || j.Errors[2] != a1 || len(ea.Errors) != 1 || len(eb.Errors) != 2 {
		return errf("Join: %d errors", len(j.Errors))
	}
	if c := ea.Chain(b1); c.Exc() != ea || len(ea.Errors) != 2 || ea.Errors[1] != b1 {
		return errf("Chain: %d errors", len(ea.Errors))
	}
	// Close
	log = nil
	c := &closer{&log, nil}
	if o.A%3 == 1 {
		c.err = fmt.Errorf("close failed")
	}
	mkNil := o.A%7 == 6
	e := exc.Close(func() io.Closer {
		if mkNil {
			exc.Throwf("no closer")
		}
		return c
	}, func(x io.Closer) {
		log = append(log, "body")
		if o.C%3 == 1 {
			exc.Throwf("body failed")
		}
	}).Error()
	wantLog := "[body close]"
	if mkNil {
		wantLog = "[]"
	}
	if fmt.Sprint(log) != wantLog {
		return errf("Close ran %v", log)
	}
	if (e != nil) != (mkNil || c.err != nil || o.C%3 == 1) {
		return errf("Close error = %v", e != nil)
	}
	return nil
}

func runRand(ops []Op) error {
	seed := int64(len(ops))
	a := trand.ThreadSafeRand(seed)
	var mu sync.Mutex
	seen := map[uint64]int{}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				x := a.Uint64()
				mu.Lock()
				seen[x]++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	b := trand.ThreadSafeRand(seed)
	for i := 0; i < 200; i++ {
		x := b.Uint64()
		if seen[x] == 0 {
			return errf("value %d of the sequence was lost or duplicated", i)
		}
		seen[x]--
	}
	a.Seed(7)
	x := a.Int63()
	c := trand.ThreadSafeRand(7)
	if y := c.Int63(); x != y {
		return errf("Seed does not restart the sequence")
	}
	ref := rand.New(rand.NewSource(7))
	ref.Int63()
	for i := 0; i < 20; i++ {
		if x, y := a.Int63(), ref.Int63(); x != y {
			return errf("Int63 %d after Seed(7) = %d, the generator yields %d", i, x, y)
		}
		if x, y := a.Uint64(), ref.Uint64(); x != y {
			return errf("Uint64 %d after Seed(7) = %d, the generator yields %d", i, x, y)
		}
	}
	return nil
}

// runPool: four threads submit, wait and stop at the same time.
func runPool(ops []Op) error {
	done := make(chan error, 1)
	go func() { done <- runPool1(ops) }()
	select {
	case err := <-done:
		return err
	case <-time.After(10 * time.Second):
		return errf("submitting, waiting or stopping did not return within 10 s")
	}
}

func runPool1(ops []Op) error {
	p := pool.New(1 + len(ops)%3)
	type job struct{ ran, fin, acc int32 }
	jobs := make([]*job, len(ops))
	var stopping, stopped int32
	var mu sync.Mutex
	var bad error
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		if bad == nil {
			bad = errf(f, a...)
		}
		mu.Unlock()
	}
	behind := func(j *job, acc int32) bool { return atomic.LoadInt32(&j.fin) < acc }
	// everything accepted up to now must have finished
	settled := func(after string) {
		for i, j := range jobs {
			if j != nil && behind(j, atomic.LoadInt32(&j.acc)) {
				fail("after %s returned function %d, accepted before, was not finished", after, i)
			}
		}
	}
	for i := range ops {
		jobs[i] = &job{}
	}
	stop := func() {
		atomic.StoreInt32(&stopping, 1)
		// whatever is accepted from here on is not known to be early enough
		early := make([]int32, len(jobs))
		for i, j := range jobs {
			early[i] = atomic.LoadInt32(&j.acc)
		}
		p.Stop()
		for i, j := range jobs {
			if behind(j, early[i]) {
				fail("Stop returned before the accepted function %d had finished", i)
			}
		}
		settled("Stop")
		atomic.StoreInt32(&stopped, 1)
	}
	var wg sync.WaitGroup
	for th := 0; th < 4; th++ {
		th := th
		wg.Add(1)
		go func() {
			defer wg.Done()
			refused := 0
			for i, o := range ops {
				if o.B%4 != th || refused > 2 {
					continue
				}
				j := jobs[i]
				switch {
				case o.C < 6:
					n := 1
					if o.A%8 == 7 { // more than the channels hold
						n = 130
					}
					for ; n > 0; n-- {
						was := atomic.LoadInt32(&stopped) == 1
						m := n
						err := p.Do(func() {
							atomic.AddInt32(&j.ran, 1)
							switch o.A % 4 {
							case 1:
								runtime.Gosched()
							case 2:
								time.Sleep(50 * time.Microsecond)
							case 3:
								if m%64 == 1 {
									time.Sleep(time.Millisecond)
								}
							}
							atomic.AddInt32(&j.fin, 1)
						})
						if err == nil {
							atomic.AddInt32(&j.acc, 1)
							if was {
								fail("the stopped pool accepted function %d", i)
							}
						} else if atomic.LoadInt32(&stopping) == 0 {
							fail("the running pool refused function %d: %.80s", i, err)
						} else {
							refused++ // a refusal is slow: it takes all stacks
							n = 1
						}
					}
				case o.C == 6:
					p.WaitLock()
					settled("WaitLock")
					p.Unlock()
				case o.C == 7:
					if p.WaitCount() < 0 {
						fail("a negative number of functions is pending")
					}
				case o.A%3 == 0:
					stop()
				}
			}
		}()
	}
	wg.Wait()
	stop()
	for i, j := range jobs {
		if r := atomic.LoadInt32(&j.ran); r != atomic.LoadInt32(&j.acc) {
			fail("function %d ran %d times, accepted %d times", i, r, j.acc)
		}
	}
	if p.Do(func() {}) == nil {
		fail("the stopped pool accepted a function")
	}
	mu.Lock()
	defer mu.Unlock()
	return bad
}

func init() {
	dq := []string{"EnqueFront", "EnqueBack", "Push", "DequeFront", "DequeBack", "Pop", "Has"}
	register("C06", &Target{Name: "linked.LinkedList", Codes: 7, Dom: 2, Exh: 4, Len: 200, Names: dq, Run: runDeque(false)})
	register("C07", &Target{Name: "linked.UniqueDeque", Codes: 7, Dom: 2, Exh: 4, Len: 200, Names: dq, Run: runDeque(true)})
	hn := []string{"Push", "Push", "Push", "Peek+Pop", "Peek+Pop"}
	register("C08", &Target{Name: "heap.Heap", Codes: 4, Dom: 3, Exh: 5, Len: 120, Names: hn, Run: runHeap(false)})
	register("C09", &Target{Name: "heap.UniquePQ", Codes: 4, Dom: 3, Exh: 5, Len: 120, Names: hn, Run: runHeap(true)})
	register("C19", &Target{Name: "traversals", Codes: 1, Dom: 5, Exh: 5, Len: 60, Names: []string{"grow"}, Run: runTrav})
	register("C24", &Target{Name: "exc blocks", Codes: 3, Dom: 4, Exh: 4, Len: 8, Names: []string{"catch", "finally", "finally"}, Run: runExc})
	register("C25", &Target{Name: "rand.ThreadSafeRand", Codes: 1, Dom: 2, Exh: 1, Len: 10, Run: runRand})
	register("C26", &Target{Name: "pool.Pool", Codes: 9, Dom: 4, Exh: 1, Len: 150, Names: []string{"Do", "Do", "Do", "Do", "Do", "Do", "WaitLock", "WaitCount", "Stop"}, Run: runPool})
}
