// Replay harness: executes the real code in /repo against reference models and
// looks for a concrete failing input.  The proof checks run it only after an
// obligation failed, to turn the failed obligation into a failing input, and,
// where DESIGN.md says so, as the bounded stand-in for functions outside the
// verifier's reach.
package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/timtadh/data-structures/types"
)

// Op is one step of a history.
type Op struct{ C, A, B int }

// Target is one family of histories with a reference model.
type Target struct {
	Name  string
	Codes int // number of op codes
	Dom   int // operand domain for exhaustive exploration
	Exh   int // exhaustive length
	Len   int // maximal random length
	Names []string
	Run   func(ops []Op) error
	// optional bias of random operands
	Gen func(r *rand.Rand, n int) []Op
}

type failure struct {
	target *Target
	ops    []Op
	err    error
}

func show(t *Target, ops []Op) string {
	var sb strings.Builder
	for i, o := range ops {
		n := fmt.Sprintf("op%d", o.C)
		if o.C < len(t.Names) {
			n = t.Names[o.C]
		}
		fmt.Fprintf(&sb, "  %3d: %s(%d, %d)\n", i, n, o.A, o.B)
	}
	return sb.String()
}

// guarded runs a history, turning panics into errors and hangs into failures.
func guarded(t *Target, ops []Op) (err error) {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				es := fmt.Sprintf("%v", e)
				if len(es) > 500 {
					es = es[:500]
				}
				done <- fmt.Errorf("panic: %s\n%s", es, st)
			}
		}()
		done <- t.Run(ops)
	}()
	select {
	case err = <-done:
		return err
	case <-time.After(20 * time.Second):
		return fmt.Errorf("did not terminate within 20s")
	}
}

func isHang(err error) bool { return strings.Contains(err.Error(), "did not terminate") }

func shrink(t *Target, ops []Op, err error) ([]Op, error) {
	if isHang(err) {
		return ops, err
	}
	deadline := time.Now().Add(8 * time.Second)
	chunk := len(ops) / 2
	for chunk >= 1 && time.Now().Before(deadline) {
		progress := false
		for i := 0; i+chunk <= len(ops) && time.Now().Before(deadline); {
			cand := append(append([]Op{}, ops[:i]...), ops[i+chunk:]...)
			if e := guarded(t, cand); e != nil && !isHang(e) {
				ops, err, progress = cand, e, true
			} else {
				i++
			}
		}
		if !progress || chunk > 1 {
			if chunk == 1 && !progress {
				break
			}
			if chunk > 1 {
				chunk /= 2
			}
		}
	}
	return ops, err
}

// explore runs one target for the given budget.
func explore(t *Target, seed int64, budget time.Duration, stats *Stats) *failure {
	start := time.Now()
	fail := func(ops []Op, err error) *failure {
		ops, err = shrink(t, ops, err)
		return &failure{t, ops, err}
	}
	// exhaustive part
	if t.Exh > 0 {
		for n := 0; n <= t.Exh; n++ {
			ops := make([]Op, n)
			total := 1
			for i := 0; i < n; i++ {
				total *= t.Codes * t.Dom
			}
			for x := 0; x < total; x++ {
				y := x
				for i := 0; i < n; i++ {
					d := y % (t.Codes * t.Dom)
					y /= t.Codes * t.Dom
					ops[i] = Op{d % t.Codes, d / t.Codes, i}
				}
				stats.Exhaustive++
				if err := guarded(t, ops); err != nil {
					return fail(append([]Op{}, ops...), err)
				}
				if x%64 == 0 && time.Since(start) > budget/2 {
					stats.ExhCut = true
					n = t.Exh
					break
				}
			}
		}
	}
	// random part, one generator per core
	var wg sync.WaitGroup
	var mu sync.Mutex
	var found *failure
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func(w int64) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*1000 + w))
			for it := 0; time.Since(start) < budget; it++ {
				n := 1 + r.Intn(t.Len)
				if it%3 == 0 {
					n = 1 + r.Intn(1+t.Len/8)
				}
				var ops []Op
				if t.Gen != nil {
					ops = t.Gen(r, n)
				} else {
					ops = genOps(r, n, t.Codes)
				}
				err := guarded(t, ops)
				mu.Lock()
				stats.Random++
				stop := found != nil
				if err != nil && !stop {
					found = &failure{t, ops, err}
					stop = true
				}
				mu.Unlock()
				if stop {
					return
				}
			}
		}(int64(w))
	}
	wg.Wait()
	if found != nil {
		return fail(found.ops, found.err)
	}
	return nil
}

// genOps draws histories with varying key density and op-code bias.
func genOps(r *rand.Rand, n, codes int) []Op {
	dom := []int{2, 3, 5, 8, 16, 40, 200, 100000}[r.Intn(8)]
	var w []int
	tot := 0
	weigh := func() {
		w = make([]int, codes)
		tot = 0
		for i := range w {
			w[i] = 1 + r.Intn(6)
			if r.Intn(4) == 0 {
				w[i] = 0
			}
			if r.Intn(6) == 0 {
				w[i] = 40
			}
			tot += w[i]
		}
		if tot == 0 {
			w[0], tot = 1, 1
		}
	}
	weigh()
	// histories with phases (fill, drain, ...) change the bias now and then
	phase := 0
	if r.Intn(2) == 0 {
		phase = 1 + n/(1+r.Intn(5))
	}
	asc := r.Intn(5)
	// and some are nearly all insertions of a few different elements
	if n > 100 && r.Intn(6) == 0 {
		dom, asc, phase = 2+r.Intn(2), 4, 0
		for i := range w {
			w[i] = 0
		}
		w[r.Intn(len(w))] = 1
		w[0] = 40
		tot = 0
		for _, x := range w {
			tot += x
		}
	}
	ops := make([]Op, n)
	for i := range ops {
		if phase > 0 && i > 0 && i%phase == 0 {
			weigh()
		}
		x := r.Intn(tot)
		c := 0
		for x >= w[c] {
			x -= w[c]
			c++
		}
		a := r.Intn(dom)
		if asc == 0 {
			a = i
		} else if asc == 1 {
			a = n - i
		}
		ops[i] = Op{c, a, r.Intn(1 << 20)}
	}
	return ops
}

type Stats struct {
	Exhaustive, Random int64
	ExhCut             bool
}

// K is a lawful Hashable with a freely chosen hash and a distinguishable identity.
type K struct {
	rank int
	mode int
	id   int
}

func (k *K) Equals(o types.Equatable) bool {
	x, ok := o.(*K)
	return ok && x.rank == k.rank
}
func (k *K) Less(o types.Sortable) bool {
	x, ok := o.(*K)
	return ok && k.rank < x.rank
}

const minInt = -int(^uint(0)>>1) - 1

func (k *K) Hash() int {
	switch k.mode % 8 {
	case 0:
		return k.rank
	case 1:
		return 0
	case 2:
		return -k.rank
	case 3:
		return k.rank * 2654435761
	case 4:
		return k.rank << 5
	case 5:
		if k.rank%3 == 0 {
			return minInt
		}
		return minInt + k.rank
	case 6:
		return int(^uint(0)>>1) - k.rank
	default:
		return k.rank & 3
	}
}
func (k *K) String() string { return fmt.Sprintf("k%d", k.rank) }

func key(rank, mode, id int) *K { return &K{rank, mode, id} }

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// collectK drains a key iterator (bounded).
func collectK(it types.KIterator, bound int) ([]types.Hashable, error) {
	var out []types.Hashable
	if it == nil {
		return nil, errf("nil iterator")
	}
	for x, next := it(); next != nil; x, next = next() {
		out = append(out, x)
		if len(out) > bound {
			return nil, errf("iterator yields more than %d items", bound)
		}
	}
	return out, nil
}

type kvp struct {
	k types.Hashable
	v interface{}
}

func collectKV(it types.KVIterator, bound int) ([]kvp, error) {
	var out []kvp
	if it == nil {
		return nil, errf("nil iterator")
	}
	for k, v, next := it(); next != nil; k, v, next = next() {
		out = append(out, kvp{k, v})
		if len(out) > bound {
			return nil, errf("iterator yields more than %d entries", bound)
		}
	}
	return out, nil
}

func collectV(it types.Iterator, bound int) ([]interface{}, error) {
	var out []interface{}
	if it == nil {
		return nil, errf("nil iterator")
	}
	for v, next := it(); next != nil; v, next = next() {
		out = append(out, v)
		if len(out) > bound {
			return nil, errf("iterator yields more than %d values", bound)
		}
	}
	return out, nil
}
