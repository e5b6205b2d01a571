package main

import (
	"fmt"
	"go/types"
)

// Region chunks ('R') are iterated separating conjunctions
//
//	p(A[lo]; W[lo]) * p(A[lo+1]; W[lo+1]) * ... * p(A[hi-1]; W[hi-1])
//
// with some indices (Holes) taken out. Two assertions denote them:
//
//	all(p, A, lo, n; W...)       the references are the contents of an array
//	deq(p, h, t, n; A, lo, W...) n references from h to t; the array A is ghost
//
// and ind(k, lo, hi, P(...)) establishes a read-only recursive predicate for
// every index by induction from hi downwards (indup: from lo upwards).

func (v *Verifier) regionPred(n *Node) *PredDecl {
	if len(n.A) < 4 || n.A[0].K != "id" {
		v.serr(n, "%s needs a predicate name and three arguments", n.S)
	}
	p := v.sp.Preds[n.A[0].S]
	if p == nil || len(p.Ins) != 1 {
		v.serr(n, "%s: %s is not a predicate with one input", n.S, n.A[0].S)
	}
	if s, _ := v.resolveType(p.Ins[0].Ty); s != v.c.Ref && (s != v.c.Fn || n.S != "all") {
		v.serr(n, "%s: %s is not over references", n.S, p.Name)
	}
	return p
}

func (v *Verifier) outArrSorts(p *PredDecl) []*Sort {
	var out []*Sort
	for _, o := range p.Outs {
		s, _ := v.resolveType(o.Ty)
		out = append(out, v.c.Array(v.c.Int, s))
	}
	return out
}

// bindOut gives a produced output its value: fresh or the stated term.
func (v *Verifier) bindOut(o *Node, s *Sort, nm string, e *Env) *Term {
	if o.K == "bind" || o.K == "id" && o.S == "_" {
		if o.K == "bind" {
			nm = o.S
			if old, ok := e.vars[o.S]; ok && old.T != nil {
				return old.T
			}
		}
		t := v.c.Fresh(nm, s)
		if o.K == "bind" {
			e.vars[o.S] = TV{T: t}
		}
		return t
	}
	x := v.eval(o, e)
	if x.T == nil || x.T.Sort != s {
		v.serr(o, "output has the wrong sort, want %s", s.Name)
	}
	return x.T
}

func (v *Verifier) produceRegion(st *St, n *Node, e *Env, m pmode) {
	if m.imm {
		v.serr(n, "imm is not supported for %s", n.S)
	}
	c := v.c
	p := v.regionPred(n)
	ref := c.Array(c.Int, c.Ref)
	var A, lo, cnt *Term
	outs := n.Outs
	h := &Chunk{Kind: 'R', Key: p.Name, Pred: p, Frozen: m.frozen, Borrowed: m.borrowed}
	if n.S == "all" {
		A, lo, cnt = v.eval(n.A[1], e).T, v.eval(n.A[2], e).T, v.eval(n.A[3], e).T
	} else {
		if len(outs) < 2 {
			v.serr(n, "deq needs outputs")
		}
		cnt = v.eval(n.A[3], e).T
		A = v.bindOut(outs[0], ref, "nodes", e)
		lo = v.bindOut(outs[1], c.Int, "first", e)
		outs = outs[2:]
	}
	if len(outs) != len(p.Outs) {
		v.serr(n, "%s has %d outputs", p.Name, len(p.Outs))
	}
	for i, s := range v.outArrSorts(p) {
		if m.fz && n.S == "all" && outs[i].K == "bind" {
			if old, ok := e.vars[outs[i].S]; !ok || old.T == nil {
				e.vars[outs[i].S] = TV{T: v.fzAll(p, i, s, A)}
			}
		}
		h.Outs = append(h.Outs, v.bindOut(outs[i], s, p.Outs[i].Name, e))
	}
	h.Arr, h.Lo, h.Hi = A, lo, c.Add(lo, cnt)
	v.assumeT(st, c.Le(c.I(0), cnt))
	if m.fz {
		v.assumeT(st, v.fzRegion(h))
		h.Kind = 'r' // remembered, but only for reading
		st.heap = append(st.heap, h)
	} else {
		st.heap = append(st.heap, h)
	}
	v.regionFacts(st, h)
}

// regionFacts: the facts of p for every index of the region.
func (v *Verifier) regionFacts(st *St, h *Chunk) {
	c := v.c
	if len(h.Pred.Facts) == 0 {
		return
	}
	v.usedPreds[h.Pred.Name] = true
	k := c.BVar("k", c.Int)
	var outs []*Term
	for _, w := range h.Outs {
		outs = append(outs, c.mk("select", w.Sort.Elem, w, k))
	}
	at := c.mk("select", h.Arr.Sort.Elem, h.Arr, k)
	e := v.predEnv(h.Pred, []*Term{at}, outs)
	g := c.And(c.Le(h.Lo, k), c.Lt(k, h.Hi))
	for _, x := range h.Holes {
		g = c.And(g, c.Not(c.Eq(k, x)))
	}
	var fs []*Term
	for _, f := range h.Pred.Facts {
		fs = append(fs, v.evalB(f, e))
	}
	pats := [][]*Term{{at}}
	for _, o := range outs {
		pats = append(pats, []*Term{o})
	}
	v.assumeT(st, c.Forall([]*Term{k}, pats, c.Imp(g, c.And(fs...))))
}

// fzAll: the i-th outputs of the read-only members over the references A.
func (v *Verifier) fzAll(p *PredDecl, i int, s *Sort, A *Term) *Term {
	f := fmt.Sprintf("fzall_%s_%d", p.Name, i)
	v.c.Fun(f, s, []*Sort{A.Sort})
	return v.c.App(f, s, A)
}

// fzRegion: every index holds p read-only.
func (v *Verifier) fzRegion(h *Chunk) *Term {
	c := v.c
	k := c.BVar("k", c.Int)
	at := c.mk("select", h.Arr.Sort.Elem, h.Arr, k)
	cs := []*Term{v.fzPred(h.Pred, []*Term{at})}
	pats := [][]*Term{{at}}
	for i, o := range v.fzOuts(h.Pred, []*Term{at}) {
		w := c.mk("select", h.Outs[i].Sort.Elem, h.Outs[i], k)
		cs = append(cs, c.Eq(o, w))
		pats = append(pats, []*Term{w})
	}
	return c.Forall([]*Term{k}, pats, c.Imp(c.And(c.Le(h.Lo, k), c.Lt(k, h.Hi)), c.And(cs...)))
}

// focus takes index i out of region h and produces p(A[i]; W[i]).
func (v *Verifier) focus(st *St, h *Chunk, i *Term) *Chunk {
	c := v.c
	n := *h
	n.Holes = append(append([]*Term(nil), h.Holes...), i)
	st.replace(h, &n)
	q := &Chunk{Kind: 'P', Key: h.Pred.Name, Pred: h.Pred, Ins: []*Term{c.Select(h.Arr, i)}, Frozen: h.Frozen, Borrowed: h.Borrowed}
	for _, w := range h.Outs {
		q.Outs = append(q.Outs, c.Select(w, i))
	}
	v.add(st, q)
	return q
}

// indexOf finds an index of region h holding reference r.
func (v *Verifier) indexOf(st *St, h *Chunk, r *Term) *Term {
	c := v.c
	ok := func(i *Term) bool {
		g := []*Term{c.Le(h.Lo, i), c.Lt(i, h.Hi)}
		for _, x := range h.Holes {
			g = append(g, c.Not(c.Eq(i, x)))
		}
		if e := c.Eq(c.Select(h.Arr, i), r); !e.isTrue() {
			g = append([]*Term{e}, g...)
		}
		return v.entails(st, c.And(g...))
	}
	seen := map[*Term]bool{}
	for _, x := range h.Holes {
		seen[x] = true
	}
	try := func(i *Term) bool {
		if seen[i] {
			return false
		}
		seen[i] = true
		return ok(i)
	}
	if r.Op == "select" && r.Args[0] == h.Arr {
		if try(r.Args[1]) {
			return r.Args[1]
		}
	}
	if r.Sort == c.Ref && v.entails(st, c.Eq(r, c.Nil())) {
		return nil
	}
	for _, i := range []*Term{h.Lo, c.Sub(h.Hi, c.I(1))} {
		if try(i) {
			return i
		}
	}
	for _, x := range h.Holes {
		for _, d := range []int64{-1, 1} {
			if i := c.Add(x, c.I(d)); try(i) {
				return i
			}
		}
	}
	for q := st.pc; q != nil; q = q.parent {
		for _, i := range selectsOf(q.t, h.Arr, nil) {
			if try(i) {
				return i
			}
		}
	}
	return nil
}

func selectsOf(t, a *Term, out []*Term) []*Term {
	if t.open && len(t.Bound) > 0 {
		return out
	}
	if t.Op == "select" && t.Args[0] == a && !t.open {
		out = append(out, t.Args[1])
	}
	for _, x := range t.Args {
		out = selectsOf(x, a, out)
	}
	return out
}

// focusFor opens a region at reference r when one of its members is rooted at l.
func (v *Verifier) focusFor(st *St, r *Term, want func(*PredDecl) bool) bool {
	for _, h := range st.heap {
		if h.Kind != 'R' || !want(h.Pred) {
			continue
		}
		if i := v.indexOf(st, h, r); i != nil {
			v.focus(st, h, i)
			return true
		}
	}
	return false
}

// member consumes p(r; ?) and hands the outputs to k.
func (v *Verifier) member(st *St, n *Node, p *PredDecl, r *Term, m cmode, k func(*St, []*Term)) {
	e := NewEnv(nil)
	e.vars["r$"] = TV{T: r}
	call := &Node{K: "call", S: p.Name, A: []*Node{{K: "id", S: "r$", Pos: n.Pos}}, Pos: n.Pos}
	for i := range p.Outs {
		call.Outs = append(call.Outs, &Node{K: "bind", S: fmt.Sprintf("o%d$", i), Pos: n.Pos})
	}
	v.consumePred(st, call, p, e, m, func(st *St, e *Env) {
		var outs []*Term
		for i := range p.Outs {
			outs = append(outs, e.vars[fmt.Sprintf("o%d$", i)].T)
		}
		k(st, outs)
	})
}

func storeBase(a *Term) (*Term, []*Term) {
	var ix []*Term
	for a.Op == "store" {
		ix = append(ix, a.Args[1])
		a = a.Args[0]
	}
	return a, ix
}

func (v *Verifier) consumeRegion(st *St, n *Node, e *Env, m cmode, k kont) {
	if m.imm {
		v.serr(n, "imm is not supported for %s", n.S)
	}
	c := v.c
	p := v.regionPred(n)
	v.obl(m.name).Count++
	outs := n.Outs
	finish := func(st *St, h *Chunk) {
		if m.fz && !m.borrow && !h.Borrowed && h.Kind == 'R' && m.own != nil {
			*m.own = true
		}
		if !m.fz || m.lend != nil {
			st.remove(h)
		} else if m.borrow {
			q := *h
			q.Borrowed = true
			st.replace(h, &q)
		}
		vals := h.Outs
		if n.S == "deq" {
			vals = append([]*Term{h.Arr, h.Lo}, h.Outs...)
		}
		if len(vals) != len(outs) {
			v.serr(n, "wrong number of outputs")
		}
		e := e.clone()
		for i, o := range outs {
			v.matchPat(st, o, vals[i], nil, e, m.name)
		}
		k(st, e)
	}
	// putBack fills the holes of h, with the current references A
	var putBack func(st *St, h *Chunk, A *Term, k func(*St, *Chunk))
	putBack = func(st *St, h *Chunk, A *Term, k func(*St, *Chunk)) {
		if len(h.Holes) == 0 {
			k(st, h)
			return
		}
		i := h.Holes[0]
		m2 := m
		if m2.fz {
			m2.fz = false
			m2.lend = &lendInfo{}
		}
		v.member(st, n, p, c.Select(A, i), m2, func(st *St, os []*Term) {
			q := *h
			q.Holes = h.Holes[1:]
			q.Arr = h.Arr
			if x := c.Select(A, i); x != c.Select(h.Arr, i) {
				q.Arr = c.Store(h.Arr, i, x)
			}
			q.Outs = nil
			for j, w := range h.Outs {
				if os[j] == c.Select(w, i) {
					q.Outs = append(q.Outs, w)
				} else {
					q.Outs = append(q.Outs, c.Store(w, i, os[j]))
				}
			}
			if m.fz {
				if m2.lend.frozen > q.Frozen {
					q.Frozen = m2.lend.frozen
				}
				q.Borrowed = q.Borrowed || m2.lend.borrowed
			}
			st.replace(h, &q)
			putBack(st, &q, A, k)
		})
	}
	take := func(h *Chunk) bool {
		if m.fz {
			return true
		}
		if !v.canTake(h, m) {
			v.fail(st, m.name, fmt.Sprintf("%s: %s is not available for modification here (frozen by a loop or borrowed by an iterator)", n.Pos, h), "")
			return false
		}
		return true
	}
	if n.S == "deq" {
		hd, tl, cnt := v.eval(n.A[1], e).T, v.eval(n.A[2], e).T, v.eval(n.A[3], e).T
		if hd == nil {
			hd = c.Nil()
		}
		if tl == nil {
			tl = c.Nil()
		}
		var h *Chunk
		var cand []*Chunk
		for _, o := range st.heap {
			if (o.Kind == 'R' || o.Kind == 'r' && m.fz) && o.Pred == p {
				cand = append(cand, o)
			}
		}
		for _, o := range cand {
			if len(cand) == 1 || v.entails(st, c.Or(c.Eq(hd, c.Select(o.Arr, o.Lo)), c.Eq(tl, c.Select(o.Arr, c.Sub(o.Hi, c.I(1)))))) {
				h = o
				break
			}
		}
		if h == nil && m.fz {
			v.fail(st, m.name, fmt.Sprintf("%s: no region of %s to read", n.Pos, p.Name), "")
			return
		}
		if h == nil {
			h = &Chunk{Kind: 'R', Key: p.Name, Pred: p, Arr: c.Fresh("nodes", c.Array(c.Int, c.Ref)), Lo: c.I(0), Hi: c.I(0)}
			for i, s := range v.outArrSorts(p) {
				h.Outs = append(h.Outs, c.Fresh(p.Outs[i].Name, s))
			}
			st.heap = append(st.heap, h)
		}
		if !take(h) {
			return
		}
		size := c.Sub(h.Hi, h.Lo)
		switch {
		case v.entails(st, c.Eq(cnt, size)):
			putBack(st, h, h.Arr, finish)
		case v.entails(st, c.Eq(cnt, c.Add(size, c.I(1)))):
			putBack(st, h, h.Arr, func(st *St, h *Chunk) {
				front := v.fresh(st, p, hd)
				r, at := tl, h.Hi
				if front && !(v.entails(st, c.Eq(h.Lo, h.Hi))) {
					r, at = hd, c.Sub(h.Lo, c.I(1))
				}
				v.member(st, n, p, r, m, func(st *St, os []*Term) {
					q := *h
					q.Arr = c.Store(h.Arr, at, r)
					if at == h.Hi {
						q.Hi = c.Add(h.Hi, c.I(1))
					} else {
						q.Lo = at
					}
					q.Outs = nil
					for j, w := range h.Outs {
						q.Outs = append(q.Outs, c.Store(w, at, os[j]))
					}
					st.replace(h, &q)
					finish(st, &q)
				})
			})
		case v.entails(st, c.Eq(cnt, c.Sub(size, c.I(1)))):
			last, first := c.Sub(h.Hi, c.I(1)), h.Lo
			drop := last
			if !v.entails(st, c.Eq(cnt, c.I(0))) && v.entails(st, c.Eq(tl, c.Select(h.Arr, last))) {
				drop = first
			}
			q := *h
			if drop == last {
				q.Hi = last
			} else {
				q.Lo = c.Add(h.Lo, c.I(1))
			}
			q.Holes = nil
			for _, x := range h.Holes {
				if !v.entails(st, c.Eq(x, drop)) {
					q.Holes = append(q.Holes, x)
				}
			}
			st.replace(h, &q)
			putBack(st, &q, q.Arr, finish)
		default:
			if v.infeasible(st) {
				return
			}
			v.fail(st, m.name, fmt.Sprintf("%s: the number of %s nodes (%s) does not match those owned (%s)", n.Pos, p.Name, cnt, size), "")
		}
		return
	}
	A, lo, cnt := v.eval(n.A[1], e).T, v.eval(n.A[2], e).T, v.eval(n.A[3], e).T
	hi := c.Add(lo, cnt)
	base, ix := storeBase(A)
	same := func(h *Chunk) *Term {
		kk := c.BVar("k", c.Int)
		g := c.And(c.Le(lo, kk), c.Lt(kk, h.Hi), c.Lt(kk, hi))
		for _, x := range append(append([]*Term(nil), h.Holes...), ix...) {
			g = c.And(g, c.Not(c.Eq(kk, x)))
		}
		return c.Forall([]*Term{kk}, [][]*Term{{c.mk("select", A.Sort.Elem, A, kk)}, {c.mk("select", h.Arr.Sort.Elem, h.Arr, kk)}}, c.Imp(g, c.Eq(c.mk("select", A.Sort.Elem, A, kk), c.mk("select", h.Arr.Sort.Elem, h.Arr, kk))))
	}
	var h *Chunk
	for _, o := range st.heap {
		if o.Kind == 'R' && o.Pred == p {
			if ob, _ := storeBase(o.Arr); ob == base && v.entails(st, c.Eq(o.Lo, lo)) {
				h = o
				break
			}
		}
	}
	if h == nil {
		for _, o := range st.heap {
			if o.Kind == 'R' && o.Pred == p && v.entails(st, c.And(c.Eq(o.Lo, lo), c.Le(o.Hi, hi), same(o))) {
				h = o
				break
			}
		}
	}
	if h == nil && !m.fz {
		// the first member was taken out for good
		for _, o := range st.heap {
			if o.Kind != 'R' || o.Pred != p || len(o.Holes) == 0 || !v.entails(st, c.Eq(c.Add(o.Lo, c.I(1)), lo)) {
				continue
			}
			if ob, _ := storeBase(o.Arr); ob != base {
				continue
			}
			q := *o
			q.Lo, q.Holes = lo, nil
			for _, x := range o.Holes {
				if !v.entails(st, c.Eq(x, o.Lo)) {
					q.Holes = append(q.Holes, x)
				}
			}
			if len(q.Holes) < len(o.Holes) {
				st.replace(o, &q)
				h = &q
				break
			}
		}
	}
	if h == nil && m.fz {
		q := &Chunk{Kind: 'R', Key: p.Name, Pred: p, Arr: A, Lo: lo, Hi: hi}
		for i, s := range v.outArrSorts(p) {
			q.Outs = append(q.Outs, v.fzAll(p, i, s, A))
		}
		// the outputs are whatever the members say
		kk := c.BVar("k", c.Int)
		at := c.mk("select", A.Sort.Elem, A, kk)
		for i, o := range v.fzOuts(p, []*Term{at}) {
			w := c.mk("select", q.Outs[i].Sort.Elem, q.Outs[i], kk)
			v.assumeT(st, c.Forall([]*Term{kk}, [][]*Term{{w}}, c.Eq(w, o)))
		}
		v.prove(st, v.fzRegion(q), m.name, n.Pos)
		for i, o := range outs {
			v.matchPat(st, o, q.Outs[i], nil, e, m.name)
		}
		k(st, e)
		return
	}
	start := func(st *St, h *Chunk) {
		if !take(h) {
			return
		}
		// indices overwritten since: take them out first
		for _, x := range ix {
			hole := false
			for _, y := range h.Holes {
				if x == y || v.entails(st, c.Eq(x, y)) {
					hole = true
				}
			}
			if !hole && c.Select(A, x) != c.Select(h.Arr, x) && v.entails(st, c.And(c.Le(h.Lo, x), c.Lt(x, h.Hi))) {
				v.focus(st, h, x)
				for _, o := range st.heap {
					if o.Kind == 'R' && o.Pred == p && len(o.Holes) == len(h.Holes)+1 && o.Arr == h.Arr {
						h = o
					}
				}
			}
		}
		if A != h.Arr {
			v.prove(st, same(h), m.name, n.Pos+": the references are the ones owned")
		}
		putBack(st, h, A, func(st *St, h *Chunk) {
			switch {
			case h.Hi == hi || v.entails(st, c.Eq(h.Hi, hi)):
				finish(st, h)
			case v.entails(st, c.Eq(c.Add(h.Hi, c.I(1)), hi)):
				v.member(st, n, p, c.Select(A, h.Hi), m, func(st *St, os []*Term) {
					q := *h
					q.Arr = c.Store(h.Arr, h.Hi, c.Select(A, h.Hi))
					q.Hi = hi
					q.Outs = nil
					for j, w := range h.Outs {
						q.Outs = append(q.Outs, c.Store(w, h.Hi, os[j]))
					}
					st.replace(h, &q)
					finish(st, &q)
				})
			default:
				if v.infeasible(st) {
					return
				}
				v.fail(st, m.name, fmt.Sprintf("%s: the number of %s members does not match", n.Pos, p.Name), "")
			}
		})
	}
	if h == nil {
		// a fresh array of nil references: members hold trivially
		if base.Op == "constarr" && base.Args[0] == c.Nil() && A.Sort.Elem == c.Ref && !v.entails(st, c.Eq(cnt, c.I(0))) {
			v.member(st, n, p, c.Nil(), m, func(st *St, os []*Term) {
				h := &Chunk{Kind: 'R', Key: p.Name, Pred: p, Arr: base, Lo: lo, Hi: hi}
				for i, s := range v.outArrSorts(p) {
					w := c.Fresh(p.Outs[i].Name, s)
					kk := c.BVar("k", c.Int)
					at := c.mk("select", s.Elem, w, kk)
					v.assumeT(st, c.Forall([]*Term{kk}, [][]*Term{{at}}, c.Eq(at, os[i])))
					h.Outs = append(h.Outs, w)
				}
				st.heap = append(st.heap, h)
				start(st, h)
			})
			return
		}
		if v.entails(st, c.Eq(cnt, c.I(0))) {
			h := &Chunk{Kind: 'R', Key: p.Name, Pred: p, Arr: A, Lo: lo, Hi: hi}
			for i, s := range v.outArrSorts(p) {
				h.Outs = append(h.Outs, c.Fresh(p.Outs[i].Name, s))
			}
			st.heap = append(st.heap, h)
			finish(st, h)
			return
		}
		if v.infeasible(st) {
			return
		}
		v.fail(st, m.name, fmt.Sprintf("%s: no region of %s over %s", n.Pos, p.Name, A), "")
		return
	}
	start(st, h)
}

// fresh: a member of p rooted at r is in the heap outside every region.
func (v *Verifier) fresh(st *St, p *PredDecl, r *Term) bool {
	return v.findPred(st, p, []*Term{r}) != nil || v.ownsParts(st, p, []*Term{r})
}

// induct: ind(k, lo, hi, P(x; outs)) with x and outs depending on k.
func (v *Verifier) induct(st *St, n *Node, e *Env, m cmode) {
	c := v.c
	if len(n.A) != 4 || n.A[0].K != "id" || n.A[3].K != "call" {
		v.serr(n, "ind(k, lo, hi, P(...))")
	}
	pn := n.A[3]
	p := v.sp.Preds[pn.S]
	if p == nil {
		v.serr(n, "unknown predicate %s", pn.S)
	}
	lo, hi := v.eval(n.A[1], e).T, v.eval(n.A[2], e).T
	body := func(k *Term) ([]*Term, *Term) {
		e2 := NewEnv(e)
		e2.vars[n.A[0].S] = TV{T: k}
		ins := v.predIns(pn, p, e2)
		cs := []*Term{v.fzPred(p, ins)}
		for i, o := range v.fzOuts(p, ins) {
			x := v.eval(pn.Outs[i], e2)
			cs = append(cs, c.Eq(o, x.T))
		}
		return ins, c.And(cs...)
	}
	quant := func(from, hi *Term) *Term {
		j := c.BVar("j", c.Int)
		ins, b := body(j)
		return c.Forall([]*Term{j}, [][]*Term{ins}, c.Imp(c.And(c.Le(from, j), c.Lt(j, hi)), b))
	}
	s2 := st.clone()
	k := c.Fresh(n.A[0].S, c.Int)
	v.assumeT(s2, c.And(c.Le(lo, k), c.Lt(k, hi)))
	if n.S == "indup" {
		v.assumeT(s2, quant(lo, k))
	} else {
		v.assumeT(s2, quant(c.Add(k, c.I(1)), hi))
	}
	e2 := NewEnv(e)
	e2.vars[n.A[0].S] = TV{T: k}
	ins := v.predIns(pn, p, e2)
	m2 := m
	m2.fz = true
	m2.name = m.name + ".induction"
	v.obl(m2.name).Count++
	v.fold(s2, pn, p, ins, m2, func(st *St, outs []*Term) {
		for i, o := range outs {
			x := v.eval(pn.Outs[i], e2)
			v.prove(st, c.Eq(o, x.T), m2.name, n.Pos)
		}
	})
	v.assumeT(st, quant(lo, hi))
}

var _ = types.Typ
