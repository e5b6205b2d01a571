package main

import (
	"fmt"
)

// Set regions ('M') are separating conjunctions over the references of a
// sequence,
//
//	set(p, xs, a...; W...)   p(xs[0], a...; W[xs[0]]) * p(xs[1], a...; W[xs[1]]) * ...
//
// where W are arrays indexed by reference. Arr is the membership array, Holes
// are the references taken out, Xs the sequence (nil once members were taken
// away for good). p owns a field of its first input in every case, therefore
// the references are distinct: posof(xs, xs[j]) == j.

func (v *Verifier) setPred(n *Node) *PredDecl {
	if len(n.A) < 2 || n.A[0].K != "id" {
		v.serr(n, "set needs a predicate name and a sequence")
	}
	p := v.sp.Preds[n.A[0].S]
	if p == nil || len(p.Ins) != len(n.A)-1 {
		v.serr(n, "set: %s is not a predicate with %d inputs", n.A[0].S, len(n.A)-1)
	}
	if s, _ := v.resolveType(p.Ins[0].Ty); s != v.c.Ref {
		v.serr(n, "set: %s is not over references", p.Name)
	}
	if len(n.Outs) != len(p.Outs) {
		v.serr(n, "%s has %d outputs", p.Name, len(p.Outs))
	}
	if v.rootField(p) == "" {
		v.serr(n, "set: %s does not own a field of its first input in every case", p.Name)
	}
	return p
}

// rootField: a field of its first input that p owns in every case.
func (v *Verifier) rootField(p *PredDecl) string {
	name := ""
	if len(p.Cases) == 0 {
		return ""
	}
	for _, pc := range p.Cases {
		if pc.Closure != "" || pc.Type != "" {
			return ""
		}
		f := ""
		for _, n := range conjs(pc.Body) {
			if n.K == "pto" && n.A[0].K == "fld" && n.A[0].A[0].K == "id" && n.A[0].A[0].S == p.Ins[0].Name {
				f = n.A[0].S
				break
			}
			if n.K == "call" && v.sp.Preds[n.S] != nil && len(n.A) > 0 && n.A[0].K == "id" && n.A[0].S == p.Ins[0].Name {
				if q := v.sp.Preds[n.S]; q != p {
					if f = v.rootField(q); f != "" {
						break
					}
				}
			}
		}
		if f == "" || name != "" && f != name {
			return ""
		}
		name = f
	}
	return name
}

func (v *Verifier) posof(xs, r *Term) *Term {
	v.c.Fun("posof", v.c.Int, []*Sort{xs.Sort, r.Sort})
	return v.c.App("posof", v.c.Int, xs, r)
}

// listed: the references of xs are members of M, each at one position only.
func (v *Verifier) listed(xs, M *Term) *Term {
	c := v.c
	j := c.BVar("j", c.Int)
	at := c.Idx(xs, j)
	return c.Forall([]*Term{j}, [][]*Term{{at}}, c.Imp(c.And(c.Le(c.I(0), j), c.Lt(j, c.Len(xs))),
		c.And(c.mk("select", c.Bool, M, at), c.Eq(v.posof(xs, at), j), c.Not(c.Eq(at, c.Nil())))))
}

func (v *Verifier) setSorts(p *PredDecl) []*Sort {
	var out []*Sort
	for _, o := range p.Outs {
		s, _ := v.resolveType(o.Ty)
		out = append(out, v.c.Array(v.c.Ref, s))
	}
	return out
}

func (v *Verifier) setArgs(n *Node, p *PredDecl, e *Env) []*Term {
	var out []*Term
	for i, a := range n.A[2:] {
		s, _ := v.resolveType(p.Ins[i+1].Ty)
		x := v.eval(a, e)
		if x.T == nil {
			x.T = v.nilOf(n, s)
		}
		x.T = v.c.castTo(x.T, s)
		if x.T.Sort != s {
			v.serr(n, "input %d of %s: %s, want %s", i+2, p.Name, x.T.Sort.Name, s.Name)
		}
		out = append(out, x.T)
	}
	return out
}

// memberFacts: the facts of p for every member; read-only members if fz.
func (v *Verifier) memberFacts(st *St, h *Chunk, fz bool) {
	c := v.c
	r := c.BVar("r", c.Ref)
	in := c.mk("select", c.Bool, h.Arr, r)
	var outs []*Term
	pats := [][]*Term{{in}}
	for _, w := range h.Outs {
		o := c.mk("select", w.Sort.Elem, w, r)
		outs = append(outs, o)
		pats = append(pats, []*Term{o})
	}
	ins := append([]*Term{r}, h.Ins...)
	g := in
	for _, x := range h.Holes {
		g = c.And(g, c.Not(c.Eq(r, x)))
	}
	var fs []*Term
	if len(h.Pred.Facts) > 0 {
		v.usedPreds[h.Pred.Name] = true
		e := v.predEnv(h.Pred, ins, outs)
		for _, f := range h.Pred.Facts {
			fs = append(fs, v.evalB(f, e))
		}
	}
	if fz {
		fs = append(fs, v.fzPred(h.Pred, ins))
		for i, o := range v.fzOuts(h.Pred, ins) {
			fs = append(fs, c.Eq(o, outs[i]))
		}
	}
	if len(fs) > 0 {
		v.assumeT(st, c.Forall([]*Term{r}, pats, c.Imp(g, c.And(fs...))))
	}
}

func (v *Verifier) produceSet(st *St, n *Node, e *Env, m pmode) {
	if m.imm {
		v.serr(n, "imm is not supported for set")
	}
	c := v.c
	p := v.setPred(n)
	xs := v.bindOut(n.A[1], c.Seq(c.Ref), "xs", e)
	h := &Chunk{Kind: 'M', Key: p.Name, Pred: p, Ins: v.setArgs(n, p, e), Xs: xs, Frozen: m.frozen, Borrowed: m.borrowed}
	for i, s := range v.setSorts(p) {
		h.Outs = append(h.Outs, v.bindOut(n.Outs[i], s, p.Outs[i].Name, e))
	}
	h.Arr = c.Fresh("members", c.Array(c.Ref, c.Bool))
	v.assumeT(st, v.listed(xs, h.Arr))
	if m.fz {
		h.Kind = 'm'
	} else {
		v.separate(st, h)
	}
	st.heap = append(st.heap, h)
	v.memberFacts(st, h, m.fz)
}

// separate: what else is owned is not a member of the new region h.
func (v *Verifier) separate(st *St, h *Chunk) {
	c := v.c
	for _, o := range st.heap {
		if o.Kind == 'P' && v.ownsField(o) == v.ownsFieldP(h.Pred) && o.Ins[0].Sort == c.Ref {
			v.assumeT(st, c.Not(c.Select(h.Arr, o.Ins[0])))
		}
		if o.Kind == 'F' && o.Key == v.ownsFieldP(h.Pred) {
			v.assumeT(st, c.Not(c.Select(h.Arr, o.Ref)))
		}
	}
}

func (v *Verifier) ownsField(h *Chunk) string {
	if h.Kind != 'P' || len(h.Pred.Ins) == 0 || h.Frozen < 0 {
		return "-"
	}
	return v.ownsFieldP(h.Pred)
}

func (v *Verifier) ownsFieldP(p *PredDecl) string {
	f := v.rootField(p)
	if f == "" {
		return "-"
	}
	_, g := v.resolveType(p.Ins[0].Ty)
	T, st := v.ptrStruct(g)
	if st == nil {
		return "-"
	}
	return fieldKey(T, fieldIndex(st, f))
}

// focusSet takes reference r out of a set region of a predicate wanted.
func (v *Verifier) focusSet(st *St, r *Term, ins []*Term, want func(*PredDecl) bool) bool {
	c := v.c
	for _, h := range st.heap {
		if h.Kind != 'M' || !want(h.Pred) || r == c.Nil() {
			continue
		}
		g := []*Term{c.Select(h.Arr, r)}
		for _, x := range h.Holes {
			g = append(g, c.Not(c.Eq(r, x)))
		}
		for i, x := range ins {
			if x != h.Ins[i] {
				g = append(g, c.Eq(x, h.Ins[i]))
			}
		}
		if !v.entails(st, c.And(g...)) {
			continue
		}
		n := *h
		n.Holes = append(append([]*Term(nil), h.Holes...), r)
		st.replace(h, &n)
		q := &Chunk{Kind: 'P', Key: h.Pred.Name, Pred: h.Pred, Ins: append([]*Term{r}, h.Ins...), Frozen: h.Frozen, Borrowed: h.Borrowed}
		for _, w := range h.Outs {
			q.Outs = append(q.Outs, c.Select(w, r))
		}
		v.add(st, q)
		return true
	}
	return false
}

// refsIn: the references mentioned in a sequence.
func refsIn(t *Term, ref *Sort, out []*Term) []*Term {
	if t.Sort == ref {
		return append(out, t)
	}
	if t.open {
		return out
	}
	for _, a := range t.Args {
		out = refsIn(a, ref, out)
	}
	return out
}

func (v *Verifier) consumeSet(st *St, n *Node, e *Env, m cmode, k kont) {
	if m.imm {
		v.serr(n, "imm is not supported for set")
	}
	c := v.c
	p := v.setPred(n)
	v.obl(m.name).Count++
	args := v.setArgs(n, p, e)
	var xs *Term
	if b := n.A[1]; b.K == "bind" || b.K == "id" && b.S == "_" {
		if old, ok := e.vars[b.S]; b.K == "bind" && ok && old.T != nil {
			xs = old.T
		}
	} else {
		xs = v.eval(b, e).T
	}
	bindX := func(e *Env, x *Term) *Env {
		e = e.clone()
		if n.A[1].K == "bind" {
			e.vars[n.A[1].S] = TV{T: x}
		}
		return e
	}
	same := func(h *Chunk) bool {
		var g []*Term
		for i, a := range args {
			if a != h.Ins[i] {
				g = append(g, c.Eq(a, h.Ins[i]))
			}
		}
		return len(g) == 0 || v.entails(st, c.And(g...))
	}
	var h *Chunk
	var cand []*Chunk
	for _, o := range st.heap {
		if o.Pred == p && (o.Kind == 'M' || o.Kind == 'm' && m.fz && m.lend == nil) && same(o) {
			cand = append(cand, o)
		}
	}
	for _, o := range cand {
		if xs == nil && o.Xs != nil || xs != nil && o.Xs == xs {
			h = o
			break
		}
	}
	if h == nil && xs != nil {
		for _, o := range cand {
			g := []*Term{c.Le(c.Len(xs), c.I(0))}
			at := c.Idx(xs, c.I(0))
			g = append(g, c.Select(o.Arr, at))
			for _, x := range o.Holes {
				g = append(g, c.Eq(at, x))
			}
			if len(cand) == 1 && !m.fz || v.entails(st, c.Or(g...)) {
				h = o
				break
			}
		}
	}
	if h == nil && len(cand) == 1 {
		h = cand[0]
	}
	if h == nil || xs == nil && h.Xs == nil {
		if xs == nil || m.fz {
			if v.infeasible(st) {
				return
			}
			if xs != nil {
				v.readSet(st, n, p, xs, args, e, m, k, bindX)
				return
			}
			v.fail(st, m.name, fmt.Sprintf("%s: no set of %s", n.Pos, p.Name), "")
			return
		}
		h = &Chunk{Kind: 'M', Key: p.Name, Pred: p, Ins: args, Arr: c.ConstArr(c.Array(c.Ref, c.Bool), c.False())}
		for i, s := range v.setSorts(p) {
			h.Outs = append(h.Outs, c.Fresh(p.Outs[i].Name, s))
		}
		st.heap = append(st.heap, h)
	}
	if h.Kind == 'm' {
		if xs != nil && xs != h.Xs && !v.entails(st, c.Eq(xs, h.Xs)) {
			v.readSet(st, n, p, xs, args, e, m, k, bindX)
			return
		}
		e := bindX(e, h.Xs)
		for i, o := range n.Outs {
			v.matchPat(st, o, h.Outs[i], nil, e, m.name)
		}
		k(st, e)
		return
	}
	if !m.fz && !v.canTake(h, m) {
		v.fail(st, m.name, fmt.Sprintf("%s: %s is not available for modification here (frozen by a loop or borrowed by an iterator)", n.Pos, h), "")
		return
	}
	m2 := m
	if m2.fz {
		m2.fz = false
		m2.lend = &lendInfo{}
	}
	changed := false
	finish := func(st *St, h *Chunk) {
		x := xs
		if x == nil {
			x = h.Xs
		}
		if x != h.Xs || changed {
			j := c.BVar("j", c.Int)
			at := c.Idx(x, j)
			in := c.And(c.Le(c.I(0), j), c.Lt(j, c.Len(x)))
			v.prove(st, c.Forall([]*Term{j}, [][]*Term{{at}}, c.Imp(in, c.mk("select", c.Bool, h.Arr, at))), m.name, n.Pos+": the members are owned")
			if x != h.Xs {
				i := c.BVar("i", c.Int)
				ai := c.Idx(x, i)
				v.prove(st, c.Forall([]*Term{i, j}, [][]*Term{{ai, at}}, c.Imp(c.And(in, c.Le(c.I(0), i), c.Lt(i, j)), c.Not(c.Eq(ai, at)))), m.name, n.Pos+": the members are distinct")
			}
			v.assumeT(st, v.listed(x, h.Arr))
		}
		q := *h
		q.Xs = x
		switch {
		case m.fz:
			q.Borrowed = q.Borrowed || m.borrow
			if m2.lend.frozen > q.Frozen {
				q.Frozen = m2.lend.frozen
			}
			q.Borrowed = q.Borrowed || m2.lend.borrowed
			st.replace(h, &q)
			if m.borrow {
				v.memberFacts(st, &q, true)
			} else if m.own != nil && !q.Borrowed {
				*m.own = true
			}
		case x == h.Xs:
			st.remove(h)
		default:
			// what is left
			q.Xs = nil
			q.Arr = c.Fresh("others", h.Arr.Sort)
			sk := c.Fresh("at", c.Array(c.Ref, c.Int))
			r := c.BVar("r", c.Ref)
			i := c.mk("select", c.Int, sk, r)
			left, was := c.mk("select", c.Bool, q.Arr, r), c.mk("select", c.Bool, h.Arr, r)
			v.assumeT(st, c.Forall([]*Term{r}, [][]*Term{{left}}, c.Or(left, c.Not(was),
				c.And(c.Le(c.I(0), i), c.Lt(i, c.Len(x)), c.Eq(c.Idx(x, i), r)))))
			v.assumeT(st, c.Forall([]*Term{r}, [][]*Term{{left}}, c.Imp(left, was)))
			j := c.BVar("j", c.Int)
			at := c.Idx(x, j)
			v.assumeT(st, c.Forall([]*Term{j}, [][]*Term{{at}}, c.Imp(c.And(c.Le(c.I(0), j), c.Lt(j, c.Len(x))), c.Not(c.mk("select", c.Bool, q.Arr, at)))))
			st.replace(h, &q)
		}
		e := bindX(e, x)
		for i, o := range n.Outs {
			v.matchPat(st, o, h.Outs[i], nil, e, m.name)
		}
		k(st, e)
	}
	// absorb the objects rs that are owned outside
	var absorb func(st *St, h *Chunk, rs []*Term)
	absorb = func(st *St, h *Chunk, rs []*Term) {
		if len(rs) == 0 {
			finish(st, h)
			return
		}
		r := rs[0]
		if !v.owned(st, p, r, args) {
			absorb(st, h, rs[1:])
			return
		}
		v.setMember(st, n, p, r, args, m2, func(st *St, os []*Term) {
			v.assumeT(st, c.Not(c.Select(h.Arr, r)))
			q := *h
			q.Arr = c.Store(h.Arr, r, c.True())
			q.Outs = nil
			for j, w := range h.Outs {
				q.Outs = append(q.Outs, c.Store(w, r, os[j]))
			}
			st.replace(h, &q)
			changed = true
			absorb(st, &q, rs[1:])
		})
	}
	extra := func(st *St, h *Chunk) {
		var rs []*Term
		seen := map[*Term]bool{}
		for _, o := range st.heap {
			if o.Kind == 'P' && o.Pred == p && !seen[o.Ins[0]] {
				seen[o.Ins[0]] = true
				rs = append(rs, o.Ins[0])
			}
		}
		if xs != nil {
			for _, r := range refsIn(xs, c.Ref, nil) {
				if !seen[r] && r.Op != "idx_"+c.Seq(c.Ref).Name {
					seen[r] = true
					rs = append(rs, r)
				}
			}
		}
		if m.fz {
			rs = nil
		}
		absorb(st, h, rs)
	}
	var putBack func(st *St, h *Chunk)
	putBack = func(st *St, h *Chunk) {
		if len(h.Holes) == 0 {
			extra(st, h)
			return
		}
		r := h.Holes[0]
		q := *h
		q.Holes = h.Holes[1:]
		if !v.owned(st, p, r, args) {
			q.Arr = c.Store(h.Arr, r, c.False())
			st.replace(h, &q)
			changed = true
			putBack(st, &q)
			return
		}
		v.setMember(st, n, p, r, args, m2, func(st *St, os []*Term) {
			q := q
			q.Outs = nil
			for j, w := range h.Outs {
				if os[j] == c.Select(w, r) || v.entails(st, c.Eq(os[j], c.Select(w, r))) {
					q.Outs = append(q.Outs, w)
				} else {
					q.Outs = append(q.Outs, c.Store(w, r, os[j]))
				}
			}
			st.replace(h, &q)
			putBack(st, &q)
		})
	}
	putBack(st, h)
}

// owned: p(r, args) is in the heap outside of a region, or its parts are.
func (v *Verifier) owned(st *St, p *PredDecl, r *Term, args []*Term) bool {
	ins := append([]*Term{r}, args...)
	return v.findPred(st, p, ins) != nil || v.ownsParts(st, p, ins)
}

// setMember consumes p(r, args; ?) and hands the outputs to k.
func (v *Verifier) setMember(st *St, n *Node, p *PredDecl, r *Term, args []*Term, m cmode, k func(*St, []*Term)) {
	e := NewEnv(nil)
	e.vars["r$"] = TV{T: r}
	call := &Node{K: "call", S: p.Name, A: []*Node{{K: "id", S: "r$", Pos: n.Pos}}, Pos: n.Pos}
	for i, a := range args {
		nm := fmt.Sprintf("a%d$", i)
		e.vars[nm] = TV{T: a}
		call.A = append(call.A, &Node{K: "id", S: nm, Pos: n.Pos})
	}
	for i := range p.Outs {
		call.Outs = append(call.Outs, &Node{K: "bind", S: fmt.Sprintf("o%d$", i), Pos: n.Pos})
	}
	v.consumePred(st, call, p, e, m, func(st *St, e *Env) {
		var outs []*Term
		for i := range p.Outs {
			outs = append(outs, e.vars[fmt.Sprintf("o%d$", i)].T)
		}
		k(st, outs)
	})
}

// readSet: every reference of xs holds p read-only.
func (v *Verifier) readSet(st *St, n *Node, p *PredDecl, xs *Term, args []*Term, e *Env, m cmode, k kont, bindX func(*Env, *Term) *Env) {
	c := v.c
	j := c.BVar("j", c.Int)
	at := c.Idx(xs, j)
	in := c.And(c.Le(c.I(0), j), c.Lt(j, c.Len(xs)))
	ins := append([]*Term{at}, args...)
	v.prove(st, c.Forall([]*Term{j}, [][]*Term{{at}}, c.Imp(in, v.fzPred(p, ins))), m.name, n.Pos+": the members are readable")
	h := &Chunk{Kind: 'm', Key: p.Name, Pred: p, Ins: args, Xs: xs, Arr: c.Fresh("members", c.Array(c.Ref, c.Bool))}
	var eqs []*Term
	for i, s := range v.setSorts(p) {
		h.Outs = append(h.Outs, c.Fresh(p.Outs[i].Name, s))
		eqs = append(eqs, c.Eq(c.mk("select", s.Elem, h.Outs[i], at), v.fzOuts(p, ins)[i]))
	}
	v.assumeT(st, c.Forall([]*Term{j}, [][]*Term{{at}}, c.Imp(in, c.And(append(eqs, c.mk("select", c.Bool, h.Arr, at))...))))
	st.heap = append(st.heap, h)
	e = bindX(e, xs)
	for i, o := range n.Outs {
		v.matchPat(st, o, h.Outs[i], nil, e, m.name)
	}
	k(st, e)
}
