package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unit is one thing to verify: a function against its contract, a closure or
// method against the contract of its function type or interface, a lemma, or
// the facts exported by a predicate.
type Unit struct {
	Name string
	Kind string // func, impl, lemma, pred
	Cont *Contract
	Impl *ImplDecl
	Meth string
	Lem  *LemmaDecl
	Pred *PredDecl
	Rule *RuleDecl
}

type Result struct {
	Unit     *Unit
	Obls     []*Obl
	Failed   []*Failure
	Used     []string
	Lemmas   []string
	Inlined  []string
	Assume   []string
	NoTerm   []string
	Types    []string
	Preds    []string
	Rules    []string
	Queries  int64
	Solver   time.Duration
	Wall     time.Duration
	Fallback map[string]int
	Err      string
	Absent   bool
	Trusted  string
	Bounded  string
}

func (v *Verifier) finish(r *Result) {
	for _, n := range v.oblOrd {
		o := v.obls[n]
		if o.Count == 0 {
			continue
		}
		r.Obls = append(r.Obls, o)
		r.Failed = append(r.Failed, o.Fails...)
	}
	r.Used = keys(v.used)
	r.Lemmas = keys(v.usedLem)
	r.Inlined = keys(v.inlined)
	r.Assume = keys(v.assume)
	r.NoTerm = keys(v.noTerm)
	r.Types = keys(v.usedTypes)
	r.Preds = keys(v.usedPreds)
	r.Rules = keys(v.usedRules)
	r.Queries = v.s.queries
	r.Solver = v.s.time
	r.Fallback = v.s.fb
}

func RunUnit(P *Program, sp *Spec, u *Unit, limit time.Duration, debug bool) (r *Result) {
	t0 := time.Now()
	r = &Result{Unit: u}
	v := NewVerifier(P, sp)
	v.unit = u.Name
	v.debug = debug
	v.deadline = t0.Add(limit)
	defer v.s.Close()
	defer func() { r.Wall = time.Since(t0) }()
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case specErr:
				r.Err = "specification error: " + y.msg
			case missing:
				v.fail(nil, "specified-entity-present", "the code no longer has "+string(y), "")
			case unsup:
				v.fail(nil, "unsupported", string(y), "")
			default:
				if debug {
					panic(x)
				}
				r.Err = fmt.Sprint(x)
			}
			v.finish(r)
		}
	}()
	switch u.Kind {
	case "func":
		if u.Cont.Trusted != "" {
			r.Trusted = u.Cont.Trusted
			return r
		}
		if u.Cont.Kind == "extern" {
			r.Trusted = "external function"
			return r
		}
		fn := P.funcs[u.Cont.Name]
		if fn == nil {
			r.Absent = true
			return r
		}
		r.Bounded = u.Cont.Bounded
		v.verifyFunc(u.Cont, fn)
	case "impl":
		v.verifyImpl(u)
	case "lemma":
		v.verifyLemma(u.Lem)
	case "pred":
		v.verifyPred(u.Pred)
	case "rule":
		v.verifyRule(u.Rule)
	}
	v.finish(r)
	return r
}

func (v *Verifier) use(names []string) {
	for _, n := range names {
		if f := v.sp.Funs[n]; f != nil && f.Opaque {
			v.opened[n] = true
		}
	}
	for _, n := range names {
		found := v.opened[n]
		for _, l := range v.sp.Lemmas {
			if l.Name == n || l.Group == n {
				found = true
				v.addLemma(l)
			}
		}
		if !found {
			panic(specErr{"unknown lemma or group " + n})
		}
	}
}

func (v *Verifier) addLemma(l *LemmaDecl) {
	if v.lemDone[l.Name] {
		return
	}
	v.lemDone[l.Name] = true
	v.usedLem[l.Name] = true
	vs, ps, body := v.lemmaTerms(l)
	v.c.globals = append(v.c.globals, v.c.Forall(vs, ps, v.c.Goal(body, false)).smt(v.c))
}

func (v *Verifier) lemmaTerms(l *LemmaDecl) ([]*Term, [][]*Term, *Term) {
	e := NewEnv(nil)
	var vs []*Term
	for _, p := range l.Params {
		s, g := v.resolveType(p.Ty)
		b := v.c.BVar(p.Name, s)
		vs = append(vs, b)
		e.vars[p.Name] = TV{b, g}
	}
	body := v.evalB(l.Body, e)
	var ps [][]*Term
	for _, t := range l.Trig {
		var p []*Term
		for _, x := range t {
			p = append(p, v.eval(x, e).T)
		}
		ps = append(ps, p)
	}
	return vs, ps, body
}

// verifyLemma proves a lemma, by structural or numeric induction when asked.
func (v *Verifier) verifyLemma(l *LemmaDecl) {
	c := v.c
	if l.Axiom {
		v.assume["axiom "+l.Name] = true
		return
	}
	for _, n := range l.Uses {
		if f := v.sp.Funs[n]; f != nil && f.Opaque {
			v.opened[n] = true
		}
	}
	for _, n := range l.Uses {
		// only lemmas stated earlier may be used
		for _, o := range v.sp.Lemmas {
			if o == l {
				break
			}
			if o.Name == n || o.Group == n {
				v.addLemma(o)
			}
		}
	}
	st := &St{typed: map[int]bool{}, unf: map[string]bool{}, mem: map[string][]*Term{}}
	v.cur = l.Pos
	mk := func(fixed map[string]*Term) (*Env, *Term) {
		e := NewEnv(nil)
		for _, p := range l.Params {
			s, g := v.resolveType(p.Ty)
			t := fixed[p.Name]
			if t == nil {
				t = c.Fresh(p.Name, s)
			}
			e.vars[p.Name] = TV{t, g}
		}
		return e, v.evalB(l.Body, e)
	}
	goal := func(st *St, e *Env, g *Term, name string) {
		for i, h := range l.Proof {
			t := v.evalB(h, e)
			v.prove(st, t, fmt.Sprintf("%s.step%d", name, i+1), l.Pos)
			v.assumeT(st, t)
		}
		v.proveSplit(st, g, name, l.Pos)
	}
	if l.Induct == "" {
		e, g := mk(nil)
		goal(st, e, g, "holds")
		return
	}
	var is *Sort
	for _, p := range l.Params {
		if p.Name == l.Induct {
			is, _ = v.resolveType(p.Ty)
		}
	}
	// hyp(t): the lemma for t in place of the induction variable
	hyp := func(t *Term) *Term {
		e := NewEnv(nil)
		var vs []*Term
		for _, p := range l.Params {
			if p.Name == l.Induct {
				e.vars[p.Name] = TV{T: t}
				continue
			}
			s, g := v.resolveType(p.Ty)
			b := c.BVar(p.Name, s)
			vs = append(vs, b)
			e.vars[p.Name] = TV{b, g}
		}
		body := v.evalB(l.Body, e)
		var ps [][]*Term
		for _, tr := range l.Trig {
			var p []*Term
			for _, x := range tr {
				p = append(p, v.eval(x, e).T)
			}
			ps = append(ps, p)
		}
		if len(vs) == 0 {
			return body
		}
		return c.Forall(vs, ps, body)
	}
	// limited: the same hypothesis about the once-unfolded recursive functions
	limited := func(t *Term) *Term {
		for _, f := range v.sp.FunOrd {
			if v.limDone[f.Name] {
				t = c.renameFun(t, f.Name, f.Name+"_lim")
			}
		}
		return t
	}
	assumeHyp := func(st *St, h *Term) {
		v.assumeT(st, h)
		if l := limited(h); l != h {
			v.assumeT(st, l)
		}
	}
	switch {
	case is.Kind == KData:
		for _, ct := range is.Ctor {
			s2 := st.clone()
			var fs []*Term
			for _, f := range ct.Fields {
				fs = append(fs, c.Fresh(f.Name, f.Sort))
			}
			t := c.Con(ct.Name, fs...)
			for i, f := range ct.Fields {
				if f.Sort == is {
					assumeHyp(s2, hyp(fs[i]))
				}
			}
			e, g := mk(map[string]*Term{l.Induct: t})
			goal(s2, e, g, "case-"+ct.Name)
		}
	case is == c.Int:
		n := c.Fresh(l.Induct, c.Int)
		// strong induction on a natural number; negative values directly
		m := c.BVar("m", c.Int)
		h := hyp(m)
		var hq *Term
		if len(h.Bound) > 0 {
			vs := append([]*Term{m}, h.Bound...)
			hq = c.Forall(vs, h.Pats, c.Imp(c.And(c.Le(c.I(0), m), c.Lt(m, n)), h.Args[0]))
		} else {
			hq = c.Forall([]*Term{m}, nil, c.Imp(c.And(c.Le(c.I(0), m), c.Lt(m, n)), h))
		}
		s2 := st.clone()
		v.assumeT(s2, c.Le(c.I(0), n))
		assumeHyp(s2, hq)
		v.assumeT(s2, c.Imp(c.Lt(c.I(0), n), hyp(c.Sub(n, c.I(1)))))
		e, g := mk(map[string]*Term{l.Induct: n})
		goal(s2, e, g, "step")
		s3 := st.clone()
		v.assumeT(s3, c.Lt(n, c.I(0)))
		e, g = mk(map[string]*Term{l.Induct: n})
		goal(s3, e, g, "negative")
	case is.Kind == KSeq:
		// induction on the length
		s := c.Fresh(l.Induct, is)
		m := c.BVar("m", is)
		h := hyp(m)
		guard := c.Lt(c.Len(m), c.Len(s))
		var hq *Term
		if len(h.Bound) > 0 {
			hq = c.Forall(append([]*Term{m}, h.Bound...), h.Pats, c.Imp(guard, h.Args[0]))
		} else {
			var ps [][]*Term
			for _, tr := range l.Trig {
				e := NewEnv(nil)
				e.vars[l.Induct] = TV{T: m}
				var p []*Term
				for _, x := range tr {
					p = append(p, v.eval(x, e).T)
				}
				ps = append(ps, p)
			}
			hq = c.Forall([]*Term{m}, ps, c.Imp(guard, h))
		}
		assumeHyp(st, hq)
		e, g := mk(map[string]*Term{l.Induct: s})
		goal(st, e, g, "step")
	default:
		panic(specErr{l.Pos + ": cannot do induction on " + l.Induct})
	}
}

// proveSplit proves implications and conjunctions piecewise.
func (v *Verifier) proveSplit(st *St, g *Term, name, detail string) {
	switch g.Op {
	case "=>":
		s2 := st.clone()
		v.assumeT(s2, g.Args[0])
		v.proveSplit(s2, g.Args[1], name, detail)
		return
	case "and":
		for _, a := range g.Args {
			v.proveSplit(st, a, name, detail)
			v.assumeT(st, a)
		}
		return
	case "forall":
		m := map[string]*Term{}
		for _, b := range g.Bound {
			m[b.Op] = v.c.Fresh(strings.Split(b.Op, "?")[0], b.Sort)
		}
		v.proveSplit(st, v.c.Subst(g.Args[0], m), name, detail)
		return
	}
	v.prove(st, g, name, detail)
}

func (v *Verifier) verifyPred(p *PredDecl) {
	v.use(p.Uses)
	st := &St{typed: map[int]bool{}, unf: map[string]bool{}, mem: map[string][]*Term{}}
	var ins, outs []*Term
	for _, d := range p.Ins {
		s, g := v.resolveType(d.Ty)
		t := v.c.Fresh(d.Name, s)
		v.assumeType(st, t, g)
		ins = append(ins, t)
	}
	for _, d := range p.Outs {
		s, g := v.resolveType(d.Ty)
		t := v.c.Fresh(d.Name, s)
		v.assumeType(st, t, g)
		outs = append(outs, t)
	}
	for _, pc := range p.Cases {
		s2 := st.clone()
		if pc.Type != "" {
			gt := v.goType(pc.Type)
			ins2 := append([]*Term(nil), ins...)
			ins2[0] = v.box(v.c.Fresh(pc.As, v.goSort(gt)), gt)
			v.predCase(s2, p, pc, ins2, outs)
			continue
		}
		v.predCase(s2, p, pc, ins, outs)
	}
}

func (v *Verifier) predCase(st *St, p *PredDecl, pc *PredCase, ins, outs []*Term) {
	g, e := v.caseGuard(pc, p, ins, v.predEnv(p, ins, outs))
	v.assumeT(st, g)
	v.produce(st, pc.Body, e, pmode{}, func(st *St, e *Env) {
		fe := v.predEnv(p, ins, outs)
		for i, f := range p.Facts {
			v.prove(st, v.evalB(f, fe), fmt.Sprintf("fact.%d", i+1), p.Pos)
		}
	})
}

func (v *Verifier) initState() *St {
	return &St{typed: map[int]bool{}, unf: map[string]bool{}, mem: map[string][]*Term{}}
}

// hasIter: does an assertion mention an iterator family (a predicate with
// closure or dynamic type cases holding read-only parts)?
func (v *Verifier) hasIter(ns []*Node) bool {
	for _, n := range ns {
		for _, c := range conjs(n) {
			if c.K == "call" {
				if p := v.sp.Preds[c.S]; p != nil {
					for _, pc := range p.Cases {
						if pc.Closure != "" || pc.Type != "" {
							return true
						}
					}
				}
			}
			if c.K == "ite" {
				if v.hasIter(c.A[1:]) {
					return true
				}
			}
			if c.K == "ro" {
				return true
			}
		}
	}
	return false
}

func (v *Verifier) verifyFunc(ct *Contract, fn *ssa.Function) {
	v.use(ct.Uses)
	v.cont, v.rootFn, v.runCont = ct, fn, ct
	st := v.initState()
	e := NewEnv(nil)
	spec := ct
	params := ct.Params
	var self *Term
	if ct.Impl != "" {
		spec = v.sp.Conts[ct.Impl]
		if spec == nil {
			panic(specErr{ct.Pos + ": unknown function type contract " + ct.Impl})
		}
		v.use(spec.Uses)
		params = spec.Params
		v.cont = spec
	}
	var free []Value
	if len(fn.FreeVars) > 0 || ct.Impl != "" {
		self = v.c.Fresh("self", v.c.Fn)
		name := v.P.fname(fn)
		v.assumeT(st, v.c.Eq(v.c.App("fnid", v.c.Int, self), v.fnID(name)))
		for _, fv := range fn.FreeVars {
			t := v.capture(self, name, fv.Name())
			free = append(free, t)
		}
		v.closures[self] = &Closure{fn: fn, bind: free}
		if ct.Impl != "" || len(params) == len(fn.Params)+1 {
			if len(params) == 0 {
				panic(specErr{spec.Pos + ": a function type contract needs a self parameter"})
			}
			e.vars[params[0]] = TV{T: self}
			params = params[1:]
		}
		for i, fv := range fn.FreeVars {
			if _, ok := e.vars[fv.Name()]; !ok {
				e.vars[fv.Name()] = TV{free[i].(*Term), fv.Type()}
			}
		}
	}
	if len(params) > len(fn.Params) {
		panic(missing(fmt.Sprintf("parameter %d of %s", len(params), ct.Name)))
	}
	var args []Value
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(params) {
			nm = params[i]
		}
		t := v.c.Fresh(nm, v.goSort(p.Type()))
		v.assumeType(st, t, p.Type())
		args = append(args, t)
		e.vars[nm] = TV{t, p.Type()}
		e.vars["old$"+nm] = TV{t, p.Type()}
	}
	v.cur = v.pos(fn.Pos())
	v.produceAll(st, spec.Req, e, pmode{}, func(st *St, e *Env) {
		v.produceAll(st, spec.Reads, e, pmode{fz: true}, func(st *St, e *Env) {
			v.produceAll(st, spec.Borrows, e, pmode{fz: true}, func(st *St, e *Env) {
				if v.infeasible(st) {
					return
				}
				v.vacuity(st)
				for _, a := range ct.Assumes {
					v.assumeT(st, v.evalB(a, e))
					v.assume[ct.Name+": "+ct.Pos+" assumes clause"] = true
				}
				for x, y := range e.vars {
					if !strings.HasPrefix(x, "old$") {
						e.vars["old$"+x] = y
					}
				}
				if spec.Decr != nil {
					v.entryMeasure = v.eval(spec.Decr, e).T
				}
				v.consumeAll(st, ct.Entry, e, cmode{name: "entry", fz: true}, func(st *St, e *Env) {
					v.run(st, fn, self, args, free, e, ct, func(st *St, rs []Value) {
						v.atReturn(st, spec, ct, e.clone(), rs, fn.Signature)
					})
				})
			})
		})
	})
	if v.reach == 0 && v.failN == 0 {
		v.fail(nil, "vacuity", "no path reaches the end of "+ct.Name+": the precondition is contradictory", "")
	}
	v.obl("vacuity").Count = 1
}

func (v *Verifier) vacuity(st *St) {}

func (v *Verifier) atReturn(st *St, spec, ct *Contract, e *Env, rs []Value, sig *types.Signature) {
	if v.infeasible(st) {
		return
	}
	v.reach++
	for i, n := range spec.Results {
		if i >= len(rs) {
			panic(missing(fmt.Sprintf("result %s of %s", n, ct.Name)))
		}
		t, ok := rs[i].(*Term)
		if !ok {
			panic(unsup("returns an address"))
		}
		e.vars[n] = TV{t, sig.Results().At(i).Type()}
	}
	if spec.PanicIf != nil {
		v.prove(st, v.c.Not(v.evalB(spec.PanicIf, e)), "panics-when-required", v.cur)
	}
	for i, h := range ct.Hints {
		t := v.evalB(h, e)
		v.prove(st, t, fmt.Sprintf("hint.%d", i+1), h.Pos)
		v.assumeT(st, t)
	}
	if spec.Pure {
		g := v.c.True()
		if !v.determined(rs, e, spec.Params) {
			g = v.c.False()
		}
		v.prove(st, g, "determined-by-the-arguments", v.cur)
	}
	v.postNoIter = !v.hasIter(spec.Ens)
	v.consumeAll(st, spec.Ens, e, cmode{name: "ensures", post: true}, func(st *St, e *Env) {})
}

// determined: the result terms are built from the arguments alone
func (v *Verifier) determined(rs []Value, e *Env, params []string) bool {
	known := map[*Term]bool{}
	for _, p := range params {
		if t := e.vars[p].T; t != nil {
			known[t] = true
		}
	}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if known[t] {
			return true
		}
		if strings.Contains(t.Op, "!") {
			return false
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	for _, r := range rs {
		if t, is := r.(*Term); !is || !ok(t) {
			return false
		}
	}
	return true
}

// verifyImpl checks that the method of a concrete type refines the contract
// of the interface method.
func (v *Verifier) verifyImpl(u *Unit) {
	T := v.goType(u.Impl.Type)
	name := u.Impl.Iface + "." + u.Meth
	ct := v.sp.Conts[name]
	v.use(ct.Uses)
	v.use(u.Impl.Uses)
	v.cont = ct
	fn := v.methodOf(T, u.Meth)
	if fn == nil {
		panic(missing("method " + u.Meth + " of " + u.Impl.Type))
	}
	st := v.initState()
	e := NewEnv(nil)
	v.rootFn = fn
	recv := v.c.Fresh("recv", v.goSort(T))
	v.assumeType(st, recv, T)
	args := []Value{recv}
	e.vars[ct.Params[0]] = TV{v.box(recv, T), nil}
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		nm := "arg"
		if i+1 < len(ct.Params) {
			nm = ct.Params[i+1]
		}
		pt := sig.Params().At(i).Type()
		t := v.c.Fresh(nm, v.goSort(pt))
		v.assumeType(st, t, pt)
		args = append(args, t)
		e.vars[nm] = TV{t, pt}
	}
	v.cur = v.pos(fn.Pos())
	v.produceAll(st, ct.Req, e, pmode{}, func(st *St, e *Env) {
		v.produceAll(st, ct.Reads, e, pmode{fz: true}, func(st *St, e *Env) {
			v.produceAll(st, ct.Borrows, e, pmode{fz: true}, func(st *St, e *Env) {
				if v.infeasible(st) {
					return
				}
				for x, y := range e.vars {
					if !strings.HasPrefix(x, "old$") {
						e.vars["old$"+x] = y
					}
				}
				st.frames = append(st.frames, &Frame{fn: nil, regs: map[ssa.Value]Value{}, locals: map[*ssa.Alloc]*Term{}, env: e, loops: map[*Loop]int{}})
				v.callFn(st, fn, nil, args, nil, func(st *St, rs []Value) {
					v.atReturn(st, ct, ct, e.clone(), rs, sig)
				})
			})
		})
	})
	if v.reach == 0 && v.failN == 0 {
		v.fail(nil, "vacuity", "no path reaches the end of "+u.Name, "")
	}
	v.obl("vacuity").Count = 1
}

func (v *Verifier) methodOf(T types.Type, m string) *ssa.Function {
	ms := types.NewMethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			return v.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
