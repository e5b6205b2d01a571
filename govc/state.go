package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Chunk struct {
	Kind     byte // F field, C cell, A array, P predicate, R region
	Key      string
	Ref      *Term
	Val      *Term
	GT       types.Type // type of Val (F, C), element type (A)
	Pred     *PredDecl
	Ins      []*Term
	Outs     []*Term
	Arr      *Term   // region: the references; set: the membership array
	Xs       *Term   // set: the sequence of references
	Lo, Hi   *Term   // region: the index range
	Holes    []*Term // region: indices taken out
	Frozen   int     // id of the loop instance that froze it (0: none)
	Borrowed bool
}

func (h *Chunk) String() string {
	f := ""
	if h.Frozen > 0 {
		f = "[frozen]"
	}
	switch h.Kind {
	case 'F', 'C':
		return fmt.Sprintf("%s%s(%s) |-> %s", f, h.Key, h.Ref, h.Val)
	case 'A':
		return fmt.Sprintf("%sarr(%s; %s)", f, h.Ref, h.Val)
	case 'M', 'm':
		return fmt.Sprintf("%sset %s(%v, %v without %v; %v)", f, h.Pred.Name, h.Xs, h.Ins, h.Holes, h.Outs)
	case 'R', 'r':
		return fmt.Sprintf("%sregion %s(%s, %s..%s without %v; %v)", f, h.Pred.Name, h.Arr, h.Lo, h.Hi, h.Holes, h.Outs)
	}
	return fmt.Sprintf("%s%s(%v; %v)", f, h.Pred.Name, h.Ins, h.Outs)
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Value
	args  []Value
	instr *ssa.Defer
}

type Frame struct {
	fn         *ssa.Function
	id         int
	regs       map[ssa.Value]Value
	locals     map[*ssa.Alloc]*Term
	names      []namedCell // executed allocs in order
	env        *Env
	cont       *Contract
	loops      map[*Loop]int // active loop instances (entered through invariant)
	defers     []deferred
	k          func(*St, []Value)
	self       *Term
	depth      int
	unroll     map[*Loop]int
	measure    map[*Loop]*Term
	loopCells  map[*Loop][]*Term
	recovering bool
	panicVal   *Term
	loopPre    map[*Loop]map[string]TV
}

type namedCell struct {
	name  string
	alloc *ssa.Alloc
}

type St struct {
	heap      []*Chunk
	pc        *PC
	frames    []*Frame
	typed     map[int]bool
	unf       map[string]bool    // frozen unfoldings done
	mem       map[string][]*Term // outputs of predicates when last opened
	trace     []string
	panicking *Term // non-nil while a panic is propagating
}

func (s *St) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *St) clone() *St {
	n := &St{pc: s.pc, panicking: s.panicking}
	n.heap = append([]*Chunk(nil), s.heap...)
	n.trace = append([]string(nil), s.trace...)
	n.typed = make(map[int]bool, len(s.typed))
	for k := range s.typed {
		n.typed[k] = true
	}
	n.unf = make(map[string]bool, len(s.unf))
	for k := range s.unf {
		n.unf[k] = true
	}
	n.mem = make(map[string][]*Term, len(s.mem))
	for k, x := range s.mem {
		n.mem[k] = x
	}
	for _, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]Value, len(f.regs))
		for k, x := range f.regs {
			g.regs[k] = x
		}
		g.locals = make(map[*ssa.Alloc]*Term, len(f.locals))
		for k, x := range f.locals {
			g.locals[k] = x
		}
		g.names = append([]namedCell(nil), f.names...)
		g.loops = map[*Loop]int{}
		for k, x := range f.loops {
			g.loops[k] = x
		}
		g.unroll = map[*Loop]int{}
		for k, x := range f.unroll {
			g.unroll[k] = x
		}
		g.measure = map[*Loop]*Term{}
		for k, x := range f.measure {
			g.measure[k] = x
		}
		g.loopCells = map[*Loop][]*Term{}
		for k, x := range f.loopCells {
			g.loopCells[k] = x
		}
		g.loopPre = map[*Loop]map[string]TV{}
		for k, x := range f.loopPre {
			g.loopPre[k] = x
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	return n
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
}

type Obl struct {
	Name   string
	Count  int
	Fails  []*Failure
	Solver string
}

type Failure struct {
	Name   string
	Func   string
	Detail string
	Pos    string
	Solver string
	Trace  []string
}

type Verifier struct {
	c              *Ctx
	s              *Solver
	P              *Program
	sp             *Spec
	tags           map[string]int
	tagTypes       []types.Type
	implFns        map[string]*types.Interface
	nfld           int
	fnIDs          map[string]int
	fnConsts       map[*Term]*ssa.Function
	closures       map[*Term]*Closure
	obls           map[string]*Obl
	oblOrd         []string
	used           map[string]bool // contracts relied upon
	usedLem        map[string]bool
	inlined        map[string]bool
	assume         map[string]bool
	unit           string // name of the unit being verified
	cont           *Contract
	rootFn         *ssa.Function
	loopID         int
	frameID        int
	lemDone        map[string]bool
	funDone        map[string]bool
	paths          int
	maxPaths       int
	reach          int
	deadline       time.Time
	entryMeasure   *Term
	quickMS, hardS int
	cur            string
	regions        int
	failN          int
	memo           map[string]bool
	postNoIter     bool
	lent           bool           // what a lock lends was handed out
	loopSel        map[string]int // alternative invariants chosen
	missingInv     bool
	hard           int
	noTerm         map[string]bool
	debug          bool
	runCont        *Contract // the contract of the unit itself
	oblPrefix      string
	usedTypes      map[string]bool
	usedPreds      map[string]bool
	limDone        map[string]bool
	folding        int // nesting of predicates being closed
	opened         map[string]bool
	usedRules      map[string]bool
	noRule         map[string]bool
	nilin          bool
	opening        map[*PredDecl]int
	openPred       map[*PredDecl]bool
	onFz           func(*PredDecl, []*Term)
}

func NewVerifier(P *Program, sp *Spec) *Verifier {
	v := &Verifier{c: NewCtx(), P: P, sp: sp, tags: map[string]int{}, implFns: map[string]*types.Interface{}, fnIDs: map[string]int{}, fnConsts: map[*Term]*ssa.Function{}, closures: map[*Term]*Closure{}, obls: map[string]*Obl{}, used: map[string]bool{}, usedLem: map[string]bool{}, inlined: map[string]bool{}, assume: map[string]bool{}, lemDone: map[string]bool{}, funDone: map[string]bool{}, maxPaths: 4000, quickMS: 3000, hardS: *fHard, memo: map[string]bool{}, loopSel: map[string]int{}, noTerm: map[string]bool{}, usedTypes: map[string]bool{}, usedPreds: map[string]bool{}, limDone: map[string]bool{}, opened: map[string]bool{}, usedRules: map[string]bool{}, noRule: map[string]bool{}, opening: map[*PredDecl]int{}, openPred: map[*PredDecl]bool{}}
	v.c.v = v
	v.s = NewSolver(v.c)
	return v
}

func (v *Verifier) assumeT(st *St, t *Term) {
	if t.isTrue() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			v.assumeT(st, a)
		}
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &PC{st.pc, v.c.Goal(t, false), d}
}

func (v *Verifier) assumeType(st *St, t *Term, gt types.Type) {
	if gt == nil || st.typed[t.id] || t.open {
		return
	}
	st.typed[t.id] = true
	v.assumeT(st, v.typeInv(t, gt))
	if st2 := v.asStruct(gt); st2 != nil && t.Sort.Kind == KData {
		for i := 0; i < st2.NumFields(); i++ {
			v.assumeType(st, v.c.Sel(t.Sort.Ctor[0], i, t), st2.Field(i).Type())
		}
	}
}

func (v *Verifier) known(st *St, g *Term) bool {
	for q := st.pc; q != nil; q = q.parent {
		if q.t == g {
			return true
		}
	}
	return false
}

// entails decides pc |= g quickly (used for matching decisions).
func (v *Verifier) entails(st *St, g *Term) bool {
	if g.isTrue() {
		return true
	}
	if g.isFalse() && st.pc == nil {
		return false
	}
	k := fmt.Sprintf("%p %d", st.pc, g.id)
	if r, ok := v.memo[k]; ok {
		return r
	}
	r := v.known(st, g)
	if !r && !g.isFalse() && v.known(st, v.c.Not(g)) {
		// the opposite is known: entailed only on an impossible path
		r = v.infeasible(st)
	} else if !r {
		ms := v.quickMS
		if g.isFalse() {
			ms /= 3
		}
		gg := v.c.Goal(g, true)
		if gg != g {
			// often equal without looking at the elements
			r, _ = v.s.Check(st.pc, g, 200)
		}
		if !r {
			r, _ = v.s.Check(st.pc, gg, ms)
		}
	}
	v.memo[k] = r
	return r
}

func (v *Verifier) infeasible(st *St) bool { return v.entails(st, v.c.False()) }

func (v *Verifier) obl(name string) *Obl {
	name = v.oblPrefix + name
	o := v.obls[name]
	if o == nil {
		o = &Obl{Name: name}
		v.obls[name] = o
		v.oblOrd = append(v.oblOrd, name)
	}
	return o
}

func (v *Verifier) prove(st *St, g *Term, name, detail string) bool {
	o := v.obl(name)
	o.Count++
	if g.isTrue() {
		return true
	}
	if g.Op == "and" {
		ok := true
		for _, a := range g.Args {
			if !v.prove1(st, a, o, detail) {
				ok = false
			}
		}
		return ok
	}
	return v.prove1(st, g, o, detail)
}

func (v *Verifier) prove1(st *St, g *Term, o *Obl, detail string) bool {
	if v.entails(st, g) {
		if !builtinOps[g.Op] && !v.known(st, g) {
			// an application of a defined function: keep it, lemmas trigger on it
			v.assumeT(st, g)
		}
		return true
	}
	gg := v.c.Goal(g, true)
	if v.failN < 3 {
		if v.hard < 25 {
			v.hard++
			ok, why := v.s.CheckHard(st.pc, gg, v.hardS)
			if ok {
				v.assumeT(st, g)
				return true
			}
			o.Solver = why
		}
	}
	v.fail(st, o.Name, detail+"\n  goal: "+g.String(), o.Solver)
	v.assumeT(st, g)
	return false
}

func (v *Verifier) fail(st *St, name, detail, solver string) {
	var o *Obl
	if strings.HasPrefix(name, v.oblPrefix) {
		name = name[len(v.oblPrefix):]
	}
	o = v.obl(name)
	if o.Count == 0 {
		o.Count = 1
	}
	if v.infeasibleQ(st) {
		return
	}
	v.failN++
	f := &Failure{Name: o.Name, Func: v.unit, Detail: detail, Pos: v.cur, Solver: solver}
	if st != nil {
		f.Trace = append([]string(nil), st.trace...)
		for _, h := range st.heap {
			f.Trace = append(f.Trace, "heap: "+h.String())
		}
	}
	o.Fails = append(o.Fails, f)
}

func (v *Verifier) infeasibleQ(st *St) bool {
	if st == nil {
		return false
	}
	return v.infeasible(st)
}

// ---------------------------------------------------------------- heap

func (v *Verifier) add(st *St, h *Chunk) {
	c := v.c
	for _, o := range st.heap {
		if o.Kind == h.Kind && o.Key == h.Key && (h.Kind == 'F' || h.Kind == 'C') {
			v.assumeT(st, c.Not(c.Eq(o.Ref, h.Ref)))
		}
		if h.Kind == 'A' && o.Kind == 'A' && o.Key == h.Key && h.Ref != o.Ref {
			v.assumeT(st, c.Or(c.Eq(h.Ref, c.Nil()), c.Not(c.Eq(o.Ref, h.Ref))))
		}
	}
	if h.Kind == 'F' || h.Kind == 'C' {
		v.assumeT(st, c.Not(c.Eq(h.Ref, c.Nil())))
	}
	// a predicate that owns a field of its argument is separate from that field
	if h.Kind == 'F' || h.Kind == 'P' {
		for _, a := range v.roots(h) {
			for _, o := range st.heap {
				if o.Kind != 'P' && h.Kind != 'P' {
					continue
				}
				for _, b := range v.roots(o) {
					if a.key == b.key && v.maybeEq(a.ref, b.ref) {
						v.assumeT(st, c.Not(c.Eq(a.ref, b.ref)))
						break
					}
				}
			}
		}
	}
	// nor is it a member of a set, unless taken out of it
	if h.Kind == 'F' || h.Kind == 'P' && len(h.Ins) > 0 && h.Ins[0].Sort == c.Ref {
		ref, key := h.Ref, h.Key
		if h.Kind == 'P' {
			ref, key = h.Ins[0], ""
		}
		for _, o := range st.heap {
			if o.Kind != 'M' {
				continue
			}
			if key == "" {
				key = v.ownsField(h)
			}
			if key == v.ownsFieldP(o.Pred) {
				g := []*Term{c.Not(c.Select(o.Arr, ref))}
				for _, x := range o.Holes {
					g = append(g, c.Eq(ref, x))
				}
				v.assumeT(st, c.Or(g...))
			}
		}
	}
	st.heap = append(st.heap, h)
	if h.Kind == 'P' {
		v.predFacts(st, h.Pred, h.Ins, h.Outs, false)
	}
}

type rootKey struct {
	key string
	ref *Term
}

// roots lists fields that a chunk certainly owns.
func (v *Verifier) roots(h *Chunk) []rootKey {
	if h.Kind == 'F' {
		return []rootKey{{h.Key, h.Ref}}
	}
	if h.Kind != 'P' || len(h.Pred.Cases) != 1 || h.Frozen < 0 {
		return nil
	}
	pc := h.Pred.Cases[0]
	if pc.Guard != nil || pc.Closure != "" || pc.Type != "" {
		return nil
	}
	for _, n := range conjs(pc.Body) {
		if n.K != "pto" || n.A[0].K != "fld" || n.A[0].A[0].K != "id" {
			continue
		}
		for i, d := range h.Pred.Ins {
			if d.Name != n.A[0].A[0].S {
				continue
			}
			_, g := v.resolveType(d.Ty)
			if T, st := v.ptrStruct(g); st != nil {
				if fi := fieldIndex(st, n.A[0].S); fi >= 0 {
					return []rootKey{{fieldKey(T, fi), h.Ins[i]}}
				}
			}
		}
	}
	return nil
}

func (st *St) remove(h *Chunk) {
	var out []*Chunk
	for _, o := range st.heap {
		if o != h {
			out = append(out, o)
		}
	}
	st.heap = out
}

func (st *St) replace(h, n *Chunk) {
	out := make([]*Chunk, len(st.heap))
	for i, o := range st.heap {
		if o == h {
			out[i] = n
		} else {
			out[i] = o
		}
	}
	st.heap = out
}

func (v *Verifier) find(st *St, kind byte, key string, ref *Term) *Chunk {
	var cand []*Chunk
	for _, h := range st.heap {
		if h.Kind == kind && h.Key == key {
			if h.Ref == ref {
				return h
			}
			cand = append(cand, h)
		}
	}
	for _, h := range cand {
		if v.maybeEq(h.Ref, ref) && v.entails(st, v.c.Eq(h.Ref, ref)) {
			return h
		}
	}
	return nil
}

// maybeEq filters out references that are syntactically known to differ.
func (v *Verifier) maybeEq(a, b *Term) bool {
	if a.Op == "0" || b.Op == "0" {
		return false
	}
	if strings.HasPrefix(a.Op, "new_") && strings.HasPrefix(b.Op, "new_") {
		return a == b
	}
	fa, fb := strings.HasPrefix(a.Op, "fld_"), strings.HasPrefix(b.Op, "fld_")
	if fa && fb && a.Op != b.Op {
		return false
	}
	return true
}

func (v *Verifier) findPred(st *St, p *PredDecl, ins []*Term) *Chunk {
	var cand []*Chunk
	for _, h := range st.heap {
		if h.Kind == 'P' && h.Pred == p {
			same := true
			for i := range ins {
				if h.Ins[i] != ins[i] {
					same = false
				}
			}
			if same {
				return h
			}
			cand = append(cand, h)
		}
	}
	for _, h := range cand {
		ok := true
		var eqs []*Term
		for i := range ins {
			if h.Ins[i] != ins[i] {
				if h.Ins[i].Sort == v.c.Ref && !v.maybeEq(h.Ins[i], ins[i]) {
					ok = false
				}
				eqs = append(eqs, v.c.Eq(h.Ins[i], ins[i]))
			}
		}
		if ok && v.entails(st, v.c.And(eqs...)) {
			return h
		}
	}
	return nil
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=": true, "<": true, "<=": true, "=>": true, "ite": true, "forall": true, "exists": true, "true": true, "false": true}
