package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}
type Tuple []Value

// Addr is an address that has no SMT representation of its own.
type Addr struct {
	kind  byte // L local, F field, E element
	alloc *ssa.Alloc
	l     loc
	idx   *Term
	path  []pathElem
	et    types.Type // type of the addressed value
}

type pathElem struct {
	field int
	T     types.Type // struct type (field) or array type (index)
	idx   *Term
}

// ---------------------------------------------------------------- loops

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	pos    token.Pos
}

var loopCache = map[*ssa.Function][]*Loop{}

func loopsOf(f *ssa.Function) []*Loop {
	loopMu.Lock()
	defer loopMu.Unlock()
	if l, ok := loopCache[f]; ok {
		return l
	}
	by := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := by[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					by[s] = l
				}
				var mark func(x *ssa.BasicBlock)
				mark = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						mark(p)
					}
				}
				mark(b)
			}
		}
	}
	var out []*Loop
	for _, l := range by {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && (l.pos == 0 || p < l.pos) {
					l.pos = p
				}
			}
		}
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool {
		if len(out[i].blocks) != len(out[j].blocks) && (out[i].blocks[out[j].head] || out[j].blocks[out[i].head]) {
			return out[i].blocks[out[j].head] // outer first
		}
		if out[i].pos != out[j].pos {
			return out[i].pos < out[j].pos
		}
		return out[i].head.Index < out[j].head.Index
	})
	for i, l := range out {
		l.ord = i + 1
	}
	loopCache[f] = out
	return out
}

func loopAt(f *ssa.Function, b *ssa.BasicBlock) *Loop {
	for _, l := range loopsOf(f) {
		if l.head == b {
			return l
		}
	}
	return nil
}

// ---------------------------------------------------------------- running functions

func (v *Verifier) unsupported(st *St, what string) {
	v.fail(st, "unsupported", what, "")
}

func (v *Verifier) tooMany(st *St) bool {
	if v.paths > v.maxPaths || time.Now().After(v.deadline) {
		if !v.missingInv {
			v.missingInv = true
			v.fail(st, "resource-limit", fmt.Sprintf("exploration limit reached (%d paths)", v.paths), "")
		}
		return true
	}
	return false
}

// run executes fn symbolically and calls k for every way it returns.
func (v *Verifier) run(st *St, fn *ssa.Function, self *Term, args []Value, free []Value, env *Env, cont *Contract, k func(*St, []Value)) {
	if v.tooMany(st) {
		return
	}
	if len(fn.Blocks) == 0 {
		v.unsupported(st, "no body for "+v.P.fname(fn))
		return
	}
	v.frameID++
	f := &Frame{fn: fn, id: v.frameID, regs: map[ssa.Value]Value{}, locals: map[*ssa.Alloc]*Term{}, env: env, cont: cont, loops: map[*Loop]int{}, unroll: map[*Loop]int{}, measure: map[*Loop]*Term{}, loopCells: map[*Loop][]*Term{}, loopPre: map[*Loop]map[string]TV{}, self: self, k: k}
	if len(st.frames) > 0 {
		f.depth = st.top().depth + 1
	}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[p] = free[i]
	}
	st.frames = append(st.frames, f)
	v.block(st, fn.Blocks[0], nil)
}

func (v *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return v.cur
	}
	q := v.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func (v *Verifier) block(st *St, b, from *ssa.BasicBlock) {
	f := st.top()
	// leaving loops
	if from != nil {
		for l, id := range f.loops {
			if !l.blocks[b] {
				delete(f.loops, l)
				delete(f.unroll, l)
				v.unfreeze(st, id)
			}
		}
	}
	if l := loopAt(f.fn, b); l != nil {
		if id, active := f.loops[l]; active && from != nil && l.blocks[from] {
			_ = id
			v.loopBack(st, l, b, from)
			return
		}
		v.loopEnter(st, l, b, from)
		return
	}
	v.instrs(st, b, from, 0)
}

func (v *Verifier) unfreeze(st *St, id int) {
	for i, h := range st.heap {
		if h.Frozen == id {
			n := *h
			n.Frozen = 0
			st.heap[i] = &n
		}
	}
}

func (v *Verifier) loopSpec(f *Frame, l *Loop) (*LoopSpec, string) {
	name := v.P.fname(f.fn)
	if v.runCont != nil && f.fn != v.rootFn {
		if n := v.runCont.Inlines[name]; n > 0 {
			return &LoopSpec{Unroll: n}, fmt.Sprintf("loop%d", l.ord)
		}
	}
	if c := v.sp.Conts[name]; c != nil {
		if ls := c.Loops[l.ord]; ls != nil {
			return ls, fmt.Sprintf("loop%d", l.ord)
		}
	}
	return &LoopSpec{}, fmt.Sprintf("loop%d", l.ord)
}

// frameEnv is the environment in which invariants of frame f are evaluated.
func (v *Verifier) frameEnv(st *St, f *Frame, pre map[string]TV) *Env {
	// resolved here rather than on demand: the state may be forked and changed
	// before the environment is used
	base := NewEnv(f.env)
	for n, x := range pre {
		base.vars["pre$"+n] = x
	}
	for _, g := range st.frames {
		for _, nc := range g.names {
			if _, done := base.vars[nc.name]; !done {
				if x, ok := v.localVar(st, nc.name); ok && x.T != nil {
					base.vars[nc.name] = x
				}
			}
		}
		for _, fv := range g.fn.FreeVars {
			if _, done := base.vars[fv.Name()]; !done {
				if x, ok := v.localVar(st, fv.Name()); ok && x.T != nil {
					base.vars[fv.Name()] = x
				}
			}
		}
	}
	e := NewEnv(base)
	return e
}

func (v *Verifier) localVar(st *St, n string) (TV, bool) {
	// innermost frame first, then the frames it was inlined into
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		for j := len(f.names) - 1; j >= 0; j-- {
			if f.names[j].name == n {
				a := f.names[j].alloc
				gt := a.Type().Underlying().(*types.Pointer).Elem()
				if !a.Heap {
					return TV{f.locals[a], gt}, true
				}
				if r, ok := f.regs[a].(*Term); ok {
					if h := v.find(st, 'C', cellKey(gt), r); h != nil {
						return TV{h.Val, gt}, true
					}
					if v.asStruct(gt) != nil {
						return TV{r, a.Type()}, true
					}
				}
			}
		}
		for _, fv := range f.fn.FreeVars {
			if fv.Name() == n {
				pt, ptr := fv.Type().Underlying().(*types.Pointer)
				if r, ok := f.regs[fv].(*Term); ok && ptr {
					gt := pt.Elem()
					if h := v.find(st, 'C', cellKey(gt), r); h != nil {
						return TV{h.Val, gt}, true
					}
				}
			}
		}
	}
	return TV{}, false
}

func (v *Verifier) snapshot(st *St, f *Frame) map[string]TV {
	m := map[string]TV{}
	for _, nc := range f.names {
		if x, ok := v.localVar(st, nc.name); ok && x.T != nil {
			m[nc.name] = x
		}
	}
	return m
}

// storedIn: the variables (own or captured) assigned inside the loop.
func storedIn(l *Loop) []ssa.Value {
	seen := map[ssa.Value]bool{}
	root := func(x ssa.Value) ssa.Value {
		for {
			switch y := x.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				return y
			case *ssa.FieldAddr:
				x = y.X
			case *ssa.IndexAddr:
				x = y.X
			default:
				return nil
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				if a := root(i.Addr); a != nil {
					seen[a] = true
				}
			case *ssa.Alloc:
				seen[i] = true
			}
		}
	}
	var out []ssa.Value
	for a := range seen {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

func (v *Verifier) loopEnter(st *St, l *Loop, b, from *ssa.BasicBlock) {
	f := st.top()
	ls, name := v.loopSpec(f, l)
	if f.fn != v.rootFn {
		name = v.P.fname(f.fn) + "." + name
	}
	if ls.Unroll > 0 {
		f.unroll[l] = ls.Unroll
		f.loops[l] = 0
		v.instrs(st, b, from, 0)
		return
	}
	pre := v.snapshot(st, f)
	v.obl(name + ".entry")
	v.consumeAll(st, ls.Invs, v.frameEnv(st, f, pre), cmode{name: name + ".entry"}, func(st *St, _ *Env) {
		f := st.top()
		v.loopID++
		id := v.loopID
		// freeze what the invariant does not own
		nh := make([]*Chunk, len(st.heap))
		for i, h := range st.heap {
			nh[i] = h
			if h.Frozen == 0 {
				n := *h
				n.Frozen = id
				nh[i] = &n
			}
		}
		st.heap = nh
		// havoc variables assigned in the loop
		stored := storedIn(l)
		var cells []*Term
		for _, sv := range stored {
			gt := sv.Type().Underlying().(*types.Pointer).Elem()
			a, _ := sv.(*ssa.Alloc)
			nm := sv.Name()
			if a != nil {
				nm = a.Comment
			}
			if a != nil && !a.Heap {
				if _, ok := f.locals[a]; ok {
					t := v.c.Fresh(nm, v.goSort(gt))
					f.locals[a] = t
					v.assumeType(st, t, gt)
				}
			} else if r, ok := f.regs[sv].(*Term); ok && (a == nil || !l.blocks[a.Block()]) {
				for i, h := range st.heap {
					if h.Kind == 'F' && h.Ref == r {
						// a captured struct variable
						n := *h
						n.Frozen = 0
						n.Val = v.c.Fresh(nm, n.Val.Sort)
						v.assumeType(st, n.Val, n.GT)
						st.heap[i] = &n
						cells = append(cells, r)
					}
					if h.Kind == 'C' && h.Ref == r {
						n := *h
						n.Frozen = 0
						n.Val = v.c.Fresh(nm, n.Val.Sort)
						v.assumeType(st, n.Val, gt)
						st.heap[i] = &n
						cells = append(cells, r)
					}
				}
			}
		}
		f.loops[l] = id
		f.loopPre[l] = pre
		f.loopCells[l] = cells
		v.produceAll(st, ls.Invs, v.frameEnv(st, f, pre), pmode{}, func(st *St, e *Env) {
			f := st.top()
			if ls.Decr != nil {
				f.measure[l] = v.eval(ls.Decr, v.frameEnvWith(st, f, pre, e)).T
			} else {
				v.noTerm[v.P.fname(f.fn)+"."+fmt.Sprintf("loop%d", l.ord)] = true
			}
			v.instrs(st, b, from, 0)
		})
	})
}

func (v *Verifier) frameEnvWith(st *St, f *Frame, pre map[string]TV, e *Env) *Env {
	n := v.frameEnv(st, f, pre)
	if e != nil {
		for k, x := range e.vars {
			n.vars[k] = x
		}
	}
	return n
}

func (v *Verifier) loopBack(st *St, l *Loop, b, from *ssa.BasicBlock) {
	f := st.top()
	ls, name := v.loopSpec(f, l)
	if f.fn != v.rootFn {
		name = v.P.fname(f.fn) + "." + name
	}
	if ls.Unroll > 0 {
		f.unroll[l]--
		if f.unroll[l] < 0 {
			if !v.infeasible(st) {
				v.fail(st, name+".unroll", "loop not finished after the stated number of iterations", "")
			}
			return
		}
		v.instrs(st, b, from, 0)
		return
	}
	v.obl(name + ".preserved")
	pre := f.loopPre[l]
	owed := map[*Term]int{}
	for _, r := range f.loopCells[l] {
		owed[r]++
	}
	for _, r := range f.loopCells[l] {
		n := 0
		for _, h := range st.heap {
			if (h.Kind == 'C' || h.Kind == 'F') && h.Ref == r {
				n++
			}
		}
		if n < owed[r] {
			v.fail(st, name+".preserved", "a variable assigned in the loop was given away", "")
			return
		}
	}
	v.consumeAll(st, ls.Invs, v.frameEnv(st, f, pre), cmode{name: name + ".preserved"}, func(st *St, e *Env) {
		f := st.top()
		if ls.Decr != nil {
			m := v.eval(ls.Decr, v.frameEnvWith(st, f, pre, e)).T
			v.prove(st, v.c.And(v.c.Le(v.c.I(0), f.measure[l]), v.c.Lt(m, f.measure[l])), name+".decreases", "")
		}
		v.reach++
	})
}

// ---------------------------------------------------------------- instructions

func (v *Verifier) val(st *St, x ssa.Value) Value {
	c := v.c
	switch y := x.(type) {
	case *ssa.Const:
		return v.constant(y)
	case *ssa.Function:
		return v.fnConst(y)
	case *ssa.Global:
		return c.Const("glob_"+mangle(shortPkg(y.Pkg.Pkg)+"."+y.Name()), c.Ref)
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.top().regs[x]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", x.Name(), st.top().fn))
	}
	return r
}

func (v *Verifier) term(st *St, x ssa.Value) *Term {
	y := v.val(st, x)
	t, ok := y.(*Term)
	if !ok {
		panic(unsup(fmt.Sprintf("value %s (%T) of %s escapes as an address", x.Name(), y, x.Type())))
	}
	return t
}

type unsup string

func (v *Verifier) fnConst(f *ssa.Function) *Term {
	c := v.c
	n := "fn_" + mangle(v.P.fname(f))
	first := !c.declared[n]
	t := c.Const(n, c.Fn)
	if first {
		c.globals = append(c.globals, fmt.Sprintf("(and (not (= %s 0)) (= (fnid %s) %s))", n, n, v.fnID(v.P.fname(f))))
		v.fnConsts[t] = f
	}
	return t
}

func (v *Verifier) fnOf(t *Term) *ssa.Function {
	if f := v.fnConsts[t]; f != nil {
		return f
	}
	if cl := v.closures[t]; cl != nil {
		return cl.fn
	}
	return nil
}

func (v *Verifier) constant(k *ssa.Const) *Term {
	c := v.c
	t := k.Type()
	if k.Value == nil {
		return v.zero(t)
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return c.B(constant.BoolVal(k.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return c.Const("flt_"+mangle(strings.ReplaceAll(k.Value.ExactString(), "-", "m")), v.goSort(t))
		}
		return c.BigI(k.Value.ExactString())
	case constant.String:
		return v.strConst(constant.StringVal(k.Value))
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			i := constant.ToInt(k.Value)
			return c.BigI(i.ExactString())
		}
		return c.Const("flt_"+mangle(strings.NewReplacer("-", "m", "/", "d", ".", "p", "+", "").Replace(k.Value.ExactString())), v.goSort(t))
	}
	panic(unsup("constant " + k.String()))
}

func (v *Verifier) instrs(st *St, b, from *ssa.BasicBlock, i int) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				v.unsupported(st, string(u))
				return
			}
			panic(r)
		}
	}()
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			v.cur = v.pos(p)
		}
		f := st.top()
		next := i + 1
		set := func(st *St, x ssa.Value, y Value) {
			st.top().regs[x] = y
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			v.alloc(st, f, x)
		case *ssa.Phi:
			for j, p := range b.Preds {
				if p == from {
					f.regs[x] = v.val(st, x.Edges[j])
				}
			}
		case *ssa.Store:
			v.store(st, v.val(st, x.Addr), x.Val.Type(), v.storable(st, x.Val), func(st *St) { v.instrs(st, b, from, next) })
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if g, ok := x.X.(*ssa.Global); ok {
					f.regs[x] = v.loadGlobal(st, g)
					continue
				}
				v.load(st, v.val(st, x.X), x.Type(), func(st *St, y Value) {
					set(st, x, y)
					v.instrs(st, b, from, next)
				})
				return
			}
			if x.Op == token.ARROW {
				et := x.X.Type().Underlying().(*types.Chan).Elem()
				v.chanOp(st, "recv", []Value{v.term(st, x.X)}, []types.Type{x.X.Type()}, []types.Type{et, types.Typ[types.Bool]}, func(st *St, rs []Value) {
					if x.CommaOk {
						set(st, x, Tuple(rs))
					} else {
						set(st, x, rs[0])
					}
					v.instrs(st, b, from, next)
				})
				return
			}
			f.regs[x] = v.unop(st, x)
		case *ssa.BinOp:
			f.regs[x] = v.binop(st, x.Op, v.term(st, x.X), v.term(st, x.Y), x.X.Type(), x.Type(), x.Y.Type())
		case *ssa.FieldAddr:
			f.regs[x] = v.fieldAddr(st, v.val(st, x.X), x.X.Type(), x.Field)
		case *ssa.Field:
			t := v.term(st, x.X)
			if t.Sort.Kind != KData {
				y := v.opaqueField(t, x.X.Type(), x.X.Type().Underlying().(*types.Struct), x.Field)
				v.assumeType(st, y, x.Type())
				f.regs[x] = y
				continue
			}
			y := v.c.Sel(t.Sort.Ctor[0], x.Field, t)
			v.assumeType(st, y, x.Type())
			f.regs[x] = y
		case *ssa.IndexAddr:
			a := v.indexAddr(st, x)
			if a == nil {
				return
			}
			f.regs[x] = a
		case *ssa.Index:
			t := v.term(st, x.X)
			ix := v.term(st, x.Index)
			if t.Sort.Kind == KSeq {
				v.check(st, v.c.And(v.c.Le(v.c.I(0), ix), v.c.Lt(ix, v.c.Len(t))), "index-in-range", "string index")
				y := v.c.Idx(t, ix)
				v.assumeType(st, y, x.Type())
				f.regs[x] = y
				continue
			}
			n := asArray(x.X.Type()).Len()
			v.check(st, v.c.And(v.c.Le(v.c.I(0), ix), v.c.Lt(ix, v.c.I(n))), "index-in-range", "array index")
			y := v.c.Select(t, ix)
			v.assumeType(st, y, x.Type())
			f.regs[x] = y
		case *ssa.Extract:
			f.regs[x] = v.val(st, x.Tuple).(Tuple)[x.Index]
		case *ssa.ChangeType, *ssa.ChangeInterface:
			ops := in.Operands(nil)
			f.regs[in.(ssa.Value)] = v.val(st, *ops[0])
		case *ssa.Convert:
			v.convert(st, x, func(st *St, y Value) {
				set(st, x, y)
				v.instrs(st, b, from, next)
			})
			return
		case *ssa.MakeInterface:
			f.regs[x] = v.box(v.term(st, x.X), x.X.Type())
		case *ssa.TypeAssert:
			if x.CommaOk {
				v.typeAssert(st, x, func(st *St) { v.instrs(st, b, from, next) })
				return
			}
			v.typeAssert(st, x, nil)
		case *ssa.MakeClosure:
			f.regs[x] = v.makeClosure(st, x)
		case *ssa.MakeSlice:
			v.makeSlice(st, x)
		case *ssa.Slice:
			v.sliceOp(st, x, func(st *St, y Value) {
				set(st, x, y)
				v.instrs(st, b, from, next)
			})
			return
		case *ssa.MakeMap:
			r := v.c.Fresh("new_map", v.c.Ref)
			v.newRef(st, r)
			f.regs[x] = r
		case *ssa.Lookup:
			f.regs[x] = v.lookup(st, x)
		case *ssa.Call:
			v.call(st, x, &x.Call, func(st *St, y Value) {
				set(st, x, y)
				v.instrs(st, b, from, next)
			})
			return
		case *ssa.Go:
			v.goStmt(st, x, func(st *St) { v.instrs(st, b, from, next) })
			return
		case *ssa.MakeChan:
			v.chanOp(st, "make", []Value{v.term(st, x.Size)}, nil, []types.Type{x.Type()}, func(st *St, rs []Value) {
				set(st, x, rs[0])
				v.instrs(st, b, from, next)
			})
			return
		case *ssa.Send:
			v.chanOp(st, "send", []Value{v.term(st, x.Chan), v.val(st, x.X)}, []types.Type{x.Chan.Type(), x.X.Type()}, nil, func(st *St, _ []Value) {
				v.instrs(st, b, from, next)
			})
			return
		case *ssa.Select:
			v.selectStmt(st, x, func(st *St, y Value) {
				set(st, x, y)
				v.instrs(st, b, from, next)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call, instr: x}
			d.args = v.callArgs(st, &x.Call)
			if !x.Call.IsInvoke() {
				d.fn = v.val(st, x.Call.Value)
			}
			f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		case *ssa.RunDefers:
			v.runDefers(st, func(st *St) { v.instrs(st, b, from, next) })
			return
		case *ssa.If:
			cnd := v.term(st, x.Cond)
			v.branch(st, cnd, b)
			return
		case *ssa.Jump:
			v.block(st, b.Succs[0], b)
			return
		case *ssa.Return:
			var rs []Value
			for _, r := range x.Results {
				rs = append(rs, v.val(st, r))
			}
			v.ret(st, rs)
			return
		case *ssa.Panic:
			v.doPanic(st, v.term(st, x.X))
			return
		default:
			v.unsupported(st, fmt.Sprintf("instruction %s (%T)", in, in))
			return
		}
	}
}

func (v *Verifier) ret(st *St, rs []Value) {
	f := st.top()
	for _, id := range f.loops {
		if id != 0 {
			v.unfreeze(st, id)
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	f.k(st, rs)
}

func (v *Verifier) branch(st *St, cnd *Term, b *ssa.BasicBlock) {
	if v.tooMany(st) {
		return
	}
	if cnd.isTrue() {
		v.block(st, b.Succs[0], b)
		return
	}
	if cnd.isFalse() {
		v.block(st, b.Succs[1], b)
		return
	}
	nc := v.c.Not(cnd)
	if v.entails(st, cnd) {
		v.assumeT(st, cnd)
		v.block(st, b.Succs[0], b)
		return
	}
	if v.entails(st, nc) {
		v.assumeT(st, nc)
		v.block(st, b.Succs[1], b)
		return
	}
	v.paths++
	s2 := st.clone()
	here := v.cur
	v.assumeT(st, cnd)
	st.trace = append(st.trace, here+" then")
	v.block(st, b.Succs[0], b)
	v.assumeT(s2, nc)
	s2.trace = append(s2.trace, here+" else")
	v.block(s2, b.Succs[1], b)
}

func (v *Verifier) check(st *St, g *Term, name, detail string) {
	if !v.prove(st, g, name, v.cur+": "+detail) {
		return
	}
}

func (v *Verifier) newRef(st *St, r *Term) {
	c := v.c
	v.assumeT(st, c.Not(c.Eq(r, c.Nil())))
	var ds []*Term
	for _, o := range c.refs {
		if o != r && !strings.HasPrefix(o.Op, "new_") {
			ds = append(ds, c.Not(c.Eq(o, r)))
		}
	}
	// all allocations are numbered, so distinct ones differ
	c.Fun("born", c.Int, []*Sort{c.Ref})
	ds = append(ds, c.Eq(c.App("born", c.Int, r), c.I(int64(len(c.refs)))))
	if len(ds) > 0 {
		v.assumeT(st, c.And(ds...))
	}
}

func (v *Verifier) havoc(st *St, gt types.Type, name string) *Term {
	t := v.c.Fresh(name, v.goSort(gt))
	v.assumeType(st, t, gt)
	return t
}

func (v *Verifier) alloc(st *St, f *Frame, x *ssa.Alloc) {
	gt := x.Type().Underlying().(*types.Pointer).Elem()
	if strings.HasPrefix(x.Comment, "defer$") {
		f.regs[x] = &Addr{kind: 'X'}
		return
	}
	f.names = append(f.names, namedCell{x.Comment, x})
	if !x.Heap {
		f.locals[x] = v.zero(gt)
		f.regs[x] = &Addr{kind: 'L', alloc: x, et: gt}
		return
	}
	r := v.c.Fresh("new_"+x.Comment, v.c.Ref)
	v.newRef(st, r)
	f.regs[x] = r
	v.initRef(st, r, gt, v.zero(gt))
}

// initRef creates the chunks of a freshly allocated object holding value val.
func (v *Verifier) initRef(st *St, r *Term, gt types.Type, val *Term) {
	if s := v.asStruct(gt); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			fv := v.c.Sel(val.Sort.Ctor[0], i, val)
			if v.embeddedField(gt, i) {
				v.initRef(st, v.fieldRef(r, gt, i), ft, fv)
				continue
			}
			v.add(st, &Chunk{Kind: 'F', Key: fieldKey(gt, i), Ref: r, Val: fv, GT: ft})
		}
		return
	}
	if a := asArray(gt); a != nil {
		v.add(st, &Chunk{Kind: 'A', Key: v.arrKey(a.Elem()), Ref: r, Val: val, GT: a.Elem()})
		return
	}
	v.add(st, &Chunk{Kind: 'C', Key: cellKey(gt), Ref: r, Val: val, GT: gt})
}

func (v *Verifier) storable(st *St, x ssa.Value) Value { return v.val(st, x) }

func (v *Verifier) permFail(st *St, what string) func(*St, string) {
	return func(st *St, why string) {
		v.fail(st, "permission", v.cur+": "+what+": "+why, "")
	}
}

// load reads a whole value of type gt through address a.
func (v *Verifier) load(st *St, a Value, gt types.Type, k func(*St, Value)) {
	c := v.c
	switch x := a.(type) {
	case *Addr:
		switch x.kind {
		case 'X':
			k(st, c.Nil())
			return
		case 'G':
			v.assumeType(st, x.idx, gt)
			k(st, x.idx)
			return
		case 'L':
			t := st.top().locals[x.alloc]
			k(st, v.pathGet(st, t, x.path))
			return
		case 'F', 'E':
			v.locate(st, x.l, 0, func(st *St, h *Chunk, val *Term) {
				if x.kind == 'E' {
					val = c.Select(val, x.idx)
				}
				val = v.pathGet(st, val, x.path)
				v.assumeType(st, val, gt)
				k(st, val)
			}, v.permFail(st, "read"))
			return
		}
	case *Term:
		v.check(st, c.Not(c.Eq(x, c.Nil())), "nil-dereference", "read through nil pointer")
		v.loadRef(st, x, gt, k)
		return
	}
	panic(unsup(fmt.Sprintf("load from %T", a)))
}

func (v *Verifier) loadRef(st *St, r *Term, gt types.Type, k func(*St, Value)) {
	if s := v.asStruct(gt); s != nil {
		var fs []*Term
		var step func(st *St, i int)
		step = func(st *St, i int) {
			if i == s.NumFields() {
				k(st, v.c.Con(v.goSort(gt).Ctor[0].Name, fs...))
				return
			}
			ft := s.Field(i).Type()
			cont := func(st *St, y Value) {
				fs = append(fs[:i:i], y.(*Term))
				step(st, i+1)
			}
			if v.embeddedField(gt, i) {
				v.loadRef(st, v.fieldRef(r, gt, i), ft, cont)
				return
			}
			v.locate(st, loc{'F', fieldKey(gt, i), r, ft, gt}, 0, func(st *St, h *Chunk, val *Term) {
				v.assumeType(st, val, ft)
				cont(st, val)
			}, v.permFail(st, "read"))
		}
		step(st, 0)
		return
	}
	l := loc{'C', cellKey(gt), r, gt, nil}
	if a := asArray(gt); a != nil {
		l = loc{'A', v.arrKey(a.Elem()), r, a.Elem(), nil}
	}
	v.locate(st, l, 0, func(st *St, h *Chunk, val *Term) {
		v.assumeType(st, val, gt)
		k(st, val)
	}, v.permFail(st, "read"))
}

func (v *Verifier) store(st *St, a Value, gt types.Type, y Value, k func(*St)) {
	c := v.c
	if x, ok := a.(*Addr); ok && x.kind == 'X' {
		k(st)
		return
	}
	if _, ok := y.(*Addr); ok {
		if x, ok := a.(*Addr); ok && x.kind == 'L' && len(x.path) == 0 {
			panic(unsup("address stored in a variable"))
		}
		panic(unsup("address stored in memory"))
	}
	t, ok := y.(*Term)
	if !ok {
		panic(unsup("store of a tuple"))
	}
	switch x := a.(type) {
	case *Addr:
		switch x.kind {
		case 'L':
			f := st.top()
			f.locals[x.alloc] = v.pathSet(f.locals[x.alloc], x.path, t)
			k(st)
			return
		case 'F', 'E':
			v.locate(st, x.l, 0, func(st *St, h *Chunk, val *Term) {
				if h == nil || !v.canTake(h, cmode{}) {
					v.fail(st, "permission", fmt.Sprintf("%s: write to %s, which is read-only here", v.cur, x.l.key), "")
					return
				}
				n := *h
				if x.kind == 'E' {
					el := v.pathSet(c.Select(val, x.idx), x.path, t)
					n.Val = c.Store(val, x.idx, el)
				} else {
					n.Val = v.pathSet(val, x.path, t)
				}
				st.replace(h, &n)
				k(st)
			}, v.permFail(st, "write"))
			return
		}
	case *Term:
		v.check(st, c.Not(c.Eq(x, c.Nil())), "nil-dereference", "write through nil pointer")
		v.storeRef(st, x, gt, t, k)
		return
	}
	panic(unsup(fmt.Sprintf("store to %T", a)))
}

func (v *Verifier) storeRef(st *St, r *Term, gt types.Type, t *Term, k func(*St)) {
	wr := func(st *St, l loc, t *Term, k func(*St)) {
		v.locate(st, l, 0, func(st *St, h *Chunk, val *Term) {
			if h == nil || !v.canTake(h, cmode{}) {
				v.fail(st, "permission", fmt.Sprintf("%s: write to %s, which is read-only here", v.cur, l.key), "")
				return
			}
			n := *h
			n.Val = t
			st.replace(h, &n)
			k(st)
		}, v.permFail(st, "write"))
	}
	if s := v.asStruct(gt); s != nil {
		var step func(st *St, i int)
		step = func(st *St, i int) {
			if i == s.NumFields() {
				k(st)
				return
			}
			ft := s.Field(i).Type()
			fv := v.c.Sel(t.Sort.Ctor[0], i, t)
			if v.embeddedField(gt, i) {
				v.storeRef(st, v.fieldRef(r, gt, i), ft, fv, func(st *St) { step(st, i+1) })
				return
			}
			wr(st, loc{'F', fieldKey(gt, i), r, ft, gt}, fv, func(st *St) { step(st, i+1) })
		}
		step(st, 0)
		return
	}
	if a := asArray(gt); a != nil {
		wr(st, loc{'A', v.arrKey(a.Elem()), r, a.Elem(), nil}, t, k)
		return
	}
	wr(st, loc{'C', cellKey(gt), r, gt, nil}, t, k)
}

func (v *Verifier) pathGet(st *St, t *Term, path []pathElem) *Term {
	for _, p := range path {
		if p.idx != nil {
			t = v.c.Select(t, p.idx)
		} else if t.Sort.Kind == KData {
			t = v.c.Sel(t.Sort.Ctor[0], p.field, t)
		} else if s, ok := p.T.Underlying().(*types.Struct); ok {
			t = v.opaqueField(t, p.T, s, p.field)
		} else {
			panic(unsup("field of opaque value"))
		}
	}
	return t
}

// opaqueField is the field of a value of a struct type from outside the repository.
func (v *Verifier) opaqueField(t *Term, T types.Type, s *types.Struct, i int) *Term {
	n := "ofld_" + strings.NewReplacer("/", ".", "*", "p").Replace(T.String()) + "_" + s.Field(i).Name()
	so := v.goSort(s.Field(i).Type())
	v.c.Fun(n, so, []*Sort{t.Sort})
	return v.c.App(n, so, t)
}

func (v *Verifier) pathSet(t *Term, path []pathElem, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	if p.idx != nil {
		return v.c.Store(t, p.idx, v.pathSet(v.c.Select(t, p.idx), path[1:], x))
	}
	ct := t.Sort.Ctor[0]
	var as []*Term
	for i := range ct.Fields {
		f := v.c.Sel(ct, i, t)
		if i == p.field {
			f = v.pathSet(f, path[1:], x)
		}
		as = append(as, f)
	}
	return v.c.Con(ct.Name, as...)
}

func (v *Verifier) fieldAddr(st *St, a Value, pt types.Type, i int) Value {
	T := pt.Underlying().(*types.Pointer).Elem()
	s := T.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	switch x := a.(type) {
	case *Addr:
		n := *x
		n.path = append(append([]pathElem(nil), x.path...), pathElem{field: i, T: T})
		n.et = ft
		return &n
	case *Term:
		v.check(st, v.c.Not(v.c.Eq(x, v.c.Nil())), "nil-dereference", "field "+s.Field(i).Name()+" of nil pointer")
		if v.asStruct(T) == nil {
			return &Addr{kind: 'G', idx: v.foreignField(x, T, i), et: ft}
		}
		if v.embeddedField(T, i) {
			return v.fieldRef(x, T, i)
		}
		return &Addr{kind: 'F', l: loc{'F', fieldKey(T, i), x, ft, T}, et: ft}
	}
	panic(unsup("field address"))
}

func (v *Verifier) indexAddr(st *St, x *ssa.IndexAddr) Value {
	c := v.c
	a := v.val(st, x.X)
	ix := v.term(st, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		t := a.(*Term)
		v.check(st, c.And(c.Le(c.I(0), ix), c.Lt(ix, c.SliceF(2, t))), "index-in-range", "slice index")
		return &Addr{kind: 'E', l: loc{'A', v.arrKey(u.Elem()), c.SliceF(0, t), u.Elem(), nil}, idx: c.Add(c.SliceF(1, t), ix), et: u.Elem()}
	case *types.Pointer:
		ar := asArray(u.Elem())
		v.check(st, c.And(c.Le(c.I(0), ix), c.Lt(ix, c.I(ar.Len()))), "index-in-range", "array index")
		switch y := a.(type) {
		case *Addr:
			n := *y
			n.path = append(append([]pathElem(nil), y.path...), pathElem{idx: ix, T: u.Elem()})
			n.et = ar.Elem()
			return &n
		case *Term:
			return &Addr{kind: 'E', l: loc{'A', v.arrKey(ar.Elem()), y, ar.Elem(), nil}, idx: ix, et: ar.Elem()}
		}
	}
	panic(unsup("index address"))
}

func (v *Verifier) loadGlobal(st *St, g *ssa.Global) Value {
	gt := g.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := gt.Underlying().(*types.Map); ok {
		return v.c.Const("globval_"+mangle(shortPkg(g.Pkg.Pkg)+"."+g.Name()), v.c.Ref)
	}
	t := v.havoc(st, gt, "global_"+g.Name())
	switch gt.Underlying().(type) {
	case *types.Pointer:
		v.assumeT(st, v.c.Not(v.c.Eq(t, v.c.Nil())))
		v.assume["package variable "+shortPkg(g.Pkg.Pkg)+"."+g.Name()+" is initialised (non-nil)"] = true
	}
	return t
}

// lookup on a map. Only package-level maps filled by the initialiser with
// constant keys are understood.
func (v *Verifier) lookup(st *St, x *ssa.Lookup) Value {
	if s, ok := x.X.Type().Underlying().(*types.Basic); ok && s.Info()&types.IsString != 0 {
		t, ix := v.term(st, x.X), v.term(st, x.Index)
		v.check(st, v.c.And(v.c.Le(v.c.I(0), ix), v.c.Lt(ix, v.c.Len(t))), "index-in-range", "string index")
		y := v.c.Idx(t, ix)
		v.assumeType(st, y, x.Type())
		return y
	}
	u, ok := x.X.(*ssa.UnOp)
	k, ok2 := x.Index.(*ssa.Const)
	if ok && ok2 && !x.CommaOk {
		if g, ok := u.X.(*ssa.Global); ok {
			if fn := v.initMapEntry(g, k); fn != nil {
				v.assume["package map "+shortPkg(g.Pkg.Pkg)+"."+g.Name()+" is not changed after initialisation"] = true
				return v.fnConst(fn)
			}
		}
	}
	panic(unsup("map lookup"))
}

func (v *Verifier) initMapEntry(g *ssa.Global, k *ssa.Const) *ssa.Function {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MapUpdate); ok {
				if kk, ok := m.Key.(*ssa.Const); ok && kk.Value != nil && constant.Compare(kk.Value, token.EQL, k.Value) {
					y := m.Value
					for {
						if ct, ok := y.(*ssa.ChangeType); ok {
							y = ct.X
							continue
						}
						break
					}
					if f, ok := y.(*ssa.Function); ok {
						return f
					}
				}
			}
		}
	}
	return nil
}

func (v *Verifier) unop(st *St, x *ssa.UnOp) Value {
	c := v.c
	t := v.term(st, x.X)
	switch x.Op {
	case token.NOT:
		return c.Not(t)
	case token.SUB:
		if t.Sort != c.Int {
			return v.havoc(st, x.Type(), "fneg")
		}
		return v.wrap(st, c.Neg(t), x.Type())
	case token.XOR:
		return v.wrap(st, c.Sub(c.I(-1), t), x.Type())
	}
	panic(unsup("unary " + x.Op.String()))
}

// wrap reduces a mathematical integer to Go type gt.
func (v *Verifier) wrap(st *St, t *Term, gt types.Type) *Term {
	lo, hi, ok := intBounds(gt)
	if !ok {
		return t
	}
	if n, ok := new(big.Int).SetString(t.Op, 10); ok && len(t.Args) == 0 {
		m := new(big.Int).Sub(n, lo)
		w := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		m.Mod(m, w)
		m.Add(m, lo)
		return v.c.BigI(m.String())
	}
	if v.entails(st, v.inRange(t, gt)) {
		return t
	}
	c := v.c
	w := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if lo.Sign() == 0 {
		return c.mk("mod", c.Int, t, c.BigI(w.String()))
	}
	nlo := new(big.Int).Neg(lo)
	return c.mk("-", c.Int, c.mk("mod", c.Int, c.mk("+", c.Int, t, c.BigI(nlo.String())), c.BigI(w.String())), c.BigI(nlo.String()))
}

func (v *Verifier) pow2(n *Term) *Term {
	c := v.c
	if k, ok := n.isInt(); ok && k >= 0 && k < 63 {
		return c.I(1 << uint(k))
	}
	if f := v.sp.Funs["pow2"]; f != nil {
		return v.callFun(&Node{}, f, []TV{{T: n}}).T
	}
	panic(unsup("pow2"))
}

func (v *Verifier) binop(st *St, op token.Token, a, b *Term, at, rt, bt types.Type) Value {
	c := v.c
	isInt := a.Sort == c.Int
	switch op {
	case token.EQL:
		return c.Eq(a, b)
	case token.NEQ:
		return c.Not(c.Eq(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt {
			return c.Cmp(op.String(), a, b)
		}
		if a.Sort == c.Str {
			f := v.sp.Funs["strlt"]
			if f == nil {
				panic(specErr{"no specification of the order of strings (strlt)"})
			}
			lt := func(x, y *Term) *Term { return v.callFun(nil, f, []TV{{T: x}, {T: y}}).T }
			switch op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return c.Not(lt(b, a))
			default:
				return c.Not(lt(a, b))
			}
		}
		// floating point: an uninterpreted comparison
		f := "fcmp" + map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[op]
		c.Fun(f, c.Bool, []*Sort{a.Sort, a.Sort})
		v.assume["floating-point comparisons are treated as arbitrary booleans"] = true
		return c.App(f, c.Bool, a, b)
	}
	if !isInt {
		if a.Sort == c.Str && op == token.ADD {
			return c.mk("app_"+c.Str.Name, c.Str, a, b)
		}
		if a.Sort == c.Bool {
			switch op {
			case token.AND:
				return c.And(a, b)
			case token.OR:
				return c.Or(a, b)
			}
		}
		return v.havoc(st, rt, "float")
	}
	switch op {
	case token.ADD:
		return v.wrap(st, c.Add(a, b), rt)
	case token.SUB:
		return v.wrap(st, c.Sub(a, b), rt)
	case token.MUL:
		return v.wrap(st, c.Mul(a, b), rt)
	case token.QUO, token.REM:
		v.check(st, c.Not(c.Eq(b, c.I(0))), "division-by-zero", "divisor may be zero")
		o := "div"
		if op == token.REM {
			o = "mod"
		}
		if v.entails(st, c.Lt(c.I(0), b)) {
			if v.entails(st, c.Le(c.I(0), a)) {
				return v.divmod(st, o, a, b)
			}
			return c.Ite(c.Le(c.I(0), a), v.divmod(st, o, a, b), c.Neg(v.divmod(st, o, c.Neg(a), b)))
		}
		absb := c.Ite(c.Le(c.I(0), b), b, c.Neg(b))
		absa := c.Ite(c.Le(c.I(0), a), a, c.Neg(a))
		m := v.divmod(st, o, absa, absb)
		if op == token.REM {
			return c.Ite(c.Le(c.I(0), a), m, c.Neg(m))
		}
		return v.wrap(st, c.Ite(c.Eq(c.Le(c.I(0), a), c.Le(c.I(0), b)), m, c.Neg(m)), rt)
	case token.SHL:
		v.check(st, c.Le(c.I(0), b), "shift-count", "negative shift count")
		return v.wrap(st, c.Mul(a, v.pow2(b)), rt)
	case token.SHR:
		v.check(st, c.Le(c.I(0), b), "shift-count", "negative shift count")
		return v.divmod(st, "div", a, v.pow2(b))
	case token.AND:
		if n, ok := b.isInt(); ok && n >= 0 && n&(n+1) == 0 && n < 1<<60 {
			return v.divmod(st, "mod", a, c.I(n+1))
		}
		if n, ok := a.isInt(); ok && n >= 0 && n&(n+1) == 0 && n < 1<<60 {
			return v.divmod(st, "mod", b, c.I(n+1))
		}
		if isMask(b) {
			return v.divmod(st, "mod", a, c.Add(b, c.I(1)))
		}
		if isMask(a) {
			return v.divmod(st, "mod", b, c.Add(a, c.I(1)))
		}
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			switch op {
			case token.AND:
				return c.I(x & y)
			case token.OR:
				return c.I(x | y)
			case token.XOR:
				return c.I(x ^ y)
			}
		}
	}
	f := map[token.Token]string{token.AND: "bit_and", token.OR: "bit_or", token.XOR: "bit_xor", token.AND_NOT: "bit_andnot"}[op]
	if f == "" {
		panic(unsup("operator " + op.String()))
	}
	if d := v.sp.Funs[f]; d != nil {
		t := v.callFun(&Node{}, d, []TV{{T: a}, {T: b}}).T
		v.assumeType(st, t, rt)
		return t
	}
	c.Fun(f, c.Int, []*Sort{c.Int, c.Int})
	t := c.App(f, c.Int, a, b)
	v.assumeType(st, t, rt)
	if op == token.XOR && b.Op == "pow2" {
		// flipping the highest bit of a number below 2*b
		v.assumeT(st, c.Imp(c.And(c.Le(b, a), c.Lt(a, c.Mul(c.I(2), b))), c.Eq(t, c.Sub(a, b))))
		v.assumeT(st, c.Imp(c.And(c.Le(c.I(0), a), c.Lt(a, b)), c.Eq(t, c.Add(a, b))))
	}
	return t
}

// divmod: division by a constant is left to the solver's arithmetic; any other
// division is an application of imod/idiv (00_base.spec), of which only the
// range is known unless a contract opens them.
func (v *Verifier) divmod(st *St, op string, a, b *Term) *Term {
	c := v.c
	if n, ok := new(big.Int).SetString(b.Op, 10); ok && len(b.Args) == 0 && n.Sign() > 0 {
		return c.mk(op, c.Int, a, b)
	}
	t := v.callFun(&Node{}, v.sp.Funs["i"+op], []TV{{T: a}, {T: b}}).T
	if st != nil && op == "mod" {
		v.assumeT(st, c.Imp(c.Lt(c.I(0), b), c.And(c.Le(c.I(0), t), c.Lt(t, b))))
	}
	return t
}

// isMask: a term of the form pow2(n) - 1
func isMask(t *Term) bool {
	if t.Op == "+" && len(t.Args) == 2 {
		if n, ok := t.Args[1].isInt(); ok && n == -1 {
			return t.Args[0].Op == "pow2"
		}
	}
	return false
}

func (v *Verifier) convert(st *St, x *ssa.Convert, k func(*St, Value)) {
	c := v.c
	t := v.term(st, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	isStr := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if _, _, ok := intBounds(to); ok {
		if _, _, ok := intBounds(from); ok {
			k(st, v.wrap(st, t, x.Type()))
			return
		}
	}
	if s, ok := to.(*types.Slice); ok && isStr(from) {
		r := c.Fresh("new_bytes", c.Ref)
		v.newRef(st, r)
		A := c.Fresh("bytes", c.Array(c.Int, c.Int))
		n := c.Len(t)
		v.assumeType(st, t, x.X.Type())
		v.assumeT(st, c.Eq(c.mk("arrseq_"+c.Str.Name, c.Str, A, c.I(0), n), t))
		v.add(st, &Chunk{Kind: 'A', Key: v.arrKey(s.Elem()), Ref: r, Val: A, GT: s.Elem()})
		k(st, c.MkSlice(r, c.I(0), n, n))
		return
	}
	if s, ok := from.(*types.Slice); ok && isStr(to) {
		l := loc{'A', v.arrKey(s.Elem()), c.SliceF(0, t), s.Elem(), nil}
		v.locate(st, l, 0, func(st *St, h *Chunk, A *Term) {
			k(st, c.mk("arrseq_"+c.Str.Name, c.Str, A, c.SliceF(1, t), c.SliceF(2, t)))
		}, v.permFail(st, "read"))
		return
	}
	if isStr(from) && isStr(to) {
		k(st, t)
		return
	}
	k(st, v.havoc(st, x.Type(), "conv"))
}

func (v *Verifier) typeAssert(st *St, x *ssa.TypeAssert, k func(*St)) {
	c := v.c
	f := st.top()
	t := v.term(st, x.X)
	var ok *Term
	var val *Term
	if types.IsInterface(x.AssertedType) {
		if types.AssignableTo(x.X.Type(), x.AssertedType) {
			ok = c.Not(c.Eq(t, c.VNil()))
		} else {
			ok = v.implementsT(t, x.AssertedType)
		}
		val = t
	} else {
		ok = c.Eq(v.typeof(t), v.typeTag(x.AssertedType))
		val = v.unbox(t, x.AssertedType)
		v.assumeType(st, val, x.AssertedType)
	}
	if x.CommaOk {
		v.fork(st, NewEnv(nil), ok, func(st *St, _ *Env) {
			st.top().regs[x] = Tuple{val, c.True()}
			k(st)
		}, func(st *St, _ *Env) {
			st.top().regs[x] = Tuple{v.zero(x.AssertedType), c.False()}
			k(st)
		})
		return
	}
	v.check(st, ok, "type-assertion", "value may not have type "+x.AssertedType.String())
	f.regs[x] = val
}

func (v *Verifier) makeClosure(st *St, x *ssa.MakeClosure) Value {
	c := v.c
	fn := x.Fn.(*ssa.Function)
	t := c.Fresh("clo_"+fn.Name(), c.Fn)
	cl := &Closure{fn: fn}
	for _, b := range x.Bindings {
		cl.bind = append(cl.bind, v.val(st, b))
	}
	v.closures[t] = cl
	v.assumeT(st, c.Not(c.Eq(t, c.FNil())))
	v.assumeT(st, c.Eq(c.App("fnid", c.Int, t), v.fnID(v.P.fname(fn))))
	for i, fv := range fn.FreeVars {
		if bt, ok := cl.bind[i].(*Term); ok {
			cf := "cap_" + mangle(v.P.fname(fn)) + "_" + fv.Name()
			c.Fun(cf, bt.Sort, []*Sort{c.Fn})
			v.assumeT(st, c.Eq(c.App(cf, bt.Sort, t), bt))
		}
	}
	return t
}

func (v *Verifier) makeSlice(st *St, x *ssa.MakeSlice) {
	c := v.c
	ln, cp := v.term(st, x.Len), v.term(st, x.Cap)
	v.check(st, c.And(c.Le(c.I(0), ln), c.Le(ln, cp)), "make-size", "make with negative length or length > capacity")
	v.assumeT(st, c.Le(cp, c.BigI(maxLen)))
	v.assume["no allocation exceeds 2^48 elements"] = true
	et := x.Type().Underlying().(*types.Slice).Elem()
	r := c.Fresh("new_slice", c.Ref)
	v.newRef(st, r)
	s := c.Array(c.Int, v.goSort(et))
	v.add(st, &Chunk{Kind: 'A', Key: v.arrKey(et), Ref: r, Val: c.ConstArr(s, v.zero(et)), GT: et})
	st.top().regs[x] = c.MkSlice(r, c.I(0), ln, cp)
}

func (v *Verifier) sliceOp(st *St, x *ssa.Slice, k func(*St, Value)) {
	c := v.c
	opt := func(y ssa.Value, d *Term) *Term {
		if y == nil {
			return d
		}
		return v.term(st, y)
	}
	a := v.val(st, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		t := a.(*Term)
		b, o, l, cp := c.SliceF(0, t), c.SliceF(1, t), c.SliceF(2, t), c.SliceF(3, t)
		lo, hi := opt(x.Low, c.I(0)), opt(x.High, l)
		mx := opt(x.Max, cp)
		v.check(st, c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)), "slice-bounds", "slice bounds out of range")
		k(st, c.MkSlice(b, c.Add(o, lo), c.Sub(hi, lo), c.Sub(mx, lo)))
		return
	case *types.Pointer:
		ar := asArray(u.Elem())
		t, ok := a.(*Term)
		if !ok {
			panic(unsup("slice of local array"))
		}
		n := c.I(ar.Len())
		lo, hi := opt(x.Low, c.I(0)), opt(x.High, n)
		mx := opt(x.Max, n)
		v.check(st, c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "slice-bounds", "slice bounds out of range")
		k(st, c.MkSlice(t, lo, c.Sub(hi, lo), c.Sub(mx, lo)))
		return
	case *types.Basic:
		t := a.(*Term)
		lo, hi := opt(x.Low, c.I(0)), opt(x.High, c.Len(t))
		v.check(st, c.And(c.Le(c.I(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(t))), "slice-bounds", "slice bounds out of range")
		k(st, c.mk("drop_"+c.Str.Name, c.Str, c.mk("take_"+c.Str.Name, c.Str, t, hi), lo))
		return
	}
	panic(unsup("slice expression"))
}

// arrCopy is A with A[dst+i] = B[src+i] for 0 <= i < n.
func (v *Verifier) arrCopy(st *St, A, dst, B, src, n *Term) *Term {
	c := v.c
	if k, ok := n.isInt(); ok && k <= 8 {
		r := A
		for i := int64(0); i < k; i++ {
			r = c.Store(r, c.Add(dst, c.I(i)), c.Select(B, c.Add(src, c.I(i))))
		}
		return r
	}
	R := c.Fresh("copied", A.Sort)
	i := c.BVar("i", c.Int)
	body := c.Eq(c.mk("select", A.Sort.Elem, R, i), c.Ite(c.And(c.Le(dst, i), c.Lt(i, c.Add(dst, n))), c.Select(B, c.Add(src, c.Sub(i, dst))), c.Select(A, i)))
	pats := [][]*Term{{c.mk("select", A.Sort.Elem, R, i)}}
	v.assumeT(st, c.Forall([]*Term{i}, pats, body))
	j := c.BVar("j", c.Int)
	v.assumeT(st, c.Forall([]*Term{j}, [][]*Term{{c.mk("select", A.Sort.Elem, B, j)}}, c.Imp(c.And(c.Le(src, j), c.Lt(j, c.Add(src, n))), c.Eq(c.mk("select", A.Sort.Elem, R, c.Add(dst, c.Sub(j, src))), c.mk("select", A.Sort.Elem, B, j)))))
	if A.Sort.Kind == KArray && A.Sort.Key == c.Int {
		// a consequence of the above by extensionality
		sq := c.Seq(A.Sort.Elem)
		v.assumeT(st, c.Imp(c.Le(c.I(0), n), c.Eq(c.mk("arrseq_"+sq.Name, sq, R, dst, n), c.mk("arrseq_"+sq.Name, sq, B, src, n))))
	}
	return R
}

func (v *Verifier) builtin(st *St, name string, cc *ssa.CallCommon, k func(*St, Value)) {
	c := v.c
	switch name {
	case "len":
		switch x := v.val(st, cc.Args[0]).(type) {
		case *Term:
			if x.Sort == c.Slice {
				k(st, c.SliceF(2, x))
				return
			}
			if x.Sort.Kind == KSeq {
				v.assumeType(st, x, cc.Args[0].Type())
				k(st, c.Len(x))
				return
			}
		}
	case "cap":
		if x, ok := v.val(st, cc.Args[0]).(*Term); ok && x.Sort == c.Slice {
			k(st, c.SliceF(3, x))
			return
		}
	case "close":
		v.chanOp(st, "close", []Value{v.term(st, cc.Args[0])}, []types.Type{cc.Args[0].Type()}, nil, func(st *St, _ []Value) { k(st, nil) })
		return
	case "ssa:wrapnilchk":
		x := v.term(st, cc.Args[0])
		v.check(st, c.Not(c.Eq(x, c.Nil())), "nil-dereference", "method call on nil pointer")
		k(st, x)
		return
	case "ssa:deferstack":
		k(st, c.Nil())
		return
	case "append":
		v.appendOp(st, cc, k)
		return
	case "copy":
		d, s := v.term(st, cc.Args[0]), v.term(st, cc.Args[1])
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		dl := loc{'A', v.arrKey(et), c.SliceF(0, d), et, nil}
		fin := func(st *St, B, soff, slen *Term) {
			n := c.Ite(c.Le(c.SliceF(2, d), slen), c.SliceF(2, d), slen)
			if v.entails(st, c.Le(c.SliceF(2, d), slen)) {
				n = c.SliceF(2, d)
			} else if v.entails(st, c.Le(slen, c.SliceF(2, d))) {
				n = slen
			}
			v.locate(st, dl, 0, func(st *St, h *Chunk, A *Term) {
				if h == nil || !v.canTake(h, cmode{}) {
					if v.entails(st, c.Le(n, c.I(0))) {
						k(st, n)
						return
					}
					v.fail(st, "permission", v.cur+": copy into read-only memory", "")
					return
				}
				m := *h
				m.Val = v.arrCopy(st, A, c.SliceF(1, d), B, soff, n)
				st.replace(h, &m)
				k(st, n)
			}, v.permFail(st, "copy"))
		}
		if s.Sort.Kind == KSeq {
			B := c.Fresh("strbytes", c.Array(c.Int, c.Int))
			v.assumeT(st, c.Eq(c.mk("arrseq_"+c.Str.Name, c.Str, B, c.I(0), c.Len(s)), s))
			fin(st, B, c.I(0), c.Len(s))
			return
		}
		v.locate(st, loc{'A', v.arrKey(et), c.SliceF(0, s), et, nil}, 0, func(st *St, h *Chunk, B *Term) {
			fin(st, B, c.SliceF(1, s), c.SliceF(2, s))
		}, v.permFail(st, "copy"))
		return
	case "print", "println":
		k(st, nil)
		return
	case "recover":
		if len(st.frames) < 2 {
			panic(unsup("recover at the top of a unit"))
		}
		g := st.frames[len(st.frames)-2]
		if g.panicVal == nil {
			k(st, c.VNil())
			return
		}
		x := g.panicVal
		g.panicVal = nil
		k(st, x)
		return
	}
	panic(unsup("builtin " + name))
}

func (v *Verifier) appendOp(st *St, cc *ssa.CallCommon, k func(*St, Value)) {
	c := v.c
	s := v.term(st, cc.Args[0])
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	y := v.term(st, cc.Args[1])
	body := func(st *St, B, soff, n *Term) {
		b, o, l, cp := c.SliceF(0, s), c.SliceF(1, s), c.SliceF(2, s), c.SliceF(3, s)
		nl := c.Add(l, n)
		if n0, ok := n.isInt(); ok && n0 == 0 {
			k(st, s)
			return
		}
		split := func(st *St) {
			v.fork(st, NewEnv(nil), c.Le(nl, cp), func(st *St, _ *Env) {
				v.locate(st, loc{'A', v.arrKey(et), b, et, nil}, 0, func(st *St, h *Chunk, A *Term) {
					if h == nil || !v.canTake(h, cmode{}) {
						v.fork(st, NewEnv(nil), c.Eq(n, c.I(0)), func(st *St, _ *Env) { k(st, s) }, func(st *St, _ *Env) {
							v.fail(st, "permission", v.cur+": append writes into read-only memory", "")
						})
						return
					}
					m := *h
					m.Val = v.arrCopy(st, A, c.Add(o, l), B, soff, n)
					st.replace(h, &m)
					k(st, c.MkSlice(b, o, nl, cp))
				}, v.permFail(st, "append"))
			}, func(st *St, _ *Env) {
				v.locate(st, loc{'A', v.arrKey(et), b, et, nil}, 0, func(st *St, h *Chunk, A *Term) {
					r := c.Fresh("new_append", c.Ref)
					v.newRef(st, r)
					nc := c.Fresh("newcap", c.Int)
					v.assumeT(st, c.And(c.Le(nl, nc), c.Le(nc, c.BigI(maxLen))))
					v.assume["no allocation exceeds 2^48 elements"] = true
					var R *Term
					if o.Op == "0" {
						R = A
					} else {
						R = v.arrCopy(st, c.Fresh("grown", A.Sort), c.I(0), A, o, l)
					}
					R = v.arrCopy(st, R, l, B, soff, n)
					v.add(st, &Chunk{Kind: 'A', Key: v.arrKey(et), Ref: r, Val: R, GT: et})
					k(st, c.MkSlice(r, c.I(0), nl, nc))
				}, v.permFail(st, "append"))
			})
		}
		if v.cont == nil || !v.cont.JoinAppend || v.entails(st, c.Le(nl, cp)) || v.entails(st, c.Lt(cp, nl)) {
			split(st)
			return
		}
		// both outcomes at once: the result is in the old array or in a new
		// one, and the old array is given up in either case
		v.locate(st, loc{'A', v.arrKey(et), b, et, nil}, 0, func(st *St, h *Chunk, A *Term) {
			if h == nil || !v.canTake(h, cmode{}) || o.Op != "0" && !v.entails(st, c.Eq(o, c.I(0))) {
				split(st)
				return
			}
			fresh := c.Fresh("new_append", c.Ref)
			v.newRef(st, fresh)
			r := c.Fresh("appended", c.Ref)
			nc := c.Fresh("newcap", c.Int)
			fits := c.Le(nl, cp)
			v.assumeT(st, c.Eq(r, c.Ite(fits, b, fresh)))
			v.assumeT(st, c.And(c.Le(nl, nc), c.Le(nc, c.BigI(maxLen)), c.Imp(fits, c.Eq(nc, cp))))
			v.assume["no allocation exceeds 2^48 elements"] = true
			st.remove(h)
			v.add(st, &Chunk{Kind: 'A', Key: v.arrKey(et), Ref: r, Val: v.arrCopy(st, A, l, B, soff, n), GT: et})
			k(st, c.MkSlice(r, c.I(0), nl, nc))
		}, v.permFail(st, "append"))
	}
	if y.Sort.Kind == KSeq {
		B := c.Fresh("strbytes", c.Array(c.Int, c.Int))
		v.assumeT(st, c.Eq(c.mk("arrseq_"+c.Str.Name, c.Str, B, c.I(0), c.Len(y)), y))
		body(st, B, c.I(0), c.Len(y))
		return
	}
	if n, ok := c.SliceF(2, y).isInt(); ok && n == 0 {
		body(st, nil, c.I(0), c.I(0))
		return
	}
	v.locate(st, loc{'A', v.arrKey(et), c.SliceF(0, y), et, nil}, 0, func(st *St, h *Chunk, B *Term) {
		body(st, B, c.SliceF(1, y), c.SliceF(2, y))
	}, v.permFail(st, "append"))
}

// ---------------------------------------------------------------- calls

func (v *Verifier) callArgs(st *St, cc *ssa.CallCommon) []Value {
	var as []Value
	if cc.IsInvoke() {
		as = append(as, v.val(st, cc.Value))
	}
	for _, a := range cc.Args {
		as = append(as, v.val(st, a))
	}
	return as
}

func pack(rs []Value) Value {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return Tuple(rs)
}

func (v *Verifier) call(st *St, in *ssa.Call, cc *ssa.CallCommon, k func(*St, Value)) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v.builtin(st, b.Name(), cc, k)
		return
	}
	args := v.callArgs(st, cc)
	var fv Value
	if !cc.IsInvoke() {
		fv = v.val(st, cc.Value)
	}
	v.dispatch(st, cc, fv, args, func(st *St, rs []Value) { k(st, pack(rs)) })
}

func (v *Verifier) dispatch(st *St, cc *ssa.CallCommon, fv Value, args []Value, k func(*St, []Value)) {
	c := v.c
	if cc.IsInvoke() {
		recv := args[0].(*Term)
		if !strings.HasPrefix(recv.Op, "box_") {
			// the dynamic type may be known from the path
			for q := st.pc; q != nil; q = q.parent {
				if q.t.Op == "=" && (q.t.Args[0].Op == "typeof" && q.t.Args[0].Args[0] == recv || q.t.Args[1].Op == "typeof" && q.t.Args[1].Args[0] == recv) {
					i := 1
					if q.t.Args[1].Op == "typeof" {
						i = 0
					}
					if n, ok := q.t.Args[i].isInt(); ok && n > 0 && int(n) <= len(v.tagTypes) {
						T := v.tagTypes[n-1]
						b := v.box(v.unbox(recv, T), T)
						v.assumeT(st, c.Eq(b, recv))
						recv = b
						break
					}
				}
			}
		}
		if strings.HasPrefix(recv.Op, "box_") {
			T := v.tagTypes[v.tags[recv.Op[4:]]-1]
			if fn := v.P.prog.LookupMethod(T, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				a2 := append([]Value{recv.Args[0]}, args[1:]...)
				v.callFn(st, fn, nil, a2, nil, k)
				return
			}
		}
		name := v.ifaceName(cc.Method)
		if nt, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok && nt.Obj().Pkg() != nil {
			// a contract stated for the static interface type goes first
			if n := shortPkg(nt.Obj().Pkg()) + "." + nt.Obj().Name() + "." + cc.Method.Name(); v.sp.Conts[n] != nil {
				name = n
			}
		}
		ct := v.sp.Conts[name]
		v.check(st, c.Not(c.Eq(recv, c.VNil())), "nil-dereference", "method "+cc.Method.Name()+" of nil interface")
		if ct == nil {
			v.unsupported(st, "no contract for interface method "+name)
			return
		}
		v.dynamic(name)
		v.apply(st, ct, name, nil, args, v.argTypes(cc), cc.Signature(), k)
		return
	}
	t, ok := fv.(*Term)
	if !ok {
		panic(unsup("call of a non-function"))
	}
	if fn := v.fnConsts[t]; fn != nil {
		v.callFn(st, fn, t, args, nil, k)
		return
	}
	if cl := v.closures[t]; cl != nil {
		v.callFn(st, cl.fn, t, args, cl.bind, k)
		return
	}
	for ft, fn := range v.fnConsts {
		if types.Identical(fn.Signature, cc.Signature()) && v.entails(st, c.Eq(t, ft)) {
			v.callFn(st, fn, ft, args, nil, k)
			return
		}
	}
	// the closure may be known from the path
	for q := st.pc; q != nil; q = q.parent {
		if id := fnidFact(q.t, t); id > 0 {
			for name, n := range v.fnIDs {
				if fn := v.P.funcs[name]; n == id && fn != nil {
					var free []Value
					for _, x := range fn.FreeVars {
						free = append(free, v.capture(t, name, x.Name()))
					}
					v.callFn(st, fn, t, args, free, k)
					return
				}
			}
		}
	}
	v.check(st, c.Not(c.Eq(t, c.FNil())), "nil-dereference", "call of nil function")
	tn := ""
	if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
		tn = shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	if ct := v.sp.Conts[tn]; ct != nil && ct.Kind == "functype" {
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		v.dynamic(tn)
		v.apply(st, ct, tn, t, args, ats, cc.Signature(), k)
		return
	}
	// a function parameter with a contract given by name in the enclosing contract
	if v.cont != nil {
		// by the number of arguments, and whether there is a result
		key2 := fmt.Sprintf("%s.call%d", strings.SplitN(v.unit, ".", 2)[0], len(cc.Args))
		if cc.Signature().Results().Len() > 0 {
			key2 += "r"
		}
		for _, key := range []string{v.unit + ".call", key2} {
			if ct := v.sp.Conts[key]; ct != nil {
				var ats []types.Type
				for _, a := range cc.Args {
					ats = append(ats, a.Type())
				}
				v.dynamic(key)
				v.apply(st, ct, key, t, args, ats, cc.Signature(), k)
				return
			}
		}
	}
	v.unsupported(st, fmt.Sprintf("call of unknown function value of type %s", cc.Value.Type()))
}

// dynamic notes that a call relies on a contract which only the implementations
// in the repository are proved to meet.
func (v *Verifier) dynamic(name string) {
	v.assume["callee outside the repository meets the contract of "+name] = true
}

// fnidFact: the fact says that fnid of t is the result, or is something else (0).
func fnidFact(q, t *Term) int {
	switch q.Op {
	case "and":
		for _, a := range q.Args {
			if id := fnidFact(a, t); id > 0 {
				return id
			}
		}
	case "=":
		for i := 0; i < 2; i++ {
			if q.Args[i].Op == "fnid" && q.Args[i].Args[0] == t {
				if n, ok := q.Args[1-i].isInt(); ok {
					return int(n)
				}
			}
		}
	}
	return 0
}

func (v *Verifier) argTypes(cc *ssa.CallCommon) []types.Type {
	ats := []types.Type{cc.Value.Type()}
	for _, a := range cc.Args {
		ats = append(ats, a.Type())
	}
	return ats
}

func (v *Verifier) ifaceName(m *types.Func) string {
	r := m.Type().(*types.Signature).Recv().Type()
	n := "?"
	if nt, ok := types.Unalias(r).(*types.Named); ok {
		n = shortPkg(nt.Obj().Pkg()) + "." + nt.Obj().Name()
	} else if m.Pkg() != nil {
		n = shortPkg(m.Pkg())
	}
	if m.Name() == "Error" && m.Pkg() == nil {
		n = "error"
	}
	return n + "." + m.Name()
}

func (v *Verifier) callFn(st *St, fn *ssa.Function, self *Term, args []Value, free []Value, k func(*St, []Value)) {
	name := v.P.fname(fn)
	if fn.Synthetic != "" && fn.Object() != nil && len(fn.Blocks) > 0 {
		name = "synthetic " + name
	}
	ct := v.sp.Conts[name]
	if ct != nil && !ct.Inline && (v.runCont == nil || v.runCont.Inlines[name] == 0) {
		var ats []types.Type
		sig := fn.Signature
		if r := sig.Recv(); r != nil {
			ats = append(ats, r.Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ats = append(ats, sig.Params().At(i).Type())
		}
		if ct.Impl != "" && len(ct.Req)+len(ct.Ens)+len(ct.Reads) == 0 {
			it := v.sp.Conts[ct.Impl]
			v.used[name] = true
			v.apply(st, it, ct.Impl, self, args, ats, sig, k)
			return
		}
		v.apply(st, ct, name, self, args, ats, sig, k)
		return
	}
	if len(fn.Blocks) == 0 {
		v.unsupported(st, "call of external function without contract: "+name)
		return
	}
	for _, f := range st.frames {
		if f.fn == fn {
			v.unsupported(st, "recursive function without contract: "+name)
			return
		}
	}
	if len(st.frames) > 12 {
		v.unsupported(st, "inlining depth at "+name)
		return
	}
	v.inlined[name] = true
	save := v.cur
	v.run(st, fn, self, args, free, nil, nil, func(st *St, rs []Value) {
		v.cur = save
		k(st, rs)
	})
}

// apply uses a contract at a call site.
func (v *Verifier) apply(st *St, ct *Contract, name string, self *Term, args []Value, ats []types.Type, sig *types.Signature, k func(*St, []Value)) {
	v.used[ct.Name] = true
	here := v.cur
	e := NewEnv(nil)
	params := ct.Params
	if ct.Kind == "functype" || self != nil && len(params) == len(args)+1 {
		if len(params) > 0 {
			e.vars[params[0]] = TV{T: self}
			params = params[1:]
		}
	}
	if len(params) > len(args) {
		panic(specErr{ct.Pos + ": contract " + ct.Name + " has more parameters than the code"})
	}
	for i, p := range params {
		t, ok := args[i].(*Term)
		if !ok {
			continue
		}
		e.vars[p] = TV{t, ats[i]}
	}
	pfx := "call(" + name + ")"
	v.consumeAll(st, ct.Req, e, cmode{name: pfx + ".requires"}, func(st *St, e *Env) {
		v.consumeAll(st, ct.Reads, e, cmode{name: pfx + ".reads", fz: true}, func(st *St, e *Env) {
			v.consumeAll(st, ct.Borrows, e, cmode{name: pfx + ".borrows", fz: true, borrow: true}, func(st *St, e *Env) {
				if ct.Decr != nil && v.cont != nil && ct == v.cont && v.entryMeasure != nil {
					m := v.eval(ct.Decr, e).T
					v.prove(st, v.c.And(v.c.Le(v.c.I(0), m), v.c.Lt(m, v.entryMeasure)), pfx+".decreases", here)
				} else if ct == v.cont && ct.Decr == nil {
					v.noTerm[ct.Name+" (recursion)"] = true
				}
				var cont func(st *St, e *Env)
				cont = func(st *St, e *Env) {
					var rs []Value
					rt := sig.Results()
					for i := 0; i < rt.Len(); i++ {
						nm := "ret"
						if i < len(ct.Results) {
							nm = ct.Results[i]
						}
						t := v.c.Fresh(nm, v.goSort(rt.At(i).Type()))
						v.assumeType(st, t, rt.At(i).Type())
						rs = append(rs, t)
						if i < len(ct.Results) {
							e.vars[ct.Results[i]] = TV{t, rt.At(i).Type()}
						}
					}
					v.produceAll(st, ct.Ens, e, pmode{}, func(st *St, e *Env) {
						v.cur = here
						k(st, rs)
					})
				}
				if ct.UnwVar != "" {
					st2, e2 := st.clone(), e.clone()
					x := v.c.Fresh("panicval", v.c.Val)
					v.assumeT(st2, v.c.Not(v.c.Eq(x, v.c.VNil())))
					e2.vars[ct.UnwVar] = TV{T: x}
					v.produceAll(st2, ct.Unw, e2, pmode{}, func(st *St, e *Env) {
						v.cur = here
						if !v.infeasible(st) {
							v.doPanic(st, x)
						}
					})
				}
				if ct.PanicIf != nil {
					v.fork(st, e, v.evalB(ct.PanicIf, e), func(st *St, e *Env) {
						v.doPanic(st, v.c.Fresh("panicval", v.c.Val))
					}, cont)
					return
				}
				cont(st, e)
			})
		})
	})
}

func (v *Verifier) runDefers(st *St, k func(*St)) {
	f := st.top()
	if len(f.defers) == 0 {
		k(st)
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
	v.dispatch(st, d.call, d.fn, d.args, func(st *St, _ []Value) { v.runDefers(st, k) })
}

// doPanic unwinds the stack: deferred calls run, one of them may recover, and
// what is left at the bottom must be allowed by the contract.
func (v *Verifier) doPanic(st *St, val *Term) {
	if v.tooMany(st) {
		return
	}
	if len(st.frames) > 0 {
		f := st.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			f.panicVal = val
			v.dispatch(st, d.call, d.fn, d.args, func(st *St, _ []Value) {
				f := st.top()
				if f.panicVal != nil {
					v.doPanic(st, f.panicVal)
					return
				}
				v.runDefers(st, func(st *St) {
					f := st.top()
					for l, id := range f.loops {
						delete(f.loops, l)
						if id != 0 {
							v.unfreeze(st, id)
						}
					}
					if f.fn.Recover != nil {
						v.instrs(st, f.fn.Recover, nil, 0)
					} else if f.fn.Signature.Results().Len() == 0 {
						v.ret(st, nil)
					} else {
						v.unsupported(st, "recovery in a function with unnamed results")
					}
				})
			})
			return
		}
		for _, id := range f.loops {
			if id != 0 {
				v.unfreeze(st, id)
			}
		}
		if len(st.frames) > 1 {
			st.frames = st.frames[:len(st.frames)-1]
			v.doPanic(st, val)
			return
		}
	}
	if v.cont != nil && v.cont.PanicIf != nil && len(st.frames) > 0 {
		e := st.frames[0].env
		v.prove(st, v.evalB(v.cont.PanicIf, e), "panics-only-when-allowed", v.cur)
		v.reach++
		return
	}
	if v.cont != nil && v.cont.UnwVar != "" && len(st.frames) > 0 {
		if v.infeasible(st) {
			return
		}
		v.reach++
		e := st.frames[0].env.clone()
		e.vars[v.cont.UnwVar] = TV{T: val}
		v.postNoIter = !v.hasIter(v.cont.Unw)
		v.consumeAll(st, v.cont.Unw, e, cmode{name: "unwinds", post: true}, func(st *St, e *Env) {})
		return
	}
	v.obl("panic-unreachable").Count++
	if v.infeasible(st) {
		return
	}
	v.fail(st, "panic-unreachable", v.cur+": explicit panic is reachable", "")
}
