package main

import (
	"fmt"
	"go/types"
	"strings"
)

type TV struct {
	T  *Term
	GT types.Type
}

type Env struct {
	vars map[string]TV
	look func(string) (TV, bool)
	up   *Env
}

func NewEnv(up *Env) *Env { return &Env{vars: map[string]TV{}, up: up} }

func (e *Env) get(n string) (TV, bool) {
	for q := e; q != nil; q = q.up {
		if x, ok := q.vars[n]; ok {
			return x, true
		}
		if q.look != nil {
			if x, ok := q.look(n); ok {
				return x, true
			}
		}
	}
	return TV{}, false
}

func (e *Env) clone() *Env {
	n := &Env{vars: make(map[string]TV, len(e.vars)), look: e.look, up: e.up}
	for k, x := range e.vars {
		n.vars[k] = x
	}
	return n
}

type specErr struct{ msg string }

func (v *Verifier) serr(n *Node, f string, a ...interface{}) {
	panic(specErr{n.Pos + ": " + fmt.Sprintf(f, a...)})
}

func (v *Verifier) isPred(n string) bool {
	return n == "slice" || n == "array" || n == "all" || n == "deq" || n == "set" || n == "ind" || n == "indup" || v.sp.Preds[n] != nil
}

// spatial reports whether an assertion mentions the heap.
func (v *Verifier) spatial(n *Node) bool {
	switch n.K {
	case "pto", "ro", "imm", "lent", "def":
		return true
	case "call":
		return v.isPred(n.S)
	case "sep", "ite":
		for _, a := range n.A {
			if v.spatial(a) {
				return true
			}
		}
	}
	return n.K == "sep"
}

func (v *Verifier) evalB(n *Node, e *Env) *Term {
	t := v.eval(n, e)
	if t.T == nil || t.T.Sort != v.c.Bool {
		v.serr(n, "boolean expected")
	}
	return t.T
}

func (v *Verifier) unify(n *Node, a, b TV) (TV, TV) {
	if a.T == nil && b.T == nil {
		return TV{T: v.c.Nil()}, TV{T: v.c.Nil()}
	}
	if a.T == nil {
		a.T = v.nilOf(n, b.T.Sort)
	}
	if b.T == nil {
		b.T = v.nilOf(n, a.T.Sort)
	}
	if a.T.Sort != b.T.Sort && !(a.T.Sort.Kind == KInt && b.T.Sort.Kind == KInt) {
		v.serr(n, "sorts %s (%s) and %s (%s) differ", a.T, a.T.Sort.Name, b.T, b.T.Sort.Name)
	}
	return a, b
}

func (v *Verifier) nilOf(n *Node, s *Sort) *Term {
	c := v.c
	switch s {
	case c.Ref:
		return c.Nil()
	case c.Val:
		return c.VNil()
	case c.Fn:
		return c.FNil()
	case c.Slice:
		return c.NilSlice()
	}
	v.serr(n, "nil has no meaning at sort %s", s.Name)
	return nil
}

func (v *Verifier) eval(n *Node, e *Env) TV {
	c := v.c
	switch n.K {
	case "int":
		return TV{T: c.BigI(n.S)}
	case "str":
		return TV{T: v.strConst(n.S)}
	case "id":
		if x, ok := e.get(n.S); ok {
			return x
		}
		switch n.S {
		case "nil":
			return TV{}
		case "true":
			return TV{T: c.True()}
		case "false":
			return TV{T: c.False()}
		case "MAXLEN":
			return TV{T: c.BigI(maxLen)}
		case "MININT":
			return TV{T: c.BigI("-9223372036854775808")}
		case "MAXINT":
			return TV{T: c.BigI("9223372036854775807")}
		}
		if ct := v.ctor(n.S); ct != nil {
			return TV{T: c.Con(n.S)}
		}
		if f := v.sp.Funs[n.S]; f != nil && len(f.Params) == 0 {
			return v.callFun(n, f, nil)
		}
		v.serr(n, "unknown name %s", n.S)
	case "bind":
		v.serr(n, "binder ?%s not allowed here", n.S)
	case "un":
		a := v.eval(n.A[0], e)
		if n.S == "!" {
			return TV{T: c.Not(v.mustBool(n, a))}
		}
		return TV{T: c.Neg(a.T)}
	case "is":
		a := v.eval(n.A[0], e)
		ct := v.ctor(n.S)
		if ct == nil {
			v.serr(n, "unknown constructor %s", n.S)
		}
		return TV{T: c.Is(ct, a.T)}
	case "bin":
		switch n.S {
		case "&&":
			return TV{T: c.And(v.evalB(n.A[0], e), v.evalB(n.A[1], e))}
		case "||":
			return TV{T: c.Or(v.evalB(n.A[0], e), v.evalB(n.A[1], e))}
		case "==>":
			return TV{T: c.Imp(v.evalB(n.A[0], e), v.evalB(n.A[1], e))}
		case "<==>":
			return TV{T: c.Eq(v.evalB(n.A[0], e), v.evalB(n.A[1], e))}
		}
		a, b := v.eval(n.A[0], e), v.eval(n.A[1], e)
		switch n.S {
		case "==":
			a, b = v.unify(n, a, b)
			return TV{T: c.Eq(a.T, b.T)}
		case "!=":
			a, b = v.unify(n, a, b)
			return TV{T: c.Not(c.Eq(a.T, b.T))}
		}
		if a.T == nil || b.T == nil || a.T.Sort.Kind != KInt || b.T.Sort.Kind != KInt {
			v.serr(n, "integers expected for %s", n.S)
		}
		switch n.S {
		case "<", "<=", ">", ">=":
			return TV{T: c.Cmp(n.S, a.T, b.T)}
		case "+":
			return TV{T: c.Add(a.T, b.T)}
		case "-":
			return TV{T: c.Sub(a.T, b.T)}
		case "*":
			return TV{T: c.Mul(a.T, b.T)}
		case "/":
			return TV{T: v.divmod(nil, "div", a.T, b.T)}
		case "%":
			return TV{T: v.divmod(nil, "mod", a.T, b.T)}
		}
		v.serr(n, "operator %s", n.S)
	case "ite":
		p := v.evalB(n.A[0], e)
		a, b := v.unify(n, v.eval(n.A[1], e), v.eval(n.A[2], e))
		return TV{T: c.Ite(p, a.T, c.castTo(b.T, a.T.Sort)), GT: a.GT}
	case "letin":
		e2 := NewEnv(e)
		e2.vars[n.S] = v.eval(n.A[0], e)
		return v.eval(n.A[1], e2)
	case "forall", "exists":
		e2 := NewEnv(e)
		var vs []*Term
		for _, d := range n.Vars {
			s, g := v.resolveType(d.Ty)
			b := c.BVar(d.Name, s)
			e2.vars[d.Name] = TV{b, g}
			vs = append(vs, b)
		}
		var ps [][]*Term
		for _, t := range n.Trig {
			var p []*Term
			for _, x := range t {
				p = append(p, v.eval(x, e2).T)
			}
			ps = append(ps, p)
		}
		return TV{T: c.quant(n.K, vs, ps, v.evalB(n.A[0], e2))}
	case "fld":
		a := v.eval(n.A[0], e)
		if a.T == nil {
			v.serr(n, "field of nil")
		}
		if a.T.Sort.Kind == KData {
			for _, ct := range a.T.Sort.Ctor {
				for i, f := range ct.Fields {
					if f.Name == n.S {
						var g types.Type
						if a.GT != nil {
							if st, ok := a.GT.Underlying().(*types.Struct); ok {
								g = st.Field(i).Type()
							}
						} else if d := v.dataDecl(a.T.Sort.Name); d != nil {
							for _, k := range d.Ctors {
								if k.Name == ct.Name {
									_, g = v.resolveType(k.Fields[i].Ty)
								}
							}
						}
						return TV{c.Sel(ct, i, a.T), g}
					}
				}
			}
			v.serr(n, "no field %s in %s", n.S, a.T.Sort.Name)
		}
		if a.GT != nil {
			if st, ok := a.GT.Underlying().(*types.Struct); ok {
				if i := fieldIndex(st, n.S); i >= 0 {
					return TV{v.opaqueField(a.T, a.GT, st, i), st.Field(i).Type()}
				}
			}
		}
		if T, st := v.ptrStruct(a.GT); st != nil {
			i := fieldIndex(st, n.S)
			if i < 0 {
				panic(missing(fmt.Sprintf("field %s of %s", n.S, T)))
			}
			ft := st.Field(i).Type()
			if v.embeddedField(T, i) {
				return TV{v.fieldRef(a.T, T, i), types.NewPointer(ft)}
			}
		}
		if a.GT != nil {
			if p, ok := a.GT.Underlying().(*types.Pointer); ok {
				if st, ok := p.Elem().Underlying().(*types.Struct); ok && v.asStruct(p.Elem()) == nil {
					if i := fieldIndex(st, n.S); i >= 0 {
						return TV{v.foreignField(a.T, p.Elem(), i), st.Field(i).Type()}
					}
				}
			}
		}
		v.serr(n, "cannot evaluate field %s", n.S)
	case "idx":
		a, i := v.eval(n.A[0], e), v.eval(n.A[1], e)
		switch a.T.Sort.Kind {
		case KSeq:
			return TV{T: c.Idx(a.T, i.T)}
		case KArray:
			return TV{T: c.Select(a.T, c.castTo(i.T, a.T.Sort.Key))}
		}
		v.serr(n, "indexing %s", a.T.Sort.Name)
	case "match":
		a := v.eval(n.A[0], e)
		var r *Term
		var g types.Type
		for i := len(n.Cs) - 1; i >= 0; i-- {
			cs := n.Cs[i]
			ct := v.ctor(cs.Ctor)
			if ct == nil {
				v.serr(n, "unknown constructor %s", cs.Ctor)
			}
			e2 := NewEnv(e)
			for j, x := range cs.Vars {
				e2.vars[x] = TV{T: c.Sel(ct, j, a.T)}
			}
			b := v.eval(cs.Body, e2)
			g = b.GT
			if r == nil {
				r = b.T
			} else {
				r = c.Ite(c.Is(ct, a.T), b.T, r)
			}
		}
		return TV{r, g}
	case "typeid":
		return TV{T: v.typeTag(v.goType(n.Ty))}
	case "sharing":
		f, g := v.eval(n.A[0], e).T, v.eval(n.A[1], e).T
		F, G := v.P.funcs[n.Ty], v.P.funcs[n.S]
		if F == nil || G == nil {
			panic(missing("closure " + n.Ty + " or " + n.S))
		}
		r := c.And(c.Not(c.Eq(f, c.FNil())), c.Eq(c.App("fnid", c.Int, f), v.fnID(n.Ty)))
		for _, x := range F.FreeVars {
			for _, y := range G.FreeVars {
				if x.Name() == y.Name() {
					r = c.And(r, c.Eq(v.capture(f, n.Ty, x.Name()), v.capture(g, n.S, y.Name())))
				}
			}
		}
		return TV{T: r}
	case "capt":
		f := v.eval(n.A[0], e).T
		if F := v.P.funcs[n.Ty]; F != nil {
			for _, x := range F.FreeVars {
				if x.Name() == n.S {
					return TV{v.capture(f, n.Ty, n.S), x.Type()}
				}
			}
		}
		panic(missing("variable " + n.S + " of closure " + n.Ty))
	case "fnid_of":
		return TV{T: v.fnID(n.Ty)}
	case "box":
		g := v.goType(n.Ty)
		a := v.eval(n.A[0], e)
		return TV{T: v.box(a.T, g)}
	case "mk": // a struct value
		g := v.goType(n.Ty)
		s := v.goSort(g)
		if s.Kind != KData || len(n.A) != len(s.Ctor[0].Fields) {
			v.serr(n, "mk<%s>: not a struct with %d fields", n.Ty, len(n.A))
		}
		var as []*Term
		for i, a := range n.A {
			x, fs := v.eval(a, e).T, s.Ctor[0].Fields[i].Sort
			if x == nil {
				x = v.nilOf(n, fs)
			}
			if x = v.c.castTo(x, fs); x.Sort != fs {
				v.serr(n, "field %d of %s: %s, want %s", i+1, n.Ty, x.Sort.Name, fs.Name)
			}
			as = append(as, x)
		}
		return TV{v.c.Con(s.Ctor[0].Name, as...), g}
	case "outer": // the object of which this is a field
		g := v.goType("*" + n.Ty[:strings.LastIndex(n.Ty, ".")])
		T := g.Underlying().(*types.Pointer).Elem()
		i := fieldIndex(T.Underlying().(*types.Struct), n.Ty[strings.LastIndex(n.Ty, ".")+1:])
		if i < 0 {
			panic(missing("field " + n.Ty))
		}
		a := v.eval(n.A[0], e)
		v.fieldRef(v.c.Nil(), T, i)
		if a.T.Op == "fld_"+typeKey(structOwner(T))+"_"+T.Underlying().(*types.Struct).Field(i).Name() {
			return TV{a.T.Args[0], g}
		}
		return TV{v.c.App("fld_"+typeKey(structOwner(T))+"_"+T.Underlying().(*types.Struct).Field(i).Name()+"_inv", v.c.Ref, a.T), g}
	case "unbox":
		g := v.goType(n.Ty)
		a := v.eval(n.A[0], e)
		return TV{v.unbox(a.T, g), g}
	case "call":
		return v.evalCall(n, e)
	}
	v.serr(n, "cannot evaluate %s here", n.K)
	return TV{}
}

func (c *Ctx) castTo(t *Term, s *Sort) *Term {
	if t.Sort != s && t.Sort.Kind == KInt && s.Kind == KInt {
		return c.cast(t, s)
	}
	return t
}

func (v *Verifier) mustBool(n *Node, a TV) *Term {
	if a.T == nil || a.T.Sort != v.c.Bool {
		v.serr(n, "boolean expected")
	}
	return a.T
}

func (v *Verifier) strConst(s string) *Term {
	c := v.c
	name := "str_" + fmt.Sprintf("%x", s)
	if len(name) > 60 {
		name = fmt.Sprintf("str_%s_%d", name[4:40], len(s))
	}
	if !c.declared[name] {
		t := c.Const(name, c.Str)
		c.globals = append(c.globals, fmt.Sprintf("(= (len_%s %s) %d)", c.Str.Name, name, len(s)))
		for i := 0; i < len(s) && i < 64; i++ {
			c.globals = append(c.globals, fmt.Sprintf("(= (idx_%s %s %d) %d)", c.Str.Name, name, i, s[i]))
		}
		return t
	}
	return c.Const(name, c.Str)
}

func (v *Verifier) ctor(n string) *Ctor {
	if ct := v.c.ctors[n]; ct != nil {
		return ct
	}
	for _, d := range v.sp.Datas {
		for _, k := range d.Ctors {
			if k.Name == n {
				v.resolveType(d.Name)
				return v.c.ctors[n]
			}
		}
	}
	return nil
}

func (v *Verifier) ptrStruct(g types.Type) (types.Type, *types.Struct) {
	if g == nil {
		return nil, nil
	}
	p, ok := g.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	return p.Elem(), v.asStruct(p.Elem())
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (v *Verifier) evalCall(n *Node, e *Env) TV {
	c := v.c
	if n.S == "empty" {
		s, _ := v.resolveType(n.Ty)
		q := c.Seq(s)
		return TV{T: c.mk("empty_"+q.Name, q)}
	}
	if n.S == "constarr" {
		a := splitArgs(n.Ty)
		ks, _ := v.resolveType(a[0])
		es, _ := v.resolveType(a[1])
		x := v.eval(n.A[0], e)
		if x.T == nil {
			x.T = v.nilOf(n, es)
		}
		return TV{T: c.ConstArr(c.Array(ks, es), x.T)}
	}
	if n.S == "implements" {
		return TV{T: v.implementsT(v.eval(n.A[0], e).T, v.goType(n.Ty))}
	}
	if n.S == "frozen" || n.S == "view" || n.S == "perm" {
		// a read-only predicate instance as a fact, and its (first) output
		if len(n.A) == 0 || v.sp.Preds[n.A[0].S] == nil {
			v.serr(n, "%s needs a predicate", n.S)
		}
		p := v.sp.Preds[n.A[0].S]
		ins := v.predIns(&Node{K: "call", S: p.Name, A: n.A[1:], Pos: n.Pos}, p, e)
		if n.S == "frozen" {
			return TV{T: v.fzPred(p, ins)}
		}
		if n.S == "perm" {
			return TV{T: v.pmPred(p, ins)}
		}
		_, g := v.resolveType(p.Outs[0].Ty)
		return TV{v.fzOuts(p, ins)[0], g}
	}
	if n.S == "nilin" {
		v.nilinFun()
		return TV{T: c.App("nilin", c.Bool, v.eval(n.A[0], e).T)}
	}
	if n.S == "rkind" {
		v.nilinFun()
		return TV{T: c.App("rkind", c.Int, v.typeof(v.eval(n.A[0], e).T))}
	}
	if v.isPred(n.S) {
		v.serr(n, "predicate %s used in a pure expression", n.S)
	}
	if n.S == "old" && len(n.A) == 1 && n.A[0].K == "id" {
		if x, ok := e.get("old$" + n.A[0].S); ok {
			return x
		}
		v.serr(n, "old(%s) unknown", n.A[0].S)
	}
	if n.S == "pre" && len(n.A) == 1 && n.A[0].K == "id" {
		if x, ok := e.get("pre$" + n.A[0].S); ok {
			return x
		}
		v.serr(n, "pre(%s) unknown", n.A[0].S)
	}
	var as []TV
	for _, a := range n.A {
		as = append(as, v.eval(a, e))
	}
	need := func(k int) {
		if len(as) != k {
			v.serr(n, "%s takes %d arguments", n.S, k)
		}
	}
	if f := v.sp.Funs[n.S]; f != nil {
		return v.callFun(n, f, as)
	}
	if ct := v.ctor(n.S); ct != nil {
		need(len(ct.Fields))
		var ts []*Term
		for i, a := range as {
			if a.T == nil {
				a.T = v.nilOf(n, ct.Fields[i].Sort)
			}
			ts = append(ts, a.T)
		}
		return TV{T: c.Con(n.S, ts...)}
	}
	switch n.S {
	case "len":
		need(1)
		if as[0].T.Sort == c.Slice {
			return TV{T: c.SliceF(2, as[0].T)}
		}
		if as[0].T.Sort.Kind != KSeq {
			v.serr(n, "len of %s", as[0].T.Sort.Name)
		}
		return TV{T: c.Len(as[0].T)}
	case "app", "take", "drop", "upd", "ins", "rem", "rev":
		s := as[0].T.Sort
		if s.Kind != KSeq {
			v.serr(n, "%s of %s", n.S, s.Name)
		}
		var ts []*Term
		for i, a := range as {
			t := a.T
			if t == nil {
				t = v.nilOf(n, s.Elem)
			}
			if (n.S == "upd" || n.S == "ins") && i == 2 {
				t = c.castTo(t, s.Elem)
			}
			ts = append(ts, t)
		}
		if n.S == "app" {
			r := ts[len(ts)-1]
			for i := len(ts) - 2; i >= 0; i-- {
				r = c.mk("app_"+s.Name, s, ts[i], r)
			}
			return TV{T: r}
		}
		return TV{T: c.mk(n.S+"_"+s.Name, s, ts...)}
	case "unit":
		need(1)
		s := c.Seq(as[0].T.Sort)
		return TV{T: c.mk("unit_"+s.Name, s, as[0].T)}
	case "arrseq":
		need(3)
		s := c.Seq(as[0].T.Sort.Elem)
		return TV{T: c.mk("arrseq_"+s.Name, s, as[0].T, as[1].T, as[2].T)}
	case "imseq": // the contents of a slice that is read-only for good
		need(1)
		if sl, ok := as[0].GT.Underlying().(*types.Slice); ok {
			l := loc{'A', v.arrKey(sl.Elem()), c.SliceF(0, as[0].T), sl.Elem(), nil}
			s := c.Seq(v.goSort(sl.Elem()))
			return TV{T: c.mk("arrseq_"+s.Name, s, v.fzVal(l), c.SliceF(1, as[0].T), c.SliceF(2, as[0].T))}
		}
		v.serr(n, "imseq of a non-slice")
	case "subslice": // s[a:b]
		need(3)
		return TV{c.Con("mkSlice", c.SliceF(0, as[0].T), c.Add(c.SliceF(1, as[0].T), as[1].T), c.Sub(as[2].T, as[1].T), c.Sub(c.SliceF(3, as[0].T), as[1].T)), as[0].GT}
	case "store":
		need(3)
		if as[2].T == nil {
			as[2].T = v.nilOf(n, as[0].T.Sort.Elem)
		}
		return TV{T: c.Store(as[0].T, c.castTo(as[1].T, as[0].T.Sort.Key), as[2].T)}
	case "rank":
		need(1)
		if as[0].T == nil {
			as[0].T = c.VNil()
		}
		return TV{T: c.App("rank", c.Int, as[0].T)}
	case "typeof":
		need(1)
		return TV{T: v.typeof(as[0].T)}
	case "fnid":
		need(1)
		return TV{T: c.App("fnid", c.Int, as[0].T)}
	case "boxptr": // box of a pointer with known Go type
		need(1)
		if as[0].GT == nil {
			v.serr(n, "boxptr needs a Go-typed pointer")
		}
		return TV{T: v.box(as[0].T, as[0].GT)}
	case "rawdiv", "rawmod":
		need(2)
		return TV{T: c.mk(n.S[3:], c.Int, as[0].T, as[1].T)}
	case "seqeq":
		need(2)
		return TV{T: c.mk("seqeq_"+as[0].T.Sort.Name, c.Bool, as[0].T, as[1].T)}
	case "trig":
		// trig(e): true, but mentions e (a hint for quantifier instantiation)
		v.trigMark(as[0].T.Sort)
		return TV{T: c.App("mention_"+mangle(as[0].T.Sort.Name), c.Bool, as[0].T)}
	}
	v.serr(n, "unknown function %s", n.S)
	return TV{}
}

func (v *Verifier) trigMark(s *Sort) {
	f := "mention_" + mangle(s.Name)
	if !v.c.funs[f] {
		v.c.Fun(f, v.c.Bool, []*Sort{s})
		v.c.globals = append(v.c.globals, fmt.Sprintf("(forall ((x %s)) (! (%s x) :pattern ((%s x))))", s.Name, f, f))
	}
}

func (v *Verifier) callFun(n *Node, f *FunDecl, as []TV) TV {
	c := v.c
	if len(as) != len(f.Params) {
		v.serr(n, "%s takes %d arguments", f.Name, len(f.Params))
	}
	var ts []*Term
	for i, a := range as {
		s, g := v.resolveType(f.Params[i].Ty)
		if a.T == nil {
			a.T = v.nilOf(n, s)
		}
		if a.T.Sort != s {
			if a.T.Sort.Kind == KInt && s.Kind == KInt {
				a.T = c.cast(a.T, s)
			} else {
				v.serr(n, "argument %d of %s: %s, want %s", i+1, f.Name, a.T.Sort.Name, s.Name)
			}
		}
		if a.GT == nil {
			a.GT = g
		}
		as[i] = a
		ts = append(ts, a.T)
	}
	if f.Macro {
		e := NewEnv(nil)
		for i := range as {
			e.vars[f.Params[i].Name] = as[i]
		}
		return v.eval(f.Body, e)
	}
	rs, rg := v.resolveType(f.Ret)
	v.declareFun(f, rs)
	return TV{c.App(f.Name, rs, ts...), rg}
}

func (v *Verifier) declareFun(f *FunDecl, rs *Sort) {
	if v.funDone[f.Name] {
		return
	}
	v.funDone[f.Name] = true
	c := v.c
	var ps []*Sort
	for _, p := range f.Params {
		s, _ := v.resolveType(p.Ty)
		ps = append(ps, s)
	}
	c.Fun(f.Name, rs, ps)
	if f.Body == nil || f.Opaque && !v.opened[f.Name] {
		return
	}
	// general recursion with one level of fuel
	lim := f.Name + "_lim"
	v.limDone[f.Name] = true
	c.Fun(lim, rs, ps)
	e := NewEnv(nil)
	var vs, as []*Term
	for _, p := range f.Params {
		s, g := v.resolveType(p.Ty)
		b := c.BVar(p.Name, s)
		vs = append(vs, b)
		as = append(as, b)
		e.vars[p.Name] = TV{b, g}
	}
	app := c.App(f.Name, rs, as...)
	full := v.eval(f.Body, e).T
	body := c.renameFun(full, f.Name, lim)
	if body != full {
		// at a constant the definition unfolds for free
		for i := range f.Params {
			s, _ := v.resolveType(f.Params[i].Ty)
			if s.Kind != KData || len(s.Ctor) < 2 {
				continue
			}
			for _, k := range s.Ctor {
				if len(k.Fields) > 0 {
					continue
				}
				e2 := NewEnv(nil)
				var vs2, as2 []*Term
				for j, q := range f.Params {
					qs, g := v.resolveType(q.Ty)
					if j != i {
						b := c.BVar(q.Name, qs)
						vs2, as2 = append(vs2, b), append(as2, b)
						e2.vars[q.Name] = TV{b, g}
						continue
					}
					t := c.mk(k.Name, s)
					as2 = append(as2, t)
					e2.vars[q.Name] = TV{t, g}
				}
				la := c.App(lim, rs, as2...)
				if len(vs2) == 0 {
					c.globals = append(c.globals, c.Eq(la, c.renameFun(v.eval(f.Body, e2).T, f.Name, lim)).smt(c))
					continue
				}
				c.globals = append(c.globals, c.Forall(vs2, [][]*Term{{la}}, c.Eq(la, c.renameFun(v.eval(f.Body, e2).T, f.Name, lim))).smt(c))
			}
		}
	}
	c.globals = append(c.globals, c.Forall(vs, [][]*Term{{app}}, c.Eq(app, body)).smt(c),
		c.Forall(vs, [][]*Term{{app}}, c.Eq(app, c.App(lim, rs, as...))).smt(c))
}

func (c *Ctx) renameFun(t *Term, from, to string) *Term {
	if len(t.Args) == 0 {
		return t
	}
	var as []*Term
	for _, a := range t.Args {
		as = append(as, c.renameFun(a, from, to))
	}
	if len(t.Bound) > 0 {
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, c.renameFun(x, from, to))
			}
			ps = append(ps, q)
		}
		return c.quant(t.Op, t.Bound, ps, as[0])
	}
	if t.Op == from {
		return c.mk(to, t.Sort, as...)
	}
	return c.rebuild(t, as)
}

// ---------------------------------------------------------------- locations

type loc struct {
	kind byte // F, C, A
	key  string
	ref  *Term
	gt   types.Type // type of the contents (element type for A)
	T    types.Type // struct type for F
}

func (v *Verifier) locOf(n *Node, e *Env) loc {
	switch n.K {
	case "fld":
		a := v.eval(n.A[0], e)
		T, st := v.ptrStruct(a.GT)
		if st == nil {
			v.serr(n, "points-to: base of .%s is not a pointer to a struct", n.S)
		}
		i := fieldIndex(st, n.S)
		if i < 0 {
			panic(missing(fmt.Sprintf("field %s of %s", n.S, T)))
		}
		if v.P.cellField[fieldKey(T, i)] {
			ft := st.Field(i).Type()
			return loc{'C', cellKey(ft), v.fieldRef(a.T, T, i), ft, nil}
		}
		return loc{'F', fieldKey(T, i), a.T, st.Field(i).Type(), T}
	case "deref":
		a := v.eval(n.A[0], e)
		if a.GT == nil {
			v.serr(n, "points-to: untyped cell")
		}
		p, ok := a.GT.Underlying().(*types.Pointer)
		if !ok {
			v.serr(n, "points-to: not a pointer")
		}
		return loc{'C', cellKey(p.Elem()), a.T, p.Elem(), nil}
	}
	v.serr(n, "bad points-to location")
	return loc{}
}

func fieldKey(T types.Type, i int) string {
	return typeKey(structOwner(T)) + "." + T.Underlying().(*types.Struct).Field(i).Name()
}

// structOwner returns the named type that declares the struct T consists of:
// after "type A B", a *A and the *B it converts to share their fields.
func structOwner(T types.Type) types.Type {
	n, ok := types.Unalias(T).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.TypeArgs().Len() > 0 {
		return T
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return T
	}
	sc := n.Obj().Pkg().Scope()
	best := n.Obj()
	for _, name := range sc.Names() {
		o, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || o.IsAlias() || o.Type().Underlying() != types.Type(st) {
			continue
		}
		if f := st.Field(0).Pos(); o.Pos() < f && (best.Pos() > f || o.Pos() > best.Pos()) {
			best = o
		}
	}
	return best.Type()
}
func cellKey(t types.Type) string { return "cell_" + typeKey(t) }
func (v *Verifier) arrKey(et types.Type) string {
	return "arr_" + mangle(v.goSort(et).Name)
}

func (v *Verifier) arrLoc(n *Node, e *Env) loc {
	a := v.eval(n.A[0], e)
	if a.GT == nil {
		v.serr(n, "%s needs a Go-typed argument", n.S)
	}
	switch u := a.GT.Underlying().(type) {
	case *types.Slice:
		return loc{'A', v.arrKey(u.Elem()), v.c.SliceF(0, a.T), u.Elem(), nil}
	case *types.Pointer:
		if ar := asArray(u.Elem()); ar != nil {
			return loc{'A', v.arrKey(ar.Elem()), a.T, ar.Elem(), nil}
		}
	}
	v.serr(n, "%s of a non-slice", n.S)
	return loc{}
}

func (v *Verifier) valSort(l loc) *Sort {
	if l.kind == 'A' {
		return v.c.Array(v.c.Int, v.goSort(l.gt))
	}
	return v.goSort(l.gt)
}

// frozen (read-only) representation
func (v *Verifier) fzFlag(l loc) *Term {
	f := "fz_" + l.key
	v.c.Fun(f, v.c.Bool, []*Sort{v.c.Ref})
	return v.c.App(f, v.c.Bool, l.ref)
}

func (v *Verifier) fzVal(l loc) *Term {
	f := "im_" + l.key
	s := v.valSort(l)
	v.c.Fun(f, s, []*Sort{v.c.Ref})
	return v.c.App(f, s, l.ref)
}

func (v *Verifier) fzPred(p *PredDecl, ins []*Term) *Term {
	f := "fzp_" + p.Name
	v.c.Fun(f, v.c.Bool, v.inSorts(p))
	return v.c.App(f, v.c.Bool, ins...)
}

// permanent: the location or predicate is read-only for the rest of the run,
// not just while the current function runs
func (v *Verifier) pmFlag(l loc) *Term {
	f := "pm_" + l.key
	v.c.Fun(f, v.c.Bool, []*Sort{v.c.Ref})
	return v.c.App(f, v.c.Bool, l.ref)
}

func (v *Verifier) pmPred(p *PredDecl, ins []*Term) *Term {
	f := "pmp_" + p.Name
	v.c.Fun(f, v.c.Bool, v.inSorts(p))
	if !v.memo["pm-axiom "+p.Name] {
		// what is permanently read-only is read-only now and has the facts
		// proved for every instance of the predicate
		v.memo["pm-axiom "+p.Name] = true
		var vs []*Term
		for i, s := range v.inSorts(p) {
			vs = append(vs, v.c.BVar(p.Ins[i].Name, s))
		}
		pm := v.c.App(f, v.c.Bool, vs...)
		body := []*Term{v.fzPred(p, vs)}
		e := v.predEnv(p, vs, v.fzOuts(p, vs))
		for _, f := range p.Facts {
			v.usedPreds[p.Name] = true
			body = append(body, v.evalB(f, e))
		}
		v.c.globals = append(v.c.globals, v.c.Forall(vs, [][]*Term{{pm}}, v.c.Imp(pm, v.c.And(body...))).smt(v.c))
		// a case without memory is read-only for good
		for _, pc := range p.Cases {
			if pc.Guard == nil || pc.Body == nil || pc.Body.K != "def" || len(p.Outs) != 1 || pc.Body.S != p.Outs[0].Name {
				continue
			}
			x := v.eval(pc.Body.A[0], v.predEnv(p, vs, nil)).T
			g := v.evalB(pc.Guard, v.predEnv(p, vs, nil))
			v.c.globals = append(v.c.globals, v.c.Forall(vs, [][]*Term{{pm}}, v.c.Imp(g, v.c.And(pm, v.c.Eq(v.fzOuts(p, vs)[0], x)))).smt(v.c))
		}
	}
	return v.c.App(f, v.c.Bool, ins...)
}

func (v *Verifier) fzOuts(p *PredDecl, ins []*Term) []*Term {
	var out []*Term
	for _, o := range p.Outs {
		f := "fzp_" + p.Name + "_" + o.Name
		s, _ := v.resolveType(o.Ty)
		v.c.Fun(f, s, v.inSorts(p))
		out = append(out, v.c.App(f, s, ins...))
	}
	return out
}

func (v *Verifier) inSorts(p *PredDecl) []*Sort {
	var out []*Sort
	for _, i := range p.Ins {
		s, _ := v.resolveType(i.Ty)
		out = append(out, s)
	}
	return out
}

// ---------------------------------------------------------------- produce

type pmode struct {
	fz       bool
	imm      bool // read-only for good
	frozen   int
	borrowed bool
}

type kont func(*St, *Env)

func (v *Verifier) produceAll(st *St, ns []*Node, e *Env, m pmode, k kont) {
	if len(ns) == 0 {
		k(st, e)
		return
	}
	v.produce(st, ns[0], e, m, func(st *St, e *Env) { v.produceAll(st, ns[1:], e, m, k) })
}

func (v *Verifier) fork(st *St, e *Env, cond *Term, a, b kont) {
	if cond.isTrue() || v.entails(st, cond) {
		v.assumeT(st, cond)
		a(st, e)
		return
	}
	nc := v.c.Not(cond)
	if cond.isFalse() || v.entails(st, nc) {
		v.assumeT(st, nc)
		b(st, e)
		return
	}
	v.paths++
	s2, e2 := st.clone(), e.clone()
	v.assumeT(st, cond)
	a(st, e)
	v.assumeT(s2, nc)
	b(s2, e2)
}

func (v *Verifier) produce(st *St, n *Node, e *Env, m pmode, k kont) {
	c := v.c
	switch n.K {
	case "sep":
		v.produce(st, n.A[0], e, m, func(st *St, e *Env) { v.produce(st, n.A[1], e, m, k) })
		return
	case "lent":
		m.borrowed, v.lent = true, true
		v.produce(st, n.A[0], e, m, k)
		return
	case "ro":
		m.fz, m.imm = true, false
		v.produce(st, n.A[0], e, m, k)
		return
	case "imm":
		m.fz, m.imm = true, true
		v.produce(st, n.A[0], e, m, k)
		return
	case "ite":
		if v.spatial(n.A[1]) || v.spatial(n.A[2]) {
			v.fork(st, e, v.evalB(n.A[0], e),
				func(st *St, e *Env) { v.produce(st, n.A[1], e, m, k) },
				func(st *St, e *Env) { v.produce(st, n.A[2], e, m, k) })
			return
		}
	case "def":
		x := v.eval(n.A[0], e)
		if old, ok := e.vars[n.S]; ok {
			if x.T == nil {
				x.T = v.nilOf(n, old.T.Sort)
			}
			v.assumeT(st, c.Eq(old.T, x.T))
		} else {
			e.vars[n.S] = x
		}
		k(st, e)
		return
	case "pto":
		v.produceLoc(st, v.locOf(n.A[0], e), n.A[1], e, m)
		k(st, e)
		return
	case "call":
		if n.S == "slice" || n.S == "array" {
			v.produceLoc(st, v.arrLoc(n, e), n.Outs[0], e, m)
			k(st, e)
			return
		}
		if n.S == "set" {
			v.produceSet(st, n, e, m)
			k(st, e)
			return
		}
		if n.S == "all" || n.S == "deq" {
			v.produceRegion(st, n, e, m)
			k(st, e)
			return
		}
		if p := v.sp.Preds[n.S]; p != nil {
			ins := v.predIns(n, p, e)
			if len(n.Outs) != len(p.Outs) {
				v.serr(n, "predicate %s has %d outputs", p.Name, len(p.Outs))
			}
			outs := make([]*Term, len(p.Outs))
			var fo []*Term
			if m.fz {
				fo = v.fzOuts(p, ins)
			}
			for i, o := range n.Outs {
				s, g := v.resolveType(p.Outs[i].Ty)
				switch {
				case o.K == "bind" || o.K == "id" && o.S == "_":
					if m.fz {
						outs[i] = fo[i]
					} else {
						nm := o.S
						if nm == "_" {
							nm = p.Outs[i].Name
						}
						outs[i] = c.Fresh(nm, s)
					}
					if o.K == "bind" {
						e.vars[o.S] = TV{outs[i], g}
					}
				default:
					x := v.eval(o, e)
					if x.T == nil {
						x.T = v.nilOf(o, s)
					}
					outs[i] = c.castTo(x.T, s)
					if outs[i].Sort != s {
						v.serr(o, "output %d of %s: %s, want %s", i+1, p.Name, outs[i].Sort.Name, s.Name)
					}
				}
				if m.fz {
					v.assumeT(st, c.Eq(outs[i], fo[i]))
				}
			}
			if m.fz {
				if v.onFz != nil {
					v.onFz(p, ins)
				}
				v.assumeT(st, v.fzPred(p, ins))
				if m.imm {
					v.assumeT(st, v.pmPred(p, ins))
				}
				v.predFacts(st, p, ins, outs, true)
				if pc := v.familyCase(st, p, ins); pc != nil {
					v.unfoldFz(st, p, ins, k, e)
					return
				}
			} else {
				h := &Chunk{Kind: 'P', Key: p.Name, Pred: p, Ins: ins, Outs: outs, Frozen: m.frozen, Borrowed: m.borrowed}
				v.add(st, h)
				if pc := v.familyCase(st, p, ins); pc != nil {
					v.unfold(st, h, func(st *St) { k(st, e.clone()) })
					return
				}
			}
			k(st, e)
			return
		}
	}
	v.assumeT(st, v.evalB(n, e))
	k(st, e)
}

// familyCase: a family member whose code pointer / dynamic type is already known.
func (v *Verifier) familyCase(st *St, p *PredDecl, ins []*Term) *PredCase {
	if v.opening[p] > 0 {
		return nil // recursive occurrence: opened when needed
	}
	for _, pc := range p.Cases {
		if pc.Closure != "" || pc.Type != "" {
			g, _ := v.caseGuard(pc, p, ins, nil)
			if g.isTrue() || v.known(st, g) {
				return pc
			}
		}
	}
	return nil
}

func (v *Verifier) predIns(n *Node, p *PredDecl, e *Env) []*Term {
	if len(n.A) != len(p.Ins) {
		v.serr(n, "predicate %s has %d inputs", p.Name, len(p.Ins))
	}
	var ins []*Term
	for i, a := range n.A {
		s, _ := v.resolveType(p.Ins[i].Ty)
		x := v.eval(a, e)
		if x.T == nil {
			x.T = v.nilOf(n, s)
		}
		x.T = v.c.castTo(x.T, s)
		if x.T.Sort != s {
			v.serr(n, "input %d of %s: %s, want %s", i+1, p.Name, x.T.Sort.Name, s.Name)
		}
		ins = append(ins, x.T)
	}
	return ins
}

func (v *Verifier) produceLoc(st *St, l loc, pat *Node, e *Env, m pmode) {
	c := v.c
	s := v.valSort(l)
	var val *Term
	var gt types.Type
	if l.kind != 'A' {
		gt = l.gt
	}
	if m.fz {
		val = v.fzVal(l)
		v.assumeT(st, v.fzFlag(l))
		if m.imm {
			v.assumeT(st, v.pmFlag(l))
		}
		if pat.K == "bind" {
			e.vars[pat.S] = TV{val, gt}
		} else if !(pat.K == "id" && pat.S == "_") {
			x := v.eval(pat, e)
			if x.T == nil {
				x.T = v.nilOf(pat, s)
			}
			v.assumeT(st, c.Eq(val, c.castTo(x.T, s)))
		}
		v.assumeType(st, val, gt)
		if l.kind != 'A' {
			v.assumeT(st, c.Not(c.Eq(l.ref, c.Nil())))
		}
		return
	}
	if pat.K == "bind" || pat.K == "id" && pat.S == "_" {
		nm := pat.S
		if nm == "_" {
			nm = l.key
		}
		val = c.Fresh(nm, s)
		if pat.K == "bind" {
			e.vars[pat.S] = TV{val, gt}
		}
	} else {
		x := v.eval(pat, e)
		if x.T == nil {
			x.T = v.nilOf(pat, s)
		}
		val = c.castTo(x.T, s)
		if val.Sort != s {
			v.serr(pat, "value of %s: %s, want %s", l.key, val.Sort.Name, s.Name)
		}
	}
	v.assumeType(st, val, gt)
	v.add(st, &Chunk{Kind: l.kind, Key: l.key, Ref: l.ref, Val: val, GT: l.gt, Frozen: m.frozen, Borrowed: m.borrowed})
}

func (v *Verifier) predEnv(p *PredDecl, ins, outs []*Term) *Env {
	e := NewEnv(nil)
	for i, d := range p.Ins {
		_, g := v.resolveType(d.Ty)
		e.vars[d.Name] = TV{ins[i], g}
	}
	if outs != nil {
		for i, d := range p.Outs {
			_, g := v.resolveType(d.Ty)
			e.vars[d.Name] = TV{outs[i], g}
		}
	}
	return e
}

func (v *Verifier) predFacts(st *St, p *PredDecl, ins, outs []*Term, fz bool) {
	if len(p.Facts)+len(p.Assume) == 0 {
		return
	}
	e := v.predEnv(p, ins, outs)
	for _, f := range p.Facts {
		v.usedPreds[p.Name] = true
		v.assumeT(st, v.evalB(f, e))
	}
	for _, f := range p.Assume {
		v.assume["memory bound stated by predicate "+p.Name+" ("+f.Pos+")"] = true
		v.assumeT(st, v.evalB(f, e))
	}
}

// caseGuard returns the guard of a case; env receives names bound by it.
func (v *Verifier) caseGuard(pc *PredCase, p *PredDecl, ins []*Term, e *Env) (*Term, *Env) {
	c := v.c
	if e == nil {
		e = v.predEnv(p, ins, nil)
	}
	g := c.True()
	if pc.Closure != "" {
		g = c.Eq(c.App("fnid", c.Int, ins[0]), v.fnID(pc.Closure))
		if v.fnConsts[ins[0]] != nil || v.closures[ins[0]] != nil {
			g = c.B(v.P.fname(v.fnOf(ins[0])) == pc.Closure)
		}
		fn := v.P.funcs[pc.Closure]
		if fn == nil {
			return c.False(), e
		}
		for _, fv := range fn.FreeVars {
			t := v.capture(ins[0], pc.Closure, fv.Name())
			e.vars[fv.Name()] = TV{t, fv.Type()}
		}
	}
	if pc.Type != "" {
		gt := v.goType(pc.Type)
		g = c.Eq(v.typeof(ins[0]), v.typeTag(gt))
		e.vars[pc.As] = TV{v.unbox(ins[0], gt), gt}
	}
	if pc.Guard != nil {
		g = c.And(g, v.evalB(pc.Guard, e))
	}
	return g, e
}

// capture is the cell bound to free variable name of closure f.
func (v *Verifier) capture(f *Term, fn, name string) *Term {
	if cl := v.closures[f]; cl != nil {
		for i, fv := range cl.fn.FreeVars {
			if fv.Name() == name {
				if t, ok := cl.bind[i].(*Term); ok {
					return t
				}
			}
		}
	}
	so := v.c.Ref
	if F := v.P.funcs[fn]; F != nil {
		for _, fv := range F.FreeVars {
			if fv.Name() == name {
				so = v.goSort(fv.Type())
			}
		}
	}
	cf := "cap_" + mangle(fn) + "_" + name
	v.c.Fun(cf, so, []*Sort{v.c.Fn})
	return v.c.App(cf, so, f)
}

func (v *Verifier) fnID(name string) *Term {
	id, ok := v.fnIDs[name]
	if !ok {
		id = len(v.fnIDs) + 1
		v.fnIDs[name] = id
	}
	return v.c.I(int64(id))
}

// unfold opens a predicate chunk of the heap.
func (v *Verifier) unfold(st *St, h *Chunk, k func(*St)) {
	st.remove(h)
	if v.open(h.Pred) {
		st.mem[v.memKey(h.Pred, h.Ins)] = h.Outs
	}
	m := pmode{frozen: h.Frozen, borrowed: h.Borrowed}
	v.overCases(st, h.Pred, h.Ins, h.Outs, func(st *St, pc *PredCase, e *Env) {
		v.opening[h.Pred]++
		v.produce(st, pc.Body, e, m, func(st *St, _ *Env) {
			v.opening[h.Pred]--
			k(st)
			v.opening[h.Pred]++
		})
		v.opening[h.Pred]--
	})
}

func (v *Verifier) overCases(st *St, p *PredDecl, ins, outs []*Term, f func(*St, *PredCase, *Env)) {
	type cand struct {
		pc *PredCase
		g  *Term
	}
	var cs []cand
	if len(p.Cases) == 0 {
		return
	}
	for _, pc := range p.Cases {
		g, _ := v.caseGuard(pc, p, ins, v.predEnv(p, ins, outs))
		if g.isFalse() {
			continue
		}
		cs = append(cs, cand{pc, g})
		if g.isTrue() || v.known(st, g) {
			cs = []cand{{pc, g}}
			break
		}
	}
	for i, x := range cs {
		var s2 *St
		if i == len(cs)-1 {
			s2 = st
		} else {
			if len(cs) > 1 && v.entails(st, v.c.Not(x.g)) {
				continue
			}
			s2 = st.clone()
		}
		v.assumeT(s2, x.g)
		if len(cs) > 1 && i > 0 && v.infeasible(s2) {
			continue
		}
		_, e := v.caseGuard(x.pc, p, ins, v.predEnv(p, ins, outs))
		f(s2, x.pc, e)
	}
}

func (v *Verifier) unfKey(st *St, p *PredDecl, ins []*Term) string {
	key := p.Name
	for _, i := range ins {
		key += fmt.Sprintf(" %d", i.id)
	}
	if v.isPm(st, p, ins) {
		key += "!"
	}
	return key
}

func (v *Verifier) isPm(st *St, p *PredDecl, ins []*Term) bool {
	g := v.pmPred(p, ins)
	if v.known(st, g) {
		return true
	}
	for q := st.pc; q != nil; q = q.parent {
		if q.t.Op == g.Op {
			return v.entails(st, g)
		}
	}
	return false
}

func (v *Verifier) unfoldFz(st *St, p *PredDecl, ins []*Term, k kont, e0 *Env) {
	key := v.unfKey(st, p, ins)
	if st.unf[key] {
		k(st, e0)
		return
	}
	st.unf[key] = true
	v.overCases(st, p, ins, v.fzOuts(p, ins), func(st *St, pc *PredCase, e *Env) {
		v.opening[p]++
		v.produce(st, pc.Body, e, pmode{fz: true, imm: v.isPm(st, p, ins)}, func(st *St, _ *Env) {
			v.opening[p]--
			if e0 != nil {
				k(st, e0.clone())
			} else {
				k(st, nil)
			}
			v.opening[p]++
		})
		v.opening[p]--
	})
}

// ---------------------------------------------------------------- access

// locate finds the current contents of a location, opening predicates when
// needed. The chunk is nil when the location is frozen (read only).
func (v *Verifier) locate(st *St, l loc, depth int, k func(*St, *Chunk, *Term), fail func(*St, string)) {
	if h := v.find(st, l.kind, l.key, l.ref); h != nil {
		k(st, h, h.Val)
		return
	}
	if l.kind == 'A' && v.entails(st, v.c.Eq(l.ref, v.c.Nil())) {
		k(st, nil, v.c.Fresh("nilarr", v.valSort(l)))
		return
	}
	fl := v.fzFlag(l)
	if v.known(st, fl) {
		k(st, nil, v.fzVal(l))
		return
	}
	if depth < 12 {
		if h := v.unfoldable(st, l); h != nil {
			v.unfold(st, h, func(st *St) { v.locate(st, l, depth+1, k, fail) })
			return
		}
		if l.kind == 'F' && v.focusFor(st, l.ref, func(p *PredDecl) bool { return v.rooted(p, 0, l, true) }) {
			v.locate(st, l, depth+1, k, fail)
			return
		}
		if l.kind == 'F' && v.focusSet(st, l.ref, nil, func(p *PredDecl) bool { return v.rooted(p, 0, l, true) }) {
			v.locate(st, l, depth+1, k, fail)
			return
		}
		if p, ins := v.unfoldableFz(st, l); p != nil {
			v.unfoldFz(st, p, ins, func(st *St, _ *Env) { v.locate(st, l, depth+1, k, fail) }, nil)
			return
		}
	}
	if v.entails(st, fl) {
		v.assumeT(st, fl)
		k(st, nil, v.fzVal(l))
		return
	}
	if v.infeasible(st) {
		return
	}
	fail(st, fmt.Sprintf("no permission for %s at %s", l.key, l.ref))
}

// unfoldable: a folded predicate in the heap whose root is (or contains) l.
func (v *Verifier) unfoldable(st *St, l loc) *Chunk {
	roots := []*Term{l.ref}
	for r := l.ref; strings.HasPrefix(r.Op, "fld_"); {
		r = r.Args[0]
		roots = append(roots, r)
	}
	if l.kind == 'A' && strings.HasSuffix(l.ref.Op, "mkSlice.base") {
		// contents of a slice held in a field: the owner is unknown
	}
	for pass := 0; pass < 2; pass++ {
		for _, h := range st.heap {
			if h.Kind != 'P' || len(h.Pred.Cases) == 0 || len(h.Ins) == 0 {
				continue
			}
			for _, r := range roots {
				for ii, in := range h.Ins {
					if in.Sort != v.c.Ref {
						continue
					}
					if !v.rooted(h.Pred, ii, l, r == l.ref) {
						continue
					}
					if pass == 0 {
						if in == r {
							return h
						}
						continue
					}
					if v.maybeEq(in, r) && v.entails(st, v.c.And(v.c.Eq(in, r), v.c.Not(v.c.Eq(r, v.c.Nil())))) {
						return h
					}
				}
			}
		}
	}
	// arrays and derived references may sit below any predicate: open those
	// whose definition mentions an array of that key directly
	if l.kind == 'A' {
		for _, h := range st.heap {
			if h.Kind == 'P' && v.mentionsArr(h.Pred, l.ref, st, h) {
				return h
			}
		}
	}
	return nil
}

// rooted: does predicate p directly own fields of struct type l.T at input ii?
func (v *Verifier) rooted(p *PredDecl, ii int, l loc, direct bool) bool {
	if l.kind == 'C' || l.kind == 'A' {
		return !direct || l.kind == 'A'
	}
	for _, pc := range p.Cases {
		if pc.Closure != "" || pc.Type != "" {
			continue
		}
		if v.ownsRoot(pc.Body, p.Ins[ii].Name, direct) {
			if !direct {
				return true
			}
			_, g := v.resolveType(p.Ins[ii].Ty)
			if g == nil {
				return false
			}
			if pt, ok := g.Underlying().(*types.Pointer); ok && types.Identical(structOwner(pt.Elem()), structOwner(l.T)) {
				return true
			}
		}
	}
	return false
}

func (v *Verifier) ownsRoot(n *Node, name string, direct bool) bool {
	switch n.K {
	case "sep", "ite":
		for _, a := range n.A {
			if v.ownsRoot(a, name, direct) {
				return true
			}
		}
	case "imm":
		return v.ownsRoot(n.A[0], name, direct)
	case "pto":
		b := n.A[0]
		for b.K == "fld" || b.K == "deref" {
			b = b.A[0]
		}
		return b.K == "id" && b.S == name
	case "call":
		// nested predicate on the same root (for example P(p) := Q(p) * ...)
		if p := v.sp.Preds[n.S]; p != nil || n.S == "array" {
			for _, a := range n.A {
				b := a
				for b.K == "fld" {
					b = b.A[0]
				}
				if b.K == "id" && b.S == name {
					return true
				}
			}
		}
	}
	return false
}

func (v *Verifier) mentionsArr(p *PredDecl, ref *Term, st *St, h *Chunk) bool {
	return false
}

func (v *Verifier) unfoldableFz(st *St, l loc) (*PredDecl, []*Term) {
	roots := []*Term{l.ref}
	for r := l.ref; strings.HasPrefix(r.Op, "fld_"); {
		r = r.Args[0]
		roots = append(roots, r)
	}
	for pass := 0; pass < 2; pass++ {
		for _, p := range v.sp.PredOrd {
			if len(p.Ins) > 1 && pass == 1 {
				// read-only facts already stated about one of the roots
				for q := st.pc; q != nil; q = q.parent {
					if q.t.Op != "fzp_"+p.Name {
						continue
					}
					for i, in := range q.t.Args {
						if in.Sort != v.c.Ref || st.unf[v.unfKey(st, p, q.t.Args)] {
							continue
						}
						for _, r := range roots {
							if v.rooted(p, i, l, r == l.ref) && (in == r || v.entails(st, v.c.Eq(in, r))) {
								return p, q.t.Args
							}
						}
					}
				}
			}
			if len(p.Ins) != 1 {
				continue
			}
			s, _ := v.resolveTypeSafe(p.Ins[0].Ty)
			if s == v.c.Val && l.kind == 'F' {
				for _, pc := range p.Cases {
					if pc.Type == "" || !strings.HasPrefix(pc.Type, "*") {
						continue
					}
					pt, ok := v.goTypeSafe(pc.Type).(*types.Pointer)
					if !ok {
						continue
					}
					for _, r := range roots {
						if r == l.ref && !types.Identical(structOwner(pt.Elem()), structOwner(l.T)) {
							continue
						}
						in := v.box(r, pt)
						if strings.HasPrefix(r.Op, "unbox_") && v.box(r, pt).Op == "box_"+strings.TrimPrefix(r.Op, "unbox_") && v.known(st, v.fzPred(p, []*Term{r.Args[0]})) {
							in = r.Args[0]
						}
						if st.unf[v.unfKey(st, p, []*Term{in})] {
							continue
						}
						g := v.fzPred(p, []*Term{in})
						if pass == 0 && v.known(st, g) || pass == 1 && v.entails(st, g) {
							return p, []*Term{in}
						}
					}
				}
			}
			if s != v.c.Ref {
				continue
			}
			for _, r := range roots {
				if !v.rooted(p, 0, l, r == l.ref) {
					continue
				}
				ins := []*Term{r}
				if st.unf[v.unfKey(st, p, ins)] {
					continue
				}
				g := v.fzPred(p, ins)
				if pass == 0 {
					if v.known(st, g) {
						return p, ins
					}
				} else if v.entails(st, g) {
					return p, ins
				}
			}
		}
	}
	return nil, nil
}

func (v *Verifier) goTypeSafe(t string) (g types.Type) {
	defer func() {
		if r := recover(); r != nil {
			g = nil
		}
	}()
	return v.goType(t)
}

func (v *Verifier) resolveTypeSafe(t string) (s *Sort, g types.Type) {
	defer func() {
		if r := recover(); r != nil {
			s = nil
		}
	}()
	return v.resolveType(t)
}

// ---------------------------------------------------------------- consume

type cmode struct {
	fz     bool // read-only check: nothing is removed
	imm    bool // read-only for good: owned parts are given up
	borrow bool
	post   bool
	lent   bool      // giving back what was lent
	name   string    // obligation name prefix
	lend   *lendInfo // closing a predicate only to read it
	own    *bool     // set when what was read is owned and may change
	hint   []*Term   // values of outputs that the definition leaves open
}

type lendInfo struct {
	frozen   int
	borrowed bool
}

func (v *Verifier) consumeAll(st *St, ns []*Node, e *Env, m cmode, k kont) {
	var step func(st *St, e *Env, i int)
	var cs []*Node
	for _, n := range ns {
		cs = append(cs, conjs(n)...)
	}
	step = func(st *St, e *Env, i int) {
		if i == len(cs) {
			k(st, e)
			return
		}
		m2 := m
		m2.name = fmt.Sprintf("%s.%d", m.name, i+1)
		v.consume(st, cs[i], e, m2, func(st *St, e *Env) { step(st, e, i+1) })
	}
	step(st, e, 0)
}

func (v *Verifier) consume(st *St, n *Node, e *Env, m cmode, k kont) {
	c := v.c
	switch n.K {
	case "sep":
		v.consume(st, n.A[0], e, m, func(st *St, e *Env) { v.consume(st, n.A[1], e, m, k) })
		return
	case "lent":
		m.lent = true
		v.consume(st, n.A[0], e, m, k)
		return
	case "ro":
		m.fz, m.imm, m.borrow = true, false, true
		v.consume(st, n.A[0], e, m, k)
		return
	case "imm":
		m.fz, m.imm = true, true
		v.consume(st, n.A[0], e, m, k)
		return
	case "ite":
		if v.spatial(n.A[1]) || v.spatial(n.A[2]) {
			v.fork(st, e, v.evalB(n.A[0], e),
				func(st *St, e *Env) { v.consume(st, n.A[1], e, m, k) },
				func(st *St, e *Env) { v.consume(st, n.A[2], e, m, k) })
			return
		}
	case "def":
		x := v.eval(n.A[0], e)
		if old, ok := e.vars[n.S]; ok && old.T != nil {
			if x.T == nil {
				x.T = v.nilOf(n, old.T.Sort)
			}
			v.prove(st, c.Eq(old.T, x.T), m.name, n.Pos)
		} else {
			e.vars[n.S] = x
		}
		k(st, e)
		return
	case "pto", "call":
		var l loc
		var pat *Node
		if n.K == "pto" {
			l = v.locOf(n.A[0], e)
			pat = n.A[1]
		} else if n.S == "slice" || n.S == "array" {
			l = v.arrLoc(n, e)
			pat = n.Outs[0]
		} else if n.S == "set" {
			v.consumeSet(st, n, e, m, k)
			return
		} else if n.S == "all" || n.S == "deq" {
			v.consumeRegion(st, n, e, m, k)
			return
		} else if r := v.sp.RuleBy[n.S]; r != nil {
			v.applyRule(st, n, r, e, m, k)
			return
		} else if n.S == "ind" || n.S == "indup" {
			v.induct(st, n, e, m)
			k(st, e)
			return
		} else if p := v.sp.Preds[n.S]; p != nil {
			v.consumePred(st, n, p, e, m, k)
			return
		} else {
			break
		}
		v.obl(m.name).Count++
		v.locate(st, l, 0, func(st *St, h *Chunk, val *Term) {
			if m.imm {
				if h != nil {
					if !v.canTake(h, m) {
						v.fail(st, m.name, fmt.Sprintf("%s: %s is not available for modification here (frozen by a loop or borrowed by an iterator)", n.Pos, h), "")
						return
					}
					st.remove(h)
					v.assumeT(st, v.fzFlag(l))
					v.assumeT(st, v.pmFlag(l))
					v.assumeT(st, c.Eq(v.fzVal(l), val))
				} else {
					v.prove(st, v.pmFlag(l), m.name, n.Pos)
				}
			}
			if m.fz && m.borrow && h != nil && !h.Borrowed {
				q := *h
				q.Borrowed = true
				st.replace(h, &q)
				v.assumeT(st, v.fzFlag(l))
				v.assumeT(st, c.Eq(v.fzVal(l), val))
			}
			if m.fz && h != nil && !h.Borrowed && !m.borrow && m.own != nil {
				*m.own = true
			}
			if !m.fz {
				if h == nil && !(l.kind == 'A' && v.entails(st, c.Eq(l.ref, c.Nil()))) {
					v.fail(st, m.name, fmt.Sprintf("%s: need write permission for %s at %s, which is read-only", n.Pos, l.key, l.ref), "")
					return
				}
				if h != nil {
					if !v.canTake(h, m) {
						v.fail(st, m.name, fmt.Sprintf("%s: %s is not available for modification here (frozen by a loop or borrowed by an iterator)", n.Pos, h), "")
						return
					}
					st.remove(h)
				}
			}
			var gt types.Type
			if l.kind != 'A' {
				gt = l.gt
			}
			v.assumeType(st, val, gt)
			e := e.clone()
			v.matchPat(st, pat, val, gt, e, m.name)
			k(st, e)
		}, func(st *St, why string) { v.fail(st, m.name, n.Pos+": "+why, "") })
		return
	}
	v.prove(st, v.evalB(n, e), m.name, n.Pos)
	k(st, e)
}

func (v *Verifier) canTake(h *Chunk, m cmode) bool {
	if m.lend != nil {
		if h.Frozen > m.lend.frozen {
			m.lend.frozen = h.Frozen
		}
		m.lend.borrowed = m.lend.borrowed || h.Borrowed
		return true
	}
	if h.Frozen != 0 {
		return false
	}
	if h.Borrowed && m.lent {
		return true
	}
	if h.Borrowed && !(m.post && v.postNoIter && !v.lent) {
		return false
	}
	return true
}

func (v *Verifier) matchPat(st *St, pat *Node, val *Term, gt types.Type, e *Env, name string) {
	switch {
	case pat.K == "bind":
		if old, ok := e.vars[pat.S]; ok && old.T != nil {
			v.prove(st, v.c.Eq(old.T, val), name, pat.Pos)
			return
		}
		e.vars[pat.S] = TV{val, gt}
	case pat.K == "id" && pat.S == "_":
	default:
		x := v.eval(pat, e)
		if x.T == nil {
			x.T = v.nilOf(pat, val.Sort)
		}
		if x.T.Sort != val.Sort && !(x.T.Sort.Kind == KInt && val.Sort.Kind == KInt) {
			v.serr(pat, "pattern sort %s, want %s", x.T.Sort.Name, val.Sort.Name)
		}
		v.prove(st, v.c.Eq(val, v.c.castTo(x.T, val.Sort)), name, pat.Pos)
	}
}

func (v *Verifier) consumePred(st *St, n *Node, p *PredDecl, e *Env, m cmode, k kont) {
	ins := v.predIns(n, p, e)
	v.obl(m.name).Count++
	m.hint = make([]*Term, len(p.Outs))
	if v.open(p) && len(n.Outs) == len(p.Outs) {
		for i, o := range n.Outs {
			s, _ := v.resolveType(p.Outs[i].Ty)
			if o.K == "bind" || o.K == "id" && o.S == "_" {
				if x, ok := e.vars[o.S]; ok && o.K == "bind" && x.T != nil {
					m.hint[i] = v.c.castTo(x.T, s)
				} else if old := st.mem[v.memKey(p, ins)]; old != nil {
					m.hint[i] = old[i]
				}
			} else if x := v.eval(o, e); x.T != nil {
				m.hint[i] = v.c.castTo(x.T, s)
			}
		}
	}
	fin := func(st *St, e *Env, outs []*Term) {
		e = e.clone() // reached once per case
		if len(n.Outs) != len(p.Outs) {
			v.serr(n, "predicate %s has %d outputs", p.Name, len(p.Outs))
		}
		for i, o := range n.Outs {
			_, g := v.resolveType(p.Outs[i].Ty)
			v.matchPat(st, o, outs[i], g, e, m.name)
		}
		k(st, e)
	}
	if m.fz && !m.imm && m.lend == nil && v.known(st, v.fzPred(p, ins)) {
		v.predFacts(st, p, ins, v.fzOuts(p, ins), true)
		fin(st, e, v.fzOuts(p, ins))
		return
	}
	if h := v.findPred(st, p, ins); h != nil {
		if m.imm {
			if !v.canTake(h, m) {
				v.fail(st, m.name, fmt.Sprintf("%s: %s is not available for modification here (frozen by a loop or borrowed by an iterator)", n.Pos, h), "")
				return
			}
			st.remove(h)
			v.makeImm(st, p, ins, h.Outs)
			fin(st, e, h.Outs)
			return
		}
		if m.fz {
			if m.borrow && !h.Borrowed {
				n := *h
				n.Borrowed = true
				st.replace(h, &n)
				v.assumeT(st, v.fzPred(p, ins))
				for i, o := range v.fzOuts(p, ins) {
					v.assumeT(st, v.c.Eq(o, h.Outs[i]))
				}
			}
			if !h.Borrowed && !m.borrow && m.own != nil {
				*m.own = true
			}
			fin(st, e, h.Outs)
			return
		}
		if !v.canTake(h, m) {
			v.fail(st, m.name, fmt.Sprintf("%s: %s is not available for modification here (frozen by a loop or borrowed by an iterator)", n.Pos, h), "")
			return
		}
		st.remove(h)
		fin(st, e, h.Outs)
		return
	}
	if v.tryRules(st, n, p, ins, e, m, func(st *St) { v.consumePred(st, n, p, e.clone(), m, k) }) {
		return
	}
	if len(ins) == 1 && (ins[0].Sort == v.c.Fn || ins[0].Sort == v.c.Ref && !v.ownsParts(st, p, ins)) && v.focusFor(st, ins[0], func(q *PredDecl) bool { return q == p }) {
		v.consumePred(st, n, p, e, m, k)
		return
	}
	if len(ins) > 0 && ins[0].Sort == v.c.Ref && !v.ownsParts(st, p, ins) && v.focusSet(st, ins[0], ins[1:], func(q *PredDecl) bool { return q == p }) {
		v.consumePred(st, n, p, e, m, k)
		return
	}
	if m.imm {
		if v.known(st, v.pmPred(p, ins)) || v.entails(st, v.pmPred(p, ins)) {
			v.predFacts(st, p, ins, v.fzOuts(p, ins), true)
			fin(st, e, v.fzOuts(p, ins))
			return
		}
		v.fold(st, n, p, ins, m, func(st *St, outs []*Term) {
			v.makeImm(st, p, ins, outs)
			fin(st, e, outs)
		})
		return
	}
	if m.fz {
		if v.known(st, v.fzPred(p, ins)) || v.entails(st, v.fzPred(p, ins)) {
			v.predFacts(st, p, ins, v.fzOuts(p, ins), true)
			fin(st, e, v.fzOuts(p, ins))
			return
		}
		if len(p.Ins) > 0 && v.ownsParts(st, p, ins) {
			// owned but currently open: close it again, then lend it
			m2 := m
			m2.fz = false
			m2.lend = &lendInfo{}
			v.fold(st, n, p, ins, m2, func(st *St, outs []*Term) {
				h := &Chunk{Kind: 'P', Key: p.Name, Pred: p, Ins: ins, Outs: outs, Borrowed: m.borrow || m2.lend.borrowed, Frozen: m2.lend.frozen}
				st.heap = append(st.heap, h)
				v.predFacts(st, p, ins, outs, false)
				if !h.Borrowed && m.own != nil {
					*m.own = true
				}
				fin(st, e, outs)
			})
			return
		}
		m2 := m
		own := false
		m2.own = &own
		v.fold(st, n, p, ins, m2, func(st *St, outs []*Term) {
			if own {
				// read from what is owned and may change later
				if m.own != nil {
					*m.own = true
				}
				fin(st, e, outs)
				return
			}
			v.assumeT(st, v.fzPred(p, ins))
			fo := v.fzOuts(p, ins)
			for i := range outs {
				v.assumeT(st, v.c.Eq(fo[i], outs[i]))
			}
			fin(st, e, outs)
		})
		return
	}
	v.fold(st, n, p, ins, m, func(st *St, outs []*Term) { fin(st, e, outs) })
}

func (v *Verifier) makeImm(st *St, p *PredDecl, ins, outs []*Term) {
	v.assumeT(st, v.pmPred(p, ins))
	v.assumeT(st, v.fzPred(p, ins))
	for i, o := range v.fzOuts(p, ins) {
		v.assumeT(st, v.c.Eq(o, outs[i]))
	}
	v.predFacts(st, p, ins, outs, true)
}

// ownsParts: some part of predicate p at ins is present in the heap as a chunk.
func (v *Verifier) ownsParts(st *St, p *PredDecl, ins []*Term) bool {
	for _, pc := range p.Cases {
		e := v.predEnv(p, ins, nil)
		if !v.overOuts(pc, p) {
			var g *Term
			if g, e = v.caseGuard(pc, p, ins, nil); g.isFalse() {
				continue
			}
		}
		for _, n := range conjs(pc.Body) {
			switch {
			case n.K == "pto":
				ok := func() (r bool) {
					defer func() {
						if x := recover(); x != nil {
							r = false
						}
					}()
					l := v.locOf(n.A[0], e)
					return v.find(st, l.kind, l.key, l.ref) != nil
				}()
				if ok {
					return true
				}
			case n.K == "call" && v.sp.Preds[n.S] != nil:
				ok := func() (r bool) {
					defer func() {
						if x := recover(); x != nil {
							r = false
						}
					}()
					q := v.sp.Preds[n.S]
					qi := v.predIns(n, q, e)
					return v.findPred(st, q, qi) != nil || v.ownsParts(st, q, qi)
				}()
				if ok {
					return true
				}
			}
		}
	}
	return false
}

// defines: the body determines the variable.
func defines(n *Node, name string) bool {
	if (n.K == "def" || n.K == "bind") && n.S == name {
		return true
	}
	for _, a := range n.A {
		if defines(a, name) {
			return true
		}
	}
	for _, a := range n.Outs {
		if defines(a, name) {
			return true
		}
	}
	return false
}

func mentions(n *Node, name string) bool {
	if n == nil {
		return false
	}
	if n.K == "id" && n.S == name {
		return true
	}
	for _, a := range n.A {
		if mentions(a, name) {
			return true
		}
	}
	return false
}

// overOuts: the guard of the case is over an output.
func (v *Verifier) overOuts(pc *PredCase, p *PredDecl) bool {
	if pc.Guard == nil || pc.Closure != "" || pc.Type != "" {
		return false
	}
	for _, o := range p.Outs {
		if mentions(pc.Guard, o.Name) {
			return true
		}
	}
	return false
}

// open: some case of p leaves an output undetermined; whoever closes the
// predicate chooses it.
func (v *Verifier) open(p *PredDecl) bool {
	if r, ok := v.openPred[p]; ok {
		return r
	}
	r := false
	for _, pc := range p.Cases {
		if pc.Type != "" {
			continue
		}
		for _, o := range p.Outs {
			if !defines(pc.Body, o.Name) {
				r = true
			}
		}
	}
	v.openPred[p] = r
	return r
}

func (v *Verifier) memKey(p *PredDecl, ins []*Term) string {
	k := p.Name
	for _, x := range ins {
		k += fmt.Sprintf(" %d", x.id)
	}
	return k
}

// fold establishes the body of p at ins and hands the outputs to k.
func (v *Verifier) fold(st *St, n *Node, p *PredDecl, ins []*Term, m cmode, k func(*St, []*Term)) {
	if len(p.Cases) == 0 {
		if v.infeasible(st) {
			return
		}
		v.fail(st, m.name, fmt.Sprintf("%s: %s(%v) is not available", n.Pos, p.Name, ins), "")
		return
	}
	type cand struct {
		pc *PredCase
		g  *Term
	}
	var cs []cand
	for _, pc := range p.Cases {
		var he *Env
		if v.overOuts(pc, p) {
			he = v.predEnv(p, ins, nil)
			for i, o := range p.Outs {
				if m.fz || i >= len(m.hint) || m.hint[i] == nil {
					if mentions(pc.Guard, o.Name) {
						if !v.infeasible(st) {
							v.fail(st, m.name, fmt.Sprintf("%s: %s(%v): %s is not known", n.Pos, p.Name, ins, o.Name), "")
						}
						return
					}
					continue
				}
				he.vars[o.Name] = TV{T: m.hint[i]}
			}
		}
		g, _ := v.caseGuard(pc, p, ins, he)
		if g.isFalse() {
			continue
		}
		if g.isTrue() || v.entails(st, g) {
			cs = []cand{{pc, g}}
			break
		}
		cs = append(cs, cand{pc, g})
	}
	if v.infeasible(st) {
		return
	}
	var all []*Term
	for _, x := range cs {
		all = append(all, x.g)
	}
	if len(cs) != 1 || !v.entails(st, cs[0].g) {
		if len(cs) == 0 || !v.entails(st, v.c.Or(all...)) {
			v.fail(st, m.name, fmt.Sprintf("%s: %s(%v) is not available and cannot be established", n.Pos, p.Name, ins), "")
			return
		}
	}
	for i, x := range cs {
		s2 := st
		if i < len(cs)-1 {
			s2 = st.clone()
		}
		v.assumeT(s2, x.g)
		if len(cs) > 1 && v.infeasible(s2) {
			continue
		}
		if m.fz && !m.imm && len(cs) > 1 && v.entails(s2, v.fzPred(p, ins)) {
			k(s2, v.fzOuts(p, ins))
			continue
		}
		if v.folding > 8 {
			v.fail(s2, m.name, fmt.Sprintf("%s: %s(%v) cannot be established", n.Pos, p.Name, ins), "")
			continue
		}
		e := v.predEnv(p, ins, nil)
		m := m
		if v.open(p) {
			for i, o := range p.Outs {
				if !m.fz && !defines(x.pc.Body, o.Name) && i < len(m.hint) && m.hint[i] != nil {
					_, g := v.resolveType(o.Ty)
					e.vars[o.Name] = TV{m.hint[i], g}
				}
			}
		}
		_, e = v.caseGuard(x.pc, p, ins, e)
		m.hint = nil
		if x.pc.Closure != "" {
			v.used[x.pc.Closure] = true
		}
		if x.pc.Type != "" {
			v.usedTypes[x.pc.Type] = true
		}
		depth := v.folding
		v.folding = depth + 1
		v.consume(s2, x.pc.Body, e, m, func(st *St, e *Env) {
			v.folding = depth
			defer func() { v.folding = depth + 1 }()
			var outs []*Term
			for _, o := range p.Outs {
				x, ok := e.vars[o.Name]
				if !ok || x.T == nil {
					v.serr(n, "output %s of %s not determined by its definition", o.Name, p.Name)
				}
				s, _ := v.resolveType(o.Ty)
				outs = append(outs, v.c.castTo(x.T, s))
			}
			if len(p.Facts) > 0 {
				fe := v.predEnv(p, ins, outs)
				for _, f := range p.Facts {
					v.assumeT(st, v.evalB(f, fe))
				}
			}
			k(st, outs)
		})
		v.folding = depth
	}
}
