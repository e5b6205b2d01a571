package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/timtadh/data-structures"

// Program is the code under verification, loaded from the working tree.
type Program struct {
	cellField map[string]bool // fields whose addresses are stored
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by short name
	tpkgs     map[string]*types.Package
	funcs     map[string]*ssa.Function
	all       map[*types.Package]bool // repo packages
	fnameC    map[*ssa.Function]string
	inits     map[*types.Package]*ssa.Function
	files     []string
	mu        sync.Mutex
	closures  map[string][]*ssa.Function
}

func LoadProgram(dir string, env []string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, spk := ssautil.Packages(pkgs, ssa.NaiveForm)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, all: map[*types.Package]bool{}, fnameC: map[*ssa.Function]string{}, closures: map[string][]*ssa.Function{}, cellField: map[string]bool{}}
	for i, p := range spk {
		if p == nil {
			continue
		}
		P.pkgs[p.Pkg.Name()] = p
		P.all[p.Pkg] = true
		P.files = append(P.files, pkgs[i].GoFiles...)
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil && !P.all[P.tpkgs[shortPkg(p.Types)]] {
			P.tpkgs[shortPkg(p.Types)] = p.Types
		}
	})
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && P.all[f.Pkg.Pkg] && f.Synthetic == "" {
			P.funcs[P.fname(f)] = f
			P.markCells(f)
			// method values are closures of synthetic functions
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if g := mc.Fn.(*ssa.Function); g.Synthetic != "" {
							P.funcs[P.fname(g)] = g
						}
					}
				}
			}
		}
	}
	return P, nil
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	if strings.HasPrefix(p.Path(), repoPath) {
		return p.Name()
	}
	switch p.Path() {
	case "errors", "math/rand", "hash", "container/heap", "container/list", "go/types", "internal/types/errors":
		return "std" + p.Name()
	}
	if p.Name() == "rand" {
		return strings.ReplaceAll(p.Path(), "/", "_")
	}
	return p.Name()
}

func (P *Program) fname(f *ssa.Function) string {
	P.mu.Lock()
	defer P.mu.Unlock()
	if n, ok := P.fnameC[f]; ok {
		return n
	}
	top := f
	for top.Parent() != nil {
		top = top.Parent()
	}
	var pk *types.Package
	if top.Pkg != nil {
		pk = top.Pkg.Pkg
	} else if top.Object() != nil {
		pk = top.Object().Pkg()
	}
	n := shortPkg(pk)
	var rt types.Type
	if r := top.Signature.Recv(); r != nil {
		rt = r.Type()
	} else if strings.HasSuffix(f.Name(), "$bound") && len(f.FreeVars) == 1 {
		rt = f.FreeVars[0].Type()
	}
	if rt != nil {
		t := rt
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if nt, ok := t.(*types.Named); ok {
			n += ".(" + star + nt.Obj().Name() + ")"
		}
	}
	n += "." + f.Name()
	P.fnameC[f] = n
	return n
}

// ---------------------------------------------------------------- sorts of Go types

func typeKey(t types.Type) string {
	if sg, ok := types.Unalias(t).(*types.Signature); ok {
		// parameter names are not part of the type
		strip := func(tu *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < tu.Len(); i++ {
				vs = append(vs, types.NewParam(0, nil, "", tu.At(i).Type()))
			}
			return types.NewTuple(vs...)
		}
		t = types.NewSignatureType(nil, nil, nil, strip(sg.Params()), strip(sg.Results()), sg.Variadic())
	}
	return mangle(types.TypeString(t, func(p *types.Package) string { return shortPkg(p) }))
}

func (v *Verifier) isRepo(p *types.Package) bool { return p != nil && v.P.all[p] }

func (v *Verifier) goSort(t types.Type) *Sort {
	c := v.c
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok {
			return v.structSort(n, st)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool
		case u.Info()&types.IsInteger != 0:
			return c.Int
		case u.Info()&types.IsString != 0:
			return c.Str
		case u.Info()&types.IsFloat != 0:
			return c.Opaque("Float")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return c.Ref
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return c.Ref
	case *types.Signature:
		return c.Fn
	case *types.Slice:
		return c.Slice
	case *types.Interface:
		return c.Val
	case *types.Array:
		return c.Array(c.Int, v.goSort(u.Elem()))
	case *types.Struct:
		return v.structSort(t, u)
	}
	return c.Opaque("T_" + typeKey(t))
}

func (v *Verifier) structSort(t types.Type, st *types.Struct) *Sort {
	name := "S_" + typeKey(t)
	if s, ok := v.c.sorts[name]; ok {
		return s
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && !v.isRepo(n.Obj().Pkg()) {
		return v.c.Opaque(name)
	}
	var fs []DField
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, DField{st.Field(i).Name(), v.goSort(st.Field(i).Type())})
	}
	return v.c.Data(name, []*Ctor{{Name: "mk_" + name, Fields: fs}})
}

// isFlat reports whether t is a struct of the repository (kept field by field).
func (v *Verifier) asStruct(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && !v.isRepo(n.Obj().Pkg()) {
		return nil
	}
	return st
}

// embedded: a field of type t is an object of its own, with its own address.
// embeddedField: field i of struct type T is kept as an object (or cell) of its
// own, because it is one or because its address is stored somewhere.
func (v *Verifier) embeddedField(T types.Type, i int) bool {
	ft := T.Underlying().(*types.Struct).Field(i).Type()
	return v.embedded(ft) || v.P.cellField[fieldKey(T, i)]
}

// markCells notes the fields whose addresses the code stores.
func (P *Program) markCells(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.FieldAddr)
			if !ok || x.Referrers() == nil {
				continue
			}
			T := x.X.Type().Underlying().(*types.Pointer).Elem()
			n, ok := types.Unalias(T).(*types.Named)
			if !ok || !P.all[n.Obj().Pkg()] {
				continue
			}
			switch x.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				continue
			}
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == x {
					P.cellField[fieldKey(T, x.Field)] = true
				}
			}
		}
	}
}

func (v *Verifier) embedded(t types.Type) bool {
	_, foreign := t.Underlying().(*types.Struct)
	return v.asStruct(t) != nil || asArray(t) != nil || foreign
}

func asArray(t types.Type) *types.Array {
	a, _ := t.Underlying().(*types.Array)
	return a
}

func (v *Verifier) zero(t types.Type) *Term {
	return v.zeroSort(v.goSort(t), t)
}

func (v *Verifier) zeroSort(s *Sort, t types.Type) *Term {
	c := v.c
	switch s {
	case c.Bool:
		return c.False()
	case c.Int:
		return c.I(0)
	case c.Ref:
		return c.Nil()
	case c.Fn:
		return c.FNil()
	case c.Val:
		return c.VNil()
	case c.Slice:
		return c.NilSlice()
	case c.Str:
		return c.mk("empty_"+c.Str.Name, c.Str)
	}
	switch s.Kind {
	case KArray:
		return c.ConstArr(s, v.zero(t.Underlying().(*types.Array).Elem()))
	case KData:
		st := t.Underlying().(*types.Struct)
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, v.zero(st.Field(i).Type()))
		}
		return c.Con(s.Ctor[0].Name, as...)
	}
	return c.Const("zero_"+mangle(s.Name), s)
}

func intBounds(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := 64
	signed := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func (v *Verifier) inRange(t *Term, gt types.Type) *Term {
	lo, hi, ok := intBounds(gt)
	if !ok {
		return v.c.True()
	}
	return v.c.And(v.c.Le(v.c.BigI(lo.String()), t), v.c.Le(t, v.c.BigI(hi.String())))
}

// typeInv is what holds of any value of Go type gt.
func (v *Verifier) typeInv(t *Term, gt types.Type) *Term {
	c := v.c
	switch u := gt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			if _, ok := t.isInt(); ok {
				return c.True()
			}
			return v.inRange(t, gt)
		}
		if u.Info()&types.IsString != 0 {
			return c.Le(c.Len(t), c.BigI(maxLen))
		}
	case *types.Slice:
		b, o, l, k := c.SliceF(0, t), c.SliceF(1, t), c.SliceF(2, t), c.SliceF(3, t)
		return c.And(c.Le(c.I(0), o), c.Le(c.I(0), l), c.Le(l, k), c.Le(k, c.BigI(maxLen)), c.Le(o, c.BigI(maxLen)), c.Imp(c.Eq(b, c.Nil()), c.And(c.Eq(k, c.I(0)), c.Eq(o, c.I(0)))))
	case *types.Interface:
		// dynamic type must implement the static interface
	}
	return c.True()
}

const maxLen = "281474976710656"

// resolveType resolves a specification type.
func (v *Verifier) resolveType(ty string) (*Sort, types.Type) {
	c := v.c
	if strings.HasPrefix(ty, "*") || strings.HasPrefix(ty, "[]") || strings.Contains(ty, ".") && !strings.Contains(ty, "<") {
		g := v.goType(ty)
		return v.goSort(g), g
	}
	switch ty {
	case "Int":
		return c.Int, nil
	case "Bool":
		return c.Bool, nil
	case "Ref":
		return c.Ref, nil
	case "Fn":
		return c.Fn, nil
	case "Val":
		return c.Val, nil
	case "Str":
		return c.Str, nil
	case "Slice":
		return c.Slice, nil
	case "Map":
		o, _ := v.resolveType("Opt")
		return c.Array(c.Int, o), nil
	case "string", "int", "bool", "uint8", "byte", "uint", "int64":
		g := types.Universe.Lookup(ty).Type()
		return v.goSort(g), g
	}
	if i := strings.Index(ty, "<"); i > 0 {
		args := splitArgs(ty[i+1 : len(ty)-1])
		switch ty[:i] {
		case "Seq":
			e, _ := v.resolveType(args[0])
			return c.Seq(e), nil
		case "Array":
			k, _ := v.resolveType(args[0])
			e, _ := v.resolveType(args[1])
			return c.Array(k, e), nil
		case "Set":
			k, _ := v.resolveType(args[0])
			return c.Array(k, c.Bool), nil
		}
	}
	if s, ok := c.sorts[ty]; ok {
		return s, nil
	}
	if d := v.dataDecl(ty); d != nil {
		v.declareData(d)
		return c.sorts[ty], nil
	}
	panic("unknown type " + ty)
}

func splitArgs(s string) []string {
	var out []string
	d, st := 0, 0
	for i, ch := range s {
		switch ch {
		case '<':
			d++
		case '>':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func (v *Verifier) dataDecl(n string) *DataDecl {
	for _, d := range v.sp.Datas {
		if d.Name == n {
			return d
		}
	}
	return nil
}

func (v *Verifier) declareData(d *DataDecl) {
	// mutually recursive groups are not supported: only self recursion
	s := v.c.PreData(d.Name)
	var cs []*Ctor
	for _, ct := range d.Ctors {
		k := &Ctor{Name: ct.Name}
		for _, f := range ct.Fields {
			fs, _ := v.resolveType(f.Ty)
			k.Fields = append(k.Fields, DField{f.Name, fs})
		}
		cs = append(cs, k)
	}
	v.c.FinishData([]*Sort{s}, [][]*Ctor{cs})
}

func (v *Verifier) goType(ty string) types.Type {
	if strings.HasPrefix(ty, "*") {
		return types.NewPointer(v.goType(ty[1:]))
	}
	if strings.HasPrefix(ty, "[]") {
		return types.NewSlice(v.goType(ty[2:]))
	}
	i := strings.Index(ty, ".")
	if i < 0 {
		if o := types.Universe.Lookup(ty); o != nil {
			return o.Type()
		}
		panic("unknown Go type " + ty)
	}
	p := v.P.tpkgs[ty[:i]]
	if p == nil {
		panic("unknown package in type " + ty)
	}
	o := lookupType(p.Scope(), ty[i+1:])
	if o == nil {
		panic(missing("type " + ty))
	}
	return o.Type()
}

// lookupType finds a type of the package, or else one declared in a function.
func lookupType(s *types.Scope, name string) types.Object {
	if o, ok := s.Lookup(name).(*types.TypeName); ok {
		return o
	}
	for i := 0; i < s.NumChildren(); i++ {
		if o := lookupType(s.Child(i), name); o != nil {
			return o
		}
	}
	return nil
}

// missing marks a specification reference to something the code no longer has.
type missing string

// tag of a dynamic type
func (v *Verifier) typeTag(t types.Type) *Term {
	return v.c.I(int64(v.tagOf(t)))
}

func (v *Verifier) tagOf(t types.Type) int {
	k := typeKey(t)
	if n, ok := v.tags[k]; ok {
		return n
	}
	n := len(v.tags) + 1
	v.tags[k] = n
	v.tagTypes = append(v.tagTypes, t)
	// box/unbox
	s := v.goSort(t)
	c := v.c
	b, u := "box_"+k, "unbox_"+k
	c.Fun(b, c.Val, []*Sort{s})
	c.Fun(u, s, []*Sort{c.Val})
	c.globals = append(c.globals,
		fmt.Sprintf("(forall ((x %s)) (! (and (= (%s (%s x)) x) (= (typeof (%s x)) %d)) :pattern ((%s x))))", s.Name, u, b, b, n, b),
		fmt.Sprintf("(forall ((v Val)) (! (=> (= (typeof v) %d) (= (%s (%s v)) v)) :pattern ((%s v))))", n, b, u, u))
	for name, it := range v.implFns {
		v.implAxiom(name, it, t, n)
	}
	if v.nilin {
		v.nilinAxiom(t, n)
	}
	return n
}

// nilin(v): the interface value v holds a nil pointer, map, slice, ...;
// rkind(tag): the reflect.Kind of a dynamic type.
func (v *Verifier) nilinFun() {
	if v.nilin {
		return
	}
	v.nilin = true
	v.c.Fun("nilin", v.c.Bool, []*Sort{v.c.Val})
	v.c.Fun("rkind", v.c.Int, []*Sort{v.c.Int})
	for i, t := range v.tagTypes {
		v.nilinAxiom(t, i+1)
	}
}

func (v *Verifier) nilinAxiom(t types.Type, tag int) {
	b := "box_" + typeKey(t)
	s := v.goSort(t)
	kind, nl := 0, "false"
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		kind, nl = 22, "(= x 0)"
	case *types.Map:
		kind, nl = 21, "(= x 0)"
	case *types.Chan:
		kind, nl = 18, "(= x 0)"
	case *types.Signature:
		kind, nl = 19, "(= x 0)"
	case *types.Slice:
		kind, nl = 23, "(= (mkSlice.base x) 0)"
	case *types.Struct:
		kind = 25
	case *types.Array:
		kind = 17
	case *types.Basic:
		if u.Kind() >= types.Bool && u.Kind() <= types.Complex128 {
			kind = int(u.Kind()) // the two enumerations agree here
		} else if u.Kind() == types.String {
			kind = 24
		}
	}
	if kind == 0 || s.Name == "" {
		return
	}
	v.c.globals = append(v.c.globals, fmt.Sprintf("(= (rkind %d) %d)", tag, kind),
		fmt.Sprintf("(forall ((x %s)) (! (= (nilin (%s x)) %s) :pattern ((%s x))))", s.Name, b, nl, b))
}

func (v *Verifier) implAxiom(fn string, it *types.Interface, t types.Type, tag int) {
	r := types.Implements(t, it)
	v.c.globals = append(v.c.globals, fmt.Sprintf("(= (%s %d) %v)", fn, tag, r))
}

// implements: does the dynamic type of value x implement interface it?
func (v *Verifier) implementsT(x *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return v.c.Not(v.c.Eq(x, v.c.VNil()))
	}
	fn := "implements_" + typeKey(t)
	if _, ok := v.implFns[fn]; !ok {
		v.implFns[fn] = it
		v.c.Fun(fn, v.c.Bool, []*Sort{v.c.Int})
		v.c.globals = append(v.c.globals, fmt.Sprintf("(= (%s 0) false)", fn))
		for i, tt := range v.tagTypes {
			v.implAxiom(fn, it, tt, i+1)
		}
	}
	return v.c.App(fn, v.c.Bool, v.typeof(x))
}

func (v *Verifier) typeof(x *Term) *Term {
	if strings.HasPrefix(x.Op, "box_") {
		return v.c.I(int64(v.tags[x.Op[4:]]))
	}
	if x.Op == "vnil" {
		return v.c.I(0)
	}
	return v.c.App("typeof", v.c.Int, x)
}

func (v *Verifier) box(x *Term, t types.Type) *Term {
	v.tagOf(t)
	return v.c.App("box_"+typeKey(t), v.c.Val, x)
}

func (v *Verifier) unbox(x *Term, t types.Type) *Term {
	v.tagOf(t)
	k := typeKey(t)
	if x.Op == "box_"+k {
		return x.Args[0]
	}
	return v.c.App("unbox_"+k, v.goSort(t), x)
}

// derived reference of an inlined (by value) struct or array field
func (v *Verifier) fieldRef(ref *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	name := "fld_" + typeKey(structOwner(t)) + "_" + st.Field(i).Name()
	c := v.c
	if !c.funs[name] {
		c.Fun(name, c.Ref, []*Sort{c.Ref})
		c.Fun(name+"_inv", c.Ref, []*Sort{c.Ref})
		v.nfld++
		c.Fun("fldkind", c.Int, []*Sort{c.Ref})
		c.globals = append(c.globals, fmt.Sprintf("(forall ((r Ref)) (! (and (= (%s_inv (%s r)) r) (=> (not (= r 0)) (= (fldkind (%s r)) %d)) (= (= (%s r) 0) (= r 0))) :pattern ((%s r))))", name, name, name, v.nfld, name, name))
	}
	return c.App(name, c.Ref, ref)
}
