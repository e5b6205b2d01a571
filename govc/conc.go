package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Threads, channels and locks. Starting a goroutine gives the new thread what
// the contract of its function requires; operations on channels have contracts
// <package>.chan.make, .send, .recv and .close; locks are externs whose
// contracts hand their invariants over.

// foreignField is a field of an object of a struct type from outside the
// repository; such fields are never assigned here, so they are constant.
func (v *Verifier) foreignField(ref *Term, T types.Type, i int) *Term {
	f := T.Underlying().(*types.Struct).Field(i)
	name := "ffld_" + typeKey(T) + "_" + f.Name()
	s := v.goSort(f.Type())
	if !v.c.funs[name] {
		v.c.Fun(name, s, []*Sort{v.c.Ref})
	}
	v.assume["the field "+f.Name()+" of "+T.String()+" is not changed after it was set up"] = true
	return v.c.App(name, s, ref)
}

func (v *Verifier) goStmt(st *St, x *ssa.Go, k func(*St)) {
	cc := &x.Call
	fn := cc.StaticCallee()
	if fn == nil {
		panic(unsup("go with a dynamic callee"))
	}
	args := v.callArgs(st, cc)
	ct := v.sp.Conts[v.P.fname(fn)]
	if ct == nil || len(ct.Reads)+len(ct.Borrows) > 0 {
		panic(unsup("go " + v.P.fname(fn) + " without a contract that owns all it needs"))
	}
	v.used[ct.Name] = true
	e := NewEnv(nil)
	if len(ct.Params) > len(args) {
		panic(specErr{ct.Pos + ": contract " + ct.Name + " has more parameters than the code"})
	}
	for i, p := range ct.Params {
		if t, ok := args[i].(*Term); ok {
			e.vars[p] = TV{t, cc.Args[i].Type()}
		}
	}
	here := v.cur
	v.consumeAll(st, ct.Req, e, cmode{name: "go(" + ct.Name + ").requires"}, func(st *St, _ *Env) {
		v.cur = here
		k(st)
	})
}

func (v *Verifier) chanOp(st *St, op string, args []Value, ats, rts []types.Type, k func(*St, []Value)) {
	pkg := ""
	if p := st.top().fn.Pkg; p != nil {
		pkg = shortPkg(p.Pkg)
	}
	name := pkg + ".chan." + op
	ct := v.sp.Conts[name]
	if ct == nil {
		panic(unsup("no contract for channel operation " + name))
	}
	if op == "make" {
		ats = []types.Type{types.Typ[types.Int]}
	}
	v.assume["channel operation "+name+" meets its contract"] = true
	var vars []*types.Var
	for _, t := range rts {
		vars = append(vars, types.NewVar(0, nil, "", t))
	}
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(vars...), false)
	v.apply(st, ct, name, nil, args, ats, sig, k)
}

// selectStmt: every case that can proceed is explored, and the default.
func (v *Verifier) selectStmt(st *St, x *ssa.Select, k func(*St, Value)) {
	var recvs []types.Type
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			recvs = append(recvs, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	result := func(st *St, ix int, ok Value, at int, val Value) Tuple {
		t := Tuple{v.c.I(int64(ix)), ok}
		for i, r := range recvs {
			if i == at {
				t = append(t, val)
			} else {
				t = append(t, v.zero(r))
			}
		}
		return t
	}
	nr := 0
	for i, s := range x.States {
		i, s := i, s
		s2 := st
		if i < len(x.States)-1 || !x.Blocking {
			s2 = st.clone()
		}
		ch := v.term(s2, s.Chan)
		if s.Dir == types.SendOnly {
			v.chanOp(s2, "send", []Value{ch, v.val(s2, s.Send)}, []types.Type{s.Chan.Type(), s.Send.Type()}, nil, func(st *St, _ []Value) {
				k(st, result(st, i, v.c.False(), -1, nil))
			})
			continue
		}
		at := nr
		nr++
		et := recvs[at]
		v.chanOp(s2, "recv", []Value{ch}, []types.Type{s.Chan.Type()}, []types.Type{et, types.Typ[types.Bool]}, func(st *St, rs []Value) {
			k(st, result(st, i, rs[1], at, rs[0]))
		})
	}
	if !x.Blocking {
		k(st, result(st, -1, v.c.False(), -1, nil))
	}
}
