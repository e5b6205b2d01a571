package main

import "fmt"

// RuleDecl is a lemma about assertions: from requires (consumed) or reads
// (only read) it establishes ensures. It is proved by induction on its first
// assertion, a predicate whose definition is finite: the hypothesis is
// available for the occurrences of the predicate inside its definition.
type RuleDecl struct {
	Name   string
	Params []VarDecl
	Req    []*Node
	Reads  []*Node
	Ens    []*Node
	Uses   []string
	Hints  []*Node
	Pos    string
	Axiom  bool // stands for the meaning of its (abstract) predicates
}

// heap rules are tried when a predicate that they establish is needed.
func (v *Verifier) tryRules(st *St, n *Node, p *PredDecl, ins []*Term, e0 *Env, m cmode, retry func(*St)) bool {
	if m.fz && m.lend == nil {
		return false
	}
	for _, r := range v.sp.Rules {
		if len(r.Req) == 0 || v.noRule[r.Name] {
			continue
		}
		goal := conjs(r.Ens[0])[0]
		if goal.K != "call" || goal.S != p.Name {
			continue
		}
		head := conjs(r.Req[0])[0]
		hp := v.sp.Preds[head.S]
		bound := map[string]*Term{}
		ok := true
		for i, a := range goal.A {
			if a.K != "id" {
				ok = false
				break
			}
			bound[a.S] = ins[i]
		}
		for i, a := range goal.Outs {
			// a step may leave outputs to whoever takes it
			if !r.Axiom || a.K != "id" || len(n.Outs) != len(goal.Outs) {
				continue
			}
			o := n.Outs[i]
			if o.K == "id" && o.S == "_" {
				continue
			}
			if o.K == "bind" {
				if x, ok := e0.vars[o.S]; ok && x.T != nil {
					bound[a.S] = x.T
				}
				continue
			}
			if x := v.eval(o, e0); x.T != nil {
				s, _ := v.resolveType(p.Outs[i].Ty)
				bound[a.S] = v.c.castTo(x.T, s)
			}
		}
		if !ok {
			continue
		}
		for _, h := range st.heap {
			if h.Kind != 'P' || h.Pred != hp || !v.canTake(h, cmode{}) {
				continue
			}
			full := map[string]*Term{}
			for k, x := range bound {
				full[k] = x
			}
			var eqs []*Term
			match := true
			for i, a := range head.A {
				if a.K != "id" {
					match = false
					break
				}
				if x := full[a.S]; x != nil {
					if x != h.Ins[i] {
						if x.Sort == v.c.Ref && !v.maybeEq(x, h.Ins[i]) {
							match = false
							break
						}
						eqs = append(eqs, v.c.Eq(x, h.Ins[i]))
					}
				} else {
					full[a.S] = h.Ins[i]
				}
			}
			if !match || !v.entails(st, v.c.And(eqs...)) {
				continue
			}
			e := NewEnv(nil)
			for _, d := range r.Params {
				_, g := v.resolveType(d.Ty)
				if full[d.Name] == nil {
					v.serr(n, "rule %s: parameter %s is not determined", r.Name, d.Name)
				}
				e.vars[d.Name] = TV{full[d.Name], g}
			}
			v.usedRules[r.Name] = true
			if r.Axiom {
				v.assume["the step "+r.Name+" of the concurrency logic ("+r.Pos+")"] = true
			}
			v.consumeAll(st, r.Req, e, cmode{name: m.name, lend: m.lend}, func(st *St, e *Env) {
				v.produceAll(st, r.Ens, e, pmode{}, func(st *St, _ *Env) { retry(st) })
			})
			return true
		}
	}
	return false
}

// applyRule performs a read-only rule named in an entry clause.
func (v *Verifier) applyRule(st *St, n *Node, r *RuleDecl, e0 *Env, m cmode, k kont) {
	if len(r.Req) > 0 {
		v.serr(n, "rule %s changes the heap and cannot be named here", r.Name)
	}
	if len(n.A) != len(r.Params) {
		v.serr(n, "rule %s has %d parameters", r.Name, len(r.Params))
	}
	e := NewEnv(nil)
	for i, d := range r.Params {
		s, g := v.resolveType(d.Ty)
		x := v.eval(n.A[i], e0)
		if x.T == nil {
			x.T = v.nilOf(n, s)
		}
		e.vars[d.Name] = TV{v.c.castTo(x.T, s), g}
	}
	v.usedRules[r.Name] = true
	m.fz = true
	v.consumeAll(st, r.Reads, e, m, func(st *St, e *Env) {
		v.produceAll(st, r.Ens, e, pmode{fz: true}, func(st *St, _ *Env) { k(st, e0.clone()) })
	})
}

func (v *Verifier) verifyRule(r *RuleDecl) {
	v.use(r.Uses)
	v.cont = &Contract{Name: "rule " + r.Name, Loops: map[int]*LoopSpec{}}
	st := v.initState()
	e := NewEnv(nil)
	for _, d := range r.Params {
		s, g := v.resolveType(d.Ty)
		t := v.c.Fresh(d.Name, s)
		v.assumeType(st, t, g)
		e.vars[d.Name] = TV{t, g}
	}
	v.cur = r.Pos
	fin := func(st *St, e *Env) {
		if v.infeasible(st) {
			return
		}
		v.reach++
		for i, h := range r.Hints {
			t := v.evalB(h, e)
			v.prove(st, t, fmt.Sprintf("hint.%d", i+1), h.Pos)
			v.assumeT(st, t)
		}
		v.consumeAll(st, r.Ens, e, cmode{name: "establishes", fz: len(r.Req) == 0}, func(st *St, e *Env) {})
	}
	// rules stated later may not be used (no circular reasoning); the rule
	// itself only applies to the parts obtained by opening its premise
	seen := false
	for _, o := range v.sp.Rules {
		if o == r {
			seen = true
			continue
		}
		if seen {
			v.noRule[o.Name] = true
		}
	}
	if len(r.Req) > 0 {
		head := conjs(r.Req[0])[0]
		hp := v.sp.Preds[head.S]
		if hp == nil {
			v.serr(head, "rule %s: the first premise must be a predicate", r.Name)
		}
		for i, q := range r.Req {
			for j, x := range conjs(q) {
				if i+j > 0 && x.K == "call" && x.S == head.S {
					v.serr(head, "rule %s: the induction predicate occurs twice", r.Name)
				}
			}
		}
		v.produceAll(st, r.Req, e, pmode{}, func(st *St, e *Env) {
			h := v.findPred(st, hp, v.predIns(head, hp, e))
			if h == nil {
				v.serr(head, "rule %s: premise lost", r.Name)
			}
			v.unfold(st, h, func(st *St) { fin(st, e.clone()) })
		})
	} else {
		head := conjs(r.Reads[0])[0]
		hp := v.sp.Preds[head.S]
		if hp == nil {
			v.serr(head, "rule %s: the first premise must be a predicate", r.Name)
		}
		for i, a := range head.A {
			if a.K != "id" || i >= len(r.Params) || r.Params[i].Name != a.S || len(head.A) != len(r.Params) {
				v.serr(head, "rule %s: the premise must be applied to the parameters", r.Name)
			}
		}
		v.produceAll(st, r.Reads, e, pmode{fz: true}, func(st *St, e *Env) {
			ins := v.predIns(head, hp, e)
			v.overCases(st, hp, ins, v.fzOuts(hp, ins), func(st *St, pc *PredCase, pe *Env) {
				var subs [][]*Term
				old := v.onFz
				v.onFz = func(q *PredDecl, is []*Term) {
					if q == hp {
						subs = append(subs, is)
					}
				}
				v.produce(st, pc.Body, pe, pmode{fz: true}, func(st *St, _ *Env) {
					mine := subs
					v.onFz = old
					var hyp func(st *St, i int)
					hyp = func(st *St, i int) {
						if i == len(mine) {
							fin(st, e.clone())
							return
						}
						he := NewEnv(nil)
						for j, d := range r.Params {
							_, g := v.resolveType(d.Ty)
							he.vars[d.Name] = TV{mine[i][j], g}
						}
						v.produceAll(st, r.Reads, he, pmode{fz: true}, func(st *St, he *Env) {
							v.produceAll(st, r.Ens, he, pmode{fz: true}, func(st *St, _ *Env) { hyp(st, i+1) })
						})
					}
					hyp(st, 0)
				})
				v.onFz = old
			})
		})
	}
	if v.reach == 0 && v.failN == 0 {
		v.fail(nil, "vacuity", "the premises of rule "+r.Name+" are contradictory", "")
	}
	v.obl("vacuity").Count = 1
}
