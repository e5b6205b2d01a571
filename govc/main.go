package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

func keys(m map[string]bool) []string {
	var out []string
	for k, ok := range m {
		if ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

var (
	fRepo    = flag.String("repo", "/repo", "repository under verification")
	fSpecs   = flag.String("specs", "/verif/contracts", "directory of contract files")
	fProp    = flag.String("prop", "", "property to check")
	fUnit    = flag.String("unit", "", "verify only units whose name matches this regexp")
	fVerb    = flag.Bool("v", false, "print every obligation")
	fDebug   = flag.Bool("debug", false, "do not recover from internal errors")
	fWorkers = flag.Int("j", 0, "parallel workers")
	fLimit   = flag.Int("limit", 240, "seconds per unit")
	fEvid    = flag.String("evidence", "/verif/evidence", "evidence directory")
	fDump    = flag.String("dump", "", "print the SSA form of functions matching this regexp")
	fList    = flag.Bool("list", false, "list functions and whether they are under contract")
	fTrace   = flag.Int("trace", 40, "lines of failure trace to print")
	fHard    = flag.Int("hard", 20, "seconds for the solver portfolio on a hard query")
	fCone    = flag.Bool("cone", false, "with -unit: also verify everything relied upon")
)

// Session holds everything known about one run.
type Session struct {
	P       *Program
	sp      *Spec
	results map[string]*Result
	order   []string
}

func (s *Session) unitsOf(name string) []*Unit {
	if ct := s.sp.Conts[name]; ct != nil {
		switch ct.Kind {
		case "func", "extern":
			return []*Unit{{Name: name, Kind: "func", Cont: ct}}
		}
	}
	return nil
}

func (s *Session) implUnits(d *ImplDecl) []*Unit {
	var out []*Unit
	for _, ct := range s.sp.ContOrd {
		if ct.Kind == "iface" && strings.HasPrefix(ct.Name, d.Iface+".") {
			m := ct.Name[len(d.Iface)+1:]
			if d.Skip[m] || len(d.Only) > 0 && !d.Only[m] {
				continue
			}
			out = append(out, &Unit{Name: d.Type + " as " + ct.Name, Kind: "impl", Impl: d, Meth: m})
		}
	}
	return out
}

func (s *Session) lemmaUnit(n string) *Unit {
	if l := s.sp.LemBy[n]; l != nil {
		return &Unit{Name: "lemma " + n, Kind: "lemma", Lem: l}
	}
	return nil
}

func (s *Session) ruleUnit(n string) *Unit {
	if r := s.sp.RuleBy[n]; r != nil {
		return &Unit{Name: "rule " + n, Kind: "rule", Rule: r}
	}
	return nil
}

func (s *Session) predUnit(n string) *Unit {
	if p := s.sp.Preds[n]; p != nil && len(p.Facts) > 0 {
		return &Unit{Name: "pred " + n, Kind: "pred", Pred: p}
	}
	return nil
}

// run verifies the units and, with cone, everything they rely upon.
func (s *Session) run(start []*Unit, cone bool) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := *fWorkers
	if n == 0 {
		n = runtime.NumCPU()
	}
	sem := make(chan bool, n)
	seen := map[string]bool{}
	var push func(u *Unit)
	push = func(u *Unit) {
		if u == nil || seen[u.Name] {
			return
		}
		seen[u.Name] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			r := RunUnit(s.P, s.sp, u, time.Duration(*fLimit)*time.Second, *fDebug)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			s.results[u.Name] = r
			s.order = append(s.order, u.Name)
			if !cone {
				return
			}
			for _, x := range r.Used {
				for _, u2 := range s.unitsOf(x) {
					push(u2)
				}
			}
			for _, x := range r.Lemmas {
				push(s.lemmaUnit(x))
			}
			for _, x := range r.Preds {
				push(s.predUnit(x))
			}
			for _, x := range r.Rules {
				if !s.sp.RuleBy[x].Axiom {
					push(s.ruleUnit(x))
				}
			}
			for _, x := range r.Types {
				for _, d := range s.sp.Impls {
					if d.Type == x {
						for _, u2 := range s.implUnits(d) {
							push(u2)
						}
					}
				}
			}
		}()
	}
	mu.Lock()
	for _, u := range start {
		push(u)
	}
	mu.Unlock()
	wg.Wait()
	sort.Strings(s.order)
}

func tagged(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func (s *Session) startUnits(prop string, re *regexp.Regexp) []*Unit {
	var out []*Unit
	ok := func(name string, tags []string) bool {
		if prop != "" && !tagged(tags, prop) {
			return false
		}
		return re == nil || re.MatchString(name)
	}
	for _, ct := range s.sp.ContOrd {
		if ct.Kind == "func" && ok(ct.Name, ct.Tags) {
			out = append(out, s.unitsOf(ct.Name)...)
		}
	}
	for _, d := range s.sp.Impls {
		for _, u := range s.implUnits(d) {
			if ok(u.Name, d.Tags) {
				out = append(out, u)
			}
		}
	}
	if prop == "" {
		for _, l := range s.sp.Lemmas {
			if u := s.lemmaUnit(l.Name); ok(u.Name, nil) {
				out = append(out, u)
			}
		}
		for _, r := range s.sp.Rules {
			if r.Axiom {
				continue
			}
			if u := s.ruleUnit(r.Name); ok(u.Name, nil) {
				out = append(out, u)
			}
		}
		for _, p := range s.sp.PredOrd {
			if u := s.predUnit(p.Name); u != nil && ok(u.Name, nil) {
				out = append(out, u)
			}
		}
	}
	return out
}

func loadSession() (*Session, error) {
	sp, err := ParseSpecs(*fSpecs)
	if err != nil {
		return nil, err
	}
	P, err := LoadProgram(*fRepo, os.Environ())
	if err != nil {
		return nil, err
	}
	return &Session{P: P, sp: sp, results: map[string]*Result{}}, nil
}

func main() {
	flag.Parse()
	if flag.NArg() > 0 && flag.Arg(0) == "check" {
		os.Exit(check())
	}
	s, err := loadSession()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
	if *fDump != "" {
		re := regexp.MustCompile(*fDump)
		for n, f := range s.P.funcs {
			if re.MatchString(n) {
				fmt.Println("== " + n)
				for _, l := range loopsOf(f) {
					fmt.Printf("loop %d: head %d, at %s, %d blocks\n", l.ord, l.head.Index, s.P.prog.Fset.Position(l.pos), len(l.blocks))
				}
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *fList {
		var ns []string
		for n := range s.P.funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			c := "-"
			if ct := s.sp.Conts[n]; ct != nil {
				c = "contract " + strings.Join(ct.Tags, ",")
			}
			fmt.Println(n, c)
		}
		return
	}
	var re *regexp.Regexp
	if *fUnit != "" {
		re = regexp.MustCompile(*fUnit)
	}
	t0 := time.Now()
	s.run(s.startUnits(*fProp, re), *fProp != "" || *fCone)
	bad := s.print()
	fmt.Printf("%d units, %d with failures, %.1fs\n", len(s.results), bad, time.Since(t0).Seconds())
	if bad > 0 {
		os.Exit(1)
	}
}

func (s *Session) print() int {
	bad := 0
	for _, n := range s.order {
		r := s.results[n]
		st := "ok"
		switch {
		case r.Err != "":
			st = "ERROR " + r.Err
			bad++
		case len(r.Failed) > 0:
			st = "FAILED"
			bad++
		case r.Absent:
			st = "absent"
		case r.Trusted != "":
			st = "trusted: " + r.Trusted
		}
		k := 0
		for _, o := range r.Obls {
			k += o.Count
		}
		fmt.Printf("%-60s %s  (%d obligations, %d checks, %d queries, %.1fs solver, %.1fs)\n", n, st, len(r.Obls), k, r.Queries, r.Solver.Seconds(), r.Wall.Seconds())
		if *fVerb {
			for _, o := range r.Obls {
				fmt.Printf("    %s x%d\n", o.Name, o.Count)
			}
			fmt.Println("    inlined:", r.Inlined, "used:", r.Used, "lemmas:", r.Lemmas)
		}
		if len(r.Fallback) > 0 {
			fmt.Println("    portfolio:", r.Fallback)
		}
		shown := 0
		for _, f := range r.Failed {
			if shown >= 6 {
				fmt.Printf("    ... %d more\n", len(r.Failed)-shown)
				break
			}
			shown++
			fmt.Printf("    FAIL %s at %s: %s\n", f.Name, f.Pos, f.Detail)
			if f.Solver != "" {
				fmt.Println("      solvers:", f.Solver)
			}
			for i, t := range f.Trace {
				if i >= *fTrace {
					break
				}
				if len(t) > 300 {
					t = t[:300] + "..."
				}
				fmt.Println("      ", t)
			}
		}
	}
	return bad
}
