package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// Residue names what the contracts of a property do not reach and how it is
// covered instead (never counted as proved).
type Residue struct {
	Property  string   `json:"property"`
	Functions []string `json:"functions"`
	Why       string   `json:"why"`
	Bound     string   `json:"bound"`
	QuickS    float64  `json:"quick_seconds"`
	ThoroughS float64  `json:"thorough_seconds"`
}

func seedEnv() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func loadResidue(dir, prop string) (*Residue, error) {
	b, err := os.ReadFile(filepath.Join(dir, "residue.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var rs []*Residue
	if err := json.Unmarshal(b, &rs); err != nil {
		return nil, err
	}
	for _, r := range rs {
		if r.Property == prop {
			return r, nil
		}
	}
	return nil, nil
}

// knownFindings returns the obligations listed as known findings of prop.
// A line reads: known: property=C01 obligation=<unit>/<obligation> <text>
func knownFindings(file, prop string) (map[string]string, error) {
	out := map[string]string{}
	f, err := os.Open(file)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<16), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+prop+" obligation=[") {
			continue
		}
		l = l[strings.Index(l, "[")+1:]
		i := strings.Index(l, "] ")
		if i < 0 {
			continue
		}
		out[l[:i]] = l[i+2:]
	}
	return out, sc.Err()
}

func exportedName(n string) bool {
	i := strings.LastIndex(n, ".")
	if strings.Contains(n, "$") {
		return false
	}
	return unicode.IsUpper(rune(n[i+1]))
}

type replayResult struct {
	found bool
	text  string
	err   string
	stats json.RawMessage
}

// replay builds the concrete harness against the current source and searches
// for an input on which the real code breaks the property.
func replay(verif, prop string, seed int64, secs float64) replayResult {
	tmp, err := os.MkdirTemp("", "replay")
	if err != nil {
		return replayResult{err: err.Error()}
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs*2+180)*time.Second)
	defer cancel()
	b := exec.CommandContext(ctx, "go", "build", "-o", bin, ".")
	b.Dir = filepath.Join(verif, "replay")
	b.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	if o, err := b.CombinedOutput(); err != nil {
		return replayResult{err: "the replay harness does not build against this source: " + string(o)}
	}
	out := filepath.Join(tmp, "failing")
	c := exec.CommandContext(ctx, bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-budget", fmt.Sprint(secs), "-out", out)
	c.Dir = tmp
	o, err := c.Output()
	if err == nil {
		l := strings.TrimSpace(string(o))
		if i := strings.LastIndex(l, "\n"); i >= 0 {
			l = l[i+1:]
		}
		if json.Valid([]byte(l)) {
			return replayResult{stats: json.RawMessage(l)}
		}
		return replayResult{err: "unexpected harness output"}
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
		t, _ := os.ReadFile(out)
		if len(t) == 0 {
			t = o
		}
		return replayResult{found: true, text: string(t)}
	}
	return replayResult{err: fmt.Sprintf("replay harness: %v", err)}
}

func check() int {
	prop := flag.Arg(1)
	if prop == "" {
		fmt.Fprintln(os.Stderr, "usage: govc check Cnn")
		return 2
	}
	verif := filepath.Dir(*fSpecs)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	} else {
		*fHard = 60
	}
	seed := seedEnv()
	t0 := time.Now()
	s, err := loadSession()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	res, err := loadResidue(*fSpecs, prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	known, err := knownFindings(filepath.Join(verif, "known-findings.txt"), prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	start := s.startUnits(prop, nil)
	if len(start) == 0 {
		fmt.Fprintln(os.Stderr, "error: no contracts for", prop)
		return 2
	}
	roots := map[string]bool{}
	for _, u := range start {
		roots[u.Name] = true
	}
	s.run(start, true)

	type failure struct {
		Obligation string   `json:"obligation"`
		At         string   `json:"at"`
		Detail     string   `json:"detail"`
		Solver     string   `json:"solver,omitempty"`
		Trace      []string `json:"trace,omitempty"`
	}
	var fails []failure
	var funcs, lemmas, preds, impls, trusted, bounded, absent, perFunc []string
	inl, asm, noterm := map[string]bool{}, map[string]bool{}, map[string]bool{}
	fb := map[string]int{}
	obls, failed, checks := 0, 0, 0
	var queries int64
	var solver time.Duration
	for _, n := range s.order {
		r := s.results[n]
		if r.Err != "" {
			fails = append(fails, failure{Obligation: n + "/specification-applies", Detail: r.Err})
			obls++
			failed++
		}
		if r.Absent {
			absent = append(absent, n)
			if roots[n] && exportedName(n) {
				fails = append(fails, failure{Obligation: n + "/function-present", Detail: "the function under contract no longer exists"})
				obls++
				failed++
			}
			continue
		}
		if r.Trusted != "" {
			trusted = append(trusted, n+": "+r.Trusted)
			continue
		}
		switch r.Unit.Kind {
		case "func":
			if r.Bounded != "" {
				bounded = append(bounded, n+": "+r.Bounded)
			}
			funcs = append(funcs, n)
		case "impl":
			impls = append(impls, n)
		case "lemma":
			lemmas = append(lemmas, n)
		case "pred":
			preds = append(preds, n)
		}
		badObl := map[string]bool{}
		for _, f := range r.Failed {
			badObl[f.Name] = true
			fails = append(fails, failure{Obligation: n + "/" + f.Name, At: f.Pos, Detail: f.Detail, Solver: f.Solver, Trace: f.Trace})
		}
		obls += len(r.Obls)
		failed += len(badObl)
		c := 0
		for _, o := range r.Obls {
			c += o.Count
		}
		checks += c
		perFunc = append(perFunc, fmt.Sprintf("%s: %d obligations, %d proof goals, %d solver queries, %.2fs", n, len(r.Obls), c, r.Queries, r.Solver.Seconds()))
		for _, x := range r.Inlined {
			inl[x] = true
		}
		for _, x := range r.Assume {
			asm[x] = true
		}
		for _, x := range r.NoTerm {
			noterm[x] = true
		}
		for k, c := range r.Fallback {
			fb[k] += c
		}
		queries += r.Queries
		solver += r.Solver
	}
	if obls == 0 || checks == 0 {
		fmt.Fprintln(os.Stderr, "error: no obligations were generated for", prop)
		return 2
	}

	// known findings are matched by obligation
	var live []failure
	knownHit := map[string]bool{}
	for _, f := range fails {
		if _, ok := known[f.Obligation]; ok {
			knownHit[f.Obligation] = true
			continue
		}
		live = append(live, f)
	}
	for _, k := range keys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s obligation %s: %s\n", prop, k, known[k])
	}

	var rr *replayResult
	if len(live) > 0 {
		secs := 60.0
		if tier == "thorough" {
			secs = 240
		}
		x := replay(verif, prop, seed, secs)
		rr = &x
	} else if res != nil {
		secs := res.QuickS
		if tier == "thorough" {
			secs = res.ThoroughS
		}
		x := replay(verif, prop, seed, secs)
		rr = &x
	} else if tier == "thorough" {
		x := replay(verif, prop, seed, 60)
		rr = &x
	}
	violated := len(live) > 0 || rr != nil && rr.found

	assumptions := append([]string{
		"own verification-condition generator, contract language and memory model (govc) are correct; z3 4.8.12 / z3 5.3.2 / cvc5 1.1.2 are sound when they answer unsat",
		"go/ssa translates the source as the gc compiler does; no unsafe, no data races on the verified structures",
		"slice and string lengths stay below 2^48; allocation succeeds",
	}, keys(asm)...)
	for _, t := range trusted {
		assumptions = append(assumptions, "contract of "+t+" is trusted")
	}
	cov := map[string]interface{}{
		"obligations":                       obls,
		"discharged":                        obls - failed,
		"proof_goals":                       checks,
		"checker_cmd":                       "bin/govc check " + prop,
		"trusted_base":                      []string{"govc (verifier in /verif/govc)", "golang.org/x/tools/go/ssa v0.52.0", "z3 4.8.12", "z3 5.3.2 and cvc5 1.1.2 as portfolio"},
		"functions_under_contract":          funcs,
		"interface_implementations":         impls,
		"lemmas_proved":                     lemmas,
		"predicate_facts_proved":            preds,
		"functions_inlined":                 keys(inl),
		"trusted_contracts":                 trusted,
		"absent_internal_functions":         absent,
		"loops_without_termination_measure": keys(noterm),
		"solver_queries":                    queries,
		"solver_seconds":                    round2(solver.Seconds()),
		"discharged_by_portfolio":           fb,
		"back_end":                          "z3 4.8.12 incremental; z3 (seed 7), z3-new 5.3.2 and cvc5 1.1.2 in parallel when the first attempt is inconclusive",
		"per_unit":                          perFunc,
	}
	if len(bounded) > 0 {
		cov["bounded_contracts"] = bounded
	}
	if res != nil {
		b := map[string]interface{}{"functions": res.Functions, "why": res.Why, "bound": res.Bound}
		if rr != nil && rr.stats != nil {
			b["explored"] = rr.stats
		}
		cov["bounded_not_proved"] = b
	} else if rr != nil && rr.stats != nil {
		cov["bounded_crosscheck_not_counted"] = rr.stats
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"wall_s": round2(time.Since(t0).Seconds()), "assumptions": assumptions,
	}
	if res != nil {
		ev["level"] = "other"
	}
	code := 0
	if violated {
		rp := filepath.Join(*fEvid, "replay-"+prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		if len(live) > 0 {
			fmt.Fprintf(&b, "FAILED OBLIGATIONS (%d)\n", len(live))
		} else {
			fmt.Fprintf(&b, "every proof obligation was discharged; the bounded search over the functions outside the proof found a failing input\n")
		}
		seen := map[string]bool{}
		var names []string
		for _, f := range live {
			if !seen[f.Obligation] {
				seen[f.Obligation] = true
				names = append(names, f.Obligation)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Fprintf(&b, "  %s\n", n)
		}
		fmt.Fprintln(&b)
		if rr != nil && rr.found {
			fmt.Fprintf(&b, "REPLAYED ON THE REAL CODE\n%s\nto run again: cd /verif/replay && GOFLAGS=-mod=mod go run . -prop %s -seed %d -budget 60\n\n", rr.text, prop, seed)
		} else if rr != nil && rr.err != "" {
			fmt.Fprintf(&b, "no failing input: %s\n\n", rr.err)
		} else {
			fmt.Fprintf(&b, "no failing input found by the replay harness\n\n")
		}
		for i, f := range live {
			if i >= 20 {
				fmt.Fprintf(&b, "... %d more\n", len(live)-i)
				break
			}
			fmt.Fprintf(&b, "obligation %s\n  at %s\n  %s\n  verifier: %s\n", f.Obligation, f.At, f.Detail, f.Solver)
			for j, t := range f.Trace {
				if j > 60 {
					break
				}
				fmt.Fprintf(&b, "    %s\n", t)
			}
		}
		os.MkdirAll(*fEvid, 0o755)
		if err := os.WriteFile(rp, []byte(b.String()), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		for _, n := range names {
			fmt.Println("failed obligation:", n)
		}
		if rr != nil && rr.found {
			fmt.Print(rr.text)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
		ev["violations"] = len(names)
		if len(names) == 0 {
			ev["violations"] = 1
		}
		cov["failed_obligations"] = names
		code = 1
	} else {
		if res != nil && rr != nil && rr.err != "" {
			fmt.Fprintln(os.Stderr, "error:", rr.err)
			return 2
		}
		fmt.Printf("%s: %d obligations (%d goals) over %d functions discharged, %d solver queries, %.1fs\n", prop, obls, checks, len(funcs)+len(impls), queries, time.Since(t0).Seconds())
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(*fEvid, 0o755)
	if err := os.WriteFile(filepath.Join(*fEvid, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	return code
}

func round2(x float64) float64 { return float64(int64(x*100)) / 100 }
