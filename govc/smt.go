package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// PC is a node of the path condition (a persistent linked list).
type PC struct {
	parent *PC
	t      *Term
	depth  int
}

func (p *PC) list() []*Term {
	n := 0
	if p != nil {
		n = p.depth
	}
	out := make([]*Term, n)
	for q := p; q != nil; q = q.parent {
		out[q.depth-1] = q.t
	}
	return out
}

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*PC
	nd, ng  int
	queries int64
	time    time.Duration
	dead    bool
	fb      map[string]int // queries discharged by fallback solvers
	log     *strings.Builder
}

var slowMs, _ = strconv.Atoi(os.Getenv("GOVC_SLOW"))
var totalQueries int64
var totalSolverNanos int64

const z3Options = `(set-option :global-declarations true)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.random_seed 0)
(set-option :smt.qi.eager_threshold 100)
(set-option :smt.case_split 3)
(set-option :smt.delay_units true)
(set-option :type_check true)
`

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, fb: map[string]int{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.stack, s.nd, s.ng = nil, 0, 0
	s.send(z3Options)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
		s.log.WriteString("\n")
	}
	io.WriteString(s.in, x)
	io.WriteString(s.in, "\n")
}

func (s *Solver) flushDecls() {
	for ; s.nd < len(s.c.decls); s.nd++ {
		s.send(s.c.decls[s.nd])
	}
}

func (s *Solver) sync(pc *PC) {
	if s.ng < len(s.c.globals) {
		if len(s.stack) > 0 {
			s.send(fmt.Sprintf("(pop %d)", len(s.stack)))
			s.stack = nil
		}
		s.flushDecls()
		for ; s.ng < len(s.c.globals); s.ng++ {
			s.send("(assert " + s.c.globals[s.ng] + ")")
		}
	}
	var want []*PC
	for q := pc; q != nil; q = q.parent {
		want = append(want, q)
	}
	for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
		want[i], want[j] = want[j], want[i]
	}
	k := 0
	for k < len(want) && k < len(s.stack) && want[k] == s.stack[k] {
		k++
	}
	if k < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)", len(s.stack)-k))
		s.stack = s.stack[:k]
	}
	for ; k < len(want); k++ {
		x := want[k].t.smt(s.c)
		s.flushDecls()
		s.send("(push 1)")
		s.send("(assert " + x + ")")
		s.stack = append(s.stack, want[k])
	}
}

// Check returns true if pc |= goal.
func (s *Solver) Check(pc *PC, goal *Term, ms int) (ok bool, res string) {
	defer func() {
		if r := recover(); r != nil {
			if e, k := r.(error); k && strings.Contains(e.Error(), "solver") {
				s.Close()
				s.start()
				ok, res = false, "unknown (solver crash)"
				return
			}
			panic(r)
		}
	}()
	t0 := time.Now()
	s.queries++
	atomic.AddInt64(&totalQueries, 1)
	s.sync(pc)
	g := s.c.Not(goal).smt(s.c)
	s.flushDecls()
	s.send("(push 1)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", ms))
	s.send("(assert " + g + ")")
	s.send("(check-sat)")
	s.send("(pop 1)")
	// z3 does not always honour its own limit
	cmd := s.cmd
	dog := time.AfterFunc(time.Duration(2*ms+2000)*time.Millisecond, func() { cmd.Process.Kill() })
	r := s.await(pc, goal, ms)
	dog.Stop()
	d := time.Since(t0)
	if slowMs > 0 && d > time.Duration(slowMs)*time.Millisecond {
		fmt.Printf("    slow query %.2fs %s depth %d: %.600s\n", d.Seconds(), r, len(s.stack), g)
		if d := os.Getenv("GOVC_SLOWDUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", d, s.queries), []byte(z3Options+s.Script(pc, goal, false)), 0o644)
		}
	}
	s.time += d
	atomic.AddInt64(&totalSolverNanos, int64(d))
	return r == "unsat", r
}

// await reads the answer of the incremental solver; when that takes long, the
// same question is put to a fresh solver, and the first answer counts.
func (s *Solver) await(pc *PC, goal *Term, ms int) string {
	type ans struct {
		r string
		p interface{}
	}
	inc := make(chan ans, 1)
	out := s.out
	go func() {
		var a ans
		defer func() {
			a.p = recover()
			inc <- a
		}()
		a.r = readAnswer(out)
	}()
	get := func(a ans) string {
		if a.p != nil {
			panic(a.p)
		}
		return a.r
	}
	select {
	case a := <-inc:
		return get(a)
	case <-time.After(freshAfter):
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	defer cancel()
	one := make(chan string, 1)
	text := z3Options + s.Script(pc, goal, false)
	go func() {
		c := exec.CommandContext(ctx, "z3", "-in", "-smt2")
		c.Stdin = strings.NewReader(text)
		o, _ := c.Output()
		one <- strings.TrimSpace(string(o))
	}()
	for {
		select {
		case a := <-inc:
			return get(a)
		case r := <-one:
			one = nil
			switch r {
			case "sat", "unsat", "unknown":
				s.Close()
				<-inc
				s.start()
				return r
			}
		}
	}
}

const freshAfter = 250 * time.Millisecond

func readAnswer(out *bufio.Reader) string {
	for {
		l, err := out.ReadString('\n')
		if err != nil {
			panic(fmt.Errorf("solver died: %v", err))
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			return l
		}
		if strings.HasPrefix(l, "(error") {
			panic("SMT error: " + l)
		}
	}
}

// Script builds a standalone SMT-LIB problem for pc |= goal.
func (s *Solver) Script(pc *PC, goal *Term, cvc bool) string {
	var body strings.Builder
	for _, t := range pc.list() {
		body.WriteString("(assert " + t.smt(s.c) + ")\n")
	}
	body.WriteString("(assert " + s.c.Not(goal).smt(s.c) + ")\n(check-sat)\n")
	var b strings.Builder
	if cvc {
		b.WriteString("(set-logic ALL)\n")
	} else {
		b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	}
	for _, d := range s.c.decls {
		b.WriteString(d + "\n")
	}
	for _, g := range s.c.globals {
		b.WriteString("(assert " + g + ")\n")
	}
	b.WriteString(body.String())
	return b.String()
}

// CheckHard tries several solvers in parallel on a fresh script.
func (s *Solver) CheckHard(pc *PC, goal *Term, secs int) (bool, string) {
	z := s.Script(pc, goal, false)
	cv := s.Script(pc, goal, true)
	type job struct {
		name string
		args []string
		text string
	}
	jobs := []job{
		{"z3", []string{"z3", "-in", "-smt2"}, z},
		{"z3-seed7", []string{"z3", "-in", "-smt2", "smt.random_seed=7", "smt.arith.solver=2"}, z},
		{"z3-new", []string{"z3-new", "-in", "-smt2"}, z},
		{"cvc5", []string{"cvc5", "--lang=smt2", "-"}, cv},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	type res struct{ name, out string }
	ch := make(chan res, len(jobs))
	t0 := time.Now()
	for _, j := range jobs {
		go func(j job) {
			cmd := exec.CommandContext(ctx, j.args[0], j.args[1:]...)
			cmd.Stdin = strings.NewReader(j.text)
			o, _ := cmd.Output()
			ch <- res{j.name, strings.TrimSpace(string(o))}
		}(j)
	}
	all := []string{}
	for range jobs {
		r := <-ch
		if r.out == "unsat" {
			cancel()
			s.time += time.Since(t0)
			atomic.AddInt64(&totalSolverNanos, int64(time.Since(t0)))
			s.fb[r.name]++
			return true, r.name
		}
		o := r.out
		if o == "" {
			o = "timeout"
		}
		if len(o) > 200 {
			o = o[:200]
		}
		all = append(all, r.name+":"+o)
	}
	s.time += time.Since(t0)
	atomic.AddInt64(&totalSolverNanos, int64(time.Since(t0)))
	return false, strings.Join(all, "; ")
}
