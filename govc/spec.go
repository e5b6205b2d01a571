package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

type Node struct {
	K    string
	S    string
	A    []*Node
	Outs []*Node
	Vars []VarDecl
	Trig [][]*Node
	Ty   string
	Pos  string
	Cs   []*CaseNode
}

type CaseNode struct {
	Ctor string
	Vars []string
	Body *Node
}

type VarDecl struct {
	Name string
	Ty   string
}

type DataDecl struct {
	Name  string
	Ctors []struct {
		Name   string
		Fields []VarDecl
	}
}

type FunDecl struct {
	Name   string
	Params []VarDecl
	Ret    string
	Body   *Node // nil: uninterpreted
	Rec    bool  // recursive by match on first matched parameter
	Macro  bool
	Opaque bool // the definition is used only where asked for
}

type LemmaDecl struct {
	Name   string
	Params []VarDecl
	Induct string
	Body   *Node
	Trig   [][]*Node
	Uses   []string
	Axiom  bool
	Pos    string
	Group  string
	Proof  []*Node
}

type PredCase struct {
	Guard   *Node
	Closure string
	Type    string
	As      string
	Body    *Node
}

type PredDecl struct {
	Name   string
	Ins    []VarDecl
	Outs   []VarDecl
	Cases  []*PredCase
	Facts  []*Node
	Assume []*Node
	Uses   []string
	Pos    string
	Abst   bool
}

type LoopSpec struct {
	Invs   []*Node
	Decr   *Node
	Unroll int
	Alts   []*LoopSpec
}

type Contract struct {
	Kind       string // func, iface, functype, extern
	Name       string
	Params     []string
	Results    []string
	Req        []*Node
	Reads      []*Node
	Borrows    []*Node
	Ens        []*Node
	Loops      map[int]*LoopSpec
	Decr       *Node
	Uses       []string
	Tags       []string
	JoinAppend bool // do not split paths on whether append reallocates
	Pure       bool // the results are functions of the arguments
	Impl       string
	Inline     bool
	Trusted    string
	Pos        string
	PanicIf    *Node
	UnwVar     string // name of the value of a panic that leaves the function
	Unw        []*Node
	Inlines    map[string]int // callees executed rather than used by contract, loops unrolled so often
	Hints      []*Node
	Entry      []*Node // ghost reading steps performed on entry
	Ghost      map[string][]*Node
	Assumes    []*Node
	FreezeEnd  []*Node
	Subst      map[string]string
	Bounded    string
	Steps      map[string]string
}

type ImplDecl struct {
	Iface string
	Type  string
	Pos   string
	Skip  map[string]bool
	Only  map[string]bool
	Uses  []string
	Tags  []string
}

type Spec struct {
	Datas   []*DataDecl
	Funs    map[string]*FunDecl
	FunOrd  []*FunDecl
	Lemmas  []*LemmaDecl
	LemBy   map[string]*LemmaDecl
	Preds   map[string]*PredDecl
	PredOrd []*PredDecl
	Conts   map[string]*Contract
	ContOrd []*Contract
	Impls   []*ImplDecl
	Consts  map[string]*Node
	Rules   []*RuleDecl
	RuleBy  map[string]*RuleDecl
}

type tok struct {
	k string // id int str op eof
	s string
	p int
}

type parser struct {
	file string
	src  string
	pos  int
	t    tok
	sp   *Spec
	grp  string
}

var ops = []string{"&*&", "|->", "<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", ":=", "::", "=>", "?", ":", "(", ")", "{", "}", "[", "]", "<", ">", "+", "-", "*", "/", "%", "!", ".", ",", ";", "|", "=", "@", "#"}

func (p *parser) fail(f string, a ...interface{}) {
	line := 1 + strings.Count(p.src[:min(p.t.p, len(p.src))], "\n")
	panic(fmt.Sprintf("%s:%d: %s", p.file, line, fmt.Sprintf(f, a...)))
}

func (p *parser) posn() string {
	line := 1 + strings.Count(p.src[:min(p.t.p, len(p.src))], "\n")
	return fmt.Sprintf("%s:%d", filepath.Base(p.file), line)
}

func (p *parser) skip() {
	for p.pos < len(p.src) {
		ch := p.src[p.pos]
		if ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' {
			p.pos++
		} else if strings.HasPrefix(p.src[p.pos:], "//") {
			for p.pos < len(p.src) && p.src[p.pos] != '\n' {
				p.pos++
			}
		} else {
			return
		}
	}
}

func (p *parser) next() tok {
	old := p.t
	p.skip()
	if p.pos >= len(p.src) {
		p.t = tok{"eof", "", p.pos}
		return old
	}
	st := p.pos
	ch := rune(p.src[st])
	switch {
	case unicode.IsLetter(ch) || ch == '_':
		for p.pos < len(p.src) && (unicode.IsLetter(rune(p.src[p.pos])) || unicode.IsDigit(rune(p.src[p.pos])) || p.src[p.pos] == '_' || p.src[p.pos] == '$' || p.src[p.pos] == '\'') {
			p.pos++
		}
		p.t = tok{"id", p.src[st:p.pos], st}
	case unicode.IsDigit(ch):
		for p.pos < len(p.src) && unicode.IsDigit(rune(p.src[p.pos])) {
			p.pos++
		}
		p.t = tok{"int", p.src[st:p.pos], st}
	case ch == '"':
		p.pos++
		for p.src[p.pos] != '"' {
			p.pos++
		}
		p.pos++
		p.t = tok{"str", p.src[st+1 : p.pos-1], st}
	default:
		for _, o := range ops {
			if strings.HasPrefix(p.src[st:], o) {
				p.pos += len(o)
				p.t = tok{"op", o, st}
				return old
			}
		}
		p.t = tok{"op", string(ch), st}
		p.fail("bad character %q", ch)
	}
	return old
}

func (p *parser) is(s string) bool { return p.t.s == s && p.t.k != "str" && p.t.k != "eof" }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.next()
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.t.s)
	}
}
func (p *parser) ident() string {
	if p.t.k != "id" {
		p.fail("expected identifier, found %q", p.t.s)
	}
	return p.next().s
}

// type: raw string
func (p *parser) typ() string {
	if p.accept("*") {
		return "*" + p.typ()
	}
	if p.accept("[") {
		p.expect("]")
		return "[]" + p.typ()
	}
	n := p.ident()
	if p.accept(".") {
		return n + "." + p.ident()
	}
	if p.accept("<") {
		var as []string
		for {
			as = append(as, p.typ())
			if !p.accept(",") {
				break
			}
		}
		p.expect(">")
		return n + "<" + strings.Join(as, ",") + ">"
	}
	return n
}

func (p *parser) vars(end string) []VarDecl {
	var out []VarDecl
	for !p.is(end) && !p.is(";") {
		n := p.ident()
		ty := "Int"
		if p.accept(":") {
			ty = p.typ()
		}
		out = append(out, VarDecl{n, ty})
		if !p.accept(",") {
			break
		}
	}
	return out
}

var binPrec = map[string]int{"&*&": 1, "<==>": 3, "==>": 4, "||": 5, "&&": 6, "==": 7, "!=": 7, "<": 7, "<=": 7, ">": 7, ">=": 7, "is": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}

func (p *parser) expr() *Node { return p.binary(1) }

func (p *parser) n(k, s string, a ...*Node) *Node {
	return &Node{K: k, S: s, A: a, Pos: p.posn()}
}

func (p *parser) binary(min int) *Node {
	l := p.unary()
	for {
		op := p.t.s
		if p.t.k == "str" || p.t.k == "eof" {
			return l
		}
		if op == "?" && min <= 2 { // conditional
			p.next()
			a := p.binary(1)
			p.expect(":")
			b := p.binary(1)
			l = p.n("ite", "", l, a, b)
			continue
		}
		if op == "|->" && min <= 7 {
			p.next()
			l = p.n("pto", "", l, p.binary(8))
			continue
		}
		if op == ":=" && min <= 7 {
			p.next()
			l = p.n("def", l.S, p.binary(2))
			continue
		}
		pr, ok := binPrec[op]
		if !ok || pr < min {
			return l
		}
		p.next()
		if op == "is" {
			l = p.n("is", p.ident(), l)
			continue
		}
		var r *Node
		if op == "==>" {
			r = p.binary(pr)
		} else {
			r = p.binary(pr + 1)
		}
		if op == "&*&" {
			l = p.n("sep", "", l, r)
		} else {
			l = p.n("bin", op, l, r)
		}
	}
}

func (p *parser) unary() *Node {
	switch {
	case p.accept("!"):
		return p.n("un", "!", p.unary())
	case p.accept("-"):
		return p.n("un", "-", p.unary())
	case p.accept("*"):
		return p.n("deref", "", p.postfix(p.primary()))
	case p.is("?"):
		p.next()
		return p.n("bind", p.ident())
	case p.is("ro"):
		p.next()
		return p.n("ro", "", p.unary())
	case p.is("lent"):
		p.next()
		return p.n("lent", "", p.unary())
	case p.is("imm"):
		p.next()
		return p.n("imm", "", p.unary())
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Node) *Node {
	for {
		switch {
		case p.accept("."):
			e = p.n("fld", p.ident(), e)
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			e = p.n("idx", "", e, i)
		default:
			return e
		}
	}
}

func (p *parser) trigs() [][]*Node {
	var out [][]*Node
	for p.accept("{") {
		var t []*Node
		for {
			t = append(t, p.binary(2))
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		out = append(out, t)
	}
	return out
}

func (p *parser) primary() *Node {
	switch p.t.k {
	case "int":
		return p.n("int", p.next().s)
	case "str":
		return p.n("str", p.next().s)
	case "id":
		id := p.t.s
		switch id {
		case "forall", "exists":
			p.next()
			n := p.n(id, "")
			n.Vars = p.vars("::")
			p.expect("::")
			n.Trig = p.trigs()
			n.A = []*Node{p.binary(2)}
			return n
		case "let":
			p.next()
			v := p.ident()
			p.expect("=")
			e := p.binary(2)
			if p.accept("in") {
				return p.n("letin", v, e, p.binary(2))
			}
			return p.n("def", v, e)
		case "match":
			p.next()
			n := p.n("match", "", p.binary(2))
			p.expect("{")
			for !p.accept("}") {
				c := &CaseNode{Ctor: p.ident()}
				if p.accept("(") {
					for !p.accept(")") {
						c.Vars = append(c.Vars, p.ident())
						p.accept(",")
					}
				}
				p.expect("=>")
				c.Body = p.binary(2)
				n.Cs = append(n.Cs, c)
				p.accept(";")
			}
			return n
		case "typeid", "fnid_of":
			p.next()
			p.expect("(")
			n := p.n(id, "")
			if id == "typeid" {
				n.Ty = p.typ()
			} else {
				n.Ty = p.fname()
			}
			p.expect(")")
			return n
		case "capt": // capt(F, f, x): where closure f of F keeps the variable x
			p.next()
			p.expect("(")
			n := p.n(id, "")
			n.Ty = p.fname()
			p.expect(",")
			n.A = append(n.A, p.binary(2))
			p.expect(",")
			n.S = p.ident()
			p.expect(")")
			return n
		case "sharing": // sharing(F, f, G, g): closure f of F has the variables of closure g of G
			p.next()
			p.expect("(")
			n := p.n(id, "")
			n.Ty = p.fname()
			p.expect(",")
			n.A = append(n.A, p.binary(2))
			p.expect(",")
			n.S = p.fname()
			p.expect(",")
			n.A = append(n.A, p.binary(2))
			p.expect(")")
			return n
		case "mk":
			p.next()
			n := p.n(id, "")
			p.expect("<")
			n.Ty = p.typ()
			p.expect(">")
			p.expect("(")
			for !p.is(")") {
				n.A = append(n.A, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return n
		case "box", "unbox", "outer":
			p.next()
			n := p.n(id, "")
			p.expect("<")
			n.Ty = p.typ()
			p.expect(">")
			p.expect("(")
			n.A = []*Node{p.expr()}
			if id == "outer" {
				p.expect(",")
				n.Ty += "." + p.ident()
			}
			p.expect(")")
			return n
		}
		n := p.n("id", id)
		p.next()
		if p.is("<") && (id == "empty" || id == "constarr" || id == "implements") {
			p.next()
			n.Ty = p.typ()
			if p.accept(",") {
				n.Ty += "," + p.typ()
			}
			p.expect(">")
			n.K = "call"
			if p.accept("(") {
				n.A = p.args(")")
				p.expect(")")
			}
			return n
		}
		if p.accept("(") {
			n.K = "call"
			n.A = p.args(")")
			if p.accept(";") {
				n.Outs = p.args(")")
				if n.Outs == nil {
					n.Outs = []*Node{}
				}
			}
			p.expect(")")
		}
		return n
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		return e
	}
	p.fail("unexpected %q", p.t.s)
	return nil
}

func (p *parser) args(end string) []*Node {
	var out []*Node
	for !p.is(end) && !p.is(";") {
		out = append(out, p.binary(2))
		if !p.accept(",") {
			break
		}
	}
	return out
}

var fnameRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*(\.\(\*?[A-Za-z_0-9]+\))?\.[A-Za-z_][A-Za-z_0-9$]*(\.[A-Za-z_0-9$]+)?`)

// fname parses a Go function name such as list.(*List).Items$1 from raw text.
func (p *parser) fname() string {
	m := fnameRe.FindString(p.src[p.t.p:])
	if m == "" {
		p.fail("expected function name")
	}
	p.pos = p.t.p + len(m)
	p.next()
	return m
}

func (p *parser) names() []string {
	var out []string
	if p.accept("(") {
		for !p.accept(")") {
			out = append(out, p.ident())
			p.accept(",")
		}
	}
	return out
}

func (p *parser) decl() {
	kw := p.t.s
	pos := p.posn()
	switch kw {
	case "group":
		p.next()
		p.grp = p.ident()
	case "data":
		p.next()
		d := &DataDecl{Name: p.ident()}
		p.expect("=")
		for {
			var c struct {
				Name   string
				Fields []VarDecl
			}
			c.Name = p.ident()
			if p.accept("(") {
				c.Fields = p.vars(")")
				p.expect(")")
			}
			d.Ctors = append(d.Ctors, c)
			if !p.accept("|") {
				break
			}
		}
		p.sp.Datas = append(p.sp.Datas, d)
	case "fun", "def", "ufun", "opaque":
		p.next()
		f := &FunDecl{Name: p.ident(), Macro: kw == "def", Opaque: kw == "opaque"}
		p.expect("(")
		f.Params = p.vars(")")
		p.expect(")")
		p.expect(":")
		f.Ret = p.typ()
		if kw != "ufun" {
			p.expect("=")
			f.Body = p.binary(2)
			f.Rec = kw == "fun"
		}
		if p.sp.Funs[f.Name] != nil {
			p.fail("duplicate function %s", f.Name)
		}
		p.sp.Funs[f.Name] = f
		p.sp.FunOrd = append(p.sp.FunOrd, f)
	case "lemma", "axiom":
		p.next()
		l := &LemmaDecl{Name: p.ident(), Axiom: kw == "axiom", Pos: pos, Group: p.grp}
		p.expect("(")
		l.Params = p.vars(")")
		p.expect(")")
		if p.accept("induct") {
			l.Induct = p.ident()
		}
		if p.accept("use") {
			for {
				l.Uses = append(l.Uses, p.ident())
				if !p.accept(",") {
					break
				}
			}
		}
		p.expect(":")
		l.Trig = p.trigs()
		l.Body = p.binary(2)
		if p.accept("by") {
			p.expect("{")
			for !p.accept("}") {
				l.Proof = append(l.Proof, p.binary(2))
				p.accept(";")
			}
		}
		p.sp.Lemmas = append(p.sp.Lemmas, l)
		p.sp.LemBy[l.Name] = l
	case "pred":
		p.next()
		d := &PredDecl{Name: p.ident(), Pos: pos}
		p.expect("(")
		d.Ins = p.vars(")")
		if p.accept(";") {
			d.Outs = p.vars(")")
		}
		p.expect(")")
		if p.accept("{") {
			for !p.accept("}") {
				switch {
				case p.accept("case"):
					c := &PredCase{}
					if p.accept("closure") {
						c.Closure = p.fname()
					} else if p.accept("type") {
						c.Type = p.typ()
						p.expect("as")
						c.As = p.ident()
					} else {
						c.Guard = p.binary(2)
					}
					if p.accept("when") {
						c.Guard = p.binary(2)
					}
					p.expect("=>")
					c.Body = p.expr()
					d.Cases = append(d.Cases, c)
				case p.accept("fact"):
					d.Facts = append(d.Facts, p.binary(2))
				case p.accept("use"):
					d.Uses = append(d.Uses, p.ident())
					for p.accept(",") {
						d.Uses = append(d.Uses, p.ident())
					}
				case p.accept("assume"):
					d.Assume = append(d.Assume, p.binary(2))
				default:
					c := &PredCase{}
					c.Body = p.expr()
					d.Cases = append(d.Cases, c)
				}
			}
		}
		if old := p.sp.Preds[d.Name]; old != nil {
			// re-opening a family adds cases
			if len(d.Cases) == 0 || len(old.Ins) != len(d.Ins) || len(old.Outs) != len(d.Outs) {
				p.fail("duplicate predicate %s", d.Name)
			}
			old.Cases = append(old.Cases, d.Cases...)
			old.Facts = append(old.Facts, d.Facts...)
			old.Assume = append(old.Assume, d.Assume...)
			old.Uses = append(old.Uses, d.Uses...)
			return
		}
		p.sp.Preds[d.Name] = d
		p.sp.PredOrd = append(p.sp.PredOrd, d)
	case "rule", "step":
		p.next()
		r := &RuleDecl{Name: p.ident(), Pos: pos, Axiom: kw == "step"}
		p.expect("(")
		r.Params = p.vars(")")
		p.expect(")")
		c := &Contract{}
		p.expect("{")
		for !p.accept("}") {
			p.clause(c)
		}
		r.Req, r.Reads, r.Ens, r.Uses, r.Hints = c.Req, c.Reads, c.Ens, c.Uses, c.Hints
		if len(r.Req)+len(r.Reads) == 0 || len(r.Req) > 0 && len(r.Reads) > 0 || len(r.Ens) == 0 {
			p.fail("rule %s needs either requires or reads, and ensures", r.Name)
		}
		p.sp.Rules = append(p.sp.Rules, r)
		p.sp.RuleBy[r.Name] = r
	case "func", "iface", "functype", "extern":
		p.next()
		c := &Contract{Kind: kw, Pos: pos, Loops: map[int]*LoopSpec{}, Ghost: map[string][]*Node{}}
		c.Name = p.fname()
		c.Params = p.names()
		c.Results = p.names()
		if p.accept("implements") {
			c.Impl = p.fname()
		}
		if p.accept("{") {
			for !p.accept("}") {
				p.clause(c)
			}
		}
		key := c.Name
		if p.sp.Conts[key] != nil {
			p.fail("duplicate contract %s", key)
		}
		p.sp.Conts[key] = c
		p.sp.ContOrd = append(p.sp.ContOrd, c)
	case "implements":
		p.next()
		d := &ImplDecl{Pos: pos, Skip: map[string]bool{}, Only: map[string]bool{}}
		d.Iface = p.typ()
		p.expect("by")
		d.Type = p.typ()
		for p.accept("skip") {
			d.Skip[p.ident()] = true
		}
		for p.accept("only") {
			d.Only[p.ident()] = true
		}
		if p.accept("use") {
			d.Uses = append(d.Uses, p.ident())
			for p.accept(",") {
				d.Uses = append(d.Uses, p.ident())
			}
		}
		for p.is("tags") {
			p.next()
			for p.t.k == "id" && regexp.MustCompile(`^C\d\d$`).MatchString(p.t.s) {
				d.Tags = append(d.Tags, p.ident())
			}
		}
		p.sp.Impls = append(p.sp.Impls, d)
	default:
		p.fail("unexpected declaration %q", kw)
	}
}

func (p *parser) clause(c *Contract) {
	kw := p.t.s
	switch kw {
	case "requires":
		p.next()
		c.Req = append(c.Req, p.expr())
	case "reads":
		p.next()
		c.Reads = append(c.Reads, p.expr())
	case "borrows":
		p.next()
		c.Borrows = append(c.Borrows, p.expr())
	case "ensures":
		p.next()
		c.Ens = append(c.Ens, p.expr())
	case "entry":
		p.next()
		c.Entry = append(c.Entry, p.expr())
	case "assumes":
		p.next()
		c.Assumes = append(c.Assumes, p.expr())
	case "hint":
		p.next()
		c.Hints = append(c.Hints, p.expr())
	case "panics":
		p.next()
		c.PanicIf = p.expr()
	case "unwinds":
		p.next()
		x := p.ident()
		if c.UnwVar != "" && c.UnwVar != x {
			p.fail("one name for the value of a panic, please")
		}
		c.UnwVar = x
		p.expect(":")
		c.Unw = append(c.Unw, p.expr())
	case "inlines":
		p.next()
		if c.Inlines == nil {
			c.Inlines = map[string]int{}
		}
		for {
			n := p.fname()
			k := 1
			if p.accept("unroll") {
				fmt.Sscan(p.t.s, &k)
				p.next()
			}
			c.Inlines[n] = k
			if !p.accept(",") {
				break
			}
		}
	case "decreases":
		p.next()
		c.Decr = p.binary(2)
	case "inline":
		p.next()
		c.Inline = true
	case "joinappend":
		p.next()
		c.JoinAppend = true
	case "pure":
		p.next()
		c.Pure = true
	case "trusted":
		p.next()
		c.Trusted = p.next().s
	case "bounded":
		p.next()
		c.Bounded = p.next().s
	case "use":
		p.next()
		for {
			c.Uses = append(c.Uses, p.ident())
			if !p.accept(",") {
				break
			}
		}
	case "tags":
		p.next()
		for p.t.k == "id" && regexp.MustCompile(`^C\d\d$`).MatchString(p.t.s) {
			c.Tags = append(c.Tags, p.ident())
		}
	case "loop":
		p.next()
		n := 0
		fmt.Sscan(p.t.s, &n)
		p.next()
		ls := p.loop()
		for p.accept("or") {
			ls.Alts = append(ls.Alts, p.loop())
		}
		c.Loops[n] = ls
	default:
		p.fail("unexpected clause %q", kw)
	}
}

func (p *parser) loop() *LoopSpec {
	ls := &LoopSpec{}
	p.expect("{")
	for !p.accept("}") {
		switch {
		case p.accept("inv"):
			ls.Invs = append(ls.Invs, p.expr())
		case p.accept("decreases"):
			ls.Decr = p.binary(2)
		case p.accept("unroll"):
			fmt.Sscan(p.t.s, &ls.Unroll)
			p.next()
		default:
			p.fail("unexpected in loop: %q", p.t.s)
		}
	}
	return ls
}

func ParseSpecs(dir string) (sp *Spec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	sp = &Spec{Funs: map[string]*FunDecl{}, LemBy: map[string]*LemmaDecl{}, Preds: map[string]*PredDecl{}, Conts: map[string]*Contract{}, Consts: map[string]*Node{}, RuleBy: map[string]*RuleDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		p := &parser{file: f, src: string(b), sp: sp}
		p.next()
		for p.t.k != "eof" {
			p.decl()
		}
	}
	return sp, nil
}

// conjs splits an assertion into its top-level separating conjuncts.
func conjs(n *Node) []*Node {
	if n.K == "sep" {
		return append(conjs(n.A[0]), conjs(n.A[1])...)
	}
	return []*Node{n}
}
