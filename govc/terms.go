package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KVal
	KSeq
	KArray
	KData
	KOpaque
)

// Sort is an SMT sort. Pointers and function values are KInt sorts with their
// own Name so that the specification type checker can tell them apart.
type Sort struct {
	Name string // SMT name (also unique key)
	Kind SortKind
	Key  *Sort // array key
	Elem *Sort // array range, seq element
	Ctor []*Ctor
}

type Ctor struct {
	Name   string
	Fields []DField
	Sort   *Sort
}

type DField struct {
	Name string
	Sort *Sort
}

func (s *Sort) smt() string { return s.Name }

// ---------------------------------------------------------------- terms

type Term struct {
	Op    string
	Args  []*Term
	Sort  *Sort
	Bound []*Term   // quantifiers
	Pats  [][]*Term // quantifiers
	id    int
	size  int
	open  bool // contains bound variables
	name  string
}

type Ctx struct {
	later                               []func()
	tab                                 map[string]*Term
	n                                   int
	decls                               []string
	globals                             []string
	fresh                               map[string]int
	declared                            map[string]bool
	sorts                               map[string]*Sort
	ctors                               map[string]*Ctor
	sels                                map[string]selInfo // selector name -> ctor, index
	named                               int
	refs                                []*Term
	Bool, Int, Ref, Fn, Val, Str, Slice *Sort
	defs                                map[int]string
	v                                   *Verifier
	funs                                map[string]bool
}

type selInfo struct {
	c *Ctor
	i int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, declared: map[string]bool{}, sorts: map[string]*Sort{}, ctors: map[string]*Ctor{}, sels: map[string]selInfo{}, defs: map[int]string{}, funs: map[string]bool{}}
	c.Bool = c.addSort(&Sort{Name: "Bool", Kind: KBool})
	c.Int = c.addSort(&Sort{Name: "Int", Kind: KInt})
	c.Ref = c.addSort(&Sort{Name: "Ref", Kind: KInt})
	c.Fn = c.addSort(&Sort{Name: "Fn", Kind: KInt})
	c.Val = c.addSort(&Sort{Name: "Val", Kind: KVal})
	c.decls = append(c.decls, "(define-sort Ref () Int)", "(define-sort Fn () Int)", "(declare-sort Val 0)", "(declare-const vnil Val)", "(declare-fun typeof (Val) Int)", "(declare-fun rank (Val) Int)", "(declare-fun fnid (Fn) Int)")
	c.globals = append(c.globals, "(= (typeof vnil) 0)", "(forall ((v Val)) (! (=> (= (typeof v) 0) (= v vnil)) :pattern ((typeof v))))",
		"(= (fnid 0) 0)", "(forall ((v Val)) (! (=> (= (rank v) (rank vnil)) (= v vnil)) :pattern ((rank v))))")
	c.Slice = c.Data("Slice", []*Ctor{{Name: "mkSlice", Fields: []DField{{"base", c.Ref}, {"off", c.Int}, {"len", c.Int}, {"cap", c.Int}}}})
	c.Str = c.Seq(c.Int)
	return c
}

func (c *Ctx) addSort(s *Sort) *Sort {
	c.sorts[s.Name] = s
	return s
}

func (c *Ctx) Opaque(name string) *Sort {
	if s, ok := c.sorts[name]; ok {
		return s
	}
	c.decls = append(c.decls, fmt.Sprintf("(declare-sort %s 0)", name))
	return c.addSort(&Sort{Name: name, Kind: KOpaque})
}

func (c *Ctx) Array(k, e *Sort) *Sort {
	n := fmt.Sprintf("(Array %s %s)", k.Name, e.Name)
	if s, ok := c.sorts[n]; ok {
		return s
	}
	return c.addSort(&Sort{Name: n, Kind: KArray, Key: k, Elem: e})
}

// Data declares a (possibly recursive) datatype. For recursive types the
// fields may use a *Sort created by PreData.
func (c *Ctx) Data(name string, ctors []*Ctor) *Sort {
	s := c.PreData(name)
	c.FinishData([]*Sort{s}, [][]*Ctor{ctors})
	return s
}

func (c *Ctx) PreData(name string) *Sort {
	s := &Sort{Name: name, Kind: KData}
	c.sorts[name] = s
	return s
}

func (c *Ctx) FinishData(ss []*Sort, cc [][]*Ctor) {
	var a, b strings.Builder
	for i, s := range ss {
		s.Ctor = cc[i]
		fmt.Fprintf(&a, "(%s 0)", s.Name)
		b.WriteString("(")
		for _, ct := range cc[i] {
			ct.Sort = s
			c.ctors[ct.Name] = ct
			b.WriteString("(" + ct.Name)
			for j, f := range ct.Fields {
				sel := c.selName(ct, j)
				c.sels[sel] = selInfo{ct, j}
				fmt.Fprintf(&b, " (%s %s)", sel, f.Sort.Name)
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	}
	c.decls = append(c.decls, fmt.Sprintf("(declare-datatypes (%s) (%s))", a.String(), b.String()))
	later := c.later
	c.later = nil
	for _, f := range later {
		f()
	}
}

func (c *Ctx) selName(ct *Ctor, j int) string {
	return ct.Name + "." + ct.Fields[j].Name
}

func mangle(s string) string {
	r := strings.NewReplacer("(", "_", ")", "_", " ", "", "*", "P", "/", "_", "[", "L", "]", "J", "$", "_", "{", "_", "}", "_", ";", "_", ",", "_", "|", "_")
	return r.Replace(s)
}

func (c *Ctx) Seq(e *Sort) *Sort {
	n := "Seq_" + mangle(e.Name)
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := c.addSort(&Sort{Name: n, Kind: KSeq, Elem: e})
	S := n
	d := func(f string, a ...interface{}) { c.decls = append(c.decls, fmt.Sprintf(f, a...)) }
	d("(declare-sort %s 0)", S)
	if e.Kind == KData && e.Ctor == nil {
		// sequences of a data type inside it: the rest follows its declaration
		c.later = append(c.later, func() { c.seqFuns(s, e) })
		return s
	}
	c.seqFuns(s, e)
	return s
}

func (c *Ctx) seqFuns(s, e *Sort) {
	n := s.Name
	arr := c.Array(c.Int, e)
	d := func(f string, a ...interface{}) { c.decls = append(c.decls, fmt.Sprintf(f, a...)) }
	E, S, A := e.Name, n, arr.Name
	f := func(x string) string { return x + "_" + n }
	d("(declare-fun %s (%s) Int)", f("len"), S)
	d("(declare-fun %s (%s Int) %s)", f("idx"), S, E)
	d("(declare-const %s %s)", f("empty"), S)
	d("(declare-fun %s (%s) %s)", f("unit"), E, S)
	d("(declare-fun %s (%s %s) %s)", f("app"), S, S, S)
	d("(declare-fun %s (%s Int) %s)", f("take"), S, S)
	d("(declare-fun %s (%s Int) %s)", f("drop"), S, S)
	d("(declare-fun %s (%s Int %s) %s)", f("upd"), S, E, S)
	d("(declare-fun %s (%s Int %s) %s)", f("ins"), S, E, S)
	d("(declare-fun %s (%s Int) %s)", f("rem"), S, S)
	d("(declare-fun %s (%s) %s)", f("rev"), S, S)
	d("(declare-fun %s (%s Int Int) %s)", f("arrseq"), A, S)
	d("(declare-fun %s (%s %s) Bool)", f("seqeq"), S, S)
	rp := strings.NewReplacer("LEN", f("len"), "IDX", f("idx"), "EMPTY", f("empty"), "UNIT", f("unit"), "APP", f("app"), "TAKE", f("take"), "DROP", f("drop"), "UPD", f("upd"), "INS", f("ins"), "REM", f("rem"), "REV", f("rev"), "ARRSEQ", f("arrseq"), "SEQEQ", f("seqeq"), "$S", S, "$E", E, "$A", A)
	ax := []string{
		"(forall ((s $S)) (! (>= (LEN s) 0) :pattern ((LEN s))))",
		"(= (LEN EMPTY) 0)",
		"(forall ((s $S)) (! (=> (= (LEN s) 0) (= s EMPTY)) :pattern ((LEN s))))",
		"(forall ((x $E)) (! (= (LEN (UNIT x)) 1) :pattern ((UNIT x))))",
		"(forall ((x $E) (i Int)) (! (=> (= i 0) (= (IDX (UNIT x) i) x)) :pattern ((IDX (UNIT x) i))))",
		"(forall ((a $S) (b $S)) (! (= (LEN (APP a b)) (+ (LEN a) (LEN b))) :pattern ((APP a b))))",
		"(forall ((a $S) (b $S) (i Int)) (! (= (IDX (APP a b) i) (ite (< i (LEN a)) (IDX a i) (IDX b (- i (LEN a))))) :pattern ((IDX (APP a b) i))))",
		"(forall ((a $S) (b $S) (i Int)) (! (=> (and (<= 0 i) (< i (LEN a))) (= (IDX (APP a b) i) (IDX a i))) :pattern ((APP a b) (IDX a i))))",
		"(forall ((a $S) (b $S) (i Int)) (! (=> (and (<= 0 i) (< i (LEN b))) (= (IDX (APP a b) (+ (LEN a) i)) (IDX b i))) :pattern ((APP a b) (IDX b i))))",
		"(forall ((a $S) (b $S) (c $S)) (! (= (APP (APP a b) c) (APP a (APP b c))) :pattern ((APP (APP a b) c))))",
		"(forall ((a $S)) (! (= (APP a EMPTY) a) :pattern ((APP a EMPTY))))",
		"(forall ((a $S)) (! (= (APP EMPTY a) a) :pattern ((APP EMPTY a))))",
		"(forall ((a $S) (b $S) (n Int)) (! (=> (= n (LEN a)) (= (DROP (APP a b) n) b)) :pattern ((DROP (APP a b) n))))",
		"(forall ((a $S) (b $S) (n Int)) (! (=> (= n (LEN a)) (= (TAKE (APP a b) n) a)) :pattern ((TAKE (APP a b) n))))",
		"(forall ((s $S) (n Int)) (! (=> (and (<= 0 n) (<= n (LEN s))) (= (LEN (TAKE s n)) n)) :pattern ((TAKE s n))))",
		"(forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n (LEN s))) (= (IDX (TAKE s n) i) (IDX s i))) :pattern ((IDX (TAKE s n) i)) :pattern ((TAKE s n) (IDX s i))))",
		"(forall ((s $S) (n Int)) (! (=> (and (<= 0 n) (<= n (LEN s))) (= (LEN (DROP s n)) (- (LEN s) n))) :pattern ((DROP s n))))",
		"(forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< (+ i n) (LEN s))) (= (IDX (DROP s n) i) (IDX s (+ i n)))) :pattern ((IDX (DROP s n) i))))",
		"(forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= n i) (< i (LEN s))) (= (IDX (DROP s n) (- i n)) (IDX s i))) :pattern ((DROP s n) (IDX s i))))",
		"(forall ((s $S) (n Int)) (! (=> (= n 0) (= (DROP s n) s)) :pattern ((DROP s n))))",
		"(forall ((s $S) (n Int) (k Int)) (! (=> (and (<= 0 n) (<= 0 k) (<= (+ n k) (LEN s))) (= (DROP (DROP s n) k) (DROP s (+ n k)))) :pattern ((DROP (DROP s n) k))))",
		"(forall ((s $S) (n Int)) (! (=> (= n (LEN s)) (= (TAKE s n) s)) :pattern ((TAKE s n))))",
		"(forall ((s $S) (n Int) (x $E)) (! (= (LEN (UPD s n x)) (LEN s)) :pattern ((UPD s n x))))",
		"(forall ((s $S) (n Int) (x $E) (i Int)) (! (=> (and (<= 0 i) (< i (LEN s))) (= (IDX (UPD s n x) i) (ite (= i n) x (IDX s i)))) :pattern ((IDX (UPD s n x) i)) :pattern ((UPD s n x) (IDX s i))))",
		"(forall ((s $S) (n Int) (x $E)) (! (=> (and (<= 0 n) (<= n (LEN s))) (= (LEN (INS s n x)) (+ (LEN s) 1))) :pattern ((INS s n x))))",
		"(forall ((s $S) (n Int) (x $E) (i Int)) (! (=> (and (<= 0 n) (<= n (LEN s)) (<= 0 i) (<= i (LEN s))) (= (IDX (INS s n x) i) (ite (< i n) (IDX s i) (ite (= i n) x (IDX s (- i 1)))))) :pattern ((IDX (INS s n x) i))))",
		"(forall ((s $S) (n Int) (x $E) (i Int)) (! (=> (and (<= 0 n) (<= n (LEN s)) (<= 0 i) (< i (LEN s))) (= (IDX (INS s n x) (ite (< i n) i (+ i 1))) (IDX s i))) :pattern ((INS s n x) (IDX s i))))",
		"(forall ((s $S) (n Int) (x $E)) (! (=> (and (<= 0 n) (<= n (LEN s))) (= (IDX (INS s n x) n) x)) :pattern ((INS s n x))))",
		"(forall ((s $S) (n Int)) (! (=> (and (<= 0 n) (< n (LEN s))) (= (LEN (REM s n)) (- (LEN s) 1))) :pattern ((REM s n))))",
		"(forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 n) (< n (LEN s)) (<= 0 i) (< i (- (LEN s) 1))) (= (IDX (REM s n) i) (ite (< i n) (IDX s i) (IDX s (+ i 1))))) :pattern ((IDX (REM s n) i))))",
		"(forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 n) (< n (LEN s)) (<= 0 i) (< i (LEN s)) (not (= i n))) (= (IDX (REM s n) (ite (< i n) i (- i 1))) (IDX s i))) :pattern ((REM s n) (IDX s i))))",
		"(forall ((s $S)) (! (= (LEN (REV s)) (LEN s)) :pattern ((REV s))))",
		"(forall ((s $S) (i Int)) (! (=> (and (<= 0 i) (< i (LEN s))) (= (IDX (REV s) i) (IDX s (- (- (LEN s) 1) i)))) :pattern ((IDX (REV s) i))))",
		"(forall ((s $S) (i Int)) (! (=> (and (<= 0 i) (< i (LEN s))) (= (IDX (REV s) (- (- (LEN s) 1) i)) (IDX s i))) :pattern ((REV s) (IDX s i))))",
		"(forall ((a $A) (o Int) (n Int)) (! (=> (<= 0 n) (= (LEN (ARRSEQ a o n)) n)) :pattern ((ARRSEQ a o n))))",
		"(forall ((a $A) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (IDX (ARRSEQ a o n) i) (select a (+ o i)))) :pattern ((IDX (ARRSEQ a o n) i))))",
		"(forall ((a $A) (o Int) (n Int) (i Int)) (! (=> (and (<= o i) (< i (+ o n))) (= (IDX (ARRSEQ a o n) (- i o)) (select a i))) :pattern ((ARRSEQ a o n) (select a i))))",
		"(forall ((a $A) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (<= k n)) (= (TAKE (ARRSEQ a o n) k) (ARRSEQ a o k))) :pattern ((TAKE (ARRSEQ a o n) k))))",
		"(forall ((a $A) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (<= k n)) (= (DROP (ARRSEQ a o n) k) (ARRSEQ a (+ o k) (- n k)))) :pattern ((DROP (ARRSEQ a o n) k))))",
		"(forall ((a $A) (o Int) (n Int) (i Int) (x $E)) (! (=> (and (>= n 1) (= i (+ o (- n 1)))) (= (ARRSEQ (store a i x) o n) (APP (ARRSEQ a o (- n 1)) (UNIT x)))) :pattern ((ARRSEQ (store a i x) o n))))",
		"(forall ((a $A) (o Int) (n Int) (i Int) (x $E)) (! (= (ARRSEQ (store a i x) o n) (ite (and (<= o i) (< i (+ o n))) (UPD (ARRSEQ a o n) (- i o) x) (ARRSEQ a o n))) :pattern ((ARRSEQ (store a i x) o n))))",
		"(forall ((a $S) (b $S)) (! (= (SEQEQ a b) (and (= (LEN a) (LEN b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (LEN a))) (= (IDX a i) (IDX b i))) :pattern ((IDX a i)) :pattern ((IDX b i)))))) :pattern ((SEQEQ a b))))",
		"(forall ((a $S) (b $S)) (! (=> (SEQEQ a b) (= a b)) :pattern ((SEQEQ a b))))",
	}
	for _, a := range ax {
		c.globals = append(c.globals, rp.Replace(a))
	}
}

func (c *Ctx) mk(op string, s *Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(':')
	b.WriteString(s.Name)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: op, Args: args, Sort: s, id: c.n, size: 1}
	for _, a := range args {
		t.size += a.size
		if a.open {
			t.open = true
		}
	}
	if t.size > 1000000 {
		t.size = 1000000
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Const(name string, s *Sort) *Term {
	if !c.declared[name] {
		c.declared[name] = true
		c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", name, s.Name))
	}
	return c.mk(name, s)
}

func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	prefix = mangle(prefix)
	if prefix == "" {
		prefix = "x"
	}
	c.fresh[prefix]++
	t := c.Const(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), s)
	if s == c.Ref {
		c.refs = append(c.refs, t)
	}
	return t
}

func (c *Ctx) BVar(prefix string, s *Sort) *Term {
	c.fresh["?"]++
	t := c.mk(fmt.Sprintf("%s?%d", mangle(prefix), c.fresh["?"]), s)
	t.open = true
	return t
}

func (c *Ctx) Fun(name string, ret *Sort, args []*Sort) {
	if c.funs[name] {
		return
	}
	c.funs[name] = true
	if len(args) == 0 {
		c.decls = append(c.decls, fmt.Sprintf("(declare-const %s %s)", name, ret.Name))
		return
	}
	var as []string
	for _, a := range args {
		as = append(as, a.Name)
	}
	c.decls = append(c.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), ret.Name))
}

func (c *Ctx) True() *Term  { return c.mk("true", c.Bool) }
func (c *Ctx) False() *Term { return c.mk("false", c.Bool) }
func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (c *Ctx) I(n int64) *Term     { return c.mk(strconv.FormatInt(n, 10), c.Int) }
func (c *Ctx) BigI(s string) *Term { return c.mk(s, c.Int) }
func (c *Ctx) Nil() *Term          { return c.mk("0", c.Ref) }
func (c *Ctx) FNil() *Term         { return c.mk("0", c.Fn) }
func (c *Ctx) VNil() *Term         { return c.mk("vnil", c.Val) }
func (c *Ctx) NilSlice() *Term     { return c.mk("mkSlice", c.Slice, c.Nil(), c.I(0), c.I(0), c.I(0)) }
func (t *Term) isTrue() bool       { return t.Op == "true" }
func (t *Term) isFalse() bool      { return t.Op == "false" }
func (t *Term) isInt() (int64, bool) {
	if len(t.Args) > 0 || t.Sort.Kind != KInt {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Op, 10, 64)
	return n, err == nil
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.False()
	case a.isFalse():
		return c.True()
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk("not", c.Bool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() {
			return a
		}
		if a.isTrue() {
			continue
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", c.Bool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.isTrue() {
			return a
		}
		if a.isFalse() {
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", c.Bool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk("=>", c.Bool, a, b)
}

func isCtor(t *Term) bool {
	return t.Sort.Kind == KData
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.Sort != b.Sort {
		if a.Sort.Kind == KInt && b.Sort.Kind == KInt {
			b = c.cast(b, a.Sort)
			if a == b {
				return c.True()
			}
		} else {
			panic(fmt.Sprintf("sort mismatch in equality: %s : %s vs %s : %s", a, a.Sort.Name, b, b.Sort.Name))
		}
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return c.B(x == y)
		}
	}
	if a.Sort.Kind == KBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	ca, oka := c.ctors[a.Op]
	cb, okb := c.ctors[b.Op]
	if oka && okb {
		if ca != cb {
			return c.False()
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", c.Bool, a, b)
}

// cast reinterprets between Int-represented sorts (Int, Ref, Fn).
func (c *Ctx) cast(t *Term, s *Sort) *Term {
	if t.Sort == s {
		return t
	}
	if len(t.Args) == 0 {
		return c.mk(t.Op, s)
	}
	return c.mk("+", s, t, c.mk("0", s))
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isTrue() || a == b {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s / %s", a, b))
	}
	if a.isTrue() && b.isFalse() {
		return p
	}
	return c.mk("ite", a.Sort, p, a, b)
}

func (c *Ctx) lin(t *Term) (*Term, int64) { // t = base + k
	if n, ok := t.isInt(); ok {
		return nil, n
	}
	if t.Op == "+" && len(t.Args) == 2 {
		if n, ok := t.Args[1].isInt(); ok {
			return t.Args[0], n
		}
	}
	return t, 0
}

func (c *Ctx) mkLin(b *Term, k int64, s *Sort) *Term {
	if b == nil {
		return c.mk(strconv.FormatInt(k, 10), s)
	}
	if k == 0 {
		return b
	}
	return c.mk("+", s, b, c.mk(strconv.FormatInt(k, 10), s))
}

func small(k int64) bool { return k < 1<<60 && k > -(1<<60) }

func (c *Ctx) Add(a, b *Term) *Term {
	x, k := c.lin(a)
	y, l := c.lin(b)
	if !small(k) || !small(l) {
		return c.mk("+", c.Int, a, b)
	}
	if x == nil {
		return c.mkLin(y, k+l, c.Int)
	}
	if y == nil {
		return c.mkLin(x, k+l, c.Int)
	}
	if x.Op == "-" && len(x.Args) == 2 && x.Args[1] == y {
		return c.Add(x.Args[0], c.I(k+l))
	}
	if y.Op == "-" && len(y.Args) == 2 && y.Args[1] == x {
		return c.Add(y.Args[0], c.I(k+l))
	}
	return c.mkLin(c.mk("+", c.Int, x, y), k+l, c.Int)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.I(0)
	}
	x, k := c.lin(a)
	y, l := c.lin(b)
	if !small(k) || !small(l) {
		return c.mk("-", c.Int, a, b)
	}
	if y == nil {
		return c.mkLin(x, k-l, c.Int)
	}
	if x == y {
		return c.I(k - l)
	}
	if x == nil {
		x = c.I(0)
	}
	if x.Op == "+" && len(x.Args) == 2 {
		if x.Args[0] == y {
			return c.Add(x.Args[1], c.I(k-l))
		}
		if x.Args[1] == y {
			return c.Add(x.Args[0], c.I(k-l))
		}
	}
	return c.mkLin(c.mk("-", c.Int, x, y), k-l, c.Int)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	x, ok := a.isInt()
	y, ok2 := b.isInt()
	if ok && ok2 && x < 1<<30 && x > -(1<<30) && y < 1<<30 && y > -(1<<30) {
		return c.I(x * y)
	}
	if ok && x == 1 {
		return b
	}
	if ok2 && y == 1 {
		return a
	}
	return c.mk("*", c.Int, a, b)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.I(0), a) }

func (c *Ctx) Cmp(op string, a, b *Term) *Term {
	x, ok := a.isInt()
	y, ok2 := b.isInt()
	if ok && ok2 {
		switch op {
		case "<":
			return c.B(x < y)
		case "<=":
			return c.B(x <= y)
		case ">":
			return c.B(x > y)
		case ">=":
			return c.B(x >= y)
		}
	}
	if a == b {
		return c.B(op == "<=" || op == ">=")
	}
	switch op {
	case ">":
		return c.Cmp("<", b, a)
	case ">=":
		return c.Cmp("<=", b, a)
	}
	return c.mk(op, c.Bool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Cmp("<", a, b) }
func (c *Ctx) Le(a, b *Term) *Term { return c.Cmp("<=", a, b) }

func (c *Ctx) Select(a, i *Term) *Term {
	for a.Op == "store" {
		e := c.Eq(a.Args[1], i)
		if e.isTrue() {
			return a.Args[2]
		}
		if e.isFalse() || c.diff(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return c.mk("select", a.Sort.Elem, a, i)
}

func (c *Ctx) diff(a, b *Term) bool {
	x, k := c.lin(a)
	y, l := c.lin(b)
	return x == y && k != l
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.Sort.Elem != v.Sort {
		v = c.cast(v, a.Sort.Elem)
	}
	return c.mk("store", a.Sort, a, i, v)
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term { return c.mk("constarr", s, v) }

func (c *Ctx) Con(name string, args ...*Term) *Term {
	ct := c.ctors[name]
	if len(args) != len(ct.Fields) {
		panic("arity of constructor " + name)
	}
	for i := range args {
		if args[i].Sort != ct.Fields[i].Sort {
			if args[i].Sort.Kind == KInt && ct.Fields[i].Sort.Kind == KInt {
				args[i] = c.cast(args[i], ct.Fields[i].Sort)
			} else {
				panic(fmt.Sprintf("constructor %s argument %d: got %s : %s want %s", name, i, args[i], args[i].Sort.Name, ct.Fields[i].Sort.Name))
			}
		}
	}
	return c.mk(name, ct.Sort, args...)
}

func (c *Ctx) Sel(ct *Ctor, i int, t *Term) *Term {
	if t.Op == ct.Name {
		return t.Args[i]
	}
	if t.Op == "ite" {
		_, a := c.ctors[t.Args[1].Op]
		_, b := c.ctors[t.Args[2].Op]
		if a && b {
			return c.Ite(t.Args[0], c.Sel(ct, i, t.Args[1]), c.Sel(ct, i, t.Args[2]))
		}
	}
	return c.mk(c.selName(ct, i), ct.Fields[i].Sort, t)
}

func (c *Ctx) Is(ct *Ctor, t *Term) *Term {
	if o, ok := c.ctors[t.Op]; ok {
		return c.B(o == ct)
	}
	if len(ct.Sort.Ctor) == 1 {
		return c.True()
	}
	return c.mk("is:"+ct.Name, c.Bool, t)
}

func (c *Ctx) SliceF(i int, t *Term) *Term { return c.Sel(c.ctors["mkSlice"], i, t) }
func (c *Ctx) MkSlice(b, o, l, k *Term) *Term {
	return c.Con("mkSlice", b, o, l, k)
}

func (c *Ctx) App(name string, ret *Sort, args ...*Term) *Term {
	return c.mk(name, ret, args...)
}

func (c *Ctx) SeqF(f string, s *Sort) string { return f + "_" + s.Name }
func (c *Ctx) Len(s *Term) *Term             { return c.mk(c.SeqF("len", s.Sort), c.Int, s) }
func (c *Ctx) Idx(s, i *Term) *Term          { return c.mk(c.SeqF("idx", s.Sort), s.Sort.Elem, s, i) }

func (c *Ctx) Forall(vs []*Term, pats [][]*Term, body *Term) *Term {
	return c.quant("forall", vs, pats, body)
}
func (c *Ctx) Exists(vs []*Term, pats [][]*Term, body *Term) *Term {
	return c.quant("exists", vs, pats, body)
}
func (c *Ctx) quant(op string, vs []*Term, pats [][]*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() || len(vs) == 0 {
		return body
	}
	var b strings.Builder
	b.WriteString(op)
	for _, v := range vs {
		b.WriteByte(' ')
		b.WriteString(v.Op)
	}
	for _, p := range pats {
		b.WriteString("|")
		for _, t := range p {
			b.WriteByte(' ')
			b.WriteString(strconv.Itoa(t.id))
		}
	}
	k := b.String() + " @ " + strconv.Itoa(body.id)
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: op, Args: []*Term{body}, Sort: c.Bool, Bound: vs, Pats: pats, id: c.n, size: body.size + 5}
	inner := map[string]bool{}
	for _, v := range vs {
		inner[v.Op] = true
	}
	t.open = hasFree(body, inner, map[int]bool{})
	c.tab[k] = t
	return t
}

func hasFree(t *Term, bound map[string]bool, seen map[int]bool) bool {
	if !t.open || seen[t.id] {
		return false
	}
	seen[t.id] = true
	if len(t.Args) == 0 {
		return strings.Contains(t.Op, "?") && !bound[t.Op]
	}
	if len(t.Bound) > 0 {
		nb := map[string]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.Bound {
			nb[v.Op] = true
		}
		return hasFree(t.Args[0], nb, map[int]bool{})
	}
	for _, a := range t.Args {
		if hasFree(a, bound, seen) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string {
	s := t.smt(nil)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func num(s string) string {
	if strings.HasPrefix(s, "-") && len(s) > 1 && s[1] >= '0' && s[1] <= '9' {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (t *Term) smt(c *Ctx) string {
	var b strings.Builder
	t.write(c, &b)
	return b.String()
}

func (t *Term) write(c *Ctx, b *strings.Builder) {
	if len(t.Args) == 0 {
		b.WriteString(num(t.Op))
		return
	}
	if c != nil && !t.open && t.size > 40 && len(t.Bound) == 0 {
		d, ok := c.defs[t.id]
		if !ok {
			var e strings.Builder
			t.write1(c, &e)
			c.named++
			d = fmt.Sprintf("$d%d", c.named)
			c.defs[t.id] = d
			c.decls = append(c.decls, fmt.Sprintf("(define-fun %s () %s %s)", d, t.Sort.Name, e.String()))
		}
		b.WriteString(d)
		return
	}
	t.write1(c, b)
}

func (t *Term) write1(c *Ctx, b *strings.Builder) {
	if len(t.Bound) > 0 {
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Bound {
			fmt.Fprintf(b, "(%s %s)", v.Op, v.Sort.Name)
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].write(c, b)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteString(" ")
					}
					x.write(c, b)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	switch {
	case t.Op == "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.Sort.Name)
	case strings.HasPrefix(t.Op, "is:"):
		fmt.Fprintf(b, "((_ is %s) ", t.Op[3:])
	default:
		b.WriteString("(" + t.Op + " ")
	}
	for i, a := range t.Args {
		if i > 0 {
			b.WriteString(" ")
		}
		a.write(c, b)
	}
	b.WriteString(")")
}

// Goal rewrites positive sequence equalities to extensional equality.
func (c *Ctx) Goal(t *Term, pos bool) *Term {
	switch t.Op {
	case "=":
		if pos && t.Args[0].Sort.Kind == KSeq {
			return c.mk("seqeq_"+t.Args[0].Sort.Name, c.Bool, t.Args...)
		}
		if t.Args[0].Sort.Kind == KBool {
			return t
		}
		if pos && t.Args[0].Sort.Kind == KData {
			ca, oka := c.ctors[t.Args[0].Op]
			if !oka {
				ca, oka = c.ctors[t.Args[1].Op]
			}
			if oka && hasSeq(ca) {
				var cs []*Term
				cs = append(cs, c.Is(ca, t.Args[0]), c.Is(ca, t.Args[1]))
				for i := range ca.Fields {
					cs = append(cs, c.Goal(c.Eq(c.Sel(ca, i, t.Args[0]), c.Sel(ca, i, t.Args[1])), pos))
				}
				return c.And(cs...)
			}
		}
		return t
	case "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, c.Goal(a, pos))
		}
		return c.And(as...)
	case "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, c.Goal(a, pos))
		}
		return c.Or(as...)
	case "not":
		return c.Not(c.Goal(t.Args[0], !pos))
	case "=>":
		return c.Imp(c.Goal(t.Args[0], !pos), c.Goal(t.Args[1], pos))
	case "ite":
		if t.Sort.Kind == KBool {
			return c.Ite(t.Args[0], c.Goal(t.Args[1], pos), c.Goal(t.Args[2], pos))
		}
	case "forall", "exists":
		return c.quant(t.Op, t.Bound, t.Pats, c.Goal(t.Args[0], pos))
	}
	return t
}

func hasSeq(ct *Ctor) bool {
	for _, f := range ct.Fields {
		if f.Sort.Kind == KSeq {
			return true
		}
	}
	return false
}

// Subst replaces constants/variables by name.
func (c *Ctx) Subst(t *Term, m map[string]*Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if len(t.Args) == 0 {
			r = t
			if x, ok := m[t.Op]; ok {
				r = x
			}
		} else if len(t.Bound) > 0 {
			var ps [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, f(x))
				}
				ps = append(ps, q)
			}
			r = c.quant(t.Op, t.Bound, ps, f(t.Args[0]))
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = f(a)
				if args[i] != a {
					ch = true
				}
			}
			if ch {
				r = c.rebuild(t, args)
			} else {
				r = t
			}
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "=":
		return c.Eq(args[0], args[1])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "not":
		return c.Not(args[0])
	case "=>":
		return c.Imp(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "select":
		return c.Select(args[0], args[1])
	}
	if s, ok := c.sels[t.Op]; ok {
		return c.Sel(s.c, s.i, args[0])
	}
	if strings.HasPrefix(t.Op, "is:") {
		return c.Is(c.ctors[t.Op[3:]], args[0])
	}
	return c.mk(t.Op, t.Sort, args...)
}
