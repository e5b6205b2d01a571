package main

import (
	"bytes"
	"sort"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

type itemser interface{ Items() types.KIterator }

// checkMap compares every observable of a map with the model.
func checkMap(m types.Map, model map[int]kvp, sorted bool, probe []int, mode int) error {
	if m.Size() != len(model) {
		return errf("Size() = %d want %d", m.Size(), len(model))
	}
	for _, p := range probe {
		k := key(p, mode, -1)
		e, has := model[p]
		if m.Has(k) != has {
			return errf("Has(%v) = %v", k, !has)
		}
		v, err := m.Get(k)
		if has != (err == nil) {
			return errf("Get(%v): err=%v want present=%v", k, err != nil, has)
		}
		if has && v != e.v {
			return errf("Get(%v) = %v want %v", k, v, e.v)
		}
		if !has && v != nil {
			return errf("Get(%v) absent returned %v", k, v)
		}
	}
	kvs, err := collectKV(m.Iterate(), len(model)+1)
	if err != nil {
		return errf("Iterate: %v", err)
	}
	if len(kvs) != len(model) {
		return errf("Iterate yields %d of %d entries: %v", len(kvs), len(model), kvs)
	}
	seen := map[int]bool{}
	for i, e := range kvs {
		r := e.k.(*K).rank
		w, has := model[r]
		if !has || seen[r] {
			return errf("Iterate yields %v twice or absent", e.k)
		}
		seen[r] = true
		if e.v != w.v {
			return errf("Iterate yields %v=%v want %v", e.k, e.v, w.v)
		}
		if sorted && i > 0 && kvs[i-1].k.(*K).rank >= r {
			return errf("Iterate out of order: %v", kvs)
		}
	}
	ks, err := collectK(m.Keys(), len(model)+1)
	if err != nil {
		return errf("Keys: %v", err)
	}
	vs, err := collectV(m.Values(), len(model)+1)
	if err != nil {
		return errf("Values: %v", err)
	}
	if len(ks) != len(kvs) || len(vs) != len(kvs) {
		return errf("Keys/Values lengths %d/%d want %d", len(ks), len(vs), len(kvs))
	}
	for i := range kvs {
		if ks[i] != kvs[i].k || vs[i] != kvs[i].v {
			return errf("Keys/Values disagree with Iterate at %d", i)
		}
	}
	if im, ok := m.(itemser); ok {
		is, err := collectK(im.Items(), len(model)+1)
		if err != nil || len(is) != len(kvs) {
			return errf("Items: %d entries, %v", len(is), err)
		}
		for i := range is {
			me, ok := is[i].(*types.MapEntry)
			if !ok || me.Key != kvs[i].k || me.Value != kvs[i].v {
				return errf("Items disagree with Iterate at %d: %v", i, is[i])
			}
		}
	}
	return nil
}

// val is what step i stores: now and then nil, otherwise something found nowhere else.
func val(i int) interface{} {
	if i%5 == 1 {
		return nil
	}
	return i
}

func runMap(mk func(ops []Op) types.Map, sorted bool, modes bool) func(ops []Op) error {
	return func(ops []Op) error {
		m := mk(ops)
		model := map[int]kvp{}
		mode := 0
		if modes && len(ops) > 0 {
			mode = ops[0].B
		}
		for i, o := range ops {
			k := key(o.A, mode, i)
			e, has := model[o.A]
			fail := func(err error) error { return errf("step %d: %v", i, err) }
			switch o.C {
			case 0, 1:
				if err := m.Put(k, val(i)); err != nil {
					return fail(errf("Put(%v): %.100s", k, err))
				}
				model[o.A] = kvp{k, val(i)}
			case 2:
				v, err := m.Remove(k)
				if has != (err == nil) {
					return fail(errf("Remove(%v): err=%v present=%v", k, err != nil, has))
				}
				if has && v != e.v {
					return fail(errf("Remove(%v) = %v want %v", k, v, e.v))
				}
				delete(model, o.A)
			case 3:
				v, err := m.Get(k)
				if has != (err == nil) || (has && v != e.v) || m.Has(k) != has {
					return fail(errf("Get/Has(%v) = %v", k, v))
				}
			}
			if i == len(ops)-1 || (len(ops) > 20 && i%37 == 0) {
				probe := []int{o.A, o.A + 1, o.A - 1, 0, 1}
				for j := 0; j <= i && len(ops) < 200; j++ {
					probe = append(probe, ops[j].A)
				}
				if err := checkMap(m, model, sorted, probe, mode); err != nil {
					return fail(err)
				}
			} else if m.Size() != len(model) {
				return fail(errf("Size() = %d want %d", m.Size(), len(model)))
			}
		}
		return nil
	}
}

var mapNames = []string{"Put", "Put", "Remove", "Get"}

type treed interface {
	Root() types.TreeNode
}

// runSnap: the root handed out at any time keeps describing the same tree.
func runSnap(ops []Op) error {
	t := avl.NewImmutableAvlTree()
	model := map[int]kvp{}
	type snap struct {
		n *avl.ImmutableAvlNode
		m map[int]kvp
	}
	var snaps []snap
	for i, o := range ops {
		k := key(o.A, 0, i)
		switch o.C {
		case 0, 1:
			t.Put(k, val(i))
			model[o.A] = kvp{k, val(i)}
		case 2:
			t.Remove(k)
			delete(model, o.A)
		case 3:
			c := map[int]kvp{}
			for k, v := range model {
				c[k] = v
			}
			snaps = append(snaps, snap{t.Root().(*avl.ImmutableAvlNode), c})
			if len(snaps) > 6 {
				snaps = snaps[1:]
			}
		case 4: // branch: operate on a node directly
			if len(snaps) > 0 {
				s := snaps[o.B%len(snaps)]
				n, _ := s.n.Put(k, val(i))
				c := map[int]kvp{}
				for k, v := range s.m {
					c[k] = v
				}
				c[o.A] = kvp{k, val(i)}
				snaps = append(snaps, snap{n, c})
			}
		case 5:
			if len(snaps) > 0 {
				s := snaps[o.B%len(snaps)]
				n, _, err := s.n.Remove(k)
				if err == nil {
					c := map[int]kvp{}
					for k, v := range s.m {
						c[k] = v
					}
					delete(c, o.A)
					snaps = append(snaps, snap{n, c})
				}
			}
		}
		for si, s := range snaps {
			if s.n.Size() != len(s.m) {
				return errf("step %d: snapshot %d: size %d want %d", i, si, s.n.Size(), len(s.m))
			}
			kvs, err := collectKV(s.n.Iterate(), len(s.m)+1)
			if err != nil || len(kvs) != len(s.m) {
				return errf("step %d: snapshot %d iterates %d of %d", i, si, len(kvs), len(s.m))
			}
			for j, e := range kvs {
				if j > 0 && !kvs[j-1].k.Less(e.k) {
					return errf("step %d: snapshot %d out of order", i, si)
				}
				if w, has := s.m[e.k.(*K).rank]; !has || w.v != e.v {
					return errf("step %d: snapshot %d yields %v=%v want %v", i, si, e.k, e.v, w.v)
				}
				if v, err := s.n.Get(e.k); err != nil || v != e.v {
					return errf("step %d: snapshot %d Get(%v)", i, si, e.k)
				}
			}
		}
	}
	return nil
}

// --- trie

var alphabet = []byte{1, 'a', 'b', 255, 0}

func trieKey(a int) []byte {
	// bijective base-4 words plus, rarely, one containing a null byte
	var w []byte
	if a%31 == 30 {
		return append(trieKey(a/31), 0, 'a')
	}
	for a > 0 {
		a--
		w = append(w, alphabet[a%4])
		a /= 4
	}
	return w
}

func runTrie(ops []Op) error {
	t := trie.New()
	model := map[string]interface{}{}
	type buf struct{ full, want []byte }
	var bufs []buf
	mk := func(o Op) []byte {
		w := trieKey(o.A)
		spare := []byte{7, 8, 9}[:o.B%4]
		b := append(append([]byte{}, w...), spare...)
		bufs = append(bufs, buf{b, append([]byte{}, b...)})
		if len(bufs) > 40 {
			bufs = bufs[1:]
		}
		return b[:len(w)]
	}
	for i, o := range ops {
		k := mk(o)
		valid := len(k) > 0 && bytes.IndexByte(k, 0) < 0
		old, has := model[string(k)]
		fail := func(f string, a ...interface{}) error {
			return errf("step %d key %q: "+f, append([]interface{}{i, k}, a...)...)
		}
		switch o.C {
		case 0, 1:
			err := t.Put(k, val(i))
			if valid != (err == nil) {
				return fail("Put err=%.200v valid=%v", err, valid)
			}
			if valid {
				model[string(k)] = val(i)
			}
		case 2:
			v, err := t.Remove(k)
			if has != (err == nil) {
				return fail("Remove err=%v present=%v", err != nil, has)
			}
			if has && v != old {
				return fail("Remove = %v want %v", v, old)
			}
			delete(model, string(k))
		case 3:
			v, err := t.Get(k)
			if has != (err == nil) || (has && v != old) || t.Has(k) != has {
				return fail("Get = %v err=%v want %v,%v", v, err != nil, old, has)
			}
		case 4: // the caller reuses its buffer after the call
			if err := t.Put(k, val(i)); valid != (err == nil) {
				return fail("Put err=%.200v valid=%v", err, valid)
			}
			if valid {
				model[string(k)] = val(i)
			}
			full := bufs[len(bufs)-1].full
			for j := range full {
				full[j] = 'z'
			}
			bufs = bufs[:len(bufs)-1]
		}
		for _, b := range bufs {
			if !bytes.Equal(b.full, b.want) {
				return errf("step %d: the caller's buffer changed from %v to %v", i, b.want, b.full)
			}
		}
		if i == len(ops)-1 || (len(ops) > 20 && i%23 == 0) {
			probes := []string{string(k), string(k) + "a", "a", "b", "ab"}
			for w := range model {
				probes = append(probes, w)
			}
			for _, w := range probes {
				v, err := t.Get([]byte(w))
				x, has := model[w]
				if has != (err == nil) || (has && v != x) || t.Has([]byte(w)) != has {
					return errf("step %d: Get(%q) = %v err=%v want %v,%v", i, w, v, err != nil, x, has)
				}
			}
		}
	}
	return nil
}

func runTrieIter(ops []Op) error {
	t := trie.New()
	model := map[string]interface{}{}
	for i, o := range ops {
		k := trieKey(o.A)
		if len(k) == 0 || bytes.IndexByte(k, 0) >= 0 {
			continue
		}
		switch o.C {
		case 0, 1:
			if err := t.Put(k, val(i)); err != nil {
				return errf("step %d: Put(%q): %.200v", i, k, err)
			}
			model[string(k)] = val(i)
		case 2:
			t.Remove(k)
			delete(model, string(k))
		}
		if o.C < 3 && i != len(ops)-1 {
			continue
		}
		prefixes := []string{"", string(k), "a", "\xff", string(k) + "aaaaaaaaaaaaaaaaaaaaaaaaa", string(k[:len(k)/2])}
		for _, p := range prefixes {
			var want []string
			for w := range model {
				if bytes.HasPrefix([]byte(w), []byte(p)) {
					want = append(want, w)
				}
			}
			sort.Strings(want)
			got, err := collectKV(t.PrefixFind(types.ByteSlice(p)), len(want)+1)
			if err != nil {
				return errf("step %d: PrefixFind(%q): %v", i, p, err)
			}
			if len(got) != len(want) {
				return errf("step %d: PrefixFind(%q) yields %q want %q", i, p, got, want)
			}
			for j := range got {
				if string(got[j].k.(types.ByteSlice)) != want[j] || got[j].v != model[want[j]] {
					return errf("step %d: PrefixFind(%q)[%d] = %q=%v want %q", i, p, j, got[j].k, got[j].v, want[j])
				}
			}
		}
		got, err := collectKV(t.Iterate(), len(model)+1)
		if err != nil || len(got) != len(model) {
			return errf("step %d: Iterate yields %d of %d", i, len(got), len(model))
		}
		ks, err := collectK(t.Keys(), len(model)+1)
		if err != nil || len(ks) != len(got) {
			return errf("step %d: Keys", i)
		}
		vs, err := collectV(t.Values(), len(model)+1)
		if err != nil || len(vs) != len(got) {
			return errf("step %d: Values", i)
		}
		is, err := collectK(t.Items(), len(model)+1)
		if err != nil || len(is) != len(got) {
			return errf("step %d: Items", i)
		}
		for j := range got {
			if j > 0 && !got[j-1].k.Less(got[j].k) {
				return errf("step %d: Iterate out of order: %q", i, got)
			}
			if v, has := model[string(got[j].k.(types.ByteSlice))]; !has || v != got[j].v {
				return errf("step %d: Iterate yields %q=%v", i, got[j].k, got[j].v)
			}
			if !ks[j].Equals(got[j].k) || vs[j] != got[j].v || !is[j].(*types.MapEntry).Key.Equals(got[j].k) {
				return errf("step %d: Keys/Values/Items disagree at %d", i, j)
			}
		}
	}
	return nil
}

// --- B+tree multimap

func runBp(removal bool) func(ops []Op) error {
	return func(ops []Op) error {
		ns := 2
		if len(ops) > 0 {
			ns = 2 + ops[len(ops)-1].B%5
		}
		t := bptree.NewBpTree(ns)
		var model []kvp // sorted by key, insertion order irrelevant among equals
		count := func(r int) int {
			n := 0
			for _, e := range model {
				if e.k.(*K).rank == r {
					n++
				}
			}
			return n
		}
		same := func(what string, got, want []kvp, back bool) error {
			if len(got) != len(want) {
				return errf("%s yields %v want %v", what, got, want)
			}
			bag := map[kvp]int{}
			for i := range got {
				bag[got[i]]++
				bag[want[i]]--
				if got[i].k.(*K).rank != want[i].k.(*K).rank {
					return errf("%s yields %v want %v", what, got, want)
				}
			}
			for e, n := range bag {
				if n != 0 {
					return errf("%s: entry %v=%v appears %+d times too often", what, e.k, e.v, n)
				}
			}
			return nil
		}
		rng := func(lo, hi int) []kvp {
			var out []kvp
			for _, e := range model {
				if r := e.k.(*K).rank; r >= lo && r <= hi {
					out = append(out, e)
				}
			}
			return out
		}
		revkv := func(x []kvp) []kvp {
			y := make([]kvp, len(x))
			for i := range x {
				y[len(x)-1-i] = x[i]
			}
			return y
		}
		for i, o := range ops {
			k := key(o.A, 0, i)
			fail := func(err error) error { return errf("step %d (node size %d): %v", i, ns, err) }
			switch o.C {
			case 0, 1, 2:
				if err := t.Add(k, i); err != nil {
					return fail(errf("Add: %.200s", err))
				}
				model = append(model, kvp{k, i})
				sort.SliceStable(model, func(a, b int) bool { return model[a].k.Less(model[b].k) })
			case 3: // replace
				sel := func(v interface{}) bool { return v.(int)%2 == o.B%2 }
				if err := t.Replace(k, sel, i); err != nil {
					return fail(errf("Replace: %.200s", err))
				}
				for j := range model {
					if model[j].k.Equals(k) && sel(model[j].v) {
						model[j].v = i
					}
				}
			case 4: // remove where
				if !removal {
					continue
				}
				sel := func(v interface{}) bool { return o.B%3 == 0 || v.(int)%2 == o.B%2 }
				err := t.RemoveWhere(k, sel)
				var keep []kvp
				for _, e := range model {
					if !(e.k.Equals(k) && sel(e.v)) {
						keep = append(keep, e)
					}
				}
				if err != nil {
					return fail(errf("RemoveWhere: %.200s", err))
				}
				model = keep
			case 5:
				if t.Has(k) != (count(o.A) > 0) || t.Count(k) != count(o.A) {
					return fail(errf("Has/Count(%v) = %v/%d want %d", k, t.Has(k), t.Count(k), count(o.A)))
				}
			case 6: // range
				lo, hi := o.A, o.B%7
				if len(ops) > 20 {
					hi = o.A + o.B%30 - 15
				}
				got, err := collectKV(t.Range(k, key(hi, 0, -1)), len(model)+1)
				if err != nil {
					return fail(errf("Range(%d,%d): %v", lo, hi, err))
				}
				want := rng(lo, hi)
				if hi < lo {
					want = revkv(rng(hi, lo))
				}
				if err := same("Range", got, want, hi < lo); err != nil {
					return fail(errf("Range(%d,%d): %v", lo, hi, err))
				}
			case 7:
				got, err := collectKV(t.Find(k), len(model)+1)
				if err != nil {
					return fail(err)
				}
				if err := same("Find", got, rng(o.A, o.A), false); err != nil {
					return fail(errf("Find(%v): %v", k, err))
				}
			}
			if t.Size() != len(model) {
				return fail(errf("Size() = %d want %d", t.Size(), len(model)))
			}
			if i == len(ops)-1 || (len(ops) > 20 && i%17 == 0) {
				got, err := collectKV(t.Iterate(), len(model)+1)
				if err != nil {
					return fail(err)
				}
				if err := same("Iterate", got, model, false); err != nil {
					return fail(err)
				}
				got, err = collectKV(t.Backward(), len(model)+1)
				if err != nil {
					return fail(err)
				}
				if err := same("Backward", got, revkv(model), true); err != nil {
					return fail(err)
				}
				vs, err := collectV(t.Values(), len(model)+1)
				if err != nil || len(vs) != len(model) {
					return fail(errf("Values"))
				}
				is, err := collectK(t.Items(), len(model)+1)
				if err != nil || len(is) != len(model) {
					return fail(errf("Items"))
				}
				ks, err := collectK(t.Keys(), len(model)+1)
				if err != nil {
					return fail(err)
				}
				j := 0
				for a := range model {
					if a > 0 && model[a].k.Equals(model[a-1].k) {
						continue
					}
					if j >= len(ks) || !ks[j].Equals(model[a].k) {
						return fail(errf("Keys = %v, model %v", ks, model))
					}
					j++
				}
				if j != len(ks) {
					return fail(errf("Keys = %v, model %v", ks, model))
				}
				for r := range []int{0, 1, 2, 3, o.A} {
					if t.Count(key(r, 0, -1)) != count(r) || t.Has(key(r, 0, -1)) != (count(r) > 0) {
						return fail(errf("Count(%d) = %d want %d", r, t.Count(key(r, 0, -1)), count(r)))
					}
				}
			}
		}
		return nil
	}
}

// --- set algebra

func mkSet(kind int, ranks []int, mode int) types.Set {
	switch kind % 3 {
	case 0:
		s := set.NewSortedSet(0)
		for i, r := range ranks {
			s.Add(key(r, mode, i))
		}
		return s
	case 1:
		s := set.NewSetMap(hashtable.NewLinearHash())
		for i, r := range ranks {
			s.Add(key(r, mode, i))
		}
		return s
	default:
		s := set.NewMapSet(set.NewSortedSet(0))
		for i, r := range ranks {
			s.Put(key(r, mode, i), r*2)
		}
		return s
	}
}

func rankOf(h types.Hashable) int {
	if me, ok := h.(*types.MapEntry); ok {
		h = me.Key
	}
	return h.(*K).rank
}

func runSetAlg(ops []Op) error {
	if len(ops) == 0 {
		ops = []Op{{0, 0, 0}}
	}
	mode := ops[0].B
	var ra, rb []int
	a, b := map[int]bool{}, map[int]bool{}
	for _, o := range ops {
		if o.C != 1 {
			ra = append(ra, o.A)
			a[o.A] = true
		}
		if o.C != 0 {
			rb = append(rb, o.A)
			b[o.A] = true
		}
	}
	got := func(s types.Set) (map[int]bool, error) {
		xs, err := collectK(s.Items(), 100000)
		if err != nil {
			return nil, err
		}
		out := map[int]bool{}
		for _, x := range xs {
			if out[rankOf(x)] {
				return nil, errf("result contains %v twice", x)
			}
			out[rankOf(x)] = true
		}
		if s.Size() != len(xs) {
			return nil, errf("result Size() = %d but %d items", s.Size(), len(xs))
		}
		return out, nil
	}
	for ka := 0; ka < 3; ka++ {
		for kb := 0; kb < 3; kb++ {
			if (ka == 2) != (kb == 2) {
				continue // map entries and bare keys are different element types
			}
			sa, sb := mkSet(ka, ra, mode), mkSet(kb, rb, mode)
			chk := func(what string, f func(types.Set) (types.Set, error), in func(int) bool) error {
				r, err := f(sb)
				if err != nil {
					return errf("%T.%s(%T): %.200s", sa, what, sb, err)
				}
				g, err := got(r)
				if err != nil {
					return errf("%T.%s(%T): %v", sa, what, sb, err)
				}
				for _, x := range append(append([]int{}, ra...), rb...) {
					if g[x] != in(x) {
						return errf("%T%v.%s(%T%v): contains %d = %v", sa, ra, what, sb, rb, x, g[x])
					}
				}
				for _, x := range append(append([]int{}, ra...), rb...) {
					delete(g, x)
				}
				if len(g) != 0 {
					return errf("%T.%s(%T): foreign elements", sa, what, sb)
				}
				ga, err := got(sa)
				if err != nil || len(ga) != len(a) {
					return errf("%s changed its receiver", what)
				}
				gb, err := got(sb)
				if err != nil || len(gb) != len(b) {
					return errf("%s changed its argument", what)
				}
				return nil
			}
			if err := chk("Union", sa.Union, func(x int) bool { return a[x] || b[x] }); err != nil {
				return err
			}
			if err := chk("Intersect", sa.Intersect, func(x int) bool { return a[x] && b[x] }); err != nil {
				return err
			}
			if err := chk("Subtract", sa.Subtract, func(x int) bool { return a[x] && !b[x] }); err != nil {
				return err
			}
			sub, sup, over := true, true, false
			for x := range a {
				sub = sub && b[x]
				over = over || b[x]
			}
			for x := range b {
				sup = sup && a[x]
			}
			if sa.Subset(sb) != sub || sa.Superset(sb) != sup || sa.ProperSubset(sb) != (sub && !sup) || sa.ProperSuperset(sb) != (sup && !sub) {
				return errf("%T%v vs %T%v: Subset=%v Superset=%v ProperSubset=%v ProperSuperset=%v", sa, ra, sb, rb, sa.Subset(sb), sa.Superset(sb), sa.ProperSubset(sb), sa.ProperSuperset(sb))
			}
			if x, ok := sa.(*set.SortedSet); ok {
				if y, ok := sb.(*set.SortedSet); ok && x.Overlap(y) != over {
					return errf("Overlap(%v,%v) = %v", ra, rb, !over)
				}
			}
			if ka != 1 && kb == ka && sa.Equals(sb) != (sub && sup) {
				return errf("%T%v.Equals(%v) = %v", sa, ra, rb, !(sub && sup))
			}
		}
	}
	ms := mkSet(2, ra, mode).(*set.MapSet)
	for i, r := range append(append([]int{}, ra...), rb...) {
		it, err := ms.Item(key(r, mode, i))
		if (err == nil) != a[r] {
			return errf("MapSet%v.Item(%d): err=%v", ra, r, err != nil)
		}
		if me, ok := it.(*types.MapEntry); a[r] && (!ok || rankOf(me.Key) != r || me.Value != r*2) {
			return errf("MapSet%v.Item(%d) = %v", ra, r, it)
		}
		if v, err := ms.Get(key(r, mode, i)); (err == nil) != a[r] || a[r] && v != r*2 {
			return errf("MapSet%v.Get(%d) = %v, err=%v", ra, r, v, err != nil)
		}
	}
	if err := ms.Add(key(1000, mode, 0)); err == nil || ms.Size() != len(a) || ms.Has(key(1000, mode, 0)) {
		return errf("MapSet.Add of an item that is not an entry: err=%v, size %d", err != nil, ms.Size())
	}
	if ms.Equals(key(0, mode, 0)) || ms.Equals(types.Int(1)) {
		return errf("MapSet equals something that is not a set")
	}
	if e := set.SortedFromSet(nil); e == nil || e.Size() != 0 {
		return errf("SortedFromSet(nil): %v", e)
	}
	ss := set.SortedFromSet(mkSet(1, ra, mode))
	g, err := got(ss)
	if err != nil || len(g) != len(a) {
		return errf("SortedFromSet: %v %v", ss, err)
	}
	return nil
}

// MapSet as a map, SetMap as a set
func runSetMap(kind int) func(ops []Op) error {
	return func(ops []Op) error {
		var mp types.Map
		switch kind {
		case 0:
			mp = hashtable.NewLinearHash()
		case 1:
			mp = hashtable.NewHashTable(4)
		case 2:
			mp = avl.NewAvlTree()
		case 3:
			mp = avl.NewImmutableAvlTree()
		case 4:
			mp = bptree.NewBpMap(3)
		}
		s := set.NewSetMap(mp)
		model := map[int]bool{}
		mode := 0
		if len(ops) > 0 {
			mode = ops[0].B
		}
		for i, o := range ops {
			k := key(o.A, mode, i)
			switch o.C {
			case 0:
				if err := s.Add(k); err != nil {
					return errf("step %d: Add: %.100s", i, err)
				}
				model[o.A] = true
			case 1:
				err := s.Delete(k)
				if model[o.A] != (err == nil) {
					return errf("step %d: Delete(%v) err=%v", i, k, err != nil)
				}
				delete(model, o.A)
			case 2:
				if s.Has(k) != model[o.A] {
					return errf("step %d: Has(%v) = %v", i, k, !model[o.A])
				}
			case 3:
				var xs []types.Hashable
				for j := 0; j < o.B%4; j++ {
					xs = append(xs, key(o.A+j, mode, i))
					model[o.A+j] = true
				}
				if err := s.Extend(list.FromSlice(xs).Items()); err != nil {
					return errf("step %d: Extend: %.100s", i, err)
				}
			}
			if s.Size() != len(model) {
				return errf("step %d: Size() = %d want %d", i, s.Size(), len(model))
			}
			xs, err := collectK(s.Items(), len(model)+1)
			if err != nil || len(xs) != len(model) {
				return errf("step %d: Items yields %d of %d", i, len(xs), len(model))
			}
			for _, x := range xs {
				if !model[rankOf(x)] {
					return errf("step %d: Items yields %v", i, x)
				}
			}
		}
		return nil
	}
}

func init() {
	register("C10", &Target{Name: "avl.AvlTree", Codes: 3, Dom: 5, Exh: 5, Len: 300, Names: mapNames, Run: runMap(func([]Op) types.Map { return avl.NewAvlTree() }, true, false)})
	register("C11",
		&Target{Name: "avl.ImmutableAvlTree", Codes: 3, Dom: 5, Exh: 5, Len: 300, Names: mapNames, Run: runMap(func([]Op) types.Map { return avl.NewImmutableAvlTree() }, true, false)},
		&Target{Name: "avl.ImmutableAvlTree snapshots", Codes: 6, Dom: 3, Exh: 4, Len: 120, Names: []string{"Put", "Put", "Remove", "Snapshot", "PutOnSnapshot", "RemoveOnSnapshot"}, Run: runSnap})
	register("C12",
		&Target{Name: "hashtable.Hash", Codes: 3, Dom: 4, Exh: 4, Len: 300, Names: mapNames, Run: runMap(func(ops []Op) types.Map { return hashtable.NewHashTable(1 + len(ops)%5) }, false, true)},
		&Target{Name: "hashtable.NewHashTable(0)", Codes: 3, Dom: 2, Exh: 3, Len: 30, Names: mapNames, Run: runMap(func(ops []Op) types.Map { return hashtable.NewHashTable(0) }, false, true)})
	register("C13", &Target{Name: "hashtable.LinearHash", Codes: 3, Dom: 3, Exh: 4, Len: 4000, Names: mapNames, Run: runMap(func([]Op) types.Map { return hashtable.NewLinearHash() }, false, true)})
	trieNames := []string{"Put", "Put", "Remove", "Get", "PutThenReuseBuffer"}
	register("C14", &Target{Name: "trie.TST", Codes: 5, Dom: 7, Exh: 3, Len: 200, Names: trieNames, Run: runTrie})
	register("C15", &Target{Name: "trie.TST iteration", Codes: 4, Dom: 7, Exh: 4, Len: 200, Names: []string{"Put", "Put", "Remove", "Iterate"}, Run: runTrieIter})
	bpNames := []string{"Add", "Add", "Add", "Replace", "RemoveWhere", "Has/Count", "Range", "Find"}
	register("C16", &Target{Name: "bptree.BpTree insert/lookup", Codes: 8, Dom: 4, Exh: 3, Len: 250, Names: bpNames, Run: runBp(false)})
	register("C17", &Target{Name: "bptree.BpTree removal", Codes: 8, Dom: 4, Exh: 3, Len: 250, Names: bpNames, Run: runBp(true)})
	register("C18", &Target{Name: "bptree.BpMap", Codes: 3, Dom: 5, Exh: 5, Len: 300, Names: mapNames, Run: runMap(func(ops []Op) types.Map { return bptree.NewBpMap(2 + len(ops)%4) }, true, false)})
	register("C04", &Target{Name: "set algebra", Codes: 3, Dom: 4, Exh: 4, Len: 60, Names: []string{"a", "b", "both"}, Run: runSetAlg})
	smNames := []string{"Add", "Delete", "Has", "Extend"}
	for i, n := range []string{"LinearHash", "Hash", "AvlTree", "ImmutableAvlTree", "BpMap"} {
		register("C05", &Target{Name: "set.SetMap over " + n, Codes: 4, Dom: 3, Exh: 3, Len: 120, Names: smNames, Run: runSetMap(i)})
	}
	register("C05", &Target{Name: "set.MapSet over SortedSet", Codes: 3, Dom: 4, Exh: 4, Len: 200, Names: mapNames, Run: runMap(func([]Op) types.Map { return set.NewMapSet(set.NewSortedSet(0)) }, true, false)})
}
