package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

func sameSeq(what string, got, want []types.Hashable) error {
	if len(got) != len(want) {
		return errf("%s: got %v want %v", what, got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return errf("%s: element %d: got %v want %v (got %v want %v)", what, i, got[i], want[i], got, want)
		}
	}
	return nil
}

func rev(x []types.Hashable) []types.Hashable {
	y := make([]types.Hashable, len(x))
	for i := range x {
		y[len(x)-1-i] = x[i]
	}
	return y
}

func checkList(l *list.List, m []types.Hashable, capacity int) error {
	if l.Size() != len(m) {
		return errf("Size() = %d, want %d", l.Size(), len(m))
	}
	if l.Empty() != (len(m) == 0) {
		return errf("Empty() = %v, len %d", l.Empty(), len(m))
	}
	if capacity >= 0 && l.Full() != (len(m) == capacity) {
		return errf("Full() = %v, len %d, capacity %d", l.Full(), len(m), capacity)
	}
	if capacity < 0 && l.Full() {
		return errf("Full() = true for a growable list")
	}
	for i := range m {
		x, err := l.Get(i)
		if err != nil || x != m[i] {
			return errf("Get(%d) = %v, %v; want %v", i, x, err != nil, m[i])
		}
	}
	for _, i := range []int{-1, len(m), len(m) + 1, minInt} {
		if x, err := l.Get(i); err == nil || x != nil {
			return errf("Get(%d) out of bounds succeeded: %v", i, x)
		}
	}
	a, err := collectK(l.Items(), len(m))
	if err != nil {
		return errf("Items: %v", err)
	}
	if err := sameSeq("Items", a, m); err != nil {
		return err
	}
	a, err = collectK(l.ItemsInReverse(), len(m))
	if err != nil {
		return errf("ItemsInReverse: %v", err)
	}
	return sameSeq("ItemsInReverse", a, rev(m))
}

type listState struct {
	l *list.List
	m []types.Hashable
}

func runList(fixed bool) func(ops []Op) error {
	return func(ops []Op) error {
		capacity := -1
		mk := func(n int) *list.List { return list.New(n) }
		if fixed {
			capacity = 3
			if len(ops) > 20 {
				capacity = []int{17, 45, 5, 30}[len(ops)%4]
			}
			mk = func(n int) *list.List { return list.Fixed(capacity) }
		}
		size := len(ops) % 3
		if len(ops) > 20 {
			size = len(ops) % 61
		}
		cur := listState{mk(size), nil}
		var others []listState
		for i, o := range ops {
			item := types.Hashable(key(o.A, 0, i))
			n := len(cur.m)
			idx := o.A
			if n+1 > 0 && o.B%7 != 0 {
				idx = o.A % (n + 1)
			}
			if o.B%29 == 1 {
				idx = -1 - o.A
			}
			full := capacity >= 0 && n == capacity
			fail := func(err error) error { return errf("step %d: %v", i, err) }
			switch o.C {
			case 0, 1, 2: // append, push, insert
				pos := n
				var err error
				switch o.C {
				case 0:
					err = cur.l.Append(item)
				case 1:
					err = cur.l.Push(item)
				case 2:
					pos = idx
					err = cur.l.Insert(pos, item)
				}
				ok := pos >= 0 && pos <= n && !full
				if ok != (err == nil) {
					return fail(errf("insert at %d of %d (capacity %d): err=%v", pos, n, capacity, err != nil))
				}
				if ok {
					cur.m = append(cur.m[:pos:pos], append([]types.Hashable{item}, cur.m[pos:]...)...)
				}
			case 3: // remove
				err := cur.l.Remove(idx)
				ok := idx >= 0 && idx < n
				if ok != (err == nil) {
					return fail(errf("Remove(%d) of %d: err=%v", idx, n, err != nil))
				}
				if ok {
					cur.m = append(cur.m[:idx:idx], cur.m[idx+1:]...)
				}
			case 4: // pop
				x, err := cur.l.Pop()
				if (n > 0) != (err == nil) {
					return fail(errf("Pop of %d: err=%v", n, err != nil))
				}
				if n > 0 {
					if x != cur.m[n-1] {
						return fail(errf("Pop = %v want %v", x, cur.m[n-1]))
					}
					cur.m = cur.m[: n-1 : n-1]
				}
			case 5: // set
				err := cur.l.Set(idx, item)
				ok := idx >= 0 && idx < n
				if ok != (err == nil) {
					return fail(errf("Set(%d) of %d: err=%v", idx, n, err != nil))
				}
				if ok {
					cur.m = append([]types.Hashable{}, cur.m...)
					cur.m[idx] = item
				}
			case 6: // copy, keep the original aside
				c := cur.l.Copy()
				others = append(others, listState{cur.l, append([]types.Hashable{}, cur.m...)})
				cur.l = c
				if len(others) > 4 {
					others = others[1:]
				}
			case 7: // has
				want := false
				for _, x := range cur.m {
					if x.Equals(item) {
						want = true
					}
				}
				if cur.l.Has(item) != want {
					return fail(errf("Has(%v) = %v", item, !want))
				}
			case 8: // extend by another list's items
				k := o.A % 5
				var add []types.Hashable
				for j := 0; j < k; j++ {
					add = append(add, key(o.B+j, 0, i))
				}
				err := cur.l.Extend(list.FromSlice(add).Items())
				room := len(add)
				if capacity >= 0 && n+room > capacity {
					room = capacity - n
				}
				if (room == len(add)) != (err == nil) {
					return fail(errf("Extend by %d at %d: err=%v", len(add), n, err != nil))
				}
				cur.m = append(cur.m[:n:n], add[:room]...)
			case 9: // clear
				cur.l.Clear()
				cur.m = nil
			case 10: // FromSlice must not alias the given slice
				if fixed {
					continue
				}
				src := append([]types.Hashable{}, cur.m...)
				l2 := list.FromSlice(src)
				for j := range src {
					src[j] = item
				}
				others = append(others, listState{cur.l, cur.m})
				if len(others) > 4 {
					others = others[1:]
				}
				cur.l = l2
			case 11: // sortable view sorts the shared storage
				if fixed {
					continue
				}
				c := cur.l.Copy()
				s := list.NewSortable(c)
				if s.Len() != n {
					return fail(errf("Sortable.Len = %d want %d", s.Len(), n))
				}
				sort.Stable(s)
				want := append([]types.Hashable{}, cur.m...)
				sort.SliceStable(want, func(a, b int) bool { return want[a].Less(want[b]) })
				for j := range want {
					x, err := s.(*list.Sortable).Get(j)
					if err != nil || x != want[j] {
						return fail(errf("after sort element %d = %v want %v", j, x, want[j]))
					}
				}
			}
			if len(ops) < 40 || i%7 == 0 || i == len(ops)-1 {
				if err := checkList(cur.l, cur.m, capacity); err != nil {
					return fail(err)
				}
				for _, s := range others {
					if err := checkList(s.l, s.m, capacity); err != nil {
						return fail(errf("independent copy changed: %v", err))
					}
				}
			}
		}
		if len(ops) > 20 {
			// fill, empty and fill the list again
			for round := 0; round < 2; round++ {
				for j := 0; (capacity >= 0 || j < size+5) && len(cur.m) != capacity; j++ {
					item := types.Hashable(key(j, 0, j))
					if err := cur.l.Append(item); err != nil {
						return errf("filling: Append to %d items (capacity %d) failed", len(cur.m), capacity)
					}
					cur.m = append(cur.m[:len(cur.m):len(cur.m)], item)
				}
				if err := checkList(cur.l, cur.m, capacity); err != nil {
					return errf("after filling: %v", err)
				}
				for len(cur.m) > 0 {
					if err := cur.l.Remove(len(cur.m) / 2); err != nil {
						return errf("emptying: Remove(%d) of %d failed", len(cur.m)/2, len(cur.m))
					}
					cur.m = append(cur.m[:len(cur.m)/2:len(cur.m)/2], cur.m[len(cur.m)/2+1:]...)
					if len(cur.m)%9 == 0 {
						if err := checkList(cur.l, cur.m, capacity); err != nil {
							return errf("while emptying: %v", err)
						}
					}
				}
			}
		}
		return nil
	}
}

var listNames = []string{"Append", "Push", "Insert", "Remove", "Pop", "Set", "Copy", "Has", "Extend", "Clear", "FromSlice", "Sortable"}

func lowerBound(m []types.Hashable, x types.Hashable) int {
	i := 0
	for i < len(m) && m[i].Less(x) {
		i++
	}
	return i
}

// sorted list: mode 0 dups, 1 no dups, 2 fixed dups, 3 fixed no dups, 4 SortedSet
func runSorted(mode int) func(ops []Op) error {
	return func(ops []Op) error {
		capacity := -1
		dups := mode == 0 || mode == 2
		var s *list.Sorted
		var ss *set.SortedSet
		switch mode {
		case 0, 1:
			s = list.NewSorted(len(ops)%3, dups)
		case 2, 3:
			capacity = 3
			if len(ops) > 20 {
				capacity = 19
			}
			s = list.NewFixedSorted(capacity, dups)
		case 4:
			ss = set.NewSortedSet(len(ops) % 3)
			s = &ss.Sorted
		}
		var m []types.Hashable
		type snap struct {
			s *list.Sorted
			m []types.Hashable
		}
		var snaps []snap
		check := func(s *list.Sorted, m []types.Hashable) error {
			if s.Size() != len(m) || s.Empty() != (len(m) == 0) {
				return errf("Size() = %d want %d", s.Size(), len(m))
			}
			if capacity >= 0 && s.Full() != (len(m) == capacity) {
				return errf("Full() = %v at %d of %d", s.Full(), len(m), capacity)
			}
			a, err := collectK(s.Items(), len(m))
			if err != nil {
				return err
			}
			for i := 0; i+1 < len(a); i++ {
				if a[i+1].Less(a[i]) || (!dups && !a[i].Less(a[i+1])) {
					return errf("not sorted: %v", a)
				}
			}
			if err := sameSeq("Items", a, m); err != nil {
				return err
			}
			a, err = collectK(s.ItemsInReverse(), len(m))
			if err != nil {
				return err
			}
			if err := sameSeq("ItemsInReverse", a, rev(m)); err != nil {
				return err
			}
			for i := range m {
				if x, err := s.Get(i); err != nil || x != m[i] {
					return errf("Get(%d) = %v want %v", i, x, m[i])
				}
			}
			if _, err := s.Get(len(m)); err == nil {
				return errf("Get(size) succeeded")
			}
			return nil
		}
		for i, o := range ops {
			item := types.Hashable(key(o.A, 0, i))
			n := len(m)
			lb := lowerBound(m, item)
			has := lb < n && m[lb].Equals(item)
			full := capacity >= 0 && n == capacity
			fail := func(err error) error { return errf("step %d: %v", i, err) }
			add := func(err error, it types.Hashable) error {
				lb := lowerBound(m, it)
				has := lb < len(m) && m[lb].Equals(it)
				full := capacity >= 0 && len(m) == capacity
				if has && !dups {
					if err != nil {
						return errf("Add of a present item failed")
					}
					return nil
				}
				if full != (err != nil) {
					return errf("Add: err=%v at %d of %d", err != nil, len(m), capacity)
				}
				if !full {
					m = append(m[:lb:lb], append([]types.Hashable{it}, m[lb:]...)...)
				}
				return nil
			}
			_ = full
			switch o.C {
			case 0:
				if err := add(s.Add(item), item); err != nil {
					return fail(err)
				}
			case 1:
				err := s.Delete(item)
				if has != (err == nil) {
					return fail(errf("Delete(%v): err=%v present=%v", item, err != nil, has))
				}
				if has {
					m = append(m[:lb:lb], m[lb+1:]...)
				}
			case 2:
				if s.Has(item) != has {
					return fail(errf("Has(%v) = %v", item, !has))
				}
			case 3:
				idx, h, err := s.Find(item)
				if err != nil || h != has || idx != lb {
					return fail(errf("Find(%v) = %d, %v; want %d, %v", item, idx, h, lb, has))
				}
			case 4:
				x, err := s.Item(item)
				if has != (err == nil) {
					return fail(errf("Item: err=%v", err != nil))
				}
				if has && x != m[lb] {
					return fail(errf("Item = %v want %v", x, m[lb]))
				}
			case 5:
				idx := o.A % (n + 2)
				err := s.Remove(idx)
				if (idx < n) != (err == nil) {
					return fail(errf("Remove(%d) of %d", idx, n))
				}
				if idx < n {
					m = append(m[:idx:idx], m[idx+1:]...)
				}
			case 6:
				var c *list.Sorted
				if ss != nil {
					ss = ss.Copy()
					c = &ss.Sorted
				} else {
					c = s.Copy()
				}
				snaps = append(snaps, snap{s, append([]types.Hashable{}, m...)})
				if len(snaps) > 3 {
					snaps = snaps[1:]
				}
				s = c
			case 7:
				var xs []types.Hashable
				for j := 0; j < o.A%5; j++ {
					xs = append(xs, key((o.B+j*7)%11, 0, i))
				}
				err := s.Extend(list.FromSlice(xs).Items())
				var want error
				for _, x := range xs {
					lb := lowerBound(m, x)
					h := lb < len(m) && m[lb].Equals(x)
					if h && !dups {
						continue
					}
					if capacity >= 0 && len(m) == capacity {
						want = errf("full")
						break
					}
					add(nil, x)
				}
				if (want == nil) != (err == nil) {
					return fail(errf("Extend err=%v", err != nil))
				}
			case 8:
				s.Clear()
				m = nil
			case 9:
				if ss != nil {
					x, err := ss.Random()
					if (n > 0) != (err == nil) {
						return fail(errf("Random err=%v at size %d", err != nil, n))
					}
					if n > 0 {
						ok := false
						for _, y := range m {
							ok = ok || x == y
						}
						if !ok {
							return fail(errf("Random returned a non-member %v", x))
						}
					}
				} else if capacity < 0 {
					xs := append([]types.Hashable{}, m...)
					for j := range xs {
						k := (j*7 + o.B) % len(xs)
						xs[j], xs[k] = xs[k], xs[j]
					}
					s2 := list.SortedFromSlice(xs, dups)
					if s2.Size() != n {
						return fail(errf("SortedFromSlice size %d want %d", s2.Size(), n))
					}
					a, _ := collectK(s2.Items(), n)
					for j := range a {
						if !a[j].Equals(m[j]) {
							return fail(errf("SortedFromSlice: %v want %v", a, m))
						}
					}
				}
			}
			if len(ops) < 40 || i%7 == 0 || i == len(ops)-1 {
				if err := check(s, m); err != nil {
					return fail(err)
				}
				for _, sn := range snaps {
					if err := check(sn.s, sn.m); err != nil {
						return fail(errf("independent copy changed: %v", err))
					}
				}
			}
		}
		return nil
	}
}

var sortedNames = []string{"Add", "Delete", "Has", "Find", "Item", "Remove", "Copy", "Extend", "Clear", "Random/FromSlice"}

// containers compared with Equals/Less/Hash
func mkContainer(kind int, xs []types.Hashable) interface{} {
	switch kind % 3 {
	case 0:
		return list.FromSlice(xs)
	case 1:
		l := linked.New()
		for _, x := range xs {
			l.EnqueBack(x)
		}
		return l
	default:
		l := list.New(0)
		for _, x := range xs {
			l.Append(x)
		}
		return l
	}
}

func mkSortedContainer(kind int, xs []types.Hashable) interface{} {
	switch kind % 3 {
	case 0:
		return list.SortedFromSlice(xs, false)
	case 1:
		return set.FromSlice(xs)
	default:
		s := list.NewSorted(0, false)
		for _, x := range xs {
			s.Add(x)
		}
		d := linked.NewUniqueDeque()
		for x, next := s.Items()(); next != nil; x, next = next() {
			d.EnqueBack(x)
		}
		return d
	}
}

func runEqLess(ops []Op) error {
	var a, b []types.Hashable
	ka := 0
	for i, o := range ops {
		x := types.Hashable(key(o.A, o.B, i))
		if i == 0 {
			ka = o.B
		}
		x.(*K).mode = ka
		switch o.C {
		case 0:
			a = append(a, x)
		case 1:
			b = append(b, x)
		case 2:
			a = append(a, x)
			b = append(b, key(o.A, ka, i+1000))
		}
	}
	for pass := 0; pass < 2; pass++ {
		mk := mkContainer
		ca, cb := a, b
		if pass == 1 {
			mk = mkSortedContainer
			ca, cb = canon(a), canon(b)
		}
		for ka := 0; ka < 3; ka++ {
			for kb := 0; kb < 3; kb++ {
				x, y := mk(ka, a), mk(kb, b)
				eq := len(ca) == len(cb)
				less := len(ca) < len(cb)
				if eq {
					for i := range ca {
						if !ca[i].Equals(cb[i]) {
							eq = false
							less = ca[i].Less(cb[i])
							break
						}
					}
				}
				xe, ye := x.(types.Hashable), y.(types.Hashable)
				if xe.Equals(ye) != eq || ye.Equals(xe) != eq {
					return errf("%T%v.Equals(%T%v) = %v/%v want %v", x, x, y, y, xe.Equals(ye), ye.Equals(xe), eq)
				}
				if xe.Less(ye) != less {
					return errf("%T%v.Less(%T%v) = %v want %v", x, x, y, y, !less, less)
				}
				if eq && xe.Hash() != ye.Hash() {
					return errf("equal containers %T%v %T%v hash to %d and %d", x, x, y, y, xe.Hash(), ye.Hash())
				}
				if xe.Equals(key(0, 0, 0)) || xe.Less(key(0, 0, 0)) {
					return errf("%T compares equal/less to a non-container", x)
				}
			}
		}
	}
	return nil
}

func canon(xs []types.Hashable) []types.Hashable {
	s := append([]types.Hashable{}, xs...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Less(s[j]) })
	var out []types.Hashable
	for _, x := range s {
		if len(out) == 0 || !out[len(out)-1].Equals(x) {
			out = append(out, x)
		}
	}
	return out
}

// serialization of containers
func runSerial(ops []Op) error {
	marshal := func(h types.Hashable) ([]byte, error) {
		k := h.(*K)
		if k.mode == 1 {
			return []byte{}, nil // zero-length items must survive as well
		}
		b := make([]byte, 8+k.rank%3)
		binary.BigEndian.PutUint64(b, uint64(k.rank))
		return b, nil
	}
	mode := 0
	unmarshal := func(b []byte) (types.Hashable, error) {
		if mode == 1 {
			if len(b) != 0 {
				return nil, errf("expected an empty item")
			}
			return key(7, 1, 0), nil
		}
		if len(b) < 8 {
			return nil, errf("short item of %d bytes", len(b))
		}
		r := int(binary.BigEndian.Uint64(b))
		if len(b) != 8+r%3 {
			return nil, errf("item %d has %d bytes", r, len(b))
		}
		return key(r, 0, 0), nil
	}
	var xs []types.Hashable
	for i, o := range ops {
		if i == 0 && o.C == 1 {
			mode = 1
		}
		if mode == 1 {
			xs = append(xs, key(7, 1, i))
		} else {
			xs = append(xs, key(o.A, 0, i))
		}
	}
	eqs := func(what string, got types.KIterator, want []types.Hashable) error {
		g, err := collectK(got, len(want)+1)
		if err != nil {
			return errf("%s: %v", what, err)
		}
		if len(g) != len(want) {
			return errf("%s: got %v want %v", what, g, want)
		}
		for i := range g {
			if !g[i].Equals(want[i]) {
				return errf("%s: element %d: got %v want %v", what, i, g[i], want[i])
			}
		}
		return nil
	}
	for _, fixed := range []bool{false, true} {
		var l *list.List
		if fixed {
			l = list.Fixed(len(xs) + 2)
			for _, x := range xs {
				l.Append(x)
			}
		} else {
			l = list.FromSlice(xs)
		}
		b, err := list.NewMList(l, marshal, unmarshal).MarshalBinary()
		if err != nil {
			return errf("marshal list: %v", err)
		}
		back := list.NewMList(list.New(1), marshal, unmarshal)
		if err := back.UnmarshalBinary(append([]byte{}, b...)); err != nil {
			return errf("unmarshal list: %.200s", err)
		}
		if err := eqs("list", back.Items(), xs); err != nil {
			return err
		}
		for i := 0; i < 2; i++ {
			if err := back.Append(key(1, 0, 0)); err != nil {
				return errf("append to a restored list (fixed=%v): %.100s", fixed, err)
			}
		}
		if fixed != back.Full() || (fixed && back.Append(key(1, 0, 0)) == nil) {
			return errf("restored list does not keep its fixed capacity (fixed=%v)", fixed)
		}
	}
	for _, cfg := range []int{0, 1, 2, 3, 4} {
		dups := cfg == 0 || cfg == 2
		want := canon(xs)
		if dups {
			want = append([]types.Hashable{}, xs...)
			sort.SliceStable(want, func(i, j int) bool { return want[i].Less(want[j]) })
		}
		var s *list.Sorted
		if cfg >= 2 && cfg <= 3 {
			s = list.NewFixedSorted(len(xs)+1, dups)
			for _, x := range xs {
				s.Add(x)
			}
		} else {
			s = list.SortedFromSlice(xs, dups)
		}
		var b []byte
		var err error
		var back *list.Sorted
		if cfg == 4 {
			ms := set.NewMSortedSet(set.FromSlice(xs), marshal, unmarshal)
			b, err = ms.MarshalBinary()
			if err != nil {
				return errf("marshal set: %v", err)
			}
			m2 := set.NewMSortedSet(set.NewSortedSet(0), marshal, unmarshal)
			if err := m2.UnmarshalBinary(b); err != nil {
				return errf("unmarshal set: %.200s", err)
			}
			back = &m2.SortedSet().Sorted
		} else {
			b, err = list.NewMSorted(s, marshal, unmarshal).MarshalBinary()
			if err != nil {
				return errf("marshal sorted: %v", err)
			}
			m2 := list.NewMSorted(list.NewSorted(0, !dups), marshal, unmarshal)
			if err := m2.UnmarshalBinary(b); err != nil {
				return errf("unmarshal sorted: %.200s", err)
			}
			back = m2.Sorted()
		}
		if err := eqs(fmt.Sprintf("sorted cfg %d", cfg), back.Items(), want); err != nil {
			return err
		}
		if len(want) > 0 && cfg != 3 {
			n := back.Size()
			if err := back.Add(want[0]); err != nil {
				return errf("add to restored: %.100s", err)
			}
			if (back.Size() == n+1) != dups {
				return errf("restored list lost its duplicate policy (dups=%v)", dups)
			}
		}
	}
	return nil
}

// element types
func runElems(ops []Op) error {
	ints := []int64{0, 1, -1, 2, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, 1<<62 + 5, -1 << 63, 1<<63 - 1, 1 << 40, -(1 << 40)}
	for _, o := range ops {
		ints = append(ints, int64(o.A)*int64(o.B)*2654435761, int64(o.A), int64(-o.B), int64(uint64(o.B)<<40|uint64(o.A)))
	}
	type codec struct {
		name string
		mk   func(int64) types.Hashable
		m    types.ItemMarshal
		u    types.ItemUnmarshal
	}
	mm := func(m types.ItemMarshal, u types.ItemUnmarshal) (types.ItemMarshal, types.ItemUnmarshal) { return m, u }
	var cs []codec
	add := func(n string, mk func(int64) types.Hashable, f func() (types.ItemMarshal, types.ItemUnmarshal)) {
		m, u := mm(f())
		cs = append(cs, codec{n, mk, m, u})
	}
	add("Int8", func(x int64) types.Hashable { return types.Int8(x) }, types.Int8Marshals)
	add("UInt8", func(x int64) types.Hashable { return types.UInt8(x) }, types.UInt8Marshals)
	add("Int16", func(x int64) types.Hashable { return types.Int16(x) }, types.Int16Marshals)
	add("UInt16", func(x int64) types.Hashable { return types.UInt16(x) }, types.UInt16Marshals)
	add("Int32", func(x int64) types.Hashable { return types.Int32(x) }, types.Int32Marshals)
	add("UInt32", func(x int64) types.Hashable { return types.UInt32(x) }, types.UInt32Marshals)
	add("Int64", func(x int64) types.Hashable { return types.Int64(x) }, types.Int64Marshals)
	add("UInt64", func(x int64) types.Hashable { return types.UInt64(x) }, types.UInt64Marshals)
	add("Int", func(x int64) types.Hashable { return types.Int(x) }, types.IntMarshals)
	add("UInt", func(x int64) types.Hashable { return types.UInt(x) }, types.UIntMarshals)
	str := func(x int64) []byte {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(x))
		return b[:uint64(x)%9]
	}
	add("String", func(x int64) types.Hashable { return types.String(str(x)) }, types.StringMarshals)
	add("ByteSlice", func(x int64) types.Hashable { return types.ByteSlice(str(x)) }, types.ByteSliceMarshals)
	for _, c := range cs {
		for _, x := range ints {
			v := c.mk(x)
			b, err := c.m(v)
			if err != nil {
				return errf("%s: marshal %v: %.100s", c.name, v, err)
			}
			w, err := c.u(append([]byte{}, b...))
			if err != nil {
				return errf("%s: unmarshal %v: %.100s", c.name, v, err)
			}
			if !v.Equals(w) || !w.Equals(v) || fmt.Sprintf("%T %v", v, v) != fmt.Sprintf("%T %v", w, w) {
				return errf("%s: %v round-trips to %v", c.name, v, w)
			}
		}
	}
	return nil
}

func runLaws(ops []Op) error {
	ints := []int64{0, 1, -1, 127, 128, -128, 255, 256, 32768, 65536, 2147483648, -2147483648, 4294967296, -1 << 63, 1<<63 - 1}
	for _, o := range ops {
		ints = append(ints, int64(o.A), -int64(o.B), int64(o.A)<<33|int64(o.B))
	}
	if len(ints) > 40 {
		ints = ints[:40]
	}
	str := func(x int64) []byte {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(x)*0x9e3779b97f4a7c15)
		return b[:uint64(x)%4]
	}
	// reference order: for each kind a comparison of the underlying values
	type kind struct {
		mk  func(int64) types.Hashable
		cmp func(a, b int64) int
	}
	ci := func(a, b int64) int {
		if a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	}
	cu := func(a, b uint64) int {
		if a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	}
	ks := []kind{
		{func(x int64) types.Hashable { return types.Int8(x) }, func(a, b int64) int { return ci(int64(int8(a)), int64(int8(b))) }},
		{func(x int64) types.Hashable { return types.UInt8(x) }, func(a, b int64) int { return ci(int64(uint8(a)), int64(uint8(b))) }},
		{func(x int64) types.Hashable { return types.Int16(x) }, func(a, b int64) int { return ci(int64(int16(a)), int64(int16(b))) }},
		{func(x int64) types.Hashable { return types.UInt16(x) }, func(a, b int64) int { return ci(int64(uint16(a)), int64(uint16(b))) }},
		{func(x int64) types.Hashable { return types.Int32(x) }, func(a, b int64) int { return ci(int64(int32(a)), int64(int32(b))) }},
		{func(x int64) types.Hashable { return types.UInt32(x) }, func(a, b int64) int { return ci(int64(uint32(a)), int64(uint32(b))) }},
		{func(x int64) types.Hashable { return types.Int64(x) }, ci},
		{func(x int64) types.Hashable { return types.UInt64(x) }, func(a, b int64) int { return cu(uint64(a), uint64(b)) }},
		{func(x int64) types.Hashable { return types.Int(x) }, ci},
		{func(x int64) types.Hashable { return types.UInt(x) }, func(a, b int64) int { return cu(uint64(a), uint64(b)) }},
		{func(x int64) types.Hashable { return types.String(str(x)) }, func(a, b int64) int { return bytes.Compare(str(a), str(b)) }},
		{func(x int64) types.Hashable { return types.ByteSlice(str(x)) }, func(a, b int64) int { return bytes.Compare(str(a), str(b)) }},
		{func(x int64) types.Hashable { return &types.MapEntry{Key: types.Int64(x), Value: x} }, ci},
		{func(x int64) types.Hashable { return &linked.Node{Data: types.Int64(x)} }, ci},
	}
	for ki, k := range ks {
		for _, a := range ints {
			for _, b := range ints {
				x, y := k.mk(a), k.mk(b)
				c := k.cmp(a, b)
				if x.Equals(y) != (c == 0) {
					return errf("%T(%v).Equals(%v) = %v", x, x, y, c != 0)
				}
				if x.Less(y) != (c < 0) {
					return errf("%T(%v).Less(%v) = %v", x, x, y, c >= 0)
				}
				if c == 0 && x.Hash() != y.Hash() {
					return errf("equal %T(%v), %v hash differently", x, x, y)
				}
			}
		}
		for kj, k2 := range ks {
			if ki == kj || ki >= 12 || kj >= 12 {
				continue
			}
			x, y := k.mk(1), k2.mk(1)
			if x.Equals(y) || x.Less(y) {
				return errf("%T(%v) equals or is less than %T(%v)", x, x, y, y)
			}
		}
	}
	return nil
}

func init() {
	register("C01", &Target{Name: "list.List", Codes: 12, Dom: 2, Exh: 4, Len: 400, Names: listNames, Run: runList(false)})
	register("C02",
		&Target{Name: "list.Fixed", Codes: 10, Dom: 2, Exh: 4, Len: 120, Names: listNames, Run: runList(true)},
		&Target{Name: "list.NewFixedSorted(dups)", Codes: 9, Dom: 3, Exh: 4, Len: 120, Names: sortedNames, Run: runSorted(2)},
		&Target{Name: "list.NewFixedSorted(no dups)", Codes: 9, Dom: 3, Exh: 4, Len: 120, Names: sortedNames, Run: runSorted(3)})
	register("C03",
		&Target{Name: "list.Sorted(dups)", Codes: 10, Dom: 3, Exh: 4, Len: 600, Names: sortedNames, Run: runSorted(0)},
		&Target{Name: "list.Sorted(no dups)", Codes: 10, Dom: 3, Exh: 4, Len: 600, Names: sortedNames, Run: runSorted(1)},
		&Target{Name: "set.SortedSet", Codes: 10, Dom: 3, Exh: 4, Len: 600, Names: sortedNames, Run: runSorted(4)})
	register("C20", &Target{Name: "element laws", Codes: 1, Dom: 3, Exh: 1, Len: 12, Run: runLaws})
	register("C21", &Target{Name: "element serialization", Codes: 1, Dom: 3, Exh: 1, Len: 40, Run: runElems})
	register("C22", &Target{Name: "container serialization", Codes: 2, Dom: 3, Exh: 4, Len: 60, Run: runSerial})
	register("C23", &Target{Name: "container Equals/Less/Hash", Codes: 3, Dom: 2, Exh: 4, Len: 12, Run: runEqLess})
}
