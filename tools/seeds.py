SEEDS = [
 dict(id="S01", property="C01",
  edits=[("list/array_list.go", "		list: make([]types.Hashable, len(list)),\n	}\n	copy(l.list, list)\n", "		list: list,\n	}\n")],
  needs="changing the source slice, or filling its spare capacity, after a list was made from it",
  what="a list made from a slice shares the slice's storage, so later writes to either show up in the other",
  imports=["list", "types"],
  demo='''
func main() {
	src := []types.Hashable{types.Int(1), types.Int(2), types.Int(3)}
	l := list.FromSlice(src)
	src[1] = types.Int(9)
	if x, err := l.Get(1); err != nil || !x.Equals(types.Int(2)) {
		fail("item 1 is %v", x)
	}
	l.Set(0, types.Int(7))
	if !src[0].Equals(types.Int(1)) {
		fail("source changed")
	}
}
'''),
 dict(id="S02", property="C02",
  edits=[("list/array_list.go", "	if l.fixed {\\n		return nil\\n	}\\n	if (len".replace("\\\\n", "\\n").replace("\\n", "\n"), "	if l.fixed && len(l.list) > 0 {\n		return nil\n	}\n	if (len")],
  needs="a fixed-size list of capacity at least 22 that is emptied item by item and filled again",
  what="the capacity of a fixed-size list halves when its last item is removed",
  imports=["list", "types"],
  demo='''
func main() {
	for _, n := range []int{1, 5, 30, 64} {
		l := list.Fixed(n)
		for round := 0; round < 3; round++ {
			for i := 0; i < n; i++ {
				if err := l.Append(types.Int(i)); err != nil {
					fail("fixed(%d) round %d: append %d failed: %v", n, round, i, err)
				}
			}
			if !l.Full() {
				fail("fixed(%d) should be full", n)
			}
			for l.Size() > 0 {
				l.Pop()
			}
		}
	}
}
'''),
 dict(id="S03", property="C02",
  edits=[("list/array_list.go", "		if err := l.Append(item); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (l *List) Pop()",
          "		if err := l.Append(item); err != nil {\n			break\n		}\n	}\n	return nil\n}\n\nfunc (l *List) Pop()")],
  needs="extending a fixed-size list with more items than it has room for",
  what="Extend drops the items that do not fit and reports success",
  imports=["list", "types"],
  demo='''
func main() {
	src := list.New(4)
	for i := 0; i < 4; i++ {
		src.Append(types.Int(i))
	}
	l := list.Fixed(2)
	if err := l.Extend(src.Items()); err == nil {
		fail("no error, size %d", l.Size())
	}
}
'''),

 dict(id="S04", property="C11",
  edits=[("tree/avl/imm_avltree.go", "		node = node.Copy()\n		node.left = nil\n		node.right = nil\n		return n, node\n", "		node.left = nil\n		node.right = nil\n		return n, node\n")],
  needs="an earlier version of the tree that is looked at again after a later removal moved one of its inner nodes",
  what="a node shared with earlier versions is cut off from its children in place",
  imports=["tree/avl", "types"],
  demo='''
func main() {
	for n := 3; n < 40; n++ {
		for gone := 0; gone < n; gone++ {
			var root *avl.ImmutableAvlNode
			for i := 0; i < n; i++ {
				root, _ = root.Put(types.Int((i*7)%n), i)
			}
			count := root.Size()
			root.Remove(types.Int(gone))
			if root.Size() != count {
				fail("old version of %d entries has %d after removing %d from a new one", count, root.Size(), gone)
			}
		}
	}
}
'''),
 dict(id="S05", property="C12",
  edits=[("hashtable/hashtable.go", "		return true, self.value\n", "		return self.value != nil, self.value\n")],
  needs="a key that is mapped to nil",
  what="a key with a nil value is reported as absent and can not be removed",
  imports=["hashtable", "types"],
  demo='''
func main() {
	h := hashtable.NewHashTable(8)
	h.Put(types.Int(1), nil)
	h.Put(types.Int(2), 2)
	if !h.Has(types.Int(1)) {
		fail("key 1 is not there")
	}
	if v, err := h.Remove(types.Int(1)); err != nil || v != nil {
		fail("remove: %v %v", v, err)
	}
	if h.Size() != 1 {
		fail("size %d", h.Size())
	}
}
'''),
 dict(id="S06", property="C14",
  edits=[("trie/tst.go", "		} else if n.key.Equals(symbol) {\n			// found it\n", "		} else if len(n.key) <= len(symbol) && n.key[:len(n.key)-1].Equals(symbol[:len(n.key)-1]) {\n			// found it\n")],
  needs="removing an absent key that extends a stored key whose tail is not branched",
  what="removing an absent key deletes a stored key that is a prefix of it",
  imports=["trie"],
  demo='''
func main() {
	t := trie.New()
	t.Put([]byte("cat"), 1)
	t.Put([]byte("cow"), 2)
	if _, err := t.Remove([]byte("catalog")); err == nil {
		fail("removed an absent key")
	}
	if !t.Has([]byte("cat")) {
		fail("cat is gone")
	}
}
'''),
 dict(id="S07", property="C08",
  edits=[("heap/pq.go", "		if kid+1 < len(h.list) && h.lt(kid, kid+1) {", "		if kid+2 < len(h.list) && h.lt(kid, kid+1) {")],
  needs="a pop after which the last item is the better of the last pair of children on the repair path",
  what="the last item is not considered when the heap is repaired downwards, so a later pop is not the best",
  imports=["heap", "sort"],
  demo='''
func main() {
	for seed := 1; seed < 400; seed++ {
		h := heap.NewMinHeap(4)
		var want []int
		x := seed
		for i := 0; i < 2+seed%9; i++ {
			x = (x*1103515245 + 12345) & 0xffff
			h.Push(x, x)
			want = append(want, x)
		}
		sort.Ints(want)
		for _, w := range want {
			if got := h.Pop().(int); got != w {
				fail("popped %d, best is %d", got, w)
			}
		}
	}
}
'''),
 dict(id="S08", property="C03",
  edits=[("list/sorted.go", "			for j := m; j > 0; j-- {", "			for j := m; j > 0 && m-j < 64; j-- {")],
  needs="more than 64 equal items in front of the middle of the list, and smaller ones before them",
  what="find reports index 0 for a long run of equal items, so delete removes another item",
  imports=["list", "types"],
  demo='''
func main() {
	s := list.NewSorted(4, true)
	s.Add(types.Int(1))
	for i := 0; i < 200; i++ {
		s.Add(types.Int(5))
	}
	if i, has, err := s.Find(types.Int(5)); err != nil || !has || i != 1 {
		fail("find 5: %d %v %v", i, has, err)
	}
	s.Delete(types.Int(5))
	if !s.Has(types.Int(1)) {
		fail("1 is gone")
	}
}
'''),
 dict(id="S09", property="C06",
  edits=[("linked/linked.go", "	if l.Head != nil {\n		l.Head.Prev = nil\n	} else {\n		l.Tail = nil\n	}", "	if l.Head == nil {\n		l.Tail = nil\n	}")],
  needs="iterating backwards after an item was dequeued at the front",
  what="backward iteration still yields items that were dequeued at the front",
  imports=["linked", "types"],
  demo='''
func main() {
	l := linked.New()
	for i := 0; i < 4; i++ {
		l.EnqueBack(types.Int(i))
	}
	l.DequeFront()
	n := 0
	for _, next := l.Backwards()(); next != nil; _, next = next() {
		n++
	}
	if n != l.Size() {
		fail("%d items backwards, size %d", n, l.Size())
	}
}
'''),
 dict(id="S10", property="C22",
  edits=[("list/array_list.go", "	m.list = make([]types.Hashable, 0, _cap)\n", "	if size > 0 {\n		_cap = size\n	}\n	m.list = make([]types.Hashable, 0, _cap)\n")],
  needs="decoding a fixed-size list that was neither empty nor full when it was encoded",
  what="the decoded fixed-size list has no room left",
  imports=["list", "types"],
  demo='''
func main() {
	marshal, unmarshal := types.IntMarshals()
	l := list.Fixed(5)
	l.Append(types.Int(1))
	l.Append(types.Int(2))
	b, err := list.NewMList(l, marshal, unmarshal).MarshalBinary()
	if err != nil {
		fail("%v", err)
	}
	m := &list.MList{MarshalItem: marshal, UnmarshalItem: unmarshal}
	if err := m.UnmarshalBinary(b); err != nil {
		fail("%v", err)
	}
	if m.Size() != 2 {
		fail("size %d", m.Size())
	}
	for i := 0; i < 3; i++ {
		if err := m.Append(types.Int(i)); err != nil {
			fail("%v", err)
		}
	}
	if !m.Full() {
		fail("not full")
	}
}
'''),
 dict(id="S11", property="C24",
  edits=[("exc/block.go", "				err = Try(func() { c.catch(err) }).exec()\n				break\n", "				err = Try(func() { c.catch(err) }).exec()\n				if err == nil {\n					break\n				}\n")],
  needs="a handler that throws, in a block with a later handler for the same type",
  what="after a handler throws, the next handler of the same block runs too and swallows the exception",
  imports=["exc"],
  demo='''
func main() {
	ran := 0
	err := exc.Try(func() {
		exc.Throwf("first")
	}).Catch(&exc.Exception{}, func(t exc.Throwable) {
		ran++
		exc.Rethrow(t, exc.Errorf("again"))
	}).Catch(&exc.Exception{}, func(t exc.Throwable) {
		ran++
	}).Error()
	if ran != 1 || err == nil {
		fail("%d handlers ran, err %v", ran, err != nil)
	}
}
'''),
 dict(id="S12", property="C16",
  edits=[("tree/bptree/bptree_node.go", "		for m > 0 && a.keys[m-1].Equals(a.keys[m]) {\n			m--\n		}\n", "		if m > 0 && a.keys[m-1].Equals(a.keys[m]) {\n			m--\n		}\n")],
  needs="a full leaf whose upper half is a run of at least three equal keys starting before the middle",
  what="dividing the leaf cuts through the run, the entries left of the cut are no longer found",
  imports=["tree/bptree", "types"],
  demo='''
func main() {
	for ns := 2; ns < 9; ns++ {
		for low := 1; low < ns; low++ {
			t := bptree.NewBpTree(ns)
			for i := 0; i < ns+1; i++ {
				k := 2
				if i < low {
					k = 1
				}
				if err := t.Add(types.Int(k), i); err != nil {
					fail("%v", err)
				}
			}
			if c := t.Count(types.Int(2)); c != ns+1-low {
				fail("node size %d: %d entries of key 2, expected %d", ns, c, ns+1-low)
			}
		}
	}
}
'''),
 dict(id="S13", property="C26",
  edits=[("pool/pool.go", "	p.workers[offset].in<-f\n", "	in := p.workers[offset].in\n	p.mu.RUnlock()\n	in <- f\n	p.mu.RLock()\n")],
  needs="a submission that waits because every channel is full, and a stop that comes in between",
  what="the pool closes the channel under the waiting submission, which panics; the function is counted but never runs",
  imports=["pool", "time"],
  demo='''
func main() {
	p := pool.New(1)
	gate := make(chan bool)
	p.Do(func() { <-gate })
	time.Sleep(20 * time.Millisecond)
	ran, accepted := 0, make(chan error, 1)
	for i := 0; i < 100; i++ {
		p.Do(func() { ran++ })
	}
	go func() {
		defer func() {
			if e := recover(); e != nil {
				fail("submitting: %v", e)
			}
		}()
		accepted <- p.Do(func() { ran++ })
	}()
	time.Sleep(50 * time.Millisecond)
	stopped := make(chan bool)
	go func() { p.Stop(); close(stopped) }()
	time.Sleep(50 * time.Millisecond)
	close(gate)
	<-stopped
	if err := <-accepted; err == nil && ran != 101 {
		fail("%d functions ran, 101 were accepted", ran)
	}
}
'''),
]
