From 3e85353355e671de96bc2be2f54de15422fb6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 01/21] fix: allocate the byte that Int8 and UInt8 marshal into

MarshalBinary indexed an empty slice and always panicked.
---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From d209ef74fcb335998a5032986997fa2a293cee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 02/21] fix: marshal Int and UInt in full width

Only the low 32 bits were written, so negative and large values did not
survive a marshal/unmarshal round trip.
---
 types/int.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..077d3c1 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,16 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
+	*self = Int(binary.BigEndian.Uint64(data))
 	return nil
 }
 
@@ -326,16 +326,16 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
+	*self = UInt(binary.BigEndian.Uint64(data))
 	return nil
 }
 
-- 
2.43.0


From 8459f935be6a3dfbfbb5e9d293736f4e68a1dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 03/21] fix: copy the bytes when marshaling and unmarshaling a
 ByteSlice

The restored value shared memory with the input buffer (and the marshaled
form with the value), so reusing the buffer changed the value.
---
 types/string.go |  4 ++--
 types/util.go   | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..542ca5e 100644
--- a/types/string.go
+++ b/types/string.go
@@ -40,11 +40,11 @@ func (self String) Hash() int {
 }
 
 func (self *ByteSlice) MarshalBinary() ([]byte, error) {
-	return []byte(*self), nil
+	return append([]byte{}, *self...), nil
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(ByteSlice{}, data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..f0eb8d6 100644
--- a/types/util.go
+++ b/types/util.go
@@ -315,10 +315,16 @@ func StringMarshals() (ItemMarshal, ItemUnmarshal) {
 
 func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 	marshal := func(item Hashable) ([]byte, error) {
-		return []byte(item.(ByteSlice)), nil
+		i := item.(ByteSlice)
+		return i.MarshalBinary()
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		i := ByteSlice(nil)
+		err := i.UnmarshalBinary(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return i, nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From 86c6588d99f51fd6f50c6e47c4a8a13006121cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 04/21] fix: keep the bucket index of Hash non-negative for the
 minimal hash

abs of the minimal int is negative, so such a key indexed out of range.
---
 hashtable/hashtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..46d6a20 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -65,7 +65,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return abs(key.Hash() % len(self.table))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From 86f570e9d7cbbadb29cc08729f531d6cca65eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 05/21] fix: give Hash at least one bucket

Every operation on NewHashTable(0) divided by zero.
---
 hashtable/hashtable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 46d6a20..8bb6826 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -58,6 +58,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size == 0 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
-- 
2.43.0


From c329cdd73c2b53541e4a26dfd6a3e0c05df8b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 06/21] fix: rebalance AVL nodes after a successful Remove only

The test was inverted. A failed Remove on an AvlTree rotated the nodes in
place and then dropped the new root, which lost entries.
---
 tree/avl/avltree.go     | 2 +-
 tree/avl/imm_avltree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..ce2b838 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -257,7 +257,7 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
+	if err == nil {
 		return self.balance(), value, err
 	}
 	return self, value, err
diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 9616bc4..471166c 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -266,7 +266,7 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 		self.right, value, err = self.right.Remove(key)
 	}
 	self.height = max(self.left.Height(), self.right.Height()) + 1
-	if err != nil {
+	if err == nil {
 		return self.balance(), value, err
 	}
 	return self, value, err
-- 
2.43.0


From 77f0ce72bd57a34b7a7985ac419d8d7ec11f797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 07/21] fix: return nil from Pop on an empty UniquePQ

It panicked on the type assertion; Heap.Pop returns nil.
---
 heap/unique.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..b2ddca3 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,7 +48,11 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
-	item := u.pq.Pop().(types.Hashable)
+	top := u.pq.Pop()
+	if top == nil {
+		return nil
+	}
+	item := top.(types.Hashable)
 	u.set.Delete(item)
 	return item
 }
-- 
2.43.0


From 753135a0c7d23019763e82d07904b9119dbd8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 08/21] fix: traverse an empty tree in pre and post order

The nil root was pushed on the stack and dereferenced.
---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..56c6eff 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, root)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, entry{root, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From 901de4d5dcf46d7a001f6071f3150a93ae3ae1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 09/21] fix: let MapSet.Put replace the value of an existing
 key

Adding an entry for a present key is ignored by the underlying set, so the
old value stayed.
---
 set/mapset.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..1c8f78e 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,7 +84,13 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
-	return m.Add(&types.MapEntry{key, value})
+	me := &types.MapEntry{key, value}
+	if m.Set.Has(me) {
+		if err := m.Set.Delete(me); err != nil {
+			return err
+		}
+	}
+	return m.Add(me)
 }
 
 func (m *MapSet) Get(key types.Hashable) (value interface{}, err error) {
-- 
2.43.0


From 62195e2dcff717f094d61a4b420c57a4c784a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 10/21] fix: hash an empty List like other empty containers

An empty List equals an empty LinkedList but hashed differently.
---
 list/array_list.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..710d899 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -235,9 +235,6 @@ func Less(a, b types.IterableContainer) bool {
 
 func (l *List) Hash() int {
 	h := fnv.New32a()
-	if len(l.list) == 0 {
-		return 0
-	}
 	bs := make([]byte, 4)
 	for _, item := range l.list {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
-- 
2.43.0


From 190e04d6f8ad398df627ae28c4d333bb36bf6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 11/21] fix: register pool workers before they start

Stop could return before a worker had called wg.Add, leaving accepted
functions unexecuted.
---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From df0f58d137bd8ff25af52097d2597e7c82e4e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 12/21] fix: copy the key in the TST

append(key, END) wrote into the spare capacity of the slice of the caller,
and the stored key shared its memory.
---
 trie/tst.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..9890635 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -34,11 +34,19 @@ func (self *TST) ValidateKey(key []byte) error {
 	return nil
 }
 
+// symbolOf copies the key, terminated by END. The key belongs to the caller,
+// who may reuse it (or the memory behind it).
+func symbolOf(key []byte) ByteSlice {
+	symbol := make(ByteSlice, 0, len(key)+1)
+	symbol = append(symbol, key...)
+	return append(symbol, END)
+}
+
 func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := symbolOf(key)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -62,7 +70,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := symbolOf(key)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -90,7 +98,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := symbolOf(key)
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 69a7b0a8b2111a8321cef40e5a014ccc65a5b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 13/21] fix: put a removed TST key back

When the key was the prefix of another one Remove left a node without a
middle child, which a later Put copied.
---
 trie/tst_node.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..841974b 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -169,8 +169,7 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			n.l = l
 		} else if ch == n.ch {
 			if d+1 == len(key) && ch == END {
-				n.m = n.m.Copy()
-				n.m.value = val
+				n.m = NewAcceptingTSTNode(END, key, val)
 			} else {
 				m, err := n.m.insert(key, val, d+1)
 				if err != nil {
-- 
2.43.0


From 0a352172270c2b4cb11c53f0c4e338640138c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 14/21] fix: drop the head of the TST when its last key is
 removed

The empty head was neither internal nor accepting, so a later Put failed.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 9890635..d3313d0 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -144,7 +144,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c613c7488dad1bebdb43c8ab12e319a6c3497a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 15/21] fix: find no TST keys for a prefix longer than the key

PrefixFind sliced the key beyond its length.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index d3313d0..be8aa3c 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -178,7 +178,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && len(prefix) < len(next.n.key) && next.n.key[:len(prefix)].Equals(prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From 8f174c0fad6a37af2f43bb1c960ff54f1fc0ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 16/21] fix: Get and Remove on an empty BpMap

Both indexed into an empty leaf.
---
 tree/bptree/bpmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..5fca5ea 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -39,6 +39,9 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 }
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
+	if len(self.root.keys) == 0 {
+		return nil, errors.NotFound(key)
+	}
 	j, l := self.root.get_start(key)
 	if l.keys[j].Equals(key) {
 		return l.values[j], nil
-- 
2.43.0


From b90341ce72ccefcb5ec574af5b5f2fff1d91991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:11 +0000
Subject: [PATCH 17/21] fix: stay inside the requested range of the B+Tree

A forward range (Find, Replace) that starts after the last key yielded the
last key. A backward range yielded a key greater than from, and panicked on
an empty tree.
---
 tree/bptree/bptree_node.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..a86e6f8 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -146,7 +146,7 @@ func (self *BpNode) get_end(key types.Hashable) (i int, leaf *BpNode) {
 	end := false
 	i, leaf = self.get_start(key)
 	pi, pleaf := i, leaf
-	for !end && leaf.keys[i].Equals(key) {
+	for !end && i < len(leaf.keys) && leaf.keys[i].Equals(key) {
 		pi, pleaf = i, leaf
 		i, leaf, end = next_location(i, leaf)
 	}
@@ -645,10 +645,13 @@ func (self *BpNode) all_backward() (li loc_iterator) {
 
 func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_start(from)
-	end := false
+	// get_start yields the last key if all of them are less than from
+	end := len(l.keys) == 0 || l.keys[j].Less(from)
 	j--
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
-		j, l, end = next_location(j, l)
+		if !end {
+			j, l, end = next_location(j, l)
+		}
 		if end || to.Less(l.keys[j]) {
 			return -1, nil, nil
 		}
@@ -659,7 +662,10 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_end(from)
-	end := false
+	end := len(l.keys) == 0
+	if !end && from.Less(l.keys[j]) {
+		j, l, end = prev_location(j, l)
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From 8b44e1423ed0d13a9bdb61493a2312b7c3c9c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:22 +0000
Subject: [PATCH 18/21] fix: remove all matching entries from the B+Tree

RemoveWhere skipped entries while it removed others, lost the blocks behind
an emptied one, left gaps in runs of equal keys that broke the order on the
next insert, panicked on an empty tree and always decremented the size.
---
 tree/bptree/bpmap.go       |  2 +-
 tree/bptree/bptree.go      |  4 +-
 tree/bptree/bptree_node.go | 92 ++++++++++++++++++++------------------
 3 files changed, 51 insertions(+), 47 deletions(-)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index 5fca5ea..0321c39 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -55,7 +55,7 @@ func (self *BpMap) Remove(key types.Hashable) (value interface{}, err error) {
 		return nil, err
 	}
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, func(value interface{}) bool { return true })
+	new_root, _, err := self.root.remove(key, func(value interface{}) bool { return true })
 	if err != nil {
 		return nil, err
 	}
diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..0ca5585 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,7 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	new_root, count, err := self.root.remove(key, where)
 	if err != nil {
 		return err
 	}
@@ -102,7 +102,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= count
 	return nil
 }
 
diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index a86e6f8..3387289 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -461,15 +461,16 @@ func (self *BpNode) put_pointer_at(i int, pointer *BpNode) error {
 	return nil
 }
 
-func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+// count is the number of removed entries
+func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, count int, err error) {
 	if self.Internal() {
-		return self.internal_remove(key, nil, where)
+		return self.internal_remove(key, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, where)
 	}
 }
 
-func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) internal_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, count int, err error) {
 	if !self.Internal() {
 		panic(errors.BpTreeError("Expected a internal node"))
 	}
@@ -479,69 +480,72 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 		// so we have to subtract one from the index.
 		i--
 	}
-	if i+1 < len(self.keys) {
-		sibling = self.pointers[i+1]
-	} else if sibling != nil {
-		sibling = sibling.left_most_leaf()
-	}
-	child := self.pointers[i]
-	if child.Internal() {
-		child, err = child.internal_remove(key, sibling, where)
-	} else {
-		if sibling == nil {
-			child, err = child.leaf_remove(key, nil, where)
-		} else {
-			child, err = child.leaf_remove(key, sibling.keys[0], where)
-		}
-	}
+	child, count, err := self.pointers[i].remove(key, where)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	if child == nil {
 		if err := self.remove_key_at(i); err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 		if err := self.remove_ptr_at(i); err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 	} else {
 		self.keys[i] = child.keys[0]
 		self.pointers[i] = child
 	}
 	if len(self.keys) == 0 {
-		return nil, nil
+		return nil, count, nil
 	}
-	return self, nil
+	return self, count, nil
 }
 
-func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+/* - takes all of the entries with the key out of this block (and of the run of
+ *   pure blocks it starts)
+ * - puts those which should be kept back. This can't split as they fitted
+ *   before, it will only fill this block first (as insert expects it).
+ * - returns nil if this block is now empty
+ */
+func (self *BpNode) leaf_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, count int, err error) {
 	if self.Internal() {
-		return nil, errors.BpTreeError("Expected a leaf node")
+		return nil, 0, errors.BpTreeError("Expected a leaf node")
 	}
-	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
-		if where(l.values[j]) {
-			if err := l.remove_key_at(j); err != nil {
-				return nil, err
+	i, has := self.find(key)
+	if !has {
+		return self, 0, nil
+	}
+	var keys []types.Hashable
+	var values []interface{}
+	for l := self; l != nil && i < len(l.keys) && l.keys[i].Equals(key); l, i = l.next, 0 {
+		for i < len(l.keys) && l.keys[i].Equals(key) {
+			if where(l.values[i]) {
+				count++
+			} else {
+				keys = append(keys, l.keys[i])
+				values = append(values, l.values[i])
+			}
+			if err := l.remove_key_at(i); err != nil {
+				return nil, 0, err
 			}
-			if err := l.remove_value_at(j); err != nil {
-				return nil, err
+			if err := l.remove_value_at(i); err != nil {
+				return nil, 0, err
 			}
 		}
-		if len(l.keys) == 0 {
+		if l != self && len(l.keys) == 0 {
 			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
-			} else {
-				a = nil
-			}
 		}
 	}
-	return a, nil
+	for j := range keys {
+		if _, _, err := self.leaf_insert(keys[j], values[j]); err != nil {
+			return nil, 0, err
+		}
+	}
+	if len(self.keys) == 0 {
+		remove_linked_list_node(self)
+		return nil, count, nil
+	}
+	return self, count, nil
 }
 
 func (self *BpNode) remove_key_at(i int) error {
-- 
2.43.0


From 468235539e1dcb82c6580932ac543be76cdeb7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:33 +0000
Subject: [PATCH 19/21] fix: start Backward at the end of the last run of pure
 blocks

The blocks behind the first block of the run were not visited.
---
 tree/bptree/bptree_node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 3387289..41d33b1 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -632,6 +632,10 @@ func (self *BpNode) all() (li loc_iterator) {
 
 func (self *BpNode) all_backward() (li loc_iterator) {
 	l := self.right_most_leaf()
+	for l.next != nil {
+		// only the first block of a run of pure blocks has a pointer to it
+		l = l.next
+	}
 	j := len(l.keys)
 	end := false
 	j, l, end = prev_location(j, l)
-- 
2.43.0


From 90e8a45519c243a41464eb2873ff96b2ad710cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:57 +0000
Subject: [PATCH 20/21] fix: let IsNil accept values that can not be nil

reflect.Value.IsNil panics for them, for instance for a tree node that is
implemented by a struct value.
---
 types/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types/util.go b/types/util.go
index f0eb8d6..022c382 100644
--- a/types/util.go
+++ b/types/util.go
@@ -5,7 +5,15 @@ import (
 )
 
 func IsNil(object interface{}) bool {
-	return object == nil || reflect.ValueOf(object).IsNil()
+	if object == nil {
+		return true
+	}
+	switch v := reflect.ValueOf(object); v.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+		return v.IsNil()
+	default:
+		return false
+	}
 }
 
 func MakeKVIteratorFromTreeNodeIterator(tni TreeNodeIterator) KVIterator {
-- 
2.43.0


From 80dd839b3ea8bb30a4eb329758df5c402be2c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:28 +0000
Subject: [PATCH 21/21] fix: Pool.Stop waits for the workers even when another
 Stop is already under way

A second Stop found the worker list empty and returned at once.
Functions accepted before could still be pending at that point.
---
 pool/pool.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pool/pool.go b/pool/pool.go
index 0efbbf1..8b48058 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -64,10 +64,6 @@ func (p *Pool) Unlock() {
 
 func (p *Pool) Stop() {
 	p.mu.Lock()
-	if len(p.workers) == 0 {
-		p.mu.Unlock()
-		return
-	}
 	workers := p.workers
 	p.workers = nil
 	p.mu.Unlock()
-- 
2.43.0

