import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"concrete state the guarantee is about","where":files[0]}]
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
L='list/array_list.go'; S='list/sorted.go'
p("C01","The array list is an exact sequence",
 "After any history of calls an array list holds exactly the sequence those calls describe: insert, append, push, set, remove, pop, extend and clear change that sequence and nothing else, and get, size, membership and both iteration directions report it. An index outside the sequence is refused with an error and changes nothing. Copies and lists made from slices never share storage with their source.",
 ["histories","inputs"],"every finite history of list calls, every index value, every element type with lawful equality, every size and capacity",
 "The tests append, read and remove a few hundred random items from one end; growth and shrink points, inner inserts, aliasing of copies and refused calls are only met by accident, for a handful of lengths.",
 [L],[("insert with shifting loop",L+" Insert"),("growth and shrink of the storage",L+" expand, shrink"),("removal by overlapping copy",L+" Remove")],"backing slice, its length and capacity","Get/Items/Size after each call")
p("C02","Fixed-size lists never exceed or lose their capacity",
 "A list created with a fixed size accepts items until it holds exactly that many, then refuses every further item with an error and stays unchanged; it reports full exactly when it holds that many items. Removing, popping, clearing, copying and refused calls never change the capacity.",
 ["histories","configurations"],"every fixed capacity including zero, every history of calls, plain and sorted lists, with and without duplicates",
 "The tests fill one list of one capacity once; capacity after removals, copies, clears and refused inserts is not looked at, and no finite set of capacities covers the claim.",
 [L,S],[("fixed flag consulted on growth and shrink",L+" expand, shrink, Full"),("sorted wrapper",S+" Add")],"capacity of the backing slice","error results, Full, Size")
p("C03","Sorted lists and sorted sets stay ordered, with exact membership",
 "At every moment a sorted list yields its items in non-descending order, in strictly ascending order when it forbids duplicates. Add, delete, remove-by-index, extend and clear change the contents exactly as on a sorted multiset (a set, without duplicates; adding a present item changes nothing), and has, find, item lookup and get agree with the contents; find returns the first position of an equal item, or else the position where it belongs.",
 ["histories","inputs"],"every history of calls, every item order and duplicate pattern, every lawful ordered element type",
 "Tests add random integers and look them up again; binary search boundaries with runs of duplicates at each position and after each removal form an unbounded space.",
 [S,'set/sortedset.go',L],[("binary search with walk to the first duplicate",S+" Find"),("insertion at the found position",S+" Add"),("set wrapper",'set/sortedset.go')],"sorted backing list","Items, Find, Has, Get")
p("C04","Set algebra computes the mathematical sets",
 "Union, intersection and difference of any two sets return a new set with exactly the mathematical result and leave both operands unchanged. Subset, superset, proper subset and proper superset answer exactly the mathematical questions, for every combination of set implementations over the same element type; overlap and equality do so for sorted sets.",
 ["inputs","configurations"],"every pair of finite sets in every supported pair of representations",
 "Tests use a few random pairs of one representation; the claim ranges over all pairs of sets and representation mixes, including empty, equal, nested and disjoint ones.",
 ['set/ops.go','set/sortedset.go','set/setmap.go','set/mapset.go'],[("generic operations over iterators",'set/ops.go'),("merge union and overlap",'set/sortedset.go union, Overlap')],None,"result sets and booleans")
p("C05","A set over a map and a map over a set are faithful",
 "A set built on any of the library's maps behaves as a set of the keys, and a map built on a sorted set behaves as a map: put replaces the value of an equal key, get and remove return the stored value or an error for an absent key, and size, membership and iteration agree with the contents. No operation fails or changes anything beyond that.",
 ["histories","configurations"],"every history of calls, every underlying map or set offered by the library, every lawful key type",
 "The adapters are tested with one backing structure and no overwrite; correctness over every backing structure that meets the interface contract is not a finite statement.",
 ['set/setmap.go','set/mapset.go','types/map_entry.go'],[("adapter from map to set",'set/setmap.go'),("adapter from set to map through entries compared by key",'set/mapset.go, types/map_entry.go')],None,"Get/Has/Items/Size")
p("C06","The linked list is an exact double-ended queue",
 "After any history of calls the doubly linked list holds exactly the sequence described by enqueueing and dequeueing at either end: items come out in the described order, dequeueing or peeking an empty list gives an error or nothing, and size, first, last and membership agree. Iterating forwards yields the sequence and iterating backwards yields its reverse.",
 ["histories"],"every finite history of enqueue, dequeue, push, pop and iterate calls",
 "Tests push a batch and pop it again; interleavings of both ends around the empty and one-element list, and the backward links after them, are not enumerated by tests.",
 ['linked/linked.go'],[("two-way pointer updates",'linked/linked.go EnqueFront, EnqueBack, DequeFront, DequeBack')],"head, tail, length and node links","Items, Backwards, First, Last, Size")
p("C07","The unique deque holds each item once",
 "The unique deque behaves as a double-ended queue that ignores an item equal to one it currently holds, and accepts it again once it has been dequeued. Membership, size, order and both iteration directions always agree with that.",
 ["histories"],"every finite history of calls and every lawful key type with arbitrary hash collisions",
 "Tests use a few distinct integers; the agreement of the queue with its membership index after arbitrary interleavings and hash collisions is an unbounded claim.",
 ['linked/unique.go','linked/linked.go','hashtable/linhash.go'],[("queue and set kept in step",'linked/unique.go')],"linked queue plus hashed set","Items, Has, Size, dequeue results")
p("C08","The binary heap always serves a best-priority item",
 "Pop and peek on a heap return an item whose priority is best (smallest for a min heap, largest for a max heap) among the items held, or nothing when it is empty; pop removes exactly that one item. Every pushed item is held, with its priority, until it is popped, and size, iteration and self-verification agree.",
 ["histories","inputs"],"every finite history of pushes and pops, every priority value, min and max heaps",
 "Tests push random priorities and pop them all; the heap shape after every interleaving of pushes and pops, with ties and extreme priorities, cannot be enumerated.",
 ['heap/pq.go'],[("sift up",'heap/pq.go fixUp'),("sift down",'heap/pq.go fixDown')],"array-embedded heap","Pop, Peek, Items, Size")
p("C09","The unique priority queue holds each item once",
 "The unique priority queue ignores an item equal to one it currently holds, otherwise behaves as the priority queue it wraps, accepts an item again after it was popped, and returns nothing when popped or peeked empty.",
 ["histories"],"every finite history of calls over any correct priority queue and any lawful key type",
 "Tests never pop an empty queue nor re-add a popped item; agreement between queue and membership index over all histories is not finite.",
 ['heap/unique.go','heap/pq.go','set/setmap.go'],[("queue and set kept in step",'heap/unique.go')],None,"Pop, Peek, Size")
p("C10","The AVL tree is an exact ordered map",
 "After any history of calls the mutable AVL tree holds exactly the described mapping: put adds or overwrites one key, remove deletes one present key and returns its value, removing an absent key is refused and changes nothing, and has, get and size agree. Iteration over entries, keys, values and items yields every entry once in ascending key order.",
 ["histories","inputs"],"every finite history of puts and removes in every key order, every lawful ordered key type",
 "Tests insert and remove random keys and check lookups; rotations move arbitrary inner nodes, so entry loss depends on the shape reached by the history, and the number of shapes is unbounded.",
 ['tree/avl/avltree.go','tree/util.go','types/util.go'],[("rotation by moving an inner node to the root",'tree/avl/avltree.go pop_node, push_node, rotate_left, rotate_right, balance'),("removal by grafting subtrees",'tree/avl/avltree.go Remove')],"node pointers and cached heights","Get, Has, Iterate, Size")
p("C11","The immutable AVL tree is an exact map and never changes old versions",
 "The immutable AVL tree behaves as an exact ordered map like the mutable one. A tree version obtained earlier (a root or node handed out, or the result of a put or remove on a node) keeps exactly its contents whatever is later done to the tree or to other versions.",
 ["histories"],"every finite history over all live versions, every lawful ordered key type",
 "Tests look only at the newest version; a single in-place write to a shared node corrupts some older version for some later history, which tests do not hold on to.",
 ['tree/avl/imm_avltree.go'],[("path copying",'tree/avl/imm_avltree.go Copy before each write'),("rotation on copied paths",'tree/avl/imm_avltree.go pop_node, push_node, rotate')],"shared nodes","Iterate/Get of every retained version")
p("C12","The chained hash table is an exact map",
 "After any history of calls the chained hash table holds exactly the described mapping, whatever the hash values are: put adds or overwrites one key, remove deletes exactly one present key and returns its value, an absent key is reported as such, and size agrees. Iteration yields every entry exactly once, in any order.",
 ["histories","inputs","configurations"],"every history, every initial size, every hash function consistent with equality including extreme and colliding hashes",
 "Tests use strings with well-spread hashes; collisions, negative and extreme hash values, and growth at every fill level are outside what random strings reach.",
 ['hashtable/hashtable.go'],[("bucket choice",'hashtable/hashtable.go bucket'),("chains",'hashtable/hashtable.go entry methods'),("growth by reinsertion",'hashtable/hashtable.go expand')],"bucket array and chains","Get, Has, Iterate, Size")
p("C13","The linear hash table is an exact map",
 "After any history of calls the linear hash table holds exactly the described mapping, before, during and after its incremental bucket splits and for every hash function consistent with equality; lookups, removal, size and iteration agree with it as for any map.",
 ["histories","inputs"],"every history long enough to split any number of buckets, every hash function consistent with equality",
 "Splits start after hundreds of entries and addressing depends on the split state; tests cross only the first few splits with well-spread hashes.",
 ['hashtable/linhash.go','tree/avl/avltree.go'],[("bucket addressing",'hashtable/linhash.go bucket'),("bucket split",'hashtable/linhash.go split')],"bucket table, split state","Get, Has, Iterate, Size")
p("C14","The ternary search trie is an exact map on byte strings",
 "After any history of calls the trie holds exactly the described mapping from non-empty byte strings without zero bytes; other keys are refused and change nothing. A removed key can be put again, keys that are prefixes of each other do not interfere, and no call writes to or keeps the caller's key buffer.",
 ["histories","inputs"],"every history of put, get, has and remove, every set of byte strings, every capacity of the passed slices",
 "Tests insert random words and never reinsert removed prefixes or reuse key buffers; the shapes reachable by removal are unbounded.",
 ['trie/tst.go','trie/tst_node.go'],[("insertion and splitting of leaves",'trie/tst_node.go insert, split'),("removal with pruning",'trie/tst.go Remove')],"trie nodes and stored keys","Get, Has, Put/Remove results, caller's slices")
p("C15","Trie iteration and prefix search are complete, exact and ordered",
 "Iterating the trie yields every stored key with its value exactly once in ascending byte order. A prefix search yields exactly the stored keys that start with the prefix, in that order; an empty prefix yields all of them.",
 ["histories","inputs"],"every reachable trie and every prefix, including absent, longer-than-any-key and empty ones",
 "Tests search a few prefixes that exist in a fixed word list; the claim is about every trie shape and every prefix.",
 ['trie/tst.go','trie/tst_node.go','tree/util.go'],[("walk to the prefix root",'trie/tst.go PrefixFind'),("pre-order traversal over three-way nodes",'trie/tst.go Iterate, tree/util.go')],None,"sequences yielded")
p("C16","The B+tree multimap keeps every entry, in key order",
 "After any sequence of additions and replacements the B+tree holds exactly the added entries (duplicates of a key included); has, count and size agree with them, and replacement changes exactly the selected values of the given key. Forward iteration yields all entries in ascending key order, backward iteration in descending order, and the key iteration each distinct key once.",
 ["histories","configurations"],"every history of additions and replacements, every node size of at least two, every duplicate pattern",
 "Node splits interact with runs of equal keys that overflow a block; which combination arises depends on the whole history, which random tests with one node size do not cover.",
 ['tree/bptree/bptree.go','tree/bptree/bptree_node.go'],[("leaf, pure-leaf and internal splits",'tree/bptree/bptree_node.go leaf_split, pure_leaf_split, internal_split, balance_nodes'),("linked leaves",'tree/bptree/bptree_node.go insert_linked_list_node')],"nodes, leaf links","Iterate, Backward, Keys, Count, Size")
p("C17","B+tree range search and removal are exact",
 "A range over the B+tree yields exactly the entries with keys between the bounds, ascending when the first bound is not greater and descending otherwise; find yields exactly the entries of the key. Conditional removal deletes exactly the entries of the key that the condition selects, and everything else about the tree stays intact and usable.",
 ["histories","configurations"],"every history including removals, every pair of bounds, every selection, every node size of at least two",
 "Removing from runs of equal keys across blocks leaves shapes that only show up under later operations; tests remove single keys.",
 ['tree/bptree/bptree.go','tree/bptree/bptree_node.go'],[("range cursors",'tree/bptree/bptree_node.go forward, backward, get_start, get_end'),("removal",'tree/bptree/bptree_node.go leaf_remove, internal_remove')],None,"Range, Find, Iterate, Size after removals")
p("C18","The B+tree map is an exact ordered map",
 "After any history of calls the B+tree map holds exactly the described mapping, with one value per key; lookups, removal of present and absent keys (also on an empty map), size and ascending iteration agree with it.",
 ["histories","configurations"],"every history of puts and removes, every node size of at least two",
 "Tests use one node size and random keys and never look up in an empty map.",
 ['tree/bptree/bpmap.go','tree/bptree/bptree_node.go'],[("put with overwrite",'tree/bptree/bpmap.go Put'),("removal",'tree/bptree/bpmap.go Remove')],None,"Get, Has, Iterate, Size")
p("C19","Tree traversals visit every node once in the right order",
 "For every finite tree, pre-order traversal yields each node before its children's subtrees, post-order yields each node after them, and in-order traversal of a binary tree yields the left subtree, the node and the right subtree, with children in order and every node exactly once. An empty tree yields nothing.",
 ["inputs"],"every finite tree shape and every implementation of the node interfaces, including those that cannot count their children",
 "Tests traverse one or two small trees; the claim covers every shape, including missing left or right children and degenerate chains.",
 ['tree/util.go','types/util.go'],[("explicit stacks in closures",'tree/util.go'),("child enumeration of binary nodes",'types/util.go')],"traversal stack","sequence of nodes")
p("C20","Built-in element types order, compare and hash lawfully",
 "For each built-in element type equality is exactly equality of values of the same type, less-than is a strict total order on them that agrees with equality, and equal values have equal hashes. Values of different types are never equal nor ordered.",
 ["inputs"],"every pair and triple of values of every built-in element type, including extremes and empty strings",
 "The containers rely on these laws for all values; tests compare a few.",
 ['types/int.go','types/string.go','types/map_entry.go','linked/linked.go'],[("comparison methods per type",'types/int.go, types/string.go, types/map_entry.go')],None,"results of Equals, Less, Hash")
p("C21","Element serialization round-trips every value",
 "For each built-in element type, decoding the encoding of any value succeeds and gives back an equal value of the same type, encoding never fails, and data of a wrong length is refused. The decoded value does not share memory with the data it was read from.",
 ["inputs"],"every value of every built-in element type, and every byte string offered for decoding",
 "Tests serialize a handful of small integers of one type.",
 ['types/int.go','types/string.go','types/util.go'],[("fixed width big-endian codecs",'types/int.go'),("codec constructors",'types/util.go')],None,"encode/decode results")
p("C22","Container serialization round-trips contents and configuration",
 "Decoding the encoding of a list, sorted list or sorted set gives a container with the same items in the same order, the same duplicate policy, and the same fixed capacity or growability, for every item codec that round-trips its items.",
 ["inputs","configurations"],"every container whose sizes fit the 32-bit length fields, every item codec including variable-length and empty encodings",
 "Tests round-trip one list of integers; item lengths, capacities and policies vary without bound.",
 [L,S,'set/sortedset.go'],[("length-prefixed framing",L+" MarshalBinary, UnmarshalBinary"),("policy byte",S+" MarshalBinary, UnmarshalBinary")],None,"decoded container")
p("C23","Containers compare lexicographically and hash consistently",
 "Lists, sorted lists, sorted sets, linked lists and unique deques are equal exactly when they hold equal items in the same order, and less exactly when shorter or, at equal length, smaller at the first difference; against anything that is not a container both are false. Equal containers of any of these kinds have equal hashes.",
 ["inputs","configurations"],"every pair of containers of these kinds with every lawful element type",
 "Tests compare a few lists of one kind; mixed kinds, empties and prefixes are unbounded.",
 [L,S,'linked/linked.go','linked/unique.go'],[("lock-step iteration",L+" Equals, Less"),("FNV over item hashes",L+" Hash")],None,"Equals, Less, Hash")
p("C24","Exception blocks run the right handlers exactly once",
 "Running a try block executes its body once, then at most one handler: the first one registered whose exception type matches what was thrown; then every finally function once, in order. What was not handled, or was thrown by the handler, is reported by error, exception or unwind; a block without failure reports nothing, ordinary panics pass through unchanged, and a closer obtained by the close form is closed exactly once whether or not its body fails.",
 ["programs","fault_sequences"],"every combination of thrown value, handler list, handler outcome and finally list",
 "Tests have a fixed set of blocks; combinations of rethrowing handlers, several matching handlers and failing closers are not enumerated.",
 ['exc/block.go','exc/exception.go'],[("recover-based execution",'exc/block.go exec, run'),("type matching through embedded exceptions",'exc/block.go isa')],None,"trace of executed functions and the reported exception")
p("C25","The thread-safe random source is used by one caller at a time",
 "Every use of the underlying generator through the thread-safe source happens while its lock is held, and every call releases the lock when it returns. Concurrent callers therefore draw disjoint parts of one sequence, and no call can block another forever.",
 ["schedules"],"every interleaving of concurrent callers",
 "Races depend on the schedule; the tests are sequential here.",
 ['rand/rand.go'],[("mutex around each generator call",'rand/rand.go lockedSource')],"generator state guarded by a mutex","values drawn")
p("C26","The worker pool runs each accepted function exactly once before stop ends",
 "Every function accepted by the pool is executed exactly once, and stopping the pool returns only after all accepted functions have finished; a stopped pool refuses further functions. Waiting for the pool returns only when no accepted function is pending.",
 ["schedules"],"every interleaving of submitters, workers, waiters and stop",
 "Tests run one schedule each; lost or late work depends on the interleaving.",
 ['pool/pool.go'],[("worker channels",'pool/pool.go Do, work'),("pending counter under a condition variable",'pool/pool.go')],None,"executions and return of Stop, WaitLock")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import collections
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
