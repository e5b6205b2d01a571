// Membership and multiplicity by rank.

fun mem(q: Seq<Val>, r: Int): Bool = exists i: Int :: {q[i]} 0 <= i && i < len(q) && rank(q[i]) == r

fun cnt(q: Seq<Val>, r: Int): Int = len(q) <= 0 ? 0 : cnt(take(q, len(q) - 1), r) + (rank(q[len(q) - 1]) == r ? 1 : 0)

group cnts
lemma cnt_nonneg(q: Seq<Val>, r: Int) induct q : {cnt(q, r)} cnt(q, r) >= 0
lemma cnt_unit(q: Seq<Val>, x: Val, r: Int) : {cnt(app(q, unit(x)), r)} cnt(app(q, unit(x)), r) == cnt(q, r) + (rank(x) == r ? 1 : 0)
  by { seqeq(take(app(q, unit(x)), len(q)), q) }
lemma cnt_ins(q: Seq<Val>, i: Int, x: Val, r: Int) induct q : {cnt(ins(q, i, x), r)}
  0 <= i && i <= len(q) ==> cnt(ins(q, i, x), r) == cnt(q, r) + (rank(x) == r ? 1 : 0)
  by { i == len(q) ==> seqeq(take(ins(q, i, x), len(q)), q);
       0 <= i && i < len(q) ==> seqeq(take(ins(q, i, x), len(q)), ins(take(q, len(q) - 1), i, x)) }
lemma cnt_rem(q: Seq<Val>, i: Int, r: Int) induct q : {cnt(rem(q, i), r)}
  0 <= i && i < len(q) ==> cnt(rem(q, i), r) == cnt(q, r) - (rank(q[i]) == r ? 1 : 0)
  by { 0 <= i && i == len(q) - 1 ==> seqeq(rem(q, i), take(q, len(q) - 1));
       0 <= i && i < len(q) - 1 ==> seqeq(take(rem(q, i), len(q) - 2), rem(take(q, len(q) - 1), i)) }
lemma cnt_upd(q: Seq<Val>, i: Int, x: Val, r: Int) induct q : {cnt(upd(q, i, x), r)}
  0 <= i && i < len(q) ==> cnt(upd(q, i, x), r) == cnt(q, r) - (rank(q[i]) == r ? 1 : 0) + (rank(x) == r ? 1 : 0)
  by { i == len(q) - 1 ==> seqeq(take(upd(q, i, x), len(q) - 1), take(q, len(q) - 1));
       0 <= i && i < len(q) - 1 ==> seqeq(take(upd(q, i, x), len(q) - 1), upd(take(q, len(q) - 1), i, x)) }
lemma cnt_take(q: Seq<Val>, k: Int, r: Int) : {cnt(take(q, k), r)}
  0 < k && k <= len(q) ==> cnt(take(q, k), r) == cnt(take(q, k - 1), r) + (rank(q[k - 1]) == r ? 1 : 0)
  by { 0 < k && k <= len(q) ==> seqeq(take(take(q, k), k - 1), take(q, k - 1)) }

group mems
lemma mem_idx(q: Seq<Val>, i: Int) : {q[i]} 0 <= i && i < len(q) ==> mem(q, rank(q[i]))
lemma mem_unit(q: Seq<Val>, x: Val, r: Int) use mem_idx : {mem(app(q, unit(x)), r)} mem(app(q, unit(x)), r) == (mem(q, r) || rank(x) == r)
  by { app(q, unit(x))[len(q)] == x }
lemma mem_ins(q: Seq<Val>, i: Int, x: Val, r: Int) : {mem(ins(q, i, x), r)}
  0 <= i && i <= len(q) ==> mem(ins(q, i, x), r) == (mem(q, r) || rank(x) == r)
  by { 0 <= i && i <= len(q) ==> ins(q, i, x)[i] == x;
       0 <= i && i <= len(q) && mem(q, r) ==> (exists j: Int :: {q[j]} 0 <= j && j < len(q) && rank(q[j]) == r && ins(q, i, x)[j < i ? j : j + 1] == q[j]) }
lemma mem_rem(q: Seq<Val>, i: Int, r: Int) : {mem(rem(q, i), r)}
  0 <= i && i < len(q) ==> (mem(rem(q, i), r) ==> mem(q, r)) && (mem(q, r) ==> mem(rem(q, i), r) || r == rank(q[i]))
  by { 0 <= i && i < len(q) && mem(q, r) && r != rank(q[i]) ==> (exists j: Int :: {q[j]} 0 <= j && j < len(q) && rank(q[j]) == r && rem(q, i)[j < i ? j : j - 1] == q[j]) }
lemma mem_take0(q: Seq<Val>, k: Int, r: Int) : {mem(take(q, k), r), take(q, k - 1)}
  0 < k && k <= len(q) ==> mem(take(q, k), r) == (mem(take(q, k - 1), r) || rank(q[k - 1]) == r)
  by { 0 < k && k <= len(q) ==> take(q, k)[k - 1] == q[k - 1];
       0 < k && k <= len(q) && mem(take(q, k), r) ==> (exists j: Int :: {q[j]} 0 <= j && j < k && rank(q[j]) == r);
       0 < k && k <= len(q) && mem(take(q, k - 1), r) ==> (exists j: Int :: {q[j]} 0 <= j && j < k - 1 && rank(q[j]) == r && take(q, k)[j] == q[j] && take(q, k - 1)[j] == q[j])}
lemma mem_take(q: Seq<Val>, k: Int, k1: Int, r: Int) use mem_take0 : {mem(take(q, k1), r), take(q, k)}
  0 <= k && k1 == k + 1 && k1 <= len(q) ==> mem(take(q, k1), r) == (mem(take(q, k), r) || rank(q[k]) == r)
  by { k1 == k + 1 ==> k == k1 - 1 }
