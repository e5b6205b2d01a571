#!/usr/bin/env python3
"""Write contracts/types.spec: one block of contracts per built-in integer type."""
import os
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "types.spec")
T = [("Int8", 1, True), ("UInt8", 1, False), ("Int16", 2, True), ("UInt16", 2, False), ("Int32", 4, True),
     ("UInt32", 4, False), ("Int64", 8, True), ("UInt64", 8, False), ("Int", 8, True), ("UInt", 8, False)]
s = '''// Built-in element types (package types): comparison, hashing, encoding.
// Written by tools/mktypes.py.

// n bytes of x, most significant first, and back
fun be(x: Int, n: Int): Seq<Int> = n <= 0 ? empty<Int> : app(be(x / 256, n - 1), unit(x % 256))
fun unbe(s: Seq<Int>): Int = len(s) <= 0 ? 0 : unbe(take(s, len(s) - 1)) * 256 + s[len(s) - 1]
fun p256(n: Int): Int = n <= 0 ? 1 : p256(n - 1) * 256
group bytes
lemma be_len(x: Int, n: Int) induct n : {be(x, n)} 0 <= n ==> len(be(x, n)) == n
lemma be_un(x: Int, n: Int) induct n use be_len : {unbe(be(x, n))} 0 <= n && 0 <= x && x < p256(n) ==> unbe(be(x, n)) == x
  by { 0 < n ==> p256(n) == p256(n - 1) * 256; 0 < n && 0 <= x && x < p256(n) ==> 0 <= x / 256 && x / 256 < p256(n - 1) && x == (x / 256) * 256 + x % 256;
       0 < n ==> seqeq(take(be(x, n), n - 1), be(x / 256, n - 1)) && be(x, n)[n - 1] == x % 256 }
lemma p256s(n: Int) : {p256(n)} (n == 1 ==> p256(n) == 256) && (n == 2 ==> p256(n) == 65536) && (n == 4 ==> p256(n) == 4294967296) && (n == 8 ==> p256(n) == 18446744073709551616)
  by { p256(0) == 1; p256(1) == 256; p256(2) == 65536; p256(3) == 16777216; p256(4) == 4294967296; p256(5) == 1099511627776; p256(6) == 281474976710656; p256(7) == 72057594037927936; p256(8) == 18446744073709551616 }

extern binary.(bigEndian).PutUint16(e, b, x)() {
  requires len(b) >= 2 &*& slice(b; ?A)
  ensures slice(b; ?B) &*& (forall i: Int :: {B[i]} i < b.off || i >= b.off + 2 ==> B[i] == A[i]) &*& arrseq(B, b.off, 2) == be(x, 2)
}
extern binary.(bigEndian).PutUint32(e, b, x)() {
  requires len(b) >= 4 &*& slice(b; ?A)
  ensures slice(b; ?B) &*& (forall i: Int :: {B[i]} i < b.off || i >= b.off + 4 ==> B[i] == A[i]) &*& arrseq(B, b.off, 4) == be(x, 4)
}
extern binary.(bigEndian).PutUint64(e, b, x)() {
  requires len(b) >= 8 &*& slice(b; ?A)
  ensures slice(b; ?B) &*& (forall i: Int :: {B[i]} i < b.off || i >= b.off + 8 ==> B[i] == A[i]) &*& arrseq(B, b.off, 8) == be(x, 8)
}
extern binary.(bigEndian).Uint16(e, b)(x) {
  requires len(b) >= 2
  reads slice(b; ?A)
  ensures x == unbe(arrseq(A, b.off, 2)) && 0 <= x && x < 65536
}
extern binary.(bigEndian).Uint32(e, b)(x) {
  requires len(b) >= 4
  reads slice(b; ?A)
  ensures x == unbe(arrseq(A, b.off, 4)) && 0 <= x && x < 4294967296
}
extern binary.(bigEndian).Uint64(e, b)(x) {
  requires len(b) >= 8
  reads slice(b; ?A)
  ensures x == unbe(arrseq(A, b.off, 8)) && 0 <= x && x < 18446744073709551616
}
'''
def rng(t, w, sg, x):
    lo, hi = (-(1 << (8*w-1)), 1 << (8*w-1)) if sg else (0, 1 << (8*w))
    return f"{lo} <= {x} && {x} < {hi}"
enc = ""
for t, w, sg in T:
    enc += f"  k == typeid(types.{t}) ? be(unbox<types.{t}>(v) % {1<<(8*w)}, {w}) :\n"
dl = ""
for t, w, sg in T:
    dl += f"  k == typeid(types.{t}) ? n == {w} :\n"
bk = " || ".join(f"k == typeid(types.{t[0]})" for t in T + [("String",)])
ok = ""
for t, w, sg in T:
    ok += f"  k == typeid(types.{t}) ? typeof(v) == k && {rng(t, w, sg, f'unbox<types.{t}>(v)')} :\n"
s += f'''
// encoding of value v by codec k; the built-in codecs are named by their type
ufun encx(k: Int, v: Val): Seq<Int>
ufun okx(k: Int, v: Val): Bool
opaque encof(k: Int, v: Val): Seq<Int> =
{enc}  k == typeid(types.String) ? unbox<types.String>(v) : encx(k, v)
// the values codec k is for
opaque okv(k: Int, v: Val): Bool =
{ok}  k == typeid(types.String) ? typeof(v) == k : okx(k, v)

// the lengths codec k can decode
opaque declen(k: Int, n: Int): Bool =
{dl}  true
fun bik(k: Int): Bool = {bk}

pred marsh(m: Fn; k: Int) {{
  fact m != nil
}}
pred unmarsh(m: Fn; k: Int) {{
  fact m != nil
}}
functype types.ItemMarshal(self, item)(bs, err) {{
  requires item != nil &*& ro marsh(self; ?k) &*& okv(k, item)
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) <= MAXLEN &*& arrseq(A, bs.off, len(bs)) == encof(k, item)
}}
functype types.ItemUnmarshal(self, bs)(item, err) {{
  requires ro unmarsh(self; ?k)
  reads slice(bs; ?A)
  ensures forall v: Val :: {{encof(k, v)}} v != nil && okv(k, v) && arrseq(A, bs.off, len(bs)) == encof(k, v) ==> err == nil && item != nil && rank(item) == rank(v) && (bik(k) ==> item == v)
  ensures err != nil ==> item == nil
  ensures !declen(k, len(bs)) ==> err != nil
}}
'''
for t, w, sg in T:
    m = 1 << (8*w)
    s += f'''
// ------------------------------------------------------------ {t}

func types.({t}).Equals(self, other)(r) {{
  ensures r == (typeof(other) == typeid(types.{t}) && unbox<types.{t}>(other) == self)
  tags C20
}}
func types.({t}).Less(self, other)(r) {{
  ensures r == (typeof(other) == typeid(types.{t}) && self < unbox<types.{t}>(other))
  tags C20
}}
func types.({t}).Hash(self)(r) {{
  pure
  tags C20
}}
func types.(*{t}).MarshalBinary(self)(bs, err) {{
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == {w} &*& arrseq(A, bs.off, len(bs)) == be(x % {m}, {w})
  use be_len
  tags C21
}}
func types.(*{t}).UnmarshalBinary(self, data)(err) {{
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != {w} ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& {rng(t, w, sg, 'y')}
      &*& (forall x: Int :: {{be(x % {m}, {w})}} {rng(t, w, sg, 'x')} && arrseq(A, data.off, {w}) == be(x % {m}, {w}) ==> y == x)
  use bytes
  tags C21
}}
pred marsh(m: Fn; k: Int) {{
  case closure types.{t}Marshals$1 => k := typeid(types.{t})
}}
pred unmarsh(m: Fn; k: Int) {{
  case closure types.{t}Marshals$2 => k := typeid(types.{t})
}}
func types.{t}Marshals()(m, u) {{
  ensures imm marsh(m; typeid(types.{t})) &*& imm unmarsh(u; typeid(types.{t}))
  tags C21
}}
func types.{t}Marshals$1 implements types.ItemMarshal {{ use be_len, encof, okv tags C21 }}
func types.{t}Marshals$2 implements types.ItemUnmarshal {{ use be_len, encof, okv, declen tags C21 }}
'''
s += '''
// ------------------------------------------------------------ String

func types.(String).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.String) && unbox<types.String>(other) == self)
  tags C20
}
func types.(String).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.String) && strlt(self, unbox<types.String>(other)))
  use strorder
  tags C20
}
func types.(String).Hash(self)(r) {
  ensures r == fnv32(self)
  tags C20
}
func types.(*String).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& arrseq(A, bs.off, len(bs)) == x
  tags C21
}
func types.(*String).UnmarshalBinary(self, data)(err) {
  requires *self |-> _
  reads slice(data; ?A)
  ensures err == nil &*& *self |-> arrseq(A, data.off, len(data))
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.StringMarshals$1 => k := typeid(types.String)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.StringMarshals$2 => k := typeid(types.String)
}
func types.StringMarshals()(m, u) {
  ensures imm marsh(m; typeid(types.String)) &*& imm unmarsh(u; typeid(types.String))
  tags C21
}
func types.StringMarshals$1 implements types.ItemMarshal { use encof, okv tags C21 }
func types.StringMarshals$2 implements types.ItemUnmarshal { use encof, okv, declen tags C21 }

// ------------------------------------------------------------ ByteSlice

extern bytes.Equal(a, b)(r) {
  reads slice(a; ?A) &*& slice(b; ?B)
  ensures r == (arrseq(A, a.off, len(a)) == arrseq(B, b.off, len(b)))
}
extern bytes.Compare(a, b)(r) {
  reads slice(a; ?A) &*& slice(b; ?B)
  ensures r == (strlt(arrseq(A, a.off, len(a)), arrseq(B, b.off, len(b))) ? -1 : arrseq(A, a.off, len(a)) == arrseq(B, b.off, len(b)) ? 0 : 1)
}
func types.(ByteSlice).Equals(self, other)(r) {
  reads slice(self; ?A) &*& (typeof(other) == typeid(types.ByteSlice) ? slice(unbox<types.ByteSlice>(other); ?B) : let B = A)
  ensures r == (typeof(other) == typeid(types.ByteSlice) && arrseq(A, self.off, len(self)) == (let o = unbox<types.ByteSlice>(other) in arrseq(B, o.off, len(o))))
  tags C20
}
func types.(ByteSlice).Less(self, other)(r) {
  reads slice(self; ?A) &*& (typeof(other) == typeid(types.ByteSlice) ? slice(unbox<types.ByteSlice>(other); ?B) : let B = A)
  ensures r == (typeof(other) == typeid(types.ByteSlice) && (let o = unbox<types.ByteSlice>(other) in strlt(arrseq(A, self.off, len(self)), arrseq(B, o.off, len(o)))))
  use strorder
  tags C20
}
func types.(ByteSlice).Hash(self)(r) {
  reads slice(self; ?A)
  ensures r == fnv32(arrseq(A, self.off, len(self)))
  tags C20
}
func types.(*ByteSlice).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x &*& slice(x; ?A)
  ensures err == nil &*& slice(bs; ?B) &*& arrseq(B, bs.off, len(bs)) == arrseq(A, x.off, len(x))
  tags C21
}
func types.(*ByteSlice).UnmarshalBinary(self, data)(err) {
  requires *self |-> _
  reads slice(data; ?A)
  ensures err == nil &*& *self |-> ?y &*& slice(y; ?B) &*& arrseq(B, y.off, len(y)) == arrseq(A, data.off, len(data))
  tags C21
}
pred bscodec(f: Fn; z: Int) {
  case closure types.ByteSliceMarshals$1 => z := 1
  case closure types.ByteSliceMarshals$2 => z := 2
}
func types.ByteSliceMarshals()(m, u) {
  ensures imm bscodec(m; 1) &*& imm bscodec(u; 2)
  tags C21
}
func types.ByteSliceMarshals$1(item)(bs, err) {
  requires typeof(item) == typeid(types.ByteSlice)
  reads slice(unbox<types.ByteSlice>(item); ?A)
  ensures err == nil &*& slice(bs; ?B) &*& (let x = unbox<types.ByteSlice>(item) in arrseq(B, bs.off, len(bs)) == arrseq(A, x.off, len(x)))
  tags C21
}
func types.ByteSliceMarshals$2(data)(item, err) {
  reads slice(data; ?A)
  ensures err == nil &*& typeof(item) == typeid(types.ByteSlice) &*& slice(unbox<types.ByteSlice>(item); ?B)
    &*& (let y = unbox<types.ByteSlice>(item) in arrseq(B, y.off, len(y)) == arrseq(A, data.off, len(data)))
  tags C21
}
'''
open(out, "w").write(s)
