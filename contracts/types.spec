// Built-in element types (package types): comparison, hashing, encoding.
// Written by tools/mktypes.py.

// n bytes of x, most significant first, and back
fun be(x: Int, n: Int): Seq<Int> = n <= 0 ? empty<Int> : app(be(x / 256, n - 1), unit(x % 256))
fun unbe(s: Seq<Int>): Int = len(s) <= 0 ? 0 : unbe(take(s, len(s) - 1)) * 256 + s[len(s) - 1]
fun p256(n: Int): Int = n <= 0 ? 1 : p256(n - 1) * 256
group bytes
lemma be_len(x: Int, n: Int) induct n : {be(x, n)} 0 <= n ==> len(be(x, n)) == n
lemma be_un(x: Int, n: Int) induct n use be_len : {unbe(be(x, n))} 0 <= n && 0 <= x && x < p256(n) ==> unbe(be(x, n)) == x
  by { 0 < n ==> p256(n) == p256(n - 1) * 256; 0 < n && 0 <= x && x < p256(n) ==> 0 <= x / 256 && x / 256 < p256(n - 1) && x == (x / 256) * 256 + x % 256;
       0 < n ==> seqeq(take(be(x, n), n - 1), be(x / 256, n - 1)) && be(x, n)[n - 1] == x % 256 }
lemma p256s(n: Int) : {p256(n)} (n == 1 ==> p256(n) == 256) && (n == 2 ==> p256(n) == 65536) && (n == 4 ==> p256(n) == 4294967296) && (n == 8 ==> p256(n) == 18446744073709551616)
  by { p256(0) == 1; p256(1) == 256; p256(2) == 65536; p256(3) == 16777216; p256(4) == 4294967296; p256(5) == 1099511627776; p256(6) == 281474976710656; p256(7) == 72057594037927936; p256(8) == 18446744073709551616 }

extern binary.(bigEndian).PutUint16(e, b, x)() {
  requires len(b) >= 2 &*& slice(b; ?A)
  ensures slice(b; ?B) &*& (forall i: Int :: {B[i]} i < b.off || i >= b.off + 2 ==> B[i] == A[i]) &*& arrseq(B, b.off, 2) == be(x, 2)
}
extern binary.(bigEndian).PutUint32(e, b, x)() {
  requires len(b) >= 4 &*& slice(b; ?A)
  ensures slice(b; ?B) &*& (forall i: Int :: {B[i]} i < b.off || i >= b.off + 4 ==> B[i] == A[i]) &*& arrseq(B, b.off, 4) == be(x, 4)
}
extern binary.(bigEndian).PutUint64(e, b, x)() {
  requires len(b) >= 8 &*& slice(b; ?A)
  ensures slice(b; ?B) &*& (forall i: Int :: {B[i]} i < b.off || i >= b.off + 8 ==> B[i] == A[i]) &*& arrseq(B, b.off, 8) == be(x, 8)
}
extern binary.(bigEndian).Uint16(e, b)(x) {
  requires len(b) >= 2
  reads slice(b; ?A)
  ensures x == unbe(arrseq(A, b.off, 2)) && 0 <= x && x < 65536
}
extern binary.(bigEndian).Uint32(e, b)(x) {
  requires len(b) >= 4
  reads slice(b; ?A)
  ensures x == unbe(arrseq(A, b.off, 4)) && 0 <= x && x < 4294967296
}
extern binary.(bigEndian).Uint64(e, b)(x) {
  requires len(b) >= 8
  reads slice(b; ?A)
  ensures x == unbe(arrseq(A, b.off, 8)) && 0 <= x && x < 18446744073709551616
}

// encoding of value v by codec k; the built-in codecs are named by their type
ufun encx(k: Int, v: Val): Seq<Int>
ufun okx(k: Int, v: Val): Bool
opaque encof(k: Int, v: Val): Seq<Int> =
  k == typeid(types.Int8) ? be(unbox<types.Int8>(v) % 256, 1) :
  k == typeid(types.UInt8) ? be(unbox<types.UInt8>(v) % 256, 1) :
  k == typeid(types.Int16) ? be(unbox<types.Int16>(v) % 65536, 2) :
  k == typeid(types.UInt16) ? be(unbox<types.UInt16>(v) % 65536, 2) :
  k == typeid(types.Int32) ? be(unbox<types.Int32>(v) % 4294967296, 4) :
  k == typeid(types.UInt32) ? be(unbox<types.UInt32>(v) % 4294967296, 4) :
  k == typeid(types.Int64) ? be(unbox<types.Int64>(v) % 18446744073709551616, 8) :
  k == typeid(types.UInt64) ? be(unbox<types.UInt64>(v) % 18446744073709551616, 8) :
  k == typeid(types.Int) ? be(unbox<types.Int>(v) % 18446744073709551616, 8) :
  k == typeid(types.UInt) ? be(unbox<types.UInt>(v) % 18446744073709551616, 8) :
  k == typeid(types.String) ? unbox<types.String>(v) : encx(k, v)
// the values codec k is for
opaque okv(k: Int, v: Val): Bool =
  k == typeid(types.Int8) ? typeof(v) == k && -128 <= unbox<types.Int8>(v) && unbox<types.Int8>(v) < 128 :
  k == typeid(types.UInt8) ? typeof(v) == k && 0 <= unbox<types.UInt8>(v) && unbox<types.UInt8>(v) < 256 :
  k == typeid(types.Int16) ? typeof(v) == k && -32768 <= unbox<types.Int16>(v) && unbox<types.Int16>(v) < 32768 :
  k == typeid(types.UInt16) ? typeof(v) == k && 0 <= unbox<types.UInt16>(v) && unbox<types.UInt16>(v) < 65536 :
  k == typeid(types.Int32) ? typeof(v) == k && -2147483648 <= unbox<types.Int32>(v) && unbox<types.Int32>(v) < 2147483648 :
  k == typeid(types.UInt32) ? typeof(v) == k && 0 <= unbox<types.UInt32>(v) && unbox<types.UInt32>(v) < 4294967296 :
  k == typeid(types.Int64) ? typeof(v) == k && -9223372036854775808 <= unbox<types.Int64>(v) && unbox<types.Int64>(v) < 9223372036854775808 :
  k == typeid(types.UInt64) ? typeof(v) == k && 0 <= unbox<types.UInt64>(v) && unbox<types.UInt64>(v) < 18446744073709551616 :
  k == typeid(types.Int) ? typeof(v) == k && -9223372036854775808 <= unbox<types.Int>(v) && unbox<types.Int>(v) < 9223372036854775808 :
  k == typeid(types.UInt) ? typeof(v) == k && 0 <= unbox<types.UInt>(v) && unbox<types.UInt>(v) < 18446744073709551616 :
  k == typeid(types.String) ? typeof(v) == k : okx(k, v)

// the lengths codec k can decode
opaque declen(k: Int, n: Int): Bool =
  k == typeid(types.Int8) ? n == 1 :
  k == typeid(types.UInt8) ? n == 1 :
  k == typeid(types.Int16) ? n == 2 :
  k == typeid(types.UInt16) ? n == 2 :
  k == typeid(types.Int32) ? n == 4 :
  k == typeid(types.UInt32) ? n == 4 :
  k == typeid(types.Int64) ? n == 8 :
  k == typeid(types.UInt64) ? n == 8 :
  k == typeid(types.Int) ? n == 8 :
  k == typeid(types.UInt) ? n == 8 :
  true
fun bik(k: Int): Bool = k == typeid(types.Int8) || k == typeid(types.UInt8) || k == typeid(types.Int16) || k == typeid(types.UInt16) || k == typeid(types.Int32) || k == typeid(types.UInt32) || k == typeid(types.Int64) || k == typeid(types.UInt64) || k == typeid(types.Int) || k == typeid(types.UInt) || k == typeid(types.String)

pred marsh(m: Fn; k: Int) {
  fact m != nil
}
pred unmarsh(m: Fn; k: Int) {
  fact m != nil
}
functype types.ItemMarshal(self, item)(bs, err) {
  requires item != nil &*& ro marsh(self; ?k) &*& okv(k, item)
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) <= MAXLEN &*& arrseq(A, bs.off, len(bs)) == encof(k, item)
}
functype types.ItemUnmarshal(self, bs)(item, err) {
  requires ro unmarsh(self; ?k)
  reads slice(bs; ?A)
  ensures forall v: Val :: {encof(k, v)} v != nil && okv(k, v) && arrseq(A, bs.off, len(bs)) == encof(k, v) ==> err == nil && item != nil && rank(item) == rank(v) && (bik(k) ==> item == v)
  ensures err != nil ==> item == nil
  ensures !declen(k, len(bs)) ==> err != nil
}

// ------------------------------------------------------------ Int8

func types.(Int8).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int8) && unbox<types.Int8>(other) == self)
  tags C20
}
func types.(Int8).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int8) && self < unbox<types.Int8>(other))
  tags C20
}
func types.(Int8).Hash(self)(r) {
  pure
  tags C20
}
func types.(*Int8).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 1 &*& arrseq(A, bs.off, len(bs)) == be(x % 256, 1)
  use be_len
  tags C21
}
func types.(*Int8).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 1 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& -128 <= y && y < 128
      &*& (forall x: Int :: {be(x % 256, 1)} -128 <= x && x < 128 && arrseq(A, data.off, 1) == be(x % 256, 1) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.Int8Marshals$1 => k := typeid(types.Int8)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.Int8Marshals$2 => k := typeid(types.Int8)
}
func types.Int8Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.Int8)) &*& imm unmarsh(u; typeid(types.Int8))
  tags C21
}
func types.Int8Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.Int8Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ UInt8

func types.(UInt8).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt8) && unbox<types.UInt8>(other) == self)
  tags C20
}
func types.(UInt8).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt8) && self < unbox<types.UInt8>(other))
  tags C20
}
func types.(UInt8).Hash(self)(r) {
  pure
  tags C20
}
func types.(*UInt8).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 1 &*& arrseq(A, bs.off, len(bs)) == be(x % 256, 1)
  use be_len
  tags C21
}
func types.(*UInt8).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 1 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& 0 <= y && y < 256
      &*& (forall x: Int :: {be(x % 256, 1)} 0 <= x && x < 256 && arrseq(A, data.off, 1) == be(x % 256, 1) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.UInt8Marshals$1 => k := typeid(types.UInt8)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.UInt8Marshals$2 => k := typeid(types.UInt8)
}
func types.UInt8Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.UInt8)) &*& imm unmarsh(u; typeid(types.UInt8))
  tags C21
}
func types.UInt8Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.UInt8Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ Int16

func types.(Int16).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int16) && unbox<types.Int16>(other) == self)
  tags C20
}
func types.(Int16).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int16) && self < unbox<types.Int16>(other))
  tags C20
}
func types.(Int16).Hash(self)(r) {
  pure
  tags C20
}
func types.(*Int16).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 2 &*& arrseq(A, bs.off, len(bs)) == be(x % 65536, 2)
  use be_len
  tags C21
}
func types.(*Int16).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 2 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& -32768 <= y && y < 32768
      &*& (forall x: Int :: {be(x % 65536, 2)} -32768 <= x && x < 32768 && arrseq(A, data.off, 2) == be(x % 65536, 2) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.Int16Marshals$1 => k := typeid(types.Int16)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.Int16Marshals$2 => k := typeid(types.Int16)
}
func types.Int16Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.Int16)) &*& imm unmarsh(u; typeid(types.Int16))
  tags C21
}
func types.Int16Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.Int16Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ UInt16

func types.(UInt16).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt16) && unbox<types.UInt16>(other) == self)
  tags C20
}
func types.(UInt16).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt16) && self < unbox<types.UInt16>(other))
  tags C20
}
func types.(UInt16).Hash(self)(r) {
  pure
  tags C20
}
func types.(*UInt16).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 2 &*& arrseq(A, bs.off, len(bs)) == be(x % 65536, 2)
  use be_len
  tags C21
}
func types.(*UInt16).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 2 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& 0 <= y && y < 65536
      &*& (forall x: Int :: {be(x % 65536, 2)} 0 <= x && x < 65536 && arrseq(A, data.off, 2) == be(x % 65536, 2) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.UInt16Marshals$1 => k := typeid(types.UInt16)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.UInt16Marshals$2 => k := typeid(types.UInt16)
}
func types.UInt16Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.UInt16)) &*& imm unmarsh(u; typeid(types.UInt16))
  tags C21
}
func types.UInt16Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.UInt16Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ Int32

func types.(Int32).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int32) && unbox<types.Int32>(other) == self)
  tags C20
}
func types.(Int32).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int32) && self < unbox<types.Int32>(other))
  tags C20
}
func types.(Int32).Hash(self)(r) {
  pure
  tags C20
}
func types.(*Int32).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 4 &*& arrseq(A, bs.off, len(bs)) == be(x % 4294967296, 4)
  use be_len
  tags C21
}
func types.(*Int32).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 4 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& -2147483648 <= y && y < 2147483648
      &*& (forall x: Int :: {be(x % 4294967296, 4)} -2147483648 <= x && x < 2147483648 && arrseq(A, data.off, 4) == be(x % 4294967296, 4) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.Int32Marshals$1 => k := typeid(types.Int32)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.Int32Marshals$2 => k := typeid(types.Int32)
}
func types.Int32Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.Int32)) &*& imm unmarsh(u; typeid(types.Int32))
  tags C21
}
func types.Int32Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.Int32Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ UInt32

func types.(UInt32).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt32) && unbox<types.UInt32>(other) == self)
  tags C20
}
func types.(UInt32).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt32) && self < unbox<types.UInt32>(other))
  tags C20
}
func types.(UInt32).Hash(self)(r) {
  pure
  tags C20
}
func types.(*UInt32).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 4 &*& arrseq(A, bs.off, len(bs)) == be(x % 4294967296, 4)
  use be_len
  tags C21
}
func types.(*UInt32).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 4 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& 0 <= y && y < 4294967296
      &*& (forall x: Int :: {be(x % 4294967296, 4)} 0 <= x && x < 4294967296 && arrseq(A, data.off, 4) == be(x % 4294967296, 4) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.UInt32Marshals$1 => k := typeid(types.UInt32)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.UInt32Marshals$2 => k := typeid(types.UInt32)
}
func types.UInt32Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.UInt32)) &*& imm unmarsh(u; typeid(types.UInt32))
  tags C21
}
func types.UInt32Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.UInt32Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ Int64

func types.(Int64).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int64) && unbox<types.Int64>(other) == self)
  tags C20
}
func types.(Int64).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int64) && self < unbox<types.Int64>(other))
  tags C20
}
func types.(Int64).Hash(self)(r) {
  pure
  tags C20
}
func types.(*Int64).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 8 &*& arrseq(A, bs.off, len(bs)) == be(x % 18446744073709551616, 8)
  use be_len
  tags C21
}
func types.(*Int64).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 8 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& -9223372036854775808 <= y && y < 9223372036854775808
      &*& (forall x: Int :: {be(x % 18446744073709551616, 8)} -9223372036854775808 <= x && x < 9223372036854775808 && arrseq(A, data.off, 8) == be(x % 18446744073709551616, 8) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.Int64Marshals$1 => k := typeid(types.Int64)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.Int64Marshals$2 => k := typeid(types.Int64)
}
func types.Int64Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.Int64)) &*& imm unmarsh(u; typeid(types.Int64))
  tags C21
}
func types.Int64Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.Int64Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ UInt64

func types.(UInt64).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt64) && unbox<types.UInt64>(other) == self)
  tags C20
}
func types.(UInt64).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt64) && self < unbox<types.UInt64>(other))
  tags C20
}
func types.(UInt64).Hash(self)(r) {
  pure
  tags C20
}
func types.(*UInt64).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 8 &*& arrseq(A, bs.off, len(bs)) == be(x % 18446744073709551616, 8)
  use be_len
  tags C21
}
func types.(*UInt64).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 8 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& 0 <= y && y < 18446744073709551616
      &*& (forall x: Int :: {be(x % 18446744073709551616, 8)} 0 <= x && x < 18446744073709551616 && arrseq(A, data.off, 8) == be(x % 18446744073709551616, 8) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.UInt64Marshals$1 => k := typeid(types.UInt64)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.UInt64Marshals$2 => k := typeid(types.UInt64)
}
func types.UInt64Marshals()(m, u) {
  ensures imm marsh(m; typeid(types.UInt64)) &*& imm unmarsh(u; typeid(types.UInt64))
  tags C21
}
func types.UInt64Marshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.UInt64Marshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ Int

func types.(Int).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int) && unbox<types.Int>(other) == self)
  tags C20
}
func types.(Int).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.Int) && self < unbox<types.Int>(other))
  tags C20
}
func types.(Int).Hash(self)(r) {
  pure
  tags C20
}
func types.(*Int).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 8 &*& arrseq(A, bs.off, len(bs)) == be(x % 18446744073709551616, 8)
  use be_len
  tags C21
}
func types.(*Int).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 8 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& -9223372036854775808 <= y && y < 9223372036854775808
      &*& (forall x: Int :: {be(x % 18446744073709551616, 8)} -9223372036854775808 <= x && x < 9223372036854775808 && arrseq(A, data.off, 8) == be(x % 18446744073709551616, 8) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.IntMarshals$1 => k := typeid(types.Int)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.IntMarshals$2 => k := typeid(types.Int)
}
func types.IntMarshals()(m, u) {
  ensures imm marsh(m; typeid(types.Int)) &*& imm unmarsh(u; typeid(types.Int))
  tags C21
}
func types.IntMarshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.IntMarshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ UInt

func types.(UInt).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt) && unbox<types.UInt>(other) == self)
  tags C20
}
func types.(UInt).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.UInt) && self < unbox<types.UInt>(other))
  tags C20
}
func types.(UInt).Hash(self)(r) {
  pure
  tags C20
}
func types.(*UInt).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& len(bs) == 8 &*& arrseq(A, bs.off, len(bs)) == be(x % 18446744073709551616, 8)
  use be_len
  tags C21
}
func types.(*UInt).UnmarshalBinary(self, data)(err) {
  requires *self |-> ?old
  reads slice(data; ?A)
  ensures len(data) != 8 ? err != nil &*& *self |-> old
    : err == nil &*& *self |-> ?y &*& 0 <= y && y < 18446744073709551616
      &*& (forall x: Int :: {be(x % 18446744073709551616, 8)} 0 <= x && x < 18446744073709551616 && arrseq(A, data.off, 8) == be(x % 18446744073709551616, 8) ==> y == x)
  use bytes
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.UIntMarshals$1 => k := typeid(types.UInt)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.UIntMarshals$2 => k := typeid(types.UInt)
}
func types.UIntMarshals()(m, u) {
  ensures imm marsh(m; typeid(types.UInt)) &*& imm unmarsh(u; typeid(types.UInt))
  tags C21
}
func types.UIntMarshals$1 implements types.ItemMarshal { use be_len, encof, okv tags C21 }
func types.UIntMarshals$2 implements types.ItemUnmarshal { use be_len, encof, okv, declen tags C21 }

// ------------------------------------------------------------ String

func types.(String).Equals(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.String) && unbox<types.String>(other) == self)
  tags C20
}
func types.(String).Less(self, other)(r) {
  ensures r == (typeof(other) == typeid(types.String) && strlt(self, unbox<types.String>(other)))
  use strorder
  tags C20
}
func types.(String).Hash(self)(r) {
  ensures r == fnv32(self)
  tags C20
}
func types.(*String).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x
  ensures err == nil &*& slice(bs; ?A) &*& arrseq(A, bs.off, len(bs)) == x
  tags C21
}
func types.(*String).UnmarshalBinary(self, data)(err) {
  requires *self |-> _
  reads slice(data; ?A)
  ensures err == nil &*& *self |-> arrseq(A, data.off, len(data))
  tags C21
}
pred marsh(m: Fn; k: Int) {
  case closure types.StringMarshals$1 => k := typeid(types.String)
}
pred unmarsh(m: Fn; k: Int) {
  case closure types.StringMarshals$2 => k := typeid(types.String)
}
func types.StringMarshals()(m, u) {
  ensures imm marsh(m; typeid(types.String)) &*& imm unmarsh(u; typeid(types.String))
  tags C21
}
func types.StringMarshals$1 implements types.ItemMarshal { use encof, okv tags C21 }
func types.StringMarshals$2 implements types.ItemUnmarshal { use encof, okv, declen tags C21 }

// ------------------------------------------------------------ ByteSlice

extern bytes.Equal(a, b)(r) {
  reads slice(a; ?A) &*& slice(b; ?B)
  ensures r == (arrseq(A, a.off, len(a)) == arrseq(B, b.off, len(b)))
}
extern bytes.Compare(a, b)(r) {
  reads slice(a; ?A) &*& slice(b; ?B)
  ensures r == (strlt(arrseq(A, a.off, len(a)), arrseq(B, b.off, len(b))) ? -1 : arrseq(A, a.off, len(a)) == arrseq(B, b.off, len(b)) ? 0 : 1)
}
func types.(ByteSlice).Equals(self, other)(r) {
  reads slice(self; ?A) &*& (typeof(other) == typeid(types.ByteSlice) ? slice(unbox<types.ByteSlice>(other); ?B) : let B = A)
  ensures r == (typeof(other) == typeid(types.ByteSlice) && arrseq(A, self.off, len(self)) == (let o = unbox<types.ByteSlice>(other) in arrseq(B, o.off, len(o))))
  tags C20
}
func types.(ByteSlice).Less(self, other)(r) {
  reads slice(self; ?A) &*& (typeof(other) == typeid(types.ByteSlice) ? slice(unbox<types.ByteSlice>(other); ?B) : let B = A)
  ensures r == (typeof(other) == typeid(types.ByteSlice) && (let o = unbox<types.ByteSlice>(other) in strlt(arrseq(A, self.off, len(self)), arrseq(B, o.off, len(o)))))
  use strorder
  tags C20
}
func types.(ByteSlice).Hash(self)(r) {
  reads slice(self; ?A)
  ensures r == fnv32(arrseq(A, self.off, len(self)))
  tags C20
}
func types.(*ByteSlice).MarshalBinary(self)(bs, err) {
  reads *self |-> ?x &*& slice(x; ?A)
  ensures err == nil &*& slice(bs; ?B) &*& arrseq(B, bs.off, len(bs)) == arrseq(A, x.off, len(x))
  tags C21
}
func types.(*ByteSlice).UnmarshalBinary(self, data)(err) {
  requires *self |-> _
  reads slice(data; ?A)
  ensures err == nil &*& *self |-> ?y &*& slice(y; ?B) &*& arrseq(B, y.off, len(y)) == arrseq(A, data.off, len(data))
  tags C21
}
pred bscodec(f: Fn; z: Int) {
  case closure types.ByteSliceMarshals$1 => z := 1
  case closure types.ByteSliceMarshals$2 => z := 2
}
func types.ByteSliceMarshals()(m, u) {
  ensures imm bscodec(m; 1) &*& imm bscodec(u; 2)
  tags C21
}
func types.ByteSliceMarshals$1(item)(bs, err) {
  requires typeof(item) == typeid(types.ByteSlice)
  reads slice(unbox<types.ByteSlice>(item); ?A)
  ensures err == nil &*& slice(bs; ?B) &*& (let x = unbox<types.ByteSlice>(item) in arrseq(B, bs.off, len(bs)) == arrseq(A, x.off, len(x)))
  tags C21
}
func types.ByteSliceMarshals$2(data)(item, err) {
  reads slice(data; ?A)
  ensures err == nil &*& typeof(item) == typeid(types.ByteSlice) &*& slice(unbox<types.ByteSlice>(item); ?B)
    &*& (let y = unbox<types.ByteSlice>(item) in arrseq(B, y.off, len(y)) == arrseq(A, data.off, len(data)))
  tags C21
}
