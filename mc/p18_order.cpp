// P18: scalar comparison and equality are consistent total orders.
#include "values.h"
static int sgn(int x) { return (x > 0) - (x < 0); }
static int order(const V& a, const V& b) { if (isFloat(a.t)) { bool na = a.d != a.d, nb = b.d != b.d; if (na || nb) return na && nb ? 0 : na ? -1 : 1; return a.d < b.d ? -1 : a.d > b.d; } return a.i < b.i ? -1 : a.i > b.i; }
static int cmpRaw(Object* o, const V& b) {
  switch (b.t) {
#define C(T, N, R) case T: return ((N*)o)->CompareTo(R);
  C(BooleanType, BooleanValue, (Boolean)b.i) C(CharType, CharValue, (Char)b.i) C(SByteType, SByteValue, (SByte)b.i) C(ByteType, ByteValue, (Byte)b.i) C(Int16Type, Int16Value, (Int16)b.i) C(UInt16Type, UInt16Value, (UInt16)b.i) C(Int32Type, Int32Value, (Int32)b.i) C(UInt32Type, UInt32Value, (UInt32)b.i) C(Int64Type, Int64Value, (Int64)b.i) C(UInt64Type, UInt64Value, (UInt64)b.i) C(SingleType, SingleValue, (Single)b.d) C(DoubleType, DoubleValue, b.d)
  case DateTimeType: return ((DateTimeValue*)o)->CompareTo(DateTime((UInt64)b.i)); case TimeSpanType: return ((TimeSpanValue*)o)->CompareTo(TimeSpan((Int64)b.i)); default: abort(); }
}
static bool eqRaw(Object* o, const V& b) {
  switch (b.t) {
#define E(T, N, R) case T: return ((N*)o)->Equals(R);
  E(BooleanType, BooleanValue, (Boolean)b.i) E(CharType, CharValue, (Char)b.i) E(SByteType, SByteValue, (SByte)b.i) E(ByteType, ByteValue, (Byte)b.i) E(Int16Type, Int16Value, (Int16)b.i) E(UInt16Type, UInt16Value, (UInt16)b.i) E(Int32Type, Int32Value, (Int32)b.i) E(UInt32Type, UInt32Value, (UInt32)b.i) E(Int64Type, Int64Value, (Int64)b.i) E(UInt64Type, UInt64Value, (UInt64)b.i) E(SingleType, SingleValue, (Single)b.d) E(DoubleType, DoubleValue, b.d)
  case DateTimeType: return ((DateTimeValue*)o)->Equals(DateTime((UInt64)b.i)); case TimeSpanType: return ((TimeSpanValue*)o)->Equals(TimeSpan((Int64)b.i)); default: abort(); }
}
static int cmpObj(Object* o, DataType t, Object* b) {
  switch (t) {
#define D(T, N) case T: return ((N*)o)->CompareTo(b);
  D(BooleanType, BooleanValue) D(CharType, CharValue) D(SByteType, SByteValue) D(ByteType, ByteValue) D(Int16Type, Int16Value) D(UInt16Type, UInt16Value) D(Int32Type, Int32Value) D(UInt32Type, UInt32Value) D(Int64Type, Int64Value) D(UInt64Type, UInt64Value) D(SingleType, SingleValue) D(DoubleType, DoubleValue) D(DateTimeType, DateTimeValue) D(TimeSpanType, TimeSpanValue) default: abort(); }
}
static void pair(const V& a, const V& b) {
  Object *x = box(a), *y = box(b); int w = order(a, b); NOTE("%s against %s", showV(a), showV(b)); int r = cmpRaw(x, b), o = cmpObj(x, a.t, y);
  EXPECT(sgn(r) == w, "compare/raw", "%s compared with %s is %d, expected sign %d", showV(a), showV(b), r, w); EXPECT(sgn(o) == w, "compare/boxed", "%s compared with boxed %s is %d, expected sign %d", showV(a), showV(b), o, w);
  EXPECT(sgn(cmpRaw(y, a)) == -w && sgn(cmpObj(y, a.t, x)) == -w, "compare/swap", "%s and %s: comparison not antisymmetric", showV(a), showV(b)); bool eq = w == 0; EXPECT(eqRaw(x, b) == eq && eqRaw(y, a) == eq, "equals/raw", "%s equals %s: expected %d", showV(a), showV(b), eq);
  EXPECT(x->Equals(y) == eq && y->Equals(x) == eq, "equals/boxed", "%s equals boxed %s: expected %d", showV(a), showV(b), eq); EXPECT(Object::Equals(x, y) == eq && Object::Equals(y, x) == eq, "equals/static", "static equality of %s and %s: expected %d", showV(a), showV(b), eq); state(mc::mix(mc::mix(a.t, mc::hashBytes(&a.i, 16)), mc::hashBytes(&b.i, 16)));
}
SUITE(boundary_pairs, 0, "every pair of boundary values of each of the 14 types: raw, boxed, swapped, equality, static equality") { DataType t = scalarTypes[choose(NSCALAR)]; V a = chooseBoundary(t), b = chooseBoundary(t); pair(a, b); }
SUITE(byte_pairs, 0, "every pair of SByte, Byte and Boolean values, and of Int16, UInt16, Char values whose bytes are from {00 01 7F 80 FE FF}") { static const DataType ts[] = { BooleanType, SByteType, ByteType, Int16Type, UInt16Type, CharType }; int k = choose(6); I128 lo, hi; rangeOf(ts[k], lo, hi); I128 v[2]; for (int i = 0; i < 2; i++) { if (k < 3) v[i] = lo + choose((int)(hi - lo) + 1); else { static const int bs[] = { 0, 1, 0x7F, 0x80, 0xFE, 0xFF }; int x = pick(bs) * 256 + pick(bs); v[i] = ts[k] == Int16Type ? (I128)(Int16)x : (I128)x; } } pair({ ts[k], v[0], 0 }, { ts[k], v[1], 0 }); }
SUITE(wide_pairs, 0, "every pair of 32/64-bit, date and span values built from 0, ±1 and ±2^k, ±(2^k-1) for every k") { static const DataType ts[] = { Int32Type, UInt32Type, Int64Type, UInt64Type, DateTimeType, TimeSpanType }; DataType t = pick(ts); I128 lo, hi, v[2]; rangeOf(t, lo, hi); for (int i = 0; i < 2; i++) { v[i] = ((I128)1 << choose(65)) - choose(2); if (choose(2)) v[i] = -v[i]; if (v[i] < lo || v[i] > hi) mc::discard(); } pair({ t, v[0], 0 }, { t, v[1], 0 }); }
SUITE(float_pairs, 0, "every pair of ±m*2^e over 3 significands and 40 exponents, both widths, with zeros, infinities and not-a-number payloads") { bool dbl = choose(2); double v[2]; for (int i = 0; i < 2; i++) { int k = choose(86); static const double sp[] = { 0.0, -0.0, INFINITY, -INFINITY, NAN, -NAN }; if (k < 6) v[i] = sp[k]; else { k -= 6; static const int es[] = { -1074, -1073, -1023, -1022, -1021, -150, -149, -148, -127, -126, -125, -53, -24, -23, -2, -1, 0, 1, 2, 10, 22, 23, 24, 31, 32, 52, 53, 54, 62, 63, 64, 100, 126, 127, 128, 500, 1000, 1021, 1022, 1023 }; v[i] = ldexp(k & 1 ? 1.5 : 1.0, es[k >> 1]); if (choose(2)) v[i] = -v[i]; } if (!dbl) v[i] = (double)(float)v[i]; } DataType t = dbl ? DoubleType : SingleType; pair({ t, 0, v[0] }, { t, 0, v[1] }); }
SUITE(transitive, 0, "every triple out of 9 boundary values of each type: the order is transitive") { DataType t = scalarTypes[choose(NSCALAR)]; V all[MAXV]; int n = boundary(t, all); int st = n > 9 ? n / 9 : 1, m = n > 9 ? 9 : n; V a = all[choose(m) * st], b = all[choose(m) * st], c = all[choose(m) * st]; Object *x = box(a), *y = box(b); int ab = sgn(cmpRaw(x, b)), bc = sgn(cmpRaw(y, c)), ac = sgn(cmpRaw(x, c)); if (ab <= 0 && bc <= 0) EXPECT(ac <= 0 && (ac < 0 || (ab == 0 && bc == 0)), "transitive", "%s, %s, %s: %d %d %d", showV(a), showV(b), showV(c), ab, bc, ac); if (isFloat(t)) { V z = t == DoubleType ? V{ t, 0, NAN } : V{ t, 0, NAN }; EXPECT(cmpRaw(x, z) == (a.d != a.d ? 0 : 1), "nan", "against not-a-number"); } step(); }
static Object* other(int k) { switch (k) { case 0: return mk(L"1"); case 1: return new Object(); case 2: return new StringBuilder(); case 3: return new Array(Int32Type, 1); default: return String::Empty; } }
SUITE(mismatched, 0, "boundary values of all 14 types against boxed values of the other 13 types (three values each, numerically equal ones included), strings, objects, builders, arrays and null") {
  V a = chooseBoundary(scalarTypes[choose(NSCALAR)]); Object* x = box(a); int k = choose(NSCALAR + 6); Object* y = nullptr; bool null = k == NSCALAR + 5; if (k < NSCALAR) { DataType t = scalarTypes[k]; if (t == a.t) mc::discard(); V b = { t, 1, 1.0 }; int m = choose(3); if (m == 1) { b.i = 0; b.d = 0; } if (m == 2) { I128 lo, hi; rangeOf(t, lo, hi); if (isFloat(t)) b.d = isFloat(a.t) ? a.d : (double)a.i; else b.i = isFloat(a.t) || a.i < lo || a.i > hi ? hi : a.i; } y = box(b); NOTE("%s against %s", showV(a), showV(b)); } else if (!null) { y = other(k - NSCALAR); NOTE("%s against object %d", showV(a), k - NSCALAR); }
  EXPECT(!x->Equals(y), "mismatch/equal", "%s equals a value of another type or null", showV(a)); EXPECT(!Object::Equals(x, y) && !Object::Equals(y, x), "mismatch/static", "%s statically equals a value of another type or null", showV(a)); int r = 0; Ex e = attempt([&] { r = cmpObj(x, a.t, y); }); expectEx(e, null ? EXBIT(OK_) : EXBIT(xArgument) | EXBIT(xArgumentNull) | EXBIT(xArgumentOutOfRange), "mismatch/compare", "comparing with another type or null"); if (null) EXPECT(r > 0, "null/order", "%s compared with null is %d", showV(a), r); state(mc::mix(a.t, k)); }
SUITE(static_equality, 0, "every pair of 24 objects (null, scalars, equal strings, objects, builders): static equality reflexive, symmetric, null-safe, true exactly for same kind and value") {
  auto mkObj = [](int k) -> Object* { switch (k) { case 0: return nullptr; case 1: return mk(L"a"); case 2: return mk(L"a"); case 3: return mk(L"b"); case 4: return mk(L""); case 5: return String::Empty; case 6: return new Object(); case 7: return new Object(); default: return box({ scalarTypes[k - 8], 1, 1.0 }); } };
  auto cls = [](int k) { return k == 2 ? 1 : k == 5 ? 4 : k; }; int i = choose(22), j = choose(22); Object *x = mkObj(i), *y = mkObj(j); bool same = cls(i) == cls(j) && !((i == 6 || i == 7) && true); if (i == 0 && j == 0) same = true; NOTE("objects %d and %d", i, j); bool r = true, q = true; Ex e = attempt([&] { r = Object::Equals(x, y); q = Object::Equals(y, x); }); expectEx(e, EXBIT(OK_), "static/raise", "static equality"); EXPECT(r == q, "static/symmetric", "objects %d and %d", i, j); EXPECT(r == same, "static/value", "objects %d and %d: %d", i, j, r); EXPECT(Object::Equals(x, x) && Object::Equals(y, y), "static/reflexive", "object %d or %d", i, j); state(i * 32 + j); }
SUITE(date_span_operators, 0, "every pair of boundary tick counts of dates and spans: static Compare and the six operators agree with the order") {
  bool dt = choose(2); DataType t = dt ? DateTimeType : TimeSpanType; V a = chooseBoundary(t), b = chooseBoundary(t); int w = order(a, b);
#define OPS(N, T, I) { T x((I)a.i), y((I)b.i); EXPECT(sgn(N::Compare(x, y)) == w, "operators", "Compare %s %s", showV(a), showV(b)); EXPECT(N::op_Equality(x, y) == (w == 0) && N::op_Inequality(x, y) == (w != 0) && N::op_LessThan(x, y) == (w < 0) && N::op_LessThanOrEqual(x, y) == (w <= 0) && N::op_GreaterThan(x, y) == (w > 0) && N::op_GreaterThanOrEqual(x, y) == (w >= 0), "operators", "operators on %s %s", showV(a), showV(b)); }
  if (dt) OPS(DateTimeValue, DateTime, UInt64) else OPS(TimeSpanValue, TimeSpan, Int64) state(mc::mix(mc::hashBytes(&a.i, 16), mc::hashBytes(&b.i, 16))); }

SUITE(ladder_pairs, 0, "every pair of 150 values (0..20 and 129 magnitudes of either sign) of each of the 11 integer-like types, dates and spans they fit, and every pair of 116 characters of every kind") {
  static const DataType ts[] = { CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, DateTimeType, TimeSpanType }; DataType t = pick(ts); I128 lo, hi, v[2]; rangeOf(t, lo, hi); for (int i = 0; i < 2; i++) { if (t == CharType) v[i] = ladderChar(); else { int k = choose(21 + NFAR); v[i] = k < 21 ? k : farInts[k - 21]; if (v[i] < lo || v[i] > hi) mc::discard(); } } pair({ t, v[0], 0 }, { t, v[1], 0 }); }
SUITE(twins, 0, "values that differ in one bit, one half, or by multiples of 2^8..2^56 against each other and themselves: boundary values of the 11 integer-like types, dates and spans") { static const DataType ts[] = { CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, DateTimeType, TimeSpanType }; V v = chooseBoundary(pick(ts)); I128 lo, hi; rangeOf(v.t, lo, hi); twins(v.i, lo, hi, [&](I128 x) { pair(v, V{ v.t, x, 0 }); }); }
SUITE(float_twins, 0, "floating values that differ in one bit, one half, or by multiples of 2^8..2^56 of their bit patterns against each other: boundary values of both types") { bool dbl = choose(2); V v = chooseBoundary(dbl ? DoubleType : SingleType); uint64_t b = 0; if (dbl) memcpy(&b, &v.d, 8); else { float f = (float)v.d; v.d = f; memcpy(&b, &f, 4); } twins(b, 0, dbl ? (I128)UINT64_MAX : UINT32_MAX, [&](I128 x) { V w{ v.t, 0, 0 }; if (dbl) { uint64_t y = (uint64_t)x; memcpy(&w.d, &y, 8); } else { uint32_t y = (uint32_t)x; float f; memcpy(&f, &y, 4); w.d = f; } pair(v, w); }); }
