// P17: boxed value conversions equal the language's scalar conversions or raise.
#include "values.h"
static Ex get(Object* o, DataType t, void* out) {
  return attempt([&] { switch (t) {
#define G(T, N) case T##Type: { N x = o->get_As##T(); memcpy(out, &x, sizeof x); break; }
  G(Boolean, Boolean) G(Char, Char) G(SByte, SByte) G(Byte, Byte) G(Int16, Int16) G(UInt16, UInt16) G(Int32, Int32) G(UInt32, UInt32) G(Int64, Int64) G(UInt64, UInt64) G(Single, Single) G(Double, Double)
  case DateTimeType: { DateTime x = o->get_AsDateTime(); memcpy(out, &x.value, 8); break; } case TimeSpanType: { TimeSpan x = o->get_AsTimeSpan(); memcpy(out, &x.value, 8); break; } default: abort(); } });
}
static void image(const V& v, void* out) { if (v.t == SingleType) { Single f = (Single)v.d; memcpy(out, &f, 4); } else if (v.t == DoubleType) memcpy(out, &v.d, 8); else { I128 i = v.i; memcpy(out, &i, 8); } }
static void convert(Object* o, const V& v, DataType to) {
  unsigned char got[16], want[16]; memset(got, 0xEE, 16); memset(want, 0, 16); bool ok = converts(v.t, to); if (ok && v.t < DateTimeType && !castBits(v, to, want)) return; if (ok && v.t >= DateTimeType) image(v, want);
  Ex e = get(o, to, got); NOTE("%s as %s -> %s", showV(v), typeName(to), exName(e)); expectEx(e, ok ? EXBIT(OK_) : EXBIT(xInvalidCast), ok ? "convert/raise" : "convert/allowed", "conversion");
  if (ok) { int n = sizeOf(to); bool nan = isFloat(to) && isFloat(v.t) && v.d != v.d; bool same = nan ? (to == SingleType ? [&] { Single f; memcpy(&f, got, 4); return f != f; }() : [&] { Double f; memcpy(&f, got, 8); return f != f; }()) : !memcmp(got, want, n); if (!same) fail("convert/value", "%s as %s gave %02x%02x%02x%02x%02x%02x%02x%02x, expected %02x%02x%02x%02x%02x%02x%02x%02x (low byte first, %d bytes)", showV(v), typeName(to), got[0], got[1], got[2], got[3], got[4], got[5], got[6], got[7], want[0], want[1], want[2], want[3], want[4], want[5], want[6], want[7], n); state(mc::mix(mc::hashBytes(got, n), v.t * 32 + to)); }
}
static void unchanged(Object* o, const V& v) { unsigned char got[16], want[16]; memset(want, 0, 16); image(v, want); EXPECT(o->GetRawDataType() == v.t, "type", "box of %s reports type %d", showV(v), o->GetRawDataType()); Ex e = get(o, v.t, got); expectEx(e, EXBIT(OK_), "own", "conversion to its own type"); if (isFloat(v.t) && v.d != v.d) return; EXPECT(!memcmp(got, want, v.t == BooleanType ? 1 : sizeOf(v.t)), "own", "box of %s returns another value of its own type", showV(v)); }
SUITE(matrix, 0, "boundary values of all 14 boxed types converted to all 14 types; the box unchanged") { V v = chooseBoundary(scalarTypes[choose(NSCALAR)]); Object* o = box(v); unchanged(o, v); DataType to = scalarTypes[choose(NSCALAR)]; convert(o, v, to); unchanged(o, v); }
SUITE(pairs, 0, "every pair of conversions in sequence on one box: boundary values of all 14 types") { V v = chooseBoundary(scalarTypes[choose(NSCALAR)]); Object* o = box(v); convert(o, v, scalarTypes[choose(NSCALAR)]); convert(o, v, scalarTypes[choose(NSCALAR)]); unchanged(o, v); }
SUITE(small_values, 0, "every value of Boolean, SByte, Byte, Int16, UInt16 and Char to all 14 types") { static const DataType ts[] = { BooleanType, SByteType, ByteType, Int16Type, UInt16Type, CharType }; DataType t = pick(ts); I128 lo, hi; rangeOf(t, lo, hi); int n = (int)(hi - lo) + 1; int a = choose(n > 256 ? 256 : n); int b = n > 256 ? choose(256) : 0; V v = { t, n > 256 ? lo + a * 256 + b : lo + a, 0 }; Object* o = box(v); for (int i = 0; i < NSCALAR; i++) convert(o, v, scalarTypes[i]); unchanged(o, v); }
SUITE(powers, 0, "±(2^k + e), e -3..3, k 0..64, in each of Int32, UInt32, Int64, UInt64, to all 14 types") { static const DataType ts[] = { Int32Type, UInt32Type, Int64Type, UInt64Type }; DataType t = pick(ts); I128 v = ((I128)1 << choose(65)) + choose(7) - 3; if (choose(2)) v = -v; I128 lo, hi; rangeOf(t, lo, hi); if (v < lo || v > hi) mc::discard(); V x = { t, v, 0 }; Object* o = box(x); for (int i = 0; i < NSCALAR; i++) convert(o, x, scalarTypes[i]); unchanged(o, x); }
SUITE(byte_pairs, 0, "values with each byte 00, 7F, 80 or FF (4 bytes; thorough 8 with 00/80/FF) in Int32, UInt32, Int64, UInt64 to all 14 types") { static const DataType ts[] = { Int32Type, UInt32Type, Int64Type, UInt64Type }; DataType t = pick(ts); int nb = thorough && sizeOf(t) == 8 ? 8 : 4; static const int bs[] = { 0, 0x80, 0xFF, 0x7F }; uint64_t x = 0; for (int i = 0; i < nb; i++) x = x << 8 | bs[choose(nb == 8 ? 3 : 4)]; if (nb == 4 && sizeOf(t) == 8) x |= x << 32; I128 v = t == Int32Type ? (I128)(Int32)x : t == UInt32Type ? (I128)(UInt32)x : t == Int64Type ? (I128)(Int64)x : (I128)x; V y = { t, v, 0 }; Object* o = box(y); for (int i = 0; i < NSCALAR; i++) convert(o, y, scalarTypes[i]); unchanged(o, y); }
SUITE(floats, 0, "±m*2^e for m in 6 significands and every exponent -150..128 (double -1074..1023), ±k/4 for k 0..4000 to all 14 types") { bool dbl = choose(2); double d; if (choose(2)) { static const double m[] = { 1, 1.25, 1.5, 1.75, 1.9999998807907104, 1.0000001192092896 }; d = ldexp(pick(m), choose(dbl ? 2098 : 279) - (dbl ? 1074 : 150)); } else d = choose(4001) / 4.0; if (choose(2)) d = -d; if (!dbl) d = (double)(float)d; V v = { dbl ? DoubleType : SingleType, 0, d }; Object* o = box(v); for (int i = 0; i < NSCALAR; i++) convert(o, v, scalarTypes[i]); unchanged(o, v); }
SUITE(dates_spans, 0, "dates and spans of 40 tick counts to all 14 types") { bool dt = choose(2); I128 c[] = { 0, 1, 9999999, 864000000000LL, 630822816000000000LL, 3155378975999999999LL, 3155378975999999998LL }; I128 v = c[choose(7)] + choose(3) - 1; if (dt && (v < 0 || v > 3155378975999999999LL)) mc::discard(); if (!dt && choose(2)) v = -v; V x = { dt ? DateTimeType : TimeSpanType, v, 0 }; Object* o = box(x); for (int i = 0; i < NSCALAR; i++) convert(o, x, scalarTypes[i]); unchanged(o, x); }
SUITE(no_scalar, 0, "plain objects, strings, builders and arrays have no scalar conversion") { int k = choose(5), to = choose(NSCALAR); Object* o = k == 0 ? new Object() : k == 1 ? (Object*)mk(L"1") : k == 2 ? (Object*)new StringBuilder(mk(L"1")) : k == 3 ? (Object*)new Array(Int32Type, 2) : (Object*)String::Empty; unsigned char b[16]; Ex e = get(o, scalarTypes[to], b); expectEx(e, EXBIT(xInvalidCast), "no-scalar", "scalar conversion of an object"); state(k * 16 + to); }
SUITE(default_boxes, 0, "default-constructed date and span boxes are zero; boxes copied by assignment keep their value") { DateTimeValue d; TimeSpanValue t; EXPECT(d.get_AsDateTime().value == 0 && t.get_AsTimeSpan().value == 0, "default", "not zero"); EXPECT(d.GetRawDataType() == DateTimeType && t.GetRawDataType() == TimeSpanType, "default", "type"); V v = chooseBoundary(Int64Type); Int64Value a((Int64)v.i), b(0); b = a; EXPECT(b.get_AsInt64() == (Int64)v.i && a.get_AsInt64() == (Int64)v.i, "copy", "copied box"); }
SUITE(three_bits, 0, "±(2^i ± 2^j ± 2^k) for all k < j < i up to 64 in Int64 and UInt64 (to 32 in Int32 and UInt32) to Single and Double; to all 14 types for neighbouring j, k") {
  static const DataType ts[] = { Int32Type, UInt32Type, Int64Type, UInt64Type }; DataType t = pick(ts); I128 lo, hi; rangeOf(t, lo, hi); int i = choose(65); if (i > 32 && t != Int64Type && t != UInt64Type) mc::discard();
  for (int j = 0; j < i; j++) for (int k = 0; k < j; k++) for (int q = 0; q < 8; q++) { I128 v = ((I128)1 << i) + (q & 1 ? -1 : 1) * ((I128)1 << j) + (q & 2 ? -1 : 1) * ((I128)1 << k); if (q & 4) v = -v; if (v < lo || v > hi) continue; V x{ t, v, 0 }; Object* o = box(x); convert(o, x, SingleType); convert(o, x, DoubleType); if (j - k == 1) for (DataType to : scalarTypes) convert(o, x, to); } state(mc::mix(t, i)); }
SUITE(twins, 0, "values that differ in one bit, one half, or by multiples of 2^8..2^56, converted to all 14 types one after the other: boundary values of the 11 integer-like types, dates and spans") { static const DataType ts[] = { CharType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, DateTimeType, TimeSpanType }; V v = chooseBoundary(pick(ts)); I128 lo, hi; rangeOf(v.t, lo, hi); twins(v.i, lo, hi, [&](I128 x) { V w{ v.t, x, 0 }; Object* o = box(w); for (DataType to : scalarTypes) convert(o, w, to); }); state(mc::mix(v.t, (uint64_t)v.i)); }
