// Scalar values of every boxed type, their boundary sets, boxing and the scalar-cast oracle.
#pragma once
#include "types.h"
typedef __int128 I128;
static const DataType scalarTypes[] = { BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType };
enum { NSCALAR = 14 };
struct V { DataType t; I128 i; double d; };
static inline bool isFloat(DataType t) { return t == SingleType || t == DoubleType; }
static inline bool isInt(DataType t) { return t >= SByteType && t <= UInt64Type; }
static inline void rangeOf(DataType t, I128& lo, I128& hi) {
  switch (t) {
  case BooleanType: lo = 0; hi = 1; break; case CharType: lo = 0; hi = 0xFFFF; break;
  case SByteType: lo = -128; hi = 127; break; case ByteType: lo = 0; hi = 255; break;
  case Int16Type: lo = -32768; hi = 32767; break; case UInt16Type: lo = 0; hi = 65535; break;
  case Int32Type: lo = INT32_MIN; hi = INT32_MAX; break; case UInt32Type: lo = 0; hi = UINT32_MAX; break;
  case Int64Type: case TimeSpanType: lo = INT64_MIN; hi = INT64_MAX; break; case UInt64Type: lo = 0; hi = UINT64_MAX; break;
  case DateTimeType: lo = 0; hi = 3155378975999999999LL; break; default: lo = hi = 0; }
}
enum { MAXV = 140 };
// boundary values of a type, simplest first
static inline int boundary(DataType t, V* out) {
  int n = 0;
  if (isFloat(t)) {
    static const double ds[] = { 0.0, 1.0, -1.0, -0.0, 0.5, -0.5, 1.5, 2.5, 100.0, 127.9, -128.9, 255.5, 256.0, 32767.5, -32768.5, 65535.5, 65536.0, 16777216.0, 2147483520.0, 2147483648.0, -2147483648.0, 4294967040.0, 4294967296.0, 1e10, -1e10, 9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0, 1.8446744073709552e19, 1e19, 1e30, -1e30, 3.4028234663852886e38, -3.4028234663852886e38, 1.401298464324817e-45, 1.1754943508222875e-38, 1e-40, INFINITY, -INFINITY, NAN };
    for (double d : ds) out[n++] = { t, 0, d };
    if (t == DoubleType) { static const double dd[] = { 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 4.9406564584124654e-324, 2.2250738585072014e-308, 0.1, 9007199254740993.0, 0.10000000000000002, 1.0000000000000002 }; for (double d : dd) out[n++] = { t, 0, d }; }
    else { out[n++] = { t, 0, (double)0.1f }; out[n++] = { t, 0, (double)0.100000009f }; }
    return n;
  }
  I128 lo, hi; rangeOf(t, lo, hi);
  I128 c[100]; int k = 0; c[k++] = 0; c[k++] = 1; c[k++] = -1; c[k++] = 2; c[k++] = 10; c[k++] = 65; c[k++] = 99; c[k++] = 100;
  for (int b : { 7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64 }) for (int s = -1; s <= 1; s++) { c[k++] = ((I128)1 << b) + s; c[k++] = -((I128)1 << b) + s; }
  c[k++] = lo; c[k++] = lo + 1; c[k++] = hi; c[k++] = hi - 1; c[k++] = hi / 2; c[k++] = hi / 2 + 1;
  for (int i = 0; i < k; i++) { if (c[i] < lo || c[i] > hi) continue; bool dup = false; for (int j = 0; j < n; j++) dup = dup || out[j].i == c[i]; if (!dup) out[n++] = { t, c[i], 0 }; }
  return n;
}
static inline V chooseBoundary(DataType t) { V v[MAXV]; int n = boundary(t, v); return v[choose(n)]; }
static inline Object* box(const V& v) {
  switch (v.t) {
  case BooleanType: return new BooleanValue((Boolean)v.i); case CharType: return new CharValue((Char)v.i);
  case SByteType: return new SByteValue((SByte)v.i); case ByteType: return new ByteValue((Byte)v.i);
  case Int16Type: return new Int16Value((Int16)v.i); case UInt16Type: return new UInt16Value((UInt16)v.i);
  case Int32Type: return new Int32Value((Int32)v.i); case UInt32Type: return new UInt32Value((UInt32)v.i);
  case Int64Type: return new Int64Value((Int64)v.i); case UInt64Type: return new UInt64Value((UInt64)v.i);
  case SingleType: return new SingleValue((Single)v.d); case DoubleType: return new DoubleValue(v.d);
  case DateTimeType: return new DateTimeValue(DateTime((UInt64)v.i)); case TimeSpanType: return new TimeSpanValue(TimeSpan((Int64)v.i));
  default: return nullptr; }
}
static inline const char* showV(const V& v) {
  static char b[8][80]; static int k; char* o = b[k++ & 7];
  if (isFloat(v.t)) sprintf(o, "%s %.17g", typeName(v.t), v.d);
  else { char t[50]; int n = 0; bool neg = v.i < 0; unsigned __int128 u = neg ? -(unsigned __int128)v.i : (unsigned __int128)v.i; do t[n++] = '0' + (int)(u % 10); while (u /= 10); char* p = o + sprintf(o, "%s %s", typeName(v.t), neg ? "-" : ""); while (n) *p++ = t[--n]; *p = 0; }
  return o;
}
// memory image of v after an unchecked scalar cast to type t; false when the cast is undefined
static inline bool castBits(const V& v, DataType t, void* out) {
  if (isFloat(v.t)) {
    double d = v.t == SingleType ? (double)(Single)v.d : v.d;
    if (t == SingleType) { Single f = (Single)d; memcpy(out, &f, 4); return true; }
    if (t == DoubleType) { memcpy(out, &d, 8); return true; }
    if (d != d) return false; double tr = trunc(d); I128 lo, hi; rangeOf(t, lo, hi); if (t == CharType) { lo = INT32_MIN; hi = INT32_MAX; }
    if (!(tr >= (double)lo && tr <= (double)hi) || fabs(tr) > 1.9e19) return false; I128 i = (I128)tr; if (i < lo || i > hi) return false;
    memcpy(out, &i, sizeOf(t)); return true;
  }
  if (t == SingleType) { Single f = (v.i < 0) ? (Single)(Int64)v.i : (Single)(UInt64)v.i; memcpy(out, &f, 4); return true; }
  if (t == DoubleType) { Double f = (v.i < 0) ? (Double)(Int64)v.i : (Double)(UInt64)v.i; memcpy(out, &f, 8); return true; }
  if (t == BooleanType) { *(unsigned char*)out = v.i != 0; return true; }
  I128 i = v.i; memcpy(out, &i, sizeOf(t)); return true;
}
// which boxed types convert to which scalar types
static inline bool converts(DataType from, DataType to) {
  if (from == to) return true;
  if (from >= DateTimeType || to >= DateTimeType || from == ObjectType) return false;
  if (from == BooleanType) return isInt(to);
  if (from == CharType) return to != BooleanType;
  if (isFloat(from)) return to == Int16Type || to == UInt16Type || to == Int32Type || to == UInt32Type || to == Int64Type || to == UInt64Type || isFloat(to);
  return true;
}
// value-preserving (implicit) conversions
static inline bool widens(DataType from, DataType to) {
  if (from == to) return true;
  I128 a, b, c, d;
  if (from == BooleanType || to == BooleanType || from >= DateTimeType || to >= DateTimeType) return false;
  if (isFloat(from)) return from == SingleType && to == DoubleType;
  if (isFloat(to)) return true;
  if (to == CharType) return from == ByteType || from == UInt16Type;
  rangeOf(from, a, b); rangeOf(to, c, d); return c <= a && b <= d;
}
// every span reached from t by changing one field to each of its values, and by distances in days, hours and seconds; f(changed) and f(base) alternate
template <class F> static void oneSpanField(int64_t t, F f) {
  const __int128 S = 10000000, M = 60 * S, H = 60 * M, D = 24 * H; auto go = [&](__int128 x) { if (x < INT64_MIN || x > INT64_MAX) return; f((int64_t)x); f(t); }; f(t);
  for (int h = -23; h < 24; h++) go((__int128)t - t % D + h * H + t % H); for (int m = -59; m < 60; m++) { go((__int128)t - t % H + m * M + t % M); go((__int128)t - t % M + m * S + t % S); } for (int m = -999; m < 1000; m++) go((__int128)t - t % S + m * 10000 + t % 10000); for (int m = -9999; m < 10000; m += m > -20 && m < 20 ? 1 : 19) go((__int128)t - t % 10000 + m); go(-(__int128)t);
  static const int dist[] = { 7, 28, 30, 31, 60, 365, 366, 1461, 36524, 146097, 719162, 10, 100, 1000, 10000, 100000, 1000000, 97, 101, 997, 1009, 1021, 4093, 65521, 131071 }; for (int g = -1; g < 2; g += 2) { for (int k : dist) { go((__int128)t + g * k * D); go((__int128)t + g * k * H); go((__int128)t + g * k * M); go((__int128)t + g * k * S); } for (int k = 0; k < 40; k++) { go((__int128)t + g * (D << k)); go((__int128)t + g * (H << k)); go((__int128)t + g * (M << k)); go((__int128)t + g * (S << k)); } }
}
