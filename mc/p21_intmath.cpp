// P21: integer math helpers are exact or raise, for every operand.
#include "values.h"
template <class T> struct Lim { static I128 lo() { return (T)-1 < 0 ? -((I128)1 << (sizeof(T) * 8 - 1)) : 0; } static I128 hi() { return lo() + (((I128)1 << (sizeof(T) * 8)) - 1); } };
template <class T> static const char* tn() { return sizeof(T) == 1 ? ((T)-1 < 0 ? "SByte" : "Byte") : sizeof(T) == 2 ? ((T)-1 < 0 ? "Int16" : "UInt16") : sizeof(T) == 4 ? ((T)-1 < 0 ? "Int32" : "UInt32") : ((T)-1 < 0 ? "Int64" : "UInt64"); }
// dense boundary set: 0, every power of two and of ten with neighbours of both signs, extremes, a few mixed bit patterns
template <class T> static int dense(T* out, int spread) {
  int n = 0; auto add = [&](I128 v) { if (v < Lim<T>::lo() || v > Lim<T>::hi()) return; for (int i = 0; i < n; i++) if (out[i] == (T)v) return; out[n++] = (T)v; };
  add(0); add(Lim<T>::lo()); add(Lim<T>::hi());
  for (int b = 0; b <= 64; b++) for (int s = 0; s <= spread; s++) for (int g = 0; g < 4; g++) { I128 v = ((I128)1 << b) + (g & 1 ? s : -s); add(g & 2 ? -v : v); }
  I128 p = 1; for (int k = 0; k < 19; k++, p *= 10) { add(p); add(-p); add(3 * p); add(-7 * p); }
  add(0x5555555555555555LL); add(-0x5555555555555555LL); add(0x123456789ABCDEFLL); add(46341); add(46340); add(-46341); add(3037000499LL); add(3037000500LL); add(1073741); add(4611686018427387LL); return n;
}
template <class T> static T one(int spread) { static T v[6000]; static int n[3]; static int last = -1; if (last != spread) { n[0] = dense(v, spread); last = spread; } return v[choose(n[0])]; }
static const char* sh(I128 x) { return showV(V{ UInt64Type, x, 0 }); }
template <class F> static void want(F f, bool ok, I128 w, unsigned errs, const char* key, const char* what, I128 a, I128 b = 0) {
  I128 r = 0; NOTE("%s %s, %s", what, sh(a), sh(b)); Ex e = attempt([&] { r = f(); }); step();
  if (!ok) { if (!(errs & EXBIT(e))) fail(key, "%s(%s, %s): %s (result %s), expected %s", what, sh(a), sh(b), exName(e), sh(r), exSet(errs)); }
  else if (e != OK_ || r != w) fail(key, "%s(%s, %s): %s, result %s, expected %s", what, sh(a), sh(b), exName(e), sh(r), sh(w));
  state(mc::mix(mc::mix((uint64_t)w, (uint64_t)(w >> 64)), e));
}
enum { OVER = EXBIT(xOverflow) | EXBIT(xArithmetic) };
template <class T> static void unary(T v) {
  want([&] { return (I128)Math::Abs(v); }, v != (T)Lim<T>::lo(), v < 0 ? -(I128)v : v, OVER, "abs", "Abs", v);
  want([&] { return (I128)Math::Sign(v); }, true, v > 0 ? 1 : v < 0 ? -1 : 0, 0, "sign", "Sign", v);
}
template <class T> static void binary(T a, T b) {
  want([&] { return (I128)Math::Max(a, b); }, true, a > b ? a : b, 0, "max", "Max", a, b);
  want([&] { return (I128)Math::Min(a, b); }, true, a < b ? a : b, 0, "min", "Min", a, b);
}
template <class T> static void clamp(T v, T lo, T hi) { want([&] { return (I128)Math::Clamp(v, lo, hi); }, lo <= hi, v < lo ? lo : v > hi ? hi : v, EXBIT(xMinMax) | EXBIT(xArgument), "clamp", tn<T>(), v, lo * (I128)1000003 + hi); }
SUITE(bytes, 0, "Abs, Sign, Min, Max over every 8-bit operand and pair") { int a = choose(256); for (int b = 0; b < 256; b++) { binary<SByte>((SByte)(a - 128), (SByte)(b - 128)); binary<Byte>((Byte)a, (Byte)b); } unary<SByte>((SByte)(a - 128)); }
SUITE(byte_clamps, 0, "Clamp of every 8-bit value with every lower bound and 23 upper bounds: multiples of 16, 255 and the neighbours of value and lower bound (thorough: every upper bound, all 16.7 million triples), both signs") {
  bool sg = choose(2); int a = choose(256), b = choose(256); auto c3 = [&](int c) { if (sg) { SByte v = (SByte)(a - 128), l = (SByte)(b - 128), h = (SByte)(c - 128), r = 0; Ex e = attempt([&] { r = Math::Clamp(v, l, h); }); SByte w = v < l ? l : v > h ? h : v; if (l > h ? e != xMinMax && e != xArgument : e != OK_ || r != w) fail("clamp", "Clamp SByte(%d, %d, %d): %s, %d", v, l, h, exName(e), r); } else { Byte v = a, l = b, h = c, r = 0; Ex e = attempt([&] { r = Math::Clamp(v, l, h); }); Byte w = v < l ? l : v > h ? h : v; if (l > h ? e != xMinMax && e != xArgument : e != OK_ || r != w) fail("clamp", "Clamp Byte(%d, %d, %d): %s, %d", v, l, h, exName(e), r); } step(); };
  if (thorough) for (int c = 0; c < 256; c++) c3(c); else { for (int c = 0; c < 256; c += 16) c3(c); for (int d : { -1, 0, 1 }) { c3((a + d) & 255); c3((b + d) & 255); } c3(255); } state(mc::mix(sg * 65536 + a * 256 + b, 1)); }
SUITE(words, 0, "Abs, Sign of every 16-bit operand; Min, Max with 13 boundary partners and its neighbours") { int a = choose(256) * 256 + choose(256); unary<Int16>((Int16)(a - 32768)); for (int b : { 0, 1, 2, 127, 128, 255, 256, 32766, 32767, 32768, 32769, 65534, 65535 }) { binary<Int16>((Int16)(a - 32768), (Int16)(b - 32768)); binary<UInt16>((UInt16)a, (UInt16)b); } for (int d : { -1, 0, 1 }) { binary<Int16>((Int16)(a - 32768), (Int16)(a - 32768 + d)); binary<UInt16>((UInt16)a, (UInt16)(a + d)); } }
SUITE(wide_unary, 0, "Abs, Sign of 32- and 64-bit boundary values") { switch (choose(2)) { case 0: unary<Int32>(one<Int32>(40)); break; default: unary<Int64>(one<Int64>(3)); } }
template <class T> static void pairs(int sp) { T a = one<T>(sp); T v[700]; int n = dense(v, sp); for (int i = 0; i < n; i++) binary<T>(a, v[i]); }
SUITE(wide_pairs, 0, "Min, Max over all pairs of 32- and 64-bit boundary values (powers of two and ten with neighbours)") { switch (choose(4)) { case 0: pairs<Int32>(3); break; case 1: pairs<UInt32>(3); break; case 2: pairs<Int64>(2); break; default: pairs<UInt64>(2); } }
template <class T> static void triples() { T a = one<T>(0), b = one<T>(0); T v[700]; int n = dense(v, 0); for (int i = 0; i < n; i++) clamp<T>(v[i], a, b); }
SUITE(wide_clamps, 0, "Clamp over all triples of boundary values of the 16-, 32- and 64-bit types") { switch (choose(6)) { case 0: triples<Int16>(); break; case 1: triples<UInt16>(); break; case 2: triples<Int32>(); break; case 3: triples<UInt32>(); break; case 4: triples<Int64>(); break; default: triples<UInt64>(); } }
SUITE(big_products, 0, "BigMul over all pairs of 32-bit boundary values") { Int32 a = one<Int32>(4); Int32 v[700]; int n = dense(v, 4); for (int i = 0; i < n; i++) { Int32 b = v[i]; want([&] { return (I128)Math::BigMul(a, b); }, true, (I128)a * b, 0, "bigmul", "BigMul", a, b); } }
template <class T> static void div(T a, T b) {
  bool rep = b != 0 && !(b == -1 && a == (T)Lim<T>::lo()); unsigned errs = b == 0 ? EXBIT(xDivideByZero) : OVER; I128 q = rep ? (I128)a / b : 0, r = rep ? (I128)a % b : 0;
  T rem = 77; want([&] { return (I128)Math::DivRem(a, b, rem); }, rep, q, errs, "divrem", "DivRem", a, b); if (rep && rem != r) fail("divrem/remainder", "DivRem(%s, %s) leaves %s, expected %s", sh(a), sh(b), sh(rem), sh(r));
  if (rep) { T x = a; want([&] { return (I128)Math::DivRem(x, b, x); }, true, q, 0, "divrem/alias", "DivRem into its own operand", a, b); if (x != r) fail("divrem/alias", "remainder %s", sh(x)); x = b; want([&] { return (I128)Math::DivRem(a, x, x); }, true, q, 0, "divrem/alias", "DivRem into its divisor", a, b); if (x != r) fail("divrem/alias", "remainder %s", sh(x)); }
  if (sizeof(T) == 8) want([&] { return (I128)Math::Divide((Int64)a, (Int64)b); }, rep, q, errs, "divide", "Divide", a, b);
}
SUITE(quotients, 0, "DivRem and Divide over all pairs of 32- and 64-bit boundary values (powers of two and ten with neighbours), remainder written over either operand") { if (choose(2)) { Int64 a = one<Int64>(2); Int64 v[700]; int n = dense(v, 2); for (int i = 0; i < n; i++) div<Int64>(a, v[i]); } else { Int32 a = one<Int32>(3); Int32 v[700]; int n = dense(v, 3); for (int i = 0; i < n; i++) div<Int32>(a, v[i]); } }
SUITE(small_quotients, 0, "DivRem and Divide over all pairs -300..300, and every quotient boundary k*b-1, k*b, k*b+1 for 64-bit b") { int a = choose(601) - 300; for (int b = -300; b <= 300; b++) { div<Int32>(a, b); div<Int64>(a, b); } Int64 w[700]; int n = dense(w, 0); for (int i = 0; i < n; i++) for (int d = -1; d <= 1; d++) { I128 p = (I128)w[i] * a + d; if (p >= INT64_MIN && p <= INT64_MAX) { div<Int64>((Int64)p, w[i]); div<Int64>((Int64)p, a); } } }
SUITE(all_word_pairs, 1, "Min, Max over all 2^32 pairs of 16-bit operands, signed and unsigned") { int a = choose(256) * 256 + choose(256); for (int b = 0; b < 65536; b++) { Int16 x = (Int16)a, y = (Int16)b; UInt16 u = (UInt16)a, v = (UInt16)b; if (Math::Max(x, y) != (x > y ? x : y)) fail("max", "Max(Int16 %d, %d) = %d", x, y, Math::Max(x, y)); if (Math::Min(x, y) != (x < y ? x : y)) fail("min", "Min(Int16 %d, %d) = %d", x, y, Math::Min(x, y)); if (Math::Max(u, v) != (u > v ? u : v)) fail("max", "Max(UInt16 %d, %d) = %d", u, v, Math::Max(u, v)); if (Math::Min(u, v) != (u < v ? u : v)) fail("min", "Min(UInt16 %d, %d) = %d", u, v, Math::Min(u, v)); } step(4 * 65536); state(a); }
SUITE(all_int32, 1, "Abs and Sign of all 2^32 32-bit operands, DivRem by 7 divisors") { uint32_t h = (uint32_t)(choose(256) * 256 + choose(256)) << 16; for (uint32_t l = 0; l < 65536; l++) { Int32 v = (Int32)(h | l); if (v != INT32_MIN && (I128)Math::Abs(v) != (v < 0 ? -(I128)v : v)) fail("abs", "Abs(%d)", v); if ((int)Math::Sign(v) != (v > 0) - (v < 0)) fail("sign", "Sign(%d) = %d", v, (int)Math::Sign(v)); for (Int32 d : { 1, 2, 3, 10, -7, INT32_MAX, INT32_MIN }) { Int32 r; Int32 q = Math::DivRem(v, d, r); if ((int64_t)q != (int64_t)v / d || (int64_t)r != (int64_t)v % d) fail("divrem", "DivRem(%d, %d) = %d remainder %d", v, d, q, r); } } step(9 * 65536); state(h); }
template <class T> static void ladderOf() {
  static T v[NFAR + 21]; static int n; if (!n) { auto add = [&](I128 x) { if (x >= Lim<T>::lo() && x <= Lim<T>::hi()) v[n++] = (T)x; }; for (int i = 0; i <= 20; i++) add(i); for (int x : farInts) add(x); } T a = v[choose(n)]; if constexpr ((T)-1 < 0) unary<T>(a); for (int i = 0; i < n; i++) { T b = v[i]; binary<T>(a, b); T cs[] = { a, b, (T)(a + 1), (T)(b - 1), (T)(b + 1), (T)Lim<T>::hi(), (T)Lim<T>::lo() }; for (T c : cs) clamp<T>(a, b, c); if constexpr (sizeof(T) >= 4 && (T)-1 < 0) div<T>(a, b); } }
SUITE(ladder, 0, "Abs, Sign, Min, Max, Clamp (7 upper bounds), DivRem and Divide over all pairs of 150 values (0..20 and 129 magnitudes of either sign) of the 8 integer types; BigMul over all pairs") {
  switch (choose(9)) { case 0: ladderOf<SByte>(); break; case 1: ladderOf<Byte>(); break; case 2: ladderOf<Int16>(); break; case 3: ladderOf<UInt16>(); break; case 4: ladderOf<Int32>(); break; case 5: ladderOf<UInt32>(); break; case 6: ladderOf<Int64>(); break; case 7: ladderOf<UInt64>(); break; default: { int k = choose(NFAR + 21); Int32 a = k < 21 ? k : farInts[k - 21]; for (int i = 0; i < NFAR + 21; i++) { Int32 b = i < 21 ? i : farInts[i - 21]; want([&] { return (I128)Math::BigMul(a, b); }, true, (I128)a * b, 0, "bigmul", "BigMul", a, b); } } } }
