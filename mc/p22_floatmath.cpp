// P22: floating-point math helpers obey their IEEE and .NET definitions.
#include "values.h"
static double d64(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t b64(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static const uint64_t S = 1ULL << 63, INFB = 0x7FF0000000000000ULL, M52 = 0xFFFFFFFFFFFFFULL;
static bool nan_(double d) { return (b64(d) & ~S) > INFB; }
static bool neg_(double d) { return b64(d) >> 63; }
static double absd(double d) { return d64(b64(d) & ~S); }
static bool same(double a, double b) { return b64(a) == b64(b) || (nan_(a) && nan_(b)); }
static int64_t order(double d) { int64_t b = (int64_t)b64(d); return b < 0 ? INT64_MIN - b : b; }
static bool close(double a, double b, int ulps) { if (same(a, b)) return true; if (nan_(a) || nan_(b)) return false; __int128 x = (__int128)order(a) - order(b); return (x < 0 ? -x : x) <= ulps; }
// representatives: every class, boundary exponents, integers, halves, midpoints
enum { NR = 700 };
static int reps(double* out) {
  static double v[NR]; static int n; if (!n) {
    auto add = [&](double d) { for (int i = 0; i < n; i++) if (b64(v[i]) == b64(d)) return; v[n++] = d; };
    static const double base[] = { 0, 1, 0.5, 1.5, 2, 2.5, 3, 3.5, 0.25, 0.75, 10, 100, 1e15, 1e16, 1e17, 1e22, 1e100, 1e300, 1e-5, 1e-100, 1e-300, 0.1, 0.3, 1.1, 3.14159, 2.718281828459045, 123456.789, 4503599627370495.5, 4503599627370496.0, 4503599627370496.5, 4503599627370497.5, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 2251799813685247.75, 2251799813685248.25, 9223372036854775808.0, 18446744073709551616.0, 2147483647.0, 2147483648.0, 4294967295.5, 4294967296.0, 0.49999999999999994, 0.9999999999999999, 1.0000000000000002, 1.9999999999999998, 2.0000000000000004, 0.7071067811865476, 1.4142135623730951, 20, 30, 50, 64, 700, 709.78, 709.79, 710, 745, 746, 1000, 1e6, 7, 8, 9, 27, 5, 6 };
    for (double d : base) { add(d); add(-d); }
    for (uint64_t b : std::initializer_list<uint64_t>{ 1ULL, 2ULL, 3ULL, M52, M52 - 1, M52 + 1, M52 + 2, 0x8000000000000ULL, 0x0010000000000000ULL, 0x0020000000000000ULL, 0x001FFFFFFFFFFFFFULL, 0x7FEFFFFFFFFFFFFFULL, 0x7FEFFFFFFFFFFFFEULL, 0x7FE0000000000000ULL, 0x7FDFFFFFFFFFFFFFULL, INFB, 0x7FF8000000000000ULL, 0x7FF8000000000001ULL, 0x7FFFFFFFFFFFFFFFULL }) { add(d64(b)); add(d64(b | S)); }
    for (int e = -1074; e <= 1023; e += (e < -1060 || e > 1015 || (e > -60 && e < 70)) ? 1 : 37) { double p = ldexp(1, e); add(p); if (e % 5 == 0) { add(-p); add(ldexp(1.5, e)); add(-ldexp(1.9999999999999998, e)); } }
  }
  memcpy(out, v, sizeof v); return n;
}
static double one() { static double v[NR]; static int n = reps(v); return v[choose(n)]; }
template <class F> static double call(F f, const char* what, Ex& e) { double r = 0; e = attempt([&] { r = f(); }); step(); return r; }
static void ok(double got, Ex e, double w, const char* what, double a, double b = 0, double c = 0, int ulps = 0) {
  if (e != OK_ || !(ulps ? close(got, w, ulps) : same(got, w))) fail(what, "%s(%.17g, %.17g, %.17g) = %.17g (%s%s), expected %.17g", what, a, b, c, got, exName(e), same(got, w) || got != w ? "" : ", wrong zero sign", w);
  state(mc::mix(b64(w), (uint64_t)(uintptr_t)what[0] * 256 + what[1]));
}
#define OK(expr, w, name, ...) do { Ex e_; double g_ = call([&] { return (double)(expr); }, name, e_); ok(g_, e_, w, name, __VA_ARGS__); } while (0)
SUITE(constants, 0, "the two constants are the doubles nearest to pi and e") { EXPECT(b64(Math::PI) == 0x400921FB54442D18ULL, "pi", "PI is %.17g", Math::PI); EXPECT(b64(Math::E) == 0x4005BF0A8B145769ULL, "e", "E is %.17g", Math::E); }
// ---- stepping
static double up(double x) { if (nan_(x) || b64(x) == INFB) return x; if (b64(x) == S || b64(x) == 0) return d64(1); return d64(b64(x) + (neg_(x) ? -1 : 1)); }
static double down(double x) { if (nan_(x) || b64(x) == (INFB | S)) return x; if (b64(x) == S || b64(x) == 0) return d64(1 | S); return d64(b64(x) + (neg_(x) ? 1 : -1)); }
static double integral(double x, int mode) { // 0 truncate 1 floor 2 ceiling 3 nearest even, by bits
  uint64_t b = b64(x); int e = (int)(b >> 52 & 2047) - 1023; if (e >= 52) return x; if ((b & ~S) == 0) return x;
  uint64_t m = (b & M52) | (e > -1023 ? 1ULL << 52 : 0), ip; int cmp; // cmp of fraction with half: -1,0,1 ; -2 none
  if (e < -1) { ip = 0; cmp = -1; } else { int sh = 52 - e; ip = sh > 63 ? 0 : m >> sh; uint64_t fr = m & ((1ULL << sh) - 1), half = 1ULL << (sh - 1); cmp = fr == 0 ? -2 : fr < half ? -1 : fr == half ? 0 : 1; }
  if (cmp != -2) { bool n = neg_(x); bool inc = mode == 1 ? n : mode == 2 ? !n : mode == 3 ? cmp > 0 || (cmp == 0 && (ip & 1)) : false; ip += inc; }
  double r = (double)ip; return d64((b64(r) & ~S) | (b & S));
}
static void bits1(double x) {
  OK(Math::BitIncrement(x), up(x), "BitIncrement", x); OK(Math::BitDecrement(x), down(x), "BitDecrement", x);
  OK(Math::Truncate(x), integral(x, 0), "Truncate", x); OK(Math::Floor(x), integral(x, 1), "Floor", x); OK(Math::Ceiling(x), integral(x, 2), "Ceiling", x); OK(Math::Round(x), integral(x, 3), "Round", x);
  OK(Math::Abs(x), absd(x), "Abs", x);
  { uint64_t b = b64(x) & ~S; int w = b == 0 ? INT32_MIN : b >= INFB ? INT32_MAX : b >> 52 ? (int)(b >> 52) - 1023 : -1023 - (__builtin_clzll(b) - 12); Int32 g = 0; Ex e = attempt([&] { g = Math::ILogB(x); }); step(); if (e != OK_ || g != w) fail("ILogB", "ILogB(%.17g) = %d (%s), expected %d", x, g, exName(e), w); }
  { Int32 g = 9; Ex e = attempt([&] { g = Math::Sign(x); }); step(); if (nan_(x) ? e != xArithmetic : e != OK_ || g != (x > 0) - (x < 0)) fail("Sign", "Sign(%.17g) = %d (%s)", x, g, exName(e)); }
  { UInt64 b = b64(x); Int32 g = 0; UInt64 m = 0; Ex e = attempt([&] { g = Math::ExtractExponentFromBits(b); m = Math::ExtractSignificandFromBits(b); }); step(); if (e != OK_ || g != (int)(b >> 52 & 2047) || m != (b & M52)) fail("Extract", "bits 0x%llx split into %d and 0x%llx", (unsigned long long)b, g, (unsigned long long)m); }
}
SUITE(stepping, 0, "bit increment/decrement, truncate, floor, ceiling, round, abs, integer logarithm, sign, bit extraction over every sign and exponent with 208 mantissas (single bits, runs of ones from either end, complements), zero and maximum") {
  uint64_t h = (uint64_t)(choose(64) * 64 + choose(64)) << 52; bits1(d64(h)); bits1(d64(h | M52));
  for (int i = 0; i < 52; i++) { bits1(d64(h | (1ULL << i))); bits1(d64(h | ((1ULL << i) - 1))); bits1(d64(h | (M52 & ~(1ULL << i)))); bits1(d64(h | (M52 & ~((1ULL << i) - 1)))); } }
SUITE(stepping_dense, 0, "the same over every sign and exponent with every pair of set bits and every run of ones") { uint64_t h = (uint64_t)(choose(64) * 64 + choose(64)) << 52; for (int i = 0; i < 52; i++) for (int j = 0; j < i; j++) { bits1(d64(h | 1ULL << i | 1ULL << j)); bits1(d64(h | ((1ULL << i) - (1ULL << j)))); } }
static float f32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t b32(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
SUITE(singles, 0, "Abs, Sign of singles: every upper half of the bits with 8 lower halves") { uint32_t h = (uint32_t)(choose(256) * 256 + choose(256)) << 16; for (uint32_t l : { 0u, 1u, 2u, 255u, 0x7FFFu, 0x8000u, 0xFFFEu, 0xFFFFu }) { float x = f32(h | l); double w = f32((h | l) & 0x7FFFFFFF); OK(Math::Abs(x), w, "Abs", x); Int32 g = 9; Ex e = attempt([&] { g = Math::Sign(x); }); step(); if (x != x ? e != xArithmetic : e != OK_ || g != (x > 0) - (x < 0)) fail("Sign", "Sign(%.9g) = %d (%s)", x, g, exName(e)); } }
// ---- pairs
static double lmax(double a, double b) { if (nan_(a)) return a; if (nan_(b)) return b; return order(a) > order(b) || (a == b && !neg_(a)) ? a : b; }
static double lmin(double a, double b) { if (nan_(a)) return a; if (nan_(b)) return b; return order(a) < order(b) || (a == b && neg_(a)) ? a : b; }
static double mmax(double a, double b) { if (nan_(a)) return a; if (nan_(b)) return b; double x = absd(a), y = absd(b); return x > y ? a : x < y ? b : neg_(a) ? b : a; }
static double mmin(double a, double b) { if (nan_(a)) return a; if (nan_(b)) return b; double x = absd(a), y = absd(b); return x < y ? a : x > y ? b : neg_(a) ? a : b; }
static double ieeerem(double x, double y) {
  if (nan_(x) || nan_(y) || absd(x) == INFINITY || y == 0) return NAN; if (absd(y) == INFINITY) return x;
  long double ay = absd(y), r = fmodl(absd(x), 2 * ay), q = r <= ay / 2 ? r : r < ay * 1.5L ? r - ay : r - 2 * ay; double d = (double)q; if (neg_(x)) d = -d; if (d == 0) d = neg_(x) ? -0.0 : 0.0; return d;
}
static void pair(double a, double b) {
  OK(Math::Max(a, b), lmax(a, b), "Max", a, b); OK(Math::Min(a, b), lmin(a, b), "Min", a, b);
  OK(Math::MaxMagnitude(a, b), mmax(a, b), "MaxMagnitude", a, b); OK(Math::MinMagnitude(a, b), mmin(a, b), "MinMagnitude", a, b);
  OK(Math::Divide(a, b), a / b, "Divide", a, b); OK(Math::IEEERemainder(a, b), ieeerem(a, b), "IEEERemainder", a, b); OK(DoubleValue::Modulus(a, b), fmod(a, b), "Modulus", a, b);
  if (nan_(b)) { double g = Math::CopySign(a, b); step(); if (b64(absd(g)) != b64(absd(a))) fail("CopySign", "CopySign(%.17g, NaN) = %.17g", a, g); } else { double g = Math::CopySign(a, b); step(); if (b64(g) != ((b64(a) & ~S) | (b64(b) & S))) fail("CopySign", "CopySign(%.17g, %.17g) = %.17g", a, b, g); }
}
SUITE(pairs, 0, "min, max, magnitude min/max, division, remainder, copy-sign over all pairs of 400+ representatives of every class") { double v[NR]; int n = reps(v); double a = one(); for (int i = 0; i < n; i++) pair(a, v[i]); }
SUITE(remainder_ties, 0, "remainder over all pairs of halves -40..40 and powers of two around them") { double a = (choose(321) - 160) / 4.0, s = pick({ 1.0, 0x1p-1040, 0x1p900 }); for (int i = -160; i <= 160; i++) { double b = i / 4.0 * s; OK(Math::IEEERemainder(a * s, b), ieeerem(a * s, b), "IEEERemainder", a * s, b); } }
SUITE(single_pairs, 0, "Single min, max, clamp over all triples of 40 representatives") { static const float v[] = { 0.0f, -0.0f, 1, -1, 0.5f, 1.5f, -1.5f, 2, -2, 1e10f, -1e10f, 1e-10f, 3.4028235e38f, -3.4028235e38f, 1.4e-45f, -1.4e-45f, 1.17549435e-38f, -1.17549435e-38f, INFINITY, -INFINITY, NAN, -NAN, 16777216, 16777215, 0.1f, 100 }; float a = pick(v), b = pick(v), c = pick(v);
  auto ok1 = [&](float g, double w, const char* n) { step(); if (!(b32(g) == b32((float)w) || (g != g && w != w))) fail(n, "Single %s(%.9g, %.9g) = %.9g, expected %.9g", n, a, b, g, w); };
  ok1(Math::Max(a, b), lmax(a, b), "Max"); ok1(Math::Min(a, b), lmin(a, b), "Min");
  float g = 0; Ex e = attempt([&] { g = Math::Clamp(a, b, c); }); step(); if (b > c) { if (e != xMinMax && e != xArgument) fail("Clamp", "Clamp(%g, %g, %g): %s", a, b, c, exName(e)); } else { float w = a < b ? b : a > c ? c : a; if (e != OK_ || !(b32(g) == b32(w) || (g != g && w != w))) fail("Clamp", "Single Clamp(%g, %g, %g) = %g (%s)", a, b, c, g, exName(e)); } state(b32(g)); }
static const double few[] = { 0.0, -0.0, 1, -1, 0.5, -0.5, 1.5, 2, -2, 3, 1e10, -1e10, 1e-10, 1e300, -1e300, 1e-300, 1.7976931348623157e308, -1.7976931348623157e308, 4.9406564584124654e-324, -4.9406564584124654e-324, 2.2250738585072014e-308, 1.0000000000000002, 0.9999999999999999, 134217729, -134217729, 9007199254740993.0, 0.1, 0.3, 1.4142135623730951, INFINITY, -INFINITY, NAN, 0x1p-537, 0x1p537, 0x1.fffffffffffffp511, 0x1p-1022, 18014398509481985.0, 1e-160, -1e160 };
SUITE(triples, 0, "clamp and fused multiply-add over all triples of 39 representatives") { double a = pick(few), b = pick(few); for (double c : few) { OK(Math::FusedMultiplyAdd(a, b, c), fma(a, b, c), "FusedMultiplyAdd", a, b, c); double g = 0; Ex e = attempt([&] { g = Math::Clamp(a, b, c); }); step(); if (b > c) { if (e != xMinMax && e != xArgument) fail("Clamp", "Clamp(%g, %g, %g): %s", a, b, c, exName(e)); } else { double w = a < b ? b : a > c ? c : a; if (e != OK_ || !same(g, w)) fail("Clamp", "Clamp(%g, %g, %g) = %g (%s)", a, b, c, g, exName(e)); } } }
SUITE(fused_exact, 0, "fused multiply-add of 1+i*ulp, 1+j*ulp and minus their rounded product: the exact rounding error, i, j in 0..63 and near the mantissa's top") { int i = choose(64), j = choose(64), k = choose(3); double a = d64(0x3FF0000000000000ULL + (k == 1 ? 0x0008000000000000ULL : k == 2 ? 0xFFFFFFFFFFF00ULL : 0) + i), b = d64(0x3FF0000000000000ULL + (k == 2 ? 0x0000000001000000ULL : 0) + j * 3), p = a * b; __int128 ea = (__int128)((b64(a) & M52) | 1ULL << 52) * ((b64(b) & M52) | 1ULL << 52); uint64_t pb = b64(p); int pe = (int)(pb >> 52) - 1023; __int128 ep = (__int128)((pb & M52) | 1ULL << 52) << (52 + pe); double w = ldexp((double)(int64_t)(ea - ep), -104); OK(Math::FusedMultiplyAdd(a, b, -p), w == 0 ? 0.0 : w, "FusedMultiplyAdd", a, b, -p); }
SUITE(scaling, 0, "scaling of 400+ representatives by every power -2200..2200 and the integer extremes") { double x = one(); for (int n = -2203; n <= 2203; n++) { int k = n < -2200 ? (n == -2203 ? INT32_MIN : n == -2202 ? INT32_MIN + 1 : -100000) : n > 2200 ? (n == 2203 ? INT32_MAX : n == 2202 ? INT32_MAX - 1 : 100000) : n; double w = (double)ldexpl((long double)x, k < -6000 ? -6000 : k > 6000 ? 6000 : k); if (nan_(x) || x == 0 || absd(x) == INFINITY) w = x; OK(Math::ScaleB(x, k), w, "ScaleB", x, k); } }
// ---- rounding to digits
static const char* const modes[] = { "ToEven", "AwayFromZero", "ToZero", "ToNegativeInfinity", "ToPositiveInfinity" };
static unsigned __int128 rnd(unsigned __int128 ip, int cmp, bool neg, int mode) { // cmp: -2 exact -1 below half 0 half 1 above
  if (cmp == -2) return ip; bool inc = mode == 0 ? cmp > 0 || (cmp == 0 && (ip & 1)) : mode == 1 ? cmp >= 0 : mode == 2 ? false : mode == 3 ? neg : !neg; return ip + inc;
}
static void split(double v, int digits, unsigned __int128& ip, int& cmp) { // |v| * 10^digits exactly
  uint64_t b = b64(v) & ~S; int e = (int)(b >> 52); unsigned __int128 m = (b & M52) | (e ? 1ULL << 52 : 0); e = (e ? e : 1) - 1075; for (int i = 0; i < digits; i++) m *= 10;
  if (e >= 0) { ip = m << e; cmp = -2; return; } int s = -e; if (m == 0) { ip = 0; cmp = -2; return; }
  if (s > 127) { ip = 0; cmp = -1; return; } ip = m >> s; unsigned __int128 fr = m - (ip << s), half = (unsigned __int128)1 << (s - 1); cmp = fr == 0 ? -2 : fr < half ? -1 : fr == half ? 0 : 1;
}
static double quot(unsigned __int128 ip, int digits, bool neg) { char t[50]; int n = 0; unsigned __int128 u = ip; do t[n++] = '0' + (int)(u % 10); while (u /= 10); char s[64]; char* p = s; if (neg) *p++ = '-'; while (n) *p++ = t[--n]; sprintf(p, "e-%d", digits); return strtod(s, 0); }
static const double P10[] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15 };
static void round1(double v, int digits, int mode) {
  double g = 0, g2 = 0; Ex e = attempt([&] { g = Math::Round(v, digits, (MidpointRounding)mode); }), e2 = OK_; if (mode == 0) e2 = attempt([&] { g2 = Math::Round(v, digits); }); step();
  if (e != OK_ || e2 != OK_) fail("round/raise", "Round(%.17g, %d, %s): %s", v, digits, modes[mode], exName(e != OK_ ? e : e2));
  if (mode == 0 && !same(g, g2)) fail("round/default", "Round(%.17g, %d) = %.17g, with the mode given %.17g", v, digits, g2, g);
  double w;
  if (nan_(v) || absd(v) >= 1e16) w = v; else {
    unsigned __int128 ip; int c; split(v, digits, ip, c); unsigned __int128 r = rnd(ip, c, neg_(v), mode); w = quot(r, digits, neg_(v));
    if (g == w) { state(b64(w)); return; }
    // the product with the power of ten may itself be rounded: accept the rounding of that product
    double p = absd(v) * P10[digits]; unsigned __int128 ip2; int c2; split(p, 0, ip2, c2); unsigned __int128 r2 = rnd(ip2, c2, neg_(v), mode); double w2 = quot(r2, digits, neg_(v));
    bool big = r >> 53 || r2 >> 53; if (big ? close(g, w, 2) || close(g, w2, 2) : g == w2) return;
  }
  if (!same(g, w) && !(g == w)) fail("round", "Round(%.17g, %d, %s) = %.17g, expected %.17g", v, digits, modes[mode], g, w);
}
SUITE(round_grid, 0, "n/2 * 10^-k with n below 20000 (thorough 400000), each with its two neighbours, both signs, rounded to every number of digits near k, every mode") { int n = choose(thorough ? 400000 : 20000), k = choose(17); bool ng = choose(2); char t[40]; sprintf(t, "%s%d.%de-%d", ng ? "-" : "", n / 2, n % 2 * 5, k); double v = strtod(t, 0); for (int o = 0; o < 3; o++) { double x = o == 0 ? v : o == 1 ? up(v) : down(v); for (int d = k - 2 < 0 ? 0 : k - 2; d <= 15 && d <= k + 1; d++) for (int m = 0; m < 5; m++) round1(x, d, m); } }
SUITE(round_dyadic, 0, "every multiple of 2^-j below 64 for j up to 8 (thorough 13; exact decimal midpoints), both signs, digits 0..15, every mode") { int j = choose(thorough ? 14 : 9), n = choose(64 << j); bool ng = choose(2); double v = ldexp(n, -j); if (ng) v = -v; for (int d = 0; d <= 15; d++) for (int m = 0; m < 5; m++) round1(v, d, m); }
SUITE(round_classes, 0, "400+ representatives of every class, digits 0..15, every mode") { double v = one(); for (int d = 0; d <= 15; d++) for (int m = 0; m < 5; m++) round1(v, d, m); }
SUITE(round_large, 0, "n*10^k+half around the exact-integer limits: k 3..16, n 1..99, 5 offsets, every digit count and mode") { int k = 3 + choose(14), n = 1 + choose(99); double v = n * pow(10, k); v += (choose(5) - 2) * 0.5; for (int d = 0; d <= 15; d++) for (int m = 0; m < 5; m++) { round1(v, d, m); round1(-v, d, m); } }
SUITE(round_errors, 0, "digit counts -3..20 and extremes x modes -2..7 and extremes: outside 0..15 or 0..4 raises") { int d = choose(26); d = d == 24 ? INT32_MIN : d == 25 ? INT32_MAX : d - 3; int m = choose(12); m = m == 10 ? 99 : m == 11 ? -1000 : m - 2; double v = pick({ 1.25, 0.0, 1e20, (double)NAN, -2.5 }); bool bd = d < 0 || d > 15, bm = m < 0 || m > 4; double g = 0; Ex e = attempt([&] { g = Math::Round(v, d, (MidpointRounding)m); }); unsigned w = bd && bm ? EXBIT(xArgumentOutOfRange) | EXBIT(xArgument) : bd ? EXBIT(xArgumentOutOfRange) : bm ? EXBIT(xArgument) : EXBIT(OK_); NOTE("Round(%g, %d, mode %d)", v, d, m); expectEx(e, w, "round/range", "Round"); e = attempt([&] { g = Math::Round(v, d); }); expectEx(e, bd ? EXBIT(xArgumentOutOfRange) : EXBIT(OK_), "round/range", "Round without mode"); state(e * 100 + d); }
// ---- elementary functions
struct U { const char* n; Double (*f)(Double); long double (*l)(long double); };
static const U us[] = { { "Acos", &Math::Acos, acosl }, { "Acosh", &Math::Acosh, acoshl }, { "Asin", &Math::Asin, asinl }, { "Asinh", &Math::Asinh, asinhl }, { "Atan", &Math::Atan, atanl }, { "Atanh", &Math::Atanh, atanhl }, { "Cbrt", &Math::Cbrt, cbrtl }, { "Cos", &Math::Cos, cosl }, { "Cosh", &Math::Cosh, coshl }, { "Exp", &Math::Exp, expl }, { "Log", &Math::Log, logl }, { "Log10", &Math::Log10, log10l }, { "Log2", &Math::Log2, log2l }, { "Sin", &Math::Sin, sinl }, { "Sinh", &Math::Sinh, sinhl }, { "Sqrt", &Math::Sqrt, sqrtl }, { "Tan", &Math::Tan, tanl }, { "Tanh", &Math::Tanh, tanhl } };
static void unary(const U& u, double x) { int sq = !strcmp(u.n, "Sqrt"); double w = sq ? sqrt(x) : (double)u.l((long double)x); OK(u.f(x), w, u.n, x, 0, 0, sq ? 0 : 4); if (w == 0 || x == 0) { double g = u.f(x); if (g == 0 && w == 0 && neg_(g) != neg_(w)) fail(u.n, "%s(%.17g) has the wrong zero sign", u.n, x); } }
SUITE(elementary, 0, "18 functions over 400+ representatives of every class, against the extended-precision function within 4 ulps, special cases and zero signs exact") { const U& u = us[choose(18)]; unary(u, one()); }
SUITE(elementary_grid, 0, "18 functions over -10..10 in steps of 1/2048 (thorough 1/65536), and the interval -1..1 in steps of 2^-14 (2^-20)") { const U& u = us[choose(18)]; int k = thorough ? 65536 : 2048, i = choose(81); for (int j = 0; j < k / 4; j++) { double x = -10 + i * 0.25 + (double)j / k; unary(u, x); } int q = thorough ? 1048576 : 16384; for (int j = i; j <= 2 * q; j += 81) unary(u, (double)(j - q) / q); }
static long double logb_(double a, double b) { if (nan_(a) || nan_(b) || b == 1) return NAN; if (a != 1 && (b == 0 || b == INFINITY)) return NAN; return (long double)(double)logl(a) / (long double)(double)logl(b); }
SUITE(two_argument, 0, "power, arc tangent of a quotient, logarithm to a base over every representative with every second one (thorough: all pairs)") { double v[NR]; int n = reps(v); double a = one(); for (int i = 0; i < n; i += thorough ? 1 : 2) { double b = v[i]; { double w = (double)powl(a, b); if (nan_(w) || absd(w) < 0x1p-1000 || absd(w) == INFINITY || absd(a) == INFINITY || absd(b) > 0x1p62) w = pow(a, b); OK(Math::Pow(a, b), w, "Pow", a, b, 0, 8); } OK(Math::Atan2(a, b), (double)atan2l(a, b), "Atan2", a, b, 0, 4); { double w = (double)logb_(a, b); double g = 0; Ex e = attempt([&] { g = Math::Log(a, b); }); step(); if (e != OK_ || !(close(g, w, 8) || g == w)) fail("Log", "Log(%.17g, %.17g) = %.17g (%s), expected %.17g", a, b, g, exName(e), w); } } }
SUITE(far_args, 0, "rounding to digit counts, and scaling by powers, of 129 magnitudes of either sign, over 400+ representatives of every class") {
  int x = farInts[choose(NFAR)]; double v = one(); NOTE("%.17g, %d", v, x); if (x >= 0 && x <= 15) { for (int m = 0; m < 5; m++) round1(v, x, m); } else { for (int m = 0; m < 5; m++) expectEx(attempt([&] { Math::Round(v, x, (MidpointRounding)m); }), EXBIT(xArgumentOutOfRange), "round/range", "Round"); expectEx(attempt([&] { Math::Round(v, x); }), EXBIT(xArgumentOutOfRange), "round/range", "Round without mode"); } if (x < 0 || x > 4) expectEx(attempt([&] { Math::Round(v, 3, (MidpointRounding)x); }), EXBIT(xArgument) | EXBIT(xArgumentOutOfRange), "round/range", "Round with a mode outside"); double w = (double)ldexpl((long double)v, x < -6000 ? -6000 : x > 6000 ? 6000 : x); if (nan_(v) || v == 0 || absd(v) == INFINITY) w = v; OK(Math::ScaleB(v, x), w, "ScaleB", v, x); }
SUITE(twins, 0, "bit steps, integral parts, magnitude, sign, pairs and rounding of doubles that differ in one bit, one half, or by multiples of 2^8..2^56 of their bit patterns, one after the other and again, over 400+ representatives") { double v = one(); twins(b64(v), 0, UINT64_MAX, [](__int128 x) { bits1(d64((uint64_t)x)); }); static const double f2[] = { 3, -0.5, 1e10 }; for (double o : f2) twins(b64(v), 0, UINT64_MAX, [&](__int128 x) { double a = d64((uint64_t)x); pair(a, o); pair(o, a); round1(a, 2, 0); round1(a, 15, 1); }); }
SUITE(elementary_twins, 0, "18 functions of such doubles one after the other and again, over 400+ representatives") { const U& u = us[choose(18)]; double v = one(); twins(b64(v), 0, UINT64_MAX, [&](__int128 x) { unary(u, d64((uint64_t)x)); }); }
