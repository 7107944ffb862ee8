// P27: time-span arithmetic is exact and raises on overflow.
#include "cal.h"
typedef __float128 F128;
static const I128 LO = INT64_MIN, HI = INT64_MAX;
static TimeSpanValue tv(int64_t t) { return TimeSpanValue(TimeSpan((Int64)t)); }
static const char* sh(I128 x) { return showV(V{ Int64Type, x, 0 }); }
static bool in(I128 x) { return x >= LO && x <= HI; }
// outcome of a span-valued call against the exact tick count
template <class F> static void span(F f, I128 w, const char* key, const char* what, I128 a, I128 b, Ex err = xOverflow) {
  Int64 g = 77; Ex e = attempt([&] { g = f().value; }); step();
  if (!in(w)) { if (e != err) fail(key, "%s of %s and %s gives %s %s, expected %s", what, sh(a), sh(b), exName(e), sh(g), exName(err)); }
  else if (e != OK_ || g != (Int64)w) fail(key, "%s of %s and %s gives %s %s, expected %s", what, sh(a), sh(b), exName(e), sh(g), sh(w));
}
// ---- boundary tick counts
enum { MAXT = 700 };
static int ticksSet(int64_t* out) {
  I128 c[] = { 0, 1, 5, TPMS, TPS, TPM, TPH, TPD, 7 * TPD, 365 * TPD, TPS * 922337203685LL, TPMS * 922337203685477LL, TPD * 10675199, TPH * 256204778LL, TPM * 15372286728LL, (I128)1 << 53, (I128)1 << 31, (I128)1 << 32, (I128)1 << 62, HI / 3, HI / 2, HI };
  int n = 0; for (I128 b : c) for (int d = -2; d <= 2; d++) for (int s = 0; s < 2; s++) { I128 v = s ? -(b + d) : b + d; if (!in(v)) continue; bool dup = false; for (int i = 0; i < n; i++) dup |= out[i] == v; if (!dup) out[n++] = (int64_t)v; }
  out[n++] = INT64_MIN; return n;
}
static int64_t T[MAXT]; static int NT; static void tinit() { if (!NT) NT = ticksSet(T); }
// ---- construction
static void ctor(int64_t d, int64_t h, int64_t m, int64_t s, int64_t ms, int form) {
  I128 w = (I128)d * TPD + (I128)h * TPH + (I128)m * TPM + (I128)s * TPS + (I128)ms * TPMS; Int64 g = 77; Ex e;
  if (form == 3) e = attempt([&] { g = TimeSpan((Int32)h, (Int32)m, (Int32)s).value; }); else if (form == 4) e = attempt([&] { g = TimeSpan((Int32)d, (Int32)h, (Int32)m, (Int32)s).value; }); else e = attempt([&] { g = TimeSpan((Int32)d, (Int32)h, (Int32)m, (Int32)s, (Int32)ms).value; });
  step(); if (in(w) ? (e != OK_ || g != (Int64)w) : e != xArgumentOutOfRange) fail("construct", "%lld d %lld h %lld min %lld s %lld ms: %s %s, expected %s", (long long)d, (long long)h, (long long)m, (long long)s, (long long)ms, exName(e), sh(g), in(w) ? sh(w) : "an out-of-range error");
}
static const int fs[] = { 0, 1, -1, 2, 23, 24, -23, -24, 25, 59, 60, -59, -60, 61, 999, 1000, -999, -1000, 3600, 86400, 10675199, -10675199, 10675200, 256204778, -256204778, 256204779, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1 };
SUITE(construct3, 0, "all (hours, minutes, seconds) over 30 boundary values each") { int h = pick(fs), m = pick(fs); for (int s : fs) ctor(0, h, m, s, 0, 3); state(mc::mix(h, m)); }
SUITE(construct5, 0, "all (days, hours, minutes, seconds[, milliseconds]) over 13 boundary values each (thorough: 30 for days and seconds)") {
  static const int q[] = { 0, 1, -1, 24, -24, 60, 999, -1000, 10675199, -10675199, 256204778, INT32_MAX, INT32_MIN }; int d = thorough ? pick(fs) : pick(q), h = pick(q), m = pick(q); for (int i = 0; i < (thorough ? 30 : 13); i++) { int s = thorough ? fs[i] : q[i]; ctor(d, h, m, s, 0, 4); for (int ms : q) ctor(d, h, m, s, ms, 5); } state(mc::mix(mc::mix(d, h), m)); }
SUITE(construct_limits, 0, "one field chosen so that the total lies within 3 of either limit, the others over their boundary values, for each field that can reach it") {
  static const int64_t unit[] = { TPD, TPH, TPM, TPS, TPMS }; int f = choose(5), side = choose(2); int64_t c[5]; static const int q[] = { 0, 1, -1, 999, -1000, 256204778, -256204778, INT32_MAX, INT32_MIN }; I128 rest = 0; for (int i = 0; i < 5; i++) if (i != f) { c[i] = pick(q); rest += (I128)c[i] * unit[i]; }
  I128 need = ((side ? HI : LO) - rest) / unit[f]; if (need < INT32_MIN - 3LL || need > INT32_MAX + 3LL) mc::discard(); for (int k = -3; k <= 3; k++) { I128 v = need + k; if (v < INT32_MIN || v > INT32_MAX) continue; c[f] = (int64_t)v; ctor(c[0], c[1], c[2], c[3], c[4], 5); if (!c[4]) ctor(c[0], c[1], c[2], c[3], 0, 4); if (!c[4] && !c[0]) ctor(0, c[1], c[2], c[3], 0, 3); } state(mc::mix((uint64_t)need, f)); }
// ---- readings
static void near_(double g, I128 num, int64_t den, const char* what, int64_t t) {
  F128 w = (F128)num / den; F128 d = (F128)g - w; if (d < 0) d = -d; F128 a = w < 0 ? -w : w; step(); if (!(d <= a * 0x1p-51)) fail("total", "%s of %s is %.17g, expected %.17g", what, sh(t), g, (double)w);
}
static void readings(int64_t t) {
  TimeSpanValue v = tv(t); I128 d = v.get_Days(), h = v.get_Hours(), m = v.get_Minutes(), s = v.get_Seconds(), ms = v.get_Milliseconds(); step();
  if (d != t / TPD || h != t / TPH % 24 || m != t / TPM % 60 || s != t / TPS % 60 || ms != t / TPMS % 1000) fail("component", "components of %s are %d d %d h %d min %d s %d ms", sh(t), (int)d, (int)h, (int)m, (int)s, (int)ms);
  if (d * TPD + h * TPH + m * TPM + s * TPS + ms * TPMS + t % TPMS != t) fail("component", "components of %s do not recompose", sh(t));
  near_(v.get_TotalDays(), t, TPD, "TotalDays", t); near_(v.get_TotalHours(), t, TPH, "TotalHours", t); near_(v.get_TotalMinutes(), t, TPM, "TotalMinutes", t); near_(v.get_TotalSeconds(), t, TPS, "TotalSeconds", t); { double ms = v.get_TotalMilliseconds(); int64_t c = 922337203685477; /* .NET clamps the last part of a millisecond */ if (!(t / TPMS == c && ms == (double)c) && !(t / TPMS == -c && ms == -(double)c)) near_(ms, t, TPMS, "TotalMilliseconds", t); }
  if (v.get_Ticks() != t || v.get_AsTimeSpan().value != t || TimeSpanValue::FromTicks(t).value != t || TimeSpanValue::op_UnaryPlus(TimeSpan((Int64)t)).value != t) fail("ticks", "ticks of %s are %s", sh(t), sh(v.get_Ticks()));
  Object* o = new TimeSpanValue(TimeSpan((Int64)t)); if (o->get_AsTimeSpan().value != t || o->GetRawDataType() != TimeSpanType) fail("boxed", "boxed %s reads %s", sh(t), sh(o->get_AsTimeSpan().value));
}
SUITE(readings_boundary, 0, "all component and total readings of 200 boundary tick counts") { tinit(); for (int i = choose(NT / 20 + 1) * 20, k = 0; k < 20 && i < NT; k++, i++) { readings(T[i]); state(T[i]); } }
SUITE(readings_fields, 0, "every combination of key days, hours, minutes, seconds, milliseconds and odd ticks, both signs") { static const int ds[] = { 0, 1, 2, 365, 10675198 }, hs[] = { 0, 1, 11, 12, 13, 22, 23 }, ms[] = { 0, 1, 29, 30, 31, 58, 59 }, fr[] = { 0, 1, 9, 500, 998, 999 }, od[] = { 0, 1, 5000, 9999 }; int64_t t = pick(ds) * TPD + pick(hs) * TPH + pick(ms) * TPM; for (int s : ms) for (int f : fr) for (int o : od) { int64_t v = t + s * TPS + f * TPMS + o; readings(v); readings(-v); } state(t); }
SUITE(readings_seconds, 0, "every second of a day, both signs, with first and last tick") { int h = choose(24), m = choose(60); for (int s = 0; s < 60; s++) { int64_t t = h * TPH + m * TPM + s * TPS; readings(t); readings(-t); readings(t + TPS - 1); readings(-t - TPS + 1); } state(h * 60 + m); }
// ---- two operands
static void two(int64_t a, int64_t b) {
  TimeSpan x((Int64)a), y((Int64)b); TimeSpanValue v = tv(a);
  span([&] { return v.Add(y); }, (I128)a + b, "add", "Add", a, b); span([&] { return TimeSpanValue::op_Addition(x, y); }, (I128)a + b, "op+", "operator +", a, b);
  span([&] { return v.Subtract(y); }, (I128)a - b, "subtract", "Subtract", a, b); span([&] { return TimeSpanValue::op_Subtraction(x, y); }, (I128)a - b, "op-", "operator -", a, b);
  if (v.get_Ticks() != a || x.value != a || y.value != b) fail("changed", "arithmetic changed its operand %s or %s", sh(a), sh(b));
  int c = a < b ? -1 : a > b; auto sg = [](int k) { return k < 0 ? -1 : k > 0; }; TimeSpanValue bx(x), by(y);
  if (!(sg(TimeSpanValue::Compare(x, y)) == c && sg(v.CompareTo(y)) == c && sg(bx.CompareTo((Object*)&by)) == c && (bool)v.Equals(y) == (c == 0) && (bool)TimeSpanValue::Equals(x, y) == (c == 0) && (bool)bx.Equals((Object*)&by) == (c == 0)
    && (bool)TimeSpanValue::op_Equality(x, y) == (c == 0) && (bool)TimeSpanValue::op_Inequality(x, y) == (c != 0) && (bool)TimeSpanValue::op_LessThan(x, y) == (c < 0) && (bool)TimeSpanValue::op_LessThanOrEqual(x, y) == (c <= 0) && (bool)TimeSpanValue::op_GreaterThan(x, y) == (c > 0) && (bool)TimeSpanValue::op_GreaterThanOrEqual(x, y) == (c >= 0))) fail("compare", "comparisons of %s with %s disagree with the tick order", sh(a), sh(b));
  for (int k = 0; k < 2; k++) { double q = -7; Ex e = attempt([&] { q = k ? TimeSpanValue::op_Division(x, y) : v.Divide(y); }); step();
    if (b == 0) { if (!(e == xDivideByZero || e == xOverflow || (e == OK_ && (a == 0 ? isnan(q) : isinf(q) && (q > 0) == (a > 0))))) fail("ratio", "%s / %s: %s %.17g", sh(a), sh(b), exName(e), q); }
    else { F128 w = (F128)a / b, d = (F128)q - w, aw = w < 0 ? -w : w; if (d < 0) d = -d; if (e != OK_ || !(d <= aw * 0x1p-50)) fail("ratio", "%s / %s: %s %.17g", sh(a), sh(b), exName(e), q); if ((I128)a % b == 0 && a > -(1LL << 53) && a < (1LL << 53) && b > -(1LL << 53) && b < (1LL << 53) && q != (double)(a / b)) fail("ratio", "%s / %s: %.17g", sh(a), sh(b), q); } }
}
SUITE(pairs, 0, "all ordered pairs of 200 boundary tick counts: sum, difference, ratio and every comparison, as methods and operators") { tinit(); int64_t a = T[choose(NT)]; for (int i = 0; i < NT; i++) two(a, T[i]); state(a); }
SUITE(sums_at_limits, 0, "every boundary operand with the partner that brings the sum or difference within 4 of each limit") { tinit(); int64_t a = T[choose(NT)]; for (int d = -4; d <= 4; d++) for (I128 lim : { LO, HI, (I128)0 }) { I128 b = lim + d - a; if (in(b)) { two(a, (int64_t)b); two((int64_t)b, a); } b = a - (lim + d); if (in(b)) { two(a, (int64_t)b); two((int64_t)b, a); } } state(a); }
SUITE(powers, 0, "all ordered pairs of +-2^i +- {0,1}, i 0..63 (thorough: and +-3*2^i)") { auto nth = [](int k) -> I128 { int s = k & 1, d = (k >> 1) % 3 - 1, e = (k >> 1) / 3; I128 b = (e < 64 ? (I128)1 << e : (I128)3 << (e - 64)) + d; return s ? -b : b; }; int N = thorough ? 6 * 126 : 6 * 64; I128 a = nth(choose(N)); if (!in(a)) mc::discard(); for (int i = 0; i < N; i++) { I128 b = nth(i); if (in(b)) two((int64_t)a, (int64_t)b); } state((uint64_t)a); }
static void one(int64_t a) {
  TimeSpanValue v = tv(a); span([&] { return v.Negate(); }, -(I128)a, "negate", "Negate", a, 0); span([&] { return TimeSpanValue::op_UnaryNegation(TimeSpan((Int64)a)); }, -(I128)a, "op-", "unary -", a, 0); span([&] { return v.Duration(); }, a < 0 ? -(I128)a : (I128)a, "duration", "Duration", a, 0);
  if (v.get_Ticks() != a) fail("changed", "%s changed", sh(a)); Int32 c = 7; Ex e = attempt([&] { c = v.CompareTo((Object*)nullptr); }); step(); if (e != OK_ || c <= 0) fail("compare/null", "%s against null: %s %d", sh(a), exName(e), c); if (v.Equals((Object*)nullptr)) fail("equals/null", "%s equals null", sh(a));
  Object* os[] = { new Int64Value((Int64)a), new UInt64Value((UInt64)a), new DateTimeValue(DateTime((UInt64)(a & 0xffffffff))), new String(L"x") }; for (Object* o : os) { e = attempt([&] { v.CompareTo(o); }); step(); if (e != xArgument) fail("compare/type", "%s against another type: %s", sh(a), exName(e)); if (v.Equals(o)) fail("equals/type", "%s equals a value of another type", sh(a)); }
}
SUITE(unary, 0, "negation, duration and comparison with null and other types of 200 boundary tick counts") { tinit(); int64_t a = T[choose(NT)]; one(a); state(a); }
SUITE(constants, 0, "declared minimum, maximum, zero and unit constants") { step(8); EXPECT(TimeSpanValue::MaxValue.value == INT64_MAX && TimeSpanValue::MinValue.value == INT64_MIN && TimeSpanValue::Zero.value == 0 && TimeSpanValue::TicksPerMillisecond == TPMS && TimeSpanValue::TicksPerSecond == TPS && TimeSpanValue::TicksPerMinute == TPM && TimeSpanValue::TicksPerHour == TPH && TimeSpanValue::TicksPerDay == TPD, "constants", "min %s max %s zero %s", sh(TimeSpanValue::MinValue.value), sh(TimeSpanValue::MaxValue.value), sh(TimeSpanValue::Zero.value)); EXPECT(TimeSpanValue().get_Ticks() == 0 && TimeSpan().value == 0, "constants", "default span is not zero"); EXPECT(attempt([] { tv(INT64_MIN).Add(TimeSpan((Int64)-1)); }) == xOverflow, "constants", "no overflow below the minimum"); state(1); }
// ---- scaling by a floating-point amount.  The result is the exact product rounded to a tick (either neighbour of a tie; "trunc": towards zero is accepted too), one double rounding of slack.
static const F128 P63 = 9223372036854775808.0;
static void scaled(Ex e, Int64 g, F128 w, bool wnan, unsigned nanErr, bool trunc, const char* key, const char* what, I128 t, double f) {
  step(); if (wnan) { if (e == OK_ || !(nanErr & EXBIT(e))) fail(key, "%s(%s, %.17g): %s %s", what, sh(t), f, exName(e), sh(g)); return; }
  F128 aw = w < 0 ? -w : w; if (aw > 1e30) aw = 1e30; F128 eps = aw * 0x1p-51; bool surelyOut = w - eps >= P63 || w + eps < -P63 - (trunc ? 1 : 0.5), surelyIn = (w + eps < P63 && w - eps >= -P63) || (w == -P63 && (I128)(double)t == t);   // an exact product equal to the minimum is in range
  if (surelyOut) { if (e != xOverflow) fail(key, "%s(%s, %.17g): %s %s, expected an overflow error", what, sh(t), f, exName(e), sh(g)); return; }
  if (e == xOverflow && !surelyIn) return; if (e != OK_) fail(key, "%s(%s, %.17g): %s", what, sh(t), f, exName(e));
  F128 d = (F128)g - w; if (d < 0) d = -d; bool whole = t >= -((I128)1 << 53) && t <= ((I128)1 << 53) && aw < 0x1p62 && (F128)(int64_t)w == w && aw <= 0x1p53; if (whole ? d != 0 : d > eps + (trunc ? 1.0 : 0.5)) fail(key, "%s(%s, %.17g) gives %s", what, sh(t), f, sh(g));
}
static void scale(int64_t t, double f) {
  TimeSpan x((Int64)t); TimeSpanValue v = tv(t); Int64 g = 0; Ex e; bool n = isnan(f) || (t == 0 && isinf(f)); unsigned nerr = isnan(f) ? EXBIT(xArgument) : EXBIT(xOverflow) | EXBIT(xArgument); F128 w = n ? 0 : (F128)t * f;
  e = attempt([&] { g = v.Multiply(f).value; }); scaled(e, g, w, n, nerr, false, "multiply", "Multiply", t, f); e = attempt([&] { g = TimeSpanValue::op_Multiply(x, f).value; }); scaled(e, g, w, n, nerr, false, "multiply", "span * factor", t, f); e = attempt([&] { g = TimeSpanValue::op_Multiply(f, x).value; }); scaled(e, g, w, n, nerr, false, "multiply", "factor * span", t, f);
  bool z = f == 0; n = isnan(f) || z; nerr = isnan(f) ? EXBIT(xArgument) : EXBIT(xOverflow) | EXBIT(xDivideByZero); w = n || isinf(f) ? 0 : (F128)t / f;
  e = attempt([&] { g = v.Divide(f).value; }); scaled(e, g, w, n, nerr, false, "divide", "Divide", t, f); e = attempt([&] { g = TimeSpanValue::op_Division(x, f).value; }); scaled(e, g, w, n, nerr, false, "divide", "span / divisor", t, f); if (v.get_Ticks() != t) fail("changed", "%s changed", sh(t));
}
static const double odd[] = { 0.0, -0.0, INFINITY, -INFINITY, NAN, 4.9406564584124654e-324, -4.9406564584124654e-324, 1.7976931348623157e308, -1.7976931348623157e308, 0.49999999999999994, 1.0 / 3, -1.0 / 3, 0.1, 0.7, 1.1, 3.0, -3.0, 7.0, 10.0, 24.0, 60.0, 1000.0, 3600.0, 86400.0, 9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 1e-19, 1e19 };
SUITE(scale_odd, 0, "multiply and divide 200 boundary spans by 29 special factors, +-2^k and +-1.5*2^k for k -70..70, +-k/2 for k to 20") { tinit(); int64_t t = T[choose(NT)]; for (double f : odd) scale(t, f); for (int k = -70; k <= 70; k++) for (double m : { 1.0, -1.0, 1.5, -1.5 }) scale(t, ldexp(m, k)); for (int k = -40; k <= 40; k++) scale(t, k * 0.5); state(t); }
SUITE(scale_small, 0, "multiply and divide every tick count -60..60 by every n/d, n -60..60, d 1..8") { int64_t t = choose(121) - 60; for (int n = -60; n <= 60; n++) for (int d = 1; d <= 8; d++) scale(t, (double)n / d); state(t); }
SUITE(scale_limits, 0, "multiply and divide by the factor that brings the product next to each limit, 200 boundary spans, 9 neighbouring doubles") { tinit(); int64_t t = T[choose(NT)]; if (!t) mc::discard(); for (double lim : { 9223372036854775808.0, -9223372036854775808.0, 4611686018427387904.0 }) { double f = lim / (double)t, q = (double)t / lim; for (int k = 0; k < 4; k++) { f = nextafter(f, -INFINITY); q = nextafter(q, -INFINITY); } for (int k = 0; k < 9; k++) { scale(t, f); scale(t, q); f = nextafter(f, INFINITY); q = nextafter(q, INFINITY); } } state(t); }
struct Unit { const char* n; TimeSpan (*f)(const Double); int64_t k; };
static const Unit units[] = { { "FromMilliseconds", TimeSpanValue::FromMilliseconds, TPMS }, { "FromSeconds", TimeSpanValue::FromSeconds, TPS }, { "FromMinutes", TimeSpanValue::FromMinutes, TPM }, { "FromHours", TimeSpanValue::FromHours, TPH }, { "FromDays", TimeSpanValue::FromDays, TPD } };
static void from(const Unit& u, double v) { Int64 g = 0; Ex e = attempt([&] { g = u.f(v).value; }); scaled(e, g, isnan(v) ? 0 : (F128)v * u.k, isnan(v), EXBIT(xArgument), true, "from", u.n, u.k, v); Int64 g2 = 0; Ex e2 = attempt([&] { g2 = TimeSpanValue::Interval(v, (Double)u.k).value; }); step(); if (e2 != e || (e == OK_ && g != g2)) fail("interval", "Interval(%.17g, %lld) gives %s %s, %s gives %s %s", v, (long long)u.k, exName(e2), sh(g2), u.n, exName(e), sh(g)); }
SUITE(from_whole, 0, "whole and half numbers of each unit -20000..20000 and the numbers within 5 of each limit") { const Unit& u = units[choose(5)]; int c = choose(41) - 20; for (int k = 0; k < 1000; k++) from(u, c * 1000 + k + (c < 0 ? 0.5 : 0)), from(u, c * 1000 + k); if (c == 0) { I128 lim = HI / u.k; for (int d = -5; d <= 5; d++) { from(u, (double)(lim + d)); from(u, -(double)(lim + d)); double x = 9223372036854775808.0 / u.k; for (int i = 0; i < (d < 0 ? -d : d); i++) x = nextafter(x, d < 0 ? -INFINITY : INFINITY); from(u, x); from(u, -x); } } state(mc::mix(u.k, c)); }
SUITE(from_fractions, 0, "n/d of each unit, n -3000..3000, d in {3, 7, 10, 24, 60, 1000, 1440, 86400, 1000000, 10000000}, special values and powers of two") { const Unit& u = units[choose(5)]; int d = pick({ 3, 7, 10, 24, 60, 1000, 1440, 86400, 1000000, 10000000 }); for (int n = -3000; n <= 3000; n++) from(u, (double)n / d); if (d == 3) { for (double f : odd) from(u, f); for (int k = -80; k <= 80; k++) for (double m : { 1.0, -1.0, 1.5, -1.5 }) from(u, ldexp(m, k)); } state(mc::mix(u.k, d)); }
SUITE(from_ticks_whole, 0, "numbers of units that are whole milliseconds when converted from all -5000..5000 milliseconds and back through the total reading") { const Unit& u = units[choose(5)]; for (int k = -5000; k <= 5000; k++) { int64_t t = k * u.k; TimeSpanValue v = tv(t); double tot = u.k == TPMS ? v.get_TotalMilliseconds() : u.k == TPS ? v.get_TotalSeconds() : u.k == TPM ? v.get_TotalMinutes() : u.k == TPH ? v.get_TotalHours() : v.get_TotalDays(); if (tot != k) fail("total", "total of %s is %.17g", sh(t), tot); Int64 g = u.f(tot).value; step(); if (g != t) fail("from", "%s(%.17g) gives %s", u.n, tot, sh(g)); } state(u.k); }
SUITE(histories, 0, "all sequences of 4 (thorough 6) operations from 11 (add, subtract, negate, duration, multiply, divide) from 6 starting spans: every step exact, overflow leaves the value") {
  int64_t c = pick({ (int64_t)0, (int64_t)1, (int64_t)INT64_MAX, (int64_t)INT64_MIN, -TPD, (int64_t)1 << 62 }); int depth = thorough ? 6 : 4; static const int64_t A[] = { 1, TPD, INT64_MAX, INT64_MIN };
  for (int i = 0; i < depth; i++) { int op = choose(11); TimeSpanValue v = tv(c); I128 w; Int64 g = 0; Ex e; NOTE("%s op %d", sh(c), op); if (op < 4) { w = (I128)c + A[op]; e = attempt([&] { g = v.Add(TimeSpan((Int64)A[op])).value; }); } else if (op < 8) { w = (I128)c - A[op - 4]; e = attempt([&] { g = v.Subtract(TimeSpan((Int64)A[op - 4])).value; }); } else if (op == 8) { w = -(I128)c; e = attempt([&] { g = v.Negate().value; }); } else if (op == 9) { w = c < 0 ? -(I128)c : (I128)c; e = attempt([&] { g = v.Duration().value; }); } else { w = c; e = attempt([&] { g = v.Add(TimeSpanValue::Zero).value; }); }
    step(); if (in(w) ? (e != OK_ || g != (Int64)w) : e != xOverflow) fail("history", "operation %d on %s: %s %s", op, sh(c), exName(e), sh(g)); if (v.get_Ticks() != c) fail("history", "operation changed its operand"); if (e == OK_) c = g; } state(c); }
SUITE(ladder, 0, "spans built from three to five fields, one or two of them of 150 values (0..20 and 129 magnitudes of either sign); such amounts of each unit; sums, differences, ratios and comparisons of all pairs of such tick counts") {
  int k = choose(NFAR + 21), form = choose(7), x = k < 21 ? k : farInts[k - 21]; NOTE("%d, form %d", x, form); auto nth = [](int i) { return i < 21 ? i : farInts[i - 21]; };
  if (form < 5) for (int g = 0; g < 5; g++) for (int i = 0; i < NFAR + 21; i++) { if (g == form && i) break; int64_t c[5] = { 1, -2, 30, -4, 500 }; c[form] = x; if (g != form) c[g] = nth(i); ctor(c[0], c[1], c[2], c[3], c[4], 5); if (form < 4 && g < 4) { ctor(c[0], c[1], c[2], c[3], 0, 4); if (form && g) ctor(0, c[1], c[2], c[3], 0, 3); } }
  else if (form == 5) { for (const Unit& u : units) { from(u, x); from(u, x + 0.5); from(u, x / 10.0); I128 t = (I128)x * u.k; if (in(t)) { readings((int64_t)t); one((int64_t)t); } } readings(x); one(x); } else for (int i = 0; i < NFAR + 21; i++) { two(x, nth(i)); if (nth(i)) scale(x, nth(i)); } state(mc::mix(form, (uint64_t)(uint32_t)x)); }
SUITE(twins, 0, "spans that differ in one bit of their tick count, one half, or by multiples of 2^8..2^56, read, negated and made from one after the other, from 261 starting spans") { tinit(); int i = choose(NT + 61); int64_t t = i < NT ? T[i] : (int64_t)((i - NT - 30) * (INT64_MAX / 31) + i * 7919); twins(t, LO, HI, [](__int128 x) { readings((int64_t)x); one((int64_t)x); two((int64_t)x, 86399); two(77777777777LL, (int64_t)x); }); state(t); }
SUITE(factor_twins, 0, "amounts whose bits differ in one place, one half, or by multiples of 2^8..2^56, as factors, divisors and numbers of each unit, one after the other and again, from 61 amounts") { int i = choose(61), w = choose(7); double v = (i - 30) * 1234.56789 + (i & 1 ? i / 7.0 : 0); uint64_t b; memcpy(&b, &v, 8); twins(b, 0, UINT64_MAX, [&](__int128 x) { uint64_t y = (uint64_t)x; double a; memcpy(&a, &y, 8); if (w < 2) scale(w ? 863999999999LL : -7, a); else from(units[w - 2], a); }); state(b + w); }
SUITE(one_field_changed, 0, "44 spans (thorough: 261) against every span with one field changed (each hour, minute, second, millisecond of either sign) and distances in days, hours, minutes and seconds, read and made alternately, added to and divided by one span") { tinit(); int i = choose(NT + 61); if (!thorough && i % 6) mc::discard(); int64_t t = i < NT ? T[i] : (int64_t)((i - NT - 30) * (INT64_MAX / 31) + i * 7919); oneSpanField(t, [](int64_t x) { readings(x); one(x); two(x, 86399); }); state(t); }
