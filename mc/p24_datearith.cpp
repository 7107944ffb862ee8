// P24: date arithmetic is exact, invertible and never leaves the calendar range.
#include "cal.h"
static DateTimeValue dv(int64_t t) { return DateTimeValue(DateTime((UInt64)t)); }
static const char* sh(I128 x) { return showV(V{ Int64Type, x, 0 }); }
// outcome of a date-valued call against the exact tick count
template <class F> static void date(F f, I128 w, const char* key, const char* what, int64_t t, I128 arg) {
  UInt64 g = 77; Ex e = attempt([&] { g = f().value; }); step();
  if (w < 0 || w > LASTTICK) { if (e != xArgumentOutOfRange) fail(key, "%s: %s %s gives %s %s, expected an out-of-range error", what, shT(t), sh(arg), exName(e), shT(g)); }
  else if (e != OK_ || (I128)g != w) fail(key, "%s: %s %s gives %s %s, expected %s", what, shT(t), sh(arg), exName(e), shT(g), shT((int64_t)w));
}
// ---- months and years
static I128 months(int64_t t, int64_t k) { calInit(); Day d = calDays[t / TPD]; int64_t i = d.y * 12LL + d.m - 1 + k; if (k < -120000 || k > 120000) return -1; if (i < 12 || i >= 10000 * 12) return -1; int y = (int)(i / 12), m = (int)(i % 12) + 1, dd = d.d > mdays(y, m) ? mdays(y, m) : d.d; return dayNumber(y, m, dd) * (I128)TPD + t % TPD; }
static I128 years(int64_t t, int64_t k) { return k < -10000 || k > 10000 ? -1 : months(t, k * 12); }
static void addMonths(int64_t t, int k) { date([&] { return dv(t).AddMonths(k); }, months(t, k), "months", "add months", t, k); }
static void addYears(int64_t t, int k) { date([&] { return dv(t).AddYears(k); }, years(t, k), "years", "add years", t, k); }
SUITE(month_steps, 0, "every day of the calendar plus and minus 1, 2, 3, 11, 12, 13, 48, 1200, 4800 months and 1, 4, 100, 400 years, at the day's first and last tick") { calInit(); int y = 1 + choose(9999); for (int n = calYear[y]; n < calYear[y + 1]; n++) { int64_t t = n * TPD + (n & 1 ? TPD - 1 : 0); for (int k : { 1, 2, 3, 11, 12, 13, 48, 1200, 4800 }) { addMonths(t, k); addMonths(t, -k); } for (int k : { 1, 4, 100, 400 }) { addYears(t, k); addYears(t, -k); } } state(y); }
SUITE(month_distances, 0, "40 key years' month ends x every month distance that reaches or just leaves the calendar (thorough: all distances; quick: every 3rd and all within 30 of the ends), and the extreme arguments") { int y = pick(keyYears), m = 1 + choose(12), e = choose(3); int64_t t = tk(y, m, e == 0 ? 1 : e == 1 ? 28 : mdays(y, m), 13, 14, 15, 16, 17); int lo = -(y * 12 + m - 13), hi = 9999 * 12 + 11 - (y * 12 + m - 1); for (int k = lo - 14; k <= hi + 14; k++) { if (!thorough && k > lo + 30 && k < hi - 30 && (k < -30 || k > 30) && k % 3) continue; addMonths(t, k); } for (int k : { -120000, -119999, -120001, 120000, 119999, 120001, INT32_MIN, INT32_MIN + 1, INT32_MAX, INT32_MAX - 1, -1000000, 1000000, 715827883, -715827883 }) addMonths(t, k); for (int k = -y - 3; k <= -y + 3; k++) addYears(t, k); for (int k = 9999 - y - 3; k <= 9999 - y + 3; k++) addYears(t, k); for (int k : { -10000, -10001, 10000, 10001, INT32_MIN, INT32_MAX, 357913942, -357913942, 178956971 }) addYears(t, k); state(t); }
// ---- ticks and spans
static const int64_t keyDates[] = { 0, 1, TPMS - 1, TPMS, TPS, TPD - 1, TPD, 366 * TPD, 630822816000000000LL, 621355968000000000LL, LASTTICK / 2, LASTTICK - TPD, LASTTICK - TPS, LASTTICK - TPMS, LASTTICK - TPMS + 1, LASTTICK - 1, LASTTICK };
static int spans(int64_t t, int64_t* out) { int n = 0; I128 c[] = { 0, 1, TPMS, TPS, TPM, TPH, TPD, 365 * (I128)TPD, LASTTICK, (I128)LASTTICK + 1, LASTTICK - (I128)t, t, (I128)INT64_MAX, (I128)INT64_MAX - LASTTICK, (I128)INT64_MAX - t, (I128)1 << 62, (I128)1 << 32 }; for (I128 b : c) for (int d = -2; d <= 2; d++) for (int s = 0; s < 2; s++) { I128 v = s ? -(b + d) : b + d; if (v >= INT64_MIN && v <= INT64_MAX) out[n++] = (int64_t)v; } out[n++] = INT64_MIN; out[n++] = INT64_MIN + 1; return n; }
static void move(int64_t t, int64_t s) {
  date([&] { return dv(t).AddTicks(s); }, (I128)t + s, "ticks", "add ticks", t, s);
  date([&] { return dv(t).Add(TimeSpan(s)); }, (I128)t + s, "add", "add span", t, s);
  date([&] { return DateTimeValue::op_Addition(DateTime((UInt64)t), TimeSpan(s)); }, (I128)t + s, "op+", "date + span", t, s);
  date([&] { return dv(t).Subtract(TimeSpan(s)); }, (I128)t - s, "subtract", "subtract span", t, s);
  date([&] { return DateTimeValue::op_Subtraction(DateTime((UInt64)t), TimeSpan(s)); }, (I128)t - s, "op-", "date - span", t, s);
}
SUITE(span_moves, 0, "17 boundary dates, 40 key years' ends and every century's turns, plus and minus 170 boundary spans including those that just reach, just pass and overflow both limits") { int64_t t; int k = choose(3); if (k == 0) t = pick(keyDates); else if (k == 1) { int y = pick(keyYears); t = choose(2) ? tk(y, 12, 31, 23, 59, 59, 999, 9999) : tk(y, 1, 1); } else { t = tk(1 + choose(100) * 100, 3, 1, 0, 0, 0, 0, 0) - choose(2); } int64_t s[400]; int n = spans(t, s); for (int i = 0; i < n; i++) move(t, s[i]); state(t); }
SUITE(tick_sums, 0, "all pairs (date, tick amount) whose sum lies within 3 ticks of either limit, dates from every key set") { int64_t t = choose(2) ? pick(keyDates) : tk(pick(keyYears), 1 + choose(12), 1); for (int d = -3; d <= 3; d++) { I128 a = (I128)d - t, b = (I128)LASTTICK + d - t; for (I128 v : { a, b }) { move(t, (int64_t)v); if (-v >= INT64_MIN && -v <= INT64_MAX) move(t, (int64_t)-v); } } state(t); }
static void two(int64_t a, int64_t b) {
  DateTime x((UInt64)a), y((UInt64)b); Int64 d1 = 0, d2 = 0; Ex e1 = attempt([&] { d1 = DateTimeValue(x).Subtract(y).value; }), e2 = attempt([&] { d2 = DateTimeValue::op_Subtraction(x, y).value; }); step();
  if (e1 != OK_ || e2 != OK_ || d1 != a - b || d2 != a - b) fail("difference", "%s - %s = %lld / %lld", shT(a), shT(b), (long long)d1, (long long)d2);
  date([&] { return DateTimeValue(y).Add(TimeSpan(d1)); }, a, "difference", "adding the difference", b, d1);
  int c = a < b ? -1 : a > b; DateTimeValue bx(x), by(y); auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
  bool ok = sg(DateTimeValue::Compare(x, y)) == c && sg(DateTimeValue(x).CompareTo(y)) == c && sg(bx.CompareTo((Object*)&by)) == c && DateTimeValue(x).Equals(y) == (c == 0) && DateTimeValue::Equals(x, y) == (c == 0) && bx.Equals((Object*)&by) == (c == 0)
    && (bool)DateTimeValue::op_Equality(x, y) == (c == 0) && (bool)DateTimeValue::op_Inequality(x, y) == (c != 0) && (bool)DateTimeValue::op_LessThan(x, y) == (c < 0) && (bool)DateTimeValue::op_LessThanOrEqual(x, y) == (c <= 0) && (bool)DateTimeValue::op_GreaterThan(x, y) == (c > 0) && (bool)DateTimeValue::op_GreaterThanOrEqual(x, y) == (c >= 0);
  if (!ok) fail("compare", "comparisons of %s with %s disagree with the tick order", shT(a), shT(b));
}
static int64_t anyDate(int i) { int nk = sizeof keyDates / 8, ny = sizeof keyYears / 4; if (i < nk) return keyDates[i]; i -= nk; if (i < ny * 4) { int y = keyYears[i / 4]; int64_t t = i & 1 ? tk(y, 12, 31) : tk(y, 1, 1); return i & 2 ? t + TPD - 1 : t; } i -= ny * 4; return (int64_t)(1ULL << (i % 62)) - (i / 62); }
enum { ANYDATES = 17 + 38 * 4 + 61 * 2 };
SUITE(date_pairs, 0, "differences and all comparison operators over all pairs of 291 dates: limits, key years' ends, powers of two") { int64_t a = anyDate(choose(ANYDATES)); if (a > LASTTICK) mc::discard(); for (int i = 0; i < ANYDATES; i++) { int64_t b = anyDate(i); if (b <= LASTTICK) two(a, b); } state(a); }
// ---- fractional amounts
struct Unit { const char* n; DateTime (DateTimeValue::*f)(const Double); int64_t ms; };
static const Unit units[] = { { "AddMilliseconds", &DateTimeValue::AddMilliseconds, 1 }, { "AddSeconds", &DateTimeValue::AddSeconds, 1000 }, { "AddMinutes", &DateTimeValue::AddMinutes, 60000 }, { "AddHours", &DateTimeValue::AddHours, 3600000 }, { "AddDays", &DateTimeValue::AddDays, 86400000 } };
static const int64_t MAXMS = 315537897600000LL;
static void amount(int64_t t, const Unit& u, double v) {
  UInt64 g = 77; DateTimeValue x = dv(t); Ex e = attempt([&] { g = (x.*u.f)(v).value; }); step(); if (x.get_Ticks() != t) fail("amount/self", "%s changed the date itself", u.n);
  long double ms = (long double)v * u.ms; // exact to 64 bits
  if (!(fabsl(ms) < (long double)MAXMS * 2)) { if (e != xArgumentOutOfRange) fail("amount/range", "%s(%.17g) from %s: %s %s, expected an out-of-range error", u.n, v, shT(t), exName(e), shT(g)); return; }
  // the exact move, in ticks; a whole number of milliseconds must be exact, other amounts round to a neighbouring millisecond
  long double f = floorl(ms); bool whole = f == ms && (long double)(double)ms == ms; I128 lo, hi; 
  long double eps = fabsl(ms) * 0x1p-50L; lo = (I128)floorl(ms - 0.5L - eps) * TPMS; hi = (I128)ceill(ms + 0.5L + eps) * TPMS; if (whole) lo = hi = (I128)f * TPMS; else if (ms - f == 0.5L && (long double)(double)ms == ms) { whole = true; lo = hi = (I128)(ms > 0 ? f + 1 : f) * TPMS; } // a tie goes away from zero
  if (e == xArgumentOutOfRange) { if (t + lo >= 0 && t + hi <= LASTTICK) fail("amount/raise", "%s(%.17g) from %s raised although the result is inside the calendar", u.n, v, shT(t)); return; }
  if (e != OK_) fail("amount/raise", "%s(%.17g) from %s: %s", u.n, v, shT(t), exName(e));
  I128 r = (I128)g; long double dist = fabsl((long double)(r - t) - ms * TPMS); 
  if (g > (UInt64)LASTTICK || (whole ? r != t + lo : dist > 0.5L * TPMS + 2 * eps * TPMS)) fail("amount", "%s(%.17g) from %s gives %s", u.n, v, shT(t), shT(g));
}
SUITE(whole_amounts, 0, "whole and half amounts -500..500 and those that just reach or pass either limit, of each unit, from 17 boundary dates") { const Unit& u = units[choose(5)]; int64_t t = pick(keyDates); for (int k = -1000; k <= 1000; k++) amount(t, u, k * 0.5); double up = (double)((LASTTICK - t) / (u.ms * TPMS)), dn = (double)(t / (u.ms * TPMS)); for (int d = -3; d <= 3; d++) { amount(t, u, up + d); amount(t, u, -dn - d); amount(t, u, up + d + 0.5); amount(t, u, -dn - d - 0.5); amount(t, u, (double)MAXMS / u.ms + d); amount(t, u, -(double)MAXMS / u.ms + d); } state(mc::mix(t, u.ms)); }
SUITE(fractions, 0, "amounts n/d for d in {3, 7, 10, 24, 60, 1000, 1440, 86400, 1000000}, n -2000..2000, of each unit, from 3 dates") { const Unit& u = units[choose(5)]; int64_t t = pick({ 630822816000000000LL, 0LL, (long long)LASTTICK }); int d = pick({ 3, 7, 10, 24, 60, 1000, 1440, 86400, 1000000 }); for (int n = -2000; n <= 2000; n++) amount(t, u, (double)n / d); state(mc::mix(mc::mix(t, u.ms), d)); }
SUITE(ties, 0, "amounts of a whole number and a half milliseconds, -3000.5..3000.5 and around powers of two to 2^49, by AddMilliseconds and as exact fractions of the other units, from 17 boundary dates") { const Unit& u = units[choose(5)]; int64_t t = pick(keyDates); for (int k = -3001; k <= 3000; k++) amount(t, u, (k + 0.5) / u.ms); for (int e = 10; e < 49; e++) for (int d = -2; d <= 1; d++) for (int g = -1; g < 2; g += 2) { double v = g * (ldexp(1, e) + d + 0.5); amount(t, u, v / u.ms); amount(t, u, v / 1000); } for (int k = -64; k <= 64; k++) { amount(t, u, k / 16.0); amount(t, u, k / 2000.0); amount(t, u, k * 15.0 / 2000); } state(mc::mix(t, u.ms)); }
SUITE(odd_amounts, 0, "infinities, not-a-number, signed zeros, subnormals, extremes, powers of two and ten of each sign, each unit, from 17 boundary dates") { const Unit& u = units[choose(5)]; int64_t t = pick(keyDates); static const double odd[] = { 0.0, -0.0, INFINITY, -INFINITY, NAN, -NAN, 4.9406564584124654e-324, -4.9406564584124654e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 0.49999999999999994, -0.49999999999999994, 9223372036854775807.0, -9223372036854775808.0, 922337203685477.58, 1e18, 4294967296.0, 2147483648.0, -2147483649.0 }; for (double v : odd) amount(t, u, v); for (int e = -40; e < 70; e++) { amount(t, u, ldexp(1, e)); amount(t, u, -ldexp(1, e)); amount(t, u, ldexp(1.5, e)); } for (int e = -10; e < 25; e++) { amount(t, u, pow(10, e)); amount(t, u, -pow(10, e)); } state(mc::mix(t, u.ms)); }
// ---- histories
SUITE(histories, 0, "all sequences of 4 (thorough 6) moves from 13 (months, years, days, hours, ticks, spans in both directions) starting at 8 dates: every step exact, then undone in reverse where the moves were not clamped") {
  int64_t t = pick({ (int64_t)630822816000000000LL, (int64_t)0, LASTTICK, tk(2004, 2, 29, 12), tk(1900, 2, 28), tk(9998, 12, 31, 23, 59, 59), tk(1, 3, 31), tk(2000, 12, 31, 23, 59, 59, 999, 9999) }); DateTimeValue v = dv(t); int depth = thorough ? 6 : 4; int64_t back[6]; int nb = 0;
  for (int i = 0; i < depth; i++) {
    int op = choose(13); int64_t c = v.get_Ticks(); I128 w; UInt64 g = 0; Ex e; NOTE("from %s move %d", shT(c), op); int64_t exact = 0; bool lin = true;
    switch (op) { case 0: w = months(c, 1); lin = false; e = attempt([&] { g = v.AddMonths(1).value; }); break; case 1: w = months(c, -1); lin = false; e = attempt([&] { g = v.AddMonths(-1).value; }); break; case 2: w = years(c, 1); lin = false; e = attempt([&] { g = v.AddYears(1).value; }); break; case 3: w = years(c, -4); lin = false; e = attempt([&] { g = v.AddYears(-4).value; }); break;
    case 4: exact = TPD; w = (I128)c + exact; e = attempt([&] { g = v.AddDays(1).value; }); break; case 5: exact = -366 * TPD; w = (I128)c + exact; e = attempt([&] { g = v.AddDays(-366).value; }); break; case 6: exact = 25 * TPH; w = (I128)c + exact; e = attempt([&] { g = v.AddHours(25).value; }); break; case 7: exact = -1; w = (I128)c + exact; e = attempt([&] { g = v.AddTicks(-1).value; }); break; case 8: exact = 1; w = (I128)c + exact; e = attempt([&] { g = v.AddTicks(1).value; }); break;
    case 9: exact = -90 * TPM; w = (I128)c + exact; e = attempt([&] { g = v.Subtract(TimeSpan(1, 30, 0)).value; }); break; case 10: exact = 40000 * TPD; w = (I128)c + exact; e = attempt([&] { g = DateTimeValue::op_Addition(v.get_AsDateTime(), TimeSpan(40000, 0, 0, 0)).value; }); break; case 11: exact = -59 * TPS; w = (I128)c + exact; e = attempt([&] { g = v.AddSeconds(-59).value; }); break; default: exact = 1 * TPMS; w = (I128)c + exact; e = attempt([&] { g = v.AddMilliseconds(1).value; }); }
    step(); if (v.get_Ticks() != c) fail("history/self", "a move changed the date it was asked of");
    if (w < 0 || w > LASTTICK) { if (e != xArgumentOutOfRange) fail("history/range", "move %d from %s: %s %s", op, shT(c), exName(e), shT(g)); continue; }
    if (e != OK_ || (I128)g != w) fail("history", "move %d from %s: %s %s, expected %s", op, shT(c), exName(e), shT(g), shT((int64_t)w)); v = dv((int64_t)g); if (lin) back[nb++] = exact; else { nb = 0; t = (int64_t)g; } }
  while (nb) { UInt64 g = 0; nb--; Ex e = attempt([&] { g = v.Subtract(TimeSpan(back[nb])).value; }); if (e != OK_) fail("history/undo", "%s", exName(e)); v = dv((int64_t)g); } EXPECT(v.get_Ticks() == t, "history/undo", "undone to %s instead of %s", shT(v.get_Ticks()), shT(t)); state(t); }
SUITE(small_distances, 0, "291 dates (limits, key years' ends, powers of two) plus and minus every number of months and years -300..300 and of 129 magnitudes of either sign") { int64_t t = anyDate(choose(ANYDATES)); if (t > LASTTICK) mc::discard(); for (int k = -300; k <= 300; k++) { addMonths(t, k); addYears(t, k); } for (int k : farInts) { addMonths(t, k); addYears(t, k); } state(t); }
SUITE(small_amounts, 0, "291 dates plus and minus every whole number of each unit and of ticks, and spans of that many of each unit, -300..300 and of 129 magnitudes of either sign") { int64_t t = anyDate(choose(ANYDATES)); if (t > LASTTICK) mc::discard(); for (int i = -300; i < 301 + NFAR; i++) { int k = i <= 300 ? i : farInts[i - 301]; for (const Unit& u : units) { amount(t, u, k); if (i <= 300 && i % 7 == 0 || i > 300) move(t, k * u.ms * (I128)TPMS <= INT64_MAX && k * u.ms * (I128)TPMS >= INT64_MIN ? k * u.ms * TPMS : k); } move(t, k); } state(t); }
SUITE(twins, 0, "dates that differ in one bit of their tick count, one half, or by multiples of 2^8..2^56, moved by months, years and spans one after the other, from 111 starting dates; such spans, whole and fractional amounts of each unit added to a date") { calInit(); int i = choose(111), m = choose(4); int64_t t = i * (LASTTICK / 110) + i * 7919; if (t > LASTTICK) t = LASTTICK; NOTE("%s", shT(t));
  if (m == 0) twins(t, 0, LASTTICK, [](__int128 x) { int64_t t = (int64_t)x; addMonths(t, 13); addMonths(t, -25); addYears(t, 3); move(t, 12345678901LL); }); else if (m == 1) twins(t - LASTTICK / 2, INT64_MIN, INT64_MAX, [](__int128 x) { move(621355968000000000LL, (int64_t)x); }); else if (m == 3) { double v = (i - 55) * 1234.56789 + i / 7.0; int64_t b; memcpy(&b, &v, 8); twins(b, INT64_MIN, INT64_MAX, [](__int128 x) { int64_t b = (int64_t)x; double v; memcpy(&v, &b, 8); for (const Unit& u : units) amount(621355968000000000LL, u, v); }); } else twins(t / TPMS - LASTTICK / TPMS / 2, INT64_MIN / 1024, INT64_MAX / 1024, [](__int128 x) { for (const Unit& u : units) amount(621355968000000000LL, u, (double)(int64_t)x); }); state(mc::mix(t, m)); }
SUITE(one_field_changed, 0, "31 dates x 2 times of day against every date with one field changed (each year, each day of the year, hour, minute, second, millisecond) and 59 distances in days, hours and seconds of either sign, moved by months, years and a span alternately") {
  int i = choose(31), h = choose(2); static const int k[][3] = { { 1, 1, 31 }, { 9999, 12, 31 }, { 2000, 2, 29 }, { 1900, 3, 31 }, { 2023, 12, 31 } }; int n = i < 5 ? dayNumber(k[i][0], k[i][1], k[i][2]) : (i - 4) * 138000 + i * 131; int64_t r = h ? 12 * TPH + 34 * TPM + 56 * TPS + 789 : 9 * TPM + 59 * TPS; NOTE("day %d", n); oneField(n, r, [](int64_t t) { addMonths(t, 1); addMonths(t, -11); addYears(t, 1); addYears(t, -4); move(t, TPD); }); state(mc::mix(n, r)); }
