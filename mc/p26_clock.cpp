// P26: clock readings and local/universal conversion follow the platform time zone.
#include "cal.h"
#include <time.h>
extern "C" { extern int mc_clock_on; extern int64_t mc_clock_sec, mc_clock_nsec; }
static const char* const zones[] = { "UTC0", "EST5", "JST-9", "IST-5:30", "<+0545>-5:45", "NST3:30", "<+14>-14", "<-12>12", "<+0020>-0:20:15", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1", "IST-1GMT0,M10.5.0,M3.5.0/1", "PST8PDT,M3.2.0,M11.1.0", "<-0930>9:30", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Africa/Casablanca" };
enum { NZ = 24 };
static void zone(int z) { static char e[NZ][80]; if (!e[z][0]) sprintf(e[z], "TZ=%s", zones[z]); putenv(e[z]); tzset(); NOTE("zone %s", zones[z]); }
static const int64_t EPOCH = 621355968000000000LL;
static int64_t unixOf(int64_t t) { return t / TPS - EPOCH / TPS; }
static int64_t offAt(int64_t sec, int* dst = 0) { time_t s = sec; struct tm i; if (!localtime_r(&s, &i)) abort(); if (dst) *dst = i.tm_isdst; return i.tm_gmtoff; }
static void at(int64_t sec, int64_t nsec) { mc_clock_on = 1; mc_clock_sec = sec; mc_clock_nsec = nsec; }
// ---- readings
static const int inst[][6] = { { 2023, 12, 31, 0, 0, 0 }, { 2024, 2, 28, 0, 0, 0 }, { 2024, 3, 10, 0, 0, 0 }, { 2024, 11, 3, 0, 0, 0 }, { 2024, 3, 31, 0, 0, 0 }, { 2024, 10, 27, 0, 0, 0 }, { 2024, 4, 6, 0, 0, 0 }, { 2024, 10, 5, 0, 0, 0 }, { 1970, 1, 1, 0, 0, 0 }, { 2000, 2, 28, 0, 0, 0 }, { 2038, 1, 18, 0, 0, 0 }, { 2100, 2, 28, 0, 0, 0 }, { 2023, 6, 30, 0, 0, 0 }, { 9999, 12, 29, 0, 0, 0 } };
static void reading(int z, int64_t sec, int64_t ns) {
  at(sec, ns); int64_t u = EPOCH + sec * TPS, off = offAt(sec); UInt64 g[3] = { 0, 0, 0 }; Ex e = attempt([&] { g[0] = DateTimeValue::get_UtcNow().value; g[1] = DateTimeValue::get_Now().value; g[2] = DateTimeValue::get_Today().value; }); step(3); int64_t lo = ns / 1000000 * TPMS, hi = ns / 100;
  auto in = [&](UInt64 x, int64_t base) { return (int64_t)x >= base + lo && (int64_t)x <= base + hi; };
  if (e != OK_) fail("reading", "zone %s, clock at %s + %lld ns: %s", zones[z], shT(u), (long long)ns, exName(e));
  if (!in(g[0], u)) fail("utc", "zone %s, clock at %s + %lld ns: universal time reads %s", zones[z], shT(u), (long long)ns, shT(g[0]));
  if (!in(g[1], u + off * TPS)) fail("now", "zone %s, clock at %s + %lld ns (local offset %lld s): local time reads %s", zones[z], shT(u), (long long)ns, (long long)off, shT(g[1]));
  int64_t l = u + off * TPS; if ((int64_t)g[2] != l - l % TPD) fail("today", "zone %s, clock at %s (local offset %lld s): today is %s", zones[z], shT(u), (long long)off, shT(g[2]));
}
SUITE(readings, 0, "24 zones x 14 three-day windows (year, month, leap-day ends, daylight-saving changes, 32-bit limit, last year) x every quarter hour, with the seconds before and after and 6 sub-second parts (thorough: every minute)") {
  int z = choose(NZ), k = choose(14), h = choose(72); zone(z); int64_t s0 = unixOf(tk(inst[k][0], inst[k][1], inst[k][2])); if (k == 13 && h > 47) mc::discard(); int stepm = thorough ? 1 : 15;
  for (int m = 0; m < 60; m += stepm) { int64_t s = s0 + h * 3600 + m * 60; for (int d : { 0, -1, 1, 59 }) { if (s + d < 0) continue; reading(z, s + d, 0); } for (int64_t ns : { 1LL, 999999LL, 1000000LL, 123456789LL, 500000000LL, 999999999LL }) reading(z, s, ns); } state(mc::mix(mc::mix(z, k), h)); }
SUITE(readings_before_epoch, 0, "24 zones x clock set before 1970 and far in the future") { int z = choose(NZ); zone(z); for (int y : { 1, 2, 100, 1600, 1900, 1901, 1902, 1969, 2500, 5000, 9998 }) for (int m = 1; m <= 12; m++) for (int h = 0; h < 24; h += 5) { reading(z, unixOf(tk(y, m, y == 1 && m == 1 ? 3 : 1, h, 30)), 250000000); } state(z); }
// ---- conversion
static void local(int z, int64_t t) { // t read as universal
  int64_t off = offAt(unixOf(t)), w = t + off * TPS; for (int f = 0; f < 3; f++) { UInt64 g = 0; DateTimeValue v{ DateTime((UInt64)t) }; Ex e = attempt([&] { g = (f == 0 ? v.ToLocalTime() : v.ToLocalTime(f == 2)).value; }); step(); if (v.get_Ticks() != t) fail("to-local/self", "the date changed"); if (w < 0 || w > LASTTICK) { if (e == OK_ && (int64_t)g != (w < 0 ? 0 : LASTTICK)) fail("to-local/range", "zone %s: %s to local gives %s", zones[z], shT(t), shT(g)); if (e != OK_ && e != xArgumentOutOfRange && e != xArgument) fail("to-local/range", "%s", exName(e)); }
  else if (e != OK_ || (int64_t)g != w) fail("to-local", "zone %s (offset %lld s), clock at %lld: %s to local gives %s (%s), expected %s", zones[z], (long long)off, (long long)mc_clock_sec, shT(t), shT(g), exName(e), shT(w)); }
}
static int offsetsAround(int64_t t, int64_t* o) { int n = 0; for (int64_t d : { -27LL, -3LL, 0LL, 3LL, 27LL }) { int64_t s = unixOf(t) + d * 3600, x = offAt(s); bool dup = false; for (int i = 0; i < n; i++) dup |= o[i] == x; if (!dup) o[n++] = x; } return n; }
static void universal(int z, int64_t t) { // t read as local
  int64_t o[5], w[5]; int n = offsetsAround(t, o), k = 0; for (int i = 0; i < n; i++) { int64_t u = t - o[i] * TPS; int64_t us = unixOf(t) - o[i]; if (offAt(us) == o[i]) w[k++] = u; } bool gap = k == 0; if (gap) for (int i = 0; i < n; i++) w[k++] = t - o[i] * TPS;
  UInt64 g = 0; DateTimeValue v{ DateTime((UInt64)t) }; Ex e = attempt([&] { g = v.ToUniversalTime().value; }); step(); if (v.get_Ticks() != t) fail("to-universal/self", "the date changed"); bool out = false, hit = false; for (int i = 0; i < k; i++) { if (w[i] < 0 || w[i] > LASTTICK) out = true; hit |= (int64_t)g == w[i]; }
  if (out) { if (e == OK_ && !hit && g != 0 && g != (UInt64)LASTTICK) fail("to-universal/range", "zone %s: %s to universal gives %s", zones[z], shT(t), shT(g)); if (e != OK_ && e != xArgumentOutOfRange && e != xArgument) fail("to-universal/range", "%s", exName(e)); }
  else if (e != OK_ || !hit) fail("to-universal", "zone %s, clock at %lld: %s to universal gives %s (%s), expected %s%s%s", zones[z], (long long)mc_clock_sec, shT(t), shT(g), exName(e), shT(w[0]), k > 1 ? " or " : "", k > 1 ? shT(w[1]) : "");
  if (e == OK_ && !out && !gap) { UInt64 b = 0; Ex e2 = attempt([&] { b = DateTimeValue(DateTime(g)).ToLocalTime().value; }); step(); if (e2 != OK_ || (int64_t)b != t) fail("there-and-back", "zone %s: %s to universal and back gives %s", zones[z], shT(t), shT(b)); }
}
static void dst(int z, int64_t t) { int64_t o[5]; int n = offsetsAround(t, o); unsigned may = 0; for (int i = 0; i < n; i++) { int d = 0; int64_t us = unixOf(t) - o[i]; if (offAt(us, &d) == o[i]) may |= d > 0 ? 2 : 1; } if (!may) may = 3; bool g = false; DateTimeValue v{ DateTime((UInt64)t) }; for (int i = 0; i < 2; i++) { volatile char junk[600]; memset((char*)junk, i ? 0xFF : 1, sizeof junk); Ex e = attempt([&] { g = v.IsDaylightSavingTime(); }); step(); if (e != OK_ || !(may & (g ? 2 : 1))) fail("daylight", "zone %s: daylight saving time at %s: %d (%s)", zones[z], shT(t), g, exName(e)); } }
static int64_t now3(int k) { return k == 0 ? 1706745600LL : k == 1 ? 1720000000LL : 1710054000LL + 23 * 3600 + 3599; }
SUITE(year_of_hours, 0, "24 zones x every hour of 2024 (thorough: of 7 years 1985..2040) x 3 settings of the clock: both conversions, there and back, daylight saving") { int z = choose(NZ), m = 1 + choose(12), y = thorough ? pick({ 2024, 1985, 1999, 2007, 2023, 2037, 2040 }) : 2024; zone(z); at(now3(choose(3)), 0); for (int d = 1; d <= mdays(y, m); d++) for (int h = 0; h < 24; h++) { int64_t t = tk(y, m, d, h, (h * 7 + d) % 60, 13, 5, 7); local(z, t); universal(z, t); dst(z, t); } state(mc::mix(mc::mix(z, y), m)); }
SUITE(changes, 0, "18 rule zones x every minute (thorough: every second) of the four days a year on which one of them changes, 2 years, with the ticks around") { int z = choose(NZ), k = choose(10); static const int ds[][2] = { { 3, 10 }, { 11, 3 }, { 3, 31 }, { 10, 27 }, { 4, 7 }, { 10, 6 }, { 9, 29 }, { 3, 30 }, { 10, 26 }, { 4, 6 } }; int h = choose(24); zone(z); at(now3(0), 0); for (int m = 0; m < 60; m++) for (int s = 0; s < 60; s += thorough ? 1 : 59) { int64_t t = tk(2024, ds[k][0], ds[k][1], h, m, s); local(z, t); local(z, t + TPS - 1); universal(z, t); universal(z, t + TPS - 1); dst(z, t); } state(mc::mix(mc::mix(z, k), h)); }
SUITE(whole_calendar, 0, "24 zones x the 1st and last day of every month of the key years, and the calendar's first and last days, by the hour") { int z = choose(NZ), y = pick(keyYears); zone(z); at(now3(y % 3), 0); for (int m = 1; m <= 12; m++) for (int d : { 1, mdays(y, m) }) for (int h = 0; h < 24; h++) { int64_t t = tk(y, m, d, h, 59, 59, 999, 9999); if (y < 3 && m < 3) { local(z, t); continue; } if (y == 9999 && m == 12 && d == 31) { local(z, t); continue; } local(z, t); universal(z, t); if (y > 1970) dst(z, t); } state(mc::mix(z, y)); }
SUITE(limits, 0, "24 zones x both ends of the calendar, by the quarter hour: the result is exact, or the conversion raises or stops at the limit when it would leave the calendar") { int z = choose(NZ); bool end = choose(2); zone(z); at(now3(0), 0); for (int q = 0; q < 4 * 40; q++) { int64_t t = end ? LASTTICK - q * 15 * TPM : q * 15 * TPM; local(z, t); UInt64 g = 0; int64_t o[5]; (void)o; Ex e = attempt([&] { g = DateTimeValue(DateTime((UInt64)t)).ToUniversalTime().value; }); step(); int64_t off = offAt(unixOf(t)); int64_t w = t - off * TPS; if (e == OK_ && (int64_t)g != w && g != 0 && g != (UInt64)LASTTICK) fail("limit", "zone %s: %s to universal gives %s", zones[z], shT(t), shT(g)); if (e != OK_ && e != xArgumentOutOfRange && e != xArgument) fail("limit", "%s", exName(e)); if (e != OK_ && w >= 0 && w <= LASTTICK && (end ? q * 15 > 27 * 60 : q * 15 > 27 * 60)) fail("limit", "zone %s: %s to universal raises", zones[z], shT(t)); } state(z * 2 + end); }
// ---- around every change of the zone, in universal time
static int changesOf(int64_t from, int64_t to, int64_t* out, int max) { int n = 0; int64_t o = offAt(from); for (int64_t s = from; s < to && n < max; s += 3600) { int64_t b = offAt(s + 3600); if (b == o) continue; int64_t lo = s, hi = s + 3600; while (hi - lo > 1) { int64_t m = (lo + hi) / 2; if (offAt(m) == o) lo = m; else hi = m; } out[n++] = hi; o = b; } return n; }
SUITE(transitions, 0, "24 zones x every change of 2024 (or none: new year) x up / down x 4 mixes of conversions and readings, by the minute for 27 hours before and after, the second before and the second after: each answer is the C library's") {
  int z = choose(NZ); zone(z); int64_t a = unixOf(tk(2024, 1, 1)), c[8]; int n = changesOf(a, a + 366 * 86400, c, 8); if (!n) c[n++] = a; int64_t x = c[choose(n)]; int dir = choose(2), mix = choose(4); at(now3(0), 0); const int W = thorough ? 27 * 60 : 27 * 60;
  for (int i = -W; i <= W; i++) { int64_t m = x + (dir ? -i : i) * 60; for (int d : { 0, -1, 1 }) { int64_t s = m + (dir ? -d : d); if (d && i % 15) { if (i < -90 || i > 90) continue; } int64_t t = EPOCH + s * TPS, w = t + offAt(s) * TPS; if (mix != 1) local(z, t); if (mix == 2 && d <= 0) universal(z, w); if (mix == 1) { universal(z, w); if (i % 15 == 0) dst(z, w); } if (mix == 3) { reading(z, s, 500000000); if (d == 0) local(z, t + TPD); } } }
  state(mc::mix(mc::mix(z, (uint64_t)x), dir * 4 + mix)); }
// ---- the process moves to another zone: nothing is remembered from the one before
static void everywhere(int z, int64_t s) { int64_t t = EPOCH + s * TPS; local(z, t); universal(z, t); dst(z, t); reading(z, s, 250000000); at(now3(0), 0); }
SUITE(zone_switch, 0, "all ordered pairs of 24 zones, there and back, at 12 instants: every conversion and reading follows the zone set at the time of the call") {
  int a = choose(NZ), b = choose(NZ); if (a == b) mc::discard(); static const int when[][4] = { { 2024, 1, 15, 12 }, { 2024, 7, 15, 12 }, { 2024, 3, 31, 0 }, { 2024, 3, 31, 1 }, { 2024, 10, 27, 1 }, { 2024, 12, 31, 23 }, { 2025, 1, 1, 0 }, { 1971, 6, 1, 3 }, { 2000, 2, 29, 22 }, { 2037, 7, 1, 0 }, { 2050, 8, 8, 8 }, { 2024, 11, 3, 6 } };
  for (int r = 0; r < 2; r++) for (auto& w : when) { int64_t s = unixOf(tk(w[0], w[1], w[2], w[3])); zone(a); everywhere(a, s); zone(b); everywhere(b, s); } for (auto& w : when) { int64_t s = unixOf(tk(w[0], w[1], w[2], w[3])); zone(a); local(a, EPOCH + s * TPS); local(a, EPOCH + s * TPS); zone(b); universal(b, EPOCH + s * TPS); local(b, EPOCH + s * TPS); zone(a); universal(a, EPOCH + s * TPS); } state(a * NZ + b); }
// ---- the same instant again after another: no answer depends on the one before
SUITE(zone_pairs, 0, "24 zones x all ordered pairs of 40 instants spread over 2023..2025, a change's neighbours among them: the second answer does not depend on the first") {
  int z = choose(NZ); zone(z); int64_t base = unixOf(tk(2023, 6, 15, 5)), ins[40]; int n = 0, i = choose(40); int64_t c[8]; int k = changesOf(unixOf(tk(2024, 1, 1)), unixOf(tk(2025, 1, 1)), c, 2); for (int j = 0; j < k; j++) for (int64_t d : { -86400LL, -3601LL, -1LL, 0LL, 3599LL, 86400LL }) ins[n++] = c[j] + d; for (int j = 0; n < 40; j++) ins[n++] = base + j * 86400LL * 24 + j * 997; at(now3(0), 0);
  for (int j = 0; j < 40; j++) for (int how = 0; how < 3; how++) { int64_t t = EPOCH + ins[i] * TPS, u = EPOCH + ins[j] * TPS; if (how == 1) universal(z, t); else local(z, t); if (how == 2) universal(z, u + offAt(ins[j]) * TPS); else local(z, u); } state(z * 40 + i); }
// ---- the zone changes without a word to the C library
SUITE(zone_unannounced, 0, "all ordered pairs of 24 zones x the first call after TZ changed without tzset (time of day, today, both conversions, daylight saving): it follows the new zone") {
  int a = choose(NZ), b = choose(NZ), op = choose(5); if (a == b) mc::discard(); static const int64_t when[] = { 1705320000, 1720000000, 1711843200, 1733000000 };
  for (int64_t s : when) { at(s, 250000000); int64_t t = EPOCH + s * TPS; zone(b); int d = 0; int64_t off = offAt(s, &d), w = t + off * TPS; zone(a); (void)DateTimeValue::get_Now(); local(a, t); static char e[NZ][80]; sprintf(e[b], "TZ=%s", zones[b]); putenv(e[b]); UInt64 g = 0; bool f = false; step();
    Ex x = attempt([&] { switch (op) { case 0: g = DateTimeValue::get_Now().value; break; case 1: g = DateTimeValue::get_Today().value; break; case 2: g = DateTimeValue(DateTime((UInt64)t)).ToLocalTime().value; break; case 3: g = DateTimeValue(DateTime((UInt64)w)).ToUniversalTime().value; break; default: f = DateTimeValue(DateTime((UInt64)w)).IsDaylightSavingTime(); } });
    bool ok = x == OK_; switch (op) { case 0: ok &= (int64_t)g >= w && (int64_t)g < w + TPS; break; case 1: ok &= (int64_t)g == w - w % TPD; break; case 2: ok &= (int64_t)g == w; break; case 3: ok &= (int64_t)g == t; break; default: ok &= f == (d > 0); } if (!ok) fail("unannounced", "TZ went from %s to %s; operation %d at %lld gives %s / %d (%s)", zones[a], zones[b], op, (long long)s, shT(g), f, exName(x)); }
  state((a * NZ + b) * 5 + op); }
