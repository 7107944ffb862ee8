// P23: dates decompose and compose without loss over the whole calendar.
#include "cal.h"
static void read(int64_t t, Day d, int doy) { // every component of the instant t, which lies on day d
  DateTimeValue v{ DateTime((UInt64)t) }; int64_t r = t % TPD; step(); int y = 0, m = 0, dd = 0; v.GetDatePart(y, m, dd);
  bool ok = v.get_Year() == d.y && v.get_Month() == d.m && v.get_Day() == d.d && v.get_DayOfYear() == doy && (int)v.get_DayOfWeek() == (int)((t / TPD + 1) % 7) && v.get_Hour() == r / TPH && v.get_Minute() == r / TPM % 60 && v.get_Second() == r / TPS % 60 && v.get_Millisecond() == r / TPMS % 1000
    && (int64_t)v.get_Date().value == t - r && v.get_TimeOfDay().value == r && v.get_Ticks() == t && (int64_t)v.get_AsDateTime().value == t && y == d.y && m == d.m && dd == d.d && v.GetDatePart(DatePartYear) == d.y && v.GetDatePart(DatePartDayOfYear) == doy && v.GetDatePart(DatePartMonth) == d.m && v.GetDatePart(DatePartDay) == d.d;
  if (!ok) fail("decompose", "%s (tick %lld): read as %d-%d-%d (%d-%d-%d) %d:%d:%d.%d, day of year %d (expected %d), day of week %d (expected %d), date %s, time of day %lld", shT(t), (long long)t, v.get_Year(), v.get_Month(), v.get_Day(), y, m, dd, v.get_Hour(), v.get_Minute(), v.get_Second(), v.get_Millisecond(), v.get_DayOfYear(), doy, (int)v.get_DayOfWeek(), (int)((t / TPD + 1) % 7), shT(v.get_Date().value), (long long)v.get_TimeOfDay().value);
}
SUITE(every_day, 0, "every day of years 1..9999: composed from its parts, decomposed at its first and last tick and at noon, day and year queries") {
  calInit(); int y = 1 + choose(9999); int n = calYear[y];
  if ((bool)DateTimeValue::IsLeapYear(y) != leap(y)) fail("leap", "IsLeapYear(%d) = %d", y, (int)DateTimeValue::IsLeapYear(y));
  for (int m = 1, doy = 1; m <= 12; m++) { if (DateTimeValue::DaysInMonth(y, m) != mdays(y, m)) fail("days-in-month", "DaysInMonth(%d, %d) = %d", y, m, DateTimeValue::DaysInMonth(y, m)); for (int d = 1; d <= mdays(y, m); d++, n++, doy++) { Day k = calDays[n]; if (k.y != y || k.m != m || k.d != d) abort(); int64_t t = n * TPD; step(2); if ((int64_t)DateTime(y, m, d).value != t) fail("compose", "%d-%d-%d composes to %s", y, m, d, shT(DateTime(y, m, d).value)); DateTime e(y, m, d, 23, 59, 59, 999); if ((int64_t)e.value != t + TPD - TPMS) fail("compose", "%d-%d-%d 23:59:59.999 composes to %s", y, m, d, shT(e.value)); read(t, k, doy); read(t + TPD - 1, k, doy); read(t + TPD / 2, k, doy); } }
  state(y); }
static int doyOf(Day d) { int n = d.d; for (int i = 1; i < d.m; i++) n += mdays(d.y, i); return n; }
SUITE(every_second, 0, "every second of the day on 4 dates, composed with 5 millisecond values (thorough: every millisecond) and read at the ticks around it") {
  static const int ds[][3] = { { 2004, 2, 29 }, { 1, 1, 1 }, { 9999, 12, 31 }, { 1900, 3, 1 } }; int k = choose(4), h = choose(24), mi = choose(60); Day d = { (int16_t)ds[k][0], (int8_t)ds[k][1], (int8_t)ds[k][2] }; int doy = doyOf(d);
  for (int s = 0; s < 60; s++) { auto one = [&](int ms) { int64_t t = tk(d.y, d.m, d.d, h, mi, s, ms); DateTime v(d.y, d.m, d.d, h, mi, s, ms); step(); if ((int64_t)v.value != t) fail("compose-time", "%d:%d:%d.%d composes to %s", h, mi, s, ms, shT(v.value)); read(t, d, doy); }; if (thorough) for (int ms = 0; ms < 1000; ms++) one(ms); else for (int ms : { 0, 1, 499, 500, 999 }) one(ms); int64_t t = tk(d.y, d.m, d.d, h, mi, s); read(t + 1, d, doy); read(t + TPS - 1, d, doy); read(t + TPMS - 1, d, doy); read(t + TPMS + 1, d, doy); if (s || mi || h) read(t - 1, d, doy); }
  state((k * 24 + h) * 60 + mi); }
static const int off[] = { 0, 1, -1, 2, INT32_MIN, INT32_MAX };
SUITE(components, 0, "all combinations of years {1, 4, 1900, 2000, 2023, 9999} and 6 beyond, months -1..14 and extremes, days -1..33 and extremes, with in-range and out-of-range hours, minutes, seconds, milliseconds: out-of-range raises") {
  static const int ys[] = { 2000, 1, 4, 1900, 2023, 9999, 0, -1, 10000, -2000, INT32_MIN, INT32_MAX }; int y = pick(ys); int m = choose(18); m = m < 16 ? m - 1 : m == 16 ? INT32_MIN : INT32_MAX; int d = choose(37); d = d < 35 ? d - 1 : d == 35 ? INT32_MIN : INT32_MAX;
  bool ok = y >= 1 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m); static const int tp[][4] = { { 0, 0, 0, 0 }, { 23, 59, 59, 999 }, { 24, 0, 0, 0 }, { -1, 0, 0, 0 }, { 0, 60, 0, 0 }, { 0, -1, 0, 0 }, { 0, 0, 60, 0 }, { 0, 0, -1, 0 }, { 0, 0, 0, 1000 }, { 0, 0, 0, -1 }, { 12, 30, 30, 500 } };
  for (auto& t : tp) { bool tok = t[0] >= 0 && t[0] < 24 && t[1] >= 0 && t[1] < 60 && t[2] >= 0 && t[2] < 60 && t[3] >= 0 && t[3] < 1000; UInt64 v = 0; Ex e = attempt([&] { v = DateTime(y, m, d, t[0], t[1], t[2], t[3]).value; }); step(); if (ok && tok) { if (e != OK_ || (int64_t)v != tk(y, m, d, t[0], t[1], t[2], t[3])) fail("compose", "%d-%d-%d %d:%d:%d.%d: %s %s", y, m, d, t[0], t[1], t[2], t[3], exName(e), shT(v)); } else if (e != xArgumentOutOfRange) fail("range", "%d-%d-%d %d:%d:%d.%d: %s (%s), expected ArgumentOutOfRange", y, m, d, t[0], t[1], t[2], t[3], exName(e), shT(v)); }
  { UInt64 v = 0; Ex e = attempt([&] { v = DateTime(y, m, d).value; }); step(); if (ok ? e != OK_ || (int64_t)v != tk(y, m, d) : e != xArgumentOutOfRange) fail("range", "%d-%d-%d: %s %s", y, m, d, exName(e), shT(v)); } state(mc::mix(mc::mix(y, m), d)); }
SUITE(time_components, 0, "all combinations of hour, minute, second, millisecond from {0, mid, last, first beyond, -1, extremes} on 2 dates") { int h = pick({ 0, 11, 12, 23, 24, 25, -1, -24, INT32_MIN, INT32_MAX }), mi = pick({ 0, 30, 59, 60, 61, -1, -60, INT32_MIN, INT32_MAX }), s = pick({ 0, 30, 59, 60, 61, -1, -60, 3600, INT32_MIN, INT32_MAX }), ms = pick({ 0, 500, 999, 1000, 1001, -1, -1000, INT32_MIN, INT32_MAX }); int y = pick({ 2000, 1, 9999 }); bool ok = h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s < 60 && ms >= 0 && ms < 1000; UInt64 v = 0; int mo = y == 1 ? 1 : 12, dd = y == 1 ? 1 : 31; NOTE("%d-%d-%d %d:%d:%d.%d", y, mo, dd, h, mi, s, ms); Ex e = attempt([&] { v = DateTime(y, mo, dd, h, mi, s, ms).value; }); expectEx(e, ok ? EXBIT(OK_) : EXBIT(xArgumentOutOfRange), "time-range", "DateTime"); if (ok && (int64_t)v != tk(y, mo, dd, h, mi, s, ms)) fail("compose-time", "%s", shT(v)); state(v); }
SUITE(month_queries, 0, "DaysInMonth and IsLeapYear over years -2..10002 and extremes x months -2..15 and extremes") { int y = choose(10007); y = y < 10005 ? y - 2 : y == 10005 ? INT32_MIN : INT32_MAX; bool yok = y >= 1 && y <= 9999; for (int k = 0; k < 20; k++) { int m = k < 18 ? k - 2 : k == 18 ? INT32_MIN : INT32_MAX; int v = 0; Ex e = attempt([&] { v = DateTimeValue::DaysInMonth(y, m); }); step(); if (yok && m >= 1 && m <= 12 ? e != OK_ || v != mdays(y, m) : e != xArgumentOutOfRange) fail("days-in-month", "DaysInMonth(%d, %d): %s %d", y, m, exName(e), v); } bool l = false; Ex e = attempt([&] { l = DateTimeValue::IsLeapYear(y); }); step(); if (yok ? e != OK_ || l != leap(y) : e != xArgumentOutOfRange) fail("leap", "IsLeapYear(%d): %s %d", y, exName(e), l); state(y); }
SUITE(tick_limits, 0, "dates from tick counts at and beyond both limits, powers of two and negative readings") { UInt64 base[] = { 0, (UInt64)LASTTICK, 1ULL << 31, 1ULL << 32, 1ULL << 53, 1ULL << 61, 1ULL << 62, 1ULL << 63, ~0ULL, (UInt64)LASTTICK * 2, (UInt64)TPD, 0x8000000000000000ULL + LASTTICK }; UInt64 t = pick(base) + (UInt64)(Int64)(choose(41) - 20); UInt64 v = 7; NOTE("ticks %llu", (unsigned long long)t); Ex e = attempt([&] { v = DateTime(t).value; }); expectEx(e, t <= (UInt64)LASTTICK ? EXBIT(OK_) : EXBIT(xArgumentOutOfRange), "ticks", "DateTime(ticks)"); if (e == OK_ && v != t) fail("ticks", "%llu became %llu", (unsigned long long)t, (unsigned long long)v); if (e == OK_) { calInit(); read(t, calDays[t / TPD], doyOf(calDays[t / TPD])); } EXPECT(DateTimeValue::MinValue.value == 0 && DateTimeValue::MaxValue.value == (UInt64)LASTTICK, "limits", "MaxValue %s", shT(DateTimeValue::MaxValue.value)); EXPECT(DateTime().value == 0 && DateTimeValue().get_Ticks() == 0, "default", "default date"); DateTime c(DateTimeValue::MaxValue); EXPECT(c.value == (UInt64)LASTTICK, "copy", "copied date"); state(t); }
SUITE(boxed_dates, 0, "a date in a box (as object) keeps its ticks through the accessor, over boundary dates") { int y = pick(keyYears); int64_t t = tk(y, 1 + choose(12), 1, choose(24), 59, 59, 999, 9999); Object* o = new DateTimeValue(DateTime((UInt64)t)); EXPECT((int64_t)o->get_AsDateTime().value == t && o->GetRawDataType() == DateTimeType, "boxed", "%s", shT(t)); EXPECT(o->Equals(new DateTimeValue(DateTime((UInt64)t))) && !o->Equals(new DateTimeValue(DateTime((UInt64)(t - 1)))), "boxed", "equality of %s", shT(t)); state(t); }
SUITE(every_hour, 0, "every 7th hour (thorough: every hour) of the whole calendar, read at the tick before, at it and at its first minute's last tick") { calInit(); int y = 1 + choose(9999); for (int n = calYear[y], doy = 1; n < calYear[y + 1]; n++, doy++) for (int h = thorough ? 0 : n % 7; h < 24; h += thorough ? 1 : 7) { int64_t t = n * TPD + h * TPH; read(t, calDays[n], doy); if (h) read(t - 1, calDays[n], doy); read(t + TPM - 1, calDays[n], doy); } state(y); }
SUITE(every_minute, 1, "every minute of the whole calendar, read at its first tick") { calInit(); int y = 1 + choose(9999); for (int n = calYear[y], doy = 1; n < calYear[y + 1]; n++, doy++) for (int m = 0; m < 1440; m++) read(n * TPD + m * TPM, calDays[n], doy); state(y); }
SUITE(far_args, 0, "composing dates with one or two of the seven fields of 129 magnitudes of either sign, the others valid, from 3 valid dates; month and year queries with such arguments") {
  int f = choose(7), g2 = choose(7), x = farInts[choose(NFAR)], k = choose(3); static const int ok[3][7] = { { 2004, 2, 29, 23, 59, 59, 999 }, { 1, 1, 1, 0, 0, 0, 0 }, { 9999, 12, 31, 12, 30, 30, 500 } }; NOTE("field %d is %d, date %d, other field %d", f, x, k, g2);
  for (int q = 0; q < (g2 == f ? 1 : NFAR); q++) { int c[7]; for (int i = 0; i < 7; i++) c[i] = ok[k][i]; c[f] = x; if (g2 != f) c[g2] = farInts[q]; bool dok = c[0] >= 1 && c[0] <= 9999 && c[1] >= 1 && c[1] <= 12 && c[2] >= 1 && c[2] <= mdays(c[0], c[1]), in = dok && c[3] >= 0 && c[3] < 24 && c[4] >= 0 && c[4] < 60 && c[5] >= 0 && c[5] < 60 && c[6] >= 0 && c[6] < 1000; UInt64 v = 0; Ex e = attempt([&] { v = DateTime(c[0], c[1], c[2], c[3], c[4], c[5], c[6]).value; }); step(); if (in ? e != OK_ || (int64_t)v != tk(c[0], c[1], c[2], c[3], c[4], c[5], c[6]) : e != xArgumentOutOfRange) fail("range", "%d-%d-%d %d:%d:%d.%d: %s (%s)", c[0], c[1], c[2], c[3], c[4], c[5], c[6], exName(e), shT(v));
    if (f < 3 && g2 < 3) { e = attempt([&] { v = DateTime(c[0], c[1], c[2]).value; }); step(); if (dok ? e != OK_ || (int64_t)v != tk(c[0], c[1], c[2]) : e != xArgumentOutOfRange) fail("range", "%d-%d-%d: %s (%s)", c[0], c[1], c[2], exName(e), shT(v)); } if (f == 0 && g2 == 1) { int r = 0; bool mok = c[0] >= 1 && c[0] <= 9999 && c[1] >= 1 && c[1] <= 12; e = attempt([&] { r = DateTimeValue::DaysInMonth(c[0], c[1]); }); step(); if (mok ? e != OK_ || r != mdays(c[0], c[1]) : e != xArgumentOutOfRange) fail("days-in-month", "DaysInMonth(%d, %d): %s %d", c[0], c[1], exName(e), r); } }
  if (f == 0) { bool l = false; Ex e = attempt([&] { l = DateTimeValue::IsLeapYear(x); }); step(); bool yok = x >= 1 && x <= 9999; if (yok ? e != OK_ || l != leap(x) : e != xArgumentOutOfRange) fail("leap", "IsLeapYear(%d): %s %d", x, exName(e), l); } state(mc::mix(mc::mix(f * 7 + g2, k), (uint64_t)(uint32_t)x)); }
SUITE(twins, 0, "dates that differ in one bit of their tick count, one half, or by multiples of 2^8..2^56, read one after the other and again, from 211 starting dates") { calInit(); static const int64_t t0[] = { 0, TPMS, TPD, 126230400000000000LL, 630822816000000000LL, 631139040000000000LL, 637134336000000000LL + 12 * TPH, 632000000000000000LL, 1234567890123456789LL, 3143600928000000000LL + 5, LASTTICK }; int i = choose(211); int64_t t = i < 11 ? t0[i] : (i - 10) * (LASTTICK / 201) + i * 7919; twins(t, 0, LASTTICK, [](__int128 x) { int64_t t = (int64_t)x; Day d = calDays[t / TPD]; read(t, d, (int)(t / TPD) - calYear[d.y] + 1); }); state(t); }
static const int baseN = 61; static int baseDay(int i) { static const int k[][3] = { { 1, 1, 1 }, { 9999, 12, 31 }, { 2000, 2, 29 }, { 1900, 2, 28 }, { 1900, 3, 1 }, { 2023, 12, 31 }, { 2024, 1, 1 }, { 4, 2, 29 }, { 400, 12, 31 }, { 401, 1, 1 } }; return i < 10 ? dayNumber(k[i][0], k[i][1], k[i][2]) : (int)((i - 9) * 71000LL + i * 131); }
SUITE(one_field_changed, 0, "61 dates x 3 times of day against every date with one field changed (each year, each day of the year, hour, minute, second, millisecond) and 59 distances in days, hours and seconds of either sign, read and composed alternately") {
  calInit(); int n = baseDay(choose(baseN)); static const int64_t rs[] = { 0, 12 * TPH + 34 * TPM + 56 * TPS + 789 * TPMS + 1234, TPD - 1 }; int64_t r = pick(rs); NOTE("day %d, time %lld", n, (long long)r);
  oneField(n, r, [](int64_t t) { Day d = calDays[t / TPD]; int64_t r = t % TPD; read(t, d, (int)(t / TPD) - calYear[d.y] + 1); UInt64 v = DateTime(d.y, d.m, d.d, (int)(r / TPH), (int)(r / TPM % 60), (int)(r / TPS % 60), (int)(r / TPMS % 1000)).value; step(); if ((int64_t)v != t - t % TPMS) fail("compose", "%s composes to %s", shT(t), shT(v)); if ((int64_t)DateTime(d.y, d.m, d.d).value != t - r) fail("compose", "%s composes to %s", shT(t - r), shT(DateTime(d.y, d.m, d.d).value)); if (DateTimeValue::DaysInMonth(d.y, d.m) != mdays(d.y, d.m) || (bool)DateTimeValue::IsLeapYear(d.y) != leap(d.y)) fail("days-in-month", "month %d of year %d", d.m, d.y); }); state(mc::mix(n, r)); }
SUITE(year_pairs, 0, "all ordered pairs of years asked one after the other for the days of February and a leap day (thorough: and composing the first of March)") { calInit(); int a = 1 + choose(9999); for (int b = 1; b <= 9999; b++) { int x = DateTimeValue::DaysInMonth(a, 2), y = DateTimeValue::DaysInMonth(b, 2); if (x != mdays(a, 2) || y != mdays(b, 2)) fail("days-in-month", "February of %d then %d: %d and %d", a, b, x, y); bool l = DateTimeValue::IsLeapYear(b), k = DateTimeValue::IsLeapYear(a); if (l != leap(b) || k != leap(a)) fail("leap", "IsLeapYear of %d then %d: %d and %d", b, a, l, k); if (thorough) { UInt64 v = DateTime(a, 3, 1).value, w = DateTime(b, 3, 1).value; if ((int64_t)v != (calYear[a] + 59 + leap(a)) * TPD || (int64_t)w != (calYear[b] + 59 + leap(b)) * TPD) fail("compose", "the first of March of %d then %d", a, b); } } step(4 * 9999); state(a); }
