// P25: date text shows the date and 12-hour time it denotes.
#include "cal.h"
static void show1(int64_t t) {
  calInit(); Day d = calDays[t / TPD]; int64_t r = t % TPD; int h = (int)(r / TPH), h12 = h > 12 ? h - 12 : h; char b[60]; sprintf(b, "%d/%d/%d %d:%02d:%02d %s", d.m, d.d, d.y, h12, (int)(r / TPM % 60), (int)(r / TPS % 60), h >= 12 ? "PM" : "AM");
  static DateTimeValue* v; DateTimeValue x{ DateTime((UInt64)t) }; v = &x; Char out[40]; for (Char& c : out) c = 0x7777; Int32 n = x.FormatString(out, 40); step(); int k = (int)strlen(b);
  bool ok = out[k] == 0; for (int i = 0; ok && i < k; i++) ok = out[i] == (wchar_t)b[i]; for (int i = k + 1; ok && i < 40; i++) ok = out[i] == 0x7777;
  if (!ok) fail("text", "%s is written %s, expected \"%s\"", shT(t), show(out, (int)(out[k] == 0 ? wcsnlen(out, 40) : k)), b); if (n != k) fail("length", "%s: length %d, expected %d", shT(t), n, k);
  if (x.get_Ticks() != t) fail("changed", "formatting changed %s", shT(t));
}
static void show2(int64_t t) { show1(t); Object* o = new DateTimeValue(DateTime((UInt64)t)); String* s = o->ToString(); Char out[40]; o->FormatString(out, 40); step(); if (!sameText(s, Txt(out))) fail("tostring", "%s: ToString gives %s", shT(t), show(s)); String* c = String::Concat(o, new String(L"")); if (!sameText(c, Txt(out))) fail("concat", "%s: concatenated as %s", shT(t), show(c)); if (o->get_AsDateTime().value != (UInt64)t) fail("changed", "formatting changed %s", shT(t)); state(s->get_Buffer()[0] + t); }
SUITE(every_second, 0, "every second of the day on 5 dates, with 4 sub-second parts") { static const int ds[][3] = { { 2003, 7, 23 }, { 1, 1, 1 }, { 9999, 12, 31 }, { 2000, 2, 29 }, { 1900, 10, 9 } }; int k = choose(5), h = choose(24), m = choose(60); for (int s = 0; s < 60; s++) { int64_t t = tk(ds[k][0], ds[k][1], ds[k][2], h, m, s); for (int64_t f : { (int64_t)0, (int64_t)1, TPS / 2, TPS - 1 }) show1(t + f); } state(k * 1440 + h * 60 + m); }
SUITE(every_day, 0, "every day of years 1..9999 at its first tick, at noon, at a varying second and at its last tick") { calInit(); int y = 1 + choose(9999); for (int n = calYear[y]; n < calYear[y + 1]; n++) { int64_t t = n * TPD; show1(t); show1(t + TPD / 2); show1(t + (n * 7919LL % 86400) * TPS); if (thorough) for (int h = 0; h < 24; h++) show1(t + h * TPH + (n * 31 % 3600) * TPS); show1(t + TPD - 1); } state(y); }
SUITE(boxed, 0, "every month of the key years at 48 half hours: text through the object interface and concatenation") { int y = pick(keyYears), m = 1 + choose(12); for (int h = 0; h < 48; h++) show2(tk(y, m, 1 + (h + m) % 28, h / 2, h % 2 * 30 + h % 7, h)); }
SUITE(twins, 0, "dates that differ in one bit of their tick count, one half, or by multiples of 2^8..2^56, written one after the other and again, from 211 starting dates") { calInit(); static const int64_t t0[] = { 0, TPMS, TPD, 126230400000000000LL, 630822816000000000LL, 631139040000000000LL, 637134336000000000LL + 12 * TPH, 632000000000000000LL, 1234567890123456789LL, 3143600928000000000LL + 5, LASTTICK }; int i = choose(211); int64_t t = i < 11 ? t0[i] : (i - 10) * (LASTTICK / 201) + i * 7919; twins(t, 0, LASTTICK, [](__int128 x) { show1((int64_t)x); }); state(t); }
SUITE(one_field_changed, 0, "31 dates x 2 times of day against every date with one field changed (each year, each day of the year, hour, minute, second, millisecond) and 59 distances in days, hours and seconds of either sign, written alternately") {
  int i = choose(31), h = choose(2); static const int k[][3] = { { 1, 1, 1 }, { 9999, 12, 31 }, { 2000, 2, 29 }, { 1900, 3, 1 }, { 2023, 12, 31 } }; int n = i < 5 ? dayNumber(k[i][0], k[i][1], k[i][2]) : (i - 4) * 138000 + i * 131; int64_t r = h ? 12 * TPH + 34 * TPM + 56 * TPS + 789 : 9 * TPM + 59 * TPS; NOTE("day %d", n); oneField(n, r, [](int64_t t) { show1(t); }); state(mc::mix(n, r)); }
