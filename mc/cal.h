// Independent calendar: the proleptic Gregorian calendar built day by day.
#pragma once
#include "values.h"
static const int64_t TPMS = 10000, TPS = 10000000, TPM = 600000000LL, TPH = 36000000000LL, TPD = 864000000000LL, LASTTICK = 3155378975999999999LL;
static const int CALDAYS = 3652059;
struct Day { int16_t y; int8_t m, d; };
static inline bool leap(int y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
static inline int mdays(int y, int m) { static const int k[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return k[m - 1] + (m == 2 && leap(y)); }
static Day* calDays; static int calYear[10002];
static inline void calInit() {
  if (calDays) return; calDays = (Day*)__builtin_malloc(sizeof(Day) * CALDAYS); int y = 1, m = 1, d = 1;
  for (int i = 0; i < CALDAYS; i++) { if (m == 1 && d == 1) calYear[y] = i; calDays[i] = Day{ (int16_t)y, (int8_t)m, (int8_t)d }; if (++d > mdays(y, m)) { d = 1; if (++m > 12) { m = 1; y++; } } }
  calYear[10000] = CALDAYS;
}
static inline int dayNumber(int y, int m, int d) { calInit(); int n = calYear[y]; for (int i = 1; i < m; i++) n += mdays(y, i); return n + d - 1; }
static inline int64_t tk(int y, int m, int d, int h = 0, int mi = 0, int s = 0, int ms = 0, int t = 0) { return dayNumber(y, m, d) * TPD + h * TPH + mi * TPM + s * TPS + ms * TPMS + t; }
// dates at and around every limit the code distinguishes
static const int keyYears[] = { 1, 2, 3, 4, 5, 8, 99, 100, 101, 104, 399, 400, 401, 404, 800, 1599, 1600, 1601, 1899, 1900, 1904, 1969, 1970, 1996, 1999, 2000, 2001, 2003, 2004, 2038, 2099, 2100, 2400, 9995, 9996, 9997, 9998, 9999 };
static inline const char* shT(int64_t t) { static char b[8][90]; static int k; char* o = b[k++ & 7]; calInit(); if (t < 0 || t > LASTTICK) sprintf(o, "tick %lld", (long long)t); else { Day d = calDays[t / TPD]; int64_t r = t % TPD; sprintf(o, "%04d-%02d-%02d %02d:%02d:%02d.%07d", d.y, d.m, d.d, (int)(r / TPH), (int)(r / TPM % 60), (int)(r / TPS % 60), (int)(r % TPS)); } return o; }
// every date reached from day n at time-of-day r by changing one field to each of its values, and by day and second distances; f(changed) and f(base) alternate
template <class F> static void oneField(int n, int64_t r, F f) {
  calInit(); Day d = calDays[n]; int64_t t = n * TPD + r; auto go = [&](int64_t x) { if (x < 0 || x > LASTTICK) return; f(x); f(t); }; f(t);
  for (int y = 1; y <= 9999; y++) go(tk(y, d.m, d.d <= mdays(y, d.m) ? d.d : mdays(y, d.m)) + r); for (int m = 1; m <= 12; m++) for (int k = 1; k <= mdays(d.y, m); k++) go(tk(d.y, m, k) + r);
  for (int h = 0; h < 24; h++) go(n * TPD + h * TPH + r % TPH); for (int m = 0; m < 60; m++) { go(t - r % TPH + r % TPM + m * TPM); go(t - r % TPM + r % TPS + m * TPS); } for (int m = 0; m < 1000; m++) go(t - r % TPS + r % TPMS + m * TPMS); for (int m = 0; m < 10000; m += m < 20 ? 1 : 37) go(t - r % TPMS + m);
  static const int dist[] = { 7, 28, 29, 30, 31, 59, 60, 365, 366, 730, 1460, 1461, 10227, 36524, 36525, 109572, 146096, 146097, 292194, 719162, 10, 100, 1000, 10000, 100000, 1000000, 97, 101, 997, 1009, 1021, 4093, 65521, 131071 }; for (int g = -1; g < 2; g += 2) { for (int k : dist) { go(t + g * k * TPD); go(t + g * k * TPH); go(t + g * k * TPS); } for (int k = 0; k < 36; k++) { if (k < 22) go(t + g * (TPD << k)); if (k < 27) go(t + g * (TPH << k)); go(t + g * (TPS << k)); } }
}
