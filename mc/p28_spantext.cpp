// P28: time-span text round-trips and malformed text is rejected.
#include "cal.h"
static const I128 LO = INT64_MIN, HI = INT64_MAX;
static const char* sh(I128 x) { return showV(V{ Int64Type, x, 0 }); }
// the text of a span, from the definition
static Txt spanText(int64_t t) {
  I128 a = t < 0 ? -(I128)t : (I128)t; char b[60]; int64_t d = (int64_t)(a / TPD), r = (int64_t)(a % TPD); char* p = b; if (t < 0) *p++ = '-'; if (d) p += sprintf(p, "%lld.", (long long)d);
  p += sprintf(p, "%02d:%02d:%02d", (int)(r / TPH), (int)(r / TPM % 60), (int)(r / TPS % 60)); if (r % TPS) p += sprintf(p, ".%07d", (int)(r % TPS)); return lit(b);
}
// what parsing a text must do: 0 reject, 1 accept with value, 2 reject or accept with value
static int model(const Txt& t, I128& v) {
  int i = 0, e = t.n; auto ws = [](wchar_t c) { return c == ' ' || (c >= 9 && c <= 13); }; while (i < e && ws(t.c[i])) i++; while (e > i && ws(t.c[e - 1])) e--;
  bool neg = i < e && t.c[i] == '-'; if (neg) i++; if (i == e) return 0;
  I128 f[8]; int len[8]; char sep[9]; int n = 0; bool odd = false;
  for (;;) { I128 x = 0; int k = 0; while (i < e && t.c[i] >= '0' && t.c[i] <= '9') { if (x < (I128)1 << 100) x = x * 10 + (t.c[i] - '0'); i++; k++; } if (n == 8) return 0; f[n] = x; len[n] = k; sep[n++] = i < e ? (char)t.c[i] : 0; if (i == e) break; if (t.c[i] != ':' && t.c[i] != '.') return 0; i++; }
  // shapes: which field means what
  char sh[20]; for (int k = 0; k < n; k++) sh[k] = sep[k] ? sep[k] : '$'; sh[n] = 0;
  int d = -1, h = -1, m = -1, s = -1, fr = -1;
  if (!strcmp(sh, "$")) d = 0; else if (!strcmp(sh, ":$")) h = 0, m = 1; else if (!strcmp(sh, "::$")) h = 0, m = 1, s = 2; else if (!strcmp(sh, "::.$")) h = 0, m = 1, s = 2, fr = 3;
  else if (!strcmp(sh, ".:$")) d = 0, h = 1, m = 2; else if (!strcmp(sh, ".::$") || !strcmp(sh, ":::$")) d = 0, h = 1, m = 2, s = 3; else if (!strcmp(sh, ".::.$") || !strcmp(sh, ":::.$")) d = 0, h = 1, m = 2, s = 3, fr = 4;
  else return 0;
  for (int k = 0; k < n; k++) if (!len[k]) { if (k == s && fr >= 0 && len[fr] && d < 0) odd = true; else return 0; } // hh:mm:.f is a legacy form
  if (d >= 0 && f[d] > 10675199) return 0; if (h >= 0 && f[h] > 23) return 0; if (m >= 0 && f[m] > 59) return 0; if (s >= 0 && f[s] > 59) return 0;
  for (int k : { h, m, s }) if (k >= 0 && len[k] > 2) odd = true; if (d >= 0 && len[d] > 8) odd = true; if (fr >= 0 && len[fr] > 7) return 0;
  I128 r = 0; if (d >= 0) r += f[d] * TPD; if (h >= 0) r += f[h] * TPH; if (m >= 0) r += f[m] * TPM; if (s >= 0) r += f[s] * TPS; if (fr >= 0) { I128 x = f[fr]; for (int k = len[fr]; k < 7; k++) x *= 10; r += x; }
  if (neg) r = -r; if (r < LO || r > HI) return 0; v = r; return odd ? 2 : 1;
}
static void parse(const Txt& t) {
  String* s = mk(t); TimeSpan r((Int64)77); bool ok = false; Ex e = attempt([&] { ok = TimeSpanValue::TryParse(s, r); }); Int64 g = 77; Ex e2 = attempt([&] { g = TimeSpanValue::Parse(s).value; }); step(2); I128 v = 0; int m = model(t, v);
  if (e != OK_) fail("tryparse/raise", "TryParse %s raised %s", show(t), exName(e)); if (e2 != OK_ && e2 != xFormat && e2 != xOverflow) fail("parse/kind", "Parse %s raised %s", show(t), exName(e2)); if (ok != (e2 == OK_)) fail("agree", "TryParse of %s says %d, Parse: %s", show(t), ok, exName(e2));
  if (!ok && r.value != 0) fail("tryparse/zero", "TryParse of %s failed with result %s", show(t), sh(r.value)); if (ok && r.value != g) fail("agree", "TryParse of %s gives %s, Parse %s", show(t), sh(r.value), sh(g));
  if (m == 0 && ok) fail("accepted", "%s was accepted as %s", show(t), sh(r.value)); if (m == 1 && !ok) fail("rejected", "%s was rejected, expected %s", show(t), sh(v)); if ((m == 1 || (m == 2 && ok)) && r.value != (Int64)v) fail("value", "%s was read as %s, expected %s", show(t), sh(r.value), sh(v));
  if (!sameText(s, t)) fail("changed", "parsing changed the text %s", show(t));
}
static void format(int64_t t) {
  Txt w = spanText(t); TimeSpanValue v{ TimeSpan((Int64)t) }; Char out[48]; for (Char& c : out) c = 0x7777; Int32 n = v.FormatString(out, 48); step(); bool ok = n == w.n && out[w.n] == 0; for (int i = 0; ok && i < w.n; i++) ok = out[i] == w.c[i]; for (int i = w.n + 1; ok && i < 48; i++) ok = out[i] == 0x7777;
  if (!ok) fail("text", "%s is written %s (%d), expected %s", sh(t), show(out, 40), n, show(w)); if (v.get_Ticks() != t) fail("changed", "formatting changed %s", sh(t));
  TimeSpan r((Int64)77); String s(out); bool p = TimeSpanValue::TryParse(&s, r); step(); if (!p || r.value != t) fail("roundtrip", "%s written %s is read back as %d %s", sh(t), show(w), p, sh(r.value));
}
static void formatObject(int64_t t) { format(t); Object* o = new TimeSpanValue(TimeSpan((Int64)t)); String* s = o->ToString(); step(3); Txt w = spanText(t); if (!sameText(s, w)) fail("tostring", "%s: ToString gives %s", sh(t), show(s)); String* c = String::Concat(o, new String(L"")); if (!sameText(c, w)) fail("concat", "%s concatenated as %s", sh(t), show(c)); Int64 g = 0; Ex e = attempt([&] { g = TimeSpanValue::Parse(s).value; }); if (e != OK_ || g != t) fail("roundtrip", "%s: Parse of its text: %s %s", sh(t), exName(e), sh(g)); parse(w); if (o->get_AsTimeSpan().value != t) fail("changed", "formatting changed %s", sh(t)); }
// ---- formatting
static const int64_t dsv[] = { 0, 1, 9, 10, 99, 100, 999, 1000, 99999, 100000, 9999999, 10000000, 10675198, 10675199 };
SUITE(text_seconds, 0, "every second of a day x 5 sub-second parts, both signs") { int h = choose(24), m = choose(60); for (int s = 0; s < 60; s++) for (int64_t f : { (int64_t)0, (int64_t)1, TPS / 2, TPS - 1, TPMS }) { int64_t t = h * TPH + m * TPM + s * TPS + f; format(t); format(-t); } state(h * 60 + m); }
SUITE(text_fields, 0, "14 day counts x key hours, minutes, seconds x 24 fractions, both signs, through the object interface, concatenation and parsing back") { static const int hs[] = { 0, 1, 9, 10, 12, 23 }, ms[] = { 0, 1, 9, 10, 59 }; static const int fr[] = { 0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 99999, 100000, 999999, 1000000, 1000001, 1234567, 5000000, 9999990, 9999999 }; int64_t d = pick(dsv); int h = pick(hs), m = pick(ms); for (int s : ms) for (int f : fr) { I128 t = (I128)d * TPD + h * TPH + m * TPM + s * TPS + f; if (t > HI) continue; formatObject((int64_t)t); formatObject(-(int64_t)t); } state(mc::mix(d, h * 60 + m)); }
SUITE(text_fractions, 0, "every fraction of 1..9999 ticks, of n*1000 and of n*1000+-1 ticks, both signs") { int c = choose(100); for (int i = c * 100; i < c * 100 + 100; i++) for (int64_t t : { (int64_t)i, (int64_t)i * 1000, (int64_t)i * 1000 + 1, (int64_t)i * 1000 - 1, (int64_t)(TPD + i), (int64_t)(TPD * 10 - i) }) { format(t); format(-t); } state(c); }
SUITE(text_days, 0, "every day count 0..20000 and around every power of ten (thorough: every day count up to the limit), first and last tick, both signs") { int64_t lim = thorough ? 10675200 : 20000, step_ = thorough ? 4000 : 200; int64_t c = choose((int)((lim + step_ - 1) / step_)); for (int64_t d = c * step_; d < (c + 1) * step_ && d < lim; d++) for (I128 t : { (I128)d * TPD, (I128)d * TPD + TPD - 1, (I128)d * TPD + TPH * 2 + 48 * TPM }) { if (t > HI) continue; format((int64_t)t); format(-(int64_t)t); } if (c == 0) for (int64_t p = 10; p < 100000000; p *= 10) for (int k = -3; k <= 3; k++) if (p + k <= 10675199) { format((p + k) * TPD); format(-(p + k) * TPD); } state((uint64_t)c); }
SUITE(text_extremes, 0, "minimum, maximum and 2000 tick counts nearest to each, powers of two and ten") { int c = choose(3); if (c < 2) for (int i = 0; i < 2000; i++) formatObject(c ? INT64_MIN + i : INT64_MAX - i); else { for (int i = 0; i < 63; i++) for (int k = -1; k <= 1; k++) { formatObject((1LL << i) + k); formatObject(-(1LL << i) + k); } int64_t p = 1; for (int i = 0; i < 18; i++, p *= 10) for (int k = -1; k <= 1; k++) { formatObject(p + k); formatObject(-p + k); } } state(c); }
// ---- parsing
SUITE(short_texts, 0, "all texts of length 0..5 (thorough 7) over 0 1 6 9 : . - blank + x") { Txt t = chooseText(L"0169:.- +x", 0, thorough ? 3 : 2); int rest = thorough ? 4 : 3; const wchar_t* A = L"0169:.- +x"; if (t.n < (thorough ? 3 : 2)) { parse(t); state(t.hash()); return; } int N = 1; for (int k = 0; k <= rest; k++, N *= 10) for (int i = 0; i < N; i++) { Txt u = t; int x = i; for (int j = 0; j < k; j++, x /= 10) u.add(A[x % 10]); parse(u); } state(t.hash()); }
SUITE(shapes, 0, "all texts of 1..5 fields from {empty, 0, 1, 07, 23, 24, 59, 60, 100, 10675199, 10675200} joined by all separators { : . } with optional minus") {
  static const char* F[] = { "", "0", "1", "07", "23", "24", "59", "60", "100", "10675199", "10675200" }; int n = 1 + choose(5), neg = choose(2); if (!thorough && n == 5) { } Txt t; if (neg) t.add('-'); int a = choose(11); t.addA(F[a]); if (n == 1) { parse(t); state(t.hash()); return; } t.add(choose(2) ? '.' : ':'); t.addA(F[choose(11)]);
  if (n == 2) { parse(t); state(t.hash()); return; } t.add(choose(2) ? '.' : ':'); for (int c = 0; c < 11; c++) { Txt u = t; u.addA(F[c]); if (n == 3) { parse(u); continue; } for (int q = 0; q < 2; q++) for (int d = 0; d < 11; d++) { Txt w = u; w.add(q ? '.' : ':'); w.addA(F[d]); if (n == 4) { parse(w); continue; } for (int r = 0; r < 2; r++) for (int e = 0; e < 11; e++) { Txt y = w; y.add(r ? '.' : ':'); y.addA(F[e]); parse(y); } } } state(t.hash()); }
SUITE(numbers, 0, "every pair of two-digit hours and minutes 00..99 with every two-digit seconds, without and with days") { int h = choose(100), m = choose(100); char b[60]; sprintf(b, "%02d:%02d", h, m); parse(lit(b)); sprintf(b, "%d:%d", h, m); parse(lit(b)); sprintf(b, "-3.%02d:%02d", h, m); parse(lit(b)); for (int s = 0; s < 100; s++) { sprintf(b, "%02d:%02d:%02d", h, m, s); parse(lit(b)); if (thorough || h % 12 == 11 || m % 30 == 29 || s % 30 == 29) { sprintf(b, "-%d:%d:%d", h, m, s); parse(lit(b)); sprintf(b, "7.%02d:%02d:%02d.5", h, m, s); parse(lit(b)); sprintf(b, "7:%d:%d:%d.0000001", h, m, s); parse(lit(b)); } } state(h * 100 + m); }
SUITE(fractions, 0, "fractions of 1..7 digits: every number up to 3 digits, and 0/1/9 patterns beyond, over 4 prefixes; 8 and 9 digits are rejected") { static const char* pre[] = { "0:0:0.", "-1.02:03:04.", "23:59:59.", "10675199.02:48:05." }; Txt t = lit(pre[choose(4)]); int n = 1 + choose(9); if (n <= 3) { int N = 1; for (int k = 0; k < n; k++) N *= 10; for (int i = 0; i < N; i++) { char b[10]; sprintf(b, "%0*d", n, i); Txt u = t; u.addA(b); parse(u); } state(mc::mix(t.hash(), n)); return; } for (int k = 0, N = 1; k < n; k++, N *= 3) if (k == n - 1) for (int i = 0; i < N * 3; i++) { Txt u = t; int x = i; for (int j = 0; j < n; j++, x /= 3) u.add(L"019"[x % 3]); parse(u); } state(mc::mix(t.hash(), n)); }
SUITE(days, 0, "day counts around every power of two and ten up to 2^200, alone, with clock and with sign") { int k = choose(60); char b[160]; for (int d = -3; d <= 3; d++) for (int q = 0; q < 4; q++) { I128 x; char num[90]; if (k < 40) { x = ((I128)1 << (k * 3)) + d; } else { x = 1; for (int i = 40; i < k; i++) x *= 10; x += d; } if (x < 0) continue; int n = 0; char tmp[60]; I128 y = x; do tmp[n++] = '0' + (int)(y % 10); while (y /= 10); for (int i = 0; i < n; i++) num[i] = tmp[n - 1 - i]; num[n] = 0; static const char* fm[] = { "%s", "-%s", "%s.00:00:00", "-%s.02:48:05.4775808" }; sprintf(b, fm[q], num); parse(lit(b)); sprintf(b, "%s:00:00", num); parse(lit(b)); sprintf(b, "0:%s", num); parse(lit(b)); sprintf(b, "0:0:%s", num); parse(lit(b)); sprintf(b, "0:%s:0:0", num); parse(lit(b)); } state(k); }
SUITE(limits, 0, "texts within 30 ticks of the largest and smallest span, both signs, also with the colon form, and with one field raised") { int neg = choose(2), form = choose(2), at = choose(61) - 30; char b[80]; int f = 4775807 + at; sprintf(b, "%s10675199%s02:48:05.%07d", neg ? "-" : "", form ? ":" : ".", f); parse(lit(b)); static const char* up[] = { "10675199.02:48:06", "10675199.02:49:00", "10675199.03:00:00", "10675200.00:00:00", "10675199.02:48:05", "10675199.02:48", "10675199", "10675200", "10675199.23:59:59.9999999" }; for (const char* u : up) { sprintf(b, "%s%s", neg ? "-" : "", u); parse(lit(b)); } state(mc::mix(at, neg * 2 + form)); }
SUITE(edits, 0, "8 valid texts with every single and double edit (delete, replace, insert) over 13 characters including NUL, non-ASCII digits and fullwidth colon") {
  static const char* base[] = { "1.02:03:04.5000000", "-10675199.02:48:05.4775808", "23:59:59", "0:23:59:59.9990000", "00:00", "5", " 1:2 ", "-0.00:00:00.0000001" }; static const wchar_t A[] = { '0', '9', ':', '.', '-', ' ', '+', 'x', 0x0661, 0xFF11, 0xFF1A, 0x00B2, 0 };
  Txt t = lit(base[choose(8)]); int n = t.n; auto ed = [&](Txt u, int pos, int k) { if (k == 0) { if (pos < u.n) u.remove(pos, 1); } else if (k <= 13) { if (pos < u.n) u.c[pos] = A[k - 1]; } else { Txt c; c.add(A[k - 14]); u.insert(pos < u.n ? pos : u.n, c); } return u; };
  int p = choose(n + 1), k = choose(27); Txt u = ed(t, p, k); parse(u); int lim = thorough ? u.n + 1 : (p + 3 < u.n + 1 ? p + 3 : u.n + 1); for (int p2 = thorough ? 0 : p; p2 < lim; p2++) for (int k2 = 0; k2 < 27; k2++) parse(ed(u, p2, k2)); state(mc::mix(t.hash(), p * 27 + k)); }
SUITE(null_and_long, 0, "null, and texts of 1..600 repetitions of a field, a separator, a digit or a blank, with 3 tails") { int k = choose(7); if (k == 6) { TimeSpan r((Int64)77); bool ok = true; Ex e = attempt([&] { ok = TimeSpanValue::TryParse(nullptr, r); }); if (e != OK_ || ok || r.value != 0) fail("null", "TryParse(null): %s %d %s", exName(e), ok, sh(r.value)); e = attempt([&] { TimeSpanValue::Parse(nullptr); }); step(2); if (e != xArgumentNull) fail("null", "Parse(null): %s", exName(e)); state(1); return; } static const char* rep[] = { "1:", ":", "0", " ", "9", "1." }; for (int n = 1; n < 600; n += n < 30 ? 1 : 37) for (const char* tail : { "", "1", ":1:1:1.1" }) { Txt t; for (int i = 0; i < n; i++) t.addA(rep[k]); t.addA(tail); parse(t); } state(k); }

SUITE(very_long, 0, "a span among up to 70000 blanks on either or both sides, fields and fractions of that many digits, with a letter at none or one of 3 places") {
  int n = pick({ 255, 256, 257, 1024, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000 }), form = choose(6), bad = choose(4); static const wchar_t v[] = L"-1.02:03:04.5"; const int L = 13; Big x = Big::fill(n + L, form < 3 ? L' ' : form == 4 ? L'9' : L'0'); int at = form == 0 ? n : form == 1 ? 0 : n / 2;
  if (form < 3) memcpy(x.c + at, v, L * sizeof(wchar_t)); else if (form == 3) x.c[x.n - 1] = L'1'; else if (form == 5) memcpy(x.c, L"0:0:0.", 6 * sizeof(wchar_t)); int bp[] = { -1, form == 0 ? 1 : x.n - 1, x.n / 4, x.n - 2 }; if (bad == 1 && form == 0) bp[1] = 0; if (bad) x.c[bp[bad]] = L'x';
  String* s = mk(x); NOTE("%d characters form %d bad %d", x.n, form, bad); I128 want = form < 3 ? -(TPD + 2 * TPH + 3 * TPM + 4 * TPS + TPS / 2) : form == 3 ? TPD : 0; Int64 g = 0; TimeSpan r((Int64)77); Ex e = attempt([&] { g = TimeSpanValue::Parse(s).value; }); bool ok = true; Ex f = attempt([&] { ok = TimeSpanValue::TryParse(s, r); }); step(2);
  if (f != OK_ || ok != (e == OK_) || (e != OK_ && e != xFormat && e != xOverflow)) fail("agree", "Parse: %s, TryParse: %s %d", exName(e), exName(f), ok); if (ok && (bad || form == 4)) fail("accept", "accepted as %s", sh(g)); if (!ok && !bad && form < 3) fail("refuse", "%s", exName(e)); if (ok ? g != want || r.value != g : r.value != 0) fail("value", "read as %s and %s, expected %s", sh(g), sh(r.value), sh(want)); if (!sameText(s, x)) fail("changed", "text changed by parsing"); state(mc::mix(n, form * 4 + bad)); }
SUITE(lookalikes, 0, "9 valid spans with one or two characters replaced by one equal to it modulo 256 or 65536, or its full-width form") { Txt t = lookalike(pick({ lit("1"), lit("-1"), lit("1:02"), lit("1:2:3"), lit("1.02:03:04"), lit("1:2:3.5"), lit(" 7 "), lit("-1.02:03:04.0000005"), lit("0:0:0.1234567") })); parse(t); state(t.hash()); }
SUITE(medium_texts, 0, "13 span texts (5 of them malformed) among or behind blanks, or with one field behind zeros, to a length of 62 (thorough 76) values up to 1025 (4097), with a letter at none or one of 3 places") {
  static const char* bs[] = { "1", "-1", "1:02", "1:2:3", "-1.02:03:04", "1.02:03:04.5", "10675199.02:48:05.4775807", "0:0:0.1234567", "1:", ":1", "1.2.3", "1:2:3:", "10675199.02:48:05.4775808" }; int b = choose(13), form = choose(4), bad = choose(4), n = ladder(0, thorough ? 4097 : 1025); Txt t0 = lit(bs[b]); if (n < t0.n) mc::discard(); int k = n - t0.n; NOTE("%s form %d padding %d bad %d", bs[b], form, k, bad); Big core = Big(t0.n); memcpy(core.c, t0.c, t0.n * sizeof(wchar_t)); Big x; int sgn_ = t0.c[0] == '-'; if (form == 0) x = Big::fill(k, L' ').plus(core); else if (form == 1) x = core.plus(Big::fill(k, L' ')); else if (form == 2) { x = Big::fill(k / 2, L'\t').plus(core).plus(Big::fill(k - k / 2, L' ')); } else x = core.splice(sgn_, 0, Big::fill(k, L'0').c, k); if (bad) x.c[bad == 1 ? 0 : bad == 2 ? n / 2 : n - 1] = L'x';
  if (x.n <= 2500) { Txt t; for (int i = 0; i < x.n; i++) t.add(x.c[i]); parse(t); } else { String* s = mk(x); I128 v = 0; int m = bad ? 0 : form == 3 && t0.c[0] == 58 ? 2 : model(t0, v); TimeSpan r((Int64)77); bool ok = true; Int64 g = 0; Ex e = attempt([&] { g = TimeSpanValue::Parse(s).value; }), f = attempt([&] { ok = TimeSpanValue::TryParse(s, r); }); step(2); if (f != OK_ || ok != (e == OK_) || (e != OK_ && e != xFormat && e != xOverflow)) fail("agree", "Parse: %s, TryParse: %s %d", exName(e), exName(f), ok); if (ok && m == 0) fail("accept", "%s accepted as %s", show(x), sh(g)); if (ok ? r.value != g || (m == 1 && form != 3 && g != v) : r.value != 0) fail("value", "%s read as %s", show(x), sh(g)); if (!sameText(s, x)) fail("changed", "text changed by parsing"); } state(mc::mix(n, mc::mix(b, form * 4 + bad))); }
SUITE(twins, 0, "spans that differ in one bit of their tick count, one half, or by multiples of 2^8..2^56, written and read back one after the other and again, from 261 starting spans") { int i = choose(261); int64_t t = i < 61 ? (i & 1 ? -1 : 1) * (int64_t)((i / 2) * TPD * 77 + i * 1234567) : (int64_t)((i - 161) * (INT64_MAX / 101) + i * 7919); twins(t, LO, HI, [](__int128 x) { format((int64_t)x); }); state(t); }
SUITE(one_field_changed, 0, "131 spans against every span with one field changed (each hour, minute, second, millisecond of either sign) and distances in days, hours, minutes and seconds, written and read back alternately") { int i = choose(131); int64_t t = i < 61 ? (i & 1 ? -1 : 1) * (int64_t)((i / 2) * TPD * 77 + i * 1234567) : (int64_t)((i - 96) * (INT64_MAX / 36) + i * 7919); oneSpanField(t, [](int64_t x) { format(x); }); state(t); }
