// P20: floating-point classification and parsing are exact and reject bad text.
#include "values.h"
static double d64(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static float f32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint64_t b64(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static uint32_t b32(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
struct Cls { bool nan, pinf, ninf, normal, sub, zero, neg; };
static void judge(const Cls& c, const bool* g, const char* what, uint64_t bits) { // g: NaN Inf +Inf -Inf Finite Negative Normal Subnormal
  static const char* n[] = { "IsNaN", "IsInfinity", "IsPositiveInfinity", "IsNegativeInfinity", "IsFinite", "IsNegative", "IsNormal", "IsSubnormal" };
  bool w[8] = { c.nan, c.pinf || c.ninf, c.pinf, c.ninf, !c.nan && !c.pinf && !c.ninf, c.neg, c.normal, c.sub };
  for (int i = 0; i < 8; i++) { if (i == 5 && c.nan) continue; if (g[i] != w[i]) fail(n[i], "%s of %s 0x%llx is %d, expected %d", n[i], what, (unsigned long long)bits, g[i], w[i]); }
  step();
}
static Cls cls32(uint32_t b) { uint32_t e = b >> 23 & 255, m = b & 0x7FFFFF; Cls c; c.neg = b >> 31; c.nan = e == 255 && m; c.pinf = e == 255 && !m && !c.neg; c.ninf = e == 255 && !m && c.neg; c.normal = e > 0 && e < 255; c.sub = e == 0 && m; c.zero = e == 0 && !m; return c; }
static Cls cls64(uint64_t b) { uint64_t e = b >> 52 & 2047, m = b & 0xFFFFFFFFFFFFFULL; Cls c; c.neg = b >> 63; c.nan = e == 2047 && m; c.pinf = e == 2047 && !m && !c.neg; c.ninf = e == 2047 && !m && c.neg; c.normal = e > 0 && e < 2047; c.sub = e == 0 && m; c.zero = e == 0 && !m; return c; }
static void single(uint32_t b) { float f = f32(b); bool g[8] = { SingleValue::IsNaN(f), SingleValue::IsInfinity(f), SingleValue::IsPositiveInfinity(f), SingleValue::IsNegativeInfinity(f), SingleValue::IsFinite(f), SingleValue::IsNegative(f), SingleValue::IsNormal(f), SingleValue::IsSubnormal(f) }; judge(cls32(b), g, "single", b); }
static void dbl(uint64_t b) { double f = d64(b); bool g[8] = { DoubleValue::IsNaN(f), DoubleValue::IsInfinity(f), DoubleValue::IsPositiveInfinity(f), DoubleValue::IsNegativeInfinity(f), DoubleValue::IsFinite(f), DoubleValue::IsNegative(f), DoubleValue::IsNormal(f), DoubleValue::IsSubnormal(f) }; judge(cls64(b), g, "double", b); }
SUITE(single_classes, 0, "all 65536 upper halves of a single's bits with 48 lower halves (thorough: all 2^32 bit patterns)") { uint32_t h = (uint32_t)(choose(256) * 256 + choose(256)) << 16; if (thorough) for (uint32_t l = 0; l < 65536; l++) single(h | l); else for (int i = 0; i < 16; i++) { single(h | (1u << i)); single(h | ((1u << i) - 1)); single(h | (0xFFFFu & ~(1u << i))); } state(h); }
SUITE(double_classes, 0, "every sign and exponent of a double with 208 mantissas: single bits, runs of ones from either end, complements") { uint64_t h = (uint64_t)(choose(64) * 64 + choose(64)) << 52; const uint64_t M = 0xFFFFFFFFFFFFFULL; for (int i = 0; i < 52; i++) { dbl(h | (1ULL << i)); dbl(h | ((1ULL << i) - 1)); dbl(h | (M & ~(1ULL << i))); dbl(h | (M & ~((1ULL << i) - 1))); } state(h); }
SUITE(constants, 0, "declared extremes and special values of both types") { EXPECT(b64(DoubleValue::MaxValue) == 0x7FEFFFFFFFFFFFFFULL && b64(DoubleValue::MinValue) == 0xFFEFFFFFFFFFFFFFULL && b64(DoubleValue::Epsilon) == 1, "constants", "double extremes"); EXPECT(DoubleValue::NaN != DoubleValue::NaN && b64(DoubleValue::PositiveInfinity) == 0x7FF0000000000000ULL && b64(DoubleValue::NegativeInfinity) == 0xFFF0000000000000ULL, "constants", "double specials"); EXPECT(b32(SingleValue::MaxValue) == 0x7F7FFFFF && b32(SingleValue::MinValue) == 0xFF7FFFFF && b32(SingleValue::Epsilon) == 1 && SingleValue::NaN != SingleValue::NaN && b32(SingleValue::PositiveInfinity) == 0x7F800000 && b32(SingleValue::NegativeInfinity) == 0xFF800000, "constants", "single constants"); }
// ---- parsing
static bool isWs(wchar_t c) { return (c >= 9 && c <= 13) || c == 32; }
static bool grammar(const Txt& t, char* out) { // true when t is white* [sign] digits with optional fraction [exponent] white*
  int i = 0, e = t.n; while (i < e && isWs(t.c[i])) i++; while (e > i && isWs(t.c[e - 1])) e--; int k = 0; for (int j = i; j < e; j++) { if (t.c[j] <= 0 || t.c[j] > 126) return false; out[k++] = (char)t.c[j]; } out[k] = 0; const char* p = out; if (*p == '+' || *p == '-') p++; int d = 0; while (*p >= '0' && *p <= '9') p++, d++; if (*p == '.') { p++; while (*p >= '0' && *p <= '9') p++, d++; } if (!d) return false; if (*p == 'e' || *p == 'E') { p++; if (*p == '+' || *p == '-') p++; d = 0; while (*p >= '0' && *p <= '9') p++, d++; if (!d) return false; } return !*p;
}
static bool special(const Txt& t) { int i = 0, e = t.n; while (i < e && isWs(t.c[i])) i++; while (e > i && isWs(t.c[e - 1])) e--; char b[40]; int k = 0; for (; i < e && k < 39; i++) b[k++] = t.c[i] > 0 && t.c[i] < 127 ? (t.c[i] >= 'A' && t.c[i] <= 'Z' ? t.c[i] + 32 : t.c[i]) : '?'; b[k] = 0; const char* p = b; if (*p == '+' || *p == '-') p++; return !strcmp(p, "nan") || !strcmp(p, "infinity"); }
static void parse(const Txt& t) {
  static char n[1600]; bool ok = grammar(t, n); bool sp = !ok && special(t); String* s = new String(mkChars(t)); NOTE("%s", show(t));
  { double r = 7.25, q = 7.25, z = 7.25; Ex e = attempt([&] { r = DoubleValue::Parse(s); }); bool b = DoubleValue::TryParse(s, q), bi = DoubleValue::TryParseInternal(s, z); double w = ok ? strtod(n, nullptr) : 0; bool over = ok && isinf(w);
    step(); if (sp) { if (e == OK_) { if (!b || !(b64(r) == b64(q) || (r != r && q != q)) || r == r && !isinf(r)) fail("double/special", "%s", show(t)); } else expectEx(e, EXBIT(xFormat), "double/reject", "bad text"); }
    else if (over && e == xOverflow) { if (b || q != 0) fail("double/try", "%s: non-throwing form gave %d", show(t), b); }
    else { if (ok ? e != OK_ : e != xFormat) fail(ok ? "double/raise" : "double/reject", "%s: %s, expected %s", show(t), exName(e), ok ? "a value" : "a format error"); if (b != ok || bi != ok) fail("double/try", "%s: non-throwing form gave %d, throwing %s", show(t), b, exName(e)); if (!ok && (b64(q) != 0 || b64(z) != 0)) fail("double/try-result", "%s: failed form left %g", show(t), q); if (ok && (b64(r) != b64(w) || b64(q) != b64(w) || b64(z) != b64(w)) && !(w == 0 && r == 0 && q == 0)) fail("double/value", "%s read as %.17g and %.17g, expected %.17g", show(t), r, q, w); } }
  { float r = 7.25, q = 7.25, z = 7.25; Ex e = attempt([&] { r = SingleValue::Parse(s); }); bool b = SingleValue::TryParse(s, q), bi = SingleValue::TryParseInternal(s, z); float w = ok ? strtof(n, nullptr) : 0; bool over = ok && isinf(w);
    step(); if (sp) { if (e == OK_) { if (!b || !(b32(r) == b32(q) || (r != r && q != q))) fail("single/special", "%s", show(t)); } else expectEx(e, EXBIT(xFormat), "single/reject", "bad text"); }
    else if (over && e == xOverflow) { if (b || q != 0) fail("single/try", "%s: non-throwing form gave %d", show(t), b); }
    else { if (ok ? e != OK_ : e != xFormat) fail(ok ? "single/raise" : "single/reject", "%s: %s, expected %s", show(t), exName(e), ok ? "a value" : "a format error"); if (b != ok || bi != ok) fail("single/try", "%s: non-throwing form gave %d, throwing %s", show(t), b, exName(e)); if (!ok && (b32(q) != 0 || b32(z) != 0)) fail("single/try-result", "%s: failed form left %g", show(t), q); if (ok && (b32(r) != b32(w) || b32(q) != b32(w) || b32(z) != b32(w)) && !(w == 0 && r == 0 && q == 0)) fail("single/value", "%s read as %.9g and %.9g, expected %.9g", show(t), r, q, w); } }
  if (!sameText(s, t)) fail("changed", "text changed by parsing"); state(t.hash());
}
SUITE(texts, 0, "every text of length 0..5 (thorough 0..6) over {1 0 9 . - + e blank}") { parse(chooseText(L"109.-+e ", 0, thorough ? 6 : 5)); }
SUITE(texts_wide, 0, "every text of length 0..3 (thorough 0..4) over 24 characters: digits, signs, point, comma, exponent, hex, names' letters, white space, NUL, non-ASCII digits") { static const wchar_t al[] = { L'1', L'5', L'.', L'-', L'+', L'e', L'E', L',', L'x', L'f', L'F', L'd', L'n', L'N', L'a', L'i', L'I', L' ', L'\t', L'\n', 0, 0x0661, 0xFF11, L'%' }; Txt t; int n = choose(thorough ? 5 : 4); for (int i = 0; i < n; i++) t.add(pick(al)); parse(t); }
static const char* const bad[] = { "1 2", "1,000", "0x10", "0x1p3", "1e", "1e+", "1e-", "e5", ".e5", "1e5.5", "1e5e5", "--1", "+-1", "1-", "1+", "- 1", "1.2.3", "..1", "1..", "1f", "1d", "1L", "INF", "inf", "NAN", "nan(1)", "Infinit", "Infinityx", "infinity", "+Infinity", "NaN ", " NaN", "-NaN", "Infinity", "-Infinity", "NaN", "NaNs", "$1", "(1)", "1%", "1_000", "'1'", "\"1\"", "1;", "1/2", "1:2", "\x7f" "1", "1\x01", "", " ", "\t\n", "+", "-", ".", "+.", "-.", "e", "E", "1 e5", "1e 5", "1. 5", "1 .5", "- .5", "TRUE", "abc", "1a", "a1", "1.5a", "1.5 a", "1.5\t\n" };
SUITE(malformed, 0, "70 malformed or unusual texts, plain, with surrounding white space and after a sign") { Txt t = lit(pick(bad)); int k = choose(4); if (k == 1) t.insert(0, lit(" \t")); if (k == 2) t.addA("\n "); if (k == 3) t.insert(0, lit("-")); parse(t); }
SUITE(nul_inside, 0, "numbers with a NUL at every position") { Txt t = pick({ lit("12.5"), lit("1e5"), lit("-7"), lit("NaN"), lit(" 3 ") }); int i = choose(t.n + 1); Txt z; z.add(0); t.insert(i, z); parse(t); }
SUITE(numbers, 0, "sign x 24 significands (1..20 digits, fractions) x exponents -345..320 (in steps through every value) x 3 exponent spellings") { static const char* const m[] = { "1", "9", "17", "1.5", ".5", "5.", "0.1", "123456789", "4.9406564584124654", "2.2250738585072014", "2.2250738585072011", "1.7976931348623157", "1.7976931348623159", "9007199254740993", "9007199254740992.5", "3.4028234663852886", "3.4028235677973366", "1.401298464324817", "0.70064923216240853546", "16777217", "18446744073709551615", "00012.3400", "99999999999999999999", "0" }; Txt t; int sg = choose(3); if (sg) t.add(sg == 1 ? L'-' : L'+'); t.addA(pick(m)); int e = choose(667) - 346; if (e > -346) { static const char* const sp[] = { "e", "E", "e+" }; int k = choose(3); t.addA(sp[k]); if (k == 2 && e < 0) { t.n--; } char b[10]; sprintf(b, k == 1 ? "%03d" : "%d", e); t.addA(b); } parse(t); }
SUITE(long_texts, 0, "1..400 (thorough 1..1200) digits of 4 patterns before or after the point, with exponent undoing the length") { int n = 1 + choose(thorough ? 1200 : 400), p = choose(4), f = choose(3); Txt t; if (f) t.addA("0."); for (int i = 0; i < n; i++) t.add(p == 0 ? L'1' : p == 1 ? L'9' : p == 2 ? (i + 1 == n ? L'1' : L'0') : L'0' + i % 10); if (f != 1) { char b[12]; sprintf(b, "e%d", f == 2 ? n : -n); t.addA(b); } parse(t); }
static void veryLong(const Big& x, bool ok, const char* why) {
  char* a = (char*)malloc(x.n + 1); for (int i = 0; i < x.n; i++) a[i] = (char)x.c[i]; a[x.n] = 0; double w = ok ? strtod(a, nullptr) : 0; float wf = ok ? strtof(a, nullptr) : 0; String* s = mk(x); NOTE("%d characters, %s", x.n, why);
  double r = 7.25, q = 7.25; Ex e = attempt([&] { r = DoubleValue::Parse(s); }); bool b = DoubleValue::TryParse(s, q); step();
  if (ok && isinf(w) && e == xOverflow) { if (b || q != 0) fail("double/try", "non-throwing form gave %d", b); }
  else { if (ok ? e != OK_ : e != xFormat) fail(ok ? "double/raise" : "double/reject", "%s", exName(e)); if (b != ok) fail("double/try", "non-throwing form gave %d", b); if (ok ? b64(r) != b64(w) || b64(q) != b64(w) : b64(q) != 0) fail("double/value", "read as %.17g and %.17g, expected %.17g", r, q, w); }
  float f = 7.25, g = 7.25; e = attempt([&] { f = SingleValue::Parse(s); }); b = SingleValue::TryParse(s, g); step();
  if (ok && isinf(wf) && e == xOverflow) { if (b || g != 0) fail("single/try", "non-throwing form gave %d", b); }
  else { if (ok ? e != OK_ : e != xFormat) fail(ok ? "single/raise" : "single/reject", "%s", exName(e)); if (b != ok) fail("single/try", "non-throwing form gave %d", b); if (ok ? b32(f) != b32(wf) || b32(g) != b32(wf) : b32(g) != 0) fail("single/value", "read as %.9g and %.9g, expected %.9g", f, g, wf); }
  if (!sameText(s, x)) fail("changed", "text changed by parsing"); state(mc::mix(x.n, (uint64_t)ok));
}
SUITE(very_long, 0, "texts of 255..70000 characters: a digit after zeros, among blanks, nines, a tiny fraction, a fraction beyond every precision, an exponent of many digits, with an invalid character at none or one of 4 places") {
  int n = pick({ 255, 256, 257, 1024, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000 }), form = choose(6), bad = choose(5); Big x = Big::fill(n, form == 1 ? L' ' : form == 2 ? L'9' : L'0');
  x.c[form == 1 ? n / 2 : n - 1] = L'7'; if (form == 3) x.c[0] = L'-', x.c[2] = L'.'; if (form == 4) x.c[0] = L'1', x.c[1] = L'.'; if (form == 5) x.c[0] = L'3', x.c[1] = L'e';
  int at[] = { -1, 1, 256, n / 2 - 1, n - 1 }; if (bad && at[bad] >= n) mc::discard(); if (bad) x.c[at[bad]] = L'x'; veryLong(x, !bad, form == 0 ? "zeros" : form == 1 ? "blanks" : form == 2 ? "nines" : form == 3 ? "tiny" : form == 4 ? "precise" : "exponent"); state(mc::mix(n, form * 8 + bad)); }
SUITE(white, 0, "runs of 0..3 characters of each ASCII white space before and after 3 numbers and between sign and digits") { static const wchar_t w[] = { 9, 10, 11, 12, 13, 32, 0xA0, 0x85, 0x1F }; wchar_t c = pick(w); int a = choose(4), b = choose(4), mid = choose(2); Txt t; for (int i = 0; i < a; i++) t.add(c); t.add(L'-'); if (mid) t.add(c); t.addA(pick({ "1", "2.5", "3e2" })); for (int i = 0; i < b; i++) t.add(c); parse(t); }
SUITE(null_text, 0, "null in every form") { double d = 5; float f = 5; expectEx(attempt([&] { DoubleValue::Parse(nullptr); }), EXBIT(xArgumentNull), "null", "double of null"); expectEx(attempt([&] { SingleValue::Parse(nullptr); }), EXBIT(xArgumentNull), "null", "single of null"); EXPECT(!DoubleValue::TryParse(nullptr, d) && d == 0, "null/try", "left %g", d); EXPECT(!SingleValue::TryParse(nullptr, f) && f == 0, "null/try", "left %g", f); }
SUITE(part_texts, 0, "the character form: the first 0..n characters of 6 longer texts") { Txt t = pick({ lit("12345"), lit("1.5e10"), lit("-7.25"), lit("  3"), lit("1e5x"), lit("9 9") }); int n = choose(t.n + 1); Txt u = t.sub(0, n); static char b[100]; bool ok = grammar(u, b); Char* raw = rawChars(t.c, t.n); double d = 9; float f = 9; bool r = DoubleValue::TryParseInternal(raw, n, d), q = SingleValue::TryParseInternal(raw, n, f); NOTE("%s first %d", show(t), n); EXPECT(r == ok && q == ok, "part", "accepted %d,%d expected %d", r, q, ok); EXPECT(d == (ok ? strtod(b, 0) : 0) && f == (ok ? strtof(b, 0) : 0), "part/value", "%g %g", d, f); state(u.hash()); }
// ---- formatting
SUITE(special_names, 0, "every sign and 40 payloads of not-a-number, both infinities, both types: text by ToString, append, boxed") { int k = choose(2); bool neg = choose(2); int p = choose(41); uint64_t b = 0x7FF0000000000000ULL | (p ? 1ULL << (p + 10) : 0) | (neg ? 1ULL << 63 : 0); uint32_t c = 0x7F800000u | (p ? 1u << (p % 23) : 0) | (neg ? 1u << 31 : 0); const wchar_t* w = p ? L"NaN" : neg ? L"-Infinity" : L"Infinity"; Object* o = k ? (Object*)new DoubleValue(d64(b)) : (Object*)new SingleValue(f32(c)); String* s = o->ToString(); EXPECT(sameText(s, w), "name", "text of %s special %d/%d is %s", k ? "double" : "single", neg, p, show(s)); StringBuilder* sb = new StringBuilder(); k ? sb->Append(d64(b)) : sb->Append(f32(c)); EXPECT(sameText(sb->ToString(), w), "name", "appended %s", show(sb->ToString())); state(k * 128 + p * 2 + neg); }
static void back(double d, float f, bool dd, const char* src) { Object* o = dd ? (Object*)new DoubleValue(d) : (Object*)new SingleValue(f); String* s = o->ToString(); step(); NOTE("%s as text %s", src, show(s)); if (dd) { double r = 0; Ex e = attempt([&] { r = DoubleValue::Parse(s); }); if (e != OK_ || b64(r) != b64(d)) fail("round-trip/double", "%s is written %s, which reads back as %.17g (%s)", src, show(s), r, exName(e)); } else { float r = 0; Ex e = attempt([&] { r = SingleValue::Parse(s); }); if (e != OK_ || b32(r) != b32(f)) fail("round-trip/single", "%s is written %s, which reads back as %.9g (%s)", src, show(s), r, exName(e)); } state(mc::hashBytes(s->get_Buffer(), s->get_Length() * 4)); }
SUITE(short_decimals, 0, "n*10^k for every n below 1000 (thorough 10000), k -40..40 (and every 10th power to ±300 for doubles), both signs: text parses back to the same value") { int n = choose(thorough ? 10000 : 1000), k = choose(130); k = k < 81 ? k - 40 : k < 105 ? (k - 81) * 10 + 50 : -((k - 105) * 10 + 50); bool neg = choose(2), dd = choose(2); char b[40]; sprintf(b, "%s%de%d", neg ? "-" : "", n, k); if (!dd && (k > 34 || k < -34)) mc::discard(); back(strtod(b, 0), strtof(b, 0), dd, b); }
SUITE(digit_limits, 0, "decimals of exactly 1..15 digits (singles 1..6) of 12 patterns at every point position and with exponents -20, 0, 20") { int dd = choose(2), n = 1 + choose(dd ? 15 : 6), p = choose(12), pt = choose(n + 1), e = choose(3) * 20 - 20; char b[60]; int k = 0; for (int i = 0; i < n; i++) { if (i == pt) b[k++] = '.'; b[k++] = p < 9 ? '1' + (p + (i == n - 1 ? 0 : p == 8 ? 0 : 0)) % 9 : p == 9 ? '0' + (i + 1) % 10 : p == 10 ? (i == 0 || i == n - 1 ? '9' : '0') : '0' + (9 - i % 10); } if (pt == n) b[k++] = '.'; sprintf(b + k, "e%d", e); if (!dd && e) mc::discard(); back(strtod(b, 0), strtof(b, 0), dd, b); }
SUITE(integers, 0, "integers 0..99999 and 10^k±1 up to 15 digits as doubles, up to 999999 as singles") { int dd = choose(2); double v; if (choose(2)) v = choose(1000) * 100 + choose(100); else { int k = choose(dd ? 16 : 7); v = 1; for (int i = 0; i < k; i++) v *= 10; v += choose(3) - 1; if (v >= (dd ? 1e15 : 1e6)) v = dd ? 999999999999999.0 : 999999; } if (choose(2)) v = -v; char b[40]; sprintf(b, "%.0f", v); back(v, (float)v, dd, b); }
SUITE(modulus, 0, "Modulus of both types over pairs of 26 values equals the exact remainder") { static const double v[] = { 0.0, -0.0, 1, -1, 2, 3, -3, 0.5, 5.5, -5.5, 7.25, 1e10, 1e300, 1e-300, 4.9406564584124654e-324, INFINITY, -INFINITY, NAN, 10, 1e-10, 7, 1e38, 123456789, -0.1, 16777217, 4503599627370497.0 }; double a = pick(v), b = pick(v), r = DoubleValue::Modulus(a, b), w = fmod(a, b); EXPECT(b64(r) == b64(w) || (r != r && w != w), "modulus", "%g %% %g = %g", a, b, r); float fr = SingleValue::Modulus((float)a, (float)b), fw = fmodf((float)a, (float)b); EXPECT(b32(fr) == b32(fw) || (fr != fr && fw != fw), "modulus", "single %g %% %g = %g", a, b, fr); state(mc::mix(b64(w), b32(fw))); }

SUITE(lookalikes, 0, "10 valid numbers with one or two characters replaced by one equal to it modulo 256 or 65536, or its full-width form") { parse(lookalike(pick({ lit("1"), lit("-1"), lit("+5"), lit("1.5"), lit(" 7 "), lit("1e5"), lit("-9.5E-3"), lit("0"), lit(".5"), lit("12345") }))); }
SUITE(twins, 0, "doubles that differ in one bit, one half, or by multiples of 2^8..2^56 of their bit patterns classified one after the other and again, 211 patterns; singles likewise") { int i = choose(211); bool d = choose(2); uint64_t b = i * (UINT64_MAX / 211) + i * 77777777777ULL; if (i & 1) b &= ~0xFFFFFFFFULL; if (d) twins(b, 0, UINT64_MAX, [](__int128 x) { dbl((uint64_t)x); }); else twins(b >> 32, 0, UINT32_MAX, [](__int128 x) { single((uint32_t)x); }); state(b + d); }
SUITE(bit_views, 0, "SingleValue::ToSingle and ToUInt32 are inverse over all 65536 upper halves of the bits with 8 lower halves") { uint32_t h = (uint32_t)(choose(256) * 256 + choose(256)) << 16; for (uint32_t l : { 0u, 1u, 2u, 0x7FFFu, 0x8000u, 0xFFFEu, 0xFFFFu, 0x1234u }) { uint32_t b = h | l; float f = SingleValue::ToSingle(b); step(); if (b32(f) != b) fail("bits", "0x%08x as single has bits 0x%08x", b, b32(f)); uint32_t r = SingleValue::ToUInt32(f32(b)); step(); if (r != b) fail("bits", "single 0x%08x as integer is 0x%08x", b, r); } state(h); }
SUITE(halves, 0, "the exact decimal text of the number half way between two neighbouring singles or doubles, and the same with a digit beyond its end (just above) or its last digit lowered (just below): 27 significands at every 5th exponent (thorough: 53 and every exponent), written out or with an exponent, both signs") {
  bool dbl = choose(2); int bits = dbl ? 52 : 23, lo = dbl ? -1074 : -149, hi = dbl ? 1023 : 127; int st = thorough ? 1 : dbl ? 13 : 5, ne = (hi - lo - bits) / st + 1; int e = lo + choose(ne) * st; int k = choose(thorough ? 53 : 27); uint64_t full = 1ULL << bits, m = k == 0 ? full : k == 1 ? full + 1 : k == 2 ? 2 * full - 1 : k == 3 ? 2 * full - 2 : k == 4 ? full + full / 2 : k == 5 ? full + full / 2 + 1 : full + (full - 1) / (uint64_t)(k + 1) * (k / 2 + 1) / 2 + k; if (k >= 40) m = (uint64_t)(k - 39) * (k - 39); if (m >= 2 * full) mc::discard();
  int side = choose(3), form = choose(2); bool neg = choose(2); long double h = ldexpl((long double)(2 * m + 1), e - 1); static char b[1300]; if (form) { snprintf(b, sizeof b, "%.800Le", h); } else { if (h > 1e60L || h < 1e-60L) mc::discard(); snprintf(b, sizeof b, "%.400Lf", h); }
  static char ex[20]; ex[0] = 0; if (char* pe = strchr(b, 'e')) { strcpy(ex, pe); *pe = 0; } if (strchr(b, '.')) { int n = (int)strlen(b); while (b[n - 1] == '0') b[--n] = 0; if (b[n - 1] == '.') b[n - 1] = 0; } bool point = strchr(b, '.') != nullptr;
  if (side == 1) strcat(b, point ? "0000001" : ".0000001"); if (side == 2) { int n = (int)strlen(b); if (b[n - 1] == '0') mc::discard(); b[n - 1]--; strcat(b, point ? "9999999" : ".9999999"); }
  Txt w; if (neg) w.add(L'-'); w.addA(b); w.addA(ex); parse(w);
}
