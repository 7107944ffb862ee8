// P15: integer parsing against an independent reader of the decimal grammar.
#include "values.h"
static const DataType ints[] = { Int32Type, ByteType, SByteType, Int16Type, UInt16Type, UInt32Type, Int64Type, UInt64Type };
struct Got { Ex parse; bool tryOk; Ex tryEx; I128 pv, tv; };
template <class B, class T> static Got run(String* s) {
  Got g; g.pv = 0; g.tryOk = false; T t = (T)77; g.parse = attempt([&] { g.pv = (I128)B::Parse(s); }); g.tryEx = attempt([&] { g.tryOk = B::TryParse(s, t); }); g.tv = (I128)t; return g;
}
static Got runT(DataType t, String* s) {
  switch (t) { case SByteType: return run<SByteValue, SByte>(s); case ByteType: return run<ByteValue, Byte>(s); case Int16Type: return run<Int16Value, Int16>(s); case UInt16Type: return run<UInt16Value, UInt16>(s);
  case Int32Type: return run<Int32Value, Int32>(s); case UInt32Type: return run<UInt32Value, UInt32>(s); case Int64Type: return run<Int64Value, Int64>(s); default: return run<UInt64Value, UInt64>(s); }
}
static bool ws(wchar_t c) { return (c >= 9 && c <= 13) || c == 32; }
// 0 format error, 1 number (v, saturated beyond +-10^30)
static int readNumber(const Txt& x, I128& v) {
  int a = 0, b = x.n; while (a < b && ws(x.c[a])) a++; while (b > a && ws(x.c[b - 1])) b--; bool neg = false; v = 0;
  if (a < b && (x.c[a] == L'-' || x.c[a] == L'+')) neg = x.c[a++] == L'-';
  if (a == b) return 0; I128 cap = 1; for (int i = 0; i < 30; i++) cap *= 10;
  for (; a < b; a++) { if (x.c[a] < L'0' || x.c[a] > L'9') return 0; if (v < cap) v = v * 10 + (x.c[a] - L'0'); }
  if (neg) v = -v; return 1;
}
static void check(const Txt& x, const DataType* types, int nt) {
  I128 v; int k = readNumber(x, v);
  for (int i = 0; i < nt; i++) {
    DataType t = types[i]; I128 lo, hi; rangeOf(t, lo, hi); bool in = k && v >= lo && v <= hi; String* s = mk(x); Got g = runT(t, s); const char* tn = typeName(t);
    Ex want = in ? OK_ : k ? xOverflow : xFormat;
    if (g.parse != want) fail("parse/outcome", "%s parse of %s: got %s, expected %s", tn, show(x), exName(g.parse), exName(want));
    if (in && g.pv != v) fail("parse/value", "%s parse of %s gave %lld", tn, show(x), (long long)g.pv);
    if (g.tryEx != OK_) fail("try/raised", "%s try-parse of %s raised %s", tn, show(x), exName(g.tryEx));
    if (g.tryOk != in) fail("try/outcome", "%s try-parse of %s returned %d, expected %d", tn, show(x), g.tryOk, in);
    if (g.tv != (in ? v : 0)) fail("try/value", "%s try-parse of %s left %lld", tn, show(x), (long long)g.tv);
    if (!sameText(s, x)) fail("changed", "parsing changed the text"); step(2); state(mc::mix(t * 4 + want, (uint64_t)g.pv));
  }
}
SUITE(texts, 0, "every text of length 0..5 (thorough 0..6) over {0 1 9 - + space tab letter} for all 8 types") { Txt x = chooseText(L"190- +\tx", 0, thorough ? 6 : 5); NOTE("%s", show(x)); check(x, ints, 8); }
SUITE(odd_texts, 0, "every text of length 1..3 over {1 . , _ a F ( $ e CR LF NBSP U+0661 U+2003 - space} for all 8 types") { static const wchar_t al[] = { '1', '.', ',', '_', 'a', 'F', '(', '$', 'e', 13, 10, 0xA0, 0x661, 0x2003, '-', ' ', 0 }; Txt x = chooseText(al, 1, 3); NOTE("%s", show(x)); check(x, ints, 8); }
SUITE(single_char, 0, "every character alone, before, after and inside a number; 16-bit range in chunks") { int hi = choose(256), form = choose(4); NOTE("characters %02xxx form %d", hi, form); for (int lo = 0; lo < 256; lo++) { wchar_t c = hi * 256 + lo; if (c == 0) continue; Txt x; if (form == 1) x.add(L'4'); if (form == 3) x.add(L'4'); x.add(c); if (form == 2 || form == 3) x.add(L'5'); check(x, ints, 2); } }
SUITE(nul_inside, 0, "one or two NULs at every position of 9 texts of up to 22 characters, for all 8 types") { static const char* bs[] = { "", "5", "-7", "127", " 3 ", "+12", "65535", "-2147483648", "18446744073709551615" }; Txt x = lit(bs[choose(9)]), z; z.add(0); int a = choose(x.n + 1), b = choose(x.n + 2) - 1; x.insert(a, z); if (b >= 0) x.insert(b, z); NOTE("%s", show(x)); check(x, ints, 8); }
SUITE(limits, 0, "the numbers within 12 (thorough 300) of every limit of every type and of 10^k (k<=25), with up to 3 leading zeros, 3 sign forms, 5 white-space surroundings and 4 suffixes, for all 8 types") {
  static const int P = 12; I128 pts[40]; int n = 0; for (int b : { 7, 8, 15, 16, 31, 32, 63, 64 }) pts[n++] = (I128)1 << b; I128 p = 1; for (int k = 0; k <= 25; k++) { pts[n++] = p; p *= 10; }
  I128 v = pts[choose(n)]; int d = thorough ? 300 : P; int k = choose(2 * d + 1); v += (k & 1) ? (k + 1) / 2 : -(k / 2); if (v < 0) mc::discard();
  int sign = choose(3), zeros = choose(4), around = choose(5), suffix = choose(4); Txt x; if (around == 1) x.add(L' '); if (around == 2) x.add(L'\t').add(L'\n'); if (around == 4) x.add(L' ');
  if (sign) x.add(sign == 1 ? L'-' : L'+'); for (int i = 0; i < zeros; i++) x.add(L'0'); char t[40]; int m = 0; I128 y = v; do t[m++] = '0' + (int)(y % 10); while (y /= 10); while (m) x.add(t[--m]);
  if (suffix == 1) x.add(L'x'); if (suffix == 2) x.add(L' ').add(L'1'); if (suffix == 3) x.add(L'.').add(L'0'); if (around >= 3) x.add(L' ').add(L'\r'); if (around == 4) x.add(L' ');
  NOTE("%s", show(x)); check(x, ints, 8);
}
SUITE(small_types, 0, "every number from -70000 to 70000 for the 8- and 16-bit types, in chunks") { static const DataType st[] = { SByteType, ByteType, Int16Type, UInt16Type }; int c = choose(1401); NOTE("from %d", -70000 + c * 100); for (int i = 0; i < 100; i++) { Txt x; char b[20]; sprintf(b, "%d", -70000 + c * 100 + i); x.addA(b); check(x, st, 4); } }
SUITE(long_texts, 0, "texts of 20..200 characters: all zeros then one digit, all nines, spaces around") { int n = 20 + choose(181), form = choose(4); Txt x; for (int i = 0; i < n; i++) x.add(form == 0 ? (i == n - 1 ? L'7' : L'0') : form == 1 ? L'9' : form == 2 ? L' ' : i < n / 2 ? L' ' : i == n / 2 ? L'3' : L'\t'); NOTE("length %d form %d", n, form); check(x, ints, 8); }
SUITE(null_text, 0, "null for all 8 types") { DataType t = pick(ints); NOTE("%s", typeName(t)); Got g = runT(t, nullptr); expectEx(g.parse, EXBIT(xArgumentNull), "null/parse", "parsing null"); expectEx(g.tryEx, EXBIT(OK_), "null/try", "try-parsing null"); EXPECT(!g.tryOk && g.tv == 0, "null/try", "try-parsing null gave %d, value %lld", g.tryOk, (long long)g.tv); state(t); }
SUITE(pieces, 0, "numbers read from the middle of a longer text (substring of every position and length of a 7-character text over {1 - space x})") { Txt base = chooseText(L"1- x", thorough ? 7 : 5, thorough ? 7 : 5); int st = choose(base.n), len = 1 + choose(base.n - st); String* s = mk(base)->Substring(st, len); Txt x = base.sub(st, len); NOTE("%s", show(x)); I128 v; int k = readNumber(x, v); Got g = runT(Int32Type, s); EXPECT(g.parse == (k ? OK_ : xFormat) && g.tryOk == (k != 0) && (!k || (g.pv == v && g.tv == v)), "pieces", "parse of %s: %s value %lld", show(x), exName(g.parse), (long long)g.pv); state(mc::mix(x.hash(), g.parse)); }

SUITE(lookalikes, 0, "8 valid numbers with one or two characters replaced by one equal to it modulo 256 or 65536, or its full-width form") { Txt x = lookalike(pick({ lit("1"), lit("-1"), lit("+5"), lit("12"), lit(" 7 "), lit("100"), lit("-99"), lit("0") })); check(x, ints, 8); }
SUITE(very_long, 0, "texts of 250..70000 characters: zeros, blanks or nines around one digit, with an invalid character at none or one of 6 places") { int n = pick({ 255, 256, 257, 300, 32767, 32769, 65535, 65536, 65537, 70000 }), form = choose(4), bad = choose(7); Big x = Big::fill(n, form == 0 ? L'0' : form == 1 ? L' ' : form == 2 ? L'9' : L'0'); bool val = form != 2; x.c[form == 1 ? n / 2 : n - 1] = L'7'; if (form == 3) x.c[0] = L'-'; int at[] = { -1, 0, 1, 256, n / 2 - 1, n - 2, n - 1 }; if (bad && at[bad] < n) x.c[at[bad]] = L'x'; bool ok = val && !(bad && at[bad] < n); NOTE("length %d form %d bad %d", n, form, bad); I128 want = form == 3 ? -7 : 7;
  for (DataType t : ints) { bool over = !bad || at[bad] >= n ? form == 2 || (form == 3 && (t == ByteType || t == UInt16Type || t == UInt32Type || t == UInt64Type)) : false; bool in = ok && !over; String* s = mk(x); Got g = runT(t, s); step(2); Ex w = in ? OK_ : over ? xOverflow : xFormat; if (g.parse != w || g.tryEx != OK_ || g.tryOk != in || (in && (g.pv != want || g.tv != want)) || (!in && g.tv != 0)) fail("long", "%s of a text of %d characters: %s, expected %s; try %d value %lld", typeName(t), n, exName(g.parse), exName(w), g.tryOk, (long long)g.tv); if (!sameText(s, x)) fail("changed", "text changed"); state(mc::mix(n, form * 8 + bad)); } }
SUITE(medium_long, 0, "texts of 40 (thorough 60) lengths 17..2049 (8192): a number of up to 20 digits (or none) somewhere among blanks or behind zeros, with a sign at 3 places or none, and an invalid character at none or one of 5 places; all 8 types") {
  int n = ladder(17, thorough ? 8192 : 2049), form = choose(4), sg = choose(4), bad = choose(6), dk = choose(5); static const char* ds[] = { "7", "127", "-32768", "4294967295", "18446744073709551615" }; Big x = Big::fill(n, form == 1 ? L'0' : L' '); const char* d = ds[dk]; bool minus = *d == '-'; if (minus) { d++; } int k = (int)strlen(d); int at = form == 0 ? 0 : form == 1 ? n - k : form == 2 ? n / 2 - k / 2 : n - k; if (at < 0 || k + 2 > n) mc::discard(); for (int i = 0; i < k; i++) x.c[at + i] = d[i];
  bool ok = true, neg = false; if (sg == 1 || (minus && sg == 0)) { int p = form == 1 ? 0 : at - 1; if (p < 0) mc::discard(); x.c[p] = sg == 1 ? L'+' : L'-'; neg = sg != 1; } else if (sg == 2) { int p = form == 1 ? n / 2 : at + k; if (p >= n) mc::discard(); x.c[p] = L'-'; ok = false; } else if (sg == 3) { int p = form == 1 ? 0 : at - 2; if (form == 1 || p < 0) mc::discard(); x.c[p] = L'-'; ok = false; } int bp[] = { -1, 0, 1, n / 2, n - 2, n - 1 }; if (bad) { x.c[bp[bad]] = bad == 3 ? L'\u0661' : L'x'; ok = false; }
  I128 v = 0; for (int i = 0; i < k; i++) v = v * 10 + (d[i] - '0'); if (neg) v = -v; NOTE("%s", show(x)); for (DataType t : ints) { I128 lo, hi; rangeOf(t, lo, hi); bool in = ok && v >= lo && v <= hi; String* s = mk(x); Got g = runT(t, s); step(2); Ex w = in ? OK_ : ok ? xOverflow : xFormat; if (g.parse != w || g.tryEx != OK_ || g.tryOk != in || (in && (g.pv != v || g.tv != v)) || (!in && g.tv != 0)) fail("medium", "%s of %s: %s, expected %s; value %lld, try %d value %lld", typeName(t), show(x), exName(g.parse), exName(w), (long long)g.pv, g.tryOk, (long long)g.tv); if (!sameText(s, x)) fail("changed", "text changed"); } state(mc::mix(mc::mix(n, form * 4 + sg), bad * 8 + dk)); }
static Txt decimal(I128 v, bool neg) { Txt x; if (neg) x.add(L'-'); char t[48]; int m = 0; do t[m++] = '0' + (int)(v % 10); while (v /= 10); while (m) x.add(t[--m]); return x; }
SUITE(wide_digits, 0, "numbers of 1..45 digits: every first three digits (thorough: four) followed by all zeros, fives or nines, with no sign, a plus or a minus, for all 8 types") {
  int lead = choose(thorough ? 9999 : 999) + 1, n = choose(45) + 1, fill = choose(3), sg = choose(3); Txt x, d; if (sg) x.add(sg == 1 ? L'-' : L'+'); I128 v = lead; d = decimal(v, false); if (d.n > n) mc::discard(); for (int i = 0; i < d.n; i++) x.add(d.c[i]); for (int i = d.n; i < n; i++) x.add(fill == 0 ? L'0' : fill == 1 ? L'5' : L'9');
  NOTE("%s", show(x)); check(x, ints, 8);
}
SUITE(wrapped, 0, "the numbers within 3 of every multiple 1..700 (thorough 9000) of 2^8, 2^16, 2^31, 2^32, 2^63, 2^64, with and without minus, for all 8 types") {
  static const int sh[] = { 8, 16, 31, 32, 63, 64 }; int k = sh[choose(6)], m = choose(thorough ? 9000 : 700) + 1, e = choose(7) - 3; bool neg = choose(2); I128 v = ((I128)m << k) + e; Txt x = decimal(v, neg); NOTE("%s", show(x)); check(x, ints, 8);
}
