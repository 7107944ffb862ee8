// P10: comparison is a consistent total order and agrees with equality.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
enum { CULTURE, NOCASE, ORDINAL };
static const char* modes[] = { "default", "ignoring case", "ordinal" };
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static wchar_t fold(wchar_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static String* make(const Txt& t) { for (int i = 0; i < t.n; i++) if (!t.c[i]) return new String(mkChars(t)); return mk(t); }
static int cmp(int m, String* a, String* b) { return sg(m == CULTURE ? String::Compare(a, b) : m == NOCASE ? String::Compare(a, b, true) : String::CompareOrdinal(a, b)); }
static int cmpWin(int m, String* a, int i, String* b, int j, int n) { return sg(m == CULTURE ? String::Compare(a, i, b, j, n) : m == NOCASE ? String::Compare(a, i, b, j, n, true) : String::CompareOrdinal(a, i, b, j, n)); }
static bool eqUnder(int m, const Txt& a, const Txt& b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; i++) if (m == NOCASE ? fold(a.c[i]) != fold(b.c[i]) : a.c[i] != b.c[i]) return false; return true; }
static bool prefix(int m, const Txt& a, const Txt& b) { return a.n < b.n && eqUnder(m, a, b.sub(0, a.n)); }
static int ordinal(const Txt& a, const Txt& b) { for (int i = 0; i < a.n && i < b.n; i++) if (a.c[i] != b.c[i]) return a.c[i] < b.c[i] ? -1 : 1; return a.n < b.n ? -1 : a.n > b.n; }
static Txt text(const wchar_t* al, int hi) { Txt t = chooseText(al, 0, hi); for (int i = 0; i < t.n; i++) if (t.c[i] == 1) t.c[i] = 0; return t; }
static void pairLaws(const Txt& a, const Txt& b) {
  String *x = make(a), *y = make(b);
  for (int m = 0; m < 3; m++) {
    int r = cmp(m, x, y), q = cmp(m, y, x); step(2);
    if (r != -q) fail("antisymmetry", "%s: compare(%s,%s)=%d but reversed %d", modes[m], show(a), show(b), r, q);
    if ((r == 0) != eqUnder(m, a, b)) fail("zero", "%s: compare(%s,%s)=%d", modes[m], show(a), show(b), r);
    if (prefix(m, a, b) && r >= 0) fail("prefix", "%s: prefix %s does not come before %s", modes[m], show(a), show(b));
    if (m == ORDINAL && r != ordinal(a, b)) fail("ordinal", "ordinal compare(%s,%s)=%d, code order %d", show(a), show(b), r, ordinal(a, b));
  }
  int c = cmp(CULTURE, x, y); EXPECT(sg(x->CompareTo(y)) == c, "compareto", "CompareTo(%s,%s)", show(a), show(b)); EXPECT(sg(x->CompareTo((Object*)y)) == c, "compareto/object", "CompareTo as object (%s,%s) = %d, Compare %d", show(a), show(b), x->CompareTo((Object*)y), c);
  bool eq = a == b;
  EXPECT(x->Equals(y) == eq && x->Equals((Object*)y) == eq && ((Object*)x)->Equals((Object*)y) == eq && String::Equals(x, y) == eq && String::Equals(x, (Object*)y) == eq && String::Equals((Object*)x, y) == eq && Object::Equals((Object*)x, (Object*)y) == eq && String::op_Inequality(x, y) == !eq, "equality", "equalities of %s and %s disagree with %d: %d%d%d%d%d%d%d inequality %d", show(a), show(b), eq, x->Equals(y), x->Equals((Object*)y), ((Object*)x)->Equals((Object*)y), String::Equals(x, y), String::Equals(x, (Object*)y), String::Equals((Object*)x, y), Object::Equals((Object*)x, (Object*)y), String::op_Inequality(x, y));
  if (!sameText(x, a) || !sameText(y, b)) fail("changed", "a comparison changed a string"); state(mc::mix(a.hash(), b.hash()));
}
SUITE(pairs, 0, "all pairs of texts of length 0..3 over {a A b 1 _ NUL} (thorough plus B)") { const wchar_t* al = thorough ? L"aAbB1_\x01" : L"aAb1_\x01"; Txt a = text(al, 3), b = text(al, 3); NOTE("%s and %s", show(a), show(b)); pairLaws(a, b); }
SUITE(pairs_long, 0, "all pairs of texts of length 0..7 (thorough 0..8) over {a A}, and of length 0..5 over {a b A}") { if (choose(2)) { Txt a = chooseText(L"aA", 0, thorough ? 8 : 7), b = chooseText(L"aA", 0, thorough ? 8 : 7); pairLaws(a, b); } else { Txt a = chooseText(L"abA", 0, 5), b = chooseText(L"abA", 0, 5); pairLaws(a, b); } }
SUITE(single_chars, 0, "all pairs of single characters 0..127 alone and after a common letter, and in 16-bit boundary characters") { int i = choose(132), k = choose(2); wchar_t ext[] = { 0x80, 0xFF, 0x7FFF, 0xFFFF }; wchar_t x = i < 128 ? i : ext[i - 128]; for (int j = 0; j < 132; j++) { wchar_t y = j < 128 ? j : ext[j - 128]; Txt a, b; if (k) { a.add(L'm'); b.add(L'm'); } a.add(x); b.add(y); pairLaws(a, b); } }
SUITE(wide_chars, 0, "all pairs of texts of length 0..3 over 4 letters standing for 6 sets of easily confused characters (equal modulo 256 or 65536, by case or accent, negative, outside the BMP): equalities, ordinal code order, antisymmetry, zero only for equal texts in the default order") {
  skins(); Txt a = chooseText(L"abcx", 0, thorough ? 4 : 3), b = chooseText(L"abcx", 0, 3); String *x = make(a), *y = make(b); bool eq = a == b, neg = false; for (int i = 0; i < a.n; i++) neg = neg || a.c[i] < 0; for (int i = 0; i < b.n; i++) neg = neg || b.c[i] < 0; NOTE("%s and %s", show(a), show(b));
  int o = cmp(ORDINAL, x, y), o2 = cmp(ORDINAL, y, x); EXPECT((o == 0) == eq && o == -o2 && (neg || o == ordinal(a, b)), "ordinal", "ordinal compare(%s,%s)=%d reversed %d, code order %d", show(a), show(b), o, o2, ordinal(a, b)); int c = cmp(CULTURE, x, y), c2 = cmp(CULTURE, y, x); EXPECT(c == -c2 && (c == 0) == eq, "zero", "default compare(%s,%s)=%d reversed %d", show(a), show(b), c, c2); if (prefix(CULTURE, a, b)) EXPECT(c < 0 && o < 0, "prefix", "prefix %s of %s", show(a), show(b)); int k = cmp(NOCASE, x, y), k2 = cmp(NOCASE, y, x); EXPECT(k == -k2 && (!eq || k == 0), "antisymmetry", "ignoring case compare(%s,%s)=%d reversed %d", show(a), show(b), k, k2); if (a.n != b.n && mc::skin < 3) EXPECT(k != 0, "zero", "ignoring case %s equals %s", show(a), show(b));
  EXPECT(sg(x->CompareTo(y)) == c && sg(x->CompareTo((Object*)y)) == c, "compareto", "CompareTo(%s,%s)", show(a), show(b)); EXPECT(x->Equals(y) == eq && x->Equals((Object*)y) == eq && String::Equals(x, y) == eq && String::Equals((Object*)x, y) == eq && Object::Equals((Object*)x, (Object*)y) == eq && String::op_Inequality(x, y) == !eq, "equality", "equalities of %s and %s disagree with %d", show(a), show(b), eq); state(mc::mix(a.hash(), b.hash())); }
SUITE(triples, 0, "transitivity over all triples of texts of length 0..2 over {a A b _ 1} (thorough {a A b B _ 1})") { const wchar_t* al = thorough ? L"aAbB_1" : L"aAb_1"; int m = choose(3); Txt a = text(al, 2), b = text(al, 2); String *x = make(a), *y = make(b); int ab = cmp(m, x, y); if (ab > 0) return;
  Txt pool[60]; int n = 0; pool[n++] = Txt(); int k = wcslen(al); for (int i = 0; i < k; i++) { Txt t; t.add(al[i]); pool[n++] = t; for (int j = 0; j < k; j++) { Txt u(t); u.add(al[j]); pool[n++] = u; } }
  for (int i = 0; i < n; i++) { String* z = make(pool[i]); int bc = cmp(m, y, z), ac = cmp(m, x, z); step(2); if (bc <= 0 && (ac > 0 || ((ab < 0 || bc < 0) && ac == 0))) fail("transitivity", "%s: %s <= %s <= %s but compare(first,last)=%d", modes[m], show(a), show(b), show(pool[i]), ac); } state(mc::mix(a.hash(), b.hash() + m)); }
SUITE(char_triples, 0, "transitivity over all triples of printable single characters") { int m = choose(3), i = 32 + choose(95); String* s[95]; for (int k = 0; k < 95; k++) { Txt t; t.add(32 + k); s[k] = make(t); } String* x = s[i - 32]; for (int j = 0; j < 95; j++) { if (cmp(m, x, s[j]) > 0) continue; for (int k = 0; k < 95; k++) { step(); if (cmp(m, s[j], s[k]) <= 0 && cmp(m, x, s[k]) > 0) fail("transitivity", "%s: '%c' <= '%c' <= '%c' is not transitive", modes[m], i, j + 32, k + 32); } } state(i * 3 + m); }
SUITE(letters, 0, "lower case of a letter before its upper case, digits before letters (default order), all letters and digits") { int i = choose(26), j = choose(36); Txt lo, up; lo.add(L'a' + i); up.add(L'A' + i); EXPECT(cmp(CULTURE, make(lo), make(up)) < 0 && cmp(NOCASE, make(lo), make(up)) == 0 && cmp(ORDINAL, make(lo), make(up)) > 0, "letters", "case order of %c", 'a' + i); if (j < 10) { Txt d; d.add(L'0' + j); EXPECT(cmp(CULTURE, make(d), make(up)) < 0 && cmp(CULTURE, make(d), make(lo)) < 0, "letters", "digit order"); } else if (j - 10 > i) { Txt u2, l2; u2.add(L'A' + j - 10); l2.add(L'a' + j - 10); EXPECT(cmp(CULTURE, make(lo), make(l2)) < 0 && cmp(CULTURE, make(up), make(u2)) < 0 && cmp(NOCASE, make(lo), make(u2)) < 0 && cmp(NOCASE, make(up), make(l2)) < 0, "letters", "alphabet order"); } }
static const int far_[] = { INT32_MAX, INT32_MIN, -2 };
static int pos(int n) { int k = choose(n + 6); return k < n + 3 ? k - 1 : far_[k - n - 3]; }
SUITE(windows, 0, "pairs of texts of length 0..3 over {a A b}, every start and length around the limits, 3 modes") {
  Txt a = chooseText(L"aAb", 0, 3), b = chooseText(L"aAb", 0, thorough ? 3 : 2); int m = choose(3), i = pos(a.n), j = pos(b.n), n = pos(4); String *x = make(a), *y = make(b); NOTE("%s compare %s@%d %s@%d length %d", modes[m], show(a), i, show(b), j, n); int r = 0; Ex e = attempt([&] { r = cmpWin(m, x, i, y, j, n); }); bool ok = i >= 0 && j >= 0 && n >= 0 && i <= a.n && j <= b.n;
  expectEx(e, ok ? EXBIT(OK_) : ARG, "window/raise", "comparing windows"); if (ok) { int p = a.n - i < n ? a.n - i : n, q = b.n - j < n ? b.n - j : n; int w = cmp(m, make(a.sub(i, p)), make(b.sub(j, q))); EXPECT(r == w, "window/value", "%s compare of %s@%d and %s@%d over %d = %d, of the texts themselves %d", modes[m], show(a), i, show(b), j, n, r, w); } state(mc::mix(a.hash(), b.hash() + m)); }
SUITE(nulls, 0, "null on either or both sides of every comparison and equality, against texts of length 0..2 and 4 window lengths (0 included)") {
  Txt t = chooseText(L"ab", 0, 2); String* s = make(t); String* z = nullptr; Object* zo = nullptr; int m = choose(3); 
  int r1 = 9, r2 = 9, r3 = 9; Ex e = attempt([&] { r1 = cmp(m, z, s); r2 = cmp(m, s, z); r3 = cmp(m, z, z); }); EXPECT(e == OK_ && r1 < 0 && r2 > 0 && r3 == 0, "null/compare", "%s: null,%s=%d reversed %d null,null=%d (%s)", modes[m], show(t), r1, r2, r3, exName(e));
  r1 = r2 = r3 = 9; e = attempt([&] { r1 = cmpWin(m, z, 0, s, 0, 1); r2 = cmpWin(m, s, 0, z, 0, 1); r3 = cmpWin(m, z, 0, z, 0, 1); }); EXPECT(e == OK_ && r1 < 0 && r2 > 0 && r3 == 0, "null/window", "%s windows: %d %d %d (%s)", modes[m], r1, r2, r3, exName(e));
  int n = pick({ 0, 1, 5, 1000 }), i = choose(3); if (i > t.n) mc::discard(); e = attempt([&] { r1 = cmpWin(m, z, 0, s, i, n); r2 = cmpWin(m, s, i, z, 0, n); r3 = cmpWin(m, z, 0, z, 0, n); }); EXPECT(e == OK_ && r1 < 0 && r2 > 0 && r3 == 0, "null/window", "%s windows of length %d from %d: %d %d %d (%s)", modes[m], n, i, r1, r2, r3, exName(e));
  e = attempt([&] { r1 = s->CompareTo(z); r2 = s->CompareTo(zo); }); EXPECT(e == OK_ && r1 > 0 && r2 > 0, "null/compareto", "CompareTo(null)=%d %d", r1, r2);
  bool b[11]; e = attempt([&] { b[0] = s->Equals(z); b[1] = s->Equals(zo); b[2] = String::Equals(s, z); b[3] = String::Equals(z, s); b[4] = String::Equals(s, zo); b[5] = String::Equals(zo, s); b[6] = Object::Equals(s, zo); b[7] = Object::Equals(zo, s); }); EXPECT(e == OK_, "null/equals", "equality with null raised %s", exName(e)); for (int i = 0; i < 8; i++) EXPECT(!b[i], "null/equals", "equality %d of %s with null is true", i, show(t));
  e = attempt([&] { b[0] = String::Equals(z, z); b[1] = String::Equals(z, zo); b[2] = String::Equals(zo, z); b[3] = Object::Equals(zo, zo); b[4] = !String::op_Inequality(z, z); b[5] = String::op_Inequality(z, s); b[6] = String::op_Inequality(s, z); b[7] = true; }); EXPECT(e == OK_, "null/equals", "equality of nulls raised"); for (int i = 0; i < 8; i++) EXPECT(b[i], "null/both", "equality %d of null and null (or inequality with null) is false", i); state(m);
}
SUITE(non_strings, 0, "every boxed type (zero value), an object, an array and a builder against texts {empty 0 False Object}") {
  Txt t = pick({ Txt(L""), Txt(L"0"), Txt(L"False"), Txt(L"Object") }); int k = choose(NSCALAR + 3); Object* o = k < NSCALAR ? box(V{ scalarTypes[k], 0, 0 }) : k == NSCALAR ? new Object() : k == NSCALAR + 1 ? (Object*)new Array(CharType, 1) : (Object*)new StringBuilder(); String* s = make(t); NOTE("%s against object kind %d", show(t), k);
  bool b[7] = { true, true, true, true, true, true, true }; Ex e = attempt([&] { b[0] = s->Equals(o); b[1] = ((Object*)s)->Equals(o); b[2] = String::Equals(s, o); b[3] = String::Equals(o, s); b[4] = Object::Equals((Object*)s, o); b[5] = Object::Equals(o, (Object*)s); b[6] = String::Equals((String*)nullptr, o); }); EXPECT(e == OK_, "nonstring/equals", "equality with a non-string raised %s", exName(e)); for (int i = 0; i < 7; i++) EXPECT(!b[i], "nonstring/equals", "equality %d with a non-string is true", i);
  expectEx(attempt([&] { s->CompareTo(o); }), EXBIT(xArgument), "nonstring/compare", "comparing with a non-string"); state(k);
}
SUITE(raw_buffers, 0, "comparing raw character buffers: texts of length 0..3 over {a A b}, lengths 0..5, 3 modes agree with the texts cut to that length") { Txt a = chooseText(L"aAb", 0, 3), b = chooseText(L"aAb", 0, 3); int m = choose(3), n = choose(6); Char *p = rawChars(a.c, a.n), *q = rawChars(b.c, b.n); int r = sg(String::Compare(p, 0, q, 0, n, m == NOCASE, m == ORDINAL)), w = cmp(m, make(a.sub(0, a.n < n ? a.n : n)), make(b.sub(0, b.n < n ? b.n : n))); EXPECT(r == w, "raw", "%s raw compare %s %s over %d = %d, texts %d", modes[m], show(a), show(b), n, r, w); }
SUITE(long_texts, 0, "texts of 126..131 equal characters differing at one position in {case, letter, missing, nothing}") { int n = 126 + choose(6), p = choose(n), kind = choose(4); Txt a, b; for (int i = 0; i < n; i++) { a.add(L'm'); b.add(L'm'); } if (kind == 0) b.c[p] = L'M'; if (kind == 1) b.c[p] = L'n'; if (kind == 2) b.n = p; pairLaws(a, b); pairLaws(b, a); }

SUITE(raw_offsets, 0, "raw character buffers with both starting positions 0..3: texts of length 0..3 over {a A b} behind a different lead") { Txt a = chooseText(L"aAb", 0, 2), b = chooseText(L"aAb", 0, 2); int i = choose(4), j = choose(4), m = choose(3), n = choose(4); Txt p(L"xyz", i), q(L"zwv", j); p.add(a); q.add(b); int r = sg(String::Compare(rawChars(p.c, p.n), i, rawChars(q.c, q.n), j, n, m == NOCASE, m == ORDINAL)), w = cmp(m, make(a.sub(0, a.n < n ? a.n : n)), make(b.sub(0, b.n < n ? b.n : n))); EXPECT(r == w, "raw", "%s raw compare %s@%d %s@%d over %d = %d, texts %d", modes[m], show(p), i, show(q), j, n, r, w); state(mc::mix(p.hash(), q.hash())); }
SUITE(large, 0, "texts of 6 (thorough 18) lengths 128..70001 equal or differing at one of 14 (thorough 20) positions by case, by letter or by ending there; whole and windows; plain letters, or with NULs and characters outside the BMP among them") {
  holes(); int n = bigLength(), p = bigPos(n), kind = choose(4), m = choose(3); if (p >= n) mc::discard(); Big a = Big::pattern(n), b = a.sub(0, n); if (kind < 2 && (a.c[p] < L'a' || a.c[p] > L'z')) mc::discard(); if (kind == 0) b.c[p] -= 32; if (kind == 1) b.c[p] += 1; if (kind == 2) b.n = p; NOTE("%s length %d position %d kind %d", modes[m], n, p, kind); String *x = mk(a), *y = mk(b); int r = cmp(m, x, y), q = cmp(m, y, x); bool eq = kind == 3 || (kind == 0 && m == NOCASE); EXPECT(r == -q && (r == 0) == eq, "large/order", "compare %d reversed %d", r, q);
  int want = kind == 1 ? -1 : kind == 2 ? 1 : kind == 3 ? 0 : m == NOCASE ? 0 : m == ORDINAL ? 1 : -1; EXPECT(r == want, "large/order", "compare %d, expected %d", r, want); bool e = kind == 3; EXPECT(x->Equals(y) == e && y->Equals((Object*)x) == e && String::Equals(x, y) == e && Object::Equals((Object*)x, (Object*)y) == e && String::op_Inequality(x, y) == !e, "large/equal", "equalities");
  EXPECT(cmpWin(m, x, 0, y, 0, p) == 0, "large/window", "equal windows before the difference differ"); if (kind != 2) EXPECT(cmpWin(m, x, 0, y, 0, p + 1) == want && cmpWin(m, x, p, y, p, 1) == want && cmpWin(m, x, p, y, p, n) == want, "large/window", "windows with the difference"); if (p + 1 < n && kind != 2) EXPECT(cmpWin(m, x, p + 1, y, p + 1, n) == 0, "large/window", "windows after the difference differ"); state(mc::mix(mc::mix(n, p), kind * 3 + m)); }

SUITE(wide, 0, "texts of 140003 and 300007 characters that differ at one of 9 places (letter, case, or ending there), whole and by window from there, in three modes") {
  int n = pick({ 140003, 300007 }), ps[] = { 0, 32769, 65537, 99999, 131071, 131072, 131073, n / 2, n - 1 }, p = pick(ps), kind = choose(4), m = choose(3); Big a = Big::pattern(n), b = a.sub(0, n); if (kind == 0) b.c[p] -= 32; if (kind == 1) b.c[p] += 1; if (kind == 2) b.n = p; NOTE("%s length %d position %d kind %d", modes[m], n, p, kind); String *x = mk(a), *y = mk(b); int r = cmp(m, x, y), q = cmp(m, y, x);
  int want = kind == 1 ? -1 : kind == 2 ? 1 : kind == 3 ? 0 : m == NOCASE ? 0 : m == ORDINAL ? 1 : -1; EXPECT(r == want && q == -want, "large/order", "compare %d reversed %d, expected %d", r, q, want); bool e = kind == 3; EXPECT(x->Equals(y) == e && y->Equals((Object*)x) == e && String::Equals(x, y) == e && String::op_Inequality(x, y) == !e, "large/equal", "equalities");
  EXPECT(x->StartsWith(y) == (kind >= 2) && y->StartsWith(x) == e && x->EndsWith(y) == (e || (kind == 2 && p == 0)) && y->EndsWith(x) == e, "large/ends", "starts or ends"); if (kind != 2) EXPECT(cmpWin(m, x, 0, y, 0, p) == 0 && cmpWin(m, x, p, y, p, n) == want && cmpWin(m, x, 0, y, 0, p + 1) == want && (p + 1 == n || cmpWin(m, x, p + 1, y, p + 1, n) == 0), "large/window", "windows"); state(mc::mix(mc::mix(n, p), kind * 3 + m)); }
// Differences planted in long texts: where word-at-a-time comparison, folding or checksums would go wrong.
static const wchar_t twoChars[][2] = { { L'a', L'b' }, { L'a', L'A' }, { L'A', L'b' }, { L'a', L'B' }, { L'@', L'`' }, { L'[', L'{' }, { 0, L'a' }, { 0x61, 0x161 }, { 0x4E41, 0x4E61 }, { 0x100, 0xFF }, { 0x61, 0x100 }, { 0x3FFF, 0x4E00 }, { 0xFFFF, 0x100 } };
SUITE(long_pairs, 0, "texts of 17 (thorough 22) lengths 5..1000 over two backgrounds, with one of 13 pairs of easily confused characters at one place, exchanged between two places 1..64 apart, or with two such differences in opposite directions") {
  static const int ns[] = { 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 130, 260, 255, 256, 257, 600, 1000 }, ds[] = { 1, 2, 3, 4, 5, 7, 8, 16, 32, 64 }; int n = ns[choose(thorough ? 22 : 17)], kind = choose(3), k = choose(13), at[6] = { 0, 1, 2, n / 2, n - 2, n - 1 }, p = at[choose(6)]; bool mixed = choose(2); Txt a; for (int i = 0; i < n; i++) a.add(mixed ? L'c' + i * 7 % 23 : L'm'); Txt b(a); wchar_t x = twoChars[k][0], y = twoChars[k][1]; int q = -1, j = -1; a.c[p] = x; b.c[p] = y;
  if (kind) { q = p + ds[choose(10)]; if (q >= n) mc::discard(); j = kind == 1 ? k : choose(13); a.c[q] = twoChars[j][1]; b.c[q] = twoChars[j][0]; } NOTE("length %d, U+%X and U+%X at %d%s", n, x, y, p, kind == 1 ? ", exchanged" : kind == 2 ? ", another difference" : ""); if (kind) NOTE("second place %d, characters U+%X and U+%X", q, twoChars[j][1], twoChars[j][0]);
  pairLaws(a, b); String *s = make(a), *t = make(b); Txt one(&x, 1), two(&y, 1); if (!eqUnder(NOCASE, one, two)) for (int m = 0; m < 3; m++) { int want = cmp(m, make(one), make(two)), got = cmp(m, s, t); EXPECT(got == want, "long/first", "%s: compare = %d, of the first characters that differ %d", modes[m], got, want); } for (int m = 0; m < 3; m++) EXPECT(cmpWin(m, s, 0, t, 0, p) == 0, "long/window", "%s: equal windows differ", modes[m]); state(mc::mix(mc::mix(n, p), mc::mix(q, k))); }

// ---- arguments of every magnitude, characters of every kind, middle-sized windows
SUITE(far_args, 0, "windows into texts of length 0, 1, 5 and 300 with starts and lengths of 129 magnitudes of either sign, in one, two or all three places, 3 modes") {
  int n = pick({ 0, 1, 5, 300 }), m = choose(3), form = choose(7), x = farInts[choose(NFAR)]; Txt a, b; for (int i = 0; i < n; i++) { a.add(L'a' + i % 26); b.add(i == 200 ? L'!' : L'a' + i % 26); } String *s = make(a), *t = make(b); NOTE("length %d, %d in form %d, %s", n, x, form, modes[m]);
  auto one = [&](int i, int j, int l) { bool ok = i >= 0 && j >= 0 && l >= 0 && i <= n && j <= n; int r = 9; Ex e = attempt([&] { r = cmpWin(m, s, i, t, j, l); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "far/raise", "comparing windows"); if (ok) { int w = cmp(m, make(a.sub(i, l < n - i ? l : n - i)), make(b.sub(j, l < n - j ? l : n - j))); EXPECT(r == w, "far/value", "compare @%d @%d over %d = %d, of the texts themselves %d", i, j, l, r, w); } };
  if (form == 0) for (int l : { 0, 1, 4 }) one(x, 0, l); else if (form == 1) for (int l : { 0, 1, 4 }) one(0, x, l); else if (form == 2) { one(0, 0, x); one(n, n, x); one(n / 2, n / 2, x); one(0, n, x); } else if (form == 3) one(x, x, 1); else if (form == 4) for (int k = 0; k < NFAR; k += 3) one(x, farInts[k], 1); else if (form == 5) for (int k = 0; k < NFAR; k += 3) one(x, 0, farInts[k]); else for (int k = 0; k < NFAR; k += 3) one(0, x, farInts[k]); state(mc::mix(mc::mix(n, m), mc::mix(form, x))); }
SUITE(every_char, 0, "all pairs of characters of 116 kinds (controls, every ASCII class, Latin, Greek, spaces, surrogates, full width, outside the BMP), alone, after a common letter and before one: equalities, ordinal code order, antisymmetry, zero only for equal texts in the default order") {
  wchar_t x = ladderChar(); int form = choose(3); for (int k = 0; k < NCHAR; k++) { wchar_t y = (wchar_t)charLadder[k]; Txt a, b; if (form == 1) { a.add(L'm'); b.add(L'm'); } a.add(x); b.add(y); if (form == 2) { a.add(L'z'); b.add(L'a'); } String *s = make(a), *t = make(b); bool eq = a == b; int o = cmp(ORDINAL, s, t), c = cmp(CULTURE, s, t), n = cmp(NOCASE, s, t);
    EXPECT(o == ordinal(a, b) && o == -cmp(ORDINAL, t, s), "every/ordinal", "ordinal compare(%s,%s)=%d", show(a), show(b), o); EXPECT(c == -cmp(CULTURE, t, s) && (c == 0) == eq, "every/zero", "default compare(%s,%s)=%d", show(a), show(b), c); EXPECT(n == -cmp(NOCASE, t, s) && (!eq || n == 0), "every/antisymmetry", "ignoring case compare(%s,%s)=%d", show(a), show(b), n); if (form < 2 && x < 128 && y < 128) EXPECT((n == 0) == (fold(x) == fold(y)), "every/nocase", "ignoring case compare(%s,%s)=%d", show(a), show(b), n);
    EXPECT(s->Equals(t) == eq && s->Equals((Object*)t) == eq && String::Equals(s, t) == eq && String::Equals((Object*)s, t) == eq && String::Equals(s, (Object*)t) == eq && Object::Equals((Object*)s, (Object*)t) == eq && String::op_Inequality(s, t) == !eq, "every/equality", "equalities of %s and %s disagree with %d", show(a), show(b), eq); EXPECT(sg(s->CompareTo(t)) == c && sg(s->CompareTo((Object*)t)) == c, "every/compareto", "CompareTo(%s,%s)", show(a), show(b)); int p = form == 1; EXPECT(cmpWin(ORDINAL, s, p, t, p, 1) == (x < y ? -1 : x > y), "every/window", "window of U+%X and U+%X", (unsigned)x, (unsigned)y); } state(x * 3 + form); }
SUITE(medium, 0, "texts of all ladder lengths to 1025 (thorough 10000 capped at 2500) equal, one character longer, or differing by letter, case or code at 6 places; equalities, three orders, windows of 5 lengths around the difference from starts shifted by 0..2") {
  int n = ladder(1, thorough ? 2500 : 1025), where = choose(6), kind = choose(5), m = choose(3), d = choose(3); int p = where == 0 ? 0 : where == 1 ? n - 1 : where == 2 ? n / 2 : where == 3 ? 1 : where == 4 ? n - 2 : n / 3; if (p < 0 || p >= n) mc::discard(); Txt a, b; for (int i = 0; i < n; i++) a.add(L'a' + (i * 7 + i / 26) % 24); b = a; if (kind == 1) b.c[p] += 1; if (kind == 2) b.c[p] -= 32; if (kind == 3) b.c[p] += 0x400; if (kind == 4) b.n = p; NOTE("length %d, kind %d at %d, %s", n, kind, p, modes[m]); if (kind < 3 || kind == 4) if (!m && !d) pairLaws(a, b);
  Txt la(L"QQ", d), lb(L"RRRR", d * 2); la.add(a); lb.add(b); String *s = make(la), *t = make(lb); for (int l : { 0, p, p + 1, p + 2, n, n + 7 }) { if (kind == 3 && l > p && m != ORDINAL) continue; int w = cmp(m, make(a.sub(0, l < n ? l : n)), make(b.sub(0, l < b.n ? l : b.n))); if (m == ORDINAL) { Txt x = a.sub(0, l < n ? l : n), y = b.sub(0, l < b.n ? l : b.n); EXPECT(w == ordinal(x, y), "medium/ordinal", "ordinal compare over %d = %d", l, w); } int r = cmpWin(m, s, d, t, d * 2, l); EXPECT(r == w, "medium/window", "windows of %d = %d, texts %d", l, r, w); } state(mc::mix(mc::mix(n, p), kind * 9 + m * 3 + d)); }
