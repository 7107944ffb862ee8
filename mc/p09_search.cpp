// P09: searches equal a naive scan of the requested window.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
static bool at(const Txt& t, int i, const Txt& p) { if (i < 0 || i + p.n > t.n) return false; for (int k = 0; k < p.n; k++) if (t.c[i + k] != p.c[k]) return false; return true; }
// first / last position in [st, st+count) where p lies wholly inside the window
static int first(const Txt& t, const Txt& p, int st, int count) { for (int i = st; i + p.n <= st + count; i++) if (at(t, i, p)) return i; return -1; }
static int last(const Txt& t, const Txt& p, int st, int count) { for (int i = st - p.n + 1; i > st - count; i--) if (i >= 0 && at(t, i, p)) return i; return -1; }
static int firstC(const Txt& t, const Txt& set, int st, int count) { for (int i = st; i < st + count; i++) for (int k = 0; k < set.n; k++) if (t.c[i] == set.c[k]) return i; return -1; }
static int lastC(const Txt& t, const Txt& set, int st, int count) { for (int i = st; i > st - count; i--) for (int k = 0; k < set.n; k++) if (t.c[i] == set.c[k]) return i; return -1; }
static String* make(const Txt& t) { for (int i = 0; i < t.n; i++) if (!t.c[i]) return new String(mkChars(t)); return mk(t); }
struct Got { Ex e; int r; };
template <class F> static Got call(F f) { Got g; g.r = -77; g.e = attempt([&] { g.r = f(); }); return g; }
static void same(const Got& g, bool ok, int want, const char* key, const char* what, const Txt& t, const Txt& p, int st, int c) {
  step(); if (ok ? g.e != OK_ : !(ARG & EXBIT(g.e))) fail(key, "%s(%s in %s, start %d, count %d): got %s, expected %s", what, show(p), show(t), st, c, exName(g.e), ok ? "a result" : "an argument error");
  if (ok && g.r != want) fail(key, "%s(%s in %s, start %d, count %d) = %d, expected %d", what, show(p), show(t), st, c, g.r, want);
}
// window chosen from every value -1..n+2 and the integer extremes
static int win(int n) { static const int x[] = { INT32_MAX, INT32_MIN, INT32_MIN + 1, -2 }; int k = choose(n + 4 + 4); return k < n + 4 ? k - 1 : x[k - n - 4]; }
static bool insideF(int n, int st, int c) { return st >= 0 && c >= 0 && st <= n - c; }
static bool insideB(int n, int st, int c) { return st >= 0 && c >= 0 && st < n && c <= st + 1; }
static void whole(const Txt& t, const Txt& p) {
  String *s = make(t), *q = make(p);
  same(call([&] { return s->IndexOf(q); }), true, first(t, p, 0, t.n), "indexof", "IndexOf", t, p, 0, t.n);
  same(call([&] { return (int)s->Contains(q); }), true, first(t, p, 0, t.n) >= 0, "contains", "Contains", t, p, 0, t.n);
  same(call([&] { return (int)s->StartsWith(q); }), true, at(t, 0, p), "startswith", "StartsWith", t, p, 0, t.n);
  same(call([&] { return (int)s->EndsWith(q); }), true, at(t, t.n - p.n, p), "endswith", "EndsWith", t, p, 0, t.n);
  if (p.n) same(call([&] { return s->LastIndexOf(q); }), true, last(t, p, t.n - 1, t.n), "lastindexof", "LastIndexOf", t, p, t.n - 1, t.n);
  else { int r = -9; Ex e = attempt([&] { r = s->LastIndexOf(q); }); EXPECT(e == OK_ && r >= (t.n ? t.n - 1 : -1) && r <= t.n, "lastindexof/empty", "LastIndexOf of the empty text in %s = %d (%s)", show(t), r, exName(e)); }
  if (!sameText(s, t) || !sameText(q, p)) fail("changed", "a search changed its text"); state(mc::mix(t.hash(), p.hash()));
}
static void windowed(const Txt& t, const Txt& p, int st, int c) {
  String *s = make(t), *q = make(p); int n = t.n;
  same(call([&] { return s->IndexOf(q, st, c); }), insideF(n, st, c), insideF(n, st, c) ? first(t, p, st, c) : 0, "indexof/window", "IndexOf", t, p, st, c);
  bool in2 = st >= 0 && st <= n; same(call([&] { return s->IndexOf(q, st); }), in2, in2 ? first(t, p, st, n - st) : 0, "indexof/from", "IndexOf", t, p, st, -1);
  // backwards: a negative start or count means the whole rest
  int bs = st < 0 ? n - 1 : st, bc = c < 0 ? bs + 1 : c; bool ok = n == 0 ? (bs <= 0 && bc <= bs + 1) : insideB(n, bs, bc);
  if (n == 0 && bs >= 0) { Got z = call([&] { return s->LastIndexOf(q, st, c); }); if (z.e == OK_ ? z.r != -1 && (p.n || z.r) : !(ARG & EXBIT(z.e))) fail("lastindexof/window", "LastIndexOf in the empty text from %d count %d: %s, %d", st, c, exName(z.e), z.r); return; }   // an empty text has no position to start from: not found and a refusal are accepted
  if (st < -1 || c < -1) { Got g = call([&] { return s->LastIndexOf(q, st, c); }); if (g.e != OK_) { if (!(ARG & EXBIT(g.e))) fail("lastindexof/raise", "negative window raised %s", exName(g.e)); return; } }
  if (p.n) same(call([&] { return s->LastIndexOf(q, st, c); }), ok, ok ? last(t, p, bs, bc) : 0, "lastindexof/window", "LastIndexOf", t, p, st, c);
  else { Got g = call([&] { return s->LastIndexOf(q, st, c); }); step(); if (!ok ? !(ARG & EXBIT(g.e)) : (g.e != OK_ || (g.r != bs && g.r != bs + 1 && !(n == 0 && g.r <= 0)))) fail("lastindexof/empty", "LastIndexOf of the empty text in %s from %d count %d: %s, %d", show(t), st, c, exName(g.e), g.r); }
  if (c == -1 && st >= 0 && p.n) same(call([&] { return s->LastIndexOf(q, st); }), ok, ok ? last(t, p, bs, bc) : 0, "lastindexof/from", "LastIndexOf", t, p, st, c);
}
SUITE(whole_2, 0, "every text of length 0..7 (thorough 0..9) and pattern of length 0..4 (0..5) over {a b}: first, last, contains, starts, ends; letters also stand for 5 sets of confusable characters") { skins(); Txt t = chooseText(L"ab", 0, thorough ? 9 : 7), p = chooseText(L"ab", 0, thorough ? 5 : 4); NOTE("%s in %s", show(p), show(t)); whole(t, p); }
SUITE(whole_3, 0, "every text of length 0..5 (thorough 0..6) and pattern of length 0..3 over {a NUL C}") { static const wchar_t al[] = { L'a', 1, L'C', 0 }; Txt t = chooseText(al, 0, thorough ? 6 : 5), p = chooseText(al, 0, 3); for (int i = 0; i < t.n; i++) if (t.c[i] == 1) t.c[i] = 0; for (int i = 0; i < p.n; i++) if (p.c[i] == 1) p.c[i] = 0; NOTE("%s in %s", show(p), show(t)); whole(t, p); }
SUITE(window, 0, "every text of length 0..5 (thorough 0..6) and pattern of length 0..3 (0..4) over {a b}, every start and count around the limits; letters also stand for 5 sets of confusable characters") { skins(); Txt t = chooseText(L"ab", 0, thorough ? 6 : 5), p = chooseText(L"ab", 0, thorough ? 4 : 3); int st = win(t.n), c = win(t.n); NOTE("%s in %s from %d count %d", show(p), show(t), st, c); windowed(t, p, st, c); state(mc::mix(t.hash(), p.hash())); }
SUITE(window_nul, 0, "texts of length 0..4 with NUL characters, every window") { Txt t = chooseText(L"a0", 0, 4), p = chooseText(L"a0", 0, 2); for (int i = 0; i < t.n; i++) if (t.c[i] == L'0') t.c[i] = 0; for (int i = 0; i < p.n; i++) if (p.c[i] == L'0') p.c[i] = 0; int st = win(t.n), c = win(t.n); NOTE("%s in %s from %d count %d", show(p), show(t), st, c); windowed(t, p, st, c); state(mc::mix(t.hash(), p.hash())); }
SUITE(self, 0, "every text of length 0..7 over {a b} searched in itself, and every prefix and suffix of it extended by one character; letters also stand for 5 sets of confusable characters") { skins(); Txt t = chooseText(L"ab", 0, 7); String* s = make(t); EXPECT(s->IndexOf(s) == 0 && s->Contains(s) && s->StartsWith(s) && s->EndsWith(s), "self", "%s not found in itself", show(t)); if (t.n) EXPECT(s->LastIndexOf(s) == 0, "self", "last"); Txt x(t); x.add(SK(L'a')); whole(t, x); whole(x, t); Txt y = SK(Txt(L"b")); y.add(t); whole(t, y); whole(y, t); }
SUITE(character, 0, "every text of length 0..5 over {a b NUL} and character of {a b c NUL}, every window: IndexOf, LastIndexOf, EndsWith; letters also stand for 5 sets of confusable characters") { skins();
  Txt t = chooseText(L"ab0", 0, thorough ? 6 : 5); for (int i = 0; i < t.n; i++) if (t.c[i] == L'0') t.c[i] = 0; wchar_t ch = SK(pick({ L'a', L'b', L'c', L'\0' })); Txt p; p.add(ch); int n = t.n, st = win(n), c = win(n), form = choose(3); String* s = make(t); NOTE("%s in %s from %d count %d", show(p), show(t), st, c);
  if (form == 0) { same(call([&] { return s->IndexOf((Char)ch, st, c); }), insideF(n, st, c), insideF(n, st, c) ? firstC(t, p, st, c) : 0, "char/window", "IndexOf(char)", t, p, st, c); }
  else if (form == 1) { if (st == -1 && c == -1) { same(call([&] { return s->IndexOf((Char)ch); }), true, firstC(t, p, 0, n), "char", "IndexOf(char)", t, p, 0, n); same(call([&] { return s->LastIndexOf((Char)ch); }), true, lastC(t, p, n - 1, n), "char/last", "LastIndexOf(char)", t, p, n - 1, n); same(call([&] { return (int)s->EndsWith((Char)ch); }), true, n && t.c[n - 1] == ch, "char/ends", "EndsWith(char)", t, p, 0, n); } bool in = st >= 0 && st <= n; same(call([&] { return s->IndexOf((Char)ch, st); }), in, in ? firstC(t, p, st, n - st) : 0, "char/from", "IndexOf(char)", t, p, st, -1); }
  else { int bs = st < 0 ? n - 1 : st, bc = c < 0 ? bs + 1 : c; bool ok = insideB(n, bs, bc); if (n == 0 && bs >= 0) { Got z = call([&] { return s->LastIndexOf((Char)ch, st, c); }); if (z.e == OK_ ? z.r != -1 : !(ARG & EXBIT(z.e))) fail("char/lastwindow", "LastIndexOf(char) in the empty text from %d count %d: %s, %d", st, c, exName(z.e), z.r); return; } if (n == 0) ok = bc <= 0; Got g = call([&] { return s->LastIndexOf((Char)ch, st, c); }); if ((st < -1 || c < -1) && g.e != OK_ && (ARG & EXBIT(g.e))) return; same(g, ok, ok ? lastC(t, p, bs, bc) : 0, "char/lastwindow", "LastIndexOf(char)", t, p, st, c); }
  state(mc::mix(t.hash(), ch));
}
SUITE(any_of, 0, "every text of length 0..4 over {a b c}, every set of 0..3 of {a b x}, every window: IndexOfAny, LastIndexOfAny; letters also stand for 5 sets of confusable characters") { skins();
  Txt t = chooseText(L"abc", 0, thorough ? 5 : 4), set = chooseText(L"abx", 0, thorough ? 3 : 2); int n = t.n, st = win(n), c = win(n), form = choose(4); String* s = make(t); Array* a = mkChars(set); NOTE("any of %s in %s from %d count %d form %d", show(set), show(t), st, c, form);
  if (form == 0) same(call([&] { return s->IndexOfAny(a, st, c); }), insideF(n, st, c), insideF(n, st, c) ? firstC(t, set, st, c) : 0, "any/window", "IndexOfAny", t, set, st, c);
  else if (form == 1) { bool in = st >= 0 && st <= n; same(call([&] { return s->IndexOfAny(a, st); }), in, in ? firstC(t, set, st, n - st) : 0, "any/from", "IndexOfAny", t, set, st, -1); }
  else if (form == 2) { if (st != -1 || c != -1) mc::discard(); same(call([&] { return s->IndexOfAny(a); }), true, firstC(t, set, 0, n), "any", "IndexOfAny", t, set, 0, n); same(call([&] { return s->LastIndexOfAny(a); }), true, lastC(t, set, n - 1, n), "any/last", "LastIndexOfAny", t, set, n - 1, n); }
  else { int bs = st < 0 ? n - 1 : st, bc = c < 0 ? bs + 1 : c; if (n == 0 && bs >= 0) { Got z = call([&] { return s->LastIndexOfAny(a, st, c); }); if (z.e == OK_ ? z.r != -1 : !(ARG & EXBIT(z.e))) fail("any/lastwindow", "LastIndexOfAny in the empty text from %d count %d: %s, %d", st, c, exName(z.e), z.r); return; } bool ok = n == 0 ? bc <= 0 : insideB(n, bs, bc); Got g = call([&] { return s->LastIndexOfAny(a, st, c); }); if ((st < -1 || c < -1) && g.e != OK_ && (ARG & EXBIT(g.e))) return; same(g, ok, ok ? lastC(t, set, bs, bc) : 0, "any/lastwindow", "LastIndexOfAny", t, set, st, c); }
  state(mc::mix(t.hash(), set.hash()));
}
SUITE(nulls, 0, "null pattern or set for every search, on texts of length 0..2") { Txt t = chooseText(L"ab", 0, 2); String* s = make(t); int op = choose(12); NOTE("search %d for null in %s", op, show(t)); Ex e = attempt([&] { String* z = nullptr; Array* a = nullptr; switch (op) { case 0: s->IndexOf(z); break; case 1: s->IndexOf(z, 0); break; case 2: s->IndexOf(z, 0, 0); break; case 3: s->LastIndexOf(z); break; case 4: s->LastIndexOf(z, 0, 0); break; case 5: s->Contains(z); break; case 6: s->StartsWith(z); break; case 7: s->EndsWith(z); break; case 8: s->IndexOfAny(a); break; case 9: s->IndexOfAny(a, 0, 0); break; case 10: s->LastIndexOfAny(a); break; case 11: s->IndexOfAny(a, 0); break; } }); expectEx(e, EXBIT(xArgumentNull), "null", "searching for null"); state(op); }
SUITE(set_kinds, 0, "sets of every element type and rank 1..3") { int k = choose(NTYPES), rank = 1 + choose(3), op = choose(2); Array* a = rank == 1 ? new Array(elemTypes[k], 2) : rank == 2 ? new Array(elemTypes[k], 2, 1) : new Array(elemTypes[k], 2, 1, 1); String* s = mk(L"abc"); int r = 0; Ex e = attempt([&] { r = op ? s->LastIndexOfAny(a) : s->IndexOfAny(a); }); if (elemTypes[k] == CharType && rank == 1) EXPECT(e == OK_ && r == -1, "any/kind", "plain set"); else expectEx(e, ARG | EXBIT(xRank), "any/kind", "set of the wrong kind"); state(k * 8 + rank * 2 + op); }
SUITE(count_in_builder, 0, "every builder text of length 0..7 and pattern of length 0..3 over {a b}, every window: number of non-overlapping occurrences; letters also stand for 5 sets of confusable characters") { skins();
  Txt t = chooseText(L"ab", 0, thorough ? 8 : 6), p = chooseText(L"ab", 0, 3); StringBuilder* sb = new StringBuilder(make(t)); String* q = make(p); int n = t.n, st = win(n), c = win(n); NOTE("count %s in %s from %d count %d", show(p), show(t), st, c); int want = 0; bool ok = insideF(n, st, c);
  Got g = call([&] { return sb->CountSubStrings(q, st, c); }); if (p.n == 0) { if (g.e != OK_) expectEx(g.e, ARG, "count/empty", "counting the empty text"); return; } if (ok) for (int i = st; i + p.n <= st + c;) if (at(t, i, p)) want++, i += p.n; else i++; same(g, ok, want, "count", "CountSubStrings", t, p, st, c); state(mc::mix(t.hash(), p.hash())); }
SUITE(count_null, 0, "counting null in builders of length 0..2") { Txt t = chooseText(L"ab", 0, 2); StringBuilder* sb = new StringBuilder(make(t)); expectEx(attempt([&] { sb->CountSubStrings(nullptr, 0, t.n); }), EXBIT(xArgumentNull), "count/null", "counting null"); }
SUITE(long_texts, 0, "texts of 126..132 and 255..258 characters with one pattern of length 1..3 at every position") { int n = choose(11); n = n < 7 ? 126 + n : 248 + n; int m = 1 + choose(3), pos = choose(n - m + 1); Txt t, p; for (int i = 0; i < n; i++) t.add(L'.'); for (int i = 0; i < m; i++) { t.c[pos + i] = L'x' + (i == 0); p.add(L'x' + (i == 0)); } NOTE("length %d pattern at %d", n, pos); whole(t, p); }

static bool atB(const Big& t, int i, const Big& p) { return i >= 0 && i + p.n <= t.n && !memcmp(t.c + i, p.c, p.n * sizeof(wchar_t)); }
SUITE(large, 0, "texts of 6 (thorough 18) lengths 128..70001 with a pattern of 1, 2, 5 or 130 characters at two of 14 (thorough 20) positions (or once, or nowhere), searched forward and backward as text, character and set from 5 windows; plain letters, or with NULs and characters outside the BMP among them") {
  holes(); int n = bigLength(), m = pick({ 1, 2, 5, 130 }), p1 = bigPos(n), p2 = bigPos(n), w = choose(5); if (m >= n || p1 > n - m || p2 < p1 || p2 > n - m || (p2 > p1 && p2 < p1 + m)) mc::discard(); Big t = Big::pattern(n), p = Big::pattern(m, 3); p.c[0] = L'Y'; if (m > 1) p.c[m - 1] = L'Z'; memcpy(t.c + p1, p.c, m * sizeof(wchar_t)); memcpy(t.c + p2, p.c, m * sizeof(wchar_t)); String *s = mk(t), *q = mk(p); NOTE("length %d pattern %d at %d and %d window kind %d", n, m, p1, p2, w); Big nope = p.splice(m - 1, 1, L"!", 1);
  int st = w == 0 ? 0 : w == 1 ? p1 : w == 2 ? p1 + 1 : w == 3 ? 0 : p2, c = w == 3 ? p2 + m - 1 : w == 2 ? p2 + m - p1 - 1 : n - st; if (w == 2 && p1 == p2) c = n - st; int f = -1; for (int i : { p1, p2 }) if (f < 0 && i >= st && i + m <= st + c) f = i; int fc = -1; for (int i : { p1, p2 }) if (fc < 0 && i >= st && i < st + c) fc = i;
  EXPECT(s->IndexOf(q, st, c) == f, "large/first", "text found at %d, expected %d", s->IndexOf(q, st, c), f); EXPECT(s->IndexOf((Char)L'Y', st, c) == fc, "large/first", "character found at %d, expected %d", s->IndexOf((Char)L'Y', st, c), fc); EXPECT(s->IndexOfAny(mkChars(Txt(L"!Y")), st, c) == fc, "large/first", "set"); EXPECT(s->IndexOf(mk(nope), st, c) == -1 && !s->Contains(mk(nope)), "large/first", "absent text found");
  if (st + c == n) EXPECT(s->IndexOf(q, st) == f && s->IndexOf((Char)L'Y', st) == fc && s->IndexOfAny(mkChars(Txt(L"!Y")), st) == fc, "large/first", "open-ended search");
  int bs = st + c - 1, l = -1, lc = -1; if (bs < 0) return; for (int i : { p2, p1 }) { if (l < 0 && i >= st && i + m - 1 <= bs) l = i; if (lc < 0 && i >= st && i <= bs) lc = i; } EXPECT(s->LastIndexOf(q, bs, c) == l, "large/last", "text found at %d, expected %d", s->LastIndexOf(q, bs, c), l); EXPECT(s->LastIndexOf((Char)L'Y', bs, c) == lc && s->LastIndexOfAny(mkChars(Txt(L"Y")), bs, c) == lc, "large/last", "character found at %d, expected %d", s->LastIndexOf((Char)L'Y', bs, c), lc);
  if (w == 0) { EXPECT(s->IndexOf(q) == p1 && s->LastIndexOf(q) == p2 && s->Contains(q) && s->IndexOf((Char)L'Y') == p1 && s->LastIndexOf((Char)L'Y') == p2, "large/whole", "whole text: %d %d", s->IndexOf(q), s->LastIndexOf(q)); EXPECT(s->StartsWith(q) == (p1 == 0) && s->EndsWith(q) == (p2 == n - m), "large/ends", "starts or ends"); StringBuilder* sb = new StringBuilder(s); EXPECT(sb->CountSubStrings(q, 0, n) == 1 + (p1 != p2), "large/count", "count %d", sb->CountSubStrings(q, 0, n)); }
  expectEx(attempt([&] { s->IndexOf(q, st, n - st + 1); }), ARG, "large/window", "window past the end"); if (bs >= 0) expectEx(attempt([&] { s->LastIndexOf(q, bs, bs + 2); }), ARG, "large/window", "window before the start"); state(mc::mix(mc::mix(n, m), mc::mix(p1, mc::mix(p2, w)))); }
SUITE(large_sets, 0, "sets of 9 sizes 255..70001 without a member in the text, or with one at the set's start, middle, last 2 places or place 255, 256, 32767, 32768, 65535 or 65536: found in a text of 1..3 and 40 characters, first and last") {
  static const int ns[] = { 255, 256, 257, 32767, 32768, 32769, 65536, 65537, 70001 }; int n = pick(ns), pl[] = { -1, 0, n / 2, n - 2, n - 1, 255, 256, 32767, 32768, 65535, 65536 }, at = pick(pl), m = pick({ 1, 2, 3, 40 }); if (at >= n) mc::discard(); NOTE("set of %d, member at %d, text of %d", n, at, m); Array* a = new Array(CharType, n); for (int i = 0; i < n; i++) *(Char*)a->Address(i) = i == at ? L'q' : (wchar_t)(0x3000 + i); Txt t; for (int i = 0; i < m; i++) t.add(i == m / 3 || i == m / 2 ? L'q' : L'a' + i % 9); String* s = make(t);
  EXPECT(s->IndexOfAny(a) == (at < 0 ? -1 : m / 3), "large/set", "first at %d", s->IndexOfAny(a)); EXPECT(s->LastIndexOfAny(a) == (at < 0 ? -1 : m / 2), "large/set", "last at %d", s->LastIndexOfAny(a)); EXPECT(s->IndexOfAny(a, 0, m) == (at < 0 ? -1 : m / 3) && s->LastIndexOfAny(a, m - 1, m) == (at < 0 ? -1 : m / 2), "large/set", "in the whole window"); state(mc::mix(mc::mix(n, at), m)); }
SUITE(large_patterns, 0, "patterns of 4 (thorough 9) lengths 4095..70001, preceded or not by a near twin that differs in one place (first, last, middle, 4 powers of two, or nowhere), and only the twin in the text: first, last, contained, at either end, by window") {
  static const int ns[] = { 4095, 8192, 16385, 33000, 8191, 16384, 32768, 65536, 70001 }; int n = ns[choose(thorough ? 9 : 4)], pl[] = { 0, n - 1, n / 2, 1024, 4096, 8192, 16384, 32768, 65535 }, at = pick(pl), how = choose(3); if (at >= n) mc::discard(); NOTE("pattern of %d, twin differs at %d, form %d", n, at, how); Big p = Big::pattern(n), q = p.sub(0, n); q.c[at] = L'!'; Big gap = Big::of(L"<>"); Big t = how == 0 ? q.plus(gap).plus(p) : how == 1 ? p.plus(gap).plus(q) : q.plus(gap); int f = how == 0 ? n + 2 : how == 1 ? 0 : -1; String *s = mk(t), *y = mk(p);
  EXPECT(s->IndexOf(y) == f, "large/pattern", "first at %d, expected %d", s->IndexOf(y), f); EXPECT(s->LastIndexOf(y) == f, "large/pattern", "last at %d, expected %d", s->LastIndexOf(y), f); EXPECT(s->Contains(y) == (f >= 0), "large/pattern", "contained"); EXPECT(s->StartsWith(y) == (how == 1), "large/pattern", "starts"); EXPECT(s->EndsWith(y) == (how == 0), "large/pattern", "ends"); EXPECT(s->IndexOf(y, 0, t.n - 1) == (how == 1 ? 0 : -1), "large/pattern", "but for the last character"); if (t.n > n) EXPECT(s->IndexOf(y, 1) == (how == 0 ? f : -1) && s->LastIndexOf(y, t.n - 1, t.n - 1) == (how == 0 ? f : -1), "large/pattern", "but for the first character"); state(mc::mix(mc::mix(n, at), how)); }
SUITE(long_odd, 0, "texts of 1..72 (thorough 140) letters with one odd character (NUL, U+4E20, a twin of the wanted one 256, 65536 or 2^31 above) and one wanted character, both at every place, from 4 windows: as character, as text of 1 and 2, as set of 1, 6 and 70 characters, forward and backward") {
  int n = 1 + choose(thorough ? 140 : 72), p = choose(n), q = choose(n), k = choose(5); if (p == q && k) mc::discard(); static const unsigned odd[] = { 0, 0x4E20, L'q' + 256, L'q' + 65536, L'q' + 0x80000000u }; Txt t; for (int i = 0; i < n; i++) t.add(L'a' + i % 5); t.c[p] = (wchar_t)odd[k]; t.c[q] = L'q'; String* s = make(t); NOTE("length %d odd %X at %d, wanted at %d", n, odd[k], p, q);
  Txt one(L"q"), two(L"q"); if (q + 1 < n) two.add(t.c[q + 1]); else two.add(L'!'); Txt back; back.add(q ? t.c[q - 1] : L'!').add(L'q'); Txt set1(L"q"), set6(L"QRSTUq"), set70; for (int i = 0; i < 69; i++) set70.add((wchar_t)(0x400 + i)); set70.add(L'q'); Txt none(L"XYZWVUTSRz");
  const struct { int st, c; } w[] = { { 0, n }, { 0, q }, { p, n - p }, { q < p ? q : p, (q < p ? p - q : q - p) + 1 } };
  for (auto& x : w) { same(call([&] { return s->IndexOf((Char)L'q', x.st, x.c); }), true, first(t, one, x.st, x.c), "long/char", "IndexOf(character)", t, one, x.st, x.c); for (const Txt* u : { &one, &two, &back }) same(call([&] { return s->IndexOf(make(*u), x.st, x.c); }), true, first(t, *u, x.st, x.c), "long/text", "IndexOf", t, *u, x.st, x.c); for (const Txt* u : { &set1, &set6, &set70, &none }) same(call([&] { return s->IndexOfAny(mkChars(*u), x.st, x.c); }), true, firstC(t, *u, x.st, x.c), "long/any", "IndexOfAny", t, *u, x.st, x.c);
    int e = x.st + x.c - 1; if (x.c <= 0) continue; same(call([&] { return s->LastIndexOf((Char)L'q', e, x.c); }), true, last(t, one, e, x.c), "long/char", "LastIndexOf(character)", t, one, e, x.c); for (const Txt* u : { &one, &two, &back }) same(call([&] { return s->LastIndexOf(make(*u), e, x.c); }), true, last(t, *u, e, x.c), "long/text", "LastIndexOf", t, *u, e, x.c); for (const Txt* u : { &set1, &set6, &set70, &none }) same(call([&] { return s->LastIndexOfAny(mkChars(*u), e, x.c); }), true, lastC(t, *u, e, x.c), "long/any", "LastIndexOfAny", t, *u, e, x.c); }
  if (k == 0) { Txt z; z.add(0); same(call([&] { return s->IndexOf((Char)0); }), true, first(t, z, 0, n), "long/nul", "IndexOf(NUL)", t, z, 0, n); same(call([&] { return s->LastIndexOf((Char)0); }), true, last(t, z, n - 1, n), "long/nul", "LastIndexOf(NUL)", t, z, n - 1, n); Txt head(t.c, p + 1); same(call([&] { return (int)s->StartsWith(make(head)); }), true, 1, "long/starts", "StartsWith", t, head, 0, 0); head.c[p] = L'-'; same(call([&] { return (int)s->StartsWith(make(head)); }), true, 0, "long/starts", "StartsWith", t, head, 0, 0); Txt tail(t.c + p, n - p); same(call([&] { return (int)s->EndsWith(make(tail)); }), true, 1, "long/ends", "EndsWith", t, tail, 0, 0); same(call([&] { return s->IndexOf(make(tail)); }), true, first(t, tail, 0, n), "long/tail", "IndexOf", t, tail, 0, n); if (p + 1 < n) { tail.c[n - p - 1] = L'-'; same(call([&] { return (int)s->EndsWith(make(tail)); }), true, 0, "long/ends", "EndsWith", t, tail, 0, 0); same(call([&] { return s->IndexOf(make(tail)); }), true, -1, "long/tail", "IndexOf", t, tail, 0, n); } }
  state(mc::mix(t.hash(), k)); }

// ---- middle-sized texts, patterns and sets; arguments of every magnitude; characters of every kind
SUITE(medium, 0, "texts of 54 (thorough 73) lengths 6..600 (2500) and patterns of 26 lengths 1..512 at the start, middle, end, one from either end or nowhere, among plain letters or among copies of the pattern cut by one character; whole, and windows that just hold it or miss it by one") {
  static const int ms[] = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129, 255, 256, 512 }; int m = pick(ms), n = ladder(6, thorough ? 2500 : 600), where = choose(6), back = choose(2); if (m > n || (n - m < 4 && where > 1 && where < 5)) mc::discard(); int pos = where == 0 ? 0 : where == 1 ? n - m : where == 2 ? (n - m) / 2 : where == 3 ? 1 : where == 4 ? n - m - 1 : -1;
  Txt p, t; for (int i = 0; i < m - 1; i++) p.add(L'a' + i * 5 % 23); p.add(L'Z'); for (int i = 0; i < n; i++) t.add(back ? (m > 1 ? p.c[i % (m - 1)] : L'z') : L'k' + i % 3); if (pos >= 0) for (int i = 0; i < m; i++) t.c[pos + i] = p.c[i]; NOTE("length %d, pattern of %d at %d", n, m, pos); whole(t, p);
  if (pos >= 0) { windowed(t, p, pos, m); windowed(t, p, pos, m - 1); windowed(t, p, pos + 1, n - pos - 1); windowed(t, p, 0, pos + m); windowed(t, p, 0, pos + m - 1); windowed(t, p, pos + m - 1, m); windowed(t, p, pos + m - 1, m - 1); windowed(t, p, pos + m - 2, pos + m - 1); windowed(t, p, n - 1, n - pos); windowed(t, p, n - 1, n - pos - 1); } else { windowed(t, p, 0, n); windowed(t, p, n - 1, n); } }
SUITE(medium_sets, 0, "sets of 0..40 and 12 lengths to 300 characters over texts of 13 lengths 1..300 with one member, first, middle or last in the set, at 5 places or nowhere: whole and windows that just hold it or miss it by one") {
  static const int ks[] = { 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300 }, ns[] = { 1, 2, 5, 8, 16, 17, 33, 64, 65, 100, 129, 256, 300 }; int q = choose(53), k = q < 41 ? q : ks[q - 41], n = pick(ns), j = choose(3), where = choose(6); j = j == 0 ? 0 : j == 1 ? k / 2 : k - 1; int pos = where == 0 ? 0 : where == 1 ? n - 1 : where == 2 ? n / 2 : where == 3 ? 1 : where == 4 ? n - 2 : -1; if (pos >= n || (where == 4 && pos < 0)) mc::discard(); Txt t, set; for (int i = 0; i < n; i++) t.add(L'a' + i % 26); for (int i = 0; i < k; i++) set.add(0x100 + i * 3); if (pos >= 0 && k) t.c[pos] = set.c[j]; NOTE("set of %d, length %d, member %d at %d", k, n, j, pos);
  Array* a = mkChars(set); String* s = make(t); same(call([&] { return s->IndexOfAny(a); }), true, firstC(t, set, 0, n), "any/first", "IndexOfAny", t, set, 0, n); same(call([&] { return s->LastIndexOfAny(a); }), true, lastC(t, set, n - 1, n), "any/last", "LastIndexOfAny", t, set, n - 1, n);
  if (pos >= 0) { for (int st : { pos, pos + 1, 0 }) for (int c : { n - st, 1, pos - st, pos - st + 1 }) if (st <= n) { bool ok = insideF(n, st, c); same(call([&] { return s->IndexOfAny(a, st, c); }), ok, ok ? firstC(t, set, st, c) : 0, "any/window", "IndexOfAny", t, set, st, c); } for (int st : { pos, n - 1, pos - 1 }) for (int c : { 1, st + 1, n - pos, st - pos, st - pos + 1 }) if (st >= 0 && c >= 0) { bool ok = insideB(n, st, c); same(call([&] { return s->LastIndexOfAny(a, st, c); }), ok, ok ? lastC(t, set, st, c) : 0, "any/lastwindow", "LastIndexOfAny", t, set, st, c); } } state(mc::mix(t.hash(), set.hash())); }
SUITE(far_args, 0, "texts of length 0, 1, 5, 40 and 300 searched for a text, a character and a set with starts and counts of 129 magnitudes of either sign, one or both of them") {
  int n = pick({ 0, 1, 5, 40, 300 }), form = choose(3), x = farInts[choose(NFAR)]; Txt t, p; for (int i = 0; i < n; i++) t.add(i % 7 == 4 ? L'Q' : L'a' + i % 26); p.add(L'Q'); NOTE("length %d, %d in place %d", n, x, form); String* s = make(t); Array* set = mkChars(p);
  auto one = [&](int st, int c) { windowed(t, p, st, c); bool ok = insideF(n, st, c); int want = ok ? first(t, p, st, c) : 0; same(call([&] { return s->IndexOf(L'Q', st, c); }), ok, want, "char/window", "IndexOf character", t, p, st, c); same(call([&] { return s->IndexOfAny(set, st, c); }), ok, want, "any/window", "IndexOfAny", t, p, st, c); bool in = st >= 0 && st <= n; want = in ? first(t, p, st, n - st) : 0; same(call([&] { return s->IndexOf(L'Q', st); }), in, want, "char/from", "IndexOf character", t, p, st, -1); same(call([&] { return s->IndexOfAny(set, st); }), in, want, "any/from", "IndexOfAny", t, p, st, -1);
    if (st >= 0 && c >= 0 && n) { bool okb = insideB(n, st, c); int l = okb ? last(t, p, st, c) : 0; same(call([&] { return s->LastIndexOf(L'Q', st, c); }), okb, l, "char/lastwindow", "LastIndexOf character", t, p, st, c); same(call([&] { return s->LastIndexOfAny(set, st, c); }), okb, l, "any/lastwindow", "LastIndexOfAny", t, p, st, c); }
    StringBuilder* sb = new StringBuilder(s); Got g = call([&] { return sb->CountSubStrings(make(p), st, c); }); int cnt = 0; if (ok) for (int i = st; i < st + c; i++) cnt += t.c[i] == L'Q'; same(g, ok, cnt, "count", "CountSubStrings", t, p, st, c); };
  if (form == 0) for (int c : { 0, 1, n, n + 1 }) one(x, c); else if (form == 1) for (int st : { 0, 1, n - 1, n }) one(st, x); else for (int k = 0; k < NFAR; k++) one(x, farInts[k]); state(mc::mix(n, mc::mix(form, x))); }
SUITE(every_char, 0, "one character of 116 kinds (controls, every ASCII class, Latin, Greek, spaces, surrogates, full width, outside the BMP) alone or twice at every place of 7 letters, or among its own lookalikes: all searches") {
  wchar_t ch = ladderChar(); int n = 1 + choose(7), i = choose(n), j = choose(n), bg = choose(3); if (j < i) mc::discard(); Txt t, p; p.add(ch); for (int k = 0; k < n; k++) t.add(bg == 0 ? L'm' : (wchar_t)((unsigned)ch ^ (bg == 1 ? 0x20 : 0x100))); if (bg == 0 && ch == L'm') mc::discard(); t.c[i] = t.c[j] = ch; NOTE("U+%X at %d and %d of %d, background %d", (unsigned)ch, i, j, n, bg); whole(t, p); Txt pp(p); pp.add(t.c[n - 1]); whole(t, pp); String* s = make(t); Array* set = mkChars(p); Txt two; two.add(L'#').add(ch); Array* set2 = mkChars(two);
  EXPECT(s->IndexOf((Char)ch) == i && s->LastIndexOf((Char)ch) == j && s->EndsWith((Char)ch) == (j == n - 1), "every/char", "character search"); EXPECT(s->IndexOfAny(set) == i && s->LastIndexOfAny(set) == j && s->IndexOfAny(set2) == i && s->LastIndexOfAny(set2) == j, "every/set", "set search"); EXPECT(s->IndexOf((Char)ch, i) == i && s->IndexOf((Char)ch, i + 1) == (j > i ? j : -1) && s->IndexOf((Char)ch, 0, i) == -1 && s->IndexOf((Char)ch, 0, i + 1) == i, "every/char", "windows"); EXPECT(s->LastIndexOf((Char)ch, j, 1) == j && (j == i || s->LastIndexOf((Char)ch, j - 1, j) == i) && (j == n - 1 || s->LastIndexOf((Char)ch, n - 1, n - 1 - j) == -1), "every/char", "windows backward"); StringBuilder* sb = new StringBuilder(s); EXPECT(sb->CountSubStrings(make(p), 0, n) == 1 + (i != j), "every/count", "count"); state(mc::mix(t.hash(), ch)); }
