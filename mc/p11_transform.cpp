// P11: string transformations equal their list-of-characters reading.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentNull) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
static String* make(const Txt& t) { for (int i = 0; i < t.n; i++) if (!t.c[i]) return new String(mkChars(t)); return mk(t); }
template <class F> static void result(F f, bool ok, const Txt& want, String* s, const Txt& t, const char* key, const char* what) {
  String* r = nullptr; Ex e = attempt([&] { r = f(); }); step();
  if (ok ? e != OK_ : !(ARG & EXBIT(e))) fail(key, "%s on %s: got %s, expected %s", what, show(t), exName(e), ok ? "a result" : "an argument error");
  if (ok && !sameText(r, want)) fail(key, "%s on %s gave %s (length %d), expected %s", what, show(t), show(r), r ? r->get_Length() : -1, show(want));
  if (!sameText(s, t)) fail("changed", "%s changed its receiver %s to %s", what, show(t), show(s));
}
static int win(int n) { static const int x[] = { INT32_MAX, INT32_MIN, INT32_MIN + 1, -2 }; int k = choose(n + 4 + 4); return k < n + 4 ? k - 1 : x[k - n - 4]; }
static wchar_t low(wchar_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static wchar_t up(wchar_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool isWs(wchar_t c) { return (c >= 9 && c <= 13) || c == 32; }
static Txt trim(const Txt& t, const Txt& set, bool a, bool b) { auto in = [&](wchar_t c) { for (int i = 0; i < set.n; i++) if (set.c[i] == c) return true; return false; }; int i = 0, j = t.n; if (a) while (i < j && in(t.c[i])) i++; if (b) while (j > i && in(t.c[j - 1])) j--; return t.sub(i, j - i); }
static Txt replaceAll(const Txt& t, const Txt& p, const Txt& r) { Txt o; for (int i = 0; i < t.n;) { bool m = i + p.n <= t.n && !memcmp(t.c + i, p.c, p.n * sizeof(wchar_t)); if (m) { o.add(r); i += p.n; } else o.add(t.c[i++]); } return o; }
static Txt nulled(Txt t) { for (int i = 0; i < t.n; i++) if (t.c[i] == L'0') t.c[i] = 0; return t; }
SUITE(substring, 0, "every text of length 0..5 (thorough 0..7) over {a b NUL}, every start and length around the limits; letters also stand for 5 sets of confusable characters") { skins(); Txt t = nulled(chooseText(L"ab0", 0, thorough ? 7 : 5)); int n = t.n, st = win(n), len = win(n); String* s = make(t); NOTE("%s.Substring(%d,%d)", show(t), st, len);
  if (len == -1) { bool ok = st >= 0 && st <= n; result([&] { return s->Substring(st); }, ok, ok ? t.sub(st, n - st) : t, s, t, "substring/rest", "Substring"); }
  if (len < -1) { String* r; Ex e = attempt([&] { r = s->Substring(st, len); }); if (e != OK_) { expectEx(e, ARG, "substring/raise", "negative length"); return; } }
  bool ok = st >= 0 && st <= n && (len < 0 || len <= n - st); result([&] { return s->Substring(st, len); }, ok, ok ? t.sub(st, len < 0 ? n - st : len) : t, s, t, "substring", "Substring"); state(mc::mix(t.hash(), ok)); }
SUITE(remove, 0, "every text of length 0..5 (thorough 0..7) over {a b NUL}, every start and count around the limits; letters also stand for 5 sets of confusable characters") { skins(); Txt t = nulled(chooseText(L"ab0", 0, thorough ? 7 : 5)); int n = t.n, st = win(n), c = win(n); String* s = make(t); NOTE("%s.Remove(%d,%d)", show(t), st, c);
  if (c == -1) { bool ok = st >= 0 && st <= n; result([&] { return s->Remove(st); }, ok, ok ? t.sub(0, st) : t, s, t, "remove/rest", "Remove"); }
  if (c < -1) { Ex e = attempt([&] { s->Remove(st, c); }); if (e != OK_) { expectEx(e, ARG, "remove/raise", "negative count"); return; } }
  bool ok = st >= 0 && st <= n && (c < 0 || c <= n - st); Txt w(t); if (ok) w.remove(st, c < 0 ? n - st : c); result([&] { return s->Remove(st, c); }, ok, w, s, t, "remove", "Remove"); state(mc::mix(w.hash(), ok)); }
SUITE(insert, 0, "every text and inserted text of length 0..4 (thorough 0..5) over {a b}, or 0..3 over {a b NUL}, every position; null and self; letters also stand for 5 sets of confusable characters") { skins(); Txt t, v; if (choose(2)) { t = nulled(chooseText(L"ab0", 0, 3)); v = nulled(chooseText(L"ab0", 0, 3)); } else { t = chooseText(L"ab", 0, thorough ? 5 : 4); v = chooseText(L"ab", 0, thorough ? 5 : 4); } int at = win(t.n), kind = choose(3); String *s = make(t), *q = kind == 2 ? s : make(v); if (kind == 2) v = t; NOTE("%s.Insert(%d,%s) kind %d", show(t), at, show(v), kind);
  if (kind == 1) { result([&] { return s->Insert(at, nullptr); }, false, t, s, t, "insert/null", "Insert of null"); return; }
  bool ok = at >= 0 && at <= t.n; Txt w(t); if (ok) w.insert(at, v); result([&] { return s->Insert(at, q); }, ok, w, s, t, "insert", "Insert"); if (!sameText(q, v)) fail("changed", "Insert changed its argument"); state(mc::mix(w.hash(), ok)); }
SUITE(replace_char, 0, "every text of length 0..6 over {a b NUL}, every pair of characters of {a b c NUL}; letters also stand for 5 sets of confusable characters") { skins(); Txt t = nulled(chooseText(L"ab0", 0, 6)); wchar_t x = SK(pick({ L'a', L'b', L'c', L'\0' })), y = SK(pick({ L'a', L'b', L'c', L'\0' })); String* s = make(t); Txt w(t); for (int i = 0; i < w.n; i++) if (w.c[i] == x) w.c[i] = y; NOTE("%s %d->%d", show(t), x, y); result([&] { return s->Replace((Char)x, (Char)y); }, true, w, s, t, "replace/char", "Replace(char)"); state(w.hash()); }
SUITE(replace_text, 0, "every text of length 0..6 (thorough 0..8), pattern of length 0..3 (0..4), replacement of length 0..3 over {a b}; null pattern or replacement; letters also stand for 5 sets of confusable characters") { skins();
  Txt t = chooseText(L"ab", 0, thorough ? 8 : 6), p = chooseText(L"ab", 0, thorough ? 4 : 3), r = chooseText(L"ab", 0, 3); int kind = choose(3); String *s = make(t), *ps = kind == 1 ? nullptr : make(p), *rs = kind == 2 ? nullptr : make(r); if (kind == 2) r = Txt(); NOTE("%s.Replace(%s,%s) kind %d", show(t), show(p), show(r), kind); bool ok = ps && p.n; result([&] { return s->Replace(ps, rs); }, ok, ok ? replaceAll(t, p, r) : t, s, t, "replace/text", "Replace"); if ((ps && !sameText(ps, p)) || (rs && !sameText(rs, r))) fail("changed", "Replace changed an argument"); state(mc::mix(mc::mix(t.hash(), p.hash()), r.hash())); }
SUITE(replace_nul, 0, "texts of length 0..4 over {a NUL} with patterns and replacements over {a NUL}; the text itself as pattern and replacement") { Txt t = nulled(chooseText(L"a0", 0, 4)), p = nulled(chooseText(L"a0", 1, 2)), r = nulled(chooseText(L"a0", 0, 2)); String *s = make(t); int kind = choose(3); String *ps = kind == 1 && t.n ? s : make(p), *rs = kind == 2 ? s : make(r); if (kind == 1 && t.n) p = t; if (kind == 2) r = t; NOTE("%s.Replace(%s,%s)", show(t), show(p), show(r)); result([&] { return s->Replace(ps, rs); }, true, replaceAll(t, p, r), s, t, "replace/nul", "Replace"); }
SUITE(pad, 0, "texts of length 0..4 (and every text of length 1..3 over {a NUL}) and widths -2..140, both sides, default and given character (including NUL)") { Txt t; if (choose(2)) t = nulled(chooseText(L"a0", 1, 3)); else t = Txt(L"abcd", choose(5)); int w = choose(143) - 2, side = choose(2), ch = choose(3); wchar_t c = ch == 0 ? L' ' : ch == 1 ? L'*' : 0; String* s = make(t); Txt x; int k = w > t.n ? w - t.n : 0; if (side == 0) { for (int i = 0; i < k; i++) x.add(c); x.add(t); } else { x.add(t); for (int i = 0; i < k; i++) x.add(c); } NOTE("%s pad %d side %d", show(t), w, side); result([&] { return side ? (ch ? s->PadRight(w, c) : s->PadRight(w)) : (ch ? s->PadLeft(w, c) : s->PadLeft(w)); }, w >= 0, x, s, t, "pad", side ? "PadRight" : "PadLeft"); if (w == -2) result([&] { return side ? s->PadRight(INT32_MIN) : s->PadLeft(INT32_MIN); }, false, x, s, t, "pad", "padding to the minimum"); state(mc::mix(w, side)); }
SUITE(trim_white, 0, "every text of length 0..6 (thorough 0..7) over {space tab LF a}, and every text of length 1..5 over {space a NUL}: default white space, by Trim(), null and empty sets") { Txt t = choose(2) ? nulled(chooseText(L" a0", 1, 5)) : chooseText(L" \t\na", 0, thorough ? 7 : 6); int op = choose(7); String* s = make(t); Array* none = mkChars(L""); Array* z = nullptr; bool a = op != 3 && op != 4, b = op != 5 && op != 6; NOTE("%s trim %d", show(t), op);
  result([&] { switch (op) { case 0: return s->Trim(); case 1: return s->Trim(z); case 2: return s->Trim(none); case 3: return s->TrimEnd(z); case 4: return s->TrimEnd(none); case 5: return s->TrimStart(z); default: return s->TrimStart(none); } }, true, trim(t, Txt(L" \t\n\r\v\f"), a, b), s, t, "trim/white", "trimming white space"); state(mc::mix(t.hash(), op)); }
SUITE(trim_set, 0, "every text of length 0..5 (thorough 0..6) over {a b c NUL}, sets of 1..2 characters of {a b NUL}, either or both ends; letters also stand for 5 sets of confusable characters") { skins(); Txt t = nulled(chooseText(L"abc0", 0, thorough ? 6 : 5)), set = nulled(chooseText(L"ab0", 1, 2)); int op = choose(3); String* s = make(t); Array* a = mkChars(set); NOTE("%s trim %s op %d", show(t), show(set), op); result([&] { return op == 0 ? s->Trim(a) : op == 1 ? s->TrimStart(a) : s->TrimEnd(a); }, true, trim(t, set, op != 2, op != 1), s, t, "trim/set", "trimming a set"); for (int i = 0; i < set.n; i++) if (*(Char*)a->Address(i) != set.c[i]) fail("changed", "Trim changed its set"); state(mc::mix(t.hash(), set.hash() + op)); }
SUITE(trim_kinds, 0, "sets of every element type and rank 1..2") { int k = choose(NTYPES), rank = 1 + choose(2), op = choose(3); Array* a = rank == 1 ? new Array(elemTypes[k], 2) : new Array(elemTypes[k], 2, 1); String* s = mk(L"ab"); Ex e = attempt([&] { op == 0 ? s->Trim(a) : op == 1 ? s->TrimStart(a) : s->TrimEnd(a); }); expectEx(e, elemTypes[k] == CharType && rank == 1 ? EXBIT(OK_) : ARG | EXBIT(xRank), "trim/kind", "trimming with this set"); state(k * 6 + rank * 3 + op); }
SUITE(white_chars, 0, "each character 0..127 and every Unicode space around a letter: trimming and white-space tests") { int c = choose(128 + 17); static const wchar_t uni[] = { 0xA0, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x3000, 0xC9, 0x100, 0x2014, 0xFFFD }; wchar_t x = c < 128 ? c : uni[c - 128]; bool w = c < 128 ? isWs(x) : c < 128 + 13; Txt t; t.add(x).add(L'a').add(x); String* s = make(t); Txt want = w ? Txt(L"a") : t; if (w || x != L'a') result([&] { return s->Trim(); }, true, want, s, t, "trim/chars", "Trim"); Txt u; u.add(x); if (c < 128) { EXPECT(String::IsNullOrWhiteSpace(make(u)) == isWs(x), "iswhite", "white-space test of a text of character %d", x); EXPECT(!String::IsNullOrWhiteSpace(s) || x == 'a', "iswhite", "white-space test with a letter"); } state(x); }
SUITE(blank_tests, 0, "every text of length 0..5 over {space CR NUL a}: empty and white-space tests; null") { Txt t = nulled(chooseText(L" \r0a", 0, 5)); String* s = make(t); bool w = true; for (int i = 0; i < t.n; i++) w = w && isWs(t.c[i]); EXPECT(String::IsNullOrEmpty(s) == (t.n == 0), "isempty", "IsNullOrEmpty(%s)", show(t)); EXPECT(String::IsNullOrWhiteSpace(s) == w, "iswhite", "IsNullOrWhiteSpace(%s)", show(t)); if (t.n == 0) EXPECT(String::IsNullOrEmpty(nullptr) && String::IsNullOrWhiteSpace(nullptr), "isnull", "null tests"); state(t.hash()); }
SUITE(casing, 0, "every ASCII character alone and between letters, and every text of length 0..5 over {a Z 1 NUL}; idempotence") { Txt t; if (choose(2)) { int c = choose(128); t.add(L'q').add(c).add(L'Q'); } else t = nulled(chooseText(L"aZ10", 0, 5)); int op = choose(4); String* s = make(t); Txt w(t); for (int i = 0; i < w.n; i++) w.c[i] = op < 2 ? low(w.c[i]) : up(w.c[i]); auto f = [&](String* x) { return op == 0 ? x->ToLower() : op == 1 ? x->ToLowerInvariant() : op == 2 ? x->ToUpper() : x->ToUpperInvariant(); }; result([&] { return f(s); }, true, w, s, t, "case", op < 2 ? "lower-casing" : "upper-casing"); result([&] { return f(f(s)); }, true, w, s, t, "case/twice", "casing twice"); state(mc::mix(w.hash(), op)); }
SUITE(separator_test, 0, "white-space test against a given set: every character of {a b NUL space}, every set of 0..3 over the same; letters also stand for 5 sets of confusable characters") { skins(); wchar_t c = SK(pick({ L'a', L'b', L'\0', L' ' })); Txt set = nulled(chooseText(L"ab0 ", 0, 3)); Char* p = rawChars(set.c, set.n, false); bool in = false; for (int i = 0; i < set.n; i++) in = in || set.c[i] == c; EXPECT(String::IsWhiteSpace(c, p, set.n) == in, "separator", "character %d in %s", c, show(set)); }
SUITE(long_texts, 0, "texts of 120..260 characters (every length around the builder's buffer sizes): insert, remove, replace growing and shrinking, pad, case, trim, substring; with and without NUL characters in the text") {
  int n = choose(3) == 0 ? 120 + choose(14) : 250 + choose(14), op = choose(10); Txt t; bool nul = choose(2); for (int i = 0; i < n; i++) t.add(i % 7 == 0 ? L' ' : nul && i % 11 == 5 ? L'\0' : L'a' + i % 26); String* s = make(t); Txt w; NOTE("length %d op %d", n, op);
  switch (op) {
  case 0: { int at = choose(n + 1); Txt v(L"XYZ"); w = t; w.insert(at, v); result([&] { return s->Insert(at, make(v)); }, true, w, s, t, "long", "Insert"); break; }
  case 1: { int at = choose(n + 1); w = t; w.remove(at, n - at < 9 ? n - at : 9); result([&] { return s->Remove(at, n - at < 9 ? n - at : 9); }, true, w, s, t, "long", "Remove"); break; }
  case 2: result([&] { return s->Replace(mk(L" "), mk(L"<=>")); }, true, replaceAll(t, Txt(L" "), Txt(L"<=>")), s, t, "long", "growing Replace"); break;
  case 3: { Txt p(t.c, 5); result([&] { return s->Replace(make(p), mk(L"")); }, true, replaceAll(t, p, Txt()), s, t, "long", "shrinking Replace"); break; }
  case 4: { int k = n + choose(140); w = Txt(); for (int i = n; i < k; i++) w.add(L'.'); w.add(t); result([&] { return s->PadLeft(k, L'.'); }, true, w, s, t, "long", "PadLeft"); break; }
  case 5: { int k = n + choose(140); w = t; for (int i = n; i < k; i++) w.add(L'.'); result([&] { return s->PadRight(k, L'.'); }, true, w, s, t, "long", "PadRight"); break; }
  case 6: w = t; for (int i = 0; i < n; i++) w.c[i] = up(w.c[i]); result([&] { return s->ToUpper(); }, true, w, s, t, "long", "ToUpper"); break;
  case 7: result([&] { return s->Trim(); }, true, trim(t, Txt(L" "), true, true), s, t, "long", "Trim"); break;
  case 8: { int at = choose(n + 1); result([&] { return s->Substring(at); }, true, t.sub(at, n - at), s, t, "long", "Substring"); break; }
  case 9: { int k = 1 + choose(4); Txt r; for (int i = 0; i < k; i++) r.add(L'#'); r.add(t.c[3]); result([&] { return s->Replace(make(Txt(t.c + 3, 1)), make(r)); }, true, replaceAll(t, Txt(t.c + 3, 1), r), s, t, "long", "Replace containing its pattern"); break; } }
  state(mc::mix(n, op));
}
SUITE(all_fill, 0, "texts of one repeated character of length 1..260 with replacement growing 1..3 fold and removal of all") { int n = 1 + choose(260), k = choose(4); Txt t, r; for (int i = 0; i < n; i++) t.add(L'a'); for (int i = 0; i < k; i++) r.add(L'a'); String* s = make(t); result([&] { return s->Replace(mk(L"a"), make(r)); }, true, replaceAll(t, Txt(L"a"), r), s, t, "fill", "Replace"); result([&] { return s->Replace(mk(L"aa"), make(r)); }, true, replaceAll(t, Txt(L"aa"), r), s, t, "fill", "Replace of pairs"); state(n * 4 + k); }

SUITE(large, 0, "texts of 6 (thorough 18) lengths 128..70001: substring, remove, insert, replacements (1 to 1, 1 to 3, 3 to 0, 2 to 5, everything), padding, trimming and casing at positions around powers of two; plain letters, or with NULs and characters outside the BMP among them") {
  holes(); int n = bigLength(), op = choose(10), p = op < 3 ? bigPos(n, true) : 0, c = op == 0 || op == 1 ? bigPos(n, true) : op == 2 ? choose(2) ? 3 : 300 : 0; Big t = Big::pattern(n), w; String *s = mk(t), *r = nullptr; bool ok = true; Ex e; NOTE("length %d op %d at %d, %d", n, op, p, c);
  auto rep = [&](const Big& pat, const Big& by) { Big o(n / pat.n * (by.n > pat.n ? by.n : pat.n) + n + by.n); int k = 0; for (int i = 0; i < t.n;) { if (i + pat.n <= t.n && !memcmp(t.c + i, pat.c, pat.n * sizeof(wchar_t))) { memcpy(o.c + k, by.c, by.n * sizeof(wchar_t)); k += by.n; i += pat.n; } else o.c[k++] = t.c[i++]; } o.n = k; return o; };
  switch (op) {
  case 0: if (c < 0) mc::discard(); ok = p >= 0 && p <= n && c <= n - p; e = attempt([&] { r = s->Substring(p, c); }); if (ok) w = t.sub(p, c); break;
  case 1: if (c < 0) mc::discard(); ok = p >= 0 && p <= n && c <= n - p; if (ok && p == n) mc::discard(); e = attempt([&] { r = s->Remove(p, c); }); if (ok) w = t.splice(p, c, L"", 0); break;
  case 2: { ok = p >= 0 && p <= n; Big v = Big::pattern(c, 11); e = attempt([&] { r = s->Insert(p, mk(v)); }); if (ok) w = t.splice(p, 0, v.c, v.n); break; }
  case 3: { w = t.sub(0, n); for (int i = 0; i < n; i++) if (w.c[i] == L'c') w.c[i] = L'C'; e = attempt([&] { r = s->Replace(L'c', L'C'); }); break; }
  case 4: w = rep(Big::of(L"c"), Big::of(L"<=>")); e = attempt([&] { r = s->Replace(mk(L"c"), mk(L"<=>")); }); break;
  case 5: { Big x = t.sub(n / 2, 3); w = rep(x, Big::of(L"")); e = attempt([&] { r = s->Replace(mk(x), mk(L"")); }); break; }
  case 6: { Big x = t.sub(n - 2, 2); w = rep(x, Big::of(L"<...>")); e = attempt([&] { r = s->Replace(mk(x), mk(L"<...>")); }); break; }
  case 7: { int wd = n + (choose(2) ? 1 : 300); bool left = choose(2); Big f = Big::fill(wd - n, L'*'); w = left ? f.plus(t) : t.plus(f); e = attempt([&] { r = left ? s->PadLeft(wd, L'*') : s->PadRight(wd, L'*'); }); break; }
  case 8: { int k = choose(3); Big f = Big::fill(n, L' '); Big x = k == 0 ? f.plus(t) : k == 1 ? t.plus(f) : f.plus(t).plus(f); String* y = mk(x); w = t; e = attempt([&] { r = y->Trim(); }); break; }
  default: { w = t.sub(0, n); for (int i = 0; i < n; i++) if (w.c[i] >= L'a' && w.c[i] <= L'z') w.c[i] -= 32; e = attempt([&] { r = s->ToUpper(); }); EXPECT(sameText(mk(w)->ToLower(), t), "large/case", "lower case"); } }
  expectEx(e, ok ? EXBIT(OK_) : ARG, "large/raise", "transformation"); if (ok) EXPECT(sameText(r, w), "large/text", "operation %d gives length %d %s, expected %d %s", op, r ? r->get_Length() : -1, show(r), w.n, show(w)); EXPECT(sameText(s, t), "large/changed", "input changed"); state(mc::mix(mc::mix(n, op), mc::mix(p, c))); }

SUITE(trim_large, 0, "texts of 4 (thorough 8) lengths 0..70001 between runs of 0, 1, 300 and 33000 (thorough also 66000) white or given characters on either side: the three trims, by default and by set") {
  static const int L[] = { 0, 600, 40000, 70001, 1, 255, 32768, 65536 }, R[] = { 0, 1, 300, 33000, 66000 }; int n = L[choose(thorough ? 8 : 4)], a = R[choose(thorough ? 5 : 4)], b = R[choose(thorough ? 5 : 4)], op = choose(6); NOTE("%d, %d and %d characters, op %d", a, n, b, op);
  wchar_t f = op < 3 ? L' ' : L'*'; Big t = n ? Big::pattern(n) : Big(0); Big x = Big::fill(a, f).plus(t).plus(Big::fill(b, f)), w = op % 3 == 0 || (!n && a + b) ? t : op % 3 == 1 ? t.plus(Big::fill(b, f)) : Big::fill(a, f).plus(t);
  String *s = mk(x), *r = nullptr; Array* z = op < 3 ? nullptr : mkChars(L"*"); Ex e = attempt([&] { r = op % 3 == 0 ? s->Trim(z) : op % 3 == 1 ? s->TrimStart(z) : s->TrimEnd(z); }); expectEx(e, EXBIT(OK_), "large/raise", "trimming"); EXPECT(sameText(r, w), "large/text", "gives length %d, expected %d", r ? r->get_Length() : -1, w.n); EXPECT(sameText(s, x), "large/changed", "input changed"); state(mc::mix(mc::mix(n, a), b * 8 + op)); }
SUITE(blank_large, 0, "33000, 65537 and 70001 white characters with one other character at 12 places, or none: white-space tests, by default and by set, and the default trims") {
  int n = pick({ 33000, 65537, 70001 }), p[] = { -1, 0, 1, 255, 256, 4096, 32767, 32768, 32999, 65535, 65536, n - 1 }, at = pick(p); if (at >= n || (at == 32999 && n == 33000)) mc::discard(); Big x = Big::fill(n, L' '); if (at >= 0) x.c[at] = L'k'; NOTE("%d with a letter at %d", n, at); String *s = mk(x), *r = nullptr; EXPECT(String::IsNullOrWhiteSpace(s) == (at < 0), "large/blank", "white-space test"); EXPECT(!String::IsNullOrEmpty(s), "large/blank", "empty");
  for (int op = 0; op < 3; op++) { Ex e = attempt([&] { Array* z = nullptr; r = op == 0 ? s->Trim() : op == 1 ? s->TrimStart(z) : s->TrimEnd(z); }); expectEx(e, EXBIT(OK_), "large/raise", "trimming"); int a = op == 2 ? 0 : at < 0 ? n : at, b = op == 1 ? n : at < 0 ? a : at + 1; EXPECT(sameText(r, x.sub(a, b > a ? b - a : 0)), "large/text", "gives length %d, expected %d", r ? r->get_Length() : -1, b - a); } state(mc::mix(n, at)); }
SUITE(trim_big_sets, 0, "sets of 1..12 characters (small letters, from U+0141, mixed, ending in NUL) against texts with 1..2 members or characters equal to a member modulo 32, 64, 128, 256 or 65536 at either end, around 0..20 letters; three trims") {
  int sn = 1 + choose(12), sk = choose(4), op = choose(3), core = pick({ 0, 1, 20 }); Txt set; for (int i = 0; i < sn; i++) set.add(sk == 0 ? L'a' + i : sk == 1 ? 0x141 + i : sk == 2 ? (i & 1 ? 0x4E20 + i : L'!' + i) : i == sn - 1 ? 0 : L'0' + i);
  static const int shift[] = { 0, 32, -32, 64, 128, 256, 0x4E00, 0x10000 }; auto end = [&]() -> wchar_t { int k = choose(9); if (k == 8) return L'~'; wchar_t c = set.c[k & 1 ? sn - 1 : sn / 2] + shift[k]; return c < 0 ? 0x7E : c; }; Txt t; wchar_t x = end(), y = end(); if (choose(2)) t.add(set.c[0]); t.add(x); for (int i = 0; i < core; i++) t.add(L'Q'); t.add(y); if (choose(2)) t.add(set.c[sn - 1]); String* s = make(t); Array* a = mkChars(set); NOTE("%s trim %s op %d", show(t), show(set), op);
  result([&] { return op == 0 ? s->Trim(a) : op == 1 ? s->TrimStart(a) : s->TrimEnd(a); }, true, trim(t, set, op != 2, op != 1), s, t, "trim/set", "trimming a set"); for (int i = 0; i < sn; i++) if (*(Char*)a->Address(i) != set.c[i]) fail("changed", "Trim changed its set"); state(mc::mix(t.hash(), set.hash() + op)); }
SUITE(casing_long, 0, "texts of every length 1..70 of small, capital or alternating letters with one of 17 characters without case (bytes that look like letters, neighbours of the alphabet, NUL) or nothing at every place: four casings") {
  int n = 1 + choose(70), p = choose(n), bg = choose(3), k = choose(18), op = choose(4); static const wchar_t odd[] = { 0x4E41, 0x4E5A, 0x4E61, 0x4E7A, 0x6161, 0x6100, 0x4100, 0x3041, 0xFF01, 0x20A0, L'@', L'[', L'`', L'{', 0, L'5', L' ' }; Txt t; for (int i = 0; i < n; i++) { wchar_t c = L'a' + i % 26; t.add(bg == 0 || (bg == 2 && i & 1) ? c : c - 32); } if (k < 17) t.c[p] = odd[k]; String* s = make(t); Txt w(t); for (int i = 0; i < n; i++) w.c[i] = op < 2 ? low(w.c[i]) : up(w.c[i]); NOTE("%s op %d", show(t), op); result([&] { return op == 0 ? s->ToLower() : op == 1 ? s->ToLowerInvariant() : op == 2 ? s->ToUpper() : s->ToUpperInvariant(); }, true, w, s, t, "case/long", op < 2 ? "lower-casing" : "upper-casing"); state(mc::mix(w.hash(), op)); }
SUITE(blank_long, 0, "1..70 white characters with one other character (letter, NUL, U+4E20, U+0120) or none at every place: white-space test, default trims") {
  int n = 1 + choose(70), p = choose(n), k = choose(5), op = choose(3); static const wchar_t odd[] = { L'a', 0, 0x4E20, 0x120 }; Txt t; for (int i = 0; i < n; i++) t.add(L" \t\n\r"[i % 4]); if (k < 4) t.c[p] = odd[k]; String* s = make(t); NOTE("%s op %d", show(t), op); EXPECT(String::IsNullOrWhiteSpace(s) == (k == 4), "iswhite", "IsNullOrWhiteSpace(%s)", show(t)); EXPECT(!String::IsNullOrEmpty(s), "isempty", "IsNullOrEmpty(%s)", show(t)); result([&] { return op == 0 ? s->Trim() : op == 1 ? s->TrimStart((Array*)nullptr) : s->TrimEnd((Array*)nullptr); }, true, trim(t, Txt(L" \t\n\r\v\f"), op != 2, op != 1), s, t, "trim/long", "trimming white space"); state(mc::mix(t.hash(), op)); }
// patterns that overlap themselves, between pieces of themselves
static void overlapping(Txt& t, Txt& p, Txt& r) {
  int shape = choose(4); static const int len[] = { 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65 }; int m = len[choose(thorough ? 19 : 17)]; for (int i = 0; i < m; i++) p.add(shape == 0 ? (i == m - 1 ? L'b' : L'a') : shape == 1 ? (i ? L'a' : L'b') : shape == 2 ? (i % 2 ? L'b' : L'a') : L'a');
  int k = choose(m); if (m > 10 && k > 4 && k < m - 4 && k != m / 2) mc::discard(); switch (choose(4)) { case 0: t = p; t.add(p.sub(k, m - k)); break; case 1: t = p.sub(0, k); t.add(p); break; case 2: t = p.sub(k, m - k); t.add(p).add(p.sub(0, k)).add(p); break; default: t = p; t.add(p).add(L'x').add(p.sub(0, k)).add(p.sub(k / 2, m - k / 2)).add(p); }
  switch (choose(8)) { case 0: for (int i = 0; i < m; i++) r.add(p.c[(i + 1) % m]); break; case 1: for (int i = 0; i < m; i++) r.add(L'a'); break; case 2: r = p; break; case 3: r = p; r.add(p); break; case 4: r = p.sub(0, m - 1); break; case 5: r = p.sub(1, m - 1); break; case 6: for (int i = 0; i < m; i++) r.add(i < m / 2 ? L'z' : p.c[i - m / 2]); break; default: r.add(L'a'); } }
SUITE(replace_overlap, 0, "patterns of 17 lengths 2..33 (thorough to 65) that overlap themselves in 4 ways, between and beside every prefix or suffix of themselves, replaced by 8 texts of the same or another length that may complete the pattern anew") { Txt t, p, r; overlapping(t, p, r); NOTE("%s: %s -> %s", show(t), show(p), show(r)); String* s = make(t); result([&] { return s->Replace(make(p), make(r)); }, true, replaceAll(t, p, r), s, t, "replace/overlap", "Replace"); state(mc::mix(mc::mix(t.hash(), p.hash()), r.hash())); }
SUITE(pad_far, 0, "texts of 0, 1, 5 and 300 characters padded to widths around 1000, 4096, 10000, 32768, 65536, 100000, 131072 and 262144, both sides") { static const int w[] = { 1000, 4096, 10000, 32768, 65536, 100000, 131072, 262144 }; int n = pick({ 0, 1, 5, 300 }), width = pick(w) - 2 + choose(5) + (choose(2) ? n : 0), side = choose(2); Big t = Big::pattern(n); String *s = mk(t), *x = nullptr; Ex e = attempt([&] { x = side ? s->PadRight(width, L'*') : s->PadLeft(width, L'*'); }); step(); Big f = Big::fill(width - n, L'*'), want = side ? t.plus(f) : f.plus(t); if (e != OK_ || !sameText(x, want)) fail("pad/far", "%d characters padded to %d: %s, length %d", n, width, exName(e), x ? x->get_Length() : -1); if (!sameText(s, t)) fail("changed", "the receiver changed"); state(width * 2 + side); }

// ---- middle-sized texts, arguments of every magnitude, characters of every kind
SUITE(medium, 0, "texts of 50 (thorough 66) lengths 6..600 (2000): windows of Substring and Remove, insertions of 21 lengths 0..512, padding by as many, casing, at 9 positions; plain letters or with NULs and characters outside the BMP") {
  holes(); int n = ladder(6, thorough ? 2000 : 600), op = choose(6), at = choose(9); at = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? 2 : at == 3 ? n / 2 : at == 4 ? n - 2 : at == 5 ? n - 1 : at == 6 ? n : at == 7 ? n / 3 : n - 5; static const int ks[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 127, 128, 129, 256, 512 }; int k = op == 5 ? 0 : pick(ks); if (op >= 3 && at != 0) mc::discard(); if (op < 2 && k > n - at) { if (k > n - at + 2) mc::discard(); } Big b = Big::pattern(n); Txt t(b.c, n), w; String* s = make(t); NOTE("length %d op %d at %d, %d", n, op, at, k); bool in = k <= n - at;
  switch (op) {
  case 0: result([&] { return s->Substring(at, k); }, in, in ? t.sub(at, k) : t, s, t, "medium/substring", "Substring"); if (k == 0) result([&] { return s->Substring(at); }, true, t.sub(at, n - at), s, t, "medium/substring", "Substring"); break;
  case 1: w = t; if (in) w.remove(at, k); result([&] { return s->Remove(at, k); }, in, w, s, t, "medium/remove", "Remove"); if (k == 0) result([&] { return s->Remove(at); }, true, t.sub(0, at), s, t, "medium/remove", "Remove"); break;
  case 2: { Big v = Big::pattern(k, 11); Txt x(v.c, k); w = t; w.insert(at, x); String* q = make(x); result([&] { return s->Insert(at, q); }, true, w, s, t, "medium/insert", "Insert"); if (!sameText(q, x)) fail("changed", "Insert changed its argument"); break; }
  case 3: for (int i = 0; i < k; i++) w.add(L'*'); w.add(t); result([&] { return s->PadLeft(n + k, L'*'); }, true, w, s, t, "medium/pad", "PadLeft"); break;
  case 4: w = t; for (int i = 0; i < k; i++) w.add(L'*'); result([&] { return s->PadRight(n + k, L'*'); }, true, w, s, t, "medium/pad", "PadRight"); break;
  default: { Txt u(t); for (int i = 0; i < n; i++) if (i % 3) u.c[i] = up(u.c[i]); String* x = make(u); w = u; for (int i = 0; i < n; i++) w.c[i] = low(u.c[i]); result([&] { return x->ToLower(); }, true, w, x, u, "medium/case", "ToLower"); result([&] { return x->ToLowerInvariant(); }, true, w, x, u, "medium/case", "ToLowerInvariant"); for (int i = 0; i < n; i++) w.c[i] = up(u.c[i]); result([&] { return x->ToUpper(); }, true, w, x, u, "medium/case", "ToUpper"); result([&] { return x->ToUpperInvariant(); }, true, w, x, u, "medium/case", "ToUpperInvariant"); } }
  state(mc::mix(mc::mix(n, op), mc::mix(at, k))); }
SUITE(medium_replace, 0, "texts of 21 lengths 1..600 with a pattern of 24 lengths 1..512 at the start, the end, both, thrice in a row, or nowhere (cut by one character), replaced by texts of 23 lengths 0..600, or null; and every character by one that occurs or does not") {
  static const int ns[] = { 1, 2, 5, 8, 10, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300, 512, 600 }, ms[] = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 512 }, rs[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 63, 64, 65, 127, 128, 129, 256, 300, 600 };
  int n = pick(ns), m = pick(ms), where = choose(5), k = pick(rs); if (m > n || (where == 2 && m * 2 > n) || (where == 3 && m * 3 > n) || (m * 3 <= n && k * 3 + n > 2500)) mc::discard(); Txt t, p, r; for (int i = 0; i < m - 1; i++) p.add(L'a' + i * 5 % 23); p.add(L'Z'); for (int i = 0; i < n; i++) t.add(m > 1 ? p.c[i % (m - 1)] : L'z'); for (int i = 0; i < k; i++) r.add(i % 4 == 3 ? L'Z' : L'0' + i % 10); auto put = [&](int at) { for (int i = 0; i < m; i++) t.c[at + i] = p.c[i]; };
  if (where == 0 || where == 2) put(0); if (where == 1 || where == 2) put(n - m); if (where == 3) for (int i = 0; i < 3; i++) put(i * m); String *s = make(t), *q = make(p), *rp = make(r); NOTE("length %d, pattern of %d in place %d by %d", n, m, where, k); result([&] { return s->Replace(q, rp); }, true, replaceAll(t, p, r), s, t, "medium/replace", "Replace"); if (!sameText(q, p) || !sameText(rp, r)) fail("changed", "Replace changed an argument"); if (k == 0) result([&] { return s->Replace(q, (String*)nullptr); }, true, replaceAll(t, p, r), s, t, "medium/replace", "Replace by null");
  if (k == 1) { Txt w(t); for (int i = 0; i < n; i++) if (w.c[i] == p.c[0]) w.c[i] = L'!'; result([&] { return s->Replace((Char)p.c[0], (Char)L'!'); }, true, w, s, t, "medium/char", "Replace"); result([&] { return s->Replace((Char)L'!', (Char)p.c[0]); }, true, t, s, t, "medium/char", "Replace"); } state(mc::mix(mc::mix(t.hash(), p.hash()), k)); }
SUITE(medium_sets, 0, "sets of 0..40 and 12 lengths to 300 characters, given to the trims around 0..300 characters with runs of 0..300 members at either end, among them the first, middle or last of the set") {
  static const int ks[] = { 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300 }, cores[] = { 0, 1, 5, 65, 300 }, runs[] = { 0, 1, 2, 9, 64, 130, 300 }; int q = choose(53), k = q < 41 ? q : ks[q - 41], core = pick(cores), a = pick(runs), b = pick(runs), j = choose(3); if (k == 0 && (a || b || j)) mc::discard(); if (k == 1 && j) mc::discard(); j = j == 0 ? 0 : j == 1 ? k / 2 : k - 1; Txt set, t; for (int i = 0; i < k; i++) set.add(0x100 + i * 3); for (int i = 0; i < a; i++) t.add(i % 2 ? set.c[0] : set.c[j]); for (int i = 0; i < core; i++) t.add(i == core / 2 && k && core > 2 ? set.c[j] : L'A' + i % 26); for (int i = 0; i < b; i++) t.add(i % 2 ? set.c[k - 1] : set.c[j]); String* s = make(t); Array* arr = mkChars(set); NOTE("set of %d, runs of %d and %d around %d", k, a, b, core); Txt white(L" \t\n\r\v\f"); const Txt& use = k ? set : white;
  result([&] { return s->Trim(arr); }, true, trim(t, use, true, true), s, t, "medium/trim", "Trim"); result([&] { return s->TrimStart(arr); }, true, trim(t, use, true, false), s, t, "medium/trim", "TrimStart"); result([&] { return s->TrimEnd(arr); }, true, trim(t, use, false, true), s, t, "medium/trim", "TrimEnd"); if (k) { Char* p = rawChars(set.c, k, false); EXPECT(String::IsWhiteSpace(set.c[j], p, k) && String::IsWhiteSpace(set.c[k - 1], p, k) && !String::IsWhiteSpace(L'A', p, k) && !String::IsWhiteSpace(set.c[j] + 1, p, k), "medium/separator", "membership in a set of %d", k); } state(mc::mix(t.hash(), set.hash())); }
SUITE(far_args, 0, "texts of length 0, 1, 5, 40 and 300: Substring, Remove, Insert and the pads with positions and counts of 129 magnitudes of either sign, one or both of them (pads: the negative)") {
  int n = pick({ 0, 1, 5, 40, 300 }), form = choose(3), x = farInts[choose(NFAR)]; Txt t; for (int i = 0; i < n; i++) t.add(L'a' + i % 26); String* s = make(t); NOTE("length %d, %d in place %d", n, x, form);
  auto one = [&](int st, int c) { bool ok = st >= 0 && st <= n && c <= n - st; if (c >= 0) { result([&] { return s->Substring(st, c); }, ok, ok ? t.sub(st, c) : t, s, t, "far/substring", "Substring"); Txt w(t); if (ok) w.remove(st, c); result([&] { return s->Remove(st, c); }, ok, w, s, t, "far/remove", "Remove"); } else if (!(st >= 0 && st <= n)) { result([&] { return s->Substring(st, c); }, false, t, s, t, "far/substring", "Substring"); result([&] { return s->Remove(st, c); }, false, t, s, t, "far/remove", "Remove"); } };
  if (form == 0) { bool in = x >= 0 && x <= n; for (int c : { 0, 1, n, n + 1, -1, -2, INT32_MAX }) one(x, c); result([&] { return s->Substring(x); }, in, in ? t.sub(x, n - x) : t, s, t, "far/substring", "Substring"); result([&] { return s->Remove(x); }, in, in ? t.sub(0, x) : t, s, t, "far/remove", "Remove"); for (const wchar_t* v : { L"", L"XY" }) { Txt w(t); if (in) w.insert(x, Txt(v)); result([&] { return s->Insert(x, mk(Txt(v))); }, in, w, s, t, "far/insert", "Insert"); } if (x < 0) { result([&] { return s->PadLeft(x); }, false, t, s, t, "far/pad", "PadLeft"); result([&] { return s->PadRight(x); }, false, t, s, t, "far/pad", "PadRight"); result([&] { return s->PadLeft(x, L'*'); }, false, t, s, t, "far/pad", "PadLeft"); result([&] { return s->PadRight(x, L'*'); }, false, t, s, t, "far/pad", "PadRight"); } else if (x <= n) { result([&] { return s->PadLeft(x, L'*'); }, true, t, s, t, "far/pad", "PadLeft"); result([&] { return s->PadRight(x); }, true, t, s, t, "far/pad", "PadRight"); } }
  else if (form == 1) for (int st : { 0, 1, n - 1, n }) one(st, x); else for (int k = 0; k < NFAR; k++) one(x, farInts[k]); state(mc::mix(n, mc::mix(form, x))); }
SUITE(every_char, 0, "one character of 116 kinds (controls, every ASCII class, Latin, Greek, spaces, surrogates, full width, outside the BMP) at every place of 1..5 letters: replaced by and replacing another of 116, as pattern and replacement, padding, trimmed by a set, inserted, and (ASCII or without case) cased") {
  wchar_t c = ladderChar(), d = ladderChar(); int n = 1 + choose(5), p = choose(n); Txt t, w; for (int i = 0; i < n; i++) t.add(L'k' + i); if (c >= L'k' && c <= L'o') mc::discard(); t.c[p] = c; String* s = make(t); NOTE("U+%X at %d of %d, U+%X", (unsigned)c, p, n, (unsigned)d); w = t; w.c[p] = d; result([&] { return s->Replace((Char)c, (Char)d); }, true, w, s, t, "every/char", "Replace(char)"); Txt pc, pd; pc.add(c); pd.add(d); result([&] { return s->Replace(make(pc), make(pd)); }, true, w, s, t, "every/text", "Replace(text)"); Txt w2(t); for (int i = 0; i < n; i++) if (w2.c[i] == d) w2.c[i] = L'#'; result([&] { return s->Replace((Char)d, (Char)L'#'); }, true, w2, s, t, "every/char", "Replace(char)");
  if (d == L'#') { for (int k = 0; k < 3; k++) { Txt l, r(t); for (int i = 0; i < k; i++) { l.add(c); r.add(c); } l.add(t); result([&] { return s->PadLeft(n + k, (Char)c); }, true, l, s, t, "every/pad", "PadLeft"); result([&] { return s->PadRight(n + k, (Char)c); }, true, r, s, t, "every/pad", "PadRight"); } Txt in(L"uv"); in.insert(1, t); String* uv = mk(Txt(L"uv")); result([&] { return uv->Insert(1, s); }, true, in, uv, Txt(L"uv"), "every/insert", "Insert"); }
  Txt set; set.add(d).add(L'k'); Array* a = mkChars(set); result([&] { return s->Trim(a); }, true, trim(t, set, true, true), s, t, "every/trim", "Trim"); result([&] { return s->TrimEnd(a); }, true, trim(t, set, false, true), s, t, "every/trim", "TrimEnd"); result([&] { return s->TrimStart(a); }, true, trim(t, set, true, false), s, t, "every/trim", "TrimStart"); state(mc::mix(t.hash(), d)); }
SUITE(many_occurrences, 0, "texts of 255..257 occurrences, 32768 and 65536 (thorough: 9 counts to 70000 around powers of two) of a one- or two-character pattern, replaced by 0..3 characters") {
  int n = pick({ 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 70000 }), two = choose(2), k = choose(4); if (n > 257 && (thorough ? two && k != 3 : two || (n == 65536 ? k != 1 : n == 32768 ? k != 2 : true))) mc::discard(); NOTE("%d occurrences of %d by %d", n, 1 + two, k); Big p = Big::of(two ? L"ab" : L"a"), r = Big::fill(k, L'#'), t(n * p.n), w = Big::fill(n * k, L'#'); for (int i = 0; i < t.n; i++) t.c[i] = p.c[i % p.n]; String *s = mk(t), *g = nullptr; Ex e = attempt([&] { g = s->Replace(mk(p), mk(r)); }); expectEx(e, EXBIT(OK_), "raise", "replacing many occurrences"); if (!sameText(g, w)) fail("many", "replaced to %s of length %d", show(g), g ? g->get_Length() : -1); if (!sameText(s, t)) fail("changed", "text changed"); if (!two && k == 1) { g = nullptr; e = attempt([&] { g = s->Replace(L'a', L'#'); }); if (e != OK_ || !sameText(g, w)) fail("many", "character replacement"); } state(mc::mix(n, two * 4 + k)); }
