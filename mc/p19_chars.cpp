// P19: character classification, casing and Boolean text follow the ASCII rules.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
enum { NC = 11 };
static const char* const names[NC] = { "IsControl", "IsDigit", "IsLetter", "IsLetterOrDigit", "IsLower", "IsNumber", "IsPunctuation", "IsSeparator", "IsUpper", "IsWhiteSpace", "GetNumericValue" };
static double ask(int k, Char c) { switch (k) { case 0: return CharValue::IsControl(c); case 1: return CharValue::IsDigit(c); case 2: return CharValue::IsLetter(c); case 3: return CharValue::IsLetterOrDigit(c); case 4: return CharValue::IsLower(c); case 5: return CharValue::IsNumber(c); case 6: return CharValue::IsPunctuation(c); case 7: return CharValue::IsSeparator(c); case 8: return CharValue::IsUpper(c); case 9: return CharValue::IsWhiteSpace(c); default: return CharValue::GetNumericValue(c); } }
static double askAt(int k, String* s, int i) { switch (k) { case 0: return CharValue::IsControl(s, i); case 1: return CharValue::IsDigit(s, i); case 2: return CharValue::IsLetter(s, i); case 3: return CharValue::IsLetterOrDigit(s, i); case 4: return CharValue::IsLower(s, i); case 5: return CharValue::IsNumber(s, i); case 6: return CharValue::IsPunctuation(s, i); case 7: return CharValue::IsSeparator(s, i); case 8: return CharValue::IsUpper(s, i); case 9: return CharValue::IsWhiteSpace(s, i); default: return CharValue::GetNumericValue(s, i); } }
// the ASCII part of the Unicode categories .NET uses
static double rule(int k, int c) {
  bool lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', dg = c >= '0' && c <= '9', ct = c < 32 || c == 127, sy = c == '$' || c == '+' || c == '<' || c == '=' || c == '>' || c == '^' || c == '`' || c == '|' || c == '~';
  switch (k) { case 0: return ct; case 1: case 5: return dg; case 2: return lo || up; case 3: return lo || up || dg; case 4: return lo; case 6: return !ct && c != ' ' && !lo && !up && !dg && !sy; case 7: return c == ' '; case 8: return up; case 9: return c == ' ' || (c >= 9 && c <= 13); default: return dg ? c - '0' : -1; }
}
SUITE(ascii, 0, "all 128 ASCII characters x 11 classifications, alone and at every position of texts of length 1..3") { int c = choose(128), k = choose(NC), n = 1 + choose(3), i = choose(n); double w = rule(k, c), g = ask(k, (Char)c); EXPECT(g == w, names[k], "%s(%d) is %g, expected %g", names[k], c, g, w); Txt t; for (int j = 0; j < n; j++) t.add(j == i ? (wchar_t)c : c % 2 ? L'5' : L' '); String* s = new String(mkChars(t)); double h = askAt(k, s, i); EXPECT(h == w, names[k], "%s(%s, %d) is %g, expected %g", names[k], show(t), i, h, w); EXPECT(sameText(s, t), names[k], "text changed"); state(mc::mix(k * 128 + c, (uint64_t)(w + 2))); }
SUITE(all_chars, 0, "all 65536 characters: alone equals inside a text, combined classes are the unions of their parts, nothing outside ASCII is misread as an ASCII digit or letter, casing round-trips") {
  int c = choose(256) * 256 + choose(256); Char x = (Char)c; Txt t; t.add(x); String* s = new String(mkChars(t)); for (int k = 0; k < NC; k++) { double a = ask(k, x), b = askAt(k, s, 0); EXPECT(a == b, names[k], "%s(%d) alone %g, in text %g", names[k], c, a, b); if (k < 10) EXPECT(a == 0 || a == 1, names[k], "%s(%d) is neither true nor false", names[k], c); }
  EXPECT(ask(3, x) == (ask(2, x) || ask(1, x)), "union", "letter-or-digit of %d", c); EXPECT(!(ask(4, x) && ask(8, x)), "union", "%d upper and lower", c); EXPECT(!(ask(4, x) || ask(8, x)) || ask(2, x), "union", "cased %d is no letter", c); EXPECT(!ask(1, x) || ask(5, x), "union", "digit %d is no number", c); EXPECT(!ask(7, x) || ask(9, x), "union", "separator %d is no white space", c); EXPECT(!(ask(6, x) && (ask(3, x) || ask(0, x) || ask(9, x))), "union", "%d is punctuation and something else", c);
  Char u = CharValue::ToUpper(x), l = CharValue::ToLower(x); bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z'; if (c < 128) { EXPECT(u == (lo ? c - 32 : c), "upper", "upper of %d is %d", c, u); EXPECT(l == (up ? c + 32 : c), "lower", "lower of %d is %d", c, l); } EXPECT(CharValue::ToUpper(u) == u && CharValue::ToLower(l) == l, "casing/idempotent", "casing of %d", c); if (!ask(2, x)) EXPECT(u == x && l == x, "casing/others", "casing changes %d, which is no letter", c); if (c < 128) EXPECT(CharValue::ToUpper(l) == u && CharValue::ToLower(u) == l, "casing/invert", "casing of %d", c); state(mc::mix(c, u * 65537ULL + l)); }
SUITE(positions, 0, "11 classifications at positions -2..n+1 and extremes of texts of length 0..3, and of null") { int n = choose(5) - 1, k = choose(NC); Txt t(L"a1 ", n < 0 ? 0 : n); String* s = n < 0 ? nullptr : mk(t); if (n < 0) n = 0; static const int x[] = { INT32_MAX, INT32_MIN }; int j = choose(n + 6), i = j < n + 4 ? j - 2 : x[j - n - 4]; double r = -7; Ex e = attempt([&] { r = askAt(k, s, i); }); if (!s) { expectEx(e, EXBIT(xArgumentNull), "position/null", "classification in null"); return; } bool ok = i >= 0 && i < n; NOTE("%s(%s,%d)", names[k], show(t), i); expectEx(e, ok ? EXBIT(OK_) : ARG, "position/raise", "classification at a position"); if (ok) EXPECT(r == rule(k, t.c[i]), "position", "%s(%s,%d)=%g", names[k], show(t), i, r); state(mc::mix(k * 16 + n, i)); }
static bool lowEq(const Txt& t, const char* w) { if (t.n != (int)strlen(w)) return false; for (int i = 0; i < t.n; i++) { wchar_t c = t.c[i]; if (c >= 'A' && c <= 'Z') c += 32; if (c != (wchar_t)w[i]) return false; } return true; }
static void parseBool(const Txt& t) {
  String* s = new String(mkChars(t)); bool r = false; Ex e = attempt([&] { r = BooleanValue::Parse(s); }); bool tr = lowEq(t, "true"), fa = lowEq(t, "false"); NOTE("Boolean %s -> %s", show(t), exName(e));
  int a = 0, b = t.n; while (a < b && ((t.c[a] >= 9 && t.c[a] <= 13) || t.c[a] == 32)) a++; while (b > a && ((t.c[b - 1] >= 9 && t.c[b - 1] <= 13) || t.c[b - 1] == 32)) b--; Txt in = t.sub(a, b - a); bool padded = in.n != t.n && (lowEq(in, "true") || lowEq(in, "false")); 
  step(); if (tr || fa) { if (e != OK_ || r != tr) fail("boolean", "%s: %s, value %d", show(t), exName(e), r); } else if (padded && e == OK_) { if (r != lowEq(in, "true")) fail("boolean", "%s read as %d", show(t), r); } else if (e != xFormat) fail("boolean/reject", "%s: %s, expected a format error", show(t), exName(e)); EXPECT(sameText(s, t), "boolean", "text changed"); state(t.hash());
}
SUITE(boolean_case, 0, "every case mix of True and False") { bool f = choose(2); Txt t = f ? lit("false") : lit("true"); for (int i = 0; i < t.n; i++) if (choose(2)) t.c[i] -= 32; parseBool(t); }
SUITE(boolean_edits, 0, "True/False with every single character replaced, inserted or deleted (over 14 characters), and every prefix, suffix and doubled text") { Txt t = pick({ lit("True"), lit("False"), lit("true"), lit("FALSE") }); static const wchar_t al[] = { L'a', L'e', L'E', L'l', L's', L't', L'T', L'u', L'1', L' ', L'\t', 0, 0x0131, 0x1E9E }; int op = choose(5); if (op == 0) { int i = choose(t.n); t.c[i] = pick(al); } else if (op == 1) { int i = choose(t.n + 1); Txt x; x.add(pick(al)); t.insert(i, x); } else if (op == 2) t.remove(choose(t.n), 1); else if (op == 3) { int a = choose(t.n + 1), b = choose(t.n + 1); if (a > b) mc::discard(); t = t.sub(a, b - a); } else { Txt u(t); if (choose(2)) u.add(L' '); u.add(t); t = u; } parseBool(t); }
SUITE(boolean_short, 0, "every text of length 0..4 over {t r u e f a l s 1 0}") { Txt t = chooseText(L"truefals10", 0, 4); parseBool(t); }
SUITE(boolean_null, 0, "null and the predefined texts") { expectEx(attempt([&] { BooleanValue::Parse(nullptr); }), EXBIT(xArgumentNull), "boolean/null", "Boolean of null"); EXPECT(BooleanValue::Parse(BooleanValue::TrueString) && !BooleanValue::Parse(BooleanValue::FalseString), "boolean", "predefined texts"); EXPECT(sameText(BooleanValue::TrueString, L"True") && sameText(BooleanValue::FalseString, L"False"), "boolean", "predefined texts are %s %s", show(BooleanValue::TrueString), show(BooleanValue::FalseString)); for (int b = 0; b < 2; b++) { BooleanValue v(b); EXPECT(BooleanValue::Parse(((Object*)&v)->ToString()) == b, "boolean", "round trip of %d", b); } }
SUITE(char_parse, 0, "every one-character text over all 65536 characters; every text of length 0..3 over {a blank 1}; null; throwing and non-throwing forms") {
  int form = choose(2); Txt t; if (form == 0) t.add((wchar_t)(choose(256) * 256 + choose(256))); else { t = chooseText(L"a 1", 0, 3); } bool null = form == 1 && t.n == 0 && choose(2); String* s = null ? nullptr : new String(mkChars(t)); Char c = 0x7777, d = 0x7777; Ex e = attempt([&] { c = CharValue::Parse(s); }); bool ok = CharValue::TryParse(s, d); NOTE("char %s", show(t)); if (null) { expectEx(e, EXBIT(xArgumentNull), "char/null", "character of null"); EXPECT(!ok && d == 0, "char/null", "non-throwing form gave %d, %d", ok, d); return; }
  expectEx(e, t.n == 1 ? EXBIT(OK_) : EXBIT(xFormat), "char/raise", "character"); EXPECT(ok == (t.n == 1), "char/try", "non-throwing form gave %d", ok); if (t.n == 1) EXPECT(c == t.c[0] && d == t.c[0], "char/value", "%s parsed as %d, %d", show(t), c, d); else EXPECT(d == 0, "char/try", "failed form left %d", d); state(t.hash()); }
SUITE(string_case, 0, "every pair of ASCII characters: casing a string equals casing its characters") { Txt t; t.add(choose(128)).add(choose(128)); String* s = new String(mkChars(t)); Txt u, l; for (int i = 0; i < 2; i++) { u.add(CharValue::ToUpper(t.c[i])); l.add(CharValue::ToLower(t.c[i])); } EXPECT(sameText(s->ToUpper(), u) && sameText(s->ToUpperInvariant(), u), "string/upper", "upper of %s is %s", show(t), show(s->ToUpper())); EXPECT(sameText(s->ToLower(), l) && sameText(s->ToLowerInvariant(), l), "string/lower", "lower of %s is %s", show(t), show(s->ToLower())); state(t.hash()); }
SUITE(white_space, 0, "IsNullOrWhiteSpace and Trim agree with IsWhiteSpace on every text of 1..2 ASCII characters") { int n = 1 + choose(2); Txt t; bool all = true; for (int i = 0; i < n; i++) { t.add(choose(128)); all = all && CharValue::IsWhiteSpace(t.c[i]); } String* s = new String(mkChars(t)); EXPECT(String::IsNullOrWhiteSpace(s) == all, "white", "%s white space: %d", show(t), all); EXPECT((s->Trim()->get_Length() == 0) == all, "white", "trimming %s", show(t)); state(t.hash()); }

SUITE(boolean_lookalikes, 0, "True and False, padded or not, with one or two characters replaced by one equal to it modulo 256 or 65536, or its full-width form") { parseBool(lookalike(pick({ lit("True"), lit("False"), lit(" True"), lit("FALSE "), lit("true") }))); }

SUITE(far_positions, 0, "11 classifications at positions of 129 magnitudes of either sign, and at every 7th of all positions, of texts of 24 lengths 0..1000 (thorough 40, to 4097)") {
  int n = pick({ 0, 1, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 1000 }), x = farInts[choose(NFAR)]; Big t(n); for (int i = 0; i < n; i++) t.c[i] = L"aZ5 .$\t\x7f-x\x1f"[i * 7 % 11]; String* s = mk(t); NOTE("position %d of %d", x, n); for (int k = 0; k < NC; k++) { double r = -7; bool ok = x >= 0 && x < n; Ex e = attempt([&] { r = askAt(k, s, x); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "position/raise", "classification at a position"); if (ok) EXPECT(r == rule(k, t.c[x]), names[k], "%s at %d = %g", names[k], x, r); if (x == -1) { for (int i = 0; i < n; i += i % 7 == 6 || thorough ? 1 : 2) { e = attempt([&] { r = askAt(k, s, i); }); if (e != OK_ || r != rule(k, t.c[i])) fail(names[k], "%s at %d of %d = %g (%s)", names[k], i, n, r, exName(e)); step(); } e = attempt([&] { askAt(k, s, n); }); expectEx(e, ARG, "position/raise", "classification past the end"); } } EXPECT(sameText(s, t), "position/changed", "text changed"); state(mc::mix(n, (uint64_t)(uint32_t)x)); }
SUITE(long_texts, 0, "Boolean and character texts of 68 lengths 0..2049 (thorough 85, to 10000): True or False at 3 places among blanks, letters or NULs, truncated or doubled; both forms of character parsing") {
  int n = ladder(0, thorough ? 10000 : 2049), at = choose(3), pad = choose(3), w = choose(4); static const wchar_t* ws[] = { L"True", L"False", L"Tru", L"TrueTrue" }; int k = (int)wcslen(ws[w]); Big t = Big::fill(n, pad == 0 ? L' ' : pad == 1 ? L'x' : 0); t = t.splice(at == 0 ? 0 : at == 1 ? n : n / 2, 0, ws[w], k); String* s = mk(t); NOTE("%s", show(t)); bool r = false; Ex e = attempt([&] { r = BooleanValue::Parse(s); }); step(); bool word = w < 2, exact = word && n == 0, padded = word && pad != 1; if (exact) { if (e != OK_ || r != (w == 0)) fail("boolean", "%s: %s, value %d", show(t), exName(e), r); } else if (padded && e == OK_) { if (r != (w == 0)) fail("boolean", "%s read as %d", show(t), r); } else if (e != xFormat) fail("boolean/reject", "%s: %s, expected a format error", show(t), exName(e)); EXPECT(sameText(s, t), "boolean", "text changed");
  Char c = 0x7777, d = 0x7777; Ex f = attempt([&] { c = CharValue::Parse(s); }); bool ok = true; Ex g = attempt([&] { ok = CharValue::TryParse(s, d); }); expectEx(f, EXBIT(xFormat), "char/raise", "character"); expectEx(g, EXBIT(OK_), "char/try", "trying"); EXPECT(!ok && d == 0, "char/try", "gave %d, %d", ok, d); state(mc::mix(mc::mix(n, at), pad * 4 + w)); }
SUITE(static_casing, 0, "upper and lower case of 116 characters of every kind, alone, as a text of 1..3 of them with another such character, and boxed: the same by every way, ASCII by its rule") {
  wchar_t x = ladderChar(), y = ladderChar(); int n = 1 + choose(3); Txt t, u, l; for (int i = 0; i < n; i++) { wchar_t c = i & 1 ? y : x; t.add(c); u.add(CharValue::ToUpper(c)); l.add(CharValue::ToLower(c)); } String* s = new String(mkChars(t)); EXPECT(sameText(s->ToUpper(), u) && sameText(s->ToUpperInvariant(), u), "string/upper", "upper of %s is %s", show(t), show(s->ToUpper())); EXPECT(sameText(s->ToLower(), l) && sameText(s->ToLowerInvariant(), l), "string/lower", "lower of %s is %s", show(t), show(s->ToLower())); if (x < 128) EXPECT(u.c[0] == (x >= 'a' && x <= 'z' ? x - 32 : x) && l.c[0] == (x >= 'A' && x <= 'Z' ? x + 32 : x), "casing", "casing of %d", (int)x); EXPECT(sameText(s, t), "string/changed", "text changed"); state(mc::mix(u.hash(), l.hash())); }
