// P08: strings hold exactly the characters given and never change.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
static void hasText(String* s, const Txt& t, const char* key, const char* how) { step(); if (!sameText(s, t)) fail(key, "%s: holds %s (length %d), expected %s", how, show(s), s ? s->get_Length() : -1, show(t)); }
static wchar_t L_(int i) { return SK(L"abcxefgh"[i & 7]); }
static const int wide[] = { 0, 1, 2, 3, 4, 5, 6, 7, -1, -2, INT32_MIN, INT32_MIN + 1, INT32_MAX, INT32_MAX - 1 };
SUITE(literal, 0, "every text of length 0..6 (thorough 0..8) over {a b blank}: literal constructor, letters also standing for 5 sets of easily confused characters") { skins(); Txt t = chooseText(L"ab ", 0, thorough ? 8 : mc::skin ? 4 : 6); NOTE("%s", show(t)); String* s = mk(t); hasText(s, t, "literal", "string from literal"); for (int i = 0; i < t.n; i++) EXPECT(s->get_Chars(i) == t.c[i] && *s->Address(i) == t.c[i], "literal", "character %d of %s", i, show(t)); state(t.hash()); }
SUITE(text_slice, 0, "every text of length 0..5 over {a b}, slice start and length over 14 positions including negative and extreme, letters also standing for 5 sets of easily confused characters") {
  skins(); Txt t = chooseText(L"ab", 0, 5); int st = pick(wide), len = pick(wide); bool dflt = choose(2); Char* p = rawChars(t.c, t.n); String* s = nullptr; NOTE("slice %d,%d default=%d of %s", st, len, dflt, show(t)); Txt o = t;
  Ex e = attempt([&] { s = dflt ? new String(p, st) : new String(p, st, len); }); bool rest = dflt || len < 0; bool ok = st >= 0 && st <= t.n && (rest || len <= t.n - st);
  if (rest && !dflt && len != -1 && e != OK_) { expectEx(e, ARG, "slice/raise", "negative length"); return; }
  expectEx(e, ok ? EXBIT(OK_) : ARG, "slice/raise", "slice of text"); if (ok) { int n = rest ? t.n - st : len; hasText(s, t.sub(st, n), "slice/text", "slice"); for (int i = 0; i < t.n; i++) p[i] = L'#'; hasText(s, o.sub(st, n), "slice/alias", "slice after its source text changed"); } state(mc::mix(t.hash(), ok));
}
SUITE(array_slice, 0, "character arrays of length 0..5 over {a NUL}, start and length over 14 positions; then the source array changes, letters also standing for 5 sets of easily confused characters") {
  skins(); Txt t; int n = choose(6); for (int i = 0; i < n; i++) t.add(choose(2) ? 0 : L_(i)); int st = pick(wide), len = pick(wide), form = choose(3); Array* a = mkChars(t); String* s = nullptr; NOTE("array %s start %d length %d form %d", show(t), st, len, form);
  Ex e = attempt([&] { s = form == 0 ? new String(a) : form == 1 ? new String(a, st) : new String(a, st, len); }); if (form == 0) st = 0; bool rest = form < 2 || len < 0;
  if (e != OK_ && (st < 0 || (form == 2 && len < 0 && len != -1))) { expectEx(e, ARG, "array/raise", "negative start or length"); return; }
  if (st < 0) st = 0; bool ok = (!rest && len == 0) || (st <= n && (rest || len <= n - st)); if (!rest && len == 0 && (st > n) && e != OK_) { expectEx(e, ARG, "array/raise", "empty slice past the end"); return; }
  expectEx(e, ok ? EXBIT(OK_) : ARG, "array/raise", "string from array"); if (ok) { Txt w = (!rest && len == 0) ? Txt() : t.sub(st, rest ? n - st : len); hasText(s, w, "array/text", "string from array"); for (int i = 0; i < n; i++) *(Char*)a->Address(i) = L'#'; hasText(s, w, "array/alias", "string after its source array changed"); EXPECT(a->get_Length() == n, "array/length", "array length changed"); } state(mc::mix(t.hash(), ok));
}
SUITE(array_kinds, 0, "arrays of every element type and of rank 1..3 as source; null source") {
  int k = choose(NTYPES), rank = 1 + choose(3), st = choose(2), len = choose(3) - 1; Array* a = rank == 1 ? new Array(elemTypes[k], 2) : rank == 2 ? new Array(elemTypes[k], 2, 1) : new Array(elemTypes[k], 2, 1, 1); NOTE("%s rank %d", typeName(elemTypes[k]), rank);
  Ex e = attempt([&] { new String(a, st, len); }); if (len == 0) { return; } bool ok = elemTypes[k] == CharType && rank == 1; expectEx(e, ok ? EXBIT(OK_) : (ARG | EXBIT(xRank)), "array/kind", "string from this array"); state(k * 4 + rank);
}
SUITE(null_array, 0, "null array with each start/length in -1..1") { int st = choose(3) - 1, len = choose(3) - 1; String* s = nullptr; Ex e = attempt([&] { s = new String((Array*)nullptr, st, len); }); step(); if (e == OK_) hasText(s, Txt(), "array/null", "string from null array"); else expectEx(e, ARG | EXBIT(xArgumentNull), "array/null", "string from null array"); }
SUITE(repeat, 0, "every character of {a NUL U+FFFF U+0161 U+10061} repeated -3..300 times (thorough -3..3000)") { wchar_t c = pick({ L'a', L'\0', (wchar_t)0xFFFF, (wchar_t)0x161, (wchar_t)0x10061 }); int n = choose(thorough ? 3004 : 304) - 3; String* s = nullptr; NOTE("%d times", n); Ex e = attempt([&] { s = new String((Char)c, n); }); expectEx(e, n >= 0 ? EXBIT(OK_) : ARG, "repeat/raise", "repeat"); if (n >= 0 && n < Txt::CAP) { Txt t; for (int i = 0; i < n; i++) t.add(c); hasText(s, t, "repeat/text", "repeated character"); } else if (n >= 0) { EXPECT(s->get_Length() == n, "repeat/text", "length"); for (int i = 0; i < n; i++) if (s->get_Chars(i) != c) fail("repeat/text", "character %d", i); } state(n); }
static String* make(const Txt& t, int form) { bool nul = false; for (int i = 0; i < t.n; i++) nul = nul || !t.c[i]; if (form == 0 && !nul) return mk(t); return new String(mkChars(t)); }
SUITE(index, 0, "texts of length 0..5 over {a NUL} in both storage forms, every index over 14 positions, letters also standing for 5 sets of easily confused characters") { skins(); Txt t; int n = choose(6); for (int i = 0; i < n; i++) t.add(choose(2) ? 0 : L_(i)); String* s = make(t, choose(2)); int i = pick(wide); NOTE("index %d of %s", i, show(t)); Char c = 0; Char* p = nullptr; bool ok = i >= 0 && i < n;
  Ex e = attempt([&] { c = s->get_Chars(i); }), f = attempt([&] { p = s->Address(i); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "index/raise", "reading a character"); expectEx(f, ok ? EXBIT(OK_) : ARG, "index/raise", "address of a character"); if (ok) EXPECT(c == t.c[i] && *p == t.c[i], "index/value", "character %d of %s is %d", i, show(t), c); hasText(s, t, "index/changed", "after reading"); state(mc::mix(t.hash(), i)); }
SUITE(copy_to, 0, "copying out of texts of length 0..4 (one with a NUL) into character arrays of length 0..4, every source, destination and count over 9 positions, letters also standing for 5 sets of easily confused characters") {
  skins(); static const int w[] = { 0, 1, 2, 3, 4, 5, -1, INT32_MIN, INT32_MAX }; Txt t = SK(pick({ Txt(L""), Txt(L"a"), Txt(L"ab"), Txt(L"a\0c", 3), Txt(L"abcx") })); int dn = choose(5), si = pick(w), di = pick(w), c = pick(w); String* s = make(t, 0); Txt d; for (int i = 0; i < dn; i++) d.add(L'0' + i); Array* a = mkChars(d); NOTE("%s.CopyTo(%d, array %d, %d, %d)", show(t), si, dn, di, c);
  Ex e = attempt([&] { s->CopyTo(si, a, di, c); }); bool ok = si >= 0 && di >= 0 && c >= 0 && si <= t.n - c && di <= dn - c; expectEx(e, ok ? EXBIT(OK_) : ARG, "copyto/raise", "copying out"); if (ok) for (int i = 0; i < c; i++) d.c[di + i] = t.c[si + i];
  for (int i = 0; i < dn; i++) EXPECT(*(Char*)a->Address(i) == d.c[i], "copyto/value", "element %d after copying out is %d", i, *(Char*)a->Address(i)); for (int i = 0; i < dn; i++) *(Char*)a->Address(i) = L'#'; hasText(s, t, "copyto/changed", "string after copying out"); state(mc::mix(mc::mix(d.hash(), t.hash()), ok));
}
SUITE(copy_to_kinds, 0, "copying out to arrays of every element type, rank 1..3 and null") { int k = choose(NTYPES + 1), rank = 1 + choose(3), c = choose(3); Array* a = k == NTYPES ? nullptr : rank == 1 ? new Array(elemTypes[k], 4) : rank == 2 ? new Array(elemTypes[k], 4, 1) : new Array(elemTypes[k], 4, 1, 1); String* s = mk(L"abcd"); Ex e = attempt([&] { s->CopyTo(0, a, 0, c); }); bool ok = k < NTYPES && elemTypes[k] == CharType && rank == 1; if (c == 0 && k < NTYPES) return; expectEx(e, ok ? EXBIT(OK_) : k == NTYPES ? EXBIT(xArgumentNull) : (ARG | EXBIT(xRank)), "copyto/kind", "copying out to this array"); if (!ok && a) for (int i = 0; i < 4 * sizeOf(elemTypes[k]); i++) if (((char*)a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1))[i]) fail("copyto/kind", "array changed by a refused copy"); state(k); }
SUITE(to_array, 0, "texts of length 0..5 over {a NUL}, every start and length over 14 positions; the copy then changes, letters also standing for 5 sets of easily confused characters") {
  skins(); Txt t; int n = choose(6); for (int i = 0; i < n; i++) t.add(choose(2) ? 0 : L_(i)); String* s = make(t, choose(2)); int st = pick(wide), len = pick(wide), form = choose(3); Array* a = nullptr; NOTE("%s.ToCharArray(%d,%d) form %d", show(t), st, len, form);
  Ex e = attempt([&] { a = form == 0 ? s->ToCharArray() : form == 1 ? s->ToCharArray(st) : s->ToCharArray(st, len); }); if (form == 0) st = 0; bool rest = form < 2 || len < 0; if (form == 2 && len < -1 && e != OK_) { expectEx(e, ARG, "toarray/raise", "negative length"); return; }
  bool ok = st >= 0 && st <= n && (rest || len <= n - st); expectEx(e, ok ? EXBIT(OK_) : (ARG | EXBIT(xRank)), "toarray/raise", "copying out to a new array"); if (ok) { int c = rest ? n - st : len; EXPECT(a->get_Length() == c && a->GetElementType() == CharType, "toarray/length", "array of %d elements for %d characters", a->get_Length(), c); for (int i = 0; i < c; i++) { EXPECT(*(Char*)a->Address(i) == t.c[st + i], "toarray/value", "element %d", i); *(Char*)a->Address(i) = L'#'; } } hasText(s, t, "toarray/changed", "string after its copy changed"); state(mc::mix(t.hash(), ok)); }
SUITE(enumerator, 0, "texts of length 0..4, every sequence of 9 (thorough 12; 5 for 5 other character sets) steps out of advance, read, reset") {
  skins(); Txt t = SK(Txt(L"abcd", choose(5))); if (t.n > 2) t.c[1] = 0; String* s = make(t, 1); CharEnumerator* en = s->GetEnumerator(); int pos = -1; int depth = mc::skin ? 5 : thorough ? 12 : 9; NOTE("%s", show(t));
  for (int d = 0; d < depth; d++) { int op = choose(3); if (op == 0) { bool m = en->MoveNext(); if (pos < t.n) pos++; NOTE("advance -> %d", m); EXPECT(m == (pos < t.n), "enum/move", "advance returned %d at position %d of %d", m, pos, t.n); }
    else if (op == 1) { Char c = 0; Ex e = attempt([&] { c = en->get_Current(); }); NOTE("read"); bool ok = pos >= 0 && pos < t.n; expectEx(e, ok ? EXBIT(OK_) : EXBIT(xInvalidOperation), "enum/read", "reading the current character"); if (ok) EXPECT(c == t.c[pos], "enum/value", "read %d at %d", c, pos); }
    else { en->Reset(); pos = -1; NOTE("reset"); } state(mc::mix(t.n, pos)); }
  hasText(s, t, "enum/changed", "string after enumeration");
}
SUITE(two_enumerators, 0, "two enumerators over one text, every interleaving of 8 advances") { Txt t(L"abc", 1 + choose(3)); String* s = mk(t); CharEnumerator* e[2] = { s->GetEnumerator(), s->GetEnumerator() }; int p[2] = { -1, -1 }; for (int d = 0; d < 8; d++) { int k = choose(2); bool m = e[k]->MoveNext(); if (p[k] < t.n) p[k]++; EXPECT(m == (p[k] < t.n), "enum/two", "advance"); for (int j = 0; j < 2; j++) if (p[j] >= 0 && p[j] < t.n) EXPECT(e[j]->get_Current() == t.c[p[j]], "enum/two", "enumerator %d reads %d", j, e[j]->get_Current()); state(p[0] * 8 + p[1]); } }
// every operation of String applied to shared strings
enum { NOPS = 52 };
static void apply(int op, String* s, String* p, String* q, int a, int b, Array* arr, Array* list) {
  switch (op) {
  case 0: s->Insert(a, p); break; case 1: s->Remove(a, b); break; case 2: s->Replace(p, q); break; case 3: s->Replace(L'a', L'z'); break; case 4: s->PadLeft(a + 5, L'x'); break; case 5: s->PadRight(a + 5, L'x'); break;
  case 6: s->Trim(); break; case 7: s->Trim(arr); break; case 8: s->TrimStart(arr); break; case 9: s->TrimEnd(arr); break; case 10: s->ToLower(); break; case 11: s->ToUpper(); break; case 12: s->ToLowerInvariant(); break; case 13: s->ToUpperInvariant(); break;
  case 14: s->Substring(a); break; case 15: s->Substring(a, b); break; case 16: String::Concat(s, p, q); break; case 17: String::Concat(list); break; case 18: String::Join(p, list); break; case 19: String::Join(L',', list); break; case 20: String::Copy(s); break;
  case 21: s->IndexOf(p); break; case 22: s->IndexOf(L'b'); break; case 23: s->LastIndexOf(p); break; case 24: s->LastIndexOf(L'b'); break; case 25: s->IndexOfAny(arr); break; case 26: s->LastIndexOfAny(arr); break; case 27: s->Contains(p); break; case 28: s->StartsWith(p); break; case 29: s->EndsWith(p); break;
  case 30: String::Compare(s, p); break; case 31: String::Compare(s, p, true); break; case 32: String::CompareOrdinal(s, p); break; case 33: s->CompareTo(p); break; case 34: s->CompareTo((Object*)p); break; case 35: s->Equals(p); break; case 36: s->Equals((Object*)p); break; case 37: String::op_Inequality(s, p); break;
  case 38: s->ToCharArray(); break; case 39: s->CopyTo(0, arr, 0, 1); break; case 40: s->GetEnumerator()->MoveNext(); break; case 41: s->ToString(); break; case 42: String::IsNullOrEmpty(s); break; case 43: String::IsNullOrWhiteSpace(s); break;
  case 44: { StringBuilder* sb = new StringBuilder(s); sb->Append(p)->Insert(0, q)->Replace(L'a', L'#'); sb->set_Length(1); sb->set_Chars(0, L'?'); break; } case 45: { StringBuilder* sb = new StringBuilder(); sb->Append(s); sb->Replace(s, p); sb->Insert(0, s, 2); sb->Clear(); break; }
  case 46: { Char b2[40]; s->FormatString(b2, 40); break; } case 47: Int32Value::Parse(s); break; case 48: BooleanValue::Parse(s); break; case 49: { Double d; DoubleValue::TryParse(s, d); break; } case 50: { TimeSpan ts; TimeSpanValue::TryParse(s, ts); break; } case 51: CharValue::IsLetter(s, a); break;
  }
}
SUITE(immutability, 0, "every pair of 52 operations (each with 3 argument sets) on the same strings in 6 text combinations: no string changes, in either order of success and failure") {
  static const wchar_t* texts[][3] = { { L"abab", L"b", L"xyz" }, { L"", L"", L"" }, { L" ab ", L"ab", L"" }, { L"12", L"1", L"2" }, { L"True", L"abcabc", L"a" }, { L"aA1:2", L":", L"  " } }; int k = choose(6);
  Txt t(texts[k][0]), u(texts[k][1]), v(texts[k][2]); int form = choose(2); String *s = make(t, form), *p = make(u, form), *q = make(v, form); Array* arr = mkChars(L" b"); Array* list = new Array(ObjectType, 3); *(Object**)list->Address(0) = s; *(Object**)list->Address(1) = p; *(Object**)list->Address(2) = q; Char* bs = s->get_Buffer();
  int seq = thorough ? 3 : 2; for (int i = 0; i < seq; i++) { int op = choose(NOPS), arg = i == 2 ? 0 : choose(3), a = arg == 0 ? 0 : arg == 1 ? 1 : 9, b = arg == 0 ? 1 : arg == 1 ? 2 : -1; NOTE("operation %d args %d,%d", op, a, b); attempt([&] { apply(op, s, p, q, a, b, arr, list); }); hasText(s, t, "changed/receiver", "receiver"); hasText(p, u, "changed/argument", "argument"); hasText(q, v, "changed/argument", "second argument"); EXPECT(s->get_Buffer() == bs, "changed/receiver", "storage moved"); EXPECT(String::Empty->get_Length() == 0, "changed/empty", "the empty string changed"); state(mc::mix(op, k)); }
}
SUITE(copies, 0, "Copy of every text of length 0..6 over {a NUL}, null; plain object views, letters also standing for 5 sets of easily confused characters") { skins(); Txt t; int n = choose(7); for (int i = 0; i < n; i++) t.add(choose(2) ? 0 : L_(i)); String* s = make(t, choose(2)); hasText(String::Copy(s), t, "copy", "copy"); hasText(s->ToString(), t, "copy", "ToString"); hasText(((Object*)s)->ToString(), t, "copy", "ToString as object"); EXPECT(s->GetRawDataType() == StringType, "copy", "type"); hasText(s, t, "copy", "original"); if (n == 0) expectEx(attempt([&] { String::Copy(nullptr); }), EXBIT(xArgumentNull), "copy", "copy of null"); state(t.hash()); }

SUITE(large, 0, "texts of 6 (thorough 18) lengths 128..70001: built from text, slices of text and of an array, copied out whole and by part at positions around powers of two, read by index, pointer and enumerator; plain letters, or with NULs and characters outside the BMP among them") {
  bool nul = holes(); int n = bigLength(), st = bigPos(n, true), len = bigPos(n, true); Big t = Big::pattern(n); String* s = mk(t); NOTE("length %d start %d count %d", n, st, len); bool ok = st >= 0 && st <= n && len >= 0 && len <= n - st;
  if (st >= 0 && st < n) EXPECT(s->get_Chars(st) == t.c[st] && *s->Address(st) == t.c[st], "large", "character %d", st); else expectEx(attempt([&] { s->get_Chars(st); }), ARG, "large", "character outside");
  if (len >= 0) { String* r = nullptr; Ex e; if (!nul) { e = attempt([&] { r = new String(rawChars(t.c, n), st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "large", "slice of text"); if (ok) EXPECT(sameText(r, t.sub(st, len)), "large", "slice of text"); }
    e = attempt([&] { r = new String(mkChars(t), st, len); }); if (st >= 0 && (len || st <= n)) { expectEx(e, ok ? EXBIT(OK_) : ARG, "large", "slice of array"); if (ok) EXPECT(sameText(r, t.sub(st, len)), "large", "slice of array"); }
    Array* a = nullptr; e = attempt([&] { a = s->ToCharArray(st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "large", "copying out"); if (ok) EXPECT(a->get_Length() == len && (!len || !memcmp(a->Address(0), t.c + st, len * sizeof(Char))), "large", "copied out array");
    Big d = Big::pattern(n + 3, 5); a = mkChars(d); e = attempt([&] { s->CopyTo(st, a, 2, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "large", "copying to"); if (ok) memcpy(d.c + 2, t.c + st, len * sizeof(Char)); EXPECT(!memcmp(a->Address(0), d.c, d.n * sizeof(Char)), "large", "copied to array"); }
  if (st == 0 && len == 1) { EXPECT(sameText(new String(mkChars(t)), t) && sameText(String::Copy(s), t) && sameText(s->ToString(), t) && sameText(new String((Char)L'q', n), Big::fill(n, L'q')), "large", "whole text"); Array* a = s->ToCharArray(); EXPECT(a->get_Length() == n && !memcmp(a->Address(0), t.c, n * sizeof(Char)), "large", "whole array"); CharEnumerator* en = s->GetEnumerator(); int k = 0; while (en->MoveNext()) { if (k >= n || en->get_Current() != t.c[k]) fail("large/enum", "enumerated character %d", k); k++; } EXPECT(k == n, "large/enum", "%d characters enumerated of %d", k, n); }
  EXPECT(sameText(s, t), "large", "text changed"); state(mc::mix(n, mc::mix(st, len))); }
SUITE(repeat_far, 0, "a character repeated around every power of two and of ten from 512 to 2097152 (8 below to 8 above), with its neighbours in the count at every place") { static const int base[] = { 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 262144, 524288, 1000000, 1048576, 2097152 }; int n = pick(base) - 8 + choose(17); String* s = nullptr; Ex e = attempt([&] { s = new String((Char)L'x', n); }); step(); if (e != OK_ || s->get_Length() != n) fail("repeat/far", "%d characters: %s", n, exName(e)); Char* c = s->get_Buffer(); for (int i = 0; i < n; i++) if (c[i] != L'x') fail("repeat/far", "%d characters: character %d is %X", n, i, (unsigned)c[i]); if (c[n]) fail("repeat/far", "not terminated"); delete s; state(n); }
// ---- long texts with a NUL (or a character that looks like one) at any place
SUITE(copy_long, 0, "texts of length 0..130 (thorough 0..300) with a NUL, or a character whose low 8 or 16 bits are 0, at every place (or none): copies, slices, arrays and back, joined with other text, kept by the pool of builders") {
  int n = choose(thorough ? 301 : 131), at = choose(n + 1) - 1; wchar_t z = at < 0 ? 0 : pick({ L'\0', (wchar_t)0x100, (wchar_t)0x10000 }); Txt t; Big b = Big::pattern(n); if (at >= 0) b.c[at] = z; NOTE("length %d, U+%X at %d", n, (unsigned)z, at);
  Array* a = mkChars(b); String* s = new String(a); EXPECT(sameText(s, b), "long/array", "string from an array"); for (int i = 0; i < n; i++) *(Char*)a->Address(i) = L'#';
  EXPECT(sameText(String::Copy(s), b), "long/copy", "Copy of %d characters gave %d", n, String::Copy(s)->get_Length()); EXPECT(sameText(s->ToString(), b), "long/copy", "ToString"); EXPECT(sameText(((Object*)s)->ToString(), b), "long/copy", "ToString as object"); EXPECT(sameText(s->Substring(0), b) && sameText(s->Substring(0, n), b), "long/copy", "Substring of everything");
  Array* c = s->ToCharArray(); EXPECT(c->get_Length() == n && (!n || !memcmp(c->Address(0), b.c, n * sizeof(Char))), "long/array", "ToCharArray"); EXPECT(sameText(new String(c, 0, n), b), "long/array", "string from the array of a string"); if (n) { EXPECT(sameText(new String(c, n / 2), b.sub(n / 2, n - n / 2)), "long/array", "tail of an array"); EXPECT(sameText(s->Substring(n / 2), b.sub(n / 2, n - n / 2)), "long/copy", "tail"); }
  CharEnumerator* en = s->GetEnumerator(); int k = 0; while (en->MoveNext()) { if (k >= n || en->get_Current() != b.c[k]) fail("long/enum", "enumerated character %d", k); k++; } EXPECT(k == n, "long/enum", "%d characters enumerated of %d", k, n); for (int i = 0; i < n; i++) EXPECT(s->get_Chars(i) == b.c[i], "long/index", "character %d", i);
  StringBuilder* sb = new StringBuilder(s); EXPECT(sameText(sb->ToString(), b), "long/builder", "through a builder"); EXPECT(s->Equals(new String(c)), "long/equals", "equal copies differ"); EXPECT(sameText(s, b), "long/changed", "the text changed"); state(mc::mix(n, at * 4 + (z != 0) + (z > 0x100))); }

// ---- middle-sized texts, arguments of every magnitude, characters of every kind
static int spot8(int n) { int l[] = { 0, 1, 2, 7, 8, n / 2, n - 2, n - 1, n, n + 1 }, ok[12], k = 0; for (int i = 0; i < 10; i++) if (l[i] >= 0 && l[i] <= n + 1) { bool dup = false; for (int j = 0; j < k; j++) dup = dup || ok[j] == l[i]; if (!dup) ok[k++] = l[i]; } return ok[choose(k)]; }
SUITE(medium, 0, "texts of 60 (thorough 84) lengths 0..1001 (8192): slices of text and of an array, copies out whole, by part, and into arrays longer or shorter by 0..2 or of 4 other lengths, starts and counts from 10 places; repeated character; enumerator") {
  bool nul = holes(); int n = ladder(0, thorough ? 8192 : 1001), st = spot8(n), len = spot8(n); Big t = Big::pattern(n); String* s = mk(t); NOTE("length %d start %d count %d", n, st, len); bool ok = st <= n && len <= n - st; String* r = nullptr; Ex e; Array* src = mkChars(t);
  if (st < n) EXPECT(s->get_Chars(st) == t.c[st] && *s->Address(st) == t.c[st], "medium/index", "character %d", st); else if (st > n) expectEx(attempt([&] { s->get_Chars(st); }), ARG, "medium/index", "character outside");
  if (!nul) { e = attempt([&] { r = new String(rawChars(t.c, n), st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "medium/slice", "slice of text"); if (ok) EXPECT(sameText(r, t.sub(st, len)), "medium/slice", "slice of text"); if (len == 0) { e = attempt([&] { r = new String(rawChars(t.c, n), st); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "medium/slice", "rest of text"); if (ok) EXPECT(sameText(r, t.sub(st, n - st)), "medium/slice", "rest of text"); } }
  if (ok || len) { e = attempt([&] { r = new String(src, st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "medium/slice", "slice of array"); if (ok) EXPECT(sameText(r, t.sub(st, len)), "medium/slice", "slice of array"); }
  Array* a = nullptr; e = attempt([&] { a = s->ToCharArray(st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "medium/toarray", "copying out"); if (ok) { EXPECT(a->get_Length() == len && (!len || !memcmp(a->Address(0), t.c + st, len * sizeof(Char))), "medium/toarray", "copied out array"); if (len) { *(Char*)a->Address(0) = 1; *(Char*)a->Address(len - 1) = 1; } } if (len == 0) { e = attempt([&] { a = s->ToCharArray(st); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "medium/toarray", "copying out the rest"); if (ok) EXPECT(a->get_Length() == n - st && (n == st || !memcmp(a->Address(0), t.c + st, (n - st) * sizeof(Char))), "medium/toarray", "copied out rest"); }
  int dn[] = { len, len + 1, len + 2, len - 1, n, 0, 64, 257 }; for (int q = 0; q < 8; q++) for (int di = 0; di < 3; di++) { if (dn[q] < 0) continue; Big d = Big::pattern(dn[q], 5); a = mkChars(d); e = attempt([&] { s->CopyTo(st, a, di, len); }); bool fit = ok && di <= dn[q] - len; expectEx(e, fit ? EXBIT(OK_) : ARG, "medium/copyto", "copying to"); if (fit) memcpy(d.c + di, t.c + st, len * sizeof(Char)); EXPECT(!dn[q] || !memcmp(a->Address(0), d.c, d.n * sizeof(Char)), "medium/copyto", "array of %d after copying %d to %d", dn[q], len, di); }
  if (st == 0 && len == 0) { EXPECT(sameText(new String(src), t) && sameText(String::Copy(s), t) && sameText(s->ToString(), t) && sameText(new String((Char)L'q', n), Big::fill(n, L'q')), "medium/whole", "whole text"); CharEnumerator* en = s->GetEnumerator(); for (int turn = 0; turn < 2; turn++) { int k = 0; expectEx(attempt([&] { en->get_Current(); }), EXBIT(xInvalidOperation), "medium/enum", "reading before the first"); while (en->MoveNext()) { if (k >= n || en->get_Current() != t.c[k]) fail("medium/enum", "enumerated character %d", k); k++; } EXPECT(k == n, "medium/enum", "%d characters enumerated of %d", k, n); expectEx(attempt([&] { en->get_Current(); }), EXBIT(xInvalidOperation), "medium/enum", "reading after the last"); EXPECT(!en->MoveNext(), "medium/enum", "advancing after the end"); en->Reset(); } }
  EXPECT(sameText(s, t), "medium/changed", "text changed"); state(mc::mix(n, mc::mix(st, len))); }
SUITE(far_args, 0, "texts of 0, 1, 5, 40, 130 and 600 characters: indexing, slices of text and array, and copies out, with an argument of 129 magnitudes of either sign in each place, alone and with each of 4 others; repeat counts below zero") {
  int n = pick({ 0, 1, 5, 40, 130, 600 }), x = farInts[choose(NFAR)]; Big t = Big::pattern(n); String* s = mk(t); NOTE("%d characters, %d", n, x); bool idx = x >= 0 && x < n; Char c = 0; Ex e;
  if (x != n) { expectEx(attempt([&] { c = s->get_Chars(x); }), idx ? EXBIT(OK_) : ARG, "far/index", "indexing"); if (idx) EXPECT(c == t.c[x], "far/index", "character %d", x); Char* p = nullptr; expectEx(attempt([&] { p = s->Address(x); }), idx ? EXBIT(OK_) : ARG, "far/index", "addressing"); if (idx) EXPECT(*p == t.c[x], "far/index", "character at %d", x); }
  Array* src = mkChars(t); auto two = [&](int st, int len) { bool ok = st >= 0 && st <= n && len >= 0 && len <= n - st; String* r = nullptr; Array* a = nullptr; if (len >= 0) { e = attempt([&] { r = new String(rawChars(t.c, n), st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "far/slice", "slice of text"); if (ok) EXPECT(sameText(r, t.sub(st, len)), "far/slice", "slice of text"); if (st >= 0 && len) { e = attempt([&] { r = new String(src, st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "far/slice", "slice of array"); if (ok) EXPECT(sameText(r, t.sub(st, len)), "far/slice", "slice of array"); } e = attempt([&] { a = s->ToCharArray(st, len); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "far/toarray", "copying out"); if (ok) EXPECT(a->get_Length() == len && (!len || !memcmp(a->Address(0), t.c + st, len * sizeof(Char))), "far/toarray", "copied out array"); } };
  for (int o : { 0, 1, n, INT32_MAX, x }) { two(x, o); two(o, x); } { bool ok = x >= 0 && x <= n; expectEx(attempt([&] { String* r = new String(rawChars(t.c, n), x); (void)r; }), ok ? EXBIT(OK_) : ARG, "far/slice", "rest of text"); expectEx(attempt([&] { s->ToCharArray(x); }), ok ? EXBIT(OK_) : ARG, "far/toarray", "copying out the rest"); if (x >= 0) expectEx(attempt([&] { String* r = new String(src, x); (void)r; }), ok ? EXBIT(OK_) : ARG, "far/slice", "rest of array"); }
  for (int dn : { 0, 5, 40, 130, 700 }) for (int place = 0; place < 3; place++) for (int o : { 0, 1, dn, n, INT32_MAX, x }) { int g[3] = { o, o, o }; if (o == n || o == dn) g[0] = 0; g[place] = x; Big d = Big::pattern(dn, 5); Array* a = mkChars(d); e = attempt([&] { s->CopyTo(g[0], a, g[1], g[2]); }); bool ok = g[0] >= 0 && g[1] >= 0 && g[2] >= 0 && g[0] <= n - g[2] && g[1] <= dn - g[2]; expectEx(e, ok ? EXBIT(OK_) : ARG, "far/copyto", "copying to"); if (ok && g[2]) memcpy(d.c + g[1], t.c + g[0], g[2] * sizeof(Char)); EXPECT(!dn || !memcmp(a->Address(0), d.c, dn * sizeof(Char)), "far/copyto", "array after copying"); }
  if (x < 0) expectEx(attempt([&] { String* r = new String((Char)L'x', x); (void)r; }), ARG, "far/repeat", "repeating a negative number of times"); EXPECT(sameText(s, t), "far/changed", "text changed"); state(mc::mix(n, (uint64_t)(uint32_t)x)); }
SUITE(every_char, 0, "two characters of 116 kinds each, in texts of 1..3 of them: made from text, array and repetition, read by index, pointer, copy and enumerator") {
  wchar_t x = ladderChar(), y = ladderChar(); int n = 1 + choose(3); Txt t; for (int i = 0; i < n; i++) t.add(i & 1 ? y : x); NOTE("%d of U+%X U+%X", n, (unsigned)x, (unsigned)y); Array* a = mkChars(t); String* s = new String(a); hasText(s, t, "every/array", "string from array"); if (x && y) { hasText(mk(t), t, "every/text", "string from text"); hasText(new String(rawChars(t.c, n), n - 1, 1), t.sub(n - 1, 1), "every/text", "slice"); } hasText(String::Copy(s), t, "every/copy", "Copy"); hasText(new String(a, n - 1, 1), t.sub(n - 1, 1), "every/array", "slice of array"); Array* b = s->ToCharArray(); for (int i = 0; i < n; i++) EXPECT(*(Char*)b->Address(i) == t.c[i] && s->get_Chars(i) == t.c[i] && *s->Address(i) == t.c[i], "every/read", "character %d", i); Array* d = new Array(CharType, 4); s->CopyTo(0, d, 1, n); for (int i = 0; i < 4; i++) EXPECT(*(Char*)d->Address(i) == (i >= 1 && i <= n ? t.c[i - 1] : 0), "every/copyto", "element %d", i); CharEnumerator* en = s->GetEnumerator(); for (int i = 0; i < n; i++) EXPECT(en->MoveNext() && en->get_Current() == t.c[i], "every/enum", "enumerated character %d", i); EXPECT(!en->MoveNext(), "every/enum", "past the end"); if (n == 1) for (int k : { 0, 1, 2, 3, 17, 129 }) { String* r = new String((Char)x, k); bool ok = r->get_Length() == k; for (int i = 0; i < k && ok; i++) ok = r->get_Chars(i) == (Char)x; EXPECT(ok, "every/repeat", "%d times", k); } state(t.hash()); }
