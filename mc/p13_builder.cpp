// P13: a string builder behaves as an editable list of characters.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentNull) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument) | EXBIT(xRank);
static Txt alphabet(int n, int from = 0) { Txt t; for (int i = 0; i < n; i++) t.add(L'A' + (i + from) % 26); return t; }
struct B { StringBuilder* sb; Txt m; };
static void same(B& b, const char* key, const char* what) {
  step(); Char* p = b.sb->get_Buffer(); int n = b.sb->get_Length();
  if (n != b.m.n || memcmp(p, b.m.c, n * sizeof(Char))) fail(key, "%s: builder holds %s (length %d), expected %s (length %d)", what, show(p, n < 0 || n > 1500 ? 0 : n), n, show(b.m), b.m.n);
  if (p[n] != 0) fail(key, "%s: text of length %d not terminated", what, n);
}
static void full(B& b, const char* key, const char* what) {
  same(b, key, what); int n = b.m.n; String* s = b.sb->ToString(); EXPECT(sameText(s, b.m), key, "%s: ToString = %s, expected %s", what, show(s), show(b.m));
  for (int i = 0; i < n; i++) if (b.sb->get_Chars(i) != b.m.c[i] || *b.sb->Address(i) != b.m.c[i]) fail(key, "%s: character %d", what, i);
  int h = n / 2; EXPECT(sameText(b.sb->ToString(h, n - h), b.m.sub(h, n - h)) && sameText(b.sb->ToString(0, h), b.m.sub(0, h)), key, "%s: sub-text around %d", what, h);
  for (int bad : { -1, n }) { expectEx(attempt([&] { b.sb->get_Chars(bad); }), ARG, key, "reading a character outside"); expectEx(attempt([&] { b.sb->set_Chars(bad, L'!'); }), ARG, key, "setting a character outside"); }
  same(b, key, what);
}
// run one edit: ok says whether it must succeed, w is the text afterwards (ignored otherwise)
template <class F> static void edit(B& b, F f, bool ok, const Txt& w, const char* key, const char* what) {
  Ex e = attempt(f); step(); if (ok ? e != OK_ : !(ARG & EXBIT(e))) fail(key, "%s on %s: %s, expected %s", what, show(b.m), exName(e), ok ? "no error" : "an argument error");
  if (ok) b.m = w; same(b, key, what);
}
static int pos(int n) { static const int x[] = { INT32_MAX, INT32_MIN }; int k = choose(7); switch (k) { case 0: return 0; case 1: return n; case 2: return n > 1 ? n / 2 : 0; case 3: return -1; case 4: return n + 1; default: return x[k - 5]; } }
static Txt replaceAll(const Txt& t, const Txt& p, const Txt& r, int st, int cnt) { Txt o; int i = 0, end = st + cnt; while (i < t.n) { if (i >= st && i + p.n <= end && !memcmp(t.c + i, p.c, p.n * sizeof(wchar_t))) { o.add(r); i += p.n; } else o.add(t.c[i++]); } return o; }
static String* make(const Txt& t) { for (int i = 0; i < t.n; i++) if (!t.c[i]) return new String(mkChars(t)); return mk(t); }
static B start(const Txt& t) { B b; b.m = t; b.sb = new StringBuilder(make(t)); return b; }
// one edit of the alphabet, chosen by code
enum { NEDITS = 58 };
static void oneEdit(B& b, int op) {
  Txt& t = b.m; int n = t.n, mid = n / 2; Txt w(t); StringBuilder* sb = b.sb; bool room = true;
  auto ins = [&](int at, const Txt& x) { Txt q(t); q.insert(at, x); return q; };
  NOTE("edit %d on %s", op, show(t));
  switch (op) {
  case 0: w.addA("ab"); edit(b, [&] { sb->Append(mk(L"ab")); }, true, w, "append/text", "Append(text)"); break;
  case 1: w.add(L'a'); edit(b, [&] { sb->Append((Char)L'a'); }, true, w, "append/char", "Append(char)"); break;
  case 2: w.add(alphabet(40)); edit(b, [&] { sb->Append(make(alphabet(40))); }, true, w, "append/text", "Append(long text)"); break;
  case 3: for (int i = 0; i < 3; i++) w.add(L'b'); edit(b, [&] { sb->Append((Char)L'b', 3); }, true, w, "append/repeat", "Append(char,3)"); break;
  case 4: w.addA("-7"); edit(b, [&] { sb->Append((Int32)-7); }, true, w, "append/scalar", "Append(Int32)"); break;
  case 5: w.addA("True"); edit(b, [&] { sb->Append((Boolean) true); }, true, w, "append/scalar", "Append(Boolean)"); break;
  case 6: w.addA("\r\n"); edit(b, [&] { sb->AppendLine(); }, true, w, "append/line", "AppendLine()"); break;
  case 7: w.addA("a\r\n"); edit(b, [&] { sb->AppendLine(mk(L"a")); }, true, w, "append/line", "AppendLine(text)"); break;
  case 8: edit(b, [&] { sb->Append((String*)nullptr); }, true, w, "append/null", "Append(null text)"); break;
  case 9: edit(b, [&] { sb->Append((Object*)nullptr); }, true, w, "append/null", "Append(null object)"); break;
  case 10: w.add(t); edit(b, [&] { sb->Append((Object*)sb); }, true, w, "self", "Append(itself)"); break;
  case 11: w.add(t); edit(b, [&] { sb->Append(sb->get_Buffer(), n); }, true, w, "self", "Append(own storage)"); break;
  case 12: w = ins(mid, t); edit(b, [&] { sb->Insert(mid, (Object*)sb); }, true, w, "self", "Insert(middle, itself)"); break;
  case 13: w = ins(mid, t.sub(mid, n - mid)); edit(b, [&] { sb->Append(sb->get_Buffer() + mid, n - mid, mid); }, true, w, "self", "inserting own second half"); break;
  case 14: w.add(t.sub(0, mid)); edit(b, [&] { sb->Append(sb->ToString(), 0, mid); }, true, w, "append/slice", "Append(own text, 0, half)"); break;
  case 15: w = ins(0, L"b"); edit(b, [&] { sb->Insert(0, (Char)L'b'); }, true, w, "insert/char", "Insert(0,char)"); break;
  case 16: w = ins(mid, L"ab"); edit(b, [&] { sb->Insert(mid, mk(L"ab")); }, true, w, "insert/text", "Insert(middle,text)"); break;
  case 17: w = ins(mid, L"ababab"); edit(b, [&] { sb->Insert(mid, mk(L"ab"), 3); }, true, w, "insert/repeat", "Insert(middle,text,3)"); break;
  case 18: w = ins(n, L"ba"); edit(b, [&] { sb->Insert(n, mk(L"ba")); }, true, w, "insert/text", "Insert(end,text)"); break;
  case 19: edit(b, [&] { sb->Insert(n + 1, mk(L"ba")); }, false, w, "insert/raise", "Insert past the end"); break;
  case 20: edit(b, [&] { sb->Insert(-1, mk(L"ba")); }, false, w, "insert/raise", "Insert at -1"); break;
  case 21: edit(b, [&] { sb->Insert(mid, (String*)nullptr); }, true, w, "insert/null", "Insert(null text)"); break;
  case 22: edit(b, [&] { sb->Insert(mid, mk(L"ab"), -1); }, false, w, "insert/raise", "Insert(text,-1)"); break;
  case 23: edit(b, [&] { sb->Insert(mid, mk(L"ab"), 0); }, true, w, "insert/repeat", "Insert(text,0)"); break;
  case 24: w = ins(mid, L"255"); edit(b, [&] { sb->Insert(mid, (Byte)255); }, true, w, "insert/scalar", "Insert(middle,Byte)"); break;
  case 25: edit(b, [&] { sb->Insert(-1, (Int64)5); }, false, w, "insert/raise", "Insert(-1,Int64)"); break;
  case 26: w.remove(0, mid); edit(b, [&] { sb->Remove(0, mid); }, true, w, "remove", "Remove first half"); break;
  case 27: w.remove(mid, n - mid); edit(b, [&] { sb->Remove(mid, n - mid); }, true, w, "remove", "Remove second half"); break;
  case 28: if (n) w.remove(mid, 1); edit(b, [&] { sb->Remove(mid, n ? 1 : 0); }, true, w, "remove", "Remove one"); break;
  case 29: edit(b, [&] { sb->Remove(mid, n - mid + 1); }, false, w, "remove/raise", "Remove past the end"); break;
  case 30: edit(b, [&] { sb->Remove(-1, 1); }, false, w, "remove/raise", "Remove from -1"); break;
  case 31: edit(b, [&] { sb->Remove(0, -1); }, false, w, "remove/raise", "Remove -1 characters"); break;
  case 32: for (int i = 0; i < n; i++) if (w.c[i] == L'a') w.c[i] = L'b'; edit(b, [&] { sb->Replace((Char)L'a', (Char)L'b'); }, true, w, "replace/char", "Replace(a,b)"); break;
  case 33: for (int i = mid; i < n; i++) if (w.c[i] == L'b') w.c[i] = 0; edit(b, [&] { sb->Replace((Char)L'b', (Char)0, mid, n - mid); }, true, w, "replace/char", "Replace(b,NUL) in the second half"); break;
  case 34: w = replaceAll(t, L"a", L"aba", 0, n); edit(b, [&] { sb->Replace(mk(L"a"), mk(L"aba")); }, true, w, "replace/text", "Replace(\"a\",\"aba\")"); break;
  case 35: w = replaceAll(t, L"ab", L"b", 0, n); edit(b, [&] { sb->Replace(mk(L"ab"), mk(L"b")); }, true, w, "replace/text", "Replace(\"ab\",\"b\")"); break;
  case 36: w = replaceAll(t, L"ab", L"", 0, mid); edit(b, [&] { sb->Replace(mk(L"ab"), nullptr, 0, mid); }, true, w, "replace/text", "Replace(\"ab\",null) in the first half"); break;
  case 37: w = replaceAll(t, L"bb", L"xyz", mid, n - mid); edit(b, [&] { sb->Replace(mk(L"bb"), mk(L"xyz"), mid, n - mid); }, true, w, "replace/text", "Replace(\"bb\",\"xyz\") in the second half"); break;
  case 38: edit(b, [&] { sb->Replace(nullptr, mk(L"x")); }, false, w, "replace/raise", "Replace(null,..)"); break;
  case 39: edit(b, [&] { sb->Replace(mk(L""), mk(L"x")); }, false, w, "replace/raise", "Replace(empty,..)"); break;
  case 40: edit(b, [&] { sb->Replace(mk(L"a"), mk(L"x"), mid, n - mid + 1); }, false, w, "replace/raise", "Replace in a window past the end"); break;
  case 41: edit(b, [&] { sb->Replace((Char)L'a', (Char)L'x', -1, 1); }, false, w, "replace/raise", "Replace(char) from -1"); break;
  case 42: edit(b, [&] { sb->Replace((Char)L'a', (Char)L'x', 0, n + 1); }, false, w, "replace/raise", "Replace(char) past the end"); break;
  case 43: w = n ? Txt(L"<>") : Txt(); if (n) edit(b, [&] { sb->Replace(sb->ToString(), mk(L"<>")); }, true, w, "self", "Replace(own text,..)"); break;
  case 44: { int k = 0; for (int i = 0; i < n; i++) k += t.c[i] == L'b'; if (n + k * (n - 1) > 1200) return; } w = replaceAll(t, L"b", t, 0, n); edit(b, [&] { sb->Replace(mk(L"b"), sb->ToString()); }, true, w, "self", "Replace(..,own text)"); break;
  case 45: edit(b, [&] { sb->Clear(); }, true, Txt(), "clear", "Clear"); break;
  case 46: edit(b, [&] { sb->set_Length(mid); }, true, t.sub(0, mid), "length", "shortening to half"); break;
  case 47: w.add(0).add(0); edit(b, [&] { sb->set_Length(n + 2); }, true, w, "length", "lengthening by 2"); break;
  case 48: for (int i = 0; i < 70; i++) w.add(0); edit(b, [&] { sb->set_Length(n + 70); }, true, w, "length", "lengthening by 70"); break;
  case 49: edit(b, [&] { sb->set_Length(-1); }, false, w, "length/raise", "length -1"); break;
  case 50: if (n) w.c[0] = L'z'; edit(b, [&] { sb->set_Chars(0, L'z'); }, n > 0, w, "chars", "set first"); break;
  case 51: if (n) w.c[n - 1] = 0; edit(b, [&] { sb->set_Chars(n - 1, 0); }, n > 0, w, "chars", "set last to NUL"); break;
  case 52: edit(b, [&] { sb->set_Chars(n, L'z'); }, false, w, "chars/raise", "set past the end"); break;
  case 53: edit(b, [&] { sb->EnsureCapacity(n + 200); }, true, w, "capacity", "EnsureCapacity"); break;
  case 56: edit(b, [&] { sb->set_Capacity(n); }, true, w, "capacity", "capacity set to the length"); break;
  case 57: edit(b, [&] { sb->set_Capacity(n + 5); }, true, w, "capacity", "capacity set to the length and 5"); break;
  case 54: edit(b, [&] { sb->Append((Char)L'q', -1); }, false, w, "append/raise", "Append(char,-1)"); break;
  case 55: edit(b, [&] { sb->Append(mk(L"abc"), 2, 2); }, false, w, "append/raise", "Append(slice past the end)"); break;
  }
  (void)room; state(mc::mix(b.m.hash(), op));
}
SUITE(histories, 0, "every history of 3 (thorough 4) out of 58 edits from 4 starting texts; full reading after each") { static const wchar_t* const st[] = { L"", L"ab", L"abbab", L"babab" }; B b = start(Txt(pick(st))); int d = thorough ? 4 : 3; for (int i = 0; i < d; i++) { oneEdit(b, choose(NEDITS)); if (b.m.n > 700) break; if (i == d - 1) full(b, "reading", "after the history"); } }
SUITE(confusable, 0, "every text of length 0..3 over 4 letters standing for 6 sets of easily confused characters: appended, inserted as text, character, repeat, slice and array, read back by position and as text; set_Chars") {
  skins(); Txt t = chooseText(L"abcx", 0, 3), u = chooseText(L"abcx", 1, 2); B b = start(t); wchar_t c = u.c[0]; Txt w(t); w.add(u); edit(b, [&] { b.sb->Append(make(u)); }, true, w, "append/text", "Append"); w.insert(1, u); edit(b, [&] { b.sb->Insert(1, make(u)); }, true, w, "insert/text", "Insert"); w.add(c); edit(b, [&] { b.sb->Append((Char)c); }, true, w, "append/char", "Append(char)"); w.add(c).add(c); edit(b, [&] { b.sb->Append((Char)c, 2); }, true, w, "append/repeat", "Append(char,2)"); Txt one; one.add(c); w.insert(0, one); edit(b, [&] { b.sb->Insert(0, (Char)c); }, true, w, "insert/char", "Insert(char)"); w.insert(1, u); edit(b, [&] { b.sb->Insert(1, mkChars(u)); }, true, w, "array", "Insert(array)"); w.add(u); edit(b, [&] { b.sb->Append(mkChars(u)); }, true, w, "array", "Append(array)"); w.add(c); edit(b, [&] { b.sb->Append((Object*)new CharValue(c)); }, true, w, "object", "Append(boxed character)"); w.c[w.n / 2] = c; edit(b, [&] { b.sb->set_Chars(w.n / 2, c); }, true, w, "chars", "set_Chars"); full(b, "reading", "after the edits"); state(mc::mix(w.hash(), t.n)); }
SUITE(histories_growth, 0, "every pair (thorough triple) of 58 edits from texts of 18 lengths around the storage sizes 128, 256 and 384") { static const int L[] = { 126, 127, 128, 129, 88, 89, 125, 64, 65, 58, 59, 130, 255, 256, 257, 216, 383, 384 }; Txt t; int n = pick(L); for (int i = 0; i < n; i++) t.add(i % 7 == 3 ? L'b' : i % 3 ? L'a' : L'A' + i % 26); B b = start(t); int d = thorough ? 3 : 2; for (int i = 0; i < d; i++) { oneEdit(b, choose(NEDITS)); if (b.m.n > 700) break; } full(b, "reading", "after growth"); }
SUITE(shortened, 0, "texts of 10 lengths, shortened by length, removal (front, end) or Clear to 5 lengths, capacity then set to 6 values (or left), then lengthened by length to 8 values or appended to, and read; once more after shortening again") {
  static const int L[] = { 0, 1, 5, 90, 127, 128, 129, 200, 256, 300 }; int n = pick(L); B b = start(alphabet(n)); Txt w; int m = pick({ 0, 1, 60, 127, 128 }), how = choose(4); if (m > n) mc::discard();
  for (int round = 0; round < 2; round++) {
    int k = b.m.n; if (m > k) return; switch (how) { case 0: w = b.m.sub(0, m); edit(b, [&] { b.sb->set_Length(m); }, true, w, "shorten", "set_Length"); break; case 1: w = b.m.sub(k - m, m); edit(b, [&] { b.sb->Remove(0, k - m); }, true, w, "shorten", "Remove(front)"); break; case 2: w = b.m.sub(0, m); edit(b, [&] { b.sb->Remove(m, k - m); }, true, w, "shorten", "Remove(end)"); break; default: if (m) mc::discard(); w = Txt(); edit(b, [&] { b.sb->Clear(); }, true, w, "shorten", "Clear"); }
    int cap = choose(7); static const int add[] = { 0, 1, 5, 64, 128, 300 }; if (cap < 6) { w = b.m; edit(b, [&] { b.sb->set_Capacity(m + add[cap]); }, true, w, "capacity", "set_Capacity"); }
    int to = choose(9); static const int more[] = { 0, 1, 2, 5, 6, 65, 129, 290 }; w = b.m; NOTE("length %d -> %d (way %d), capacity choice %d, then %d", n, m, how, cap, to); if (to < 8) { for (int i = 0; i < more[to]; i++) w.add(0); edit(b, [&] { b.sb->set_Length(m + more[to]); }, true, w, "lengthen", "set_Length beyond"); } else { w.add(alphabet(7)); edit(b, [&] { b.sb->Append(make(alphabet(7))); }, true, w, "append", "Append"); }
    full(b, "shortened", "after shortening and lengthening"); state(mc::mix(mc::mix(w.hash(), cap), b.sb->get_Capacity())); if (how & 1) return; } }
SUITE(growth_steps, 0, "appending pieces of k characters (k 1..140) until 700 characters, with a removal of 0..3 from the front between") { int k = 1 + choose(140), r = choose(4); B b = start(Txt()); int seq = 0; while (b.m.n < 700) { Txt p = alphabet(k, seq++); Txt w(b.m); w.add(p); edit(b, [&] { b.sb->Append(make(p)); }, true, w, "growth", "Append"); if (r && b.m.n > r && r < k) { Txt v(b.m); v.remove(0, r); edit(b, [&] { b.sb->Remove(0, r); }, true, v, "growth", "Remove"); } } full(b, "growth", "after growing"); state(k * 4 + r); }
SUITE(insert_every, 0, "every start length 0..10 and 120..136, every insert position including outside, inserted text 0..12 characters, 1..2 times") { int n = choose(28); if (n > 10) n += 109; Txt t = alphabet(n); B b = start(t); int at = choose(n + 3) - 1, k = choose(13), c = 1 + choose(2); Txt x; for (int i = 0; i < k; i++) x.add(L'a' + i); bool ok = at >= 0 && at <= n; Txt w(t); if (ok) for (int i = 0; i < c; i++) w.insert(at, x); NOTE("insert %d at %d of %d, %d times", k, at, n, c); edit(b, [&] { c == 1 ? b.sb->Insert(at, make(x)) : b.sb->Insert(at, make(x), c); }, ok, w, "insert", "Insert"); full(b, "insert", "after Insert"); state(mc::mix(n * 64 + k, at)); }
SUITE(remove_every, 0, "every start length 0..9 and 126..131, every start and count including outside and extreme") { int n = choose(16); if (n > 9) n += 116; Txt t = alphabet(n); B b = start(t); static const int x[] = { INT32_MAX, INT32_MIN, -2 }; int k = choose(n + 6), st = k < n + 3 ? k - 1 : x[k - n - 3], j = choose(n + 6), c = j < n + 3 ? j - 1 : x[j - n - 3]; bool ok = st >= 0 && c >= 0 && st <= n && c <= n - st; Txt w(t); if (ok) w.remove(st, c); NOTE("remove %d,%d of %d", st, c, n); edit(b, [&] { b.sb->Remove(st, c); }, ok, w, "remove", "Remove"); full(b, "remove", "after Remove"); state(mc::mix(mc::mix(n, st), c)); }
SUITE(replace_char_every, 0, "every text of length 0..5 over {a b NUL}, characters of {a b c NUL}, every window around the limits, the letters also standing for 5 sets of easily confused characters") { skins(); Txt t; int n = choose(6); for (int i = 0; i < n; i++) { static const wchar_t a[] = { L'a', L'b', 0 }; t.add(SK(a[choose(3)])); } wchar_t x = SK(pick({ L'a', L'b', L'c', L'\0' })), y = SK(pick({ L'a', L'b', L'c', L'\0' })); static const int z[] = { INT32_MAX, INT32_MIN }; int k = choose(n + 5), st = k < n + 3 ? k - 1 : z[k - n - 3], j = choose(n + 5), c = j < n + 3 ? j - 1 : z[j - n - 3]; B b = start(t); bool ok = st >= 0 && c >= 0 && st <= n && c <= n - st; Txt w(t); if (ok) for (int i = st; i < st + c; i++) if (w.c[i] == x) w.c[i] = y; NOTE("%s: %d->%d in %d,%d", show(t), x, y, st, c); edit(b, [&] { b.sb->Replace((Char)x, (Char)y, st, c); }, ok, w, "replace/char", "Replace(char)"); state(mc::mix(w.hash(), ok)); }
SUITE(replace_text_every, 0, "every text of length 0..5 (thorough 6) over {a b}, pattern 1..3, replacement 0..3, every window around the limits; text beyond the window intact; substring count agrees; the letters also standing for 5 sets of easily confused characters (quick: text up to 4, pattern and replacement up to 2)") {
  skins(); Txt t = chooseText(L"ab", 0, thorough ? 6 : mc::skin ? 4 : 5), p = chooseText(L"ab", 1, thorough || !mc::skin ? 3 : 2), r = chooseText(L"ab", 0, thorough || !mc::skin ? 3 : 2); int n = t.n; static const int z[] = { INT32_MAX, INT32_MIN }; int k = choose(n + 5), st = k < n + 3 ? k - 1 : z[k - n - 3], j = choose(n + 5), c = j < n + 3 ? j - 1 : z[j - n - 3]; B b = start(t); bool ok = st >= 0 && c >= 0 && st <= n && c <= n - st; NOTE("%s: %s->%s in %d,%d", show(t), show(p), show(r), st, c);
  if (r.n == 0) { int cnt = -1; Ex e = attempt([&] { cnt = b.sb->CountSubStrings(make(p), st, c); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "count/raise", "counting in a window"); if (ok) { int want = 0; for (int i = st; i + p.n <= st + c;) if (!memcmp(t.c + i, p.c, p.n * sizeof(wchar_t))) { want++; i += p.n; } else i++; EXPECT(cnt == want, "count", "counted %d, expected %d", cnt, want); } }
  edit(b, [&] { b.sb->Replace(make(p), make(r), st, c); }, ok, ok ? replaceAll(t, p, r, st, c) : t, "replace/text", "Replace(text)"); state(mc::mix(mc::mix(t.hash(), p.hash()), mc::mix(r.hash(), st * 16 + c))); }
SUITE(replace_growth, 0, "texts of 1..260 repeated characters, replacement 0..4 characters, window whole, first half or second half") { int n = 1 + choose(260), k = choose(5), wn = choose(3); Txt t, r; for (int i = 0; i < n; i++) t.add(i % 5 == 4 ? L'c' : L'a'); for (int i = 0; i < k; i++) r.add(i ? L'b' : L'a'); B b = start(t); int st = wn == 2 ? n / 2 : 0, c = wn == 0 ? n : wn == 1 ? n / 2 : n - n / 2; edit(b, [&] { b.sb->Replace(mk(L"a"), make(r), st, c); }, true, replaceAll(t, L"a", r, st, c), "replace/growth", "Replace"); full(b, "replace/growth", "after Replace"); state(mc::mix(n * 8 + k, wn)); }
SUITE(substrings, 0, "every text length 0..6 and 126..130, every start and length of the sub-text around the limits") { int n = choose(12); if (n > 6) n += 119; B b = start(alphabet(n)); static const int x[] = { INT32_MAX, INT32_MIN, -2 }; int k = choose(n + 6), st = k < n + 3 ? k - 1 : x[k - n - 3], j = choose(n + 6), c = j < n + 3 ? j - 1 : x[j - n - 3]; bool ok = st >= 0 && c >= 0 && st <= n && c <= n - st; String* s = nullptr; NOTE("sub-text %d,%d of %d", st, c, n); Ex e = attempt([&] { s = b.sb->ToString(st, c); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "subtext/raise", "sub-text"); if (ok) { EXPECT(sameText(s, b.m.sub(st, c)), "subtext", "sub-text %d,%d of %s is %s", st, c, show(b.m), show(s)); b.sb->Append((Char)L'!')->set_Chars(0, L'?'); EXPECT(sameText(s, b.m.sub(st, c)), "subtext/alias", "sub-text changed with its builder"); } else same(b, "subtext/raise", "after a refused sub-text"); state(mc::mix(mc::mix(n, st), c)); }
SUITE(set_chars, 0, "every text length 0..6 and 126..129, every position around the limits, characters {NUL z U+FFFF}, then read") { int n = choose(11); if (n > 6) n += 119; B b = start(alphabet(n)); static const int x[] = { INT32_MAX, INT32_MIN, -2 }; int k = choose(n + 6), at = k < n + 3 ? k - 1 : x[k - n - 3]; wchar_t c = pick({ L'z', L'\0', (wchar_t)0xFFFF }); bool ok = at >= 0 && at < n; Txt w(b.m); if (ok) w.c[at] = c; edit(b, [&] { b.sb->set_Chars(at, c); }, ok, w, "chars", "set_Chars"); full(b, "chars", "after set_Chars"); state(mc::mix(n, at)); }
SUITE(set_length, 0, "every pair (thorough triple) of lengths out of 14 around 0, 128 and 256 from texts of 4 lengths, with an append between") { static const int st[] = { 0, 3, 127, 200 }, L[] = { 0, 1, 2, 3, 127, 128, 129, 130, 255, 256, 257, 300, -1, INT32_MIN }; B b = start(alphabet(pick(st))); for (int i = 0; i < (thorough ? 3 : 2); i++) { int n = pick(L); Txt w(b.m); if (n >= 0) { if (n < w.n) w.n = n; while (w.n < n) w.add(0); } NOTE("length %d", n); edit(b, [&] { b.sb->set_Length(n); }, n >= 0, w, "length", "set_Length"); if (choose(2)) { Txt v(b.m); v.addA("xy"); edit(b, [&] { b.sb->Append(mk(L"xy")); }, true, v, "length", "Append after set_Length"); } state(mc::mix(b.m.hash(), i)); } full(b, "length", "after set_Length"); }
// scalars: text of the append/insert is exactly the scalar's own text
static void app(StringBuilder* sb, const V& v, int at, bool insert) {
  switch (v.t) {
#define S(T, X, N) case T: insert ? sb->Insert(at, (N)X) : sb->Append((N)X); break;
  S(BooleanType, v.i, Boolean) S(CharType, v.i, Char) S(SByteType, v.i, SByte) S(ByteType, v.i, Byte) S(Int16Type, v.i, Int16) S(UInt16Type, v.i, UInt16) S(Int32Type, v.i, Int32) S(UInt32Type, v.i, UInt32) S(Int64Type, v.i, Int64) S(UInt64Type, v.i, UInt64) S(SingleType, v.d, Single) S(DoubleType, v.d, Double) default: abort();
  }
}
static Txt decimal(I128 i) { Txt t; char c[50]; int n = 0; bool neg = i < 0; unsigned __int128 u = neg ? -(unsigned __int128)i : i; do c[n++] = '0' + (int)(u % 10); while (u /= 10); if (neg) t.add(L'-'); while (n) t.add(c[--n]); return t; }
static Txt own(const V& v) { if (isInt(v.t)) return decimal(v.i); if (v.t == BooleanType) return v.i ? L"True" : L"False"; if (v.t == CharType) { Txt t; t.add((wchar_t)v.i); return t; } return txt(box(v)->ToString()); }
SUITE(scalars, 0, "every boundary value of the 12 scalar types appended and inserted at every position of 4 texts, raw, boxed as object and as value type") {
  DataType ty = scalarTypes[choose(12)]; V v = chooseBoundary(ty); static const int st[] = { 0, 3, 126, 128 }; int n = pick(st); B b = start(alphabet(n)); int form = choose(5), at = n; if (form == 1 || form == 3 || form == 4) at = n > 3 ? pick({ 0, 1, n - 1, n, -1, n + 1 }) : choose(n + 3) - 1; Txt x = own(v), w(b.m); bool ok = at >= 0 && at <= n; if (form == 4 && at == -1) { at = n; ok = true; } if (ok) w.insert(at, x); NOTE("%s form %d at %d of %d", showV(v), form, at, n); Object* o = box(v);
  switch (form) { case 0: edit(b, [&] { app(b.sb, v, 0, false); }, true, w, "scalar/append", "Append(scalar)"); break; case 1: edit(b, [&] { app(b.sb, v, at, true); }, ok, w, "scalar/insert", "Insert(scalar)"); break; case 2: edit(b, [&] { b.sb->Append(o); }, true, w, "scalar/boxed", "Append(object)"); break; case 3: edit(b, [&] { b.sb->Insert(at, o); }, ok, w, "scalar/boxed", "Insert(object)"); break; default: edit(b, [&] { b.sb->Append(*(ValueType*)o, at); }, ok, w, "scalar/value", "Append(value,position)"); }
  state(mc::mix(x.hash(), form)); }
SUITE(objects, 0, "plain objects, builders, dates, spans and strings appended and inserted as objects at every position of a 3-character text") { int k = choose(7), at = choose(6) - 1; bool insert = choose(2); Object* o = nullptr; switch (k) { case 0: o = new Object(); break; case 1: o = new StringBuilder(mk(L"inner")); break; case 2: o = new DateTimeValue(DateTime((UInt64)630822816000000000ULL)); break; case 3: o = new TimeSpanValue(TimeSpan((Int64)12345678)); break; case 4: o = make(Txt(L"p\0q", 3)); break; case 5: o = make(alphabet(200)); break; } Txt x = o ? txt(o->ToString()) : Txt(); B b = start(Txt(L"xyz")); if (!insert) at = 3; bool ok = at >= 0 && at <= 3; Txt w(b.m); if (ok) w.insert(at, x); NOTE("object %d at %d insert %d", k, at, insert); edit(b, [&] { insert ? b.sb->Insert(at, o) : b.sb->Append(o); }, ok, w, "object", "object"); full(b, "object", "after object"); state(mc::mix(x.hash(), at)); }
SUITE(char_arrays, 0, "character arrays of length 0..4 appended and inserted with every start, count and position around the limits; null, other element types and ranks") {
  int n = choose(5), kind = choose(5); Array* a = kind == 1 ? nullptr : kind == 2 ? new Array(Int32Type, n) : kind == 3 ? new Array(CharType, n, 1) : nullptr; Txt src; for (int i = 0; i < n; i++) src.add(i == 1 ? 0 : L'a' + i); if (kind == 0 || kind == 4) a = mkChars(src); static const int x[] = { INT32_MAX, INT32_MIN, -2 }; int k = choose(n + 6), st = k < n + 3 ? k - 1 : x[k - n - 3], j = choose(n + 6), c = j < n + 3 ? j - 1 : x[j - n - 3]; bool insert = kind == 4; int at = insert ? choose(6) - 1 : 3; B b = start(Txt(L"xyz")); NOTE("array %d kind %d start %d count %d at %d", n, kind, st, c, at);
  if (choose(2)) { if (st != -1 || c != -1) mc::discard(); }
  int s0 = st < 0 ? 0 : st, c0 = c < 0 ? n - s0 : c; bool pok = at >= 0 && at <= 3, wok = s0 <= n && c0 >= 0 && c0 <= n - s0; bool lenient = st < -1 || c < -1 || (c0 == 0 && s0 > n) || kind == 1 || c0 == 0; Txt w(b.m);
  Ex e = attempt([&] { if (insert || kind != 0) { if (st == -1 && c == -1) b.sb->Insert(at, a); else b.sb->Insert(at, a, st, c); } else { if (st == -1 && c == -1) b.sb->Append(a); else b.sb->Append(a, st, c); } }); step();
  if (kind == 2 || kind == 3) { if (c0 != 0) expectEx(e, ARG, "array/kind", "wrong kind of array"); same(b, "array/kind", "after a wrong array"); return; }
  if (kind == 1) { if (e == OK_) same(b, "array/null", "null array"); else { expectEx(e, ARG, "array/null", "null array"); same(b, "array/null", "null array"); } return; }
  if (!pok) { expectEx(e, ARG, "array/raise", "position outside"); same(b, "array/raise", "refused"); return; }
  if (e != OK_ && lenient && !(st == -1 && c == -1) && !(st >= 0 && st <= n && c == 0)) { expectEx(e, ARG, "array/raise", "array window"); same(b, "array/raise", "refused"); return; }
  if (!wok && c0 != 0) { expectEx(e, ARG, "array/raise", "array window outside"); same(b, "array/raise", "refused"); return; }
  if (e != OK_) fail("array", "array window inside: %s", exName(e)); if (c0 > 0) w.insert(at, src.sub(s0, c0)); b.m = w; full(b, "array", "array window"); for (int i = 0; i < n; i++) *(Char*)a->Address(i) = L'#'; same(b, "array/alias", "after the array changed"); state(mc::mix(w.hash(), st * 32 + c)); }
SUITE(text_slices, 0, "texts of length 0..4 appended with every start and count around the limits") { Txt src(L"abcd", choose(5)); int n = src.n; static const int x[] = { INT32_MAX, INT32_MIN, -2 }; int k = choose(n + 6), st = k < n + 3 ? k - 1 : x[k - n - 3], j = choose(n + 6), c = j < n + 3 ? j - 1 : x[j - n - 3]; B b = start(Txt(L"xy")); int c0 = c < 0 ? n - st : c; bool ok = st >= 0 && st <= n && c0 >= 0 && c0 <= n - st; Txt w(b.m); if (ok) w.add(src.sub(st, c0)); NOTE("slice %d,%d of %s", st, c, show(src)); if (c < -1) { Ex e = attempt([&] { b.sb->Append(make(src), st, c); }); if (e != OK_) { expectEx(e, ARG, "slice/raise", "negative count"); same(b, "slice/raise", "refused"); return; } EXPECT(ok, "slice/raise", "negative count accepted"); b.m = w; same(b, "slice", "slice"); return; } edit(b, [&] { c == -1 ? b.sb->Append(make(src), st) : b.sb->Append(make(src), st, c); }, ok, w, "slice", "Append(slice)"); state(mc::mix(src.hash(), st * 8 + c)); }
SUITE(raw_chars, 0, "characters given by address: counts 0..5, every target position around the limits, from outside and from the builder's own storage at every offset, at lengths 4 and 126..130") { int n = pick({ 4, 126, 127, 128, 129, 130 }), own_ = choose(2); B b = start(alphabet(n)); int off = own_ ? pick({ 0, 1, 2, n - 2, n - 1 }) : 0, c = choose(6); if (own_ && off + c > n) mc::discard(); int at = pick({ -1, 0, 1, 2, n - 1, n, n + 1, INT32_MIN }); Char* src = own_ ? b.sb->get_Buffer() + off : rawChars(L"abcde", c, false); Txt x = own_ ? b.m.sub(off, c) : Txt(L"abcde", c); bool ok = at >= -1 && at <= n; Txt w(b.m); if (ok) w.insert(at == -1 ? n : at, x); NOTE("%d raw characters (own %d at %d) to %d of %d", c, own_, off, at, n); edit(b, [&] { b.sb->Append(src, c, at); }, ok, w, "raw", "Append(characters)"); full(b, "raw", "after characters"); state(mc::mix(w.hash(), at)); }
SUITE(constructors, 0, "texts of length 0..4 and 126..130 by constructor, every slice around the limits, 6 capacities; null text") {
  int n = choose(10); if (n > 4) n += 121; Txt t = alphabet(n); static const int x[] = { INT32_MAX, INT32_MIN }; int form = choose(3); static const int caps[] = { 0, 1, 16, 128, 200, -1 }; int cap = pick(caps); bool nul = choose(2); if (nul) t = Txt(); n = t.n; String* s = nul ? nullptr : make(t); StringBuilder* sb = nullptr; int st = 0, c = n; if (form == 2) { int k = choose(n > 10 ? 7 : n + 5), j = choose(n > 10 ? 7 : n + 5); static const int big[] = { 0, 1, 64, 65, 126 }; if (n > 10) { st = k < 5 ? big[k] : x[k - 5]; c = j < 5 ? big[j] : x[j - 5]; } else { st = k < n + 3 ? k - 1 : x[k - n - 3]; c = j < n + 3 ? j - 1 : x[j - n - 3]; } }
  NOTE("form %d text %d%s capacity %d slice %d,%d", form, n, nul ? " (null)" : "", cap, st, c); Ex e = attempt([&] { sb = form == 0 ? new StringBuilder(s) : form == 1 ? new StringBuilder(s, cap) : new StringBuilder(s, st, c, cap); }); bool ok = (form == 0 || cap >= 0) && (form < 2 || (st >= 0 && c >= 0 && st <= n && c <= n - st)); expectEx(e, ok ? EXBIT(OK_) : ARG, "ctor/raise", "constructor"); if (ok) { B b; b.sb = sb; b.m = t.sub(st, c); full(b, "ctor", "constructed"); Txt w(b.m); w.add(alphabet(130)); edit(b, [&] { sb->Append(make(alphabet(130))); }, true, w, "ctor", "Append after construction"); if (s) EXPECT(sameText(s, t), "ctor/alias", "the source text changed"); } state(mc::mix(mc::mix(n, form), mc::mix(st, c))); }
SUITE(two_builders, 0, "two builders edited alternately (4 edits of 6 each, either target) stay independent; each appended to the other") { B b[2] = { start(Txt(L"ab")), start(alphabet(125)) }; for (int d = 0; d < (thorough ? 5 : 4); d++) { int k = choose(2), op = choose(6); StringBuilder *s = b[k].sb, *o = b[1 - k].sb; Txt w(b[k].m); switch (op) { case 0: w.add(b[1 - k].m); edit(b[k], [&] { s->Append((Object*)o); }, true, w, "two", "Append(other)"); break; case 1: w.insert(0, b[1 - k].m); edit(b[k], [&] { s->Insert(0, (Object*)o); }, true, w, "two", "Insert(other)"); break; case 2: edit(b[k], [&] { s->Clear(); }, true, Txt(), "two", "Clear"); break; case 3: w.addA("xyz"); edit(b[k], [&] { s->Append(mk(L"xyz")); }, true, w, "two", "Append"); break; case 4: w.n /= 2; edit(b[k], [&] { s->set_Length(w.n); }, true, w, "two", "set_Length"); break; default: w.add(b[1 - k].m); edit(b[k], [&] { s->Append(o->get_Buffer(), o->get_Length()); }, true, w, "two", "Append(other's storage)"); } same(b[1 - k], "two/other", "the other builder"); if (b[k].m.n > 500) break; state(mc::mix(b[0].m.hash(), b[1].m.hash())); } }
SUITE(source_life, 0, "appended and inserted strings stay unchanged, and the builder keeps its text when its ToString result and sources are dropped") { Txt a = chooseText(L"ab", 0, 3), c = chooseText(L"ab", 0, 3); B b = start(a); String *s = make(c); Txt w(a); w.add(c); edit(b, [&] { b.sb->Append(s); }, true, w, "life", "Append"); String* r = b.sb->ToString(); Txt before(w); w.insert(0, c); edit(b, [&] { b.sb->Insert(0, s); }, true, w, "life", "Insert"); EXPECT(sameText(s, c) && sameText(r, before), "life", "a string changed with the builder"); delete r; delete s; full(b, "life", "after dropping strings"); delete b.sb; step(); state(w.hash()); }

// ---- long builders
static void sameBig(StringBuilder* sb, const Big& w, const char* what) { step(); if (sb->get_Length() != w.n || memcmp(sb->get_Buffer(), w.c, w.n * sizeof(Char)) || sb->get_Buffer()[w.n]) fail("large", "%s: builder holds %s (length %d), expected %s (length %d)", what, show(sb->get_Buffer(), sb->get_Length() < 0 || sb->get_Length() > w.n + 70000 ? 0 : sb->get_Length()), sb->get_Length(), show(w), w.n); if (!sameText(sb->ToString(), w)) fail("large", "%s: ToString differs", what); }
static Big bigReplace(const Big& t, const Big& p, const Big& r, int st, int cnt) { Big o(t.n + (p.n ? cnt / p.n + 1 : 0) * r.n); int k = 0; for (int i = 0; i < t.n;) if (i >= st && i + p.n <= st + cnt && !memcmp(t.c + i, p.c, p.n * sizeof(wchar_t))) { memcpy(o.c + k, r.c, r.n * sizeof(wchar_t)); k += r.n; i += p.n; } else o.c[k++] = t.c[i++]; o.n = k; return o; }
static void bigEdit(StringBuilder* sb, Big& t, int op, int p, int c) {
  Big w = t; bool ok = true; Ex e; int n = t.n;
  switch (op) {
  case 0: w = t.plus(Big::pattern(c > 0 ? c : 0, 5)); e = attempt([&] { sb->Append(mk(Big::pattern(c > 0 ? c : 0, 5))); }); break;
  case 1: ok = p >= 0 && p <= n; if (ok) w = t.splice(p, 0, L"<>", 2); e = attempt([&] { sb->Insert(p, mk(L"<>")); }); break;
  case 2: ok = p >= 0 && p <= n && c >= 0 && c <= n - p; if (ok) w = t.splice(p, c, L"", 0); e = attempt([&] { sb->Remove(p, c); }); break;
  case 3: ok = p >= 0 && p < n; if (ok) w = t.splice(p, 1, L"?", 1); e = attempt([&] { sb->set_Chars(p, L'?'); }); break;
  case 4: if (p < 0) { ok = false; e = attempt([&] { sb->set_Length(p); }); } else { w = p <= n ? t.sub(0, p) : t.plus(Big::fill(p - n, 0)); e = attempt([&] { sb->set_Length(p); }); } break;
  case 5: ok = p >= 0 && p <= n && c >= 0 && c <= n - p; if (ok) { w = t.sub(0, n); for (int i = p; i < p + c; i++) if (w.c[i] == L'c') w.c[i] = L'#'; } e = attempt([&] { sb->Replace((Char)L'c', (Char)L'#', p, c); }); break;
  case 6: ok = p >= 0 && p <= n && c >= 0 && c <= n - p; if (ok) w = bigReplace(t, Big::of(L"c"), Big::of(L"<=>"), p, c); e = attempt([&] { sb->Replace(mk(L"c"), mk(L"<=>"), p, c); }); break;
  case 7: { ok = p >= 0 && p <= n && c >= 0 && c <= n - p; Big x = t.sub(n / 2, n - n / 2 < 3 ? n - n / 2 : 3); if (!x.n || wmemchr(x.c, 0, x.n)) mc::discard(); if (ok) w = bigReplace(t, x, Big::of(L"+"), p, c); e = attempt([&] { sb->Replace(mk(x), mk(L"+"), p, c); }); break; }
  case 8: w = t.plus(t); e = attempt([&] { sb->Append((Object*)sb); }); break;
  case 9: { ok = p >= 0 && p <= n; Big v = Big::fill(300, L'z'); if (ok) w = t.splice(p, 0, v.c, 300); e = attempt([&] { sb->Insert(p, mk(L"zzz"), 100); }); break; }
  case 10: w = t.plus(Big::fill(c > 0 ? c : 0, L'k')); e = attempt([&] { sb->Append((Char)L'k', c > 0 ? c : 0); }); break;
  case 11: { if (p < 0 || c < 0) mc::discard(); Big x = Big::pattern(n, 2); ok = p >= 0 && c >= 0 && p <= n && c <= n - p; if (ok) w = t.plus(x.sub(p, c)); e = attempt([&] { if (c & 1) sb->Append(mkChars(x), p, c); else sb->Append(mk(x), p, c); }); break; }
  default: ok = p >= 0 && c >= 0 && p <= n && c <= n - p; String* r = nullptr; e = attempt([&] { r = sb->ToString(p, c); }); if (ok) EXPECT(sameText(r, t.sub(p, c)), "large/sub", "sub-text %d+%d", p, c); }
  expectEx(e, ok ? EXBIT(OK_) : ARG, "large/raise", "edit of a long builder"); if (ok) t = w; sameBig(sb, t, "edit"); }
SUITE(large, 0, "builders of 6 (thorough 18) lengths 128..70001: 13 edits with positions and counts around powers of two, the middle and the end (and outside), then an append; plain letters, or with NULs and characters outside the BMP among them") {
  holes(); int n = bigLength(), op = choose(13), p = op == 0 || op == 8 || op == 10 ? 0 : bigPos(n, true), c = op == 0 || op == 2 || op == 5 || op == 6 || op == 7 || op >= 10 ? bigPos(n, true) : 0; if (!thorough && n > 5000 && (op == 5 || op == 6 || op == 7) && p > 256 && p < 32767) mc::discard(); Big t = Big::pattern(n); StringBuilder* sb = new StringBuilder(mk(t)); NOTE("length %d edit %d at %d, %d", n, op, p, c); sameBig(sb, t, "constructor"); bigEdit(sb, t, op, p, c); bigEdit(sb, t, 0, 0, 130); state(mc::mix(mc::mix(n, op), mc::mix(p, c))); }
SUITE(large_pairs, 0, "pairs (thorough: and triples on the first two) of 12 edits on builders grown by one edit past 256, 4096, 32768 and 65536 characters, with positions in the middle; plain letters, or with NULs and characters outside the BMP among them") {
  holes(); int n = pick({ 250, 4090, 32760, 65530 }), d = thorough && n < 5000 ? 3 : 2; Big t = Big::pattern(n); StringBuilder* sb = new StringBuilder(mk(t)); for (int i = 0; i < d; i++) { int op = choose(13), where = choose(3), p = where == 0 ? 0 : where == 1 ? t.n / 2 : t.n, c = pick({ 1, 9, 200 }); if ((op == 0 || op == 8 || op == 10) && where) mc::discard(); if (c > t.n - p) c = t.n - p; if (op == 4 && where == 2) p = t.n + 200; NOTE("edit %d at %d, %d", op, p, c); bigEdit(sb, t, op, p, c); state(mc::mix(mc::hashBytes(t.c, t.n < 600 ? t.n * 4 : 2400), t.n)); } }
SUITE(large_shortened, 0, "builders of 9 lengths 2000..70001, shortened by length, removal (front, end, middle) or Clear to 8 lengths, then lengthened by length to 9 lengths, appended to or repeated characters added; twice, read in full") {
  static const int L[] = { 2000, 4200, 8193, 16385, 16500, 20000, 32769, 40000, 70001 }; int n = pick(L); Big t = Big::pattern(n); StringBuilder* sb = new StringBuilder(mk(t)); int how = choose(5), mk_ = choose(8), to = choose(11); int ms[] = { 0, 1, 127, 300, n - 16384, n - 4097, n / 2, n - 1 }; int m = ms[mk_]; if (m < 0 || (how == 4 && m)) mc::discard();
  NOTE("length %d shortened to %d (way %d), then choice %d", n, m, how, to);
  for (int round = 0; round < 2; round++) { int k = t.n; if (m > k) m = k / 2; int at = how == 1 ? 0 : how == 3 ? m / 2 : m; Big w = how == 0 || how == 4 ? t.sub(0, m) : t.splice(at, k - m, L"", 0); Ex e = attempt([&] { if (how == 0) sb->set_Length(m); else if (how == 4) sb->Clear(); else sb->Remove(at, k - m); }); if (e != OK_) fail("large_shortened", "shortening raised %s", exName(e)); t = w; sameBig(sb, t, "shortened");
    int more[] = { 1, 255, 4097, 16383, 16384, 16385, 32768, n - m, n }; if (to < 9) { w = t.plus(Big::fill(more[to], 0)); e = attempt([&] { sb->set_Length(m + more[to]); }); } else if (to == 9) { w = t.plus(Big::pattern(5000, 3)); e = attempt([&] { sb->Append(mk(Big::pattern(5000, 3))); }); } else { w = t.plus(Big::fill(17000, L'q')); e = attempt([&] { sb->Append((Char)L'q', 17000); }); }
    if (e != OK_) fail("large_shortened", "lengthening raised %s", exName(e)); t = w; sameBig(sb, t, "lengthened"); if (to >= 9) { w = t.plus(Big::fill(more[3], 0)); e = attempt([&] { sb->set_Length(t.n + more[3]); }); t = w; sameBig(sb, t, "lengthened"); } }
  state(mc::mix(mc::mix(n, how * 8 + mk_), to)); }
SUITE(wide, 0, "builders of 70001, 140003 and 300007 characters: removal, text of a window, repeated insertion (up to 66000 times), windows of long arrays and texts inserted and appended, character replacement by window, a character replaced by 33000..70000, equality against a builder that differs in one place, indexing; at 8 positions") {
  static const int L[] = { 70001, 140003, 300007 }; int n = L[choose(3)], op = choose(11), ps[] = { 0, 1, 32769, 65535, 65536, 65537, n / 2 + 1, n - 2 }, p = ps[choose(8)]; Big t = Big::pattern(n), w; t.c[p] = L'Q'; StringBuilder* sb = new StringBuilder(mk(t)); NOTE("length %d edit %d at %d", n, op, p); Ex e = OK_;
  switch (op) {
  case 0: for (int c : { 1, 3 }) { if (c > t.n - p) break; w = t.splice(p, c, L"", 0); e = attempt([&] { sb->Remove(p, c); }); if (e != OK_) break; sameBig(sb, w, "removal"); t = w; } w = t; break;
  case 1: for (int c : { 1, 40, 33001, n - p }) { if (c > n - p) continue; String* r = nullptr; e = attempt([&] { r = sb->ToString(p, c); }); if (e != OK_ || !sameText(r, t.sub(p, c))) fail("wide/sub", "text of %d from %d (%s)", c, p, exName(e)); step(); } w = t; break;
  case 2: { int k = p == n - 2 && n == 70001 ? pick({ 1, 33000, 66000 }) : 300; w = t.splice(p, 0, Big::fill(k, L'%').c, k); e = attempt([&] { sb->Insert(p, mk(L"%"), k); }); break; }
  case 3: { Big x = Big::pattern(n, 5); int at = choose(2) ? p : n / 2; w = t.splice(p, 0, x.c + at, n - at < 50 ? n - at : 50); e = attempt([&] { sb->Insert(p, mkChars(x), at, n - at < 50 ? n - at : 50); }); break; }
  case 4: { Big x = Big::pattern(n, 5); w = t.plus(x.sub(p, n - p)); e = attempt([&] { if (choose(2)) sb->Append(mkChars(x), p, n - p); else sb->Append(mk(x), p, n - p); }); break; }
  case 5: w = t.sub(0, n); w.c[p] = L'!'; e = attempt([&] { sb->Replace(L'Q', L'!'); }); break;
  case 6: w = t.sub(0, n); e = attempt([&] { sb->Replace(L'Q', L'!', 0, p); sb->Replace(L'Q', L'!', p + 1, n - p - 1); }); if (e == OK_) { sameBig(sb, w, "replacing around the character"); w.c[p] = L'!'; e = attempt([&] { sb->Replace(L'Q', L'!', p, 1); }); } break;
  case 7: { int k = pick({ 33000, 65536, 70000 }); Big x = Big::pattern(k, 9); w = t.splice(p, 1, x.c, k); e = attempt([&] { sb->Replace(mk(L"Q"), mk(x)); }); break; }
  case 8: { w = t.sub(0, n); w.c[p] = L'!'; StringBuilder* o = new StringBuilder(mk(w)); if (o->get_Capacity() == sb->get_Capacity() && (o->Equals(sb) || sb->Equals(o))) fail("wide/equals", "equal though they differ at %d", p); o->set_Chars(p, L'Q'); if (o->get_Capacity() == sb->get_Capacity() && (!o->Equals(sb) || !sb->Equals(o))) fail("wide/equals", "unequal though alike"); w = t; break; }
  case 9: if (sb->get_Chars(p) != L'Q') fail("wide/index", "character %d is %x", p, (unsigned)sb->get_Chars(p)); w = t.sub(0, n); w.c[p] = L'!'; e = attempt([&] { sb->set_Chars(p, L'!'); }); break;
  default: { int c = n - p; Int32 g = -1; e = attempt([&] { g = sb->CountSubStrings(mk(L"Q"), p, c) * 10 + sb->CountSubStrings(mk(L"Q"), 0, p) * 3 + sb->CountSubStrings(mk(L"Q"), p + 1, c - 1); }); if (g != 10) fail("wide/count", "counted %d", g); w = t; } }
  if (e != OK_) fail("wide/raise", "raised %s", exName(e)); sameBig(sb, w, "edit of a wide builder"); state(mc::mix(mc::mix(n, op), mc::mix(p, w.n))); }
// patterns that overlap themselves, between pieces of themselves
static void overlapping(Txt& t, Txt& p, Txt& r) {
  int shape = choose(4); static const int len[] = { 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65 }; int m = len[choose(thorough ? 19 : 17)]; for (int i = 0; i < m; i++) p.add(shape == 0 ? (i == m - 1 ? L'b' : L'a') : shape == 1 ? (i ? L'a' : L'b') : shape == 2 ? (i % 2 ? L'b' : L'a') : L'a');
  int k = choose(m); if (m > 10 && k > 4 && k < m - 4 && k != m / 2) mc::discard(); switch (choose(4)) { case 0: t = p; t.add(p.sub(k, m - k)); break; case 1: t = p.sub(0, k); t.add(p); break; case 2: t = p.sub(k, m - k); t.add(p).add(p.sub(0, k)).add(p); break; default: t = p; t.add(p).add(L'x').add(p.sub(0, k)).add(p.sub(k / 2, m - k / 2)).add(p); }
  switch (choose(8)) { case 0: for (int i = 0; i < m; i++) r.add(p.c[(i + 1) % m]); break; case 1: for (int i = 0; i < m; i++) r.add(L'a'); break; case 2: r = p; break; case 3: r = p; r.add(p); break; case 4: r = p.sub(0, m - 1); break; case 5: r = p.sub(1, m - 1); break; case 6: for (int i = 0; i < m; i++) r.add(i < m / 2 ? L'z' : p.c[i - m / 2]); break; default: r.add(L'a'); } }
SUITE(replace_overlap, 0, "patterns of 17 lengths 2..33 (thorough to 65) that overlap themselves in 4 ways, between and beside every prefix or suffix of themselves, replaced by 8 texts of the same or another length that may complete the pattern anew: whole text and a window one short at each end") {
  Txt t, p, r; overlapping(t, p, r); NOTE("%s: %s -> %s", show(t), show(p), show(r)); int n = t.n; for (int w = 0; w < 4; w++) { int st = w & 1, c = n - st - (w >> 1); if (c < 0) continue; B b = start(t); edit(b, [&] { b.sb->Replace(make(p), make(r), st, c); }, true, replaceAll(t, p, r, st, c), "replace/overlap", "Replace(text)"); } state(mc::mix(mc::mix(t.hash(), p.hash()), r.hash())); }

// objects whose text is made by reading or changing the very builder they are given to
struct Live : Object { int kind; StringBuilder* sb; bool armed = true; Live(int k, StringBuilder* s) : kind(k), sb(s) {}
  Int32 FormatString(Char* where, const Int32 size) override { String* s = nullptr;
    switch (kind) {
    case 0: s = sb->ToString(0, sb->get_Length() > 50 ? 50 : sb->get_Length()); break;
    case 1: { StringBuilder* o = new StringBuilder(); o->Append(sb->get_Length())->Append((Char)L'/')->Append((Int64)sb->get_Length() * 3); s = o->ToString(); break; }
    case 2: sb->Append(mk(L"log ")); s = mk(L"<live>"); break;
    case 3: sb->Append(make(alphabet(140))); s = mk(L"<grown>"); break;
    case 4: if (armed) { armed = false; sb->Append((Object*)new Live(2, sb)); } s = mk(L"<deep>"); break;
    case 5: if (armed) { armed = false; throw new FormatException(); } s = mk(L"<late>"); break;
    default: sb->Clear(); s = mk(L"<fresh>"); }
    CopyChars(where, size, s->get_Buffer(), s->get_Length()); return s->get_Length(); } };
SUITE(callbacks, 0, "objects out of 7 whose text reads the builder, appends to it (short, past its storage, or another such object), clears it or refuses once, appended or inserted at the front, by texts of 9 lengths, twice with an edit between") {
  static const int L[] = { 0, 1, 3, 60, 121, 124, 127, 128, 200 }; B b = start(alphabet(pick(L)));
  for (int round = 0; round < 2; round++) { int k = choose(7); bool insert = choose(2); Live* o = new Live(k, b.sb); Txt w(b.m), x; bool ok = true; int n = b.m.n;
    switch (k) { case 0: x = w.sub(0, n > 50 ? 50 : n); break; case 1: x = decimal(n); x.addA("/"); x.add(decimal(n * 3)); break; case 2: w.addA("log "); x.addA("<live>"); break; case 3: w.add(alphabet(140)); x.addA("<grown>"); break; case 4: w.addA("log <live>"); x.addA("<deep>"); break; case 5: ok = false; x.addA("<late>"); break; default: w = Txt(); x.addA("<fresh>"); }
    NOTE("kind %d %s a text of %d", k, insert ? "inserted before" : "appended to", n); if (!ok) { Ex e = attempt([&] { insert ? b.sb->Insert(0, (Object*)o) : b.sb->Append((Object*)o); }); step(); EXPECT(e == xFormat, "live/raise", "the refusal of the object arrives as %s", exName(e)); same(b, "live/raise", "after a refused text"); }
    w.insert(insert ? 0 : w.n, x); edit(b, [&] { insert ? b.sb->Insert(0, (Object*)o) : b.sb->Append((Object*)o); }, true, w, "live", "object that uses the builder"); full(b, "live", "after the object"); if (b.m.n > 900) return; Txt v(b.m); v.addA("|"); if (choose(2)) edit(b, [&] { b.sb->Append((Char)L'|'); }, true, v, "live", "Append after"); state(mc::mix(b.m.hash(), k * 2 + insert)); } }

// ---- middle-sized builders and arguments, arguments of every magnitude, characters of every kind
static Txt midText(int n) { Big b = Big::pattern(n); return Txt(b.c, n); }
// the same text in a builder with no room, some room or much room left
static B roomy(const Txt& t, int how) {
  B b = start(t); if (how == 0) b.sb->set_Capacity(t.n > 0 ? t.n : 1); else if (how == 2) { b.sb->Append((Char)L'!', 700); b.sb->Remove(t.n, 700); } else if (how == 3) { Big x = Big::fill(150, L'!'); b.sb->Insert(0, mk(x)); b.sb->Remove(0, 150); } same(b, "roomy", "preparation"); return b; }
static int place(int n) { int at = choose(9); return at == 0 ? 0 : at == 1 ? 1 : at == 2 ? n : at == 3 ? n - 1 : at == 4 ? n / 2 : at == 5 ? n / 3 : at == 6 ? n - 2 : at == 7 ? n - 5 : 2; }
static int amount() { static const int ks[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500 }; return pick(ks); }
SUITE(medium_edits, 0, "builders of 50 (thorough 66) lengths 6..600 (2000), with no room left, as constructed, or with room left by removing from the end or the front: 12 edits with positions at 9 places and amounts of 24 sizes 0..500; plain letters or with NULs and characters outside the BMP") {
  holes(); int n = ladder(6, thorough ? 2000 : 600), op = choose(12), how = choose(4), at = place(n), k = amount(); bool atEnd = op == 0 || op == 3 || op == 5 || op == 10; if (atEnd && at) mc::discard(); if (k > n - at && (op == 2 || op == 8 || op == 9 || op == 11)) { if (k > n - at + 2) mc::discard(); } if ((mc::skin && how != 1) || n + k * (op == 7 ? 4 : op == 4 ? 2 : 1) > 2500) mc::discard(); B b = roomy(midText(n), how); Txt t(b.m), w(t), x = Txt(Big::pattern(k, 11).c, k); StringBuilder* sb = b.sb; bool in = k <= n - at; NOTE("length %d edit %d at %d, %d, room %d", n, op, at, k, how);
  switch (op) {
  case 0: w.add(x); edit(b, [&] { sb->Append(make(x)); }, true, w, "medium/append", "Append(text)"); break;
  case 1: w.insert(at, x); edit(b, [&] { sb->Insert(at, make(x)); }, true, w, "medium/insert", "Insert(text)"); break;
  case 2: if (in) w.remove(at, k); edit(b, [&] { sb->Remove(at, k); }, in, w, "medium/remove", "Remove"); break;
  case 3: for (int i = 0; i < k; i++) w.add(L'*'); edit(b, [&] { sb->Append((Char)L'*', k); }, true, w, "medium/append", "Append(char, count)"); break;
  case 4: { for (int i = 0; i < k; i++) w.insert(at, Txt(L"<>")); edit(b, [&] { sb->Insert(at, mk(L"<>"), k); }, true, w, "medium/insert", "Insert(text, count)"); break; }
  case 5: w.add(x); edit(b, [&] { sb->Append(mkChars(x)); }, true, w, "medium/append", "Append(array)"); break;
  case 6: w.insert(at, x); edit(b, [&] { sb->Insert(at, mkChars(x)); }, true, w, "medium/insert", "Insert(array)"); break;
  case 7: { Txt y = Txt(L"(("); y.add(x).add(Txt(L")))")); w.insert(at, x); if (k) edit(b, [&] { sb->Insert(at, mkChars(y), 2, k); }, true, w, "medium/insert", "Insert(array slice)"); w = b.m; w.add(x); if (k) edit(b, [&] { sb->Append(mkChars(y), 2, k); }, true, w, "medium/append", "Append(array slice)"); w = b.m; w.add(x); edit(b, [&] { sb->Append(make(y), 2, k); }, true, w, "medium/append", "Append(text slice)"); w = b.m; w.insert(at, x); edit(b, [&] { sb->Append(rawChars(x.c, k, false), k, at); }, true, w, "medium/insert", "Append(address, count, where)"); break; }
  case 8: for (int i = at; in && i < at + k; i++) if (w.c[i] == L'e') w.c[i] = L'#'; edit(b, [&] { sb->Replace((Char)L'e', (Char)L'#', at, k); }, in, w, "medium/replace", "Replace(char)"); break;
  case 9: { String* s = nullptr; Ex e = attempt([&] { s = sb->ToString(at, k); }); expectEx(e, in ? EXBIT(OK_) : ARG, "medium/subtext", "sub-text"); if (in) EXPECT(sameText(s, t.sub(at, k)), "medium/subtext", "sub-text %d+%d is %s", at, k, show(s)); break; }
  case 10: w.add(x).add(0xD).add(0xA); edit(b, [&] { sb->AppendLine(make(x)); }, true, w, "medium/append", "AppendLine(text)"); if (k == 0) { w.add(0xD).add(0xA); edit(b, [&] { sb->AppendLine(); }, true, w, "medium/append", "AppendLine()"); w.add(0xD).add(0xA); edit(b, [&] { sb->AppendLine(nullptr); }, true, w, "medium/append", "AppendLine(null)"); } break;
  default: { if (!in || k == 0) mc::discard(); Txt p = t.sub(at, 1); w = replaceAll(t, p, L"<=>", at, k); if (w.n > 2000) mc::discard(); edit(b, [&] { sb->Replace(make(p), mk(L"<=>"), at, k); }, true, w, "medium/replace", "Replace(text)"); } }
  same(b, "medium", "after"); EXPECT(sameText(sb->ToString(), b.m), "medium", "ToString after the edit"); w = b.m; w.addA("+1"); edit(b, [&] { sb->Append(mk(L"+1")); }, true, w, "medium", "Append after the edit"); state(mc::mix(mc::mix(n, op), mc::mix(at, k * 4 + how))); }
SUITE(medium_replace, 0, "builders of 18 lengths 1..600 with a pattern of 22 lengths 1..512 at the start, the end, both, thrice in a row, or nowhere (cut by one character), replaced by texts of 20 lengths 0..600, or null: in the whole text, and in windows that just hold the occurrence or miss it by one") {
  static const int ns[] = { 1, 2, 5, 8, 16, 17, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300, 600 }, ms[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 512 }, rs[] = { 0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 33, 64, 65, 127, 128, 129, 256, 257, 600 };
  int n = pick(ns), m = pick(ms), where = choose(5), k = pick(rs); if (m > n || (where == 2 && m * 2 > n) || (where == 3 && m * 3 > n) || (m * 3 <= n && k * 3 + n > 2500)) mc::discard(); Txt t, p, r; for (int i = 0; i < m - 1; i++) p.add(L'a' + i * 5 % 23); p.add(L'Z'); for (int i = 0; i < n; i++) t.add(m > 1 ? p.c[i % (m - 1)] : L'z'); for (int i = 0; i < k; i++) r.add(i % 4 == 3 ? L'Z' : L'0' + i % 10); auto put = [&](int at) { for (int i = 0; i < m; i++) t.c[at + i] = p.c[i]; };
  if (where == 0 || where == 2) put(0); if (where == 1 || where == 2) put(n - m); if (where == 3) for (int i = 0; i < 3; i++) put(i * m); NOTE("length %d, pattern of %d in place %d by %d", n, m, where, k); int at = where == 1 || where == 2 ? n - m : 0;
  { B b = start(t); edit(b, [&] { b.sb->Replace(make(p), k ? make(r) : nullptr); }, true, replaceAll(t, p, r, 0, n), "medium/replace", "Replace"); full(b, "medium/replace", "after Replace"); }
  const struct { int st, c; } w[] = { { at, m }, { at, m - 1 }, { at + 1, n - at - 1 }, { 0, at + m }, { 0, at + m - 1 }, { 1, n - 1 }, { 0, n - 1 } }; for (auto& x : w) { B b = start(t); String *q = make(p), *z = make(r); edit(b, [&] { b.sb->Replace(q, z, x.st, x.c); }, true, replaceAll(t, p, r, x.st, x.c), "medium/replace", "Replace in a window"); if (!sameText(q, p) || !sameText(z, r)) fail("medium/alias", "Replace changed an argument"); int cnt = 0; for (int i = x.st; i + m <= x.st + x.c;) if (!memcmp(t.c + i, p.c, m * sizeof(wchar_t))) cnt++, i += m; else i++; StringBuilder* f = new StringBuilder(make(t)); EXPECT(f->CountSubStrings(q, x.st, x.c) == cnt, "medium/count", "CountSubStrings in %d+%d", x.st, x.c); }
  state(mc::mix(mc::mix(t.hash(), p.hash()), k)); }
SUITE(scalar_places, 0, "values of the 12 scalar types (small ones, both neighbours of every power of two and ten) appended and inserted at 9 places of builders of 31 (thorough 62) lengths 0..300 (2000), raw and boxed") {
  static const int Ls[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 32, 33, 48, 64, 65, 96, 110, 118, 124, 127, 128, 129, 130, 200, 250, 255, 256, 300 }; int n = thorough ? ladder(0, 2000) : pick(Ls); DataType ty = scalarTypes[choose(12)]; static const long long vs[] = { 0, 1, -1, 2, -2, 3, 7, 8, 9, -9, 10, -10, 12, 16, 31, 32, 33, 63, 64, 65, 90, 97, 99, 101, 120, 126, -99, -100, -128, 127, 128, 200, 254, 255, 256, 257, 999, -999, 1001, -1000, 4096, 9999, 12345, -12345, 32767, 65536, 99999, 1000000, -1000000, 123456789, 2147483647, -2147483648LL, 4294967296LL, 9999999999LL, -1234567890123LL, 999999999999999999LL }; V v; v.t = ty; v.i = 0; v.d = 0; long long x = pick(vs); if (isFloat(ty)) { if (x > 100000 || x < -100000) mc::discard(); v.d = x / 4.0; } else { I128 lo, hi; rangeOf(ty, lo, hi); if (x < lo || x > hi) mc::discard(); v.i = x; }
  int at = n < 6 ? choose(n + 1) : place(n); Txt o = own(v); NOTE("%s at %d of %d", showV(v), at, n); Object* bx = box(v); { B b = start(midText(n)); Txt w(b.m); w.insert(at, o); edit(b, [&] { app(b.sb, v, at, true); }, true, w, "scalar/insert", "Insert(scalar)"); w.insert(at, o); edit(b, [&] { b.sb->Insert(at, bx); }, true, w, "scalar/boxed", "Insert(object)"); w.add(o); edit(b, [&] { app(b.sb, v, 0, false); }, true, w, "scalar/append", "Append(scalar)"); w.add(o); edit(b, [&] { b.sb->Append(bx); }, true, w, "scalar/boxed", "Append(object)"); w.insert(at, o); edit(b, [&] { b.sb->Append(*(ValueType*)bx, at); }, true, w, "scalar/value", "Append(value, position)"); EXPECT(sameText(b.sb->ToString(), b.m), "scalar", "ToString"); } state(mc::mix(mc::mix(n, at), mc::mix(o.hash(), ty))); }
SUITE(scalar_far, 0, "every scalar type inserted into builders of length 0, 3, 128 and 300 at positions of 129 magnitudes of either sign, raw and boxed; texts and arrays likewise") {
  int n = pick({ 0, 3, 128, 300 }), at = farInts[choose(NFAR)], k = choose(15); bool ok = at >= 0 && at <= n; B b = start(midText(n)); Txt w(b.m), o; NOTE("kind %d at %d of %d", k, at, n); if (k < 12) { V v; v.t = scalarTypes[k]; v.i = 1; v.d = 1; o = own(v); if (ok) w.insert(at, o); edit(b, [&] { app(b.sb, v, at, true); }, ok, w, "scalar/insert", "Insert(scalar)"); w = b.m; if (ok) w.insert(at, o); edit(b, [&] { b.sb->Insert(at, box(v)); }, ok, w, "scalar/boxed", "Insert(object)"); if (at < -1 || at > n) edit(b, [&] { b.sb->Append(*(ValueType*)box(v), at); }, false, w, "scalar/value", "Append(value, position)"); }
  else { o = Txt(L"pqr"); if (ok) w.insert(at, o); edit(b, [&] { switch (k) { case 12: b.sb->Insert(at, mk(o)); break; case 13: b.sb->Insert(at, mkChars(o)); break; default: b.sb->Insert(at, mk(o), 1); } }, ok, w, "far/insert", "Insert"); if (k == 12 && (at < -1 || at > n)) edit(b, [&] { b.sb->Append(rawChars(o.c, 3, false), 3, at); }, false, b.m, "far/insert", "Append(address, count, where)"); if (k == 13) edit(b, [&] { b.sb->Insert(at, mkChars(o), 1, 2); }, ok, [&] { Txt q(b.m); if (ok) q.insert(at, Txt(L"qr")); return q; }(), "far/insert", "Insert(array slice)"); if (k == 14) edit(b, [&] { b.sb->Insert(at, mk(o), 4); }, ok, [&] { Txt q(b.m); if (ok) for (int i = 0; i < 4; i++) q.insert(at, o); return q; }(), "far/insert", "Insert(text, count)"); }
  full(b, "far", "after"); state(mc::mix(n, mc::mix(at, k))); }
SUITE(far_args, 0, "builders of length 0, 1, 5, 40 and 300: windows of Remove, both Replace forms, CountSubStrings, ToString and slices of arrays and texts of that length, with starts and counts of 129 magnitudes of either sign, one or both of them; reading and setting a character; negative repeat counts and lengths") {
  int n = pick({ 0, 1, 5, 40, 300 }), form = choose(3), x = farInts[choose(NFAR)]; Txt t = midText(n); NOTE("length %d, %d in place %d", n, x, form); String *p = mk(L"q"), *src = make(t); Array* arr = mkChars(t);
  auto one = [&](int st, int c) { bool ok = st >= 0 && c >= 0 && st <= n && c <= n - st; { B b = start(t); Txt w(t); if (ok) w.remove(st, c); edit(b, [&] { b.sb->Remove(st, c); }, ok, w, "far/remove", "Remove"); } B b = start(t); Txt w(t); if (ok) for (int i = st; i < st + c; i++) if (w.c[i] == L'c') w.c[i] = L'#'; edit(b, [&] { b.sb->Replace((Char)L'c', (Char)L'#', st, c); }, ok, w, "far/replace", "Replace(char)"); if (ok) b.m = t, b.sb = new StringBuilder(make(t)); edit(b, [&] { b.sb->Replace(mk(L"d"), mk(L"<>"), st, c); }, ok, ok ? replaceAll(t, L"d", L"<>", st, c) : t, "far/replace", "Replace(text)"); B d = start(t); String* s = nullptr; Ex e = attempt([&] { s = d.sb->ToString(st, c); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "far/subtext", "sub-text"); if (ok) EXPECT(sameText(s, t.sub(st, c)), "far/subtext", "sub-text"); int cnt = -1; e = attempt([&] { cnt = d.sb->CountSubStrings(p, st, c); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "far/count", "CountSubStrings"); if (ok) { int want = 0; for (int i = st; i < st + c; i++) want += t.c[i] == L'q'; EXPECT(cnt == want, "far/count", "counted %d", cnt); }
    if (st >= 0 && c >= 0 && !(c == 0 && st > n)) { w = d.m; if (ok) w.add(t.sub(st, c)); edit(d, [&] { d.sb->Append(src, st, c); }, ok, w, "far/slice", "Append(text slice)"); w = d.m; if (ok) w.add(t.sub(st, c)); edit(d, [&] { d.sb->Append(arr, st, c); }, ok, w, "far/slice", "Append(array slice)"); w = d.m; if (ok) w.insert(0, t.sub(st, c)); edit(d, [&] { d.sb->Insert(0, arr, st, c); }, ok, w, "far/slice", "Insert(array slice)"); } };
  if (form == 0) { for (int c : { 0, 1, n, n + 1 }) one(x, c); B b = start(t); bool in = x >= 0 && x < n; Txt w(t); if (in) w.c[x] = L'?'; edit(b, [&] { b.sb->set_Chars(x, L'?'); }, in, w, "far/chars", "set_Chars"); Ex e = attempt([&] { EXPECT(b.sb->get_Chars(x) == L'?', "far/chars", "get_Chars"); }); expectEx(e, in ? EXBIT(OK_) : ARG, "far/chars", "get_Chars"); e = attempt([&] { EXPECT(*b.sb->Address(x) == L'?', "far/chars", "Address"); }); expectEx(e, in ? EXBIT(OK_) : ARG, "far/chars", "Address"); if (x < 0) { edit(b, [&] { b.sb->set_Length(x); }, false, w, "far/length", "set_Length"); edit(b, [&] { b.sb->Append((Char)L'k', x); }, false, w, "far/repeat", "Append(char, count)"); edit(b, [&] { b.sb->Insert(n, mk(L"k"), x); }, false, w, "far/repeat", "Insert(text, count)"); } else if (x <= 2000) { w = b.m; if (x < n) w.n = x; while (w.n < x) w.add(0); edit(b, [&] { b.sb->set_Length(x); }, true, w, "far/length", "set_Length"); } }
  else if (form == 1) for (int st : { 0, 1, n - 1, n }) one(st, x); else for (int k = 0; k < NFAR; k += thorough ? 1 : 3) one(x, farInts[k]); state(mc::mix(n, mc::mix(form, x))); }
SUITE(every_char, 0, "one character of 116 kinds (controls, every ASCII class, Latin, Greek, spaces, surrogates, full width, outside the BMP) appended, repeated, inserted, set and replaced by one of 116, at every place of a text of 0..4 letters") {
  wchar_t c = ladderChar(), d = ladderChar(); int n = choose(5), p = choose(n + 1); Txt t, w; for (int i = 0; i < n; i++) t.add(L'K' + i); if (d >= L'K' && d <= L'O') mc::discard(); NOTE("U+%X at %d of %d, then U+%X", (unsigned)c, p, n, (unsigned)d); Txt one, two; one.add(c); two.add(d); B b = start(t); w = t; w.insert(p, one); edit(b, [&] { b.sb->Insert(p, (Char)c); }, true, w, "every/insert", "Insert(char)"); w.add(c); edit(b, [&] { b.sb->Append((Char)c); }, true, w, "every/append", "Append(char)"); w.add(c).add(c); edit(b, [&] { b.sb->Append((Char)c, 2); }, true, w, "every/append", "Append(char,2)"); w.add(L'+').add(d); edit(b, [&] { b.sb->Append(make([&] { Txt q(L"+"); q.add(d); return q; }())); }, true, w, "every/append", "Append(text)"); Txt before(w); int bn = w.n; for (int i = 0; i < bn; i++) if (w.c[i] == c) w.c[i] = d; edit(b, [&] { b.sb->Replace((Char)c, (Char)d); }, true, w, "every/replace", "Replace(char)"); w.c[p] = c; edit(b, [&] { b.sb->set_Chars(p, c); }, true, w, "every/set", "set_Chars"); EXPECT(b.sb->get_Chars(p) == (Char)c, "every/set", "get_Chars"); w = replaceAll(w, two, one, 0, w.n); edit(b, [&] { b.sb->Replace(make(two), make(one)); }, true, w, "every/replace", "Replace(text)"); CharValue* v = c <= 0xFFFF || true ? new CharValue((Char)c) : nullptr; w.add(c); edit(b, [&] { b.sb->Append((Object*)v); }, true, w, "every/append", "Append(boxed char)"); state(mc::mix(w.hash(), p)); }
SUITE(medium_equals, 0, "pairs of builders of 44 (thorough 66) lengths 0..600 (2000), equal but for one character at 9 places or for one character more, with and without room left: Equals, ToString, Clear") {
  int n = ladder(0, thorough ? 2000 : 600), k = choose(4), at = place(n), ra = choose(4), rb = choose(4); if (at < 0 || at >= n) { if (k == 1 || at > n) mc::discard(); at = 0; } if (k != 1 && at) mc::discard(); Txt t = midText(n), u(t); if (k == 1) u.c[at] ^= 0x100; if (k == 2) u.add(L'a'); if (k == 3) u.add(0); B a = roomy(t, ra), b = roomy(u, rb); NOTE("length %d, kind %d at %d, rooms %d %d", n, k, at, ra, rb); EXPECT(a.sb->Equals(a.sb) && b.sb->Equals(b.sb), "equals/self", "a builder differs from itself"); int cmp = a.sb->Equals(b.sb); if (k) EXPECT(!cmp && !b.sb->Equals(a.sb), "equals/differ", "builders of different texts are equal"); if (k == 0 && a.sb->get_Capacity() == b.sb->get_Capacity()) EXPECT(cmp && b.sb->Equals(a.sb), "equals/same", "builders of one text differ"); edit(a, [&] { a.sb->Clear(); }, true, Txt(), "clear", "Clear"); EXPECT(sameText(a.sb->ToString(), Txt()), "clear", "text after Clear"); same(b, "equals", "after the comparison"); state(mc::mix(u.hash(), ra * 4 + rb)); }
SUITE(many_occurrences, 0, "texts of 255..257 occurrences, 32768 and 65536 (thorough: 11 counts to 70000 around powers of two) of a one- or two-character pattern, alone or with a character before and behind: counted, and replaced by 0..3 characters") {
  int n = pick({ 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536, 65537, 70000 }), two = choose(2), rim = choose(2), k = choose(4); if (n > 257 && !thorough && (two || rim || (n == 65536 ? k > 1 : n == 32768 ? k != 2 : true))) mc::discard(); if (n > 257 && (two || rim) && k != 2 - two) mc::discard(); NOTE("%d occurrences of %d, rim %d, by %d", n, 1 + two, rim, k); Big p = Big::of(two ? L"ab" : L"a"), r = Big::fill(k, L'#'), t(n * p.n), w(n * k); for (int i = 0; i < t.n; i++) t.c[i] = p.c[i % p.n]; for (int i = 0; i < w.n; i++) w.c[i] = L'#'; if (rim) { t = t.splice(0, 0, L"<", 1).splice(t.n + 1, 0, L">", 1); w = w.splice(0, 0, L"<", 1).splice(w.n + 1, 0, L">", 1); }
  StringBuilder* sb = new StringBuilder(mk(t)); Int32 g = -1; Ex e = attempt([&] { g = sb->CountSubStrings(mk(p), 0, t.n); }); if (e != OK_ || g != n) fail("count", "counted %d (%s)", g, exName(e)); e = attempt([&] { sb->Replace(mk(p), mk(r)); }); expectEx(e, EXBIT(OK_), "raise", "replacing many occurrences"); sameBig(sb, w, "replacing many occurrences"); state(mc::mix(n, two * 8 + rim * 4 + k)); }
SUITE(large_patterns, 0, "patterns of 2 (thorough 5) lengths 4096..65537 at the start, the end, both or thrice in a row of a builder, or all but one character of it (at 3 (thorough 5) places): counted, and replaced by a shorter, equally long or longer text or nothing, whole or by window; the text appended, inserted and compared with its near twin") {
  static const int L[] = { 4096, 16385, 65537, 8192, 32769 }; int k = L[choose(thorough ? 5 : 2)], how = choose(4), near = choose(thorough ? 6 : 4), by = choose(4); Big p = Big::pattern(k), q = Big::pattern(k); int np[] = { -1, 0, k / 2, k - 1, 255, k - 2 }; if (near) q.c[np[near]] ^= 1;
  NOTE("pattern of %d, placed %d, differing at %d, replaced by form %d", k, how, near ? np[near] : -1, by); Big r = by == 0 ? Big::of(L"#") : by == 1 ? Big::fill(k, L'#') : by == 2 ? Big::fill(k + 300, L'#') : Big(0); Big lead = Big::of(L"<<"), t = how == 0 ? p.plus(lead) : how == 1 ? lead.plus(p) : how == 2 ? p.plus(lead).plus(p) : p.plus(p).plus(p); Big w = near ? t : how == 0 ? r.plus(lead) : how == 1 ? lead.plus(r) : how == 2 ? r.plus(lead).plus(r) : r.plus(r).plus(r); int n = near ? 0 : how < 2 ? 1 : how;
  StringBuilder* sb = new StringBuilder(mk(t)); Int32 g = -1; Ex e = attempt([&] { g = sb->CountSubStrings(mk(q), 0, t.n); }); if (e != OK_ || g != n) fail("large/count", "counted %d (%s), expected %d", g, exName(e), n); e = attempt([&] { g = sb->CountSubStrings(mk(q), 0, t.n - 1); }); if (e != OK_ || g != (n && how != 0 ? n - 1 : n)) fail("large/count", "in all but the last character counted %d (%s)", g, exName(e));
  e = attempt([&] { sb->Replace(mk(q), mk(r)); }); expectEx(e, EXBIT(OK_), "large/raise", "replacing a long pattern"); sameBig(sb, w, "replacing a long pattern");
  if (by == 0) { StringBuilder* a = new StringBuilder(mk(p)); StringBuilder* b = new StringBuilder(mk(q)); if (a->get_Capacity() == b->get_Capacity() && a->Equals(b) != !near) fail("large/equals", "builders that differ at %d: Equals gives %d", near ? np[near] : -1, (int)a->Equals(b)); b->Insert(k / 2, mk(p)); sameBig(b, q.splice(k / 2, 0, p.c, k), "inserting a long text"); a->Append(mk(q)); sameBig(a, p.plus(q), "appending a long text"); Ex f = attempt([&] { a->Insert(1, mk(Big::of(L"xyz")), 9000); }); if (f != OK_) fail("large/raise", "%s", exName(f)); Big z(27000); for (int i = 0; i < z.n; i++) z.c[i] = L"xyz"[i % 3]; sameBig(a, p.plus(q).splice(1, 0, z.c, z.n), "inserting 9000 times"); }
  state(mc::mix(mc::mix(k, how), near * 4 + by)); }
