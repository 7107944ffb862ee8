// P14: string builder capacity and maximum are honoured in every history.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentNull) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
static Txt fill(int n, wchar_t c = L'a') { Txt t; for (int i = 0; i < n; i++) t.add(c); return t; }
struct B { StringBuilder* sb; Txt m; int max, cap; };
static void inv(B& b, const char* what) {
  int n = b.sb->get_Length(), c = b.sb->get_Capacity(), x = b.sb->get_MaxCapacity(); step();
  if (x != b.max) fail("max", "%s: maximum changed from %d to %d", what, b.max, x);
  if (n > c) fail("length>capacity", "%s: length %d exceeds capacity %d", what, n, c);
  if (c > x) fail("capacity>max", "%s: capacity %d exceeds the maximum %d", what, c, x);
  if (n != b.m.n || memcmp(b.sb->get_Buffer(), b.m.c, n * sizeof(Char))) fail("text", "%s: text %s, expected %s", what, show(b.sb->get_Buffer(), n), show(b.m));
  if (b.sb->get_Buffer()[n]) fail("text", "%s: not terminated", what);
}
// an edit leading to w; must succeed iff it makes sense and fits
template <class F> static bool edit(B& b, F f, bool sane, const Txt& w, const char* what) {
  int c0 = b.sb->get_Capacity(); bool ok = sane && w.n <= b.max; Ex e = attempt(f); step(); NOTE("%s -> %s (capacity %d, length %d)", what, exName(e), b.sb->get_Capacity(), b.sb->get_Length());
  if (ok ? e != OK_ : !(ARG & EXBIT(e))) fail(ok ? "refused" : "accepted", "%s at length %d, capacity %d, maximum %d: %s, expected %s", what, b.m.n, c0, b.max, exName(e), ok ? "no error" : "an argument error");
  if (ok) b.m = w; else if (b.sb->get_Capacity() != c0) fail("capacity-changed", "%s was refused but capacity went from %d to %d", what, c0, b.sb->get_Capacity());
  inv(b, what); return ok;
}
static bool setCap(B& b, int c, bool ensure) {
  int c0 = b.sb->get_Capacity(), r = -1; bool ok = ensure ? c >= 0 && (c <= b.max || c <= c0) : c >= b.m.n && c <= b.max; Ex e = attempt([&] { if (ensure) r = b.sb->EnsureCapacity(c); else b.sb->set_Capacity(c); }); step(); const char* what = ensure ? "EnsureCapacity" : "set_Capacity"; NOTE("%s(%d) -> %s", what, c, exName(e));
  if (ok ? e != OK_ : !(ARG & EXBIT(e))) fail("capacity/raise", "%s(%d) at length %d, capacity %d, maximum %d: %s", what, c, b.m.n, c0, b.max, exName(e));
  int c1 = b.sb->get_Capacity(); if (ok ? c1 < c : c1 != c0) fail("capacity/value", "%s(%d) with %s left capacity %d (before %d)", what, c, exName(e), c1, c0); if (ensure && ok && r != c1) fail("capacity/result", "EnsureCapacity(%d) returned %d with capacity %d", c, r, c1); if (ensure && ok && c1 < c0) fail("capacity/value", "EnsureCapacity lowered the capacity"); inv(b, what); return ok;
}
static Txt replaceAll(const Txt& t, const Txt& p, const Txt& r, int st, int cnt) { Txt o; int i = 0, end = st + cnt; while (i < t.n) { if (i >= st && i + p.n <= end && !memcmp(t.c + i, p.c, p.n * sizeof(wchar_t))) { o.add(r); i += p.n; } else o.add(t.c[i++]); } return o; }
static B make(int cap, int max) { B b; b.max = max; b.sb = new StringBuilder(cap, max); inv(b, "constructed"); if (b.sb->get_Capacity() < cap) fail("ctor/capacity", "StringBuilder(%d,%d) has capacity %d", cap, max, b.sb->get_Capacity()); return b; }
enum { NED = 30 };
static void one(B& b, int op) {
  Txt& t = b.m; int n = t.n, left = b.max - n, h = n / 2; StringBuilder* sb = b.sb; Txt w(t); if (left > 300) left = 300; 
  auto ins = [&](int at, const Txt& x) { Txt q(t); q.insert(at, x); return q; };
  switch (op) {
  case 0: w.add(L'a'); edit(b, [&] { sb->Append((Char)L'a'); }, true, w, "Append(char)"); break;
  case 1: w.add(fill(left)); edit(b, [&] { sb->Append(mk(fill(left))); }, true, w, "Append(exactly the rest)"); break;
  case 2: w.add(fill(left + 1)); edit(b, [&] { sb->Append(mk(fill(left + 1))); }, true, w, "Append(one more than the rest)"); break;
  case 3: w.add(fill(left, L'b')); edit(b, [&] { sb->Append((Char)L'b', left); }, true, w, "Append(char, rest)"); break;
  case 4: w.add(fill(left + 1, L'b')); edit(b, [&] { sb->Append((Char)L'b', left + 1); }, true, w, "Append(char, rest+1)"); break;
  case 5: if (b.max == INT32_MAX && !n) return; edit(b, [&] { sb->Append((Char)L'b', INT32_MAX); }, false, w, "Append(char, 2147483647)"); break;
  case 6: w.addA("\r\n"); edit(b, [&] { sb->AppendLine(); }, true, w, "AppendLine()"); break;
  case 7: w.add(fill(left > 1 ? left - 1 : 1)).addA("\r\n"); edit(b, [&] { sb->AppendLine(mk(fill(left > 1 ? left - 1 : 1))); }, true, w, "AppendLine(text)"); break;
  case 8: w.add(fill(left > 2 ? left - 2 : 0)).addA("\r\n"); edit(b, [&] { sb->AppendLine(mk(fill(left > 2 ? left - 2 : 0))); }, true, w, "AppendLine(text that just fits)"); break;
  case 9: w.addA("-12345"); edit(b, [&] { sb->Append((Int32)-12345); }, true, w, "Append(Int32)"); break;
  case 10: w = ins(h, L"False"); edit(b, [&] { sb->Insert(h, (Boolean) false); }, true, w, "Insert(Boolean)"); break;
  case 11: w = ins(h, L"xy"); edit(b, [&] { sb->Insert(h, mk(L"xy")); }, true, w, "Insert(text)"); break;
  case 12: w = ins(0, L"xyxyxy"); edit(b, [&] { sb->Insert(0, mk(L"xy"), 3); }, true, w, "Insert(text,3)"); break;
  case 13: if (false) return; edit(b, [&] { sb->Insert(0, mk(L"xy"), INT32_MAX); }, false, w, "Insert(text,2147483647)"); break;
  case 14: edit(b, [&] { sb->Insert(0, mk(L"wxyz"), 0x40000000); }, false, w, "Insert(4 characters, 2^30)"); break;
  case 15: w = replaceAll(t, L"a", L"ab", 0, n); edit(b, [&] { sb->Replace(mk(L"a"), mk(L"ab")); }, true, w, "growing Replace"); break;
  case 16: { if (n > 130) return; w = replaceAll(t, L"b", L"aaaaaaaaa", h, n - h); edit(b, [&] { sb->Replace(mk(L"b"), mk(L"aaaaaaaaa"), h, n - h); }, true, w, "growing Replace in the second half"); break; }
  case 17: w = replaceAll(t, L"aa", L"b", 0, n); edit(b, [&] { sb->Replace(mk(L"aa"), mk(L"b")); }, true, w, "shrinking Replace"); break;
  case 18: w.remove(0, h); edit(b, [&] { sb->Remove(0, h); }, true, w, "Remove first half"); break;
  case 19: edit(b, [&] { sb->Clear(); }, true, Txt(), "Clear"); break;
  case 20: while (w.n < n + left) w.add(0); edit(b, [&] { sb->set_Length(n + left); }, true, w, "set_Length(full)"); break;
  case 21: while (w.n < n + left + 1) w.add(0); edit(b, [&] { sb->set_Length(n + left + 1); }, true, w, "set_Length(full+1)"); break;
  case 22: w.n = h; edit(b, [&] { sb->set_Length(h); }, true, w, "set_Length(half)"); break;
  case 23: w.add(t); edit(b, [&] { sb->Append((Object*)sb); }, true, w, "Append(itself)"); break;
  case 24: setCap(b, n, false); break;
  case 25: setCap(b, n - 1, false); break;
  case 26: setCap(b, b.max < 1000 ? b.max : 300, false); break;
  case 27: if (b.max < INT32_MAX) setCap(b, b.max + 1, false); break;
  case 28: setCap(b, n + 2, true); break;
  case 29: w = ins(h, t); edit(b, [&] { sb->Append(sb->get_Buffer(), n, h); }, true, w, "inserting its own storage"); break;
  }
  state(mc::mix(mc::mix(b.m.hash(), b.sb->get_Capacity()), mc::mix(b.max, op)));
}
SUITE(histories_small, 0, "every history of 4 out of 30 edits, maximum 1..6 (thorough: 1..9), default capacity") { B b = make(0, 1 + choose(thorough ? 9 : 6)); for (int d = 0; d < 4; d++) one(b, choose(NED)); }
SUITE(histories_around_storage, 0, "every pair (thorough triple) of 30 edits from start lengths 0, 60, 120..129 and full, for maximum 127..131, 200, 255..257, 384 and unlimited, three starting capacities") {
  static const int mx[] = { 127, 128, 129, 130, 131, 200, 255, 256, 257, 384, INT32_MAX }, st[] = { 0, 60, 120, 126, 127, 128, 129, -1 }; int max = pick(mx), n = pick(st), cp = choose(3); int cap = cp == 0 ? 0 : cp == 1 ? (max < 400 ? max : 400) : 1; B b = make(cap, max); if (n < 0) n = max < 400 ? max : 250; if (n > max) mc::discard(); Txt t = fill(n); for (int i = 0; i < n; i++) if (i % 5 == 2) t.c[i] = L'b'; NOTE("maximum %d capacity %d length %d", max, cap, n); if (n) edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); int d = thorough ? 3 : 2; for (int i = 0; i < d; i++) { if (b.m.n > 640) break; one(b, choose(NED)); } }
SUITE(replace_fit, 0, "every builder text of up to 5 (thorough 6) characters over 2 letters x every pattern of 1..3 x replacement of 0..4 letters (one marked foreign) x whole text or every window (quick: text up to 4) x every maximum from the length to the length + 5: succeeds exactly when the final text fits") {
  bool win = choose(2); Txt t = chooseText(L"ab", 1, thorough ? 6 : win ? 4 : 5), p = chooseText(L"ab", 1, 3); int rn = choose(5); Txt r; for (int i = 0; i < rn; i++) r.add(L"xabx"[i]); int st = 0, cnt = t.n; if (win) { st = choose(t.n + 1); cnt = choose(t.n - st + 1); } int max = t.n + choose(6); B b = make(0, max); Txt w = replaceAll(t, p, r, st, cnt); NOTE("%s: %s -> %s in %d+%d, maximum %d", show(t), show(p), show(r), st, cnt, max); edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); if (win) edit(b, [&] { b.sb->Replace(mk(p), mk(r), st, cnt); }, true, w, "Replace in window"); else edit(b, [&] { b.sb->Replace(mk(p), mk(r)); }, true, w, "Replace"); state(mc::mix(mc::mix(t.hash(), p.hash()), mc::mix(r.hash(), (st * 8 + cnt) * 16 + max))); }
SUITE(insert_fit, 0, "every builder length 0..5, insertion point, inserted length 0..4, repeat count 0..4 and maximum from the length to the length + 6, for text, counted text, boxed number and character forms: succeeds exactly when the final text fits") {
  int n = choose(6), at = choose(n + 1), form = choose(3), k = choose(5), cnt = form == 1 ? choose(5) : 1, max = n + choose(7); if (max < 1) mc::discard(); B b = make(0, max); Txt t = fill(n); Txt x; for (int i = 0; i < k; i++) x.add(L"wxyz"[i]); Txt all; for (int i = 0; i < cnt; i++) all.add(x); Txt w(t); if (n) edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); NOTE("insert form %d of %d x %d at %d, length %d maximum %d", form, k, cnt, at, n, max); switch (form) { case 0: w.insert(at, x); edit(b, [&] { b.sb->Insert(at, mk(x)); }, true, w, "Insert(text)"); break; case 1: w.insert(at, all); edit(b, [&] { b.sb->Insert(at, mk(x), cnt); }, true, w, "Insert(text,count)"); break; default: { if (!k) mc::discard(); int v = k == 1 ? 7 : k == 2 ? -3 : k == 3 ? 812 : -999; Txt d = lit(k == 1 ? "7" : k == 2 ? "-3" : k == 3 ? "812" : "-999"); w.insert(at, d); edit(b, [&] { b.sb->Insert(at, (Int32)v); }, true, w, "Insert(Int32)"); } } state(mc::mix(mc::mix(n * 8 + at, form * 8 + k), cnt * 16 + max)); }
SUITE(constructors, 0, "every capacity and maximum out of 22 values including negative, zero, around 128 and 256 and extreme") {
  static const int v[] = { 0, 1, 2, 5, 16, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 1000, -1, -128, INT32_MIN, INT32_MAX, INT32_MAX - 1, 0x40000000 }; int c = pick(v), m = pick(v), form = choose(2); bool ok = c >= 0 && (form == 0 || (m >= 1 && c <= m)); if (ok && c > 1000) return; StringBuilder* sb = nullptr; NOTE("StringBuilder(%d,%d) form %d", c, m, form); Ex e = attempt([&] { sb = form ? new StringBuilder(c, m) : new StringBuilder(c); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "ctor/raise", "constructor");
  if (ok) { B b; b.sb = sb; b.max = form ? m : INT32_MAX; inv(b, "constructed"); EXPECT(sb->get_Capacity() >= c && sb->get_Capacity() > 0, "ctor/capacity", "capacity %d for requested %d, maximum %d", sb->get_Capacity(), c, b.max); int k = b.max < 600 ? b.max : 600; Txt w = fill(k); edit(b, [&] { sb->Append(mk(w)); }, true, w, "filling"); if (b.max < INT32_MAX) { w.add(L'!'); if (b.max == k) edit(b, [&] { sb->Append((Char)L'!'); }, true, w, "one more"); } state(mc::mix(c, m)); } }
SUITE(text_constructors, 0, "texts of 0..3 and 126..130 characters with each of 12 capacities: capacity at least requested and at least the length") { static const int v[] = { 0, 1, 2, 3, 4, 100, 127, 128, 129, 256, 300, -1 }; int n = choose(9); if (n > 3) n += 122; int c = pick(v); StringBuilder* sb = nullptr; Ex e = attempt([&] { sb = new StringBuilder(mk(fill(n)), c); }); expectEx(e, c >= 0 ? EXBIT(OK_) : ARG, "ctor/raise", "constructor"); if (c >= 0) { B b; b.sb = sb; b.max = INT32_MAX; b.m = fill(n); inv(b, "constructed"); EXPECT(sb->get_Capacity() >= c && sb->get_Capacity() >= n, "ctor/capacity", "capacity %d for text of %d and requested %d", sb->get_Capacity(), n, c); Txt w(b.m); w.add(fill(140, L'z')); edit(b, [&] { sb->Append(mk(fill(140, L'z'))); }, true, w, "Append"); } state(mc::mix(n, c)); }
SUITE(capacity_sequences, 0, "every sequence of 3 (thorough 4) capacity requests out of 16 values by assignment or ensuring, at lengths 0, 3, 100, 128, 129, for maximum 129, 200, 256 and unlimited") {
  static const int v[] = { 0, 2, 3, 99, 100, 127, 128, 129, 130, 199, 200, 255, 256, 257, -1, 400 }, mx[] = { 129, 200, 256, INT32_MAX }, st[] = { 0, 3, 100, 128, 129 }; int max = pick(mx), n = pick(st); B b = make(0, max); Txt t = fill(n); if (n) edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); for (int d = 0; d < (thorough ? 4 : 3); d++) { setCap(b, pick(v), choose(2)); state(mc::mix(b.sb->get_Capacity(), mc::mix(n, max))); } Txt w(t); w.addA("xy"); edit(b, [&] { b.sb->Append(mk(L"xy")); }, true, w, "Append after capacity changes"); }
SUITE(extreme_requests, 0, "lengths, capacities and counts at the ends of the integer range on builders of length 0, 3 and 130, maximum 200 and 2147483646") { static const int v[] = { INT32_MAX, INT32_MIN, INT32_MIN + 1, -1 }; int max = pick({ 200, INT32_MAX - 1 }), n = pick({ 0, 3, 130 }), x = pick(v), op = choose(6); B b = make(0, max); Txt t = fill(n); if (n) edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); NOTE("op %d with %d", op, x); switch (op) { case 0: edit(b, [&] { b.sb->set_Length(x); }, false, t, "set_Length"); break; case 1: setCap(b, x, false); break; case 2: setCap(b, x, true); break; case 3: edit(b, [&] { b.sb->Append((Char)L'x', x); }, false, t, "Append(char,n)"); break; case 4: edit(b, [&] { b.sb->Insert(0, mk(L"abc"), x); }, false, t, "Insert(text,n)"); break; default: { Ex e = attempt([&] { b.sb->EnsureRoomFor(x); }); expectEx(e, ARG, "room/raise", "EnsureRoomFor"); inv(b, "EnsureRoomFor"); } } state(mc::mix(n * 8 + op, x)); }
SUITE(room, 0, "EnsureRoomFor every amount 0..8 and around the limits, maximum 5, 130 and 200: capacity then holds it or it raises") { int max = pick({ 5, 130, 200 }), n = pick({ 0, 3, 5, 125 }); if (n > max) mc::discard(); B b = make(0, max); Txt t = fill(n); if (n) edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); int a = choose(14); if (a > 8) a = max - n + a - 11; bool ok = a >= 0 && a <= max - n; int c0 = b.sb->get_Capacity(); Ex e = attempt([&] { b.sb->EnsureRoomFor(a); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "room/raise", "EnsureRoomFor"); int c = b.sb->get_Capacity(); EXPECT(ok ? c >= n + a : c == c0, "room/capacity", "capacity %d after room for %d at length %d", c, a, n); inv(b, "EnsureRoomFor"); state(mc::mix(mc::mix(max, n), a)); }
// two builders reached by different histories: equal iff text, capacity and maximum agree
SUITE(equality, 0, "every pair of builders out of 3 maxima x 8 texts (some followed by, some beginning with null characters) x 4 histories (plain, grown and cut, capacity set, rebuilt by edits): Equals exactly when text, capacity and maximum agree; both orders; null; itself") {
  auto build = [&]() { int max = pick({ 130, 200, INT32_MAX }); static const wchar_t* tx[] = { L"", L"ab", L"ac", L"abc", L"ab0", L"ab00", L"0a", L"0b" }; Txt t(pick(tx)); for (int i = 0; i < t.n; i++) if (t.c[i] == L'0') t.c[i] = 0; B b = make(0, max); switch (choose(4)) { case 0: b.sb->Append(new String(mkChars(t))); break; case 1: b.sb->Append(mk(fill(129))); b.sb->set_Length(0); b.sb->Append(new String(mkChars(t))); break; case 2: b.sb->Append(new String(mkChars(t))); b.sb->set_Capacity(5); break; default: b.sb->Append(mk(fill(2, L'q')))->Append(new String(mkChars(t)))->Remove(0, 2); } b.m = t; inv(b, "built"); return b; };
  B x = build(), y = build(); bool same = x.m == y.m && x.max == y.max && x.sb->get_Capacity() == y.sb->get_Capacity(); EXPECT(x.sb->Equals(y.sb) == same && y.sb->Equals(x.sb) == same, "equals", "%s/%d/%d and %s/%d/%d: Equals gives %d", show(x.m), x.sb->get_Capacity(), x.max, show(y.m), y.sb->get_Capacity(), y.max, x.sb->Equals(y.sb)); EXPECT(x.sb->Equals(x.sb), "equals/self", "not equal to itself"); EXPECT(!x.sb->Equals((StringBuilder*)nullptr), "equals/null", "equal to null"); inv(x, "compared"); inv(y, "compared"); state(mc::mix(mc::mix(x.m.hash(), y.m.hash()), mc::mix(x.sb->get_Capacity(), y.sb->get_Capacity()))); }
SUITE(equality_long, 0, "texts of 1..140 characters differing at one position, at the end or not at all") { int n = 1 + choose(140), k = choose(4); Txt a = fill(n), b = a; if (k == 1) b.c[n - 1] = L'b'; if (k == 2) b.c[0] = L'b'; if (k == 3) b.c[n / 2] = 0; StringBuilder *x = new StringBuilder(300), *y = new StringBuilder(300); x->Append(new String(mkChars(a))); y->Append(new String(mkChars(b))); EXPECT(x->Equals(y) == (a == b), "equals", "length %d variant %d", n, k); y->set_Length(n - 1); EXPECT(!x->Equals(y), "equals", "prefix of length %d equal", n - 1); state(n * 4 + k); }
SUITE(drop, 0, "builders that never grew, grew once, grew repeatedly and shrank are dropped without a memory error") { int k = choose(4); StringBuilder* sb = new StringBuilder(); if (k >= 1) sb->Append(mk(fill(200))); if (k >= 2) sb->Append(mk(fill(200)))->Append(mk(fill(400))); if (k == 3) { sb->Clear(); sb->set_Capacity(10); sb->set_Capacity(100); } delete sb; step(); state(k); }

SUITE(large, 0, "builders with maximum around 600, 4096, 32768, 65536 and 70001 (-1..+1 of it, and unlimited), filled to within 0..3 of that length, then one of 9 edits adding 0..5 characters at start, middle or end: allowed exactly when it fits; capacity requests around the length; plain letters, or with NULs and characters outside the BMP among them") {
  holes(); static const int base[] = { 600, 4096, 32768, 65536, 70001 }; int N = pick(base), mx = choose(4), max = mx < 3 ? N + mx - 1 : INT32_MAX - 1, n = N - 1 - choose(4), op = choose(9), k = choose(6), where = choose(3), p = where == 0 ? 0 : where == 1 ? n / 2 : n; if (where && (op < 2 || op > 5)) mc::discard(); if (n > max) n = max; Big t = Big::pattern(n), x = Big::pattern(k, 3); StringBuilder* sb = new StringBuilder(choose(2) ? 16 : n, max); sb->Append(mk(t)); NOTE("maximum %d length %d edit %d adding %d at %d", max, n, op, k, p);
  int cap = sb->get_Capacity(); EXPECT(cap >= n && cap <= max, "large/capacity", "capacity %d, length %d, maximum %d", cap, n, max); Big w = t; bool ok = (int64_t)n + k <= max; Ex e;
  switch (op) { case 0: w = t.plus(x); e = attempt([&] { sb->Append(mk(x)); }); break; case 1: w = t.plus(Big::fill(k, L'q')); e = attempt([&] { sb->Append((Char)L'q', k); }); break; case 2: w = t.splice(p, 0, x.c, k); e = attempt([&] { sb->Insert(p, mk(x)); }); break;
  case 3: { Big f = Big::fill(k, L'w'); w = t.splice(p, 0, f.c, k); e = attempt([&] { sb->Insert(p, mk(L"w"), k); }); break; } case 4: w = t.splice(p, 0, x.c, k); e = attempt([&] { sb->Insert(p, mkChars(x)); }); break; case 5: w = t.splice(p, 0, x.c, k); e = attempt([&] { sb->Insert(p, (Object*)mk(x)); }); break;
  case 6: w = t.plus(Big::fill(k, 0)); e = attempt([&] { sb->set_Length(n + k); }); break; case 7: e = attempt([&] { sb->set_Capacity(n + k); }); break; default: e = attempt([&] { sb->EnsureCapacity(n + k); }); }
  expectEx(e, ok ? EXBIT(OK_) : ANYERR, "large/fit", "edit of a long builder"); if (!ok) { w = t; EXPECT(sb->get_Capacity() == cap, "large/unchanged", "capacity changed from %d to %d by a refused edit", cap, sb->get_Capacity()); } if (ok && op == 7) EXPECT(sb->get_Capacity() >= n + k, "large/request", "capacity %d, asked for %d", sb->get_Capacity(), n + k); if (ok && op == 8) EXPECT(sb->get_Capacity() >= n + k, "large/request", "capacity %d, asked for %d", sb->get_Capacity(), n + k); if (op > 6) w = t;
  EXPECT(sb->get_Length() == w.n && !memcmp(sb->get_Buffer(), w.c, w.n * sizeof(Char)) && sb->get_Buffer()[w.n] == 0, "large/text", "text of length %d, expected %d", sb->get_Length(), w.n); EXPECT(sb->get_Capacity() >= w.n && sb->get_Capacity() <= max && sb->get_MaxCapacity() == max, "large/capacity", "capacity %d, length %d, maximum %d", sb->get_Capacity(), w.n, max); expectEx(attempt([&] { sb->set_Capacity(w.n - 1); }), ANYERR, "large/below", "capacity below the length"); state(mc::mix(mc::mix(N, mx), mc::mix(n, op * 64 + k))); }

// ---- requests of every magnitude; every maximum and length between
SUITE(far_ctor, 0, "constructors with capacity, maximum, slice start and slice length of 129 magnitudes of either sign, one of them or (capacity and maximum) both") {
  int form = choose(5), x = farInts[choose(NFAR)]; NOTE("form %d with %d", form, x); StringBuilder* sb = nullptr; Ex e;
  auto two = [&](int c, int m) { bool ok = c >= 0 && m >= 1 && c <= m; if (ok && c > 100000) return; sb = nullptr; Ex e = attempt([&] { sb = new StringBuilder(c, m); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "ctor/raise", "constructor of capacity and maximum"); if (ok) { EXPECT(sb->get_Capacity() >= c && sb->get_Capacity() <= m && sb->get_MaxCapacity() == m && sb->get_Length() == 0, "ctor/capacity", "StringBuilder(%d,%d) has capacity %d and maximum %d", c, m, sb->get_Capacity(), sb->get_MaxCapacity()); delete sb; } };
  auto slice = [&](int n, int st, int len, int c) { bool ok = st >= 0 && len >= 0 && st <= n && len <= n - st && c >= 0; if (ok && c > 100000) return; Txt t = fill(n); for (int i = 0; i < n; i++) t.c[i] = L'a' + i % 26; String* s = mk(t); sb = nullptr; Ex e = attempt([&] { sb = new StringBuilder(s, st, len, c); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "ctor/raise", "constructor of a slice"); if (ok) { B b; b.sb = sb; b.max = INT32_MAX; b.m = t.sub(st, len); inv(b, "constructed"); EXPECT(sb->get_Capacity() >= c, "ctor/capacity", "capacity %d for requested %d", sb->get_Capacity(), c); delete sb; } };
  switch (form) { case 0: if (x <= 100000) { e = attempt([&] { sb = new StringBuilder(x); }); expectEx(e, x >= 0 ? EXBIT(OK_) : ARG, "ctor/raise", "constructor of a capacity"); if (x >= 0) EXPECT(sb->get_Capacity() >= x && sb->get_MaxCapacity() == INT32_MAX, "ctor/capacity", "capacity %d for %d", sb->get_Capacity(), x); for (int n : { 0, 3, 130, 300 }) slice(n, 0, n, x); for (int n : { 0, 3, 130, 300 }) { e = attempt([&] { sb = new StringBuilder(mk(fill(n)), x); }); expectEx(e, x >= 0 ? EXBIT(OK_) : ARG, "ctor/raise", "constructor of text and capacity"); if (x >= 0) { B b; b.sb = sb; b.max = INT32_MAX; b.m = fill(n); inv(b, "constructed"); EXPECT(sb->get_Capacity() >= x, "ctor/capacity", "capacity %d for requested %d", sb->get_Capacity(), x); } } } break;
  case 1: for (int k = 0; k < NFAR; k++) two(x, farInts[k]); for (int m : { 0, 1, 2 }) two(x, m); break; case 2: for (int c : { 0, 1, 2, 16, 128 }) two(c, x); break;
  case 3: for (int n : { 0, 1, 5, 40, 300 }) for (int len : { 0, 1, n }) slice(n, x, len, 16); break; default: for (int n : { 0, 1, 5, 40, 300 }) for (int st : { 0, 1, n - 1, n }) slice(n, st, x, 16); } state(mc::mix(form, x)); }
SUITE(far_requests, 0, "lengths, capacities, room and repeat counts of 129 magnitudes of either sign asked of builders of length 0, 3, 130 and 300 with maximum 300, 5000 and 40000 and (the negative and those to 100000) unlimited") {
  int max = pick({ 300, 5000, 40000, INT32_MAX }), n = pick({ 0, 3, 130, 300 }), x = farInts[choose(NFAR)], op = choose(6); if (max == INT32_MAX && x > 100000) mc::discard(); if (x > 2000 && x <= max && op != 1 && op != 2 && op != 5) mc::discard(); if (op == 4 && x > 700) { if (x <= max) mc::discard(); } B b = make(0, max); Txt t = fill(n); if (n) edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); NOTE("op %d with %d, maximum %d, length %d", op, x, max, n); Txt w(t); bool sane = x >= 0;
  auto grown = [&](int64_t to, wchar_t c) { if (to > 2600) return; if (to < w.n) w.n = (int)to; while (w.n < to) w.add(c); }; auto over = [&](int64_t to) { return to > max; };
  switch (op) { case 0: if (sane) { if (over(x)) sane = false; else grown(x, 0); } edit(b, [&] { b.sb->set_Length(x); }, sane, w, "set_Length"); break; case 1: setCap(b, x, false); break; case 2: setCap(b, x, true); break;
  case 3: if (sane) { if (over((int64_t)n + x)) sane = false; else if (n + x > 2500) mc::discard(); else grown((int64_t)n + x, L'x'); } edit(b, [&] { b.sb->Append((Char)L'x', x); }, sane, w, "Append(char, count)"); break;
  case 4: if (sane) { if (over((int64_t)n + 3 * (int64_t)x)) sane = false; else if (n + 3 * x > 2500) mc::discard(); else { Txt a = fill(n / 2), z = fill(n - n / 2); w = a; for (int i = 0; i < x; i++) w.addA("xyz"); w.add(z); } } edit(b, [&] { b.sb->Insert(n / 2, mk(L"xyz"), x); }, sane, w, "Insert(text, count)"); break;
  default: { int c0 = b.sb->get_Capacity(); if (sane && (int64_t)n + x > 200000 && (int64_t)n + x <= max) mc::discard(); bool ok = sane && !over((int64_t)n + x); Ex e = attempt([&] { b.sb->EnsureRoomFor(x); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "room/raise", "EnsureRoomFor"); int c1 = b.sb->get_Capacity(); EXPECT(ok ? c1 >= n + x && c1 >= c0 : c1 == c0, "room/capacity", "capacity %d, before %d", c1, c0); inv(b, "room"); } }
  state(mc::mix(mc::mix(max, n), mc::mix(x, op))); }
SUITE(medium_fit, 0, "maxima of 50 (thorough 66) values 1..600 (2000), filled to 0..3 or half below it in a builder of small, exact or doubled capacity, then one of 9 edits adding as much as fits or one more or one less, then shortened and filled again") {
  int max = ladder(1, thorough ? 2000 : 600), gap = choose(5), cp = choose(3), op = choose(9), d = choose(3) - 1, n = gap < 4 ? max - gap : max / 2; if (n < 0 || max - n + d < 0) mc::discard(); int k = max - n + d, cap = cp == 0 ? 0 : cp == 1 ? n : n * 2 < max ? n * 2 : max; B b = make(cap, max); Txt t = fill(n), w(t); if (n) edit(b, [&] { b.sb->Append(mk(t)); }, true, t, "start"); NOTE("maximum %d, length %d, capacity %d, edit %d adding %d", max, n, b.sb->get_Capacity(), op, k); Txt x = fill(k, L'b'); int h = n / 2;
  switch (op) { case 0: w.add(x); edit(b, [&] { b.sb->Append(mk(x)); }, true, w, "Append(text)"); break; case 1: w.add(x); edit(b, [&] { b.sb->Append((Char)L'b', k); }, true, w, "Append(char, count)"); break; case 2: w.insert(h, x); edit(b, [&] { b.sb->Insert(h, mk(x)); }, true, w, "Insert(text)"); break; case 3: w.insert(h, x); edit(b, [&] { b.sb->Insert(h, mk(L"b"), k); }, true, w, "Insert(text, count)"); break; case 4: w.insert(h, x); edit(b, [&] { b.sb->Insert(h, mkChars(x)); }, true, w, "Insert(array)"); break; case 5: w.add(x); edit(b, [&] { b.sb->Append(mkChars(x)); }, true, w, "Append(array)"); break; case 6: w.add(fill(k, 0)); edit(b, [&] { b.sb->set_Length(n + k); }, true, w, "set_Length"); break;
  case 7: if (!n) mc::discard(); { Txt t2(t); t2.c[h] = L'c'; edit(b, [&] { b.sb->set_Chars(h, L'c'); }, true, t2, "set_Chars"); w = t2; w.remove(h, 1); Txt y = fill(k + 1, L'z'); w.insert(h, y); edit(b, [&] { b.sb->Replace(mk(L"c"), mk(y)); }, true, w, "Replace"); } break;
  default: setCap(b, n + k, false); setCap(b, n + k, true); }
  int m = b.m.n / 2; w = b.m.sub(0, m); edit(b, [&] { b.sb->Remove(m, b.m.n - m); }, true, w, "Remove"); w = b.m; w.add(fill(max - m, L'q')); edit(b, [&] { b.sb->Append((Char)L'q', max - m); }, true, w, "filling up"); w.add(L'!'); edit(b, [&] { b.sb->Append((Char)L'!'); }, true, w, "one more"); state(mc::mix(mc::mix(max, n), mc::mix(op * 4 + d, cp))); }
