// P05: clear / copy / search against a list model, all windows, overlaps and failures.
#include "values.h"
enum { MAXN = 6 };
struct Arr { Array* a; DataType t; int n, rank; char* base; char m[MAXN * 8 + 8]; bool isNull; };
static void fill(Arr& s, int salt) { int b = s.n * sizeOf(s.t); for (int i = 0; i < b; i++) s.base[i] = s.t == BooleanType ? (i + salt) & 1 : (char)(i * 11 + salt * 37 + 1); memcpy(s.m, s.base, b); }
static Arr mkArr(DataType t, int n, int rank, int salt) {
  Arr s; s.t = t; s.n = n; s.rank = rank; s.isNull = false; s.a = rank == 1 ? new Array(t, n) : rank == 2 ? new Array(t, n / 2, 2) : new Array(t, n / 2, 2, 1); if (rank > 1) s.n = n / 2 * 2;
  s.base = s.n ? (char*)s.a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1) : nullptr; if (s.n) fill(s, salt); return s;
}
static bool intact(const Arr& s) { return s.isNull || !s.n || !memcmp(s.m, s.base, s.n * sizeOf(s.t)); }
static const unsigned RANGE = EXBIT(xIndexOutOfRange) | EXBIT(xArgument) | EXBIT(xArgumentOutOfRange);
static int chooseIdx(int n) { static const int big[] = { -1, INT32_MAX, INT32_MIN }; int k = choose(n + 2 + 3); return k <= n + 1 ? k : big[k - n - 2]; }

SUITE(clear, 0, "16 element types x length 0..4 (thorough 0..6) x every start and count from -1 to past the end and integer extremes, rank 1..3, null") {
  DataType t = elemTypes[choose(NTYPES)]; int n = choose(thorough ? 7 : 5), kind = choose(4); Arr s = mkArr(t, n, kind == 3 ? 1 : kind + 1, 1); if (kind == 3) s.isNull = true;
  int st = chooseIdx(n), c = chooseIdx(n); NOTE("clear %s[%d] rank %d from %d count %d%s", typeName(t), s.n, s.rank, st, c, s.isNull ? " (null)" : "");
  Ex e = attempt([&] { Array::Clear(s.isNull ? nullptr : s.a, st, c); });
  if (s.isNull) expectEx(e, EXBIT(xArgumentNull) | (st < 0 || c < 0 ? RANGE : 0), "clear/null", "clearing null");
  else if (s.rank > 1) expectEx(e, EXBIT(xRank) | RANGE, "clear/rank", "clearing a multi-dimensional array");
  else if (st < 0 || c < 0 || (int64_t)st + c > n) expectEx(e, RANGE, "clear/range", "clearing a range outside the array");
  else { expectEx(e, EXBIT(OK_), "clear/ok", "clearing a valid range"); memset(s.m + st * sizeOf(t), 0, c * sizeOf(t)); }
  EXPECT(intact(s), "clear/content", "clear(%d,%d) of length %d left wrong content", st, c, n);
  state(mc::mix(mc::mix(t, e), mc::hashBytes(s.m, s.n * sizeOf(t), n)));
}
static void copySpec(Arr& src, int si, Arr& dst, int di, int len, Ex e, bool same, const char* what, unsigned rangeErr) {
  if (src.isNull || dst.isNull) expectEx(e, EXBIT(xArgumentNull) | (si < 0 || di < 0 || len < 0 || (!src.isNull && (int64_t)si + len > src.n) || (!dst.isNull && (int64_t)di + len > dst.n) ? RANGE : 0), "copy/null", what);
  else {
    bool bad = si < 0 || di < 0 || len < 0 || (int64_t)si + len > src.n || (int64_t)di + len > dst.n;
    if (bad || src.rank != dst.rank || src.t != dst.t) {
      if (!bad && src.t == dst.t) expectEx(e, EXBIT(xRank), "copy/rank", what); else if (bad && src.t == dst.t && src.rank == dst.rank) expectEx(e, rangeErr, "copy/range", what); else expectEx(e, ANYERR, "copy/mismatch", what);
    } else {
      expectEx(e, EXBIT(OK_), "copy/ok", what); int sz = sizeOf(src.t);
      memmove(dst.m + di * sz, src.m + si * sz, len * sz); if (same) memcpy(src.m, dst.m, sizeof src.m);
    }
  }
  if (!intact(src)) fail("copy/source", "%s: source content wrong", what);
  if (!intact(dst)) fail("copy/destination", "%s: destination content wrong (from %d to %d length %d)", what, si, di, len);
}
SUITE(copy, 0, "copy / constrained copy / prefix copy / copy-to x same or different array x lengths 0..3 (thorough 0..4) x every source, destination and length around the limits; 16 element types") {
  int op = choose(4); DataType t = elemTypes[choose(NTYPES)]; bool same = choose(2); int hi = thorough ? 5 : 4;
  int n = choose(hi), n2 = same ? n : choose(hi); Arr s = mkArr(t, n, 1, 1), d = same ? s : mkArr(t, n2, 1, 5);
  int si = op < 2 ? chooseIdx(n) : 0, di = op != 2 ? chooseIdx(n2) : 0, len = op == 3 ? n : chooseIdx(n > n2 ? n : n2);
  const char* names[] = { "copy", "constrained copy", "prefix copy", "copy-to" };
  NOTE("%s %s[%d] from %d -> %s[%d] at %d, length %d", names[op], typeName(t), n, si, same ? "same " : "other", n2, di, len);
  Ex e = attempt([&] { if (op == 0) Array::Copy(s.a, si, d.a, di, len); else if (op == 1) Array::ConstrainedCopy(s.a, si, d.a, di, len); else if (op == 2) Array::Copy(s.a, d.a, len); else s.a->CopyTo(d.a, di); });
  copySpec(s, si, d, di, len, e, same, names[op], RANGE);
  state(mc::mix(mc::mix(op * 32 + t, e), mc::hashBytes(d.m, n2 * sizeOf(t), n * 8 + n2)));
}
SUITE(copy_mismatch, 0, "copy and copy-to between all pairs of element types and ranks 1..3, and null on either side") {
  int op = choose(3); DataType t = elemTypes[choose(NTYPES)], t2 = elemTypes[choose(NTYPES)]; int r = 1 + choose(3), r2 = 1 + choose(3), nul = choose(3), len = choose(3);
  Arr s = mkArr(t, 4, r, 1), d = mkArr(t2, 4, r2, 5); if (nul == 1) s.isNull = true; if (nul == 2) d.isNull = true; if (op == 2 && nul == 1) mc::discard();
  NOTE("op %d %s rank %d%s -> %s rank %d%s length %d", op, typeName(t), r, nul == 1 ? " null" : "", typeName(t2), r2, nul == 2 ? " null" : "", len);
  Ex e = attempt([&] { Array *a = s.isNull ? nullptr : s.a, *b = d.isNull ? nullptr : d.a; if (op == 0) Array::Copy(a, 1, b, 2, len); else if (op == 1) Array::Copy(a, b, len); else a->CopyTo(b, 0); });
  if (op == 2) { if (nul) expectEx(e, EXBIT(xArgumentNull), "copyto/null", "copy-to null"); else if (r2 > 1) { expectEx(e, EXBIT(xRank), "copyto/rank", "copy-to into a multi-dimensional array"); } else if (r > 1) { expectEx(e, ANYERR, "copyto/rank", "copy-to from a multi-dimensional array"); } else copySpec(s, 0, d, 0, 4, e, false, "copy-to", RANGE); if (!intact(s) || !intact(d)) fail("copyto/changed", "content changed"); }
  else copySpec(s, op ? 0 : 1, d, op ? 0 : 2, len, e, false, "copy", RANGE);
  state(mc::mix(t * 32 + t2, mc::mix(e, r * 4 + r2)));
}
struct Item { int kind; Object* o; }; // 0 null, 1 "a", 2 "b", 3 Int32 1, 4 Int64 1, 5 "" , 6 Int32 2, 7 plain object
static Object* item(int k) { switch (k) { case 1: return mk(L"a"); case 2: return mk(L"ab"); case 3: return new Int32Value(1); case 4: return new Int64Value(1); case 5: return mk(L""); case 6: return new CharValue(L'a'); default: return nullptr; } }
SUITE(search, 0, "object and string arrays of length 0..3 (thorough 0..4) over {null, texts, boxed scalars}, every searched value, start and count; other element types") {
  bool strs = choose(2); int n = choose(thorough ? 5 : 4); static const int so[] = { 0, 1, 2, 5 }; int k[8];
  Array* a = new Array(strs ? StringType : ObjectType, n);
  for (int i = 0; i < n; i++) { k[i] = strs ? so[choose(4)] : choose(thorough && n > 3 ? 5 : 7); *(Object**)a->Address(i) = item(k[i]); }
  int v = strs ? so[choose(4)] : choose(7), form = choose(3); int st = form ? chooseIdx(n) : 0, c = form == 2 ? chooseIdx(n) : -1;
  NOTE("%s array of %d items, search item %d form %d start %d count %d", strs ? "string" : "object", n, v, form, st, c); for (int i = 0; i < n; i++) NOTE(" item %d", k[i]);
  Object* val = item(v); Int32 r = -9; Ex e = attempt([&] { r = form == 0 ? Array::IndexOf(a, val) : form == 1 ? Array::IndexOf(a, val, st) : Array::IndexOf(a, val, st, c); });
  if (st < 0 || st > n) expectEx(e, RANGE, "search/start", "search from outside the array");
  else if (c < -1 && e != OK_) expectEx(e, RANGE, "search/count", "search with a negative count");
  else if (c > n - st) expectEx(e, RANGE, "search/count", "search past the end");
  else { expectEx(e, EXBIT(OK_), "search/ok", "valid search"); int want = -1, end = c < 0 ? n : st + c; for (int i = st; i < end && want < 0; i++) if (k[i] == v) want = i; EXPECT(r == want, "search/result", "found at %d, expected %d", r, want); }
  for (int i = 0; i < n; i++) EXPECT((*(Object**)a->Address(i) == nullptr) == (k[i] == 0), "search/changed", "array changed");
  state(mc::mix(mc::mix(n * 8 + v, e), mc::mix(st, r)));
}
SUITE(search_types, 0, "search in null, multi-dimensional and value-type arrays") {
  int c = choose(2 + NTYPES); Array* a = nullptr; unsigned want = ANYERR;
  if (c == 0) want = EXBIT(xArgumentNull); else if (c == 1) { a = new Array(StringType, 2, 2); want = EXBIT(xRank); } else { DataType t = elemTypes[c - 2]; a = new Array(t, 2); if (t == ObjectType || t == StringType) want = EXBIT(OK_); else want = ANYERR | EXBIT(OK_); }
  Int32 r = -5; Object* v = mk(L"q"); Ex e = attempt([&] { r = Array::IndexOf(a, v); }); expectEx(e, want, "search/kind", "search in an unsupported array");
  if (e == OK_) EXPECT(r == -1, "search/kind", "found a string in an array that has none"); state(mc::mix(c, e));
}
SUITE(histories, 0, "all sequences of 3 (thorough 4) operations over {clear, copy within, copy across both ways} on two Int16 arrays of length 3 with every window of length 1..2") {
  Arr s = mkArr(Int16Type, 3, 1, 1), d = mkArr(Int16Type, 3, 1, 6); int depth = thorough ? 4 : 3; uint64_t h = 0;
  for (int q = 0; q < depth; q++) {
    int op = choose(4), len = 1 + choose(2), x = choose(4 - len), y = op ? choose(4 - len) : 0;
    NOTE("op %d from %d to %d len %d", op, x, y, len);
    if (op == 0) { Array::Clear(s.a, x, len); memset(s.m + 2 * x, 0, 2 * len); }
    else if (op == 1) { Array::Copy(s.a, x, s.a, y, len); memmove(s.m + 2 * y, s.m + 2 * x, 2 * len); }
    else if (op == 2) { Array::Copy(s.a, x, d.a, y, len); memmove(d.m + 2 * y, s.m + 2 * x, 2 * len); }
    else { Array::ConstrainedCopy(d.a, x, s.a, y, len); memmove(s.m + 2 * y, d.m + 2 * x, 2 * len); }
    EXPECT(intact(s) && intact(d), "history/content", "content differs from the list model after step %d", q + 1);
    h = mc::mix(mc::hashBytes(s.m, 6), mc::hashBytes(d.m, 6)); state(h);
  }
}

// ---- searching follows the elements' own equality, for every boxed value
static Object* extra(int k) {
  struct Same : Object { int id; Same(int i) : id(i) {} Boolean Equals(Object* o) override { Same* s = dynamic_cast<Same*>(o); return s && s->id == id; } Int32 FormatString(Char* w, const Int32 n) override { CopyChars(w, n, (Char*)L"same", 4); return 4; } DataType GetRawDataType() override { return ObjectType; } };
  static const double d[] = { 0.1, 0.10000000000000002, 0.1 + 1e-9, 1e300, 1.0000000000000002, 0.0, -0.0, NAN, INFINITY }; static const float f[] = { 0.1f, 0.100000009f, 1.0000001f, 16777217.0f };
  if (k < 9) return new DoubleValue(d[k]); k -= 9; if (k < 4) return new SingleValue(f[k]); k -= 4;
  switch (k) { case 0: return new Same(1); case 1: return new Same(1); case 2: return new Same(2); case 3: return new Object(); case 4: return new Object(); case 5: return new StringBuilder(); case 6: return new StringBuilder(); case 7: return new Array(Int32Type, 1); case 8: return new Array(Int32Type, 1); case 9: return new DateTimeValue(DateTime(10000001)); case 10: return new DateTimeValue(DateTime(10000002)); case 11: return new TimeSpanValue(TimeSpan(1)); case 12: return new TimeSpanValue(TimeSpan(2)); case 13: return mk(L"0.1"); case 14: return mk(L"Object"); case 15: return new CharValue(L'a'); case 16: return new Int32Value(97); case 17: return new UInt64Value(UINT64_MAX); case 18: return new Int64Value(-1); default: return new BooleanValue(true); } }
enum { EXTRA = 33 };
static void searchPair(Object* x, Object* y, Object* v) {
  Array* a = new Array(ObjectType, 4); *(Object**)a->Address(1) = x; *(Object**)a->Address(2) = y; int want = -1; Object* items[4] = { nullptr, x, y, nullptr }; for (int i = 0; i < 4 && want < 0; i++) if (items[i] ? items[i]->Equals(v) : v == nullptr) want = i;
  int r = -9; Ex e = attempt([&] { r = Array::IndexOf(a, v); }); expectEx(e, EXBIT(OK_), "search/boxed", "search"); EXPECT(r == want, "search/boxed", "found at %d; the first element equal to the searched value is %d", r, want); for (int i = 0; i < 4; i++) if (*(Object**)a->Address(i) != items[i]) fail("search/changed", "array changed"); state(want); }
SUITE(search_boxed, 0, "object arrays holding any two of 33 objects (numbers one unit apart, user objects with the same text, plain objects, builders, arrays), searched for every object") { Object* x = extra(choose(EXTRA)); Object* y = extra(choose(EXTRA)); int v = choose(EXTRA + 2); searchPair(x, y, v == EXTRA ? x : v == EXTRA + 1 ? y : extra(v)); }
SUITE(search_scalars, 0, "every boundary value of every scalar type searched in an array holding a neighbouring value, and a boundary value of every other type") { DataType t = scalarTypes[choose(NSCALAR)]; V list[MAXV]; int n = boundary(t, list); int i = choose(n), j = choose(n); NOTE("%s searched after %s", showV(list[j]), showV(list[i])); searchPair(box(list[i]), box(list[j]), box(list[j])); searchPair(box(list[i]), nullptr, box(list[j])); V one = { Int32Type, 1, 1 }; searchPair(box(one), box(list[i]), box(list[j])); }
// ---- arrays wrapped around one platform block, overlapping in every way
SUITE(views, 0, "clear, copy, constrained copy and copy-to between two arrays wrapped around the same block, over every pair of starting elements, positions and lengths; 5 element types") {
  static const DataType ts[] = { ByteType, Int16Type, Int32Type, Int64Type, ObjectType }; DataType t = pick(ts); int sz = sizeOf(t), n = thorough ? 7 : 5, n1 = 1 + choose(4), n2 = 1 + choose(4), o1 = choose(n - n1 + 1 > 0 ? n - n1 + 1 : 1), o2 = choose(n - n2 + 1 > 0 ? n - n2 + 1 : 1), op = choose(4);
  unsigned char* mem = (unsigned char*)malloc(n * sz); unsigned char m[64]; for (int i = 0; i < n * sz; i++) m[i] = mem[i] = (unsigned char)(i * 13 + 1); Array* a = new Array(mem + o1 * sz, t, n1); Array* b = new Array(mem + o2 * sz, t, n2);
  int len = op == 3 ? n1 : choose((n1 < n2 ? n1 : n2) + 1), si = op == 3 ? 0 : choose(n1 - len + 1), di = op == 2 ? 0 : op == 3 ? (n2 >= n1 ? choose(n2 - n1 + 1) : 0) : choose(n2 - len + 1); if (op == 3 && n1 > n2) mc::discard(); if (op == 2) si = 0;
  NOTE("type %s views at %d[%d] and %d[%d], op %d from %d to %d length %d", typeName(t), o1, n1, o2, n2, op, si, di, len);
  Ex e = attempt([&] { if (op == 0) Array::Copy(a, si, b, di, len); else if (op == 1) Array::ConstrainedCopy(a, si, b, di, len); else if (op == 2) Array::Copy(a, b, len); else a->CopyTo(b, di); }); expectEx(e, EXBIT(OK_), "views", "copy between views");
  memmove(m + (o2 + di) * sz, m + (o1 + si) * sz, len * sz); EXPECT(!memcmp(m, mem, n * sz), "views/content", "copy of %d elements from %d to %d between views at %d and %d is not as if through a temporary", len, si, di, o1, o2);
  Array::Clear(b, di, len); memset(m + (o2 + di) * sz, 0, len * sz); EXPECT(!memcmp(m, mem, n * sz), "views/clear", "clearing through a view"); state(mc::hashBytes(m, n * sz, t)); }

// ---- lengths, positions and counts that do not fit a byte or a 16-bit number
static const int BIGN[] = { 64, 100, 255, 256, 257, 600, 4097, 32769, 65536, 70001 };
static int near_(int n) { static const int c[] = { 0, 1, 2, 7, 8, 15, 16, 31, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65535, 65536, 65537 }, q[] = { 0, 1, 9, 64, 255, 256, 32768, 65536 }; int ok[40], k = 0; if (thorough && n < 5000) { for (int v : c) if (v < n - 2) ok[k++] = v; ok[k++] = n - 2; } else for (int v : q) if (v < n - 2) ok[k++] = v; ok[k++] = n / 2; ok[k++] = n - 1; ok[k++] = n; ok[k++] = n + 1; return ok[choose(k)]; }
SUITE(large, 0, "clear, copy, constrained copy, prefix copy and copy-to on arrays of 64..70001 elements of 5 (thorough, below 5000 elements: 16) types, every start, destination and count from 12 (thorough, below 5000 elements: 29) values around powers of two and the length, same (overlapping) and different array") {
  static const DataType few[] = { ByteType, Int16Type, Int32Type, Int64Type, ObjectType }; static const int fewN[] = { 65, 257, 600, 32769, 65537 }; int op = choose(5); int n = thorough ? BIGN[choose(10)] : pick(fewN); DataType t = thorough && n < 5000 ? elemTypes[choose(NTYPES)] : pick(few); int sz = sizeOf(t); bool same = op == 0 || choose(2); int st = op < 3 ? near_(n) : 0, di = op == 1 || op == 2 ? near_(n) : op == 4 ? choose(3) : 0, len = op == 4 ? n : near_(n); int n2 = same ? n : op == 4 ? n + 2 - choose(2) : n;
  NOTE("op %d type %s %s length %d from %d to %d count %d", op, typeName(t), same ? "same" : "other", n, st, di, len);
  unsigned char *ms = (unsigned char*)malloc(n * sz), *md = same ? ms : (unsigned char*)malloc(n2 * sz); Array *a = new Array(t, n), *b = same ? a : new Array(t, n2); unsigned char *pa = (unsigned char*)a->Address(0), *pb = (unsigned char*)b->Address(0);
  for (int i = 0; i < n * sz; i++) pa[i] = ms[i] = (unsigned char)(i * 11 + (i >> 8) * 3 + (i >> 16) * 57 + 1); if (!same) for (int i = 0; i < n2 * sz; i++) pb[i] = md[i] = (unsigned char)(i * 7 + (i >> 8) * 5 + (i >> 16) * 57 + 2);
  Ex e = attempt([&] { if (op == 0) Array::Clear(a, st, len); else if (op == 1) Array::Copy(a, st, b, di, len); else if (op == 2) Array::ConstrainedCopy(a, st, b, di, len); else if (op == 3) Array::Copy(a, b, len); else a->CopyTo(b, di); });
  bool bad = (int64_t)st + len > n || (op && (int64_t)di + len > n2); expectEx(e, bad ? RANGE : EXBIT(OK_), "large/raise", "range operation"); if (!bad) { if (op == 0) memset(ms + st * sz, 0, len * sz); else memmove(md + di * sz, ms + st * sz, len * sz); }
  if (memcmp(ms, pa, n * sz)) fail("large/source", "wrong source content"); if (memcmp(md, pb, n2 * sz)) fail("large/destination", "wrong destination content (from %d to %d, %d elements of %d)", st, di, len, n); state(mc::mix(mc::mix(op * 32 + t, e), mc::mix(n, mc::mix(st, mc::mix(di, len))))); }
SUITE(large_search, 0, "object and string arrays of 64..70001 elements, two elements equal to the searched one at every pair of positions from 12 (thorough, below 5000 elements: 29) values, every start and 5 counts") {
  bool strs = choose(2); int n = BIGN[choose(10)], p = near_(n), st = near_(n), form = choose(6); if (p >= n) mc::discard(); Array* a = new Array(strs ? StringType : ObjectType, n); Object* v = strs ? (Object*)mk(L"a") : (Object*)new Int32Value(7); Object* w = strs ? (Object*)mk(L"b") : (Object*)new Int32Value(8); for (int i = 0; i < n; i++) *(Object**)a->Address(i) = i == p || i == n - 1 ? v : i & 1 ? w : nullptr;
  int cnt = form < 2 ? n - st : form == 2 ? p - st : form == 3 ? p - st + 1 : form == 4 ? n - st - 1 : n - st + 1; if (form == 0 && st) mc::discard(); if (form > 1 && cnt < 0) mc::discard(); if (st > n && form > 1) mc::discard(); Object* key = strs ? (Object*)mk(L"a") : (Object*)new Int32Value(7); NOTE("%d elements, equal ones at %d and %d, form %d from %d count %d", n, p, n - 1, form, st, cnt);
  int r = -9; Ex e = attempt([&] { r = form == 0 ? Array::IndexOf(a, key) : form == 1 ? Array::IndexOf(a, key, st) : Array::IndexOf(a, key, st, cnt); }); bool bad = st > n || cnt > n - st; expectEx(e, bad ? RANGE : EXBIT(OK_), "large/search", "search"); if (!bad) { int want = p >= st && p < st + cnt ? p : n - 1 >= st && n - 1 < st + cnt ? n - 1 : -1; EXPECT(r == want, "large/search", "found at %d, expected %d", r, want); } state(mc::mix(mc::mix(n, p), mc::mix(st, mc::mix(cnt, r)))); }

// elements whose equality itself searches an array, or refuses
struct Asker : Object { int kind, id; static int asked; Asker(int k, int i) : kind(k), id(i) {} DataType GetRawDataType() override { return ObjectType; }
  Boolean Equals(Object* o) override { asked++; if (kind == 3) throw new FormatException(); Array* l = new Array(ObjectType, 3); *(Object**)l->Address(1) = kind == 2 ? (Object*)new Asker(1, id) : (Object*)new Int32Value(id); *(Object**)l->Address(2) = new Int32Value(7); int r = kind == 2 && !o ? -1 : Array::IndexOf(l, o); return o != nullptr && r == 1; } };
int Asker::asked = 0;
SUITE(search_calls, 0, "object arrays of 1..4 elements out of 8 (null, boxed numbers, objects whose equality itself searches another array one or two deep, or refuses), every start, searched for 4 values") {
  int n = 1 + choose(4), k[4], st = choose(n + 1), vk = choose(4); Array* a = new Array(ObjectType, n); int ids[] = { 0, 1, 2, 1, 2, 1, 2, 0 }; Object* v = vk == 0 ? nullptr : new Int32Value(vk == 3 ? 7 : vk); int want = -1; bool refuse = false;
  for (int i = 0; i < n; i++) { k[i] = choose(8); Object* o = nullptr; switch (k[i]) { case 0: break; case 1: case 2: o = new Int32Value(ids[k[i]]); break; case 3: case 4: o = new Asker(1, ids[k[i]]); break; case 5: case 6: o = new Asker(2, ids[k[i]]); break; default: o = new Asker(3, 0); } *(Object**)a->Address(i) = o; }
  for (int i = st; i < n && want < 0 && !refuse; i++) { if (k[i] == 7) refuse = true; else if (k[i] == 0 ? vk == 0 : vk != 0 && ids[k[i]] == vk) want = i; } int r = -9; Ex e = attempt([&] { r = st ? Array::IndexOf(a, v, st) : Array::IndexOf(a, v); }); NOTE("%d elements from %d for value %d", n, st, vk); step(); if (refuse) { expectEx(e, EXBIT(xFormat), "search/refuse", "search whose element refuses"); EXPECT(*(Object**)a->Address(0) == nullptr || k[0], "search/changed", "array changed"); } else { expectEx(e, EXBIT(OK_), "search/calls", "search"); EXPECT(r == want, "search/calls", "found at %d, expected %d", r, want); } state(mc::mix(mc::mix(n * 5 + st, vk), want)); }

// ---- middle-sized arrays, positions and counts of every magnitude
struct Mid { Array* a; char* p; char* m; int n, sz; };
static Mid mid(DataType t, int n, int salt) { Mid s; s.n = n; s.sz = sizeOf(t); s.a = new Array(t, n); s.p = n ? (char*)s.a->Address(0) : nullptr; s.m = (char*)malloc((size_t)n * s.sz + 1); for (int i = 0; i < n * s.sz; i++) s.m[i] = t == ObjectType || t == StringType ? 0 : (char)(i * 11 + (i >> 8) * 3 + (i >> 16) * 57 + salt * 37 + 1); if (t == ObjectType || t == StringType) for (int i = 0; i < n; i++) ((void**)s.m)[i] = (void*)(intptr_t)(0x10000 + i * 16 + salt); if (n) memcpy(s.p, s.m, (size_t)n * s.sz); return s; }
static void midIntact(const Mid& s, const char* key) { if (s.n && memcmp(s.m, s.p, (size_t)s.n * s.sz)) fail(key, "content of an array of %d differs from the list model", s.n); }
static int spot(int n) { int l[] = { 0, 1, 2, 3, 7, 8, n / 2, n - 8, n - 2, n - 1, n, n + 1 }, ok[12], k = 0; for (int i = 0; i < 12; i++) if (l[i] >= 0 && l[i] <= n + 1) { bool dup = false; for (int j = 0; j < k; j++) dup = dup || ok[j] == l[i]; if (!dup) ok[k++] = l[i]; } return ok[choose(k)]; }
SUITE(medium, 0, "clear, copy, constrained copy, prefix copy and copy-to on arrays of 5 element types with 54 (thorough 85) lengths 0..513 (10000), starts, destinations and counts from 12 places, within one array and between two") {
  static const DataType ts[] = { ByteType, Int16Type, Int32Type, DoubleType, ObjectType }; DataType t = pick(ts); int n = ladder(0, thorough ? 10000 : 513), op = choose(5); bool same = op && choose(2); Mid s = mid(t, n, 1), d = same ? s : mid(t, op ? n + (n & 1) : 0, 5); if (!thorough && t != ByteType && t != Int32Type && (op == 2 || op == 3)) mc::discard(); if (thorough && n > 600 && t != ByteType && t != ObjectType) mc::discard();
  int si = op == 3 || op == 4 ? 0 : spot(n), len = op == 4 ? n : spot(n); if (op == 0) d = s; NOTE("op %d on %s[%d]%s from %d length %d", op, typeName(t), n, same ? " same" : "", si, len); int ds[] = { 0, 1, 3, n / 2, d.n - len, d.n - len + 1 }; 
  for (int q = 0; q < (op == 0 || op == 3 ? 1 : 6); q++) { int di = op == 0 || op == 3 ? 0 : ds[q]; if (di < 0) continue; bool bad = (int64_t)si + len > n || (op && (int64_t)di + len > d.n); Ex e = attempt([&] { if (op == 0) Array::Clear(s.a, si, len); else if (op == 1) Array::Copy(s.a, si, d.a, di, len); else if (op == 2) Array::ConstrainedCopy(s.a, si, d.a, di, len); else if (op == 3) Array::Copy(s.a, d.a, len); else s.a->CopyTo(d.a, di); });
    expectEx(e, bad ? RANGE : EXBIT(OK_), "medium", "the operation"); if (!bad) { if (op == 0) memset(s.m + (size_t)si * s.sz, 0, (size_t)len * s.sz); else memmove(d.m + (size_t)di * s.sz, s.m + (size_t)si * s.sz, (size_t)len * s.sz); } midIntact(s, "medium/source"); midIntact(d, "medium/destination"); }
  if (s.n && t != ObjectType) state(mc::hashBytes(d.m, d.n * d.sz, mc::mix(op, n))); else state(mc::mix(op, mc::mix(n, mc::mix(si, len)))); }
SUITE(medium_search, 0, "object and string arrays of 54 (thorough 76) lengths 0..513 (4097), the first equal element at 12 places and another at the end or nowhere, every form, start from 12 places and count from 12") {
  bool strs = choose(2); int n = ladder(0, thorough ? 4097 : 513), p = spot(n), form = choose(3), last = choose(2); if (p >= n && n) mc::discard(); Array* a = new Array(strs ? StringType : ObjectType, n); Object* hit = strs ? (Object*)mk(L"a") : (Object*)new Int32Value(7); Object* miss = strs ? (Object*)mk(L"ab") : (Object*)new Int64Value(7); for (int i = 0; i < n; i++) *(Object**)a->Address(i) = i == p || (last && i == n - 1) ? hit : i & 1 ? miss : nullptr; Object* key = strs ? (Object*)mk(L"a") : (Object*)new Int32Value(7);
  int st = form ? spot(n) : 0, c = form == 2 ? spot(n) : n - st; NOTE("%d elements, equal at %d%s, form %d from %d count %d", n, p, last ? " and last" : "", form, st, c); int r = -9; Ex e = attempt([&] { r = form == 0 ? Array::IndexOf(a, key) : form == 1 ? Array::IndexOf(a, key, st) : Array::IndexOf(a, key, st, c); }); bool bad = st > n || c > n - st; expectEx(e, bad ? RANGE : EXBIT(OK_), "medium/search", "search"); if (!bad) { int w = -1; for (int i = st; i < st + c && w < 0; i++) if (i == p || (last && i == n - 1)) w = i; EXPECT(r == w, "medium/search", "found at %d, expected %d", r, w); } state(mc::mix(mc::mix(n, p), mc::mix(mc::mix(st, c), r))); }
SUITE(far_args, 0, "arrays of 0, 1, 5, 40, 300 and 4097 elements of 3 types: clear, copy, constrained copy, prefix copy, copy-to and search with an argument of 129 magnitudes of either sign in each place, alone and with each of 4 others") {
  DataType t = pick({ ByteType, Int32Type, ObjectType }); int n = pick({ 0, 1, 5, 40, 300, 4097 }), op = choose(6), place = choose(op < 1 ? 2 : op < 3 ? 3 : op == 5 ? 2 : 1), x = farInts[choose(NFAR)]; Mid s = mid(t, n, 1), d = mid(t, n, 5); static char* dummy; (void)dummy; if (op == 5) { if (t != ObjectType) mc::discard(); for (int i = 0; i < n; i++) *(Object**)s.a->Address(i) = nullptr; memset(s.m, 0, n * s.sz); } NOTE("op %d on %s[%d], %d in place %d", op, typeName(t), n, x, place);
  for (int q = 0; q < 5; q++) { int o = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? n : q == 3 ? INT32_MAX : x; int a[3] = { o, o == INT32_MAX || o == n ? 0 : o, o }; a[place] = x; int si = a[0], di = a[1], len = a[2]; if (op == 0) len = place ? x : o, si = place ? o : x, di = 0; if (op == 3) len = x, si = di = 0; if (op == 4) di = x, si = 0, len = n; bool bad = si < 0 || di < 0 || len < 0 || (int64_t)si + len > n || (op && (int64_t)di + len > n);
    if (op == 5) { int st = place ? o : x, c = place ? x : o; if (c < 0 && st >= 0 && st <= n) continue; int r = -9; Object* v = new Int32Value(1); bool b2 = st < 0 || st > n || c > n - st; Ex e = attempt([&] { r = Array::IndexOf(s.a, v, st, c); }); expectEx(e, b2 ? RANGE : EXBIT(OK_), "far/search", "search"); if (!b2) EXPECT(r == -1, "far/search", "found at %d", r); if (!place && !q) { b2 = st < 0 || st > n; e = attempt([&] { r = Array::IndexOf(s.a, v, st); }); expectEx(e, b2 ? RANGE : EXBIT(OK_), "far/search", "search to the end"); } midIntact(s, "far/source"); continue; }
    Ex e = attempt([&] { if (op == 0) Array::Clear(s.a, si, len); else if (op == 1) Array::Copy(s.a, si, d.a, di, len); else if (op == 2) Array::ConstrainedCopy(s.a, si, d.a, di, len); else if (op == 3) Array::Copy(s.a, d.a, len); else s.a->CopyTo(d.a, di); }); expectEx(e, bad ? RANGE : EXBIT(OK_), "far/args", "the operation"); if (!bad) { if (op == 0) memset(s.m + (size_t)si * s.sz, 0, (size_t)len * s.sz); else memmove(d.m + (size_t)di * s.sz, s.m + (size_t)si * s.sz, (size_t)len * s.sz); } midIntact(s, "far/source"); midIntact(d, "far/destination"); }
  state(mc::mix(mc::mix(op * 4 + place, n), mc::mix(t, (uint64_t)(uint32_t)x))); }
