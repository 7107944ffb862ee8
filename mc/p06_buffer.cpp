// P06: byte-level access (get/set byte, byte length, block copy) against a byte-image model.
#include "values.h"
struct Arr { Array* a; DataType t; int n, bytes; unsigned char* base; unsigned char m[64]; bool isNull; };
static Arr mkArr(DataType t, int n, int salt, bool null = false) {
  Arr s; s.t = t; s.n = n; s.bytes = n * sizeOf(t); s.isNull = null; s.a = null ? nullptr : new Array(t, n); s.base = n && !null ? (unsigned char*)s.a->Address(0) : nullptr;
  for (int i = 0; i < s.bytes; i++) { s.m[i] = !isPrimitive(t) && (t == ObjectType || t == StringType) ? 0 : (unsigned char)(i * 29 + salt * 71 + 3); if (!null) s.base[i] = s.m[i]; }
  return s;
}
static void intact(const Arr& s, const char* key) { if (s.isNull) return; for (int i = 0; i < s.bytes; i++) if (s.base[i] != s.m[i]) fail(key, "byte %d of %s[%d] is %d, expected %d", i, typeName(s.t), s.n, s.base[i], s.m[i]); }
static const unsigned RANGE = EXBIT(xArgument) | EXBIT(xArgumentOutOfRange) | EXBIT(xIndexOutOfRange);
static int chooseOff(int bytes) { static const int big[] = { -1, INT32_MAX, INT32_MIN, INT32_MAX - 1 }; int k = choose(bytes + 2 + 4); return k <= bytes + 1 ? k : big[k - bytes - 2]; }
static const DataType prims[] = { ByteType, BooleanType, SByteType, CharType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType };

SUITE(get_set, 0, "get then set then get of one byte: 16 element types, null, length 0..3, every offset from -1 to past the end and the integer extremes, 4 (thorough all 256) byte values") {
  int c = choose(NTYPES + 1); DataType t = c < NTYPES ? elemTypes[c] : ByteType; int n = choose(4); Arr s = mkArr(t, n, 1, c == NTYPES);
  int off = chooseOff(s.bytes), v = thorough ? choose(256) : pick({ 0, 255, 128, 7 });
  NOTE("%s%s[%d] byte %d value %d", s.isNull ? "null " : "", typeName(t), n, off, v);
  int len = -1; Ex e = attempt([&] { len = Buffer::ByteLength(s.a); }); unsigned bad = s.isNull ? EXBIT(xArgumentNull) : !isPrimitive(t) ? EXBIT(xArgument) : 0;
  expectEx(e, bad ? bad : EXBIT(OK_), "length", "byte length"); if (!bad) EXPECT(len == s.bytes, "length", "byte length %d, expected %d", len, s.bytes);
  if (off < 0 || (!s.isNull && off >= s.bytes)) bad |= RANGE;
  int g = -1; e = attempt([&] { g = Buffer::GetByte(s.a, off); }); expectEx(e, bad ? bad : EXBIT(OK_), "get", "get byte"); if (!bad) EXPECT(g == s.m[off], "get", "byte %d read as %d, expected %d", off, g, s.m[off]); intact(s, "get/changed");
  e = attempt([&] { Buffer::SetByte(s.a, off, (Byte)v); }); expectEx(e, bad ? bad : EXBIT(OK_), "set", "set byte"); if (!bad) s.m[off] = (unsigned char)v; intact(s, "set/content");
  if (!bad) { EXPECT(Buffer::GetByte(s.a, off) == v, "set/readback", "byte %d read back wrong", off); intact(s, "set/content"); }
  state(mc::mix(c * 8 + n, mc::mix(e, off * 256 + v)));
}
static void copySpec(Arr& s, int so, Arr& d, int dof, int cnt, bool same, Ex e) {
  unsigned bad = (s.isNull || d.isNull ? EXBIT(xArgumentNull) : 0u) | ((!s.isNull && !isPrimitive(s.t)) || (!d.isNull && !isPrimitive(d.t)) ? EXBIT(xArgument) : 0u) | (so < 0 || dof < 0 || cnt < 0 || (!s.isNull && (int64_t)so + cnt > s.bytes) || (!d.isNull && (int64_t)dof + cnt > d.bytes) ? RANGE : 0u);
  expectEx(e, bad ? bad : EXBIT(OK_), "copy", "block copy");
  if (!bad) { memmove(d.m + dof, s.m + so, cnt); if (same) memcpy(s.m, d.m, sizeof s.m); }
  intact(d, "copy/destination"); intact(s, "copy/source");
}
SUITE(block_copy, 0, "block copy: same or different array, 5 (thorough 12) x 5 primitive types, lengths 0..2, every source and destination offset and count around the limits and the integer extremes") {
  bool same = choose(2); static const DataType few[] = { ByteType, Int32Type, Int16Type, DoubleType, CharType };
  DataType t = thorough ? pick(prims) : pick(few), t2 = same ? t : pick(few); int n = choose(3), n2 = same ? n : choose(3);
  if (!thorough && sizeOf(t) == 8 && sizeOf(t2) == 8 && !same && n + n2 > 2) mc::discard();
  Arr s = mkArr(t, n, 1), d = same ? s : mkArr(t2, n2, 5); int so = chooseOff(s.bytes), dof = chooseOff(d.bytes), cnt = chooseOff(s.bytes > d.bytes ? s.bytes : d.bytes);
  NOTE("copy %d bytes from offset %d of %s[%d] to offset %d of %s%s[%d]", cnt, so, typeName(t), n, dof, same ? "same " : "", typeName(t2), n2);
  Ex e = attempt([&] { Buffer::BlockCopy(s.a, so, d.a, dof, cnt); }); copySpec(s, so, d, dof, cnt, same, e);
  state(mc::mix(mc::mix(t * 32 + t2, e), mc::hashBytes(d.m, d.bytes, n * 8 + n2)));
}
SUITE(block_copy_types, 0, "block copy between all pairs of element types, null on either side, bytes 0..4 of it; multi-dimensional arrays") {
  int c = choose(NTYPES + 2), c2 = choose(NTYPES + 2); DataType t = c < NTYPES ? elemTypes[c] : Int32Type, t2 = c2 < NTYPES ? elemTypes[c2] : Int32Type; int cnt = choose(5);
  NOTE("copy %d bytes from %s kind %d to %s kind %d", cnt, typeName(t), c, typeName(t2), c2);
  if (c == NTYPES + 1 || c2 == NTYPES + 1) {
    Array* a = c == NTYPES + 1 ? new Array(Int32Type, 2, 2) : new Array(t, 4); Array* b = c2 == NTYPES + 1 ? new Array(Int32Type, 2, 2) : new Array(t2, 4);
    bool fine = isPrimitive(t) && isPrimitive(t2); Ex e = attempt([&] { Buffer::BlockCopy(c == NTYPES ? nullptr : a, 0, c2 == NTYPES ? nullptr : b, 0, cnt); });
    if (c == NTYPES || c2 == NTYPES || !fine) expectEx(e, ANYERR, "copy/rank", "block copy"); else expectEx(e, EXBIT(OK_) | EXBIT(xRank), "copy/rank", "block copy of a multi-dimensional array");
    state(mc::mix(c * 32 + c2, e)); return;
  }
  Arr s = mkArr(t, 4, 1, c == NTYPES), d = mkArr(t2, 4, 5, c2 == NTYPES); Ex e = attempt([&] { Buffer::BlockCopy(s.a, 0, d.a, 1, cnt); });
  copySpec(s, 0, d, 1, cnt, false, e); state(mc::mix(mc::mix(c * 32 + c2, e), cnt));
}
SUITE(histories, 0, "all sequences of 3 (thorough 4) operations over {set byte, copy within, copy across} on an Int16[2] and a Byte[4] with every window") {
  Arr s = mkArr(Int16Type, 2, 1), d = mkArr(ByteType, 4, 4); int depth = thorough ? 4 : 3;
  for (int q = 0; q < depth; q++) {
    int op = choose(4);
    if (op == 0) { int which = choose(2), at = choose(4), v = 200 + q; NOTE("set byte %d of %s to %d", at, which ? "bytes" : "shorts", v); Arr& x = which ? d : s; Buffer::SetByte(x.a, at, v); x.m[at] = v; }
    else { int len = 1 + choose(4), x = choose(5 - len), y = choose(5 - len); Arr &from = op == 3 ? d : s, &to = op == 1 ? s : op == 2 ? d : s; NOTE("copy %d bytes %s@%d -> %s@%d", len, op == 3 ? "bytes" : "shorts", x, op == 2 ? "bytes" : "shorts", y); Buffer::BlockCopy(from.a, x, to.a, y, len); memmove(to.m + y, from.m + x, len); }
    step(); intact(s, "history"); intact(d, "history"); state(mc::mix(mc::hashBytes(s.m, 4), mc::hashBytes(d.m, 4)));
  }
}

SUITE(views, 0, "block copies between two arrays of 4 (thorough 12) primitive types wrapped around one 24-byte block at every pair of offsets 0..8, every pair of positions and every count 0..8 (thorough to 16)") {
  static const DataType few[] = { ByteType, Int16Type, Int32Type, DoubleType }; DataType t = thorough ? pick(prims) : pick(few), t2 = pick(few); int bytes = 16; unsigned char* mem = (unsigned char*)malloc(24); unsigned char m[24]; for (int i = 0; i < 24; i++) m[i] = mem[i] = (unsigned char)(i * 29 + 3);
  int o1 = choose(9), o2 = choose(9); Array* a = new Array(mem + o1, t, bytes / sizeOf(t)); Array* b = new Array(mem + o2, t2, bytes / sizeOf(t2)); int cnt = choose(thorough ? 17 : 9), so = choose(bytes - cnt + 1), dof = choose(bytes - cnt + 1); if (!thorough && so && so + cnt != bytes && so != 5) mc::discard();
  NOTE("views %s at %d, %s at %d: copy %d bytes from %d to %d", typeName(t), o1, typeName(t2), o2, cnt, so, dof); Ex e = attempt([&] { Buffer::BlockCopy(a, so, b, dof, cnt); }); expectEx(e, EXBIT(OK_), "views", "block copy between views"); memmove(m + o2 + dof, m + o1 + so, cnt);
  for (int i = 0; i < 24; i++) if (m[i] != mem[i]) fail("views/content", "byte %d of the shared block is %d, expected %d", i, mem[i], m[i]); step(); state(mc::mix(mc::hashBytes(m, 24), cnt)); }

// ---- byte offsets and counts that do not fit a byte or a 16-bit number
static int near_(int n) { static const int c[] = { 0, 1, 3, 7, 8, 15, 63, 64, 65, 127, 128, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 131072 }, q[] = { 0, 1, 9, 64, 255, 256, 32768, 65536 }; int ok[40], k = 0; if (thorough) { for (int v : c) if (v < n - 2) ok[k++] = v; ok[k++] = n - 2; } else for (int v : q) if (v < n - 2) ok[k++] = v; ok[k++] = n / 2; ok[k++] = n - 1; ok[k++] = n; ok[k++] = n + 1; return ok[choose(k)]; }
SUITE(large, 0, "get, set, byte length and block copy on arrays of 12 primitive types with 64..65537 elements, offsets and counts from 12 (thorough 26) values around powers of two and the length in bytes, same (overlapping) and different array") {
  DataType t = pick(prims); static const int ns[] = { 64, 257, 600, 32769, 65537 }; int n = pick(ns), sz = sizeOf(t), bytes = n * sz; bool same = choose(2); int so = near_(bytes), dof = near_(bytes), cnt = near_(bytes); if (so > bytes / 2 + 1 && dof > bytes / 2 + 1 && so != dof) mc::discard(); NOTE("%s[%d] %s copy %d bytes from %d to %d", typeName(t), n, same ? "same" : "other", cnt, so, dof);
  unsigned char *ms = (unsigned char*)malloc(bytes), *md = same ? ms : (unsigned char*)malloc(bytes); Array *a = new Array(t, n), *b = same ? a : new Array(t, n); unsigned char *pa = (unsigned char*)a->Address(0), *pb = (unsigned char*)b->Address(0);
  for (int i = 0; i < bytes; i++) pa[i] = ms[i] = (unsigned char)(i * 11 + (i >> 8) * 3 + (i >> 16) * 57 + 1); if (!same) for (int i = 0; i < bytes; i++) pb[i] = md[i] = (unsigned char)(i * 7 + (i >> 8) * 5 + (i >> 16) * 57 + 2);
  EXPECT(Buffer::ByteLength(a) == bytes, "length", "byte length %d, expected %d", Buffer::ByteLength(a), bytes); int g = -1; Ex e = attempt([&] { g = Buffer::GetByte(a, so); }); expectEx(e, so < bytes ? EXBIT(OK_) : RANGE, "get", "get byte"); if (so < bytes) EXPECT(g == ms[so], "get", "byte %d read as %d, expected %d", so, g, ms[so]);
  Byte nv = 0x5A; e = attempt([&] { Buffer::SetByte(b, dof, nv); }); expectEx(e, dof < bytes ? EXBIT(OK_) : RANGE, "set", "set byte"); if (dof < bytes) md[dof] = nv;
  e = attempt([&] { Buffer::BlockCopy(a, so, b, dof, cnt); }); bool bad = (int64_t)so + cnt > bytes || (int64_t)dof + cnt > bytes; expectEx(e, bad ? RANGE : EXBIT(OK_), "copy", "block copy"); if (!bad) memmove(md + dof, ms + so, cnt);
  if (memcmp(ms, pa, bytes)) fail("copy/source", "wrong source content"); if (memcmp(md, pb, bytes)) fail("copy/destination", "wrong destination content (%d bytes from %d to %d of %d)", cnt, so, dof, bytes); state(mc::mix(mc::mix(t, n), mc::mix(so, mc::mix(dof, cnt)))); }

// ---- middle-sized arrays, offsets and counts of every magnitude
static int spot(int n) { int l[] = { 0, 1, 2, 3, 7, 8, n / 2, n - 8, n - 2, n - 1, n, n + 1 }, ok[12], k = 0; for (int i = 0; i < 12; i++) if (l[i] >= 0 && l[i] <= n + 1) { bool dup = false; for (int j = 0; j < k; j++) dup = dup || ok[j] == l[i]; if (!dup) ok[k++] = l[i]; } return ok[choose(k)]; }
struct Mid { Array* a; unsigned char *p, *m; int n, bytes; };
static Mid mid(DataType t, int n, int salt) { Mid s; s.n = n; s.bytes = n * sizeOf(t); s.a = new Array(t, n); s.p = n ? (unsigned char*)s.a->Address(0) : nullptr; s.m = (unsigned char*)malloc(s.bytes + 1); for (int i = 0; i < s.bytes; i++) s.p[i] = s.m[i] = (unsigned char)(i * 11 + (i >> 8) * 3 + (i >> 16) * 57 + salt * 37 + 1); return s; }
static void midIntact(const Mid& s, const char* key) { if (s.bytes && memcmp(s.m, s.p, s.bytes)) fail(key, "content of an array of %d elements differs from the byte image", s.n); }
SUITE(medium, 0, "arrays of 12 primitive types with 50 (thorough 76) lengths 0..384 (4097): byte length, get and set at 12 offsets, block copies of 12 counts between 12 x 6 offsets, same and different array") {
  DataType t = pick(prims); int n = ladder(0, thorough ? 4097 : 384); bool same = choose(2); Mid s = mid(t, n, 1), d = same ? s : mid(t, n, 5); int bytes = s.bytes; if (!thorough && t != ByteType && t != Int16Type && t != DoubleType && n % 3 && n > 24) mc::discard(); EXPECT(Buffer::ByteLength(s.a) == bytes, "length", "byte length %d, expected %d", Buffer::ByteLength(s.a), bytes); int so = spot(bytes), cnt = spot(bytes); NOTE("%s[%d] %s from %d, %d bytes", typeName(t), n, same ? "same" : "other", so, cnt);
  int g = -1; Ex e = attempt([&] { g = Buffer::GetByte(s.a, so); }); expectEx(e, so < bytes ? EXBIT(OK_) : RANGE, "get", "get byte"); if (so < bytes) EXPECT(g == s.m[so], "get", "byte %d read as %d, expected %d", so, g, s.m[so]); Byte nv = 0x5A; e = attempt([&] { Buffer::SetByte(d.a, cnt, nv); }); expectEx(e, cnt < bytes ? EXBIT(OK_) : RANGE, "set", "set byte"); if (cnt < bytes) d.m[cnt] = nv; midIntact(d, "set/content");
  int ds[] = { 0, 1, 5, bytes / 2, bytes - cnt, bytes - cnt + 1 }; for (int dof : ds) { if (dof < 0) continue; bool bad = so + cnt > bytes || dof + cnt > bytes; e = attempt([&] { Buffer::BlockCopy(s.a, so, d.a, dof, cnt); }); expectEx(e, bad ? RANGE : EXBIT(OK_), "copy", "block copy"); if (!bad) memmove(d.m + dof, s.m + so, cnt); midIntact(s, "copy/source"); midIntact(d, "copy/destination"); } state(mc::mix(mc::mix(t, n), mc::mix(so, mc::mix(cnt, same)))); }
SUITE(far_args, 0, "arrays of 4 primitive types with 0, 1, 5, 40 and 300 elements: get, set and block copy with an offset or count of 129 magnitudes of either sign in each place, alone and with each of 4 others") {
  DataType t = pick({ ByteType, Int16Type, Int32Type, DoubleType }); int n = pick({ 0, 1, 5, 40, 300 }), place = choose(3), x = farInts[choose(NFAR)]; Mid s = mid(t, n, 1), d = mid(t, n, 5); int bytes = s.bytes; NOTE("%s[%d], %d in place %d", typeName(t), n, x, place);
  if (!place) { int g = -1; bool in = x >= 0 && x < bytes; Ex e = attempt([&] { g = Buffer::GetByte(s.a, x); }); expectEx(e, in ? EXBIT(OK_) : RANGE, "get", "get byte"); if (in) EXPECT(g == s.m[x], "get", "byte %d", x); e = attempt([&] { Buffer::SetByte(s.a, x, 0xEE); }); expectEx(e, in ? EXBIT(OK_) : RANGE, "set", "set byte"); if (in) s.m[x] = 0xEE; midIntact(s, "set/content"); }
  for (int q = 0; q < 5; q++) { int o = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? bytes : q == 3 ? INT32_MAX : x, a[3] = { o, o == bytes ? 0 : o, o }; a[place] = x; bool bad = a[0] < 0 || a[1] < 0 || a[2] < 0 || (int64_t)a[0] + a[2] > bytes || (int64_t)a[1] + a[2] > bytes; Ex e = attempt([&] { Buffer::BlockCopy(s.a, a[0], d.a, a[1], a[2]); }); expectEx(e, bad ? RANGE : EXBIT(OK_), "copy", "block copy"); if (!bad) memmove(d.m + a[1], s.m + a[0], a[2]); midIntact(s, "copy/source"); midIntact(d, "copy/destination"); } state(mc::mix(mc::mix(t, n), mc::mix(place, (uint64_t)(uint32_t)x))); }

// ---- two arrays wrapped around one larger block, positions and counts past the width of a machine word
SUITE(wide_views, 0, "block copies between two arrays of 12 (thorough 12 x 12) primitive types wrapped around one 352-byte block, first positions 0, 4, 8 and 64 apart by 16 (thorough 44) distances to 72 either way, counts of 22 (thorough 40) magnitudes 0..256") {
  static const int few[] = { 0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 32, 64, 72 }; static const int cs[] = { 0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 40, 48, 64, 65, 128, 256 };
  DataType t = pick(prims), t2 = thorough ? pick(prims) : choose(2) ? (t == DoubleType ? ByteType : DoubleType) : t; int dist = thorough && choose(2) ? choose(44) : pick(few); bool back = choose(2); int cnt = thorough && choose(2) ? 1 + choose(40) : pick(cs), at = pick({ 0, 4, 8, 64 }), o1 = back ? dist : 0, o2 = back ? 0 : dist; bool inner = choose(2); // the distance lies in the wrapped addresses, or in the offsets as well
  NOTE("views %s at %d, %s at %d: copy %d bytes from and to %d%s", typeName(t), o1, typeName(t2), o2, cnt, at, inner ? ", 8 further for the source" : "");
  unsigned char* mem = (unsigned char*)malloc(480); unsigned char m[480]; for (int i = 0; i < 480; i++) m[i] = mem[i] = (unsigned char)(i * 29 + (i >> 8) * 7 + (i >> 16) * 57 + 3);
  Array* a = new Array(mem + o1, t, 352 / sizeOf(t)); Array* b = new Array(mem + o2, t2, 352 / sizeOf(t2)); int so = at + (inner ? 8 : 0);
  Ex e = attempt([&] { Buffer::BlockCopy(a, so, b, at, cnt); }); expectEx(e, EXBIT(OK_), "views", "block copy between views"); memmove(m + o2 + at, m + o1 + so, cnt);
  for (int i = 0; i < 480; i++) if (m[i] != mem[i]) fail("views/content", "byte %d of the shared block is %d, expected %d", i, mem[i], m[i]); step(); state(mc::mix(mc::hashBytes(m, 480), cnt)); }
