// P03: every shape x every index tuple around its limits, owned and wrapped storage.
#include "types.h"
static const int EXTREME[] = { INT32_MIN, -2, INT32_MAX };
static int dimsHi() { return thorough ? 4 : 3; }

struct Shape { DataType type; int rank, d[3]; bool wrapped; Array* a; char* mem; int total; };
static Shape makeShape(bool withZero) {
  Shape s; s.wrapped = choose(2); s.type = elemTypes[choose(NTYPES)]; s.rank = 1 + choose(3); s.total = 1; s.mem = nullptr;
  for (int i = 0; i < 3; i++) { s.d[i] = -1; if (i < s.rank) { s.d[i] = 1 + choose(dimsHi() + (withZero ? 1 : 0)); if (s.d[i] == dimsHi() + 1) s.d[i] = 0; s.total *= s.d[i]; } }
  NOTE("%s array of %s, rank %d, %d x %d x %d", s.wrapped ? "wrapped" : "new", typeName(s.type), s.rank, s.d[0], s.d[1], s.d[2]);
  if (s.wrapped) {
    s.mem = (char*)malloc((size_t)s.total * sizeOf(s.type)); for (int i = 0; i < s.total * sizeOf(s.type); i++) s.mem[i] = (char)(i * 7 + 1);
    s.a = s.rank == 1 ? new Array(s.mem, s.type, s.d[0]) : s.rank == 2 ? new Array(s.mem, s.type, s.d[0], s.d[1]) : new Array(s.mem, s.type, s.d[0], s.d[1], s.d[2]);
  } else s.a = s.rank == 1 ? new Array(s.type, s.d[0]) : s.rank == 2 ? new Array(s.type, s.d[0], s.d[1]) : new Array(s.type, s.d[0], s.d[1], s.d[2]);
  return s;
}
static void* addr(Array* a, int r, const int* ix) { return r == 1 ? a->Address(ix[0]) : r == 2 ? a->Address(ix[0], ix[1]) : a->Address(ix[0], ix[1], ix[2]); }
static Object* get(Array* a, int r, const int* ix) { return r == 1 ? a->GetValue(ix[0]) : r == 2 ? a->GetValue(ix[0], ix[1]) : a->GetValue(ix[0], ix[1], ix[2]); }

SUITE(addressing, 0, "16 element types x owned/wrapped x rank 1..3 x dimension sizes 0..3 (thorough 0..4) x every index from -2 to size+1 in every dimension, plus extreme indexes") {
  Shape s = makeShape(true); int sz = sizeOf(s.type); Array* a = s.a;
  int cand[3][16], nc[3];
  for (int i = 0; i < 3; i++) { nc[i] = 0; if (i < s.rank) { for (int v = -2; v <= s.d[i] + 1; v++) cand[i][nc[i]++] = v; cand[i][nc[i]++] = INT32_MIN; cand[i][nc[i]++] = INT32_MAX; } else cand[i][nc[i]++] = -1; }
  char* base = nullptr; int zero[3] = { 0, 0, 0 };
  if (s.total > 0) {
    Ex e = attempt([&] { base = (char*)addr(a, s.rank, zero); });
    EXPECT(e == OK_ && base, "address/first", "address of the first element raised %s", exName(e));
    EXPECT(!s.wrapped || base == s.mem, "address/wrapped", "first element of the wrapped array is not the platform memory");
    EXPECT(mc::ownsMemory(base, (size_t)s.total * sz), "address/storage", "storage smaller than the element count");
    if (!s.wrapped) for (int i = 0; i < s.total * sz; i++) EXPECT(base[i] == 0, "new-not-zeroed", "byte %d of a new array is %d", i, base[i]);
  }
  int ix[3];
  for (int i = 0; i < nc[0]; i++) for (int j = 0; j < nc[1]; j++) for (int k = 0; k < nc[2]; k++) {
    ix[0] = cand[0][i]; ix[1] = cand[1][j]; ix[2] = cand[2][k];
    bool in = true; for (int q = 0; q < s.rank; q++) in = in && ix[q] >= 0 && ix[q] < s.d[q];
    void* p = nullptr; Ex e = attempt([&] { p = addr(a, s.rank, ix); });
    if (!in) { EXPECT(e == xIndexOutOfRange, "address/out-of-range", "[%d,%d,%d] gave %s, expected IndexOutOfRange", ix[0], ix[1], ix[2], exName(e)); }
    else {
      int lin = ix[0]; if (s.rank > 1) lin = lin * s.d[1] + ix[1]; if (s.rank > 2) lin = lin * s.d[2] + ix[2];
      EXPECT(e == OK_, "address/in-range", "[%d,%d,%d] raised %s", ix[0], ix[1], ix[2], exName(e));
      EXPECT((char*)p == base + (size_t)lin * sz, "address/row-major", "[%d,%d,%d] is at byte %ld, expected %d", ix[0], ix[1], ix[2], (long)((char*)p - base), lin * sz);
    }
    if (!in) { Object* o; Ex e2 = attempt([&] { o = get(a, s.rank, ix); }); EXPECT(e2 == xIndexOutOfRange, "get/out-of-range", "boxed get [%d,%d,%d] gave %s", ix[0], ix[1], ix[2], exName(e2)); }
    state(mc::mix(mc::mix(s.type * 64 + s.rank, (uint64_t)(s.d[0] * 36 + s.d[1] * 6 + s.d[2])), (uint64_t)(e * 1000003LL + (in ? (char*)p - base : -1))));
  }
}
SUITE(wrong_rank, 0, "all types x ranks 1..3, every number of indexes other than the rank") {
  Shape s = makeShape(false); Array* a = s.a;
  for (int given = 1; given <= 3; given++) if (given != s.rank) for (int v = 0; v < 2; v++) {
    int ix[3] = { v, v, v }; void* p; Ex e = attempt([&] { p = addr(a, given, ix); });
    EXPECT(e == xIndexOutOfRange || e == xRank || e == xArgument, "rank/address", "%d indexes on rank %d gave %s", given, s.rank, exName(e));
    Object* o; e = attempt([&] { o = get(a, given, ix); });
    EXPECT(e == xIndexOutOfRange || e == xRank || e == xArgument, "rank/get", "boxed get with %d indexes on rank %d gave %s", given, s.rank, exName(e));
    state(mc::mix(s.rank * 16 + given * 4 + v, e));
  }
}
SUITE(shape_queries, 0, "all types x owned/wrapped x rank 1..3 x sizes 0..3 (thorough 0..4) x dimension numbers -2..4 and extremes") {
  Shape s = makeShape(true); Array* a = s.a;
  EXPECT(a->get_Length() == s.total, "length", "length %d, expected %d", a->get_Length(), s.total);
  EXPECT(a->get_Rank() == s.rank, "rank", "rank %d, expected %d", a->get_Rank(), s.rank);
  EXPECT(a->GetElementType() == s.type, "element-type", "element type %s", typeName(a->GetElementType()));
  EXPECT(a->GetRawDataType() == ObjectType, "raw-type", "raw type %s", typeName(a->GetRawDataType()));
  static const int ks[] = { INT32_MIN, -2, -1, 0, 1, 2, 3, 4, INT32_MAX };
  for (int k : ks) {
    bool in = k >= 0 && k < s.rank; Int32 len = -7, lo = -7, hi = -7;
    Ex e1 = attempt([&] { len = a->GetLength(k); }), e2 = attempt([&] { lo = a->GetLowerBound(k); }), e3 = attempt([&] { hi = a->GetUpperBound(k); });
    if (in) { EXPECT(e1 == OK_ && len == s.d[k], "query/length", "GetLength(%d) = %d (%s), expected %d", k, len, exName(e1), s.d[k]); EXPECT(e2 == OK_ && lo == 0, "query/lower", "GetLowerBound(%d) = %d (%s)", k, lo, exName(e2)); EXPECT(e3 == OK_ && hi == s.d[k] - 1, "query/upper", "GetUpperBound(%d) = %d (%s), expected %d", k, hi, exName(e3), s.d[k] - 1); }
    else { EXPECT(e1 == xIndexOutOfRange, "query/length-bad", "GetLength(%d) on rank %d gave %d, %s", k, s.rank, len, exName(e1)); EXPECT(e2 == xIndexOutOfRange, "query/lower-bad", "GetLowerBound(%d) on rank %d gave %d, %s", k, s.rank, lo, exName(e2)); EXPECT(e3 == xIndexOutOfRange, "query/upper-bad", "GetUpperBound(%d) on rank %d gave %d, %s", k, s.rank, hi, exName(e3)); }
    state(mc::mix(mc::mix(s.rank, (uint64_t)(uint32_t)k), mc::mix(len, hi)));
  }
}
SUITE(distinct_elements, 0, "all types x owned/wrapped x rank 1..3 x sizes 1..3 (thorough 1..4): write each element in turn, every other element keeps its bytes; initialise from raw data; reclaim") {
  Shape s = makeShape(false); Array* a = s.a; int sz = sizeOf(s.type);
  static char model[8 * 64 * 2], init[8 * 64 * 2];
  for (int i = 0; i < s.total * sz; i++) model[i] = s.wrapped ? s.mem[i] : 0;
  int order = choose(2); // forward, backward
  NOTE("write every element %s", order ? "backward" : "forward");
  char* base = nullptr;
  for (int t = 0; t < s.total; t++) {
    int lin = order ? s.total - 1 - t : t, ix[3] = { 0, 0, 0 };
    if (s.rank == 1) ix[0] = lin; else if (s.rank == 2) { ix[0] = lin / s.d[1]; ix[1] = lin % s.d[1]; } else { ix[0] = lin / (s.d[1] * s.d[2]); ix[1] = lin / s.d[2] % s.d[1]; ix[2] = lin % s.d[2]; }
    char* p = (char*)addr(a, s.rank, ix); for (int b = 0; b < sz; b++) p[b] = model[lin * sz + b] = (char)(lin * 31 + b * 5 + 3);
    int z[3] = { 0, 0, 0 }; base = (char*)addr(a, s.rank, z);
    EXPECT(!memcmp(base, model, s.total * sz), "write/others", "writing element %d changed another element", lin);
    state(mc::mix(mc::hashBytes(model, s.total * sz), s.rank));
  }
  for (int i = 0; i < s.total * sz; i++) init[i] = (char)(i * 13 + 5);
  char* raw = (char*)malloc(s.total * sz); memcpy(raw, init, s.total * sz);
  Array* r = a->Initialize(raw);
  EXPECT(r == a, "initialize/result", "initialise does not return the array");
  EXPECT(!memcmp(base, init, s.total * sz) && !memcmp(raw, init, s.total * sz), "initialize/content", "initialise did not copy the raw data");
  if (!s.wrapped) { delete a; step(); }
}
SUITE(bad_sizes, 0, "all types, a negative size in each dimension of rank 1..3") {
  DataType t = elemTypes[choose(NTYPES)]; int rank = 1 + choose(3), which = choose(rank), neg = -2 - choose(3); if (which == 0 && neg == -4) neg = INT32_MIN; if (which == 0 && neg == -3) neg = -1;
  int d[3] = { 2, 2, 2 }; d[which] = neg; NOTE("new array of %s rank %d sizes %d %d %d", typeName(t), rank, d[0], d[1], d[2]);
  Ex e = attempt([&] { Array* a = rank == 1 ? new Array(t, d[0]) : rank == 2 ? new Array(t, d[0], d[1]) : new Array(t, d[0], d[1], d[2]); (void)a; });
  EXPECT(e != OK_, "negative-size", "a negative size is accepted"); state(mc::mix(t, e));
}
SUITE(huge, 0, "creating arrays whose element or byte count exceeds the integer range: 16 element types x sizes {0,1,3,2^15,2^16,2^28,2^29,2^31-1} per dimension: only shapes that cannot fit, or are empty") {
  DataType t = elemTypes[choose(NTYPES)]; static const int sz[] = { 0, 1, 3, 1 << 15, 1 << 16, 1 << 28, 1 << 29, INT32_MAX }; int rank = 1 + choose(3), d[3] = { 0, -1, -1 }; __int128 n = 1; bool empty = false;
  for (int i = 0; i < rank; i++) { d[i] = pick(sz); n *= d[i]; empty = empty || !d[i]; }
  if (!empty && n * sizeOf(t) <= INT32_MAX) mc::discard();
  NOTE("%s[%d,%d,%d]", typeName(t), d[0], d[1], d[2]); Array* a = nullptr; Ex e = attempt([&] { a = new Array(t, d[0], d[1], d[2]); });
  if (empty) { expectEx(e, EXBIT(OK_), "huge/empty", "creating an empty array"); EXPECT(a->get_Length() == 0, "huge/empty", "length %d", a->get_Length()); Ex e2 = attempt([&] { a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1); }); expectEx(e2, EXBIT(xIndexOutOfRange), "huge/empty", "indexing an empty array"); }
  else expectEx(e, ANYERR, "huge/create", "creating an array that cannot fit"); state(mc::mix(mc::mix(t, e), mc::mix(d[0], mc::mix(d[1], d[2]))));
}

// ---- sizes that do not fit a byte or a 16-bit number
static const int BIG[][3] = { { 255, -1, -1 }, { 256, -1, -1 }, { 257, -1, -1 }, { 1000, -1, -1 }, { 4097, -1, -1 }, { 32767, -1, -1 }, { 32769, -1, -1 }, { 65535, -1, -1 }, { 65536, -1, -1 }, { 65537, -1, -1 }, { 131073, -1, -1 },
  { 2, 257, -1 }, { 257, 2, -1 }, { 256, 256, -1 }, { 255, 257, -1 }, { 2, 32769, -1 }, { 32769, 2, -1 }, { 1, 65537, -1 }, { 65537, 1, -1 }, { 2, 3, 257 }, { 257, 3, 2 }, { 3, 257, 2 }, { 41, 41, 41 }, { 2, 2, 16385 }, { 16385, 2, 2 }, { 2, 16385, 2 }, { 1, 1, 65537 }, { 129, 1, 257 }, { 2, 40000, 3 }, { 40000, 3, 2 }, { 3, 5, 32769 }, { 2, 65537, 2 }, { 300, 300, 3 } };
static int edges(int n, int* out) { static const int c[] = { -1, 0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 4095, 4096, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 131072, 131073, INT32_MAX, INT32_MIN, 1 << 16, 1 << 24, -65536, -256, -255, -65535 }; int k = 0; for (int v : c) out[k++] = v; for (int d = -2; d <= 1; d++) out[k++] = n + d; out[k++] = n / 2; return k; }
SUITE(large, 0, "16 element types x owned/wrapped x 33 shapes with sizes and products around 256, 32768 and 65536 x every index combination from 41 values around those limits: address, boxed get, zeroed storage, queries, initialise") {
  DataType t = elemTypes[choose(NTYPES)]; bool wrapped = choose(2); int q = choose(33); const int* d = BIG[q]; int rank = d[1] < 0 ? 1 : d[2] < 0 ? 2 : 3, total = d[0] * (rank > 1 ? d[1] : 1) * (rank > 2 ? d[2] : 1), sz = sizeOf(t); NOTE("%s %s[%d,%d,%d]", wrapped ? "wrapped" : "new", typeName(t), d[0], d[1], d[2]);
  char* mem = wrapped ? (char*)malloc((size_t)total * sz) : nullptr; if (mem) memset(mem, 0, (size_t)total * sz);
  Array* a = wrapped ? (rank == 1 ? new Array(mem, t, d[0]) : rank == 2 ? new Array(mem, t, d[0], d[1]) : new Array(mem, t, d[0], d[1], d[2])) : rank == 1 ? new Array(t, d[0]) : rank == 2 ? new Array(t, d[0], d[1]) : new Array(t, d[0], d[1], d[2]);
  int z[3] = { 0, 0, 0 }; char* base = (char*)addr(a, rank, z); EXPECT(mc::ownsMemory(base, (size_t)total * sz), "address/storage", "storage smaller than the element count"); for (int i = 0; i < total * sz; i++) if (base[i]) fail("new-not-zeroed", "byte %d of a new array is %d", i, base[i]);
  EXPECT(a->get_Length() == total && a->get_Rank() == rank, "length", "length %d rank %d", a->get_Length(), a->get_Rank()); for (int k = 0; k < rank; k++) EXPECT(a->GetLength(k) == d[k] && a->GetUpperBound(k) == d[k] - 1 && a->GetLowerBound(k) == 0, "query/length", "dimension %d: %d..%d length %d", k, a->GetLowerBound(k), a->GetUpperBound(k), a->GetLength(k));
  int c[3][64], n[3] = { 1, 1, 1 }; c[1][0] = c[2][0] = -1; for (int k = 0; k < rank; k++) { n[k] = edges(d[k], c[k]); if (rank == 3) { int m = 0; for (int i = 0; i < n[k]; i++) if (c[k][i] >= -1 && c[k][i] <= d[k] + 1 || i < 9 || i == n[k] - 1 || c[k][i] == 65536 || c[k][i] == INT32_MIN) c[k][m++] = c[k][i]; n[k] = m; } }
  for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) { int ix[3] = { c[0][i], c[1][j], c[2][k] }; bool in = true; for (int w = 0; w < rank; w++) in = in && ix[w] >= 0 && ix[w] < d[w];
    void* p = nullptr; Ex e = attempt([&] { p = addr(a, rank, ix); }); step(); if (!in) { if (e != xIndexOutOfRange) fail("address/out-of-range", "[%d,%d,%d] gave %s, expected IndexOutOfRange", ix[0], ix[1], ix[2], exName(e)); continue; }
    long lin = ix[0]; if (rank > 1) lin = lin * d[1] + ix[1]; if (rank > 2) lin = lin * d[2] + ix[2]; if (e != OK_ || (char*)p != base + lin * sz) fail("address/row-major", "[%d,%d,%d] is at byte %ld (%s), expected %ld", ix[0], ix[1], ix[2], (long)((char*)p - base), exName(e), lin * sz); }
  char* raw = (char*)malloc((size_t)total * sz); for (int i = 0; i < total * sz; i++) raw[i] = (char)(i * 13 + (i >> 8) * 7 + (i >> 16) * 57 + 5); a->Initialize(raw); if (memcmp(raw, base, (size_t)total * sz)) fail("initialize/content", "initialise did not copy the raw data of %d elements", total); step(); state(mc::mix(mc::mix(t, q), wrapped)); if (!wrapped) delete a; }

// ---- middle-sized shapes, arguments of every magnitude, index arrays of any length
SUITE(medium, 0, "7 element types x owned/wrapped x rank 1..3 with one size of 62 (thorough 85) lengths 0..1025 (10000) in each place and small ones beside it: every element addressed (above 700: the edges of every group of 16), every one of 36 far indexes in each place, zeroed storage, queries") {
  DataType t = pick({ ByteType, CharType, Int16Type, Int32Type, Int64Type, StringType, DoubleType }); bool wrapped = choose(2); int rank = 1 + choose(3), at = choose(rank), n = ladder(0, thorough ? 10000 : 1025), o = rank > 1 ? 1 + choose(3) : 1, d[3] = { -1, -1, -1 }, total = 1, sz = sizeOf(t); for (int i = 0; i < rank; i++) { d[i] = i == at ? n : o + (i > at ? 0 : rank > 2 && i == 0); total *= d[i]; } if (thorough ? 0 : n > 300 && wrapped && rank > 1) mc::discard(); NOTE("%s %s[%d,%d,%d]", wrapped ? "wrapped" : "new", typeName(t), d[0], d[1], d[2]);
  char* mem = wrapped ? (char*)malloc((size_t)total * sz) : nullptr; if (mem) memset(mem, 0, (size_t)total * sz); Array* a = wrapped ? (rank == 1 ? new Array(mem, t, d[0]) : rank == 2 ? new Array(mem, t, d[0], d[1]) : new Array(mem, t, d[0], d[1], d[2])) : rank == 1 ? new Array(t, d[0]) : rank == 2 ? new Array(t, d[0], d[1]) : new Array(t, d[0], d[1], d[2]);
  EXPECT(a->get_Length() == total && a->get_Rank() == rank, "length", "length %d rank %d", a->get_Length(), a->get_Rank()); for (int k = 0; k < rank; k++) EXPECT(a->GetLength(k) == d[k] && a->GetUpperBound(k) == d[k] - 1 && a->GetLowerBound(k) == 0, "query/length", "dimension %d: %d..%d length %d", k, a->GetLowerBound(k), a->GetUpperBound(k), a->GetLength(k));
  int z[3] = { 0, 0, 0 }; char* base = total ? (char*)addr(a, rank, z) : nullptr; if (total) EXPECT(mc::ownsMemory(base, (size_t)total * sz), "address/storage", "storage smaller than the element count"); for (int i = 0; i < total * sz; i++) if (base[i]) fail("new-not-zeroed", "byte %d of a new array is %d", i, base[i]);
  int dd[3] = { d[0], rank > 1 ? d[1] : 1, rank > 2 ? d[2] : 1 }, lin = 0; for (int i = 0; i < dd[0]; i++) for (int j = 0; j < dd[1]; j++) for (int k = 0; k < dd[2]; k++, lin++) { int v = at == 0 ? i : at == 1 ? j : k; if (n > 700 && v % 16 > 1 && v % 16 < 15 && v != n - 1) continue; int ix[3] = { i, j, k }; void* p = nullptr; Ex e = attempt([&] { p = addr(a, rank, ix); }); step(); if (e != OK_ || (char*)p != base + (size_t)lin * sz) fail("address/row-major", "[%d,%d,%d] is at byte %ld (%s), expected %d", i, j, k, (long)((char*)p - base), exName(e), lin * sz); }
  for (int w = 0; w < rank; w++) for (int q = -1; q < 36; q++) { int v = q < 0 ? d[w] : farInts[(q * NFAR + w * 7) / 36 % NFAR]; if (v >= 0 && v < d[w]) continue; int ix[3] = { 0, 0, 0 }; ix[w] = v; Ex e = attempt([&] { addr(a, rank, ix); }), e2 = attempt([&] { get(a, rank, ix); }); step(); if (e != xIndexOutOfRange || e2 != xIndexOutOfRange) fail("address/out-of-range", "[%d,%d,%d] gave %s, %s", ix[0], ix[1], ix[2], exName(e), exName(e2)); }
  state(mc::mix(mc::mix(t, n), mc::mix(rank * 4 + at, o))); if (!wrapped) delete a; }
SUITE(far_args, 0, "rank 1..3 arrays of 5 types and 4 shapes: an index of 129 magnitudes of either sign in each place and in two places at once, dimension numbers of the same magnitudes, boxed get and set, and sizes of the same magnitudes below zero") {
  DataType t = pick({ ByteType, Int32Type, DoubleType, ObjectType, CharType }); int rank = 1 + choose(3), sh = choose(4), x = farInts[choose(NFAR)]; static const int ds[4][3] = { { 1, 1, 1 }, { 3, 2, 4 }, { 40, 3, 9 }, { 5, 70, 2 } }; const int* d = ds[sh]; Array* a = rank == 1 ? new Array(t, d[0]) : rank == 2 ? new Array(t, d[0], d[1]) : new Array(t, d[0], d[1], d[2]); int total = a->get_Length(), sz = sizeOf(t), z[3] = { 0, 0, 0 }; char* base = (char*)addr(a, rank, z); memset(base, 0, (size_t)total * sz); NOTE("%s rank %d shape %d, %d", typeName(t), rank, sh, x);
  Object* v = t == ByteType ? (Object*)new ByteValue(1) : t == Int32Type ? (Object*)new Int32Value(1) : t == DoubleType ? (Object*)new DoubleValue(1) : t == CharType ? (Object*)new CharValue(L'c') : new Object();
  for (int w = 0; w < rank; w++) for (int u = w; u < rank; u++) { int ix[3] = { 0, 0, 0 }; ix[w] = x; if (u != w) ix[u] = x > 0 ? x : d[u] - 1; bool in = true; long lin = 0; for (int i = 0; i < rank; i++) { in = in && ix[i] >= 0 && ix[i] < d[i]; lin = lin * d[i] + ix[i]; } void* p = nullptr; Ex e = attempt([&] { p = addr(a, rank, ix); }), g = attempt([&] { get(a, rank, ix); }), s = OK_;
    if (in) { EXPECT(e == OK_ && (char*)p == base + lin * sz, "address/row-major", "[%d,%d,%d] %s", ix[0], ix[1], ix[2], exName(e)); expectEx(g, EXBIT(OK_), "far/get", "boxed get"); } else { expectEx(e, EXBIT(xIndexOutOfRange), "address/out-of-range", "address outside"); expectEx(g, EXBIT(xIndexOutOfRange), "get/out-of-range", "boxed get outside"); s = attempt([&] { rank == 1 ? a->SetValue(v, ix[0]) : rank == 2 ? a->SetValue(v, ix[0], ix[1]) : a->SetValue(v, ix[0], ix[1], ix[2]); }); expectEx(s, EXBIT(xIndexOutOfRange), "set/out-of-range", "boxed set outside"); } }
  { bool in = x >= 0 && x < rank; expectEx(attempt([&] { a->GetLength(x); }), in ? EXBIT(OK_) : EXBIT(xIndexOutOfRange), "query/length-bad", "GetLength"); expectEx(attempt([&] { a->GetLowerBound(x); }), in ? EXBIT(OK_) : EXBIT(xIndexOutOfRange), "query/lower-bad", "GetLowerBound"); expectEx(attempt([&] { a->GetUpperBound(x); }), in ? EXBIT(OK_) : EXBIT(xIndexOutOfRange), "query/upper-bad", "GetUpperBound"); }
  { int ix[3] = { x, x, x }; Array* l = new Array(Int32Type, rank); for (int w = 0; w < rank; w++) { for (int i = 0; i < rank; i++) *(Int32*)l->Address(i) = i == w ? x : 0; bool in = x >= 0 && x < d[w]; expectEx(attempt([&] { a->GetValue(l); }), in ? EXBIT(OK_) : EXBIT(xIndexOutOfRange), "far/get-array", "boxed get through an index array"); if (!in) expectEx(attempt([&] { a->SetValue(v, l); }), EXBIT(xIndexOutOfRange), "far/set-array", "boxed set through an index array"); } (void)ix; }
  if (x < -1) for (int w = 0; w < rank; w++) { int n[3] = { 2, 2, 2 }; n[w] = x; expectEx(attempt([&] { Array* b = rank == 1 ? new Array(t, n[0]) : rank == 2 ? new Array(t, n[0], n[1]) : new Array(t, n[0], n[1], n[2]); (void)b; }), ANYERR, "negative-size", "a negative size"); }
  for (int i = 0; i < total * sz; i++) if (base[i]) fail("far/changed", "byte %d changed", i); state(mc::mix(mc::mix(t, rank * 4 + sh), (uint64_t)(uint32_t)x)); }
SUITE(index_arrays, 0, "rank 1..3 arrays indexed through index arrays of 62 lengths 0..1025: only as many indexes as the rank are accepted") {
  DataType t = pick({ ByteType, Int32Type, ObjectType }); int rank = 1 + choose(3), n = ladder(0, 1025), fill = choose(3); Array* a = rank == 1 ? new Array(t, 3) : rank == 2 ? new Array(t, 3, 2) : new Array(t, 3, 2, 2); Array* l = new Array(Int32Type, n); for (int i = 0; i < n; i++) *(Int32*)l->Address(i) = fill == 2 ? (i < rank ? 1 : i) : fill; Object* v = t == ByteType ? (Object*)new ByteValue(7) : (Object*)new Int32Value(7); NOTE("%s rank %d, %d indexes of %d", typeName(t), rank, n, fill); Object* r = nullptr; Ex s = attempt([&] { a->SetValue(v, l); }), g = attempt([&] { r = a->GetValue(l); }); expectEx(s, n == rank ? EXBIT(OK_) : ANYERR, "index-array/set", "boxed set"); expectEx(g, n == rank ? EXBIT(OK_) : ANYERR, "index-array/get", "boxed get"); if (n == rank) EXPECT(r && r->Equals(v), "index-array/value", "value read back"); state(mc::mix(mc::mix(t, rank), n)); }

// ---- two arrays that live one after the other at the same address
static Array* makeAt(void* at, DataType t, int r, const int* d) { return r == 1 ? new (at) Array(t, d[0]) : r == 2 ? new (at) Array(t, d[0], d[1]) : new (at) Array(t, d[0], d[1], d[2]); }
SUITE(same_address, 0, "4 x 4 element types, every pair of shapes of rank 1..3 with sizes 1..3 (rank 3: 1..2; thorough 1..3), the second array made where the first one was: the first asked for one element (each in turn), the second for the same indexes, then for every element and every index just outside, and its queries") {
  alignas(Array) static char place[sizeof(Array)]; DataType ts[] = { ByteType, Int32Type, DoubleType, ObjectType }, t1 = pick(ts), t2 = pick(ts); if (!thorough && t1 != t2 && t1 != ByteType && t2 != ByteType) mc::discard();
  int r[2], d[2][3]; for (int q = 0; q < 2; q++) { r[q] = 1 + choose(3); for (int i = 0; i < 3; i++) d[q][i] = i < r[q] ? 1 + choose(r[q] == 3 && !thorough ? 2 : 3) : 1; } int f[3] = { 0, 0, 0 }; for (int i = 0; i < r[0]; i++) f[i] = choose(d[0][i]);
  NOTE("%s rank %d %dx%dx%d, element %d,%d,%d, then %s rank %d %dx%dx%d there", typeName(t1), r[0], d[0][0], d[0][1], d[0][2], f[0], f[1], f[2], typeName(t2), r[1], d[1][0], d[1][1], d[1][2]);
  Array* a = makeAt(place, t1, r[0], d[0]); addr(a, r[0], f); if (t1 != ObjectType) get(a, r[0], f); a->get_Length(); a->~Array(); memset(place, 0x55, sizeof place);
  Array* b = makeAt(place, t2, r[1], d[1]); int sz = sizeOf(t2), z[3] = { 0, 0, 0 }, *n = d[1]; bool askFirst = true; char *base = nullptr, *early = nullptr; for (int i = 0; i < r[1]; i++) askFirst = askFirst && f[i] < n[i]; for (int i = r[1]; i < 3; i++) f[i] = 0;
  if (askFirst) early = (char*)addr(b, r[1], f); else expectEx(attempt([&] { addr(b, r[1], f); }), EXBIT(xIndexOutOfRange), "address/out-of-range", "the element of the first array, outside the second"); base = (char*)addr(b, r[1], z);
  if (early) EXPECT(early == base + (size_t)((f[0] * (r[1] > 1 ? n[1] : 1) + f[1]) * (r[1] > 2 ? n[2] : 1) + f[2]) * sz, "address/row-major", "[%d,%d,%d] is at byte %ld", f[0], f[1], f[2], (long)(early - base));
  EXPECT(b->get_Length() == n[0] * n[1] * n[2] && b->get_Rank() == r[1] && b->GetElementType() == t2, "length", "length %d rank %d", b->get_Length(), b->get_Rank()); for (int i = 0; i < r[1]; i++) EXPECT(b->GetLength(i) == n[i] && b->GetUpperBound(i) == n[i] - 1, "query/length", "GetLength(%d) = %d", i, b->GetLength(i));
  for (int i = 0; i <= n[0]; i++) for (int j = 0; j <= (r[1] > 1 ? n[1] : 0); j++) for (int k = 0; k <= (r[1] > 2 ? n[2] : 0); k++) { int ix[3] = { i, j, k }; bool in = i < n[0] && (r[1] < 2 || j < n[1]) && (r[1] < 3 || k < n[2]); void* p = nullptr; Ex e = attempt([&] { p = addr(b, r[1], ix); }); int lin = i; if (r[1] > 1) lin = lin * n[1] + j; if (r[1] > 2) lin = lin * n[2] + k;
    if (in) EXPECT(e == OK_ && p == base + (size_t)lin * sz, "address/row-major", "[%d,%d,%d] %s at byte %ld, expected %d", i, j, k, exName(e), (long)((char*)p - base), lin * sz); else EXPECT(e == xIndexOutOfRange, "address/out-of-range", "[%d,%d,%d] gave %s", i, j, k, exName(e)); }
  step(); state(mc::mix(mc::mix(t1 * 32 + t2, r[0] * 4 + r[1]), mc::hashBytes(d, sizeof d))); }
