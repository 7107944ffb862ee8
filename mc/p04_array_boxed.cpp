// P04: boxed element get and set, all (element type, boxed value) pairs at all positions.
#include "values.h"
struct Box { Object* o; V v; DataType t; }; // t: boxed type, ObjectType for a plain object, NullType for null
static Box chooseBox() {
  Box b; int k = choose(NSCALAR + 4);
  if (k < NSCALAR) { b.v = chooseBoundary(scalarTypes[k]); b.o = box(b.v); b.t = b.v.t; NOTE("value %s", showV(b.v)); }
  else if (k == NSCALAR) { b.o = mk(L"txt"); b.t = StringType; NOTE("value String \"txt\""); }
  else if (k == NSCALAR + 1) { b.o = new Object(); b.t = ObjectType; NOTE("value Object"); }
  else if (k == NSCALAR + 2) { b.o = new Array(Int32Type, 2); b.t = ObjectType; NOTE("value Array"); }
  else { b.o = nullptr; b.t = NullType; NOTE("value null"); }
  return b;
}
struct A3 { Array* a; DataType t; int rank, d[3], total, ix[3], lin; char* base; };
static A3 chooseArray() {
  A3 s; s.t = elemTypes[choose(NTYPES)]; s.rank = 1 + choose(3); s.total = 1; s.lin = 0;
  static const int sizes[3][3] = { { 3, -1, -1 }, { 2, 2, -1 }, { 2, 1, 2 } };
  for (int i = 0; i < 3; i++) { s.d[i] = sizes[s.rank - 1][i]; if (i < s.rank) { s.total *= s.d[i]; s.ix[i] = choose(s.d[i]); s.lin = s.lin * s.d[i] + s.ix[i]; } else s.ix[i] = -1; }
  s.a = s.rank == 1 ? new Array(s.t, s.d[0]) : s.rank == 2 ? new Array(s.t, s.d[0], s.d[1]) : new Array(s.t, s.d[0], s.d[1], s.d[2]);
  s.base = (char*)s.a->Address(0, s.rank > 1 ? 0 : -1, s.rank > 2 ? 0 : -1);
  NOTE("array of %s rank %d, element [%d,%d,%d]", typeName(s.t), s.rank, s.ix[0], s.ix[1], s.ix[2]); return s;
}
static Array* indexArray(const A3& s) { Array* x = new Array(Int32Type, s.rank); for (int i = 0; i < s.rank; i++) *(Int32*)x->Address(i) = s.ix[i]; return x; }
static Object* getAt(A3& s, int form) {
  if (form) return s.a->GetValue(indexArray(s));
  return s.rank == 1 ? s.a->GetValue(s.ix[0]) : s.rank == 2 ? s.a->GetValue(s.ix[0], s.ix[1]) : s.a->GetValue(s.ix[0], s.ix[1], s.ix[2]);
}
static void setAt(A3& s, int form, Object* v) {
  if (form) s.a->SetValue(v, indexArray(s));
  else if (s.rank == 1) s.a->SetValue(v, s.ix[0]); else if (s.rank == 2) s.a->SetValue(v, s.ix[0], s.ix[1]); else s.a->SetValue(v, s.ix[0], s.ix[1], s.ix[2]);
}
SUITE(store_and_load, 0, "16 element types x rank 1..3 x every position x every boundary value of 14 boxed types, string, object, array, null x direct or index-array form") {
  A3 s = chooseArray(); Box b = chooseBox(); int form = choose(2); int sz = sizeOf(s.t), bytes = s.total * sz;
  if (form) NOTE("through an index array");
  bool ref = s.t == ObjectType || s.t == StringType;
  static char model[400], want[16]; String* filler = ref ? new String(L"old") : nullptr;
  for (int i = 0; i < s.total; i++) { if (ref) ((Object**)s.base)[i] = filler; else for (int k = 0; k < sz; k++) s.base[i * sz + k] = (char)((s.t == BooleanType) ? (i & 1) : (s.t == CharType && k > 1) ? 0 : i * 9 + k + 17); }
  memcpy(model, s.base, bytes);
  Ex e = attempt([&] { setAt(s, form, b.o); });
  step();
  // which outcomes are right
  bool stored = e == OK_;
  if (ref) {
    bool fits = b.t == NullType || b.t == StringType || s.t == ObjectType;
    if (fits) { if (!stored) fail("set/reference", "storing a matching reference in an array of %s raised %s", typeName(s.t), exName(e)); memcpy(want, &b.o, 8); }
    else if (e != xInvalidCast) fail("set/wrong-reference", "storing %s in an array of String gave %s, expected InvalidCast", b.t == ObjectType ? "an object" : showV(b.v), exName(e));
  } else if (b.t == NullType) { // the default value, or an error
    if (stored) memset(want, 0, 8);
  } else if (b.t == StringType || b.t == ObjectType) { if (e != xInvalidCast) fail("set/object-in-value-array", "storing a reference in an array of %s gave %s", typeName(s.t), exName(e)); }
  else {
    if (widens(b.t, s.t) && !stored) fail("set/widening", "storing %s in an array of %s raised %s", showV(b.v), typeName(s.t), exName(e));
    if (!converts(b.t, s.t) && !(isFloat(b.t) && isInt(s.t)) && e != xInvalidCast) fail("set/no-conversion", "storing %s in an array of %s gave %s, expected InvalidCast", showV(b.v), typeName(s.t), exName(e));
    if (!stored && e != xInvalidCast) fail("set/kind", "storing %s in an array of %s raised %s", showV(b.v), typeName(s.t), exName(e));
    if (stored && !castBits(b.v, s.t, want)) memcpy(want, s.base + s.lin * sz, sz); // undefined cast: any value
  }
  if (stored) memcpy(model + s.lin * sz, want, sz);
  EXPECT(!memcmp(model, s.base, bytes), stored ? "set/value" : "set/changed-on-error", "after %s the elements are not the expected ones (array of %s, value %s)", stored ? "storing" : "a failed store", typeName(s.t), b.t == NullType ? "null" : b.t == StringType ? "string" : b.t == ObjectType ? "object" : showV(b.v));
  Object* o = nullptr; Ex e2 = attempt([&] { o = getAt(s, form); });
  EXPECT(e2 == OK_, "get/raises", "boxed get raised %s", exName(e2));
  if (ref) { EXPECT(o == ((Object**)s.base)[s.lin], "get/reference", "boxed get returned another reference"); }
  else {
    EXPECT(o && o->GetRawDataType() == s.t, "get/type", "boxed get from an array of %s returned type %s", typeName(s.t), o ? typeName(o->GetRawDataType()) : "null");
    V back; back.t = s.t; char bits[16] = { 0 };
    switch (s.t) {
    case BooleanType: { Boolean x = o->get_AsBoolean(); memcpy(bits, &x, sz); break; } case CharType: { Char x = o->get_AsChar(); memcpy(bits, &x, sz); break; }
    case SByteType: { SByte x = o->get_AsSByte(); memcpy(bits, &x, sz); break; } case ByteType: { Byte x = o->get_AsByte(); memcpy(bits, &x, sz); break; }
    case Int16Type: { Int16 x = o->get_AsInt16(); memcpy(bits, &x, sz); break; } case UInt16Type: { UInt16 x = o->get_AsUInt16(); memcpy(bits, &x, sz); break; }
    case Int32Type: { Int32 x = o->get_AsInt32(); memcpy(bits, &x, sz); break; } case UInt32Type: { UInt32 x = o->get_AsUInt32(); memcpy(bits, &x, sz); break; }
    case Int64Type: { Int64 x = o->get_AsInt64(); memcpy(bits, &x, sz); break; } case UInt64Type: { UInt64 x = o->get_AsUInt64(); memcpy(bits, &x, sz); break; }
    case SingleType: { Single x = o->get_AsSingle(); memcpy(bits, &x, sz); break; } case DoubleType: { Double x = o->get_AsDouble(); memcpy(bits, &x, sz); break; }
    case DateTimeType: { DateTime x = o->get_AsDateTime(); memcpy(bits, &x.value, sz); break; } case TimeSpanType: { TimeSpan x = o->get_AsTimeSpan(); memcpy(bits, &x.value, sz); break; }
    default: break; }
    bool nan = (s.t == SingleType && *(Single*)bits != *(Single*)bits && *(Single*)(s.base + s.lin * sz) != *(Single*)(s.base + s.lin * sz)) || (s.t == DoubleType && *(Double*)bits != *(Double*)bits && *(Double*)(s.base + s.lin * sz) != *(Double*)(s.base + s.lin * sz));
    EXPECT(nan || !memcmp(bits, s.base + s.lin * sz, sz), "get/value", "boxed get from an array of %s does not return the stored value", typeName(s.t));
  }
  EXPECT(!memcmp(model, s.base, bytes), "get/changed", "reading an element changed the array");
  state(mc::mix(mc::mix(s.t * 32 + b.t, e), mc::hashBytes(model + s.lin * sz, ref ? 0 : sz)));
}
SUITE(index_arrays, 0, "rank 1..3 x index arrays: null, lengths 0..4, rank-2 index array, each index from -2 to size+1: same outcome as direct indexes") {
  int t = choose(3); DataType et = t == 0 ? Int32Type : t == 1 ? ByteType : StringType;
  int rank = 1 + choose(3); Array* a = rank == 1 ? new Array(et, 2) : rank == 2 ? new Array(et, 2, 2) : new Array(et, 2, 2, 2);
  char* base = (char*)a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1); int total = rank == 1 ? 2 : rank == 2 ? 4 : 8, sz = sizeOf(et);
  bool set = choose(2); int len = choose(6); Array* ix = nullptr; int v[4] = { 0, 0, 0, 0 };
  Object* nv = et == StringType ? (Object*)new String(L"new") : et == Int32Type ? (Object*)new Int32Value(77) : (Object*)new ByteValue(77);
  char before[64]; memcpy(before, base, total * sz);
  if (len == 5) { if (choose(2)) ix = new Array(Int32Type, 2, 2); NOTE("index array %s", ix ? "of rank 2" : "null"); }
  else { ix = new Array(Int32Type, len); for (int i = 0; i < len; i++) { v[i] = choose(thorough || len < 4 ? 6 : 2) - (len < 4 || thorough ? 2 : 0); *(Int32*)ix->Address(i) = v[i]; } NOTE("index array length %d: %d %d %d %d", len, v[0], v[1], v[2], v[3]); }
  NOTE("%s, element type %s, rank %d", set ? "set" : "get", typeName(et), rank);
  bool good = ix && len == rank && len < 5; for (int i = 0; i < rank && good; i++) good = v[i] >= 0 && v[i] < 2;
  Object* o = nullptr; Ex e = attempt([&] { if (set) a->SetValue(nv, ix); else o = a->GetValue(ix); });
  if (!good) {
    if (!ix) EXPECT(e == xArgumentNull, "index-array/null", "null index array gave %s", exName(e));
    else if (len == 5) EXPECT(e != OK_, "index-array/rank", "rank-2 index array accepted");
    else EXPECT(e != OK_, "index-array/bad", "index array of length %d (%d,%d,%d,%d) accepted on rank %d", len, v[0], v[1], v[2], v[3], rank);
    EXPECT(!memcmp(before, base, total * sz), "index-array/changed", "a failed access changed the array");
  } else {
    int lin = 0; for (int i = 0; i < rank; i++) lin = lin * 2 + v[i];
    EXPECT(e == OK_, "index-array/good", "valid index array raised %s", exName(e));
    if (set) { char want[8] = { 77, 0, 0, 0, 0, 0, 0, 0 }; if (et == StringType) memcpy(want, &nv, 8); memcpy(before + lin * sz, want, sz); EXPECT(!memcmp(before, base, total * sz), "index-array/element", "stored into another element"); }
    else if (et != StringType) EXPECT(o && o->GetRawDataType() == et && o->get_AsInt32() == 0, "index-array/get", "wrong value");
  }
  state(mc::mix(mc::mix(rank * 8 + len, e), mc::hashBytes(v, sizeof v)));
}
SUITE(store_pairs, 0, "16 element types, rank 1 length 3: two successive stores at every pair of positions keep each other's value") {
  DataType t = elemTypes[choose(NTYPES)]; Array* a = new Array(t, 3); int i = choose(3), j = choose(3); V v1, v2; Object *b1, *b2; bool ref = t == ObjectType || t == StringType;
  if (ref) { b1 = new String(L"a"); b2 = new String(L"b"); } else { v1 = chooseBoundary(t); v2 = chooseBoundary(t); b1 = box(v1); b2 = box(v2); NOTE("%s at %d then %s at %d", showV(v1), i, showV(v2), j); }
  a->SetValue(b1, i); a->SetValue(b2, j);
  char want[24]; memset(want, 0, sizeof want); int sz = sizeOf(t);
  if (ref) { memcpy(want + i * sz, &b1, 8); memcpy(want + j * sz, &b2, 8); } else { castBits(v1, t, want + i * sz); castBits(v2, t, want + j * sz); }
  EXPECT(!memcmp(want, a->Address(0), 3 * sz), "pair/value", "array of %s does not hold both stored values", typeName(t));
  for (int k = 0; k < 3; k++) { Object* o = a->GetValue(k); Object* o2 = a->GetValue(k); if (!ref) EXPECT(o != o2 && o->Equals(o2), "pair/box", "two reads of the same element differ"); }
  state(mc::hashBytes(want, ref ? 0 : 3 * sz, t));
}
SUITE(large_index_arrays, 0, "rank 1..3 arrays of 4 types with one size of 13 values 129..70000 in each place: elements at 16 indexes around 2^7, 2^8, 2^15, 2^16 and the end stored and read through an index array and directly, every other byte unchanged") {
  DataType et = pick({ ByteType, Int32Type, Int16Type, DoubleType }); int rank = 1 + choose(3), at = choose(rank), n = pick({ 129, 256, 257, 300, 1025, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000 }), d[3] = { 1, 1, 1 }; for (int i = 0; i < rank; i++) d[i] = i == at ? n : 2; int sz = sizeOf(et), total = d[0] * d[1] * d[2]; NOTE("%s [%d,%d,%d]", typeName(et), d[0], d[1], d[2]);
  Array* a = rank == 1 ? new Array(et, d[0]) : rank == 2 ? new Array(et, d[0], d[1]) : new Array(et, d[0], d[1], d[2]); char* base = (char*)a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1); char* m = (char*)malloc((size_t)total * sz); memset(m, 0, (size_t)total * sz); Array* l = new Array(Int32Type, rank); int turn = 0;
  for (int x : { 0, 1, 127, 128, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, n - 2, n - 1, n }) { int ix[3] = { 0, 0, 0 }; for (int i = 0; i < rank; i++) { ix[i] = i == at ? x : (x + i) & 1; *(Int32*)l->Address(i) = ix[i]; } bool in = x < n; int lin = (ix[0] * (rank > 1 ? d[1] : 1) + (rank > 1 ? ix[1] : 0)) * (rank > 2 ? d[2] : 1) + (rank > 2 ? ix[2] : 0); int w = 1 + ++turn; Object* v = et == ByteType ? (Object*)new ByteValue((Byte)w) : et == Int16Type ? (Object*)new Int16Value((Int16)w) : et == Int32Type ? (Object*)new Int32Value(w) : (Object*)new DoubleValue(w);
    Ex e = attempt([&] { a->SetValue(v, l); }); expectEx(e, in ? EXBIT(OK_) : EXBIT(xIndexOutOfRange), "large-index/set", "boxed set through an index array"); if (in) { if (et == ByteType) *(Byte*)(m + lin) = (Byte)w; else if (et == Int16Type) *(Int16*)(m + lin * 2) = (Int16)w; else if (et == Int32Type) *(Int32*)(m + lin * 4) = w; else *(Double*)(m + lin * 8) = w; }
    Object* g = nullptr; Object* h = nullptr; e = attempt([&] { g = a->GetValue(l); }); expectEx(e, in ? EXBIT(OK_) : EXBIT(xIndexOutOfRange), "large-index/get", "boxed get through an index array"); e = attempt([&] { h = rank == 1 ? a->GetValue(ix[0]) : rank == 2 ? a->GetValue(ix[0], ix[1]) : a->GetValue(ix[0], ix[1], ix[2]); }); expectEx(e, in ? EXBIT(OK_) : EXBIT(xIndexOutOfRange), "large-index/direct", "boxed get"); if (in && !(g && h && g->GetRawDataType() == et && h->GetRawDataType() == et && g->get_AsDouble() == w && h->get_AsDouble() == w)) fail("large-index/value", "[%d,%d,%d] reads back something else", ix[0], ix[1], ix[2]);
    if (in) { Object* u = et == ByteType ? (Object*)new ByteValue((Byte)(w + 100)) : et == Int16Type ? (Object*)new Int16Value((Int16)(w + 100)) : et == Int32Type ? (Object*)new Int32Value(w + 100) : (Object*)new DoubleValue(w + 100); e = attempt([&] { rank == 1 ? a->SetValue(u, ix[0]) : rank == 2 ? a->SetValue(u, ix[0], ix[1]) : a->SetValue(u, ix[0], ix[1], ix[2]); }); expectEx(e, EXBIT(OK_), "large-index/direct-set", "boxed set"); g = nullptr; attempt([&] { g = a->GetValue(l); }); if (!g || g->get_AsDouble() != w + 100) fail("large-index/value", "[%d,%d,%d] stored directly reads back something else", ix[0], ix[1], ix[2]); a->SetValue(v, l); }
    if (memcmp(base, m, (size_t)total * sz)) fail("large-index/changed", "storing at [%d,%d,%d] changed another element", ix[0], ix[1], ix[2]); }
  free(m); delete a; state(mc::mix(mc::mix(et, n), rank * 4 + at)); }
