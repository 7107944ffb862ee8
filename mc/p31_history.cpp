// P31: the outcome of a call depends on the present contents of its operands only - not on which calls
// were made before, on what the same objects contained earlier, nor on what earlier results are used for.
// Every call of the table is run in a fresh process (its baseline) and then after other calls; the operand
// objects stay at the same addresses while their contents change between four variants.
#include "values.h"
#include <sys/mman.h>
#include <DotNetLibrarySupport.h>
#include <PlatformSupport.h>
#include <new>
#include <unistd.h>
#include <fcntl.h>
extern "C" { extern int mc_clock_on; extern int64_t mc_clock_sec, mc_clock_nsec; }
// ---- operands: fixed places, contents by variant (0..2 valid, 3 mostly refused)
enum { VARS = 4, VALL = 12 };   // 4..11: contents 0 or 1 with differences that a shortened comparison would miss
template <class T> struct Slot { alignas(16) char m[sizeof(T)]; bool on; T* p() { return (T*)m; } template <class... A> T* make(A... a) { if (on) p()->~T(); on = true; return ::new ((void*)m) T(a...); } };
static int V_;                                            // variant in force
enum { NTEXT = 16 };
static Char textBuf[NTEXT][256]; static Slot<String> textSlot[NTEXT];
static const wchar_t* const texts[NTEXT][VARS] = {
  { L"abcab xyz", L"bcabc yzx", L"aAbB", L"" },                              // s
  { L"ab", L"bc", L"b", L"" },                                               // t: search text
  { L"--", L"++", L"", L"=" },                                               // u: replacement, separator
  { L"123", L"-45", L"7", L"12x" },                                          // integer text
  { L"1.5", L"2.5", L"-0.25e3", L"1e" },                                     // floating text
  { L"1.02:03:04", L"2.03:04:05", L"-00:00:01", L"1:99" },                   // span text
  { L"True", L"False", L"true", L"maybe" },                                  // boolean text
  { L"q", L"Q", L"7", L"qq" },                                               // character text
  { L"  pad ", L"\tpad  ", L"pad", L"   " },                                 // blank-edged
  { L"abcab xyz", L"bcabc yzx", L"aAbC", L"x" },                             // s2: equal to s in two variants
  { L"Abcab XYZ", L"bCabc YZx", L"AaBb", L"y" },                             // s3: equal to s but for case
  { L"e0", L"f0", L"g0", L"h0" }, { L"e1", L"f1", L"g1", L"h1" }, { L"e2", L"f2", L"g2", L"h2" },   // array elements
  { L"12345671234567123456712345671234567123456712345671234567123456712345671234567123456712345671234567123456712345671234567123456712345671234567", L"989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898989898", L"5050505050", L"121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121212121x" },
  { L"abcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh ijKabcdefgh", L"ABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQABcab xyzQ", L"ababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababababab", L"x" } };   // long number and long text
static String* T(int i) { return textSlot[i].p(); }
#define s T(0)
#define t T(1)
#define u T(2)
#define ntx T(3)
#define ftx T(4)
#define stx T(5)
#define btx T(6)
#define ctx T(7)
#define pad T(8)
#define s2 T(9)
#define s3 T(10)
static Slot<StringBuilder> sbSlot[2];
#define sb sbSlot[0].p()
#define sb2 sbSlot[1].p()
enum { CHARS, OBJS, STRS, INTS, BYTES, IDX, GRID, DBLS, DST, SPACE, LONGB, LONGC, NARR };
static Slot<Array> aSlot[NARR];
static Array* A(int i) { return aSlot[i].p(); }
#define chars A(CHARS)
#define objs A(OBJS)
#define strs A(STRS)
#define ints A(INTS)
#define bytes A(BYTES)
#define idx A(IDX)
#define grid A(GRID)
#define dbls A(DBLS)
#define dst A(DST)
static Slot<Int32Value> b32[2]; static Slot<DoubleValue> bd[2]; static Slot<BooleanValue> bb[2]; static Slot<CharValue> bc[2]; static Slot<Int64Value> b64[2]; static Slot<DateTimeValue> bdt[2]; static Slot<TimeSpanValue> bts[2];
static Slot<ByteValue> bu8[2]; static Slot<SByteValue> bi8[2]; static Slot<Int16Value> bi16[2]; static Slot<UInt16Value> bu16[2]; static Slot<UInt32Value> bu32[2]; static Slot<UInt64Value> bu64[2]; static Slot<SingleValue> bf[2];
static Char ch, ch2; static Int32 at, cnt, w; static Int64 n, n2; static Double d, e, small; static Single f; static Int64 ts, ts2; static UInt64 dt, dt2; static int yr, mo;
static bool built;
static void plain(int v) {
  V_ = v;
  for (int i = 0; i < NTEXT; i++) { wmemset(textBuf[i], 0, 256); wcscpy(textBuf[i], texts[i][v]); textSlot[i].make((const Char*)textBuf[i]); }
  static const Int32 n32[VARS] = { 5, 6, -5, INT32_MIN }; static const Double db[VARS] = { 2.5, 3.5, -0.125, NAN }; static const Int64 n64[VARS] = { 1000000007, 1000000008, -3, INT64_MIN };
  for (int k = 0; k < 2; k++) { int q = k ? (v + 1) % VARS : v;
    b32[k].make(n32[q]); bd[k].make(db[q]); bb[k].make(q % 2 == 0); bc[k].make((Char)(L'a' + q)); b64[k].make(n64[q]); bdt[k].make(DateTime((UInt64)(638000000000000000ULL + q * 864000000001ULL))); bts[k].make(TimeSpan((Int64)(q == 3 ? INT64_MIN : q * 36000000001LL - 7)));
    bu8[k].make((Byte)n32[q]); bi8[k].make((SByte)n32[q]); bi16[k].make((Int16)n32[q]); bu16[k].make((UInt16)n32[q]); bu32[k].make((UInt32)n32[q]); bu64[k].make((UInt64)n64[q]); bf[k].make((Single)db[q]); }
  if (!built) { aSlot[CHARS].make(CharType, 3); aSlot[OBJS].make(ObjectType, 3); aSlot[STRS].make(StringType, 3); aSlot[INTS].make(Int32Type, 4); aSlot[BYTES].make(ByteType, 12); aSlot[IDX].make(Int32Type, 2); aSlot[GRID].make(Int32Type, 2, 3); aSlot[DBLS].make(DoubleType, 3); aSlot[DST].make(Int32Type, 4); aSlot[SPACE].make(CharType, 12); aSlot[LONGB].make(ByteType, 70); aSlot[LONGC].make(CharType, 150); built = true; }
  auto put = [](Array* a, const void* p) { memcpy(a->Address(0, a->get_Rank() > 1 ? 0 : -1), p, (size_t)a->get_Length() * sizeOf(a->GetElementType())); };
  static const wchar_t cs[VARS][4] = { L"bx ", L"cy ", L"BAa", L"\0\0\0" }; put(chars, cs[v]);
  Object* os[3] = { v == 3 ? nullptr : (Object*)b32[0].p(), T(11), v == 2 ? (Object*)bd[0].p() : (Object*)bb[0].p() }; put(objs, os);
  String* ss[3] = { T(11), v == 3 ? nullptr : T(12), v == 2 ? T(11) : T(13) }; put(strs, ss);
  static const Int32 is[VARS][4] = { { 5, 6, 7, 5 }, { 6, 7, 5, 6 }, { -5, 5, -5, 0 }, { 0, 0, 0, 0 } }; put(ints, is[v]);
  unsigned char by[12]; for (int i = 0; i < 12; i++) by[i] = v == 0 ? i * 17 + 1 : v == 1 ? 200 - i * 13 : v == 2 ? (i & 1) * 63 : 255; put(bytes, by);
  static const Int32 ix[VARS][2] = { { 0, 1 }, { 1, 2 }, { 1, 0 }, { 2, 0 } }; put(idx, ix[v]);
  Int32 g[6]; for (int i = 0; i < 6; i++) g[i] = (v + 1) * 10 + i; put(grid, g);
  Double ds[3] = { db[v], 1.5 * v, -0.0 }; put(dbls, ds); Int32 dd[4] = { -1 - v, -2, -3, -4 }; put(dst, dd); Char sp[12]; for (int i = 0; i < 12; i++) sp[i] = L'.' + v; put(A(SPACE), sp); for (int i = 0; i < 70; i++) *(Byte*)A(LONGB)->Address(i) = (Byte)(i * (7 + v) + v); for (int i = 0; i < 150; i++) *(Char*)A(LONGC)->Address(i) = L'a' + (i * (v + 1)) % 26;
  static const wchar_t* const bt[VARS] = { L"hello hello", L"jelly jelly", L"h", L"" };
  sbSlot[0].make()->Append(bt[v], (Int32)wcslen(bt[v])); if (v == 3) sbSlot[1].make((Int32)4, (Int32)8)->Append(L"12345678", 8); else sbSlot[1].make((Int32)4, (Int32)64)->Append(v == 1 ? L"jelly jelly" : L"hello hello", 11);
  ch = L"abA\0"[v]; ch2 = L"xyz0"[v]; static const Int32 ats[VARS] = { 1, 2, 0, -1 }, cnts[VARS] = { 3, 4, 1, 9 }, ws[VARS] = { 12, 13, 3, -2 }; at = ats[v]; cnt = cnts[v]; w = ws[v];
  n = n64[v]; n2 = n64[(v + 1) % VARS] / 3; d = db[v]; static const Double es[VARS] = { 1.25, 0.75, 3.0, INFINITY }, sm[VARS] = { 0.5, 0.25, -0.75, 2.0 }; e = es[v]; small = sm[v]; f = (Single)es[v];
  static const Int64 tss[VARS] = { 937840050000LL, 937840060000LL, -1, INT64_MIN }, tss2[VARS] = { 600000000LL, 700000000LL, 0, -1 }; ts = tss[v]; ts2 = tss2[v];
  static const UInt64 dts[VARS] = { 638400123456789012ULL, 638557003456789012ULL, 630822816000000000ULL, 3155378975999999999ULL }, dts2[VARS] = { 638400123456789011ULL, 638400123456789013ULL, 0, 1 }; dt = dts[v]; dt2 = dts2[v];
  static const int ys[VARS] = { 2023, 2024, 1900, 0 }, ms[VARS] = { 2, 2, 2, 13 }; yr = ys[v]; mo = ms[v];
  mc_clock_on = 1; mc_clock_sec = v == 0 ? 1700000000 : v == 1 ? 1720000000 : v == 2 ? 951782400 : 0; mc_clock_nsec = 123456700 * v;
}
static void retext(int i, int at, int by) { Int32 k = (Int32)wcslen(textBuf[i]); if (k < 3 && at > 0) at = k - 1; if (at < 0) at = k - 1; if (k) textBuf[i][at] = (Char)((unsigned)textBuf[i][at] + by); textSlot[i].make((const Char*)textBuf[i]); }
static void digit(int i, int at) { Int32 k = (Int32)wcslen(textBuf[i]); if (at >= k) at = k - 1; Char& c = textBuf[i][at]; if (c >= L'0' && c <= L'9') c = c == L'9' ? L'0' : c + 1; textSlot[i].make((const Char*)textBuf[i]); }
static void operands(int v) {
  if (v < VARS) { plain(v); return; }
  int k = v - VARS; plain(k & 1 ? 1 : 0); V_ = k & 1 ? 1 : 0; Int64 big = k < 2 ? 1LL << 32 : k < 4 ? 1LL << 16 : k < 6 ? 1 : 1LL << 40;
  n += big; n2 += big; ts += big; ts2 += k < 4 ? big : 1; dt += k < 2 ? 1ULL << 32 : k < 4 ? 65536 * 864000000000ULL / 2 * 2 : k < 6 ? 1 : 146097 * 864000000000ULL; dt2 += k < 6 ? 1ULL << 32 : 36524 * 864000000000ULL; if (dt > 3155378975999999999ULL) dt -= 2 * 65536 * 864000000000ULL;
  d = k < 2 ? d * (1 + 1e-12) : k < 4 ? -d : k < 6 ? d + 256 : d + 0.125; e = k < 2 ? e * (1 + 1e-12) : k < 4 ? e + 65536 : k < 6 ? e + 1 : e + 0.0625; small = k < 2 ? small * (1 + 1e-12) : k < 4 ? -small : k < 6 ? small / 2 : small - 0.0625; f = (Single)(k < 4 ? -f : f + 0.25f); yr += k < 4 ? 400 : 4; if (k & 2) mo = 1;
  for (int i = 0; i < NTEXT; i++) { if (i == 3 || i == 4 || i == 5 || i == 14) { digit(i, k < 2 ? 99 : k < 4 ? 0 : k < 6 ? 1 : 2); continue; } if (i == 6) continue; Int32 m = (Int32)wcslen(textBuf[i]) / 2; if (i == 15) m = k < 2 ? m : k < 4 ? 130 : k < 6 ? 64 : 3; retext(i, i == 7 ? 0 : k < 2 ? m : k < 4 ? m : k < 6 ? -1 : m, k < 2 ? 256 : k < 4 ? 65536 : k < 6 ? 1 : 32); if (k >= 6 && m > 0) retext(i, m - 1, -32); }
  b64[0].make(n); bd[0].make(d); bdt[0].make(DateTime(dt)); bts[0].make(TimeSpan(ts)); b32[0].make((Int32)(V_ + 5 + (k < 2 ? 256 : k < 4 ? 65536 : k < 6 ? 1 : -20))); bf[0].make(f); bu64[0].make((UInt64)n); bu32[0].make((UInt32)(V_ + (k < 4 ? 256 : 65536))); bi16[0].make((Int16)(V_ + 256)); bu16[0].make((UInt16)(V_ + 256)); bc[0].make((Char)(L'a' + V_ + (k < 4 ? 256 : 1)));
  *(Char*)chars->Address(2) = (Char)(k < 2 ? L' ' + 256 : k < 4 ? L' ' + 65536 : k < 6 ? L'a' : L'A'); *(Char*)chars->Address(1) = L'z'; *(Byte*)bytes->Address(1) ^= 0x40; *(Byte*)bytes->Address(7) += 1; *(Byte*)bytes->Address(4) ^= 0x80; *(Int32*)ints->Address(1) += k < 2 ? 65536 : 256; *(Int32*)ints->Address(3) += 1; *(Int32*)grid->Address(1, 1) += 256; *(Int32*)grid->Address(1, 2) -= 1; *(Double*)dbls->Address(1) = d; *(Object**)objs->Address(2) = b64[0].p(); *(Object**)strs->Address(1) = T(13); *(Byte*)A(LONGB)->Address(65) ^= 1; *(Byte*)A(LONGB)->Address(30) ^= 1; *(Char*)A(LONGC)->Address(140) = L'?'; *(Char*)A(LONGC)->Address(70) = L'!'; *(Int32*)dst->Address(2) -= 256;
  sb->set_Chars(5, k < 2 ? L'-' : k < 4 ? L'h' : L'O'); sb2->set_Chars(9, L'L'); if (k < 4) { ch = (Char)(ch + (k < 2 ? 256 : 65536)); ch2 = (Char)(ch2 + 1); } else { ch = (Char)(ch - 32); ch2 = L'l'; } mc_clock_sec += k < 2 ? 1LL << 24 : k < 4 ? 65536 : k < 6 ? 1 : 365 * 86400; mc_clock_nsec += 100 * k;
}
// ---- outcomes as text
struct R {
  enum { CAP = 760 }; int k, heldAt; char x[CAP]; Object* held;
  void clear() { k = 0; x[0] = 0; held = nullptr; }
  R& raw(const char* fmt, ...) { va_list a; va_start(a, fmt); int m = vsnprintf(x + k, CAP - k, fmt, a); va_end(a); k += m; if (k >= CAP) k = CAP - 1; return *this; }
  R& operator<<(bool v) { return raw(v ? "yes " : "no "); }
  R& operator<<(Char v) { return raw("'%X' ", (unsigned)v); }
  R& operator<<(int v) { return raw("%d ", v); } R& operator<<(unsigned v) { return raw("%u ", v); } R& operator<<(long v) { return raw("%ld ", v); } R& operator<<(unsigned long v) { return raw("%lu ", v); }
  R& operator<<(short v) { return raw("%d ", v); } R& operator<<(unsigned short v) { return raw("%d ", v); } R& operator<<(signed char v) { return raw("%d ", v); } R& operator<<(unsigned char v) { return raw("%d ", v); }
  R& operator<<(double v) { UInt64 b; memcpy(&b, &v, 8); return v != v ? raw("NaN ") : raw("%.17g(%llx) ", v, (unsigned long long)b); }
  R& operator<<(float v) { UInt32 b; memcpy(&b, &v, 4); return v != v ? raw("NaN ") : raw("%.9g(%x)f ", v, b); }
  R& operator<<(const DateTime& v) { return raw("date %llu ", (unsigned long long)v.value); }
  R& operator<<(const TimeSpan& v) { return raw("span %lld ", (long long)v.value); }
  R& put(char c) { if (k < CAP - 1) { x[k++] = c; x[k] = 0; } return *this; }
  R& chr(const Char* c, int len) { put('"'); for (int i = 0; i < len; i++) if (c[i] >= 32 && c[i] < 127) put((char)c[i]); else raw("\\u%x", (unsigned)c[i]); return put('"').put(' '); }
  R& obj(Object* o, int deep) {
    if (!o) return raw("null ");
    if (String* p = dynamic_cast<String*>(o)) return chr(p->get_Buffer(), p->get_Length());
    if (StringBuilder* p = dynamic_cast<StringBuilder*>(o)) { raw("builder/%d/%d ", p->get_Capacity(), p->get_MaxCapacity()); chr(p->get_Buffer(), p->get_Length()); return obj(p->ToString(), 0); }
    if (Array* p = dynamic_cast<Array*>(o)) {
      int r = p->get_Rank(), m = p->get_Length(); raw("%s[%d/%d] ", typeName(p->GetElementType()), r, m); const char* c = m ? (const char*)p->Address(0, r > 1 ? 0 : -1, r > 2 ? 0 : -1) : nullptr; int z = sizeOf(p->GetElementType());
      if (p->GetElementType() == StringType || p->GetElementType() == ObjectType) { for (int i = 0; i < m && deep; i++) obj(((Object**)c)[i], deep - 1); }
      else if (p->GetElementType() == CharType) chr((const Char*)c, m); else for (int i = 0; i < m * z; i++) put("0123456789abcdef"[(unsigned char)c[i] >> 4]).put("0123456789abcdef"[c[i] & 15]);
      return raw(" "); }
    switch (o->GetRawDataType()) {
    case BooleanType: return raw("Boolean ") << o->get_AsBoolean(); case CharType: return raw("Char ") << o->get_AsChar(); case SingleType: return raw("Single ") << o->get_AsSingle(); case DoubleType: return raw("Double ") << o->get_AsDouble();
    case DateTimeType: return raw("DateTime ") << o->get_AsDateTime(); case TimeSpanType: return raw("TimeSpan ") << o->get_AsTimeSpan(); case UInt64Type: return raw("UInt64 ") << o->get_AsUInt64(); case ObjectType: return raw("object ");
    default: return raw("%s ", typeName(o->GetRawDataType())) << o->get_AsInt64(); }
  }
  R& operator<<(Object* o) { held = o; heldAt = k; return obj(o, 2); }
  bool operator==(const R& o) const { return k == o.k && !memcmp(x, o.x, k); }
};
static bool isOperand(Object* o) {
  const char* p = (const char*)o; auto in = [&](const void* b, size_t z) { return p >= (const char*)b && p < (const char*)b + z; };
  return in(textSlot, sizeof textSlot) || in(sbSlot, sizeof sbSlot) || in(aSlot, sizeof aSlot) || in(b32, sizeof b32) || in(bd, sizeof bd) || in(bb, sizeof bb) || in(bc, sizeof bc) || in(b64, sizeof b64) || in(bdt, sizeof bdt) || in(bts, sizeof bts) || in(bu8, sizeof bu8) || in(bi8, sizeof bi8) || in(bi16, sizeof bi16) || in(bu16, sizeof bu16) || in(bu32, sizeof bu32) || in(bu64, sizeof bu64) || in(bf, sizeof bf);
}
static void all(R& r) {   // the contents of every operand a call could change
  for (int i = 0; i < NTEXT; i++) { r.obj(T(i), 0); if (r.k > 500) { uint64_t h = mc::hashBytes(r.x, r.k); r.clear(); r.raw("%llx ", (unsigned long long)h); } }
  for (int i = 0; i < NARR; i++) { r.obj(A(i), 1); uint64_t h = mc::hashBytes(r.x, r.k); r.clear(); r.raw("%llx ", (unsigned long long)h); }
  r.obj(sb, 0); r.obj(sb2, 0);
}
// ---- the calls
struct Call { const char* name; void (*run)(R&); bool mutates; };
#define F(expr) { #expr, [](R& r) { r << expr; }, false },
#define O(expr) { #expr, [](R& r) { r << (Object*)(expr); }, false },
#define M(expr) { #expr, [](R& r) { expr; }, true },
#define MR(expr) { #expr, [](R& r) { r << expr; }, true },
#define TRY(type, cls, text) { #cls ".TryParse", [](R& r) { type v = (type)1; bool ok = cls::TryParse(text, v); r << ok; r << v; }, false },
static Array* fill(Array* a) { return a; }
static DateTimeValue D(UInt64 v) { return DateTimeValue(DateTime(v)); }
static TimeSpanValue S(Int64 v) { return TimeSpanValue(TimeSpan(v)); }
static void walk(R& r, CharEnumerator* en) { while (en->MoveNext()) r << en->get_Current(); r << attempt([&] { en->get_Current(); }); en->Reset(); r << en->MoveNext(); }
static void parts(R& r, const DateTime& x) { DateTimeValue v(x); r << v.get_Year() << v.get_Month() << v.get_Day() << v.get_DayOfYear() << (int)v.get_DayOfWeek() << v.get_Hour() << v.get_Minute() << v.get_Second() << v.get_Millisecond() << v.get_TimeOfDay() << v.get_Date(); }
static void sparts(R& r, const TimeSpan& x) { TimeSpanValue v(x); r << v.get_Days() << v.get_Hours() << v.get_Minutes() << v.get_Seconds() << v.get_Milliseconds() << v.get_TotalDays() << v.get_TotalHours() << v.get_TotalMinutes() << v.get_TotalSeconds() << v.get_TotalMilliseconds(); }
template <class X> static void boxed(R& r, X* a, X* b) { r << a->CompareTo((Object*)b) << a->Equals((Object*)b) << Object::Equals(a, b); r << (Object*)a->ToString(); Char o[64]; Int32 k = a->FormatString(o, 64); r << k; r.chr(o, k > 0 && k < 64 ? k : 0); }
template <class X> static void conv(R& r, X* a) { for (int k = 0; k < 12; k++) { Ex x = attempt([&] { switch (k) { case 0: r << a->get_AsBoolean(); break; case 1: r << a->get_AsChar(); break; case 2: r << a->get_AsSByte(); break; case 3: r << a->get_AsByte(); break; case 4: r << a->get_AsInt16(); break; case 5: r << a->get_AsUInt16(); break; case 6: r << a->get_AsInt32(); break; case 7: r << a->get_AsUInt32(); break; case 8: r << a->get_AsInt64(); break; case 9: r << a->get_AsUInt64(); break; case 10: r << a->get_AsSingle(); break; default: r << a->get_AsDouble(); } }); if (x != OK_) r << (int)x; } }
static bool finite3() { return V_ != 3; }
static const Call calls[] = {
  // text: making, reading, comparing
  { "new String(literal)", [](R& r) { r << (Object*)new String((const Char*)textBuf[0]); r.held = nullptr; /* shows the literal itself */ }, false }, O(new String((const Char*)textBuf[0], at, cnt)) O(new String(chars)) O(new String(chars, at, 1)) O(new String(ch, cnt)) O(String::Copy(s)) O(String::FromChars(textBuf[0], V_ == 3 ? 0 : cnt)) O(s->ToString())
  F(s->get_Chars(at)) F(s->get_Length()) F(*s->Address(at)) F(String::Compare(s, s2)) F(String::Compare(s, s3)) F(String::Compare(s, s3, true)) F(String::Compare(s, at, s3, at, cnt)) F(String::Compare(s, at, s3, at, cnt, true)) F(String::CompareOrdinal(s, s2)) F(String::CompareOrdinal(s, s3)) F(String::CompareOrdinal(s, at, s3, at, cnt)) F(s->CompareTo(s2)) F(s->CompareTo((Object*)s3)) F(s->Equals(s2)) F(s->Equals((Object*)s3)) F(String::Equals(s, s2)) F(String::op_Inequality(s, s2)) F(String::op_Inequality(s, s3))
  F(String::IsNullOrEmpty(s)) F(String::IsNullOrWhiteSpace(pad)) F(s->StartsWith(t)) F(s->EndsWith(t)) F(s->EndsWith(ch)) F(s->Contains(t)) F(s->IndexOf(ch)) F(s->IndexOf(ch, at)) F(s->IndexOf(ch, at, cnt)) F(s->IndexOf(t)) F(s->IndexOf(t, at)) F(s->IndexOf(t, at, cnt)) F(s->IndexOfAny(chars)) F(s->IndexOfAny(chars, at)) F(s->IndexOfAny(chars, at, cnt)) F(s->LastIndexOf(ch)) F(s->LastIndexOf(t)) F(s->LastIndexOf(t, cnt, cnt)) F(s->LastIndexOfAny(chars)) F(s->LastIndexOfAny(chars, cnt)) F(s2->IndexOfAny(A(SPACE)))
  // text: transforming
  O(s->Insert(at, u)) O(s->Remove(at)) O(s->Remove(at, 2)) O(s->Replace(ch, ch2)) O(s->Replace(t, u)) O(s->Substring(at)) O(s->Substring(at, cnt)) O(s->ToLower()) O(s->ToUpper()) O(s->ToLowerInvariant()) O(s->ToUpperInvariant()) O(pad->Trim()) O(pad->Trim(chars)) O(pad->TrimStart(chars)) O(pad->TrimEnd(chars)) O(pad->TrimEnd(nullptr)) O(s->PadLeft(w)) O(s->PadRight(w, ch2)) O(s->ToCharArray()) O(s->ToCharArray(at, 2)) O(s->ToCharArray(at, 1)) O(s->Substring(at, 1)) O(s->Substring(at, 0)) O(s->ToCharArray(0, 0)) O(new Array(CharType, 1)) O(new String(ch, 1)) O(new String(chars, 0, 1)) O(String::Concat(s, t)) O(String::Concat(s, b32[0].p(), bd[0].p())) O(String::Concat(objs)) O(String::Concat(strs)) O(String::Join(u, strs)) O(String::Join(ch2, strs, at, 1)) O(String::Join(u, objs))
  { "s->GetEnumerator()", [](R& r) { walk(r, s->GetEnumerator()); }, false }, { "pad->GetEnumerator()", [](R& r) { walk(r, pad->GetEnumerator()); }, false }, M(s->CopyTo(at, A(SPACE), at, 2))
  // builder
  O(sb->ToString()) O(sb->ToString(at, cnt)) O(sb2->ToString()) F(sb->get_Chars(at)) F(sb->Equals(sb2)) F(sb->CountSubStrings(T(1), 0, sb->get_Length())) O(new StringBuilder(s)) O(new StringBuilder(s, at, cnt, 20)) O(new StringBuilder(w, 30))
  M(sb->Append(s)) M(sb->Append(s, at, cnt)) M(sb->Append(ch, cnt)) M(sb->Append(chars)) M(sb->Append(chars, at, 1)) M(sb->Append((Object*)b32[0].p())) M(sb->Append(d)) M(sb->Append(f)) M(sb->Append(n)) M(sb->Append((UInt64)n)) M(sb->Append((Int16)cnt)) M(sb->Append((Byte)cnt)) M(sb->Append((SByte)at)) M(sb->Append((UInt16)at)) M(sb->Append((UInt32)at)) M(sb->Append(at)) M(sb->Append((Boolean)(at == 1))) M(sb->Append(textBuf[0], 2, at)) M(sb->AppendLine()) M(sb->AppendLine(s)) M(sb->Insert(at, s)) M(sb->Insert(at, s, cnt)) M(sb->Insert(at, chars)) M(sb->Insert(at, ch)) M(sb->Insert(at, n)) M(sb->Insert(at, d)) M(sb->Insert(at, (Object*)bdt[0].p())) M(sb->Remove(at, 2)) M(sb->Replace(L'l', ch2)) M(sb->Replace(L'l', ch2, at, cnt)) M(sb->Replace(T(1), u)) M(sb->Replace(new String(L"ll"), u)) M(sb->Replace(new String(L"ll"), u, at, cnt)) M(sb->set_Length(w)) M(sb->set_Capacity(w)) M(sb->EnsureCapacity(w)) M(sb->EnsureRoomFor(w)) M(sb->set_Chars(at, ch2)) M(sb->Clear()) M(sb2->Append(s)) M(sb2->Insert(0, s, 2)) M(sb2->Replace(L'h', L'j')) M(sb2->set_Length(3)) M(sb2->Clear())
  { "grow sb", [](R& r) { for (int i = 0; i < 40; i++) sb->Append(s2); r << sb->get_Length() << (Object*)sb->ToString(3, 5); }, true }, { "sb cut and refilled", [](R& r) { sb->set_Length(0); sb->Append(u); r << (Object*)sb->ToString(); sb->Append(ntx); r << (Object*)sb->ToString(); sb->set_Chars(0, L'#'); r << (Object*)sb->ToString(); sb->Replace(L'#', L'%'); r << (Object*)sb->ToString(); sb->Remove(0, 1); r << (Object*)sb->ToString(); }, true },
  // arrays and bytes
  F(ints->get_Length()) F(grid->get_Rank()) F(grid->GetLength(at)) F(grid->GetUpperBound(at)) F(grid->GetLowerBound(at)) O(ints->GetValue(at)) O(grid->GetValue(idx)) O(grid->GetValue(at, 1)) O(dbls->GetValue(at)) O(objs->GetValue(at)) O(strs->GetValue(at)) O(chars->GetValue(at)) O(bytes->GetValue(at)) F(Array::IndexOf(ints, b32[0].p())) F(Array::IndexOf(ints, b32[0].p(), 1)) F(Array::IndexOf(ints, b32[1].p(), at, 2)) F(Array::IndexOf(objs, bb[0].p())) F(Array::IndexOf(objs, T(11))) F(Array::IndexOf(strs, T(12))) F(Array::IndexOf(dbls, bd[0].p())) F(*(Int32*)grid->Address(at, 1))
  M(Array::Clear(ints, at, 2)) M(Array::Clear(strs, at, 1)) M(Array::Copy(ints, dst, cnt)) M(Array::Copy(ints, at, dst, 0, 2)) M(Array::Copy(ints, at, ints, 0, 2)) M(Array::ConstrainedCopy(ints, at, dst, 1, 2)) M(ints->CopyTo(dst, 0)) M(ints->SetValue(b32[0].p(), at)) M(grid->SetValue(b32[0].p(), idx)) M(grid->SetValue(b32[0].p(), at, 2)) M(objs->SetValue(bd[0].p(), at)) M(strs->SetValue(s, at)) M(dbls->SetValue(bd[0].p(), at)) M(dbls->SetValue(b32[0].p(), at)) M(dst->Initialize(grid->Address(0, 0)))
  M(Buffer::BlockCopy(bytes, at, dst, 2, cnt)) M(Buffer::BlockCopy(ints, at, ints, 3, cnt)) F(Buffer::ByteLength(grid)) F(Buffer::ByteLength(bytes)) F(Buffer::GetByte(ints, at)) F(Buffer::GetByte(dbls, at)) M(Buffer::SetByte(ints, at, (Byte)n)) O(new Array(Int32Type, cnt)) O(new Array(StringType, 2, cnt))
  O(BitConverter::GetBytes(n)) O(BitConverter::GetBytes(d)) O(BitConverter::GetBytes(f)) O(BitConverter::GetBytes(cnt)) O(BitConverter::GetBytes((Int16)cnt)) O(BitConverter::GetBytes((UInt16)w)) O(BitConverter::GetBytes((UInt32)w)) O(BitConverter::GetBytes((UInt64)n)) O(BitConverter::GetBytes(ch)) O(BitConverter::GetBytes((Boolean)(at == 1))) F(BitConverter::ToInt64(bytes, at)) F(BitConverter::ToUInt64(bytes, at)) F(BitConverter::ToDouble(bytes, at)) F(BitConverter::ToSingle(bytes, at)) F(BitConverter::ToInt32(bytes, at)) F(BitConverter::ToUInt32(bytes, at)) F(BitConverter::ToInt16(bytes, at)) F(BitConverter::ToUInt16(bytes, at)) F(BitConverter::ToChar(bytes, at)) F(BitConverter::ToBoolean(bytes, at)) O(BitConverter::ToString(bytes)) O(BitConverter::ToString(bytes, at, cnt)) F(BitConverter::DoubleToInt64Bits(d)) F(BitConverter::Int64BitsToDouble(n))
  // scalars: text, order, conversions
  F(Int32Value::Parse(ntx)) F(Int64Value::Parse(ntx)) F(Int16Value::Parse(ntx)) F(SByteValue::Parse(ntx)) F(ByteValue::Parse(ntx)) F(UInt16Value::Parse(ntx)) F(UInt32Value::Parse(ntx)) F(UInt64Value::Parse(ntx)) F(DoubleValue::Parse(ftx)) F(SingleValue::Parse(ftx)) F(BooleanValue::Parse(btx)) F(CharValue::Parse(ctx)) F(TimeSpanValue::Parse(stx))
  TRY(Int32, Int32Value, ntx) TRY(Int64, Int64Value, ntx) TRY(Int16, Int16Value, ntx) TRY(SByte, SByteValue, ntx) TRY(Byte, ByteValue, ntx) TRY(UInt16, UInt16Value, ntx) TRY(UInt32, UInt32Value, ntx) TRY(UInt64, UInt64Value, ntx) TRY(Double, DoubleValue, ftx) TRY(Single, SingleValue, ftx) TRY(Char, CharValue, ctx) { "TimeSpanValue.TryParse", [](R& r) { TimeSpan v((Int64)1); r << TimeSpanValue::TryParse(stx, v); r << v; }, false },
  F(DoubleValue::Parse(T(14))) F(SingleValue::Parse(T(14))) F(Int32Value::Parse(T(14))) TRY(Double, DoubleValue, T(14)) TRY(UInt64, UInt64Value, T(14)) O(T(15)->ToUpper()) O(T(15)->ToLower()) O(T(15)->Replace(t, u)) O(T(15)->Replace(ch, ch2)) O(T(15)->Insert(at, T(14))) O(T(15)->Remove(at, 2)) O(T(15)->PadLeft(220)) O(T(15)->Trim(chars)) O(T(15)->Substring(at, cnt)) O(String::Concat(T(15), T(14), s)) O(String::Join(T(15), strs)) F(T(15)->IndexOf(t, at)) F(T(15)->LastIndexOf(t)) F(String::Compare(T(15), T(14), true)) M(sb->Append(T(15))) M(sb->Insert(at, T(15), 2)) O(new StringBuilder(T(15))) O(BitConverter::ToString(A(LONGB))) O(BitConverter::ToString(A(LONGB), 1 + at, 60)) O(new String(A(LONGC))) O(new String(A(LONGC), 1 + at, 140)) M(sb->Append(A(LONGC))) M(sb->Insert(at, A(LONGC))) F(s->IndexOfAny(A(LONGC))) O(pad->Trim(A(LONGC))) O(T(15)->ToCharArray()) O(String::Concat(T(15), strs->GetValue(0), b64[0].p()))
  F(Int32Value::Parse(s)) F(DoubleValue::Parse(s)) F(TimeSpanValue::Parse(pad))
#define BOX(b) { "boxed " #b, [](R& r) { boxed(r, b[0].p(), b[1].p()); }, false },
#define CONV(b) { "convert " #b, [](R& r) { conv(r, b[0].p()); }, false },
  BOX(b32) BOX(b64) BOX(bd) BOX(bf) BOX(bb) BOX(bc) BOX(bu8) BOX(bi8) BOX(bi16) BOX(bu16) BOX(bu32) BOX(bu64) BOX(bdt) BOX(bts) CONV(b32) CONV(b64) CONV(bb) CONV(bc) CONV(bu8) CONV(bi8) CONV(bi16) CONV(bu16) CONV(bu32) CONV(bu64)
  O(b32[0].p()->ToString()) O(bd[0].p()->ToString()) O(bb[0].p()->ToString()) O(bc[0].p()->ToString()) O(b64[0].p()->ToString()) O(bdt[0].p()->ToString()) O(bts[0].p()->ToString()) O(bf[0].p()->ToString()) O(CharValue::ToString(ch)) O(bu8[0].p()->ToString())
  { "character tests", [](R& r) { for (int i = 0; i < 3; i++) { Char c = i == 0 ? ch : i == 1 ? ch2 : (Char)(L'0' + V_); r << CharValue::IsControl(c) << CharValue::IsDigit(c) << CharValue::IsLetter(c) << CharValue::IsLetterOrDigit(c) << CharValue::IsLower(c) << CharValue::IsNumber(c) << CharValue::IsPunctuation(c) << CharValue::IsSeparator(c) << CharValue::IsUpper(c) << CharValue::IsWhiteSpace(c) << CharValue::ToLower(c) << CharValue::ToUpper(c) << CharValue::GetNumericValue(c); } }, false },
  F(CharValue::IsLetter(s, at)) F(CharValue::IsDigit(ntx, at)) F(CharValue::IsWhiteSpace(pad, at)) F(CharValue::GetNumericValue(ntx, at)) F(CharValue::IsUpper(s3, at))
  // arithmetic
  F(Math::Abs(at)) F(Math::Abs(n)) F(Math::Abs(d)) F(Math::BigMul(cnt, w)) F(Math::Clamp(cnt, 2, at + 3)) F(Math::Clamp(d, -1.0, e)) { "DivRem", [](R& r) { Int32 m = 1; Int64 m2 = 1; r << Math::DivRem(w, V_ == 3 ? 0 : cnt, m); r << m << Math::DivRem(n, n2, m2); r << m2; }, false }, F(Math::Divide(n, n2)) F(Math::Divide(n, (Int64)at)) F(Math::Divide(d, e)) F(Math::Max(d, e)) F(Math::Min(d, e)) F(Math::Max(n, n2)) F(Math::Min(at, cnt)) F(Math::MaxMagnitude(d, e)) F(Math::MinMagnitude(d, e))
  F(Math::Round(d)) F(Math::Round(d, V_ == 3 ? 99 : 1)) F(Math::Round(d, 0, AwayFromZero)) F(Math::Round(d, 1, ToZero)) F(Math::Round(d, 1, ToNegativeInfinity)) F(Math::Round(d, 1, ToPositiveInfinity)) F(Math::Round(d, 1, ToEven)) F(Math::Floor(d)) F(Math::Ceiling(d)) F(Math::Truncate(d)) F(Math::Sign(at)) F(Math::Sign(d)) F(Math::IEEERemainder(d, e)) F(DoubleValue::Modulus(d, e)) F(Math::FusedMultiplyAdd(d, e, small)) F(Math::BitIncrement(d)) F(Math::BitDecrement(d)) F(Math::CopySign(d, small)) F(Math::ScaleB(d, at)) F(Math::ILogB(d)) F(Math::Log2(e)) F(Math::Log(e)) F(Math::Log(e, 10.0)) F(Math::Log10(e)) F(Math::Exp(small)) F(Math::Pow(e, small)) F(Math::Sqrt(e)) F(Math::Cbrt(e)) F(Math::Sin(d)) F(Math::Cos(d)) F(Math::Tan(d)) F(Math::Asin(small)) F(Math::Acos(small)) F(Math::Atan(small)) F(Math::Atan2(small, e)) F(Math::Sinh(small)) F(Math::Cosh(small)) F(Math::Tanh(small)) F(Math::Asinh(small)) F(Math::Acosh(e)) F(Math::Atanh(small)) F(DoubleValue::IsNaN(d)) F(DoubleValue::IsFinite(e)) F(DoubleValue::IsSubnormal(small)) F(SingleValue::IsNegative((Single)d))
  { "rounding", [](R& r) { static const Double x[] = { 0.04, 0.05, 0.25, 1.0, 2.5, 0.0, 1e-9, 123456.789, 4503599627370496.5, 1e15, 1e16, INFINITY, 0.999, 0.35, 1e300 }; uint64_t h = 0; for (int i = 0; i < 15; i++) for (int g = 0; g < 3; g++) for (int m = 0; m < 5; m++) { Double y = V_ == 1 ? -x[i] : V_ == 2 ? x[i] * 3 : V_ == 3 ? x[i] / 7 : x[i]; Double z = Math::Round(y, g, (MidpointRounding)m); UInt64 b; memcpy(&b, &z, 8); h = mc::mix(h, z != z ? 1 : b); r.k = 0; r << z; } r.raw("%llx ", (unsigned long long)h); }, false },
  // dates and spans
  { "date parts", [](R& r) { parts(r, DateTime(dt)); }, false }, F(DateTime(yr, mo, 1 + at)) F(DateTime(yr, mo, 1, 1, 2, 3, at)) F(DateTimeValue::DaysInMonth(yr, mo)) F(DateTimeValue::IsLeapYear(yr)) F(D(dt).AddDays(e)) F(D(dt).AddHours(d)) F(D(dt).AddMinutes(d)) F(D(dt).AddSeconds(d)) F(D(dt).AddMilliseconds(d)) F(D(dt).AddMonths(w)) F(D(dt).AddYears(cnt)) F(D(dt).AddTicks(n)) F(D(dt).Add(TimeSpan(ts2))) F(D(dt).Subtract(TimeSpan(ts))) F(D(dt).Subtract(DateTime(dt2))) F(DateTimeValue::op_Addition(DateTime(dt), TimeSpan(ts))) F(DateTimeValue::op_Subtraction(DateTime(dt), DateTime(dt2))) F(DateTimeValue::Compare(DateTime(dt), DateTime(dt2))) F(DateTimeValue::op_LessThan(DateTime(dt2), DateTime(dt))) F(D(dt).Equals(DateTime(dt2))) F(DateTimeValue::get_UtcNow()) F(DateTimeValue::get_Now()) F(DateTimeValue::get_Today()) F(D(dt).ToLocalTime()) F(D(dt).ToUniversalTime()) F(D(dt).IsDaylightSavingTime()) { "date text", [](R& r) { DateTimeValue v = D(dt); r << (Object*)v.ToString(); }, false },
  { "span parts", [](R& r) { sparts(r, TimeSpan(ts)); }, false }, F(TimeSpan(at, cnt, w)) F(TimeSpan(at, cnt, w, 4, 5)) F(S(ts).Add(TimeSpan(ts2))) F(S(ts).Subtract(TimeSpan(ts2))) F(S(ts).Negate()) F(S(ts).Duration()) F(S(ts).Multiply(small)) F(S(ts).Divide(e)) F(S(ts).Divide(TimeSpan(ts2))) F(TimeSpanValue::Compare(TimeSpan(ts), TimeSpan(ts2))) F(TimeSpanValue::op_LessThan(TimeSpan(ts), TimeSpan(ts2))) F(S(ts).Equals(TimeSpan(ts2))) F(TimeSpanValue::FromDays(d)) F(TimeSpanValue::FromHours(d)) F(TimeSpanValue::FromMinutes(d)) F(TimeSpanValue::FromSeconds(d)) F(TimeSpanValue::FromMilliseconds(d)) F(TimeSpanValue::FromTicks(n)) { "span text", [](R& r) { TimeSpanValue v = S(ts); r << (Object*)v.ToString(); }, false },
  // errors as objects
  { "exception", [](R& r) { Exception* x = V_ == 0 ? new Exception() : V_ == 1 ? new Exception(s) : V_ == 2 ? new Exception(s, new FormatException()) : new ArgumentException(); r << (Object*)x->get_Message() << (bool)(x->get_InnerException() != nullptr) << (bool)(x->GetBaseException() == x); r << (Object*)x->GetBaseException()->get_Message(); r.held = nullptr; }, false },
};
enum { NC = sizeof calls / sizeof *calls };
// one call: the operands take the contents of the variant, the call runs, everything it did is written down
static void run(int c, int v, R& r) {
  operands(v); r.clear(); R before, after; before.clear(); after.clear(); all(before);
  try { calls[c].run(r); } catch (Exception* x) { r.clear(); r.raw("%s: ", exName(x ? kindOf(x) : xOther)); if (x) r.obj(x->get_Message(), 0); }
  all(after); if (!calls[c].mutates && !(before == after)) fail("operands", "%s (variant %d) changed an operand: %s to %s", calls[c].name, v, before.x, after.x);
  if (r.held && (isOperand(r.held) || calls[c].mutates)) r.held = nullptr;
  r.raw(" | "); int k = after.k; if (k > R::CAP - 1 - r.k) k = R::CAP - 1 - r.k; memcpy(r.x + r.k, after.x, k); r.k += k; r.x[r.k] = 0; step();
}
struct Cell { char done; R r; };
static Cell* base;
struct Job { int c, v; R* out; };
static void alone(void* p) { Job* j = (Job*)p; run(j->c, j->v, *j->out); }
static void shareBase() { if (!base) base = (Cell*)mmap(nullptr, sizeof(Cell) * NC * VALL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static const R& baseline(int c, int v) { shareBase(); Cell& z = base[c * VALL + v]; if (!z.done) { Job j = { c, v, &z.r }; mc::isolated(alone, &j); z.r.held = nullptr; z.done = 1; } return z.r; }
static void same(int c, int v, const R& got, const char* when) { const R& b = base[c * VALL + v].r; if (!(got == b)) fail("outcome", "%s on contents %d, %s: %s; in a fresh process: %s", calls[c].name, v, when, got.x, b.x); }
static void kept(Object* o, int c, int v, const char* when) { if (!o) return; R now; now.clear(); now << o; const R& b = base[c * VALL + v].r; if (now.k < R::CAP - 1 - b.heldAt && memcmp(now.x, b.x + b.heldAt, now.k)) fail("result", "the result of %s on contents %d, %s, reads %s; it was %s", calls[c].name, v, when, now.x, b.x); }
// the caller overwrites a result that is its own to change
static bool scribble(Object* o) {
  if (StringBuilder* p = dynamic_cast<StringBuilder*>(o)) { p->Append(L"!!", 2); p->set_Chars(0, L'!'); return true; }
  if (Array* p = dynamic_cast<Array*>(o)) { if (!p->get_Length()) return false; memset(p->Address(0, p->get_Rank() > 1 ? 0 : -1, p->get_Rank() > 2 ? 0 : -1), p->GetElementType() == StringType || p->GetElementType() == ObjectType ? 0 : 0x21, (size_t)p->get_Length() * sizeOf(p->GetElementType())); return true; }
  return false;
}
struct Seq { int n; int c[4], v[4]; bool scribble; };
static void play(void* p) {
  Seq* q = (Seq*)p; R r[4]; Object* mine[4];
  for (int i = 0; i < q->n; i++) { run(q->c[i], q->v[i], r[i]); same(q->c[i], q->v[i], r[i], i ? "after other calls" : "as the first call"); mine[i] = r[i].held; if (q->scribble && mine[i] && scribble(mine[i])) mine[i] = nullptr; for (int j = 0; j < i; j++) kept(mine[j], q->c[j], q->v[j], "after a later call"); }
}
static void go(Seq& q) { for (int i = 0; i < q.n; i++) { baseline(q.c[i], q.v[i]); NOTE("%s on contents %d", calls[q.c[i]].name, q.v[i]); } if (q.scribble) NOTE("returned arrays and builders are overwritten by the caller"); mc::isolated(play, &q); uint64_t h = 0; for (int i = 0; i < q.n; i++) h = mc::mix(h, q.c[i] * VARS + q.v[i]); state(h); }
SUITE(same_call, 0, "every call on every sequence of 3 of the 4 contents of the same operand objects, in a fresh process; returned arrays and builders kept or overwritten by the caller") { Seq q = { 3 }; q.c[0] = choose(NC); q.c[1] = q.c[2] = q.c[0]; for (int i = 0; i < 3; i++) q.v[i] = choose(VARS); q.scribble = choose(2); go(q); }
SUITE(lookalikes, 0, "every call on every pair of 12 contents of the same operand objects, 8 of which differ from another in ways a shortened comparison misses: by multiples of 2^8, 2^16, 2^32, in one middle or last character, in the sign, the last digit, the fraction, the year or the time of day") { Seq q = { 2 }; q.c[0] = q.c[1] = choose(NC); q.v[0] = choose(VALL); q.v[1] = choose(VALL); if (q.v[0] < VARS && q.v[1] < VARS) mc::discard(); q.scribble = false; go(q); }
// every year, the answers of one process against those of a process asked about that year only
struct YearAns { char done, leap; Byte dim[2]; UInt64 feb, last, next; int day; bool operator==(const YearAns& o) const { return leap == o.leap && dim[0] == o.dim[0] && dim[1] == o.dim[1] && feb == o.feb && last == o.last && next == o.next && day == o.day; } };
static void yearAns(int y, YearAns& a) { a.leap = DateTimeValue::IsLeapYear(y); a.dim[0] = (Byte)DateTimeValue::DaysInMonth(y, 2); a.dim[1] = (Byte)DateTimeValue::DaysInMonth(y, 4); a.feb = DateTime(y, 2, 28).value; DateTimeValue l = DateTime(y, 12, 31); a.last = l.get_Ticks(); a.day = l.get_DayOfYear(); DateTimeValue f = DateTime(y, 2, 28); a.next = f.AddDays(1.0).value; a.done = 1; }
static YearAns* yearBase;
struct YearJob { int y; }; static void yearAlone(void* p) { int y = ((YearJob*)p)->y; yearAns(y, yearBase[y]); }
struct YearTour { int order; };
static void playYears(void* p) { int order = ((YearTour*)p)->order; static const int st[] = { 1, 9998, 1024, 100, 256, 400, 4096, 7, 128, 511 }; for (int i = 0, y = 0; i < 9999; i++, y = (y + st[order]) % 9999) { YearAns a; memset(&a, 0, sizeof a); yearAns(y + 1, a); if (!(a == yearBase[y + 1])) fail("years", "year %d after other years: leap %d, days %d and %d, 31 December is day %d; asked alone: leap %d, days %d and %d, day %d", y + 1, a.leap, a.dim[0], a.dim[1], a.day, yearBase[y + 1].leap, yearBase[y + 1].dim[0], yearBase[y + 1].dim[1], yearBase[y + 1].day); step(); } }
SUITE(years, 0, "every year 1..9999 in 10 orders (strides 1, -1, powers of two, 100, 400 and others) in one process: leap year, days in month, day of year, dates, against a fresh process asked about that year only") { int half = choose(2); if (!yearBase) { yearBase = (YearAns*)mmap(nullptr, sizeof(YearAns) * 10000, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (int y = 1; y < 10000; y++) { YearJob j = { y }; mc::isolated(yearAlone, &j); } } for (int order = half * 5; order < half * 5 + 5; order++) { YearTour q = { order }; NOTE("order %d", order); mc::isolated(playYears, &q); state(order); } }
SUITE(pairs, 0, "every ordered pair of calls in a fresh process, on the same and on changed contents (quick: one pair of contents, thorough: 16); both outcomes, and the first result afterwards") { Seq q = { 2 }; q.c[0] = choose(NC); q.c[1] = choose(NC); if (thorough) { q.v[0] = choose(VARS); q.v[1] = choose(VARS); } else { int k = (q.c[0] + q.c[1] + q.c[0] / 7) & 1; q.v[0] = k ? 3 : 0; q.v[1] = k ? 0 : 1; } q.scribble = false; go(q); }
// one long history: a call before and after every other call on every contents
struct Long { int c, v, w; };
static void playLong(void* p) { Long* q = (Long*)p; R r; run(q->c, q->v, r); same(q->c, q->v, r, "as the first call"); Object* mine = r.held; for (int c = 0; c < NC; c++) { R x; run(c, q->w, x); same(c, q->w, x, "in a long history"); run(q->c, q->v, r); same(q->c, q->v, r, calls[c].name); kept(mine, q->c, q->v, "in a long history"); } }
SUITE(interleaved, 0, "every call on every contents repeated in between all other calls on one contents (quick: 4 combinations of contents, thorough: all 16), one process per history") { Long q = { choose(NC), choose(VARS), 0 }; if (thorough) q.w = choose(VARS); else q.w = (q.v * 3 + 1 + q.c) % VARS; for (int c = 0; c < NC; c++) baseline(c, q.w); baseline(q.c, q.v); NOTE("%s on contents %d among all calls on contents %d", calls[q.c].name, q.v, q.w); mc::isolated(playLong, &q); state(mc::mix(q.c, q.v * 4 + q.w)); }
struct Rep { int c, v, times; };
static void playRep(void* p) { Rep* q = (Rep*)p; R r; Object* first = nullptr; for (int i = 0; i < q->times; i++) { run(q->c, q->v, r); same(q->c, q->v, r, "repeated"); if (!i) first = r.held; if ((i & 15) == 15) kept(first, q->c, q->v, "after repetitions"); } }
SUITE(repeated, 0, "every call on every contents 300 (thorough 5000) times in one process: the same outcome each time, and the first result intact") { Rep q = { choose(NC), choose(VARS), thorough ? 5000 : 300 }; baseline(q.c, q.v); NOTE("%s on contents %d", calls[q.c].name, q.v); mc::isolated(playRep, &q); state(mc::mix(q.c, q.v)); }
// the table in both directions, with a rotating choice of contents
struct Tour { int from, stride, rot; };
static void playTour(void* p) { Tour* q = (Tour*)p; for (int i = 0, c = q->from; i < NC * VARS; i++, c = (c + q->stride) % NC) { int v = (i / NC + c * q->rot) % VARS; R r; run(c, v, r); same(c, v, r, "on a tour of the table"); } }
SUITE(tours, 0, "tours of the whole table: every starting call x 12 strides x 4 rotations of contents (quick: every 16th start, 6 strides, 2 rotations)") { static const int st[] = { 1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31 }; int k = thorough ? choose(NC) : choose(NC / 16) * 16; Tour q = { k, st[thorough ? choose(12) : choose(6) * 2], thorough ? choose(4) : 1 + choose(2) * 2 }; if (choose(2)) q.stride = NC - q.stride; for (int c = 0; c < NC; c++) for (int v = 0; v < VARS; v++) baseline(c, v); NOTE("from %s, stride %d, rotation %d", calls[q.from].name, q.stride, q.rot); mc::isolated(playTour, &q); state(mc::mix(mc::mix(q.from, q.stride), q.rot)); }
SUITE(triples, 1, "every call on contents 0, any middle call on contents 1 or 3, then the same call on contents 1, and the reverse order of contents") { Seq q = { 3 }; q.c[0] = q.c[2] = choose(NC); q.c[1] = choose(NC); int k = choose(2); q.v[1] = k ? 3 : 1; q.v[0] = k ? 1 : 0; q.v[2] = k ? 0 : 1; q.scribble = true; go(q); }
// calls in successive runs: the pool of one run is the memory of the next
struct InRun : DotnetLibrarySupport::DataAccess { int c, v; bool entered; const char* when; void RunCode() override { entered = true; for (auto& z : textSlot) z.on = false; for (auto& z : sbSlot) z.on = false; for (auto& z : aSlot) z.on = false; built = false; R r; ::run(c, v, r); same(c, v, r, when); } };
static void inRun(int c, int v, const char* when) { InRun p; p.c = c; p.v = v; p.when = when; p.entered = false; p.Run(); step(); if (!p.entered) fail("entered", "the run did not reach the code"); }
static void quiet() { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
static void playRuns(void* p) { Seq* q = (Seq*)p; quiet(); for (int i = 0; i < q->n; i++) inRun(q->c[i], q->v[i], i ? "in a later run" : "in the first run"); if (q->scribble) { PlatformSetup(); for (int i = 0; i < q->n; i++) inRun(q->c[i], q->v[i], "after the platform was set up again"); } }
static void goRuns(Seq& q) { for (int i = 0; i < q.n; i++) { baseline(q.c[i], q.v[i]); NOTE("a run with %s on contents %d", calls[q.c[i]].name, q.v[i]); } mc::isolated(playRuns, &q); uint64_t h = 5; for (int i = 0; i < q.n; i++) h = mc::mix(h, q.c[i] * VARS + q.v[i]); state(h); }
SUITE(runs_same_call, 0, "every call in two successive runs of a fresh process on every pair of contents, and again after the platform is set up anew: as in a fresh process") { Seq q = { 2 }; q.c[0] = q.c[1] = choose(NC); q.v[0] = choose(VARS); q.v[1] = choose(VARS); q.scribble = true; goRuns(q); }
SUITE(runs_pairs, 1, "every ordered pair of calls in two successive runs of a fresh process") { Seq q = { 2 }; q.c[0] = choose(NC); q.c[1] = choose(NC); q.v[0] = (q.c[0] + q.c[1]) % VARS; q.v[1] = (q.v[0] + 1) % VARS; q.scribble = false; goRuns(q); }
static void playRunTour(void* p) { Tour* q = (Tour*)p; quiet(); for (int i = 0, c = q->from; i < NC * VARS; i++, c = (c + q->stride) % NC) inRun(c, (i / NC + c * q->rot) % VARS, "in a run late in a series"); }
SUITE(runs_tours, 0, "tours of the whole table, one run per call: every 32nd (thorough: every) starting call x 4 strides") { static const int st[] = { 1, 5, 13, 29 }; int k = thorough ? choose(NC) : choose(NC / 32) * 32; Tour q = { k, st[choose(4)], 1 }; for (int c = 0; c < NC; c++) for (int v = 0; v < VARS; v++) baseline(c, v); NOTE("from %s, stride %d", calls[q.from].name, q.stride); mc::isolated(playRunTour, &q); state(mc::mix(mc::mix(q.from, q.stride), 9)); }
