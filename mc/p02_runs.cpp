// P02: runs are isolated, report what escapes them, and see live platform data.
#include "dn.h"
#include <DotNetLibrarySupport.h>
#include <PlatformSupport.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <locale.h>
using namespace DotnetLibrarySupport;
extern Double doubleData __attribute__((weak)); // the emulated platform's scalar, when it is reachable by name
static void* (*volatile raw)(size_t) = my_operator_new_replacement;
// ---- what the platform must have been sent
static char want[1 << 20]; static int nwant; static int fd = -1; static bool utf8;
static void line(const Txt& t) { for (int i = 0; i < t.n; i++) { unsigned c = (unsigned)t.c[i]; char* o = want + nwant; if (c < 0x80) *o++ = (char)c; else if (c < 0x800) { *o++ = 0xC0 | c >> 6; *o++ = 0x80 | (c & 63); } else if (c < 0x10000) { *o++ = 0xE0 | c >> 12; *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); } else { *o++ = 0xF0 | c >> 18; *o++ = 0x80 | (c >> 12 & 63); *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); } nwant = (int)(o - want); } want[nwant++] = '\n'; }
static void capture() { fd = memfd_create("platform", 0); char p[64]; sprintf(p, "/proc/self/fd/%d", fd); if (fd < 0 || !freopen(p, "w", stdout)) _exit(97); utf8 = setlocale(LC_ALL, "C.UTF-8") != nullptr; nwant = 0; }
static void sent(const char* when) {
  fflush(stdout); static char got[1 << 20]; ssize_t n = pread(fd, got, sizeof got, 0); step(); int k = 0; while (k < n && k < nwant && got[k] == want[k]) k++;
  if (n != nwant || k != n) { auto tail = [](char* b, int at, int len) { static char o[2][300]; static int w; char* p = o[w++ & 1]; int m = 0; for (int i = at > 30 ? at - 30 : 0; i < len && i < at + 80 && m < 280; i++) p[m++] = b[i] == '\n' ? '|' : b[i]; p[m] = 0; return p; }; fail("sent", "%s: platform received %d bytes, expected %d; at byte %d got \"%s\", expected \"%s\"", when, (int)n, nwant, k, tail(got, k, (int)n), tail(want, k, nwant)); } }
// ---- the platform data as it must be
static Int32 arr[16]; static int narr = -1; static Double dbl;
static void sameArray(Array* a, const char* when) { step(); if (!a || a->get_Length() != narr || a->get_Rank() != 1 || a->GetElementType() != Int32Type) fail("view", "%s: the view has the wrong shape", when); for (int i = 0; i < narr; i++) if (*(Int32*)a->Address(i) != arr[i]) fail("data", "%s: platform element %d is %d, expected %d", when, i, *(Int32*)a->Address(i), arr[i]); }
// ---- exceptions
enum { KINDS = 13 };
static Exception* makeKind(int k) { switch (k) { case 0: return new IndexOutOfRangeException(); case 1: return new ArgumentNullException(); case 2: return new RankException(); case 3: return new ArgumentOutOfRangeException(); case 4: return new ArgumentException(); case 5: return new NotImplementedException(); case 6: return new InvalidCastException(); case 7: return new InvalidOperationException(); case 8: return new FormatException(); case 9: return new OverflowException(); case 10: return new ThrowMinMaxException(); case 11: return new ArithmeticException(); default: return new DivideByZeroException(); } }
[[noreturn]] static void throwKind(int k) { switch (k) { case 0: throw new IndexOutOfRangeException(); case 1: throw new ArgumentNullException(); case 2: throw new RankException(); case 3: throw new ArgumentOutOfRangeException(); case 4: throw new ArgumentException(); case 5: throw new NotImplementedException(); case 6: throw new InvalidCastException(); case 7: throw new InvalidOperationException(); case 8: throw new FormatException(); case 9: throw new OverflowException(); case 10: throw new ThrowMinMaxException(); case 11: throw new ArithmeticException(); default: throw new DivideByZeroException(); } }
static Txt kindText[KINDS]; static Txt plainText;
static void learnTexts() { for (int k = 0; k < KINDS; k++) kindText[k] = txt(makeKind(k)->get_Message()); plainText = txt((new Exception())->get_Message()); }
// ---- the translated program
enum { OPS = 17, ENDS = 26 };
static uint64_t* room; // bytes a fresh run offers (shared with the isolated processes)
struct Prog : DataAccess {
  int ops[6], n, end, seq; bool measuring; uint64_t measured; bool entered;
  void op(int o) {
    switch (o) {
    case 0: break;
    case 1: { Txt t = lit("message"); t.add((wchar_t)(L'0' + seq++)); Send(mk2(t)); line(t); break; }
    case 2: { Txt t; for (int i = 0; i < 1000; i++) t.add((wchar_t)(33 + i * 7 % 94)); Send(mk2(t)); line(t); break; }
    case 3: Send(new String(L"")); line(Txt()); Send(String::Empty); line(Txt()); break;
    case 4: { Txt t = lit("%d%s%n%ls 100% \"quoted\" \\n \ttab"); Send(mk2(t)); line(t); break; }
    case 5: { Txt t = lit("h"); if (utf8) t.add(0xe9).add(0x4e2d).add(0x1F600); Send(mk2(t)); line(t); break; }
    case 6: { Array* a = new Array(ByteType, 500); for (int i = 0; i < 500; i++) { if (*(Byte*)a->Address(i)) fail("fresh", "a new array in a run is not zeroed"); *(Byte*)a->Address(i) = 0xFF; } char* p = (char*)raw(3000); if (p) { for (int i = 0; i < 3000; i++) if (p[i]) fail("fresh", "new memory in a run is not zeroed"); memset(p, 0xEE, 3000); } break; }
    case 7: sameArray(get_ArrayData(), "inside a run"); break;
    case 8: { Array* a = get_ArrayData(); int i = seq++ % narr; *(Int32*)a->Address(i) = arr[i] = 1000 + seq; break; }
    case 9: { Array* a = get_ArrayData(); Array* b = get_ArrayData(); arr[0] = -7 * ++seq; a->SetValue(new Int32Value(arr[0]), 0); sameArray(b, "through a second view"); arr[narr - 1] = 99 - seq; b->SetValue(new Int32Value(arr[narr - 1]), narr - 1); sameArray(a, "through the first view"); break; }
    case 10: { Array* a = get_ArrayData(); delete a; sameArray(get_ArrayData(), "after deleting a view"); break; }
    case 11: { if (get_DoubleData() != dbl) fail("data", "platform double is %g, expected %g", get_DoubleData(), dbl); if (&doubleData) { doubleData = dbl = dbl * 2 + ++seq; if (get_DoubleData() != dbl) fail("data", "platform double is not live"); } break; }
    case 12: { Array* a = get_ArrayData(); Array::Copy(a, 0, a, 1, narr - 1); for (int i = narr - 1; i > 0; i--) arr[i] = arr[i - 1]; Array::Clear(a, 0, 1); arr[0] = 0; *(Int32*)a->Address(narr / 2) = arr[narr / 2] = ++seq; Array* own = new Array(Int32Type, narr); Array::Copy(a, own, narr); sameArray(own, "copied"); *(Int32*)own->Address(0) = 31337; delete own; sameArray(a, "after changing a copy"); break; }
    case 13: { Ex e = attempt([] { throw new OverflowException(); }); if (e != xOverflow) fail("caught", "an exception thrown in a run is caught as %s", exName(e)); e = attempt([] { Int32Value::Parse(new String(L"x")); }); if (e != xFormat) fail("caught", "%s", exName(e)); break; }
    case 14: { StringBuilder* sb = new StringBuilder(); for (int i = 0; i < 40; i++) { sb->Append(i); sb->Append((Char)L','); } Txt t; for (int i = 0; i < 40; i++) { char b[10]; sprintf(b, "%d,", i); t.addA(b); } Send(sb->ToString()); line(t); String* s = String::Concat(new String(L"con"), new String(L"cat")); Send(s); line(lit("concat")); delete sb; break; }
    case 15: { String* s = new String(L"x"); Array* a = new Array(Int32Type, 10); delete s; delete a; break; }
    case 16: { Send(nullptr); line(Txt()); break; }
    }
  }
  static String* mk2(const Txt& t) { Array* a = mkChars(t); return new String(a); }
  void RunCode() override {
    entered = true; if (measuring) { measured = 0; char* p; while ((p = (char*)raw(8))) { for (int i = 0; i < 8; i++) if (p[i]) fail("fresh", "byte %llu of the pool is not zero when a run starts", (unsigned long long)measured + i); memset(p, 0xAB, 8); if ((measured += 8) > (64u << 20)) fail("bounded", "a run's pool has no end: %llu bytes served", (unsigned long long)measured); } return; }
    for (int i = 0; i < n; i++) { NOTE("  op %d", ops[i]); op(ops[i]); step(); }
    NOTE("  end %d", end);
    if (end < KINDS) { line(kindText[end]); throwKind(end); }
    switch (end) {
    case 13: line(plainText); throw new Exception();
    case 14: line(lit("mine")); throw new Exception(new String(L"mine"));
    case 15: line(lit("outer")); throw new Exception(new String(L"outer"), new Exception(new String(L"inner")));
    case 16: line(lit("outer2")); throw new Exception(new String(L"outer2"), new FormatException());
    case 17: line(Txt()); throw new Exception(new String(L""));
    case 18: { Txt t; for (int i = 0; i < 300; i++) t.add((wchar_t)(L'a' + i % 26)); line(t); throw new Exception(mk2(t)); }
    case 19: line(kindText[8]); Int32Value::Parse(new String(L"12x")); break;
    case 20: line(kindText[0]); { Array* a = new Array(Int32Type, 3); a->Address(3); } break;
    case 21: line(kindText[9]); ByteValue::Parse(new String(L"300")); break;
    case 22: line(kindText[1]); TimeSpanValue::Parse(nullptr); break;
    case 23: line(kindText[4]); try { throw new ArgumentException(); } catch (FormatException*) { fail("caught", "an argument error was caught as a format error"); } break;
    case 24: line(kindText[9]); try { throw new OverflowException(); } catch (Exception* e) { throw; } break;
    default: break; // 25 and above: returns
    } }
};
struct Plan { int runs; int n[3], ops[3][3], end[3]; bool probe; };
static void go(Prog& p) { p.entered = false; p.Run(); step(); if (!p.entered) fail("entered", "the run did not reach the code"); }
static void probe(const char* when) { Prog m{}; m.measuring = true; go(m); if (!*room) *room = m.measured; if (m.measured != *room || !m.measured) fail("fresh", "%s: a run offers %llu bytes, a first run %llu", when, (unsigned long long)m.measured, (unsigned long long)*room); sent(when); }
static void playPlan(void* a) {
  Plan* pl = (Plan*)a; capture(); learnTexts(); Prog first{}; { Array* v = first.get_ArrayData(); narr = v->get_Length(); if (narr < 2 || narr > 16) fail("view", "unexpected platform array length %d", narr); for (int i = 0; i < narr; i++) arr[i] = *(Int32*)v->Address(i); delete v; sameArray(first.get_ArrayData(), "before any run"); dbl = first.get_DoubleData(); }
  if (pl->probe) probe("first run"); int seq = 0;
  for (int r = 0; r < pl->runs; r++) { Prog p{}; p.n = pl->n[r]; memcpy(p.ops, pl->ops[r], sizeof pl->ops[r]); p.end = pl->end[r]; p.seq = seq; NOTE("run %d", r); go(p); seq = p.seq; sent("after a run"); { Prog q{}; sameArray(q.get_ArrayData(), "after a run"); if (q.get_DoubleData() != dbl) fail("data", "after a run: platform double is %g, expected %g", q.get_DoubleData(), dbl); } }
  probe("last run"); PlatformSetup(); { Prog q{}; sameArray(q.get_ArrayData(), "at the end"); } sent("at the end"); state(mc::hashBytes(want, nwant, mc::mix(seq, (uint64_t)arr[0])));
}
static void nothing(void*) { capture(); probe("first run"); }
static void ready() { if (room) return; room = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); mc::isolated(nothing, nullptr); }
static void isolatedPlan(Plan& p) { ready(); mc::isolated(playPlan, &p); }
SUITE(every_end, 0, "two runs: every pair of 26 ways to end (each library exception, plain and nested exceptions, library-raised errors, returning), with a message before each") { Plan p{}; p.runs = 2; for (int r = 0; r < 2; r++) { p.n[r] = 1; p.ops[r][0] = 1; p.end[r] = choose(ENDS); } p.probe = false; isolatedPlan(p); }
SUITE(every_op_pair, 0, "two runs: every pair of 17 operations in one run followed by every operation in the next (thorough: pair), ending normally or with an error") { Plan p{}; p.runs = 2; p.n[0] = 2; p.ops[0][0] = choose(OPS); p.ops[0][1] = choose(OPS); p.end[0] = choose(2) ? 9 : 25; p.n[1] = thorough ? 2 : 1; for (int i = 0; i < p.n[1]; i++) p.ops[1][i] = choose(OPS); p.end[1] = 25; p.probe = false; isolatedPlan(p); }
SUITE(three_runs, 0, "three runs of one operation each: all 17^3 sequences (quick: 9 operations), errors escaping from the first two, the pool exhausted before the first") { static const int q[] = { 1, 6, 7, 8, 9, 10, 11, 12, 14 }; Plan p{}; p.runs = 3; for (int r = 0; r < 3; r++) { p.n[r] = 1; p.ops[r][0] = thorough ? choose(OPS) : pick(q); p.end[r] = r == 0 ? 14 : r == 1 ? 20 : 25; } p.probe = true; isolatedPlan(p); }
// ---- views over memory the platform owns, of every kind and shape
struct View { int type, shape; bool inRun; int how; };
static void playView(void* a) {
  View* v = (View*)a; capture(); static const DataType ts[] = { BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType, ObjectType, StringType }; DataType t = ts[v->type]; static const int shapes[][3] = { { 1, -1, -1 }, { 4, -1, -1 }, { 2, 3, -1 }, { 2, 2, 2 }, { 0, -1, -1 }, { 3, 0, -1 } }; const int* s = shapes[v->shape]; int count = s[0] * (s[1] < 0 ? 1 : s[1]) * (s[2] < 0 ? 1 : s[2]), bytes = count * DataTypeSize[t];
  static unsigned char fixed[256]; unsigned char* mem = v->how == 0 ? fixed : v->how == 1 ? (unsigned char*)malloc(bytes ? bytes : 1) : (unsigned char*)alloca(256); unsigned char ref[256]; bool refs = t == ObjectType || t == StringType; for (int i = 0; i < bytes; i++) ref[i] = mem[i] = refs ? 0 : t == BooleanType ? i & 1 : (unsigned char)(i * 31 + 7); if (v->inRun) PlatformSetup();
  for (int round = 0; round < 3; round++) { Array* x = new Array(mem, t, s[0], s[1], s[2]); step(); if (memcmp(mem, ref, bytes)) fail("view", "wrapping memory changed it"); if (count && x->Address(0, s[1] < 0 ? -1 : 0, s[2] < 0 ? -1 : 0) != mem) fail("view", "the view does not start at the platform's memory");
    if (count && !refs) { int i = (round * 5) % bytes; if (t == BooleanType) ref[i] ^= 1; else ref[i] ^= 0x5A; ((unsigned char*)x->Address(0, s[1] < 0 ? -1 : 0, s[2] < 0 ? -1 : 0))[i] = ref[i]; } if (round == 1 && s[1] < 0) { Array::Clear(x, 0, count); memset(ref, 0, bytes); } if (memcmp(mem, ref, bytes)) fail("data", "a write through the view did not reach the platform"); delete x; if (memcmp(mem, ref, bytes)) fail("freed", "deleting the view changed the platform's memory"); Array* y = new Array(ByteType, 64); memset(y->Address(0), 0xCC, 64); if (memcmp(mem, ref, bytes)) fail("freed", "memory of a deleted view was given to a new array"); if (round != 1) delete y; if (v->inRun && round == 1) PlatformSetup(); }
  if (v->how == 1) { if (!mc::ownsMemory(mem, bytes ? bytes : 1)) fail("freed", "the platform's block is gone"); } state(mc::hashBytes(ref, bytes, v->type)); }
SUITE(views, 0, "arrays wrapped around static, heap and stack platform memory: 16 element types x 6 shapes, before any run and across two runs, written, cleared, deleted and rewrapped") { View v; v.type = choose(16); v.shape = choose(6); v.inRun = choose(2); v.how = choose(3); mc::isolated(playView, &v); }
// ---- every message text
static void playTexts(void* a) { int k = *(int*)a; capture(); struct T : TranslatorSupport { int k, i; void RunCode() override { Txt t; if (k < 2) { int c = k * 64 + i; t.add((wchar_t)c); t.addA("|").add((wchar_t)c); } else for (int j = 0; j < (k - 2) * 64 + i; j++) t.add((wchar_t)(L'A' + (i + j) % 26)); Array* arr = mkChars(t); String* s = new String(arr); Send(s); line(t); delete s; delete arr; } } p; p.k = k; for (p.i = 0; p.i < 64; p.i++) { p.Run(); step(); if (p.i % 16 == 0) sent("after sending"); } sent("after sending"); state(k); }
SUITE(texts, 0, "messages of every ASCII character, and of every length 0..767") { int k = choose(14); mc::isolated(playTexts, &k); }
// ---- long messages
static void playLong(void* a) { int k = *(int*)a; capture(); struct T : TranslatorSupport { String* s; void RunCode() override { Send(s); Send(s); } } p; static const int l[] = { 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 10000, 16383, 16384, 32766, 32767, 32768, 50000, 65535, 65536, 65537, 100000, 131072 };
  int n = l[k / 6], how = k % 6, wide = how % 3; if (wide && (!utf8 || n > 70000)) return; Big b(n); for (int i = 0; i < n; i++) b.c[i] = wide == 0 ? L'A' + (i + i / 26) % 26 : wide == 1 ? (wchar_t)(0xC0 + i % 31) : (wchar_t)(0x4E00 + i % 97); p.s = mk(b); for (int r = 0; r < 2; r++) { nwant = 0; if (ftruncate(fd, 0)) _exit(97); fflush(stdout); rewind(stdout); if (how < 3) { p.Run(); step(); } else { p.Send(p.s); p.Send(p.s); step(2); } for (int i = 0; i < 2; i++) { char* o = want + nwant; for (int j = 0; j < n; j++) { unsigned c = (unsigned)b.c[j]; if (c < 0x80) *o++ = (char)c; else if (c < 0x800) { *o++ = 0xC0 | c >> 6; *o++ = 0x80 | (c & 63); } else { *o++ = 0xE0 | c >> 12; *o++ = 0x80 | (c >> 6 & 63); *o++ = 0x80 | (c & 63); } } *o++ = '\n'; nwant = (int)(o - want); } sent("after a long message"); } state(k); }
SUITE(long_texts, 0, "27 message lengths 1000..131072 around powers of two x one-, two- and three-byte characters x sent twice inside or outside a run, twice") { int k = choose(27 * 6); mc::isolated(playLong, &k); }
