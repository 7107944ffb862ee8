// P29: exceptions carry kind, message and cause to any handler; predefined constants keep their values.
#include "dn.h"
#include <DotNetLibrarySupport.h>
#include <float.h>
#include <limits.h>
#include <fcntl.h>
#include <unistd.h>
using namespace DotnetLibrarySupport;
enum { KINDS = 13 };
static const char* const names[KINDS] = { "IndexOutOfRange", "ArgumentNull", "Rank", "ArgumentOutOfRange", "Argument", "NotImplemented", "InvalidCast", "InvalidOperation", "Format", "Overflow", "ThrowMinMax", "Arithmetic", "DivideByZero" };
#define FORKINDS(X) X(0, IndexOutOfRangeException) X(1, ArgumentNullException) X(2, RankException) X(3, ArgumentOutOfRangeException) X(4, ArgumentException) X(5, NotImplementedException) X(6, InvalidCastException) X(7, InvalidOperationException) X(8, FormatException) X(9, OverflowException) X(10, ThrowMinMaxException) X(11, ArithmeticException) X(12, DivideByZeroException)
static Exception* make(int k) {
#define X(i, T) if (k == i) return new T();
  FORKINDS(X)
#undef X
  return nullptr; }
[[noreturn]] static void raise(int k) {
#define X(i, T) if (k == i) throw new T();
  FORKINDS(X)
#undef X
  throw new Exception(); }
static bool isKind(Exception* e, int k) {
#define X(i, T) if (k == i) return dynamic_cast<T*>(e) != nullptr;
  FORKINDS(X)
#undef X
  return false; }
// A handler for kind h in front of one for the base: which one takes it, and what arrives there.
struct Got { int where; Exception* e; }; // 0 nothing, 1 own handler, 2 base handler
template <class T, class F> static Got with(F f) { try { f(); return { 0, nullptr }; } catch (T* e) { return { 1, e }; } catch (Exception* e) { return { 2, e }; } }
template <class F> static Got under(int h, F f) {
#define X(i, T) if (h == i) return with<T>(f);
  FORKINDS(X)
#undef X
  return { 0, nullptr }; }
static Txt text[KINDS]; static bool known;
static void learn() { if (known) return; for (int k = 0; k < KINDS; k++) { Exception* e = make(k); if (!e->get_Message()) fail("message", "%s has no message", names[k]); text[k] = txt(e->get_Message()); } known = true; }
static void judge(Exception* e, int k, const char* what) {
  step(); String* m = e->get_Message(); if (!m || m->get_Length() <= 0) fail("message", "%s: %s carries no message", what, names[k]);
  if (!sameText(m, text[k])) fail("message", "%s: %s carries %s, elsewhere %s", what, names[k], show(m), show(text[k]));
  if (e->get_InnerException()) fail("cause", "%s: %s has a cause nobody gave it", what, names[k]);
  if (e->GetBaseException() != e) fail("cause", "%s: %s is not its own base exception", what, names[k]);
}
SUITE(kinds, 0, "13 kinds thrown x 13 handlers in front of the base handler x thrown directly, through frames, or rethrown") {
  learn(); int k = choose(KINDS), h = choose(KINDS), via = choose(4); NOTE("%s under a handler for %s, via %d", names[k], names[h], via);
  auto deep = [&](auto& self, int d) -> void { String* local = new String(L"frame"); if (!d) raise(k); self(self, d - 1); delete local; };
  Got g = under(h, [&] { switch (via) { case 0: raise(k); case 1: deep(deep, 5); break; case 2: try { raise(k); } catch (Exception*) { throw; } break; default: try { try { raise(k); } catch (String*) { fail("handler", "caught as a string"); } } catch (Exception* e) { throw; } } });
  if (!g.where) fail("handler", "%s was not caught", names[k]); if (g.where != (h == k ? 1 : 2)) fail("handler", "%s was caught by the %s handler", names[k], g.where == 1 ? names[h] : "base");
  for (int j = 0; j < KINDS; j++) if (isKind(g.e, j) != (j == k)) fail("handler", "%s %s a %s", names[k], j == k ? "is not" : "is also", names[j]);
  judge(g.e, k, "thrown"); Exception* again = make(k); judge(again, k, "made again"); judge(g.e, k, "after making another"); state(k * 16 + h); }
// ---- chains of causes
static const int CHAIN = 6;
SUITE(causes, 0, "chains of up to 4 (thorough 6) exceptions over every choice of 5 messages each (one being the very object its cause carries), ending in nothing or any of 13 kinds, kept and thrown") {
  learn(); int n = 1 + choose(thorough ? CHAIN : 4), leaf = choose(KINDS + 1), thrown = choose(2); Exception* ex[CHAIN + 1]; Txt want[CHAIN + 1]; Exception* root = leaf ? make(leaf - 1) : nullptr; Exception* below = root;
  for (int i = 0; i < n; i++) { Txt t; String* m = nullptr; switch (choose(5)) { case 4: if (!below) mc::discard(); m = below->get_Message(); for (int j = 0; j < m->get_Length(); j++) t.add(m->get_Buffer()[j]); break; case 0: t = lit("m"); t.add((wchar_t)(L'0' + i)); break; case 1: break; case 2: for (int j = 0; j < 200; j++) t.add((wchar_t)(L'a' + (j + i) % 26)); break; default: t.add(0x4e2d).add(1).add((wchar_t)(L'0' + i)); } want[i] = t; if (!m) m = mk(t); NOTE("message %s", show(t)); ex[i] = i == 0 && !below && choose(2) ? new Exception(m) : new Exception(m, below); below = ex[i]; }
  if (!root) root = ex[0]; Exception* top = ex[n - 1];
  if (thrown) { Exception* caught = nullptr; try { throw top; } catch (Exception* e) { caught = e; } if (caught != top) fail("handler", "another exception arrived"); }
  Exception* e = top; for (int i = n - 1; i >= 0; i--) { step(); if (e != ex[i]) fail("cause", "link %d of %d: the cause is not the one given", n - 1 - i, n); if (!sameText(e->get_Message(), want[i])) fail("message", "link %d of %d: message %s, given %s", n - 1 - i, n, show(e->get_Message()), show(want[i])); if (e->GetBaseException() != root) fail("cause", "link %d of %d: GetBaseException is not the first cause", n - 1 - i, n); for (int k = 0; k < KINDS; k++) if (isKind(e, k)) fail("handler", "a plain exception is a %s", names[k]); e = e->get_InnerException(); }
  if (leaf ? e != root : e != nullptr) fail("cause", "the chain does not end with the given cause"); if (leaf) judge(root, leaf - 1, "as a cause"); state(mc::mix(n * 20 + leaf, want[n - 1].hash())); }
// ---- errors the library raises itself
static String* S(const char* s) { return mk(lit(s)); }
struct Raise { const char* what; void (*f)(); };
static const Raise raises[] = {
#define R(x) { #x, [] { (void)(x); } }
#define RV(x) { #x, [] { x; } }
  R((new Array(Int32Type, 3))->Address(3)), R((new Array(Int32Type, 3))->Address(-5)), R((new Array(Int32Type, 2, 2))->Address(0, 2)), R((new Array(Int32Type, -2))), R((new Array(Int32Type, 3))->GetLength(1)), R((new Array(Int32Type, 3))->GetUpperBound(-1)),
  RV(Array::Copy(nullptr, new Array(Int32Type, 1), 1)), RV(Array::Copy(new Array(Int32Type, 1), nullptr, 1)), RV(Array::Copy(new Array(Int32Type, 2), new Array(Int32Type, 1), 2)), RV(Array::Copy(new Array(Int32Type, 2), 0, new Array(Int32Type, 1), 0, -1)), RV(Array::ConstrainedCopy(new Array(Int32Type, 2), 0, new Array(CharType, 2), 0, 1)), RV(Array::Clear(nullptr, 0, 1)), RV(Array::Clear(new Array(Int32Type, 2), 1, 2)), R(Array::IndexOf(nullptr, nullptr)), R((new Array(Int32Type, 3))->GetValue(3)), RV((new Array(Int32Type, 3))->SetValue(new String(L"x"), 0)), RV((new Array(Int32Type, 2, 2))->CopyTo(new Array(Int32Type, 4), 0)), R((new Array(Int32Type, 2, 2))->GetValue(1)), R((new Array(Int32Type, 2))->GetValue((Array*)nullptr)),
  R(BitConverter::ToInt32(nullptr, 0)), R(BitConverter::ToInt32(new Array(ByteType, 3), 0)), R(BitConverter::ToInt16(new Array(ByteType, 3), 2)), R(BitConverter::ToString(nullptr)),
  RV(Buffer::BlockCopy(nullptr, 0, new Array(ByteType, 1), 0, 1)), RV(Buffer::BlockCopy(new Array(ByteType, 1), 0, new Array(ByteType, 1), 0, 2)), R(Buffer::ByteLength(nullptr)), R(Buffer::GetByte(new Array(ByteType, 1), 1)),
  R(BooleanValue::Parse(S("x"))), R(BooleanValue::Parse(nullptr)), R(ByteValue::Parse(S("256"))), R(ByteValue::Parse(S(""))), R(ByteValue::Parse(nullptr)), R(SByteValue::Parse(S("128"))), R(SByteValue::Parse(S("-"))), R(Int16Value::Parse(S("32768"))), R(Int16Value::Parse(S("3 2"))), R(UInt16Value::Parse(S("65536"))), R(Int32Value::Parse(S("2147483648"))), R(Int32Value::Parse(S("q"))), R(UInt32Value::Parse(S("-1"))), R(Int64Value::Parse(S("9223372036854775808"))), R(UInt64Value::Parse(S("18446744073709551616"))), R(UInt64Value::Parse(nullptr)), R(SingleValue::Parse(S("1e"))), R(DoubleValue::Parse(S("."))), R(DoubleValue::Parse(nullptr)), R(CharValue::Parse(S("ab"))), R(CharValue::Parse(nullptr)),
  R((new Int32Value(1))->CompareTo(new String(L"1"))), R((new ByteValue(1))->CompareTo(new Int32Value(1))), R((new BooleanValue(true))->CompareTo(new Int32Value(1))), R((new CharValue(L'1'))->CompareTo(new Int32Value(1))), R((new DoubleValue(1))->CompareTo(new Int32Value(1))), R((new TimeSpanValue(TimeSpan(1)))->CompareTo(new Int32Value(1))), R((new DateTimeValue(DateTime(1)))->CompareTo(new Int32Value(1))), R((new Int64Value(1LL << 40))->get_AsInt32()), R((new DoubleValue(NAN))->get_AsInt32()), R((new Int32Value(-1))->get_AsByte()), R((new Int32Value(-1))->get_AsChar()),
  R(Math::Abs(Int32Value::MinValue)), R(Math::Clamp(1, 3, 2)), R(Math::Clamp(1.0, 3.0, 2.0)), R(Math::Clamp((Byte)1, (Byte)3, (Byte)2)), R(Math::Divide((Int64)1, (Int64)0)), R(Math::Sign(NAN)), R(Math::Round(1.0, 16)), RV(Int32 r; Math::DivRem(1, 0, r)),
  R((new String(L"abc"))->get_Chars(3)), R((new String(L"abc"))->get_Chars(-1)), R((new String(L"abc"))->Substring(4)), R((new String(L"abc"))->Substring(1, 3)), R((new String(L"abc"))->Insert(4, S("x"))), R((new String(L"abc"))->Insert(0, nullptr)), R((new String(L"abc"))->Remove(3, 1)), R((new String(L"abc"))->Replace(S(""), S("x"))), R((new String(L"abc"))->Replace((String*)nullptr, S("x"))), R((new String(L"abc"))->IndexOf((String*)nullptr)), R((new String(L"abc"))->IndexOf(L'a', 4)), R((new String(L"abc"))->LastIndexOf(L'a', 5)), R((new String(L"abc"))->IndexOfAny(nullptr)), R((new String(L"abc"))->Contains(nullptr)), R((new String(L"abc"))->StartsWith(nullptr)), R((new String(L"abc"))->EndsWith((String*)nullptr)), R((new String(L"abc"))->PadLeft(-1)), RV((new String(L"abc"))->CopyTo(0, nullptr, 0, 1)), RV((new String(L"abc"))->CopyTo(0, new Array(CharType, 1), 0, 2)), R((new String(L"abc"))->CompareTo(new Int32Value(1))), R(String::Copy(nullptr)), R(String::Concat((Array*)nullptr)), R(String::Join(L',', nullptr)), R((new String(L"abc"))->ToCharArray(2, 2)), R(String::Compare(S("a"), -1, S("a"), 0, 1)),
  R((new StringBuilder(-1))), R((new StringBuilder(5, 4))), R((new StringBuilder())->get_Chars(0)), RV((new StringBuilder())->set_Chars(0, L'a')), RV((new StringBuilder())->set_Length(-1)), RV((new StringBuilder(2, 4))->set_Length(5)), R((new StringBuilder(2, 4))->Append(S("abcde"))), R((new StringBuilder())->Insert(1, S("a"))), R((new StringBuilder())->Remove(0, 1)), R((new StringBuilder(S("ab")))->Replace(S(""), S("x"))), R((new StringBuilder(S("ab")))->Replace(L'a', L'b', 0, 3)), R((new StringBuilder())->Append((Char)L'a', -1)), R((new StringBuilder(S("ab")))->ToString(1, 2)), R((new StringBuilder())->EnsureCapacity(-1)),
  R((new DateTimeValue(DateTime(0, 1, 1)))), R((new DateTimeValue(DateTime(2001, 2, 29)))), R((new DateTimeValue(DateTimeValue::MaxValue))->AddDays(1)), R((new DateTimeValue(DateTimeValue::MinValue))->AddMonths(-1)), R((new DateTimeValue(DateTimeValue::MinValue))->AddMonths(120001)), R(DateTimeValue::DaysInMonth(2000, 13)), R(DateTimeValue::IsLeapYear(0)), R((new DateTimeValue(DateTimeValue::MaxValue))->AddYears(1)),
  R((new TimeSpanValue(TimeSpanValue::MinValue))->Negate()), R((new TimeSpanValue(TimeSpanValue::MinValue))->Duration()), R((new TimeSpanValue(TimeSpanValue::MaxValue))->Add(TimeSpan(1))), R(TimeSpanValue::FromDays(1e30)), R(TimeSpanValue::FromDays(NAN)), R(TimeSpanValue::Parse(S("25:00:00"))), R(TimeSpanValue::Parse(S("x"))), R(TimeSpanValue::Parse(nullptr)), R(TimeSpan(INT_MAX, 0, 0, 0)),
};
enum { RAISES = sizeof raises / sizeof *raises };
static void raised(const Raise& r, int h) {
  Got g = under(h, r.f); step(); if (!g.where) return; // whether the call is an error is the business of its own property
  int k = -1; for (int j = 0; j < KINDS; j++) if (isKind(g.e, j)) { if (k >= 0) fail("handler", "%s: the error is a %s and a %s", r.what, names[k], names[j]); k = j; }
  if (k < 0) fail("handler", "%s: the error is of no kind (message %s)", r.what, g.e->get_Message() ? show(g.e->get_Message()) : "none");
  if (g.where != (h == k ? 1 : 2)) fail("handler", "%s: a %s was caught by the %s handler", r.what, names[k], g.where == 1 ? names[h] : "base"); judge(g.e, k, r.what); state(mc::hashBytes(r.what, strlen(r.what), k)); }
SUITE(raised_errors, 0, "about 130 invalid library calls x 13 handlers in front of the base handler") { learn(); int i = choose(RAISES), h = choose(KINDS); NOTE("%s under a handler for %s", raises[i].what, names[h]); raised(raises[i], h); }
SUITE(raised_pairs, 0, "every ordered pair of invalid library calls: the first error still carries its message and kind after the second") { learn(); int i = choose(RAISES), j = choose(RAISES); NOTE("%s then %s", raises[i].what, raises[j].what); Got a = under(0, raises[i].f); if (!a.where) return; int k = -1; for (int q = 0; q < KINDS; q++) if (isKind(a.e, q)) k = q; if (k < 0) fail("handler", "%s: the error is of no kind", raises[i].what); raised(raises[j], 9); judge(a.e, k, raises[i].what); if (!isKind(a.e, k)) fail("handler", "%s: kind lost", raises[i].what); }
// ---- long chains
SUITE(long_chains, 0, "chains of 1..80, 100, 127..130, 200, 255..257, 500, 1000, 2000 causes over 3 kinds of end, kept or rethrown: base exception, every cause and every message, from the top, the middle and the end") {
  int q = choose(93), end = choose(3), how = choose(2); static const int more[] = { 100, 127, 128, 129, 130, 200, 255, 256, 257, 500, 1000, 2000, 1500 }; int n = q < 80 ? q + 1 : more[q - 80]; NOTE("%d causes, end %d", n, end); learn();
  static Exception* ex[2001]; Exception* root = end == 0 ? new Exception(S("root")) : end == 1 ? new FormatException() : make(3); ex[0] = root; for (int i = 1; i <= n; i++) { char m[20]; sprintf(m, "level %d", i); ex[i] = new Exception(S(m), ex[i - 1]); }
  Exception* top = ex[n]; if (how) { try { try { throw top; } catch (Exception* e) { throw; } } catch (Exception* e) { if (e != top) fail("handler", "another exception arrived"); } }
  for (int round = 0; round < 2; round++) for (int i : { n, n / 2, 1, n - 1, 0 }) { step(); Exception* b = ex[i]->GetBaseException(); if (b != root) fail("cause", "with %d causes below of %d, GetBaseException is not the first cause", i, n); }
  int c = n; for (Exception* e = top; e; e = e->get_InnerException(), c--) { step(); if (c < 0 || e != ex[c]) fail("cause", "%d below the top of %d: the cause is not the one given", n - c, n); if (c) { char m[20]; sprintf(m, "level %d", c); if (!sameText(e->get_Message(), lit(m))) fail("message", "%d below the top: %s", n - c, show(e->get_Message())); } } if (c != -1) fail("cause", "%d causes: the chain ends after %d", n, n - c - 1);
  if (end == 0) { if (!sameText(root->get_Message(), lit("root"))) fail("message", "the first cause's message changed"); } else judge(root, end == 1 ? 8 : 3, "at the end"); state(n * 6 + end * 2 + how); }
SUITE(messages, 0, "messages of 50 (thorough 66) lengths 0..2049 (8192) and 32767..70000, with one character of 116 kinds at the front, the middle or the end (short ones) or a NUL or none, given alone, with a cause or as the message of a cause, read before and after being thrown and after another error") {
  learn(); int q = choose(5); int n = q ? ladder(0, thorough ? 8192 : 2049) : pick({ 32767, 32768, 40000, 65535, 65536, 70000 }); int form = choose(3), where = choose(4), ch = where == 3 || n > 5 ? 0 : choose(NCHAR + 1); Big x = Big::pattern(n); if (where < 3) { if (!n) mc::discard(); x.c[where == 0 ? 0 : where == 1 ? n / 2 : n - 1] = ch ? (wchar_t)charLadder[ch - 1] : 0; }
  NOTE("message of %d characters, form %d, place %d, character %d", n, form, where, ch); String* m = mk(x); Exception* cause = form == 1 ? new Exception(S("cause")) : nullptr; Exception* e = form == 1 ? new Exception(m, cause) : new Exception(m); Exception* top = form == 2 ? new Exception(S("top"), e) : e;
  for (int round = 0; round < 3; round++) { step(); if (!e->get_Message() || !sameText(e->get_Message(), x)) fail("message", "message of %d characters reads %s", n, show(e->get_Message())); if (e->get_InnerException() != cause || e->GetBaseException() != (cause ? cause : e) || top->GetBaseException() != (cause ? cause : e)) fail("cause", "the cause is not the one given"); if (form == 2 && (top->get_InnerException() != e || !sameText(top->get_Message(), lit("top")))) fail("cause", "the cause is not the one given");
    if (round == 0) { Exception* c = nullptr; try { throw top; } catch (Exception* g) { c = g; } if (c != top) fail("handler", "another exception arrived"); } else if (round == 1) { Ex k = attempt([&] { Int32Value::Parse(mk(lit("x"))); }); if (k != xFormat) fail("handler", "a malformed number raised %s", exName(k)); } }
  state(mc::mix(mc::mix(n, form * 4 + where), ch)); }
SUITE(null_messages, 0, "chains of up to 4 (thorough 6) exceptions, each with a null message, an empty one or a text: a null message reads as null or as that of an exception made without one, causes as given") {
  learn(); int n = 1 + choose(thorough ? 6 : 4); Exception* ex[6]; int kind[6]; Exception* below = choose(2) ? make(3) : nullptr; Exception* root = below; for (int i = 0; i < n; i++) { kind[i] = choose(3); String* m = kind[i] == 0 ? nullptr : kind[i] == 1 ? S("") : S("text"); ex[i] = !below && choose(2) ? new Exception(m) : new Exception(m, below); below = ex[i]; if (!root) root = ex[0]; }
  String* def = (new Exception())->get_Message(); for (int round = 0; round < 2; round++) for (int i = n - 1; i >= 0; i--) { step(); NOTE("link %d kind %d", i, kind[i]); String* g = ex[i]->get_Message(); Txt w = lit(kind[i] == 2 ? "text" : ""); if (kind[i] ? !g || !sameText(g, w) : g && !g->Equals(def)) fail("message", "link %d: message %s", i, g ? show(g) : "null"); if (ex[i]->GetBaseException() != root) fail("cause", "link %d: GetBaseException is not the first cause", i); Exception* want = i ? ex[i - 1] : root == ex[0] ? nullptr : root; if (ex[i]->get_InnerException() != want) fail("cause", "link %d: the cause is not the one given", i); }
  int h = 0; for (int i = 0; i < n; i++) h = h * 3 + kind[i]; state(mc::mix(h, n)); }
// ---- predefined constants
static void constants(const char* when) {
  step(); 
#define C(x, v) do { auto got = x; decltype(got) want = v; if (memcmp(&got, &want, sizeof got)) fail("constant", "%s: " #x " changed", when); } while (0)
  C(SByteValue::MaxValue, 127); C(SByteValue::MinValue, -128); C(ByteValue::MaxValue, 255); C(ByteValue::MinValue, 0); C(Int16Value::MaxValue, 32767); C(Int16Value::MinValue, -32768); C(UInt16Value::MaxValue, 65535); C(UInt16Value::MinValue, 0); C(Int32Value::MaxValue, INT_MAX); C(Int32Value::MinValue, INT_MIN); C(UInt32Value::MaxValue, UINT_MAX); C(UInt32Value::MinValue, 0); C(Int64Value::MaxValue, LLONG_MAX); C(Int64Value::MinValue, LLONG_MIN); C(UInt64Value::MaxValue, ULLONG_MAX); C(UInt64Value::MinValue, 0);
  C(SingleValue::MaxValue, FLT_MAX); C(SingleValue::MinValue, -FLT_MAX); C(SingleValue::Epsilon, 1.401298E-45F); C(SingleValue::PositiveInfinity, INFINITY); C(SingleValue::NegativeInfinity, -INFINITY); C(DoubleValue::MaxValue, DBL_MAX); C(DoubleValue::MinValue, -DBL_MAX); C(DoubleValue::Epsilon, 4.94065645841247E-324); C(DoubleValue::PositiveInfinity, INFINITY); C(DoubleValue::NegativeInfinity, -INFINITY); if (!(DoubleValue::NaN != DoubleValue::NaN) || !(SingleValue::NaN != SingleValue::NaN)) fail("constant", "%s: NaN changed", when);
  C(Math::PI, M_PI); C(Math::E, M_E); C(BitConverter::IsLittleEndian, true); C(DateTimeValue::MinValue.value, 0); C(DateTimeValue::MaxValue.value, 3155378975999999999ULL); C(TimeSpanValue::MaxValue.value, LLONG_MAX); C(TimeSpanValue::MinValue.value, LLONG_MIN); C(TimeSpanValue::Zero.value, 0); C(TimeSpanValue::TicksPerMillisecond, 10000); C(TimeSpanValue::TicksPerSecond, 10000000); C(TimeSpanValue::TicksPerMinute, 600000000); C(TimeSpanValue::TicksPerHour, 36000000000LL); C(TimeSpanValue::TicksPerDay, 864000000000LL); C(CharValue::MinValue, 0);
  if (CharValue::MaxValue != 0xFFFF && CharValue::MaxValue != 0x10FFFF && (unsigned)CharValue::MaxValue != 0x7FFFFFFF) fail("constant", "%s: CharValue::MaxValue is %x", when, (unsigned)CharValue::MaxValue); static Char firstMax; static bool seen; if (!seen) { firstMax = CharValue::MaxValue; seen = true; } C(CharValue::MaxValue, firstMax);
  static const struct { DataType t; int n; } sizes[] = { { BooleanType, 1 }, { CharType, 4 }, { SByteType, 1 }, { ByteType, 1 }, { Int16Type, 2 }, { UInt16Type, 2 }, { Int32Type, 4 }, { UInt32Type, 4 }, { Int64Type, 8 }, { UInt64Type, 8 }, { SingleType, 4 }, { DoubleType, 8 }, { DateTimeType, 8 }, { TimeSpanType, 8 }, { ObjectType, 8 }, { StringType, 8 } }; for (auto& z : sizes) if (DataTypeSize[z.t] != z.n) fail("constant", "%s: the element size of type %d is %d", when, z.t, DataTypeSize[z.t]);
  static const struct { String** s; const char* t; const char* n; } texts[] = { { &String::Empty, "", "String::Empty" }, { &BooleanValue::TrueString, "True", "TrueString" }, { &BooleanValue::FalseString, "False", "FalseString" } }; for (auto& q : texts) { if (!*q.s) fail("constant", "%s: %s is null", when, q.n); Txt t = lit(q.t); if (!sameText(*q.s, t) || !(*q.s)->Equals(mk(t)) || (*q.s)->GetRawDataType() != StringType) fail("constant", "%s: %s is %s", when, q.n, show(*q.s)); }
}
static Array* A(std::initializer_list<Object*> l) { Array* a = new Array(ObjectType, (int)l.size()); int i = 0; for (Object* o : l) *(Object**)a->Address(i++) = o; return a; }
enum { OPS = 34, RUNOPS = 5 };
static bool capturing;
static void quiet() { if (capturing) return; capturing = true; int d = open("/dev/null", O_WRONLY); fflush(stdout); dup2(d, 1); close(d); }
struct Prog : DataAccess { int what; void RunCode() override; };
static void op(int o) {
  String* const T = BooleanValue::TrueString; String* const F = BooleanValue::FalseString; String* const E = String::Empty; String* x = S("x1y"); StringBuilder* sb;
  switch (o) {
  case 0: sb = new StringBuilder(T); sb->set_Chars(0, L'*'); sb->Append(F); sb->Replace(L'e', L'#'); sb->Insert(0, T, 3); sb->Clear(); sb->Append(T); delete sb; break;
  case 1: sb = new StringBuilder(E); for (int i = 0; i < 40; i++) sb->Append(T); sb->Replace(T, F); sb->Remove(2, 20); sb->Replace(F, E); sb->ToString(); delete sb; break;
  case 2: sb = new StringBuilder(T, 0, 2, 4); sb->get_Buffer()[0] = L'!'; sb->set_Length(0); sb->set_Length(9); delete sb; break;
  case 3: String::Concat(T, F, E, T); String::Concat(A({ T, E, F })); String::Concat(E, E); break;
  case 4: T->ToUpper(); F->ToLower(); E->ToUpper(); T->ToLowerInvariant(); F->ToUpperInvariant(); break;
  case 5: T->Replace(L'T', L'x'); F->Replace(S("al"), S("LONGER")); E->Replace(L'a', L'b'); T->Replace(S("rue"), E); break;
  case 6: T->PadLeft(10, L'.'); E->PadRight(3); F->PadLeft(5); E->PadLeft(0); break;
  case 7: T->Insert(2, F); E->Insert(0, T); F->Remove(1, 3); T->Remove(0); T->Insert(4, E); break;
  case 8: T->Trim(); E->Trim(); F->Trim(mkChars(lit("Fe"))); T->TrimStart(mkChars(lit("Tr"))); E->TrimEnd(nullptr); break;
  case 9: T->Substring(0); F->Substring(1, 2); E->Substring(0, 0); String::Copy(E); String::Copy(T); E->ToString(); T->ToString(); break;
  case 10: { Array* a = T->ToCharArray(); *(Char*)a->Address(0) = L'#'; Array* b = new Array(CharType, 8); F->CopyTo(0, b, 1, 5); *(Char*)b->Address(1) = L'G'; String* s = new String(a); s->ToUpper(); Array* c = E->ToCharArray(); (void)c; break; }
  case 11: String::Join(L',', A({ T, F })); String::Join(E, A({ T, E, F })); String::Join(T, A({ F, F })); break;
  case 12: { String* s = new BooleanValue(true) ? (new BooleanValue(true))->ToString() : nullptr; Boolean b = BooleanValue::Parse(S("True")); (void)b; (void)s; (new BooleanValue(false))->ToString()->ToUpper(); sb = new StringBuilder(); sb->Append((Boolean)true); sb->Insert(0, (Boolean)false); sb->set_Chars(0, L'f'); break; }
  case 13: { Int32 v = Int32Value::MaxValue; Int32Value::TryParse(S("zz"), v); Int32Value::TryParse(S("-2147483648"), v); Int64 w = Int64Value::MinValue; Int64Value::TryParse(S("9223372036854775807"), w); UInt64 u = 0; UInt64Value::TryParse(S("18446744073709551615"), u); ByteValue::Parse(S("255")); SByteValue::Parse(S("-128")); Int16Value::Parse(S("-32768")); UInt16Value::Parse(S("65535")); UInt32Value::Parse(S("4294967295")); break; }
  case 14: { Double d = 0; DoubleValue::TryParse(S("1.7976931348623157E308"), d); Single f = 0; SingleValue::TryParse(S("3.4028235E38"), f); DoubleValue::TryParse(S("nope"), d); (new DoubleValue(DoubleValue::MaxValue))->ToString(); (new SingleValue(SingleValue::Epsilon))->ToString(); (new DoubleValue(DoubleValue::NaN))->ToString(); break; }
  case 15: { TimeSpan t; TimeSpanValue::TryParse(S("1.02:03:04"), t); TimeSpanValue::TryParse(S("bad"), t); (new TimeSpanValue(TimeSpanValue::Zero))->Add(TimeSpan(5)); (new TimeSpanValue(TimeSpanValue::MaxValue))->Subtract(TimeSpanValue::Zero); TimeSpanValue::op_Addition(TimeSpanValue::Zero, TimeSpan(9)); TimeSpanValue::op_UnaryNegation(TimeSpanValue::MaxValue); TimeSpanValue::op_UnaryPlus(TimeSpanValue::Zero); attempt([] { TimeSpanValue::op_UnaryNegation(TimeSpanValue::MinValue); }); break; }
  case 16: { TimeSpanValue z(TimeSpanValue::Zero); z.Negate(); z.Duration(); attempt([&] { z.Divide(2.0); }); z.Multiply(3); z.ToString(); TimeSpanValue m(TimeSpanValue::MinValue); m.ToString(); m.get_TotalDays(); TimeSpanValue::FromDays(3); TimeSpanValue::FromTicks(77); break; }
  case 17: { DateTimeValue m(DateTimeValue::MaxValue); attempt([&] { m.AddDays(1); }); m.AddDays(-1); m.Add(TimeSpanValue::Zero); m.Subtract(DateTimeValue::MinValue); m.ToString(); m.get_Date(); m.get_TimeOfDay(); attempt([&] { m.ToLocalTime(); }); attempt([&] { m.ToUniversalTime(); }); break; }
  case 18: { DateTimeValue m(DateTimeValue::MinValue); m.AddYears(5); m.AddTicks(3); attempt([&] { m.AddMonths(-1); }); DateTimeValue::op_Addition(DateTimeValue::MinValue, TimeSpan(4)); DateTimeValue::op_Subtraction(DateTimeValue::MaxValue, DateTimeValue::MinValue); DateTimeValue::Compare(DateTimeValue::MinValue, DateTimeValue::MaxValue); m.ToString(); attempt([&] { m.ToLocalTime(); }); DateTimeValue::get_Now(); DateTimeValue::get_UtcNow(); DateTimeValue::get_Today(); break; }
  case 19: { Array* a = new Array(DateTimeType, 3); a->SetValue(new DateTimeValue(DateTimeValue::MaxValue), 0); *(DateTime*)a->Address(0) = DateTime(1); Array* b = new Array(TimeSpanType, 2); b->SetValue(new TimeSpanValue(TimeSpanValue::Zero), 1); *(TimeSpan*)b->Address(1) = TimeSpan(8); Array::Clear(a, 0, 3); break; }
  case 20: { Array* a = A({ T, F, E }); Array* b = new Array(ObjectType, 3); Array::Copy(a, b, 3); Array::Clear(a, 0, 3); a->SetValue(x, 0); b->SetValue(x, 1); Array::IndexOf(b, E); delete a; delete b; break; }
  case 21: { Array* a = new Array(StringType, 2); a->SetValue(T, 0); a->SetValue(E, 1); a->GetValue(0); Array::Clear(a, 0, 2); delete a; break; }
  case 22: for (int d = 0; d < 18; d++) if (d != NullType && d != DecimalType) { Array* a = new Array((DataType)d, 3); Array::Clear(a, 0, 3); a->GetLength(0); delete a; } break;
  case 23: { Int32 r; Math::DivRem(Int32Value::MaxValue, 3, r); Int64 q; Math::DivRem(Int64Value::MinValue, 5, q); Math::Clamp(Int32Value::MinValue, 1, 2); Math::Round(Math::PI, 3); Math::Pow(Math::E, 2); Math::Sin(Math::PI); Math::CopySign(DoubleValue::MaxValue, -1); Math::BitIncrement(DoubleValue::MaxValue); attempt([] { Math::Abs(Int64Value::MinValue); }); break; }
  case 24: { Array* a = BitConverter::GetBytes(Int32Value::MaxValue); *(Byte*)a->Address(0) = 1; BitConverter::GetBytes(Math::PI); BitConverter::ToString(a); Array* b = new Array(Int32Type, 4); Buffer::BlockCopy(a, 0, b, 3, 4); Buffer::SetByte(b, 5, 9); break; }
  case 25: { CharValue::Parse(S("Z")); (new CharValue(CharValue::MaxValue))->ToString(); CharValue::ToUpper(L'a'); (new CharValue(L'a'))->ToString()->Replace(L'a', L'b'); break; }
  case 26: attempt([] { String::Empty->get_Chars(0); }); attempt([] { BooleanValue::TrueString->get_Chars(9); }); attempt([] { String::Empty->Substring(1); }); attempt([] { String::Empty->IndexOf((String*)nullptr); }); attempt([] { BooleanValue::Parse(String::Empty); }); break;
  case 27: { CharEnumerator* en = T->GetEnumerator(); while (en->MoveNext()) en->get_Current(); en->Reset(); delete en; CharEnumerator* e2 = E->GetEnumerator(); e2->MoveNext(); delete e2; break; }
  case 28: T->IndexOf(L'e'); E->IndexOf(L'a'); E->LastIndexOf(E); F->LastIndexOf(S("s")); T->IndexOfAny(mkChars(lit("xe"))); T->Contains(E); E->EndsWith(E); T->StartsWith(E); String::Compare(T, F); String::Compare(E, T, true); String::CompareOrdinal(T, F); String::Equals(T, E); String::IsNullOrEmpty(E); String::IsNullOrWhiteSpace(E); break;
  case 29: { Exception* e = new Exception(T, new Exception(E)); e->get_Message()->ToUpper(); e->GetBaseException()->get_Message()->PadLeft(4); try { throw e; } catch (Exception* c) { c->ToString(); } break; }
  case 30: { Object* os[] = { new Int32Value(Int32Value::MinValue), new UInt64Value(UInt64Value::MaxValue), new SByteValue(SByteValue::MinValue), new BooleanValue(true), new CharValue(L'q'), new DoubleValue(DoubleValue::Epsilon), new TimeSpanValue(TimeSpanValue::MaxValue), new DateTimeValue(DateTimeValue::MaxValue) }; for (Object* o1 : os) { String* s = o1->ToString(); sb = new StringBuilder(s); sb->Append(o1); sb->Insert(0, o1); String::Concat(o1, T); delete sb; } break; }
  case 31: { String* s = new String(T->get_Buffer()); s->Replace(L'T', L't'); String* r = new String(F->get_Buffer(), 1, 3); r->ToUpper(); delete s; delete r; new String(L'x', 4); delete new String(L'x', 0); break; }
  case 32: { String* s = E->Insert(0, S("abc")); delete s; s = S("abc")->Remove(0, 3); if (s != E) delete s; s = S("")->Trim(); if (s != E) delete s; s = String::Concat(E, S("z")); delete s; s = (new StringBuilder())->ToString(); if (s != E) delete s; s = S("q")->Substring(1); if (s != E) delete s; break; }
  case 33: (new Int64Value(Int64Value::MaxValue))->get_AsDouble(); attempt([] { (new DoubleValue(DoubleValue::MaxValue))->get_AsInt64(); }); (new SingleValue(SingleValue::MaxValue))->get_AsDouble(); (new DoubleValue(DoubleValue::NaN))->CompareTo(DoubleValue::NegativeInfinity); (new UInt64Value(UInt64Value::MaxValue))->get_AsSingle(); (new CharValue(CharValue::MinValue))->get_AsInt32(); break;
  case 34: quiet(); { Prog p; p.what = 0; p.Run(); } break;
  case 35: quiet(); { Prog p; p.what = 1; p.Run(); } break;
  case 36: quiet(); { Prog p; p.what = 2; p.Run(); } break;
  case 37: PlatformSetup(); break;
  case 38: PlatformSetup(); { char* p; while ((p = new char[16])) memset(p, 0xEE, 16); } PlatformSetup(); break;
  }
  constants("after an operation"); }
void Prog::RunCode() { constants("when a run starts"); Send(String::Empty); Send(BooleanValue::TrueString); if (what == 0) { for (int o : { 0, 3, 5, 9, 12, 20, 31 }) op(o); return; } if (what == 1) { for (int o : { 1, 4, 7, 10, 21, 29, 32 }) op(o); throw new Exception(String::Empty, new FormatException()); } Int32Value::Parse(BooleanValue::TrueString); }
SUITE(constant_histories, 0, "all sequences of 3 (thorough 4) of 34 operations that use the predefined constants, every constant compared after each operation") { constants("at the start"); int n = thorough ? 4 : 3; for (int i = 0; i < n; i++) { int o = choose(OPS); NOTE("op %d", o); op(o); state(o * 64 + i); } }
struct Plan { int n, o[3]; };
static void play(void* a) { Plan* p = (Plan*)a; constants("at the start"); for (int i = 0; i < p->n; i++) { NOTE("op %d", p->o[i]); op(p->o[i]); } state(p->o[0] * 64 + p->o[1]); }
SUITE(constant_runs, 0, "all sequences run / operation-or-run / operation-or-run over 5 ways to run (normal, ending with exceptions, pool reset, pool exhausted) and 39 steps") { Plan p; p.n = 3; p.o[0] = OPS + choose(RUNOPS); p.o[1] = choose(OPS + RUNOPS); p.o[2] = choose(OPS + RUNOPS); mc::isolated(play, &p); }
