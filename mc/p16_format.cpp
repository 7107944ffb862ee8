// P16: formatting is canonical, round-trips and never overruns its destination.
#include "values.h"
static Txt decimal(I128 i) { Txt t; char c[50]; int n = 0; bool neg = i < 0; unsigned __int128 u = neg ? -(unsigned __int128)i : i; do c[n++] = '0' + (int)(u % 10); while (u /= 10); if (neg) t.add(L'-'); while (n) t.add(c[--n]); return t; }
static Txt canonical(const V& v) { if (isInt(v.t)) return decimal(v.i); if (v.t == BooleanType) return v.i ? L"True" : L"False"; Txt t; t.add((wchar_t)v.i); return t; }
static StringBuilder* app(StringBuilder* sb, const V& v) {
  switch (v.t) {
#define S(T, X, N) case T: return sb->Append((N)X);
  S(BooleanType, v.i, Boolean) S(CharType, v.i, Char) S(SByteType, v.i, SByte) S(ByteType, v.i, Byte) S(Int16Type, v.i, Int16) S(UInt16Type, v.i, UInt16) S(Int32Type, v.i, Int32) S(UInt32Type, v.i, UInt32) S(Int64Type, v.i, Int64) S(UInt64Type, v.i, UInt64) S(SingleType, v.d, Single) S(DoubleType, v.d, Double) default: abort();
  }
}
// parse with the type's own parser, back to the value
static bool parse(DataType t, String* s, I128& out, bool& tried) {
  tried = true;
  switch (t) {
#define Q(T, N, C) case T: { C r = 0, q = 0; Ex e = attempt([&] { r = N::Parse(s); }); bool b = N::TryParse(s, q); out = r; return e == OK_ && b && q == r; }
  Q(SByteType, SByteValue, SByte) Q(ByteType, ByteValue, Byte) Q(Int16Type, Int16Value, Int16) Q(UInt16Type, UInt16Value, UInt16) Q(Int32Type, Int32Value, Int32) Q(UInt32Type, UInt32Value, UInt32) Q(Int64Type, Int64Value, Int64) Q(UInt64Type, UInt64Value, UInt64) Q(CharType, CharValue, Char)
  case BooleanType: { bool r = false; Ex e = attempt([&] { r = BooleanValue::Parse(s); }); out = r; return e == OK_; }
  default: tried = false; return false;
  }
}
static void check(const V& v) {
  Object* o = box(v); Txt w = canonical(v); String* s = o->ToString(); EXPECT(sameText(s, w), "text", "%s as text is %s, expected %s", showV(v), show(s), show(w));
  StringBuilder* sb = app(new StringBuilder(), v); EXPECT(sb->get_Length() == w.n && sameText(sb->ToString(), w), "append", "%s appended gives %s", showV(v), show(sb->ToString())); sb->Clear()->Append(o); EXPECT(sameText(sb->ToString(), w), "append", "%s appended as object gives %s", showV(v), show(sb->ToString()));
  EXPECT(sameText(String::Concat(o), w), "concat", "%s concatenated gives %s", showV(v), show(String::Concat(o))); if (v.t == CharType) EXPECT(sameText(CharValue::ToString((Char)v.i), w), "text/static", "static text of %s", showV(v));
  I128 back = 0; bool tried; bool good = parse(v.t, s, back, tried); EXPECT(good && back == v.i, "round-trip", "%s does not parse back from %s", showV(v), show(s)); state(w.hash());
}
SUITE(small_values, 0, "every value of Boolean, SByte, Byte, Int16, UInt16 and every character 0..65535") { static const DataType ts[] = { BooleanType, SByteType, ByteType, Int16Type, UInt16Type, CharType }; DataType t = pick(ts); I128 lo, hi; rangeOf(t, lo, hi); int n = (int)(hi - lo) + 1; int a = choose(n > 256 ? 256 : n); int b = n > 256 ? choose(256) : 0; check({ t, n > 256 ? lo + a * 256 + b : lo + a, 0 }); }
SUITE(boundary_values, 0, "boundary values (powers of two and their neighbours, extremes) of the 10 integer-like types") { static const DataType ts[] = { Int32Type, UInt32Type, Int64Type, UInt64Type, SByteType, ByteType, Int16Type, UInt16Type, BooleanType, CharType }; DataType t = pick(ts); check(chooseBoundary(t)); }
SUITE(decimal_shapes, 0, "values d*10^k+e for d 1..9, k 0..19, e -2..2, both signs, and repdigits, that fit Int32, UInt32, Int64, UInt64") { static const DataType ts[] = { Int32Type, UInt32Type, Int64Type, UInt64Type }; DataType t = pick(ts); int d = 1 + choose(9), k = choose(20), e = choose(6); I128 v = 0; if (e < 5) { v = d; for (int i = 0; i < k; i++) v *= 10; v += e - 2; } else for (int i = 0; i <= k; i++) v = v * 10 + d; if (choose(2)) v = -v; I128 lo, hi; rangeOf(t, lo, hi); if (v < lo || v > hi) mc::discard(); check({ t, v, 0 }); }
SUITE(low_range, 0, "every Int32, UInt32, Int64 and UInt64 value within 30000 (thorough 400000) of zero, of both extremes and of 2^31, 2^32, 10^9, 10^10, 10^18") { static const DataType ts[] = { Int32Type, UInt32Type, Int64Type, UInt64Type }; DataType t = pick(ts); I128 lo, hi; rangeOf(t, lo, hi); I128 c[] = { 0, lo, hi, (I128)1 << 31, -((I128)1 << 31), (I128)1 << 32, 1000000000, -1000000000, 10000000000LL, -10000000000LL, 1000000000000000000LL, -1000000000000000000LL }; I128 v = c[choose(12)] + (thorough ? choose(800) * 1000 + choose(1000) - 400000 : choose(60) * 1000 + choose(1000) - 30000); if (v < lo || v > hi) mc::discard(); check({ t, v, 0 }); }
// formatting into a caller-supplied buffer of exactly k characters
static void into(Object* o, const Txt& w, int k, const char* what) {
  Char* b = (Char*)malloc(sizeof(Char) * (k ? k : 1)); Char* keep = (Char*)malloc(sizeof(Char) * (k ? k : 1)); for (int i = 0; i < k; i++) b[i] = keep[i] = 0x2603; if (k == 0) b = b + 0; Int32 r = -99; Char* arg = k ? b : (Char*)malloc(0);
  Ex e = attempt([&] { r = o->FormatString(arg, k); }); step(); if (k >= w.n + 1) { if (e != OK_ || r != w.n) fail("buffer/fits", "%s of length %d into a buffer of %d: %s, returned %d", what, w.n, k, exName(e), r); if (memcmp(arg, w.c, w.n * sizeof(Char))) fail("buffer/text", "%s into a buffer of %d gave %s, expected %s", what, k, show(arg, w.n), show(w)); }
  (void)keep; // too small: whatever is answered, the redzones show that nothing outside was written
}
SUITE(scalar_buffers, 0, "boundary values of all 14 scalar types formatted into redzoned buffers of every size 0..length+3, twice and via ToString in between") { DataType t = scalarTypes[choose(NSCALAR)]; V v = chooseBoundary(t); Object* o = box(v); String* s = o->ToString(); Txt w = txt(s); int k = choose(w.n + 4); NOTE("%s = %s into %d", showV(v), show(w), k); into(o, w, k, showV(v)); EXPECT(sameText(o->ToString(), w), "stable", "%s changed by formatting", showV(v)); into(o, w, k, showV(v)); state(mc::mix(w.hash(), k)); }
SUITE(text_buffers, 0, "strings, builders and builder-appended strings of every length 0..140 and 250..260 into buffers of 9 sizes around the length; plain objects and exceptions") { int n = choose(152); if (n > 140) n += 109; int f = choose(2), k = choose(9); Txt t; for (int i = 0; i < n; i++) t.add(i % 11 == 7 ? 0 : L'A' + i % 26); String* s = new String(mkChars(t)); Object* o = f ? (Object*)new StringBuilder(s) : (Object*)s; static const int d[] = { 0, 1, -1, 2, -2, 3, 17, -1000, 500 }; int size = n + d[k] < 0 ? 0 : n + d[k]; if (k == 7) size = 0; into(o, t, size, f ? "builder" : "string"); EXPECT(sameText(s, t), "stable", "text changed by formatting"); state(n * 16 + k); }
SUITE(object_buffers, 0, "a plain object and objects of the library without a text of their own into buffers of every size 0..12") { int k = choose(13); Object* o = new Object(); Txt w(txt(o->ToString())); into(o, w, k, "object"); EXPECT(w == lit("Object"), "object", "plain object text %s", show(w)); state(k); }
SUITE(to_string_lengths, 0, "ToString through the base class of strings and builders of every length 0..300 (thorough 0..1400)") { int n = choose(thorough ? 1401 : 301), f = choose(2); Txt t; for (int i = 0; i < n; i++) t.add(L'A' + i % 26); String* s = mk(t); Object* o = f ? (Object*)new StringBuilder(s) : (Object*)s; EXPECT(sameText(o->ToString(), t), "length", "ToString of %d characters", n); EXPECT(sameText(String::Concat(o, o), [&] { Txt u(t); if (n <= 700) u.add(t); return u; }()) || n > 700, "length", "concatenation of %d characters", n); state(n * 2 + f); }
SUITE(float_texts, 0, "all boundary floating values and d*10^k, d/10^k for d 1..9: ToString, builder append, boxed append and concatenation agree") { bool dbl = choose(2); V v; if (choose(2)) v = chooseBoundary(dbl ? DoubleType : SingleType); else { int d = 1 + choose(9), k = choose(dbl ? 600 : 70) - (dbl ? 300 : 35); double x = d * pow(10, k); if (choose(2)) x = -x; v = { dbl ? DoubleType : SingleType, 0, dbl ? x : (double)(float)x }; } Object* o = box(v); Txt w = txt(o->ToString()); EXPECT(w.n > 0, "float", "%s has no text", showV(v)); EXPECT(sameText(app(new StringBuilder(), v)->ToString(), w), "float", "%s appended differs from %s", showV(v), show(w)); EXPECT(sameText((new StringBuilder())->Append(o)->ToString(), w) && sameText(String::Concat(o), w), "float", "%s boxed differs", showV(v)); for (int k = 0; k < w.n + 3; k++) into(o, w, k, showV(v)); state(w.hash()); }
SUITE(date_span_texts, 0, "dates and spans with every digit count of their fields: text the same by ToString, append and concatenation, buffers of every size") { Object* o; if (choose(2)) { static const int ys[] = { 1, 9, 10, 99, 100, 999, 1000, 9999 }; o = new DateTimeValue(DateTime(pick(ys), pick({ 1, 9, 10, 12 }), pick({ 1, 9, 10, 28 }), pick({ 0, 1, 9, 11, 12, 13, 23 }), pick({ 0, 9, 59 }), pick({ 0, 10, 59 }), pick({ 0, 999 }))); } else { static const long long d[] = { 0, 1, 9, 10, 99, 100, 999, 10675198 }; long long v = d[choose(8)] * 864000000000LL + pick({ 0, 1, 9, 10, 23 }) * 36000000000LL + pick({ 0, 9, 59 }) * 600000000LL + pick({ 0, 10, 59 }) * 10000000LL + pick({ 0, 1, 100, 1234567, 9999999 }); if (choose(2)) v = -v; o = new TimeSpanValue(TimeSpan((Int64)v)); } Txt w = txt(o->ToString()); EXPECT(w.n >= 8 && w.n < 40, "text/length", "text %s", show(w)); EXPECT(sameText((new StringBuilder())->Append(o)->ToString(), w) && sameText(String::Concat(o), w), "append", "appended differs from %s", show(w)); int k = choose(w.n + 4); into(o, w, k, show(w)); EXPECT(sameText(o->ToString(), w), "stable", "changed by formatting"); state(w.hash()); }
// an object of the user's own, with a text of chosen length
struct Custom : Object { int n; Int32 FormatString(Char* where, const Int32 size) { if (size < n + 1) throw new IndexOutOfRangeException(); for (int i = 0; i < n; i++) where[i] = L'a' + i % 26; where[n] = 0; return n; } };
SUITE(custom_objects, 0, "objects of a user class whose text has 0..127 characters: ToString, append and concatenation give it whole") { Custom* c = new Custom(); c->n = choose(128); Txt w; for (int i = 0; i < c->n; i++) w.add(L'a' + i % 26); EXPECT(sameText(((Object*)c)->ToString(), w), "custom", "text of %d characters: %s", c->n, show(((Object*)c)->ToString())); EXPECT(sameText((new StringBuilder())->Append((Object*)c)->ToString(), w) && sameText(String::Concat(c, c), [&] { Txt u(w); u.add(w); return u; }()), "custom", "appending %d characters", c->n); state(c->n); }

// an object of the user's own whose text is made from other objects' texts
struct Nest : Object { int depth, kind; Object* inner; Nest(int d, int k, Object* o) : depth(d), kind(k), inner(o) {} String* text(Object* o) { return kind == 0 ? o->ToString() : kind == 1 ? (new StringBuilder())->Append(o)->ToString() : kind == 2 ? String::Concat(o) : String::Concat(mk(L""), o); }
  Int32 FormatString(Char* where, const Int32 size) override { if (size < 2) throw new IndexOutOfRangeException(); where[0] = L'<'; String* s = text(inner); String* again = text(new Int32Value(7)); int n = s->get_Length(); if (size < n + again->get_Length() + 3) throw new IndexOutOfRangeException(); CopyChars(where + 1, size - 1, s->get_Buffer(), n); CopyChars(where + 1 + n, size - 1 - n, again->get_Buffer(), again->get_Length()); where[n + 2] = L'>'; where[n + 3] = 0; return n + 3; } };
SUITE(nested_texts, 0, "objects of a user class that write part of their text, ask other objects (boundary values of all 14 scalar types, or another such object, up to 4 deep) for theirs in 4 ways and go on writing") {
  int depth = 1 + choose(4), kind = choose(4), form = choose(4); Object* o; DataType t = scalarTypes[choose(NSCALAR)]; V v = chooseBoundary(t); o = box(v); Txt w = txt(o->ToString()); for (int i = 0; i < depth; i++) { o = new Nest(i, kind, o); Txt x(L"<"); x.add(w).addA("7>"); w = x; } NOTE("%s %d deep, kind %d", showV(v), depth, kind); String* s = form == 0 ? o->ToString() : form == 1 ? (new StringBuilder())->Append(o)->ToString() : form == 2 ? String::Concat(o) : String::Concat(o, mk(L"")); EXPECT(sameText(s, w), "nested", "text %s, expected %s", show(s), show(w)); if (form == 0) { String* u = o->ToString(); EXPECT(sameText(u, w) && sameText(s, w), "nested", "second text %s", show(u)); into(o, w, w.n + 1, "nested object"); into(o, w, w.n + 3, "nested object"); } state(mc::mix(w.hash(), kind * 4 + form)); }
SUITE(twins, 0, "values that differ in one bit, one half, or by multiples of 2^8..2^56, written one after the other and again: boundary values of Int32, UInt32, Int64, UInt64 and Char") { static const DataType ts[] = { CharType, Int32Type, UInt32Type, Int64Type, UInt64Type }; V v = chooseBoundary(pick(ts)); I128 lo, hi; rangeOf(v.t, lo, hi); twins(v.i, lo, hi, [&](I128 x) { check(V{ v.t, x, 0 }); }); }
SUITE(buffer_ladder, 0, "one value of each of the 14 scalar types, strings and builders of 54 (thorough 76) lengths 0..513 (4097) formatted into redzoned buffers of 74 sizes 0..4097, twice") {
  int k = choose(NSCALAR + 2); Object* o; Txt w; Big b; int n = 0; if (k < NSCALAR) { V v = { scalarTypes[k], scalarTypes[k] == CharType ? 'q' : 1, 1.5 }; o = box(v); w = txt(o->ToString()); n = w.n; } else { n = ladder(0, thorough ? 4097 : 513); b = Big::pattern(n); String* s = mk(b); o = k == NSCALAR ? (Object*)s : (Object*)new StringBuilder(s); } int size = ladder(0, 4097); Char* p = (Char*)malloc(sizeof(Char) * size + (size ? 0 : 1)); NOTE("object %d with text of %d into %d", k, n, size);
  for (int turn = 0; turn < 2; turn++) { for (int i = 0; i < size; i++) p[i] = 0x2603; Int32 r = -99; Ex e = attempt([&] { r = o->FormatString(p, size); }); step(); if (size >= n + 1) { if (e != OK_ || r != n) fail("buffer/fits", "text of %d into a buffer of %d: %s, returned %d", n, size, exName(e), r); if (memcmp(p, k < NSCALAR ? w.c : b.c, n * sizeof(Char))) fail("buffer/text", "text of %d into a buffer of %d gave %s", n, size, show(p, n)); } } if (k < NSCALAR) EXPECT(sameText(o->ToString(), w), "stable", "changed by formatting"); else EXPECT(sameText(o->ToString(), b), "stable", "changed by formatting"); state(mc::mix(k, mc::mix(n, size))); }
