// P30: the kind of error a refused call raises is the one documented for its reason.
// Every combination of argument classes of every entry point that refuses arguments; the faults present
// determine the set of kinds allowed (a call with several faults may report any of them).
#include "values.h"
static unsigned faults;
static void fault(bool c, unsigned kinds) { if (c) faults |= kinds; }
enum : unsigned { NUL = EXBIT(xArgumentNull), OUT = EXBIT(xArgumentOutOfRange), IDX = EXBIT(xIndexOutOfRange), ARG = EXBIT(xArgument), RANK = EXBIT(xRank), CAST = EXBIT(xInvalidCast), NOTIMP = EXBIT(xNotImplemented), FORMAT = EXBIT(xFormat), OVER = EXBIT(xOverflow), FINE = EXBIT(OK_),
  TYPE = ARG | OUT | CAST | NOTIMP };   // an array of an unsuitable element type (never "null")
template <class F> static void judge(const char* call, F f) {
  Ex e = attempt(f); unsigned want = faults ? faults : (unsigned)FINE; faults = 0; NOTE("%s: %s", call, exName(e)); expectEx(e, want, call, call); state(mc::hashBytes(call, strlen(call), want * 16 + e)); }
static int pos(int n) { switch (choose(9)) { case 0: return 0; case 1: return -1; case 2: return n; case 3: return n + 1; case 4: return n / 2; case 5: return INT32_MAX; case 6: return INT32_MIN; case 7: return -2; default: return n - 1; } }
static Array* arr(DataType t, int rank, int a) { return rank == 1 ? new Array(t, a) : rank == 2 ? new Array(t, a, 1) : new Array(t, a, 1, 1); }
struct A { Array* a; DataType t; int rank, n; };
static A someArray() { A r; int k = choose(6); r.t = k == 3 ? StringType : k == 4 ? ByteType : Int32Type; r.rank = k == 2 || k == 5 ? 2 : 1; r.n = k == 1 ? 0 : 3; r.a = k == 0 ? nullptr : arr(r.t, r.rank, r.n); if (k == 5) { r.t = StringType; r.a = arr(r.t, 2, 3); } NOTE("array %s rank %d of %d", r.a ? typeName(r.t) : "null", r.rank, r.n); return r; }
static bool past(int n, int st, int c) { return st >= 0 && c >= 0 && (int64_t)st + c > n; }

SUITE(array_ranges, 0, "clear, three forms of copy, copy-to: 6 array classes (null, empty, rank 2, other types) for each array x 9 position classes for each position and count") { faults = 0;
  int op = choose(5); A s = someArray();
  if (op == 0) { int st = pos(s.n), c = pos(s.n); NOTE("Clear %d,%d", st, c); fault(!s.a, NUL); if (s.a) { fault(s.rank > 1, RANK); fault(st < 0 || c < 0 || past(s.n, st, c), IDX); } judge("Array.Clear", [&] { Array::Clear(s.a, st, c); }); return; }
  A d = someArray(); int si = op == 2 || op == 4 ? 0 : pos(s.n), di = op == 2 ? 0 : pos(d.n), c = op == 4 ? s.n : pos(3); NOTE("from %d to %d count %d", si, di, c);
  if (op == 4) { if (!s.a) mc::discard(); fault(!d.a, NUL); fault(s.rank > 1, RANK); if (d.a) { fault(d.rank > 1, RANK | ARG); fault(di < 0, OUT); fault(past(d.n, di, c), ARG); fault(s.t != d.t, NOTIMP); } judge("Array.CopyTo", [&] { s.a->CopyTo(d.a, di); }); return; }
  fault(!s.a || !d.a, NUL); fault(c < 0 || si < 0 || di < 0, OUT); if (s.a) fault(past(s.n, si, c), ARG); if (d.a) fault(past(d.n, di, c), ARG); if (s.a && d.a) { fault(s.rank != d.rank, RANK); fault(s.t != d.t, NOTIMP); }
  if (op == 1) judge("Array.Copy", [&] { Array::Copy(s.a, si, d.a, di, c); }); else if (op == 2) judge("Array.Copy(count)", [&] { Array::Copy(s.a, d.a, c); }); else judge("Array.ConstrainedCopy", [&] { Array::ConstrainedCopy(s.a, si, d.a, di, c); });
}
SUITE(array_elements, 0, "creation with bad sizes; dimension queries; get, set and search with 9 index classes; index arrays null, of rank 2 and of length 0..5; unsuitable values") { faults = 0;
  int op = choose(8);
  if (op == 0) { int r = 1 + choose(3), bad = choose(4), v = pick({ -1, -2, INT32_MIN }); int d[3] = { 2, r > 1 ? 2 : -1, r > 2 ? 2 : -1 }; if (bad < r) { if (bad && v == -1) v = -2; d[bad] = v; faults = OVER; } NOTE("%d %d %d", d[0], d[1], d[2]); judge("new Array", [&] { new Array(Int32Type, d[0], d[1], d[2]); }); return; }
  int rank = 1 + choose(3); Array* a = rank == 1 ? new Array(Int32Type, 3) : rank == 2 ? new Array(Int32Type, 3, 2) : new Array(Int32Type, 3, 2, 2); int dim[3] = { 3, 2, 2 };
  if (op == 1) { int k = pos(rank), q = choose(3); NOTE("dimension %d of %d", k, rank); fault(k < 0 || k >= rank, IDX); judge(q == 0 ? "Array.GetLength" : q == 1 ? "Array.GetLowerBound" : "Array.GetUpperBound", [&] { q == 0 ? a->GetLength(k) : q == 1 ? a->GetLowerBound(k) : a->GetUpperBound(k); }); return; }
  if (op == 2) { int i[3] = { 0, -1, -1 }; bool bad = false; for (int k = 0; k < rank; k++) { i[k] = pos(dim[k]); bad = bad || i[k] < 0 || i[k] >= dim[k]; } int form = choose(3); NOTE("%d %d %d of rank %d", i[0], i[1], i[2], rank); fault(bad, IDX); judge(form == 0 ? "Array.Address" : form == 1 ? "Array.GetValue" : "Array.SetValue", [&] { if (form == 0) a->Address(i[0], i[1], i[2]); else if (form == 1) a->GetValue(i[0], i[1], i[2]); else a->SetValue(new Int32Value(1), i[0], i[1], i[2]); }); return; }
  if (op == 3) { int form = choose(2), k = choose(8); Array* ix = k == 0 ? nullptr : k == 7 ? new Array(Int32Type, 2, 2) : new Array(Int32Type, k - 1); bool bad = false; if (k > 1 && k < 7) for (int j = 0; j < k - 1; j++) { int v = j < rank ? pick({ 0, -1, dim[j], dim[j] - 1 }) : 0; *(Int32*)ix->Address(j) = v; bad = bad || (j < rank && (v < 0 || v >= dim[j])); } NOTE("index array %d", k - 1);
    fault(k == 0, NUL); if (k == 7) { faults = RANK; if (rank == 2) faults |= ARG; } else if (k) { fault(k - 1 != rank, ARG); fault(k - 1 > 3, NOTIMP); fault(k - 1 == rank && bad, IDX); } if (form == 0) judge("Array.GetValue(indexes)", [&] { a->GetValue(ix); }); else judge("Array.SetValue(indexes)", [&] { a->SetValue(new Int32Value(7), ix); }); return; }
  if (op == 4) { DataType t = pick(elemTypes); int k = choose(6); Array* b = new Array(t, 2); Object* v = k == 0 ? nullptr : k == 1 ? (Object*)mk(L"x") : k == 2 ? (Object*)new Int32Value(1) : k == 3 ? (Object*)new Object() : k == 4 ? (Object*)new StringBuilder() : (Object*)new DateTimeValue(DateTime(5)); int i = pick({ 0, 2, -1 }); NOTE("value %d into %s", k, typeName(t));
    fault(i != 0, IDX); fault(k == 0 && t != ObjectType && t != StringType, NUL); if (k == 2) { if (t == StringType || t == DateTimeType || t == TimeSpanType) fault(true, CAST); else if (t == CharType || t == BooleanType) faults |= CAST | (i ? 0 : FINE); } else if (k && t != ObjectType) fault(!(k == 1 && t == StringType) && !(k == 5 && t == DateTimeType), CAST); judge("Array.SetValue", [&] { b->SetValue(v, i); }); return; }
  if (op == 5) { int k = choose(3); Array* b = k == 0 ? nullptr : k == 1 ? new Array(ObjectType, 3) : new Array(ObjectType, 3, 2); int st = pos(3), c = pos(3); NOTE("IndexOf %d,%d", st, c); fault(k == 0, NUL); fault(k == 2, RANK); if (k) { if (st < 0) fault(true, k == 1 ? OUT | FINE : OUT); if (st > 3 || (c >= 0 && past(3, st < 0 ? 0 : st, c))) faults |= OUT; if (st > 3 && k == 1) faults &= ~FINE; } judge("Array.IndexOf", [&] { Array::IndexOf(b, nullptr, st, c); }); return; }
  if (op == 6) { DataType t = pick(elemTypes); Array* b = new Array(t, 2); if (t != ObjectType && t != StringType) faults = NOTIMP | FINE; judge("Array.IndexOf(type)", [&] { Array::IndexOf(b, nullptr); }); return; }
  fault(rank != 1, RANK); judge("Array.EnsureSingleDimension", [&] { a->EnsureSingleDimension(); });
}
SUITE(bytes, 0, "byte length, get, set, block copy over null, non-primitive, multi-dimensional and empty arrays x 9 position classes; bit conversion of 11 types and hexadecimal text over byte arrays of 0, 3, 8 and 12 bytes and null") { faults = 0;
  int op = choose(6); static const DataType tt[] = { ByteType, Int32Type, StringType, DateTimeType };
  auto some = [&](Array*& a, DataType& t, int& n, int& rank) { int k = choose(6); t = k < 4 ? tt[k] : ByteType; rank = k == 5 ? 2 : 1; a = k == 4 ? nullptr : arr(t, rank, 4); n = 4 * sizeOf(t); NOTE("array %s rank %d", a ? typeName(t) : "null", rank); };
  if (op < 4) { Array *a, *b; DataType t, u; int n, m, r, q; some(a, t, n, r); fault(!a, NUL); if (a) { fault(!isPrimitive(t), ARG); if (r > 1) faults |= RANK; }
    if (op == 0) { if (faults == RANK) faults |= FINE; judge("Buffer.ByteLength", [&] { Buffer::ByteLength(a); }); return; }
    if (op < 3) { int i = pos(n); fault(a && (i < 0 || i >= n), OUT); if (faults == RANK) faults |= FINE; if (op == 1) judge("Buffer.GetByte", [&] { Buffer::GetByte(a, i); }); else judge("Buffer.SetByte", [&] { Buffer::SetByte(a, i, 1); }); return; }
    some(b, u, m, q); fault(!b, NUL); if (b) { fault(!isPrimitive(u), ARG); if (q > 1) faults |= RANK; } int so = pos(n), dof = pos(m), c = pos(4); NOTE("%d %d %d", so, dof, c); fault(so < 0 || dof < 0 || c < 0, OUT); if (a) fault(past(n, so, c), ARG); if (b) fault(past(m, dof, c), ARG); if (faults == RANK) faults |= FINE; judge("Buffer.BlockCopy", [&] { Buffer::BlockCopy(a, so, b, dof, c); }); return; }
  int n = pick({ -1, 0, 3, 8, 12 }); Array* a = n < 0 ? nullptr : new Array(ByteType, n);
  if (op == 4) { int t = choose(11), at = pos(n < 0 ? 0 : n); static const int w[] = { 1, 2, 2, 2, 4, 4, 8, 8, 4, 8, 8 }; if (choose(2) && n > w[t]) at = n - w[t] + 1; fault(!a, NUL); if (a) { fault(at < 0 || at >= n, OUT); fault(at >= 0 && at < n && at > n - w[t], ARG); } NOTE("type %d at %d of %d", t, at, n);
    judge("BitConverter.To", [&] { switch (t) { case 0: BitConverter::ToBoolean(a, at); break; case 1: BitConverter::ToChar(a, at); break; case 2: BitConverter::ToInt16(a, at); break; case 3: BitConverter::ToUInt16(a, at); break; case 4: BitConverter::ToInt32(a, at); break; case 5: BitConverter::ToUInt32(a, at); break; case 6: BitConverter::ToInt64(a, at); break; case 7: BitConverter::ToUInt64(a, at); break; case 8: BitConverter::ToSingle(a, at); break; default: BitConverter::ToDouble(a, at); } }); return; }
  int st = pos(n < 0 ? 0 : n), len = pos(n < 0 ? 0 : n); NOTE("ToString %d,%d of %d", st, len, n); fault(!a, NUL); if (a) { fault(st < 0 || st >= n, OUT); fault(len < -1, OUT); fault(past(n, st, len), ARG); if (st == n && (len == 0 || len == -1)) faults |= FINE; } judge("BitConverter.ToString", [&] { BitConverter::ToString(a, st, len); });
}
static Array* charSet(int k) { switch (k) { case 0: return nullptr; case 1: return mkChars(lit("ab")); case 2: return new Array(Int32Type, 2); case 3: return new Array(StringType, 2); default: return new Array(CharType, 2, 1); } }
static void setFault(int k, bool nullBad) { fault(k == 0 && nullBad, NUL); fault(k == 2 || k == 3, TYPE); fault(k == 4, RANK); }
SUITE(string_making, 0, "slices of text, strings from arrays, repeated characters, copying, character access, copying out: null, other types and ranks x 9 position classes; texts of length 0 and 3") { faults = 0;
  int n = choose(2) * 3, op = choose(8); Txt t(L"abc", n); String* s = mk(t); int st = pos(n), c = pos(n); NOTE("length %d: %d, %d", n, st, c);
  switch (op) {
  case 0: { Char* p = choose(2) ? rawChars(t.c, n) : nullptr; if (!p) faults = OUT | NUL; else { fault(st < 0 || st > n, OUT); fault(past(n, st, c), OUT); if (c < -1) faults |= faults ? OUT : OUT | FINE; } judge("new String(text slice)", [&] { new String(p, st, c); }); break; }
  case 1: { int k = choose(4); Array* a = k == 0 ? nullptr : k == 1 ? mkChars(t) : k == 2 ? new Array(Int32Type, n) : new Array(CharType, n, 1); if (!a) { faults = NUL | OUT | FINE; } else { if (st < 0) { st = -1; faults |= FINE | OUT; } if (c < 0) { c = -1; if (st > n) faults |= OUT; } int b = st < 0 ? 0 : st; if (past(n, b, c) && c) faults = OUT; if (k == 2) faults |= TYPE; if (k == 3) faults |= RANK; if (c == 0 || (c < 0 && b >= n)) faults |= FINE | OUT; } judge("new String(array)", [&] { new String(a, st, c); }); break; }
  case 2: fault(c < 0, OUT); if (c > 1000) c = 1000; judge("new String(char, count)", [&] { new String(L'x', c); }); break;
  case 3: fault(st < 0 || st >= n, IDX); judge("String.Chars", [&] { s->get_Chars(st); }); break;
  case 4: { int z = choose(2); fault(z, NUL); judge("String.Copy", [&] { String::Copy(z ? nullptr : s); }); break; }
  case 5: { int k = choose(5), di = pos(4); Array* d = k == 0 ? nullptr : arr(k == 2 ? Int32Type : k == 3 ? StringType : CharType, k == 4 ? 2 : 1, 4); setFault(k, true); fault(st < 0 || di < 0 || c < 0, OUT); fault(past(n, st, c), OUT); if (d) fault(past(4, di, c), OUT | ARG); judge("String.CopyTo", [&] { s->CopyTo(st, d, di, c); }); break; }
  case 6: fault(st < 0 || st > n, OUT); fault(past(n, st, c), OUT); if (c < -1) faults |= faults ? OUT : OUT | FINE; judge("String.ToCharArray", [&] { s->ToCharArray(st, c); }); break;
  default: { CharEnumerator* e = s->GetEnumerator(); int k = choose(6); for (int i = 0; i < k; i++) e->MoveNext(); fault(k == 0 || k > n, EXBIT(xInvalidOperation)); judge("CharEnumerator.Current", [&] { e->get_Current(); }); } }
}
SUITE(string_search, 0, "first and last index of a character, a text and a set in their one-, two- and three-argument forms, starts-with, ends-with, contains: null, sets of other types and ranks x 9 position classes; texts of length 0 and 3") { faults = 0;
  int n = choose(2) * 3, op = choose(9); String* s = mk(Txt(L"abc", n)); int form = op < 6 ? choose(3) : 0, st = form ? pos(n) : 0, c = form == 2 ? pos(n) : n - st; NOTE("length %d: %d, %d", n, st, c);
  String* v = op == 1 || op == 4 || op > 5 ? choose(2) ? mk(L"b") : nullptr : nullptr; int k = op == 2 || op == 5 ? choose(5) : 1; Array* set = charSet(k);
  if (op == 1 || op == 4 || op > 5) fault(!v, NUL); if (op == 2 || op == 5) setFault(k, true);
  if (op < 3) { fault(st < 0 || st > n, OUT); if (form == 2) fault(c < 0 || past(n, st, c), OUT); }
  else if (op < 6) { int b = form == 0 || st < 0 ? n - 1 : st; bool bad = (b >= n && b > 0) || (form == 2 && c >= 0 && (int64_t)c > (int64_t)b + 1); if (form && n == 0) { bad = false; faults |= faults ? OUT : OUT | FINE; } fault(bad, OUT); if (form && st < -1) faults |= faults & ~FINE ? OUT : OUT | FINE; if (form && st == -1) faults |= faults & ~FINE ? OUT : OUT | FINE; if (form == 2 && c < 0) faults |= faults & ~FINE ? OUT : OUT | FINE; if (bad && !(faults & ~OUT & ~FINE)) faults = OUT; }
  switch (op) {
  case 0: judge("String.IndexOf(char)", [&] { form == 0 ? s->IndexOf(L'b') : form == 1 ? s->IndexOf(L'b', st) : s->IndexOf(L'b', st, c); }); break;
  case 1: judge("String.IndexOf(text)", [&] { form == 0 ? s->IndexOf(v) : form == 1 ? s->IndexOf(v, st) : s->IndexOf(v, st, c); }); break;
  case 2: judge("String.IndexOfAny", [&] { form == 0 ? s->IndexOfAny(set) : form == 1 ? s->IndexOfAny(set, st) : s->IndexOfAny(set, st, c); }); break;
  case 3: judge("String.LastIndexOf(char)", [&] { form == 0 ? s->LastIndexOf(L'b') : form == 1 ? s->LastIndexOf(L'b', st) : s->LastIndexOf(L'b', st, c); }); break;
  case 4: judge("String.LastIndexOf(text)", [&] { form == 0 ? s->LastIndexOf(v) : form == 1 ? s->LastIndexOf(v, st) : s->LastIndexOf(v, st, c); }); break;
  case 5: judge("String.LastIndexOfAny", [&] { form == 0 ? s->LastIndexOfAny(set) : form == 1 ? s->LastIndexOfAny(set, st) : s->LastIndexOfAny(set, st, c); }); break;
  case 6: judge("String.StartsWith", [&] { s->StartsWith(v); }); break;
  case 7: judge("String.EndsWith", [&] { s->EndsWith(v); }); break;
  default: judge("String.Contains", [&] { s->Contains(v); }); }
}
SUITE(string_edits, 0, "substring, insert, remove, replace, pad, trim sets, window comparison, concatenation and joining: null, empty, other types and ranks x 9 position classes; texts of length 0 and 3") { faults = 0;
  int n = choose(2) * 3, op = choose(11); String* s = mk(Txt(L"abc", n)); int st = op < 3 || op == 6 || op > 8 ? pos(n) : 0, c = op < 3 || op == 6 || op > 8 ? pos(n) : 0; NOTE("length %d: %d, %d", n, st, c);
  switch (op) {
  case 0: { int one = choose(2); fault(st < 0 || st > n, OUT); if (!one) { fault(past(n, st, c), OUT); if (c < 0) faults |= faults ? OUT : OUT | FINE; } judge("String.Substring", [&] { one ? s->Substring(st) : s->Substring(st, c); }); break; }
  case 1: { int one = choose(2); fault(st < 0 || st > n, OUT); if (one && st == n) faults |= OUT | FINE; if (!one) { fault(past(n, st, c), OUT); if (c < 0) faults |= faults ? OUT : OUT | FINE; } judge("String.Remove", [&] { one ? s->Remove(st) : s->Remove(st, c); }); break; }
  case 2: { String* v = choose(2) ? mk(L"x") : nullptr; fault(!v, NUL); fault(st < 0 || st > n, OUT); judge("String.Insert", [&] { s->Insert(st, v); }); break; }
  case 3: { int k = choose(3); String *p = k == 0 ? nullptr : k == 1 ? mk(L"") : mk(L"b"), *r = choose(2) ? mk(L"x") : nullptr; fault(k == 0, NUL); fault(k == 1, ARG); judge("String.Replace", [&] { s->Replace(p, r); }); break; }
  case 4: { int w = pos(n), l = choose(2); if (w > 1000) w = 1000; fault(w < 0, OUT); judge(l ? "String.PadLeft" : "String.PadRight", [&] { l ? s->PadLeft(w) : s->PadRight(w); }); break; }
  case 5: { int k = choose(5), q = choose(3); Array* set = charSet(k); setFault(k, false); judge("String.Trim", [&] { q == 0 ? s->Trim(set) : q == 1 ? s->TrimStart(set) : s->TrimEnd(set); }); break; }
  case 6: { String* o = choose(3) ? mk(L"abd") : nullptr; String* me = choose(2) ? s : nullptr; int len = pos(n), m = choose(3); if (o && me) fault(st < 0 || c < 0 || len < 0 || st > n || c > 3, OUT); else { bool bad = st < 0 || c < 0 || len < 0 || (me && st > n) || (o && c > 3); if (bad) faults = OUT | FINE; } judge(m == 2 ? "String.CompareOrdinal" : "String.Compare", [&] { m == 2 ? String::CompareOrdinal(me, st, o, c, len) : String::Compare(me, st, o, c, len, m); }); break; }
  case 7: { int k = choose(5); Object* o = k == 0 ? nullptr : k == 1 ? (Object*)mk(L"abc") : k == 2 ? (Object*)new Int32Value(1) : k == 3 ? new Object() : (Object*)new StringBuilder(); fault(k > 1, ARG); judge("String.CompareTo", [&] { s->CompareTo(o); }); break; }
  case 8: { int k = choose(5); Array* a = k == 0 ? nullptr : k == 1 ? new Array(ObjectType, 3) : k == 2 ? new Array(StringType, 3) : k == 3 ? new Array(Int32Type, 3) : new Array(ObjectType, 3, 1); fault(k == 0, NUL); fault(k == 3, TYPE); fault(k == 4, RANK); judge("String.Concat", [&] { String::Concat(a); }); break; }
  default: { n = 3; int k = choose(5); Array* a = k == 0 ? nullptr : k == 1 ? new Array(ObjectType, 3) : k == 2 ? new Array(StringType, 3) : k == 3 ? new Array(Int32Type, 3) : new Array(ObjectType, 3, 1); fault(k == 0, NUL); fault(k == 3, TYPE); fault(k == 4, RANK); if (a) { fault(st < 0 || st > n, OUT); fault(past(n, st, c), OUT); if (c < 0) faults |= faults ? OUT : OUT | FINE; } if (op == 9) judge("String.Join(char)", [&] { String::Join(L',', a, st, c); }); else judge("String.Join(text)", [&] { String::Join(mk(L","), a, st, c); }); } }
}
static int room(int used, int max) { return pick({ 0, 1, max - used, max - used + 1, -1, INT32_MAX, INT32_MIN }); }
SUITE(builder_sizes, 0, "construction, length, capacity, room: 9 position classes around length and maximum; maximum unlimited and 8") { faults = 0;
  int op = choose(8), lim = choose(2), n = 3; StringBuilder* sb = lim ? new StringBuilder(4, 8) : new StringBuilder(); sb->Append(mk(L"abc")); int max = lim ? 8 : INT32_MAX;
  switch (op) {
  case 0: { int c = pos(8), m = pos(8), form = choose(2); if (c > 1000 && !(form && c > m)) { c = 1000; } fault(c < 0, OUT); if (form) fault(m < 1 || c > m, OUT); NOTE("capacity %d maximum %d", c, m); judge("new StringBuilder(capacity)", [&] { form ? new StringBuilder(c, m) : new StringBuilder(c); }); break; }
  case 1: { int st = pos(n), c = pos(n), cap = pick({ 0, 5, -1, INT32_MIN, 200 }); String* s = choose(3) ? mk(L"abc") : nullptr; int len = s ? 3 : 0; fault(st < 0 || c < 0 || cap < 0, OUT); fault(past(len, st, c), OUT); NOTE("slice %d,%d capacity %d of %d", st, c, cap, len); judge("new StringBuilder(text)", [&] { new StringBuilder(s, st, c, cap); }); break; }
  case 2: { int v = pos(8); if (v > 8 && !lim) v = 9; fault(v < 0 || v > max, OUT); NOTE("length %d of %d", v, max); judge("StringBuilder.Length", [&] { sb->set_Length(v); }); break; }
  case 3: { int v = choose(2) ? pos(8) : pos(3); if (v > 8 && !lim) v = 9; fault(v < 3 || v > max, OUT); NOTE("capacity %d of %d", v, max); judge("StringBuilder.Capacity", [&] { sb->set_Capacity(v); }); break; }
  case 4: { int v = pos(8); if (v > 8 && !lim) v = 9; fault(v < 0 || v > max, OUT); NOTE("capacity %d of %d", v, max); judge("StringBuilder.EnsureCapacity", [&] { sb->EnsureCapacity(v); }); break; }
  case 5: { int v = lim ? room(3, 8) : pick({ 0, 1, 5, -1, INT32_MIN, INT32_MAX }); fault(v < 0 || v > max - 3, OUT); NOTE("%d more", v); judge("StringBuilder.EnsureRoomFor", [&] { sb->EnsureRoomFor(v); }); break; }
  case 6: { int i = pos(n), set = choose(3); fault(i < 0 || i >= n, set == 1 ? IDX | OUT : IDX); NOTE("character %d", i); judge(set == 1 ? "StringBuilder.set_Chars" : "StringBuilder.get_Chars", [&] { if (set == 0) sb->get_Chars(i); else if (set == 1) sb->set_Chars(i, L'z'); else sb->Address(i); }); break; }
  default: { int st = pos(n), c = pos(n); fault(st < 0 || c < 0 || st > n, OUT); fault(past(n, st, c), OUT); NOTE("%d,%d", st, c); judge("StringBuilder.ToString", [&] { sb->ToString(st, c); }); } }
}
SUITE(builder_edits, 0, "append, insert (14 overloads), remove, replace, counting on a builder of length 3 with maximum 8 or unlimited: null, empty, other types and ranks x 9 position classes; appended sizes around the room left") { faults = 0;
  int op = choose(9), lim = choose(2), n = 3; StringBuilder* sb = lim ? new StringBuilder(4, 8) : new StringBuilder(); sb->Append(mk(L"abc")); int left = lim ? 5 : 1000000; auto text = [&](int k) { Txt t; for (int i = 0; i < k; i++) t.add(L'a' + i % 3); return mk(t); };
  switch (op) {
  case 0: { int c = pick({ 0, 1, 5, 6, -1, INT32_MIN }); fault(c < 0 || c > left, OUT); NOTE("%d times", c); judge("StringBuilder.Append(char)", [&] { sb->Append(L'x', c); }); break; }
  case 1: { String* s = choose(3) ? text(7) : nullptr; int st = pos(7), c = pos(7); NOTE("slice %d,%d", st, c); if (s) { fault(st < 0 || st > 7, OUT); fault(past(7, st, c), OUT); int k = c < 0 ? 7 - st : c; fault(k > left && st >= 0, OUT); if (c < 0) faults |= faults ? OUT : OUT | FINE; } else if (st || c) faults = OUT | NUL | FINE; judge("StringBuilder.Append(text)", [&] { sb->Append(s, st, c); }); break; }
  case 2: case 3: { int k = choose(5), st = pos(7), c = pos(7), ins = op == 3, at = ins ? pos(n) : 0; NOTE("array %d slice %d,%d at %d", k, st, c, at); Array* a = k == 0 ? nullptr : k == 1 ? mkChars(lit("abcabca")) : k == 2 ? new Array(Int32Type, 7) : k == 3 ? new Array(StringType, 7) : new Array(CharType, 7, 1);
    if (ins) fault(at < 0 || at > n, OUT); int b = st < 0 ? 0 : st; bool badAt = faults; if (a) { fault(past(7, b, c), OUT); fault(b > 7, OUT); fault((c < 0 ? 7 - b : c) > left, OUT); fault(k == 2 || k == 3, TYPE); fault(k == 4, RANK); if (c == 0 || (c < 0 && b == 7)) faults |= badAt ? (unsigned)OUT : OUT | FINE; if (c < -1 || st < -1) faults |= faults ? OUT : OUT | FINE; } else if (st || c) faults |= badAt ? OUT | NUL : OUT | NUL | FINE;
    if (ins) judge("StringBuilder.Insert(array)", [&] { sb->Insert(at, a, st, c); }); else judge("StringBuilder.Append(array)", [&] { sb->Append(a, st, c); }); break; }
  case 4: { int at = pos(n), k = choose(14); fault(at < 0 || at > n, OUT); NOTE("overload %d at %d", k, at); judge("StringBuilder.Insert", [&] { switch (k) { case 0: sb->Insert(at, (Boolean)true); break; case 1: sb->Insert(at, (Byte)1); break; case 2: sb->Insert(at, (Char)L'x'); break; case 3: sb->Insert(at, (Double)1); break; case 4: sb->Insert(at, (Int16)1); break; case 5: sb->Insert(at, (Int32)1); break; case 6: sb->Insert(at, (Int64)1); break; case 7: sb->Insert(at, (Object*)new Int32Value(1)); break; case 8: sb->Insert(at, mk(L"x")); break; case 9: sb->Insert(at, (SByte)1); break; case 10: sb->Insert(at, (Single)1); break; case 11: sb->Insert(at, (UInt16)1); break; case 12: sb->Insert(at, (UInt32)1); break; default: sb->Insert(at, (UInt64)1); } }); break; }
  case 5: { int at = pos(n), len = pick({ 0, 1, 2, 5, 6 }), c = pick({ 0, 1, 2, 3, 6, -1, INT32_MIN, INT32_MAX }); bool nul = len == 0 && choose(2); if (c == INT32_MAX && !lim && len) mc::discard(); fault(at < 0 || at > n, OUT); fault(c < 0, OUT); fault(c > 0 && (int64_t)len * c > left, OUT); NOTE("length %d%s times %d at %d", len, nul ? " (null)" : "", c, at); judge("StringBuilder.Insert(text, count)", [&] { sb->Insert(at, nul ? nullptr : text(len), c); }); break; }
  case 6: { int st = pos(n), c = pos(n); fault(st < 0 || c < 0 || past(n, st, c), OUT); NOTE("%d,%d", st, c); judge("StringBuilder.Remove", [&] { sb->Remove(st, c); }); break; }
  case 7: { int ch = choose(3), st = pos(n), c = pos(n), k = choose(3), r = pick({ 1, 0, 6, 7, -1 }); if (ch == 0 && (k || r != 1)) mc::discard(); if (ch == 2 && (st || c)) mc::discard(); if (ch < 2) { fault(st < 0 || c < 0 || st > n, OUT); fault(past(n, st, c), OUT); } if (ch) { fault(k == 1, NUL); fault(k == 2, ARG); if (k == 0 && r - 1 > left && (ch == 2 || (st == 0 && c >= 1))) faults |= OUT; } String* p = k == 1 ? nullptr : mk(k == 2 ? L"" : L"a"); String* q = r < 0 ? nullptr : text(r); NOTE("form %d window %d,%d pattern %d replacement of %d", ch, st, c, k, r);
    judge(ch ? "StringBuilder.Replace(text)" : "StringBuilder.Replace(char)", [&] { if (ch == 0) sb->Replace(L'a', L'b', st, c); else if (ch == 1) sb->Replace(p, q, st, c); else sb->Replace(p, q); }); break; }
  default: { int st = pos(n), c = pos(n), k = choose(3); fault(k == 1, NUL); fault(st < 0 || c < 0 || past(n, st, c), OUT); NOTE("%d,%d", st, c); judge("StringBuilder.CountSubStrings", [&] { sb->CountSubStrings(k == 1 ? nullptr : mk(k ? L"" : L"a"), st, c); }); } }
}
SUITE(chars, 0, "12 classifications at 9 position classes of texts of length 0 and 3 and of null") { faults = 0;
  int k = choose(12), n = choose(2) * 3, z = choose(2), i = pos(n); String* s = z ? nullptr : mk(Txt(L"a1 ", n)); fault(z, NUL); if (!z) fault(i < 0 || i >= n, OUT); NOTE("test %d at %d of %d", k, i, z ? -1 : n);
  judge("Char test", [&] { switch (k) { case 0: CharValue::GetNumericValue(s, i); break; case 1: CharValue::IsControl(s, i); break; case 2: CharValue::IsDigit(s, i); break; case 3: CharValue::IsLetter(s, i); break; case 4: CharValue::IsLetterOrDigit(s, i); break; case 5: CharValue::IsLower(s, i); break; case 6: CharValue::IsNumber(s, i); break; case 7: CharValue::IsPunctuation(s, i); break; case 8: CharValue::IsSeparator(s, i); break; case 9: CharValue::IsUpper(s, i); break; default: CharValue::IsWhiteSpace(s, i); } });
}
static void parse(DataType t, String* s) { switch (t) { case BooleanType: BooleanValue::Parse(s); break; case CharType: CharValue::Parse(s); break; case SByteType: SByteValue::Parse(s); break; case ByteType: ByteValue::Parse(s); break; case Int16Type: Int16Value::Parse(s); break; case UInt16Type: UInt16Value::Parse(s); break; case Int32Type: Int32Value::Parse(s); break; case UInt32Type: UInt32Value::Parse(s); break; case Int64Type: Int64Value::Parse(s); break; case UInt64Type: UInt64Value::Parse(s); break; case SingleType: SingleValue::Parse(s); break; case DoubleType: DoubleValue::Parse(s); break; default: TimeSpanValue::Parse(s); } }
static int compareTo(DataType t, Object* b, Object* o) { switch (t) { case BooleanType: return ((BooleanValue*)b)->CompareTo(o); case CharType: return ((CharValue*)b)->CompareTo(o); case SByteType: return ((SByteValue*)b)->CompareTo(o); case ByteType: return ((ByteValue*)b)->CompareTo(o); case Int16Type: return ((Int16Value*)b)->CompareTo(o); case UInt16Type: return ((UInt16Value*)b)->CompareTo(o); case Int32Type: return ((Int32Value*)b)->CompareTo(o); case UInt32Type: return ((UInt32Value*)b)->CompareTo(o); case Int64Type: return ((Int64Value*)b)->CompareTo(o); case UInt64Type: return ((UInt64Value*)b)->CompareTo(o); case SingleType: return ((SingleValue*)b)->CompareTo(o); case DoubleType: return ((DoubleValue*)b)->CompareTo(o); case DateTimeType: return ((DateTimeValue*)b)->CompareTo(o); default: return ((TimeSpanValue*)b)->CompareTo(o); } }
SUITE(parsing, 0, "12 types and spans x null, empty, blank, bad, half-good texts and numbers one past each integer limit") { faults = 0;
  static const wchar_t* const tx[] = { L"", L" ", L"x", L"-", L"1x", L"+-1", L"0x1", L"1,0", L"- 1", L"99999999999999999999999999", L"-99999999999999999999999999" }; DataType t = pick(scalarTypes); if (t == DateTimeType) mc::discard(); int k = choose(14); String* s; Txt x;
  if (k == 0) { s = nullptr; faults = NUL; } else if (k < 12) { x = Txt(tx[k - 1]); s = mk(x); faults = FORMAT; if (k >= 10) faults = isInt(t) ? OVER : isFloat(t) ? FINE : t == TimeSpanType ? OVER | FORMAT : FORMAT; if (t == CharType && x.n == 1) faults = FINE; if (k == 8 && isFloat(t)) faults = FORMAT | FINE; }
  else { if (!isInt(t)) mc::discard(); I128 lo, hi; rangeOf(t, lo, hi); I128 v = k == 12 ? hi + 1 : lo - 1; bool neg = v < 0; if (neg) v = -v; char d[50]; int n = 0; do d[n++] = '0' + (int)(v % 10); while (v /= 10); if (neg) x.add(L'-'); while (n) x.add(d[--n]); s = mk(x); faults = OVER; }
  NOTE("%s of %s", typeName(t), s ? show(x) : "null"); judge("Parse", [&] { parse(t, s); });
}
SUITE(mixing, 0, "comparing a box of every scalar type with null and with every other kind of object; every conversion of strings, builders, arrays and plain objects") { faults = 0;
  if (choose(2)) { int i = choose(NSCALAR), j = choose(NSCALAR + 4); DataType t = scalarTypes[i]; Object* b = box({ t, 1, 1 }); Object* o = j < NSCALAR ? box({ scalarTypes[j], 1, 1 }) : j == NSCALAR ? nullptr : j == NSCALAR + 1 ? (Object*)mk(L"1") : j == NSCALAR + 2 ? new Object() : (Object*)new StringBuilder(); fault(j != i && j != NSCALAR, ARG); NOTE("%s with %d", typeName(t), j); judge("CompareTo", [&] { compareTo(t, b, o); }); return; }
  int k = choose(4), c = choose(14); Object* o = k == 0 ? new Object() : k == 1 ? (Object*)mk(L"1") : k == 2 ? (Object*)new StringBuilder(mk(L"1")) : (Object*)new Array(Int32Type, 1); faults = CAST; judge("conversion", [&] { switch (c) { case 0: o->get_AsBoolean(); break; case 1: o->get_AsChar(); break; case 2: o->get_AsSByte(); break; case 3: o->get_AsByte(); break; case 4: o->get_AsInt16(); break; case 5: o->get_AsUInt16(); break; case 6: o->get_AsInt32(); break; case 7: o->get_AsUInt32(); break; case 8: o->get_AsInt64(); break; case 9: o->get_AsUInt64(); break; case 10: o->get_AsSingle(); break; case 11: o->get_AsDouble(); break; case 12: o->get_AsDateTime(); break; default: o->get_AsTimeSpan(); } });
}
SUITE(dates, 0, "date components one past each limit and extreme, alone and in pairs; month and year arithmetic, spans, ticks and fractional amounts past the calendar; calendar queries") { faults = 0;
  int op = choose(6); static const UInt64 LAST = 3155378975999999999ULL; 
  if (op == 0) { int v[7] = { 2001, 2, 28, 5, 6, 7, 8 }; static const int lo[7] = { 1, 1, 1, 0, 0, 0, 0 }, hi[7] = { 9999, 12, 28, 23, 59, 59, 999 }; int form = choose(3), nc = form == 0 ? 3 : form == 1 ? 6 : 7; for (int q = 0; q < 2; q++) { int i = choose(nc), w = choose(6); v[i] = w == 0 ? lo[i] : w == 1 ? lo[i] - 1 : w == 2 ? hi[i] + 1 : w == 3 ? INT32_MIN : w == 4 ? INT32_MAX : hi[i]; } for (int i = 0; i < nc; i++) fault(v[i] < lo[i] || v[i] > hi[i], OUT); if (v[2] == 29 && v[0] >= 1 && v[0] <= 9999 && v[1] >= 1 && v[1] <= 12 && (v[1] != 2 || v[0] % 4 == 0)) mc::discard(); NOTE("%d-%d-%d %d:%d:%d.%d", v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
    judge("new DateTime", [&] { if (form == 0) DateTime d(v[0], v[1], v[2]); else if (form == 1) DateTime d(v[0], v[1], v[2], v[3], v[4], v[5]); else DateTime d(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); }); return; }
  if (op == 1) { UInt64 t = pick({ (UInt64)0, LAST, LAST + 1, (UInt64)1 << 63, ~(UInt64)0 }); fault(t > LAST, OUT); judge("new DateTime(ticks)", [&] { DateTime d(t); }); return; }
  bool end = choose(2); DateTimeValue d(DateTime(end ? LAST - 5 : (UInt64)5));
  if (op == 2) { double v = pick({ 1.0, -1.0, 1e300, -1e300, (double)NAN, (double)INFINITY, (double)-INFINITY, 4e6, -4e6 }); int u = choose(5); static const double day[] = { 1, 1 / 24.0, 1 / 1440.0, 1 / 86400.0, 1 / 86400000.0 }; double days = v * day[u]; bool bad = !(v == v) || fabs(v) > 1e200 || (end ? v > 0 : v < 0) || fabs(days) > 3652059; NOTE("%g of unit %d from the %s", v, u, end ? "end" : "start"); fault(bad, OUT); judge("DateTime.Add", [&] { switch (u) { case 0: d.AddDays(v); break; case 1: d.AddHours(v); break; case 2: d.AddMinutes(v); break; case 3: d.AddSeconds(v); break; default: d.AddMilliseconds(v); } }); return; }
  if (op == 3) { int v = pick({ 0, 1, -1, 119987, -119987, 119988, -119988, 120000, -120000, 120001, -120001, INT32_MAX, INT32_MIN }); bool y = choose(2); int64_t m = (int64_t)v * (y ? 12 : 1); int64_t from = end ? 9998 * 12 + 11 : 0; fault(from + m < 0 || from + m > 9998 * 12 + 11, OUT); NOTE("%d %s from the %s", v, y ? "years" : "months", end ? "end" : "start"); judge(y ? "DateTime.AddYears" : "DateTime.AddMonths", [&] { y ? d.AddYears(v) : d.AddMonths(v); }); return; }
  if (op == 4) { Int64 v = pick({ (Int64)5, (Int64)6, (Int64)-5, (Int64)-6, (Int64)INT64_MAX, (Int64)INT64_MIN }); int f = choose(5); I128 at = (I128)(end ? LAST - 5 : 5) + (f >= 3 ? -(I128)v : (I128)v); fault(at < 0 || at > (I128)LAST, OUT); NOTE("%lld by form %d from the %s", (long long)v, f, end ? "end" : "start"); judge(f >= 3 ? "DateTime.Subtract" : "DateTime.AddTicks", [&] { switch (f) { case 0: d.AddTicks(v); break; case 1: d.Add(TimeSpan(v)); break; case 2: DateTimeValue::op_Addition(d.get_AsDateTime(), TimeSpan(v)); break; case 3: d.Subtract(TimeSpan(v)); break; default: DateTimeValue::op_Subtraction(d.get_AsDateTime(), TimeSpan(v)); } }); return; }
  int y = pick({ 1, 9999, 0, 10000, -1, INT32_MIN, INT32_MAX }), m = pick({ 1, 12, 0, 13, -1, INT32_MIN, INT32_MAX }); if (end) { fault(y < 1 || y > 9999 || m < 1 || m > 12, OUT); NOTE("%d-%d", y, m); judge("DateTime.DaysInMonth", [&] { DateTimeValue::DaysInMonth(y, m); }); } else { fault(y < 1 || y > 9999, OUT); judge("DateTime.IsLeapYear", [&] { DateTimeValue::IsLeapYear(y); }); }
}
SUITE(spans, 0, "span construction past the range; arithmetic at the extremes; scaling by and from not-a-number, infinities and huge amounts") { faults = 0;
  int op = choose(5); const Int64 lo = INT64_MIN, hi = INT64_MAX; auto tv = [](Int64 t) { return TimeSpanValue(TimeSpan(t)); };
  if (op == 0) { int d = pick({ 0, 10675199, 10675200, -10675200, INT32_MAX, INT32_MIN }), h = pick({ 0, 23, INT32_MAX }); I128 ms = (I128)d * 86400000 + (I128)h * 3600000; I128 lim = (I128)hi / 10000; bool bad = ms > lim || ms < -lim; NOTE("%d days %d hours", d, h); fault(bad, OUT); int f = choose(2); judge("new TimeSpan", [&] { if (f) TimeSpan t(d, h, 0, 0); else TimeSpan t(d, h, 0, 0, 0); }); return; }
  if (op == 1) { Int64 a = pick({ lo, hi, (Int64)0, (Int64)-1, (Int64)1 }), b = pick({ lo, hi, (Int64)0, (Int64)-1, (Int64)1 }); int f = choose(4); I128 r = f < 2 ? (I128)a + b : (I128)a - b; fault(r < lo || r > hi, OVER); NOTE("%lld %lld", (long long)a, (long long)b); judge(f < 2 ? "TimeSpan.Add" : "TimeSpan.Subtract", [&] { TimeSpan x(a), y(b); TimeSpanValue v(x); switch (f) { case 0: v.Add(y); break; case 1: TimeSpanValue::op_Addition(x, y); break; case 2: v.Subtract(y); break; default: TimeSpanValue::op_Subtraction(x, y); } }); return; }
  if (op == 2) { Int64 a = pick({ lo, hi, (Int64)0, lo + 1 }); int f = choose(3); fault(a == lo, OVER); judge(f == 0 ? "TimeSpan.Negate" : f == 1 ? "TimeSpan.Duration" : "TimeSpan negation", [&] { TimeSpanValue v = tv(a); if (f == 0) v.Negate(); else if (f == 1) v.Duration(); else TimeSpanValue::op_UnaryNegation(TimeSpan(a)); }); return; }
  double v = pick({ 1.0, (double)NAN, (double)INFINITY, (double)-INFINITY, 1e30, -1e30 }); NOTE("%g", v);
  if (op == 3) { int u = choose(5); fault(v != v, ARG); fault(fabs(v) > 1e20, OVER); judge("TimeSpan.From", [&] { switch (u) { case 0: TimeSpanValue::FromDays(v); break; case 1: TimeSpanValue::FromHours(v); break; case 2: TimeSpanValue::FromMinutes(v); break; case 3: TimeSpanValue::FromSeconds(v); break; default: TimeSpanValue::FromMilliseconds(v); } }); return; }
  int f = choose(4); fault(v != v, ARG); fault(f < 3 && fabs(v) > 1e20, OVER); judge(f < 3 ? "TimeSpan.Multiply" : "TimeSpan.Divide", [&] { TimeSpan x((Int64)36000000000LL); TimeSpanValue t(x); switch (f) { case 0: t.Multiply(v); break; case 1: TimeSpanValue::op_Multiply(x, v); break; case 2: TimeSpanValue::op_Multiply(v, x); break; default: t.Divide(v); } });
}
template <class T> static void clampFault(bool rev) { fault(rev, EXBIT(xMinMax) | ARG); judge("Math.Clamp", [&] { rev ? Math::Clamp((T)1, (T)3, (T)2) : Math::Clamp((T)1, (T)2, (T)3); }); }
SUITE(math, 0, "absolute value of each minimum, division by zero and the one overflow, reversed clamps of 10 types, sign of not-a-number, rounding with bad digits and modes") { faults = 0;
  switch (choose(6)) {
  case 0: { int t = choose(4), m = choose(2); fault(m, OVER); judge("Math.Abs", [&] { switch (t) { case 0: Math::Abs((SByte)(m ? -128 : -127)); break; case 1: Math::Abs((Int16)(m ? -32768 : -32767)); break; case 2: Math::Abs((Int32)(m ? INT32_MIN : INT32_MIN + 1)); break; default: Math::Abs((Int64)(m ? INT64_MIN : INT64_MIN + 1)); } }); break; }
  case 1: { int b = pick({ 1, 0, -1 }), m = choose(2), f = choose(3); fault(b == 0, EXBIT(xDivideByZero)); fault(b == -1 && m, OVER); NOTE("divide form %d", f); judge("Math.Divide", [&] { Int64 r; Int32 q; if (f == 0) Math::Divide(m ? (Int64)INT64_MIN : (Int64)5, (Int64)b); else if (f == 1) Math::DivRem(m ? INT32_MIN : 5, b, q); else Math::DivRem(m ? (Int64)INT64_MIN : (Int64)5, (Int64)b, r); }); break; }
  case 2: { bool r = choose(2); switch (choose(10)) { case 0: clampFault<SByte>(r); break; case 1: clampFault<Byte>(r); break; case 2: clampFault<Int16>(r); break; case 3: clampFault<UInt16>(r); break; case 4: clampFault<Int32>(r); break; case 5: clampFault<UInt32>(r); break; case 6: clampFault<Int64>(r); break; case 7: clampFault<UInt64>(r); break; case 8: clampFault<Single>(r); break; default: clampFault<Double>(r); } break; }
  case 3: { double v = pick({ 1.0, (double)NAN, (double)-NAN, (double)INFINITY }); bool s = choose(2); fault(v != v, EXBIT(xArithmetic)); judge("Math.Sign", [&] { s ? Math::Sign((Single)v) : Math::Sign(v); }); break; }
  default: { int d = pick({ 0, 15, 16, -1, INT32_MIN, INT32_MAX }), m = pick({ 0, 4, 5, -1, 1000 }); double v = pick({ 1.25, (double)NAN, 1e300, 0.0 }); fault(d < 0 || d > 15, OUT); fault(m < 0 || m > 4, ARG); NOTE("%g digits %d mode %d", v, d, m); judge("Math.Round", [&] { Math::Round(v, d, (MidpointRounding)m); }); } }
}
