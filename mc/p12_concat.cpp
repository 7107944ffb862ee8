// P12: concatenating and joining yield the parts' texts in order.
#include "values.h"
static const unsigned ARG = EXBIT(xIndexOutOfRange) | EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
struct Part { Object* o; Txt t; };
enum { NPARTS = 18, NALL = 20 };
static Part part(int k) {
  switch (k) {
  case 0: return { nullptr, Txt() }; case 1: return { mk(L"ab"), Txt(L"ab") }; case 2: return { mk(L""), Txt() }; case 3: return { new Int32Value(-5), Txt(L"-5") }; case 4: return { new BooleanValue(true), Txt(L"True") }; case 5: return { new CharValue(L'x'), Txt(L"x") };
  case 6: return { new DoubleValue(1.5), Txt(L"1.5") }; case 7: return { new UInt64Value(18446744073709551615ULL), Txt(L"18446744073709551615") }; case 8: return { new Object(), Txt(L"Object") }; case 9: { Txt t(L"p\0q", 3); return { new String(mkChars(t)), t }; }
  case 10: { StringBuilder* sb = new StringBuilder(mk(L"sb")); return { sb, Txt(L"sb") }; } case 11: { Txt t; for (int i = 0; i < 130; i++) t.add(L'0' + i % 10); return { mk(t), t }; } case 12: return { new SByteValue(-128), Txt(L"-128") }; case 13: return { new BooleanValue(false), Txt(L"False") }; case 14: return { new Int64Value(INT64_MIN), Txt(L"-9223372036854775808") }; case 15: return { new SingleValue(-0.25f), Txt(L"-0.25") }; case 16: return { new ByteValue(7), Txt(L"7") };
  case 17: return { String::Empty, Txt() }; case 18: { Txt t; t.add(0x161).add(0x10061).add(0xFFFF); return { mk(t), t }; } default: { Txt t; t.add(0x10062); return { new CharValue(0x10062), t }; } }
}
static void intact(const Part* p, int n) { for (int i = 0; i < n; i++) if (p[i].o && p[i].o->GetRawDataType() == StringType && !sameText((String*)p[i].o, p[i].t)) fail("changed", "operand %d changed", i); if (String::Empty->get_Length() != 0) fail("changed", "the empty string changed"); }
static void expectText(String* r, Ex e, const Txt& w, const char* key, const char* what) { step(); if (e != OK_) fail(key, "%s raised %s, expected %s", what, exName(e), show(w)); if (!sameText(r, w)) fail(key, "%s = %s (length %d), expected %s", what, show(r), r ? r->get_Length() : -1, show(w)); }
static String* concatN(const Part* p, int n) { switch (n) { case 1: return String::Concat(p[0].o); case 2: return String::Concat(p[0].o, p[1].o); case 3: return String::Concat(p[0].o, p[1].o, p[2].o); case 4: return String::Concat(p[0].o, p[1].o, p[2].o, p[3].o); case 5: return String::Concat(p[0].o, p[1].o, p[2].o, p[3].o, p[4].o); case 6: return String::Concat(p[0].o, p[1].o, p[2].o, p[3].o, p[4].o, p[5].o); default: return String::Concat(p[0].o, p[1].o, p[2].o, p[3].o, p[4].o, p[5].o, p[6].o); } }
static void single(Part* p, int n) { Txt w; for (int i = 0; i < n; i++) { w.add(p[i].t); NOTE("operand %s", p[i].o ? show(p[i].t) : "null"); } String* r = nullptr; Ex e = attempt([&] { r = concatN(p, n); }); expectText(r, e, w, "concat", "Concat of values"); intact(p, n); state(mc::mix(w.hash(), n)); }
static void gather(Part* p, int n, int alphabet) { for (int i = 0; i < n; i++) p[i] = part(choose(alphabet)); }
SUITE(values_short, 0, "1..3 (thorough 4) operands over 20 values of mixed kinds (null, strings, numbers, builder, long text)") { Part p[7]; int n = 1 + choose(thorough ? 4 : 3); gather(p, n, NALL); single(p, n); }
SUITE(values_long, 0, "1..7 operands over {null, text, empty, number} (thorough also Boolean)") { Part p[7]; int n = 1 + choose(7); gather(p, n, thorough ? 5 : 4); single(p, n); }
SUITE(long_operands, 0, "2..7 operands, each null or 130 characters long") { Part p[7]; int n = 2 + choose(6); for (int i = 0; i < n; i++) p[i] = part(choose(2) ? 11 : 0); single(p, n); }
static Array* listOf(const Part* p, int n, DataType t) { Array* a = new Array(t, n); for (int i = 0; i < n; i++) *(Object**)a->Address(i) = p[i].o; return a; }
SUITE(array_concat, 0, "arrays of 0..4 (thorough 5) elements over 6 values, object and string arrays, null array") { Part p[5]; int n = choose(thorough ? 6 : 5); bool str = choose(2); for (int i = 0; i < n; i++) { static const int s[] = { 0, 1, 2, 17, 11, 9 }; int k = choose(6); p[i] = part(str ? s[k] : k); } Array* a = listOf(p, n, str ? StringType : ObjectType); Txt w; for (int i = 0; i < n; i++) w.add(p[i].t); String* r = nullptr; Ex e = attempt([&] { r = String::Concat(a); }); expectText(r, e, w, "concat/array", "Concat of an array"); intact(p, n); for (int i = 0; i < n; i++) EXPECT(*(Object**)a->Address(i) == p[i].o, "changed", "array element %d changed", i); if (n == 0) expectEx(attempt([&] { String::Concat((Array*)nullptr); }), EXBIT(xArgumentNull), "concat/null", "Concat of a null array"); state(mc::mix(w.hash(), n)); }
static int win(int n) { static const int x[] = { INT32_MAX, INT32_MIN, -2 }; int k = choose(n + 4 + 3); return k < n + 4 ? k - 1 : x[k - n - 4]; }
SUITE(join, 0, "arrays of 0..4 elements over 5 values, every start and count around the limits, separators {\",\", empty, null, a NUL between two letters, 130 characters, each of 3 characters}") {
  Part p[5]; int n = choose(thorough ? 5 : 4); gather(p, n, 5); Array* a = listOf(p, n, ObjectType); int st = win(n), c = win(n), sk = choose(8); Txt sep; static const wchar_t chs[] = { L',', L'\0', (wchar_t)0x1002C }; if (sk == 0) sep = Txt(L","); if (sk == 3) sep = Txt(L"a\0b", 3); if (sk == 4) sep = part(11).t; if (sk > 4) sep.add(chs[sk - 5]); String* ss = sk == 2 ? nullptr : mk(sk > 4 ? Txt() : sep); NOTE("%d elements from %d count %d separator %s", n, st, c, show(sep));
  String* r = nullptr; Ex e = attempt([&] { if (sk > 4) r = String::Join((Char)sep.c[0], a, st, c); else r = String::Join(ss, a, st, c); }); bool ok = st >= 0 && st <= n && (c < 0 || c <= n - st); if (c < -1 && e != OK_) { expectEx(e, ARG, "join/raise", "negative count"); return; }
  if (!ok) { expectEx(e, ARG, "join/raise", "joining a window outside the array"); return; } int k = c < 0 ? n - st : c; Txt w; for (int i = 0; i < k; i++) { if (i) w.add(sep); w.add(p[st + i].t); } expectText(r, e, w, "join", "Join"); 
  if (st == 0 && c == -1) { e = attempt([&] { r = sk > 4 ? String::Join((Char)sep.c[0], a) : String::Join(ss, a); }); expectText(r, e, w, "join/whole", "Join of a whole array"); } if (c == -1) { e = attempt([&] { r = sk > 4 ? String::Join((Char)sep.c[0], a, st) : String::Join(ss, a, st); }); expectText(r, e, w, "join/rest", "Join of the rest"); } intact(p, n); state(mc::mix(w.hash(), n)); }
SUITE(join_values, 0, "arrays of 2..3 elements over all 20 values joined by \", \" and by a character; string arrays") { Part p[3]; int n = 2 + choose(2); gather(p, n, NALL); bool ch = choose(2); Array* a = listOf(p, n, ObjectType); Txt w; for (int i = 0; i < n; i++) { if (i) w.addA(ch ? ";" : ", "); w.add(p[i].t); } String* r = nullptr; Ex e = attempt([&] { r = ch ? String::Join(L';', a) : String::Join(mk(L", "), a); }); expectText(r, e, w, "join/values", "Join"); intact(p, n); state(w.hash()); }
SUITE(join_strings, 0, "string arrays of 0..4 elements over 4 texts and null") { Part p[4]; int n = choose(5); for (int i = 0; i < n; i++) { static const int s[] = { 0, 1, 2, 9, 11 }; p[i] = part(s[choose(5)]); } Array* a = listOf(p, n, StringType); Txt w; for (int i = 0; i < n; i++) { if (i) w.addA("-"); w.add(p[i].t); } String* r = nullptr; Ex e = attempt([&] { r = String::Join(mk(L"-"), a); }); expectText(r, e, w, "join/strings", "Join"); state(w.hash()); }
SUITE(kinds, 0, "arrays of every element type and rank 1..3, and null, for the three operations") { int k = choose(NTYPES + 1), rank = 1 + choose(3), op = choose(3); DataType t = k < NTYPES ? elemTypes[k] : ObjectType; Array* a = k == NTYPES ? nullptr : rank == 1 ? new Array(t, 2) : rank == 2 ? new Array(t, 2, 1) : new Array(t, 2, 1, 1); if (a && t != ObjectType && t != StringType) memset(a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1), 1, sizeOf(t) * 2); NOTE("%s rank %d op %d", typeName(t), rank, op); Ex e = attempt([&] { op == 0 ? String::Concat(a) : op == 1 ? String::Join(L',', a) : String::Join(mk(L","), a); }); bool ok = a && rank == 1 && (t == ObjectType || t == StringType); expectEx(e, ok ? EXBIT(OK_) : !a ? EXBIT(xArgumentNull) : ARG | EXBIT(xRank) | EXBIT(xInvalidCast), "kinds", "this array"); state(k * 9 + rank * 3 + op); }
SUITE(nested, 0, "results used as operands: every pair of Concat/Join results over 6 values concatenated again") { int a = choose(6), b = choose(6), c = choose(6); Part x = part(a), y = part(b), z = part(c); String* r = String::Concat(x.o, y.o); Txt w; w.add(x.t).add(y.t); String* q = String::Concat(r, z.o, r); Txt v; v.add(w).add(z.t).add(w); expectText(r, OK_, w, "nested", "first result"); expectText(q, OK_, v, "nested", "second result"); Part l[2] = { { q, v }, { r, w } }; Array* arr = listOf(l, 2, ObjectType); Txt u; u.add(v).add(L'/').add(w); expectText(String::Join(L'/', arr), OK_, u, "nested", "joined results"); state(u.hash()); }

SUITE(large, 0, "0..600 and 65537 elements concatenated and joined, whole and from 3 windows, single texts of up to 70001 characters among short ones, separators of 0..300 characters; plain letters, or with NULs and characters outside the BMP among them") {
  bool nul = holes(); int many = choose(3), n = many == 0 ? choose(601) : many == 1 ? pick({ 32769, 65537 }) : 7, sepn = pick({ 0, 1, 2, 300 }), op = choose(4); if (many == 0 && n > 20 && n % 16 > 1 && !thorough) mc::discard(); if (many == 1 && sepn == 300) mc::discard(); if (nul && many < 2 && sepn < 2) mc::discard(); Big sep = Big::pattern(sepn, 9), big; int at = -1; if (many == 2) { big = Big::pattern(bigLength(), 4); at = choose(7); }
  Array* a = new Array(choose(2) ? StringType : ObjectType, n); static const wchar_t* ps[] = { L"a", L"", L"bcd", nullptr, L"ef" }; String* parts[5]; for (int i = 0; i < 5; i++) parts[i] = ps[i] ? mk(Txt(ps[i])) : nullptr; String* bg = at >= 0 ? mk(big) : nullptr; for (int i = 0; i < n; i++) *(Object**)a->Address(i) = i == at ? bg : parts[i * 3 % 5];
  int st = op == 3 ? n / 3 : op == 2 ? (n ? 1 : 0) : 0, cnt = op == 3 ? n / 2 : n - st; size_t cap = (size_t)n * (3 + sepn) + big.n + 16; Big w((int)cap); w.n = 0; auto put = [&](const wchar_t* c, int k) { memcpy(w.c + w.n, c, k * sizeof(wchar_t)); w.n += k; }; for (int i = st; i < st + cnt; i++) { if (op && i > st) put(sep.c, sep.n); if (i == at) put(big.c, big.n); else if (ps[i * 3 % 5]) put(ps[i * 3 % 5], (int)wcslen(ps[i * 3 % 5])); }
  NOTE("%d elements, separator of %d, op %d, window %d+%d", n, sepn, op, st, cnt); String* r = nullptr; Ex e = attempt([&] { if (op == 0) r = String::Concat(a); else if (op == 1) r = sepn == 1 && n % 2 ? String::Join((Char)sep.c[0], a) : String::Join(mk(sep), a); else r = sepn == 1 && n % 2 ? String::Join((Char)sep.c[0], a, st, cnt) : String::Join(mk(sep), a, st, cnt); }); expectEx(e, EXBIT(OK_), "large", "joining"); EXPECT(sameText(r, w), "large", "text of %d characters, expected %d", r ? r->get_Length() : -1, w.n);
  if (op >= 2) expectEx(attempt([&] { String::Join(mk(sep), a, st, n - st + 1); }), ARG, "large/window", "window past the end"); state(mc::mix(mc::mix(n, sepn), op)); }

SUITE(same_object, 0, "2..4 operands, array elements or (as separator and elements) parts of a join, each null or one of two objects of 20 kinds that appear more than once") {
  int ka = choose(NALL), kb = choose(NALL), n = 2 + choose(3), how = choose(3); Part A = part(ka), B = part(kb), p[4]; for (int i = 0; i < n; i++) { int c = choose(3); p[i] = c == 0 ? A : c == 1 ? B : part(0); } Txt w; String* r = nullptr; Ex e; bool strSep = A.o && A.o->GetRawDataType() == StringType; if (how == 2 && !strSep) mc::discard();
  for (int i = 0; i < n; i++) { if (how == 2 && i) w.add(A.t); w.add(p[i].t); } Array* a = listOf(p, n, ObjectType); NOTE("%d operands of %s and %s, way %d", n, show(A.t), show(B.t), how); e = attempt([&] { r = how == 0 ? concatN(p, n) : how == 1 ? String::Concat(a) : String::Join((String*)A.o, a); }); expectText(r, e, w, "same", how == 2 ? "Join" : "Concat"); intact(p, n); for (int i = 0; i < n; i++) EXPECT(r == nullptr || r != p[i].o || r->get_Length() == p[i].t.n, "changed", "operand"); state(mc::mix(w.hash(), how)); }

// objects whose text is itself made with the operations under test
struct Live : Object { int kind; bool armed; Live(int k) : kind(k), armed(k == 6) {}
  Int32 FormatString(Char* where, const Int32 size) override { String* s = nullptr; Part a = part(1), b = part(3);
    switch (kind) {
    case 0: s = String::Concat(a.o, b.o, a.o); break;
    case 1: { Array* l = new Array(ObjectType, 3); *(Object**)l->Address(0) = a.o; *(Object**)l->Address(2) = b.o; s = String::Join(mk(L"+"), l); break; }
    case 2: s = (new StringBuilder())->Append((Int32)42)->Append(a.o)->ToString(); break;
    case 3: s = String::Concat(new Live(0), new Live(1)); break;
    case 4: { Array* l = new Array(ObjectType, 2); *(Object**)l->Address(0) = new Live(3); *(Object**)l->Address(1) = new Int64Value(9); s = String::Join(L'~', l); break; }
    case 5: s = String::Concat(part(11).o, part(0).o); break;
    default: if (armed) { armed = false; throw new FormatException(); } s = mk(L"late"); }
    Int32 n = s->get_Length(); if (size <= n) { if (size > 100) n = 100; else throw new IndexOutOfRangeException(); } CopyChars(where, size, s->get_Buffer(), n); return n; } };
static Part live(int k) { if (k >= 7) return part(k == 7 ? 1 : k == 8 ? 0 : 3); Part p; p.o = new Live(k); switch (k) { case 0: p.t = Txt(L"ab-5ab"); break; case 1: p.t = Txt(L"ab++-5"); break; case 2: p.t = Txt(L"42ab"); break; case 3: p.t = Txt(L"ab-5abab++-5"); break; case 4: p.t = Txt(L"ab-5abab++-5~9"); break; case 5: p.t = part(11).t.sub(0, 100); break; default: p.t = Txt(L"late"); } return p; }
SUITE(nested_calls, 0, "1..3 operands or elements out of 10 whose text is itself concatenated, joined or built when it is asked for (up to three deep), or refuses once: Concat of values and arrays, Join by text, character and window; every call twice") {
  int n = 1 + choose(3), op = choose(5); Part p[3]; bool bad = false; for (int i = 0; i < n; i++) { int k = choose(10); p[i] = live(k); if (k == 6) bad = true; } Array* a = listOf(p, n, ObjectType); Txt w; for (int i = 0; i < n; i++) { if (i && op > 1) w.addA(op == 3 ? ";" : "--"); w.add(p[i].t); } NOTE("%d operands, operation %d", n, op); String* r = nullptr; String* first = nullptr;
  auto go = [&] { r = op == 0 ? concatN(p, n) : op == 1 ? String::Concat(a) : op == 2 ? String::Join(mk(L"--"), a) : op == 3 ? String::Join((Char)L';', a) : String::Join(mk(L"--"), a, 0, n); };
  for (int turn = 0; turn < 6; turn++) { Ex e = attempt(go); if (bad && e == xFormat) { step(); continue; } expectText(r, e, w, "nested/text", op < 2 ? "Concat of values that concatenate" : "Join of values that join"); if (first) { EXPECT(sameText(first, w), "nested/text", "an earlier result changed to %s", show(first)); break; } first = r; } EXPECT(first != nullptr, "nested/raise", "the operation never succeeded"); intact(p, 0); for (int i = 0; i < n; i++) EXPECT(*(Object**)a->Address(i) == p[i].o, "changed", "array element %d changed", i); state(mc::mix(w.hash(), op)); }

// ---- middle-sized arrays and separators, windows of every magnitude, characters of every kind
static Big joined(Array*, String* const* parts, const Txt* texts, int np, int st, int cnt, const Big& sep) { int total = 0; for (int i = st; i < st + cnt; i++) total += texts[i % np].n + (i > st ? sep.n : 0); Big w(total); w.n = 0; for (int i = st; i < st + cnt; i++) { if (i > st) { memcpy(w.c + w.n, sep.c, sep.n * sizeof(wchar_t)); w.n += sep.n; } const Txt& x = texts[i % np]; memcpy(w.c + w.n, x.c, x.n * sizeof(wchar_t)); w.n += x.n; } (void)parts; return w; }
SUITE(medium, 0, "arrays of 50 (thorough 72) lengths 0..600 (4097) of texts, nulls and numbers, concatenated, and joined by separators of 20 lengths 0..300, whole and in 8 windows, by text and (one character) by character") {
  int n = ladder(0, thorough ? 4097 : 600), k = pick({ 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 128, 129, 255, 300 }), w = choose(10); String* parts[5] = { mk(L"a"), nullptr, mk(L""), mk(L"bcd"), mk(L"efghi") }; Txt texts[5] = { Txt(L"a"), Txt(), Txt(), Txt(L"bcd"), Txt(L"efghi") }; Array* a = new Array(w & 1 ? StringType : ObjectType, n); for (int i = 0; i < n; i++) *(Object**)a->Address(i) = parts[i % 5]; Big sep = Big::pattern(k, 9), want; String* r = nullptr; Ex e;
  static const int st8[] = { 0, 0, 0, 1, 1, 2, 3, 0, 0, 0 }; int st = w == 8 ? n - 1 : w == 9 ? n / 2 : st8[w], c = w == 0 || w == 1 ? n : w == 2 ? n - 1 : w == 3 ? n - 1 : w == 4 ? n - 2 : w == 5 ? 1 : w == 6 ? 2 : w == 7 ? n / 2 : n - st; if (st < 0 || c < 0 || c > n - st) mc::discard(); NOTE("%d elements, separator of %d, window %d+%d", n, k, st, c); want = joined(a, parts, texts, 5, st, c, sep); String* q = mk(sep);
  if (w == 0 && k == 0) { e = attempt([&] { r = String::Concat(a); }); expectEx(e, EXBIT(OK_), "medium/concat", "Concat"); EXPECT(sameText(r, want), "medium/concat", "Concat of %d elements has length %d, expected %d", n, r ? r->get_Length() : -1, want.n); }
  e = attempt([&] { r = st + c == n && w != 1 ? (st == 0 ? String::Join(q, a) : String::Join(q, a, st)) : String::Join(q, a, st, c); }); expectEx(e, EXBIT(OK_), "medium/join", "Join"); EXPECT(sameText(r, want), "medium/join", "Join of %d+%d of %d elements by %d characters is %s, expected %s", st, c, n, k, show(r), show(want)); EXPECT(sameText(q, sep), "changed", "the separator changed");
  if (k == 1) { e = attempt([&] { r = st + c == n && w != 1 ? (st == 0 ? String::Join((Char)sep.c[0], a) : String::Join((Char)sep.c[0], a, st)) : String::Join((Char)sep.c[0], a, st, c); }); expectEx(e, EXBIT(OK_), "medium/join", "Join by a character"); EXPECT(sameText(r, want), "medium/join", "Join by a character: length %d, expected %d", r->get_Length(), want.n); }
  if (k == 0) { e = attempt([&] { r = String::Join((String*)nullptr, a, st, c); }); expectEx(e, EXBIT(OK_), "medium/join", "Join by null"); EXPECT(sameText(r, want), "medium/join", "Join by null"); } for (int i = 0; i < n; i++) EXPECT(*(Object**)a->Address(i) == parts[i % 5], "changed", "array element %d changed", i); state(mc::mix(mc::mix(n, k), w)); }
SUITE(medium_operands, 0, "2..7 operands, one of 50 lengths 0..600, the others short, null or of another of 8 lengths, in every place") {
  int n = 2 + choose(6), at = choose(n), k = ladder(0, 600), o = pick({ -1, 0, 1, 2, 64, 127, 128, 129 }); Part p[7]; for (int i = 0; i < n; i++) { if (i == at) { Big b = Big::pattern(k, i); p[i].t = Txt(b.c, k); p[i].o = mk(p[i].t); } else if (o < 0) p[i] = part(i % 2 ? 0 : 3); else { Big b = Big::pattern(o, i + 3); p[i].t = Txt(b.c, o); p[i].o = mk(p[i].t); } } single(p, n); }
SUITE(far_args, 0, "arrays of 0, 1, 5, 40 and 300 elements joined by text and by character from starts and counts of 129 magnitudes of either sign, one or both of them") {
  int n = pick({ 0, 1, 5, 40, 300 }), form = choose(3), x = farInts[choose(NFAR)]; String* parts[3] = { mk(L"a"), nullptr, mk(L"bcd") }; Txt texts[3] = { Txt(L"a"), Txt(), Txt(L"bcd") }; Array* a = new Array(ObjectType, n); for (int i = 0; i < n; i++) *(Object**)a->Address(i) = parts[i % 3]; Big sep = Big::of(L";"); String* q = mk(sep); NOTE("%d elements, %d in place %d", n, x, form);
  auto one = [&](int st, int c) { bool in = st >= 0 && st <= n, ok = in && c <= n - st; if (c < 0 && in) return; String* r = nullptr; Ex e; for (int how = 0; how < 2; how++) { e = attempt([&] { r = how ? String::Join((Char)L';', a, st, c) : String::Join(q, a, st, c); }); expectEx(e, ok ? EXBIT(OK_) : ARG, "far/join", "Join in a window"); if (ok) { Big w = joined(a, parts, texts, 3, st, c, sep); EXPECT(sameText(r, w), "far/join", "Join of %d+%d of %d elements is %s", st, c, n, show(r)); } } };
  if (form == 0) { for (int c : { 0, 1, n, n + 1, INT32_MAX }) one(x, c); bool in = x >= 0 && x <= n; String* r = nullptr; Ex e = attempt([&] { r = String::Join(q, a, x); }); expectEx(e, in ? EXBIT(OK_) : ARG, "far/join", "Join of the rest"); if (in) EXPECT(sameText(r, joined(a, parts, texts, 3, x, n - x, sep)), "far/join", "Join of the rest"); e = attempt([&] { r = String::Join((Char)L';', a, x); }); expectEx(e, in ? EXBIT(OK_) : ARG, "far/join", "Join of the rest"); } else if (form == 1) for (int st : { 0, 1, n - 1, n }) one(st, x); else for (int k = 0; k < NFAR; k++) one(x, farInts[k]); state(mc::mix(n, mc::mix(form, x))); }
SUITE(every_char, 0, "separators and one-character texts and boxed characters of 116 kinds each: arrays of 1..4 of them joined by that character and by a text of it, and concatenated") {
  wchar_t s = ladderChar(), c = ladderChar(); int n = 1 + choose(4); Txt one, w, cc; one.add(s); Part p[4]; for (int i = 0; i < n; i++) { p[i].t = Txt(); p[i].t.add(c); Txt t = p[i].t; p[i].o = i % 2 ? (Object*)new CharValue((Char)c) : new String(mkChars(t)); if (i) w.add(s); w.add(c); cc.add(c); } Array* a = listOf(p, n, ObjectType); String *r = nullptr, *q = new String(mkChars(one)); NOTE("%d of U+%X by U+%X", n, (unsigned)c, (unsigned)s); Ex e = attempt([&] { r = String::Join((Char)s, a); }); expectText(r, e, w, "every/join", "Join by a character"); e = attempt([&] { r = String::Join(q, a); }); expectText(r, e, w, "every/join", "Join by a text"); e = attempt([&] { r = String::Concat(a); }); expectText(r, e, cc, "every/concat", "Concat"); state(mc::mix(w.hash(), s)); }
