// P07: scalar <-> bytes <-> hexadecimal text.
#include "values.h"
static const DataType kinds[] = { BooleanType, CharType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType };
static int width(DataType t) { return t == BooleanType ? 1 : t == CharType ? 2 : sizeOf(t); }
static Array* toBytes(DataType t, uint64_t b) {
  switch (t) {
  case BooleanType: return BitConverter::GetBytes((Boolean)(b != 0)); case CharType: return BitConverter::GetBytes((Char)(b & 0xFFFF));
  case Int16Type: return BitConverter::GetBytes((Int16)b); case UInt16Type: return BitConverter::GetBytes((UInt16)b);
  case Int32Type: return BitConverter::GetBytes((Int32)b); case UInt32Type: return BitConverter::GetBytes((UInt32)b);
  case Int64Type: return BitConverter::GetBytes((Int64)b); case UInt64Type: return BitConverter::GetBytes((UInt64)b);
  case SingleType: { Single f; memcpy(&f, &b, 4); return BitConverter::GetBytes(f); }
  default: { Double d; memcpy(&d, &b, 8); return BitConverter::GetBytes(d); } }
}
static uint64_t fromBytes(DataType t, Array* a, int at) {
  switch (t) {
  case BooleanType: return BitConverter::ToBoolean(a, at) ? 1 : 0; case CharType: return (uint64_t)(int64_t)BitConverter::ToChar(a, at);
  case Int16Type: return (uint16_t)BitConverter::ToInt16(a, at); case UInt16Type: return BitConverter::ToUInt16(a, at);
  case Int32Type: return (uint32_t)BitConverter::ToInt32(a, at); case UInt32Type: return BitConverter::ToUInt32(a, at);
  case Int64Type: return (uint64_t)BitConverter::ToInt64(a, at); case UInt64Type: return BitConverter::ToUInt64(a, at);
  case SingleType: { Single f = BitConverter::ToSingle(a, at); uint32_t b; memcpy(&b, &f, 4); return b; }
  default: { Double d = BitConverter::ToDouble(a, at); uint64_t b; memcpy(&b, &d, 8); return b; } }
}
static void checkImage(DataType t, uint64_t b) {
  int w = width(t); uint64_t mask = w == 8 ? ~0ull : (1ull << (8 * w)) - 1; if (t == BooleanType) b = b != 0; b &= mask;
  Array* a = toBytes(t, b); EXPECT(a && a->get_Rank() == 1 && a->GetElementType() == ByteType && a->get_Length() == w, "bytes/shape", "%s gave %d bytes, expected %d", typeName(t), a ? a->get_Length() : -1, w);
  for (int i = 0; i < w; i++) { int g = *(Byte*)a->Address(i), want = (int)(b >> (8 * i) & 255); EXPECT(g == want, "bytes/content", "%s %llx byte %d is %d, expected %d", typeName(t), (unsigned long long)b, i, g, want); }
  uint64_t r = fromBytes(t, a, 0); EXPECT(r == b, "roundtrip", "%s %llx read back as %llx", typeName(t), (unsigned long long)b, (unsigned long long)r);
  if (t == DoubleType) { Double d; memcpy(&d, &b, 8); Int64 i = BitConverter::DoubleToInt64Bits(d); EXPECT((uint64_t)i == b, "doublebits", "double to bits gave %llx", (unsigned long long)i); Double d2 = BitConverter::Int64BitsToDouble((Int64)b); uint64_t b2; memcpy(&b2, &d2, 8); EXPECT(b2 == b, "doublebits", "bits to double gave %llx", (unsigned long long)b2); }
  state(mc::mix(t, b));
}
SUITE(all_small, 0, "every value of every type of at most two bytes, in chunks of 256") { DataType t = pick({ BooleanType, CharType, Int16Type, UInt16Type }); int hi = choose(t == BooleanType ? 1 : 256); NOTE("%s %02xxx", typeName(t), hi); for (int lo = 0; lo < (t == BooleanType ? 2 : 256); lo++) checkImage(t, hi * 256 + lo); }
SUITE(wide, 0, "32- and 64-bit types: every choice of each byte from {00,01,7f,80,ff} (64-bit, quick: from {00,80,ff})") {
  DataType t = pick({ Int32Type, UInt32Type, SingleType, Int64Type, UInt64Type, DoubleType }); int w = width(t); static const unsigned char v[] = { 0, 0x80, 0xff, 0x01, 0x7f }; uint64_t b = 0;
  int k = w == 8 && !thorough ? 3 : 5; for (int i = 0; i < w; i++) b |= (uint64_t)v[choose(k)] << (8 * i); NOTE("%s %llx", typeName(t), (unsigned long long)b); checkImage(t, b);
}
SUITE(boundaries, 0, "every boundary value of the 10 types, floats with every exponent and 6 mantissas and both signs") {
  DataType t = pick(kinds);
  if (isFloat(t)) { int ex = choose(t == SingleType ? 256 : 2048), sg = choose(2), m = choose(6); int mb = t == SingleType ? 23 : 52; uint64_t mm[] = { 0, 1, 1ull << (mb - 1), (1ull << mb) - 1, (1ull << (mb - 1)) + 1, 0x5555555555555ull & ((1ull << mb) - 1) }; uint64_t b = mm[m] | (uint64_t)ex << mb | (uint64_t)sg << (t == SingleType ? 31 : 63); NOTE("%s %llx", typeName(t), (unsigned long long)b); checkImage(t, b); }
  else { V v = chooseBoundary(t); NOTE("%s", showV(v)); checkImage(t, (uint64_t)v.i); }
}
SUITE(offsets, 0, "reading each type at every position (-1 to past the end, integer extremes) of byte arrays of length 0..12 with 3 fill patterns, and null") {
  DataType t = pick(kinds); int n = choose(14) - 1, w = width(t); Array* a = n < 0 ? nullptr : new Array(ByteType, n); unsigned char m[16]; int pat = choose(3);
  for (int i = 0; i < n; i++) { m[i] = pat == 0 ? (unsigned char)(0xC1 + i * 23) : pat == 1 ? 0xff : 0; *(Byte*)a->Address(i) = m[i]; }
  static const int big[] = { -1, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, -8 }; int k = choose((n < 0 ? 0 : n) + 2 + 6); int at = k < (n < 0 ? 0 : n) + 2 ? k : big[k - (n < 0 ? 0 : n) - 2];
  NOTE("%s at %d of %d bytes pattern %d", typeName(t), at, n, pat); uint64_t r = 0; Ex e = attempt([&] { r = fromBytes(t, a, at); });
  if (!a) expectEx(e, EXBIT(xArgumentNull) | (at < 0 ? EXBIT(xArgumentOutOfRange) : 0), "read/null", "reading from null");
  else if (at < 0 || at >= n) expectEx(e, EXBIT(xArgumentOutOfRange) | EXBIT(xArgument), "read/range", "reading outside the array");
  else if (at > n - w) expectEx(e, EXBIT(xArgumentOutOfRange) | EXBIT(xArgument), "read/range", "reading past the end");
  else { expectEx(e, EXBIT(OK_), "read/ok", "reading inside the array"); uint64_t want = 0; for (int i = 0; i < w; i++) want |= (uint64_t)m[at + i] << (8 * i); if (t == BooleanType) want = want != 0; EXPECT(r == want, "read/value", "%s at %d read as %llx, expected %llx", typeName(t), at, (unsigned long long)r, (unsigned long long)want); }
  for (int i = 0; i < n; i++) EXPECT(*(Byte*)a->Address(i) == m[i], "read/changed", "source changed");
  state(mc::mix(mc::mix(t, e), mc::mix(n, r)));
}
SUITE(embed, 0, "bytes of every boundary value placed at every position 0..4 of a larger array and read back there") {
  DataType t = pick(kinds); V v = chooseBoundary(t); int at = choose(5), tail = choose(3); Array* b = box(v) ? nullptr : nullptr; uint64_t bits = 0;
  if (t == SingleType) { Single f = (Single)v.d; uint32_t x; memcpy(&x, &f, 4); bits = x; b = BitConverter::GetBytes(f); } else if (t == DoubleType) { memcpy(&bits, &v.d, 8); b = BitConverter::GetBytes(v.d); } else { bits = (uint64_t)v.i & (width(t) == 8 ? ~0ull : (1ull << 8 * width(t)) - 1); b = toBytes(t, bits); }
  int w = width(t); Array* big = new Array(ByteType, at + w + tail); for (int i = 0; i < at + w + tail; i++) *(Byte*)big->Address(i) = 0xA5; Buffer::BlockCopy(b, 0, big, at, w);
  NOTE("%s at %d tail %d", showV(v), at, tail); uint64_t r = fromBytes(t, big, at); EXPECT(r == bits, "embed", "%s at %d read back as %llx, expected %llx", showV(v), at, (unsigned long long)r, (unsigned long long)bits); state(mc::mix(bits, at * 8 + t));
}
SUITE(hex, 0, "hexadecimal text: arrays of length 0..4 (thorough 0..6) with bytes from {00,0a,a0,9f,ff}, every start and length including defaults, -1, -2 and the integer extremes; null") {
  int n = choose(thorough ? 8 : 6) - 1; Array* a = n < 0 ? nullptr : new Array(ByteType, n); unsigned char m[8]; static const unsigned char v[] = { 0x9f, 0x00, 0x0a, 0xa0, 0xff }; int vary = n <= 4 ? n : 3;
  for (int i = 0; i < n; i++) { m[i] = i < vary ? v[choose(n >= 3 ? 3 : 5)] : (unsigned char)(0x1b * i); *(Byte*)a->Address(i) = m[i]; }
  int nn = n < 0 ? 0 : n; static const int big[] = { -1, -2, INT32_MAX, INT32_MIN }; int form = choose(3); int k = form ? choose(nn + 6) : 0, st = k < nn + 2 ? k : big[k - nn - 2]; k = form == 2 ? choose(nn + 6) : -1; int len = k < 0 ? -1 : k < nn + 2 ? k : big[k - nn - 2];
  NOTE("form %d length %d start %d count %d", form, n, st, len); String* r = nullptr; Ex e = attempt([&] { r = form == 0 ? BitConverter::ToString(a) : form == 1 ? BitConverter::ToString(a, st) : BitConverter::ToString(a, st, len); });
  int cnt = len == -1 ? nn - st : len; const unsigned RANGE = EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
  if (!a) expectEx(e, EXBIT(xArgumentNull) | (st < 0 || len < -1 ? RANGE : 0), "hex/null", "text of null");
  else if (st < 0 || st > n || (st == n && n > 0 && cnt > 0) || (form == 2 && len < -1) || (len != -1 && (int64_t)st + len > n)) expectEx(e, RANGE, "hex/range", "text of a range outside the array");
  else if (st == n && n > 0) expectEx(e, EXBIT(OK_) | RANGE, "hex/end", "empty text at the end");
  else { expectEx(e, EXBIT(OK_), "hex/ok", "text of a valid range"); Txt t; for (int i = 0; i < cnt; i++) { if (i) t.add(L'-'); t.add(L"0123456789ABCDEF"[m[st + i] >> 4]); t.add(L"0123456789ABCDEF"[m[st + i] & 15]); } EXPECT(sameText(r, t), "hex/text", "got %s, expected %s", show(r), show(t)); state(t.hash()); }
  state(mc::mix(e, n * 64 + st));
}
SUITE(hex_all, 0, "hexadecimal text of every byte value, alone and between neighbours") { int b = choose(256), n = 1 + 2 * choose(2); Array* a = new Array(ByteType, n); *(Byte*)a->Address(n / 2) = b; Txt t; for (int i = 0; i < n; i++) { if (i) t.add(L'-'); int x = i == n / 2 ? b : 0; t.add(L"0123456789ABCDEF"[x >> 4]); t.add(L"0123456789ABCDEF"[x & 15]); } String* r = BitConverter::ToString(a); NOTE("byte %02x", b); EXPECT(sameText(r, t), "hex/byte", "got %s, expected %s", show(r), show(t)); state(t.hash()); }
SUITE(hex_long, 0, "hexadecimal text of arrays of length 5..300") { int n = 5 + choose(296); Array* a = new Array(ByteType, n); Txt t; for (int i = 0; i < n; i++) { *(Byte*)a->Address(i) = (Byte)(i * 7); if (i) t.add(L'-'); t.add(L"0123456789ABCDEF"[(i * 7 & 255) >> 4]); t.add(L"0123456789ABCDEF"[i * 7 & 15]); } String* r = BitConverter::ToString(a); NOTE("length %d", n); EXPECT(sameText(r, t), "hex/long", "text of %d bytes differs", n); state(t.hash()); }

// ---- positions that do not fit a byte or a 16-bit number
SUITE(large, 0, "reading each type at positions around 256, 32768, 65536 and the end of arrays of 255..70001 bytes; hexadecimal text of windows there") {
  DataType t = pick(kinds); static const int ns[] = { 255, 256, 257, 270, 32770, 65537, 65545, 70001 }; int n = pick(ns), w = width(t); static const int mid[] = { 0, 255, 256, 32767, 65535, 65536 }; int m0 = choose(8), d = choose(18) - 9, at = m0 < 6 ? mid[m0] + d : m0 == 6 ? n + d : n / 2 + d; Array* a = new Array(ByteType, n); unsigned char* m = (unsigned char*)a->Address(0); for (int i = 0; i < n; i++) m[i] = (unsigned char)(i * 37 + (i >> 8) * 11 + (i >> 16) * 57 + 5);
  NOTE("%s at %d of %d bytes", typeName(t), at, n); uint64_t r = 0; Ex e = attempt([&] { r = fromBytes(t, a, at); }); bool ok = at >= 0 && at <= n - w; expectEx(e, ok ? EXBIT(OK_) : EXBIT(xArgumentOutOfRange) | EXBIT(xArgument), "large/read", "reading"); if (ok) { uint64_t want = 0; for (int i = 0; i < w; i++) want |= (uint64_t)m[at + i] << (8 * i); if (t == BooleanType) want = want != 0; EXPECT(r == want, "large/read", "%s at %d read as %llx, expected %llx", typeName(t), at, (unsigned long long)r, (unsigned long long)want); }
  String* s = nullptr; int len = w * 40; e = attempt([&] { s = BitConverter::ToString(a, at, len); }); ok = at >= 0 && at + len <= n; expectEx(e, ok ? EXBIT(OK_) : EXBIT(xArgumentOutOfRange) | EXBIT(xArgument), "large/hex", "text of a window"); if (ok) { Txt x; for (int i = 0; i < len; i++) { if (i) x.add(L'-'); x.add(L"0123456789ABCDEF"[m[at + i] >> 4]); x.add(L"0123456789ABCDEF"[m[at + i] & 15]); } EXPECT(sameText(s, x), "large/hex", "text of %d bytes from %d differs", len, at); } state(mc::mix(mc::mix(t, n), mc::mix(at, r))); }
SUITE(hex_large, 0, "hexadecimal text of whole arrays of 500..70001 bytes") { static const int ns[] = { 500, 1000, 4095, 4096, 10922, 10923, 21845, 21846, 32767, 32768, 65535, 65536, 70001 }; int n = pick(ns), form = choose(3), st = form ? choose(3) : 0; Array* a = new Array(ByteType, n); for (int i = 0; i < n; i++) *(Byte*)a->Address(i) = (Byte)(i * 7 + (i >> 8) + (i >> 16) * 57); String* r = form == 0 ? BitConverter::ToString(a) : form == 1 ? BitConverter::ToString(a, st) : BitConverter::ToString(a, st, n - st - 1); int k = form == 0 ? n : form == 1 ? n - st : n - st - 1; NOTE("length %d form %d", n, form); EXPECT(r && r->get_Length() == k * 3 - 1, "hex/large", "length %d, expected %d", r ? r->get_Length() : -1, k * 3 - 1); for (int i = 0; i < k; i++) { int b = (Byte)((i + st) * 7 + ((i + st) >> 8) + ((i + st) >> 16) * 57); Char* c = r->get_Buffer() + 3 * i; if (c[0] != L"0123456789ABCDEF"[b >> 4] || c[1] != L"0123456789ABCDEF"[b & 15] || c[2] != (i == k - 1 ? 0 : L'-')) fail("hex/large", "byte %d wrong", i); } state(mc::mix(n, form)); }

// ---- every value of every byte, not only the boundary bytes
SUITE(boolean_bytes, 0, "every byte value at every position of arrays of 1..4 bytes with every other byte 0 or 255, read as a boolean") { int b = choose(256), n = 1 + choose(4), at = choose(n), o = choose(2) ? 255 : 0; Array* a = new Array(ByteType, n); for (int i = 0; i < n; i++) *(Byte*)a->Address(i) = i == at ? b : o; NOTE("byte %02x at %d of %d among %02x", b, at, n, o); for (int i = 0; i < n; i++) { bool want = (i == at ? b : o) != 0; Boolean r = !want; Ex e = attempt([&] { r = BitConverter::ToBoolean(a, i); }); expectEx(e, EXBIT(OK_), "boolean/raise", "reading a boolean"); EXPECT((bool)r == want, "boolean/value", "byte %02x read as %s", i == at ? b : o, r ? "true" : "false"); } state(b * 64 + n * 16 + at * 2 + (o != 0)); }
SUITE(each_byte, 0, "every type: every value of every single byte, the other bytes all one of {00 80 ff 41}") { DataType t = pick(kinds); int w = width(t); uint64_t b = 0; int at = choose(w), v = choose(256); static const int os[] = { 0, 0x80, 0xff, 0x41 }; int o = pick(os); for (int i = 0; i < w; i++) b |= (uint64_t)(i == at ? v : o) << (8 * i); NOTE("%s %llx", typeName(t), (unsigned long long)b); checkImage(t, b); Array* a = new Array(ByteType, w + 2); for (int i = 0; i < w; i++) *(Byte*)a->Address(i + 1) = (Byte)(b >> 8 * i); uint64_t r = fromBytes(t, a, 1), want = t == BooleanType ? b != 0 : b; EXPECT(r == want, "each/read", "%s %llx read as %llx", typeName(t), (unsigned long long)b, (unsigned long long)r); }
SUITE(byte_pairs, 0, "two-byte types at position 1 of an array: every pair of bytes, in chunks; 32- and 64-bit types with every pair of values from 16 in every two byte positions") {
  DataType t = pick(kinds); int w = width(t); if (t == BooleanType) mc::discard(); static const int vs[] = { 0, 1, 2, 0x0F, 0x10, 0x20, 0x3F, 0x40, 0x41, 0x55, 0x7F, 0x80, 0xAA, 0xC0, 0xFE, 0xFF }; int i = choose(w), j = choose(w); if (i >= j) mc::discard(); int x = pick(vs), o = choose(2) ? 255 : 0; NOTE("%s bytes %d and %d, first %02x", typeName(t), i, j, x); for (int y = 0; y < 256; y++) { uint64_t b = 0; for (int k = 0; k < w; k++) b |= (uint64_t)(k == i ? x : k == j ? y : o) << (8 * k); checkImage(t, b); } }

// ---- middle-sized arrays, positions of every magnitude
static const unsigned RNG = EXBIT(xArgumentOutOfRange) | EXBIT(xArgument);
SUITE(medium, 0, "every type read at every position of arrays of 62 (thorough 76) lengths 0..1025 (4097) (above 300: the edges of every group of 16), and hexadecimal text of windows from there of 11 lengths") {
  DataType t = pick(kinds); int n = ladder(0, thorough ? 4097 : 1025), w = width(t); Array* a = new Array(ByteType, n); unsigned char* m = n ? (unsigned char*)a->Address(0) : nullptr; for (int i = 0; i < n; i++) m[i] = (unsigned char)(i * 37 + (i >> 8) * 11 + (i >> 16) * 57 + 5); NOTE("%s, %d bytes", typeName(t), n);
  for (int at = 0; at <= n + 1; at++) { if (n > 300 && at % 16 > 1 && at % 16 < 15 && at < n - 9) continue; uint64_t r = 0; bool ok = at <= n - w; Ex e = attempt([&] { r = fromBytes(t, a, at); }); expectEx(e, ok ? EXBIT(OK_) : RNG, "medium/read", "reading"); if (ok) { uint64_t want = 0; for (int i = 0; i < w; i++) want |= (uint64_t)m[at + i] << (8 * i); if (t == BooleanType) want = want != 0; EXPECT(r == want, "medium/read", "%s at %d of %d read as %llx, expected %llx", typeName(t), at, n, (unsigned long long)r, (unsigned long long)want); } }
  if (t == Int32Type) for (int len : { 1, 2, 5, 16, 17, 64, 85, 128, 256, 300, n }) for (int at = 0; at < n; at += n > 300 ? 61 : n > 66 ? 13 : 1) { String* s = nullptr; bool ok = at + len <= n; Ex e = attempt([&] { s = BitConverter::ToString(a, at, len); }); expectEx(e, ok ? EXBIT(OK_) : RNG, "medium/hex", "text of a window"); if (!ok || len == 0) continue; EXPECT(s->get_Length() == len * 3 - 1, "medium/hex", "length %d for %d bytes", s->get_Length(), len); Char* c = s->get_Buffer(); for (int i = 0; i < len; i++) if (c[3 * i] != L"0123456789ABCDEF"[m[at + i] >> 4] || c[3 * i + 1] != L"0123456789ABCDEF"[m[at + i] & 15] || c[3 * i + 2] != (i == len - 1 ? 0 : L'-')) fail("medium/hex", "byte %d of %d from %d", i, len, at); }
  for (int i = 0; i < n; i++) if (m[i] != (unsigned char)(i * 37 + (i >> 8) * 11 + (i >> 16) * 57 + 5)) fail("read/changed", "source changed"); state(mc::mix(t, n)); }
SUITE(far_args, 0, "every type read, and hexadecimal text taken, from arrays of 1, 8, 40 and 300 bytes at positions (and of lengths) of 129 magnitudes of either sign, one or both") {
  int n = pick({ 1, 8, 40, 300 }), x = farInts[choose(NFAR)]; Array* a = new Array(ByteType, n); unsigned char* m = (unsigned char*)a->Address(0); for (int i = 0; i < n; i++) m[i] = (unsigned char)(i * 37 + 5); NOTE("%d in %d bytes", x, n);
  for (DataType t : kinds) { int w = width(t); bool ok = x >= 0 && x <= n - w; uint64_t r = 0; Ex e = attempt([&] { r = fromBytes(t, a, x); }); expectEx(e, ok ? EXBIT(OK_) : RNG, "far/read", "reading"); if (ok) { uint64_t want = 0; for (int i = 0; i < w; i++) want |= (uint64_t)m[x + i] << (8 * i); if (t == BooleanType) want = want != 0; EXPECT(r == want, "far/read", "%s at %d", typeName(t), x); } }
  auto hex = [&](int st, int len) { if (len == -1 || (st == n && len == 0)) return; bool ok = st >= 0 && st < n && len >= 0 && (int64_t)st + len <= n; String* s = nullptr; Ex e = attempt([&] { s = BitConverter::ToString(a, st, len); }); expectEx(e, ok ? EXBIT(OK_) : RNG, "far/hex", "text of a window"); if (ok) EXPECT(s->get_Length() == (len ? len * 3 - 1 : 0), "far/hex", "length %d for %d bytes", s->get_Length(), len); };
  for (int o : { 0, 1, n - 1, INT32_MAX }) { hex(x, o); hex(o, x); } for (int k = 0; k < NFAR; k++) hex(x, farInts[k]); { bool ok = x >= 0 && x < n; if (x != n) expectEx(attempt([&] { BitConverter::ToString(a, x); }), ok ? EXBIT(OK_) : RNG, "far/hex", "text of the rest"); } state(mc::mix(n, (uint64_t)(uint32_t)x)); }
