// Glue between the explorer and the library under test: exception kinds, model text, probes.
#pragma once
#include <DotnetTypes.h>
#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <wchar.h>
#include <math.h>
#include <initializer_list>
using namespace DotnetLibrary;
using mc::choose; using mc::fail; using mc::step; using mc::state; using mc::thorough;

enum Ex { OK_, xIndexOutOfRange, xArgumentNull, xRank, xArgumentOutOfRange, xArgument, xNotImplemented, xInvalidCast, xInvalidOperation, xFormat, xOverflow, xMinMax, xArithmetic, xDivideByZero, xBase, xOther };
static const char* const exNames[] = { "no exception", "IndexOutOfRange", "ArgumentNull", "Rank", "ArgumentOutOfRange", "Argument", "NotImplemented", "InvalidCast", "InvalidOperation", "Format", "Overflow", "ThrowMinMax", "Arithmetic", "DivideByZero", "Exception", "other exception" };
static inline const char* exName(int e) { return exNames[e]; }
static inline Ex kindOf(Exception* e) {
  if (dynamic_cast<IndexOutOfRangeException*>(e)) return xIndexOutOfRange;
  if (dynamic_cast<ArgumentNullException*>(e)) return xArgumentNull;
  if (dynamic_cast<RankException*>(e)) return xRank;
  if (dynamic_cast<ArgumentOutOfRangeException*>(e)) return xArgumentOutOfRange;
  if (dynamic_cast<ArgumentException*>(e)) return xArgument;
  if (dynamic_cast<NotImplementedException*>(e)) return xNotImplemented;
  if (dynamic_cast<InvalidCastException*>(e)) return xInvalidCast;
  if (dynamic_cast<InvalidOperationException*>(e)) return xInvalidOperation;
  if (dynamic_cast<FormatException*>(e)) return xFormat;
  if (dynamic_cast<OverflowException*>(e)) return xOverflow;
  if (dynamic_cast<ThrowMinMaxException*>(e)) return xMinMax;
  if (dynamic_cast<ArithmeticException*>(e)) return xArithmetic;
  if (dynamic_cast<DivideByZeroException*>(e)) return xDivideByZero;
  return xBase;
}
// Runs f, returns the kind of library exception it raised (OK_ if none).
template <class F> static inline Ex attempt(F f) {
  try { f(); return OK_; } catch (Exception* e) { return e ? kindOf(e) : xOther; }
}
#define EXBIT(x) (1u << (x))
enum : unsigned { ANYERR = ~1u };   // any library exception
static inline const char* exSet(unsigned s) {
  static char b[300]; b[0] = 0; if (s == ANYERR) return "an exception";
  for (int i = 0; i <= xOther; i++) if (s & EXBIT(i)) { if (b[0]) strcat(b, " or "); strcat(b, exNames[i]); }
  return b;
}

// Fixed-capacity model text; copying costs only its length.
struct Txt {
  enum { CAP = 2600 };
  int n; wchar_t c[CAP];
  Txt() : n(0) {}
  Txt(const wchar_t* s) : n(0) { while (*s) c[n++] = *s++; }
  Txt(const wchar_t* s, int k) : n(k) { memcpy(c, s, sizeof(wchar_t) * k); }
  Txt(const Txt& o) : n(o.n) { memcpy(c, o.c, sizeof(wchar_t) * n); }
  Txt& operator=(const Txt& o) { n = o.n; memmove(c, o.c, sizeof(wchar_t) * n); return *this; }
  Txt& add(wchar_t x) { if (n >= CAP) abort(); c[n++] = x; return *this; }
  Txt& add(const Txt& o) { for (int i = 0, k = o.n; i < k; i++) add(o.c[i]); return *this; }
  Txt& addA(const char* s) { while (*s) add((wchar_t)(unsigned char)*s++); return *this; }
  Txt sub(int s, int k) const { return Txt(c + s, k); }
  void insert(int at, const Txt& o) { Txt t(*this); n = at; add(o); for (int i = at; i < t.n; i++) add(t.c[i]); }
  void remove(int at, int k) { for (int i = at + k; i < n; i++) c[i - k] = c[i]; n -= k; }
  bool operator==(const Txt& o) const { return n == o.n && !memcmp(c, o.c, sizeof(wchar_t) * n); }
  bool operator!=(const Txt& o) const { return !(*this == o); }
  uint64_t hash() const { return mc::hashBytes(c, sizeof(wchar_t) * n); }
};
// printable form in a ring of static buffers
static inline const char* show(const wchar_t* c, int n) {
  static char b[8][700]; static int k; char* o = b[k++ & 7]; char* p = o; *p++ = '"';
  for (int i = 0; i < n && p - o < 640; i++) {
    if (i == 60 && n > 130) { p += sprintf(p, "...(%d)...", n - 120); i = n - 60; }
    unsigned x = (unsigned)c[i]; if (x == '"' || x == '\\') { *p++ = '\\'; *p++ = (char)x; } else if (x >= 32 && x < 127) *p++ = (char)x; else p += sprintf(p, "\\u%04x", x);
  }
  *p++ = '"'; *p = 0; return o;
}
static inline const char* show(const Txt& t) { return show(t.c, t.n); }
static inline const char* show(String* s) { return s ? show(s->get_Buffer(), s->get_Length()) : "null"; }

// exact-size, redzoned character block (NUL terminated)
static inline Char* rawChars(const wchar_t* c, int n, bool nul = true) {
  Char* p = (Char*)malloc(sizeof(Char) * (n + (nul ? 1 : 0))); memcpy(p, c, sizeof(Char) * n); if (nul) p[n] = 0; return p;
}
// a library string owning a copy (allocated form)
static inline Txt txt(String* s) { return Txt(s->get_Buffer(), s->get_Length()); }
static inline Txt lit(const char* s) { Txt t; t.addA(s); return t; }
static inline bool sameText(String* s, const Txt& t) {
  return s && s->get_Length() == t.n && (t.n == 0 || !memcmp(s->get_Buffer(), t.c, sizeof(Char) * t.n)) && s->get_Buffer()[t.n] == 0;
}
static inline Array* mkChars(const Txt& t) { Array* a = new Array(CharType, t.n); for (int i = 0; i < t.n; i++) *(Char*)a->Address(i) = t.c[i]; return a; }
// from a literal, or from an array when there is a NUL in the text
static inline String* mk(const Txt& t) { return t.n && wmemchr(t.c, 0, t.n) ? new String(mkChars(t)) : new String(rawChars(t.c, t.n)); }
// The letters a b c x of an alphabet stand for themselves or, under another skin, for characters that a
// lossy comparison would confuse: equal modulo 256 or 65536, equal up to case or accent, sign-extended, not BMP.
enum { SKINS = 6, HOLES = 6 };   // HOLES: long texts contain NULs and characters outside the BMP
static inline wchar_t SK(wchar_t c) {
  static const unsigned map[SKINS][4] = { { 'a', 'b', 'c', 'x' }, { 0x61, 0x161, 0x261, 0x361 }, { 0x61, 0x10061, 0x20061, 0x30061 }, { 'a', 'A', 0xE1, 0xC1 }, { 0xE9, 0xFFFFFFE9u, 0xFFE9, 0x69 }, { 0xD83D, 0xDE00, 0xFFFF, 0x10FFFF } };
  if (mc::skin >= SKINS) return c; switch (c) { case L'a': return (wchar_t)map[mc::skin][0]; case L'b': return (wchar_t)map[mc::skin][1]; case L'c': return (wchar_t)map[mc::skin][2]; case L'x': return (wchar_t)map[mc::skin][3]; } return c; }
static inline void skins() { mc::skin = choose(SKINS); if (mc::skin) NOTE("letters a b c x stand for characters U+%X U+%X U+%X U+%X", (unsigned)SK(L'a'), (unsigned)SK(L'b'), (unsigned)SK(L'c'), (unsigned)SK(L'x')); }
static inline bool holes() { mc::skin = choose(2) ? HOLES : 0; if (mc::skin) NOTE("long texts contain NULs and characters outside the BMP"); return mc::skin != 0; }
static inline Txt SK(Txt t) { for (int i = 0; i < t.n; i++) t.c[i] = SK(t.c[i]); return t; }
// enumerate all texts over alphabet with length lo..hi (shorter first)
static inline Txt chooseText(const wchar_t* alpha, int lo, int hi) {
  int k = (int)wcslen(alpha); Txt t; int len = lo + choose(hi - lo + 1); for (int i = 0; i < len; i++) t.add(SK(alpha[choose(k)])); return t;
}
template <class T, int N> static inline T pick(const T (&a)[N]) { return a[choose(N)]; }
template <class T> static inline T pick(std::initializer_list<T> l) { return l.begin()[choose((int)l.size())]; }
// What a bounded model of small objects leaves out: lengths to 20 and around powers of two and ten, arguments of every magnitude, one character of every kind.
static const int ladderLens[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66, 80, 95, 96, 97, 100, 112, 126, 127, 128, 129, 130, 150, 192, 200, 254, 255, 256, 257, 258, 300, 384, 400, 500, 511, 512, 513, 600, 767, 768, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 2500, 3000, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 10000 };
static inline int ladder(int lo, int hi) { int a = 0, n = sizeof ladderLens / sizeof ladderLens[0], b = n; while (a < n && ladderLens[a] < lo) a++; while (b > 0 && ladderLens[b - 1] > hi) b--; return ladderLens[a + choose(b - a)]; }
static const int farInts[] = { -1, -2, -3, -4, -5, -7, -8, -9, -10, -15, -16, -17, -31, -32, -33, -63, -64, -65, -100, -127, -128, -129, -200, -254, -255, -256, -257, -500, -511, -512, -513, -1000, -1024, -4095, -4096, -10000, -32767, -32768, -32769, -65535, -65536, -65537, -100000, -1000000, -8388608, -16777216, -16777217, -268435456, -536870912, -1073741823, -1073741824, -1073741825, -2000000000, -2147483640, INT32_MIN + 2, INT32_MIN + 1, INT32_MIN,
  3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 30, 31, 32, 33, 48, 63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131072, 1000000, 8388608, 16777215, 16777216, 16777217, 67108864, 268435455, 268435456, 536870911, 536870912, 1073741823, 1073741824, 1073741825, 2000000000, 2147483640, INT32_MAX - 2, INT32_MAX - 1, INT32_MAX };
enum { NFAR = sizeof farInts / sizeof farInts[0] };
static const unsigned charLadder[] = { 0, 1, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0x1B, 0x1C, 0x1F, 0x20, 0x21, 0x22, 0x25, 0x27, 0x2C, 0x2D, 0x2E, 0x2F, 0x30, 0x31, 0x39, 0x3A, 0x3B, 0x40, 0x41, 0x49, 0x46, 0x5A, 0x5B, 0x5C, 0x5F, 0x60, 0x61, 0x66, 0x69, 0x7A, 0x7B, 0x7E, 0x7F, 0x80, 0x81, 0x85, 0x9F, 0xA0, 0xA1, 0xAD, 0xB5, 0xBF, 0xC0, 0xD7, 0xDF, 0xE0, 0xE9, 0xF7, 0xFE, 0xFF, 0x100, 0x120, 0x130, 0x131, 0x141, 0x161, 0x17F, 0x1C5, 0x200, 0x300, 0x37E, 0x3A3, 0x3C2, 0x3C3, 0x400, 0x5D0, 0x660, 0x7FF, 0x800, 0x1680, 0x180E, 0x2000, 0x200B, 0x200D, 0x2028, 0x2029, 0x202F, 0x205F, 0x2126, 0x212A, 0x3000, 0x3042, 0x4E00, 0x7FFF, 0x8000, 0xAC00, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFF00, 0xFF21, 0xFF41, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10061, 0x1F600, 0xFFFFF, 0x10FFFF };
enum { NCHAR = sizeof charLadder / sizeof charLadder[0] };
static inline wchar_t ladderChar() { return (wchar_t)charLadder[choose(NCHAR)]; }
// model text of any length
struct Big {
  int n; wchar_t* c;
  Big() : n(0), c(nullptr) {}
  Big(int k) : n(k), c((wchar_t*)malloc(sizeof(wchar_t) * (k + 1))) {}
  static Big pattern(int k, int salt = 0) { Big b(k); for (int i = 0; i < k; i++) b.c[i] = L'a' + (i * 7 + (i >> 5) * 3 + (i >> 12) + salt) % 24; if (mc::skin == HOLES) for (int i = salt % 3; i < k; i++) { if (i % 29 == 11) b.c[i] = 0; else if (i % 31 == 17) b.c[i] += 0x10000; } return b; }   // letters a..x only, unless holes() was chosen
  static Big of(const wchar_t* s) { Big b((int)wcslen(s)); memcpy(b.c, s, sizeof(wchar_t) * b.n); return b; }
  static Big fill(int k, wchar_t ch) { Big b(k); for (int i = 0; i < k; i++) b.c[i] = ch; return b; }
  Big splice(int at, int del, const wchar_t* ins, int k) const { Big b(n - del + k); memcpy(b.c, c, sizeof(wchar_t) * at); memcpy(b.c + at, ins, sizeof(wchar_t) * k); memcpy(b.c + at + k, c + at + del, sizeof(wchar_t) * (n - at - del)); return b; }
  Big sub(int at, int k) const { Big b(k); memcpy(b.c, c + at, sizeof(wchar_t) * k); return b; }
  Big plus(const Big& o) const { return splice(n, 0, o.c, o.n); }
};
static inline Array* mkChars(const Big& t) { Array* a = new Array(CharType, t.n); if (t.n) memcpy(a->Address(0), t.c, sizeof(Char) * t.n); return a; }
static inline bool hasNul(const Big& t) { return t.n && wmemchr(t.c, 0, t.n); }
static inline String* mk(const Big& t) { return hasNul(t) ? new String(mkChars(t)) : new String(rawChars(t.c, t.n)); }
static inline const char* show(const Big& t) { return show(t.c, t.n); }
static inline bool sameText(String* s, const Big& t) { return s && s->get_Length() == t.n && (t.n == 0 || !memcmp(s->get_Buffer(), t.c, sizeof(Char) * t.n)) && s->get_Buffer()[t.n] == 0; }
static inline int bigLength() { static const int l[] = { 129, 257, 600, 4097, 32769, 65537, 128, 255, 256, 384, 385, 512, 1024, 32767, 32768, 65535, 65536, 70001 }; return l[choose(thorough ? 18 : 6)]; }
// a position in a text of n characters: around powers of two, the middle and the end
static inline int bigPos(int n, bool past = false) { static const int c[] = { 0, 1, 127, 128, 255, 256, 4095, 32767, 32768, 65535, 65536, 2, 129, 257, 4096, 32769, 65537 }; int ok[32], k = 0; for (int i = 0; i < (thorough ? 17 : 11); i++) if (c[i] < n - 2) ok[k++] = c[i]; ok[k++] = n / 2; ok[k++] = n - 1; ok[k++] = n; if (past) { ok[k++] = n + 1; ok[k++] = n + 65536; ok[k++] = -1; } return ok[choose(k)]; }
// adds to one character of the text an amount that vanishes when it is narrowed
static inline Txt lookalike(Txt t) { static const unsigned d[] = { 0x100, 0x200, 0x8000, 0xFF00, 0x10000, 0x20000, 0x100000, 0x80000000u, 0x7FFF0000, 0xFFFFFF00u, 0xFFFF0000u, 0xFEE0 }; int i = choose(t.n), k = choose(12); t.c[i] = (wchar_t)((unsigned)t.c[i] + d[k]); if (choose(2)) { int j = choose(t.n); if (j <= i) mc::discard(); t.c[j] = (wchar_t)((unsigned)t.c[j] + d[k]); } NOTE("%s", show(t)); return t; }
// f at x, at a value that agrees with x in all but one bit (or one half, or in magnitude, or by whole multiples of 2^8..2^56), and at x again: f(x) may not remember part of its last argument
template <class F> static void twins(__int128 x, __int128 lo, __int128 hi, F f) {
  auto with = [&](__int128 y) { if (y < lo || y > hi || y == x) return; f(x); f(y); f(x); };
  for (int k = 0; k < 64; k++) { with(x ^ ((__int128)1 << k)); with((__int128)(int64_t)((uint64_t)x ^ ((uint64_t)1 << k))); } for (int k = 8; k < 64; k += 8) for (int m : { 1, -1, 2, 3, -5 }) with(x + m * ((__int128)1 << k));
  with(-x); with(~x); with((x & 0xFFFFFFFFLL) << 32 | (x >> 32 & 0xFFFFFFFFLL)); with(x & 0xFFFFFFFFLL); with(x >> 32 << 32); with((int32_t)x); with(x * 10); with(x / 10);
}
// compare the outcome of a call to the expected one
#define EXPECT(cond, key, ...) do { mc::step(); if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)
static inline void expectEx(Ex got, unsigned want, const char* key, const char* what) {
  mc::step(); if (!(want & EXBIT(got))) mc::fail(key, "%s: got %s, expected %s", what, exName(got), exSet(want));
}
