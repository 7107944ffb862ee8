// P01: the run memory pool hands out disjoint, zeroed, aligned blocks and is recycled by a new run.
#include "dn.h"
#include <PlatformSupport.h>
#include <sys/mman.h>
// the two ways translated code allocates, kept opaque so that a null answer is really looked at
static void* (*volatile allocs[])(size_t) = { my_operator_new_replacement, [](size_t n) -> void* { return ::operator new(n); }, [](size_t n) -> void* { return ::operator new[](n); } };
static void (*volatile frees[])(void*) = { my_operator_delete_replacement, [](void* p) { ::operator delete(p); }, [](void* p) { ::operator delete[](p); } };
struct Block { unsigned char* p; size_t n; int gen; bool live; unsigned char pat; bool part; };
enum { MAXB = 5000 };
static Block bl[MAXB]; static int nb, gen; // gen 0: before any run; blocks handed out since the current run started have bl.gen == gen
static uint64_t used, cap;                  // rounded bytes handed out this run; pool capacity (largest single request, found once)
static void measure() {
  if (cap) return; uint64_t lo = 0, hi = 8; auto ok = [](uint64_t n) { PlatformSetup(); return allocs[0](n) != nullptr; };
  while (hi < (1u << 28) && ok(hi)) { lo = hi; hi *= 2; } while (hi - lo > 1) { uint64_t m = (lo + hi) / 2; if (ok(m)) lo = m; else hi = m; }
  cap = lo; if (cap < 64) fail("capacity", "the largest request a fresh run grants is %llu bytes", (unsigned long long)cap); if (cap % 8) fail("capacity", "a request of %llu bytes is granted by a fresh run but its rounded size is not", (unsigned long long)cap);
}
// capacity found in a process of its own, so that the first run of the caller's process is still to come
static void measureInto(void* a) { measure(); *(uint64_t*)a = cap; }
static uint64_t capacityApart() { static uint64_t* shared; if (!shared) shared = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (!*shared) mc::isolated(measureInto, shared); return *shared; }
static uint64_t up8(size_t n) { return ((unsigned __int128)n + 7) / 8 * 8 > ~0ULL ? ~0ULL : (n + 7) / 8 * 8; }
static void intact(const char* when) { for (int i = 0; i < nb; i++) if (bl[i].live) for (size_t k = 0; k < bl[i].n; k++) if (bl[i].n > 2048 && k == 256 && bl[i].part) k = bl[i].n - 257; else if (bl[i].p[k] != bl[i].pat) fail("disturbed", "%s: byte %zu of block %d (%zu bytes) changed", when, k, i, bl[i].n); }
static void begin() { PlatformSetup(); gen++; used = 0; NOTE("start run"); step(); int k = 0; for (int i = 0; i < nb; i++) if (bl[i].gen == 0) bl[k++] = bl[i]; nb = k; intact("after starting a run"); }
static bool give(size_t n, int api = 0, bool check = true) {
  void* v = allocs[api](n); unsigned char* p = (unsigned char*)v; step(); NOTE("allocate %zu -> %s", n, p ? "block" : "null");
  bool fits = gen == 0 ? n < ((size_t)1 << 31) : up8(n) != ~0ULL && used + up8(n) <= cap && up8(n) <= cap;
  if (!p) { if (fits) fail("refused", "a request of %zu bytes failed with %llu of %llu bytes used", n, (unsigned long long)used, (unsigned long long)cap); if (check) intact("after a failed request"); return false; }
  if (!fits) { if (gen == 0) return true; fail("granted", "a request of %zu bytes succeeded with %llu of %llu bytes used", n, (unsigned long long)used, (unsigned long long)cap); }
  if ((uintptr_t)p % 8) fail("alignment", "a block of %zu bytes is not aligned for the widest scalar", n); if (!mc::ownsMemory(p, n)) fail("outside", "a block of %zu bytes does not lie inside the pool", n);
  for (size_t k = 0; k < n; k++) if (p[k]) fail("zeroed", "byte %zu of a new block of %zu bytes is %02x", k, n, p[k]);
  for (int i = 0; i < nb; i++) if (bl[i].gen == gen || bl[i].live) { if (n && bl[i].n && (gen || bl[i].live) && p < bl[i].p + bl[i].n && bl[i].p < p + n) fail("overlap", "a new block of %zu bytes overlaps an earlier one of %zu bytes", n, bl[i].n); }
  if (nb == MAXB) abort(); unsigned char pat = (unsigned char)(0x11 + nb * 37) | 1; memset(p, pat, n); bl[nb++] = { p, n, gen, true, pat }; used += up8(n); if (check) intact("after an allocation"); return true;
}
static void release(int i, int api = 0) { NOTE("release block %d", i); bl[i].live = false; frees[api](bl[i].p); step(); intact("after a release"); }
static void releaseSome(bool newest) { int at = -1; for (int i = 0; i < nb; i++) if (bl[i].live && (newest || at < 0)) at = i; if (at < 0) mc::discard(); release(at); }
static void fresh() { measure(); nb = 0; gen = 0; begin(); gen = 1; }
// the big block that leaves only a few bytes of the pool; only its ends are watched
static void filler(size_t n) { unsigned char* p = (unsigned char*)allocs[0](n); step(); if (!p) fail("refused", "a request of %zu bytes failed on a fresh run", n); if (!mc::ownsMemory(p, n)) fail("outside", "the filler"); for (size_t k = 0; k < n; k += k < 256 || k + 256 > n ? 1 : 61) if (p[k]) fail("zeroed", "byte %zu of a block of %zu bytes is %02x", k, n, p[k]); memset(p, 0x55, 257 < n ? 257 : n); if (n > 514) memset(p + n - 257, 0x55, 257); bl[nb++] = { p, n, gen, true, 0x55, true }; used += up8(n); }
static uint64_t here() { uint64_t h = used; for (int i = 0; i < nb; i++) h = mc::mix(h, bl[i].n * 2 + bl[i].live); return h; }
SUITE(near_end, 0, "all sequences of 4 (thorough 5) operations - allocate {0,1,7,8,9,16,17,24,25,2^32-1,2^32,2^32+8,2^64-8,2^64-1}, release oldest/newest, start a run - with 0, 8, 16, 24, 40, 48 bytes left of the pool, every pool byte dirtied first") {
  fresh(); static bool once; if (!once) { give(cap); once = true; begin(); } static const size_t rems[] = { 24, 0, 8, 16, 40, 48 }; size_t rem = pick(rems); filler(cap - rem); static const size_t ss[] = { 8, 0, 1, 7, 9, 16, 17, 24, 25, 0xffffffffu, 0x100000000ULL, 0x100000008ULL, ~(size_t)7, ~(size_t)0 };
  int depth = thorough ? 5 : 4; for (int i = 0; i < depth; i++) { int op = choose(17); if (op < 14) give(ss[op]); else if (op < 16) releaseSome(op == 15); else { begin(); filler(cap - rem); } } state(here()); }
SUITE(from_start, 0, "all sequences of 4 (thorough 5) operations from a fresh dirty run: 15 sizes from 0 over half and full pool to beyond 32 bits, operator new and new[], release, start a run") {
  fresh(); give(cap); begin(); size_t ss[] = { 8, 0, 1, 13, 100, 4096, (size_t)cap / 2 & ~(size_t)7, (size_t)cap / 2 + 1, (size_t)cap - 8, (size_t)cap, (size_t)cap + 1, (size_t)cap + 8, 0x80000000u, 0x100000008ULL, ~(size_t)0 - 6 };
  int depth = thorough ? 5 : 4; for (int i = 0; i < depth; i++) { int op = choose(18); if (op < 15) give(ss[op], 1 + (i + op) % 2); else if (op < 17) releaseSome(op == 16); else begin(); } state(here()); }
SUITE(every_size, 0, "every request size 0..capacity+64: granted or refused rightly, and a refusal consumes nothing; then the exact rest of the pool") {
  fresh(); give(cap); int c = choose((int)((cap + 64) / 64) + 1); for (uint64_t n = c * 64ULL; n < c * 64ULL + 64 && n <= cap + 64; n++) { begin(); give(n, 0); give(cap - used + 1, 0); give(cap - used + 8, 1); if (cap > used) { give(cap - used, 1); give(1, 0); give(0, 0); } } state(c); }
SUITE(fill_and_refill, 0, "fill the pool with blocks of every size 1..400 (in turn with a second size of 8), twice, releasing every third block: count, zeroing and disjointness of every block") {
  measure(); nb = 0; gen = 1; int n = 1 + choose(400); int m = pick({ 0, 1, 8, 12, 24, 100, 1000, 5000 }); for (int round = 0; round < 2; round++) { begin(); int k = 0; unsigned char* last = nullptr; for (;; k++) { size_t want = m && (k & 1) ? m : n; bool fits = used + up8(want) <= cap; void* p = allocs[k % 3](want); step(); if (!p != !fits) fail(fits ? "refused" : "granted", "request %d of %zu bytes with %llu of %llu used", k, want, (unsigned long long)used, (unsigned long long)cap); if (!p) break; unsigned char* q = (unsigned char*)p; if ((uintptr_t)q % 8) fail("alignment", "block %d", k); if (!mc::ownsMemory(q, want)) fail("outside", "block %d", k); for (size_t i = 0; i < want; i++) if (q[i]) fail("zeroed", "byte %zu of block %d of %zu bytes, round %d", i, k, want, round); memset(q, 0xC3, want); if (nb < MAXB) bl[nb++] = { q, want, gen, true, 0xC3 }; used += up8(want); if (k % 3 == 2) { bl[nb - 1].live = false; frees[k % 2](q); } last = q; } (void)last;
    for (int i = 1; i < nb; i++) for (int j = i - 1; j >= 0 && j >= i - 3; j--) if (bl[j].p < bl[i].p + bl[i].n && bl[i].p < bl[j].p + bl[j].n) fail("overlap", "blocks %d and %d", j, i); intact("pool full"); } state(mc::mix(n, m)); }
// distinct addresses of all blocks: a marker written to every block survives filling the rest
SUITE(before_any_run, 0, "all sequences of 5 (thorough 6) allocations of 9 sizes through 3 interfaces and releases before any run started; everything released goes back") {
  nb = 0; gen = 0; used = 0; uint64_t base = mc::arenaLiveBlocks(); static const size_t ss[] = { 8, 0, 1, 7, 16, 100, 5000, (size_t)1 << 61, ~(size_t)0 >> 1 }; int depth = thorough ? 6 : 5; for (int i = 0; i < depth; i++) { int op = choose(11); if (op < 9) { size_t n = ss[op]; if (n >> 32) { void* p = my_operator_new_replacement(n); step(); if (p) fail("granted", "%zu bytes", n); intact("after a failed request"); continue; } give(n, i % 3); } else releaseSome(op == 10); }
  uint64_t h = here(); for (int i = 0; i < nb; i++) if (bl[i].live) release(i, i % 3); EXPECT(mc::arenaLiveBlocks() == base, "kept", "%d blocks are not released", (int)(mc::arenaLiveBlocks() - base)); state(h); }
SUITE(before_any_run_large, 0, "all sequences of 3 allocations of 10 sizes 4096..4000000 or releases (oldest, newest) before any run started: zero-filled, disjoint, undisturbed") {
  nb = 0; gen = 0; used = 0; static const size_t ss[] = { 65537, 65536, 4096, 32767, 32768, 65535, 131072, 200001, 1048577, 4000000 }; for (int i = 0; i < 3; i++) { int op = choose(12); if (op < 10) give(ss[op], i % 3); else releaseSome(op == 11); }
  uint64_t h = here(); for (int i = 0; i < nb; i++) if (bl[i].live) release(i, i % 3); state(h); }
// ---- histories across the first run, each in a process of its own
struct Hist { int n, op[8]; };
static void play(void* a) {
  Hist* h = (Hist*)a; nb = 0; gen = 0; used = 0; static const size_t pre[] = { 0, 8, 100, 3000 };
  for (int i = 0; i < h->n; i++) { int op = h->op[i]; if (op < 4) give(gen ? pre[op] * 2 + 1 : pre[op], i % 3); else if (op < 6) { int at = -1; for (int k = 0; k < nb; k++) if (bl[k].live && (op == 5 || at < 0)) at = k; if (at >= 0) release(at); } else if (op == 6) begin(); else if (gen) { while (give(cap / 3, 0, false)) {} intact("filled"); } else give(40); }
  intact("at the end"); state(here()); }
SUITE(across_first_run, 0, "all histories of 4 (thorough 5) operations from {allocate 4 sizes, release oldest/newest, start a run, fill the pool} in a fresh process: blocks from before the first run stay intact and releasable") { Hist h; h.n = thorough ? 5 : 4; for (int i = 0; i < h.n; i++) h.op[i] = choose(8); cap = capacityApart(); mc::isolated(play, &h); }
