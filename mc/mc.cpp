#include "mc.h"
#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a,b) ((void)(a),(void)(b))
#define ASAN_UNPOISON_MEMORY_REGION(a,b) ((void)(a),(void)(b))
#endif
extern "C" {
void* __real_malloc(size_t);
void  __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
extern void (*mc_setup)();
extern int __real_clock_gettime(clockid_t, struct timespec*);
}
void (*mc_setup)() = nullptr; // optional per process initialisation

namespace mc {
bool thorough = false, tracing = false; int skin = 0;
enum { MAXD = 400, MAXS = 64, MAXW = 64, NOTEMAX = 1 << 16, KNOWNMAX = 64 };
struct SuiteDef { const char* name; Body body; int tier; const char* bound; };
static SuiteDef suites[MAXS]; static int nsuites;
Reg::Reg(const char* n, Body b, int t, const char* bound) { suites[nsuites++] = { n, b, t, bound }; }

enum Status { RUNNING, DONE, RECYCLE, VIOLATION_ };
struct Slot {
  volatile uint64_t execs, steps, discarded, beat;
  volatile int status;
  int depth, choices[MAXD], radix[MAXD];       // live choice vector
  int sdepth, schoices[MAXD];                  // vector this process started from
  int l1depth, l1[MAXD];                       // a mid-way execution kept as sample
  char key[256], msg[8192];
};
struct Shared {
  Slot slot[MAXW];
  uint64_t known[KNOWNMAX];
  char knownMsg[KNOWNMAX][512];
  volatile int stop;
  uint64_t stateOverflow;
  int notelen; char notes[NOTEMAX];
};
static Shared* sh; static Slot* me; static int W = 8, wid = 0;
static const uint64_t STBITS = 23; static uint64_t* stab; static volatile uint64_t* stcount;
static const char* knownKey[KNOWNMAX]; static int nknown;
static int follow; // choices[0..follow) are to be followed
static int pos; static bool decided; static uint64_t prod, idx; static bool sharding;
struct Skip {}; struct Discard {}; struct Stop {};
static bool failed, inChild;

uint64_t hashBytes(const void* p, size_t n, uint64_t h) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h ^ (h >> 29); }
static void die(const char* m) { fprintf(stderr, "mc: %s\n", m); fflush(stderr); _exit(97); }

int choose(int n) {
  if (n <= 0) die("choose with no alternative");
  if (inChild) die("choose in an isolated process");
  if (pos >= MAXD) die("execution too deep");
  int c;
  if (pos < follow) { c = me->choices[pos]; if (c >= n) die("replay diverged: fewer alternatives than recorded"); }
  else c = me->choices[pos] = 0;
  me->radix[pos] = n; pos++; me->depth = pos;
  if (sharding && !decided) {
    prod *= n; idx = idx * n + c;
    if (prod >= 512) { decided = true; if ((int)((idx * 2654435761ULL >> 7) % W) != wid) throw Skip(); }
  }
  return c;
}
void note_(const char* fmt, ...) {
  va_list a; va_start(a, fmt);
  int left = NOTEMAX - sh->notelen - 2;
  if (left > 0) { int k = vsnprintf(sh->notes + sh->notelen, left, fmt, a); if (k > left - 1) k = left - 1; if (k > 0) { sh->notelen += k; sh->notes[sh->notelen++] = '\n'; sh->notes[sh->notelen] = 0; } }
  va_end(a);
}
void state(uint64_t h) {
  if (!h) h = 1;
  uint64_t m = (1ULL << STBITS) - 1, i = (h * 0x9E3779B97F4A7C15ULL) >> (64 - STBITS);
  for (int k = 0; k < 64; k++, i = (i + 1) & m) {
    uint64_t cur = __atomic_load_n(&stab[i], __ATOMIC_RELAXED);
    if (cur == h) return;
    if (!cur) { uint64_t e = 0; if (__atomic_compare_exchange_n(&stab[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_add_fetch(stcount, 1, __ATOMIC_RELAXED); return; } if (e == h) return; }
  }
  __atomic_add_fetch(&sh->stateOverflow, 1, __ATOMIC_RELAXED); // table full here: counted, not stored
}
void step(uint64_t n) { me->steps += n; }
void discard() { throw Discard(); }
void fail(const char* key, const char* fmt, ...) {
  char buf[8192]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
  for (int i = 0; i < nknown; i++) if (!strcmp(knownKey[i], key)) {
    if (__atomic_fetch_add(&sh->known[i], 1, __ATOMIC_RELAXED) == 0) snprintf(sh->knownMsg[i], sizeof sh->knownMsg[i], "%s", buf);
    if (!tracing) throw Stop();
  }
  if (!failed) { failed = true; snprintf(me->key, sizeof me->key, "%s", key); snprintf(me->msg, sizeof me->msg, "%s", buf); }
  throw Stop();
}

static char *abase, *aptr, *aend; static void guards(char* from);
// Runs f in a process of its own, so that the implementation's globals start out (and end up) untouched.
void isolated(void (*f)(void*), void* a) {
  pid_t p = fork(); if (p < 0) die("fork failed");
  if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); inChild = true; char* arena0 = aptr; try { f(a); } catch (Stop&) {} catch (Discard&) {} guards(arena0); _exit(failed ? 98 : 0); }
  int st = 0; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) die("waitpid failed");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { failed = true; throw Stop(); }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 97) die("isolated process gave up");
  if (WIFSIGNALED(st)) fail("crash", "the isolated process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  static char e[1200]; ssize_t k = pread(2, e, sizeof e - 1, 0); e[k > 0 ? k : 0] = 0;
  fail("crash", "the isolated process ended with exit code %d\n%s", WEXITSTATUS(st), e);
}

// ---------------------------------------------------------------- arena
static bool aon; static uint64_t alive;
static const size_t ARENA = (size_t)640 << 20, RZ = 32; static const unsigned char GUARD = 0x5C;
struct Hdr { uint64_t magic, size; };
static const uint64_t LIVE = 0xA110CA7EDB10C000ULL, DEAD = 0xDEADB10CDEADB10CULL;
static void arenaInit() {
  if (abase) return;
  abase = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (abase == MAP_FAILED) die("no arena");
  aptr = abase; aend = abase + ARENA;
}
void arenaOn(bool on) { arenaInit(); aon = on; alive = 0; }
uint64_t arenaLiveBlocks() { return alive; }
// operator delete must not throw: remember the fault, report it when the execution ends
static void badFree(const char* what) { if (!failed) { failed = true; snprintf(me->key, sizeof me->key, "memory/bad-free"); snprintf(me->msg, sizeof me->msg, "%s", what); } }
bool ownsMemory(const void* p, size_t n) {
#if defined(__SANITIZE_ADDRESS__)
  return n == 0 || __asan_region_is_poisoned((void*)p, n) == nullptr;
#else
  (void)p; (void)n; return true;
#endif
}
// An execution that outgrows the arena is watched: one that keeps taking memory is a verdict of its own, not a dead worker.
static bool alone; static const size_t RUNAWAY = (size_t)3 << 30;
static void* outside(size_t n) {
  static size_t since; since += n;
  if (since > (16u << 20)) {
    since = 0; char b[64]; int fd = open("/proc/self/statm", O_RDONLY); ssize_t k = fd < 0 ? 0 : read(fd, b, sizeof b - 1); if (fd >= 0) close(fd); b[k > 0 ? k : 0] = 0;
    unsigned long size = 0, res = 0; sscanf(b, "%lu %lu", &size, &res);
    if (res > RUNAWAY / 4096) { if (!failed) { failed = true; snprintf(me->key, sizeof me->key, "memory/runaway"); snprintf(me->msg, sizeof me->msg, "the execution keeps taking memory (over %zu MB held)", RUNAWAY >> 20); } if (inChild) _exit(98); me->status = VIOLATION_; _exit(alone ? 98 : 0); }
  }
  return __real_malloc(n ? n : 1);
}
static void* arenaAlloc(size_t n) {
  if (n > ARENA) return outside(n);
  size_t body = (n + 15) & ~(size_t)15;
  if (aptr + body + 2 * RZ + sizeof(Hdr) > aend) return outside(n);
  // layout: [RZ incl. header][body][RZ]; everything but the n body bytes is poisoned
  char* h = aptr; char* p = h + RZ; aptr = p + body + RZ;
  Hdr* hd = (Hdr*)(p - sizeof(Hdr)); hd->magic = LIVE; hd->size = n;
  memset(p, 0xA5, n); memset(p + n, GUARD, body - n + RZ);
  ASAN_POISON_MEMORY_REGION(h, RZ);
  ASAN_POISON_MEMORY_REGION(p, body + RZ);
  if (n) ASAN_UNPOISON_MEMORY_REGION(p, n);
  alive++;
  return p;
}
static void arenaFree(void* q) {
  char* p = (char*)q;
  if (p < abase + RZ || ((uintptr_t)p & 15)) { badFree("free of a pointer that was never allocated"); return; }
  Hdr* hd = (Hdr*)(p - sizeof(Hdr));
  ASAN_UNPOISON_MEMORY_REGION(hd, sizeof(Hdr));
  uint64_t m = hd->magic;
  if (m != LIVE) { badFree(m == DEAD ? "block freed twice" : "free of a pointer that was never allocated"); return; }
  size_t n = hd->size;
  hd->magic = DEAD;
  memset(p, 0xDD, n);
  ASAN_POISON_MEMORY_REGION(hd, sizeof(Hdr));
  ASAN_POISON_MEMORY_REGION(p, n);
  alive--;
}
// Writes made inside the C library (swprintf, memcpy of the system) are not instrumented: the guard bytes behind
// every block of this execution are compared instead.
__attribute__((no_sanitize("address"))) static void guards(char* from) {
  for (char* h = from; h < aptr;) {
    char* p = h + RZ; Hdr* hd = (Hdr*)(p - sizeof(Hdr)); size_t n = hd->size;
    if ((hd->magic != LIVE && hd->magic != DEAD) || n > ARENA) { badFree("the bytes in front of a block were overwritten"); return; }
    size_t body = (n + 15) & ~(size_t)15; char* e = p + body + RZ;
    for (char* q = p + n; q < e; q++) if ((unsigned char)*q != GUARD) { if (!failed) { failed = true; snprintf(me->key, sizeof me->key, "memory/overrun"); snprintf(me->msg, sizeof me->msg, "byte %zu behind a block of %zu bytes was overwritten", (size_t)(q - p - n), n); } return; }
    h = e;
  }
}
static bool inArena(void* p) { return abase && (char*)p >= abase && (char*)p < aend; }

// ---------------------------------------------------------------- one execution
static void oneExecution(const SuiteDef& s) {
  pos = 0; skin = 0; me->depth = 0; decided = false; prod = 1; idx = 0; failed = false;
  bool skip = false, disc = false; uint64_t steps0 = me->steps; char* arena0 = aptr;
  try { s.body(); }
  catch (Skip&) { skip = true; }
  catch (Discard&) { disc = true; }
  catch (Stop&) {}
  if (!skip && !disc) guards(arena0);
  if (pos < follow && !skip && !disc && !failed) { /* shorter than the prefix: body is not deterministic */ die("replay diverged: execution ended before the recorded prefix"); }
  if (!skip && sharding && !decided && (int)((idx * 2654435761ULL >> 7) % W) != wid && !failed) skip = true;
  if (skip) me->steps = steps0;
  if (disc && !skip) me->discarded++;
  if (!skip && !disc) me->execs++;
  me->beat++;
  if (failed) me->status = VIOLATION_;
}
static bool advance() {
  int d = pos;
  while (d > 0 && me->choices[d - 1] + 1 >= me->radix[d - 1]) d--;
  if (d == 0) return false;
  me->choices[d - 1]++; follow = d; return true;
}
static void workerMain(const SuiteDef& s) {
  arenaOn(true); if (mc_setup) mc_setup();
  uint64_t nextSample = 1;
  for (;;) {
    if (sh->stop) { me->status = DONE; _exit(0); }
    oneExecution(s);
    if (me->status == VIOLATION_) _exit(0);
    if (me->execs >= nextSample) { nextSample = nextSample * 3 + 1; me->l1depth = pos; memcpy(me->l1, me->choices, sizeof me->l1); }
    if (!advance()) { me->status = DONE; _exit(0); }
    if (aptr > abase + ARENA - (96u << 20)) { me->sdepth = follow; memcpy(me->schoices, me->choices, sizeof me->choices); me->status = RECYCLE; _exit(0); }
  }
}
static double now() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const char* errdir = "/tmp";
static void redirect(int w) { char p[512]; snprintf(p, sizeof p, "%s/err.%d", errdir, w); int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); } }
static void readErr(int w, char* out, size_t cap) {
  char p[512]; snprintf(p, sizeof p, "%s/err.%d", errdir, w); out[0] = 0; FILE* f = fopen(p, "r"); if (!f) return;
  size_t k = fread(out, 1, cap - 1, f); out[k] = 0; fclose(f);
}
static pid_t forkWorker(const SuiteDef& s, int w) {
  pid_t p = fork(); if (p < 0) die("fork failed");
  if (p) return p;
  redirect(w); wid = w; me = &sh->slot[w]; sharding = W > 1; follow = me->sdepth; me->status = RUNNING; workerMain(s); _exit(0);
}
// Run one execution (or the stretch start..end) alone in a child with tracing on; true if it fails.
// slot MAXW-1 is used.  reason gets the explanation.
static int soloRun(const SuiteDef& s, const int* ch, int depth, const int* st, int sdepth, int origWid, int origW, bool stretch, double limit, char* reason, size_t cap) {
  Slot* z = &sh->slot[MAXW - 1]; memset(z, 0, sizeof *z); sh->notelen = 0; sh->notes[0] = 0;
  pid_t p = fork(); if (p < 0) die("fork failed");
  if (!p) {
    redirect(MAXW - 1); alone = true; me = z; arenaOn(true); if (mc_setup) mc_setup();
    if (!stretch) { sharding = false; memcpy(z->choices, ch, sizeof(int) * depth); follow = depth; tracing = true; oneExecution(s); }
    else {
      sharding = origW > 1; W = origW; wid = origWid; memcpy(z->choices, st, sizeof(int) * sdepth); follow = sdepth;
      for (;;) {
        if (me->depth == 0 || true) { // trace only the last execution
          bool last = follow <= depth && !memcmp(z->choices, ch, sizeof(int) * follow);
          tracing = last;
        }
        sh->notelen = 0;
        oneExecution(s);
        if (z->status == VIOLATION_) break;
        if (pos == depth && !memcmp(z->choices, ch, sizeof(int) * depth)) break;
        if (!advance()) break;
      }
    }
    _exit(z->status == VIOLATION_ ? 98 : 0);
  }
  double t0 = now(); int stt = 0; bool to = false;
  for (;;) { pid_t r = waitpid(p, &stt, WNOHANG); if (r == p) break; if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &stt, 0); to = true; break; } usleep(2000); }
  if (to) { snprintf(reason, cap, "does not terminate (over %.0f s alone)", limit); snprintf(z->key, sizeof z->key, "hang"); return 1; }
  if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) return 0;
  if (WIFEXITED(stt) && WEXITSTATUS(stt) == 98) { snprintf(reason, cap, "%s", z->msg); return 1; }
  if (WIFEXITED(stt) && WEXITSTATUS(stt) == 97) { readErr(MAXW - 1, reason, cap); return 2; }
  static char e[6000]; readErr(MAXW - 1, e, sizeof e);
  if (WIFSIGNALED(stt)) snprintf(reason, cap, "crash: signal %d (%s)\n%s", WTERMSIG(stt), strsignal(WTERMSIG(stt)), e);
  else snprintf(reason, cap, "crash: exit %d\n%s", WEXITSTATUS(stt), e);
  snprintf(z->key, sizeof z->key, "crash"); return 1;
}
static void jstr(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
static void writeReplay(const char* path, const char* prop, const SuiteDef& s, const Slot& sl, int w, int W0, bool stretch, const char* reason) {
  FILE* f = fopen(path, "w"); if (!f) return;
  fprintf(f, "property %s\nsuite %s\ntier %s\nmode %s\nworker %d %d\n", prop, s.name, thorough ? "thorough" : "quick", stretch ? "stretch" : "solo", w, W0);
  fprintf(f, "start %d", sl.sdepth); for (int i = 0; i < sl.sdepth; i++) fprintf(f, " %d", sl.schoices[i]);
  fprintf(f, "\nchoices %d", sl.depth); for (int i = 0; i < sl.depth; i++) fprintf(f, " %d", sl.choices[i]);
  fprintf(f, "\n# key: %s\n# what: ", sh->slot[MAXW - 1].key);
  for (const char* c = reason; *c; c++) { fputc(*c, f); if (*c == '\n') fputs("# ", f); }
  fprintf(f, "\n# trace:\n# "); for (const char* c = sh->notes; *c; c++) { fputc(*c, f); if (*c == '\n') fputs("# ", f); }
  fputc('\n', f); fclose(f);
}
}
using namespace mc;

extern "C" {
void* __wrap_malloc(size_t n) { if (aon) return arenaAlloc(n); return __real_malloc(n); }
void __wrap_free(void* p) { if (!p) return; if (inArena(p)) { arenaFree(p); return; } __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (aon) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = arenaAlloc(n); if (p) memset(p, 0, n); return p; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) {
  if (aon || (p && inArena(p))) {
    void* q = aon ? arenaAlloc(n) : __real_malloc(n);
    if (!q) return nullptr; // as realloc does: the old block stays
    if (p && inArena(p)) { Hdr* hd = (Hdr*)((char*)p - sizeof(Hdr)); ASAN_UNPOISON_MEMORY_REGION(hd, sizeof(Hdr)); size_t o = hd->size; memcpy(q, p, o < n ? o : n); arenaFree(p); }
    else if (p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); __real_free(p); }
    return q;
  }
  return __real_realloc(p, n);
}
const char* __asan_default_options() { return "detect_leaks=0:exitcode=96:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:print_legend=0:symbolize=1:allow_user_segv_handler=0"; }
}

static int findSuite(const char* n) { for (int i = 0; i < nsuites; i++) if (!strcmp(suites[i].name, n)) return i; return -1; }

int main(int argc, char** argv) {
  const char *prop = "P00", *out = "/dev/null", *replay = nullptr, *replayOut = "/tmp/replay.txt", *only = nullptr; double deadline = 820; int jobs = 8;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--thorough")) thorough = true;
    else if (!strcmp(argv[i], "--property")) prop = argv[++i];
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--known")) { if (nknown < KNOWNMAX) knownKey[nknown++] = argv[++i]; }
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--replay-out")) replayOut = argv[++i];
    else if (!strcmp(argv[i], "--suite")) only = argv[++i];
    else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--deadline")) deadline = atof(argv[++i]);
    else if (!strcmp(argv[i], "--errdir")) errdir = argv[++i];
    else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
  }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  stab = (uint64_t*)mmap(nullptr, (sizeof(uint64_t) << STBITS) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED || stab == MAP_FAILED) die("no shared memory");
  stcount = stab + (1ULL << STBITS);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  static char reason[16384];
  if (replay) {
    FILE* f = fopen(replay, "r"); if (!f) { fprintf(stderr, "cannot read %s\n", replay); return 2; }
    char p[64], su[128], ti[32], mo[32]; int w, w0; static Slot t;
    if (fscanf(f, "property %63s suite %127s tier %31s mode %31s worker %d %d start %d", p, su, ti, mo, &w, &w0, &t.sdepth) != 7) { fprintf(stderr, "bad replay file\n"); return 2; }
    for (int i = 0; i < t.sdepth; i++) if (fscanf(f, "%d", &t.schoices[i]) != 1) return 2;
    if (fscanf(f, " choices %d", &t.depth) != 1) return 2;
    for (int i = 0; i < t.depth; i++) if (fscanf(f, "%d", &t.choices[i]) != 1) return 2;
    fclose(f); thorough = !strcmp(ti, "thorough"); int k = findSuite(su); if (k < 0) { fprintf(stderr, "no suite %s\n", su); return 2; }
    int r = soloRun(suites[k], t.choices, t.depth, t.schoices, t.sdepth, w, w0, !strcmp(mo, "stretch"), 120, reason, sizeof reason);
    printf("trace:\n%s", sh->notes);
    if (r == 1) { printf("FAILS: %s\nVIOLATION property=%s replay=%s\n", reason, p, replay); return 1; }
    if (r == 2) { printf("cannot replay: %s\n", reason); return 2; }
    printf("holds on this execution\n"); return 0;
  }
  W = jobs; if (W > MAXW - 2) W = MAXW - 2;
  double t0 = now(); int rc = 0; bool capped = false;
  FILE* o = fopen(out, "w"); if (!o) { fprintf(stderr, "cannot write %s\n", out); return 2; }
  fprintf(o, "{\"suites\":[");
  bool first = true; uint64_t te = 0, ts = 0, td = 0, tst = 0; int nviol = 0; uint64_t overflowTotal = 0;
  for (int si = 0; si < nsuites && !nviol && rc == 0; si++) {
    SuiteDef& s = suites[si];
    if (s.tier > (thorough ? 1 : 0)) continue;
    if (only && strcmp(only, s.name)) continue;
    double s0 = now(); memset(sh->slot, 0, sizeof sh->slot); sh->stop = 0;
    memset(stab, 0, (sizeof(uint64_t) << STBITS) + 8); sh->stateOverflow = 0;
    pid_t pid[MAXW]; bool live[MAXW]; uint64_t lastBeat[MAXW]; double lastT[MAXW]; bool suspect[MAXW]; char cause[MAXW][64]; int nlive = 0;
    for (int w = 0; w < W; w++) { suspect[w] = false; cause[w][0] = 0; pid[w] = forkWorker(s, w); live[w] = true; lastBeat[w] = 0; lastT[w] = now(); nlive++; }
    while (nlive) {
      usleep(1000); bool bad = false;
      for (int w = 0; w < W; w++) if (live[w]) {
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          Slot& sl = sh->slot[w];
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.status == DONE) { live[w] = false; nlive--; }
          else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.status == RECYCLE) { sl.status = RUNNING; pid[w] = forkWorker(s, w); lastT[w] = now(); }
          else { live[w] = false; nlive--; suspect[w] = true; bad = true;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.status == VIOLATION_) snprintf(cause[w], 64, "oracle"); else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { readErr(w, reason, sizeof reason); fprintf(stderr, "harness error in suite %s: %s\n", s.name, reason); rc = 2; suspect[w] = false; } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed\n"); rc = 2; suspect[w] = false; } else snprintf(cause[w], 64, "crash"); }
        } else {
          if (sh->slot[w].beat != lastBeat[w]) { lastBeat[w] = sh->slot[w].beat; lastT[w] = now(); }
          else if (now() - lastT[w] > 30) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); live[w] = false; nlive--; suspect[w] = true; bad = true; snprintf(cause[w], 64, "hang"); }
        }
      }
      if (bad) { // stop the others, keep their vectors
        for (int w = 0; w < W; w++) if (live[w]) { int st; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); live[w] = false; nlive--; }
      }
      if (now() - t0 > deadline && !sh->stop) { sh->stop = 1; capped = true; }
    }
    uint64_t e = 0, p = 0, d = 0; for (int w = 0; w < W; w++) { e += sh->slot[w].execs; p += sh->slot[w].steps; d += sh->slot[w].discarded; }
    // confirm suspects
    for (int w = 0; w < W && !nviol; w++) if (suspect[w]) {
      static Slot c; c = sh->slot[w];
      static char r1[16384]; int r = soloRun(s, c.choices, c.depth, c.schoices, c.sdepth, w, W, false, 120, r1, sizeof r1);
      bool stretch = false;
      if (r != 1 && strcmp(cause[w], "hang")) { stretch = true; r = soloRun(s, c.choices, c.depth, c.schoices, c.sdepth, w, W, true, 300, r1, sizeof r1); }
      if (r == 1) {
        nviol++; rc = 1; writeReplay(replayOut, prop, s, c, w, W, stretch, r1);
        printf("suite %s: %s%s\n%s", s.name, r1, stretch ? "\n(needs the preceding executions of the same process)" : "", "trace:\n"); fputs(sh->notes, stdout);
        printf("VIOLATION property=%s replay=%s\n", prop, replayOut);
      } else if (!strcmp(cause[w], "hang")) { fprintf(stderr, "suite %s: an execution was slow but terminates alone\n", s.name); rc = 2; }
      else { // the wrong answer was observed but does not depend on inputs the explorer controls
        static char e2[6000]; readErr(w, e2, sizeof e2);
        nviol++; rc = 1; writeReplay(replayOut, prop, s, c, w, W, true, c.msg[0] ? c.msg : e2);
        printf("suite %s: %s %s (observed once, not reproduced on replay: the outcome depends on something besides the inputs)\n", s.name, c.msg, c.msg[0] ? "" : e2);
        printf("VIOLATION property=%s replay=%s\n", prop, replayOut);
      }
    }
    uint64_t distinct = *stcount; te += e; ts += p; td += d; tst += distinct; overflowTotal += sh->stateOverflow;
    fprintf(o, "%s\n {\"suite\":", first ? "" : ","); first = false; jstr(o, s.name); fprintf(o, ",\"bound\":"); jstr(o, s.bound);
    fprintf(o, ",\"executions\":%llu,\"operations\":%llu,\"discarded\":%llu,\"distinct_states\":%llu,\"state_table_overflow\":%llu,\"wall_s\":%.2f,\"complete\":%s,\"samples\":[", (unsigned long long)e, (unsigned long long)p, (unsigned long long)d, (unsigned long long)distinct, (unsigned long long)sh->stateOverflow, now() - s0, (sh->stop || nviol || rc) ? "false" : "true");
    int ns = 0;
    for (int k = 0; k < 2 && !nviol && rc == 0; k++) { int w = k ? W - 1 : W / 2; static Slot c; c = sh->slot[w]; if (!c.l1depth) continue;
      soloRun(s, c.l1, c.l1depth, nullptr, 0, 0, 1, false, 120, reason, sizeof reason); sh->notes[sh->notelen < 900 ? sh->notelen : 900] = 0; fprintf(o, ns++ ? "," : ""); jstr(o, sh->notes); }
    fprintf(o, "]}"); fflush(o);
    printf("%-28s executions=%-10llu operations=%-11llu states=%-8llu %.1fs%s\n", s.name, (unsigned long long)e, (unsigned long long)p, (unsigned long long)distinct, now() - s0, sh->stop ? " (stopped at deadline)" : "");
    if (!nviol && rc == 0 && e == 0) { fprintf(stderr, "suite %s explored nothing\n", s.name); rc = 2; }
    if (capped) break;
  }
  fprintf(o, "],\n\"known\":[");
  bool fk = true;
  for (int i = 0; i < nknown; i++) if (sh->known[i]) { fprintf(o, "%s{\"key\":", fk ? "" : ","); fk = false; jstr(o, knownKey[i]); fprintf(o, ",\"count\":%llu,\"what\":", (unsigned long long)sh->known[i]); jstr(o, sh->knownMsg[i]); fprintf(o, "}"); }
  fprintf(o, "],\n\"executions\":%llu,\"operations\":%llu,\"distinct_states\":%llu,\"discarded\":%llu,\"state_table_overflow\":%llu,\"capped\":%s,\"violations\":%d,\"wall_s\":%.2f}\n", (unsigned long long)te, (unsigned long long)ts, (unsigned long long)tst, (unsigned long long)td, (unsigned long long)overflowTotal, capped ? "true" : "false", nviol, now() - t0);
  fclose(o);
  struct rusage ru; getrusage(RUSAGE_CHILDREN, &ru); if (getenv("MC_RSS")) printf("largest process: %ld MB\n", ru.ru_maxrss >> 10);
  return rc;
}
