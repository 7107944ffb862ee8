// Bounded exhaustive explorer (stateless model checking) for the translated-code runtime library.
// A suite body is a closed driver: it asks choose(n) at every point where the alphabet offers n
// alternatives; the explorer re-runs the body over every combination of answers (depth-first, sharded
// over worker processes).  Nothing in here allocates with operator new.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
namespace mc {
extern bool thorough;   // tier
extern int skin;         // which characters the abstract letters stand for; 0 at the start of every execution
extern bool tracing;    // replaying one execution, notes are recorded
int  choose(int n);                     // 0..n-1, simplest alternative first
void note_(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void state(uint64_t h);                 // a (canonical) state or observed outcome that was reached
void step(uint64_t n = 1);              // operations executed on the implementation and compared
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard();            // abandon this execution (redundant combination), not counted
uint64_t hashBytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ULL);
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
typedef void (*Body)();
struct Reg { Reg(const char* name, Body body, int minTier, const char* bound); };
void isolated(void (*f)(void*), void* arg); // run f in a forked copy; its failures and crashes are this execution's
// memory services (arena behind malloc when on)
void arenaOn(bool on);
uint64_t arenaLiveBlocks();             // blocks allocated and not freed since arenaOn(true)
bool ownsMemory(const void* p, size_t n); // every byte lies in one live arena block
}
#define NOTE(...) do { if (mc::tracing) mc::note_(__VA_ARGS__); } while (0)
// SUITE(name, tier, bound): tier 0 = quick and thorough, 1 = thorough only
#define SUITE(name, tier, bound) static void suite_##name(); static mc::Reg reg_##name(#name, suite_##name, tier, bound); static void suite_##name()
