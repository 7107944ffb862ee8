// Seam for every clock the library can read.  Off: the real clock.  On: the instant the driver chose.
#include <time.h>
#include <sys/time.h>
#include <stdint.h>
extern "C" {
int mc_clock_on = 0; int64_t mc_clock_sec = 0; int64_t mc_clock_nsec = 0; uint64_t mc_clock_reads = 0;
time_t __real_time(time_t*); int __real_clock_gettime(clockid_t, struct timespec*); int __real_gettimeofday(struct timeval*, void*); int __real_timespec_get(struct timespec*, int); int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
time_t __wrap_time(time_t* t) { if (!mc_clock_on) return __real_time(t); mc_clock_reads++; if (t) *t = mc_clock_sec; return mc_clock_sec; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!mc_clock_on || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c, ts); mc_clock_reads++; ts->tv_sec = mc_clock_sec; ts->tv_nsec = mc_clock_nsec; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void* z) { if (!mc_clock_on) return __real_gettimeofday(tv, z); mc_clock_reads++; tv->tv_sec = mc_clock_sec; tv->tv_usec = mc_clock_nsec / 1000; return 0; }
int __wrap_timespec_get(struct timespec* ts, int b) { if (!mc_clock_on) return __real_timespec_get(ts, b); mc_clock_reads++; ts->tv_sec = mc_clock_sec; ts->tv_nsec = mc_clock_nsec; return b; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { if (!mc_clock_on) return __real__ZNSt6chrono3_V212system_clock3nowEv(); mc_clock_reads++; return mc_clock_sec * 1000000000LL + mc_clock_nsec; }
long __real_clock(); long __wrap_clock() { return __real_clock(); }
}
