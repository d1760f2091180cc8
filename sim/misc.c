/* Clocks, randomness, environment and other process-level seams. */
#define _GNU_SOURCE
#include "core.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static u64 dr;
static u32 rseed;
void misc_init(void) { dr = 0x1234567887654321ull; rseed = 1; }
u64 data_rnd(void) { dr += 0x9e3779b97f4a7c15ull; u64 z = dr; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void sim_srand(unsigned s) { rseed = s; }
int sim_rand(void) { rseed = rseed * 1103515245u + 12345u; return (int)((rseed >> 1) & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { sim_srand(s); }
int sim_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345u; return (int)((*s >> 1) & 0x7fffffff); }
long sim_getrandom(void *b, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)data_rnd(); return (long)n; }

#define T() do { sim_point(OP_TIME, 0); sim_cost(50); } while (0)
time_t sim_time(time_t *o) { T(); time_t t = (time_t)(sim_wall() / SEC); if (o) *o = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *tz) { (void)tz; T(); u64 w = sim_wall(); tv->tv_sec = (time_t)(w / SEC); tv->tv_usec = (long)(w % SEC / 1000); return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
    T();
    u64 w = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim_wall() : sim_now();
    ts->tv_sec = (time_t)(w / SEC); ts->tv_nsec = (long)(w % SEC);
    return 0;
}
int sim_clock_getres(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = 0; ts->tv_nsec = 1; return 0; }
clock_t sim_clock(void) { return (clock_t)(sim_now() / 1000); }
int sim_nanosleep(const struct timespec *r, struct timespec *rem) { if (rem) rem->tv_sec = rem->tv_nsec = 0; sim_sleep_ns((u64)r->tv_sec * SEC + (u64)r->tv_nsec + 1000); return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
    if (!(fl & TIMER_ABSTIME)) return sim_nanosleep(r, rem);
    u64 t = (u64)r->tv_sec * SEC + (u64)r->tv_nsec, n = c == CLOCK_MONOTONIC ? sim_now() : sim_wall();
    if (t > n) sim_sleep_ns(t - n);
    return 0;
}
int sim_usleep(unsigned us) { sim_sleep_ns((u64)us * 1000 + 1000); return 0; }
unsigned sim_sleep(unsigned s) { sim_sleep_ns((u64)s * SEC); return 0; }
void sim_yield_hard(void);
int sim_sched_yield(void) { sim_yield_hard(); return 0; }
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
struct tm *sim_localtime(const time_t *t) { return gmtime(t); }
struct tm *sim_gmtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
struct tm *sim_gmtime(const time_t *t) { return gmtime(t); }
long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 4; if (n == _SC_PAGESIZE) return 4096; if (n == _SC_CLK_TCK) return 100; if (n == _SC_OPEN_MAX) return 1024; return -1; }
int sim_getloadavg(double *l, int n) { for (int i = 0; i < n; i++) l[i] = 0.5; return n; }
int sim_getpid(void) { return 4242; }
int sim_getppid(void) { return 1; }
int sim_gettid(void) { return 4242 + cur->id; }
char *sim_getenv(const char *n) { (void)n; return 0; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
void *sim_dlopen(const char *p, int f) { (void)p; (void)f; return 0; }
void *sim_dlsym(void *h, const char *n) { (void)h; (void)n; return 0; }
int sim_dlclose(void *h) { (void)h; return 0; }
char *sim_dlerror(void) { return (char *)(uintptr_t) "no dynamic loading in the simulator"; }
int sim_backtrace(void **b, int n) { (void)b; (void)n; return 0; }
char **sim_backtrace_symbols(void *const *b, int n) { (void)b; (void)n; return 0; }
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; sim_fail("assert", "assertion failed in %s: %s", fn, e); }
void sim_abort(void) { sim_fail("abort", "abort called"); }
void sim_exit(int c) { sim_fail("exit", "process exit(%d) called", c); }
void sim_stack_chk_fail(void) { sim_fail("stack-smash", "stack buffer overflow detected"); }
