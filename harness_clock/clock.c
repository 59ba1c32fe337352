/* Preloaded into a process, its clocks run VT_SCALE times as fast, and so do its waits for
   a futex (i.e. condition variables, parked threads) and its sleeps.  With VT_SPURIOUS=p,
   waits for a futex that have a timeout end spuriously, with a probability of p percent
   and after a short time, which they are always allowed to. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>

typedef __int128 ns_t;
#define S 1000000000

static int (*real_gettime)(clockid_t, struct timespec *);
static long (*real_syscall)(long, ...);
static int (*real_nanosleep)(clockid_t, int, const struct timespec *, struct timespec *);
static ns_t scale = 1, base_mono, base_real, base_boot;
static unsigned spurious;
static uint64_t rng_state = 88172645463325252ull;

static ns_t ns(const struct timespec *t) { return (ns_t)t->tv_sec * S + t->tv_nsec; }

static struct timespec spec(ns_t n) {
    struct timespec t;
    if (n < 0) n = 0;
    if (n / S > INT64_MAX / 4) n = (ns_t)(INT64_MAX / 4) * S;
    t.tv_sec = (time_t)(n / S);
    t.tv_nsec = (long)(n % S);
    return t;
}

__attribute__((constructor)) static void init(void) {
    if (real_gettime) return;
    real_syscall = dlsym(RTLD_NEXT, "syscall");
    real_nanosleep = dlsym(RTLD_NEXT, "clock_nanosleep");
    struct timespec t;
    int (*g)(clockid_t, struct timespec *) = dlsym(RTLD_NEXT, "clock_gettime");
    const char *e = getenv("VT_SCALE");
    if (e) scale = strtoll(e, 0, 10);
    e = getenv("VT_SPURIOUS");
    if (e) spurious = atoi(e);
    e = getenv("VT_SEED");
    if (e) rng_state ^= strtoull(e, 0, 10) * 0x9e3779b97f4a7c15ull;
    g(CLOCK_MONOTONIC, &t);
    base_mono = ns(&t);
    g(CLOCK_REALTIME, &t);
    base_real = ns(&t);
    g(CLOCK_BOOTTIME, &t);
    base_boot = ns(&t);
    real_gettime = g;
}

static ns_t *base_of(clockid_t c) {
    switch (c) {
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_COARSE: case CLOCK_MONOTONIC_RAW:
        return &base_mono;
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE:
        return &base_real;
    case CLOCK_BOOTTIME:
        return &base_boot;
    default:
        return 0;
    }
}

/* rounded up: nothing may happen before its time */
static ns_t shrink(ns_t n) { return n <= 0 ? n : (n + scale - 1) / scale; }

static struct timespec to_real(const struct timespec *t, int absolute, clockid_t c) {
    ns_t *b = base_of(c);
    if (!absolute) return spec(shrink(ns(t)));
    if (!b) return *t;
    return spec(*b + shrink(ns(t) - *b));
}

int clock_gettime(clockid_t c, struct timespec *t) {
    if (!real_gettime) init();
    clockid_t d = c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW ? CLOCK_MONOTONIC
                  : c == CLOCK_REALTIME_COARSE ? CLOCK_REALTIME : c;
    int r = real_gettime(d, t);
    ns_t *b = base_of(c);
    if (r == 0 && b) *t = spec(*b + (ns(t) - *b) * scale);
    return r;
}

static unsigned next_random(void) {
    uint64_t x = __atomic_add_fetch(&rng_state, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED);
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return (unsigned)(x >> 33);
}

long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    if (!real_gettime) init();
    struct timespec t;
    if (n == SYS_futex && a[3]) {
        int op = (int)a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (spurious && next_random() % 100 < spurious) {
                struct timespec nap = {0, (long)(next_random() % 300000)};
                real_nanosleep(CLOCK_MONOTONIC, 0, &nap, 0);
                return 0;
            }
            t = to_real((struct timespec *)a[3], op == FUTEX_WAIT_BITSET,
                        (a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
            a[3] = (long)&t;
        }
    }
    return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
    if (!real_gettime) init();
    struct timespec t = to_real(req, flags & TIMER_ABSTIME, c);
    return real_nanosleep(c, flags, &t, rem);
}

int nanosleep(const struct timespec *req, struct timespec *rem) {
    int r = clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
    if (r) { errno = r; return -1; }
    return 0;
}
