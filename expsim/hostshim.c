/* Entropy and wall clock of a compiler process belong to the run: seeded by HOST_SEED. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static uint64_t state, base;
static int ready;
static void init(void) {
    if (!ready) {
        const char *s = getenv("HOST_SEED");
        base = state = s ? strtoull(s, 0, 10) : 1;
        ready = 1;
    }
}
static uint64_t next(void) {
    init();
    uint64_t z = __atomic_add_fetch(&state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    for (size_t i = 0; i < n; i++)
        ((unsigned char *)b)[i] = next() >> 24;
    return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (c == CLOCK_REALTIME) {
        init();
        t->tv_sec += (base * 2654435761u) % 1000000000;
        t->tv_nsec = (t->tv_nsec + base) % 1000000000;
    }
    return r;
}
