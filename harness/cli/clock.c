#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
/* Monotonic time plus the seconds written in the file named by VP_CLOCK. */
int clock_gettime(clockid_t id, struct timespec *ts) {
    int r = syscall(SYS_clock_gettime, id, ts);
    const char *p = getenv("VP_CLOCK");
    if (r == 0 && id == CLOCK_MONOTONIC && p) {
        int fd = open(p, O_RDONLY | O_CLOEXEC);
        if (fd >= 0) {
            uint64_t s = 0;
            if (read(fd, &s, sizeof s) == sizeof s) ts->tv_sec += s;
            close(fd);
        }
    }
    return r;
}

/* Random bytes that depend on VP_RAND alone, so that a run can be repeated. */
static uint64_t state;
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    const char *p = getenv("VP_RAND");
    if (!p) return syscall(SYS_getrandom, buf, n, flags);
    uint64_t z = strtoull(p, 0, 10);
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) {
        uint64_t x = z + 0x9e3779b97f4a7c15ULL * __atomic_add_fetch(&state, 1, __ATOMIC_RELAXED);
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        b[i] = x ^ (x >> 31);
    }
    return n;
}
