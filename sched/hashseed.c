// LD_PRELOAD: makes the random keys of Rust's hash maps a function of VP_HASH, so that each seed is one reproducible order.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
static uint64_t s;
static int init;
static uint64_t next(void) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    if (!init) { const char *e = getenv("VP_HASH"); s = e ? strtoull(e, 0, 10) : 0; init = 1; }
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(next() >> 32);
    return (ssize_t)n;
}
