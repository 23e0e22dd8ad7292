/* Native meaning of the harness primitives: inputs come from the replay file. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static FILE *f;
static uint64_t hash = 0xcbf29ce484222325ull;

void __sym_open(const char *p, size_t n) {
    char b[4096];
    if (n >= sizeof b) exit(3);
    memcpy(b, p, n);
    b[n] = 0;
    f = fopen(b, "r");
    if (!f) { perror(b); exit(3); }
}
static uint64_t next(void) {
    unsigned long long v;
    if (!f || fscanf(f, "%llu", &v) != 1) { fprintf(stderr, "REPLAY: inputs exhausted\n"); exit(78); }
    return v;
}
uint64_t __sym_int(uint32_t bits) {
    uint64_t v = next();
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t __sym_range(uint64_t lo, uint64_t hi) {
    uint64_t v = next();
    if (v < lo || v > hi) { fprintf(stderr, "REPLAY: input out of range\n"); exit(78); }
    return v;
}
uint64_t __sym_conc(uint64_t v) { return v; }
void __sym_bytes(uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)next();
}
void __sym_assume(int b) {
    if (!b) { printf("ASSUMED\n"); fflush(stdout); _exit(77); }
}
void __sym_assert(int b, const char *m, size_t n) {
    if (!b) { printf("ASSERT %.*s\n", (int)n, m); fflush(stdout); _exit(1); }
}
void __sym_cover(const char *m, size_t n) { (void)m; (void)n; }
void __sym_known(const char *m, size_t n) { (void)m; (void)n; }
void __sym_trace(const uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) hash = (hash ^ p[i]) * 0x100000001b3ull;
    if (getenv("SYM_SHOW")) { fwrite(p, 1, n, stderr); fputc('\n', stderr); }
}
void __sym_finish(void) { printf("TRACE %016llx\n", (unsigned long long)hash); fflush(stdout); }

/* The environment of a replay is the one the engine models: a fixed clock, fixed entropy. */
#include <time.h>
#include <sys/types.h>
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    t->tv_sec = 1700000000;
    t->tv_nsec = 123456789;
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    (void)fl;
    for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)(0x5a + i * 31);
    return (ssize_t)n;
}
