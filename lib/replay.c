/* Native side of the harness interface: replays the recorded choices. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static FILE *in;
static int n_read;
__attribute__((constructor(101))) static void replay_init(void) {
    FILE *c = fopen("/proc/self/cmdline", "rb");
    char buf[4096]; size_t n = c ? fread(buf, 1, sizeof(buf) - 1, c) : 0;
    buf[n] = 0;
    if (c) fclose(c);
    char *p = memchr(buf, 0, n);
    in = p && p + 1 < buf + n ? fopen(p + 1, "r") : NULL;
}
static int next_tok(char *b) {
    if (!in || fscanf(in, "%63s", b) != 1) { printf("REPLAY: input exhausted after %d values\n", n_read); fflush(stdout); _Exit(3); }
    ++n_read;
    return 1;
}
long long nd_ll(void) {
    char b[64]; next_tok(b);
    if (b[0] == 'f') { uint64_t u = strtoull(b + 1, 0, 16); return (long long)u; }
    if (b[0] == '-') return strtoll(b, 0, 10);
    return (long long)strtoull(b, 0, 10);
}
double nd_double(void) {
    char b[64]; next_tok(b);
    uint64_t u = b[0] == 'f' ? strtoull(b + 1, 0, 16) : 0;
    double d; memcpy(&d, &u, 8); return d;
}
void replay_diverged(const char *what, const char *file, int line) {
    printf("REPLAY: diverged: assumption %s false at %s:%d\n", what, file, line); fflush(stdout); _Exit(3);
}
void replay_violation(const char *what, const char *file, int line) {
    printf("REPLAY: VIOLATED: %s at %s:%d\n", what, file, line); fflush(stdout); _Exit(4);
}
void replay_stop(void) { printf("REPLAY: stopped in a function that does not return\n"); fflush(stdout); _Exit(3); }
