/* Trusted stand-ins for output and error reporting: they do not touch DLB state. */
#include "verif.h"
#include "support/debug.h"
#undef verbose
verbose_opts_t vb_opts = VB_CLEAR;
void fatal(const char *fmt, ...) { UNREACHABLE_STOP(); abort(); }
void fatal0(const char *fmt, ...) { UNREACHABLE_STOP(); abort(); }
void warning(const char *fmt, ...) {}
void warning0(const char *fmt, ...) {}
void info(const char *fmt, ...) {}
void info0(const char *fmt, ...) {}
void info0_force_print(const char *fmt, ...) {}
void verbose(verbose_opts_t flag, const char *fmt, ...) {}
void warn_error(int e) {}
void printbuffer_init(print_buffer_t *b) {}
void printbuffer_destroy(print_buffer_t *b) {}
void printbuffer_append(print_buffer_t *b, const char *l) {}
#ifdef VERIF_CBMC
int __sched_cpucount(size_t sz, const cpu_set_t *s) {
    int c = 0;
    for (size_t w = 0; w < sz / sizeof(unsigned long); ++w) {
        unsigned long x = s->__bits[w];
        c += __builtin_popcountl(x);
    }
    return c;
}
int ffsl(long x) {
    int r = 0;
    for (int b = 63; b >= 0; --b) if (((unsigned long)x >> b) & 1UL) r = b + 1;
    return r;
}
#endif
