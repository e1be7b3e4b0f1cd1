/* Typed option values (types.c): parsing, printing and comparing. The tables below are the documented names and values. */
#include "verif.h"
#include <strings.h>
#include <errno.h>
#include <limits.h>
static int v_sprintf(char *d, const char *f, const char *s) { int n = 0; while ((d[n] = s[n])) ++n; return n; }
static int v_snprintf(char *d, size_t sz, const char *f, const char *s) { size_t n = 0; for (; s[n]; ++n) if (n + 1 < sz) d[n] = s[n]; if (sz) d[n < sz ? n : sz - 1] = 0; return n; }
#define sprintf v_sprintf
#define snprintf v_snprintf
#if defined(TOKENS)
/* strtok_r by contract: any sequence of tokens. The first call forgets the value built so far in favour of an arbitrary prefix of tokens. */
static char *tok(char *s, const char *d, char **end);
#define strtok_r tok
#else
static char *tok(char *s, const char *d, char **end) {
    if (!s) s = *end;
    while (*s == *d) ++s;
    if (!*s) { *end = s; return 0; }
    char *b = s; while (*s && *s != *d) ++s;
    if (*s) *s++ = 0;
    *end = s; return b;
}
#define strtok_r tok
#endif
static char *v_strstr(const char *h, const char *n) { for (;; ++h) { int i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return (char*)h; if (!*h) return 0; } }
#define strstr v_strstr
#ifdef INTS
static long st_val; static size_t st_len; static int st_errno; static int st_calls;
static long v_strtol(const char *s, char **e, int base) { ++st_calls; CHECK(base == 0, "decimal, octal and hexadecimal numbers are accepted"); if (st_errno) errno = st_errno; *e = (char*)s + st_len; return st_val; }
#define strtol v_strtol
#endif
#include "types.c"
#undef strtol
typedef struct { const char *n; int v; } nv;
#define FLAG_T(T, PARSE, TOSTR, EQUIV, YES, NO, NONE, ALL, FREE, ...) static const nv names[] = { __VA_ARGS__ }; typedef T type; \
  static int p(const char *s, int *v) { type t = (type)*v; int e = PARSE(s, &t); *v = t; return e; } static const char *str(int v) { return TOSTR((type)v); } static bool eq(const char *a, const char *b) { return EQUIV(a, b); } \
  enum { V_YES = YES, V_NO = NO, V_NONE = NONE, V_ALL = ALL, FREEFORM = FREE, N = sizeof names / sizeof *names };
#define NOVAL -1
#if TY == 0
FLAG_T(verbose_opts_t, parse_verbose_opts, verbose_opts_tostr, equivalent_verbose_opts, 0xffff, NOVAL, 0, 0xffff, 0, {"no",0},{"all",0xffff},{"api",1},{"microlb",2},{"shmem",4},{"mpi_api",8},{"mpi_intercept",16},{"stats",32},{"drom",64},{"async",128},{"ompt",256},{"affinity",512},{"barrier",1024},{"talp",2048},{"instrument",4096})
#define NBITS 13
#elif TY == 1
FLAG_T(verbose_fmt_t, parse_verbose_fmt, verbose_fmt_tostr, equivalent_verbose_fmt, NOVAL, NOVAL, 0, NOVAL, 0, {"node",1},{"mpinode",2},{"mpirank",4},{"spid",8},{"thread",16},{"timestamp",32})
#define NBITS 6
#elif TY == 2
FLAG_T(instrument_items_t, parse_instrument_items, instrument_items_tostr, equivalent_instrument_items, 0xffff, 0, 0, 0xffff, 0, {"none",0},{"all",0xffff},{"mpi",1},{"lewi",2},{"drom",4},{"talp",8},{"barrier",16},{"ompt",32},{"cpus",64},{"callbacks",128})
#define NBITS 8
#elif TY == 3
FLAG_T(debug_opts_t, parse_debug_opts, debug_opts_tostr, equivalent_debug_opts, NOVAL, NOVAL, 0, NOVAL, 1, {"return-stolen",1},{"werror",2},{"lend-post-mortem",4},{"warn-mpi-version",8})
#define NBITS 4
#elif TY == 4
FLAG_T(talp_summary_t, parse_talp_summary, talp_summary_tostr, equivalent_talp_summary, 1, 0, 0, 0xfff9, 0, {"none",0},{"all",0xfff9},{"pop-metrics",1},{"app",1},{"pop-raw",2},{"node",4},{"process",8})
#define NBITS 4
#elif TY == 5
FLAG_T(omptool_opts_t, parse_omptool_opts, omptool_opts_tostr, equivalent_omptool_opts, NOVAL, NOVAL, 0, NOVAL, 0, {"none",0},{"borrow",2},{"lend",4})
#define NBITS 3
#elif TY == 10
FLAG_T(lewi_affinity_t, parse_lewi_affinity, lewi_affinity_tostr, equivalent_lewi_affinity, NOVAL, NOVAL, 0, 0, 0, {"auto",LEWI_AFFINITY_AUTO},{"none",LEWI_AFFINITY_NONE},{"mask",LEWI_AFFINITY_MASK},{"nearby-first",LEWI_AFFINITY_NEARBY_FIRST},{"nearby-only",LEWI_AFFINITY_NEARBY_ONLY},{"spread-ifempty",LEWI_AFFINITY_SPREAD_IFEMPTY},{"any",LEWI_AFFINITY_MASK})
#elif TY == 11
FLAG_T(talp_model_t, parse_talp_model, talp_model_tostr, equivalent_talp_model, NOVAL, NOVAL, 0, 0, 0, {"hybrid-v1",TALP_MODEL_HYBRID_V1},{"hybrid-v2",TALP_MODEL_HYBRID_V2})
#elif TY == 12
FLAG_T(policy_t, parse_policy, policy_tostr, equivalent_policy, NOVAL, NOVAL, 0, 0, 0, {"no",POLICY_NONE},{"lewi",POLICY_LEWI},{"lewi_async",POLICY_LEWI_ASYNC},{"lewi_mask",POLICY_LEWI_MASK})
#elif TY == 13
FLAG_T(interaction_mode_t, parse_mode, mode_tostr, equivalent_mode, NOVAL, NOVAL, 0, 0, 0, {"polling",MODE_POLLING},{"async",MODE_ASYNC})
#elif TY == 14
FLAG_T(mpi_set_t, parse_mpiset, mpiset_tostr, equivalent_mpiset, NOVAL, NOVAL, 0, 0, 0, {"none",MPISET_NONE},{"all",MPISET_ALL},{"barrier",MPISET_BARRIER},{"collectives",MPISET_COLLECTIVES})
#elif TY == 15
FLAG_T(omptm_version_t, parse_omptm_version, omptm_version_tostr, equivalent_omptm_version_opts, NOVAL, NOVAL, 0, 0, 0, {"none",OMPTM_NONE},{"omp5",OMPTM_OMP5},{"free-agents",OMPTM_FREE_AGENTS},{"role-shift",OMPTM_ROLE_SHIFT})
#elif TY == 16
static const char *bstr(int v) { return v ? "yes" : "no"; }
FLAG_T(bool, parse_bool, bstr, equivalent_bool, NOVAL, NOVAL, 0, 0, 0, {"1",1},{"yes",1},{"true",1},{"0",0},{"no",0},{"false",0})
#elif TY == 17
static const char *bstr(int v) { return v ? "no" : "yes"; }
FLAG_T(bool, parse_negated_bool, bstr, equivalent_negated_bool, NOVAL, NOVAL, 0, 0, 0, {"1",0},{"yes",0},{"true",0},{"0",1},{"no",1},{"false",1})
#endif
#define L 20
#ifdef TOKENS
static int *dst; static int acc, nth; static bool prefix; static char buf[L];
static char arg[8];
static char *tok(char *s, const char *d, char **end) {
    CHECK(d[0] == ':' && d[1] == 0, "names are separated by colons");
    if (s) { CHECK(nth == 0, "the list is read once"); for (int i = 0; i < 8; ++i) if (!(arg[i] == s[i])) CHECK(0, "the whole argument is read"); else if (!arg[i]) break; } else CHECK(nth > 0, "reading goes on");
    if (nth == 3 || nd_bool()) return 0;
    ++nth;
    unsigned k = nd_uint() % (N + 1);
    for (int i = 0; i < L; ++i) buf[i] = 0;
    if (k == N) { /* unknown name */
        for (int i = 0; i < 3; ++i) buf[i] = nd_uchar();
        ASSUME(buf[0] && buf[0] != ':' && buf[1] != ':' && buf[2] != ':');
        for (unsigned i = 0; i < N; ++i) ASSUME(strcmp(buf, names[i].n) != 0);
        return buf;
    }
    for (int i = 0; names[k].n[i]; ++i) buf[i] = names[k].n[i];
    acc |= names[k].v;
    return buf;
}
#endif
static bool same_nocase(const char *a, const char *b) {
    for (int i = 0; i < L; ++i) { char x = a[i], y = b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return 0; if (!x) return 1; }
    return 0;
}
int main(void) {
#if defined(INTS)
    char s[2] = { nd_uchar(), 0 }; st_val = nd_ll(); st_len = nd_bool(); st_errno = nd_bool() ? ERANGE : 0; errno = nd_bool() ? ERANGE : 0;
    ASSUME(IMPL(st_len == 0, st_val == 0) && IMPL(st_errno, (st_val == LONG_MAX || st_val == LONG_MIN) && st_len));
    int old = nd_int(), v = old, e = parse_int(s, &v);
    bool fits = st_len && st_val >= INT_MIN && st_val <= INT_MAX;
    CHECK(st_calls == 1, "the number is read once");
    CHECK(IFF(e == DLB_SUCCESS, fits) && IMPL(e, e == DLB_ERR_NOENT), "a number is accepted if it is one and fits an int");
    CHECK(v == (fits ? st_val : old), "the accepted number is the one written; a refused one changes nothing");
    COVER(fits, "fits"); COVER(!fits && st_len, "too large");
#elif defined(TOKENS)
    for (int i = 0; i < 7; ++i) arg[i] = nd_uchar();
    int v = nd_int(); bool yes = V_YES != NOVAL && strcmp(arg, "yes") == 0, no = V_NO != NOVAL && strcmp(arg, "no") == 0;
    int e = p(arg, &v);
    CHECK(e == DLB_SUCCESS, "a list of names is always accepted");
    if (yes) CHECK(v == V_YES, "'yes' means the documented value");
    else if (no) CHECK(v == V_NO, "'no' means none");
    else CHECK(v == (type)acc, "the value is the union of the named items; unknown names count for nothing");
    COVER(nth == 3, "three names"); COVER(!yes && !no && acc == 0, "nothing");
#elif defined(ROUND)
    int v = nd_uint() & ((1 << NBITS) - 1);
    if (V_ALL != NOVAL && nd_bool()) v = V_ALL;
#if TY == 5
    v &= 6;
#endif
#ifdef HI
    ASSUME((v >> 8) == HI || v == V_ALL);
#endif
    /* an earlier call may have printed anything */
    int prev = nd_uint() & ((1 << NBITS) - 1); 
#if TY == 5
    prev &= 6;
#endif
#ifndef HI
    str(prev);
#endif
    const char *s = str(v);
#ifdef READ_BACK
    int r = nd_int(), e = p(s, &r);
    CHECK(e == DLB_SUCCESS && r == v, "reading a printed value gives the value back");
#else
    /* what is printed is the list of names of the value, which reads back as the value (groups list_*) */
    static char x[160]; int n = 0; bool zero = 0;
    if (V_ALL != NOVAL && v == V_ALL) { for (const char *q = "all"; *q; ++q) x[n++] = *q; }
    else for (int i = 0; i < N; ++i) { if (names[i].v == 0 || names[i].v == V_ALL || (names[i].v & v) == 0 || (i > 0 && names[i].v == names[i - 1].v)) continue; if (n) x[n++] = ':'; for (const char *q = names[i].n; *q; ++q) x[n++] = *q; }
    x[n] = 0;
    if (v == 0) CHECK(s[0] == 0 || (names[0].v == 0 && strcmp(s, names[0].n) == 0), "nothing is printed as the empty list");
    else for (int i = 0; i < 130; ++i) { CHECK(s[i] == x[i], "the names of the value are printed, separated by colons"); if (!x[i]) break; }
#endif
    COVER(v, "some"); COVER(!v, "none");
#elif defined(SINGLE)
    char s[L]; for (int i = 0; i < L; ++i) s[i] = nd_uchar();
    int k = -1; for (int i = 0; i < N; ++i) if (same_nocase(s, names[i].n)) k = i;
    int old = nd_uint() & 1, v = old, e = p(s, &v);
    CHECK(IFF(e == DLB_SUCCESS, k >= 0) && IMPL(e, e == DLB_ERR_NOENT), "exactly the documented names are accepted, in any case");
    CHECK(v == (k >= 0 ? names[k].v : old), "a name means its value; a refused one changes nothing");
    unsigned j = nd_uint() % N; const char *o = str(names[j].v); int w = nd_uint() & 1; e = p(o, &w);
    CHECK(e == DLB_SUCCESS && w == names[j].v, "reading a printed value gives the value back");
    bool q = eq(s, names[j].n);
    CHECK(q == (k >= 0 && names[k].v == names[j].v), "two texts are equivalent if both are valid and mean the same");
    q = eq(names[j].n, s);
    CHECK(q == (k >= 0 && names[k].v == names[j].v), "two texts are equivalent if both are valid and mean the same");
    COVER(k >= 0, "known"); COVER(k < 0, "unknown");
#endif
    return 0;
}
