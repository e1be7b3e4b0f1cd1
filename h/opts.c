/* Options (options.c): where the value of every option comes from, the flag list, and access by name. */
#include "verif.h"
#include <strings.h>
#include <stdarg.h>
/* formatted output: only %s and %d are used */
static int put(char *d, size_t sz, const char *s) { size_t n = 0; for (; s[n]; ++n) if (n + 1 < sz) d[n] = s[n]; if (sz) d[n < sz ? n : sz - 1] = 0; return n; }
/* the decimal digits of x, as an unambiguous code (# and the 8 nibbles) */
static int putint(char *d, size_t sz, int x) { char t[10]; t[0] = '#'; for (int i = 0; i < 8; ++i) t[1 + i] = 'A' + (((unsigned)x >> (4 * i)) & 15); t[9] = 0; return put(d, sz, t); }
static int v_snprintf(char *d, size_t sz, const char *f, ...) { va_list a; va_start(a, f); int r; if (f[0] == '%' && f[1] == 'd') r = putint(d, sz, va_arg(a, int)); else r = put(d, sz, va_arg(a, const char*)); va_end(a); return r; }
#define snprintf v_snprintf
#define sprintf(d, ...) v_snprintf(d, (size_t)1 << 30, __VA_ARGS__)
static bool isdelim(char c, const char *d) { for (; *d; ++d) if (*d == c) return 1; return 0; }
static char *v_strtok_r(char *s, const char *d, char **end) {
    if (!s) s = *end;
    while (*s && isdelim(*s, d)) ++s;
    if (!*s) { *end = s; return 0; }
    char *b = s; while (*s && !isdelim(*s, d)) ++s;
    if (*s) *s++ = 0;
    *end = s; return b;
}
#define strtok_r v_strtok_r
static char *v_getenv(const char *n);
#define getenv v_getenv
static char *v_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
#define strchr v_strchr
#include <ctype.h>
#undef isspace
#define isspace(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#include <limits.h>
#undef PATH_MAX
#define PATH_MAX 64 /* space for a file name (real value 4096): texts in these groups are short */
#ifdef OP_ARGS
#ifndef LEN
#define LEN 11
#endif
static void *v_malloc(size_t n) { CHECK(n > LEN, "room for the copy"); return malloc(LEN + 1); }
#define malloc v_malloc
#endif
#ifndef OP_ARGS
static void parse_dlb_args(char *dlb_args, const char *arg_name, char *arg_value, size_t arg_max_len);
#endif
#include "options.c"
#undef getenv
#undef malloc
__thread subprocess_descriptor_t *thread_spd;
typedef enum { K_BOOL, K_NBOOL, K_INT, K_VB, K_VBF, K_INST, K_DBG, K_AFF, K_MODE, K_MPISET, K_OMPT, K_SUM, K_MODEL, K_OMPTM, K_STR, K_PATH } kind;
/* documented options: name, field, kind of value, default, and whether it may be changed later */
static options_t o;
typedef struct { const char *name, *var; void *field; kind k; const char *def; bool ro, old; } opt;
#define F(f) &o.f
static const opt doc[] = {
 {"--lewi","LB_LEWI",F(lewi),K_BOOL,"no",1}, {"--drom","LB_DROM",F(drom),K_BOOL,"no",1}, {"--talp","LB_TALP",F(talp),K_BOOL,"no",0}, {"--barrier","LB_BARRIER",F(barrier),K_BOOL,"yes",1}, {"--ompt",0,F(ompt),K_BOOL,"no",1},
 {"--mode","LB_MODE",F(mode),K_MODE,"polling",1}, {"--quiet",0,F(quiet),K_BOOL,"no",1}, {"--silent",0,F(silent),K_BOOL,"no",1}, {"--verbose","LB_VERBOSE",F(verbose),K_VB,"no",1}, {"--verbose-format","LB_VERBOSE_FORMAT",F(verbose_fmt),K_VBF,"node:spid",1},
 {"--instrument",0,F(instrument),K_INST,"all",1}, {"--instrument-counters",0,F(instrument_counters),K_BOOL,"no",1}, {"--instrument-extrae-nthreads",0,F(instrument_extrae_nthreads),K_INT,"0",1},
 {"--lewi-keep-one-cpu",0,F(lewi_keep_cpu_on_blocking_call),K_BOOL,"no",0}, {"--lewi-respect-cpuset",0,F(lewi_respect_cpuset),K_BOOL,"yes",0}, {"--lewi-respect-mask",0,F(lewi_respect_cpuset),K_BOOL,"yes",0,1}, {"--lewi-mpi",0,F(lewi_keep_cpu_on_blocking_call),K_NBOOL,"no",0,1},
 {"--lewi-mpi-calls",0,F(lewi_mpi_calls),K_MPISET,"all",0}, {"--lewi-barrier",0,F(lewi_barrier),K_BOOL,"yes",1}, {"--lewi-barrier-select",0,F(lewi_barrier_select),K_STR,"",1}, {"--lewi-affinity",0,F(lewi_affinity),K_AFF,"auto",0},
 {"--lewi-ompt",0,F(lewi_ompt),K_OMPT,"borrow",0}, {"--lewi-greedy",0,F(lewi_greedy),K_BOOL,"no",0}, {"--lewi-warmup",0,F(lewi_warmup),K_BOOL,"no",1}, {"--lewi-max-parallelism",0,F(lewi_max_parallelism),K_INT,"0",1}, {"--lewi-color",0,F(lewi_color),K_INT,"0",1},
 {"--talp-openmp",0,F(talp_openmp),K_BOOL,"no",1}, {"--talp-papi",0,F(talp_papi),K_BOOL,"no",1}, {"--talp-summary","LB_TALP_SUMM",F(talp_summary),K_SUM,"pop-metrics",1}, {"--talp-output-file",0,F(talp_output_file),K_PATH,"",1}, {"--talp-external-profiler",0,F(talp_external_profiler),K_BOOL,"no",1},
 {"--talp-regions-per-proc",0,F(talp_regions_per_proc),K_INT,"100",1,1}, {"--talp-region-select",0,F(talp_region_select),K_STR,"",1}, {"--talp-model",0,F(talp_model),K_MODEL,"hybrid-v2",1}, {"--barrier-id",0,F(barrier_id),K_INT,"0",1},
 {"--shm-key","LB_SHM_KEY",F(shm_key),K_STR,"",1}, {"--shm-size-multiplier",0,F(shm_size_multiplier),K_INT,"1",1}, {"--preinit-pid","LB_PREINIT_PID",F(preinit_pid),K_INT,"0",1}, {"--ompt-thread-manager",0,F(omptm_version),K_OMPTM,"none",0}, {"--debug-opts","LB_DEBUG_OPTS",F(debug_opts),K_DBG,"",0} };
enum { ND = sizeof doc / sizeof *doc };
static bool eqs(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) ++i; return a[i] == b[i]; }
/* value parsers by contract: they accept or refuse any text; their results are recorded by field */
static int last_kind[ND]; static char last_tag[ND]; static bool last_ok[ND]; static int ncalls; static int refuse = -1;
static const char *parsed; static void *parsed_at; static kind parsed_kind; static int parsed_result;
#ifdef DEFAULTS
#define DEFTAG (eqs(s, doc[i].def) ? 'D' : '?')
#else
#define DEFTAG 'D'
#endif
static bool bad_text(const char *s) { return s[0] == '!'; }
static int rec(kind k, const char *s, void *f) {
    ++ncalls; parsed = s; parsed_at = f; parsed_kind = k; parsed_result = bad_text(s) ? DLB_ERR_NOENT : DLB_SUCCESS;
#ifdef OP_INIT
    if (!bad_text(s)) for (int i = 0; i < ND; ++i) if (doc[i].field == f) { last_kind[i] = k; last_ok[i] = s[0] != 0 || 1; last_tag[i] = s[0] == '#' ? s[1] : DEFTAG; }
#endif
    return parsed_result;
}
#define PARSER(fn, T, k) int fn(const char *s, T *v) { return rec(k, s, v); }
PARSER(parse_bool, bool, K_BOOL) PARSER(parse_negated_bool, bool, K_NBOOL) PARSER(parse_int, int, K_INT) PARSER(parse_verbose_opts, verbose_opts_t, K_VB) PARSER(parse_verbose_fmt, verbose_fmt_t, K_VBF) PARSER(parse_instrument_items, instrument_items_t, K_INST)
PARSER(parse_debug_opts, debug_opts_t, K_DBG) PARSER(parse_lewi_affinity, lewi_affinity_t, K_AFF) PARSER(parse_mode, interaction_mode_t, K_MODE) PARSER(parse_mpiset, mpi_set_t, K_MPISET) PARSER(parse_omptool_opts, omptool_opts_t, K_OMPT)
PARSER(parse_talp_summary, talp_summary_t, K_SUM) PARSER(parse_talp_model, talp_model_t, K_MODEL) PARSER(parse_omptm_version, omptm_version_t, K_OMPTM)
#define EQUIV(fn) bool fn(const char *a, const char *b) { return nd_bool(); }
EQUIV(equivalent_bool) EQUIV(equivalent_negated_bool) EQUIV(equivalent_int) EQUIV(equivalent_verbose_opts) EQUIV(equivalent_verbose_fmt) EQUIV(equivalent_instrument_items) EQUIV(equivalent_debug_opts) EQUIV(equivalent_lewi_affinity) EQUIV(equivalent_mode)
EQUIV(equivalent_mpiset) EQUIV(equivalent_omptool_opts) EQUIV(equivalent_talp_summary) EQUIV(equivalent_talp_model) EQUIV(equivalent_omptm_version_opts) EQUIV(mu_equivalent_masks)
static int shown_kind, shown_val; static char shown_text[4] = "?";
#define SHOW(fn, T, k) const char *fn(T v) { shown_kind = k; shown_val = v; return "@"; }
SHOW(verbose_opts_tostr, verbose_opts_t, K_VB) SHOW(verbose_fmt_tostr, verbose_fmt_t, K_VBF) SHOW(instrument_items_tostr, instrument_items_t, K_INST) SHOW(debug_opts_tostr, debug_opts_t, K_DBG) SHOW(lewi_affinity_tostr, lewi_affinity_t, K_AFF) SHOW(mode_tostr, interaction_mode_t, K_MODE)
SHOW(mpiset_tostr, mpi_set_t, K_MPISET) SHOW(omptool_opts_tostr, omptool_opts_t, K_OMPT) SHOW(talp_summary_tostr, talp_summary_t, K_SUM) SHOW(talp_model_tostr, talp_model_t, K_MODEL) SHOW(omptm_version_tostr, omptm_version_t, K_OMPTM)
const char *mu_to_str(const cpu_set_t *m) { return ""; }
void mu_parse_mask(const char *s, cpu_set_t *m) {}
#define CH(fn) const char *fn(void) { return ""; }
CH(get_verbose_opts_choices) CH(get_verbose_fmt_choices) CH(get_instrument_items_choices) CH(get_debug_opts_choices) CH(get_lewi_affinity_choices) CH(get_mode_choices) CH(get_mpiset_choices) CH(get_omptool_opts_choices) CH(get_talp_summary_choices) CH(get_talp_model_choices) CH(get_omptm_version_choices)

#ifdef OP_ARGS
/* one option looked up in a list of flags */
static char *v_getenv(const char *n) { return 0; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
int main(void) {
    char a[LEN + 1], b[LEN + 1], val[8]; 
    for (int i = 0; i < LEN; ++i) { a[i] = b[i] = " \t-=xnoa"[nd_uchar() & 7]; } /* shorter lists: padded with blanks */
    a[LEN] = b[LEN] = 0;
    for (int i = 0; i < 8; ++i) val[i] = nd_uchar();
    const char *name = "--x";
    parse_dlb_args(b, name, val, 7);
    /* expected: words of a that are not this option, in order; and the value of the last word that is */
    char rest[LEN + 2]; int r = 0; char ev[8] = ""; bool found = 0;
    for (int i = 0; i < LEN && a[i]; ) {
        if (sp(a[i])) { ++i; continue; }
        int s = i; while (i < LEN && a[i] && !sp(a[i])) ++i;
        int l = i - s; bool m = 0;
        if (l >= 3 && a[s] == '-' && a[s + 1] == '-' && a[s + 2] == 'x') {
            if (l == 3) { ev[0] = 'y'; ev[1] = 'e'; ev[2] = 's'; ev[3] = 0; m = 1; }
            else if (a[s + 3] == '=') { m = 1; if (l > 4) { int n = 0; for (; n < 6 && s + 4 + n < i; ++n) ev[n] = a[s + 4 + n]; ev[n] = 0; } }
        } else if (l == 6 && a[s] == '-' && a[s + 1] == '-' && a[s + 2] == 'n' && a[s + 3] == 'o' && a[s + 4] == '-' && a[s + 5] == 'x') { ev[0] = 'n'; ev[1] = 'o'; ev[2] = 0; m = 1; }
        if (m) found = 1; else { if (r) rest[r++] = ' '; for (int j = s; j < i; ++j) rest[r++] = a[j]; }
    }
    rest[r] = 0;
    for (int i = 0; i < 7; ++i) { CHECK(val[i] == ev[i], "the value of an option is the text of its last occurrence"); if (!ev[i]) break; }
    /* words left in b, separated by single blanks */
    int k = 0; bool first = 1;
    for (int i = 0; i <= LEN && b[i]; ) {
        if (sp(b[i])) { ++i; continue; }
        if (!first) { CHECK(rest[k] == ' ', "every other word stays"); ++k; } first = 0;
        while (i <= LEN && b[i] && !sp(b[i])) { CHECK(rest[k] == b[i], "every other word stays"); ASSUME(rest[k]); ++k; ++i; }
    }
    CHECK(rest[k] == 0, "every other word stays");
    COVER(found, "found"); COVER(!found, "not found"); COVER(found && r > 2, "others");
    return 0;
}
#else
static bool env_given, api_given, old_name; static bool in_env[ND], in_api[ND], in_var[ND], ok_env[ND], ok_api[ND], ok_var[ND];
static char env_text[4] = "E", api_text[4] = "A", var_text[3] = "#V", var_bad[2] = "!";
static int at;
static char *v_getenv(const char *n) {
    if (eqs(n, "DLB_ARGS")) return env_given && !old_name ? &env_text[0] : 0;
    if (eqs(n, "LB_ARGS")) return env_given && old_name ? &env_text[0] : 0;
    for (int i = 0; i < ND; ++i) if (doc[i].var && eqs(n, doc[i].var)) return in_var[i] ? (ok_var[i] ? &var_text[0] : &var_bad[0]) : 0;
    return 0;
}
static void parse_dlb_args(char *args, const char *name, char *val, size_t max) {
    int i = 0; while (i < ND && !eqs(doc[i].name, name)) ++i;
    CHECK(i < ND, "only documented options exist"); ASSUME(i < ND);
    CHECK(max == (doc[i].k == K_PATH ? PATH_MAX - 1 : MAX_OPTION_LENGTH - 1), "the space for a value");
    bool e = args[0] == 'E';
    CHECK(e || args[0] == 'A', "a list of flags is read");
    val[0] = val[1] = val[2] = val[3] = 0;
    if (!(e ? in_env : in_api)[i]) return;
    if ((e ? ok_env : ok_api)[i]) { val[0] = '#'; val[1] = e ? 'E' : 'A'; val[2] = 0; } else { val[0] = '!'; val[1] = 0; }
}
int main(void) {
#ifdef OP_INIT
    env_given = nd_bool(); api_given = nd_bool(); old_name = nd_bool();
    for (int i = 0; i < ND; ++i) { in_env[i] = nd_bool(); in_api[i] = nd_bool(); in_var[i] = nd_bool(); ok_env[i] = nd_bool(); ok_api[i] = nd_bool(); ok_var[i] = nd_bool(); }
    for (int i = 0; i < ND; ++i) if (doc[i].k == K_STR || doc[i].k == K_PATH) ok_env[i] = ok_api[i] = ok_var[i] = 1;
#ifdef DEFAULTS
    env_given = api_given = 0; for (int i = 0; i < ND; ++i) in_var[i] = 0;
#endif
    options_init(&o, api_given ? &api_text[0] : 0);
    for (int i = 0; i < ND; ++i) {
        char want = env_given && in_env[i] ? (ok_env[i] ? 'E' : 'D') : api_given && in_api[i] ? (ok_api[i] ? 'A' : 'D') : doc[i].var && in_var[i] ? (ok_var[i] ? 'V' : 'D') : 'D';
        if (doc[i].k == K_STR) { const char *s = doc[i].field; if (want == 'D') CHECK(eqs(s, doc[i].def), "[str] default text"); else CHECK(s[0] == '#' && s[1] == want && s[2] == 0, "[str] the text comes from the source with precedence"); continue; }
        if (doc[i].k == K_PATH) { const char *s = *(char**)doc[i].field; if (want == 'D') CHECK(!s, "[path] no file"); else CHECK(s && s[0] == '#' && s[1] == want && s[2] == 0, "[path] the name comes from the source with precedence"); continue; }
        /* a deprecated option counts only if it is given and valid; it then overrides the option that replaced it */
        int d = -1; for (int j = 0; j < ND; ++j) if (doc[j].old && j != i && doc[j].field == doc[i].field) d = j;
        if (doc[i].old) { if (want == 'D') continue; }
        else if (d >= 0 && ((env_given && in_env[d] && ok_env[d]) || (!(env_given && in_env[d]) && api_given && in_api[d] && ok_api[d]))) continue;
        CHECK(last_ok[i] && last_tag[i] == want, "DLB_ARGS comes before DLB_Init, then the variable of the option; a text that is not valid counts as the default");
        CHECK(last_kind[i] == doc[i].k, "the text is read as the documented kind of value");
    }
#ifdef DEFAULTS
    COVER(1, "defaults");
#else
    COVER(env_given && api_given && in_env[3] && in_api[3], "both"); COVER(!env_given && api_given, "api"); COVER(env_given && old_name, "old name");
#endif
    options_finalize(&o);
    CHECK(!o.talp_output_file, "the file name is released");
#elif defined(OP_VARS)
    /* DLB_SetVariable and DLB_GetVariable by name */
#ifdef UNKNOWN
    unsigned i = ND; bool use_var = 0; char name[4] = { nd_uchar(), nd_uchar(), nd_uchar(), 0 };
#else
    for (unsigned i = FROM; i < TO; ++i) for (int form = 0; form < 4; ++form) {
    bool use_var = form & 1; char name[32]; for (int j = 0; j < 32; ++j) name[j] = 0;
    if (use_var && !doc[i].var) continue;
    const char *sn = use_var ? doc[i].var : doc[i].name; for (int j = 0; j < 31 && sn[j]; ++j) { name[j] = sn[j]; if ((form & 2) && sn[j] >= 'a' && sn[j] <= 'z') name[j] -= 32; }
    ncalls = 0;
#endif
    o.lewi = nd_bool(); o.talp = nd_bool(); o.lewi_greedy = nd_bool(); o.lewi_max_parallelism = nd_int(); o.lewi_color = nd_int(); o.mode = nd_uint() & 1; o.preinit_pid = nd_int(); o.talp_output_file = nd_bool() ? 0 : "f"; o.shm_key[0] = 'k'; o.lewi_affinity = nd_uint() & 3;
    options_t was = o; char text[3] = "#T"; if (nd_bool()) text[0] = '!';
    int e = options_set_variable(&o, name, text);
    CHECK(IMPL(i == ND, e == DLB_ERR_NOENT), "unknown option");
    if (i < ND) {
        CHECK(IMPL(doc[i].ro, e == DLB_ERR_PERM && ncalls == 0), "options that are fixed at start cannot be changed");
        if (!doc[i].ro) { CHECK(ncalls == 1 && parsed == text && parsed_at == doc[i].field && parsed_kind == doc[i].k && e == parsed_result, "the text is read into the option that was named"); }
    } else CHECK(ncalls == 0, "nothing is changed");
    bool same = o.lewi == was.lewi && o.talp == was.talp && o.lewi_max_parallelism == was.lewi_max_parallelism && o.mode == was.mode && o.preinit_pid == was.preinit_pid && o.talp_output_file == was.talp_output_file && o.shm_key[0] == was.shm_key[0] && o.shm_key[1] == was.shm_key[1];
    CHECK(same, "nothing else is changed");
    char out[MAX_OPTION_LENGTH]; out[0] = '%';
    e = options_get_variable(&o, name, out);
    CHECK(e == (i == ND ? DLB_ERR_NOENT : DLB_SUCCESS), "a known option can be read");
    if (i < ND) switch (doc[i].k) {
        case K_BOOL: CHECK(eqs(out, *(bool*)doc[i].field ? "yes" : "no"), "[get] yes or no"); break;
        case K_NBOOL: CHECK(eqs(out, *(bool*)doc[i].field ? "no" : "yes"), "[get] yes or no"); break;
        case K_INT: { unsigned v = 0; bool dig = out[0] == '#' && out[9] == 0; for (int j = 0; j < 8; ++j) v |= (unsigned)((out[1 + j] - 'A') & 15) << (4 * j); CHECK(dig && v == (unsigned)*(int*)doc[i].field, "[get] the number"); break; }
        case K_STR: CHECK(eqs(out, (char*)doc[i].field), "[get] the text"); break;
        case K_PATH: CHECK(eqs(out, o.talp_output_file ? "f" : ""), "[get] the file name"); break;
        default: CHECK(out[0] == '@' && out[1] == 0 && shown_kind == doc[i].k && shown_val == *(int*)doc[i].field, "[get] the value of the option that was named");
    }
    COVER(i == ND || e == 0, "read or unknown");
#ifndef UNKNOWN
    }
#endif
#elif defined(OP_ENTRY)
    /* one option read before or after DLB_Init */
    for (unsigned i = FROM; i < TO; ++i) { if (doc[i].k == K_PATH) continue; ncalls = 0;
    static subprocess_descriptor_t spd; 
    thread_spd = nd_bool() ? &spd : 0; spd.dlb_initialized = nd_bool(); bool copy = thread_spd && spd.dlb_initialized; size_t off = (char*)doc[i].field - (char*)&o;
    env_given = nd_bool(); in_env[i] = nd_bool(); ok_env[i] = nd_bool();
    spd.options.lewi = nd_bool(); spd.options.debug_opts = nd_uint(); spd.options.verbose = nd_uint(); spd.options.verbose_fmt = nd_uint(); spd.options.lewi_color = nd_int(); spd.options.shm_key[0] = nd_uchar(); spd.options.shm_key[MAX_OPTION_LENGTH - 1] = nd_uchar();
    static char dest[MAX_OPTION_LENGTH];
    options_parse_entry(doc[i].name, dest);
    if (copy) {
        CHECK(ncalls == 0, "after DLB_Init the current value is used");
        const char *from = (char*)&spd.options + off;
        if (doc[i].k == K_BOOL || doc[i].k == K_NBOOL) CHECK(dest[0] == from[0], "[copy] the current value");
        else if (doc[i].k == K_STR) CHECK(dest[0] == from[0] && dest[1] == from[1] && dest[MAX_OPTION_LENGTH - 1] == from[MAX_OPTION_LENGTH - 1], "[copy] the current value");
        else CHECK(*(int*)dest == *(int*)from, "[copy] the current value");
    } else {
        bool given = env_given && !old_name && in_env[i];
        if (doc[i].k == K_STR) CHECK(given ? dest[0] == (ok_env[i] ? '#' : '!') : eqs(dest, doc[i].def), "[early] the text in DLB_ARGS, otherwise the default");
        else CHECK(ncalls == 1 + (given && !ok_env[i]) && parsed_at == dest && parsed_kind == doc[i].k, "[early] the value is read");
        if (doc[i].k != K_STR && !(given && ok_env[i])) CHECK(eqs(parsed, doc[i].def), "[early] the default");
    }
    COVER(copy, "copy"); COVER(!copy, "early");
    }
#endif
    return 0;
}
#endif
