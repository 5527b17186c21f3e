/*
 * Conformance driver: executes cases (sequences of public library calls) against
 * the code in /repo and prints, per call, what is observable of it.
 *
 *   driver CASEFILE FIRST LAST        run cases FIRST..LAST (0-based) of CASEFILE
 *
 * Case file: lines of blank separated words. Byte strings are "=HEX" ("=" is the
 * empty string), NULL is "-". Output: per case "B id" before it starts, one line
 * "O {json}" per operation and "X id" at its end. A crash or a hang is seen by the
 * caller as a case without its X line.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <getopt.h>
#include <limits.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "argtable3.h"
#ifndef DRV_AMALG
#include "argtable3_private.h"
#endif
#undef xmalloc
#undef xcalloc
#undef xrealloc
#undef xfree

/* ------------------------------------------------------------ allocation watch */
extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void __real_free(void*);

#define HS 65536
static void* live_ptr[HS];
static long live_n;       /* blocks currently owned by the library */
static int inlib;         /* depth of library calls */
static long alloc_calls;  /* allocations requested by the library in this case */
static long fail_at;      /* make this one fail (0: none) */
static int failed;

static unsigned hp(void* p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % HS; }
static void live_add(void* p) {
    unsigned h = hp(p);
    if (live_n > HS / 2) { fprintf(stderr, "driver: too many live blocks\n"); _exit(99); }
    while (live_ptr[h] && live_ptr[h] != (void*)1) h = (h + 1) % HS;
    live_ptr[h] = p;
    live_n++;
}
static int live_del(void* p) {
    unsigned h = hp(p);
    while (live_ptr[h]) {
        if (live_ptr[h] == p) { live_ptr[h] = (void*)1; live_n--; return 1; }
        h = (h + 1) % HS;
    }
    return 0;
}
static int fault_fd = -1;
static int must_fail(void) {
    if (!inlib) return 0;
    alloc_calls++;
    if (fail_at && alloc_calls == fail_at) {
        failed = 1;
        if (write(fault_fd, "F", 1) != 1) _exit(95);
        return 1;
    }
    return 0;
}
void* __wrap_malloc(size_t n) {
    void* p;
    if (must_fail()) { errno = ENOMEM; return NULL; }
    p = __real_malloc(n);
    if (inlib && p) live_add(p);
    return p;
}
void* __wrap_calloc(size_t a, size_t b) {
    void* p;
    if (must_fail()) { errno = ENOMEM; return NULL; }
    p = __real_calloc(a, b);
    if (inlib && p) live_add(p);
    return p;
}
void* __wrap_realloc(void* q, size_t n) {
    void* p;
    if (must_fail()) { errno = ENOMEM; return NULL; }
    p = __real_realloc(q, n);
    if (p && p != q) { if (q) live_del(q); if (inlib) live_add(p); }
    return p;
}
void __wrap_free(void* p) {
    if (p) live_del(p);
    __real_free(p);
}
#define LIB(stmt) do { inlib++; stmt; inlib--; } while (0)

/* --------------------------------------------------------------------- output */
static FILE* out;
static void jbytes_n(const char* s, size_t n) {
    size_t i;
    fputc('[', out);
    for (i = 0; i < n; i++) fprintf(out, i ? ",%d" : "%d", (unsigned char)s[i]);
    fputc(']', out);
}
static void jbytes(const char* s) { jbytes_n(s, strlen(s)); }
static void jint(long v) {
    unsigned long m = v < 0 ? 0UL - (unsigned long)v : (unsigned long)v;
    fprintf(out, "[%d,%lu,%lu]", v < 0, m >> 16, m & 0xFFFF);
}

/* ---------------------------------------------------------------------- input */
#define MAXW 20000
static char* line;
static size_t linecap;
static char* W[MAXW];
static int nW;
static FILE* in;

static int readline_words(void) {
    char* p;
    ssize_t n = getline(&line, &linecap, in);
    if (n < 0) return 0;
    nW = 0;
    for (p = strtok(line, " \n"); p && nW < MAXW; p = strtok(NULL, " \n")) W[nW++] = p;
    return 1;
}
/* every string a case uses lives in a block of its exact size until the case ends */
static void* case_mem[1 << 18];
static int n_case_mem;
static void* keep(size_t n) {
    void* p = __real_malloc(n ? n : 1);
    case_mem[n_case_mem++] = p;
    return p;
}
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char* str_of(const char* w) {
    size_t n, i;
    char* s;
    if (!strcmp(w, "-")) return NULL;
    w++;
    n = strlen(w) / 2;
    s = keep(n + 1);
    for (i = 0; i < n; i++) s[i] = (char)(hexv(w[2 * i]) * 16 + hexv(w[2 * i + 1]));
    s[n] = 0;
    return s;
}
static char* heap_str(const char* w) { /* a block that the library will own */
    char* s = str_of(w);
    char* h;
    if (!s) return NULL;
    h = __real_malloc(strlen(s) + 1);
    strcpy(h, s);
    live_add(h);
    return h;
}

/* -------------------------------------------------------------------- tables */
#define MAXT 8
#define MAXE 400
struct table {
    void* arg[MAXE + 1];
    char kind[MAXE + 1]; /* l i d s r f t m e */
    int n;               /* entries without end */
    int used;
};
static struct table T[MAXT];
static int nT;
struct parsed { char** argv; char** copy; char** text; int argc, more; };
static struct parsed Pd[1024];
static int nP;

static void locate(const char* s) { /* where in which parse's argv does s point? */
    int p, k;
    for (p = nP - 1; p >= 0; p--)
        for (k = 0; k < Pd[p].argc; k++) {
            size_t n = strlen(Pd[p].text[k]);
            if (s >= Pd[p].copy[k] && s <= Pd[p].copy[k] + n) {
                fprintf(out, "[%d,%d,%d]", p + 1, k, (int)(s - Pd[p].copy[k]));
                return;
            }
        }
    fputs("[0,0,0]", out);
}
static void jstr(const char* s) {
    if (!s) { fputs("{\"b\":[-1],\"w\":[0,0,0]}", out); return; }
    fputs("{\"b\":", out);
    jbytes(s);
    fputs(",\"w\":", out);
    locate(s);
    fputc('}', out);
}
/* ------------------------------------------------- the caller's own callbacks */
/* a kind of argument the library does not know: what a program defines that fills in its own header */
struct arg_own { struct arg_hdr hdr; int calls, nsc; int sc[]; };
/* callbacks put into an entry: which, and the ones that were there before */
struct own { void* arg; int table, entry; const char* cb; int ck; arg_scanfn* scan; arg_resetfn* reset; };
static struct own O[MAXT * (MAXE + 1)];
static int nO;
struct call { int f, i, x; const char* a; };
static struct call calls[4096];
static int n_calls, cur_table = -1;
static struct own* own_of(void* arg) {
    int i;
    for (i = nO - 1; i >= 0; i--) if (O[i].arg == arg) return &O[i];
    return NULL;
}
static void called(int f, struct own* o, const char* a, int x) {
    if (n_calls < (int)(sizeof calls / sizeof calls[0])) {
        calls[n_calls].f = f;
        calls[n_calls].i = o && o->table == cur_table ? o->entry : -1;
        calls[n_calls].a = a;
        calls[n_calls++].x = x;
    }
}
static void my_reset(void* p) {
    int save = inlib;
    struct own* o = own_of(p);
    inlib = 0;
    called('r', o, NULL, 0);
    inlib = save;
    if (o && o->reset) o->reset(p);
    else if (o) ((struct arg_own*)p)->calls = 0;
}
static int my_scan(void* p, const char* a) {
    struct own* o = own_of(p);
    int r = 0;
    if (o && o->scan) r = o->scan(p, a);
    else if (o) { struct arg_own* u = p; r = u->sc[u->calls % u->nsc]; u->calls++; }
    called('s', o, a, r);
    return r;
}
static int my_check(void* p) {
    struct own* o = own_of(p);
    called('c', o, NULL, o ? o->ck : 0);
    return o ? o->ck : 0;
}
static void my_error(void* p, arg_dstr_t ds, int error, const char* argval, const char* progname) {
    struct own* o = own_of(p);
    arg_dstr_catf(ds, "%s~%d~%d~%s\n", progname, o ? o->entry : -1, error, argval ? argval : "(nil)");
}
static void jcalls(void) {
    int i;
    fputs("\"log\":[", out);
    for (i = 0; i < n_calls; i++) {
        fprintf(out, "%s{\"f\":%d,\"i\":%d,\"x\":%d,\"a\":[", i ? "," : "", calls[i].f, calls[i].i, calls[i].x);
        if (calls[i].a) jstr(calls[i].a);
        fputs("]}", out);
    }
    fputs("],", out);
}

static struct arg_hdr* H(struct table* t, int e) { return (struct arg_hdr*)t->arg[e]; }
static int count_of(struct table* t, int e) {
    switch (t->kind[e]) {
        case 'l': return ((struct arg_lit*)t->arg[e])->count;
        case 'i': return ((struct arg_int*)t->arg[e])->count;
        case 'd': return ((struct arg_dbl*)t->arg[e])->count;
        case 's': return ((struct arg_str*)t->arg[e])->count;
        case 'r': return ((struct arg_rex*)t->arg[e])->count;
        case 'f': return ((struct arg_file*)t->arg[e])->count;
        case 't': return ((struct arg_date*)t->arg[e])->count;
        case 'u': return ((struct arg_own*)t->arg[e])->calls;
    }
    return 0;
}
static void jtm(struct tm* m) {
    fprintf(out, "[%d,%d,%d,%d,%d,%d,%d,%d,%d]", m->tm_sec, m->tm_min, m->tm_hour, m->tm_mday, m->tm_mon, m->tm_year, m->tm_wday, m->tm_yday, m->tm_isdst);
}
static void jdbl(double d) {
    uint64_t b;
    memcpy(&b, &d, 8);
    fprintf(out, "[%u,%u,%u,%u]", (unsigned)(b >> 48), (unsigned)(b >> 32 & 0xFFFF), (unsigned)(b >> 16 & 0xFFFF), (unsigned)(b & 0xFFFF));
}
static void dump_table(struct table* t) {
    int e, i;
    struct arg_end* end = (struct arg_end*)t->arg[t->n];
    fputs("\"ents\":[", out);
    for (e = 0; e < t->n; e++) {
        int mx = H(t, e)->maxcount;
        if (e) fputc(',', out);
        fprintf(out, "{\"c\":%d,\"v\":[", count_of(t, e));
        if (t->kind[e] == 'l' || t->kind[e] == 'm' || t->kind[e] == 'u') mx = 0;
        for (i = 0; i < mx; i++) {
            if (i) fputc(',', out);
            switch (t->kind[e]) {
                case 'i': jint(((struct arg_int*)t->arg[e])->ival[i]); break;
                case 'd': jdbl(((struct arg_dbl*)t->arg[e])->dval[i]); break;
                case 's': jstr(((struct arg_str*)t->arg[e])->sval[i]); break;
                case 'r': jstr(((struct arg_rex*)t->arg[e])->sval[i]); break;
                case 'f': {
                    struct arg_file* f = t->arg[e];
                    fputs("[", out);
                    jstr(f->filename[i]); fputc(',', out);
                    jstr(f->basename[i]); fputc(',', out);
                    jstr(f->extension[i]);
                    fputs("]", out);
                    break;
                }
                case 't': jtm(&((struct arg_date*)t->arg[e])->tmval[i]); break;
            }
        }
        fputs("]}", out);
    }
    fprintf(out, "],\"ec\":%d,\"errs\":[", end->count);
    for (i = 0; i < end->count && i < end->hdr.maxcount; i++) {
        int p = 0;
        for (e = 0; e <= t->n; e++) if (end->parent[i] == t->arg[e]) p = e + 1;
        fprintf(out, "%s{\"e\":%d,\"p\":%d,\"a\":[", i ? "," : "", end->error[i], p);
        if (end->argval[i]) jstr(end->argval[i]);
        fputs("]}", out);
    }
    fputs("]", out);
}

/* equal strings of a table are one object in every second table, as literals of a program often are */
static char* shared[4 * (MAXE + 1) + 8];
static int n_shared;
static char* shared_str(const char* w) {
    char* s = str_of(w);
    int i;
    if (!s || nT % 2 == 0) return s;
    for (i = 0; i < n_shared; i++)
        if (!strcmp(shared[i], s)) return shared[i];
    if (n_shared < (int)(sizeof shared / sizeof shared[0])) shared[n_shared++] = s;
    return s;
}
static void* mk_own(const char* sh, const char* lo, const char* dt, const char* gl, int mn, int mx, int hv) {
    int i, n = nW - 15;
    struct arg_own* u = malloc(sizeof *u + sizeof(int) * (size_t)n);
    memset(u, 0, sizeof *u);
    u->hdr.flag = (char)(hv ? ARG_HASVALUE : 0);
    u->hdr.shortopts = sh;
    u->hdr.longopts = lo;
    u->hdr.datatype = dt;
    u->hdr.glossary = gl;
    u->hdr.mincount = mn;
    u->hdr.maxcount = mx;
    u->hdr.parent = u;
    u->nsc = n;
    for (i = 0; i < n; i++) u->sc[i] = atoi(W[15 + i]);
    return u;
}
static void jopt(const char* s) {
    fputc('[', out);
    if (s) jbytes(s);
    fputc(']', out);
}
/* the public header of every entry */
static void dump_headers(struct table* t) {
    int e;
    fputs("\"hd\":[", out);
    for (e = 0; e <= t->n; e++) {
        struct arg_hdr* h = H(t, e);
        fprintf(out, "%s{\"fl\":%d,\"sh\":", e ? "," : "", (unsigned char)h->flag & 7);
        jopt(h->shortopts);
        fputs(",\"lo\":", out);
        jopt(h->longopts);
        fputs(",\"dt\":", out);
        jopt(h->datatype);
        fputs(",\"gl\":", out);
        jopt(h->glossary);
        fputs(",\"aux\":", out);
        jopt(t->kind[e] == 't' ? ((struct arg_date*)t->arg[e])->format : NULL);
        fprintf(out, ",\"mn\":%d,\"mx\":%d,\"self\":%d}", h->mincount, h->maxcount, h->parent == t->arg[e]);
    }
    fputs("],", out);
}
static void mk_entry(struct table* t) {
    /* E kind sh lo dt gl mn mx opt aux flags ctor [callbacks hasvalue check scan...] */
    char kind = W[1][0], ct = W[11][0];
    const char *sh = shared_str(W[2]), *lo = shared_str(W[3]), *dt = shared_str(W[4]), *gl = shared_str(W[5]), *aux = shared_str(W[9]);
    int mn = atoi(W[6]), mx = atoi(W[7]), opt = atoi(W[8]), fl = atoi(W[10]);
    void* a = NULL;
    inlib++;
    switch (kind) {
        case 'l': a = ct == '0' ? arg_lit0(sh, lo, gl) : ct == '1' ? arg_lit1(sh, lo, gl) : arg_litn(sh, lo, mn, mx, gl); break;
        case 'i': a = ct == '0' ? arg_int0(sh, lo, dt, gl) : ct == '1' ? arg_int1(sh, lo, dt, gl) : arg_intn(sh, lo, dt, mn, mx, gl); break;
        case 'd': a = ct == '0' ? arg_dbl0(sh, lo, dt, gl) : ct == '1' ? arg_dbl1(sh, lo, dt, gl) : arg_dbln(sh, lo, dt, mn, mx, gl); break;
        case 's': a = ct == '0' ? arg_str0(sh, lo, dt, gl) : ct == '1' ? arg_str1(sh, lo, dt, gl) : arg_strn(sh, lo, dt, mn, mx, gl); break;
        case 'f': a = ct == '0' ? arg_file0(sh, lo, dt, gl) : ct == '1' ? arg_file1(sh, lo, dt, gl) : arg_filen(sh, lo, dt, mn, mx, gl); break;
        case 'r': a = ct == '0' ? arg_rex0(sh, lo, aux, dt, fl, gl) : ct == '1' ? arg_rex1(sh, lo, aux, dt, fl, gl) : arg_rexn(sh, lo, aux, dt, mn, mx, fl, gl); break;
        case 't': a = ct == '0' ? arg_date0(sh, lo, aux, dt, gl) : ct == '1' ? arg_date1(sh, lo, aux, dt, gl) : arg_daten(sh, lo, aux, dt, mn, mx, gl); break;
        case 'm': a = arg_rem(dt, gl); break;
        case 'e': a = arg_end(mx); break;
        case 'u':
            a = mk_own(sh, lo, dt, gl, mn, mx, atoi(W[13]));
            if (fl) ((struct arg_hdr*)a)->parent = t->arg[fl - 1]; /* another name for an earlier entry */
            break;
    }
    inlib--;
    t->arg[t->n] = a;
    t->kind[t->n] = kind;
    if (a && opt) ((struct arg_hdr*)a)->flag |= ARG_HASOPTVALUE;
    if (nW > 12 && a && nO < (int)(sizeof O / sizeof O[0])) {
        struct own* o = &O[nO++];
        struct arg_hdr* h = a;
        const char* cb = str_of(W[12]);
        o->arg = a;
        o->table = (int)(t - T);
        o->entry = t->n + 1;
        o->ck = atoi(W[14]);
        o->scan = h->scanfn;
        o->reset = h->resetfn;
        for (; *cb; cb++)
            switch (*cb) {
                case 'r': h->resetfn = my_reset; break;
                case 's': h->scanfn = my_scan; break;
                case 'c': h->checkfn = my_check; break;
                case 'e': h->errorfn = my_error; break;
                case 'n': h->resetfn = NULL; break;
            }
    }
    if (kind != 'e') t->n++;
}

static void obs_begin(const char* op) { fprintf(out, "O {\"o\":\"%s\"", op); }
static int argv_ok(const struct parsed* p) {
    int i;
    for (i = 0; i < p->argc; i++)
        if (p->argv[i] != p->copy[i] || strcmp(p->copy[i], p->text[i])) return 0;
    if (p->more && (p->argv[p->argc] != p->text[p->argc - 1] || p->argv[p->argc + 1] != p->text[0])) return 0;
    return p->argv[p->argc + p->more] == NULL;
}
static int argvs_ok(void) {
    int i;
    for (i = 0; i < nP; i++) if (!argv_ok(&Pd[i])) return 0;
    return 1;
}
static long live_before;
/* the standard streams: a file of our own, so that what the library writes there can be counted */
static int io_fd = -1, true_err = 2;
static off_t io_before;
static off_t io_size(void) {
    struct stat sb;
    fflush(stdout);
    fflush(stderr);
    return io_fd >= 0 && !fstat(io_fd, &sb) ? sb.st_size : 0;
}
extern void __sanitizer_set_report_fd(void*) __attribute__((weak));
static void on_abort(int sig) { /* whatever complained did so on our file */
    static char b[2000];
    ssize_t n;
    off_t z = io_size(), from = z > (off_t)sizeof b ? z - (off_t)sizeof b : 0;
    n = pread(io_fd, b, sizeof b, from);
    if (n > 0 && write(true_err, b, (size_t)n) != n) _exit(95);
    signal(sig, SIG_DFL);
    raise(sig);
}
static void obs_end(void) {
    fprintf(out, ",\"lv\":%ld,\"avs\":%d,\"io\":%ld}\n", live_n - live_before, argvs_ok(), (long)(io_size() - io_before));
    fflush(out);
}

/* print functions: both the _ds and the FILE variant */
static arg_dstr_t cap_ds;
static char* cap_buf;
static size_t cap_len;
static FILE* cap_fp;
static unsigned cap_n; /* depends on the case alone */
static int cap_pre;
static char cap_at[1001];
static void cap_open(void) {
    /* there may already be something in the string: what is printed comes behind it */
    static const short pre[] = {0, 1, 0, 9, 0, 198, 2, 0, 199, 5, 0, 200, 0, 3, 640, 17};
    {
        int i;
        const char* c;
        for (i = 0; i < nW; i++) for (c = W[i]; *c; c++) cap_n = cap_n * 31u + (unsigned char)*c;
    }
    LIB(cap_ds = arg_dstr_create());
    cap_fp = open_memstream(&cap_buf, &cap_len);
    cap_pre = pre[(cap_n >> 5) % (sizeof pre / sizeof pre[0])];
    memset(cap_at, '@', (size_t)cap_pre);
    cap_at[cap_pre] = 0;
    fputs(cap_at, cap_fp);
    if (cap_pre) switch ((cap_n >> 11) % 4) {
        case 0: LIB(arg_dstr_cat(cap_ds, cap_at)); break;
        case 1: LIB(arg_dstr_catf(cap_ds, "%s", cap_at)); break;
        case 2: LIB(arg_dstr_set(cap_ds, cap_at, ARG_DSTR_STATIC)); break;
        default: LIB(arg_dstr_set(cap_ds, cap_at, ARG_DSTR_VOLATILE));
    }
}
static void cap_close(void) {
    const char* t;
    int n;
    fclose(cap_fp);
    t = arg_dstr_cstr(cap_ds);
    fputs(",\"t\":", out);
    jbytes(t);
    for (n = 0; cap_at[n] == '@'; n++) ; /* the string was lent, not given */
    fprintf(out, ",\"pre\":%d,\"same\":%d", cap_pre, n == cap_pre && cap_at[n] == 0 && strlen(t) == cap_len && !memcmp(t, cap_buf, cap_len));
    LIB(arg_dstr_destroy(cap_ds));
    __real_free(cap_buf);
    cap_buf = NULL;
}

static void op_parse(void) {
    /* parse t argc argv... */
    struct table* t = &T[atoi(W[1])];
    struct parsed* p = &Pd[nP++];
    int i, ret = 0, ok = 1;
    p->argc = atoi(W[2]);
    p->more = (nP % 2 == 0 && p->argc > 0) ? 2 : 0; /* elements behind the last that are not this parse's business */
    p->argv = keep(sizeof(char*) * (size_t)(p->argc + p->more + 1));
    p->copy = keep(sizeof(char*) * (size_t)(p->argc + 1));
    p->text = keep(sizeof(char*) * (size_t)(p->argc + 1));
    for (i = 0; i < p->argc; i++) {
        p->argv[i] = p->copy[i] = str_of(W[3 + i]);
        p->text[i] = str_of(W[3 + i]);
    }
    if (p->more) {
        p->argv[p->argc] = p->text[p->argc - 1];
        p->argv[p->argc + 1] = p->text[0];
    }
    p->argv[p->argc + p->more] = NULL;
    live_before = live_n;
    n_calls = 0;
    cur_table = (int)(t - T);
    LIB(ret = arg_parse(p->argc, p->argv, t->arg));
    obs_begin("parse");
    ok = argv_ok(p);
    fprintf(out, ",\"ret\":%d,\"argvok\":%d,", ret, ok);
    jcalls();
    dump_table(t);
    obs_end();
}
/* -------------------------------------------------------------- getopt, directly */
extern int optreset;
/* the library's, without what the system's headers say about their own */
extern int lib_getopt(int, char* const*, const char*) __asm__("getopt");
extern int lib_getopt_long(int, char* const*, const char*, const struct option*, int*) __asm__("getopt_long");
extern int lib_getopt_long_only(int, char* const*, const char*, const struct option*, int*) __asm__("getopt_long_only");
static struct {
    int how, argc, idx, fl[4], over;
    char *opts, **argv, **copy;
    struct option* longs;
} G;
static void op_gopen(void) {
    /* gopen how opts opterr optind reset n (name has_arg variable value)... argc argv... */
    int i, w = 7, n = atoi(W[6]);
    G.how = atoi(W[1]);
    G.opts = str_of(W[2]);
    G.idx = -1;
    memset(G.fl, 0, sizeof G.fl);
    G.over = 0;
    G.longs = keep(sizeof *G.longs * (size_t)(n + 1));
    for (i = 0; i < n; i++, w += 4) {
        int f = atoi(W[w + 2]);
        G.longs[i].name = str_of(W[w]);
        G.longs[i].has_arg = atoi(W[w + 1]);
        G.longs[i].flag = f ? &G.fl[f - 1] : NULL;
        G.longs[i].val = atoi(W[w + 3]);
    }
    memset(&G.longs[n], 0, sizeof *G.longs);
    G.argc = atoi(W[w++]);
    G.argv = keep(sizeof(char*) * (size_t)(G.argc + 1));
    G.copy = keep(sizeof(char*) * (size_t)(G.argc + 1));
    for (i = 0; i < G.argc; i++) G.argv[i] = G.copy[i] = str_of(W[w + i]);
    G.argv[G.argc] = G.copy[G.argc] = NULL;
    if (atoi(W[5]) < 2) { /* 2: as the library has them when the program starts */
        opterr = atoi(W[3]);
        optind = atoi(W[4]);
        optreset = atoi(W[5]);
    }
    optopt = 0;
    optarg = NULL;
}
static void op_gcall(void) {
    int i, k, ret = 0;
    char b[1024];
    ssize_t n;
    live_before = live_n;
    if (G.over) { /* it has said that there is nothing more */
        obs_begin("gcall");
        fputs(",\"over\":1", out);
        obs_end();
        return;
    }
    switch (G.how) {
        case 0: LIB(ret = lib_getopt(G.argc, G.argv, G.opts)); break;
        case 1: LIB(ret = lib_getopt_long(G.argc, G.argv, G.opts, G.longs, &G.idx)); break;
        case 2: LIB(ret = lib_getopt_long_only(G.argc, G.argv, G.opts, G.longs, &G.idx)); break;
        default: LIB(ret = lib_getopt_long(G.argc, G.argv, G.opts, NULL, NULL));
    }
    G.over = ret == -1;
    obs_begin("gcall");
    fprintf(out, ",\"over\":0,\"ret\":%d,\"oi\":%d,\"op\":%d,\"ix\":%d,\"fl\":[%d,%d,%d],\"av\":[", ret, optind, optopt, G.idx, G.fl[0], G.fl[1], G.fl[2]);
    for (i = 0; i < G.argc; i++) {
        for (k = 0; k < G.argc && G.copy[k] != G.argv[i]; k++) ;
        fprintf(out, i ? ",%d" : "%d", k < G.argc ? k : -1);
    }
    fputs("],\"arg\":[", out);
    if (optarg) {
        for (k = 0; k < G.argc; k++)
            if (optarg >= G.copy[k] && optarg <= G.copy[k] + strlen(G.copy[k])) break;
        fprintf(out, "{\"k\":%d,\"o\":%d}", k < G.argc ? k : -1, k < G.argc ? (int)(optarg - G.copy[k]) : 0);
    }
    fputs("],\"tx\":", out);
    i = (int)(io_size() - io_before);
    n = pread(io_fd, b, i < (int)sizeof b ? (size_t)i : sizeof b, io_before);
    jbytes_n(b, n > 0 ? (size_t)n : 0);
    obs_end();
}
static void op_preset(void) {
    /* preset t e i value... */
    struct table* t = &T[atoi(W[1])];
    int e = atoi(W[2]), i = atoi(W[3]);
    live_before = live_n;
    switch (t->kind[e]) {
        case 'i': ((struct arg_int*)t->arg[e])->ival[i] = (int)strtol(W[4], NULL, 10); break;
        case 'd': { uint64_t b = strtoull(W[4], NULL, 16); memcpy(&((struct arg_dbl*)t->arg[e])->dval[i], &b, 8); break; }
        case 's': ((struct arg_str*)t->arg[e])->sval[i] = str_of(W[4]); break;
        case 'r': ((struct arg_rex*)t->arg[e])->sval[i] = str_of(W[4]); break;
        case 'f': {
            struct arg_file* f = t->arg[e];
            f->filename[i] = str_of(W[4]); f->basename[i] = str_of(W[5]); f->extension[i] = str_of(W[6]);
            break;
        }
        case 't': {
            struct tm* m = &((struct arg_date*)t->arg[e])->tmval[i];
            m->tm_sec = atoi(W[4]); m->tm_min = atoi(W[5]); m->tm_hour = atoi(W[6]); m->tm_mday = atoi(W[7]); m->tm_mon = atoi(W[8]);
            m->tm_year = atoi(W[9]); m->tm_wday = atoi(W[10]); m->tm_yday = atoi(W[11]); m->tm_isdst = atoi(W[12]);
            break;
        }
    }
    obs_begin("preset");
    obs_end();
}
static void op_text(const char* op) {
    live_before = live_n;
    obs_begin(op);
    if (!strcmp(op, "errors")) {
        struct table* t = &T[atoi(W[1])];
        char* prog = str_of(W[2]);
        cap_open();
        LIB(arg_print_errors_ds(cap_ds, t->arg[t->n], prog));
        LIB(arg_print_errors(cap_fp, t->arg[t->n], prog));
        cap_close();
        fputc(',', out);
        dump_table(t);
    } else if (!strcmp(op, "syntax")) {
        struct table* t = &T[atoi(W[1])];
        char* s = str_of(W[2]);
        cap_open();
        LIB(arg_print_syntax_ds(cap_ds, t->arg, s));
        LIB(arg_print_syntax(cap_fp, t->arg, s));
        cap_close();
    } else if (!strcmp(op, "syntaxv")) {
        struct table* t = &T[atoi(W[1])];
        char* s = str_of(W[2]);
        cap_open();
        LIB(arg_print_syntaxv_ds(cap_ds, t->arg, s));
        LIB(arg_print_syntaxv(cap_fp, t->arg, s));
        cap_close();
    } else if (!strcmp(op, "glossary")) {
        struct table* t = &T[atoi(W[1])];
        char* s = str_of(W[2]);
        cap_open();
        LIB(arg_print_glossary_ds(cap_ds, t->arg, s));
        LIB(arg_print_glossary(cap_fp, t->arg, s));
        cap_close();
    } else if (!strcmp(op, "gnu")) {
        struct table* t = &T[atoi(W[1])];
        cap_open();
        LIB(arg_print_glossary_gnu_ds(cap_ds, t->arg));
        LIB(arg_print_glossary_gnu(cap_fp, t->arg));
        cap_close();
    } else if (!strcmp(op, "option")) {
        char *sh = str_of(W[1]), *lo = str_of(W[2]), *dt = str_of(W[3]), *sx = str_of(W[4]);
        cap_open();
        LIB(arg_print_option_ds(cap_ds, sh, lo, dt, sx));
        LIB(arg_print_option(cap_fp, sh, lo, dt, sx));
        cap_close();
    } else if (!strcmp(op, "formatted")) {
        unsigned lm = (unsigned)atoi(W[1]), rm = (unsigned)atoi(W[2]);
        char* s = str_of(W[3]);
        FILE* f = open_memstream(&cap_buf, &cap_len);
        LIB(arg_print_formatted(f, lm, rm, s));
        fclose(f);
        fputs(",\"t\":", out);
        jbytes_n(cap_buf, cap_len);
        fputs(",\"pre\":0,\"same\":1", out);
        __real_free(cap_buf);
        cap_buf = NULL;
    }
    obs_end();
}
static void op_free(const char* op) {
    /* freetable t | argfree t : afterwards all slots must be NULL */
    struct table* t = &T[atoi(W[1])];
    int i, nul = 1;
    live_before = live_n;
    if (!strcmp(op, "freetable")) {
        int w, k = -1;
        for (w = 2; w < nW; w++) {
            int hole = atoi(W[w]);
            if (W[w][0] == '/') {
                k = atoi(W[w] + 1);
            } else if (hole >= 0 && hole <= t->n && t->arg[hole]) { /* a slot emptied by the caller beforehand */
                inlib++; __wrap_free(t->arg[hole]); inlib--;
                t->arg[hole] = NULL;
            }
        }
        if (k >= 0 && k <= t->n) { /* in two parts: the first must leave the second alone */
            void* copy[MAXE + 1];
            memcpy(copy, t->arg, sizeof copy);
            LIB(arg_freetable(t->arg, (size_t)k));
            if (memcmp(copy + k, t->arg + k, (size_t)(t->n + 1 - k) * sizeof copy[0])) nul = 0;
            LIB(arg_freetable(t->arg + k, (size_t)(t->n + 1 - k)));
        } else
            LIB(arg_freetable(t->arg, (size_t)t->n + 1));
    } else if (nW > 2 && atoi(W[2]) <= t->n) { /* with empty slots: the first is the end of the table as far as arg_free knows */
        void* copy[MAXE + 1];
        int hole = atoi(W[2]);
        for (i = 2; i < nW; i++) {
            int h = atoi(W[i]);
            if (h > t->n || !t->arg[h]) continue;
            inlib++; __wrap_free(t->arg[h]); inlib--;
            t->arg[h] = NULL;
        }
        memcpy(copy, t->arg, sizeof copy);
        LIB(arg_free(t->arg));
        for (i = 0; i < hole; i++) if (t->arg[i]) nul = 0;
        if (memcmp(copy + hole, t->arg + hole, (size_t)(t->n + 1 - hole) * sizeof copy[0])) nul = 0;
        LIB(arg_freetable(t->arg, (size_t)t->n + 1));
    } else
        LIB(arg_free(t->arg));
    for (i = 0; i <= t->n; i++) if (t->arg[i]) nul = 0;
    obs_begin(op);
    fprintf(out, ",\"nul\":%d,\"tot\":%ld", nul, live_n);
    obs_end();
}
static void op_nullcheck(void) {
    /* nullcheck t hole... : arg_nullcheck with these slots replaced by NULL */
    void* copy[MAXE + 1];
    int i, r, n = T[atoi(W[1])].n;
    struct table* t = &T[atoi(W[1])];
    live_before = live_n;
    memcpy(copy, t->arg, sizeof copy);
    for (i = 2; i < nW; i++) if (atoi(W[i]) >= 0) copy[atoi(W[i])] = NULL;
    (void)n;
    LIB(r = arg_nullcheck(nW > 2 && atoi(W[2]) < 0 ? NULL : copy)); /* -1: no table at all */
    obs_begin("nullcheck");
    fprintf(out, ",\"r\":%d", r);
    obs_end();
}

/* ------------------------------------------------------------------ messages */
static int cmd_calls, cmd_argc, cmd_id;
static void* cmd_ctx;
static char** cmd_argv;
static int cmd_common(int id, int argc, char* argv[], arg_dstr_t res, void* ctx) {
    int save = inlib;
    char b[32];
    inlib = 0;
    cmd_calls++; cmd_argc = argc; cmd_argv = argv; cmd_ctx = ctx; cmd_id = id;
    inlib = save;
    sprintf(b, "<%d>", id);
    if (res) arg_dstr_cat(res, b);
    return 1000 + id * 10 + argc;
}
#define CMD(n) static int cmd##n(int c, char* v[], arg_dstr_t r, void* x) { return cmd_common(n, c, v, r, x); }
CMD(0) CMD(1) CMD(2) CMD(3) CMD(4) CMD(5) CMD(6) CMD(7)
static arg_cmdfn* cmds[8] = {cmd0, cmd1, cmd2, cmd3, cmd4, cmd5, cmd6, cmd7};
static char ctxs[64];

static void jinfo(arg_cmd_info_t* i) {
    int p, f = -1;
    if (!i) { fputs("[]", out); return; }
    for (p = 0; p < 8; p++) if (cmds[p] == i->proc) f = p;
    fputs("[{\"n\":", out);
    jbytes(i->name);
    fputs(",\"d\":", out);
    jbytes(i->description);
    fprintf(out, ",\"p\":%d,\"x\":%d}]", f, i->ctx == NULL ? -1 : (int)((char*)i->ctx - ctxs));
}
static void op_cmd(const char* op) {
    live_before = live_n;
    if (!strcmp(op, "cinit")) { LIB(arg_cmd_init()); obs_begin(op); }
    else if (!strcmp(op, "cuninit")) { LIB(arg_cmd_uninit()); obs_begin(op); fprintf(out, ",\"tot\":%ld", live_n); }
    else if (!strcmp(op, "creg")) {
        /* creg name proc desc ctx */
        char *n = str_of(W[1]), *d = str_of(W[3]);
        int p = atoi(W[2]), x = atoi(W[4]);
        size_t ln = strlen(n), ld = strlen(d);
        LIB(arg_cmd_register(n, cmds[p], d, x < 0 ? NULL : ctxs + x));
        memset(n, '#', ln); memset(d, '#', ld); /* the caller may reuse its buffers */
        obs_begin(op);
    } else if (!strcmp(op, "crereg")) {
        /* crereg name proc ctx : re-register with the stored strings */
        arg_cmd_info_t* i;
        int p = atoi(W[2]), x = atoi(W[3]);
        char* n = str_of(W[1]);
        LIB(i = arg_cmd_info(n));
        if (i) LIB(arg_cmd_register(i->name, cmds[p], i->description, x < 0 ? NULL : ctxs + x));
        obs_begin(op);
    } else if (!strcmp(op, "cunreg")) { char* n = str_of(W[1]); LIB(arg_cmd_unregister(n)); obs_begin(op); }
    else if (!strcmp(op, "cinfo")) {
        arg_cmd_info_t* i;
        char* n = str_of(W[1]);
        LIB(i = arg_cmd_info(n));
        obs_begin(op);
        fputs(",\"r\":", out);
        jinfo(i);
    } else if (!strcmp(op, "ccount")) {
        unsigned c;
        LIB(c = arg_cmd_count());
        obs_begin(op);
        fprintf(out, ",\"r\":%u", c);
    } else if (!strcmp(op, "cdispatch")) {
        /* cdispatch name argc argv... */
        char* n = str_of(W[1]);
        int i, c = atoi(W[2]), r;
        char** v = keep(sizeof(char*) * (size_t)(c + 1));
        arg_dstr_t ds;
        for (i = 0; i < c; i++) v[i] = str_of(W[3 + i]);
        v[c] = NULL;
        cmd_calls = 0;
        LIB(ds = arg_dstr_create());
        LIB(r = arg_cmd_dispatch(n, c, v, ds));
        obs_begin(op);
        fprintf(out, ",\"r\":%d,\"calls\":%d,\"id\":%d,\"argc\":%d,\"argv\":%d,\"x\":%d,\"t\":", r, cmd_calls, cmd_id, cmd_argc, cmd_argv == v,
                cmd_ctx == NULL ? -1 : (int)((char*)cmd_ctx - ctxs));
        jbytes(arg_dstr_cstr(ds));
        LIB(arg_dstr_destroy(ds));
    } else if (!strcmp(op, "cscan")) {
        /* a complete iteration: all (key, info) in order; afterwards the iterator stays put */
        arg_cmd_itr_t it;
        int first = 1, more, adv;
        LIB(it = arg_cmd_itr_create());
        obs_begin(op);
        fputs(",\"r\":[", out);
        LIB(more = arg_cmd_count() > 0);
        while (more) {
            char* k;
            arg_cmd_info_t* i;
            LIB(k = arg_cmd_itr_key(it));
            LIB(i = arg_cmd_itr_value(it));
            if (!first) fputc(',', out);
            first = 0;
            fputs("{\"k\":", out);
            jbytes(k);
            fputs(",\"i\":", out);
            jinfo(i);
            fputs("}", out);
            LIB(adv = arg_cmd_itr_advance(it));
            more = adv != 0;
        }
        LIB(adv = arg_cmd_itr_advance(it));
        fprintf(out, "],\"after\":%d", adv);
        LIB(arg_cmd_itr_destroy(it));
    } else if (!strcmp(op, "csearch")) {
        /* position a fresh iterator on a name, list everything from there */
        arg_cmd_itr_t it;
        int first = 1, adv;
        char* n = str_of(W[1]);
        LIB(it = arg_cmd_itr_create());
        LIB(adv = arg_cmd_itr_search(it, n));
        obs_begin(op);
        fprintf(out, ",\"f\":%d,\"r\":[", adv != 0);
        while (adv) {
            char* k;
            LIB(k = arg_cmd_itr_key(it));
            if (!first) fputc(',', out);
            first = 0;
            jbytes(k);
            LIB(adv = arg_cmd_itr_advance(it));
        }
        fputs("]", out);
        LIB(arg_cmd_itr_destroy(it));
    } else if (!strcmp(op, "modname")) {
        char* n = str_of(W[1]);
        LIB(arg_set_module_name(n));
        memset(n, '#', strlen(n));
        obs_begin(op);
    } else if (!strcmp(op, "modver")) {
        char* n = str_of(W[4]);
        LIB(arg_set_module_version(atoi(W[1]), atoi(W[2]), atoi(W[3]), n));
        memset(n, '#', strlen(n));
        obs_begin(op);
    } else if (!strcmp(op, "gethelp") || !strcmp(op, "help") || !strcmp(op, "synerr") || !strcmp(op, "synhelp")) {
        /* each appends to a string that already has contents */
        arg_dstr_t ds;
        int r = 0, x = 77;
        LIB(ds = arg_dstr_create());
        LIB(arg_dstr_cat(ds, "@"));
        if (!strcmp(op, "gethelp")) LIB(arg_make_get_help_msg(ds));
        else if (!strcmp(op, "help")) { char* n = str_of(W[2]); LIB(arg_make_help_msg(ds, n, T[atoi(W[1])].arg)); }
        else if (!strcmp(op, "synerr")) { struct table* t = &T[atoi(W[1])]; LIB(arg_make_syntax_err_msg(ds, t->arg, t->arg[t->n])); }
        else {
            /* synhelp t name help nerrors */
            struct table* t = &T[atoi(W[1])];
            char* n = str_of(W[2]);
            LIB(r = arg_make_syntax_err_help_msg(ds, n, atoi(W[3]), atoi(W[4]), t->arg, t->arg[t->n], &x));
        }
        obs_begin(op);
        fprintf(out, ",\"r\":%d,\"x\":%d,\"t\":", r, x);
        jbytes(arg_dstr_cstr(ds));
        LIB(arg_dstr_destroy(ds));
    }
    obs_end();
}

/* ------------------------------------------------------------ dynamic strings */
#define MAXD 4
static arg_dstr_t D[MAXD];
static int freed_by[4]; /* calls of the custom free functions */
static void* freed_ptr[4];
static void custom_free(int i, char* p) {
    int save = inlib;
    inlib = 0;
    freed_by[i]++;
    freed_ptr[i] = p;
    __wrap_free(p);
    inlib = save;
}
static void free1(char* p) { custom_free(1, p); }
static void free2(char* p) { custom_free(2, p); }
static int dangling[MAXD];
static void obs_dstr(const char* op, int d) {
    obs_begin(op);
    fprintf(out, ",\"f1\":%d,\"f2\":%d", freed_by[1], freed_by[2]);
    if (D[d] && !dangling[d]) {
        fputs(",\"t\":", out);
        jbytes(arg_dstr_cstr(D[d]));
    } else
        fputs(",\"t\":[]", out);
    fprintf(out, ",\"tot\":%ld", live_n);
    obs_end();
}
static void op_dstr(const char* op) {
    int d = atoi(W[1]);
    live_before = live_n;
    freed_by[1] = freed_by[2] = 0;
    if (!strcmp(op, "dcreate")) { LIB(D[d] = arg_dstr_create()); dangling[d] = 0; }
    else if (!strcmp(op, "ddestroy")) { LIB(arg_dstr_destroy(D[d])); D[d] = NULL; }
    else if (!strcmp(op, "dreset")) { LIB(arg_dstr_reset(D[d])); dangling[d] = 0; }
    else if (!strcmp(op, "dfree")) {
        LIB(arg_dstr_free(D[d]));
        dangling[d] = atoi(W[2]); /* the caller knows that it had an owned buffer */
    } else if (!strcmp(op, "dset")) {
        /* dset d mode str : n(ull) s(tatic) v(olatile) d(ynamic) 1 2 (custom) */
        char m = W[2][0];
        if (m == 'n') LIB(arg_dstr_set(D[d], NULL, ARG_DSTR_STATIC));
        else if (m == 's') { char* s = str_of(W[3]); LIB(arg_dstr_set(D[d], s, ARG_DSTR_STATIC)); }
        else if (m == 'v') {
            char* s = str_of(W[3]);
            LIB(arg_dstr_set(D[d], s, ARG_DSTR_VOLATILE));
            memset(s, '#', strlen(s));
        } else if (m == 'd') { char* s = heap_str(W[3]); LIB(arg_dstr_set(D[d], s, ARG_DSTR_DYNAMIC)); }
        else if (m == 'N') LIB(arg_dstr_set(D[d], NULL, ARG_DSTR_DYNAMIC));
        else if (m == 'o') { /* part of its own contents, as volatile */
            char* s = arg_dstr_cstr(D[d]);
            size_t o = (size_t)atoi(W[3]), n = strlen(s);
            LIB(arg_dstr_set(D[d], s + (o < n ? o : n), ARG_DSTR_VOLATILE));
        } else { char* s = heap_str(W[3]); LIB(arg_dstr_set(D[d], s, m == '1' ? free1 : free2)); }
        dangling[d] = 0;
    } else if (!strcmp(op, "dcat")) { char* s = str_of(W[2]); LIB(arg_dstr_cat(D[d], s)); }
    else if (!strcmp(op, "dcatc")) LIB(arg_dstr_catc(D[d], (char)atoi(W[2])));
    else if (!strcmp(op, "dcatf")) {
        /* dcatf d form args : s "%s" | i "<%d>" | w "%-*s|" | m "%s%c%s" | l literal */
        char f = W[2][0];
        if (f == 's') { char* s = str_of(W[3]); LIB(arg_dstr_catf(D[d], "%s", s)); }
        else if (f == 'i') LIB(arg_dstr_catf(D[d], "<%d>", atoi(W[3])));
        else if (f == 'w') { char* s = str_of(W[4]); LIB(arg_dstr_catf(D[d], "%*s|", atoi(W[3]), s)); }
        else if (f == 'm') { char *s = str_of(W[3]), *u = str_of(W[5]); LIB(arg_dstr_catf(D[d], "%s%c%s", s, atoi(W[4]), u)); }
        else if (f == 'l') { char* s = str_of(W[3]); LIB(arg_dstr_catf(D[d], s)); }
        else if (f == 'q') { char *s = str_of(W[3]), *u = str_of(W[4]); LIB(arg_dstr_catf(D[d], s, u)); }
        else LIB(arg_dstr_catf(D[d], NULL));
    } else if (!strcmp(op, "dcut")) { /* the caller shortens the text in place */
        char* s = arg_dstr_cstr(D[d]);
        size_t n = (size_t)atoi(W[2]);
        if (n < strlen(s)) s[n] = 0;
    } else if (!strcmp(op, "dpoke")) { /* the caller overwrites one character */
        char* s = arg_dstr_cstr(D[d]);
        size_t n = (size_t)atoi(W[2]);
        if (n < strlen(s)) s[n] = (char)atoi(W[3]);
    }
    obs_dstr(op, d);
}

/* ---------------------------------------------------------------- hash tables */
#ifndef DRV_AMALG
#define MAXH 3
static arg_hashtable_t* Ht[MAXH];
static arg_hashtable_itr_t* Hi[MAXH];
static unsigned hash_const(const void* k) { (void)k; return 7; }
static unsigned hash_first(const void* k) { return *(const unsigned char*)k; }
static unsigned hash_len(const void* k) { return (unsigned)strlen(k) * 0x9E3779B9u; }
static unsigned hash_djb(const void* k) { const unsigned char* s = k; unsigned h = 5381; while (*s) h = h * 33 + *s++; return h; }
static unsigned hash_max(const void* k) { return 0xFFFFFFFFu - (unsigned)(*(const unsigned char*)k & 3); }
static unsigned (*hashes[])(const void*) = {hash_djb, hash_const, hash_first, hash_len, hash_max};
static int eq_str(const void* a, const void* b) { return strcmp(a, b) ? 0 : 4; }
/* values are heap blocks holding an int, owned by the table */
static void* hval(int v) {
    int* p = __real_malloc(sizeof(int));
    *p = v;
    live_add(p);
    return p;
}
static int hv(void* p) { return p ? *(int*)p : -1; }
static int hcur[MAXH]; /* is the iterator on an entry? */
static void* hvals_kept[8192];
static int n_kept;
static void jcur(int h) {
    if (!Hi[h] || !hcur[h]) { fputs(",\"cur\":[]", out); return; }
    {
        char* k;
        void* v;
        LIB(k = arg_hashtable_itr_key(Hi[h]));
        LIB(v = arg_hashtable_itr_value(Hi[h]));
        fputs(",\"cur\":[{\"k\":", out);
        jbytes(k);
        fprintf(out, ",\"v\":%d}]", hv(v));
    }
}
static void op_hash(const char* op) {
    int h = atoi(W[1]), r = 0;
    live_before = live_n;
    if (!strcmp(op, "hcreate")) { LIB(Ht[h] = arg_hashtable_create((unsigned)strtoul(W[2], NULL, 10), hashes[atoi(W[3])], eq_str)); r = Ht[h] != NULL; }
    else if (!strcmp(op, "hinsert")) { char* k = heap_str(W[2]); void* v = hval(atoi(W[3])); LIB(arg_hashtable_insert(Ht[h], k, v)); }
    else if (!strcmp(op, "hfill")) { /* many new keys at once, then each is looked for */
        int i, v0 = atoi(W[2]);
        for (i = 3; i < nW; i++) { char* k = heap_str(W[i]); void* v = hval(v0 + i - 3); LIB(arg_hashtable_insert(Ht[h], k, v)); }
        for (i = 3; i < nW; i++) { void* v; LIB(v = arg_hashtable_search(Ht[h], str_of(W[i]))); r += hv(v) == v0 + i - 3; }
    }
    else if (!strcmp(op, "hsearch")) { char* k = str_of(W[2]); void* v; LIB(v = arg_hashtable_search(Ht[h], k)); r = hv(v); }
    else if (!strcmp(op, "hremove")) { char* k = str_of(W[2]); LIB(arg_hashtable_remove(Ht[h], k)); }
    else if (!strcmp(op, "hchange")) {
        char* k = str_of(W[2]);
        void* v = hval(atoi(W[3]));
        LIB(r = arg_hashtable_change(Ht[h], k, v));
        if (!r) __wrap_free(v); /* not taken over */
        r = r != 0;
    } else if (!strcmp(op, "hcount")) { unsigned c; LIB(c = arg_hashtable_count(Ht[h])); r = (int)c; }
    else if (!strcmp(op, "hscan")) {
        arg_hashtable_itr_t* it;
        unsigned c;
        int first = 1, more;
        LIB(it = arg_hashtable_itr_create(Ht[h]));
        obs_begin(op);
        fputs(",\"r\":[", out);
        LIB(c = arg_hashtable_count(Ht[h]));
        more = c > 0;
        while (more) {
            char* k;
            void* v;
            LIB(k = arg_hashtable_itr_key(it));
            LIB(v = arg_hashtable_itr_value(it));
            if (!first) fputc(',', out);
            first = 0;
            fputs("{\"k\":", out);
            jbytes(k);
            fprintf(out, ",\"v\":%d}", hv(v));
            LIB(more = arg_hashtable_itr_advance(it));
        }
        LIB(r = arg_hashtable_itr_advance(it));
        fprintf(out, "],\"after\":%d", r);
        LIB(arg_hashtable_itr_destroy(it));
        obs_end();
        return;
    } else if (!strcmp(op, "hitr")) { unsigned c; LIB(Hi[h] = arg_hashtable_itr_create(Ht[h])); LIB(c = arg_hashtable_count(Ht[h])); hcur[h] = c > 0; }
    else if (!strcmp(op, "hadv")) { LIB(r = arg_hashtable_itr_advance(Hi[h])); r = hcur[h] = r != 0; }
    else if (!strcmp(op, "hitrsearch")) { char* k = str_of(W[2]); LIB(r = arg_hashtable_itr_search(Hi[h], Ht[h], k)); r = r != 0; if (r) hcur[h] = 1; }
    else if (!strcmp(op, "hitrmove")) { /* the iterator of table h put on a key of another table */
        int to = atoi(W[2]);
        char* k = str_of(W[3]);
        LIB(r = arg_hashtable_itr_search(Hi[h], Ht[to], k));
        r = r != 0;
        if (r) { Hi[to] = Hi[h]; hcur[to] = 1; Hi[h] = NULL; hcur[h] = 0; h = to; }
    } else if (!strcmp(op, "hitrremove")) {
        if (Hi[h] && hcur[h]) { LIB(r = arg_hashtable_itr_remove(Hi[h])); r = hcur[h] = r != 0; }
    } else if (!strcmp(op, "hitrdestroy")) { LIB(arg_hashtable_itr_destroy(Hi[h])); Hi[h] = NULL; }
    else if (!strcmp(op, "hdestroy")) {
        int fv = atoi(W[2]);
        n_kept = 0;
        if (!fv) { /* the caller keeps the values: collect them first */
            arg_hashtable_itr_t* it;
            unsigned c;
            LIB(c = arg_hashtable_count(Ht[h]));
            LIB(it = arg_hashtable_itr_create(Ht[h]));
            if (c > 0) do { LIB(hvals_kept[n_kept++] = arg_hashtable_itr_value(it)); LIB(r = arg_hashtable_itr_advance(it)); } while (r);
            LIB(arg_hashtable_itr_destroy(it));
        }
        LIB(arg_hashtable_destroy(Ht[h], fv));
        Ht[h] = NULL;
        r = (int)live_n; /* values the table did not release */
        while (n_kept) __wrap_free(hvals_kept[--n_kept]);
    }
    obs_begin(op);
    fprintf(out, ",\"r\":%d", r);
    jcur(h);
    fprintf(out, ",\"tot\":%ld", live_n);
    obs_end();
}
#endif

/* ----------------------------------------------------------------------- sort */
static int sort_desc;
static int cmp_elem(const void* a, const void* b) {
    /* elements compare by their first byte only: the rest tells equal ones apart */
    int x = *(const unsigned char*)a, y = *(const unsigned char*)b;
    return sort_desc ? ((y > x) - (y < x)) * 0x40000000 : x - y;
}
static void op_sort(void) {
    /* sort esize i k desc data... (one byte string per element) */
    int es = atoi(W[1]), i = atoi(W[2]), k = atoi(W[3]), n = nW - 5, j;
    char* a = keep((size_t)(es * n));
    live_before = live_n;
    sort_desc = atoi(W[4]);
    for (j = 0; j < n; j++) memcpy(a + j * es, str_of(W[5 + j]), (size_t)es);
    LIB(arg_mgsort(a, n, es, i, k, cmp_elem));
    obs_begin("sort");
    fputs(",\"r\":[", out);
    for (j = 0; j < n; j++) { if (j) fputc(',', out); jbytes_n(a + j * es, (size_t)es); }
    fputs("]", out);
    obs_end();
}
static void op_libc(void) {
    /* libc words... : the C library's own double for each text */
    int i;
    live_before = live_n;
    obs_begin("libc");
    fputs(",\"r\":[", out);
    for (i = 1; i < nW; i++) {
        char *s = str_of(W[i]), *e;
        double d = strtod(s, &e);
        if (i > 1) fputc(',', out);
        jdbl(d);
    }
    fputs("]", out);
    obs_end();
}

/* --------------------------------------------------------------------- faults */
extern void arg_set_panic(void (*)(const char*, ...));
static void on_panic(const char* fmt, ...) {
    char b[512];
    int n;
    va_list ap;
    va_start(ap, fmt);
    b[0] = 'P';
    n = vsnprintf(b + 1, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (write(fault_fd, b, (size_t)n + 1) != n + 1) _exit(95);
    _exit(0);
}
static void run_op(void);
static void op_faults(void) {
    /* faults MODE op... : the op again and again in processes of their own, its 1st, 2nd, ... allocation failing,
       until none fails. MODE: c own panic handler, d default one, a default one with EF_DUMPCORE=1, e with it empty */
    char mode = W[1][0];
    int k, i, first = 1;
    obs_begin("faults");
    fputs(",\"r\":[", out);
    for (i = 2; i < nW; i++) W[i - 2] = W[i];
    nW -= 2;
    fflush(out);
    for (k = 1; k < 2000; k++) {
        int ev[2], er[2], st = 0, ne = 0, nt = 0, r;
        static char eb[8192], tb[65536];
        pid_t pid;
        if (pipe(ev) || pipe(er)) _exit(94);
        pid = fork();
        if (pid == 0) {
            struct rlimit rl = {0, 0};
            close(ev[0]); close(er[0]);
            close(fileno(in)); /* exit() would move the offset we share */
            setrlimit(RLIMIT_CORE, &rl);
            dup2(er[1], 2);
            signal(SIGABRT, SIG_DFL);
            if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)2);
            fault_fd = ev[1];
            out = fopen("/dev/null", "w");
            if (mode == 'c') arg_set_panic(on_panic);
            if (mode == 'a') setenv("EF_DUMPCORE", "1", 1);
            else if (mode == 'e') setenv("EF_DUMPCORE", "", 1);
            else unsetenv("EF_DUMPCORE");
            {
                struct itimerval tv;
                memset(&tv, 0, sizeof tv);
                tv.it_value.tv_sec = 10;
                setitimer(ITIMER_PROF, &tv, NULL);
                alarm(120);
            }
            alloc_calls = 0;
            failed = 0;
            fail_at = k;
            run_op();
            if (write(fault_fd, "R", 1) != 1) _exit(95);
            _exit(0);
        }
        close(ev[1]); close(er[1]);
        while (ne < (int)sizeof eb && (r = (int)read(ev[0], eb + ne, sizeof eb - (size_t)ne)) > 0) ne += r;
        while (nt < (int)sizeof tb && (r = (int)read(er[0], tb + nt, sizeof tb - (size_t)nt)) > 0) nt += r;
        close(ev[0]); close(er[0]);
        waitpid(pid, &st, 0);
        fprintf(out, "%s{\"ev\":", first ? "" : ",");
        first = 0;
        jbytes_n(eb, (size_t)ne);
        fputs(",\"err\":", out);
        jbytes_n(tb, (size_t)(nt > 300 ? 300 : nt));
        fprintf(out, ",\"code\":%d,\"sig\":%d}", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        fflush(out);
        if (ne == 1 && eb[0] == 'R') break;
    }
    fputs("]", out);
    live_before = live_n;
    obs_end();
}

/* ---------------------------------------------------------------------- cases */
static void run_op(void) {
    const char* op = W[0];
    if (strcmp(op, "E") && strcmp(op, "tdone")) io_before = io_size(); /* a table is built as a whole */
    if (!strcmp(op, "faults")) op_faults();
    else if (!strcmp(op, "T")) { if (nT == MAXT) { fprintf(stderr, "driver: too many tables\n"); _exit(99); } memset(&T[nT], 0, sizeof T[nT]); T[nT].used = 1; nT++; }
    else if (!strcmp(op, "E")) mk_entry(&T[nT - 1]);
    else if (!strcmp(op, "tdone")) {
        live_before = live_n;
        obs_begin(op);
        fputc(',', out);
        dump_headers(&T[nT - 1]);
        dump_table(&T[nT - 1]);
        obs_end();
    }
    else if (!strcmp(op, "env")) { if (atoi(W[1])) setenv("POSIXLY_CORRECT", "1", 1); else unsetenv("POSIXLY_CORRECT"); }
    else if (!strcmp(op, "parse")) op_parse();
    else if (!strcmp(op, "preset")) op_preset();
    else if (!strcmp(op, "gopen")) op_gopen();
    else if (!strcmp(op, "gcall")) op_gcall();
    else if (!strcmp(op, "errors") || !strcmp(op, "syntax") || !strcmp(op, "syntaxv") || !strcmp(op, "glossary") || !strcmp(op, "gnu") || !strcmp(op, "option") ||
             !strcmp(op, "formatted"))
        op_text(op);
    else if (!strcmp(op, "freetable") || !strcmp(op, "argfree")) op_free(op);
    else if (!strcmp(op, "nullcheck")) op_nullcheck();
    else if (!strcmp(op, "tables")) { /* what all the tables hold */
        int i;
        live_before = live_n;
        obs_begin(op);
        fputs(",\"tabs\":[", out);
        for (i = 0; i < nT; i++) {
            fputs(i ? ",{" : "{", out);
            dump_table(&T[i]);
            fputc('}', out);
        }
        fputc(']', out);
        obs_end();
    }
    else if (!strcmp(op, "sort")) op_sort();
    else if (!strcmp(op, "libc")) op_libc();
    else if (op[0] == 'd') op_dstr(op);
#ifndef DRV_AMALG
    else if (op[0] == 'h' && strcmp(op, "help")) op_hash(op);
#endif
    else op_cmd(op);
}
static void end_case(void) {
    while (n_case_mem) __real_free(case_mem[--n_case_mem]);
    memset(T, 0, sizeof T);
    nT = nP = n_shared = nO = 0;
    memset(D, 0, sizeof D);
    memset(live_ptr, 0, sizeof live_ptr);
    live_n = 0;
    alloc_calls = 0;
}

int main(int argc, char** argv) {
    long first, last, id = -1;
    int on = 0, tmo, forked = 0;
    struct itimerval tv;
    if (argc < 4) return 98;
    in = fopen(argv[1], "r");
    first = atol(argv[2]);
    last = atol(argv[3]);
    tmo = argc > 4 ? atoi(argv[4]) : 10;
    out = fdopen(dup(1), "w"); /* ours alone */
    true_err = dup(2);
    program_invocation_short_name = "prog"; /* what warnx() says */
    io_fd = memfd_create("io", MFD_CLOEXEC);
    if (!in || !out || true_err < 0 || io_fd < 0 || dup2(io_fd, 1) < 0 || dup2(io_fd, 2) < 0) return 98;
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)true_err);
    signal(SIGABRT, on_abort);
    while (readline_words()) {
        if (!nW) continue;
        if (!strcmp(W[0], "C")) {
            id++;
            on = id >= first && id <= last;
            if (id > last) break;
            if (on) {
                fprintf(out, "B %ld\n", id);
                fflush(out);
                cap_n = 0;
                memset(&tv, 0, sizeof tv);
                tv.it_value.tv_sec = tmo; /* processor time */
                if (nW > 1 && W[1][0] == 'f') { /* a process of its own: library globals are fresh */
                    long pos = ftell(in);
                    pid_t pid;
                    fflush(out);
                    pid = fork();
                    if (pid) {
                        int st = 0;
                        waitpid(pid, &st, 0);
                        if (!WIFEXITED(st) || WEXITSTATUS(st)) return 96;
                        fseek(in, pos, SEEK_SET);
                        on = 0;
                        continue;
                    }
                    forked = 1;
                    in = fopen(argv[1], "r"); /* do not share the file offset */
                    fseek(in, pos, SEEK_SET);
                }
                setitimer(ITIMER_PROF, &tv, NULL);
            }
        } else if (!strcmp(W[0], "X")) {
            if (on) {
                end_case();
                fprintf(out, "X %ld\n", id);
                fflush(out);
                if (forked) _exit(0);
            }
        } else if (on)
            run_op();
    }
    return 0;
}
