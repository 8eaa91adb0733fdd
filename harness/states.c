/* C14: runs histories of libtcc calls over several states.
   request: u8 nmodes, then modes (255 = everything, k = only the commands of slot k, each in a process of its own),
   u32 length and the commands.  Reply: per mode u8 how (0 ended, 1 killed, 2 time), u32 code, then for each of the 8
   slots u32 length and the log; u32 length and stderr.
   command: u8 op, u8 slot, u8 nargs, args as u32 length and bytes. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <execinfo.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include "libtcc.h"

#define SLOTS 8
#define LOG (1 << 18)
struct slot { TCCState *s; int bad; unsigned len; char log[LOG]; };
static struct slot *sl;
static int only;
static const char *lib;

static void put(int k, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    struct slot *p = &sl[k];
    int n = vsnprintf(p->log + p->len, LOG - p->len, fmt, ap);
    va_end(ap);
    p->len += n;
    if (p->len >= LOG) p->len = LOG - 1;
}
static void onerr(void *o, const char *m) { put((struct slot *)o - sl, "msg %s\n", m); }
static void onerr2(void *o, const char *m) { put((struct slot *)o - sl, "MSG %s\n", m); }

/* functions of the host */
static __thread const unsigned char *nest;
static __thread unsigned nestlen;
static void commands(const unsigned char *p, unsigned len, int slot);
static int host0(int x) { return x * 3 + 1; }
static int host1(int x) { return x ^ 0x55; }
static int host2(int x) { return 7 - x; }
static int host_nest(int x) {
    const unsigned char *p = nest;
    unsigned n = nestlen;
    nest = 0; nestlen = 0;
    if (p) commands(p, n, -1);
    return x + 5;
}
static int hostvar = 4711;
static const void *host[] = { host0, host1, host2, host_nest, &hostvar };

static unsigned u32(const unsigned char *p) { unsigned v; memcpy(&v, p, 4); return v; }

struct list { char *n[4000]; int c; };
static void onsym(void *ctx, const char *name, const void *val) {
    struct list *l = ctx;
    if (l->c < 4000) l->n[l->c++] = strdup(name);
}
static int bystr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }

static void hashfile(int k, const char *n) {
    uint64_t h = 1469598103934665603ull;
    unsigned long len = 0;
    unsigned char b[65536];
    int r, fd = open(n, O_RDONLY);
    if (fd < 0) { put(k, "file none\n"); return; }
    while ((r = read(fd, b, sizeof b)) > 0) {
        len += r;
        for (int i = 0; i < r; i++) h = (h ^ b[i]) * 1099511628211ull;
    }
    close(fd);
    put(k, "file %lu %016llx\n", len, (unsigned long long)h);
}

static void one(int op, int k, int na, char **a, unsigned *al) {
    struct slot *p = &sl[k];
    TCCState *s = p->s;
    void *v;
    put(k, "\001\n");
    if (op == 'n') {
        s = p->s = tcc_new();
        p->bad = 0;
        put(k, "new %d\n", s != 0);
        tcc_set_lib_path(s, lib);
        tcc_set_error_func(s, p, onerr);
        return;
    }
    if (!s) { put(k, "no state\n"); return; }
    if (p->bad && op != 'D' && op != 'e') { put(k, "skipped\n"); return; }     /* only good for deletion */
    switch (op) {
    case 'D': tcc_delete(s); p->s = 0; put(k, "delete\n"); break;
    case 't': put(k, "type %d\n", tcc_set_output_type(s, atoi(a[0]))); break;
    case 'e': tcc_set_error_func(s, p, onerr2); break;
    case 'd': tcc_define_symbol(s, a[0], na > 1 ? a[1] : 0); break;
    case 'u': tcc_undefine_symbol(s, a[0]); break;
    case 'i': put(k, "inc %d\n", tcc_add_include_path(s, a[0])); break;
    case 'y': put(k, "sysinc %d\n", tcc_add_sysinclude_path(s, a[0])); break;
    case 'o': put(k, "opt %d\n", tcc_set_options(s, a[0])); break;
    case 's': put(k, "sym %d\n", tcc_add_symbol(s, a[0], host[atoi(a[1])])); break;
    case 'c': put(k, "compile %d\n", p->bad = tcc_compile_string(s, a[0])); break;
    case 'f': put(k, "file %d\n", p->bad = tcc_add_file(s, a[0])); break;
    case 'L': put(k, "libpath %d\n", tcc_add_library_path(s, a[0])); break;
    case 'l': put(k, "lib %d\n", tcc_add_library(s, a[0])); break;
    case 'r': put(k, "relocate %d\n", tcc_relocate(s)); break;
    case 'g': put(k, "get %s %d\n", a[0], tcc_get_symbol(s, a[0]) != 0); break;
    case 'x':
        v = tcc_get_symbol(s, a[0]);
        if (!v) { put(k, "call %s none\n", a[0]); break; }
        if (na > 2) { nest = (unsigned char *)a[2]; nestlen = al[2]; }
        int r = ((int (*)(int))v)(atoi(a[1]));
        put(k, "call %s %d\n", a[0], r);
        nest = 0;
        break;
    case 'v':
        v = tcc_get_symbol(s, a[0]);
        if (v) put(k, "var %s %d\n", a[0], *(int *)v); else put(k, "var %s none\n", a[0]);
        break;
    case 'w':
        v = tcc_get_symbol(s, a[0]);
        if (v) *(int *)v = atoi(a[1]);
        break;
    case 'b': {
        struct list *l = calloc(1, sizeof *l);
        tcc_list_symbols(s, l, onsym);
        qsort(l->n, l->c, sizeof *l->n, bystr);
        put(k, "list");
        for (int i = 0; i < l->c; i++) { if (l->n[i][0] != '_') put(k, " %s", l->n[i]); free(l->n[i]); }
        put(k, "\n");
        free(l);
        break; }
    case 'R':
        if (na > 16) na = 16;
        if (na && !strcmp(a[0], "nest")) {
            /* first argument: commands to run inside */
            nest = (unsigned char *)a[1]; nestlen = al[1];
            a += 2; na -= 2;
        }
        a[na] = 0;
        put(k, "run %d\n", tcc_run(s, na, a));
        nest = 0;
        break;
    case 'O':
        unlink(a[0]);
        put(k, "output %d\n", tcc_output_file(s, a[0]));
        hashfile(k, a[0]);
        unlink(a[0]);
        break;
    }
}

struct job { const unsigned char *p; unsigned len; int slot; };
static void *work(void *x) { struct job *j = x; commands(j->p, j->len, j->slot); return 0; }

static void commands(const unsigned char *p, unsigned len, int slot) {
    const unsigned char *e = p + len;
    while (p < e) {
        int op = p[0], k = p[1], na = p[2], i;
        char *a[24];
        unsigned al[24];
        p += 3;
        for (i = 0; i < na; i++) {
            al[i] = u32(p);
            a[i] = malloc(al[i] + 1);
            memcpy(a[i], p + 4, al[i]);
            a[i][al[i]] = 0;
            p += 4 + al[i];
        }
        if (op == 'P') {
            /* argument: commands, a thread for each slot named in the second one */
            struct job j[SLOTS];
            pthread_t t[SLOTS];
            for (i = 0; i < (int)al[1]; i++) {
                j[i].p = (unsigned char *)a[0]; j[i].len = al[0]; j[i].slot = a[1][i] - '0';
                if (only == 255) pthread_create(&t[i], 0, work, &j[i]); else work(&j[i]);
            }
            if (only == 255) for (i = 0; i < (int)al[1]; i++) pthread_join(t[i], 0);
        } else if ((only == 255 || only == k) && (slot < 0 || slot == k))
            one(op, k, na, a, al);
        else if (op == 'x' && na > 2 && slot < 0)
            commands((unsigned char *)a[2], al[2], -1);
        else if (op == 'R' && na > 2 && slot < 0 && !strcmp(a[0], "nest"))
            commands((unsigned char *)a[1], al[1], -1);
        for (i = 0; i < na && op != 'R'; i++) free(a[i]);
    }
}

#ifdef TRACE
static void trace(int n) {
    void *b[40];
    backtrace_symbols_fd(b, backtrace(b, 40), 2);
    signal(n, SIG_DFL);
    raise(n);
}
#endif

static void full(int fd, void *p, unsigned n) {
    while (n) {
        int r = fd ? write(fd, p, n) : read(fd, p, n);
        if (r <= 0) _exit(0);
        p = (char *)p + r; n -= r;
    }
}

int main(int argc, char **argv) {
    lib = argv[1];
    int secs = atoi(argv[2]);
    sl = mmap(0, sizeof(struct slot) * SLOTS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char errname[] = "/tmp/vf-states-XXXXXX";
    int errfd = mkstemp(errname);
    unlink(errname);
    for (;;) {
        unsigned n;
        full(0, &n, 4);
        unsigned char *q = malloc(n);
        full(0, q, n);
        int nm = q[0];
        unsigned len = u32(q + 1 + nm);
        for (int m = 0; m < nm; m++) {
            for (int i = 0; i < SLOTS; i++) sl[i].s = 0, sl[i].len = 0;
            if (ftruncate(errfd, 0)) return 3;
            lseek(errfd, 0, SEEK_SET);
            only = q[1 + m];
            pid_t c = fork();
            if (!c) {
                dup2(errfd, 2);
                int z = open("/dev/null", O_RDWR);
                dup2(z, 0); dup2(z, 1);
                setpgid(0, 0);
                alarm(secs);
#ifdef TRACE
                signal(SIGABRT, trace); signal(SIGSEGV, trace); signal(SIGBUS, trace); signal(SIGFPE, trace); signal(SIGILL, trace);
#endif
                commands(q + 5 + nm, len, -1);
                for (int i = 0; i < SLOTS; i++) if (sl[i].s) { tcc_delete(sl[i].s); sl[i].s = 0; }
                fflush(0);
                _exit(0);
            }
            int st;
            waitpid(c, &st, 0);
            unsigned char how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? 2 : 1) : 0;
            unsigned code = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), l;
            full(1, &how, 1);
            full(1, &code, 4);
            for (int i = 0; i < SLOTS; i++) { l = sl[i].len; full(1, &l, 4); full(1, sl[i].log, l); }
            static char eb[20000];
            l = pread(errfd, eb, sizeof eb, 0);
            full(1, &l, 4); full(1, eb, l);
        }
        free(q);
    }
}
