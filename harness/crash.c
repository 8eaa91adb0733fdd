// LD_PRELOAD shim: kill or fail the VF_AT-th file operation after the asset folder is first touched
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

static int on, n, at = -1, mode, mypid;
static void init(void) {
    if (at >= 0) return;
    const char *s = getenv("VF_AT");
    at = s ? atoi(s) : 0;
    s = getenv("VF_MODE");
    mode = s ? *s : 'k';
    mypid = getpid();
}
static void touch(const char *path) {
    const char *p = getenv("VF_DIR");
    if (!on && p && path && !strncmp(path, p, strlen(p))) on = 1;
}
// 1 = make the call fail
static int hit(void) {
    init();
    if (!on || getpid() != mypid) return 0;
    if (++n != at) {
        if (mode == 's' && n < 40) usleep((n * 7919 + at * 104729) % 900);
        return 0;
    }
    if (mode == 'k') { kill(mypid, SIGKILL); for (;;) pause(); }
    return mode == 'f' || mode == 'h';
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
int mkdir(const char *p, mode_t m) { REAL(mkdir); init(); touch(p); if (hit() && mode == 'f') { errno = ENOSPC; return -1; } return real(p, m); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); touch(p); if (hit() && mode == 'f') { errno = EMFILE; return 0; } return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); touch(p); if (hit() && mode == 'f') { errno = EMFILE; return 0; } return real(p, m); }
int open(const char *p, int fl, ...) { REAL(open); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); touch(p); if (hit() && mode == 'f') { errno = EMFILE; return -1; } return real(p, fl, m); }
int open64(const char *p, int fl, ...) { REAL(open64); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); touch(p); if (hit() && mode == 'f') { errno = EMFILE; return -1; } return real(p, fl, m); }
size_t fwrite(const void *b, size_t s, size_t k, FILE *f) {
    REAL(fwrite);
    int h = f != stdout && f != stderr ? hit() : 0;
    if (h && mode == 'h') { real(b, s, k / 2, f); fflush(f); kill(mypid, SIGKILL); for (;;) pause(); }
    if (h && mode == 'f') { k = real(b, s, k / 2, f); errno = ENOSPC; return k; }
    return real(b, s, k, f);
}
int fclose(FILE *f) { REAL(fclose); int h = hit(); int r = real(f); if (h && mode == 'f') { errno = ENOSPC; return EOF; } return r; }
ssize_t write(int fd, const void *b, size_t k) {
    REAL(write);
    int h = fd > 2 ? hit() : 0;
    if (h && mode == 'h') { real(fd, b, k / 2); kill(mypid, SIGKILL); for (;;) pause(); }
    if (h && mode == 'f') { errno = ENOSPC; return -1; }
    return real(fd, b, k);
}
int rename(const char *a, const char *b) { REAL(rename); if (hit() && mode == 'f') { errno = EIO; return -1; } return real(a, b); }
int unlink(const char *a) { REAL(unlink); if (hit() && mode == 'f') { errno = EIO; return -1; } return real(a); }
