/* Request/reply driver for the archive code: gunzip and untar. See complib.c. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <signal.h>
#include <sys/resource.h>
#include <tinf.h>
#include <muntar.h>

static uint8_t *rq; static uint32_t rqlen, rqpos;
static uint8_t *rp; static uint32_t rplen, rpcap;
static uint32_t g32(void) { uint32_t v; memcpy(&v, rq + rqpos, 4); rqpos += 4; return v; }
static uint8_t g8(void) { return rq[rqpos++]; }
static uint8_t *gb(uint32_t *n) { *n = g32(); uint8_t *s = malloc(*n ? *n : 1); memcpy(s, rq + rqpos, *n); rqpos += *n; return s; }
static char *gs(void) { uint32_t n = g32(); char *s = malloc(n + 1); memcpy(s, rq + rqpos, n); s[n] = 0; rqpos += n; return s; }
static void put(const void *p, uint32_t n) {
    if (rplen + n > rpcap) { rpcap = (rplen + n) * 2; rp = realloc(rp, rpcap); }
    memcpy(rp + rplen, p, n); rplen += n;
}
static void p32(uint32_t v) { put(&v, 4); }
static void pb(const void *p, uint32_t n) { p32(n); put(p, n); }

static void list(uint8_t *buf, uint32_t n, uint32_t chunk) {
    mtar_t tar; const mtar_header_t *h = NULL;
    int res = mtar_load(&tar, "buf", buf, n);
    p32(res); uint32_t at = rplen; p32(0); uint32_t cnt = 0;
    if (res == MTAR_ESUCCESS)
        while (!mtar_eof(&tar) && cnt < 4096) {
            if (mtar_header(&tar, &h) != MTAR_ESUCCESS) break;
            pb(h->path, strlen(h->path)); pb(h->name, strlen(h->name)); pb(h->linkname, strlen(h->linkname));
            p32(h->type); p32(h->mode); p32(h->uid); p32(h->gid); p32(h->mtime);
            p32((uint32_t)h->size); p32((uint32_t)(h->size >> 32));
            /* contents, in pieces */
            uint32_t cat = rplen, tot = 0; p32(0);
            if (chunk && h->size < (1 << 24))
                while (!mtar_entry_eof(&tar)) {
                    uint8_t *t = malloc(chunk); int r = mtar_entry_read(&tar, t, chunk);
                    if (r > 0) { put(t, r); tot += r; }
                    free(t); if (r <= 0) break;
                }
            memcpy(rp + cat, &tot, 4);
            cnt++; mtar_next(&tar);
        }
    memcpy(rp + at, &cnt, 4);
}

int main(void) {
    for (;;) {
        uint32_t n;
        if (fread(&n, 4, 1, stdin) != 1) break;
        rq = malloc(n); if (fread(rq, 1, n, stdin) != n) break;
        rqlen = n; rqpos = 0; rplen = 0;
        uint8_t op = g8();
        if (op == 1) {
            uint32_t cap = g32(), sl; uint8_t *s = gb(&sl);
            uint8_t *d = malloc(cap ? cap : 1); memset(d, 0xA5, cap);
            unsigned int dl = cap;
            int r = tinf_gzip_uncompress(d, &dl, s, sl);
            p32(r); p32(dl); if (r == TINF_OK && dl <= cap) pb(d, dl); else pb("", 0);
            free(d); free(s);
        } else if (op == 4) {
            uint32_t chunk = g32(), sl; uint8_t *s = gb(&sl);
            list(s, sl, chunk); free(s);
        } else { /* 5: as 2 with a limit on the size of files; 2: tar -> path, 3: tar.gz -> path; in a child that owns only its scratch folder */
            uint32_t limit = op == 5 ? g32() : 64 << 20;
            char *cwd = gs(), *dir = gs(); uint32_t sl; uint8_t *s = gb(&sl);
            fflush(stdout);
            int p[2]; if (pipe(p)) abort();
            pid_t pid = fork();
            if (!pid) {
                dup2(p[1], 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(p[0]);
                struct rlimit rl = {limit, limit}; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN);
                alarm(20);
                if (chdir(cwd)) _exit(77);
                if (getuid() == 0) { if (setgid(65534) || setuid(65534)) _exit(77); }
                int r = op != 3 ? muntar_to_path(dir, s, sl) : muntargz_to_path(dir, s, sl);
                _exit(r == 0 ? 0 : 1);
            }
            close(p[1]); char err[4096]; int el = 0, k;
            while ((k = read(p[0], err + el, sizeof err - el)) > 0) { el += k; if (el == sizeof err) break; }
            close(p[0]);
            int st = 0; waitpid(pid, &st, 0);
            p32(WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); pb(err, el);
            free(s); free(cwd); free(dir);
        }
        free(rq);
        fwrite(&rplen, 4, 1, stdout); fwrite(rp, 1, rplen, stdout); fflush(stdout);
    }
    return 0;
}
