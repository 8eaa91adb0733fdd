/* compiles the files named on standard input, each in a process of its own:
   fuzzdrv LIBPATH WORKDIR SECONDS MEGABYTES
   input line:  MODE path     mode: o = to an object, m = relocate in memory, x = to an executable, E = preprocess, with 'b' bounds
                              checking, 'g' debug information, 'w' all warnings, 't' backtraces, 'a' assembly, 'A' assembly to be preprocessed
   output:      R kind code hash len\n and len bytes of standard error   (kind e = exit, s = signal, t = timeout) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include "libtcc.h"

static int one(const char *lib, const char *mode, const char *path, const char *out) {
    TCCState *s = tcc_new();
    int r;
    if (!s) return 121;
    tcc_set_lib_path(s, lib);
    if (strchr(mode, 'w')) tcc_set_options(s, "-Wall -Wunsupported -Wwrite-strings");
    if (strchr(mode, 'g')) tcc_set_options(s, "-g");
    if (strchr(mode, 'b')) tcc_set_options(s, "-b");
    if (strchr(mode, 't')) tcc_set_options(s, "-bt");
    r = strchr(mode, 'E') ? TCC_OUTPUT_PREPROCESS : strchr(mode, 'm') ? TCC_OUTPUT_MEMORY : strchr(mode, 'x') ? TCC_OUTPUT_EXE : strchr(mode, 'd') ? TCC_OUTPUT_DLL : TCC_OUTPUT_OBJ;
    tcc_set_output_type(s, r);
    if (tcc_add_file(s, path) < 0) { tcc_delete(s); return 1; }
    if (r == TCC_OUTPUT_MEMORY) r = tcc_relocate(s);
    else if (r != TCC_OUTPUT_PREPROCESS) r = tcc_output_file(s, out);
    else r = 0;
    tcc_delete(s);
    return r < 0 ? 2 : 0;
}

int main(int argc, char **argv) {
    char line[4096], out[4096], err[4096], mode[64];
    int secs = atoi(argv[3]), mb = atoi(argv[4]);
    snprintf(out, sizeof out, "%s/out", argv[2]);
    snprintf(err, sizeof err, "%s/err", argv[2]);
    signal(SIGPIPE, SIG_DFL);
    while (fgets(line, sizeof line, stdin)) {
        char *p = strchr(line, ' '), *q = strchr(line, '\n');
        int st, kind, code, n, i;
        unsigned long h = 14695981039346656037ul;
        static char buf[1 << 16];
        pid_t pid;
        if (!p || !q) return 3;
        *q = 0; *p++ = 0;
        unlink(out);
        fflush(stdout);
        pid = fork();
        if (!pid) {
            int fd = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open("/dev/null", O_RDWR);
            struct rlimit rl = { secs, secs + 1 }, as = { (unsigned long)mb << 20, (unsigned long)mb << 20 }, fs = { 1 << 28, 1 << 28 }, co = { 0, 0 };
            dup2(fd, 2);
            dup2(z, 0);
            dup2(fd, 1);
            setrlimit(RLIMIT_CPU, &rl);
            if (mb) setrlimit(RLIMIT_AS, &as);
            setrlimit(RLIMIT_FSIZE, &fs);
            setrlimit(RLIMIT_CORE, &co);
            alarm(secs * 4);
            st = one(argv[1], line, p, out);
            fflush(stdout);
            fflush(stderr);
            _exit(st);
        }
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) kind = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL ? 't' : 's', code = WTERMSIG(st);
        else kind = 'e', code = WEXITSTATUS(st);
        n = open(out, O_RDONLY);
        if (n >= 0) {
            while ((i = read(n, buf, sizeof buf)) > 0)
                for (char *c = buf; i--; c++) h = (h ^ (unsigned char)*c) * 1099511628211ul;
            close(n);
        } else h = 0;
        n = open(err, O_RDONLY);
        i = n < 0 ? 0 : read(n, buf, sizeof buf);
        if (n >= 0) close(n);
        if (i < 0) i = 0;
        printf("R %c %d %lx %d\n", kind, code, h, i);
        fwrite(buf, 1, i, stdout);
        fflush(stdout);
    }
    return 0;
}
