/* runs a program through the libtcc interface:
   tccrun LIBPATH how file...   how: f = files, s = strings, r = tcc_run, o = add objects and files */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libtcc.h"

static char *load(const char *n) {
    FILE *f = fopen(n, "rb");
    long len;
    char *b;
    if (!f) exit(120);
    fseek(f, 0, SEEK_END); len = ftell(f); rewind(f);
    b = malloc(len + 1);
    if (fread(b, 1, len, f) != (size_t)len) exit(120);
    b[len] = 0;
    fclose(f);
    return b;
}

int main(int argc, char **argv) {
    TCCState *s = tcc_new();
    int i;
    int (*entry)(int, char **);
    char *args[] = {"prog", 0};
    if (!s) return 121;
    tcc_set_lib_path(s, argv[1]);
    tcc_set_output_type(s, TCC_OUTPUT_MEMORY);
    for (i = 3; i < argc; i++) {
        if (strchr(argv[2], 's')) {
            char *b = load(argv[i]);
            if (tcc_compile_string(s, b) < 0) return 122;
            free(b);
        } else if (tcc_add_file(s, argv[i]) < 0)
            return 122;
    }
    tcc_add_library(s, "m");
    if (strchr(argv[2], 'r')) {
        i = tcc_run(s, 1, args);
        exit(i);
    }
    if (tcc_relocate(s) < 0) return 123;
    entry = (int (*)(int, char **))tcc_get_symbol(s, "main");
    if (!entry) return 124;
    i = entry(1, args);
    exit(i);
}
