/* Request/reply driver for cjit's small libraries (cwalk, xarray).
 * stdin: requests  [u32 total][u8 op][args...]; stdout: replies [u32 len][bytes].
 * Every buffer handed to the code under test is an exactly sized heap block,
 * so the sanitizers see any access past it.                                */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <cwalk.h>
#include <array.h>

void _err(const char *fmt, ...) { }
void _out(const char *fmt, ...) { }

static uint8_t *rq; static uint32_t rqlen, rqpos;
static uint8_t *rp; static uint32_t rplen, rpcap;

static uint32_t g32(void) { uint32_t v; memcpy(&v, rq + rqpos, 4); rqpos += 4; return v; }
static uint8_t g8(void) { return rq[rqpos++]; }
static char *gs(void) { uint32_t n = g32(); char *s = malloc(n + 1); memcpy(s, rq + rqpos, n); s[n] = 0; rqpos += n; return s; }
static uint8_t *gb(uint32_t *n) { *n = g32(); uint8_t *s = malloc(*n ? *n : 1); memcpy(s, rq + rqpos, *n); rqpos += *n; return s; }
static void put(const void *p, uint32_t n) {
    if (rplen + n > rpcap) { rpcap = (rplen + n) * 2; rp = realloc(rp, rpcap); }
    memcpy(rp + rplen, p, n); rplen += n;
}
static void p32(uint32_t v) { put(&v, 4); }
static void pb(const void *p, uint32_t n) { p32(n); put(p, n); }

/* output buffer: size bs, either separate or the (enlarged) path itself */
static char *obuf(uint32_t bs) { char *b = malloc(bs ? bs : 1); memset(b, 0xAA, bs); return b; }
static void reply_buf(size_t ret, const char *b, uint32_t bs) {
    p32((uint32_t)ret);
    if (!bs) { pb("", 0); return; }
    size_t n = strnlen(b, bs);
    p32(n < bs); pb(b, n);
}

static void segdump(struct cwk_segment *s, const char *base) {
    p32(s->begin - base); p32(s->end - base); p32(s->size);
    p32(cwk_path_get_segment_type(s));
}

static void do_path(uint8_t op) {
    uint8_t style = g8();
    cwk_path_set_style(style ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX);
    char *a = gs(), *b = gs();
    uint32_t bs = g32(); uint8_t alias = g8();
    char *out = NULL; size_t ret = 0, len = 777;
    char *src = a;
    if (alias) { /* buffer is the path: block of max(bs, strlen+1) bytes */
        size_t need = strlen(a) + 1; if (bs > need) need = bs;
        src = malloc(need); strcpy(src, a); out = src;
    } else out = obuf(bs);
    switch (op) {
    case 1: ret = cwk_path_normalize(src, out, bs); reply_buf(ret, out, bs); break;
    case 2: ret = cwk_path_join(src, b, out, bs); reply_buf(ret, out, bs); break;
    case 3: ret = cwk_path_get_absolute(src, b, out, bs); reply_buf(ret, out, bs); break;
    case 4: ret = cwk_path_get_relative(src, b, out, bs); reply_buf(ret, out, bs); break;
    case 5: ret = cwk_path_change_root(src, b, out, bs); reply_buf(ret, out, bs); break;
    case 6: ret = cwk_path_change_basename(src, b, out, bs); reply_buf(ret, out, bs); break;
    case 7: ret = cwk_path_change_extension(src, b, out, bs); reply_buf(ret, out, bs); break;
    case 8: { const char *bn = NULL; cwk_path_get_basename(src, &bn, &len);
        p32(bn != NULL); p32(bn ? bn - src : 0); p32(len);
        const char *bn2 = src; cwk_path_get_basename(src, &bn2, NULL); p32(bn2 == bn); break; }
    case 9: cwk_path_get_dirname(src, &len); p32(len); break;
    case 10: { const char *e = NULL; bool r = cwk_path_get_extension(src, &e, &len);
        p32(r); p32(e ? e - src : 0); p32(len); p32(cwk_path_has_extension(src)); break; }
    case 11: cwk_path_get_root(src, &len); p32(len); p32(cwk_path_is_absolute(src)); p32(cwk_path_is_relative(src)); break;
    case 12: p32(cwk_path_get_intersection(src, b)); break;
    case 13: { struct cwk_segment s; int n = 0; uint32_t at = rplen; p32(0);
        if (cwk_path_get_first_segment(src, &s)) { do { segdump(&s, src); n++; } while (cwk_path_get_next_segment(&s)); }
        memcpy(rp + at, &n, 4); at = rplen; p32(0); n = 0;
        if (cwk_path_get_last_segment(src, &s)) { do { segdump(&s, src); n++; } while (cwk_path_get_previous_segment(&s)); }
        memcpy(rp + at, &n, 4); break; }
    case 14: p32(cwk_path_guess_style(src)); break;
    case 15: { uint32_t idx = strlen(b) ? b[0] - '0' : 0; struct cwk_segment s; bool ok = cwk_path_get_first_segment(src, &s);
        for (; ok && idx; idx--) if (!cwk_path_get_next_segment(&s)) break;
        p32(ok); if (ok) { ret = cwk_path_change_segment(&s, b + 1, out, bs); reply_buf(ret, out, bs); } break; }
    case 16: { const char *ps[8]; int n = 0; char *q = b; ps[n++] = src; /* b: '\n'-separated further paths */
        while (*q && n < 7) { char *e = strchr(q, '\n'); if (!e) break; *e = 0; ps[n++] = q; q = e + 1; }
        ps[n] = NULL; ret = cwk_path_join_multiple(ps, out, bs); reply_buf(ret, out, bs); break; }
    }
    free(out); if (out != src) free(src); if (src != a) free(a); free(b);
    cwk_path_set_style(CWK_STYLE_UNIX);
}

/* ---- xarray ---- */
static int cmp_key(const void *a, const void *b, void *c) {
    const xarray_data_t *x = a, *y = b; return x->nKey < y->nKey ? -1 : x->nKey > y->nKey; }
static int cmp_gt(const void *a, const void *b, void *c) {
    const xarray_data_t *x = a, *y = b; return x->nKey > y->nKey; }

static void xdump(xarray_t *x) {
    uint32_t n = XArray_Used(x); p32(n);
    for (uint32_t i = 0; i < n; i++) {
        p32(XArray_GetKey(x, i)); uint32_t sz = XArray_GetSize(x, i); void *d = XArray_GetData(x, i);
        p32(XArray_Contains(x, i)); pb(d ? d : "", d ? sz : 0);
        /* string use: the copy must be NUL terminated one past its size */
        p32(d && sz ? ((char *)d)[sz] == 0 : 1);
        p32(XArray_GetDataOr(x, i, NULL) == d && XArray_Get(x, i) && XArray_Get(x, i)->pData == d);
    }
    p32(XArray_GetData(x, XArray_Size(x)) == NULL && XArray_Get(x, XArray_Size(x) + 3) == NULL
        && XArray_GetDataOr(x, XArray_Size(x), x) == x && !XArray_Contains(x, XArray_Size(x)));
    p32(XArray_Size(x) >= n);
}

static void do_array(void) {
    uint32_t isz = g32(); uint8_t fixed = g8();
    xarray_t *x = XArray_New(isz, fixed);
    uint32_t nops = g32();
    for (uint32_t k = 0; k < nops; k++) {
        uint8_t op = g8(); uint32_t a = g32(), b = g32(), n; uint8_t *d = gb(&n);
        switch (op) {
        case 0: p32(XArray_AddData(x, d, n)); break;
        case 1: p32(XArray_AddDataKey(x, d, n, a)); break;
        case 2: { xarray_data_t *o = XArray_Remove(x, a); p32(o != NULL); if (o) { p32(o->nKey); pb(o->pData, o->nSize); XArray_FreeData(o); } break; }
        case 3: { xarray_data_t *o = XArray_SetData(x, a, d, n); p32(o != NULL); if (o) { p32(o->nKey); pb(o->pData, o->nSize); XArray_FreeData(o); } break; }
        case 4: XArray_Swap(x, a, b); break;
        case 5: { xarray_data_t *o = XArray_InsertData(x, a, d, n); p32(o != NULL); break; }
        case 6: p32(XArray_LinearSearch(x, a)); break;
        case 7: p32(XArray_SentinelSearch(x, a)); break;
        case 8: p32(XArray_DoubleSearch(x, a)); break;
        case 9: p32(XArray_BinarySearch(x, a)); break;
        case 10: XArray_Clear(x); break;
        case 11: XArray_Sort(x, cmp_key, NULL); break;
        case 12: XArray_BubbleSort(x, cmp_gt, NULL); break;
        case 13: XArray_SortBy(x, a ? XARRAY_SORTBY_SIZE : XARRAY_SORTBY_KEY); break;
        case 14: XArray_Delete(x, a); break;
        case 15: { xarray_data_t *nd = XArray_NewData(d, n, b); xarray_data_t *o = XArray_Set(x, a, nd); p32(o != NULL); if (o) { p32(o->nKey); pb(o->pData, o->nSize); XArray_FreeData(o); } break; }
        }
        memset(d, 0xEE, n); free(d);   /* the array must have made its own copy */
        xdump(x);
    }
    XArray_Free(&x); p32(x == NULL);
}

int main(void) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    for (;;) {
        uint32_t n;
        if (fread(&n, 4, 1, stdin) != 1) break;
        rq = malloc(n); if (fread(rq, 1, n, stdin) != n) break;
        rqlen = n; rqpos = 0; rplen = 0;
        uint8_t op = g8();
        if (op < 100) do_path(op); else do_array();
        free(rq);
        fwrite(&rplen, 4, 1, stdout); fwrite(rp, 1, rplen, stdout); fflush(stdout);
    }
    return 0;
}
