int main(void) { return 0; }
//---
struct S { int a; char b[3]; struct { short x, y; } c; union { int u; float f; }; } s = { 1, { 2, 3 }, .c.y = 4, .u = 5 };
int f(struct S *p) { return p->a + p->b[1] + p->c.y + p->u; }
struct S g(struct S s) { s.a++; return s; }
int main(void) { return f(&s) + g(s).a; }
//---
typedef int T; enum E { A, B = 5, C }; static T arr[] = { [C] = 1, [A] = 2, 3 };
int f(int n) { switch (n) { case A: return 1; case 2 ... 4: n++; break; default: for (n = 0; n < 10; n++) { if (n == 3) continue; if (n == 5) break; } } return arr[n]; }
//---
int f(int n) { int a[n][n + 1]; int i; for (i = 0; i < n; i++) a[i][i] = i; { char b[n * 2]; b[0] = sizeof b; n += b[0]; } return sizeof(a) + sizeof a[0] + n; }
void g(int n, int m, double x[n][m]) { x[1][2] = 3; }
//---
int f(void *p) { static void *t[] = { &&l1, &&l2 }; goto *t[p != 0]; l1: return 1; l2: return 2; }
int g(int x) { __label__ out; if (x) goto out; x = ({ int y = x; y + 1; }); out: return x ?: 5; }
//---
#include <stdarg.h>
int f(int n, ...) { va_list ap, aq; int t = 0; va_start(ap, n); va_copy(aq, ap); while (n--) t += va_arg(ap, int) + (int)va_arg(aq, double); va_end(ap); va_end(aq); return t; }
int main(void) { return f(2, 1, 2.5, 3L); }
//---
int f(a, b, c) int a; char *b; float c; { return a + *b + c; }
int g(); int h(void) { return g(1, 2.5f, 'c') + f(1, "x", 2.0); }
//---
#define CAT(a, b) a ## b
#define STR(x) #x
#define XSTR(x) STR(x)
#define VA(f, ...) f(__VA_ARGS__)
#define GV(f, args...) f(0, ##args)
#define EMPTY
#if defined(CAT) && (2 + 3 * 4 == 14) || 0
int CAT(x, 1) = 5; char *s = XSTR(CAT(a, b) "q\n"); int VA(f, int a, int b);
#elif FOO
#else
# error no
#endif
int z = GV(f) + GV(f, 1, 2) EMPTY;
//---
float a = 1.5f; double b = -2.5e3; long double c = 0x1p-3L; unsigned long long d = 0xffffffffffffffffull; char e = '\x41', f[] = "a\tb\0c" "def", *g = &f[2];
double h(float x, double y, long double z) { return x * y / z - (int)x + (unsigned)y + (long long)z + (x > y) + !z; }
int i(double x) { return x ? x < 1 ? 1 : 2 : (x != x); }
//---
struct B { unsigned a : 3, b : 5; int : 0; long long c : 40; _Bool d : 1; } b = { 1, 2, 3, 1 };
int f(struct B *p) { p->a = 5; p->b += 3; p->c--; p->d = p->a; return p->a + p->b + p->c; }
//---
struct P { char a; int b; } __attribute__((packed)); struct Q { char a; double b; } __attribute__((aligned(32)));
#pragma pack(push, 2)
struct R { char a; int b; };
#pragma pack(pop)
_Alignas(64) int z; int f(void) { return sizeof(struct P) + _Alignof(struct Q) + sizeof(struct R) + __alignof__(z) + __builtin_offsetof(struct R, b); }
static void cl(int *p) { } int g(void) { int x __attribute__((cleanup(cl))) = 3; return x; }
int w(void) __attribute__((weak)); int al(void) __attribute__((alias("f"))); void __attribute__((constructor)) ct(void) { } int sec __attribute__((section(".foo"))) = 1;
//---
#define TYP(x) _Generic((x), int: 1, char *: 2, double: 3, default: 4)
_Static_assert(TYP(1) == 1 && TYP("a") == 2, "generic"); int a[TYP(2.5)]; int b[__builtin_types_compatible_p(int, long) + 1]; int c = __builtin_choose_expr(1, 2, "x");
int f(int x) { return __builtin_constant_p(x) + __builtin_expect(x, 1) + TYP(x); }
//---
int x, y; long z;
int f(int a) { int r; asm("movl %1, %0\n\taddl $1, %0" : "=r"(r) : "r"(a)); asm volatile("" ::: "memory"); asm("addl %2, %0" : "=a"(x) : "0"(x), "c"(y) : "cc"); asm("movq %1, %0" : "=m"(z) : "r"(z)); asm("xchg %[p], %[q]" : [p] "+r"(x), [q] "+r"(y)); return r; }
asm(".globl foo\nfoo: ret\n"); extern int bar asm("baz"); int q(void) { register int v asm("ebx") = 1; return bar + v; }
//---
int (*fp)(int, char **); int (*(*fpp)(void))[3]; char *(*arr[4])(const char *, ...); void (*sig(int, void (*)(int)))(int); typedef int (*F)(F2, int[static 3]);
typedef int F3(int); F3 fn; int fn(int x) { return (*&fn)(x) + (**fn)(x); }
//---
extern int e[]; int e[5]; static int t; int t; int u = sizeof e / sizeof *e; const char *names[] = { "a", [3] = "b", "c" }; int m[2][3] = { { 1, 2 }, 4, 5, 6 }; struct { int a; int b[]; } fl = { 1, { 2, 3 } };
char *p = (char *)&m[1][2] + 3; long diff = (long)&m[1]; int *cl = (int[]){ 1, 2, 3 }; struct X { int q; } *px = &(struct X){ 5 };
//---
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int argc, char **argv) { char b[20]; int i; for (i = 0; i < argc; i++) { snprintf(b, sizeof b, "%d %s", i, argv[i]); puts(b); } int *v = malloc(5 * sizeof *v); memset(v, 0, 5 * sizeof *v); v[4] = i; free(v); return strlen(b); }
//---
_Atomic int at; #include <stdatomic.h>
int f(_Atomic(long) *p) { at++; return atomic_load(p) + atomic_fetch_add(&at, 2) + atomic_compare_exchange_strong(&at, &(int){ 1 }, 5); }
//---
inline int i1(int x) { return x; } static inline int i2(int x) { return x * 2; } extern inline int i3(int x) { return x - 1; } _Noreturn void die(void); int f(void) { return i1(1) + i2(2); }
int g(int x) { if (x) die(); else return __func__[0] + sizeof __FUNCTION__; }
//---
int f(int n) { int i = 0; do { while (i < n) { i++; if (i == 7) goto out; } i += 2; } while (i < 100); out: ; switch (n) { int j; case 1: { case 2: j = 1; } default: i = j; } return i; for (;;) ; }
//---
_Bool b = 2; char c = -1; unsigned char uc = -1; short s = 70000; int sh = 1 << 31 >> 3, mo = -7 % 3, di = -7 / 2, un = -1 > 0u, te = 1 ? 2 : 3, co = (1, 2), si = sizeof(char[3][4]) + sizeof "abc", no = !5 + ~5, lo = 1 && 0 || 2; long long ll = 1ll << 40;
int f(int a, unsigned b, long c, char *p) { a += b; b <<= a & 31; c ^= a * b; p += c; *p++ = a--; return a / (b | 1) % 5 - (p - (char *)0) + (a < b) + (c >= a) * -a; }
//---
union U { struct { char a, b; } s; int i; double d; long double ld; } u = { .i = 5 }; struct L { long double x; char c; } l; struct V { float a, b, c; }; struct V v(struct V x, struct L y, union U z) { x.a += y.x + z.d; return x; }
float _Complex_; struct N { struct N *next; int v; } n1 = { &n1, 1 }, n2 = { .next = &n1, .v = 2 };
//---
int a /* comment */ = 1; // line
/* multi
 line */ int b = __LINE__; char *f = __FILE__;
#line 100 "foo.c"
int c = __LINE__; int d = __COUNTER__ + __COUNTER__;
int e\
f = 1; char *q = "con\
tinued"; int t = '\n' + '\'' + '\\' + '\101' + '\x7f' + L'x';
//---
typedef struct Node { struct Node *l, *r; int k; } Node; static Node pool[10]; static int used;
static Node *ins(Node *t, int k) { if (!t) { t = &pool[used++]; t->k = k; return t; } if (k < t->k) t->l = ins(t->l, k); else t->r = ins(t->r, k); return t; }
int main(void) { Node *t = 0; for (int i = 0; i < 10; i++) t = ins(t, i * 7 % 10); return t->k; }
//---
#if 0
bad ' text "
#elif 1
# if __has_include(<stdio.h>)
int has;
# endif
# ifndef X
#  define X(a, b...) a b
# else
# endif
#endif
#undef X
#define X (1 + Y)
#define Y X
int r = X;
#pragma push_macro("X")
#undef X
#define X 5
#pragma pop_macro("X")
#warning hello
#ident "v"
//---
int f(int x) { struct S { int a; } s = { x }, *p = &s; { struct S { char b; } t = { 1 }; x += t.b; } enum { Q = 3 }; typedef struct S S2; S2 z = *p; extern int ext; static int st = Q; return z.a + ext + st; int un; un = 1; { return 2; } }
//---
void *memcpy(void *, const void *, unsigned long); int f(char *p, int n) { char b[16]; memcpy(b, p, n); b[n] = p[n + 1]; int *q = (int *)b; return q[2] + (&b[3])[n] + *(b + n); } void *alloca(unsigned long); int g(int n) { char *p = alloca(n); p[0] = 1; return p[n - 1]; }
