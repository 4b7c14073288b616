"""Constructs beyond the grammar of gen.py, as statement and top level
snippets.  They are tokenized and re-rendered with random layouts."""
import clex

STMT = r'''
p = &&out;
switch (c) { case 'a' ... 'z': x = 1; break; case 0 ... 9: y = 2; break; default: break; }
x = a ? b : c ? d : e;
x = a ?: b;
return (x);
return (a) + (b);
return !(a && b);
x = sizeof y;
x = sizeof *p * n;
x = sizeof(struct foo) * n + 1;
x = (int)sizeof(x);
s = u8"utf8" L"wide" "plain";
printf("%s %d\n", "a" "b" PRIu64 "c", x);
for (;;) ;
while (*p++) ;
do x++; while (x < 10);
do { x(); } while (0);
for (i = 0, j = 1; i < n && j > 0; i++, j--) { x(); }
for (struct foo *p = head; p != NULL; p = p->next) p->x = 0;
if (a) ; else x();
if (a) { x(); } else if (b) { y(); } else { z(); }
if ((x = f()) != 0 && (y = g(x)) == NULL) return -1;
a = b = c = 0;
a = (b, c);
*p = *q;
*p++ = *q++;
**pp = -1;
(*p)->x = 1;
(*fn)(a, b);
(void)f(x);
(void)snprintf(buf, sizeof(buf), "%s", x);
a[i][j] = b[j][i];
a[i++] = b[--j];
p->q->r.s[0].t = &u.v;
x = *(int *)p;
x = *((const struct foo **)p + 1);
x = (uint64_t)a << 32 | b;
x = ~a & ~(b | c);
x = -a * -b;
x = !a == !b;
x = a - -b;
x = a+ ++b;
x = a-- - --b;
x = a & &b == 0;
x = a * *b;
x = a / *b;
x = a && &b;
x = (a) - (b);
x = (a) * (b);
x = (a) & (b);
x = (size_t)-1;
x = (foo_t)*p;
x = (struct foo){ .a = 1, .b = { 2, 3 } };
f((struct foo){ 0 });
f(&(struct foo){ .x = y, });
f((int []){ 1, 2, 3 });
x = ((int)y) % 2;
x = f(a)(b);
x = f(a)[0]->y;
x = "abc"[i];
x = (cond) ? f(a) : g(b);
x = __builtin_offsetof(struct foo, bar);
x = offsetof(struct foo, bar.baz[0]);
x = va_arg(ap, char *);
x = va_arg(ap, struct foo *);
x = alignof(int);
int (*fp)(int, char *) = NULL;
int (*arr)[10];
char buf[BUFSIZ], *p = buf;
struct { int a, b; } anon = { 1, 2 };
struct foo *a = NULL, **b = &a, c[2];
static const struct { const char *name; int val; } tbl[] = { { "a", 1 }, { "b", 2 } };
const char *const *argv;
unsigned long long int x = 1ULL << 40;
volatile int *volatile vp;
register int r = 0;
extern int errno;
typedef int myint;
enum { A, B = 2, C } e;
int x __attribute__((__unused__)) = 0;
asm("nop");
asm volatile("mov %0, %1" : "=r"(a) : "r"(b) : "cc", "memory");
__asm__ __volatile__("" ::: "memory");
__asm volatile ("1:\n\tjmp 1b\n" : : "r" (x));
TAILQ_FOREACH(a, &b, c) x(a);
TAILQ_FOREACH_SAFE(a, &b, c, d) { free(a); }
LIST_INIT(&head);
FOO_FOREACH(x, y) if (z) break;
MACRO(x) { y(); }
KASSERT(x == y);
_Static_assert(sizeof(int) == 4, "int");
err(1, "%s: %s", __func__, x);
{ int scoped; scoped = 1; }
{ }
if (x) { }
again: x();
out: ;
out: return;
default_value = 1;
case_x = 2;
x.y.z = (struct a){ .b.c = 1, .d[0] = 2 };
long_function_name_number_one(another_function(with_argument, and_another), "and a string literal", and_some_more, arguments);
if (this_is_a_long_condition && this_is_another_long_condition || yet_another_condition(with, arguments) && !last_one) x();
some_variable = some_function_with_long_name(argument_number_one, argument_number_two) + another_term * yet_another_term;
return aaaaaaaaaaaaaaaaaaaaaaaa == bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb ? ccccccccccccccccccccccccccc : ddddddddddddddddddddddd;
x = 0x1.8p+3 + 1.5e-10 - 2.f + 1e5L + .5e+3;
x = '\'' + '"' + '\\' + '\0' + '\x7f' + L'a';
s = "a\"b" "\\" "\'" "/*" "//" "*/";
x = a<b>c;
x = a <b> (c);
x = a < b && c > (d);
f(a, b * c, d & e, f | g, (h)i);
f((a), (b), -(c), !(d));
f(struct foo *, int);
f(int);
f(a, , b);
x = ({ int y = 1; y + 1; });
if (({ x; })) y();
for (;;) { if (x) continue; break; }
while (1) switch (x) { case 1: return; }
if (x) for (;;) y(); else z();
if (x) if (y) z(); else w();
if (x) while (y) z();
a->b(c)->d(e);
a.b->c.d(e, f)[g];
x += y -= z *= 2;
x <<= 1; x >>= 2; x ^= y; x |= z; x &= ~w; x %= 3;
delete_x(new, class, this);
x = y ? (struct foo *)z : NULL;
x = (y == z);
x = !!y;
x = - - y;
x = + +y;
x = ~~y;
x = &*y;
x = *&y;
x = **y;
if (!f) return;
if (*p == '\0' || p[1] == ' ') break;
return a, b;
return;
return -1;
return &x;
return *x;
return ~0;
return (struct foo){ 0 };
return sizeof(x);
return f(x) ? 1 : 0;
return "x" "y";
'''.strip().split('\n')

TOP = r'''
int main(argc, argv) int argc; char **argv; { return 0; }
static int f(a, b, c) int a, b; char *c; { return a; }
extern "C" { int x; void f(void); }
extern int a, *b, c[3];
extern struct foo foos[];
typedef int (*cb)(void *, size_t);
typedef struct foo foo_t, *foo_p;
typedef struct { int a; } anon_t;
typedef enum { A, B } ab_t;
typedef union { int i; float f; } u_t;
typedef unsigned char u8, *pu8;
typedef void fn(int);
static int (*fns[])(void) = { a, b, NULL };
static int (*fns2[2])(int, char *);
int (*getfn(int x))(void);
void (*signal(int, void (*)(int)))(int);
struct foo;
struct foo { int a; };
struct foo { int a, b; char *c; } foo, *foop;
struct foo { struct bar *b; struct { int x; } c; union { int y; float z; }; };
struct foo { unsigned int a:1; unsigned int b : 2; unsigned int :5; };
struct foo { int n; char data[]; };
struct foo { int (*fn)(int); void (*fn2)(void *, int), *p; };
struct foo { TAILQ_ENTRY(foo) entry; RB_ENTRY(foo) e2; };
struct foo { int a; } __attribute__((__packed__));
struct foo foos[] = { { 1, 2 }, { 3, 4 }, };
struct foo f1 = { .a = 1, .b = "x", .c = { 1, 2, 3 }, };
struct foo f2 = { .a.b = 1, .c[0] = 2 };
int arr[] = { [0] = 1, [1 ... 3] = 2, };
int arr2[2][2] = { { 1, 2 }, { 3, 4 } };
int arr3[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30 };
const char *names[] = { "a", "b", "c" "d", NULL };
static const char str[] = "abc" "def";
static const char *const s = "x";
enum foo { A, B, C };
enum foo { A = 1, B = A << 1, C = (B | 4), };
enum { A };
enum foo x = A;
int x = 1, y = 2, *z = &x;
int x = (1 + 2) * 3;
volatile const unsigned long int x;
unsigned x;
long long x;
static inline int f(void) { return 0; }
__dead void usage(void);
void f(void) __attribute__((__noreturn__, __format__(printf, 1, 2)));
int f(const char *, ...) __attribute__((__format__(printf, 1, 2)));
int f(int a[static 10], char *const b, const struct foo *restrict c);
int f(int (*)(int), void (*cb)(void *, int), int [3]);
int f(void), g(void);
void f() { }
void f(void) { ; }
int f(struct foo *a, union bar *b, enum baz c, unsigned d, long long e, const char *const *f, foo_t g, uint32_t h) { return 0; }
struct foo *f(struct foo *x) { return x; }
const struct foo **f(void) { return 0; }
unsigned long long f(void) { return 0; }
foo_t *f(void) { return 0; }
TAILQ_HEAD(foohead, foo);
TAILQ_HEAD(, foo) head = TAILQ_HEAD_INITIALIZER(head);
static TAILQ_HEAD(, foo) head2;
LIST_HEAD(lh, foo) lhead;
RB_HEAD(tree, node) tree = RB_INITIALIZER(&tree);
RB_PROTOTYPE(tree, node, entry, cmp)
RB_GENERATE(tree, node, entry, cmp);
SPLAY_PROTOTYPE(a, b, c, d);
MODULE_LICENSE("GPL");
__RCSID("$OpenBSD$");
static_assert(sizeof(int) == 4, "x");
_Static_assert(1, "x");
asm(".globl foo");
int x __attribute__((aligned(8))) = 1;
static struct foo *const table[FOO_MAX] = { [FOO_A] = &a, [FOO_B] = &b };
int a; ; int b;
struct foo { int a; }; ;
union u { int a; struct { int b; } c; } u;
struct { int a; } anon = { 1 };
static struct { int a; const char *b; } opts[] = { { 1, "a" }, { 2, "b" }, { 0 } };
char c = '\'', d = '"', e = '\\';
double d = 1.5e-3, e = 0x1p-2, f = .5;
int f(int a) { switch (a) { case 1: case 2: return 1; default: return 0; } }
int f(int a) { if (a) return 1; else return 2; }
static void (*handler)(int) = SIG_DFL;
struct foo *a, *b, c;
void f(void) { struct foo { int a; } x; x.a = 1; }
void f(void) { static int x; int y; x = y; }
void f(int a, ...) { va_list ap; va_start(ap, a); va_end(ap); }
'''.strip().split('\n')

CPPBLOCKS = r'''
#if 0
int x;
#endif
%%
#ifdef A
int x;
#else
int y;
#endif
%%
#if A
int x;
#elif B
int y;
#elif C
int z;
#else
int w;
#endif
%%
#ifdef A
#ifdef B
int x;
#endif
#else
int y;
#endif
%%
#define FOO(x, y) do { \
	if (x)       \
		y(); \
} while (0)
%%
#define FOO(fmt, ...) printf(fmt, ## __VA_ARGS__)
%%
#define STR(x) #x
#define CAT(a, b) a ## b
%%
#include <a.h>
#include "b.h"
%%
# define SPACED 1
#  undef SPACED
%%
#error this is "an error
#warning it's one
#line 10 "x.c"
%%
#define X \

int after;
'''.strip('\n').split('\n%%\n')

# directives amid statements and expressions (function body context)
CPPSTMT = r'''
if (a
#ifdef B
 && b
#endif
 ) x();
%%
x = a
#if B
 + b
#else
 + c
#endif
 ;
%%
f(a,
#ifdef B
 b,
#endif
 c);
%%
if (a) {
#ifdef B
 x();
#endif
}
%%
#ifdef A
if (a)
#else
if (b)
#endif
 x();
%%
#ifdef A
if (a) {
#else
if (b) {
#endif
 x();
}
%%
switch (x) {
#ifdef A
case 1:
 x();
 break;
#endif
case 2:
 y();
 break;
}
%%
#if 0
if (a)
 x();
else
#endif
 y();
%%
int arr[] = {
#ifdef A
 1,
#else
 2,
#endif
 3
};
'''.strip('\n').split('\n%%\n')


def tokens(text):
    """Items of a snippet: ('tok'|'cpp'|'com', text)."""
    return [(i.kind, i.text) for i in clex.scan(text)]


STMT_T = [[t for k, t in tokens(s)] for s in STMT]
TOP_T = [[t for k, t in tokens(s)] for s in TOP]
CPPSTMT_T = [tokens(s) for s in CPPSTMT]
CPPBLOCKS_T = [tokens(s) for s in CPPBLOCKS]
