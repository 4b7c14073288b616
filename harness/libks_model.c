/*
 * Random operation sequences on the libks containers, each step compared with a
 * plain reference model. Prints one line per component with the number of
 * operations judged; a mismatch is printed as FAIL and ends the program with
 * status 3.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include "libks/arena-buffer.h"
#include "libks/arena-vector.h"
#include "libks/arena.h"
#include "libks/arithmetic.h"
#include "libks/buffer.h"
#include "libks/list.h"
#include "libks/map.h"
#include "libks/string.h"
#include "libks/tmp.h"
#include "libks/vector.h"

static uint64_t rs;
static const char *comp;
static unsigned long ops, seqno;

static uint64_t
rnd(void)
{
	rs ^= rs << 13;
	rs ^= rs >> 7;
	rs ^= rs << 17;
	return rs * 0x2545F4914F6CDD1DULL >> 16;
}

static size_t
below(size_t n)
{
	return n ? rnd() % n : 0;
}

static void
fail(const char *fmt, ...)
{
	va_list ap;

	printf("FAIL %s sequence %lu: ", comp, seqno);
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\n");
	fflush(stdout);
	_exit(3);
}

#define CHECK(c, ...) do { ops++; if (!(c)) fail(__VA_ARGS__); } while (0)

/* arithmetic */

static int64_t
edge(void)
{
	static const int64_t e[] = {0, 1, -1, 2, -2, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, UINT32_MAX, 46341};
	return below(2) ? e[below(sizeof(e) / sizeof(e[0]))] : (int64_t)(rnd() << 16 ^ rnd());
}

#define ARITH(type, name, op, sym, wide) do {				\
	type a = (type)(below(2) ? edge() : (int64_t)(rnd() >> below(48)) * (below(2) ? 1 : -1));	\
	type b = (type)(below(2) ? edge() : (int64_t)(rnd() >> below(48)) * (below(2) ? 1 : -1));	\
	type r0 = 0, r1 = 0;						\
	wide w = (wide)a sym (wide)b;					\
	int over = w != (wide)(type)w;					\
	int o1 = KS_##name##_##op##_overflow(a, b, &r1);		\
	CHECK(o1 == over && (over || r1 == (type)w), #name " " #op " %lld %lld", (long long)a, (long long)b);	\
	int o0 = KS_##name##_##op##_overflow0(a, b, &r0);		\
	CHECK(o0 == over && (over || r0 == (type)w), #name " " #op " fallback %lld %lld", (long long)a, (long long)b);	\
} while (0)

typedef __int128 s128;

static void
t_arithmetic(void)
{
	int i;

	for (i = 0; i < 40; i++) {
		ARITH(int32_t, i32, add, +, s128);
		ARITH(int32_t, i32, sub, -, s128);
		ARITH(int32_t, i32, mul, *, s128);
		ARITH(int64_t, i64, add, +, s128);
		ARITH(int64_t, i64, sub, -, s128);
		ARITH(int64_t, i64, mul, *, s128);
		ARITH(uint32_t, u32, add, +, s128);
		ARITH(uint32_t, u32, sub, -, s128);
		ARITH(uint32_t, u32, mul, *, s128);
		ARITH(uint64_t, u64, add, +, s128);
		ARITH(uint64_t, u64, sub, -, s128);
		{
			uint64_t a = (uint64_t)(below(2) ? edge() : (int64_t)(rnd() << below(17)));
			uint64_t b = (uint64_t)(below(2) ? edge() : (int64_t)(rnd() >> below(48)));
			unsigned __int128 w = (unsigned __int128)a * b;
			uint64_t r = 0;
			size_t rz = 0;
			int over = w > UINT64_MAX;
			CHECK(KS_u64_mul_overflow(a, b, &r) == over && (over || r == (uint64_t)w), "u64 mul");
			CHECK(KS_u64_mul_overflow0(a, b, &r) == over && (over || r == (uint64_t)w), "u64 mul fallback %llu %llu", (unsigned long long)a, (unsigned long long)b);
			CHECK(KS_size_mul_overflow(a, b, &rz) == over && (over || rz == (size_t)w), "size mul");
			CHECK(KS_size_mul_overflow0(a, b, &rz) == over && (over || rz == (size_t)w), "size mul fallback %llu %llu", (unsigned long long)a, (unsigned long long)b);
			CHECK(KS_size_add_overflow(a, b, &rz) == (a > UINT64_MAX - b), "size add");
			CHECK(KS_size_add_overflow0(a, b, &rz) == (a > UINT64_MAX - b), "size add fallback");
			CHECK(KS_size_sub_overflow(a, b, &rz) == (a < b), "size sub");
			CHECK(KS_size_sub_overflow0(a, b, &rz) == (a < b), "size sub fallback");
		}
	}
}

/* strings: text ends at an unmapped page, so that reading past it faults */

static char *guard_end;

static void
guard_init(void)
{
	long ps = sysconf(_SC_PAGESIZE);
	char *p = mmap(NULL, (size_t)ps * 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);

	if (p == MAP_FAILED || mprotect(p + 2 * ps, (size_t)ps, PROT_NONE) == -1)
		abort();
	guard_end = p + 2 * ps;
}

static size_t
ref_match(const char *s, size_t n, const char *ranges, int want)
{
	size_t i, j;

	for (i = 0; i < n; i++) {
		int m = 0;
		for (j = 0; ranges[j]; j += 2)
			if ((unsigned char)s[i] >= (unsigned char)ranges[j] && (unsigned char)s[i] <= (unsigned char)ranges[j + 1])
				m = 1;
		if (m != want)
			return i;
	}
	return n;
}

static void
t_match(void)
{
	static const char pool[] = "azAZ09__  \f\f\t\t\n\n--//";
	int i;

	for (i = 0; i < 60; i++) {
		char ranges[32] = {0};
		size_t n = below(70), nr = 1 + below(7), j, k, a, b;
		char *s = guard_end - n;

		for (j = 0; j < nr; j++) {
			k = below(sizeof(pool) / 2 - 1) * 2;
			ranges[2 * j] = pool[k];
			ranges[2 * j + 1] = pool[k + 1];
		}
		int hot = (int)below(3);
		for (j = 0; j < n; j++) {
			if (hot == 0 && below(20))
				s[j] = ranges[2 * below(nr)];
			else if (hot == 1 && below(20))
				s[j] = '~';
			else
				s[j] = (char)(1 + below(255));
		}
		a = ref_match(s, n, ranges, 1);
		b = ref_match(s, n, ranges, 0);
		CHECK(KS_str_match(s, n, ranges) == a, "match of %zu bytes gives %zu instead of %zu", n, KS_str_match(s, n, ranges), a);
		CHECK(KS_str_match_default(s, n, ranges) == a, "portable match of %zu bytes", n);
		CHECK(KS_str_match_until(s, n, ranges) == b, "match until of %zu bytes gives %zu instead of %zu", n, KS_str_match_until(s, n, ranges), b);
		CHECK(KS_str_match_until_default(s, n, ranges) == b, "portable match until of %zu bytes", n);
	}
}

static void
t_split(void)
{
	struct arena *a = arena_alloc();
	int i;

	{
		arena_scope(a, s);
		for (i = 0; i < 20; i++) {
			const char *delims[] = {"/", "ab", "aab", ",", "::"};
			const char *d = delims[below(5)];
			char buf[200], *join = buf, out[400];
			size_t n = below(40), j, len = 0, cnt = 1;
			char **parts;

			for (j = 0; j < n; j++)
				join[j] = "ab/,:x"[below(6)];
			join[n] = '\0';
			for (const char *p = buf; (p = strstr(p, d)) != NULL; p += strlen(d))
				cnt++;
			parts = KS_str_split(buf, d, &s);
			CHECK(parts != NULL && VECTOR_LENGTH(parts) == cnt, "split of %s by %s into %zu", buf, d, parts ? VECTOR_LENGTH(parts) : 0);
			for (j = 0; j < cnt; j++) {
				CHECK(strstr(parts[j], d) == NULL || strlen(d) > 1, "delimiter in part");
				len += (size_t)sprintf(out + len, "%s%s", j ? d : "", parts[j]);
			}
			if (cnt == 1)
				strcpy(out, parts[0]);
			CHECK(strcmp(out, buf) == 0, "split of %s by %s joins to %s", buf, d, out);
		}
	}
	arena_free(a);
}

/* vector */

struct item {
	uint64_t v;
	char pad[5];
};

static int
cmp_item(const struct item *a, const struct item *b)
{
	return (a->v > b->v) - (a->v < b->v);
}

static int
cmp_ref(const void *a, const void *b)
{
	return cmp_item(a, b);
}

static void
vector_ops(struct item **vv, int n)
{
	struct item *ref = calloc((size_t)n * 4 + 16, sizeof(*ref));
	size_t len = 0, j;
	struct item *v = *vv, *p;

	while (n-- > 0) {
		switch (below(12)) {
		case 0: case 1: case 2: case 3:
			p = VECTOR_ALLOC(v);
			CHECK(p != NULL, "alloc");
			memset(p, (int)below(256), sizeof(*p));
			p->v = rnd() % 50;
			ref[len++] = *p;
			break;
		case 4: case 5:
			p = VECTOR_CALLOC(v);
			CHECK(p != NULL && p->v == 0 && p->pad[4] == 0, "calloc not zero");
			p->v = rnd() % 50;
			ref[len] = *p;
			len++;
			break;
		case 6:
			p = VECTOR_POP(v);
			CHECK((p == NULL) == (len == 0), "pop");
			if (p != NULL) {
				len--;
				CHECK(p->v == ref[len].v, "popped the wrong element");
			}
			break;
		case 7:
			CHECK(VECTOR_RESERVE(v, below(3) ? below(20) : below(2000)) == 0, "reserve");
			break;
		case 8:
			if (below(10) == 0) {
				VECTOR_CLEAR(v);
				len = 0;
			}
			break;
		case 9:
			if (below(4) == 0) {
				VECTOR_SORT(v, cmp_item);
				qsort(ref, len, sizeof(*ref), cmp_ref);
				for (j = 0; j < len; j++)
					CHECK(v[j].v == ref[j].v, "sort");
				for (j = 0; j < len; j++)
					ref[j] = v[j];
			}
			break;
		case 10:
			p = VECTOR_FIRST(v);
			CHECK(p == (len ? &v[0] : NULL), "first");
			p = VECTOR_LAST(v);
			CHECK(p == (len ? &v[len - 1] : NULL), "last");
			break;
		case 11:
			if (below(40) == 0) {
				size_t l = VECTOR_LENGTH(v);
				errno = 0;
				CHECK(VECTOR_RESERVE(v, ULONG_MAX / 2 - 5) != 0 && errno == EOVERFLOW && VECTOR_LENGTH(v) == l, "overflow not detected");
			}
			break;
		}
		CHECK(VECTOR_LENGTH(v) == len && VECTOR_EMPTY(v) == (len == 0), "length %zu instead of %zu", VECTOR_LENGTH(v), len);
		if (len > 0) {
			j = below(len);
			CHECK(memcmp(&v[j], &ref[j], sizeof(v[j])) == 0, "element %zu of %zu", j, len);
		}
	}
	for (j = 0; j < len; j++)
		CHECK(memcmp(&v[j], &ref[j], sizeof(v[j])) == 0, "element %zu of %zu", j, len);
	free(ref);
	*vv = v;
}

static void
t_vector(void)
{
	VECTOR(struct item) v;
	struct arena *a;

	CHECK(VECTOR_INIT(v) == 0, "init");
	vector_ops(&v, (int)below(400));
	VECTOR_FREE(v);
	CHECK(v == NULL, "free");

	a = arena_alloc();
	{
		arena_scope(a, s);
		ARENA_VECTOR_INIT(&s, v, below(5));
		vector_ops(&v, (int)below(400));
	}
	arena_free(a);
}

/* map */

struct val {
	uint64_t x;
	char c[3];
};

static void
t_map_str(void)
{
	enum { N = 1500 };
	static char keys[N][24];
	static struct val *vals[N];
	static int order[N];
	MAP(const char, *, struct val) m;
	int n = below(4) ? (int)below(60) : (int)below(N), i, live = 0, used = 0;

	CHECK(MAP_INIT(m) == 0, "init");
	memset(vals, 0, sizeof(vals));
	for (i = 0; i < n; i++)
		snprintf(keys[i], sizeof(keys[i]), "%.*s%d", (int)below(14), "abcdefghijklmnopq", i);
	for (int k = 0; k < n * 3; k++) {
		i = (int)below((size_t)n);
		switch (below(5)) {
		case 0: case 1:
			if (vals[i] != NULL)
				break;
			if (below(2)) {
				vals[i] = MAP_INSERT(m, keys[i]);
			} else {
				char tmp[64];
				snprintf(tmp, sizeof(tmp), "%sTRAILING", keys[i]);
				vals[i] = MAP_INSERT_N(m, tmp, strlen(keys[i]));
			}
			CHECK(vals[i] != NULL && vals[i]->x == 0 && ((uintptr_t)vals[i] & 7) == 0, "insert");
			vals[i]->x = (uint64_t)i * 7 + 1;
			for (int q = 0; q < used; q++)
				if (order[q] == i)
					order[q] = -1;
			if (used == N) {
				int w = 0;
				for (int q = 0; q < used; q++)
					if (order[q] >= 0)
						order[w++] = order[q];
				used = w;
			}
			order[used++] = i;
			live++;
			break;
		case 2:
			CHECK(MAP_FIND(m, keys[i]) == vals[i], "find %s", keys[i]);
			if (vals[i])
				CHECK(vals[i]->x == (uint64_t)i * 7 + 1, "value of %s", keys[i]);
			break;
		case 3: {
			char tmp[64];
			snprintf(tmp, sizeof(tmp), "%sX", keys[i]);
			CHECK(MAP_FIND_N(m, tmp, strlen(keys[i])) == vals[i], "find n %s", keys[i]);
			if (vals[i])
				CHECK(strcmp((const char *)map_key(m, vals[i]), keys[i]) == 0, "key of value");
			break;
		}
		case 4:
			MAP_REMOVE(m, keys[i]);
			if (vals[i] != NULL) {
				vals[i] = NULL;
				live--;
				for (int q = 0; q < used; q++)
					if (order[q] == i)
						order[q] = -1;
			}
			break;
		}
	}
	for (i = 0; i < n; i++)
		CHECK(MAP_FIND(m, keys[i]) == vals[i], "final find %s", keys[i]);
	{
		MAP_ITERATOR(m) it = {0};
		int q = 0, seen = 0;
		while (MAP_ITERATE(m, &it)) {
			while (q < used && order[q] < 0)
				q++;
			CHECK(q < used && it.val == vals[order[q]], "iteration order");
			q++;
			seen++;
		}
		CHECK(seen == live, "iterated %d of %d", seen, live);
	}
	MAP_FREE(m);
}

static void
t_map_int(void)
{
	enum { N = 3000 };
	static uint64_t *vals[N];
	MAP(int, , uint64_t) m;
	int n = below(4) ? (int)below(100) : (int)below(N), i;

	CHECK(MAP_INIT(m) == 0, "init");
	memset(vals, 0, sizeof(vals));
	for (int k = 0; k < n * 3; k++) {
		i = (int)below((size_t)n);
		int key = i * 4099 - 77;
		switch (below(3)) {
		case 0:
			if (vals[i] == NULL) {
				vals[i] = MAP_INSERT_VALUE(m, key, (uint64_t)i + 5);
				CHECK(vals[i] != NULL, "insert");
			}
			break;
		case 1:
			CHECK(MAP_FIND(m, key) == vals[i] && (!vals[i] || *vals[i] == (uint64_t)i + 5), "find %d", key);
			break;
		case 2:
			MAP_REMOVE(m, key);
			vals[i] = NULL;
			break;
		}
	}
	for (i = 0; i < n; i++)
		CHECK(MAP_FIND(m, i * 4099 - 77) == vals[i], "final find %d", i);
	MAP_FREE(m);
}

/* buffer */

static void
buffer_ops(struct buffer *bf, int n)
{
	size_t cap = (size_t)n * 300 + 64, len = 0, k, j;
	char *ref = malloc(cap), tmp[256];

	while (n-- > 0) {
		switch (below(7)) {
		case 0: case 1:
			k = below(8) ? below(40) : below(250);
			for (j = 0; j < k; j++)
				tmp[j] = "ab\n\0cd"[below(6)];
			CHECK(buffer_puts(bf, tmp, k) == 0, "puts");
			memcpy(ref + len, tmp, k);
			len += k;
			break;
		case 2:
			tmp[0] = (char)below(256);
			CHECK(buffer_putc(bf, tmp[0]) == 0, "putc");
			ref[len++] = tmp[0];
			break;
		case 3:
			k = below(200);
			CHECK(buffer_printf(bf, "%*s|%d\n", (int)k, "x", (int)k) == 0, "printf");
			len += (size_t)sprintf(ref + len, "%*s|%d\n", (int)k, "x", (int)k);
			break;
		case 4:
			k = below(3) ? below(10) : below(300);
			j = buffer_pop(bf, k);
			CHECK(j == (k < len ? k : len), "pop %zu of %zu gives %zu", k, len, j);
			len -= j;
			break;
		case 5:
			if (below(30) == 0) {
				buffer_reset(bf);
				len = 0;
			}
			break;
		case 6: {
			struct buffer *o = buffer_alloc(below(2) ? 1 : 64);
			buffer_puts(o, ref, len);
			CHECK(buffer_cmp(bf, o) == 0 && buffer_cmp(o, bf) == 0, "equal buffers differ");
			if (len > 0) {
				buffer_pop(o, 1);
				CHECK(buffer_cmp(bf, o) != 0, "shorter buffer equal");
				buffer_putc(o, (char)(ref[len - 1] ^ 1));
				CHECK(buffer_cmp(bf, o) != 0, "different buffer equal");
			}
			buffer_free(o);
			break;
		}
		}
		CHECK(buffer_get_len(bf) == len && buffer_get_size(bf) >= len, "length %zu instead of %zu", buffer_get_len(bf), len);
		CHECK(len == 0 || memcmp(buffer_get_ptr(bf), ref, len) == 0, "content");
	}
	/* Lines: pieces between newlines, no empty piece after a final one. */
	{
		struct buffer_getline it = {0};
		const char *line;
		size_t off = 0;
		while ((line = buffer_getline(bf, &it)) != NULL) {
			const char *nl;
			size_t l;
			CHECK(off < len, "line past the end");
			nl = memchr(ref + off, '\n', len - off);
			l = nl ? (size_t)(nl - (ref + off)) : len - off;
			CHECK(memcmp(line, ref + off, l) == 0 && line[l] == '\0', "line at %zu", off);
			off += l + 1;
		}
		CHECK(off >= len, "lines end at %zu of %zu", off, len);
	}
	free(ref);
}

static void
t_buffer(void)
{
	struct buffer *bf = buffer_alloc(below(3) ? 1 + below(64) : 4096);
	struct arena *a;
	char *s;
	size_t n;

	CHECK(bf != NULL, "alloc");
	buffer_ops(bf, (int)below(150));
	buffer_reset(bf);
	n = below(100);
	for (size_t i = 0; i < n; i++)
		buffer_putc(bf, 'q');
	s = buffer_str(bf);
	CHECK(strlen(s) == n, "string of length %zu instead of %zu", strlen(s), n);
	CHECK(buffer_get_len(bf) == 0, "released");
	free(s);
	buffer_free(bf);

	a = arena_alloc();
	{
		arena_scope(a, sc);
		bf = arena_buffer_alloc(&sc, 1 + below(64));
		buffer_ops(bf, (int)below(150));
		buffer_free(bf);
	}
	arena_free(a);
}

static void
t_read(void)
{
	char path[64];
	size_t n = below(4) ? below(300) : below(70000), i;
	char *data = malloc(n + 1);
	struct buffer *bf;
	struct arena *a;
	int fd;

	for (i = 0; i < n; i++)
		data[i] = (char)rnd();
	fd = KS_tmpfd(data, n, path, sizeof(path));
	CHECK(fd != -1, "tmpfd");
	CHECK(lseek(fd, 0, SEEK_END) == (off_t)n, "size of the temporary file");
	lseek(fd, 0, SEEK_SET);
	bf = buffer_read(path);
	CHECK(bf != NULL && buffer_get_len(bf) == n && (n == 0 || memcmp(buffer_get_ptr(bf), data, n) == 0), "read back %zu bytes by path", n);
	buffer_free(bf);
	lseek(fd, 0, SEEK_SET);
	a = arena_alloc();
	{
		arena_scope(a, s);
		bf = arena_buffer_read_fd(&s, fd);
		CHECK(bf != NULL && buffer_get_len(bf) == n && (n == 0 || memcmp(buffer_get_ptr(bf), data, n) == 0), "read back %zu bytes", n);
	}
	arena_free(a);
	close(fd);
	free(data);
}

/* arena */

#define MAXOBJ 200
static struct obj {
	unsigned char *p;
	size_t n;
	unsigned char pat;
	int depth;
} objs[MAXOBJ];
static int nobjs;
static int cleaned[64], ncleaned;

static void
on_cleanup(void *arg)
{
	cleaned[ncleaned++ & 63] = (int)(intptr_t)arg;
}

static void
obj_check(const struct obj *o)
{
	size_t i;

	for (i = 0; i < o->n; i++)
		if (o->p[i] != o->pat)
			fail("object of %zu bytes overwritten at %zu", o->n, i);
	ops++;
}

static void
obj_add(void *p, size_t n, int depth)
{
	struct obj *o = &objs[nobjs++];

	CHECK(p != NULL && ((uintptr_t)p & (sizeof(void *) - 1)) == 0, "unaligned object");
	o->p = p;
	o->n = n;
	o->pat = (unsigned char)(1 + below(250));
	o->depth = depth;
	memset(p, o->pat, n);
}

static void
arena_level(struct arena *a, int depth)
{
	arena_scope(a, s);
	int base = nobjs, n = (int)below(40), mine[16], nmine = 0, i;
	size_t sz;
	void *p;

	while (n-- > 0 && nobjs < MAXOBJ - 4) {
		sz = below(8) ? below(64) : (below(20) ? below(4000) : below(200000));
		switch (below(8)) {
		case 0: case 1:
			obj_add(arena_malloc(&s, sz), sz, depth);
			break;
		case 2:
			p = arena_calloc(&s, 1 + sz / 3, 3);
			for (size_t k = 0; k < (1 + sz / 3) * 3; k++)
				if (((unsigned char *)p)[k] != 0)
					fail("calloc not zero");
			obj_add(p, (1 + sz / 3) * 3, depth);
			break;
		case 3:
			if (nobjs > base) {
				struct obj *o = below(2) ? &objs[nobjs - 1] : &objs[base + (int)below((size_t)(nobjs - base))];
				size_t keep = o->n < sz ? o->n : sz;
				p = arena_realloc(&s, o->p, o->n, sz);
				CHECK(p != NULL, "realloc");
				for (size_t k = 0; k < keep; k++)
					if (((unsigned char *)p)[k] != o->pat)
						fail("realloc from %zu to %zu loses byte %zu", o->n, sz, k);
				o->p = p;
				o->n = sz;
				memset(p, o->pat, sz);
			} else {
				p = arena_realloc(&s, NULL, 0, sz);
				obj_add(p, sz, depth);
			}
			break;
		case 4:
			if (nmine < 16) {
				int id = depth * 100 + nmine;
				arena_cleanup(&s, on_cleanup, (void *)(intptr_t)id);
				mine[nmine++] = id;
			}
			break;
		case 5: {
			char buf[300], *d;
			size_t k = below(250);
			memset(buf, 'z', k);
			buf[k] = '\0';
			d = below(2) ? arena_strdup(&s, buf) : arena_sprintf(&s, "%s", buf);
			CHECK(strcmp(d, buf) == 0, "string");
			k = below(k + 1);
			d = arena_strndup(&s, buf, k);
			CHECK(strlen(d) == k && strncmp(d, buf, k) == 0, "strndup");
			break;
		}
		case 6:
			if (depth < 5 && below(2)) {
				int before = nobjs;
				arena_level(a, depth + 1);
				nobjs = before;
				for (i = 0; i < nobjs; i++)
					if (below(4) == 0)
						obj_check(&objs[i]);
			}
			break;
		case 7:
			if (nobjs > 0)
				obj_check(&objs[below((size_t)nobjs)]);
			break;
		}
	}
	for (i = 0; i < nobjs; i++)
		obj_check(&objs[i]);
	/* Cleanups run once each, last registered first, when the scope is left. */
	{
		int c0 = ncleaned;
		arena_scope_leave(&s);
		CHECK(ncleaned - c0 == nmine, "%d cleanups of %d", ncleaned - c0, nmine);
		for (i = 0; i < nmine; i++)
			CHECK(cleaned[(c0 + i) & 63] == mine[nmine - 1 - i], "cleanup order");
		s = arena_scope_enter(a);	/* left again by the attribute */
	}
	nobjs = base;
}

static void
t_arena(void)
{
	struct arena *a = arena_alloc();

	nobjs = 0;
	arena_level(a, 0);
	arena_level(a, 0);
	arena_free(a);
}

/* list */

LIST(nodes, node);
struct node {
	int id;
	LIST_ENTRY(nodes, node);
};

static void
list_same(struct nodes *h, struct node **ref, int n)
{
	struct node *p, *q;
	int i = 0;

	LIST_FOREACH(p, h) {
		CHECK(i < n && ref[i] == p, "forward walk at %d", i);
		i++;
	}
	CHECK(i == n, "forward walk ends at %d of %d", i, n);
	LIST_FOREACH_REVERSE_SAFE(p, h, q) {
		i--;
		CHECK(i >= 0 && ref[i] == p, "backward walk at %d", i);
	}
	CHECK(i == 0 && LIST_EMPTY(h) == (n == 0), "backward walk");
	CHECK(LIST_FIRST(h) == (n ? ref[0] : NULL) && LIST_LAST(h) == (n ? ref[n - 1] : NULL), "ends");
}

static void
t_list(void)
{
	struct nodes h, g;
	static struct node pool[64];
	struct node *ref[64], *other[64];
	int n = 0, k = 0, used = 0, i, j;

	LIST_INIT(&h);
	LIST_INIT(&g);
	memset(pool, 0, sizeof(pool));
	while (used < 64) {
		struct node *e = &pool[used];
		switch (below(7)) {
		case 0:
			LIST_INSERT_HEAD(&h, e);
			memmove(ref + 1, ref, (size_t)n * sizeof(*ref));
			ref[0] = e; n++; used++;
			break;
		case 1:
			LIST_INSERT_TAIL(&h, e);
			ref[n++] = e; used++;
			break;
		case 2:
			if (n == 0) break;
			i = (int)below((size_t)n);
			LIST_INSERT_AFTER(&h, ref[i], e);
			memmove(ref + i + 2, ref + i + 1, (size_t)(n - i - 1) * sizeof(*ref));
			ref[i + 1] = e; n++; used++;
			break;
		case 3:
			if (n == 0) break;
			i = (int)below((size_t)n);
			LIST_INSERT_BEFORE(ref[i], e);
			memmove(ref + i + 1, ref + i, (size_t)(n - i) * sizeof(*ref));
			ref[i] = e; n++; used++;
			break;
		case 4:
			if (n == 0) break;
			i = (int)below((size_t)n);
			LIST_REMOVE(&h, ref[i]);
			CHECK(!LIST_LINKED(ref[i]), "removed element still linked");
			memmove(ref + i, ref + i + 1, (size_t)(n - i - 1) * sizeof(*ref));
			n--;
			break;
		case 5:
			LIST_INSERT_TAIL(&g, e);
			other[k++] = e; used++;
			break;
		case 6:
			LIST_CONCAT(&h, &g);
			for (j = 0; j < k; j++)
				ref[n++] = other[j];
			k = 0;
			break;
		}
		list_same(&h, ref, n);
		list_same(&g, other, k);
	}
}

static const struct {
	const char *name;
	void (*fun)(void);
} tests[] = {
	{"arithmetic", t_arithmetic}, {"match", t_match}, {"split", t_split}, {"vector", t_vector}, {"map-str", t_map_str},
	{"map-int", t_map_int}, {"buffer", t_buffer}, {"read", t_read}, {"arena", t_arena}, {"list", t_list},
};

int
main(int argc, char *argv[])
{
	uint64_t seed;
	int n;

	if (argc != 4)
		return 2;
	seed = strtoull(argv[1], NULL, 10);
	n = atoi(argv[2]);
	guard_init();
	for (size_t t = 0; t < sizeof(tests) / sizeof(tests[0]); t++) {
		if (strcmp(argv[3], tests[t].name) != 0)
			continue;
		comp = tests[t].name;
		ops = 0;
		for (seqno = 0; seqno < (unsigned long)n; seqno++) {
			rs = (seed * 1000003 + t * 7919 + seqno) * 0x9E3779B97F4A7C15ULL + 1;
			for (int w = 0; w < 8; w++)
				rnd();
			tests[t].fun();
		}
		printf("OK %s %d %lu\n", comp, n, ops);
	}
	return 0;
}
