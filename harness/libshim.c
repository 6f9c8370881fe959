/* Plain interface to DuckLib (allocator, containers, conversions) of one build variant. Only public headers. */
#include <stdlib.h>
#include <string.h>
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"
#include "DuckLib/trie.h"
#include "DuckLib/string.h"
#include "DuckLib/sort.h"

#define EXPORT __attribute__((visibility("default")))

/* ---- the allocator ---- */

typedef struct {
	dl_memoryAllocation_t ma;
	char *arena;
	size_t size;
} lm_t;

EXPORT lm_t *lm_new(size_t size, int fit, int *error) {
	lm_t *m = calloc(1, sizeof *m);
	m->size = size;
	m->arena = malloc(size);
	memset(m->arena, 0xA5, size);
	*error = dl_memory_init(&m->ma, m->arena, size, (dl_memoryFit_t) fit);
	return m;
}
EXPORT void lm_delete(lm_t *m) {
	free(m->arena);
	free(m);
}
EXPORT char *lm_arena(lm_t *m) { return m->arena; }
/* Offsets are relative to the arena; -1 is the null pointer. */
static void *at(lm_t *m, long off) { return off == -1 ? NULL : m->arena + off; }
static long off(lm_t *m, void *p) { return p ? (long) ((char *) p - m->arena) : -1; }
EXPORT int lm_malloc(lm_t *m, size_t size, long *o) {
	void *p = NULL;
	int e = dl_malloc(&m->ma, &p, size);
	*o = e ? -1 : off(m, p);
	return e;
}
EXPORT int lm_free(lm_t *m, long o) {
	void *p = at(m, o);
	return dl_free(&m->ma, &p);
}
EXPORT int lm_realloc(lm_t *m, long *o, size_t size) {
	void *p = at(m, *o);
	int e = dl_realloc(&m->ma, &p, size);
	if (!e) *o = off(m, p);
	return e;
}
EXPORT size_t lm_usage(lm_t *m) {
	dl_size_t n = 0;
	dl_memory_usage(&n, m->ma);
	return n;
}
EXPORT size_t lm_saveSize(lm_t *m) { return sizeof m->ma + m->size; }
EXPORT void lm_save(lm_t *m, char *b) {
	memcpy(b, &m->ma, sizeof m->ma);
	memcpy(b + sizeof m->ma, m->arena, m->size);
}
EXPORT void lm_restore(lm_t *m, const char *b) {
	memcpy(&m->ma, b, sizeof m->ma);
	memcpy(m->arena, b + sizeof m->ma, m->size);
}
/* Identity of the allocator's state: everything but its statistics and the contents of the blocks. */
EXPORT size_t lm_identity(lm_t *m, char *b, size_t n) {
	dl_memoryAllocation_t a = m->ma;
	a.used = a.max_used = 0;
	size_t k = sizeof a;
	memcpy(b, &a, k);
	size_t t = a.blockList_length * sizeof *a.blockList;
	if (k + t > n) return 0;
	memcpy(b + k, a.blockList, t);
	return k + t;
}
/* The part of the arena which the allocator keeps for itself. */
EXPORT void lm_table(lm_t *m, long *start, size_t *length) {
	*start = off(m, m->ma.blockList);
	*length = m->ma.blockList_length * sizeof *m->ma.blockList;
}
EXPORT size_t lm_entrySize(void) { return sizeof(dl_memoryBlock_t); }

/* ---- containers ---- */

typedef struct {
	dl_memoryAllocation_t ma;
	char *arena;
	dl_array_t array;
	dl_trie_t trie;
} lc_t;

EXPORT lc_t *lc_new(size_t memory) {
	lc_t *c = calloc(1, sizeof *c);
	c->arena = malloc(memory);
	memset(c->arena, 0xA5, memory);
	if (dl_memory_init(&c->ma, c->arena, memory, dl_memoryFit_best)) abort();
	return c;
}
EXPORT void lc_delete(lc_t *c) {
	free(c->arena);
	free(c);
}
EXPORT size_t lc_usage(lc_t *c) {
	dl_size_t n = 0;
	dl_memory_usage(&n, c->ma);
	return n;
}
EXPORT void la_init(lc_t *c, size_t elementSize, int strategy) { dl_array_init(&c->array, &c->ma, elementSize, strategy ? dl_array_strategy_double : dl_array_strategy_fit); }
EXPORT int la_quit(lc_t *c) { return dl_array_quit(&c->array); }
EXPORT int la_push(lc_t *c, void *x) { return dl_array_pushElement(&c->array, x); }
EXPORT int la_pushSeveral(lc_t *c, const void *x, size_t n) { return dl_array_pushElements(&c->array, x, n); }
EXPORT int la_pop(lc_t *c, void *x) { return dl_array_popElement(&c->array, x); }
EXPORT int la_popSeveral(lc_t *c, void *x, size_t n) { return dl_array_popElements(&c->array, x, n); }
EXPORT int la_getTop(lc_t *c, void *x) { return dl_array_getTop(&c->array, x); }
EXPORT int la_setTop(lc_t *c, void *x) { return dl_array_setTop(&c->array, x); }
EXPORT int la_get(lc_t *c, void *x, long i) { return dl_array_get(&c->array, x, i); }
EXPORT int la_set(lc_t *c, const void *x, long i) { return dl_array_set(&c->array, x, i); }
EXPORT int la_clear(lc_t *c) { return dl_array_clear(&c->array); }
EXPORT size_t la_length(lc_t *c) { return c->array.elements_length; }
EXPORT const void *la_elements(lc_t *c) { return c->array.elements; }

EXPORT void lt_init(lc_t *c, long null) { dl_trie_init(&c->trie, &c->ma, null); }
EXPORT int lt_quit(lc_t *c) { return dl_trie_quit(&c->trie); }
EXPORT int lt_insert(lc_t *c, const char *key, size_t n, long value) { return dl_trie_insert(&c->trie, (const dl_uint8_t *) key, n, value); }
EXPORT long lt_find(lc_t *c, const char *key, size_t n) {
	dl_ptrdiff_t i = -77;
	dl_trie_find(c->trie, &i, (const dl_uint8_t *) key, n);
	return (long) i;
}

EXPORT void ls_sort(int how, void *array, size_t length, size_t size, long low, long high, int (*cmp)(const void *, const void *, const void *), const void *context) {
	if (how == 0) heapsort(array, length, size, cmp, context);
	else if (how == 1) quicksort_lomuto(array, length, size, low, high, cmp, context);
	else quicksort_hoare(array, length, size, low, high, cmp, context);
}

/* ---- conversions: the text is returned in the container's array ---- */
EXPORT int lx_fromInt(lc_t *c, long x) { return dl_string_fromPtrdiff(&c->array, x); }
EXPORT int lx_fromSize(lc_t *c, size_t x) { return dl_string_fromSize(&c->array, x); }
EXPORT int lx_fromUint8(lc_t *c, unsigned char x) { return dl_string_fromUint8(&c->array, x); }
EXPORT int lx_fromBool(lc_t *c, int x) { return dl_string_fromBool(&c->array, x ? dl_true : dl_false); }
EXPORT int lx_toInt(long *x, const char *s, size_t n) {
	dl_ptrdiff_t r = 0;
	int e = dl_string_toPtrdiff(&r, (const dl_uint8_t *) s, n);
	*x = (long) r;
	return e;
}
EXPORT int lx_toDouble(double *x, const char *s, size_t n) { return dl_string_toDouble(x, (const dl_uint8_t *) s, n); }
EXPORT int lx_toBool(int *x, const char *s, size_t n) {
	dl_bool_t r = dl_false;
	int e = dl_string_toBool(&r, (const dl_uint8_t *) s, n);
	*x = r ? 1 : 0;
	return e;
}
EXPORT int lx_compare(const char *a, size_t n, const char *b, size_t m) {
	dl_bool_t r = dl_false;
	dl_string_compare(&r, (const dl_uint8_t *) a, n, (const dl_uint8_t *) b, m);
	return r ? 1 : 0;
}
EXPORT int lx_comparePartial(const char *a, const char *b, size_t n) {
	dl_bool_t r = dl_false;
	dl_string_compare_partial(&r, (const dl_uint8_t *) a, (const dl_uint8_t *) b, n);
	return r ? 1 : 0;
}
EXPORT int lx_class(unsigned char c) {
	return (dl_string_isDigit(c) ? 1 : 0) | (dl_string_isHexadecimalDigit(c) ? 2 : 0) | (dl_string_isAlpha(c) ? 4 : 0) | (dl_string_isSpace(c) ? 8 : 0);
}
EXPORT int lx_lower(int c) { return dl_string_toLower(c); }
EXPORT int lx_upper(int c) { return dl_string_toUpper(c); }
EXPORT void lx_copy(void *d, const void *s, size_t n, int noOverlap) { if (noOverlap) dl_memcopy_noOverlap(d, s, n); else dl_memcopy(d, s, n); }
EXPORT void lx_clear(void *d, size_t n) { dl_memclear(d, n); }
EXPORT size_t lx_strlen(const char *s) {
	dl_size_t n = 0;
	dl_strlen(&n, (const dl_uint8_t *) s);
	return n;
}
EXPORT int lx_hex(unsigned char c) { return dl_nybbleToHexChar(c); }
