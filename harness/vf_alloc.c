/* Stand-ins for the allocation functions used by the library objects. */
#define _GNU_SOURCE
#include "vf.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/* Fresh memory holds one of several patterns, so that a missing initialisation shows
 * whatever value would have hidden it. */
static unsigned junk_n; static bool junk_on;
uint8_t vf_junk(void)
{
	static const uint8_t pat[] = { 0xA5, 0x00, 0x01, 0xFF, 0xA5 };
	if (!junk_on) { junk_on = true; junk_n = (unsigned)(vf_choice_hash() % 5); }
	return pat[junk_n++ % 5];
}
void vf_junk_reset(void) { junk_on = false; }

#ifndef VFMT /* the controlled scheduler brings its own memory */
typedef struct { void* p; size_t n; } slot_t;
static slot_t* tab; static size_t cap, used, live;
static uint64_t nreq, fail_at, fail_from; static bool did_fail; static size_t limit = (size_t)3 << 30;
void (*vfa_on_free)(void* p, size_t n);
void (*vfa_on_alloc)(void* p, size_t n);
#define TOMB ((void*)1)

static size_t h(void* p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 32; return (size_t)x; }
static void put(void* p, size_t n);
static void grow(void)
{
	slot_t* o = tab; size_t oc = cap;
	cap = live * 4 < 1024 ? 1024 : live * 4;
	size_t c = 1024; while (c < cap) c *= 2; cap = c;
	tab = vf_xcalloc(cap, sizeof(slot_t)); used = live = 0;
	for (size_t i = 0; i < oc; i++) if (o[i].p && o[i].p != TOMB) put(o[i].p, o[i].n);
	vf_xfree(o);
}
static void put(void* p, size_t n)
{
	if ((used + 1) * 2 > cap) grow();
	size_t i = h(p) & (cap - 1);
	while (tab[i].p && tab[i].p != TOMB) i = (i + 1) & (cap - 1);
	if (!tab[i].p) used++;
	tab[i].p = p; tab[i].n = n; live++;
}
static slot_t* find(const void* p)
{
	if (!cap || !p) return NULL;
	size_t i = h((void*)p) & (cap - 1);
	while (tab[i].p) { if (tab[i].p == p) return &tab[i]; i = (i + 1) & (cap - 1); }
	return NULL;
}
static bool refuse(size_t n)
{
	nreq++;
	if (fail_at && --fail_at == 0) { did_fail = true; return true; }
	if (fail_from) { if (fail_from == 1) { did_fail = true; return true; } fail_from--; }
	return n > limit;
}

uint64_t vfa_live(void) { return live; }
uint64_t vfa_allocs(void) { return nreq; }
bool vfa_is_live(const void* p) { return find(p) != NULL; }
size_t vfa_size(const void* p) { slot_t* s = find(p); return s ? s->n : 0; }
void vfa_fail_at(uint64_t nth) { fail_at = nth; fail_from = 0; did_fail = false; }
void vfa_fail_from(uint64_t nth) { fail_from = nth; fail_at = 0; did_fail = false; }
bool vfa_failed(void) { return did_fail; }
void vfa_set_limit(size_t max) { limit = max; }
void vfa_reset(void)
{
	vf_junk_reset();
	fail_at = fail_from = 0; did_fail = false; vfa_on_free = NULL; vfa_on_alloc = NULL;
}
void vfa_expect(uint64_t want, const char* what)
{
	if (live != want) vf_fail("%s: %llu memory blocks outstanding, expected %llu", what, (unsigned long long)live, (unsigned long long)want);
}

void* vf_malloc(size_t n)
{
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	void* p = malloc(n);
	if (!p) return NULL;
	memset(p, vf_junk(), n < 65536 ? n : 65536);
	put(p, n);
	if (vfa_on_alloc) vfa_on_alloc(p, n);
	return p;
}
void* vf_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return NULL;
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	void* p = calloc(a, b);
	if (!p) return NULL;
	put(p, n);
	if (vfa_on_alloc) vfa_on_alloc(p, n);
	return p;
}
static void* aligned(size_t a, size_t n)
{
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	void* p;
	if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n)) return NULL;
	memset(p, vf_junk(), n < 65536 ? n : 65536);
	put(p, n);
	if (vfa_on_alloc) vfa_on_alloc(p, n);
	return p;
}
void vf_free(void* p)
{
	if (!p) return;
	slot_t* s = find(p);
	if (s) {
		if (vfa_on_free) vfa_on_free(p, s->n);
		s->p = TOMB; s->n = 0; live--;
	}
	free(p); /* unknown pointers: let the sanitizer judge */
}
void* vf_realloc(void* p, size_t n)
{
	if (!p) return vf_malloc(n);
	slot_t* s = find(p);
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	size_t old = s ? s->n : 0;
	/* always move, so stale pointers are caught */
	void* q = malloc(n);
	if (!q) return NULL;
	memset(q, vf_junk(), n < 65536 ? n : 65536);
	if (!s) { free(q); return realloc(p, n); }
	memcpy(q, p, old < n ? old : n);
	if (vfa_on_free) vfa_on_free(p, old);
	s->p = TOMB; s->n = 0; live--;
	free(p);
	put(q, n);
	if (vfa_on_alloc) vfa_on_alloc(q, n);
	return q;
}
#else
static void* aligned(size_t a, size_t n) { extern void* vf_malloc(size_t n); (void)a; return vf_malloc(n); }
#endif
void* vf_malloc(size_t n);
char* vf_strndup(const char* s, size_t n)
{
	size_t k = strnlen(s, n);
	char* p = vf_malloc(k + 1);
	if (!p) return NULL;
	memcpy(p, s, k); p[k] = 0;
	return p;
}
char* vf_strdup(const char* s)
{
	size_t k = strlen(s);
	char* p = vf_malloc(k + 1);
	if (!p) return NULL;
	memcpy(p, s, k + 1);
	return p;
}
void* vf_calloc(size_t a, size_t b);
void* vf_realloc(void* p, size_t n);
void* vf_reallocarray(void* p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return vf_realloc(p, n);
}
void* vf_memalign(size_t a, size_t n) { return aligned(a, n); }
void* vf_valloc(size_t n) { return aligned((size_t)sysconf(_SC_PAGESIZE), n); }
void* vf_aligned_alloc(size_t a, size_t n) { return aligned(a, n); }
int vf_posix_memalign(void** p, size_t a, size_t n) { *p = aligned(a, n); return *p ? 0 : ENOMEM; }
char* vf___strdup(const char* s) { return vf_strdup(s); }
char* vf___strndup(const char* s, size_t n) { return vf_strndup(s, n); }
