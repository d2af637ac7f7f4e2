#define _GNU_SOURCE
/* C41: allocation calls and reference-counted blocks. */
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"

const char* const vf_rule = "a block is resized, shared or refused while others are held (history), shared (references), or the text is cut or not terminated (duplicates); distinct by choice sequence";

typedef struct { uint8_t* p; size_t n; uint8_t* m; uint32_t refs; bool counted; } blk;

static size_t gen_size(void)
{
	static const size_t edge[] = { 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537 };
	if (vf_chance(1, 60)) return edge[18 + vf_draw(6)];
	if (vf_chance(1, 200)) return 1 + vf_draw(200000);
	switch (vf_draw(3)) {
	case 0: return edge[vf_draw(18)];
	case 1: return 1 + vf_skewed(2000);
	default: return 1 + vf_draw(100);
	}
}
/* sizes no allocator can give; with the room for a counter they may even wrap around */
static size_t gen_hopeless(void)
{
	return vf_bool() ? SIZE_MAX - vf_draw(64) : ((size_t)1 << (48 + vf_draw(15))) + vf_draw(1000);
}
static void scribble(blk* b)
{
	vf_rng r = { vf_draw(0) };
	for (size_t i = 0; i < b->n; i++) b->p[i] = b->m[i] = (uint8_t)vf_rng_next(&r);
}
static void verify(const blk* b, const char* when)
{
	for (size_t i = 0; i < b->n; i++) VF_CHECK(b->p[i] == b->m[i], "%s: byte %zu of a block of %zu changed from %02x to %02x", when, i, b->n, b->m[i], b->p[i]);
}
static void take(blk* b, void* p, size_t n, bool counted, const char* what)
{
	VF_CHECK(p, "%s: no block of %zu bytes", what, n);
	size_t al = n >= 8 ? 8 : 1; /* enough for any scalar that fits */
	VF_CHECK(((uintptr_t)p & (al - 1)) == 0, "%s: block at %p not aligned", what, p);
	b->p = p; b->n = n; b->m = vf_xmalloc(n ? n : 1); b->counted = counted; b->refs = 1;
}

static void history(void)
{
	enum { MAX = 8 };
	blk b[MAX]; unsigned n = 0;
	uint64_t live0 = vfa_live();
	unsigned ops = 1 + (unsigned)vf_draw(30);
	bool acted = false;
	for (unsigned k = 0; k < ops; k++) {
		unsigned op = (unsigned)vf_draw(12);
		size_t sz; void* p;
		bool refuse = vf_chance(1, 10), hopeless = refuse && vf_bool();
		if (n == 0 && op >= 6) op = (unsigned)vf_draw(6);
		if (n == MAX && op < 6) op = 6 + (unsigned)vf_draw(6);
		blk* x = op >= 6 ? &b[vf_draw(n)] : &b[n];
		if (op < 6) {
			sz = hopeless ? gen_hopeless() : gen_size();
			if (refuse && !hopeless) vfa_fail_at(1);
		}
		switch (op) {
		case 0: case 1:
			vf_note("%u: %s %zu%s", k, op ? "realloc of nothing to" : "malloc", sz, refuse ? " (refused)" : "");
			p = op ? cf_realloc(NULL, sz) : cf_malloc(sz);
			if (refuse) { vfa_fail_at(0); VF_CHECK(!p, "malloc of %zu bytes gave a block without memory", sz); acted = acted || n; break; }
			take(x, p, sz, false, "malloc"); scribble(x); n++;
			break;
		case 2: {
			size_t a, c;
			if (hopeless) { a = vf_bool() ? ((size_t)1 << 32) + vf_draw(100) : SIZE_MAX / (1 + vf_draw(8)); c = SIZE_MAX / a + 1 + vf_draw(100); if (vf_bool()) { size_t t = a; a = c; c = t; } }
			else { c = vf_bool() ? 1 : 1 + vf_draw(40); a = sz / c ? sz / c : 1; }
			vf_note("%u: calloc %zu x %zu%s", k, a, c, refuse ? " (refused)" : "");
			p = cf_calloc(a, c);
			if (refuse) { vfa_fail_at(0); VF_CHECK(!p, "calloc of %zu x %zu gave a block without memory", a, c); acted = acted || n; break; }
			take(x, p, a * c, false, "calloc");
			for (size_t i = 0; i < a * c; i++) VF_CHECK(x->p[i] == 0, "calloc of %zu x %zu: byte %zu is %02x", a, c, i, x->p[i]);
			scribble(x); n++;
			break;
		}
		case 3:
			vf_note("%u: valloc %zu%s", k, sz, refuse ? " (refused)" : "");
			p = cf_valloc(sz);
			if (refuse) { vfa_fail_at(0); VF_CHECK(!p, "valloc of %zu bytes gave a block without memory", sz); acted = acted || n; break; }
			VF_CHECK(((uintptr_t)p & ((uintptr_t)sysconf(_SC_PAGESIZE) - 1)) == 0, "valloc: block at %p is not at the start of a page", p);
			take(x, p, sz, false, "valloc"); scribble(x); n++;
			break;
		case 4: case 5:
			vf_note("%u: rc_alloc %zu%s", k, sz, refuse ? " (refused)" : "");
			p = cf_rc_alloc(sz);
			if (refuse) { vfa_fail_at(0); VF_CHECK(!p, "rc_alloc of %zu bytes gave a block without memory", sz); acted = acted || n; break; }
			take(x, p, sz, true, "rc_alloc"); scribble(x); n++;
			break;
		default:
			verify(x, "before use");
			if (!x->counted) {
				if (op < 9) {
					sz = hopeless ? gen_hopeless() : vf_chance(1, 5) ? x->n : gen_size();
					if (refuse && !hopeless) vfa_fail_at(1);
					vf_note("%u: realloc %zu -> %zu%s", k, x->n, sz, refuse ? " (refused)" : "");
					p = cf_realloc(x->p, sz);
					if (refuse) { vfa_fail_at(0); VF_CHECK(!p, "realloc to %zu bytes gave a block without memory", sz); verify(x, "after a refused realloc"); acted = true; break; }
					size_t keep = sz < x->n ? sz : x->n;
					uint8_t* old = x->m;
					take(x, p, sz, false, "realloc");
					memcpy(x->m, old, keep);
					vf_xfree(old);
					for (size_t i = 0; i < keep; i++) VF_CHECK(x->p[i] == x->m[i], "realloc to %zu bytes: byte %zu changed from %02x to %02x", sz, i, x->m[i], x->p[i]);
					scribble(x); acted = acted || n > 1;
				}
				else {
					vf_note("%u: free %zu", k, x->n);
					cf_free(x->p); vf_xfree(x->m); *x = b[--n];
				}
			}
			else if (op < 9) {
				uint32_t r = cf_rc_reserve(x->p); x->refs++;
				vf_note("%u: reserve -> %u", k, r);
				VF_CHECK(r == x->refs, "reserve reports %u references, %u are held", r, x->refs);
				verify(x, "after reserve"); acted = true;
			}
			else if (op < 11) {
				uint32_t r = cf_rc_releaseandfree(x->p); x->refs--;
				vf_note("%u: releaseandfree -> %u", k, r);
				VF_CHECK(r == x->refs, "release and free reports %u references, %u are held", r, x->refs);
				if (x->refs) { acted = true; verify(x, "after release"); }
				else { vf_xfree(x->m); *x = b[--n]; }
			}
			else {
				uint32_t r = cf_rc_release(x->p); x->refs--;
				vf_note("%u: release -> %u", k, r);
				VF_CHECK(r == x->refs, "release reports %u references, %u are held", r, x->refs);
				verify(x, "after release"); /* the block outlives its last reference until it is freed */
				if (x->refs) acted = true;
				else { cf_rc_free(x->p); vf_xfree(x->m); *x = b[--n]; }
			}
		}
		vfa_expect(live0 + n, "after a step");
	}
	for (unsigned i = 0; i < n; i++) {
		verify(&b[i], "at the end");
		if (b[i].counted) cf_rc_free(b[i].p); else cf_free(b[i].p);
		vf_xfree(b[i].m);
		vfa_expect(live0 + n - 1 - i, "after freeing");
	}
	cf_free(NULL);
	if (acted) vf_nontrivial();
}

/* many references to one block */
static void references(void)
{
	static const uint32_t edge[] = { 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000 };
	uint64_t live0 = vfa_live();
	blk b;
	size_t sz = gen_size();
	take(&b, cf_rc_alloc(sz), sz, true, "rc_alloc"); scribble(&b);
	uint32_t peak = vf_bool() ? edge[vf_draw(11)] : (uint32_t)vf_skewed(70000);
	vf_note("%zu bytes, up to %u references", sz, peak + 1);
	for (uint32_t i = 0; i < peak; i++) { uint32_t r = cf_rc_reserve(b.p); VF_CHECK(r == i + 2, "reserve reports %u references, %u are held", r, i + 2); }
	uint64_t how = vf_draw(0);
	vf_rng rg = { how };
	for (uint32_t i = peak; i > 0; i--) {
		bool f = (vf_rng_next(&rg) & 1) != 0;
		uint32_t r = f ? cf_rc_releaseandfree(b.p) : cf_rc_release(b.p);
		VF_CHECK(r == i, "%s reports %u references, %u are held", f ? "release and free" : "release", r, i);
	}
	vfa_expect(live0 + 1, "one reference left");
	verify(&b, "with one reference left");
	if (how & 1) VF_CHECK(cf_rc_releaseandfree(b.p) == 0, "the last release does not report zero");
	else { VF_CHECK(cf_rc_release(b.p) == 0, "the last release does not report zero"); verify(&b, "before the block is freed"); cf_rc_free(b.p); }
	vfa_expect(live0, "no reference left");
	vf_xfree(b.m);
	if (peak) vf_nontrivial();
}

static void duplicates(void)
{
	uint64_t live0 = vfa_live();
	size_t len = vf_chance(1, 100) ? gen_size() : vf_draw(40);
	vf_rng r = { vf_draw(0) };
	bool refuse = vf_chance(1, 12);
	if (vf_bool()) {
		char* s = vf_guarded(len + 1);
		for (size_t i = 0; i < len; i++) s[i] = (char)(1 + vf_rng_next(&r) % 255);
		s[len] = 0;
		vf_note("strdup of %zu characters%s", len, refuse ? " (refused)" : "");
		if (refuse) vfa_fail_at(1);
		char* d = cf_strdup(s);
		if (refuse) { vfa_fail_at(0); VF_CHECK(!d, "strdup gave a text without memory"); vfa_expect(live0, "after a refused strdup"); return; }
		VF_CHECK(d && d != s && strlen(d) == len && memcmp(d, s, len + 1) == 0, "strdup of %zu characters differs from the original", len);
		memset(d, 'x', len + 1);
		for (size_t i = 0; i < len; i++) VF_CHECK(s[i], "writing to the duplicate changed the original");
		vfa_expect(live0 + 1, "after strdup");
		cf_free(d);
		if (len) vf_nontrivial();
	}
	else {
		/* the source ends at len with or without a terminator; without one the limit keeps the call inside */
		bool term = vf_bool();
		size_t lim = !term ? vf_draw(len + 1) : vf_chance(1, 8) ? SIZE_MAX - vf_draw(3) : vf_draw(2 * len + 3);
		char* s = vf_guarded(term ? len + 1 : len ? len : 1);
		for (size_t i = 0; i < len; i++) s[i] = (char)(1 + vf_rng_next(&r) % 255);
		size_t seen = len;
		if (len && vf_chance(1, 5)) { seen = vf_draw(len); s[seen] = 0; }
		if (term) s[len] = 0;
		if (!term && vf_bool()) lim = len; /* exactly to the edge */
		size_t want = lim < seen ? lim : seen;
		vf_note("strndup of at most %zu of %zu characters, %sterminated%s", lim, seen, term ? "" : "not ", refuse ? " (refused)" : "");
		if (refuse) vfa_fail_at(1);
		char* d = cf_strndup(s, lim);
		if (refuse) { vfa_fail_at(0); VF_CHECK(!d, "strndup gave a text without memory"); vfa_expect(live0, "after a refused strndup"); return; }
		VF_CHECK(d && d != s && strlen(d) == want && memcmp(d, s, want) == 0, "strndup with limit %zu of %zu characters gives %zu", lim, seen, d ? strlen(d) : 0);
		memset(d, 'x', want + 1);
		vfa_expect(live0 + 1, "after strndup");
		cf_free(d);
		if (want < len || !term) vf_nontrivial();
	}
	vfa_expect(live0, "after freeing the duplicate");
}

/* blocks past 4 GiB */
static void wide(void)
{
	uint64_t live0 = vfa_live();
	size_t k = vf_draw(6), sz = ((size_t)1 << 32) + 1 + vf_draw(100000);
	vfa_set_limit((size_t)6 << 30);
	uint8_t* p = NULL;
	static const char* name[] = { "malloc", "calloc", "calloc", "realloc", "valloc", "rc_alloc" };
	vf_note("%s of %zu bytes", name[k], sz);
	switch (k) {
	case 0: p = cf_malloc(sz); break;
	case 1: sz = (sz / 65536 + 1) * 65536; p = cf_calloc(sz / 65536, 65536); break;
	case 2: p = cf_calloc(1, sz); break;
	case 3: p = cf_malloc(100); VF_CHECK(p, "no block of 100 bytes"); memset(p, 7, 100); p = cf_realloc(p, sz); break;
	case 4: p = cf_valloc(sz); break;
	default: p = cf_rc_alloc(sz);
	}
	VF_CHECK(p, "%s: no block of %zu bytes", name[k], sz);
	vf_rng r = { vf_draw(0) };
	for (int i = 0; i < 3000; i++) {
		size_t at = i < 8 ? sz - 1 - (size_t)i : i < 16 ? ((size_t)1 << 32) - 8 + (size_t)(i - 8) : (size_t)(vf_rng_next(&r) % sz);
		if (at >= sz) continue;
		if (k == 1 || k == 2) VF_CHECK(p[at] == 0 || p[at] == 0x5a, "calloc of %zu bytes: byte %zu is %02x", sz, at, p[at]);
		p[at] = 0x5a;
	}
	if (k == 5) {
		VF_CHECK(cf_rc_reserve(p) == 2 && cf_rc_release(p) == 1, "wrong number of references");
		VF_CHECK(p[sz - 1] == 0x5a, "the last byte changed");
		VF_CHECK(cf_rc_releaseandfree(p) == 0, "the last release does not report zero");
	}
	else cf_free(p);
	vfa_expect(live0, "after freeing");
	vfa_set_limit((size_t)3 << 30);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "history", history, 600000, 6000000, 0 },
	{ "duplicates", duplicates, 1500000, 12000000, 0 },
	{ "references", references, 8000, 60000, 0 },
	{ "wide", wide, 8, 60, VF_SERIAL },
	{ 0 }
};
