#define _GNU_SOURCE
/* C15: text rendering of values. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_msgpack_ext.h>
#include <citrusleaf/alloc.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "model.h"
#include "vf_big.h"

const char* const vf_rule = "a container with at least one element, or a text of at least 16 characters; distinct by choice sequence";

static void put(mbuf* b, const char* s) { mb_put(b, s, strlen(s)); }

/* the text the value must render to; doubles are checked by value, marked by byte 1 */
static void text(mbuf* b, const mval* m)
{
	char t[64];
	switch (m->t) {
	case M_NIL: put(b, "NIL"); break;
	case M_BOOL: put(b, m->u.b ? "true" : "false"); break;
	case M_INT: snprintf(t, sizeof(t), "%" PRId64, m->u.i); put(b, t); break;
	case M_DBL: snprintf(t, sizeof(t), "%.16g", m->u.d); put(b, t); break;
	case M_STR: case M_GEO: put(b, "\""); mb_put(b, m->u.s.p, m->u.s.n); put(b, "\""); break;
	case M_BYTES:
		if (!m->u.s.n) { put(b, "<NULL>"); break; } /* no text of its own */
		for (uint32_t i = 0; i < m->u.s.n; i++) { snprintf(t, sizeof(t), i ? " %02X" : "%02X", m->u.s.p[i]); put(b, t); }
		break;
	case M_LIST:
		put(b, "[");
		for (uint32_t i = 0; i < m->u.c.n; i++) { if (i) put(b, ", "); text(b, m->u.c.e[i]); }
		put(b, "]");
		break;
	case M_MAP:
		put(b, "{");
		for (uint32_t i = 0; i < m->u.c.n; i++) { if (i) put(b, ", "); text(b, m->u.c.e[2 * i]); put(b, ":"); text(b, m->u.c.e[2 * i + 1]); }
		put(b, "}");
		break;
	case M_WILD: put(b, "*"); break;
	case M_INF: put(b, "INF"); break;
	default: vf_fail("harness: type");
	}
}

static void compare(char* s, const mbuf* b, const char* what)
{
	VF_CHECK(s != NULL, "%s: no text", what);
	size_t n = strlen(s);
	size_t d = 0;
	while (d < n && d < b->n && s[d] == (char)b->p[d]) d++;
	VF_CHECK(n == b->n && d == n, "%s: text of %zu characters differs from the expected %zu at %zu: '%.40s' / '%.40s'", what, n, b->n, d, s + (d < n ? d : n), (char*)b->p + (d < b->n ? d : b->n));
	VF_CHECK(vfa_size(s) > n, "%s: text exceeds its memory", what);
	cf_free(s);
}

static void check(const mval* m)
{
	uint64_t base = vfa_live();
	if (vf_describing()) vf_note("%s", m_show(m));
	mbuf b = { 0 };
	text(&b, m);
	if (((m->t == M_LIST || m->t == M_MAP) && m->u.c.n) || b.n >= 16) vf_nontrivial();
	mb_u8(&b, 0); b.n--;
	as_val* v = m_build(m);
	uint64_t live = vfa_live();
	char* s = as_val_tostring(v);
	if (m->t == M_BYTES && !m->u.s.n && !s) vf_label("empty blob");
	else {
		if (m->t == M_BYTES && !m->u.s.n) b.n = 0;
		compare(s, &b, "value");
	}
	vfa_expect(live, "after rendering");
	m_expect(v, m, "value after rendering");
	/* scalars identify their value */
	if (m->t == M_DBL) {
		s = as_val_tostring(v);
		double d = strtod(s, NULL);
		double e = m->u.d, diff = d - e;
		VF_CHECK(d == e || (diff < 0 ? -diff : diff) <= (e < 0 ? -e : e) * 1e-15, "double %.17g renders as %s", e, s);
		cf_free(s);
	}
	/* as part of a pair, on both sides */
	if (vf_chance(1, 3)) {
		as_pair* p = as_pair_new(as_val_reserve(v), (as_val*)as_integer_new(5));
		mbuf q = { 0 };
		put(&q, "("); text(&q, m); put(&q, ", 5)");
		mb_u8(&q, 0); q.n--;
		compare(as_val_tostring(p), &q, "pair, first");
		as_val_destroy(p);
		p = as_pair_new((as_val*)as_integer_new(5), as_val_reserve(v));
		q.n = 0;
		put(&q, "(5, "); text(&q, m); put(&q, ")");
		mb_u8(&q, 0); q.n--;
		compare(as_val_tostring(p), &q, "pair, second");
		as_val_destroy(p);
	}
	as_val_destroy(v);
	vfa_expect(base, "after destroying");
}

static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 60), .depth = 5, .wild = vf_chance(1, 5) };
	check(m_gen(&c));
}
static void scalars(void)
{
	mcfg c = { .wild = true };
	check(m_gen_scalar(&c));
}
/* element lengths that end at, before and after each buffer step */
static void edges(void)
{
	unsigned n = (unsigned)vf_range(1, 6);
	bool map = vf_bool();
	mval* m = map ? m_map(n) : m_list(n);
	size_t used = 1;
	static const size_t step[] = { 1024, 1280, 1536, 1792, 2048, 2304, 3072, 4096 };
	for (unsigned i = 0; i < n; i++) {
		size_t k;
		size_t target = step[vf_draw(8)];
		size_t extra = used + 2 + 2 + (map ? 4 : 0);
		if (vf_bool() && target > extra) { k = target - extra + (size_t)vf_draw(9); k = k > 4 ? k - 4 : 0; }
		else k = (size_t)vf_draw(400);
		char* t = vf_tmp(k + 1);
		vf_fill_text(t, k);
		mval* s = m_str(t, (uint32_t)k);
		if (map) { m->u.c.e[2 * i] = m_int((int64_t)i); m->u.c.e[2 * i + 1] = s; }
		else m->u.c.e[i] = s;
		used += k + 4 + (map ? 2 : 0);
	}
	check(m);
}
static void deep(void)
{
	mcfg c = { .budget = 8, .depth = 1 };
	check(m_gen_deep(&c, (unsigned)vf_range(2, 300)));
}
static void large(void)
{
	mcfg c = { .budget = 12, .depth = 3, .big = true };
	check(m_gen(&c));
}
/* texts far beyond one step, ending at any length */
static void lengthy(void)
{
	static const uint32_t edge[] = { 8192, 16384, 32768, 65536, 131072, 1u << 20, 1u << 24 };
	static const unsigned w[] = { 4, 4, 4, 6, 4, 2, 1 };
	unsigned n = (unsigned)vf_range(1, 4), at = (unsigned)vf_draw(n);
	mcfg c = { .budget = 4, .depth = 1 };
	uint32_t k = edge[vf_pick(7, w)];
	k = vf_chance(1, 3) ? k / 2 + (uint32_t)vf_draw(k) : k - 12 + (uint32_t)vf_draw(16);
	char* t = vf_tmp(k + 1);
	vf_rng r = { vf_draw(0) };
	for (uint32_t i = 0; i < k; i++) t[i] = (char)(' ' + vf_rng_next(&r) % 90);
	bool bytes = k < 200000 && vf_bool();
	mval* big = bytes ? m_bytes(t, k / 3, 4) : m_str(t, k);
	if (vf_chance(1, 4)) { check(big); return; }
	bool map = vf_bool();
	mval* m = map ? m_map(n) : m_list(n);
	for (unsigned i = 0; i < n; i++) {
		mval* e = i == at ? big : m_gen(&c);
		if (map) { m->u.c.e[2 * i] = m_int((int64_t)i); m->u.c.e[2 * i + 1] = e; }
		else m->u.c.e[i] = e;
	}
	check(m);
}
static bool rd(as_rec* r) { (void)r; return true; }
static void record(void)
{
	static const as_rec_hooks h = { .destroy = rd };
	uint64_t base = vfa_live();
	as_rec* r = as_rec_new(NULL, &h);
	as_arraylist* l = as_arraylist_new(2, 2);
	int64_t k = vf_int64();
	as_arraylist_append_int64(l, k);
	as_arraylist_append(l, (as_val*)r);
	mbuf q = { 0 };
	put(&q, vf_fmt("[%" PRId64 ", [ REC ]]", k));
	mb_u8(&q, 0); q.n--;
	vf_nontrivial();
	compare(as_val_tostring(l), &q, "list with a record");
	as_arraylist_destroy(l);
	vfa_expect(base, "after destroying");
}

/* A blob whose text does not fit into memory has no text. */
static void giant(void)
{
	static const uint32_t at[] = { 0x40000000, 0x40000001, 0x55555555, 0x55555556, 0x60000000, 0x7fffffff, 0x80000000, 0xaaaaaaab, 0xffffffff };
	uint32_t n = at[vf_draw(9)] - (vf_bool() ? (uint32_t)vf_draw(3) : 0);
	uint64_t base = vfa_live();
	uint8_t* s = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	VF_CHECK(s != MAP_FAILED, "cannot map the blob");
	vf_note("blob of %u bytes", n);
	vf_nontrivial();
	as_bytes b;
	as_bytes_init_wrap(&b, s, n, false);
	vfa_set_limit((size_t)1 << 30);
	char* t = as_val_tostring(&b);
	vfa_set_limit((size_t)3 << 30);
	VF_CHECK(t == NULL, "a text without the memory for it");
	as_bytes_destroy(&b);
	munmap(s, n);
	vfa_expect(base, "after destroying");
}

/* A text of more than 2^31 characters. */
static void huge(void)
{
	uint32_t n = 716000000 + (uint32_t)vf_draw(1) * 7;
	uint64_t base = vfa_live();
	uint8_t* s = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	VF_CHECK(s != MAP_FAILED, "cannot map the blob");
	s[n - 1] = 0xab;
	vf_note("blob of %u bytes", n);
	vf_nontrivial();
	as_bytes b;
	as_bytes_init_wrap(&b, s, n, false);
	char* t = as_val_tostring(&b);
	VF_CHECK(t && strlen(t) == (size_t)3 * n - 1, "text of %zu characters for %u bytes", t ? strlen(t) : 0, n);
	VF_CHECK(!memcmp(t, "00 00 ", 6) && !memcmp(t + (size_t)3 * (n - 2), "00 AB", 5), "the text is wrong at its ends");
	for (size_t i = 3; i < (size_t)3 * n - 6; i += 30000003) VF_CHECK(!memcmp(t + i, "00 ", 3), "the text is wrong at %zu", i);
	cf_free(t);
	as_bytes_destroy(&b);
	munmap(s, n);
	vfa_expect(base, "after destroying");
}

/* Containers whose text is longer than 4 GiB. */
static void wide(void)
{
	unsigned k = (unsigned)vf_draw(4);
	size_t n = ((size_t)4 << 30) + (size_t)vf_draw(1000);
	uint64_t base = vfa_live();
	vf_big s = vf_big_make(n, vf_draw(0), true);
	vfa_set_limit((size_t)12 << 30);
	as_string* str = as_string_new((char*)s.p, false);
	as_val* v;
	const char *pre, *post;
	static const char* name[] = { "list", "map with the text as value", "map with the text as key", "pair" };
	vf_note("%s, text of %zu characters", name[k], n);
	if (k == 0) {
		as_arraylist* l = as_arraylist_new(3, 1);
		as_arraylist_append_int64(l, 7); as_arraylist_append(l, (as_val*)str); as_arraylist_append_int64(l, 8);
		v = (as_val*)l; pre = "[7, \""; post = "\", 8]";
	}
	else if (k == 3) { v = (as_val*)as_pair_new((as_val*)as_integer_new(7), (as_val*)str); pre = "(7, \""; post = "\")"; }
	else {
		as_orderedmap* m = as_orderedmap_new(3);
		if (k == 1) { as_orderedmap_set(m, (as_val*)as_integer_new(5), (as_val*)str); pre = "{5:\""; post = "\"}"; }
		else { as_orderedmap_set(m, (as_val*)str, (as_val*)as_integer_new(6)); pre = "{\""; post = "\":6}"; }
		v = (as_val*)m;
	}
	char* t = as_val_tostring(v);
	size_t a = strlen(pre), b = strlen(post);
	VF_CHECK(t && strlen(t) == a + n + b, "%s: text of %zu characters, expected %zu", name[k], t ? strlen(t) : 0, a + n + b);
	VF_CHECK(!memcmp(t, pre, a) && !memcmp(t + a, s.p, n) && !memcmp(t + a + n, post, b), "%s: the text differs", name[k]);
	cf_free(t);
	as_val_destroy(v);
	vfa_set_limit((size_t)3 << 30);
	vfa_expect(base, "after destroying");
	vf_big_free(&s);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "huge", huge, 1, 1, VF_ENUM | VF_SERIAL },
	{ "wide", wide, 2, 4, VF_ENUM | VF_SERIAL | VF_LONG },
	{ "giant", giant, 64, 400, 0 },
	{ "trees", trees, 300000, 5000000, VF_FUZZ },
	{ "scalars", scalars, 1500000, 10000000, VF_FUZZ },
	{ "edges", edges, 300000, 8000000, VF_FUZZ },
	{ "deep", deep, 8000, 80000, 0 },
	{ "large", large, 300, 3000, 0 },
	{ "lengthy", lengthy, 1600, 16000, 0 },
	{ "record", record, 20000, 50000, 0 },
	{ 0 }
};
