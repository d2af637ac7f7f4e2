/* C16: the array queue as a plain sequence, one thread. */
#include <citrusleaf/cf_queue.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "the queue held at least 2 elements at some point and at least 4 calls changed it; distinct by choice sequence";

#define MAXN 4096
static uint8_t* m; /* model: n elements of es bytes */
static uint32_t n, peak, changes;
static size_t es;
static cf_queue* q;
static unsigned alphabet;

static uint8_t* el(uint32_t i) { return m + (size_t)i * es; }
static void m_insert(uint32_t at, const uint8_t* v)
{
	memmove(m + (size_t)(at + 1) * es, m + (size_t)at * es, (size_t)(n - at) * es);
	memcpy(m + (size_t)at * es, v, es);
	n++; changes++;
	if (n > peak) peak = n;
}
static void m_remove(uint32_t at)
{
	memmove(m + (size_t)at * es, m + (size_t)(at + 1) * es, (size_t)(n - at - 1) * es);
	n--; changes++;
}
/* Elements from a small alphabet, with the difference at a drawn position. */
static uint8_t* gen_el(void)
{
	uint8_t* v = vf_guarded(es);
	unsigned k = (unsigned)vf_draw(alphabet);
	memset(v, es > 64 && vf_bool() ? 0x50 + k : 0x40, es);
	v[es > 1 && (k & 1) ? es - 1 : 0] = (uint8_t)(k * 7 + 1);
	if (es > 2) v[es / 2] = (uint8_t)(k >> 1);
	return v;
}
static int model_find(const uint8_t* v)
{
	for (uint32_t i = 0; i < n; i++) if (!memcmp(el(i), v, es)) return (int)i;
	return -1;
}

typedef struct { const int* rv; uint32_t nrv, seen, from; bool reverse; } walk;
static int on_el(void* p, void* ud)
{
	walk* w = ud;
	if (w->seen >= n) vf_fail("a reduce visits more than the %u elements held", n);
	uint32_t at = w->reverse ? n - 1 - w->seen : w->seen;
	VF_CHECK(!memcmp(p, el(at), es), "a reduce visit shows a wrong element at position %u of %u", at, n);
	int rv = w->seen < w->nrv ? w->rv[w->seen] : 0;
	w->seen++;
	return rv;
}
static int stop_none(void* p, void* ud) { return on_el(p, ud); }

static void verify(const char* what)
{
	VF_CHECK(cf_queue_sz(q) == n, "%s: size is %u, expected %u", what, cf_queue_sz(q), n);
	walk w = { NULL, 0, 0, 0, false };
	VF_CHECK(cf_queue_reduce(q, stop_none, &w) == CF_QUEUE_OK && w.seen == n, "%s: %u of %u elements visited", what, w.seen, n);
}

static void decisions(walk* w, int* rv, uint32_t cap, bool pop)
{
	/* mostly "continue", with a few stops or candidates */
	w->rv = rv; w->nrv = n < cap ? n : cap; w->seen = 0;
	for (uint32_t i = 0; i < w->nrv; i++) rv[i] = 0;
	uint32_t k = (uint32_t)vf_draw(pop ? 4 : 2);
	for (uint32_t j = 0; j < k && w->nrv; j++) {
		uint32_t at = (uint32_t)vf_draw(w->nrv);
		rv[at] = vf_bool() ? -2 : -1;
	}
}

static void step(bool ts)
{
	static const unsigned w[] = { 12, 4, 5, 4, 6, 3, 10, 4, 3, 4, 4, 1 };
	int rv[256];
	switch (vf_pick(12, w)) {
	case 0: {
		uint8_t* v = gen_el();
		vf_note("push");
		VF_CHECK(cf_queue_push(q, v) == CF_QUEUE_OK, "push failed");
		m_insert(n, v);
		break;
	}
	case 1: {
		uint8_t* v = gen_el();
		uint32_t lim = vf_bool() ? n + (uint32_t)vf_draw(3) - (n ? 1 : 0) : vf_uint32();
		vf_note("push with limit %u at %u", lim, n);
		bool ok = cf_queue_push_limit(q, v, lim);
		VF_CHECK(ok == (n < lim), "push with limit %u on %u elements returned %d", lim, n, ok);
		if (ok) m_insert(n, v);
		break;
	}
	case 2: {
		uint8_t* v = gen_el();
		uint32_t ix = vf_chance(1, 6) ? vf_uint32() : (uint32_t)vf_draw(n + 2);
		vf_note("push at index %u of %u", ix, n);
		VF_CHECK(cf_queue_push_index(q, v, ix) == CF_QUEUE_OK, "push at index failed");
		m_insert(ix < n ? ix : n, v);
		break;
	}
	case 3: {
		uint8_t* v = gen_el();
		int at = model_find(v);
		vf_note("push unique (%s)", at < 0 ? "new" : "held");
		int rc = cf_queue_push_unique(q, v);
		VF_CHECK(rc == (at < 0 ? CF_QUEUE_OK : -2), "unique push of a %s element returned %d", at < 0 ? "new" : "held", rc);
		if (at < 0) m_insert(n, v);
		break;
	}
	case 4: {
		uint8_t* v = gen_el();
		vf_note("push head");
		VF_CHECK(cf_queue_push_head(q, v) == CF_QUEUE_OK, "head push failed");
		m_insert(0, v);
		break;
	}
	case 5: {
		uint8_t* out = vf_guarded(es);
		int rc = cf_queue_peek(q, out);
		vf_note("peek");
		VF_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "peek on %u elements returned %d", n, rc);
		if (n) VF_CHECK(!memcmp(out, el(0), es), "peek shows another element");
		break;
	}
	case 6: {
		uint8_t* out = vf_guarded(es);
		int ms = n == 0 && ts ? 0 : (int)vf_draw(3) * 500 - 1;
		if (n == 0 && !ts && ms > 0) ms = 1;
		if (ms == 499) ms = 0;
		vf_note("pop wait %d", ms);
		int rc = cf_queue_pop(q, out, ms);
		VF_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "pop on %u elements returned %d", n, rc);
		if (n) { VF_CHECK(!memcmp(out, el(0), es), "pop gave another element than the head"); m_remove(0); }
		break;
	}
	case 7: case 8: {
		walk wk = { 0 };
		decisions(&wk, rv, 256, false);
		wk.reverse = vf_bool();
		vf_note("reduce %s", wk.reverse ? "from tail" : "from head");
		int rc = wk.reverse ? cf_queue_reduce_reverse(q, on_el, &wk) : cf_queue_reduce(q, on_el, &wk);
		VF_CHECK(rc == CF_QUEUE_OK, "reduce returned %d", rc);
		uint32_t want = n, del = n;
		for (uint32_t i = 0; i < wk.nrv; i++) if (rv[i]) { want = i + 1; if (rv[i] == -2) del = wk.reverse ? n - 1 - i : i; break; }
		VF_CHECK(wk.seen == want, "reduce visited %u elements, expected %u", wk.seen, want);
		if (del < n) m_remove(del);
		break;
	}
	case 9: {
		walk wk = { 0 };
		decisions(&wk, rv, 256, true);
		uint8_t* out = vf_guarded(es);
		vf_note("reduce pop of %u", n);
		int rc = cf_queue_reduce_pop(q, out, 0, on_el, &wk);
		VF_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "reduce pop on %u elements returned %d", n, rc);
		if (!n) { VF_CHECK(wk.seen == 0, "reduce pop on an empty queue visits an element"); break; }
		uint32_t best = 0, want = n;
		for (uint32_t i = 0; i < wk.nrv; i++) { if (rv[i]) best = i; if (rv[i] == -1) { want = i + 1; break; } }
		VF_CHECK(wk.seen == want, "reduce pop visited %u elements, expected %u", wk.seen, want);
		VF_CHECK(!memcmp(out, el(best), es), "reduce pop gave another element than position %u", best);
		m_remove(best);
		break;
	}
	case 10: {
		uint8_t* v = n && vf_chance(3, 4) ? el((uint32_t)vf_draw(n)) : gen_el();
		uint8_t* key = vf_guarded(es);
		memcpy(key, v, es);
		bool one = vf_bool();
		vf_note("delete %s of %u", one ? "one" : "all equal", n);
		int rc = cf_queue_delete(q, key, one);
		bool found = false;
		for (int at; (at = model_find(key)) >= 0;) { m_remove((uint32_t)at); found = true; if (one) break; }
		VF_CHECK(rc == (found ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "delete returned %d, element %s", rc, found ? "was held" : "was not held");
		break;
	}
	default: {
		bool null = vf_bool();
		vf_note("delete all of %u", n);
		int rc = null ? cf_queue_delete(q, NULL, false) : cf_queue_delete_all(q);
		VF_CHECK(rc == (n ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "delete all on %u elements returned %d", n, rc);
		if (n) changes++;
		n = 0;
	}
	}
}

static uint8_t store[8 << 20];
static void run(unsigned steps, size_t size)
{
	uint64_t base = vfa_live();
	m = store; n = peak = changes = 0;
	es = size;
	alphabet = es == 1 ? 5 : 2 + (unsigned)vf_draw(30);
	bool ts = vf_bool(), created = vf_chance(1, 5);
	uint32_t cap = 1 + (uint32_t)vf_skewed(24);
	cf_queue st;
	memset(&st, 0x5a, sizeof(st));
	vf_note("element size %zu capacity %u%s%s", es, created ? 64 : cap, created ? " created" : "", ts ? " locking" : "");
	if (created) { q = cf_queue_create(es, ts); VF_CHECK(q, "create failed"); }
	else { q = &st; VF_CHECK(cf_queue_init(q, es, cap, ts), "init failed"); }
	for (unsigned i = 0; i < steps; i++) { step(ts); verify("after the call"); }
	/* drain: order and contents */
	uint8_t* out = vf_guarded(es);
	while (n) {
		VF_CHECK(cf_queue_pop(q, out, 0) == CF_QUEUE_OK && !memcmp(out, el(0), es), "draining: element %u differs", n);
		m_remove(0);
	}
	VF_CHECK(cf_queue_pop(q, out, 0) == CF_QUEUE_EMPTY, "draining: more elements than expected");
	cf_queue_destroy(q);
	vfa_expect(base, "after destroying the queue");
	if (peak >= 2 && changes >= 4) vf_nontrivial();
	if (peak > 64) vf_label("over 64 elements");
	if (ts) vf_label("locking");
}

static const size_t sizes[] = { 8, 1, 4, 2, 16, 3, 7, 24, 33, 64 };
static void history(void) { run((unsigned)vf_range(1, 40), sizes[vf_skewed(10)]); }
static void deep(void) { run((unsigned)vf_range(100, 700), sizes[vf_skewed(10)]); }
/* Element sizes on both sides of the widths a length may be kept in. */
static void items(void)
{
	static const size_t big[] = { 127, 128, 255, 256, 257, 511, 512, 1000, 4096, 65535, 65536, 65537, 100000 };
	run((unsigned)vf_range(1, 25), big[vf_skewed(13)]);
}
/* More elements than 8 and 16 bits count, rotated, then a few calls. */
static void many(void)
{
	static const size_t small[] = { 1, 3, 4, 8 };
	static const uint32_t at[] = { 250, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000 };
	uint64_t base = vfa_live();
	es = small[vf_draw(4)];
	uint32_t want = at[vf_skewed(13)];
	m = store; n = peak = changes = 0; alphabet = 5;
	cf_queue st;
	memset(&st, 0x5a, sizeof(st));
	q = &st;
	uint32_t cap = 1 + (uint32_t)vf_skewed(300), rot = (uint32_t)vf_draw(cap + 1);
	VF_CHECK(cf_queue_init(q, es, cap, false), "init failed");
	vf_note("%u elements of %zu bytes, rotated by %u of %u", want, es, rot, cap);
	vf_rng r = { vf_draw(0) };
	uint8_t* out = vf_guarded(es);
	uint64_t x = 0;
	cf_queue_push(q, &x);
	for (uint32_t i = 1; i < rot && cap > 1; i++) { cf_queue_push(q, &x); cf_queue_pop(q, out, 0); }
	memcpy(el(0), &x, es); n = 1;
	while (n < want) {
		x = vf_rng_next(&r);
		VF_CHECK(cf_queue_push(q, &x) == CF_QUEUE_OK, "push failed");
		memcpy(el(n), &x, es);
		n++;
	}
	verify("filled");
	for (unsigned i = (unsigned)vf_range(1, 6); i; i--) step(false);
	verify("after the calls");
	cf_queue_destroy(q);
	vfa_expect(base, "after destroying the queue");
	vf_nontrivial();
}

/* Start with a full, rotated queue of chosen shape, then a few calls: every
 * wrap position meets every call. */
static void shapes(void)
{
	m = store; n = peak = changes = 0; es = vf_bool() ? 3 : 8; alphabet = 4;
	uint64_t base = vfa_live();
	uint32_t cap = (uint32_t)vf_range(1, 9);
	uint32_t rot = (uint32_t)vf_draw(cap + 1), fill = (uint32_t)vf_draw(cap + 1);
	cf_queue st;
	memset(&st, 0x5a, sizeof(st));
	q = &st;
	VF_CHECK(cf_queue_init(q, es, cap, false), "init failed");
	vf_note("capacity %u rotated by %u holding %u", cap, rot, fill);
	uint8_t* keep = gen_el();
	/* rotate while never empty, so offsets are not reset */
	if (fill) {
		cf_queue_push(q, keep); m_insert(n, keep);
		for (uint32_t i = 0; i < rot; i++) {
			if (cap == 1) break;
			uint8_t* v = gen_el(); cf_queue_push(q, v); m_insert(n, v);
			uint8_t* out = vf_guarded(es); cf_queue_pop(q, out, 0); m_remove(0);
		}
		while (n < fill) { uint8_t* v = gen_el(); cf_queue_push(q, v); m_insert(n, v); }
	}
	verify("prepared");
	unsigned k = (unsigned)vf_range(1, 6);
	for (unsigned i = 0; i < k; i++) { step(false); verify("after the call"); }
	cf_queue_destroy(q);
	vfa_expect(base, "after destroying the queue");
	if (peak >= 2 && changes >= 4) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "history", history, 2000000, 20000000, VF_FUZZ },
	{ "shapes", shapes, 5000000, 50000000, 0 },
	{ "deep", deep, 60000, 600000, 0 },
	{ "items", items, 20000, 200000, 0 },
	{ "many", many, 1500, 15000, 0 },
	{ 0 }
};
