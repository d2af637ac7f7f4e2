/* C22: the buffer pool; one thread, all sizes. */
#include <aerospike/as_buffer_pool.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "a buffer was given back and a later request was served from the pool, or an oversized buffer was handled; distinct by choice sequence";

#define MAXB 64
static uint32_t BIG; /* a block above this size cannot be allocated */
typedef struct { uint8_t* p; uint32_t cap; uint8_t tag; bool over; } buf_t;
static buf_t held[MAXB]; static unsigned nheld;
static uint8_t* pooled[MAXB]; static unsigned npooled;
static as_buffer_pool pool;
static uint32_t hs, bs;
static uint8_t tag;

static size_t touched(const buf_t* b) { size_t n = (size_t)b->cap + hs; return n; }
static void check_held(const buf_t* b)
{
	size_t n = touched(b), step = n > 4096 ? n / 512 : 1;
	for (size_t i = 0; i < n; i += step) VF_CHECK(b->p[i] == b->tag, "a buffer of %u bytes changed at offset %zu while held", b->cap, i);
	if (n) VF_CHECK(b->p[n - 1] == b->tag, "the last byte of a buffer changed while held");
}
static uint32_t gen_size(void)
{
	static const unsigned w[] = { 4, 3, 2, 1, 1 };
	uint32_t c = bs > hs ? bs - hs : 0;
	switch (vf_pick(5, w)) {
	case 0: return (uint32_t)vf_skewed((uint64_t)c + 3);
	case 1: return c + 3 > 6 ? c - 3 + (uint32_t)vf_draw(7) : (uint32_t)vf_draw(7);
	case 2: return (uint32_t)vf_range(0, 5000);
	case 3: return UINT32_MAX - (uint32_t)vf_skewed((uint64_t)hs + bs + 10);
	default: return vf_uint32();
	}
}

static void history(uint32_t most, bool large)
{
	BIG = most;
	static const uint32_t sz[] = { 0, 1, 8, 24, 100, 1024, 4096 };
	hs = vf_chance(1, 3) ? (uint32_t)vf_skewed(300) : sz[vf_draw(7)];
	bs = vf_chance(1, 3) ? (uint32_t)vf_skewed(5000) : sz[vf_draw(7)];
	if (large) {
		static const uint32_t lg[] = { 65535, 65536, 65537, 131072, 262144, 1u << 20, 4u << 20, 16u << 20 };
		if (vf_bool()) hs = lg[vf_draw(7)] - (uint32_t)vf_draw(3);
		if (vf_chance(3, 4)) bs = vf_bool() ? lg[vf_draw(8)] - 1 + (uint32_t)vf_draw(3) : (uint32_t)vf_draw(2u << 20);
	}
	if (vf_chance(1, 40)) hs = UINT32_MAX - (uint32_t)vf_draw(3);
	if (vf_chance(3, 4) && bs < hs) bs = hs + (large ? bs & 0xfffff : bs & 0xfff);
	nheld = npooled = 0; tag = 0;
	vfa_set_limit(BIG);
	uint64_t base = vfa_live();
	VF_CHECK(as_buffer_pool_init(&pool, hs, bs) == 0, "initializing the pool failed");
	uint64_t own = vfa_live(); /* what the pool itself needs; its queue may grow by replacing a block */
	unsigned ops = 1 + (unsigned)vf_skewed(60), reused = 0, over = 0;
	vf_note("header %u, buffer %u", hs, bs);
	for (unsigned k = 0; k < ops; k++) {
		static const unsigned w[] = { 6, 4, 3, 1 };
		switch (vf_pick(4, w)) {
		case 0: {
			if (nheld == MAXB - 1 || npooled + nheld >= MAXB - 1) break;
			uint32_t want = gen_size();
			as_buffer_result r = { (void*)1, 0xA5A5A5A5 };
			int rc = as_buffer_pool_pop(&pool, want, &r);
			vf_note("get %u: %d", want, rc);
			uint64_t need = (uint64_t)want + hs;
			if (need <= bs && bs > BIG) { VF_CHECK(rc == -1, "a buffer of %u bytes cannot be allocated but the call returned %d", bs, rc); break; }
			if (need > bs) {
				if (need > BIG) { VF_CHECK(rc == -1, "a request for %u bytes with header %u cannot be served but returned %d (capacity %u)", want, hs, rc, r.capacity); over++; break; }
				VF_CHECK(rc == 2, "an oversized request of %u bytes returned %d", want, rc);
				over++;
			}
			else VF_CHECK(rc == (npooled ? 0 : 1), "a request of %u bytes with %u pooled buffers returned %d", want, npooled, rc);
			VF_CHECK(r.capacity >= want, "a request for %u bytes got a capacity of %u", want, r.capacity);
			VF_CHECK(vfa_is_live(r.data), "a buffer handed out is not allocated memory");
			VF_CHECK(vfa_size(r.data) >= (uint64_t)r.capacity + hs, "a buffer with capacity %u and header %u has only %zu bytes", r.capacity, hs, vfa_size(r.data));
			for (unsigned i = 0; i < nheld; i++) VF_CHECK(held[i].p != r.data, "a buffer still held is handed out again");
			bool was = false;
			for (unsigned i = 0; i < npooled; i++) if (pooled[i] == r.data) { pooled[i] = pooled[--npooled]; was = true; break; }
			VF_CHECK(was == (rc == 0), "the call reports %d but the buffer is %s", rc, was ? "from the pool" : "new");
			if (was) reused++;
			buf_t* b = &held[nheld++];
			b->p = r.data; b->cap = r.capacity; b->tag = ++tag; b->over = rc == 2;
			memset(b->p, b->tag, touched(b));
			break;
		}
		case 1: case 2: {
			if (!nheld) break;
			unsigned i = (unsigned)vf_draw(nheld);
			bool limited = vf_bool();
			uint32_t max = limited ? (uint32_t)vf_skewed(8) : 0;
			buf_t b = held[i];
			check_held(&b);
			held[i] = held[--nheld];
			int rc = limited ? as_buffer_pool_push_limit(&pool, b.p, b.cap, max) : as_buffer_pool_push(&pool, b.p, b.cap);
			vf_note("give back %u%s%u: %d", b.cap, limited ? " limit " : " no limit ", max, rc);
			if (b.over) { VF_CHECK(rc == -2, "giving back an oversized buffer of %u returned %d", b.cap, rc); VF_CHECK(!vfa_is_live(b.p), "an oversized buffer is kept"); }
			else if (limited && npooled >= max) { VF_CHECK(rc == -1, "giving back to a pool of %u with limit %u returned %d", npooled, max, rc); VF_CHECK(!vfa_is_live(b.p), "a buffer above the limit is kept"); }
			else { VF_CHECK(rc == 0, "giving back to a pool of %u returned %d", npooled, rc); VF_CHECK(vfa_is_live(b.p), "a pooled buffer was freed"); pooled[npooled++] = b.p; }
			break;
		}
		case 3: {
			int cnt = vf_chance(1, 8) ? -(int)vf_draw(3) : (int)vf_skewed(10);
			int rc = as_buffer_pool_drop_buffers(&pool, cnt);
			vf_note("drop %d of %u: %d", cnt, npooled, rc);
			int want = cnt < 0 ? 0 : cnt < (int)npooled ? cnt : (int)npooled;
			VF_CHECK(rc == want, "dropping %d of %u buffers returned %d", cnt, npooled, rc);
			unsigned live = 0;
			for (unsigned i = 0; i < npooled;) { if (vfa_is_live(pooled[i])) { live++; i++; } else pooled[i] = pooled[--npooled]; }
			VF_CHECK((int)live == (int)npooled, "harness");
			(void)want;
			break;
		}
		}
		VF_CHECK(vfa_live() == own + nheld + npooled, "%llu blocks allocated, expected %u held and %u pooled", (unsigned long long)(vfa_live() - own), nheld, npooled);
	}
	for (unsigned i = 0; i < nheld; i++) check_held(&held[i]);
	bool before = vf_bool();
	if (before) { while (nheld) { buf_t b = held[--nheld]; as_buffer_pool_push(&pool, b.p, b.cap); } }
	as_buffer_pool_destroy(&pool);
	for (unsigned i = 0; i < nheld; i++) { VF_CHECK(vfa_is_live(held[i].p), "destroying the pool freed a buffer still held"); check_held(&held[i]); }
	vfa_expect(base + nheld, "after destroying the pool");
	if (reused || over) vf_nontrivial();
	if (reused) vf_label("reused");
	if (over) vf_label("oversized");
}

static void run(void) { history(256u << 10, false); }
static void large(void) { vf_label("large"); history(48u << 20, true); }

const vf_target vf_targets[] = {
	{ "history", run, 4000000, 40000000, 0 },
	{ "large", large, 3000, 30000, 0 },
	{ NULL }
};
