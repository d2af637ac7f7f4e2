/* C17: the client queue as a double-ended sequence, one thread. */
#include <aerospike/as_queue.h>
#include <alloca.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "the queue held at least 2 elements at some point and at least 4 calls changed it; distinct by choice sequence";

static uint8_t store[24 << 20];
static uint32_t lo, n, peak, changes, serial, total;
static uint32_t es;
static as_queue* q;

static uint32_t slots; /* of the store, for this element size */
#define BASE (slots / 2)
static uint8_t* el(uint32_t i) { return store + (size_t)(lo + i) * es; }
static void gen_el(uint8_t* v)
{
	/* every element distinct, in the first and last bytes alike */
	serial++;
	memset(v, es > 64 ? (uint8_t)(serial * 7) : 0x33, es);
	memcpy(v, &serial, es < 4 ? es : 4);
	v[es - 1] = (uint8_t)(serial * 31 + (es == 1 ? 0 : 1));
	if (es == 1) v[0] = (uint8_t)serial;
}
static void recentre(void)
{
	if (lo < 10 || lo + n + 10 > slots) { memmove(store + (size_t)BASE * es, store + (size_t)lo * es, (size_t)n * es); lo = BASE; }
}
static void step(void)
{
	static const unsigned w[] = { 8, 4, 6, 3, 8, 6, 3, 2 };
	recentre();
	uint8_t* v = vf_guarded(es);
	uint32_t cap = q->capacity;
	VF_CHECK(cap >= n, "capacity %u is below the %u elements held", cap, n);
	unsigned k = vf_pick(8, w);
	switch (k) {
	case 0: case 1: case 2: case 3: {
		gen_el(v);
		bool head = k >= 2, limited = k & 1;
		vf_note("push%s%s at %u/%u", head ? " head" : "", limited ? " limited" : "", n, cap);
		bool ok = head ? (limited ? as_queue_push_head_limit(q, v) : as_queue_push_head(q, v)) : limited ? as_queue_push_limit(q, v) : as_queue_push(q, v);
		bool want = !limited || n < cap;
		VF_CHECK(ok == want, "%s push with %u of capacity %u returned %d", limited ? "limited" : "plain", n, cap, ok);
		if (limited || n < cap) VF_CHECK(q->capacity == cap, "capacity changed from %u to %u though there was room or a limit", cap, q->capacity);
		if (ok) {
			if (head) lo--;
			memcpy(head ? store + (size_t)lo * es : el(n), v, es);
			n++; changes++;
			if (n > peak) peak = n;
		}
		break;
	}
	case 4: case 5: {
		bool tail = k == 5;
		memset(v, 0x11, es);
		vf_note("pop%s at %u", tail ? " tail" : "", n);
		bool ok = tail ? as_queue_pop_tail(q, v) : as_queue_pop(q, v);
		VF_CHECK(ok == (n > 0), "pop with %u elements returned %d", n, ok);
		if (ok) {
			VF_CHECK(!memcmp(v, el(tail ? n - 1 : 0), es), "pop%s gave another element", tail ? " from the tail" : "");
			if (!tail) lo++;
			n--; changes++;
		}
		break;
	}
	case 6: {
		vf_note("acquire at %u/%u", total, cap);
		bool ok = as_queue_incr_total(q);
		VF_CHECK(ok == (total < cap), "acquisition %u of %u returned %d", total, cap, ok);
		total += ok;
		break;
	}
	default:
		if (total == 0) break;
		vf_note("release at %u", total);
		as_queue_decr_total(q);
		total--;
	}
	VF_CHECK(as_queue_size(q) == n, "size is %u, expected %u", as_queue_size(q), n);
	VF_CHECK(as_queue_empty(q) == (n == 0), "emptiness is wrong for %u elements", n);
}

static void drain(void)
{
	uint8_t* v = vf_guarded(es);
	while (n) {
		VF_CHECK(as_queue_pop(q, v) && !memcmp(v, el(0), es), "draining: the element %u from the end differs", n);
		lo++; n--;
	}
	VF_CHECK(!as_queue_pop(q, v) && !as_queue_pop_tail(q, v), "draining: more elements than expected");
}

static const uint32_t sizes[] = { 8, 4, 1, 16, 2, 3, 7, 24, 33, 64 };
static void run(unsigned steps, uint32_t maxcap, uint32_t size, uint32_t fill)
{
	uint64_t base = vfa_live();
	es = size;
	slots = es > 64 ? sizeof(store) / es : fill ? 600000 : 5000;
	lo = BASE; n = peak = changes = total = 0; serial = 0;
	unsigned how = (unsigned)vf_draw(3);
	uint32_t cap = 1 + (uint32_t)vf_skewed(maxcap);
	as_queue st;
	memset(&st, 0x5a, sizeof(st));
	vf_note("item size %u capacity %u storage %u", es, cap, how);
	if (how == 0) { q = &st; VF_CHECK(as_queue_init(q, es, cap), "init failed"); }
	else if (how == 1) { q = as_queue_create(es, cap); VF_CHECK(q, "create failed"); }
	else { as_queue_inita(&st, es, cap); q = &st; }
	VF_CHECK(as_queue_size(q) == 0 && as_queue_empty(q), "a new queue is not empty");
	/* optional rotation before the history, without emptying */
	unsigned rot = (unsigned)vf_draw(cap + 2);
	if (rot) {
		uint8_t* v = vf_guarded(es);
		gen_el(v); as_queue_push(q, v); memcpy(el(n), v, es); n++;
		for (unsigned i = 1; i < rot && cap > 1; i++) {
			gen_el(v); as_queue_push(q, v); memcpy(el(n), v, es); n++;
			VF_CHECK(as_queue_pop(q, v) && !memcmp(v, el(0), es), "rotation gave another element"); lo++; n--;
		}
	}
	uint8_t* v = vf_guarded(es);
	while (n < fill) { gen_el(v); VF_CHECK(as_queue_push(q, v), "push failed"); memcpy(el(n), v, es); n++; peak = n; changes++; }
	for (unsigned i = 0; i < steps; i++) step();
	drain();
	as_queue_destroy(q);
	vfa_expect(base, "after destroying the queue");
	if (peak >= 2 && changes >= 4) vf_nontrivial();
	if (how == 2 && q->capacity > cap && peak) vf_label("stack storage outgrown");
}
static void history(void) { run((unsigned)vf_range(1, 40), 12, sizes[vf_skewed(10)], 0); }
static void deep(void) { run((unsigned)vf_range(100, 1500), 200, sizes[vf_skewed(10)], 0); }
/* Element sizes on both sides of the widths a length may be kept in. */
static void items(void)
{
	static const uint32_t big[] = { 127, 128, 255, 256, 257, 511, 512, 1000, 4096, 65535, 65536, 65537, 100000 };
	run((unsigned)vf_range(1, 25), 6, big[vf_skewed(13)], 0);
}
/* More elements than 8 and 16 bits count. */
static void many(void)
{
	static const uint32_t small[] = { 4, 3, 8, 16 };
	static const uint32_t at[] = { 250, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000 };
	run((unsigned)vf_range(1, 12), 300, small[vf_draw(4)], at[vf_skewed(13)]);
}

/* Queues of more bytes than 32 bits count, mostly untouched. */
static void stamp(uint8_t* v, uint32_t k) { memcpy(v, &k, 4); memcpy(v + es / 2, &k, 4); memcpy(v + es - 4, &k, 4); }
static bool stamped(const uint8_t* v, uint32_t k) { return !memcmp(v, &k, 4) && !memcmp(v + es / 2, &k, 4) && !memcmp(v + es - 4, &k, 4); }
static void wide_run(uint32_t size, uint32_t cap, uint32_t rot, uint32_t fill, unsigned steps)
{
	static uint32_t ids[256];
	uint32_t l = 128, c = 0, next = 1;
	uint64_t base = vfa_live();
	vfa_set_limit((size_t)1 << 36);
	es = size;
	vf_note("item size %u capacity %u rotated by %u, %u items", es, cap, rot, fill);
	vf_nontrivial();
	as_queue st;
	VF_CHECK(as_queue_init(&st, es, cap), "init failed");
	uint8_t* v = vf_guarded(es);
	for (uint32_t i = 0; i < rot; i++) {
		stamp(v, 1000000 + i);
		VF_CHECK(as_queue_push(&st, v), "push failed");
		if (i) VF_CHECK(as_queue_pop(&st, v) && stamped(v, 1000000 + i - 1), "rotation gave another element");
	}
	if (rot) ids[l + c++] = 1000000 + rot - 1;
	while (c < fill) { stamp(v, next); VF_CHECK(as_queue_push(&st, v), "push failed"); ids[l + c++] = next++; }
	for (unsigned i = 0; i < steps; i++) {
		switch (vf_draw(4)) {
		case 0: stamp(v, next); VF_CHECK(as_queue_push(&st, v), "push failed"); ids[l + c++] = next++; break;
		case 1: stamp(v, next); VF_CHECK(as_queue_push_head(&st, v), "head push failed"); ids[--l] = next++; c++; break;
		case 2: VF_CHECK(as_queue_pop(&st, v) == (c > 0), "pop with %u elements", c); if (c) { VF_CHECK(stamped(v, ids[l]), "pop gave another element"); l++; c--; } break;
		default: VF_CHECK(as_queue_pop_tail(&st, v) == (c > 0), "tail pop with %u elements", c); if (c) { VF_CHECK(stamped(v, ids[l + c - 1]), "tail pop gave another element"); c--; }
		}
		VF_CHECK(as_queue_size(&st) == c, "size is %u, expected %u", as_queue_size(&st), c);
	}
	for (; c; l++, c--) VF_CHECK(as_queue_pop(&st, v) && stamped(v, ids[l]), "draining gave another element");
	VF_CHECK(!as_queue_pop(&st, v), "more elements than expected");
	as_queue_destroy(&st);
	vfa_set_limit((size_t)3 << 30);
	vfa_expect(base, "after destroying the queue");
}
static void wide(void)
{
	static const uint32_t s[] = { 1 << 20, (1 << 20) + 4, 1 << 16, 3 << 20, 65537 };
	uint32_t size = s[vf_draw(5)], at = (uint32_t)((1ull << 32) / size), cap = at - 2 + (uint32_t)vf_draw(5) + (vf_chance(1, 3) ? (uint32_t)vf_draw(2 * at) : 0);
	wide_run(size, cap, vf_bool() ? (uint32_t)vf_draw(6) : 0, 0, (unsigned)vf_range(1, 16));
}
static void wide_growth(void)
{
	uint64_t i = vf_draw(2);
	wide_run(64 << 20, 32, i ? 9 : 0, 33, 0);
}

const vf_target vf_targets[] = {
	{ "wide", wide, 600, 6000, 0 },
	{ "wide_growth", wide_growth, 2, 2, VF_ENUM | VF_SERIAL },
	{ "history", history, 3000000, 30000000, VF_FUZZ },
	{ "deep", deep, 50000, 600000, 0 },
	{ "items", items, 20000, 200000, 0 },
	{ "many", many, 1500, 15000, 0 },
	{ 0 }
};
