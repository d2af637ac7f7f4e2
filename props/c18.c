/* C18: the vector as an array. */
#include <aerospike/as_vector.h>
#include <alloca.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "the vector held at least 2 elements at some point and at least 4 calls changed it; distinct by choice sequence";

static uint8_t store[24 << 20];
static uint32_t n, peak, changes, es;
static as_vector* v;

static uint8_t* el(uint32_t i) { return store + (size_t)i * es; }
static uint8_t* gen_el(void)
{
	uint8_t* p = vf_guarded(es);
	unsigned k = (unsigned)vf_draw(12);
	memset(p, es > 64 && vf_bool() ? 0x30 + k : 0x22, es);
	p[k & 1 ? es - 1 : 0] = (uint8_t)(k + 1);
	return p;
}
static void verify(void)
{
	VF_CHECK(v->size == n, "size is %u, expected %u", v->size, n);
	VF_CHECK(v->capacity >= n, "capacity %u is below size %u", v->capacity, n);
	for (uint32_t i = 0; i < n; i++) {
		const uint8_t* p = as_vector_get(v, i);
		VF_CHECK(!memcmp(p, el(i), es), "element %u of %u differs", i, n);
	}
}
static void step(void)
{
	static const unsigned w[] = { 10, 5, 5, 6, 6, 1, 3, 2, 1 };
	if ((uint64_t)(n + 2) * es > sizeof(store)) return;
	switch (vf_pick(9, w)) {
	case 0: {
		uint8_t* p = gen_el();
		vf_note("append at %u", n);
		as_vector_append(v, p);
		memcpy(el(n), p, es); n++; changes++;
		break;
	}
	case 1: {
		uint8_t* p = gen_el();
		bool held = false;
		for (uint32_t i = 0; i < n && !held; i++) held = !memcmp(el(i), p, es);
		vf_note("append unique (%s)", held ? "held" : "new");
		bool ok = as_vector_append_unique(v, p);
		VF_CHECK(ok == !held, "unique append of a %s element returned %d", held ? "held" : "new", ok);
		if (ok) { memcpy(el(n), p, es); n++; changes++; }
		break;
	}
	case 2: {
		if (!n) break;
		uint32_t i = (uint32_t)vf_draw(n);
		uint8_t* p = gen_el();
		vf_note("set %u", i);
		as_vector_set(v, i, p);
		memcpy(el(i), p, es); changes++;
		break;
	}
	case 3: {
		vf_note("reserve at %u", n);
		uint8_t* p = as_vector_reserve(v);
		VF_CHECK(p == as_vector_get(v, n), "the reserved slot is not the new last element");
		for (uint32_t i = 0; i < es; i++) VF_CHECK(p[i] == 0, "byte %u of a reserved slot is %u, not zero", i, p[i]);
		memset(el(n), 0, es); n++; changes++;
		if (vf_bool()) { uint8_t* x = gen_el(); memcpy(p, x, es); memcpy(el(n - 1), x, es); }
		break;
	}
	case 4: {
		uint32_t i = vf_chance(1, 6) ? n + (uint32_t)vf_draw(3) : vf_chance(1, 12) ? vf_uint32() : (uint32_t)vf_draw(n + 1);
		vf_note("remove %u of %u", i, n);
		bool ok = as_vector_remove(v, i);
		VF_CHECK(ok == (i < n), "remove of %u from %u elements returned %d", i, n, ok);
		if (ok) { memmove(el(i), el(i + 1), (size_t)(n - i - 1) * es); n--; changes++; }
		break;
	}
	case 5:
		vf_note("clear");
		as_vector_clear(v);
		n = 0;
		break;
	case 6: {
		uint32_t k = 0xffffffff;
		uint64_t live = vfa_live();
		vf_note("to array");
		uint8_t* a = as_vector_to_array(v, &k);
		VF_CHECK(k == n, "the array has %u elements, expected %u", k, n);
		VF_CHECK(a && (void*)a != v->list, "the array is missing or shared");
		VF_CHECK(vfa_size(a) >= (size_t)n * es, "the array is smaller than its elements");
		VF_CHECK(!memcmp(a, store, (size_t)n * es), "the array differs from the elements");
		cf_free(a);
		vfa_expect(live, "after freeing the array");
		break;
	}
	case 7: {
		if (es != sizeof(void*)) break;
		vf_note("pointer element");
		void* x = &v;
		as_vector_append(v, &x);
		memcpy(el(n), &x, es); n++; changes++;
		VF_CHECK(as_vector_get_ptr(v, n - 1) == x, "a stored pointer reads back differently");
		break;
	}
	default: {
		uint32_t cap = v->capacity;
		if (cap > 1000 || (uint64_t)cap * es > (1 << 22)) break;
		vf_note("increase capacity from %u", cap);
		as_vector_increase_capacity(v);
		VF_CHECK(v->capacity > cap, "capacity did not grow");
	}
	}
	if (n > peak) peak = n;
}
static const uint32_t sizes[] = { 8, 4, 1, 16, 2, 3, 7, 24, 33, 64 };
static void run(unsigned steps, uint32_t maxcap, uint32_t size)
{
	uint64_t base = vfa_live();
	n = peak = changes = 0;
	es = size;
	unsigned how = (unsigned)vf_draw(3);
	uint32_t cap = 1 + (uint32_t)vf_skewed(maxcap);
	as_vector st;
	memset(&st, 0x5a, sizeof(st));
	vf_note("item size %u capacity %u storage %u", es, cap, how);
	if (how == 0) { v = &st; as_vector_init(v, es, cap); }
	else if (how == 1) v = as_vector_create(es, cap);
	else { as_vector_inita(&st, es, cap); v = &st; }
	VF_CHECK(v->size == 0, "a new vector is not empty");
	for (unsigned i = 0; i < steps; i++) { step(); verify(); }
	as_vector_destroy(v);
	vfa_expect(base, "after destroying the vector");
	if (peak >= 2 && changes >= 4) vf_nontrivial();
}
static void history(void) { run((unsigned)vf_range(1, 40), 10, sizes[vf_skewed(10)]); }
static void deep(void) { run((unsigned)vf_range(100, 900), 100, sizes[vf_skewed(10)]); }
/* Item sizes on both sides of the widths a length may be kept in. */
static void items(void)
{
	static const uint32_t big[] = { 127, 128, 255, 256, 257, 511, 512, 1000, 4096, 65535, 65536, 65537, 100000 };
	run((unsigned)vf_range(1, 25), 6, big[vf_skewed(13)]);
}
/* More elements than 8 and 16 bits count. */
static void many(void)
{
	uint64_t base = vfa_live();
	static const uint32_t small[] = { 1, 3, 4, 8, 16 };
	static const uint32_t at[] = { 250, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000 };
	es = small[vf_draw(5)];
	uint32_t want = at[vf_skewed(13)];
	n = peak = changes = 0;
	as_vector st;
	v = &st;
	uint32_t cap = 1 + (uint32_t)vf_skewed(300);
	unsigned how = (unsigned)vf_draw(3);
	if (how == 0) as_vector_init(v, es, cap);
	else if (how == 1) v = as_vector_create(es, cap);
	else { as_vector_inita(&st, es, cap); v = &st; }
	vf_note("%u elements of %u bytes, capacity %u, storage %u", want, es, cap, how);
	vf_rng r = { vf_draw(0) };
	while (n < want) {
		uint64_t x[2] = { vf_rng_next(&r), vf_rng_next(&r) };
		memcpy(el(n), x, es);
		as_vector_append(v, x);
		n++;
	}
	verify();
	for (unsigned i = (unsigned)vf_range(1, 12); i; i--) step();
	verify();
	as_vector_destroy(v);
	vfa_expect(base, "after destroying the vector");
	vf_nontrivial();
}

/* Vectors of more bytes than 32 bits count. */
static void stamp(uint8_t* p, uint32_t k) { memcpy(p, &k, 4); memcpy(p + es / 2, &k, 4); memcpy(p + es - 4, &k, 4); }
static bool stamped(const uint8_t* p, uint32_t k) { return !memcmp(p, &k, 4) && !memcmp(p + es / 2, &k, 4) && !memcmp(p + es - 4, &k, 4); }
static void wide_run(uint32_t size, uint32_t cap, uint32_t fill, bool created)
{
	uint64_t base = vfa_live();
	vfa_set_limit((size_t)1 << 36);
	es = size;
	vf_note("item size %u capacity %u, %u items", es, cap, fill);
	vf_nontrivial();
	as_vector st, *x = created ? as_vector_create(es, cap) : &st;
	if (!created) as_vector_init(x, es, cap);
	uint8_t* p = vf_guarded(es);
	for (uint32_t i = 0; i < fill; i++) {
		stamp(p, i + 1);
		if (i % 4 == 3) stamp(as_vector_reserve(x), i + 1);
		else as_vector_append(x, p);
	}
	for (uint32_t i = 0; i < fill; i++) VF_CHECK(stamped(as_vector_get(x, i), i + 1), "element %u differs", i);
	if (fill > 2) {
		stamp(p, 77777);
		as_vector_set(x, fill - 1, p);
		VF_CHECK(stamped(as_vector_get(x, 0), 1) && stamped(as_vector_get(x, fill - 1), 77777), "an element set is elsewhere");
		VF_CHECK(as_vector_remove(x, 1) && x->size == fill - 1, "remove failed");
		for (uint32_t i = 0; i < fill - 1; i++) VF_CHECK(stamped(as_vector_get(x, i), i == 0 ? 1 : i == fill - 2 ? 77777 : i + 2), "element %u differs after removing one", i);
	}
	as_vector_destroy(x);
	vfa_set_limit((size_t)3 << 30);
	vfa_expect(base, "after destroying the vector");
}
static void wide(void)
{
	static const uint32_t s[] = { 1 << 20, (1 << 20) + 4, 1 << 16, 3 << 20, 65537 };
	uint32_t size = s[vf_draw(5)], at = (uint32_t)((1ull << 32) / size), cap = at - 2 + (uint32_t)vf_draw(5) + (vf_chance(1, 3) ? (uint32_t)vf_draw(2 * at) : 0);
	wide_run(size, cap, (uint32_t)vf_range(1, 12), vf_bool());
}
static void wide_full(void)
{
	if (vf_draw(2)) wide_run(64 << 20, 33, 34, true);
	else wide_run(64 << 20, 66, 65, false);
}

const vf_target vf_targets[] = {
	{ "wide", wide, 600, 6000, 0 },
	{ "wide_full", wide_full, 2, 2, VF_ENUM | VF_SERIAL },
	{ "history", history, 6000000, 60000000, VF_FUZZ },
	{ "deep", deep, 60000, 600000, 0 },
	{ "items", items, 20000, 200000, 0 },
	{ "many", many, 1500, 15000, 0 },
	{ 0 }
};
