/* C22: the buffer pool used by several threads. */
#include <aerospike/as_buffer_pool.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "at least two threads used the pool and the run contained a preemption; distinct by choice sequence";

enum { GET, PUT, PUT_LIMIT, DROP };
static const char* name(unsigned k) { static const char* const s[] = { "get", "put", "put_limit", "drop" }; return s[k]; }
static as_buffer_pool pool;
static uint32_t hs, bs;
static void* owned[64]; static unsigned nowned;  /* buffers in someone's hands */

static bool apply(void* st, const vfmt_op* o)
{
	int32_t* n = st;
	if (!o->done) return false;
	switch (o->op) {
	case GET: if (o->a > (int64_t)bs - hs) return o->r == 2; if (*n) { --*n; return o->r == 0; } return o->r == 1;
	case PUT: if (o->a > (int64_t)bs - hs) return o->r == -2; ++*n; return o->r == 0;
	case PUT_LIMIT: if (o->a > (int64_t)bs - hs) return o->r == -2; if (*n < o->b) { ++*n; return o->r == 0; } return o->r == -1;
	case DROP: if (*n) { --*n; return o->r == 1; } return o->r == 0;
	}
	return false;
}

typedef struct { uint8_t op; uint32_t a; uint32_t b; } instr;
static instr prog[VFMT_MAX][8];
static unsigned plen[VFMT_MAX];
typedef struct { uint8_t* p; uint32_t cap; } have_t;

static void get(have_t* h, uint32_t size)
{
	as_buffer_result r = { NULL, 0 };
	vfmt_op* o = vfmt_call(GET, size, 0);
	int rc = as_buffer_pool_pop(&pool, size, &r);
	vfmt_ret(o, rc, 0);
	VF_CHECK(rc >= 0 && r.data && r.capacity >= size, "a request for %u bytes returned %d with capacity %u", size, rc, r.capacity);
	VF_CHECK(vfa_size(r.data) >= (size_t)r.capacity + hs, "a buffer of capacity %u has only %zu bytes", r.capacity, vfa_size(r.data));
	for (unsigned i = 0; i < nowned; i++) VF_CHECK(owned[i] != r.data, "one buffer is in two threads' hands");
	owned[nowned++] = r.data;
	h->p = r.data; h->cap = r.capacity;
	vfmt_touch(h->p, (size_t)h->cap + hs, true);
	memset(h->p, (int)vfmt_self() + 1, (size_t)h->cap + hs);
}
static void put(have_t* h, bool limited, uint32_t max)
{
	for (size_t i = 0; i < (size_t)h->cap + hs; i++) VF_CHECK(h->p[i] == vfmt_self() + 1, "a buffer changed while its thread held it");
	unsigned i; for (i = 0; i < nowned && owned[i] != h->p; i++) ;
	owned[i] = owned[--nowned];
	vfmt_op* o = vfmt_call(limited ? PUT_LIMIT : PUT, h->cap, max);
	int rc = limited ? as_buffer_pool_push_limit(&pool, h->p, h->cap, max) : as_buffer_pool_push(&pool, h->p, h->cap);
	vfmt_ret(o, rc, 0);
}
static void* body(void* arg)
{
	unsigned t = (unsigned)(uintptr_t)arg, n = 0;
	have_t h[8];
	for (unsigned i = 0; i < plen[t]; i++) {
		instr* in = &prog[t][i];
		if (in->op == GET) get(&h[n++], in->a);
		else if (in->op == DROP) { vfmt_op* o = vfmt_call(DROP, 1, 0); vfmt_ret(o, as_buffer_pool_drop_buffers(&pool, 1), 0); }
		else if (n) { n--; put(&h[n], in->op == PUT_LIMIT, in->b); }
	}
	while (n) { n--; put(&h[n], false, 0); }
	return NULL;
}

static void run(void)
{
	hs = (uint32_t)vf_draw(2) * 8;
	bs = hs + 8 + (uint32_t)vf_draw(3) * 8;
	nowned = 0;
	vfmt_begin();
	uint64_t base = vfa_live();
	VF_CHECK(as_buffer_pool_init(&pool, hs, bs) == 0, "initializing the pool failed");
	unsigned nt = 2 + (unsigned)vf_draw(2), preload = (unsigned)vf_draw(3);
	have_t h[2];
	for (unsigned i = 0; i < preload; i++) get(&h[i], 1);
	for (unsigned i = 0; i < preload; i++) put(&h[i], false, 0);
	for (unsigned t = 1; t <= nt; t++) {
		plen[t] = 1 + (unsigned)vf_draw(4);
		for (unsigned i = 0; i < plen[t]; i++) {
			static const unsigned w[] = { 5, 2, 2, 1 };
			instr* in = &prog[t][i];
			in->op = i == 0 && !vf_chance(1, 6) ? GET : (uint8_t)vf_pick(4, w);
			in->a = vf_chance(1, 6) ? bs - hs + 1 + (uint32_t)vf_draw(8) : (uint32_t)vf_draw(bs - hs + 1);
			in->b = (uint32_t)vf_draw(3);
			vf_note("T%u: %s(%u,%u)", t, name(in->op), in->a, in->b);
		}
	}
	pthread_t th[VFMT_MAX];
	for (unsigned t = 1; t <= nt; t++) VF_CHECK(pthread_create(&th[t], NULL, body, (void*)(uintptr_t)t) == 0, "harness: thread");
	VF_CHECK(vfmt_settle() == 0, "a thread stays blocked");
	for (unsigned t = 1; t <= nt; t++) pthread_join(th[t], NULL);
	int32_t n0 = 0;
	VF_CHECK(vfmt_linearizable(&n0, sizeof(n0), apply, NULL), "no sequential order explains the results: %s", vfmt_history(name));
	as_buffer_pool_destroy(&pool);
	vfmt_end();
	vfa_expect(base, "after destroying the pool");
	if (vfmt_preempts()) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "threads", run, 12000000, 100000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
