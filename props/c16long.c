/* C16, C17: histories longer than the queues' 30-bit counters, at full speed. */
#include <aerospike/as_queue.h>
#include <citrusleaf/cf_queue.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "every case: a queue that never empties takes more than 2^32 calls; distinct by configuration";

typedef struct { uint32_t cap, depth; unsigned mix; } conf;
/* mix 0: push/pop; 1: with a pair of head push and pop at intervals; 2: with reduces at intervals */
static const conf confs[] = {
	{ 3, 1, 0 }, { 5, 5, 1 }, { 7, 3, 2 }, { 6, 4, 1 }, { 100, 99, 2 }, { 1, 1, 0 }, { 12, 11, 1 }, { 64, 20, 2 },
};

static uint32_t want_first, seen;
static int visit(void* p, void* ud)
{
	uint32_t v;
	(void)ud;
	memcpy(&v, p, 4);
	VF_CHECK(v == want_first + seen, "a reduce shows %u, expected %u", v, want_first + seen);
	seen++;
	return 0;
}
static int visit_back(void* p, void* ud)
{
	uint32_t v;
	memcpy(&v, p, 4);
	VF_CHECK(v == want_first + *(uint32_t*)ud - 1 - seen, "a reverse reduce shows %u", v);
	seen++;
	return 0;
}

#ifdef CLIENT_QUEUE
#define SZ() as_queue_size(q)
#define PUSH(v) as_queue_push(q, v)
#define POP(v) as_queue_pop(q, v)
#else
#define SZ() cf_queue_sz(q)
#define PUSH(v) (cf_queue_push(q, v) == 0)
#define POP(v) (cf_queue_pop(q, v, 0) == 0)
#endif

static void longrun(uint64_t total)
{
	const conf* c = &confs[vf_draw(8)];
	vf_note("capacity %u holding %u mix %u calls %llu", c->cap, c->depth, c->mix, (unsigned long long)total);
	vf_nontrivial();
#ifdef CLIENT_QUEUE
	as_queue* q = as_queue_create(4, c->cap);
#else
	cf_queue st;
	cf_queue* q = &st;
	VF_CHECK(cf_queue_init(q, 4, c->cap, false), "init failed");
#endif
	uint32_t in = 0, out = 0, v;
	for (; in < c->depth; in++) VF_CHECK(PUSH(&in), "push failed");
	for (uint64_t i = 0; i < total; i++) {
		VF_CHECK(PUSH(&in), "push %llu failed", (unsigned long long)i);
		in++;
		v = ~out;
		VF_CHECK(POP(&v) && v == out, "after %llu calls: pop gave %u, expected %u", (unsigned long long)i * 2, v, out);
		out++;
		/* look closely often around the powers of two where counters change width, rarely elsewhere */
		uint64_t near = i & 0x3fffffff;
		if (near < 400 || near > 0x3fffffff - 400 || (i & 0xffffff) == 0) {
			VF_CHECK(SZ() == c->depth, "after %llu calls: size is %u, expected %u", (unsigned long long)i * 2, SZ(), c->depth);
			if (c->mix >= 1 && c->depth > 1) {
				uint32_t w = 0xabcdef01u;
#ifdef CLIENT_QUEUE
				VF_CHECK(as_queue_push_head(q, &w), "head push failed");
#else
				VF_CHECK(cf_queue_push_head(q, &w) == 0, "head push failed");
#endif
				VF_CHECK(POP(&v) && v == w, "after %llu calls: the head-pushed element is not the head", (unsigned long long)i * 2);
			}
#ifdef CLIENT_QUEUE
			if (c->mix == 2) {
				VF_CHECK(as_queue_pop_tail(q, &v) && v == in - 1, "after %llu calls: tail pop gave %u, expected %u", (unsigned long long)i * 2, v, in - 1);
				VF_CHECK(PUSH(&v), "push failed");
			}
#else
			if (c->mix == 2) {
				want_first = out; seen = 0;
				cf_queue_reduce(q, visit, NULL);
				VF_CHECK(seen == c->depth, "after %llu calls: %u elements visited, expected %u", (unsigned long long)i * 2, seen, c->depth);
				seen = 0;
				uint32_t d = c->depth;
				cf_queue_reduce_reverse(q, visit_back, &d);
				VF_CHECK(seen == d, "after %llu calls: %u elements visited from the tail, expected %u", (unsigned long long)i * 2, seen, d);
				uint32_t last = in - 1;
				VF_CHECK(cf_queue_push_unique(q, &last) == -2, "after %llu calls: a held element is not found", (unsigned long long)i * 2);
				VF_CHECK(cf_queue_delete(q, &last, true) == 0, "after %llu calls: a held element is not deleted", (unsigned long long)i * 2);
				VF_CHECK(cf_queue_push_index(q, &last, c->depth - 1) == 0, "indexed push failed");
			}
#endif
		}
	}
	(void)visit; (void)visit_back;
#ifdef CLIENT_QUEUE
	as_queue_destroy(q);
#else
	cf_queue_destroy(q);
#endif
}
static void past32(void) { longrun((1ull << 32) + 5000); }

const vf_target vf_targets[] = {
	{ "past32", past32, 8, 8, VF_ENUM | VF_LONG },
	{ 0 }
};
