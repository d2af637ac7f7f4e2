/* C19 (and C20 with CLIENT_QUEUE): queues used by several threads at once. */
#ifdef CLIENT_QUEUE
#include <aerospike/as_queue_mt.h>
#else
#include <citrusleaf/cf_queue.h>
#endif
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

/* Only the library's code, including its inline functions above, takes part in
 * scheduling and race detection; what follows is the harness. */
#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "at least two threads made calls and the run contained a preemption or a blocked call that was later woken (waits: every case); distinct by choice sequence";

enum { PUSH, PUSH_HEAD, PUSH_LIMIT, PUSH_HEAD_LIMIT, PUSH_UNIQUE, PUSH_AT, POP, POP_TAIL, PEEK, DELETE, DELETE_ALL, REDUCE, REDUCE_REV, REDUCE_POP, SIZE, EMPTY, NKINDS };
static const char* name(unsigned k)
{
	static const char* const s[] = { "push", "push_head", "push_limit", "push_head_limit", "push_unique", "push_at", "pop", "pop_tail", "peek", "delete", "delete_all", "reduce", "reduce_reverse", "reduce_pop", "size", "empty" };
	return s[k];
}

#define MAXES 24
typedef struct { uint32_t n; uint8_t v[VFMT_OPS + 4]; } state;
static size_t es;
static uint32_t cap;      /* limit of limited pushes on the client queue */
#ifdef CLIENT_QUEUE
static as_queue_mt* q; static as_queue_mt qmem;
#else
static cf_queue* q; static cf_queue qmem;
#endif

static void ins(state* s, uint32_t at, uint8_t v) { memmove(s->v + at + 1, s->v + at, s->n - at); s->v[at] = v; s->n++; }
static void del(state* s, uint32_t at) { memmove(s->v + at, s->v + at + 1, s->n - at - 1); s->n--; s->v[s->n] = 0; }
/* The reduce callbacks decide by element value: delete or take the first one
 * divisible by `b`, preferring none. */
static uint32_t fold(uint32_t h, uint8_t v) { return h * 37 + v + 1; }

static bool apply(void* st, const vfmt_op* o)
{
	state* s = st;
	if (!o->done) return false; /* judged at rest: a call still blocked has done nothing */
	switch (o->op) {
	case PUSH: ins(s, s->n, (uint8_t)o->a); return o->r == 1;
	case PUSH_HEAD: ins(s, 0, (uint8_t)o->a); return o->r == 1;
	case PUSH_AT: ins(s, (uint32_t)o->b < s->n ? (uint32_t)o->b : s->n, (uint8_t)o->a); return o->r == 1;
	case PUSH_LIMIT: case PUSH_HEAD_LIMIT: {
		bool ok = s->n < (uint32_t)o->b;
		if (ok) ins(s, o->op == PUSH_LIMIT ? s->n : 0, (uint8_t)o->a);
		return o->r == ok;
	}
	case PUSH_UNIQUE: {
		bool has = false;
		for (uint32_t i = 0; i < s->n; i++) if (s->v[i] == o->a) has = true;
		if (!has) ins(s, s->n, (uint8_t)o->a);
		return o->r == !has;
	}
	case POP: case POP_TAIL: {
		if (!s->n) return o->r == 0;
		uint32_t at = o->op == POP ? 0 : s->n - 1;
		uint8_t v = s->v[at];
		del(s, at);
		return o->r == 1 && o->s == v;
	}
	case PEEK: if (!s->n) return o->r == 0; return o->r == 1 && o->s == s->v[0];
	case DELETE: {
		bool found = false;
		for (uint32_t i = 0; i < s->n;) { if (s->v[i] != o->a) { i++; continue; } del(s, i); found = true; if (o->b) break; }
		return o->r == found;
	}
	case DELETE_ALL: { bool any = s->n > 0; while (s->n) del(s, s->n - 1); return o->r == any; }
	case REDUCE: case REDUCE_REV: {
		uint32_t h = 0;
		for (uint32_t k = 0; k < s->n; k++) {
			uint32_t i = o->op == REDUCE ? k : s->n - 1 - k;
			h = fold(h, s->v[i]);
			if (s->v[i] % o->b == 0) { if (o->a) del(s, i); break; }
		}
		return o->s == h;
	}
	case REDUCE_POP: {
		if (!s->n) return o->r == 0;
		uint32_t best = 0;
		for (uint32_t i = 0; i < s->n; i++) if (s->v[i] % o->b == 0) { best = i; break; }
		uint8_t v = s->v[best];
		del(s, best);
		return o->r == 1 && o->s == v;
	}
	case SIZE: return o->r == s->n;
	case EMPTY: return o->r == (s->n == 0);
	}
	return false;
}
/* Calls that never returned are fine only while there is nothing to return. */
static bool final_ok(const void* st, uint32_t waiting) { return waiting == 0 || ((const state*)st)->n == 0; }

static void enc(uint8_t* b, uint8_t v) { memset(b, v, es); }
static uint8_t dec(const uint8_t* b, unsigned op)
{
	for (size_t i = 1; i < es; i++) VF_CHECK(b[i] == b[0], "%s gave an element mixed from several: %02x and %02x", name(op), b[0], b[i]);
	return b[0];
}

#ifndef CLIENT_QUEUE
typedef struct { uint32_t h; int del; uint32_t mod; } cbctx;
static int cb_reduce(void* p, void* ud)
{
	cbctx* c = ud;
	uint8_t b[MAXES]; memcpy(b, p, es);
	vfmt_yield();
	uint8_t v = dec(b, REDUCE);
	c->h = fold(c->h, v);
	if (v % c->mod == 0) return c->del ? -2 : -1;
	return 0;
}
static int cb_take(void* p, void* ud)
{
	cbctx* c = ud;
	uint8_t b[MAXES]; memcpy(b, p, es);
	vfmt_yield();
	return dec(b, REDUCE_POP) % c->mod == 0 ? -1 : 0;
}
#endif

typedef struct { uint8_t op; uint8_t a; int32_t b; int wait; } instr;
static void exec(const instr* in)
{
	uint8_t buf[MAXES]; /* on the calling thread's stack */
	memset(buf, 0xEE, sizeof(buf));
	vfmt_op* o = vfmt_call(in->op, in->a, in->b);
	switch (in->op) {
#ifdef CLIENT_QUEUE
	case PUSH: enc(buf, in->a); vfmt_ret(o, as_queue_mt_push(q, buf), 0); break;
	case PUSH_HEAD: enc(buf, in->a); vfmt_ret(o, as_queue_mt_push_head(q, buf), 0); break;
	case PUSH_LIMIT: enc(buf, in->a); vfmt_ret(o, as_queue_mt_push_limit(q, buf), 0); break;
	case PUSH_HEAD_LIMIT: enc(buf, in->a); vfmt_ret(o, as_queue_mt_push_head_limit(q, buf), 0); break;
	case POP: case POP_TAIL: {
		bool ok = in->op == POP ? as_queue_mt_pop(q, buf, in->wait) : as_queue_mt_pop_tail(q, buf, in->wait);
		VF_CHECK(ok || in->wait >= 0, "%s waiting without limit returned without an item", name(in->op));
		vfmt_ret(o, ok, ok ? dec(buf, in->op) : 0);
		break;
	}
	case SIZE: vfmt_ret(o, as_queue_mt_size(q), 0); break;
	case EMPTY: vfmt_ret(o, as_queue_mt_empty(q), 0); break;
#else
	case PUSH: enc(buf, in->a); vfmt_ret(o, cf_queue_push(q, buf) == CF_QUEUE_OK, 0); break;
	case PUSH_HEAD: enc(buf, in->a); vfmt_ret(o, cf_queue_push_head(q, buf) == CF_QUEUE_OK, 0); break;
	case PUSH_AT: enc(buf, in->a); vfmt_ret(o, cf_queue_push_index(q, buf, (uint32_t)in->b) == CF_QUEUE_OK, 0); break;
	case PUSH_LIMIT: enc(buf, in->a); vfmt_ret(o, cf_queue_push_limit(q, buf, (uint32_t)in->b), 0); break;
	case PUSH_UNIQUE: { enc(buf, in->a); int rc = cf_queue_push_unique(q, buf); VF_CHECK(rc == CF_QUEUE_OK || rc == -2, "push_unique returned %d", rc); vfmt_ret(o, rc == CF_QUEUE_OK, 0); break; }
	case POP: {
		int rc = cf_queue_pop(q, buf, in->wait);
		VF_CHECK(rc == CF_QUEUE_OK || (rc == CF_QUEUE_EMPTY && in->wait >= 0), "pop with wait %d returned %d", in->wait, rc);
		vfmt_ret(o, rc == CF_QUEUE_OK, rc == CF_QUEUE_OK ? dec(buf, POP) : 0);
		break;
	}
	case REDUCE_POP: {
		cbctx c = { 0, 0, (uint32_t)in->b };
		int rc = cf_queue_reduce_pop(q, buf, in->wait, cb_take, &c);
		VF_CHECK(rc == CF_QUEUE_OK || (rc == CF_QUEUE_EMPTY && in->wait >= 0), "reduce_pop with wait %d returned %d", in->wait, rc);
		vfmt_ret(o, rc == CF_QUEUE_OK, rc == CF_QUEUE_OK ? dec(buf, REDUCE_POP) : 0);
		break;
	}
	case PEEK: { int rc = cf_queue_peek(q, buf); vfmt_ret(o, rc == CF_QUEUE_OK, rc == CF_QUEUE_OK ? dec(buf, PEEK) : 0); break; }
	case DELETE: { enc(buf, in->a); int rc = cf_queue_delete(q, buf, in->b != 0); vfmt_ret(o, rc == CF_QUEUE_OK, 0); break; }
	case DELETE_ALL: vfmt_ret(o, cf_queue_delete_all(q) == CF_QUEUE_OK, 0); break;
	case REDUCE: case REDUCE_REV: {
		cbctx c = { 0, in->a, (uint32_t)in->b };
		if (in->op == REDUCE) cf_queue_reduce(q, cb_reduce, &c); else cf_queue_reduce_reverse(q, cb_reduce, &c);
		vfmt_ret(o, 0, c.h);
		break;
	}
#endif
	default: vf_fail("harness: op %u", in->op);
	}
}

static instr prog[VFMT_MAX][8];
static unsigned plen[VFMT_MAX];
static void* body(void* arg)
{
	unsigned t = (unsigned)(uintptr_t)arg;
	for (unsigned i = 0; i < plen[t]; i++) exec(&prog[t][i]);
	return NULL;
}

static uint8_t nextv;
static int gen_wait(void) { static const unsigned w[] = { 3, 4, 3 }; unsigned k = vf_pick(3, w); return k == 0 ? 0 : k == 1 ? -1 : (int)vf_range(1, 2000); }
static instr gen_instr(unsigned role, bool limited)
{
	instr in = { 0, 0, 0, 0 };
	unsigned k;
#ifdef CLIENT_QUEUE
	static const unsigned prod[] = { 6, 3, 1 };
	if (role == 0) {
		k = vf_pick(3, prod);
		in.op = k == 0 ? (limited ? PUSH_LIMIT : PUSH) : k == 1 ? (limited ? PUSH_HEAD_LIMIT : PUSH_HEAD) : (vf_bool() ? SIZE : EMPTY);
		in.b = (int32_t)cap;
	}
	else if (role == 1) { in.op = vf_chance(1, 3) ? POP_TAIL : POP; in.wait = gen_wait(); }
	else return gen_instr((unsigned)vf_draw(2), limited);
#else
	if (role == 0) {
		static const unsigned prod[] = { 6, 2, 2, 2, 1 };
		(void)limited;
		k = vf_pick(5, prod);
		in.op = (uint8_t[]){ PUSH, PUSH_HEAD, PUSH_LIMIT, PUSH_UNIQUE, PUSH_AT }[k];
		in.b = in.op == PUSH_LIMIT ? (int32_t)vf_range(1, 4) : in.op == PUSH_AT ? (int32_t)vf_draw(4) : 0;
	}
	else if (role == 1) {
		static const unsigned cons[] = { 6, 2, 1 };
		k = vf_pick(3, cons);
		in.op = (uint8_t[]){ POP, REDUCE_POP, PEEK }[k];
		in.b = in.op == REDUCE_POP ? (int32_t)vf_range(2, 3) : 0;
		in.wait = gen_wait();
	}
	else {
		static const unsigned mix[] = { 3, 3, 2, 1, 1, 1 };
		k = vf_pick(6, mix);
		if (k < 2) return gen_instr(k, false);
		in.op = (uint8_t[]){ DELETE, DELETE_ALL, REDUCE, REDUCE_REV }[k - 2];
		if (in.op == DELETE) { in.a = (uint8_t)vf_range(1, 8); in.b = vf_bool(); return in; }
		if (in.op == REDUCE || in.op == REDUCE_REV) { in.a = vf_bool(); in.b = (int32_t)vf_range(2, 3); return in; }
		return in;
	}
#endif
	if (in.op <= PUSH_AT) in.a = in.op == PUSH_UNIQUE && vf_bool() ? (uint8_t)vf_range(1, 8) : nextv++;
	return in;
}

static void lin(const char* when)
{
	state s0; memset(&s0, 0, sizeof(s0));
	VF_CHECK(vfmt_linearizable(&s0, sizeof(s0), apply, final_ok), "%s: no sequential order explains the calls: %s", when, vfmt_history(name));
}

static void run(void)
{
	static const unsigned sizes[] = { 1, 2, 3, 4, 8, 13, 16, 24 };
	es = sizes[vf_draw(8)];
	cap = (uint32_t)vf_range(1, 4);
	bool heap = vf_bool();
	nextv = 1;
	unsigned nt = 2 + (unsigned)vf_draw(3), budget = 10;
	bool limited = vf_chance(1, 3);
	unsigned preload = (unsigned)vf_draw(3);
	vfmt_begin();
	uint64_t base = vfa_live();
#ifdef CLIENT_QUEUE
	if (heap) { q = as_queue_mt_create((uint32_t)es, cap); VF_CHECK(q, "queue creation failed"); }
	else if (vf_chance(1, 3)) {
		q = &qmem;
		memset(q, vf_junk(), sizeof(*q));
		as_queue_mt_inita(q, (uint32_t)es, cap);
	}
	else { q = &qmem; VF_CHECK(as_queue_mt_init(q, (uint32_t)es, cap), "queue initialization failed"); }
#else
	if (heap) { q = cf_queue_create(es, true); VF_CHECK(q, "queue creation failed"); }
	else { q = &qmem; VF_CHECK(cf_queue_init(q, es, cap, true), "queue initialization failed"); }
#endif
	for (unsigned i = 0; i < preload; i++) { instr in = gen_instr(0, limited); exec(&in); }
	for (unsigned t = 1; t <= nt; t++) {
		unsigned role = t == 1 ? 0 : t == 2 ? 1 : (unsigned)vf_draw(3);
		unsigned len = 1 + (unsigned)vf_draw(4);
		if (len > budget) len = budget;
		budget -= len;
		plen[t] = len;
		for (unsigned i = 0; i < len; i++) {
			prog[t][i] = gen_instr(role, limited);
			vf_note("T%u: %s(%d,%d) wait %d", t, name(prog[t][i].op), prog[t][i].a, prog[t][i].b, prog[t][i].wait);
		}
	}
	vf_note("element size %zu, capacity %u, %u preloaded", es, cap, preload);
	pthread_t th[VFMT_MAX];
	for (unsigned t = 1; t <= nt; t++) VF_CHECK(pthread_create(&th[t], NULL, body, (void*)(uintptr_t)t) == 0, "harness: thread");
	uint32_t stuck = vfmt_settle();
	lin("after the threads came to rest");
	bool woke = false;
	unsigned rounds = 0;
	while (stuck) {
		/* threads waiting without limit: one item each must set them free */
		unsigned k = (unsigned)__builtin_popcount(stuck);
		VF_CHECK(++rounds <= 12, "a thread stays blocked although items were supplied: %s", vfmt_history(name));
		if (vfmt_nops() + k + 2 >= VFMT_OPS) { vf_label("too long to finish"); vfmt_end(); return; }
		for (unsigned i = 0; i < k; i++) { instr in = { PUSH, nextv++, 0, 0 };
#ifdef CLIENT_QUEUE
			if (limited) { in.op = PUSH_LIMIT; in.b = (int32_t)cap; }
#endif
			exec(&in); }
		woke = true;
		stuck = vfmt_settle();
		lin("after supplying items to blocked threads");
	}
	for (unsigned t = 1; t <= nt; t++) VF_CHECK(pthread_join(th[t], NULL) == 0, "harness: join");
	for (;;) {
		if (vfmt_nops() + 1 >= VFMT_OPS) break;
		instr in = { POP, 0, 0, 0 };
		exec(&in);
		if (!vfmt_ops()[vfmt_nops() - 1].r) break;
	}
	lin("after draining");
#ifdef CLIENT_QUEUE
	as_queue_mt_destroy(q);
#else
	cf_queue_destroy(q);
#endif
	vfmt_end();
	vfa_expect(base, "after destroying the queue");
	if (vfmt_preempts() || woke) vf_nontrivial();
	if (woke) vf_label("blocked until supplied");
	if (vfmt_preempts()) vf_label("preempted");
	vf_label(nt == 2 ? "2 threads" : nt == 3 ? "3 threads" : "4 threads");
}

/* Nobody supplies an item: a limited wait ends when its time is over. */
static uint64_t ended[VFMT_MAX];
static void* wait_body(void* arg)
{
	unsigned t = (unsigned)(uintptr_t)arg;
	exec(&prog[t][0]);
	ended[t] = vfmt_now();
	return NULL;
}
static void waits(void)
{
	es = 8; cap = 4; nextv = 1;
	unsigned nt = 1 + (unsigned)vf_draw(3), used = (unsigned)vf_draw(4);
	vfmt_spurious_max = 0;
	vfmt_begin();
	vfmt_spurious_max = 2;
	uint64_t base = vfa_live();
#ifdef CLIENT_QUEUE
	q = as_queue_mt_create((uint32_t)es, cap);
#else
	q = cf_queue_create(es, true);
#endif
	VF_CHECK(q, "queue creation failed");
	for (unsigned i = 0; i < used; i++) { instr in = { PUSH, nextv++, 0, 0 }; exec(&in); }
	for (unsigned i = 0; i < used; i++) { instr in = { POP, 0, 0, (int)vf_range(0, 5) }; exec(&in); }
	uint64_t from = vfmt_now();
	pthread_t th[VFMT_MAX];
	for (unsigned t = 1; t <= nt; t++) {
		int ms = (int)vf_range(1, vf_bool() ? 3000 : INT32_MAX);
#ifdef CLIENT_QUEUE
		prog[t][0] = (instr){ vf_bool() ? POP_TAIL : POP, 0, 0, ms };
#else
		prog[t][0] = (instr){ vf_bool() ? REDUCE_POP : POP, 0, 3, ms };
#endif
		vf_note("T%u: %s wait %d", t, name(prog[t][0].op), ms);
	}
	for (unsigned t = 1; t <= nt; t++) VF_CHECK(pthread_create(&th[t], NULL, wait_body, (void*)(uintptr_t)t) == 0, "harness: thread");
	uint32_t stuck = vfmt_settle();
	VF_CHECK(! stuck, "a wait with a limit never ends");
	for (unsigned t = 1; t <= nt; t++) {
		uint64_t ms = (uint64_t)prog[t][0].wait, took = (ended[t] - from) / 1000000;
		VF_CHECK(took + 1 >= ms, "a wait of %llu ms for an item that never comes ended after %llu ms", (unsigned long long)ms, (unsigned long long)took);
		if (nt == 1) VF_CHECK(took <= ms + 2, "a wait of %llu ms ended after %llu ms", (unsigned long long)ms, (unsigned long long)took);
		VF_CHECK(pthread_join(th[t], NULL) == 0, "harness: join");
	}
	lin("after waiting for nothing");
#ifdef CLIENT_QUEUE
	as_queue_mt_destroy(q);
#else
	cf_queue_destroy(q);
#endif
	vfmt_end();
	vfa_expect(base, "after destroying the queue");
	vf_nontrivial();
	vf_label("waited in vain");
}

const vf_target vf_targets[] = {
	{ "waits", waits, 60000, 600000, 0 },
	{ "programs", run, 12000000, 100000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
