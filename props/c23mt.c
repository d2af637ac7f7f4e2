/* C23: a locking linked list used by several threads. */
#include <citrusleaf/cf_ll.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "at least two threads used the list and the run contained a preemption; distinct by choice sequence";

enum { PREPEND, APPEND, BEFORE, AFTER, DELETE, SORTED, REAP, WALK, SEARCH, SIZE };
static const char* name(unsigned k) { static const char* const s[] = { "prepend", "append", "insert_before", "insert_after", "delete", "sorted_insert", "reap", "walk", "search", "size" }; return s[k]; }

/* Element ids: odd ones belong to their thread, even ones anyone may reap. */
typedef struct { cf_ll_element e; uint8_t id; } node;
#define MAXID 64
static node* nodes[MAXID];
static unsigned destroyed_count[MAXID];
static cf_ll ll;

static void on_destroy(cf_ll_element* e)
{
	for (unsigned i = 0; i < MAXID; i++) if (nodes[i] && &nodes[i]->e == e) {
		VF_CHECK(++destroyed_count[i] == 1, "the destructor runs twice for one element");
		nodes[i] = NULL;
		cf_free(e);
		return;
	}
	vf_fail("the destructor is called for an element that is not in the list");
}

typedef struct { uint32_t n; uint8_t v[VFMT_OPS + 2]; } state;
static void ins(state* s, uint32_t at, uint8_t v) { memmove(s->v + at + 1, s->v + at, s->n - at); s->v[at] = v; s->n++; }
static void del(state* s, uint32_t at) { memmove(s->v + at, s->v + at + 1, s->n - at - 1); s->n--; s->v[s->n] = 0; }
static uint32_t fold(uint32_t h, uint8_t v) { return h * 67 + v + 1; }
static bool apply(void* st, const vfmt_op* o)
{
	state* s = st;
	if (!o->done) return false;
	uint32_t i;
	switch (o->op) {
	case PREPEND: ins(s, 0, (uint8_t)o->a); return true;
	case APPEND: ins(s, s->n, (uint8_t)o->a); return true;
	case BEFORE: case AFTER: case DELETE:
		for (i = 0; i < s->n && s->v[i] != o->b; i++) ;
		if (i == s->n) return false;
		if (o->op == DELETE) del(s, i); else ins(s, o->op == BEFORE ? i : i + 1, (uint8_t)o->a);
		return true;
	case SORTED:
		for (i = 0; i < s->n && s->v[i] < o->a; i++) ;
		ins(s, i, (uint8_t)o->a);
		return o->r == 0;
	case REAP: {
		uint32_t c = 0, h = 0;
		/* o->a: direction; removes even ids */
		state old = *s;
		for (uint32_t k = 0; k < old.n; k++) { uint8_t v = o->a ? old.v[k] : old.v[old.n - 1 - k]; h = fold(h, v); }
		for (i = 0; i < s->n;) { if (s->v[i] % 2 == 0) { del(s, i); c++; } else i++; }
		return o->r == (int64_t)c && o->s == h;
	}
	case WALK: {
		uint32_t h = 0;
		for (i = 0; i < s->n; i++) h = fold(h, o->a ? s->v[i] : s->v[s->n - 1 - i]);
		return o->s == h;
	}
	case SEARCH: {
		bool found = false;
		for (i = 0; i < s->n; i++) if (s->v[i] == o->a) found = true;
		return o->r == found;
	}
	case SIZE: return o->r == s->n;
	}
	return false;
}

typedef struct { uint32_t h, c; uint8_t id; } ctx;
static int cb_reap(cf_ll_element* e, void* ud) { ctx* c = ud; uint8_t id = ((node*)e)->id; vfmt_yield(); c->h = fold(c->h, id); if (id % 2 == 0) { c->c++; return CF_LL_REDUCE_DELETE; } return 0; }
static int cb_walk(cf_ll_element* e, void* ud) { ctx* c = ud; vfmt_yield(); c->h = fold(c->h, ((node*)e)->id); return 0; }
static int cb_sorted(cf_ll_element* e, void* ud) { ctx* c = ud; vfmt_yield(); return !e || ((node*)e)->id >= c->id ? CF_LL_REDUCE_INSERT : 0; }
static int cb_search(cf_ll_element* e, void* ud) { ctx* c = ud; vfmt_yield(); return ((node*)e)->id == c->id ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED; }

typedef struct { uint8_t op, a, b; } instr;
static node* mk(uint8_t id) { node* x = cf_malloc(sizeof(node)); x->id = id; nodes[id] = x; return x; }
static void exec(const instr* in)
{
	vfmt_op* o = NULL;
	ctx c = { 0, 0, in->a };
	node* x = in->op <= AFTER || in->op == SORTED ? mk(in->a) : NULL;
	o = vfmt_call(in->op, in->a, in->b);
	switch (in->op) {
	case PREPEND: cf_ll_prepend(&ll, &x->e); vfmt_ret(o, 0, 0); break;
	case APPEND: cf_ll_append(&ll, &x->e); vfmt_ret(o, 0, 0); break;
	case BEFORE: cf_ll_insert_before(&ll, &nodes[in->b]->e, &x->e); vfmt_ret(o, 0, 0); break;
	case AFTER: cf_ll_insert_after(&ll, &nodes[in->b]->e, &x->e); vfmt_ret(o, 0, 0); break;
	case DELETE: cf_ll_delete(&ll, &nodes[in->b]->e); vfmt_ret(o, 0, 0); VF_CHECK(destroyed_count[in->b] == 1, "deleting an element ran its destructor %u times", destroyed_count[in->b]); break;
	case SORTED: { int rc = cf_ll_insert_reduce(&ll, &x->e, true, cb_sorted, &c); vfmt_ret(o, rc, 0); break; }
	case REAP: cf_ll_reduce(&ll, in->a, cb_reap, &c); vfmt_ret(o, c.c, c.h); break;
	case WALK: cf_ll_reduce(&ll, in->a, cb_walk, &c); vfmt_ret(o, 0, c.h); break;
	case SEARCH: { cf_ll_element* e = cf_ll_search(&ll, (cf_ll_element*)&c, true, cb_search); vfmt_ret(o, e != NULL, 0); break; }
	case SIZE: vfmt_ret(o, cf_ll_size(&ll), 0); break;
	}
}
static instr prog[VFMT_MAX][8];
static unsigned plen[VFMT_MAX];
static void* body(void* arg)
{
	unsigned t = (unsigned)(uintptr_t)arg;
	for (unsigned i = 0; i < plen[t]; i++) exec(&prog[t][i]);
	return NULL;
}

static void run(void)
{
	memset(nodes, 0, sizeof(nodes)); memset(destroyed_count, 0, sizeof(destroyed_count));
	vfmt_begin();
	memset(&ll, 0, sizeof(ll));
	cf_ll_init(&ll, on_destroy, true);
	uint64_t base = vfa_live();
	unsigned nt = 2 + (unsigned)vf_draw(2);
	uint8_t own[VFMT_MAX][16]; unsigned nown[VFMT_MAX] = { 0 };
	uint8_t next = 1;
	unsigned pre = (unsigned)vf_draw(4);
	for (unsigned i = 0; i < pre; i++) {
		instr in = { APPEND, next++, 0 };
		if (in.a & 1) { unsigned t = 1 + (unsigned)vf_draw(nt); own[t][nown[t]++] = in.a; }
		exec(&in);
	}
	for (unsigned t = 1; t <= nt; t++) {
		plen[t] = 1 + (unsigned)vf_draw(4);
		for (unsigned i = 0; i < plen[t]; i++) {
			static const unsigned w[] = { 3, 3, 2, 2, 4, 2, 2, 1, 1, 1 };
			instr* in = &prog[t][i];
			in->op = (uint8_t)vf_pick(10, w);
			if ((in->op == BEFORE || in->op == AFTER || in->op == DELETE) && !nown[t]) in->op = APPEND;
			in->a = in->b = 0;
			if (in->op == BEFORE || in->op == AFTER || in->op == DELETE) {
				unsigned k = (unsigned)vf_draw(nown[t]);
				in->b = own[t][k];
				if (in->op == DELETE) own[t][k] = own[t][--nown[t]];
			}
			if (in->op <= AFTER || in->op == SORTED) {
				in->a = next++;
				if (vf_bool()) in->a = next++; /* either parity */
				if (in->a & 1) own[t][nown[t]++] = in->a;
			}
			else if (in->op == REAP || in->op == WALK) in->a = vf_bool();
			else if (in->op == SEARCH) in->a = (uint8_t)vf_range(1, 8);
			vf_note("T%u: %s(%u,%u)", t, name(in->op), in->a, in->b);
		}
	}
	pthread_t th[VFMT_MAX];
	for (unsigned t = 1; t <= nt; t++) VF_CHECK(pthread_create(&th[t], NULL, body, (void*)(uintptr_t)t) == 0, "harness: thread");
	VF_CHECK(vfmt_settle() == 0, "a thread stays blocked");
	for (unsigned t = 1; t <= nt; t++) pthread_join(th[t], NULL);
	instr fwd = { WALK, 1, 0 }, rev = { WALK, 0, 0 }, size = { SIZE, 0, 0 };
	exec(&fwd); exec(&rev); exec(&size);
	state s0; memset(&s0, 0, sizeof(s0));
	VF_CHECK(vfmt_linearizable(&s0, sizeof(s0), apply, NULL), "no sequential order explains the results: %s", vfmt_history(name));
	while (cf_ll_get_head(&ll)) cf_ll_delete(&ll, cf_ll_get_head(&ll));
	vfmt_end();
	vfa_expect(base, "after deleting everything");
	if (vfmt_preempts()) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "threads", run, 12000000, 100000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
