/* C35: atomic operations and spin locks, several threads. */
#include "c35ops.h"
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

/* The header's code in instrumented functions: macros would otherwise become part of the harness. */
static __attribute__((noinline)) void spin_lock(as_spinlock* s) { as_spinlock_lock(s); }
static __attribute__((noinline)) void spin_unlock(as_spinlock* s) { as_spinlock_unlock(s); }
static __attribute__((noinline)) void w_lock(as_swlock* s) { as_swlock_write_lock(s); }
static __attribute__((noinline)) void w_unlock(as_swlock* s) { as_swlock_write_unlock(s); }
static __attribute__((noinline)) void r_lock(as_swlock* s) { as_swlock_read_lock(s); }
static __attribute__((noinline)) void r_unlock(as_swlock* s) { as_swlock_read_unlock(s); }
static __attribute__((noinline)) void fence_rls(void) { as_fence_rls(); }
static __attribute__((noinline)) void fence_acq(void) { as_fence_acq(); }
static __attribute__((noinline)) void fence_seq(void) { as_fence_seq(); }
static __attribute__((noinline)) void bool_rls(bool* p) { as_store_bool_rls(p, true); }
static __attribute__((noinline)) bool bool_acq(bool* p) { return as_load_bool_acq(p); }
static __attribute__((noinline)) void ptr_rls(void** p, void* v) { as_store_ptr_rls(p, v); }
static __attribute__((noinline)) void* ptr_acq(void** p) { return as_load_ptr_acq(p); }

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "two threads were active on the object at once (the schedule switched between them); distinct by choice sequence";

/* ------------------------------------------------------------------ */
/* operations take effect at once                                       */

static unsigned ty;
static _Alignas(8) uint8_t cells[16];
typedef struct { unsigned n; struct { unsigned op; int64_t a, b; } o[8]; } prog;
static prog progs[VFMT_MAX];
static bool apply(void* st, const vfmt_op* o)
{
	int64_t s = 0; bool has;
	int64_t r = y_model(ty, o->op, st, o->a, o->b, &s, &has);
	return !o->done || (r == o->r && (!has || s == o->s));
}
static int64_t last;
static bool fin(const void* st, uint32_t waiting) { (void)waiting; return *(const int64_t*)st == last; }
static const char* opname(unsigned op) { return o_name[op]; }
static void run(prog* g)
{
	for (unsigned i = 0; i < g->n; i++) {
		vfmt_op* o = vfmt_call(g->o[i].op, g->o[i].a, g->o[i].b);
		int64_t s = 0, r = perform(ty, g->o[i].op, cells + 8, g->o[i].a, g->o[i].b, &s);
		vfmt_ret(o, r, s);
	}
}
static void* runner(void* arg) { run(arg); return NULL; }
static void atomic_ops(void)
{
	vfmt_begin();
	ty = (unsigned)vf_draw(Y_N);
	unsigned nt = 2 + (unsigned)vf_draw(2), total = 0;
	int64_t init = y_cut(ty, vf_irange(-1, 3));
	/* few kinds of operation per case, so that they meet */
	unsigned kinds[3], nk = 1 + (unsigned)vf_draw(3);
	for (unsigned k = 0; k < nk; k++) kinds[k] = (unsigned)vf_draw(y_ops(ty));
	if (vf_chance(1, 8) && y_ops(ty) == O_ALL) kinds[0] = O_SETMAX;
	for (unsigned t = 0; t < nt; t++) {
		progs[t].n = 1 + (unsigned)vf_draw(4);
		for (unsigned i = 0; i < progs[t].n; i++) {
			progs[t].o[i].op = kinds[vf_draw(nk)];
			progs[t].o[i].a = y_cut(ty, vf_irange(-1, 4));
			progs[t].o[i].b = y_cut(ty, vf_irange(-1, 4));
			total++;
		}
	}
	memset(cells, 0, sizeof(cells));
	memcpy(cells + 8, &init, y_size[ty]);
	pthread_t th[4];
	for (unsigned t = 1; t < nt; t++) VF_CHECK(pthread_create(&th[t], NULL, runner, &progs[t]) == 0, "harness: thread");
	run(&progs[0]);
	for (unsigned t = 1; t < nt; t++) pthread_join(th[t], NULL);
	vfmt_end();
	last = 0;
	memcpy(&last, cells + 8, y_size[ty]);
	last = y_cut(ty, last);
	VF_CHECK(vfmt_linearizable(&init, sizeof(init), apply, fin), "no order of these %s operations from %lld explains the results and the final value %lld:\n%s", y_name[ty], (long long)init, (long long)last, vfmt_history(opname));
	if (vfmt_preempts()) vf_nontrivial();
}

/* ------------------------------------------------------------------ */
/* release and acquire order what surrounds them                        */

static vfmt_stamp before;
static unsigned pub, con, polls;
static bool flag;
static void* box;
static const unsigned pubs[] = { O_ST_RLS, O_ST_SEQ, O_ST_TRLS, O_CAS_RLS, O_CAS_SEQ, O_FAS_RLS, O_FAS_SEQ, O_FAA_RLS, O_FAA_SEQ, O_AAF_RLS, O_AAF_SEQ, O_AAF_TRLS, O_INCR_TRLS, O_DECR_TRLS };
static const unsigned cons[] = { O_LD_ACQ, O_LD_SEQ, O_LD_TACQ, O_CAS_ACQ, O_CAS_SEQ, O_FAS_ACQ, O_FAS_SEQ, O_FAA_ACQ, O_FAA_SEQ, O_AAF_ACQ, O_AAF_SEQ };
static const unsigned plain_st[] = { O_ST_RLX, O_ST, O_FAS_RLX, O_FAA_RLX, O_AAF_RLX, O_CAS_RLX };
static const unsigned plain_ld[] = { O_LD_RLX, O_LD };
enum { P_FENCE = 100, P_FENCE_SEQ, P_BOOL, P_PTR };
static unsigned pst, pld;
static void publish(void)
{
	int64_t s;
	before = vfmt_mark();
	if (pub == P_FENCE || pub == P_FENCE_SEQ) { if (pub == P_FENCE) fence_rls(); else fence_seq(); perform(ty, pst, cells + 8, pst == O_CAS_RLX ? 0 : 1, 1, &s); }
	else if (pub == P_BOOL) bool_rls(&flag);
	else if (pub == P_PTR) ptr_rls(&box, &box);
	else perform(ty, pub, cells + 8, pub == O_CAS_RLS || pub == O_CAS_SEQ ? 0 : 1, 1, &s);
}
static void* publisher(void* arg) { (void)arg; publish(); return NULL; }
static void consume(const char* who)
{
	for (unsigned i = 0; i < polls; i++) {
		int64_t s = 0, r = 0;
		if (pub == P_BOOL) r = bool_acq(&flag);
		else if (pub == P_PTR) r = ptr_acq(&box) != NULL;
		else if (con == P_FENCE || con == P_FENCE_SEQ) { r = perform(ty, pld, cells + 8, 0, 0, &s); if (con == P_FENCE) fence_acq(); else fence_seq(); }
		else switch (con) {
			case O_CAS_ACQ: case O_CAS_SEQ: { int64_t e = pub == O_DECR_TRLS ? y_cut(ty, -1) : 1; r = perform(ty, con, cells + 8, e, e, &s); break; }
			case O_FAS_ACQ: case O_FAS_SEQ: r = perform(ty, con, cells + 8, 0, 0, &s); break;
			default: r = perform(ty, con, cells + 8, 0, 0, &s);
		}
		if (r) {
			VF_CHECK(vfmt_after(&before), "%s sees the value published by %s%s but is not ordered after what came before it", who,
				pub >= P_FENCE ? (pub == P_BOOL ? "a truth value" : pub == P_PTR ? "a pointer" : "a fence and ") : o_name[pub], pub == P_FENCE || pub == P_FENCE_SEQ ? o_name[pst] : "");
			return;
		}
		vfmt_yield();
	}
}
static void* consumer(void* arg) { (void)arg; consume("a consumer"); return NULL; }
static void publication(void)
{
	vfmt_begin();
	ty = (unsigned)vf_draw(Y_N);
	unsigned lim = y_ops(ty);
	do pub = vf_chance(1, 3) ? P_FENCE + (unsigned)vf_draw(4) : pubs[vf_draw(sizeof(pubs) / sizeof(*pubs))]; while (pub < P_FENCE && pub >= lim);
	con = vf_chance(1, 4) ? P_FENCE + (unsigned)vf_draw(2) : cons[vf_draw(sizeof(cons) / sizeof(*cons))];
	pst = plain_st[vf_draw(6)]; pld = plain_ld[vf_draw(2)];
	polls = 1 + (unsigned)vf_draw(3);
	memset(cells, 0, sizeof(cells));
	flag = false; box = NULL;
	bool main_publishes = vf_bool();
	pthread_t th;
	vf_note("%s published by %u, read by %u", y_name[ty], pub, con);
	VF_CHECK(pthread_create(&th, NULL, main_publishes ? consumer : publisher, NULL) == 0, "harness: thread");
	if (main_publishes) publish(); else consume("the consumer");
	/* a third thread's plain update in between keeps the chain: read-modify-write only */
	pthread_join(th, NULL);
	vfmt_end();
	if (vfmt_switches() > 1) vf_nontrivial();
}

/* ------------------------------------------------------------------ */
/* locks                                                                */

static as_spinlock sl;
static as_swlock sw;
static unsigned in_w, in_r, sections, rounds[VFMT_MAX], overlap;
static bool writers[VFMT_MAX];
static uint64_t shared;
static vfmt_stamp wend, rend[VFMT_MAX];
static bool have_w, have_r[VFMT_MAX];

static void enter(bool write, const char* what)
{
	if (write) {
		VF_CHECK(!in_w && !in_r, "%s: a writer is let in while %u writers and %u readers are inside", what, in_w, in_r);
		for (unsigned i = 0; i < VFMT_MAX; i++) if (have_r[i]) VF_CHECK(vfmt_after(&rend[i]), "%s: a writer is not ordered after a reader that left before", what);
		in_w++;
	}
	else {
		VF_CHECK(!in_w, "%s: a reader is let in while a writer is inside", what);
		in_r++;
		if (in_r > 1) overlap++;
	}
	if (have_w) VF_CHECK(vfmt_after(&wend), "%s: the holder is not ordered after the writer that left before", what);
	sections++;
}
static void leave(bool write)
{
	if (write) { in_w--; wend = vfmt_mark(); have_w = true; memset(have_r, 0, sizeof(have_r)); }
	else { in_r--; rend[vfmt_self()] = vfmt_mark(); have_r[vfmt_self()] = true; }
}
static void inside(bool write, unsigned steps)
{
	vfmt_touch(&shared, sizeof(shared), write);
	uint64_t v = shared;
	for (unsigned k = 0; k < steps; k++) vfmt_yield();
	VF_CHECK(shared == v, "the protected value changes under the holder");
	if (write) shared = v + 1;
}
static void spin_body(unsigned me)
{
	for (unsigned r = 0; r < rounds[me]; r++) {
		spin_lock(&sl);
		enter(true, "spin lock");
		inside(true, 2);
		leave(true);
		spin_unlock(&sl);
	}
}
static void sw_body(unsigned me)
{
	for (unsigned r = 0; r < rounds[me]; r++) {
		if (writers[me]) {
			/* writers are kept apart by their callers */
			spin_lock(&sl);
			w_lock(&sw);
			enter(true, "writer/readers lock");
			inside(true, 2);
			leave(true);
			w_unlock(&sw);
			spin_unlock(&sl);
		}
		else {
			r_lock(&sw);
			enter(false, "writer/readers lock");
			inside(false, 2);
			leave(false);
			r_unlock(&sw);
		}
	}
}
static void* spin_thread(void* arg) { spin_body((unsigned)(uintptr_t)arg); return NULL; }
static void* sw_thread(void* arg) { sw_body((unsigned)(uintptr_t)arg); return NULL; }
static void reset(void)
{
	in_w = in_r = sections = overlap = 0; shared = 0; have_w = false; memset(have_r, 0, sizeof(have_r));
	if (vf_bool()) { memset(&sl, 0xFF, sizeof(sl)); memset(&sw, 0xFF, sizeof(sw)); as_spinlock_init(&sl); as_swlock_init(&sw); }
	else { as_spinlock a = AS_SPINLOCK_INIT; as_swlock b = AS_SWLOCK_INIT; sl = a; sw = b; }
}
static void spin(void)
{
	vfmt_begin();
	vfmt_slice = 300;
	reset();
	unsigned nt = 2 + (unsigned)vf_draw(3), total = 0;
	pthread_t th[8];
	for (unsigned t = 0; t < nt; t++) total += rounds[t] = 1 + (unsigned)vf_draw(3);
	for (unsigned t = 1; t < nt; t++) VF_CHECK(pthread_create(&th[t], NULL, spin_thread, (void*)(uintptr_t)t) == 0, "harness: thread");
	spin_body(0);
	for (unsigned t = 1; t < nt; t++) pthread_join(th[t], NULL);
	vfmt_end();
	VF_CHECK(sections == total && shared == total, "%u sections left the value %llu", total, (unsigned long long)shared);
	if (vfmt_preempts()) vf_nontrivial();
}
static void swl(void)
{
	vfmt_begin();
	vfmt_slice = 300;
	reset();
	unsigned nt = 2 + (unsigned)vf_draw(4), total = 0, w = 0;
	pthread_t th[8];
	for (unsigned t = 0; t < nt; t++) {
		total += rounds[t] = 1 + (unsigned)vf_draw(3);
		writers[t] = vf_chance(2, 5);
		if (writers[t]) w += rounds[t];
	}
	for (unsigned t = 1; t < nt; t++) VF_CHECK(pthread_create(&th[t], NULL, sw_thread, (void*)(uintptr_t)t) == 0, "harness: thread");
	sw_body(0);
	for (unsigned t = 1; t < nt; t++) pthread_join(th[t], NULL);
	/* the lock is free again */
	w_lock(&sw);
	enter(true, "writer/readers lock");
	leave(true);
	w_unlock(&sw);
	r_lock(&sw);
	enter(false, "writer/readers lock");
	leave(false);
	r_unlock(&sw);
	vfmt_end();
	VF_CHECK(sections == total + 2 && shared == w, "%u writes left the value %llu", w, (unsigned long long)shared);
	if (vfmt_preempts()) vf_nontrivial();
}
/* Readers do not keep each other out: all meet inside. */
static unsigned nreaders, met;
static void meet(void)
{
	r_lock(&sw);
	enter(false, "writer/readers lock");
	met++;
	while (met < nreaders) vfmt_yield();
	leave(false);
	r_unlock(&sw);
}
static void* reader(void* arg) { (void)arg; meet(); return NULL; }
static void readers(void)
{
	vfmt_begin();
	vfmt_slice = 60;
	reset();
	nreaders = 2 + (unsigned)vf_draw(4); met = 0;
	if (vf_bool()) { w_lock(&sw); enter(true, "writer/readers lock"); leave(true); w_unlock(&sw); }
	pthread_t th[8];
	for (unsigned t = 1; t < nreaders; t++) VF_CHECK(pthread_create(&th[t], NULL, reader, NULL) == 0, "harness: thread");
	meet();
	for (unsigned t = 1; t < nreaders; t++) pthread_join(th[t], NULL);
	w_lock(&sw);
	enter(true, "writer/readers lock");
	leave(true);
	w_unlock(&sw);
	vfmt_end();
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "operations", atomic_ops, 4000000, 40000000, 0 },
	{ "publication", publication, 4000000, 40000000, 0 },
	{ "spinlock", spin, 3000000, 30000000, 0 },
	{ "swlock", swl, 3000000, 30000000, 0 },
	{ "readers", readers, 300000, 3000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
