/* C21: the thread pool. */
#include <aerospike/as_thread_pool.h>
#include <aerospike/as_monitor.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "at least two tasks were accepted by a pool with a running thread, or a thread could not be started; distinct by choice sequence";

#define MAXT 10
#define MANY 600
typedef struct {
	unsigned runs, nsub, sub[3], yields;
	bool accepted, offered;
	unsigned tid;
	vfmt_stamp submitted;
} task_t;
static task_t tasks[MANY];
static unsigned ntasks, fini_runs[VFMT_MAX];
static bool destroyed_done;
static as_thread_pool pool;
static unsigned offered_late, refused_late;
static bool shutting, none;

static void task_fn(void* ud);
static void offer(unsigned i)
{
	tasks[i].offered = true;
	tasks[i].submitted = vfmt_mark();
	int rc = as_thread_pool_queue_task(&pool, task_fn, &tasks[i]);
	VF_CHECK(rc == 0 || rc == -1, "offering a task returned %d", rc);
	if (rc == 0) tasks[i].accepted = true;
	else { VF_CHECK(shutting || none, "a task is refused although threads are running"); }
	if (shutting) { if (rc == 0) offered_late++; else refused_late++; }
}
static void task_fn(void* ud)
{
	task_t* t = ud;
	VF_CHECK(!destroyed_done, "a task runs after the pool was destroyed");
	VF_CHECK(++t->runs == 1, "task %u runs %u times", (unsigned)(t - tasks), t->runs);
	VF_CHECK(vfmt_self() != 0, "a task runs on the submitting thread");
	VF_CHECK(fini_runs[vfmt_self()] == 0, "a task runs on a thread after its finalizer");
	VF_CHECK(vfmt_after(&t->submitted), "a task does not see what its submitter did before");
	t->tid = vfmt_self();
	for (unsigned i = 0; i < t->yields; i++) vfmt_yield();
	for (unsigned i = 0; i < t->nsub; i++) offer(t->sub[i]);
}
/* The same function and argument may be offered any number of times. */
static unsigned same_offered, same_accepted, same_runs;
static void same_fn(void* ud)
{
	VF_CHECK(ud == &same_runs, "a task gets another argument than it was offered with");
	VF_CHECK(!destroyed_done, "a task runs after the pool was destroyed");
	VF_CHECK(++same_runs <= same_offered, "a repeated task runs more often than it was offered");
	if (same_offered & 1) vfmt_yield();
}
static void offer_same(void)
{
	same_offered++;
	int rc = as_thread_pool_queue_task(&pool, same_fn, &same_runs);
	VF_CHECK(rc == 0 || none, "a task is refused although threads are running");
	if (rc == 0) same_accepted++;
}
static void* second_owner(void* arg)
{
	(void)arg;
	VF_CHECK(as_thread_pool_destroy(&pool) == 0, "destroying the pool at the same time failed");
	return NULL;
}
static void fini_fn(void)
{
	VF_CHECK(!destroyed_done, "a finalizer runs after the pool was destroyed");
	VF_CHECK(vfmt_self() != 0, "the finalizer runs on the destroying thread");
	VF_CHECK(++fini_runs[vfmt_self()] == 1, "a finalizer runs twice on one thread");
}

static void run(unsigned most)
{
	unsigned size = (unsigned)vf_draw(most > MAXT ? VFMT_MAX : 5), ok = size;
	bool nested = vf_chance(1, 3), fini = !vf_chance(1, 4);
	memset(tasks, 0, sizeof(tasks)); memset(fini_runs, 0, sizeof(fini_runs));
	destroyed_done = shutting = false; offered_late = refused_late = 0;
	vfmt_begin();
	uint64_t base = vfa_live();
	if (size && vf_chance(1, 3)) {
		vfmt_create_fails = (uint32_t)vf_draw(1u << size);
		ok = size - (unsigned)__builtin_popcount(vfmt_create_fails);
	}
	none = ok == 0;
	vf_note("pool of %u, failing starts %x", size, vfmt_create_fails);
	memset(&pool, vf_junk(), sizeof(pool));
	int rc = as_thread_pool_init(&pool, size);
	VF_CHECK(rc == (ok == size ? 0 : -3), "initializing with %u of %u threads returned %d", ok, size, rc);
	if (fini) pool.fini_fn = fini_fn;
	ntasks = (unsigned)vf_draw(most + 1);
	unsigned top = ntasks;
	if (nested && ntasks > 1) {
		/* the first `top` tasks come from the owner, the others from tasks before them */
		top = 1 + (unsigned)vf_draw(ntasks);
		if (top > ntasks) top = ntasks;
		for (unsigned i = top; i < ntasks; i++) {
			task_t* p = &tasks[vf_draw(i)];
			if (p->nsub < 3) p->sub[p->nsub++] = i;
		}
	}
	for (unsigned i = 0; i < ntasks; i++) tasks[i].yields = (unsigned)vf_skewed(6);
	vf_note("%u tasks, %u from the owner", ntasks, top);
	bool settle = vf_chance(1, 4);
	uint32_t same = vf_chance(1, 3) ? (uint32_t)vf_draw(1u << MAXT) : 0;
	same_offered = same_accepted = same_runs = 0;
	unsigned rest = most > MAXT && vf_bool() ? (unsigned)vf_draw(top + 1) : top;
	for (unsigned i = 0; i < top; i++) {
		if (i == rest) vfmt_settle();
		if (i < MAXT && (same >> i & 1)) offer_same();
		offer(i);
	}
	if (settle) {
		vfmt_settle();
		if (ok) for (unsigned i = 0; i < ntasks; i++) VF_CHECK(tasks[i].runs == tasks[i].accepted, "with all threads at rest task %u was accepted but has not run", i);
	}
	shutting = true;
	/* two threads may destroy it at the same time: one of them does the work */
	bool twice = size < VFMT_MAX - 1 && vf_chance(1, 4);
	pthread_t second;
	if (twice) VF_CHECK(pthread_create(&second, NULL, second_owner, NULL) == 0, "harness: thread");
	VF_CHECK(as_thread_pool_destroy(&pool) == 0, "destroying the pool failed");
	if (twice) pthread_join(second, NULL);
	unsigned accepted = 0, fr = 0;
	for (unsigned i = 0; i < ntasks; i++) {
		if (tasks[i].accepted) accepted++;
		VF_CHECK(tasks[i].runs == (tasks[i].accepted ? 1u : 0u), "task %u was %s but ran %u times by the end of destruction", i, tasks[i].accepted ? "accepted" : "not accepted", tasks[i].runs);
	}
	VF_CHECK(same_runs == same_accepted, "a task accepted %u times ran %u times", same_accepted, same_runs);
	if (ok == 0) VF_CHECK(accepted + same_accepted == 0, "a pool without threads accepted a task");
	for (unsigned i = 0; i < VFMT_MAX; i++) fr += fini_runs[i];
	VF_CHECK(fr == (fini ? ok : 0), "%u finalizers ran on %u threads", fr, ok);
	destroyed_done = true;
	unsigned again = (unsigned)vf_draw(3);
	for (unsigned i = 0; i < again; i++) as_thread_pool_destroy(&pool);
	if (vf_bool()) { static task_t extra; VF_CHECK(as_thread_pool_queue_task(&pool, task_fn, &extra) != 0, "a destroyed pool accepts a task"); }
	VF_CHECK(vfmt_settle() == 0, "a pool thread outlives the pool");
	vfmt_end();
	vfa_expect(base, "after destroying the pool");
	if (ok < size) vf_label("a thread failed to start");
	if (offered_late) vf_label("accepted during shutdown");
	if (refused_late) vf_label("refused during shutdown");
	if ((ok && accepted >= 2) || ok < size) vf_nontrivial();
}

static void small(void) { run(MAXT); }
static void many(void) { run(MANY); }

const vf_target vf_targets[] = {
	{ "many", many, 60000, 600000, 0 },
	{ "pool", small, 12000000, 100000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
