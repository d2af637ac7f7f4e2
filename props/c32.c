/* C32: the monitor. */
#include <aerospike/as_monitor.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "the waiter blocked, or the schedule contained a preemption or a spurious wake-up; distinct by choice sequence";

static as_monitor mon, back;
typedef struct { bool made; vfmt_stamp before; } made_t;
static made_t made[VFMT_MAX];
static unsigned rounds, delay[VFMT_MAX];
static unsigned turn;           /* ping-pong position */

static void any_visible(unsigned from, unsigned to, const char* what)
{
	bool some = false, seen = false;
	for (unsigned i = from; i < to; i++) if (made[i].made) { some = true; if (vfmt_after(&made[i].before)) seen = true; }
	VF_CHECK(some, "%s resumes although nobody notified since it began", what);
	VF_CHECK(seen, "%s does not see what the notifier did before", what);
}

static void* notifier(void* arg)
{
	unsigned i = (unsigned)(uintptr_t)arg;
	for (unsigned k = 0; k < delay[i]; k++) vfmt_yield();
	made[i].before = vfmt_mark();
	made[i].made = true;
	as_monitor_notify(&mon);
	return NULL;
}
/* Each round: begin, start notifiers, wait. */
static void one_shot(void)
{
	vfmt_spurious_max = 4;
	vfmt_begin();
	rounds = 1 + (unsigned)vf_draw(3);
	as_monitor_init(&mon);
	unsigned started = 0;
	for (unsigned r = 0; r < rounds; r++) {
		/* the first round may rely on initialization alone */
		if (r || vf_bool()) as_monitor_begin(&mon);
		unsigned k = 1 + (unsigned)vf_draw(2), from = started + 1;
		pthread_t th[4];
		if (from + k > VFMT_MAX) k = VFMT_MAX - from;
		if (!k) break;
		vf_note("round %u: %u notifiers", r, k);
		for (unsigned i = 0; i < k; i++) {
			unsigned id = ++started;
			made[id].made = false;
			delay[id] = (unsigned)vf_skewed(8);
			VF_CHECK(pthread_create(&th[i], NULL, notifier, (void*)(uintptr_t)id) == 0, "harness: thread");
		}
		as_monitor_wait(&mon);
		any_visible(from, started + 1, "the waiter");
		if (vf_chance(1, 4)) as_monitor_wait(&mon); /* already notified: returns at once */
		for (unsigned i = 0; i < k; i++) pthread_join(th[i], NULL);
	}
	as_monitor_destroy(&mon);
	VF_CHECK(vfmt_settle() == 0, "a thread stays blocked");
	vfmt_end();
	if (vfmt_switches() > rounds) vf_nontrivial();
}

static void* partner(void* arg)
{
	(void)arg;
	for (unsigned r = 0; r < rounds; r++) {
		as_monitor_wait(&mon);
		VF_CHECK(turn == 2 * r + 1, "the partner resumes in round %u at position %u", r, turn);
		VF_CHECK(vfmt_after(&made[0].before), "the partner does not see what its notifier did");
		as_monitor_begin(&mon);
		turn++;
		for (unsigned k = 0; k < delay[r]; k++) vfmt_yield();
		made[1].before = vfmt_mark();
		as_monitor_notify(&back);
	}
	return NULL;
}
/* Two threads take turns over two monitors, many rounds. */
static void ping_pong(void)
{
	vfmt_spurious_max = 4;
	vfmt_begin();
	rounds = 1 + (unsigned)vf_draw(6);
	for (unsigned r = 0; r < rounds; r++) delay[r] = (unsigned)vf_skewed(6);
	turn = 0;
	as_monitor_init(&mon);
	as_monitor_init(&back);
	pthread_t th;
	VF_CHECK(pthread_create(&th, NULL, partner, NULL) == 0, "harness: thread");
	for (unsigned r = 0; r < rounds; r++) {
		as_monitor_begin(&back);
		turn++;
		made[0].before = vfmt_mark();
		as_monitor_notify(&mon);
		as_monitor_wait(&back);
		VF_CHECK(turn == 2 * r + 2, "the waiter resumes in round %u at position %u", r, turn);
		VF_CHECK(vfmt_after(&made[1].before), "the waiter does not see what its notifier did");
	}
	pthread_join(th, NULL);
	as_monitor_destroy(&back);
	as_monitor_destroy(&mon);
	vfmt_end();
	if (vfmt_preempts() || vfmt_switches() > 2 * rounds) vf_nontrivial();
}

/* Nobody notifies: the waiter must stay, whatever wakes it. */
static bool resumed;
static void* lone(void* arg) { (void)arg; as_monitor_wait(&mon); resumed = true; return NULL; }
static void no_notice(void)
{
	vfmt_spurious_max = 6;
	vfmt_begin();
	resumed = false;
	as_monitor_init(&mon);
	bool earlier = vf_bool();
	if (earlier) { as_monitor_notify(&mon); as_monitor_wait(&mon); as_monitor_begin(&mon); }
	pthread_t th;
	VF_CHECK(pthread_create(&th, NULL, lone, NULL) == 0, "harness: thread");
	uint32_t stuck = vfmt_settle();
	VF_CHECK(stuck == 2 && !resumed, "a waiter resumes without a notification%s", earlier ? " in its own period" : "");
	as_monitor_notify(&mon);
	stuck = vfmt_settle();
	VF_CHECK(stuck == 0 && resumed, "a waiter stays blocked after a notification");
	as_monitor_destroy(&mon);
	vfmt_end();
	vf_nontrivial();
}

/* The waiter owns the monitor and takes it down as soon as its wait is over. */
static as_monitor* own;
static void* last_notice(void* arg)
{
	unsigned i = (unsigned)(uintptr_t)arg;
	for (unsigned k = 0; k < delay[i]; k++) vfmt_yield();
	made[i].before = vfmt_mark();
	made[i].made = true;
	as_monitor_notify(own);
	return NULL;
}
static void taken_down(void)
{
	vfmt_spurious_max = 4;
	vfmt_begin();
	rounds = 1 + (unsigned)vf_draw(4);
	uint64_t base = vfa_live();
	pthread_t th[VFMT_MAX];
	for (unsigned r = 1; r <= rounds; r++) {
		made[r].made = false;
		delay[r] = (unsigned)vf_skewed(8);
		own = cf_malloc(sizeof(as_monitor));
		as_monitor_init(own);
		VF_CHECK(pthread_create(&th[r], NULL, last_notice, (void*)(uintptr_t)r) == 0, "harness: thread");
		for (unsigned k = (unsigned)vf_draw(4); k; k--) vfmt_yield();
		as_monitor_wait(own);
		any_visible(r, r + 1, "the waiter");
		as_monitor_destroy(own);
		cf_free(own);
	}
	for (unsigned r = 1; r <= rounds; r++) pthread_join(th[r], NULL);
	VF_CHECK(vfmt_settle() == 0, "a thread stays blocked");
	vfmt_end();
	vfa_expect(base, "after the last round");
	if (vfmt_preempts() || vfmt_switches() > 2 * rounds) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "rounds", one_shot, 12000000, 100000000, 0 },
	{ "turns", ping_pong, 12000000, 100000000, 0 },
	{ "owned", taken_down, 6000000, 50000000, 0 },
	{ "unnotified", no_notice, 2000000, 10000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
