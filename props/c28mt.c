/* C28: several threads draw from the system-seeded generator. */
#include <citrusleaf/cf_random.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "at least two threads drew and the run contained a preemption; distinct by choice sequence";

static bool running, fails;
static unsigned nmarks, reloads, nfails;
static bool seen[256];

int vf_RAND_bytes(unsigned char* b, int n);
int vf_RAND_bytes(unsigned char* b, int n)
{
	if (running) vfmt_touch(b, 64, true); /* start and end stand for all of it */
	if (running) vfmt_touch(b + n - 64, 64, true);
	if (running && fails && ++nfails % 2) return 0;
	reloads++;
	memset(b, 0, (size_t)n);
	if (running) for (unsigned i = 0; i < 32 && nmarks < 255; i++) b[n - 1 - (int)i] = (uint8_t)++nmarks;
	return 1;
}

static void came(const uint8_t* b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		if (!b[i]) continue;
		VF_CHECK(b[i] <= nmarks && !seen[b[i]], "one byte of the source was handed out twice");
		seen[b[i]] = true;
	}
}

static struct { unsigned op, n; } prog[VFMT_MAX][6];
static unsigned plen[VFMT_MAX];

static void* body(void* arg)
{
	unsigned t = (unsigned)(uintptr_t)arg;
	for (unsigned i = 0; i < plen[t]; i++) {
		uint8_t* b = vf_tmp(8192);
		memset(b, 0, 16);
		switch (prog[t][i].op) {
		case 0: { uint64_t v = cf_get_rand64(); came((uint8_t*)&v, 8); break; }
		case 1: { uint32_t v = cf_get_rand32(); came((uint8_t*)&v, 4); break; }
		default:
			if (cf_get_rand_buf(b, (int)prog[t][i].n) == 0) came(b, prog[t][i].n);
			else VF_CHECK(nfails, "a request for %u bytes failed", prog[t][i].n);
			break;
		}
	}
	return NULL;
}

static void run(void)
{
	static uint8_t big[8191];
	running = false; fails = false;
	nmarks = 0; nfails = 0;
	memset(seen, 0, sizeof(seen));
	for (unsigned i = 0; i < 2; i++) VF_CHECK(cf_get_rand_buf(big, sizeof(big)) == 0, "a request for 8191 bytes failed");
	vfmt_begin();
	running = true;
	fails = vf_chance(1, 4);
	unsigned nt = 2 + (unsigned)vf_draw(2);
	for (unsigned t = 1; t <= nt; t++) {
		plen[t] = 1 + (unsigned)vf_draw(3);
		for (unsigned i = 0; i < plen[t]; i++) {
			prog[t][i].op = (unsigned)vf_draw(3);
			prog[t][i].n = vf_chance(1, 8) ? (unsigned)vf_range(8184, 8191) : (unsigned)vf_range(1, 24);
			vf_note("T%u: %s(%u)", t, prog[t][i].op == 0 ? "rand64" : prog[t][i].op == 1 ? "rand32" : "buf", prog[t][i].n);
		}
	}
	pthread_t th[VFMT_MAX];
	for (unsigned t = 1; t <= nt; t++) VF_CHECK(pthread_create(&th[t], NULL, body, (void*)(uintptr_t)t) == 0, "harness: thread");
	VF_CHECK(vfmt_settle() == 0, "a thread stays blocked");
	for (unsigned t = 1; t <= nt; t++) pthread_join(th[t], NULL);
	running = false;
	vfmt_end();
	if (vfmt_preempts()) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "threads", run, 4000000, 40000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
