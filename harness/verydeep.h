/* Encodings nested far deeper than a recursive reader can follow, written without recursion. */
#pragma once

#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include "model.h"

typedef struct { unsigned levels, maps; vf_rng r; int change; unsigned at; int by; } vdeep;

/* maps: share of map levels of 8. change: 0 none, 1 leaf, 2 element before the inner value at level `at`, 3 after it. */
static inline void vd_gen(vdeep* d, unsigned max)
{
	static const unsigned edge[] = { 255, 256, 257, 512, 1000, 5000 };
	d->levels = vf_bool() ? edge[vf_draw(6)] : (unsigned)vf_range(1, max);
	static const unsigned mw[] = { 0, 8, 1, 4, 7 };
	d->maps = mw[vf_draw(5)];
	d->r.s = vf_draw(0);
	d->change = (int)vf_draw(4);
	d->at = (unsigned)vf_draw(d->levels);
	d->by = vf_bool() ? 1 : -1;
}

static inline void vd_head(mbuf* b, bool map, unsigned n, unsigned wide)
{
	switch (wide % 4) {
	case 0: mb_u8(b, map ? 0xde : 0xdc); mb_be(b, n, 2); break;
	case 1: mb_u8(b, map ? 0xdf : 0xdd); mb_be(b, n, 4); break;
	default: mb_u8(b, (uint8_t)((map ? 0x80 : 0x90) | n)); break;
	}
}

/* Returns whether the requested change could be made (the level has such an element). */
static inline bool vd_encode(mbuf* b, const vdeep* d, bool changed, unsigned widths)
{
	vf_rng r = d->r, w = { widths };
	bool made = d->change == 0 || d->change == 1;
	uint8_t* after = vf_tmp(d->levels); /* elements after the inner value */
	uint8_t* ismap = vf_tmp(d->levels);
	for (unsigned i = 0; i < d->levels; i++) {
		uint64_t x = vf_rng_next(&r);
		bool map = (x & 7) < d->maps;
		unsigned before = ((x >> 3) & 7) == 0, aft = ((x >> 6) & 7) == 0;
		after[i] = (uint8_t)aft; ismap[i] = map;
		vd_head(b, map, before + 1 + aft, widths ? (unsigned)(vf_rng_next(&w) >> 20) : 2);
		if (before) {
			int64_t v = 50;
			if (map) mb_u8(b, 1);
			if (d->change == 2 && d->at == i) { made = true; if (changed) v += d->by; }
			m_enc_int(b, v);
		}
		if (map) mb_u8(b, 2);
	}
	m_enc_int(b, 1000 + (changed && d->change == 1 ? d->by : 0));
	for (unsigned i = d->levels; i-- > 0;) {
		if (!after[i]) continue;
		int64_t v = 70;
		if (ismap[i]) mb_u8(b, 3);
		if (d->change == 3 && d->at == i) { made = true; if (changed) v += d->by; }
		m_enc_int(b, v);
	}
	return made;
}

/* Run fn on a stack of the size programs usually get; running past its end is a crash. */
#define VD_STACK (8u << 20)
static ucontext_t vd_main, vd_side;
static inline void vd_on_usual_stack(void (*fn)(void))
{
	static uint8_t* st;
	if (!st) {
		st = mmap(NULL, VD_STACK + (1u << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		mprotect(st, 1u << 20, PROT_NONE);
	}
	getcontext(&vd_side);
	vd_side.uc_stack.ss_sp = st + (1u << 20);
	vd_side.uc_stack.ss_size = VD_STACK;
	vd_side.uc_link = &vd_main;
	makecontext(&vd_side, fn, 0);
	swapcontext(&vd_main, &vd_side);
}
