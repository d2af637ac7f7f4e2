/* C23: the linked list as a plain sequence. */
#include <citrusleaf/cf_ll.h>
#include <limits.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "the list held at least 2 elements and at least 4 calls changed it; distinct by choice sequence";

typedef struct { cf_ll_element e; int key; bool in; } node;
#define MAXN 140000
static node* m[MAXN]; static unsigned n, peak, changes;
static cf_ll ll;
static bool has_destructor;
static cf_ll_element* expect_destroy[MAXN]; static unsigned n_expect, n_got;

static void destroyed(cf_ll_element* e)
{
	VF_CHECK(n_got < n_expect, "the destructor is called for an element that was not deleted");
	VF_CHECK(e == expect_destroy[n_got], "the destructor is called for another element than the deleted one");
	n_got++;
	vf_xfree(e);
}
static node* make(int key) { node* x = vf_xmalloc(sizeof(node)); memset(x, vf_junk(), sizeof(*x)); x->key = key; x->in = false; return x; }
static void m_ins(unsigned at, node* x) { memmove(m + at + 1, m + at, (n - at) * sizeof(*m)); m[at] = x; n++; changes++; x->in = true; if (n > peak) peak = n; }
static void m_del(unsigned at) { memmove(m + at, m + at + 1, (n - at - 1) * sizeof(*m)); n--; changes++; }
static void will_destroy(node* x) { if (has_destructor) expect_destroy[n_expect++] = &x->e; }
static void settle_destroy(const char* what)
{
	if (has_destructor) VF_CHECK(n_got == n_expect, "%s: %u destructor calls, expected %u", what, n_got, n_expect);
	n_got = n_expect = 0;
}

static void verify(const char* what)
{
	VF_CHECK(cf_ll_size(&ll) == n, "%s: size is %u, expected %u", what, cf_ll_size(&ll), n);
	cf_ll_element* e = cf_ll_get_head(&ll);
	for (unsigned i = 0; i < n; i++, e = cf_ll_get_next(e)) VF_CHECK(e == &m[i]->e, "%s: element %u of %u from the front differs", what, i, n);
	VF_CHECK(!e, "%s: more than %u elements from the front", what, n);
	e = cf_ll_get_tail(&ll);
	for (unsigned i = n; i-- > 0; e = cf_ll_get_prev(e)) VF_CHECK(e == &m[i]->e, "%s: element %u of %u from the back differs", what, i, n);
	VF_CHECK(!e, "%s: more than %u elements from the back", what, n);
}

/* Callbacks follow a drawn script and check the visiting order. */
typedef struct { int rv[MAXN + 1]; unsigned at; bool forward; unsigned alive; node* before[MAXN]; unsigned nb; void* ud; int key; unsigned give_up; } script;
static script S;
static int on_visit(cf_ll_element* e, void* ud)
{
	VF_CHECK(ud == S.ud, "a callback gets another argument than the caller's");
	VF_CHECK(S.at < S.nb, "a callback is called more often than there are elements");
	node* want = S.forward ? S.before[S.at] : S.before[S.nb - 1 - S.at];
	VF_CHECK(e == &want->e, "visit %u shows another element", S.at);
	return S.rv[S.at++];
}
static int on_insert(cf_ll_element* e, void* ud)
{
	VF_CHECK(ud == S.ud, "a callback gets another argument than the caller's");
	VF_CHECK(S.at <= S.nb, "an insert callback is called more often than there are places");
	cf_ll_element* want = S.at == S.nb ? NULL : S.forward ? &S.before[S.at]->e : &S.before[S.nb - 1 - S.at]->e;
	VF_CHECK(e == want, "insert visit %u shows another element", S.at);
	return S.rv[S.at++];
}
static int on_search(cf_ll_element* e, void* ud)
{
	VF_CHECK(ud == S.ud, "a search callback gets another argument than the caller's");
	VF_CHECK(S.at < S.nb, "a search visits more elements than there are");
	node* want = S.forward ? S.before[S.at] : S.before[S.nb - 1 - S.at];
	VF_CHECK(e == &want->e, "search visit %u shows another element", S.at);
	if (S.at++ == S.give_up) return -1;
	return ((node*)e)->key == S.key ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED;
}
static void begin(bool forward) { S.at = 0; S.forward = forward; S.nb = n; memcpy(S.before, m, n * sizeof(*m)); S.ud = vf_guarded(8); }

static void run(bool large)
{
	unsigned full = large ? MAXN : 256;
	n = peak = changes = n_got = n_expect = 0;
	has_destructor = !vf_chance(1, 3);
	bool lock = vf_bool();
	memset(&ll, vf_junk(), sizeof(ll));
	VF_CHECK(cf_ll_init(&ll, has_destructor ? destroyed : NULL, lock) == 0, "initialization failed");
	unsigned ops = 1 + (unsigned)vf_skewed(80);
	int keys = 1 + (int)vf_draw(8);
	vf_note("%s, %s", has_destructor ? "destructor" : "no destructor", lock ? "locking" : "no lock");
	vf_rng r = { 0 };
	if (large) {
		static const unsigned size[] = { 255, 256, 1000, 32767, 32768, 65535, 65536, 131072 };
		unsigned many = vf_bool() ? size[vf_draw(8)] - 2 + (unsigned)vf_draw(5) : 1000 + (unsigned)vf_draw(20000);
		r.s = vf_draw(0);
		if (ops > 12) ops = 12;
		vf_note("%u elements at first", many);
		for (unsigned i = 0; i < many; i++) { node* x = make((int)(vf_rng_next(&r) % (uint64_t)keys)); cf_ll_append(&ll, &x->e); m[n] = x; n++; x->in = true; }
		peak = n; changes = 4;
		verify("after appending many");
	}
	for (unsigned k = 0; k < ops; k++) {
		static const unsigned w[] = { 4, 4, 2, 2, 4, 3, 2, 2, 3, 2 };
		unsigned op = vf_pick(10, w);
		if (n >= full - 2) op = 4;
		bool fwd = vf_bool();
		int key = (int)vf_draw((uint64_t)keys);
		switch (op) {
		case 0: { node* x = make(key); vf_note("prepend %d", key); cf_ll_prepend(&ll, &x->e); m_ins(0, x); break; }
		case 1: { node* x = make(key); vf_note("append %d", key); cf_ll_append(&ll, &x->e); m_ins(n, x); break; }
		case 2: case 3: {
			if (!n) break;
			unsigned at = (unsigned)vf_draw(n);
			node* x = make(key);
			vf_note("insert %d %s %u", key, op == 2 ? "after" : "before", at);
			if (op == 2) { cf_ll_insert_after(&ll, &m[at]->e, &x->e); m_ins(at + 1, x); }
			else { cf_ll_insert_before(&ll, &m[at]->e, &x->e); m_ins(at, x); }
			break;
		}
		case 4: {
			if (!n) break;
			unsigned at = (unsigned)vf_draw(n);
			node* x = m[at];
			vf_note("delete %u", at);
			will_destroy(x);
			cf_ll_delete(&ll, &x->e);
			m_del(at);
			settle_destroy("delete");
			if (!has_destructor) vf_xfree(x);
			break;
		}
		case 5: {
			int64_t ix = vf_chance(1, 6) ? (int64_t[]){ INT_MAX, INT_MIN + 1, 1000000, -1000000 }[vf_draw(4)] : vf_irange(-(int64_t)n - 2, (int64_t)n + 1);
			cf_ll_element* want = ix >= 0 ? (ix < n ? &m[ix]->e : NULL) : (-ix <= n ? &m[(int64_t)n + ix]->e : NULL);
			VF_CHECK(cf_ll_index(&ll, (int)ix) == want, "index %lld of %u gives the wrong element", (long long)ix, n);
			break;
		}
		case 6: {
			begin(fwd);
			S.key = (int)vf_draw((uint64_t)keys + 1);
			cf_ll_element* want = NULL;
			S.give_up = vf_chance(1, 4) ? (unsigned)vf_draw((uint64_t)n + 1) : UINT_MAX;
			for (unsigned i = 0; i < n && i < S.give_up && !want; i++) { node* x = fwd ? m[i] : m[n - 1 - i]; if (x->key == S.key) want = &x->e; }
			vf_note("search %d %s%s", S.key, fwd ? "forward" : "backward", S.give_up < n ? ", given up" : "");
			cf_ll_element* got = cf_ll_search(&ll, S.ud, fwd, on_search);
			VF_CHECK(got == want, "searching %d gives the wrong element", S.key);
			break;
		}
		case 7: {
			/* insert at a drawn place, or not at all */
			begin(fwd);
			unsigned place = (unsigned)vf_draw((uint64_t)n + 3);
			int stop = 0;
			for (unsigned i = 0; i <= n; i++) S.rv[i] = 0;
			if (place <= n) { stop = vf_chance(1, 4) ? -1 - (int)vf_draw(5) : 0; S.rv[place] = stop ? stop : CF_LL_REDUCE_INSERT; }
			node* x = make(key);
			vf_note("insert by callback at %u %s%s", place, fwd ? "forward" : "backward", stop ? " (refused)" : "");
			int rc = cf_ll_insert_reduce(&ll, &x->e, fwd, on_insert, S.ud);
			unsigned calls = place <= n ? place + 1 : n + 1;
			VF_CHECK(S.at == calls, "insert by callback made %u calls, expected %u", S.at, calls);
			if (place <= n && !stop) { VF_CHECK(rc == 0, "insert by callback returned %d", rc); m_ins(fwd ? place : n - place, x); }
			else { VF_CHECK(rc == stop, "insert by callback returned %d, expected %d", rc, stop); vf_xfree(x); }
			break;
		}
		case 8: {
			begin(fwd);
			unsigned stop_at = vf_chance(1, 3) ? (unsigned)vf_draw((uint64_t)n + 1) : n;
			int stop = -1 - (int)vf_draw(3);
			static const unsigned mode_w[] = { 2, 2, 1 };
			unsigned mode = vf_pick(3, mode_w);
			static bool del[MAXN];
			for (unsigned i = 0; i < n; i++) {
				del[i] = i < stop_at && (mode == 2 || (mode == 1 && (large ? vf_rng_next(&r) >> 63 : vf_bool())));
				S.rv[i] = del[i] ? CF_LL_REDUCE_DELETE : i == stop_at ? stop : 0;
				if (del[i]) will_destroy(fwd ? m[i] : m[n - 1 - i]);
			}
			vf_note("reduce %s, stop at %u, deletion mode %u", fwd ? "forward" : "backward", stop_at, mode);
			unsigned n0 = n;
			int rc = cf_ll_reduce(&ll, fwd, on_visit, S.ud);
			unsigned calls = stop_at < n0 ? stop_at + 1 : n0;
			VF_CHECK(S.at == calls, "reduce made %u calls, expected %u", S.at, calls);
			if (stop_at < n0) VF_CHECK(rc == stop, "a reduce stopped with %d returned %d", stop, rc);
			else VF_CHECK(rc == 0 || (rc == CF_LL_REDUCE_DELETE && n0 && del[n0 - 1]), "a complete reduce returned %d", rc);
			n = 0;
			for (unsigned i = 0; i < n0; i++) {
				node* x = S.before[i];
				if (!del[fwd ? i : n0 - 1 - i]) { m[n++] = x; continue; }
				changes++;
				if (!has_destructor) vf_xfree(x);
			}
			settle_destroy("reduce");
			break;
		}
		case 9: {
			cf_ll_iterator* it = cf_ll_getIterator(&ll, fwd);
			VF_CHECK(it, "no iterator");
			unsigned stop = vf_bool() ? n : (unsigned)vf_draw((uint64_t)n + 1);
			for (unsigned i = 0; i < stop; i++) VF_CHECK(cf_ll_getNext(it) == &(fwd ? m[i] : m[n - 1 - i])->e, "iterating: element %u differs", i);
			if (stop == n) { VF_CHECK(!cf_ll_getNext(it), "iterating past the end"); VF_CHECK(!cf_ll_getNext(it), "iterating past the end twice"); }
			cf_ll_releaseIterator(it);
			break;
		}
		}
		verify("after a call");
	}
	vfa_expect(0, "at the end");
	if (peak >= 2 && changes >= 4) vf_nontrivial();
	while (n) { node* x = m[n - 1]; will_destroy(x); cf_ll_delete(&ll, &x->e); m_del(n - 1); settle_destroy("emptying"); if (!has_destructor) vf_xfree(x); if (!large) verify("emptying"); }
	verify("when emptied");
}

static void history(void) { run(false); }
static void large(void) { vf_label("large"); run(true); }

const vf_target vf_targets[] = {
	{ "history", history, 4000000, 40000000, 0 },
	{ "large", large, 800, 8000, 0 },
	{ NULL }
};
