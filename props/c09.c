/* C09: the array list against a plain sequence. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_double.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_string.h>
#include <alloca.h>
#include <stdio.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "at least 3 calls changed some list and one held at least 2 elements (large: one held more than 1000); distinct by choice sequence";

typedef struct { as_arraylist* l; bool on; mval** e; uint32_t n, a, cap, block; } lst;
#define NL 4
static lst ls[NL];
static as_arraylist stacks[NL];
static uint32_t changes, peak;

static mval nilv = { M_NIL };

static void m_reserve(lst* s, uint32_t n)
{
	if (n <= s->a) return;
	mval** e = vf_tmp(sizeof(mval*) * n * 2);
	memcpy(e, s->e, sizeof(mval*) * s->n);
	s->e = e; s->a = n * 2;
}
static bool fits(lst* s, uint64_t need)
{
	if (need <= s->cap) return true;
	if (s->block == 0) return false;
	s->cap = UINT32_MAX; /* has grown: how far is not specified, but it can always grow again */
	return true;
}

static mval* gen_elem(void)
{
	static const unsigned w[] = { 6, 3, 3, 1, 1, 1 };
	mcfg c = { .budget = 4, .depth = 2, .small = true };
	switch (vf_pick(6, w)) {
	case 0: return m_int(vf_irange(-5, 1000));
	case 1: { char b[8]; int l = snprintf(b, sizeof(b), "s%u", (unsigned)vf_draw(100)); return m_str(b, (uint32_t)l); }
	case 2: { mval* m = m_int(0); m->t = M_DBL; m->u.d = (double)vf_draw(100) / 4; return m; }
	case 3: return m_gen(&c);
	case 4: return NULL; /* no value: stored as nil */
	default: { mval* m = m_int(0); m->t = M_BOOL; m->u.b = vf_bool(); return m; }
	}
}

static uint32_t gen_index(lst* s)
{
	static const unsigned w[] = { 8, 3, 3, 1 };
	switch (vf_pick(4, w)) {
	case 0: return (uint32_t)vf_draw(s->n + 1);
	case 1: return s->n + (uint32_t)vf_draw(4);
	case 2: return (uint32_t)vf_draw(12);
	default: {
		/* beyond what memory can hold: refused for any list */
		static const uint32_t far[] = { UINT32_MAX, UINT32_MAX - 1, 0x80000000u, 0x7fffffffu, 0x40000000u, 0x10000000u };
		uint32_t f = far[vf_draw(6)];
		return vf_bool() ? f : f - (uint32_t)vf_draw(300);
	}
	}
}

#define ALLOC_LIMIT (1u << 20)

static void expect_list(lst* s, const char* what)
{
	VF_CHECK(as_arraylist_size(s->l) == s->n, "%s: size is %u, expected %u", what, as_arraylist_size(s->l), s->n);
	for (uint32_t i = 0; i < s->n; i++) {
		as_val* v = i & 1 ? as_list_get((as_list*)s->l, i) : as_arraylist_get(s->l, i);
		m_expect(v, s->e[i], what);
	}
	VF_CHECK(as_arraylist_get(s->l, s->n) == NULL, "%s: element past the end", what);
}

typedef struct { lst* s; uint32_t at, stop; } walk;
static bool visit(as_val* v, void* ud)
{
	walk* w = ud;
	VF_CHECK(w->at < w->s->n, "foreach gives more than %u elements", w->s->n);
	m_expect(v, w->s->e[w->at], "foreach element");
	w->at++;
	return w->at != w->stop;
}

static void insert_at(lst* s, uint32_t ix, mval* m)
{
	uint32_t n = ix > s->n ? ix + 1 : s->n + 1;
	m_reserve(s, n);
	if (ix < s->n) memmove(s->e + ix + 1, s->e + ix, sizeof(mval*) * (s->n - ix));
	for (uint32_t i = s->n; i < ix; i++) s->e[i] = &nilv;
	s->e[ix] = m ? m : &nilv;
	s->n = n;
}

static void store(lst* s, bool set)
{
	uint32_t ix = 0;
	unsigned op = set ? 0 : 1 + (unsigned)vf_draw(3); /* set, insert, append, prepend */
	if (op < 2) ix = gen_index(s);
	else if (op == 2) ix = s->n;
	mval* m = gen_elem();
	bool generic = vf_bool(), typed = m && vf_bool();
	as_list* g = (as_list*)s->l;
	static const char* const on[] = { "set", "insert", "append", "prepend" };
	vf_note("%td.%s%s%s %u %s", s - ls, on[op], generic ? "(g)" : "", typed ? "(t)" : "", ix, m ? m_show(m) : "none");
	int rc;
	if (typed && m->t == M_INT) {
		int64_t x = m->u.i;
		switch (op) {
		case 0: rc = generic ? as_list_set_int64(g, ix, x) : as_arraylist_set_int64(s->l, ix, x); break;
		case 1: rc = generic ? as_list_insert_int64(g, ix, x) : as_arraylist_insert_int64(s->l, ix, x); break;
		case 2: rc = generic ? as_list_append_int64(g, x) : as_arraylist_append_int64(s->l, x); break;
		default: rc = generic ? as_list_prepend_int64(g, x) : as_arraylist_prepend_int64(s->l, x); break;
		}
	}
	else if (typed && m->t == M_STR) {
		const char* x = (char*)m->u.s.p;
		switch (op) {
		case 0: rc = generic ? as_list_set_str(g, ix, x) : as_arraylist_set_str(s->l, ix, x); break;
		case 1: rc = generic ? as_list_insert_str(g, ix, x) : as_arraylist_insert_str(s->l, ix, x); break;
		case 2: rc = generic ? as_list_append_str(g, x) : as_arraylist_append_str(s->l, x); break;
		default: rc = generic ? as_list_prepend_str(g, x) : as_arraylist_prepend_str(s->l, x); break;
		}
	}
	else if (typed && m->t == M_DBL) {
		double x = m->u.d;
		switch (op) {
		case 0: rc = generic ? as_list_set_double(g, ix, x) : as_arraylist_set_double(s->l, ix, x); break;
		case 1: rc = generic ? as_list_insert_double(g, ix, x) : as_arraylist_insert_double(s->l, ix, x); break;
		case 2: rc = generic ? as_list_append_double(g, x) : as_arraylist_append_double(s->l, x); break;
		default: rc = generic ? as_list_prepend_double(g, x) : as_arraylist_prepend_double(s->l, x); break;
		}
	}
	else {
		typed = false;
		as_val* v = m ? m_build(m) : NULL;
		switch (op) {
		case 0: rc = generic ? as_list_set(g, ix, v) : as_arraylist_set(s->l, ix, v); break;
		case 1: rc = generic ? as_list_insert(g, ix, v) : as_arraylist_insert(s->l, ix, v); break;
		case 2: rc = generic ? as_list_append(g, v) : as_arraylist_append(s->l, v); break;
		default: rc = generic ? as_list_prepend(g, v) : as_arraylist_prepend(s->l, v); break;
		}
		if (rc != AS_ARRAYLIST_OK && v) as_val_destroy(v);
	}
	uint64_t need = op == 0 ? (uint64_t)ix + 1 : ix > s->n ? (uint64_t)ix + 1 : (uint64_t)s->n + 1;
	if (need <= s->cap && s->cap != UINT32_MAX) goto ok;
	if (s->block == 0) {
		VF_CHECK(rc == AS_ARRAYLIST_ERR_MAX, "%s beyond a fixed capacity returned %d", on[op], rc);
		return;
	}
	if (need * sizeof(as_val*) > ALLOC_LIMIT) {
		VF_CHECK(rc != AS_ARRAYLIST_OK, "%s at %u succeeded without memory for it", on[op], ix);
		return;
	}
ok:
	VF_CHECK(rc == AS_ARRAYLIST_OK, "%s at %u returned %d", on[op], ix, rc);
	fits(s, need);
	changes++;
	if (op == 0 && ix < s->n) s->e[ix] = m ? m : &nilv;
	else insert_at(s, ix, m);
}

static lst* free_slot(void)
{
	for (int i = 0; i < NL; i++) if (!ls[i].on) return &ls[i];
	lst* s = &ls[vf_draw(NL)];
	as_arraylist_destroy(s->l);
	s->on = false;
	return s;
}

static void make_stack_slot(lst* s) { s->n = s->a = 0; s->e = NULL; s->on = true; }

static void derived(lst* s, unsigned op)
{
	uint32_t k = op == 2 ? 1 : (vf_chance(1, 6) ? (uint32_t)vf_draw(0) : (uint32_t)vf_draw(s->n + 3));
	bool generic = vf_bool();
	as_list* g = (as_list*)s->l;
	vf_note("%td.%s%s %u", s - ls, op == 0 ? "take" : op == 1 ? "drop" : "tail", generic ? "(g)" : "", k);
	as_arraylist* r;
	uint32_t from, count;
	uint32_t c = k < s->n ? k : s->n;
	switch (op) {
	case 0: r = generic ? (as_arraylist*)as_list_take(g, k) : as_arraylist_take(s->l, k); from = 0; count = c; break;
	case 1: r = generic ? (as_arraylist*)as_list_drop(g, k) : as_arraylist_drop(s->l, k); from = c; count = s->n - c; break;
	default:
		r = generic ? (as_arraylist*)as_list_tail(g) : as_arraylist_tail(s->l);
		from = 1; count = s->n - 1;
		if (s->n == 0) { VF_CHECK(r == NULL, "tail of an empty list is a list"); return; }
		break;
	}
	VF_CHECK(r != NULL, "derived list is missing");
	lst tmp = { .l = r, .on = true, .e = vf_tmp(sizeof(mval*) * (count + 1)), .n = count, .a = count, .cap = count, .block = s->block };
	memcpy(tmp.e, s->e + from, sizeof(mval*) * count);
	expect_list(&tmp, "derived list");
	if (vf_bool()) {
		lst* d = free_slot();
		*d = tmp;
	}
	else as_arraylist_destroy(r);
	changes++;
}

static lst* some(void)
{
	unsigned k = (unsigned)vf_draw(NL);
	for (unsigned i = 0; i < NL; i++) if (ls[(k + i) % NL].on) return &ls[(k + i) % NL];
	return NULL;
}

static void history(void)
{
	memset(ls, 0, sizeof(ls));
	changes = peak = 0;
	vfa_set_limit(ALLOC_LIMIT);
	unsigned steps = (unsigned)vf_range(1, 50);
	/* the first list always exists */
	for (unsigned i = 0; i < 1 + vf_draw(2); i++) {
		lst* s = &ls[i];
		uint32_t cap = vf_chance(1, 4) ? 0 : (uint32_t)vf_draw(12);
		uint32_t block = vf_chance(1, 3) ? 0 : (uint32_t)(vf_chance(1, 10) ? vf_range(100, 2000) : vf_range(1, 12));
		make_stack_slot(s);
		s->cap = cap; s->block = block;
		switch (vf_draw(3)) {
		case 0: s->l = as_arraylist_new(cap, block); break;
		case 1: s->l = as_arraylist_init(&stacks[i], cap, block); break;
		default: {
			s->block = block = 0;
			as_arraylist_inita(&stacks[i], cap);
			s->l = &stacks[i];
			break;
		}
		}
		vf_note("list %u capacity %u block %u", i, cap, block);
	}
	for (unsigned i = 0; i < steps; i++) {
		lst* s = some();
		if (!s) break;
		as_list* g = (as_list*)s->l;
		static const unsigned w[] = { 12, 5, 4, 2, 3, 4, 2, 2, 3, 1 };
		switch (vf_pick(10, w)) {
		case 0: store(s, false); break;
		case 1: store(s, true); break;
		case 2: {
			uint32_t ix = gen_index(s);
			vf_note("%td.remove %u", s - ls, ix);
			int rc = vf_bool() ? as_list_remove(g, ix) : as_arraylist_remove(s->l, ix);
			if (ix >= s->n) { VF_CHECK(rc == AS_ARRAYLIST_ERR_INDEX, "remove past the end returned %d", rc); break; }
			VF_CHECK(rc == AS_ARRAYLIST_OK, "remove returned %d", rc);
			memmove(s->e + ix, s->e + ix + 1, sizeof(mval*) * (s->n - ix - 1));
			s->n--; changes++;
			break;
		}
		case 3: {
			uint32_t ix = gen_index(s);
			vf_note("%td.trim %u", s - ls, ix);
			int rc = vf_bool() ? as_list_trim(g, ix) : as_arraylist_trim(s->l, ix);
			if (ix >= s->n) { VF_CHECK(rc == AS_ARRAYLIST_ERR_INDEX, "trim past the end returned %d", rc); break; }
			VF_CHECK(rc == AS_ARRAYLIST_OK, "trim returned %d", rc);
			s->n = ix; changes++;
			break;
		}
		case 4: {
			lst* o = some();
			vf_note("%td.concat %td", s - ls, o - ls);
			int rc = vf_bool() ? as_list_concat(g, (as_list*)o->l) : as_arraylist_concat(s->l, o->l);
			if (s->n + o->n > s->cap && s->block == 0) { VF_CHECK(rc == AS_ARRAYLIST_ERR_MAX, "concat beyond a fixed capacity returned %d", rc); break; }
			VF_CHECK(rc == AS_ARRAYLIST_OK, "concat returned %d", rc);
			fits(s, s->n + o->n);
			uint32_t k = o->n;
			m_reserve(s, s->n + k + 1);
			memcpy(s->e + s->n, o->e, sizeof(mval*) * k);
			s->n += k; changes++;
			break;
		}
		case 5: derived(s, (unsigned)vf_draw(3)); break;
		case 6: {
			bool generic = vf_bool();
			vf_note("%td.head", s - ls);
			as_val* v = generic ? as_list_head(g) : as_arraylist_head(s->l);
			if (s->n) m_expect(v, s->e[0], "head");
			else VF_CHECK(v == NULL, "head of an empty list is a value");
			break;
		}
		case 7: {
			uint32_t ix = gen_index(s);
			bool generic = vf_bool();
			vf_note("%td.get %u", s - ls, ix);
			const mval* m = ix < s->n ? s->e[ix] : NULL;
			as_val* v = generic ? as_list_get(g, ix) : as_arraylist_get(s->l, ix);
			if (m) m_expect(v, m, "get"); else VF_CHECK(v == NULL, "get past the end gives a value");
			int64_t x = generic ? as_list_get_int64(g, ix) : as_arraylist_get_int64(s->l, ix);
			VF_CHECK(x == (m && m->t == M_INT ? m->u.i : 0), "integer get gives %lld", (long long)x);
			double d = generic ? as_list_get_double(g, ix) : as_arraylist_get_double(s->l, ix);
			VF_CHECK(d == (m && m->t == M_DBL ? m->u.d : 0), "double get gives %g", d);
			char* t = generic ? as_list_get_str(g, ix) : as_arraylist_get_str(s->l, ix);
			if (m && m->t == M_STR) VF_CHECK(t && strcmp(t, (char*)m->u.s.p) == 0, "string get differs");
			else VF_CHECK(t == NULL, "string get of another type gives text");
			break;
		}
		case 8: {
			unsigned how = (unsigned)vf_draw(6);
			vf_note("%td.iterate %u", s - ls, how);
			walk wk = { s, 0, UINT32_MAX };
			if (how < 2) {
				wk.stop = how == 0 ? UINT32_MAX : (uint32_t)vf_range(1, s->n + 1);
				bool r = vf_bool() ? as_list_foreach(g, visit, &wk) : as_arraylist_foreach(s->l, visit, &wk);
				bool full = wk.stop > s->n;
				VF_CHECK(r == full && wk.at == (full ? s->n : wk.stop), "foreach returned %d after %u of %u", r, wk.at, s->n);
				break;
			}
			if (how == 5) {
				as_arraylist_iterator ai;
				VF_CHECK(as_arraylist_iterator_init(&ai, s->l) == &ai, "iterator init failed");
				while (as_arraylist_iterator_has_next(&ai)) visit((as_val*)as_arraylist_iterator_next(&ai), &wk);
				VF_CHECK(wk.at == s->n, "iterator gave %u of %u", wk.at, s->n);
				for (unsigned past = (unsigned)vf_draw(4); past--; ) VF_CHECK(as_arraylist_iterator_next(&ai) == NULL && ! as_arraylist_iterator_has_next(&ai), "iterator continues after the end");
				as_arraylist_iterator_destroy(&ai);
				break;
			}
			as_list_iterator it;
			as_iterator* p;
			if (how == 2) p = (as_iterator*)as_list_iterator_init(&it, g);
			else if (how == 3) p = (as_iterator*)as_list_iterator_new(g);
			else p = (as_iterator*)as_arraylist_iterator_new(s->l);
			VF_CHECK(p != NULL, "iterator is missing");
			while (as_iterator_has_next(p)) visit((as_val*)as_iterator_next(p), &wk);
			VF_CHECK(wk.at == s->n, "iterator gave %u of %u", wk.at, s->n);
			for (unsigned past = (unsigned)vf_draw(4); past--; ) {
				VF_CHECK(as_iterator_next(p) == NULL, "iterator continues after the end");
				VF_CHECK(! as_iterator_has_next(p), "iterator has more after its end");
			}
			as_iterator_destroy(p);
			break;
		}
		case 9:
			if (s == &ls[0]) break;
			vf_note("%td.destroy", s - ls);
			if (vf_bool()) as_list_destroy(g); else as_arraylist_destroy(s->l);
			s->on = false;
			break;
		}
		for (int k = 0; k < NL; k++) if (ls[k].on) { if (&ls[k] == s || i % 8 == 7) expect_list(&ls[k], "list"); if (ls[k].n > peak) peak = ls[k].n; }
	}
	if (changes >= 3 && peak >= 2) vf_nontrivial();
	for (int k = 0; k < NL; k++) if (ls[k].on) expect_list(&ls[k], "list at the end");
	for (int k = 0; k < NL; k++) if (ls[k].on) as_arraylist_destroy(ls[k].l);
}

/* Lists of thousands of elements: integers or nothing, a plain array as model. */
#define NOTHING INT64_MIN
typedef struct { as_arraylist* l; int64_t* e; uint32_t n, cap, block; bool fixed; } flat;
static int64_t serial;

static void flat_expect(const flat* f, const char* what)
{
	VF_CHECK(as_arraylist_size(f->l) == f->n, "%s: size is %u, expected %u", what, as_arraylist_size(f->l), f->n);
	for (uint32_t i = 0; i < f->n; i++) {
		as_val* v = as_arraylist_get(f->l, i);
		if (f->e[i] == NOTHING) VF_CHECK(v && as_val_type(v) == AS_NIL, "%s: element %u of %u is not nil", what, i, f->n);
		else VF_CHECK(v && as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == f->e[i], "%s: element %u of %u differs", what, i, f->n);
	}
	VF_CHECK(as_arraylist_get(f->l, f->n) == NULL, "%s: element past the end", what);
}
static bool flat_room(flat* f, uint64_t need)
{
	if (need <= f->cap) return true;
	if (f->block == 0) return false;
	f->cap = (uint32_t)need; /* at least */
	return true;
}
static bool flat_store(flat* f, uint32_t ix, bool set)
{
	uint64_t need = set ? (ix < f->n ? f->n : (uint64_t)ix + 1) : ix > f->n ? (uint64_t)ix + 1 : (uint64_t)f->n + 1;
	bool room = flat_room(f, need);
	int rc;
	serial++;
	if (!set && ix == f->n) rc = as_arraylist_append_int64(f->l, serial);
	else if (!set && ix == 0) rc = as_arraylist_prepend_int64(f->l, serial);
	else rc = set ? as_arraylist_set_int64(f->l, ix, serial) : as_arraylist_insert_int64(f->l, ix, serial);
	VF_CHECK(rc == (room ? AS_ARRAYLIST_OK : AS_ARRAYLIST_ERR_MAX), "%s at %u of %u returned %d", set ? "set" : "insert", ix, f->n, rc);
	if (!room) return false;
	if (!set && ix < f->n) memmove(f->e + ix + 1, f->e + ix, sizeof(*f->e) * (f->n - ix));
	for (uint32_t i = f->n; i < ix; i++) f->e[i] = NOTHING;
	f->e[ix] = serial;
	if (need > f->n) f->n = (uint32_t)need;
	return true;
}

#define FLAT_MAX 400000
static void large(void)
{
	static const uint32_t sizes[] = { 70000, 66000, 3000, 1200, 600, 300 };
	uint64_t base = vfa_live();
	vfa_set_limit(64u << 20);
	flat f[2];
	as_arraylist st[2];
	serial = 0;
	uint32_t top = sizes[vf_draw(6)];
	for (int i = 0; i < 2; i++) {
		f[i].e = vf_tmp(sizeof(int64_t) * FLAT_MAX);
		f[i].n = 0;
		f[i].cap = vf_bool() ? (uint32_t)vf_draw(top * 2) : (uint32_t)vf_draw(20);
		f[i].block = vf_chance(1, 5) ? 0 : vf_bool() ? (uint32_t)vf_range(top > 5000 ? 50 : 1, 200) : (uint32_t)vf_range(200, 2 * top);
		f[i].l = vf_bool() ? as_arraylist_new(f[i].cap, f[i].block) : as_arraylist_init(&st[i], f[i].cap, f[i].block);
		VF_CHECK(f[i].l != NULL, "list is missing");
		vf_note("list %d capacity %u block %u", i, f[i].cap, f[i].block);
	}
	unsigned steps = (unsigned)vf_range(2, 12);
	for (unsigned k = 0; k < steps; k++) {
		flat* s = &f[vf_draw(2)];
		flat* o = s == f ? f + 1 : f;
		as_list* g = (as_list*)s->l;
		unsigned op = k < 2 ? 0 : (unsigned)vf_draw(8);
		uint32_t a = (uint32_t)vf_draw(s->n + 1), b = (uint32_t)vf_range(1, top);
		if (s->n > FLAT_MAX / 4) op = 4;
		vf_note("%d.%u(%u, %u)", (int)(s - f), op, a, b);
		switch (op) {
		case 0: { bool set = vf_bool(); for (uint32_t i = 0; i < b; i++) if (!flat_store(s, s->n, set)) break; break; }
		case 1: b = b % 40 + 1; for (uint32_t i = 0; i < b; i++) if (!flat_store(s, (uint32_t)vf_draw(s->n + 1), false)) break; break;
		case 2: flat_store(s, s->n + b, vf_bool()); break;
		case 3: { /* a part becomes the list */
			bool take = vf_bool();
			as_arraylist* r = take ? as_arraylist_take(s->l, a) : as_arraylist_drop(s->l, a);
			VF_CHECK(r != NULL, "derived list is missing");
			flat t = { r, take ? s->e : s->e + a, take ? a : s->n - a };
			flat_expect(&t, take ? "first part" : "last part");
			flat_expect(s, "list a part was taken from");
			as_arraylist_destroy(r);
			break;
		}
		case 4:
			if (s->n == 0) break;
			a %= s->n;
			VF_CHECK((vf_bool() ? as_list_trim(g, a) : as_arraylist_trim(s->l, a)) == AS_ARRAYLIST_OK, "trim failed");
			s->n = a;
			break;
		case 5:
			b = b % 40 + 1;
			for (uint32_t i = 0; i < b && s->n; i++) {
				a = (uint32_t)vf_draw(s->n);
				VF_CHECK((vf_bool() ? as_list_remove(g, a) : as_arraylist_remove(s->l, a)) == AS_ARRAYLIST_OK, "remove failed");
				memmove(s->e + a, s->e + a + 1, sizeof(*s->e) * (s->n - a - 1));
				s->n--;
			}
			break;
		default: {
			if (op == 6 && s->n <= FLAT_MAX / 4) o = s;
			bool room = flat_room(s, (uint64_t)s->n + o->n);
			int rc = vf_bool() ? as_list_concat(g, (as_list*)o->l) : as_arraylist_concat(s->l, o->l);
			VF_CHECK(rc == (room ? AS_ARRAYLIST_OK : AS_ARRAYLIST_ERR_MAX), "concat of %u and %u returned %d", s->n, o->n, rc);
			if (!room) break;
			uint32_t c = o->n;
			memcpy(s->e + s->n, o->e, sizeof(*s->e) * c);
			s->n += c;
			break;
		}
		}
		VF_CHECK(as_arraylist_size(s->l) == s->n, "size is %u, expected %u", as_arraylist_size(s->l), s->n);
		if (vf_bool()) flat_expect(s, "list");
		if (s->n > 1000) vf_nontrivial();
		if (s->n > 65536) vf_label("more than 65536 elements");
	}
	for (int i = 0; i < 2; i++) { flat_expect(&f[i], "list at the end"); as_arraylist_destroy(f[i].l); }
	vfa_expect(base, "after destroying the lists");
}

const vf_target vf_targets[] = {
	{ "history", history, 2500000, 20000000, VF_FUZZ },
	{ "large", large, 1600, 16000, 0 },
	{ 0 }
};
