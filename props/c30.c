/* C30: operations that run out of memory. */
#include <aerospike/as_aerospike.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_buffer_pool.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_queue_mt.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_string.h>
#include <aerospike/as_string_builder.h>
#include <aerospike/as_stringmap.h>
#include <aerospike/as_thread_pool.h>
#include <aerospike/as_timer.h>
#include <citrusleaf/alloc.h>
#include <citrusleaf/cf_ll.h>
#include <citrusleaf/cf_queue.h>
#include <alloca.h>
#include <errno.h>
#include <inttypes.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "at least one memory request was made to fail inside an operation; distinct by choice sequence";

static unsigned hit;

/* Some of the requests of the next operation fail: one of them, or all from one on. */
static void arm(void)
{
	unsigned how = (unsigned)vf_draw(4);
	uint64_t k = 1 + vf_skewed(3);
	if (how == 1 || how == 2) vfa_fail_at(k);
	else if (how == 3) vfa_fail_from(k);
	else vfa_fail_at(0);
}
static bool disarm(void)
{
	bool f = vfa_failed();
	vfa_fail_at(0);
	if (f) hit++;
	return f;
}
/* Enumerated failures: every request in turn, alone and with all later ones. */
static void arm_nth(unsigned k, bool from) { if (from) vfa_fail_from(k); else vfa_fail_at(k); }

/* ---- array list ---- */

#define LMAX 4000
static mval* le[LMAX]; static uint32_t ln;
static mval nilv = { M_NIL };
static as_arraylist* L;

static void list_same(as_arraylist* l, mval** e, uint32_t n, const char* what)
{
	VF_CHECK(as_arraylist_size(l) == n, "%s: size is %u, expected %u", what, as_arraylist_size(l), n);
	for (uint32_t i = 0; i < n; i++) m_expect(as_arraylist_get(l, i), e[i], what);
	VF_CHECK(as_arraylist_get(l, n) == NULL, "%s: an element past the end", what);
}
static void list_insert(uint32_t ix, mval* m)
{
	uint32_t n = ix > ln ? ix + 1 : ln + 1;
	if (ix < ln) memmove(le + ix + 1, le + ix, sizeof(*le) * (ln - ix));
	for (uint32_t i = ln; i < ix; i++) le[i] = &nilv;
	le[ix] = m;
	ln = n;
}
static void list_set(uint32_t ix, mval* m)
{
	for (uint32_t i = ln; i < ix; i++) le[i] = &nilv;
	le[ix] = m;
	if (ix >= ln) ln = ix + 1;
}
static int list_call(unsigned op, unsigned kind, uint32_t ix, mval* m, as_val* v)
{
	as_list* g = (as_list*)L;
	switch (kind) {
	case 0: switch (op) {
		case 0: return as_arraylist_set(L, ix, v);
		case 1: return as_arraylist_insert(L, ix, v);
		case 2: return as_arraylist_append(L, v);
		default: return as_arraylist_prepend(L, v); }
	case 1: switch (op) {
		case 0: return as_list_set_int64(g, ix, m->u.i);
		case 1: return as_list_insert_int64(g, ix, m->u.i);
		case 2: return as_list_append_int64(g, m->u.i);
		default: return as_list_prepend_int64(g, m->u.i); }
	case 2: switch (op) {
		case 0: return as_list_set_double(g, ix, m->u.d);
		case 1: return as_list_insert_double(g, ix, m->u.d);
		case 2: return as_list_append_double(g, m->u.d);
		default: return as_list_prepend_double(g, m->u.d); }
	default: switch (op) {
		case 0: return as_list_set_str(g, ix, (char*)m->u.s.p);
		case 1: return as_list_insert_str(g, ix, (char*)m->u.s.p);
		case 2: return as_list_append_str(g, (char*)m->u.s.p);
		default: return as_list_prepend_str(g, (char*)m->u.s.p); }
	}
}

static void list_store(void)
{
	unsigned op = (unsigned)vf_draw(4), kind = (unsigned)vf_draw(4);
	uint32_t ix = op == 2 ? ln : op == 3 ? 0 : (uint32_t)vf_draw(ln + 1) + (vf_chance(1, 3) ? (uint32_t)vf_draw(20) : 0);
	mcfg c = { .budget = 4, .depth = 2, .small = true };
	mval* m;
	switch (kind) {
	case 0: m = m_gen(&c); break;
	case 1: m = m_int(vf_int64()); break;
	case 2: m = m_int(0); m->t = M_DBL; m->u.d = (double)vf_draw(1000) / 8; break;
	default: { char b[24]; int n = snprintf(b, sizeof(b), "text %u", (unsigned)vf_draw(1000)); m = m_str(b, (uint32_t)n); break; }
	}
	static const char* const on[] = { "set", "insert", "append", "prepend" };
	as_val* v = kind ? NULL : m_build(m);
	uint64_t live = vfa_live();
	arm();
	int rc = list_call(op, kind, ix, m, v);
	bool f = disarm();
	vf_note("%s %u %s: %d%s", on[op], ix, m_show(m), rc, f ? " (out of memory)" : "");
	if (rc) {
		VF_CHECK(f, "%s of %s returned %d although memory was available", on[op], m_show(m), rc);
		vfa_expect(live, "after a list operation that failed");
		list_same(L, le, ln, "list after a failed operation");
		if (vf_chance(1, 3)) { if (v) as_val_destroy(v); return; }
		rc = list_call(op, kind, ix, m, v);
		VF_CHECK(rc == 0, "the same %s returned %d after memory was available again", on[op], rc);
	}
	if (op == 0) list_set(ix, m); else list_insert(ix, m);
}

static void list_derive(void)
{
	unsigned op = (unsigned)vf_draw(5);
	uint32_t n = (uint32_t)vf_draw(ln + 3), at, cnt;
	if (op == 4) {
		/* concatenation of another list, or of itself */
		bool self = vf_chance(1, 4);
		if (ln * 2 > LMAX - 50) return;
		as_arraylist* o = self ? L : as_arraylist_new((uint32_t)vf_draw(4), 1 + (uint32_t)vf_draw(4));
		mval* oe[64]; uint32_t on = 0;
		if (!self) {
			on = (uint32_t)vf_draw(30);
			for (uint32_t i = 0; i < on; i++) { oe[i] = m_int((int64_t)i + 500); as_arraylist_append_int64(o, i + 500); }
		}
		uint64_t live = vfa_live();
		arm();
		int rc = as_arraylist_concat(L, o);
		bool f = disarm();
		vf_note("concat %u: %d%s", self ? ln : on, rc, f ? " (out of memory)" : "");
		if (rc) {
			VF_CHECK(f, "concat returned %d although memory was available", rc);
			vfa_expect(live, "after a concatenation that failed");
			list_same(L, le, ln, "list after a failed concatenation");
			if (!self) list_same(o, oe, on, "source of a failed concatenation");
			if (vf_bool()) { rc = as_arraylist_concat(L, o); VF_CHECK(rc == 0, "the same concat returned %d after memory was available again", rc); }
		}
		if (!rc) {
			uint32_t add = self ? ln : on;
			for (uint32_t i = 0; i < add; i++) le[ln + i] = self ? le[i] : oe[i];
			ln += add;
		}
		if (!self) as_arraylist_destroy(o);
		return;
	}
	if (op == 0 && ln == 0) return;
	for (int try = 0; try < 2; try++) {
		uint64_t live = vfa_live();
		if (try == 0) arm();
		as_arraylist* r = NULL; as_arraylist_iterator* it = NULL;
		switch (op) {
		case 0: r = as_arraylist_tail(L); at = 1; cnt = ln - 1; break;
		case 1: r = as_arraylist_drop(L, n); at = n < ln ? n : ln; cnt = ln - at; break;
		case 2: r = as_arraylist_take(L, n); at = 0; cnt = n < ln ? n : ln; break;
		default: it = as_arraylist_iterator_new(L); at = 0; cnt = ln; break;
		}
		bool f = disarm();
		vf_note("derive %u %u: %s%s", op, n, r || it ? "list" : "none", f ? " (out of memory)" : "");
		if (!r && !it) {
			VF_CHECK(f, "deriving a list (%u) gave none although memory was available", op);
			vfa_expect(live, "after deriving a list failed");
			list_same(L, le, ln, "list after deriving failed");
			continue;
		}
		if (it) {
			uint32_t i = 0;
			while (as_arraylist_iterator_has_next(it)) { m_expect(as_arraylist_iterator_next(it), le[i], "iterated"); i++; }
			VF_CHECK(i == ln, "the iterator gave %u of %u elements", i, ln);
			as_arraylist_iterator_destroy(it);
		}
		else { list_same(r, le + at, cnt, "derived list"); as_arraylist_destroy(r); }
		vfa_expect(live, "after a derived list is destroyed");
		return;
	}
}

static void t_list(void)
{
	hit = 0; ln = 0;
	uint64_t base = vfa_live();
	as_arraylist st;
	uint32_t cap = (uint32_t)vf_draw(6), block = 1 + (uint32_t)vf_draw(6);
	switch (vf_draw(2)) {
	case 0:
		arm();
		L = as_arraylist_new(cap, block);
		if (!L) { VF_CHECK(disarm(), "no list although memory was available"); vfa_expect(base, "after creating a list failed"); L = as_arraylist_new(cap, block); }
		else disarm();
		break;
	default:
		arm();
		L = as_arraylist_init(&st, cap, block);
		if (!L) { VF_CHECK(disarm(), "no list although memory was available"); vfa_expect(base, "after creating a list failed"); L = as_arraylist_init(&st, cap, block); }
		else disarm();
		break;
	}
	VF_CHECK(L != NULL, "no list after memory was available again");
	unsigned ops = 1 + (unsigned)vf_skewed(30);
	for (unsigned k = 0; k < ops; k++) {
		static const unsigned w[] = { 6, 3, 1, 1 };
		switch (vf_pick(4, w)) {
		case 0: if (ln < LMAX - 50) list_store(); break;
		case 1: list_derive(); break;
		case 2: if (ln) { uint32_t i = (uint32_t)vf_draw(ln); VF_CHECK(as_arraylist_remove(L, i) == 0, "remove %u failed", i); memmove(le + i, le + i + 1, sizeof(*le) * (ln - i - 1)); ln--; } break;
		default: if (ln) { uint32_t i = (uint32_t)vf_draw(ln); VF_CHECK(as_arraylist_trim(L, i) == 0, "trim %u failed", i); ln = i; } break;
		}
		list_same(L, le, ln, "list");
	}
	as_arraylist_destroy(L);
	vfa_expect(base, "after the list is destroyed");
	if (hit) vf_nontrivial();
}

/* ---- map ---- */

/* Integer keys; a model indexed by key. Keys added in falling order far from the end take the slow way in. */
#define KMAX 6000
static int64_t mv[KMAX]; static bool mon[KMAX]; static uint32_t mn;
static as_orderedmap* M;

typedef struct { int64_t last; uint32_t n; } mwalk;
static bool map_visit(const as_val* k, const as_val* v, void* ud)
{
	mwalk* w = ud;
	int64_t key = as_integer_get((as_integer*)k);
	VF_CHECK(as_val_type(k) == AS_INTEGER && key >= 0 && key < KMAX && mon[key], "the map holds an unexpected key");
	VF_CHECK(key > w->last, "the map gives key %" PRId64 " after %" PRId64, key, w->last);
	VF_CHECK(as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == mv[key], "the map holds a wrong value for key %" PRId64, key);
	w->last = key; w->n++;
	return true;
}
static void map_same(const char* what, bool walk)
{
	VF_CHECK(as_orderedmap_size(M) == mn, "%s: %u entries, expected %u", what, as_orderedmap_size(M), mn);
	if (walk) {
		mwalk w = { -1, 0 };
		VF_CHECK(as_orderedmap_foreach(M, map_visit, &w) && w.n == mn, "%s: walked %u entries of %u", what, w.n, mn);
	}
	else {
		/* lookups leave the representation alone */
		for (uint32_t i = 0; i < KMAX; i++) {
			as_integer key; as_integer_init(&key, i);
			as_val* v = as_orderedmap_get(M, (as_val*)&key);
			if (mon[i]) VF_CHECK(v && as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == mv[i], "%s: key %u has a wrong value or none", what, i);
			else VF_CHECK(v == NULL, "%s: key %u is present", what, i);
		}
	}
}
static void map_put_plain(uint32_t key, int64_t val)
{
	VF_CHECK(as_orderedmap_set(M, (as_val*)as_integer_new(key), (as_val*)as_integer_new(val)) == 0, "set %u failed", key);
	if (!mon[key]) { mon[key] = true; mn++; }
	mv[key] = val;
}
static void map_fill(uint32_t n, uint32_t low)
{
	/* keys in rising order from the middle, then `low` keys in falling or rising order below */
	for (uint32_t i = 0; i < n; i++) map_put_plain(3000 + i, i);
	bool rise = vf_bool();
	for (uint32_t i = 0; i < low; i++) map_put_plain(rise ? 100 + i : 2999 - i, i + 7000);
}

static bool map_set_one(void)
{
	uint32_t key = vf_bool() ? (uint32_t)vf_draw(KMAX) : vf_bool() ? (uint32_t)vf_draw(3000) : 3000 + (uint32_t)vf_draw(3000);
	int64_t val = vf_int64();
	as_val* k = (as_val*)as_integer_new(key);
	as_val* v = (as_val*)as_integer_new(val);
	uint64_t live = vfa_live();
	arm();
	int rc = as_orderedmap_set(M, k, v);
	bool f = disarm();
	vf_note("set %u: %d%s", key, rc, f ? " (out of memory)" : "");
	if (rc) {
		VF_CHECK(f, "setting key %u returned %d although memory was available", key, rc);
		vfa_expect(live, "after setting a key failed");
		map_same("map after setting a key failed", false);
		if (vf_chance(1, 3)) { as_val_destroy(k); as_val_destroy(v); return true; }
		rc = as_orderedmap_set(M, k, v);
		VF_CHECK(rc == 0, "setting key %u returned %d after memory was available again", key, rc);
	}
	if (!mon[key]) { mon[key] = true; mn++; }
	mv[key] = val;
	return f;
}

static void map_history(uint32_t n, uint32_t low, unsigned ops)
{
	hit = 0; mn = 0; memset(mon, 0, sizeof(mon));
	uint64_t base = vfa_live();
	as_orderedmap st;
	uint32_t cap = vf_bool() ? (uint32_t)vf_draw(4) : (uint32_t)vf_draw(40);
	bool heap = vf_bool();
	arm();
	M = heap ? as_orderedmap_new(cap) : as_orderedmap_init(&st, cap);
	if (!M) {
		VF_CHECK(disarm(), "no map although memory was available");
		vfa_expect(base, "after creating a map failed");
		M = heap ? as_orderedmap_new(cap) : as_orderedmap_init(&st, cap);
		VF_CHECK(M != NULL, "no map after memory was available again");
	}
	else disarm();
	map_fill(n, low);
	vf_note("%u entries, %u low", n, low);
	for (unsigned j = 0; j < ops; j++) {
		static const unsigned w[] = { 6, 2, 1, 1, 1, 1 };
		switch (vf_pick(6, w)) {
		case 0: if (map_set_one()) map_same("map after memory ran out", vf_bool()); break;
		case 1: {
			uint32_t key = (uint32_t)vf_draw(KMAX);
			if (vf_bool()) for (uint32_t i = 0; i < KMAX && !mon[key]; i++) key = (key + 1) % KMAX;
			as_integer k; as_integer_init(&k, key);
			arm();
			int rc = as_orderedmap_remove(M, (as_val*)&k);
			bool f = disarm();
			vf_note("remove %u: %d%s", key, rc, f ? " (out of memory)" : "");
			if (rc) {
				VF_CHECK(f, "removing key %u returned %d although memory was available", key, rc);
				map_same("map after removing a key failed", false);
				rc = as_orderedmap_remove(M, (as_val*)&k);
				VF_CHECK(rc == 0, "removing key %u returned %d after memory was available again", key, rc);
			}
			if (mon[key]) { mon[key] = false; mn--; }
			if (f) map_same("map after removing", false);
			break;
		}
		case 2: {
			mwalk w = { -1, 0 };
			arm();
			bool ok = as_orderedmap_foreach(M, map_visit, &w);
			bool f = disarm();
			vf_note("walk: %d%s", ok, f ? " (out of memory)" : "");
			VF_CHECK(ok || f, "walking the map failed although memory was available");
			if (ok) VF_CHECK(w.n == mn, "walked %u of %u entries and reported success", w.n, mn);
			else { map_same("map after a walk failed", false); map_same("map after a walk failed", true); }
			break;
		}
		case 3: {
			uint64_t live = vfa_live();
			bool fresh = vf_bool();
			as_orderedmap_iterator si, *it;
			arm();
			it = fresh ? as_orderedmap_iterator_new(M) : as_orderedmap_iterator_init(&si, M);
			bool f = disarm();
			vf_note("iterator: %s%s", it ? "yes" : "none", f ? " (out of memory)" : "");
			VF_CHECK(it || f, "no iterator although memory was available");
			if (!it) {
				VF_CHECK(vfa_live() <= live, "memory was lost when making an iterator failed");
				map_same("map after making an iterator failed", false);
				it = fresh ? as_orderedmap_iterator_new(M) : as_orderedmap_iterator_init(&si, M);
				VF_CHECK(it != NULL, "no iterator after memory was available again");
			}
			mwalk w = { -1, 0 };
			while (as_orderedmap_iterator_has_next(it)) { as_pair* p = (as_pair*)as_orderedmap_iterator_next(it); map_visit(as_pair_1(p), as_pair_2(p), &w); }
			VF_CHECK(w.n == mn, "the iterator gave %u of %u entries", w.n, mn);
			as_orderedmap_iterator_destroy(it);
			break;
		}
		case 4: {
			/* a copy through the wire format */
			as_serializer ser; as_msgpack_init(&ser);
			as_buffer b; as_buffer_init(&b);
			arm();
			int rc = as_serializer_serialize(&ser, (as_val*)M, &b);
			bool f = disarm();
			vf_note("serialize: %d%s", rc, f ? " (out of memory)" : "");
			VF_CHECK(rc == 0 || f, "serializing the map returned %d although memory was available", rc);
			if (rc) {
				map_same("map after serializing failed", false);
				as_buffer_init(&b);
				rc = as_serializer_serialize(&ser, (as_val*)M, &b);
				VF_CHECK(rc == 0, "serializing returned %d after memory was available again", rc);
			}
			as_val* v = NULL;
			VF_CHECK(as_serializer_deserialize(&ser, &b, &v) == 0 && v && as_val_type(v) == AS_MAP, "what was serialized cannot be read");
			VF_CHECK(as_map_size((as_map*)v) == mn, "what was serialized has %u of %u entries", as_map_size((as_map*)v), mn);
			mwalk w = { -1, 0 };
			as_map_foreach((as_map*)v, map_visit, &w);
			as_val_destroy(v);
			as_buffer_destroy(&b);
			as_serializer_destroy(&ser);
			break;
		}
		default: {
			if (mn > 200 && !vf_chance(1, 10)) break;
			as_orderedmap_clear(M); mn = 0; memset(mon, 0, sizeof(mon));
			vf_note("clear");
			break;
		}
		}
		VF_CHECK(as_orderedmap_size(M) == mn, "%u entries, expected %u", as_orderedmap_size(M), mn);
	}
	map_same("map at the end", vf_bool());
	as_orderedmap_destroy(M);
	vfa_expect(base, "after the map is destroyed");
	if (hit) vf_nontrivial();
}
static void t_map(void) { map_history((uint32_t)vf_draw(30), 0, 1 + (unsigned)vf_skewed(20)); }
static void t_bigmap(void)
{
	uint32_t n = 980 + (uint32_t)vf_draw(600);
	uint32_t low = vf_chance(1, 2) ? 990 + (uint32_t)vf_draw(20) : (uint32_t)vf_draw(1200);
	if (n < 1000) low = low % 50;
	map_history(n, low, 1 + (unsigned)vf_skewed(12));
}

/* Typed helpers of maps keyed by text. */
static void t_stringmap(void)
{
	hit = 0;
	uint64_t base = vfa_live();
	as_orderedmap* m = as_orderedmap_new(1 + (uint32_t)vf_draw(10));
	as_map* g = (as_map*)m;
	bool on[40] = { 0 }; int64_t iv[40]; unsigned kind[40]; uint32_t n = 0;
	unsigned ops = 1 + (unsigned)vf_skewed(30);
	for (unsigned j = 0; j < ops; j++) {
		unsigned k = (unsigned)vf_draw(40), t = (unsigned)vf_draw(4);
		char name[24], text[24];
		snprintf(name, sizeof(name), "key%u", k);
		int64_t v = (int64_t)vf_draw(1000);
		snprintf(text, sizeof(text), "text%d", (int)v);
		as_val* own = t == 3 ? (as_val*)as_integer_new(v) : NULL;
		uint64_t live = vfa_live();
		for (int try = 0; try < 2; try++) {
			int rc;
			if (try == 0) arm();
			switch (t) {
			case 0: rc = as_stringmap_set_int64(g, name, v); break;
			case 1: rc = as_stringmap_set_double(g, name, (double)v); break;
			case 2: rc = as_stringmap_set_str(g, name, text); break;
			default: rc = as_stringmap_set(g, name, own); break;
			}
			bool f = disarm();
			vf_note("set %s kind %u: %d%s", name, t, rc, f ? " (out of memory)" : "");
			if (rc == 0) { if (!on[k]) { on[k] = true; n++; } iv[k] = v; kind[k] = t; break; }
			VF_CHECK(f, "setting %s returned %d although memory was available", name, rc);
			vfa_expect(live, "after setting a key failed");
			if (try == 0 && vf_chance(1, 3)) { if (own) as_val_destroy(own); break; }
			VF_CHECK(try == 0, "setting %s returned %d after memory was available again", name, rc);
		}
		VF_CHECK(as_map_size(g) == n, "%u entries, expected %u", as_map_size(g), n);
		for (unsigned i = 0; i < 40; i++) {
			snprintf(name, sizeof(name), "key%u", i);
			as_val* x = as_stringmap_get(g, name);
			VF_CHECK((x != NULL) == on[i], "%s is %s", name, x ? "present" : "missing");
			if (!x) continue;
			snprintf(text, sizeof(text), "text%d", (int)iv[i]);
			if (kind[i] == 1) VF_CHECK(as_stringmap_get_double(g, name) == (double)iv[i], "%s has a wrong value", name);
			else if (kind[i] == 2) { char* s = as_string_get(as_string_fromval(x)); VF_CHECK(s && strcmp(s, text) == 0, "%s has a wrong value", name); }
			else VF_CHECK(as_val_type(x) == AS_INTEGER && as_stringmap_get_int64(g, name) == iv[i], "%s has a wrong value", name);
		}
	}
	as_orderedmap_destroy(m);
	vfa_expect(base, "after the map is destroyed");
	if (hit) vf_nontrivial();
}

/* ---- queues ---- */

#define QMAX 2000
static uint8_t qe[QMAX][32]; static uint32_t qn;

static int q_reduce(void* b, void* ud)
{
	uint32_t* i = ud;
	VF_CHECK(*i < qn && memcmp(b, qe[*i], 8) == 0, "queued element %u is wrong", *i);
	++*i;
	return 0;
}

static void t_queue(void)
{
	hit = 0; qn = 0;
	uint64_t base = vfa_live();
	cf_queue st, *q;
	uint32_t es = 8 * (1 + (uint32_t)vf_draw(4)), cap = vf_bool() ? 1 + (uint32_t)vf_draw(8) : 64;
	bool ts = vf_bool(), heap = vf_chance(1, 4);
	for (int try = 0;; try++) {
		if (try == 0) arm();
		q = heap ? cf_queue_create(es, ts) : cf_queue_init(&st, es, cap, ts) ? &st : NULL;
		bool f = disarm();
		if (q) break;
		VF_CHECK(f && try == 0, "no queue although memory was available");
		vfa_expect(base, "after creating a queue failed");
	}
	uint64_t own = vfa_live();
	unsigned ops = 1 + (unsigned)vf_skewed(60);
	uint64_t seq = 0;
	for (unsigned j = 0; j < ops; j++) {
		static const unsigned w[] = { 4, 2, 2, 2, 2, 5, 1 };
		unsigned op = (unsigned)vf_pick(7, w);
		/* fill up to the next power of two now and then, where growth happens */
		if (vf_chance(1, 6)) {
			uint32_t room = heap ? CF_QUEUE_ALLOCSZ : cap;
			while (room <= qn) room *= 2;
			while (qn < room && qn < QMAX - 8) { memset(qe[qn], 0, 32); ++seq; memcpy(qe[qn], &seq, 8); VF_CHECK(cf_queue_push(q, qe[qn]) == CF_QUEUE_OK, "push failed"); qn++; }
		}
		if (op < 5) {
			if (qn >= QMAX - 8) continue;
			uint8_t e[32] = { 0 };
			++seq; memcpy(e, &seq, 8); memset(e + 8, (int)seq, 24);
			uint32_t ix = (uint32_t)vf_draw(qn + 3), at = qn, lim = vf_bool() ? QMAX * 2 : (uint32_t)vf_draw(qn + 3);
			for (int try = 0; try < 2; try++) {
				int rc = 0; bool full = false;
				if (try == 0) arm();
				switch (op) {
				case 0: rc = cf_queue_push(q, e); break;
				case 1: rc = cf_queue_push_head(q, e); at = 0; break;
				case 2: rc = cf_queue_push_limit(q, e, lim) ? 0 : -1; full = qn >= lim; break;
				case 3: rc = cf_queue_push_index(q, e, ix); at = ix < qn ? ix : qn; break;
				default: rc = cf_queue_push_unique(q, e); break;
				}
				bool f = disarm();
				vf_note("push %u (holding %u): %d%s", op, qn, rc, f ? " (out of memory)" : "");
				if (full) { VF_CHECK(rc != 0, "a push above the limit was taken"); break; }
				if (rc == 0) {
					memmove(qe[at + 1], qe[at], 32 * (size_t)(qn - at));
					memcpy(qe[at], e, 32); qn++;
					break;
				}
				VF_CHECK(f, "push (%u) returned %d although memory was available", op, rc);
				if (op != 2) VF_CHECK(rc == CF_QUEUE_ERR, "push (%u) without memory returned %d", op, rc);
				vfa_expect(own, "after a push failed");
				if (vf_chance(1, 3)) break;
				VF_CHECK(try == 0, "push");
			}
		}
		else if (op == 5) {
			uint8_t e[32] = { 0 };
			int rc = cf_queue_pop(q, e, CF_QUEUE_NOWAIT);
			VF_CHECK(rc == (qn ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "pop with %u queued returned %d", qn, rc);
			if (qn) { VF_CHECK(memcmp(e, qe[0], es < 32 ? es : 32) == 0, "pop gave a wrong element"); memmove(qe[0], qe[1], 32 * (size_t)(qn - 1)); qn--; }
		}
		else { cf_queue_delete_all(q); qn = 0; }
		VF_CHECK(cf_queue_sz(q) == qn, "%u queued, expected %u", cf_queue_sz(q), qn);
		uint32_t i = 0;
		cf_queue_reduce(q, q_reduce, &i);
		VF_CHECK(i == qn, "visited %u of %u", i, qn);
		vfa_expect(own, "after a queue operation");
	}
	cf_queue_destroy(q);
	vfa_expect(base, "after the queue is destroyed");
	if (hit) vf_nontrivial();
}

static void t_queue2(void)
{
	hit = 0; qn = 0;
	uint64_t base = vfa_live();
	as_queue st, *q = NULL; as_queue_mt mst, *mq = NULL;
	uint32_t es = 8 * (1 + (uint32_t)vf_draw(4)), cap = 1 + (uint32_t)vf_draw(8);
	unsigned how = (unsigned)vf_draw(5);
	for (int try = 0;; try++) {
		if (try == 0) arm();
		switch (how) {
		case 0: q = as_queue_init(&st, es, cap) ? &st : NULL; break;
		case 1: q = as_queue_create(es, cap); break;
		case 2: as_queue_inita(&st, es, cap); q = &st; break;
		case 3: mq = as_queue_mt_init(&mst, es, cap) ? &mst : NULL; break;
		default: mq = as_queue_mt_create(es, cap); break;
		}
		bool f = disarm();
		if (q || mq) break;
		VF_CHECK(f && try == 0, "no queue although memory was available");
		vfa_expect(base, "after creating a queue failed");
	}
	unsigned ops = 1 + (unsigned)vf_skewed(60);
	uint64_t seq = 0;
	uint32_t cp = cap; /* storage is at least this */
	for (unsigned j = 0; j < ops; j++) {
		static const unsigned w[] = { 5, 3, 1, 5 };
		unsigned op = (unsigned)vf_pick(4, w);
		if (op < 3) {
			uint8_t e[32] = { 0 };
			++seq; memcpy(e, &seq, 8); memset(e + 8, (int)seq, 24);
			for (int try = 0; try < 2; try++) {
				uint64_t live = vfa_live();
				bool ok;
				if (try == 0) arm();
				switch (op) {
				case 0: ok = q ? as_queue_push(q, e) : as_queue_mt_push(mq, e); break;
				case 1: ok = q ? as_queue_push_head(q, e) : as_queue_mt_push_head(mq, e); break;
				default: ok = q ? as_queue_push_limit(q, e) : as_queue_mt_push_limit(mq, e); break;
				}
				bool f = disarm();
				vf_note("push %u (holding %u): %d%s", op, qn, ok, f ? " (out of memory)" : "");
				if (ok) {
					uint32_t at = op == 1 ? 0 : qn;
					memmove(qe[at + 1], qe[at], 32 * (size_t)(qn - at));
					memcpy(qe[at], e, 32); qn++;
					if (qn > cp) cp = qn;
					break;
				}
				if (op == 2) { VF_CHECK(qn >= cap, "a push below the limit was refused"); VF_CHECK(!f || vfa_live() == live, "leak"); break; }
				VF_CHECK(f, "push failed although memory was available");
				vfa_expect(live, "after a push failed");
				if (vf_chance(1, 3)) break;
			}
		}
		else {
			uint8_t e[32] = { 0 };
			bool ok = q ? as_queue_pop(q, e) : as_queue_mt_pop(mq, e, AS_QUEUE_NOWAIT);
			VF_CHECK(ok == (qn > 0), "pop with %u queued returned %d", qn, ok);
			if (qn) { VF_CHECK(memcmp(e, qe[0], es) == 0, "pop gave a wrong element"); memmove(qe[0], qe[1], 32 * (size_t)(qn - 1)); qn--; }
		}
		uint32_t n = q ? as_queue_size(q) : as_queue_mt_size(mq);
		VF_CHECK(n == qn, "%u queued, expected %u", n, qn);
	}
	uint32_t n = qn;
	for (uint32_t i = 0; i < n; i++) {
		uint8_t e[32] = { 0 };
		VF_CHECK(q ? as_queue_pop(q, e) : as_queue_mt_pop(mq, e, AS_QUEUE_NOWAIT), "pop of a queue holding %u failed", n - i);
		VF_CHECK(memcmp(e, qe[i], es) == 0, "element %u of %u is wrong", i, n);
	}
	if (q) as_queue_destroy(q); else as_queue_mt_destroy(mq);
	vfa_expect(base, "after the queue is destroyed");
	if (hit) vf_nontrivial();
}

/* ---- bytes and text ---- */

static void t_bytes(void)
{
	hit = 0;
	uint64_t base = vfa_live();
	as_bytes st, *b = NULL;
	uint32_t cap = (uint32_t)vf_draw(20), n = 0;
	uint8_t ref[8192], raw[32];
	unsigned how = (unsigned)vf_draw(4);
	for (int try = 0;; try++) {
		if (try == 0) arm();
		switch (how) {
		case 0: b = as_bytes_init(&st, cap); break;
		case 1: b = as_bytes_new(cap); break;
		case 2: as_bytes_init_wrap(&st, raw, cap, false); b = &st; b->size = 0; break;
		default: as_bytes_inita(&st, cap); b = &st; break;
		}
		bool f = disarm();
		if (b) break;
		VF_CHECK(f && try == 0, "no byte buffer although memory was available");
		vfa_expect(base, "after creating a byte buffer failed");
	}
	vf_note("storage %u capacity %u", how, cap);
	unsigned ops = 1 + (unsigned)vf_skewed(20);
	for (unsigned j = 0; j < ops; j++) {
		uint8_t src[200];
		uint32_t k = 1 + (uint32_t)vf_skewed(200);
		vf_fill(src, k);
		/* room first, as documented, then the append must succeed */
		uint32_t want = n + k + (uint32_t)vf_skewed(100);
		for (int try = 0; try < 2; try++) {
			uint64_t live = vfa_live();
			if (try == 0) arm();
			bool ok = as_bytes_ensure(b, want, true);
			bool f = disarm();
			vf_note("ensure %u: %d%s", want, ok, f ? " (out of memory)" : "");
			if (!ok) {
				VF_CHECK(f && try == 0, "growing to %u failed although memory was available", want);
				vfa_expect(live, "after growing failed");
				VF_CHECK(as_bytes_size(b) == n && as_bytes_capacity(b) < want, "size %u capacity %u after growing to %u failed", as_bytes_size(b), as_bytes_capacity(b), want);
				if (n) VF_CHECK(memcmp(as_bytes_get(b), ref, n) == 0, "contents changed by growth that failed");
				if (vf_chance(1, 3)) break;
				continue;
			}
			VF_CHECK(as_bytes_capacity(b) >= want, "capacity %u after growing to %u", as_bytes_capacity(b), want);
			VF_CHECK(as_bytes_append(b, src, k), "append within capacity failed");
			memcpy(ref + n, src, k); n += k;
			break;
		}
		VF_CHECK(as_bytes_size(b) == n, "size %u, expected %u", as_bytes_size(b), n);
		if (n) VF_CHECK(memcmp(as_bytes_get(b), ref, n) == 0, "contents are wrong");
	}
	as_bytes_destroy(b);
	vfa_expect(base, "after the byte buffer is destroyed");
	if (hit) vf_nontrivial();
}

static void t_builder(void)
{
	hit = 0;
	uint64_t base = vfa_live();
	as_string_builder sb;
	uint32_t cap = 1 + (uint32_t)vf_draw(30), n = 0;
	bool heap = vf_bool();
	if (heap) as_string_builder_init(&sb, cap, true);
	else { as_string_builder_inita(&sb, cap, true); }
	char ref[16384]; ref[0] = 0;
	unsigned ops = 1 + (unsigned)vf_skewed(20);
	for (unsigned j = 0; j < ops; j++) {
		char t[700]; uint8_t raw[200]; uint32_t k = 0;
		unsigned op = (unsigned)vf_draw(5);
		int iv = (int)vf_uint32(); int64_t lv = vf_int64();
		switch (op) {
		case 0: k = (uint32_t)vf_skewed(300); vf_fill_text(t, k); t[k] = 0; break;
		case 1: k = 1; t[0] = (char)vf_range(1, 255); break;
		case 2: k = (uint32_t)snprintf(t, sizeof(t), "%d", iv); break;
		case 3: k = (uint32_t)snprintf(t, sizeof(t), "%" PRId64, lv); break;
		default: {
			uint32_t m = (uint32_t)vf_skewed(120); vf_fill(raw, m);
			t[k++] = '[';
			for (uint32_t i = 0; i < m; i++) k += (uint32_t)snprintf(t + k, sizeof(t) - k, i ? " %02X" : "%02X", raw[i]);
			t[k++] = ']';
			iv = (int)m;
			break;
		}
		}
		uint64_t live = vfa_live();
		arm();
		bool ok;
		switch (op) {
		case 0: ok = as_string_builder_append(&sb, t); break;
		case 1: ok = as_string_builder_append_char(&sb, t[0]); break;
		case 2: ok = as_string_builder_append_int(&sb, iv); break;
		case 3: ok = as_string_builder_append_int64(&sb, lv); break;
		default: ok = as_string_builder_append_bytes(&sb, raw, (uint32_t)iv); break;
		}
		bool f = disarm();
		vf_note("append %u of %u: %d%s", op, k, ok, f ? " (out of memory)" : "");
		VF_CHECK(ok || f, "an append failed although memory was available");
		memcpy(ref + n, t, k);
		if (ok) n += k;
		else {
			/* what was there stays; the part that fitted may follow */
			vfa_expect(live, "after an append failed");
			uint32_t got = sb.length;
			VF_CHECK(got >= n && got <= n + k, "length %u after an append of %u to %u failed", got, k, n);
			n = got;
		}
		ref[n] = 0;
		VF_CHECK(sb.length == n, "length %u, expected %u", sb.length, n);
		VF_CHECK(memcmp(sb.data, ref, n) == 0, "the text is wrong");
		VF_CHECK(sb.data[n] == 0, "the text is not terminated%s", ok ? "" : " after an append failed");
	}
	as_string_builder_destroy(&sb);
	vfa_expect(base, "after the builder is destroyed");
	if (hit) vf_nontrivial();
}

/* ---- wire format ---- */

static mval* gen_tree(void)
{
	mcfg c = { .budget = 1 + (unsigned)vf_skewed(25), .depth = 5 };
	mval* m = m_gen(&c);
	if (vf_chance(1, 3)) {
		/* several output buffers */
		unsigned n = 1 + (unsigned)vf_draw(6);
		mval* l = m_list(n + 1);
		for (unsigned i = 0; i < n; i++) {
			uint32_t len = vf_bool() ? (uint32_t)vf_draw(9000) : 8000 + (uint32_t)vf_draw(400);
			char* s = vf_tmp(len + 1);
			memset(s, 'a' + (int)i, len); s[len] = 0;
			l->u.c.e[i] = vf_bool() ? m_str(s, len) : m_bytes((uint8_t*)s, len, AS_BYTES_BLOB);
		}
		l->u.c.e[n] = m;
		return l;
	}
	return m;
}

static void t_serialize(void)
{
	hit = 0;
	mval* m = gen_tree();
	uint64_t base = vfa_live();
	as_val* v = m_build(m);
	uint64_t built = vfa_live();
	as_serializer ser; as_msgpack_init(&ser);
	as_buffer want; as_buffer_init(&want);
	VF_CHECK(as_serializer_serialize(&ser, v, &want) == 0, "serializing failed although memory was available");
	uint64_t with = vfa_live();
	vf_note("%s", m_show(m));
	for (int from = 0; from < 2; from++) {
		for (unsigned k = 1;; k++) {
			as_buffer b; as_buffer_init(&b);
			arm_nth(k, from);
			int rc = as_serializer_serialize(&ser, v, &b);
			bool f = disarm();
			if (rc) {
				VF_CHECK(f, "serializing returned %d although memory was available", rc);
				vfa_expect(with, "after serializing failed");
			}
			else {
				VF_CHECK(b.size == want.size && memcmp(b.data, want.data, b.size) == 0, "serializing while request %u fails gave a different encoding and reported success", k);
				as_buffer_destroy(&b);
				vfa_expect(with, "after the buffer is destroyed");
			}
			if (!f) break;
		}
	}
	m_expect(v, m, "value after serializing failed");
	as_val* r = NULL;
	VF_CHECK(as_serializer_deserialize(&ser, &want, &r) == 0, "the encoding cannot be read");
	as_val_destroy(r);
	as_buffer_destroy(&want);
	vfa_expect(built, "after the buffer is destroyed");
	as_val_destroy(v);
	as_serializer_destroy(&ser);
	vfa_expect(base, "at the end");
	if (hit) vf_nontrivial();
}

static void t_deserialize(void)
{
	hit = 0;
	mcfg c = { .budget = 1 + (unsigned)vf_skewed(30), .depth = 5 };
	mval* m = m_gen(&c);
	if (vf_chance(1, 20)) {
		/* a map whose keys come in falling order is filled the slow way */
		uint32_t n = 1002 + (uint32_t)vf_draw(1100);
		m = m_map(n);
		bool up = vf_chance(1, 4);
		for (uint32_t i = 0; i < n; i++) { m->u.c.e[2 * i] = m_int(up ? i : n - i); m->u.c.e[2 * i + 1] = m_int(i & 7); }
	}
	uint64_t base = vfa_live();
	as_serializer ser; as_msgpack_init(&ser);
	mbuf enc = { 0 };
	m_encode(&enc, m);
	vf_note("%s", m_show(m));
	as_buffer b; as_buffer_init(&b);
	uint8_t* copy = vf_guarded(enc.n); memcpy(copy, enc.p, enc.n);
	b.data = copy; b.size = b.capacity = (uint32_t)enc.n;
	as_val* v = NULL;
	VF_CHECK(as_serializer_deserialize(&ser, &b, &v) == 0 && v, "reading the encoding failed although memory was available");
	/* what it reads as with enough memory is the normal result */
	as_buffer want; as_buffer_init(&want);
	VF_CHECK(as_serializer_serialize(&ser, v, &want) == 0, "serializing what was read failed");
	as_val_destroy(v);
	uint64_t with = vfa_live();
	for (int from = 0; from < 2; from++) {
		unsigned step = 1;
		for (unsigned k = 1;; k += step) {
			if (k > 60) step = 1 + k / 20;
			as_val* r = NULL;
			arm_nth(k, from);
			int rc = as_serializer_deserialize(&ser, &b, &r);
			bool f = disarm();
			if (rc) {
				VF_CHECK(f, "reading returned %d although memory was available", rc);
				vfa_expect(with, "after reading failed");
			}
			else {
				VF_CHECK(r != NULL, "reading while request %u fails gave no value and reported success", k);
				as_buffer again; as_buffer_init(&again);
				VF_CHECK(as_serializer_serialize(&ser, r, &again) == 0, "a value read while request %u fails cannot be serialized", k);
				VF_CHECK(again.size == want.size && memcmp(again.data, want.data, want.size) == 0, "reading while request %u fails gave a different value and reported success", k);
				as_buffer_destroy(&again);
				as_val_destroy(r);
				vfa_expect(with, "after the value is destroyed");
			}
			if (!f) break;
		}
	}
	as_buffer_destroy(&want);
	as_serializer_destroy(&ser);
	vfa_expect(base, "at the end");
	if (hit) vf_nontrivial();
}

/* Skipping and comparing values nested deeper than the fixed part. */
static void t_deep(void)
{
	hit = 0;
	unsigned depth = 240 + (unsigned)vf_draw(60);
	if (vf_chance(1, 3)) depth = 250 + (unsigned)vf_draw(600);
	mcfg c = { .budget = 4, .depth = 2, .small = true };
	mval* a = m_gen_deep(&c, depth);
	mval* b = vf_bool() ? a : m_mutate(a, &c);
	mbuf ea = { 0 }, eb = { 0 };
	m_encode(&ea, a); m_encode(&eb, b);
	uint8_t* pa = vf_guarded(ea.n); memcpy(pa, ea.p, ea.n);
	uint8_t* pb = vf_guarded(eb.n); memcpy(pb, eb.p, eb.n);
	uint64_t base = vfa_live();
	as_unpacker u = { pa, 0, (int)ea.n };
	int64_t size = as_unpack_size(&u);
	VF_CHECK(size == (int64_t)ea.n, "a value of %zu bytes measures %" PRId64, ea.n, size);
	msgpack_compare_t cmp = as_unpack_buf_compare(pa, (uint32_t)ea.n, pb, (uint32_t)eb.n);
	vfa_expect(base, "after measuring and comparing");
	vf_note("depth %u: %d", depth, (int)cmp);
	for (int from = 0; from < 2; from++) {
		for (unsigned k = 1;; k++) {
			as_unpacker x = { pa, 0, (int)ea.n };
			arm_nth(k, from);
			int64_t s = as_unpack_size(&x);
			bool f = disarm();
			VF_CHECK(s == size || (s < 0 && f), "a value of %zu bytes measures %" PRId64 " when request %u fails", ea.n, s, k);
			vfa_expect(base, "after measuring");
			if (!f) break;
		}
		for (unsigned k = 1;; k++) {
			arm_nth(k, from);
			msgpack_compare_t r = as_unpack_buf_compare(pa, (uint32_t)ea.n, pb, (uint32_t)eb.n);
			bool f = disarm();
			VF_CHECK(r == cmp || (f && r == MSGPACK_COMPARE_ERROR), "the comparison is %d when request %u fails, and %d with enough memory", (int)r, k, (int)cmp);
			vfa_expect(base, "after comparing");
			if (!f) break;
		}
	}
	if (hit) vf_nontrivial();
}

/* Comparing maps in memory may first put a map into order. */
static as_orderedmap* cmp_map(uint32_t n, uint32_t low, int64_t odd)
{
	as_orderedmap* m = as_orderedmap_new(n);
	for (uint32_t i = 0; i < n; i++) as_orderedmap_set(m, (as_val*)as_integer_new(3000 + i), (as_val*)as_integer_new(i));
	for (uint32_t i = 0; i < low; i++) as_orderedmap_set(m, (as_val*)as_integer_new(2000 - (int64_t)i - (i + 1 == low ? odd : 0)), (as_val*)as_integer_new(i));
	return m;
}
static void t_compare(void)
{
	hit = 0;
	uint64_t base = vfa_live();
	uint32_t n = 1000 + (uint32_t)vf_draw(100), low = (uint32_t)vf_draw(60);
	int64_t odd = vf_bool() ? 0 : (int64_t)vf_draw(3);
	vf_note("%u + %u, odd %d", n, low, (int)odd);
	for (int from = 0; from < 2; from++) {
		for (unsigned k = 1;; k++) {
			as_orderedmap* a = cmp_map(n, low, 0);
			as_orderedmap* b = cmp_map(n, low, odd);
			arm_nth(k, from);
			msgpack_compare_t r = as_val_cmp((as_val*)a, (as_val*)b);
			bool f = disarm();
			msgpack_compare_t want = !low || !odd ? MSGPACK_COMPARE_EQUAL : MSGPACK_COMPARE_GREATER;
			VF_CHECK(r == want || (f && r == MSGPACK_COMPARE_ERROR), "the comparison is %d when request %u fails, expected %d", (int)r, k, (int)want);
			r = as_val_cmp((as_val*)a, (as_val*)b);
			VF_CHECK(r == want, "the comparison is %d after memory was available again, expected %d", (int)r, (int)want);
			as_orderedmap_destroy(a); as_orderedmap_destroy(b);
			vfa_expect(base, "after comparing");
			if (!f) break;
		}
	}
	if (hit) vf_nontrivial();
}

/* ---- buffer pool ---- */

static void t_pool(void)
{
	hit = 0;
	uint64_t base = vfa_live();
	as_buffer_pool pool;
	uint32_t hs = (uint32_t)vf_draw(30), bs = hs + (uint32_t)vf_draw(200);
	for (int try = 0;; try++) {
		if (try == 0) arm();
		int rc = as_buffer_pool_init(&pool, hs, bs);
		bool f = disarm();
		if (rc == 0) break;
		VF_CHECK(f && try == 0, "initializing the pool returned %d although memory was available", rc);
		vfa_expect(base, "after initializing the pool failed");
	}
	uint64_t own = vfa_live();
	as_buffer_result held[200]; unsigned nh = 0, np = 0;
	unsigned ops = 1 + (unsigned)vf_skewed(40);
	for (unsigned j = 0; j < ops; j++) {
		/* many at once, so that the queue of free buffers grows */
		if (vf_chance(1, 6)) {
			while (nh + np < 130) { VF_CHECK(as_buffer_pool_pop(&pool, 0, &held[nh]) >= 0, "pop failed"); if (np) np--; nh++; if (np == 0 && nh >= 130) break; }
		}
		static const unsigned w[] = { 4, 6, 2, 1, 1 };
		switch (vf_pick(5, w)) {
		case 0: {
			if (nh >= 190) break;
			uint32_t want = (uint32_t)vf_draw(260);
			bool over = (uint64_t)want + hs > bs;
			as_buffer_result r = { NULL, 0 };
			arm();
			int rc = as_buffer_pool_pop(&pool, want, &r);
			bool f = disarm();
			vf_note("get %u: %d%s", want, rc, f ? " (out of memory)" : "");
			if (rc < 0) { VF_CHECK(f, "a request of %u returned %d although memory was available", want, rc); break; }
			VF_CHECK(rc == (over ? 2 : np ? 0 : 1), "a request of %u with %u pooled returned %d", want, np, rc);
			VF_CHECK(vfa_size(r.data) >= (size_t)r.capacity + hs && r.capacity >= want, "the buffer is too small");
			if (rc == 0) np--;
			held[nh++] = r;
			break;
		}
		case 1: case 2: {
			unsigned cnt = vf_chance(1, 4) ? nh : 1;
			for (; cnt && nh; cnt--) {
				as_buffer_result r = held[--nh];
				bool over = (uint64_t)r.capacity + hs > bs, lim = vf_bool();
				uint32_t max = (uint32_t)vf_range(0, 300);
				arm();
				int rc = lim ? as_buffer_pool_push_limit(&pool, r.data, r.capacity, max) : as_buffer_pool_push(&pool, r.data, r.capacity);
				bool f = disarm();
				vf_note("give back %u: %d%s", r.capacity, rc, f ? " (out of memory)" : "");
				if (over) VF_CHECK(rc == -2, "giving back an oversized buffer returned %d", rc);
				else if (lim && np >= max) VF_CHECK(rc == -1, "giving back above the limit returned %d", rc);
				else { VF_CHECK(rc == 0 || (rc == -1 && f), "giving back returned %d", rc); if (rc == 0) np++; }
			}
			break;
		}
		case 3: { int k = (int)vf_draw(10); int want = k < (int)np ? k : (int)np; VF_CHECK(as_buffer_pool_drop_buffers(&pool, k) == want, "dropping %d of %u", k, np); np -= (unsigned)want; break; }
		default: break;
		}
		VF_CHECK(vfa_live() == own + nh + np, "%llu blocks allocated, expected %u held and %u pooled", (unsigned long long)(vfa_live() - own), nh, np);
	}
	while (nh) as_buffer_pool_push(&pool, held[nh - 1].data, held[nh - 1].capacity), nh--;
	as_buffer_pool_destroy(&pool);
	vfa_expect(base, "after the pool is destroyed");
	if (hit) vf_nontrivial();
}

/* ---- constructors ---- */

#define MAKES 30
static cf_ll no_items;

static void* make(unsigned which, uint32_t n)
{
	switch (which) {
	case 0: return as_integer_new(n);
	case 1: return as_double_new(n);
	case 2: return as_boolean_new(n & 1);
	case 3: return as_string_new("static", false);
	case 4: return as_string_new_strdup("copied text");
	case 5: return as_geojson_new_strdup("{}");
	case 6: return as_bytes_new(n);
	case 7: { static uint8_t raw[8]; return as_bytes_new_wrap(raw, 8, false); }
	case 8: return as_arraylist_new(n, n & 3);
	case 9: return as_orderedmap_new(n);
	case 10: return as_pair_new((as_val*)&as_nil, (as_val*)&as_nil);
	case 11: return cf_queue_create(8, true);
	case 12: return as_queue_create(8, n + 1);
	case 13: return as_queue_mt_create(8, n + 1);
	case 14: return as_msgpack_new();
	case 15: return as_string_new_wlen("static", 6, false);
	case 16: return cf_rc_alloc(n);
	case 17: return cf_strdup("text");
	case 18: return cf_strndup("some text", n);
	case 19: return as_success_new((as_val*)&as_nil);
	case 20: return as_failure_new((as_val*)&as_nil);
	case 21: return as_result_new();
	case 22: return as_aerospike_new(&n, NULL);
	case 23: return as_timer_new(NULL, NULL);
	case 24: return as_stream_new(NULL, NULL);
	case 25: return as_rec_new(NULL, NULL);
	case 26: return as_list_new(NULL);
	case 27: return as_map_new(NULL);
	case 28: return cf_ll_getIterator(&no_items, n & 1);
	default: return cf_calloc(n + 1, 3);
	}
}
static void unmake(unsigned which, void* p)
{
	switch (which) {
	case 11: cf_queue_destroy(p); break;
	case 12: as_queue_destroy(p); break;
	case 13: as_queue_mt_destroy(p); break;
	case 14: as_serializer_destroy(p); break;
	case 16: cf_rc_releaseandfree(p); break;
	case 17: case 18: cf_free(p); break;
	case 19: case 20: case 21: as_result_destroy(p); break;
	case 22: as_aerospike_destroy(p); break;
	case 23: cf_free(p); break;
	case 24: as_stream_destroy(p); break;
	case 28: cf_ll_releaseIterator(p); break;
	case MAKES - 1: cf_free(p); break;
	default: as_val_destroy((as_val*)p); break;
	}
}
static void t_make(void)
{
	hit = 0;
	unsigned which = (unsigned)vf_draw(MAKES);
	uint32_t n = (uint32_t)vf_skewed(300);
	uint64_t base = vfa_live();
	vf_note("constructor %u size %u", which, n);
	for (int from = 0; from < 2; from++) {
		for (unsigned k = 1;; k++) {
			arm_nth(k, from);
			void* p = make(which, n);
			bool f = disarm();
			if (!p) {
				VF_CHECK(f, "constructor %u gave nothing although memory was available", which);
				vfa_expect(base, "after a constructor failed");
			}
			else {
				if (which == 4) { char* s = as_string_get(p); VF_CHECK(s && strcmp(s, "copied text") == 0, "a string was made without its text"); }
				if (which == 5) { char* s = as_geojson_get(p); VF_CHECK(s && strcmp(s, "{}") == 0, "a GeoJSON value was made without its text"); }
				if (which == 6 && n) { uint8_t z = 7; VF_CHECK(as_bytes_append(p, &z, 1), "append within capacity failed"); }
				if (which == 19 || which == 20) { as_result* r = p; VF_CHECK(r->is_success == (which == 19) && r->value == (as_val*)&as_nil, "a result was made without its value"); }
				if (which == 8 && n) VF_CHECK(as_arraylist_append(p, (as_val*)&as_nil) == 0, "append within capacity failed");
				unmake(which, p);
				vfa_expect(base, "after the object is destroyed");
			}
			if (!f) break;
		}
	}
	if (hit) vf_nontrivial();
}

/* ---- text rendering ---- */
static unsigned holes(const char* s) { unsigned n = 0; while ((s = strstr(s, "<NULL>"))) { n++; s += 6; } return n; }
static void t_text(void)
{
	hit = 0;
	mcfg c = { .budget = 1 + (unsigned)vf_skewed(60), .depth = 3, .pairs = vf_bool(), .small = vf_bool(), .no_empty_bytes = true };
	mval* m = m_gen(&c);
	as_val* v = m_build(m);
	vf_note("text of %s", m_show(m));
	uint64_t live = vfa_live(), r0 = vfa_allocs();
	char* want = as_val_tostring(v);
	VF_CHECK(want, "no text");
	uint64_t reqs = vfa_allocs() - r0;
	bool from = vf_bool();
	uint64_t step = reqs > 40 ? 1 + vf_draw(reqs / 20) : 1;
	for (uint64_t k = 1; k <= reqs + 1; k += step) {
		arm_nth((unsigned)k, from);
		char* got = as_val_tostring(v);
		bool f = disarm();
		/* a part that could not be rendered shows as missing; apart from that there is no text or all of it */
		if (got && strcmp(got, want)) VF_CHECK(f && holes(got) > holes(want), "request %" PRIu64 " failed and the text is '%.200s'", k, got);
		VF_CHECK(got || f, "no text although memory was there");
		if (got) cf_free(got);
		vfa_expect(live + 1, "after rendering without memory");
	}
	char* again = as_val_tostring(v);
	VF_CHECK(again && !strcmp(again, want), "the text changed after memory ran out");
	cf_free(again); cf_free(want);
	if (!c.pairs) m_expect(v, m, "value after memory ran out");
	as_val_destroy(v);
	if (hit) vf_nontrivial();
}

/* ---- base names and thread pools ---- */
int vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg);
int vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	(void)a; (void)fn; (void)arg;
	memset(t, 0, sizeof(*t));
	return EAGAIN; /* no thread runs here */
}
static void t_others(void)
{
	hit = 0;
	uint64_t live = vfa_live();
	if (vf_bool()) {
		char path[64];
		unsigned n = 1 + (unsigned)vf_draw(40);
		for (unsigned i = 0; i < n; i++) path[i] = "ab/\\"[vf_draw(4)];
		path[n] = 0;
		vf_note("base name of %s", path);
		as_string ok, s;
		const char* want = as_basename(&ok, path);
		VF_CHECK(want, "no base name");
		memset(&s, 0x5A, sizeof(s));
		vfa_fail_from(1);
		const char* got = as_basename(&s, path);
		bool f = disarm();
		VF_CHECK(f ? !got : got && !strcmp(got, want), "base name '%s' without memory", got ? got : "(none)");
		if (f) VF_CHECK(as_string_get(&s) == NULL && as_string_len(&s) == 0, "a base name is left behind without memory");
		as_string_destroy(&s);
		as_string_destroy(&ok);
	}
	else {
		unsigned n = 1 + (unsigned)vf_draw(20), k = 1 + (unsigned)vf_draw(5);
		bool from = vf_bool();
		vf_note("pool of %u threads, request %u fails%s", n, k, from ? " and all later ones" : "");
		as_thread_pool p;
		memset(&p, 0x5A, sizeof(p));
		arm_nth(k, from);
		int rc = as_thread_pool_init(&p, n);
		disarm();
		VF_CHECK(rc == -3, "creating a pool without threads returns %d", rc);
		VF_CHECK(as_thread_pool_queue_task(&p, (as_task_fn)(uintptr_t)16, NULL) < 0, "a pool without threads accepts a task");
		as_thread_pool_destroy(&p);
	}
	vfa_expect(live, "after running out of memory");
	if (hit) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "list", t_list, 20000, 300000, 0 },
	{ "map", t_map, 20000, 300000, 0 },
	{ "bigmap", t_bigmap, 1500, 20000, 0 },
	{ "stringmap", t_stringmap, 10000, 150000, 0 },
	{ "queue", t_queue, 20000, 300000, 0 },
	{ "queue2", t_queue2, 20000, 300000, 0 },
	{ "bytes", t_bytes, 20000, 300000, 0 },
	{ "builder", t_builder, 20000, 300000, 0 },
	{ "serialize", t_serialize, 6000, 90000, 0 },
	{ "deserialize", t_deserialize, 6000, 90000, 0 },
	{ "deep", t_deep, 1000, 15000, 0 },
	{ "compare", t_compare, 300, 3000, 0 },
	{ "pool", t_pool, 10000, 150000, 0 },
	{ "text", t_text, 60000, 600000, 0 },
	{ "others", t_others, 40000, 400000, 0 },
	{ "make", t_make, 4000, 40000, 0 },
	{ 0 }
};
