/* C08: the ordered map against a sorted dictionary. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_hashmap_iterator.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include <stdio.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "at least 3 calls changed the map and it held at least 2 entries at some point (huge: more than 65536 at the end); distinct by choice sequence";

typedef struct { mval* k; int64_t v; bool nil; } ent;
static ent* tab;
static uint32_t n, cap, peak, changes;
static as_orderedmap* om;
static as_map* gm;
static int64_t serial;

static bool find(const mval* k, uint32_t* at)
{
	uint32_t lo = 0, hi = n;
	while (lo < hi) {
		uint32_t mid = (lo + hi) / 2;
		int c = m_key_cmp(k, tab[mid].k);
		if (c == 0) { *at = mid; return true; }
		if (c > 0) lo = mid + 1; else hi = mid;
	}
	*at = lo;
	return false;
}

static void model_set(mval* k, int64_t v, bool nil)
{
	uint32_t at;
	changes++;
	if (find(k, &at)) { tab[at].v = v; tab[at].nil = nil; return; }
	if (n == cap) {
		ent* t = vf_tmp(sizeof(ent) * (cap ? cap * 2 : 64));
		memcpy(t, tab, sizeof(ent) * n);
		tab = t; cap = cap ? cap * 2 : 64;
	}
	memmove(tab + at + 1, tab + at, sizeof(ent) * (n - at));
	tab[at] = (ent){ k, v, nil };
	n++;
	if (n > peak) peak = n;
}

static uint32_t lib_size(void) { return vf_bool() ? as_map_size(gm) : as_orderedmap_size(om); }

static void expect_value(const as_val* v, const ent* e, const char* what)
{
	if (!e) { VF_CHECK(v == NULL, "%s: absent key has a value", what); return; }
	VF_CHECK(v != NULL, "%s: key %s has no value", what, m_show(e->k));
	if (e->nil) { VF_CHECK(as_val_type(v) == AS_NIL, "%s: value set as none is not nil", what); return; }
	VF_CHECK(as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == e->v, "%s: key %s holds %lld, last set %lld", what, m_show(e->k), as_val_type(v) == AS_INTEGER ? (long long)as_integer_get((as_integer*)v) : -1, (long long)e->v);
}

static const as_val* lookup(const mval* k)
{
	/* keys for lookups may live on the stack */
	if (vf_bool()) {
		if (k->t == M_INT) { as_integer i; as_integer_init(&i, k->u.i); return as_orderedmap_get(om, (as_val*)&i); }
		if (k->t == M_STR) { as_string s; as_string_init(&s, (char*)k->u.s.p, false); return as_map_get(gm, (as_val*)&s); }
		as_bytes b; as_bytes_init_wrap(&b, k->u.s.p, k->u.s.n, false);
		return as_map_get(gm, (as_val*)&b);
	}
	as_val* v = m_build(k);
	const as_val* r = vf_bool() ? as_map_get(gm, v) : as_orderedmap_get(om, v);
	as_val_destroy(v);
	return r;
}

typedef struct { uint32_t at, stop; const char* what; } walk;
static bool visit(const as_val* k, const as_val* v, void* ud)
{
	walk* w = ud;
	VF_CHECK(w->at < n, "%s: more than %u entries", w->what, n);
	m_expect(k, tab[w->at].k, w->what);
	expect_value(v, &tab[w->at], w->what);
	w->at++;
	return w->at != w->stop;
}

static void verify(int how)
{
	VF_CHECK(lib_size() == n, "size is %u, expected %u", as_map_size(gm), n);
	walk w = { 0, UINT32_MAX, "iteration" };
	switch (how) {
	case 0:
		VF_CHECK(as_map_foreach(gm, visit, &w), "complete foreach returned false");
		break;
	case 1: {
		uint32_t stop = n ? (uint32_t)vf_range(1, n) : 1;
		w.stop = stop;
		bool r = as_orderedmap_foreach(om, visit, &w);
		VF_CHECK(r == (n == 0), "stopped foreach returned %d", r);
		VF_CHECK(w.at == (n ? stop : 0), "foreach went on after the callback stopped it");
		return;
	}
	default: {
		as_map_iterator st;
		as_orderedmap_iterator ost;
		as_iterator* it;
		if (how == 2) {
			VF_CHECK(as_map_iterator_init(&st, gm) == &st, "iterator init failed");
			it = (as_iterator*)&st;
		}
		else if (how == 3) it = (as_iterator*)as_map_iterator_new(gm);
		else it = (as_iterator*)as_orderedmap_iterator_init(&ost, om);
		VF_CHECK(it != NULL, "new iterator failed");
		unsigned asks = (unsigned)vf_draw(3);
		unsigned past = (unsigned)vf_draw(4);
		for (;;) {
			for (unsigned i = 0; i < asks; i++) {
				bool more = how < 4 ? as_iterator_has_next(it) : as_orderedmap_iterator_has_next(&ost);
				VF_CHECK(more == (w.at < n), "iterator says %d after %u of %u entries", more, w.at, n);
			}
			const as_pair* p = (const as_pair*)(how < 4 ? as_iterator_next(it) : as_orderedmap_iterator_next(&ost));
			if (! p) break;
			VF_CHECK(as_val_type(p) == AS_PAIR, "iterator gave no pair");
			visit(as_pair_1((as_pair*)p), as_pair_2((as_pair*)p), &w);
		}
		for (unsigned i = 0; i < past; i++) {
			VF_CHECK(! (how < 4 ? as_iterator_has_next(it) : as_orderedmap_iterator_has_next(&ost)), "iterator has more after its end");
			VF_CHECK(! (how < 4 ? as_iterator_next(it) : as_orderedmap_iterator_next(&ost)), "iterator continues after the end");
		}
		if (how < 4) as_iterator_destroy(it);
		else as_orderedmap_iterator_destroy(&ost);
		break;
	}
	}
	VF_CHECK(w.at == n, "iteration gave %u entries of %u", w.at, n);
}

static mval* gen_key(unsigned kinds, uint64_t space)
{
	uint64_t x = vf_draw(space);
	unsigned kind = kinds == 3 ? (unsigned)vf_draw(3) : kinds;
	char buf[24];
	switch (kind) {
	case 0: return m_int((int64_t)x - (int64_t)(space / 2));
	case 1: { int l = snprintf(buf, sizeof(buf), "%llu", (unsigned long long)x); return m_str(buf, (uint32_t)l); }
	default: { uint8_t b[3] = { (uint8_t)(x >> 8), (uint8_t)x, 0 }; return m_bytes(b, x & 1 ? 2 : 3, 4); }
	}
}

static void do_set(mval* k)
{
	bool nil = vf_chance(1, 12);
	int64_t v = ++serial;
	as_val* kv = m_build(k);
	as_val* vv = nil ? NULL : (as_val*)as_integer_new(v);
	int rc;
	if (k->t == M_STR && !nil && vf_chance(1, 4)) {
		as_val_destroy(kv); as_val_destroy(vv);
		rc = as_stringmap_set_int64(gm, (char*)k->u.s.p, v);
	}
	else rc = vf_bool() ? as_map_set(gm, kv, vv) : as_orderedmap_set(om, kv, vv);
	VF_CHECK(rc == 0, "set returned %d", rc);
	model_set(k, v, nil);
}

static void do_bad_key(void)
{
	as_val* k = NULL;
	switch (vf_draw(7)) {
	case 0: break;
	case 1: k = (as_val*)as_double_new(1.5); break;
	case 2: k = (as_val*)as_boolean_new(true); break;
	case 3: k = (as_val*)&as_nil; break;
	case 4: k = (as_val*)as_arraylist_new(2, 2); break;
	case 5: k = (as_val*)as_geojson_new_strdup("x"); break;
	case 6: k = (as_val*)as_bytes_new(4); as_bytes_set_type((as_bytes*)k, AS_BYTES_STRING); break;
	}
	as_val* v = (as_val*)as_integer_new(7);
	int rc = vf_bool() ? as_map_set(gm, k, v) : as_orderedmap_set(om, k, v);
	VF_CHECK(rc != 0, "setting an unsupported key succeeded");
	VF_CHECK(as_orderedmap_get(om, k) == NULL, "an unsupported key has a value");
	rc = as_map_remove(gm, k);
	VF_CHECK(rc != 0, "removing an unsupported key succeeded");
	as_val_destroy(v);
	if (k) as_val_destroy(k);
	VF_CHECK(lib_size() == n, "an unsupported key changed the size to %u from %u", as_map_size(gm), n);
}

/* insert count keys in a pattern */
static void bulk(uint32_t count, unsigned pattern, unsigned kinds, uint64_t space)
{
	vf_rng r = { vf_draw(0) };
	for (uint32_t i = 0; i < count; i++) {
		uint64_t x;
		switch (pattern) {
		case 0: x = i; break;
		case 1: x = count - 1 - i; break;
		case 2: x = vf_rng_next(&r) % space; break;
		case 3: x = i & 1 ? count * 2 - i : i; break;
		default: x = (i / 100) * 100 + (99 - i % 100); break;
		}
		mval* k;
		char buf[24];
		switch (kinds == 3 ? x % 3 : kinds) {
		case 0: k = m_int((int64_t)x - (int64_t)(space / 2)); break;
		case 1: { int l = snprintf(buf, sizeof(buf), "%llu", (unsigned long long)x); k = m_str(buf, (uint32_t)l); break; }
		default: { uint8_t b[3] = { (uint8_t)(x >> 8), (uint8_t)x, 0 }; k = m_bytes(b, x & 1 ? 2 : 3, 4); break; }
		}
		as_val* v = (as_val*)as_integer_new(++serial);
		int rc = as_orderedmap_set(om, m_build(k), v);
		VF_CHECK(rc == 0, "set number %u returned %d", i, rc);
		model_set(k, serial, false);
	}
}

static as_orderedmap* create(as_orderedmap* stack, uint32_t c)
{
	/* the older name makes the same kind of map */
	as_orderedmap* m;
	switch (vf_draw(6)) {
	case 0: case 1: m = as_orderedmap_init(stack, c); break;
	case 2: case 3: m = as_orderedmap_new(c); break;
	case 4: m = as_hashmap_init(stack, c); break;
	default: m = as_hashmap_new(c); }
	VF_CHECK(m != NULL, "no map is made");
	VF_CHECK(as_orderedmap_size(m) == 0 && as_map_size((as_map*)m) == 0, "a new map has size %u", as_orderedmap_size(m));
	return m;
}
static void history(uint32_t bulk_max, unsigned steps)
{
	tab = NULL; n = cap = peak = changes = 0; serial = 0;
	uint64_t base = vfa_live();
	as_orderedmap stack;
	uint32_t c = vf_chance(1, 6) ? (uint32_t)vf_draw(3000) : (uint32_t)vf_draw(20);
	om = create(&stack, c);
	gm = (as_map*)om;
	unsigned kinds = (unsigned)vf_draw(4);
	uint64_t space = bulk_max ? vf_range(bulk_max / 4 + 1, bulk_max * 4) : vf_range(2, 40);
	vf_note("capacity %u key kind %u from %llu", c, kinds, (unsigned long long)space);
	if (bulk_max) {
		uint32_t b = (uint32_t)vf_range(1, bulk_max);
		unsigned p = (unsigned)vf_draw(5);
		vf_note("bulk %u pattern %u", b, p);
		bulk(b, p, kinds, space);
		VF_CHECK(lib_size() == n, "size is %u after bulk, expected %u", as_map_size(gm), n);
	}
	for (unsigned i = 0; i < steps; i++) {
		static const unsigned w[] = { 10, 6, 6, 1, 1, 2, 2 };
		switch (vf_pick(bulk_max ? 7 : 6, w)) {
		case 0: { mval* k = gen_key(kinds, space); vf_note("set %s", m_show(k)); do_set(k); break; }
		case 1: {
			mval* k = n && vf_bool() ? tab[vf_draw(n)].k : gen_key(kinds, space);
			uint32_t at;
			vf_note("get %s", m_show(k));
			expect_value(lookup(k), find(k, &at) ? &tab[at] : NULL, "get");
			break;
		}
		case 2: {
			mval* k = n && vf_bool() ? tab[vf_draw(n)].k : gen_key(kinds, space);
			uint32_t at;
			vf_note("remove %s", m_show(k));
			as_val* v = m_build(k);
			int rc = vf_bool() ? as_map_remove(gm, v) : as_orderedmap_remove(om, v);
			as_val_destroy(v);
			VF_CHECK(rc == 0, "remove returned %d", rc);
			if (find(k, &at)) { memmove(tab + at, tab + at + 1, sizeof(ent) * (n - at - 1)); n--; changes++; }
			break;
		}
		case 3:
			vf_note("clear");
			VF_CHECK((vf_bool() ? as_map_clear(gm) : as_orderedmap_clear(om)) == 0, "clear failed");
			n = 0; changes++;
			break;
		case 4: vf_note("bad key"); do_bad_key(); break;
		case 5: { int how = (int)vf_draw(5); vf_note("verify %d", how); verify(how); break; }
		default: {
			uint32_t b = (uint32_t)vf_range(1, bulk_max / 2 + 1);
			unsigned p = (unsigned)vf_draw(5);
			vf_note("bulk %u pattern %u", b, p);
			bulk(b, p, kinds, space);
			break;
		}
		}
		VF_CHECK(as_orderedmap_size(om) == n, "size is %u, expected %u", as_orderedmap_size(om), n);
	}
	/* every key reads back before anything is merged by iteration */
	for (uint32_t i = 0; i < n; i++) {
		as_val* v = m_build(tab[i].k);
		expect_value(as_orderedmap_get(om, v), &tab[i], "final get");
		as_val_destroy(v);
	}
	verify(0);
	verify(2);
	if (changes >= 3 && peak >= 2) vf_nontrivial();
	if (peak > 1000) vf_label("more than 1000 entries");
	if (peak > 2000) vf_label("more than 2000 entries");
	as_orderedmap_destroy(om);
	vfa_expect(base, "after destroying the map");
}

static void small(void) { history(0, (unsigned)vf_range(1, 60)); }
static void medium(void) { history(1500, (unsigned)vf_range(1, 20)); }
static void large(void) { history(8000, (unsigned)vf_range(1, 30)); }

/* Far more entries than a 16-bit count, integer keys, a plain table as model. */
#define KEYS 200000
static int64_t* flat; /* value per key, 0 = absent */
static uint32_t next_key;
static bool visit_flat(const as_val* k, const as_val* v, void* ud)
{
	uint32_t* left = ud;
	while (next_key < KEYS && !flat[next_key]) next_key++;
	VF_CHECK(next_key < KEYS, "iteration goes on after the last key");
	VF_CHECK(as_val_type(k) == AS_INTEGER && as_integer_get((as_integer*)k) == next_key, "iteration gives key %lld, the next one is %u", (long long)as_integer_get((as_integer*)k), next_key);
	VF_CHECK(as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == flat[next_key], "key %u holds %lld, last set %lld", next_key, (long long)as_integer_get((as_integer*)v), (long long)flat[next_key]);
	next_key++;
	--*left;
	return true;
}
static void huge(void)
{
	uint64_t base = vfa_live();
	as_orderedmap stack;
	om = create(&stack, vf_bool() ? (uint32_t)vf_draw(200000) : 0);
	flat = vf_tmp(KEYS * sizeof(*flat));
	memset(flat, 0, KEYS * sizeof(*flat));
	uint32_t count = 0;
	int64_t ser = 0;
	unsigned rounds = 1 + (unsigned)vf_draw(3);
	for (unsigned r = 0; r < rounds; r++) {
		uint32_t k = (uint32_t)vf_range(10000, 150000), p = (uint32_t)vf_draw(5), from = (uint32_t)vf_draw(KEYS);
		vf_note("%u sets from %u, pattern %u", k, from, p);
		vf_rng g = { vf_draw(0) };
		for (uint32_t i = 0; i < k; i++) {
			uint32_t x = p == 0 ? from + i : p == 1 ? from + k - i : p == 2 ? (uint32_t)(vf_rng_next(&g) % KEYS) : p == 3 ? (i & 1 ? from + 2 * k - i : from + i) : (i / 100) * 100 + (99 - i % 100);
			x %= KEYS;
			VF_CHECK(as_orderedmap_set(om, (as_val*)as_integer_new(x), (as_val*)as_integer_new(++ser)) == 0, "set fails with %u entries", count);
			count += !flat[x];
			flat[x] = ser;
		}
		VF_CHECK(as_orderedmap_size(om) == count, "size is %u, expected %u", as_orderedmap_size(om), count);
		for (unsigned i = 0; i < 3000; i++) {
			as_integer q;
			uint32_t x = (uint32_t)(vf_rng_next(&g) % KEYS);
			as_integer_init(&q, x);
			as_val* v = as_orderedmap_get(om, (as_val*)&q);
			VF_CHECK((v != NULL) == (flat[x] != 0), "key %u is %s", x, v ? "found but absent" : "not found");
			if (v) VF_CHECK(as_integer_get((as_integer*)v) == flat[x], "key %u holds %lld, last set %lld", x, (long long)as_integer_get((as_integer*)v), (long long)flat[x]);
			if (i % 100 == 0) { /* removal merges what is held back */
				VF_CHECK(as_orderedmap_remove(om, (as_val*)&q) == 0, "remove fails");
				count -= flat[x] != 0;
				flat[x] = 0;
			}
		}
		uint32_t left = count;
		next_key = 0;
		VF_CHECK(as_orderedmap_foreach(om, visit_flat, &left) && left == 0, "iteration gives %u entries too few", left);
	}
	if (count > 65536) vf_nontrivial();
	as_orderedmap_destroy(om);
	vfa_expect(base, "after destroying the map");
}

const vf_target vf_targets[] = {
	{ "small", small, 700000, 7000000, VF_FUZZ },
	{ "medium", medium, 4000, 40000, 0 },
	{ "large", large, 500, 5000, 0 },
	{ "huge", huge, 48, 800, 0 },
	{ 0 }
};
