/* C44: values with equal content cannot be told apart. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_string.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "a container with at least two elements, built along two histories; distinct by choice sequence";

static char* dup_exact(const uint8_t* p, uint32_t n)
{
	char* s = cf_malloc(n + 1);
	memcpy(s, p, n);
	s[n] = 0;
	return s;
}

/* ------------------------------------------------------------------ */
/* the content of a model, reached along a drawn history                */

static as_val* way(const mval* v);

static as_val* blob(const mval* v)
{
	uint32_t n = v->u.s.n;
	as_bytes* b = vf_bool() ? as_bytes_new((uint32_t)vf_draw(n + 3)) : as_bytes_init(vf_tmp(sizeof(as_bytes)), (uint32_t)vf_draw(n + 3));
	uint32_t cut = (uint32_t)vf_draw(n + 1), junk = (uint32_t)vf_draw(5);
	VF_CHECK(as_bytes_ensure(b, n + junk, true), "growing a byte buffer");
	if (cut) VF_CHECK(as_bytes_append(b, v->u.s.p, cut), "appending");
	if (junk) { VF_CHECK(as_bytes_append(b, (const uint8_t*)"junk!", junk), "appending"); VF_CHECK(as_bytes_truncate(b, junk), "truncating"); }
	if (n > cut) VF_CHECK(as_bytes_append(b, v->u.s.p + cut, n - cut), "appending");
	if (n && vf_bool()) VF_CHECK(as_bytes_set(b, 0, v->u.s.p, n), "writing over");
	as_bytes_set_type(b, (as_bytes_type)v->u.s.tag);
	return (as_val*)b;
}

static as_val* filler(void) { return vf_bool() ? (as_val*)as_integer_new((int64_t)vf_draw(9)) : (as_val*)as_string_new_strdup("filler"); }

static as_val* list(const mval* v)
{
	uint32_t n = v->u.c.n, cap = (uint32_t)vf_draw(n + 2), grow = 1 + (uint32_t)vf_draw(9);
	as_arraylist* l = vf_bool() ? as_arraylist_new(cap, grow) : as_arraylist_init(vf_tmp(sizeof(as_arraylist)), cap, grow);
	switch (vf_draw(6)) {
	case 0: /* front to back, back to front */
		for (uint32_t i = 0; i < n; i++) VF_CHECK(as_arraylist_append(l, way(v->u.c.e[i])) == 0, "appending");
		break;
	case 1:
		for (uint32_t i = n; i-- > 0;) VF_CHECK(as_arraylist_prepend(l, way(v->u.c.e[i])) == 0, "prepending");
		break;
	case 2: { /* from the middle outwards */
		uint32_t lo = n ? (uint32_t)vf_draw(n) : 0, hi = lo;
		while (lo > 0 || hi < n) {
			if (hi < n && (lo == 0 || vf_bool())) { VF_CHECK(as_arraylist_insert(l, hi - lo, way(v->u.c.e[hi])) == 0, "inserting"); hi++; }
			else { lo--; VF_CHECK(as_arraylist_insert(l, 0, way(v->u.c.e[lo])) == 0, "inserting"); }
		}
		break;
	}
	case 3: /* over other items, from the end */
		for (uint32_t i = n; i-- > 0;) VF_CHECK(as_arraylist_set(l, i, way(v->u.c.e[i])) == 0, "setting past the end");
		break;
	case 4: { /* with items in between that go again */
		for (uint32_t i = 0; i < n; i++) {
			unsigned more = (unsigned)vf_draw(3);
			uint32_t at = i;
			for (unsigned k = 0; k < more; k++) VF_CHECK(as_arraylist_append(l, filler()) == 0, "appending");
			VF_CHECK(as_arraylist_append(l, way(v->u.c.e[i])) == 0, "appending");
			for (unsigned k = 0; k < more; k++) VF_CHECK(as_arraylist_remove(l, at) == 0, "removing");
		}
		unsigned tail = (unsigned)vf_draw(4);
		for (unsigned k = 0; k < tail; k++) VF_CHECK(as_arraylist_append(l, filler()) == 0, "appending");
		if (tail) VF_CHECK(as_arraylist_trim(l, n) == 0, "trimming");
		break;
	}
	default: { /* of two parts */
		uint32_t cut = (uint32_t)vf_draw(n + 1);
		as_arraylist* r = as_arraylist_new(1, 2);
		for (uint32_t i = 0; i < n; i++) VF_CHECK(as_arraylist_append(i < cut ? l : r, way(v->u.c.e[i])) == 0, "appending");
		VF_CHECK(as_arraylist_concat(l, r) == 0, "joining");
		as_arraylist_destroy(r);
		break;
	}
	}
	return (as_val*)l;
}

static void shuffle(uint32_t* p, uint32_t n)
{
	for (uint32_t i = 0; i < n; i++) p[i] = i;
	switch (vf_draw(4)) {
	case 0: break;
	case 1: for (uint32_t i = 0; i < n; i++) p[i] = n - 1 - i; break;
	case 2: { uint32_t by = n ? (uint32_t)vf_draw(n) : 0; for (uint32_t i = 0; i < n; i++) p[i] = (i + by) % n; break; }
	default: {
		uint64_t r = vf_draw(1u << 20);
		for (uint32_t i = n; i > 1; i--) { r = r * 6364136223846793005ull + 1442695040888963407ull; uint32_t k = (uint32_t)((r >> 33) % i), t = p[i - 1]; p[i - 1] = p[k]; p[k] = t; }
	}
	}
}

static as_val* map(const mval* v)
{
	uint32_t n = v->u.c.n, cap = vf_bool() ? n : (uint32_t)vf_draw(3);
	bool heap = vf_bool(), hm = vf_bool();
	void* st = vf_tmp(sizeof(as_orderedmap));
	as_orderedmap* m = hm ? (as_orderedmap*)(heap ? as_hashmap_new(cap) : as_hashmap_init(st, cap)) : heap ? as_orderedmap_new(cap) : as_orderedmap_init(st, cap);
	uint32_t* p = vf_tmp(sizeof(uint32_t) * (n + 1));
	shuffle(p, n);
	/* an earlier content that goes, entries that are written over, entries that are removed again */
	unsigned before = (unsigned)vf_draw(4), over = (unsigned)vf_draw(3), extra = (unsigned)vf_draw(4);
	if (before == 3) {
		for (unsigned k = 0; k < 3; k++) VF_CHECK(as_orderedmap_set(m, (as_val*)as_integer_new((int64_t)k), filler()) == 0, "storing");
		VF_CHECK(as_orderedmap_clear(m) == 0, "clearing");
	}
	for (uint32_t k = 0; k < n; k++) {
		if (over && k % 3 < over) VF_CHECK(as_orderedmap_set(m, way(v->u.c.e[2 * p[k]]), filler()) == 0, "storing");
		if (extra && k % 4 < extra) VF_CHECK(as_orderedmap_set(m, (as_val*)as_string_new_strdup(vf_fmt("extra entry %u", k)), filler()) == 0, "storing");
		if (!(over && k % 3 < over)) VF_CHECK(as_orderedmap_set(m, way(v->u.c.e[2 * p[k]]), way(v->u.c.e[2 * p[k] + 1])) == 0, "storing");
	}
	if (over) for (uint32_t k = 0; k < n; k++) if (k % 3 < over) VF_CHECK(as_orderedmap_set(m, way(v->u.c.e[2 * p[k]]), way(v->u.c.e[2 * p[k] + 1])) == 0, "storing");
	if (extra) for (uint32_t k = 0; k < n; k++) if (k % 4 < extra) {
		as_string s;
		as_string_init(&s, (char*)vf_fmt("extra entry %u", k), false);
		VF_CHECK(as_orderedmap_remove(m, (as_val*)&s) == 0, "removing");
	}
	as_map_set_flags((as_map*)m, v->u.c.flags);
	return (as_val*)m;
}

static as_val* plain(const mval* v)
{
	bool heap = vf_bool();
	switch (v->t) {
	case M_INT: return (as_val*)(heap ? as_integer_new(v->u.i) : as_integer_init(vf_tmp(sizeof(as_integer)), v->u.i));
	case M_DBL: return (as_val*)(heap ? as_double_new(v->u.d) : as_double_init(vf_tmp(sizeof(as_double)), v->u.d));
	case M_BOOL: return vf_chance(1, 3) ? (as_val*)(v->u.b ? &as_true : &as_false) : (as_val*)(heap ? as_boolean_new(v->u.b) : as_boolean_init(vf_tmp(sizeof(as_boolean)), v->u.b));
	case M_STR: {
		char* t = dup_exact(v->u.s.p, v->u.s.n);
		bool wlen = vf_bool();
		if (heap) return (as_val*)(wlen ? as_string_new_wlen(t, v->u.s.n, true) : as_string_new(t, true));
		void* st = vf_tmp(sizeof(as_string));
		return (as_val*)(wlen ? as_string_init_wlen(st, t, v->u.s.n, true) : as_string_init(st, t, true));
	}
	case M_GEO: {
		char* t = dup_exact(v->u.s.p, v->u.s.n);
		bool wlen = vf_bool();
		if (heap) return (as_val*)(wlen ? as_geojson_new_wlen(t, v->u.s.n, true) : as_geojson_new(t, true));
		void* st = vf_tmp(sizeof(as_geojson));
		return (as_val*)(wlen ? as_geojson_init_wlen(st, t, v->u.s.n, true) : as_geojson_init(st, t, true));
	}
	case M_BYTES: return blob(v);
	case M_LIST: return list(v);
	case M_MAP: return map(v);
	default: return m_build(v);
	}
}
static unsigned trips;
static as_val* way(const mval* v)
{
	as_val* a = plain(v);
	if (trips && vf_chance(1, 12)) { /* by way of its encoding */
		trips--;
		as_serializer ser;
		as_msgpack_init(&ser);
		as_buffer b;
		as_buffer_init(&b);
		VF_CHECK(as_serializer_serialize(&ser, a, &b) == 0, "serializing");
		as_val* d = NULL;
		VF_CHECK(as_serializer_deserialize(&ser, &b, &d) == 0 && d, "decoding");
		as_buffer_destroy(&b);
		as_serializer_destroy(&ser);
		as_val_destroy(a);
		a = d;
	}
	return a;
}

/* ------------------------------------------------------------------ */

static int sign(int x) { return x < 0 ? -1 : x > 0; }
static void alike(as_val* a, as_val* b, bool deep);

typedef struct { as_val** e; uint32_t n, cap; } seen;
static bool on_pair(const as_val* k, const as_val* v, void* u) { seen* s = u; VF_CHECK(s->n + 2 <= s->cap, "more entries than the map has"); s->e[s->n++] = (as_val*)k; s->e[s->n++] = (as_val*)v; return true; }
static bool on_item(as_val* v, void* u) { seen* s = u; VF_CHECK(s->n < s->cap, "more items than the list has"); s->e[s->n++] = v; return true; }

static void alike(as_val* a, as_val* b, bool deep)
{
	VF_CHECK(as_val_type(a) == as_val_type(b), "types %d and %d", as_val_type(a), as_val_type(b));
	VF_CHECK(as_val_cmp(a, b) == MSGPACK_COMPARE_EQUAL && as_val_cmp(b, a) == MSGPACK_COMPARE_EQUAL, "values with equal content compare %d and %d", as_val_cmp(a, b), as_val_cmp(b, a));
	VF_CHECK(as_val_hashcode(a) == as_val_hashcode(b), "values with equal content have different hash codes");
	if (!deep) return;
	if (as_val_type(a) == AS_LIST) {
		uint32_t n = as_list_size((as_list*)a);
		VF_CHECK(as_list_size((as_list*)b) == n, "sizes %u and %u", n, as_list_size((as_list*)b));
		seen x = { vf_tmp(sizeof(as_val*) * (n + 1)), 0, n }, y = { vf_tmp(sizeof(as_val*) * (n + 1)), 0, n };
		as_list_foreach((as_list*)a, on_item, &x); as_list_foreach((as_list*)b, on_item, &y);
		VF_CHECK(x.n == n && y.n == n, "visiting %u and %u items of %u", x.n, y.n, n);
		for (uint32_t i = 0; i < n; i++) {
			VF_CHECK(as_list_get((as_list*)a, i) == x.e[i] && as_list_get((as_list*)b, i) == y.e[i], "item %u by index is not the one visited", i);
			alike(x.e[i], y.e[i], true);
		}
	}
	if (as_val_type(a) == AS_MAP) {
		uint32_t n = as_map_size((as_map*)a);
		VF_CHECK(as_map_size((as_map*)b) == n, "sizes %u and %u", n, as_map_size((as_map*)b));
		seen x = { vf_tmp(sizeof(as_val*) * (2 * n + 2)), 0, 2 * n }, y = { vf_tmp(sizeof(as_val*) * (2 * n + 2)), 0, 2 * n };
		as_map_foreach((as_map*)a, on_pair, &x); as_map_foreach((as_map*)b, on_pair, &y);
		VF_CHECK(x.n == 2 * n && y.n == 2 * n, "visiting %u and %u entries of %u", x.n / 2, y.n / 2, n);
		for (uint32_t i = 0; i < n; i++) {
			alike(x.e[2 * i], y.e[2 * i], true);
			alike(x.e[2 * i + 1], y.e[2 * i + 1], true);
			/* each finds its entry by the other's key */
			VF_CHECK(as_map_get((as_map*)a, y.e[2 * i]) == x.e[2 * i + 1] && as_map_get((as_map*)b, x.e[2 * i]) == y.e[2 * i + 1], "entry %u by key is not the one visited", i);
		}
	}
}

static void judge(const mval* m, const mval* third)
{
	uint64_t live = vfa_live();
	trips = 3;
	as_val* a = way(m); as_val* b = way(m);
	bool first = vf_bool(); /* the bytes asked for before or after anything else */
	for (unsigned turn = 0; turn < 2; turn++) {
		if (turn == (unsigned)first) {
			as_serializer ser;
			as_msgpack_init(&ser);
			as_buffer x, y;
			as_buffer_init(&x); as_buffer_init(&y);
			VF_CHECK(as_serializer_serialize(&ser, a, &x) == 0 && as_serializer_serialize(&ser, b, &y) == 0, "serializing");
			VF_CHECK(x.size == y.size && memcmp(x.data, y.data, x.size) == 0, "values with equal content give different bytes (%u and %u)", x.size, y.size);
			VF_CHECK(as_serializer_serialize_getsize(&ser, a) == x.size && as_serializer_serialize_getsize(&ser, b) == x.size, "values with equal content have different sizes");
			as_buffer_destroy(&x); as_buffer_destroy(&y);
			as_serializer_destroy(&ser);
			char *s = as_val_tostring(a), *t = as_val_tostring(b);
			VF_CHECK(s ? t && strcmp(s, t) == 0 : !t, "values with equal content give the texts %.60s and %.60s", s ? s : "(none)", t ? t : "(none)");
			cf_free(s); cf_free(t);
		}
		else alike(a, b, true);
	}
	if (third) {
		as_val* c = way(third);
		int p = as_val_cmp(a, c), q = as_val_cmp(b, c), r = as_val_cmp(c, a), s = as_val_cmp(c, b);
		VF_CHECK(sign(p) == sign(q) && sign(r) == sign(s), "values with equal content compare %d, %d with a third one (and %d, %d the other way)", p, q, r, s);
		as_val_destroy(c);
	}
	as_val_destroy(a); as_val_destroy(b);
	VF_CHECK(vfa_live() == live, "%lld blocks remain", (long long)(vfa_live() - live));
}

static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 30), .depth = 4, .small = vf_chance(3, 4) };
	mval* m = m_gen(&c);
	vf_note("%s", m_show(m));
	if ((m->t == M_LIST || m->t == M_MAP) && m->u.c.n > 1) vf_nontrivial();
	judge(m, vf_bool() ? m_mutate(m, &c) : NULL);
}
/* maps large enough that late entries wait to be put in their place */
static void maps(void)
{
	uint32_t n = 990 + (uint32_t)vf_draw(1400);
	mval* m = m_map(n);
	bool text = vf_bool();
	for (uint32_t i = 0; i < n; i++) {
		m->u.c.e[2 * i] = text ? m_str(vf_fmt("%05u", i * 3), 5) : m_int((int64_t)i * 3 - 1000);
		m->u.c.e[2 * i + 1] = m_int((int64_t)i);
	}
	vf_note("%u %s keys", n, text ? "text" : "integer");
	vf_nontrivial();
	judge(m, NULL);
}

const vf_target vf_targets[] = {
	{ "trees", trees, 300000, 2500000, VF_FUZZ },
	{ "maps", maps, 4000, 30000, 0 },
	{ NULL }
};
