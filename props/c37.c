/* C37: equal values have equal hash codes. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_string.h>
#include <citrusleaf/alloc.h>
#include <stdlib.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "a value with content (not nil, false, zero or empty); distinct by choice sequence";

static char* dup_exact(const uint8_t* p, uint32_t n)
{
	char* s = cf_malloc(n + 1);
	memcpy(s, p, n);
	s[n] = 0;
	return s;
}
/* The same value along another way. */
static as_val* other(const mval* v)
{
	/* in memory of the caller */
	if (vf_chance(1, 4)) switch (v->t) {
	case M_INT: return (as_val*)as_integer_init(vf_tmp(sizeof(as_integer)), v->u.i);
	case M_DBL: return (as_val*)as_double_init(vf_tmp(sizeof(as_double)), v->u.d);
	case M_BOOL: return (as_val*)as_boolean_init(vf_tmp(sizeof(as_boolean)), v->u.b);
	case M_STR: return (as_val*)as_string_init(vf_tmp(sizeof(as_string)), dup_exact(v->u.s.p, v->u.s.n), true);
	case M_GEO: return (as_val*)as_geojson_init(vf_tmp(sizeof(as_geojson)), dup_exact(v->u.s.p, v->u.s.n), true);
	case M_BYTES: {
		as_bytes* b = as_bytes_init(vf_tmp(sizeof(as_bytes)), v->u.s.n + (uint32_t)vf_draw(3));
		if (v->u.s.n) VF_CHECK(as_bytes_append(b, v->u.s.p, v->u.s.n), "appending within the capacity");
		as_bytes_set_type(b, (as_bytes_type)v->u.s.tag);
		return (as_val*)b;
	}
	default: break;
	}
	switch (v->t) {
	case M_INT: return (as_val*)as_integer_new(v->u.i);
	case M_DBL: return (as_val*)as_double_new(v->u.d);
	case M_STR:
		switch (vf_draw(4)) {
		case 0: return (as_val*)as_string_new(dup_exact(v->u.s.p, v->u.s.n), true);
		case 1: return (as_val*)as_string_new_wlen(dup_exact(v->u.s.p, v->u.s.n), v->u.s.n, true);
		case 2: { char* g = vf_guarded(v->u.s.n + 1); memcpy(g, v->u.s.p, v->u.s.n); g[v->u.s.n] = 0; return (as_val*)as_string_new(g, false); }
		default: { as_string* s = as_string_new(dup_exact(v->u.s.p, v->u.s.n), true); as_string_len(s); return (as_val*)s; } }
	case M_GEO:
		if (vf_bool()) return (as_val*)as_geojson_new_wlen(dup_exact(v->u.s.p, v->u.s.n), v->u.s.n, true);
		return (as_val*)as_geojson_new(dup_exact(v->u.s.p, v->u.s.n), true);
	case M_BYTES: {
		as_bytes* b;
		if (vf_bool()) {
			/* a larger block with other bytes behind */
			uint32_t extra = 1 + (uint32_t)vf_draw(40);
			b = as_bytes_new(v->u.s.n + extra);
			if (vf_bool()) { uint8_t junk[64]; memset(junk, 0xEE, sizeof(junk)); as_bytes_append(b, junk, extra); as_bytes_truncate(b, extra); }
			if (v->u.s.n) VF_CHECK(as_bytes_append(b, v->u.s.p, v->u.s.n), "appending within the capacity");
		}
		else {
			uint8_t* g = vf_guarded(v->u.s.n);
			memcpy(g, v->u.s.p, v->u.s.n);
			b = as_bytes_new_wrap(g, v->u.s.n, false);
		}
		as_bytes_set_type(b, (as_bytes_type)v->u.s.tag);
		return (as_val*)b;
	}
	case M_LIST: {
		uint32_t cap = (uint32_t)vf_draw(4), step = 1 + (uint32_t)vf_draw(9);
		as_arraylist* l = vf_chance(1, 4) ? as_arraylist_init(vf_tmp(sizeof(as_arraylist)), cap, step) : as_arraylist_new(cap, step);
		bool front = vf_bool();
		for (uint32_t i = 0; i < v->u.c.n; i++) {
			if (front) as_arraylist_prepend(l, other(v->u.c.e[v->u.c.n - 1 - i])); else as_arraylist_append(l, other(v->u.c.e[i]));
		}
		return (as_val*)l;
	}
	case M_MAP: {
		uint32_t cap = vf_bool() ? v->u.c.n : 1;
		as_orderedmap* m = vf_chance(1, 4) ? as_orderedmap_init(vf_tmp(sizeof(as_orderedmap)), cap) : as_orderedmap_new(cap);
		bool down = vf_bool(), twice = vf_chance(1, 4);
		for (uint32_t k = 0; k < v->u.c.n; k++) {
			uint32_t i = down ? v->u.c.n - 1 - k : k;
			if (twice) as_orderedmap_set(m, m_build(v->u.c.e[2 * i]), (as_val*)as_integer_new(5));
			as_orderedmap_set(m, other(v->u.c.e[2 * i]), other(v->u.c.e[2 * i + 1]));
		}
		as_map_set_flags((as_map*)m, v->u.c.flags);
		return (as_val*)m;
	}
	default: return m_build(v);
	}
}
static void same(const as_val* a, const as_val* b, const mval* m)
{
	uint32_t x = as_val_hashcode(a), y = as_val_hashcode(b);
	VF_CHECK(x == y, "equal values have hash codes %x and %x: %s", x, y, m_show(m));
	VF_CHECK(as_val_hashcode(a) == x, "the hash code of one value changes between calls");
	if (m->t == M_LIST) for (uint32_t i = 0; i < m->u.c.n; i++) same(as_list_get((as_list*)a, i), as_list_get((as_list*)b, i), m->u.c.e[i]);
	if (m->t == M_MAP) for (uint32_t i = 0; i < m->u.c.n; i++) {
		as_val* k = m_build(m->u.c.e[2 * i]);
		const as_val* va = as_map_get((as_map*)a, k); const as_val* vb = as_map_get((as_map*)b, k);
		VF_CHECK(va && vb, "a map misses one of its keys");
		same(va, vb, m->u.c.e[2 * i + 1]);
		as_val_destroy(k);
	}
	if (m->t != M_NIL && (m->t != M_INT || m->u.i) && (m->t > M_BOOL)) vf_nontrivial();
}
static void check(mval* m)
{
	if (m->t == M_MAP) m_sort_map(m);
	vf_note("%s", m_show(m));
	uint64_t live = vfa_live();
	as_val* a = m_build(m);
	as_val* b = other(m);
	same(a, b, m);
	uint32_t h = as_val_hashcode(a);
	/* looking at a value does not change its hash code */
	char* t = as_val_tostring(a);
	cf_free(t);
	VF_CHECK(as_val_hashcode(a) == h, "rendering a value changes its hash code");
	as_serializer ser;
	as_msgpack_init(&ser);
	as_buffer buf;
	as_buffer_init(&buf);
	VF_CHECK(as_serializer_serialize(&ser, a, &buf) == 0, "the value does not serialize");
	VF_CHECK(as_val_hashcode(a) == h, "serializing a value changes its hash code");
	as_val* d = NULL;
	VF_CHECK(as_serializer_deserialize(&ser, &buf, &d) == 0 && d, "the value does not come back");
	same(a, d, m);
	as_val_reserve(a);
	VF_CHECK(as_val_hashcode(a) == h, "sharing a value changes its hash code");
	as_val_destroy(a);
	/* pairs of equal values */
	as_pair* p = as_pair_new(a, b);
	as_val_reserve(a); as_val_reserve(b);
	as_pair* q = as_pair_new(b, d);
	VF_CHECK(as_val_hashcode(p) == as_val_hashcode(q), "equal pairs have different hash codes");
	as_val_reserve(d);
	as_pair_destroy(p); as_pair_destroy(q);
	as_buffer_destroy(&buf);
	as_serializer_destroy(&ser);
	as_val_destroy(d);
	as_val_destroy(a);
	VF_CHECK(vfa_live() == live, "computing hash codes leaves %lld blocks", (long long)(vfa_live() - live));
}

static void hashes(void)
{
	mcfg c = { .budget = 12, .depth = 4 };
	check(vf_chance(3, 4) ? m_gen_scalar(&c) : m_gen(&c));
}
static void large(void)
{
	mcfg c = { .budget = 6, .depth = 2, .big = true };
	vf_label("large");
	check(vf_chance(3, 4) ? m_gen_scalar(&c) : m_gen(&c));
}

const vf_target vf_targets[] = {
	{ "hashes", hashes, 4000000, 50000000, 0 },
	{ "large", large, 1500, 15000, 0 },
	{ NULL }
};
