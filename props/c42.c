/* C42: looking at a value does not change it. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_string.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "at least four reads of a non-empty container; distinct by choice sequence";

#define TOPS 3
typedef struct {
	mval* m;
	as_val* v;
	uint8_t* bytes; uint32_t nbytes; bool has_bytes;
	bool has_size; uint32_t size;
	char* text;
	bool has_hash; uint32_t hash;
	bool has_cmp[TOPS]; int cmp[TOPS];
} top;
static top T[TOPS];
static unsigned nt;

/* where each node of a model was first seen */
#define SLOTS 65536
static struct { const mval* m; const as_val* v; } place[SLOTS];
static unsigned placed;
static void same_place(const mval* m, const as_val* v, const char* what)
{
	uint64_t h = (uint64_t)(uintptr_t)m * 0x9E3779B97F4A7C15ull >> 40;
	if (placed > SLOTS / 2) return;
	for (unsigned i = 0; i < SLOTS; i++) {
		unsigned k = (unsigned)((h + i) % SLOTS);
		if (!place[k].m) { place[k].m = m; place[k].v = v; placed++; return; }
		if (place[k].m == m) { VF_CHECK(place[k].v == v, "%s gives another object than before", what); return; }
	}
}

static void keep(void** to, const void* p, size_t n) { *to = vf_tmp(n + 1); memcpy(*to, p, n); }

static void serialize(top* t)
{
	as_serializer ser;
	as_msgpack_init(&ser);
	as_buffer b;
	as_buffer_init(&b);
	vf_note("serialize %td", t - T);
	VF_CHECK(as_serializer_serialize(&ser, t->v, &b) == 0, "serializing failed");
	if (!t->has_bytes) { t->has_bytes = true; t->nbytes = b.size; keep((void**)&t->bytes, b.data, b.size); }
	VF_CHECK(b.size == t->nbytes && memcmp(b.data, t->bytes, b.size) == 0, "serializing again gives other bytes");
	as_buffer_destroy(&b);
	as_serializer_destroy(&ser);
}

static void presized(top* t)
{
	as_serializer ser;
	as_msgpack_init(&ser);
	vf_note("size of %td", t - T);
	uint32_t n = as_serializer_serialize_getsize(&ser, t->v);
	if (!t->has_size) { t->has_size = true; t->size = n; }
	VF_CHECK(n == t->size, "the size is %u, was %u before", n, t->size);
	if (vf_bool()) {
		uint8_t* p = vf_guarded(n);
		int32_t k = as_serializer_serialize_presized(&ser, t->v, p);
		VF_CHECK(k >= 0 && (uint32_t)k == n, "serializing into %u bytes gives %d", n, k);
		if (!t->has_bytes) { t->has_bytes = true; t->nbytes = n; keep((void**)&t->bytes, p, n); }
		VF_CHECK(n == t->nbytes && memcmp(p, t->bytes, n) == 0, "serializing into a block of the size gives other bytes");
	}
	as_serializer_destroy(&ser);
}

static void text(top* t)
{
	vf_note("text of %td", t - T);
	char* s = as_val_tostring(t->v);
	const char* r = s ? s : "no text";
	if (!t->text) keep((void**)&t->text, r, strlen(r) + 1);
	VF_CHECK(strcmp(r, t->text) == 0, "the text is %s, was %s before", r, t->text);
	cf_free(s);
}

static void hash(top* t)
{
	vf_note("hash of %td", t - T);
	uint32_t h = as_val_hashcode(t->v);
	if (!t->has_hash) { t->has_hash = true; t->hash = h; }
	VF_CHECK(h == t->hash, "the hash code is %x, was %x before", h, t->hash);
}

static void compare(top* t)
{
	unsigned o = (unsigned)vf_draw(nt);
	vf_note("compare %td with %u", t - T, o);
	int c = (int)as_val_cmp(t->v, T[o].v);
	if (!t->has_cmp[o]) { t->has_cmp[o] = true; t->cmp[o] = c; }
	VF_CHECK(c == t->cmp[o], "comparing gives %d, gave %d before", c, t->cmp[o]);
}

typedef struct { const mval* m; uint32_t at, stop; } walk;
static void entry(const as_val* k, const as_val* v, walk* w)
{
	VF_CHECK(w->at < w->m->u.c.n, "more entries than before");
	same_place(w->m->u.c.e[2 * w->at], k, "iterating to a key");
	same_place(w->m->u.c.e[2 * w->at + 1], v, "iterating to a value");
	w->at++;
}
static bool on_entry(const as_val* k, const as_val* v, void* ud) { entry(k, v, ud); return ((walk*)ud)->at != ((walk*)ud)->stop; }
static bool on_item(as_val* v, void* ud)
{
	walk* w = ud;
	VF_CHECK(w->at < w->m->u.c.n, "more items than before");
	same_place(w->m->u.c.e[w->at], v, "iterating to an item");
	return ++w->at != w->stop;
}

/* one step down, or NULL: an element by index or key, as the same object each time */
static as_val* step(as_val* v, const mval** pm)
{
	const mval* m = *pm;
	if ((m->t != M_LIST && m->t != M_MAP) || m->u.c.n == 0) return NULL;
	uint32_t i = (uint32_t)vf_draw(m->u.c.n);
	as_val* r;
	if (m->t == M_LIST) {
		r = as_list_get((as_list*)v, i);
		*pm = m->u.c.e[i];
		same_place(*pm, r, "reading an item");
	}
	else {
		as_val* k = m_build(m->u.c.e[2 * i]);
		r = as_map_get((as_map*)v, k);
		as_val_destroy(k);
		*pm = m->u.c.e[2 * i + 1];
		VF_CHECK(r != NULL, "an entry is gone");
		same_place(*pm, r, "reading an entry");
	}
	return r;
}

/* some value in the tree */
static as_val* down(top* t, const mval** pm)
{
	as_val* v = t->v;
	*pm = t->m;
	for (unsigned d = (unsigned)vf_draw(4); d; d--) {
		as_val* n = step(v, pm);
		if (!n) break;
		v = n;
	}
	return v;
}

static void iterate(top* t)
{
	const mval* m;
	as_val* v = down(t, &m);
	if (m->t != M_LIST && m->t != M_MAP) return;
	uint32_t n = m->u.c.n;
	walk w = { m, 0, vf_bool() ? UINT32_MAX : (uint32_t)vf_range(1, n + 1) };
	vf_note("iterate in %td", t - T);
	unsigned how = (unsigned)vf_draw(2);
	if (how == 0) {
		if (m->t == M_LIST) as_list_foreach((as_list*)v, on_item, &w); else as_map_foreach((as_map*)v, on_entry, &w);
	}
	else {
		as_iterator* it = m->t == M_LIST ? (as_iterator*)as_list_iterator_new((as_list*)v) : (as_iterator*)as_map_iterator_new((as_map*)v);
		while (w.at != w.stop && as_iterator_has_next(it)) {
			const as_val* e = as_iterator_next(it);
			if (m->t == M_LIST) on_item((as_val*)e, &w); else entry(as_pair_1((as_pair*)e), as_pair_2((as_pair*)e), &w);
		}
		as_iterator_destroy(it);
	}
	VF_CHECK(w.at == (w.stop < n ? w.stop : n), "iterating gave %u of %u", w.at, n);
}

/* questions that have no answer */
static void miss(top* t)
{
	const mval* m;
	as_val* v = down(t, &m);
	vf_note("missing questions in %td", t - T);
	if (m->t == M_LIST) {
		uint32_t i = m->u.c.n + (uint32_t)vf_skewed(5);
		VF_CHECK(as_list_get((as_list*)v, i) == NULL, "an item behind the end");
		i = (uint32_t)vf_draw(m->u.c.n + 1u);
		switch (vf_draw(4)) {
		case 0: as_list_get_int64((as_list*)v, i); break;
		case 1: as_list_get_double((as_list*)v, i); break;
		case 2: as_list_get_str((as_list*)v, i); break;
		default: as_list_get_map((as_list*)v, i); }
		if (vf_bool()) as_list_size((as_list*)v);
	}
	else if (m->t == M_MAP) {
		char name[16] = "no such key\x01";
		as_val* k = vf_bool() ? (as_val*)as_string_new_strdup(name) : (as_val*)as_integer_new(INT64_MIN + 77);
		as_map_get((as_map*)v, k);
		as_val_destroy(k);
		VF_CHECK(as_map_size((as_map*)v) == m->u.c.n, "the map has %u entries, had %u", as_map_size((as_map*)v), m->u.c.n);
	}
	else if (m->t == M_STR) { as_string_len((as_string*)v); as_string_get((as_string*)v); }
	else if (m->t == M_GEO) { as_geojson_len((as_geojson*)v); as_geojson_get((as_geojson*)v); }
	else if (m->t == M_BYTES) {
		uint8_t g[16]; int32_t i32; uint32_t sz;
		as_bytes* b = (as_bytes*)v;
		uint32_t at = (uint32_t)vf_draw(m->u.s.n + 4u);
		as_bytes_copy(b, at, g, (uint32_t)vf_draw(17));
		as_bytes_get_int32(b, at, &i32);
		as_bytes_get_var_int(b, at, &sz);
		as_bytes_get_type(b);
	}
	if (as_val_reserve(v) == v) as_val_destroy(v);
}

static void reads(uint64_t base, unsigned calls)
{
	bool filled = false;
	for (unsigned k = 0; k < calls; k++) {
		top* t = &T[vf_draw(nt)];
		if ((t->m->t == M_LIST || t->m->t == M_MAP) && t->m->u.c.n) filled = true;
		switch (vf_draw(8)) {
		case 0: serialize(t); break;
		case 1: presized(t); break;
		case 2: text(t); break;
		case 3: hash(t); break;
		case 4: compare(t); break;
		case 5: iterate(t); break;
		case 6: miss(t); break;
		default: { const mval* m; down(t, &m); } }
	}
	for (unsigned i = 0; i < nt; i++) {
		m_expect(T[i].v, T[i].m, "value after it was looked at");
		as_val_destroy(T[i].v);
	}
	vfa_expect(base, "after looking at values and destroying them");
	if (calls >= 4 && filled) vf_nontrivial();
}

static void begin(void)
{
	memset(T, 0, sizeof(T));
	if (placed) memset(place, 0, sizeof(place));
	placed = 0;
	nt = 1 + (unsigned)vf_draw(TOPS);
}

static void generated(mcfg c, unsigned calls)
{
	uint64_t base = vfa_live();
	begin();
	for (unsigned i = 0; i < nt; i++) {
		T[i].m = i && vf_bool() ? vf_bool() ? m_copy(T[i - 1].m) : m_mutate(T[i - 1].m, &c) : m_gen(&c);
		if (vf_describing()) vf_note("value %u: %s", i, m_show(T[i].m));
		T[i].v = m_build(T[i].m);
	}
	reads(base, calls);
}

/* Maps so large that late insertions near the front wait to be put in order. */
static void maps(void)
{
	uint64_t base = vfa_live();
	begin();
	for (unsigned i = 0; i < nt; i++) {
		uint32_t n = (uint32_t)vf_range(900, 2600), late = (uint32_t)vf_draw(40), from = (uint32_t)vf_draw(vf_bool() ? 60 : n - 50);
		bool text = vf_bool();
		mval* m = m_map(n);
		for (uint32_t k = 0; k < n; k++) {
			char name[16];
			int len = snprintf(name, sizeof(name), "%06u", k * 3);
			m->u.c.e[2 * k] = text ? m_str(name, (uint32_t)len) : m_int((int64_t)k * 3 - 1000);
			m->u.c.e[2 * k + 1] = m_int(k);
		}
		m->u.c.flags = (uint8_t[]){ 0, 1, 3, 0x11 }[vf_draw(4)];
		vf_note("value %u: %u entries, %u late ones from %u%s", i, n, late, from, text ? ", text keys" : "");
		as_orderedmap* om = as_orderedmap_new(vf_bool() ? n : 4);
		bool down = vf_bool();
		for (uint32_t k = 0; k < n; k++) if (k < from || k >= from + late) as_orderedmap_set(om, m_build(m->u.c.e[2 * k]), m_build(m->u.c.e[2 * k + 1]));
		for (uint32_t j = 0; j < late; j++) {
			uint32_t k = from + (down ? late - 1 - j : j);
			as_orderedmap_set(om, m_build(m->u.c.e[2 * k]), m_build(m->u.c.e[2 * k + 1]));
		}
		as_map_set_flags((as_map*)om, m->u.c.flags);
		T[i].m = m;
		T[i].v = (as_val*)om;
		if (vf_chance(1, 3)) {
			as_arraylist* l = as_arraylist_new(1, 1);
			as_arraylist_append(l, T[i].v);
			T[i].m = m_list(1);
			T[i].m->u.c.e[0] = m;
			T[i].v = (as_val*)l;
		}
	}
	reads(base, (unsigned)vf_range(2, 10));
}

static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 40), .depth = 4, .no_empty_bytes = true, .nan = true };
	generated(c, (unsigned)vf_range(2, 20));
}
static void large(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 20), .depth = 3, .no_empty_bytes = true, .nan = true, .big = true };
	generated(c, (unsigned)vf_range(2, 12));
}

const vf_target vf_targets[] = {
	{ "trees", trees, 400000, 4000000, VF_FUZZ },
	{ "maps", maps, 6000, 60000, 0 },
	{ "large", large, 2000, 20000, 0 },
	{ NULL }
};
