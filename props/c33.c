#define _GNU_SOURCE
/* C33: typed accessors of lists, maps, records, pairs and scalars. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include <citrusleaf/alloc.h>
#include <stdlib.h>
#include <string.h>
#include "model.h"
#include "vf_big.h"

const char* const vf_rule = "at least 3 stores of at least 2 types were read back through every typed reader; distinct by choice sequence";

typedef struct { as_val* v; mval* m; } slot; /* v NULL: which object is not prescribed */

enum { G_VAL, G_I64, G_DBL, G_STR, G_INTEGER, G_DOUBLE, G_STRING, G_BYTES, G_LIST, G_MAP, G_GEO, NG };

static unsigned stores, kinds;

/* ---- what to store: the way (G_*) and the model value ---- */
static mval* gen_for(unsigned way)
{
	mcfg c = { .budget = 5, .depth = 2, .small = true };
	mval* m;
	switch (way) {
	case G_I64: case G_INTEGER: return m_int(vf_int64());
	case G_DBL: case G_DOUBLE: m = m_int(0); m->t = M_DBL; m->u.d = vf_double(); return m;
	case G_STR: case G_STRING: case G_GEO: {
		uint32_t n = (uint32_t)vf_skewed(vf_chance(1, 8) ? vf_chance(1, 200) ? 140000 : 3000 : 20);
		char* t = vf_tmp(n + 1);
		vf_fill_text(t, n);
		m = m_str(t, n);
		if (way == G_GEO) m->t = M_GEO;
		return m;
	}
	case G_BYTES: {
		uint32_t n = (uint32_t)vf_skewed(40);
		uint8_t* t = vf_tmp(n + 1);
		vf_fill(t, n);
		return m_bytes(t, n, (uint8_t)(vf_bool() ? AS_BYTES_BLOB : vf_draw(24)));
	}
	case G_LIST: {
		m = m_list((uint32_t)vf_draw(4));
		for (uint32_t i = 0; i < m->u.c.n; i++) m->u.c.e[i] = m_gen_scalar(&c);
		return m;
	}
	case G_MAP: {
		m = m_map((uint32_t)vf_draw(4));
		for (uint32_t i = 0; i < m->u.c.n; i++) { m->u.c.e[2 * i] = m_int(i * 3); m->u.c.e[2 * i + 1] = m_gen_scalar(&c); }
		return m;
	}
	default: return m_gen(&c);
	}
}

static void stored(const mval* m) { stores++; kinds |= 1u << m->t; }
static void judge(void) { if (stores >= 3 && (kinds & (kinds - 1))) vf_nontrivial(); }

/* A value with the given content, built the ways a caller may build it. */
static as_val* make(const mval* m) { return m_build(m); }

static bool same_double(double a, double b) { return memcmp(&a, &b, sizeof(a)) == 0; }

typedef struct {
	as_val* v; int64_t i; double d; const char* s;
	as_integer* pi; as_double* pd; as_string* ps; as_bytes* pb; as_list* pl; as_map* pm;
} reads;

static void check_reads(const reads* r, const slot* s, const char* what)
{
	const mval* m = s ? s->m : NULL;
	if (!m) VF_CHECK(r->v == NULL, "%s: reading where nothing is stored gives a value", what);
	else {
		VF_CHECK(r->v != NULL, "%s: stored value missing", what);
		if (s->v) VF_CHECK(r->v == s->v, "%s: not the object that was stored", what);
		m_expect(r->v, m, what);
	}
	mtype t = m ? m->t : (mtype)-1;
	VF_CHECK(r->i == (t == M_INT ? m->u.i : 0), "%s: read as integer gives %lld", what, (long long)r->i);
	VF_CHECK(same_double(r->d, t == M_DBL ? m->u.d : 0.0), "%s: read as double gives %g", what, r->d);
	if (t == M_STR) VF_CHECK(r->s && strlen(r->s) == m->u.s.n && memcmp(r->s, m->u.s.p, m->u.s.n) == 0, "%s: read as text differs", what);
	else VF_CHECK(r->s == NULL, "%s: read as text of another type gives text", what);
	VF_CHECK((as_val*)r->pi == (t == M_INT ? r->v : NULL), "%s: integer object reader", what);
	VF_CHECK((as_val*)r->pd == (t == M_DBL ? r->v : NULL), "%s: double object reader", what);
	VF_CHECK((as_val*)r->ps == (t == M_STR ? r->v : NULL), "%s: string object reader", what);
	VF_CHECK((as_val*)r->pb == (t == M_BYTES ? r->v : NULL), "%s: bytes object reader", what);
	VF_CHECK((as_val*)r->pl == (t == M_LIST ? r->v : NULL), "%s: list object reader", what);
	VF_CHECK((as_val*)r->pm == (t == M_MAP ? r->v : NULL), "%s: map object reader", what);
}

/* ---- lists ---- */
#define CAP 48
static slot seq[CAP];
static uint32_t seq_n;

static void seq_insert(uint32_t at, slot s)
{
	memmove(seq + at + 1, seq + at, sizeof(slot) * (seq_n - at));
	seq[at] = s;
	seq_n++;
}

/* a text the caller changes after the call */
static char* lent(const mval* m)
{
	size_t n = strlen((char*)m->u.s.p);
	char* t = vf_tmp(n + 2);
	memcpy(t, m->u.s.p, n + 1);
	t[n + 1] = 0;
	return t;
}

#define STORE(api, ...) \
	switch (way) { \
	case G_I64: rc = api##_int64(__VA_ARGS__, m->u.i); break; \
	case G_DBL: rc = api##_double(__VA_ARGS__, m->u.d); break; \
	case G_STR: { char* own = lent(m); rc = api##_str(__VA_ARGS__, own); own[0] = '#'; own[strlen(own) - 1] = '#'; break; } \
	case G_INTEGER: rc = api##_integer(__VA_ARGS__, (as_integer*)o); break; \
	case G_DOUBLE: rc = api##_as_double(__VA_ARGS__, (as_double*)o); break; \
	case G_STRING: rc = api##_string(__VA_ARGS__, (as_string*)o); break; \
	case G_BYTES: rc = api##_bytes(__VA_ARGS__, (as_bytes*)o); break; \
	case G_LIST: rc = api##_list(__VA_ARGS__, (as_list*)o); break; \
	case G_MAP: rc = api##_map(__VA_ARGS__, (as_map*)o); break; \
	default: rc = api(__VA_ARGS__, o); break; \
	}

static bool by_value(unsigned way) { return way == G_I64 || way == G_DBL || way == G_STR; }

static void read_list(as_arraylist* l, bool generic, uint32_t i, const slot* s)
{
	as_list* g = (as_list*)l;
	reads r;
	if (generic) {
		r = (reads){ as_list_get(g, i), as_list_get_int64(g, i), as_list_get_double(g, i), as_list_get_str(g, i), as_list_get_integer(g, i),
			as_list_get_as_double(g, i), as_list_get_string(g, i), as_list_get_bytes(g, i), as_list_get_list(g, i), (as_map*)as_list_get_map(g, i) };
	}
	else {
		r = (reads){ as_arraylist_get(l, i), as_arraylist_get_int64(l, i), as_arraylist_get_double(l, i), as_arraylist_get_str(l, i), as_arraylist_get_integer(l, i),
			as_arraylist_get_as_double(l, i), as_arraylist_get_string(l, i), as_arraylist_get_bytes(l, i), as_arraylist_get_list(l, i), as_arraylist_get_map(l, i) };
	}
	check_reads(&r, s, generic ? "list through the interface" : "array list");
}

static void t_list(void)
{
	uint64_t live0 = vfa_live();
	as_arraylist st, *l;
	bool heap = vf_bool();
	uint32_t cap = (uint32_t)vf_draw(20), block = (uint32_t)vf_draw(20);
	l = heap ? as_arraylist_new(cap, block) : as_arraylist_init(&st, cap, block);
	as_list* g = (as_list*)l;
	seq_n = 0; stores = kinds = 0;
	unsigned ops = 1 + (unsigned)vf_draw(16);
	for (unsigned k = 0; k < ops; k++) {
		static const unsigned w[] = { 2, 3, 3, 3, 2, 2, 2, 2, 2, 2 };
		unsigned way = vf_pick(10, w), op = (unsigned)vf_draw(4);
		bool generic = vf_bool();
		mval* m = gen_for(way);
		as_val* o = by_value(way) ? NULL : make(m);
		uint32_t at = (uint32_t)vf_draw(seq_n + 1);
		int rc = -1;
		vf_note("%s %s way %u at %u: %s", generic ? "list" : "arraylist", (const char*[]){ "set", "insert", "append", "prepend" }[op], way, at, m_show(m));
		switch (op) {
		case 0: if (generic) { STORE(as_list_set, g, at) } else { STORE(as_arraylist_set, l, at) } break;
		case 1: if (generic) { STORE(as_list_insert, g, at) } else { STORE(as_arraylist_insert, l, at) } break;
		case 2: if (generic) { STORE(as_list_append, g) } else { STORE(as_arraylist_append, l) } break;
		default: if (generic) { STORE(as_list_prepend, g) } else { STORE(as_arraylist_prepend, l) } break;
		}
		bool grows = op != 0 || at == seq_n;
		if (rc != 0) {
			VF_CHECK(grows && block == 0 && seq_n >= cap, "store refused with %d: %u elements, capacity %u, block %u", rc, seq_n, cap, block);
			if (o) as_val_destroy(o);
		}
		else {
			slot s = { o, m };
			VF_CHECK(!(grows && block == 0 && seq_n >= cap), "store beyond a fixed capacity accepted");
			switch (op) {
			case 0: if (at == seq_n) seq_n++; seq[at] = s; break;
			case 1: seq_insert(at, s); break;
			case 2: seq_insert(seq_n, s); break;
			default: seq_insert(0, s); break;
			}
			stored(m);
		}
		VF_CHECK(as_arraylist_size(l) == seq_n && as_list_size(g) == seq_n, "size %u, expected %u", as_arraylist_size(l), seq_n);
	}
	for (uint32_t i = 0; i < seq_n; i++) { read_list(l, false, i, &seq[i]); read_list(l, true, i, &seq[i]); }
	uint32_t past = seq_n + (uint32_t)vf_skewed(UINT32_MAX - seq_n);
	read_list(l, vf_bool(), past, NULL);
	judge();
	if (vf_bool()) as_list_destroy(g); else as_arraylist_destroy(l);
	vfa_expect(live0, "after destroying a list");
}

/* ---- maps keyed by text, records ---- */
#define NAME 4200
typedef struct { slot s; bool on; } bin;
#define NB 10
static bin bins[NB];

static void name_of(unsigned i, char* out)
{
	static const char* const n[6] = { "", "a", "b", "ab", "A", "bin-name-7" };
	static const unsigned len[4] = { 14, 15, 256, 4096 };
	if (i < 6) { strcpy(out, n[i]); return; }
	memset(out, 'k', len[i - 6]);
	out[len[i - 6]] = 0;
}

static void t_map(void)
{
	uint64_t live0 = vfa_live();
	as_orderedmap st, *om = vf_bool() ? as_orderedmap_new(0) : as_orderedmap_init(&st, (uint32_t)vf_draw(4));
	as_map* g = (as_map*)om;
	memset(bins, 0, sizeof(bins));
	stores = kinds = 0;
	unsigned ops = 1 + (unsigned)vf_draw(16);
	uint32_t n = 0;
	for (unsigned k = 0; k < ops; k++) {
		unsigned b = (unsigned)vf_draw(vf_chance(1, 4) ? NB : 6), way = (unsigned)vf_draw(10);
		char key[NAME];
		name_of(b, key);
		mval* m = gen_for(way);
		as_val* o = by_value(way) ? NULL : make(m);
		int rc = -1;
		vf_note("set \"%s\" way %u: %s", key, way, m_show(m));
		STORE(as_stringmap_set, g, key)
		memset(key, 'x', sizeof(key) - 1); key[sizeof(key) - 1] = 0; /* the caller's text may go away */
		VF_CHECK(rc == 0, "storing failed with %d", rc);
		if (!bins[b].on) n++;
		bins[b].on = true; bins[b].s = (slot){ o, m };
		stored(m);
		VF_CHECK(as_map_size(g) == n, "size %u, expected %u", as_map_size(g), n);
	}
	for (unsigned b = 0; b < NB; b++) {
		char key[NAME];
		name_of(b, key);
		reads r = { as_stringmap_get(g, key), as_stringmap_get_int64(g, key), as_stringmap_get_double(g, key), as_stringmap_get_str(g, key), as_stringmap_get_integer(g, key),
			as_stringmap_get_as_double(g, key), as_stringmap_get_string(g, key), as_stringmap_get_bytes(g, key), as_stringmap_get_list(g, key), as_stringmap_get_map(g, key) };
		check_reads(&r, bins[b].on ? &bins[b].s : NULL, "map");
		as_string ks;
		as_string_init(&ks, key, false);
		VF_CHECK(as_map_get(g, (as_val*)&ks) == r.v, "lookup by string value differs from lookup by text");
	}
	judge();
	as_map_destroy(g);
	vfa_expect(live0, "after destroying a map");
	/* a map that cannot store: the caller keeps the value, nothing else remains */
	static const as_map_hooks none = { 0 };
	as_map refusing;
	as_map_init(&refusing, &none);
	as_map* r = vf_bool() ? &refusing : NULL;
	for (unsigned way = 0; way < 10; way++) {
		mval* m = gen_for(way);
		as_val* o = by_value(way) ? NULL : make(m);
		int rc = 0;
		STORE(as_stringmap_set, r, "k")
		VF_CHECK(rc != 0, "storing in a map that cannot store succeeds");
		if (o) as_val_destroy(o);
		vfa_expect(live0, "after storing in a map that cannot store");
	}
}

/* A record kept in the harness: takes the reference it is given, as a list or map does. */
static as_val* bin_vals[NB];
static int rec_rc;
static int bin_of(const char* name)
{
	for (unsigned b = 0; b < NB; b++) { char n[NAME]; name_of(b, n); if (strcmp(n, name) == 0) return (int)b; }
	return -1;
}
static as_val* h_get(const as_rec* r, const char* name) { int b = bin_of(name); return b < 0 ? NULL : bin_vals[b]; }
static int h_set(const as_rec* r, const char* name, const as_val* v)
{
	int b = bin_of(name);
	if (rec_rc) { as_val_destroy((as_val*)v); return rec_rc; }
	if (bin_vals[b]) as_val_destroy(bin_vals[b]);
	bin_vals[b] = (as_val*)v;
	return 0;
}
static bool h_destroy(as_rec* r) { for (unsigned b = 0; b < NB; b++) { if (bin_vals[b]) as_val_destroy(bin_vals[b]); bin_vals[b] = NULL; } return true; }
static const as_rec_hooks rec_hooks = { .get = h_get, .set = h_set, .destroy = h_destroy };

static void t_rec(void)
{
	uint64_t live0 = vfa_live();
	as_rec st, *rec = vf_bool() ? as_rec_new(bins, &rec_hooks) : as_rec_init(&st, bins, &rec_hooks);
	memset(bins, 0, sizeof(bins));
	memset(bin_vals, 0, sizeof(bin_vals));
	stores = kinds = 0;
	unsigned ops = 1 + (unsigned)vf_draw(16);
	for (unsigned k = 0; k < ops; k++) {
		unsigned b = (unsigned)vf_draw(vf_chance(1, 4) ? NB : 6), way = (unsigned)vf_draw(NG);
		char key[NAME];
		name_of(b, key);
		mval* m = gen_for(way);
		as_val* o = by_value(way) ? NULL : make(m);
		int rc = -1;
		rec_rc = vf_chance(1, 8) ? (int)vf_irange(-3, 3) : 0;
		vf_note("set \"%s\" way %u rc %d: %s", key, way, rec_rc, m_show(m));
		if (way == G_GEO) rc = as_rec_set_geojson(rec, key, (as_geojson*)o);
		else STORE(as_rec_set, rec, key)
		VF_CHECK(rc == rec_rc, "storing returned %d, implementation %d", rc, rec_rc);
		if (rc == 0) {
			bins[b].on = true; bins[b].s = (slot){ o, m };
			stored(m);
		}
	}
	for (unsigned b = 0; b < NB; b++) {
		char key[NAME];
		name_of(b, key);
		reads r = { as_rec_get(rec, key), as_rec_get_int64(rec, key), as_rec_get_double(rec, key), as_rec_get_str(rec, key), as_rec_get_integer(rec, key),
			as_rec_get_as_double(rec, key), as_rec_get_string(rec, key), as_rec_get_bytes(rec, key), as_rec_get_list(rec, key), as_rec_get_map(rec, key) };
		slot* s = bins[b].on ? &bins[b].s : NULL;
		check_reads(&r, s, "record");
		bool geo = s && s->m->t == M_GEO;
		VF_CHECK((as_val*)as_rec_get_geojson(rec, key) == (geo ? r.v : NULL), "GeoJSON object reader");
		const char* t = as_rec_get_geojson_str(rec, key);
		if (geo) VF_CHECK(t && strlen(t) == s->m->u.s.n && memcmp(t, s->m->u.s.p, s->m->u.s.n) == 0, "GeoJSON text reader differs");
		else VF_CHECK(t == NULL, "GeoJSON text of another type");
	}
	VF_CHECK(as_rec_source(rec) == bins, "record source");
	VF_CHECK(as_rec_fromval(as_rec_toval(rec)) == rec, "record conversion");
	judge();
	as_rec_destroy(rec);
	vfa_expect(live0, "after destroying a record");
}

/* ---- scalars and conversions ---- */
static void t_scalar(void)
{
	uint64_t live0 = vfa_live();
	stores = kinds = 0;
	unsigned ops = 1 + (unsigned)vf_draw(6);
	as_val* keep[8];
	unsigned nk = 0;
	for (unsigned k = 0; k < ops; k++) {
		mcfg c = { .budget = 5, .depth = 2, .small = true };
		mval* m = vf_chance(1, 3) ? m_gen(&c) : gen_for(1 + (unsigned)vf_draw(NG - 1));
		/* objects in place, over storage that held something else */
		union { as_integer i; as_double d; as_string s; as_geojson g; as_boolean b; as_bytes y; uint8_t raw[128]; } u;
		memset(&u, vf_junk(), sizeof(u));
		as_val* v = NULL;
		char* text = NULL;
		bool wlen = vf_bool(), own = vf_bool(), place = vf_bool();
		vf_note("%s in place %d with length %d owned %d", m_show(m), place, wlen, own);
		switch (m->t) {
		case M_INT: v = (as_val*)(place ? as_integer_init(&u.i, m->u.i) : as_integer_new(m->u.i)); break;
		case M_DBL: v = (as_val*)(place ? as_double_init(&u.d, m->u.d) : as_double_new(m->u.d)); break;
		case M_BOOL: v = (as_val*)(place ? as_boolean_init(&u.b, m->u.b) : as_boolean_new(m->u.b)); break;
		case M_STR: case M_GEO: {
			uint32_t n = m->u.s.n;
			if (own) { text = cf_malloc(n + 1); memcpy(text, m->u.s.p, n); text[n] = 0; }
			else { text = vf_guarded(n + 1); memcpy(text, m->u.s.p, n); text[n] = 0; }
			if (m->t == M_STR) {
				as_string* s = place ? (wlen ? as_string_init_wlen(&u.s, text, n, own) : as_string_init(&u.s, text, own))
					: (wlen ? as_string_new_wlen(text, n, own) : as_string_new(text, own));
				v = (as_val*)s;
				VF_CHECK(as_string_len(s) == n && as_string_len(s) == n, "string length %zu, expected %u", as_string_len(s), n);
				VF_CHECK(as_string_get(s) == text && as_string_tostring(s) == text && as_string_getorelse(s, (char*)"z") == text, "string text is not the text given");
			}
			else {
				as_geojson* s = place ? (wlen ? as_geojson_init_wlen(&u.g, text, n, own) : as_geojson_init(&u.g, text, own))
					: (wlen ? as_geojson_new_wlen(text, n, own) : as_geojson_new(text, own));
				v = (as_val*)s;
				VF_CHECK(as_geojson_len(s) == n && as_geojson_len(s) == n, "GeoJSON length %zu, expected %u", as_geojson_len(s), n);
				VF_CHECK(as_geojson_get(s) == text && as_geojson_getorelse(s, (char*)"z") == text, "GeoJSON text is not the text given");
			}
			break;
		}
		case M_BYTES: {
			uint32_t n = m->u.s.n;
			uint8_t* p;
			if (own) p = cf_malloc(n + 1); else p = vf_guarded(n);
			memcpy(p, m->u.s.p, n);
			as_bytes* b = place ? as_bytes_init_wrap(&u.y, p, n, own) : as_bytes_new_wrap(p, n, own);
			as_bytes_set_type(b, (as_bytes_type)m->u.s.tag);
			v = (as_val*)b;
			uint32_t got = ~n;
			VF_CHECK(as_bytes_get(b) == p && as_bytes_getorelse(b, NULL) == p && as_bytes_tobytes(b, &got) == p && got == n, "wrapped bytes are not the bytes given");
			VF_CHECK(as_bytes_size(b) == n && as_bytes_capacity(b) == n && as_bytes_get_type(b) == m->u.s.tag, "size, capacity or type of wrapped bytes");
			break;
		}
		default: v = m_build(m); break;
		}
		VF_CHECK(v != NULL, "not constructed");
		m_expect(v, m, "constructed value");
		mtype t = m->t;
		as_integer* pi = as_integer_fromval(v);
		as_double* pd = as_double_fromval(v);
		as_boolean* pb = as_boolean_fromval(v);
		as_string* ps = as_string_fromval(v);
		as_geojson* pg = as_geojson_fromval(v);
		VF_CHECK((as_val*)pi == (t == M_INT ? v : NULL) && (as_val*)pd == (t == M_DBL ? v : NULL) && (as_val*)pb == (t == M_BOOL ? v : NULL)
			&& (as_val*)ps == (t == M_STR ? v : NULL) && (as_val*)pg == (t == M_GEO ? v : NULL) && (as_val*)as_bytes_fromval(v) == (t == M_BYTES ? v : NULL)
			&& (as_val*)as_list_fromval(v) == (t == M_LIST ? v : NULL) && (as_val*)as_map_fromval(v) == (t == M_MAP ? v : NULL)
			&& as_rec_fromval(v) == NULL && as_pair_fromval(v) == NULL, "conversion of a value to its type or to another type");
		int64_t fi = vf_int64();
		double fd = vf_double();
		VF_CHECK(as_integer_getorelse(pi, fi) == (pi ? m->u.i : fi) && as_integer_get(pi) == (pi ? m->u.i : 0) && as_integer_toint(pi) == (pi ? m->u.i : 0), "integer readers");
		VF_CHECK(same_double(as_double_getorelse(pd, fd), pd ? m->u.d : fd) && same_double(as_double_get(pd), pd ? m->u.d : 0.0), "double readers");
		VF_CHECK(as_boolean_getorelse(pb, fi & 1) == (pb ? m->u.b : (fi & 1)) && as_boolean_get(pb) == (pb && m->u.b) && as_boolean_tobool(pb) == (pb && m->u.b), "boolean readers");
		const as_boolean* pc = fi & 2 ? &as_true : &as_false;
		VF_CHECK(as_boolean_getorelse(pc, fi & 1) == (pc == &as_true) && as_boolean_get(pc) == (pc == &as_true) && as_boolean_tobool(pc) == (pc == &as_true), "readers of the boolean constants");
		VF_CHECK(as_boolean_fromval(as_boolean_toval(pc)) == pc && as_val_tobool((as_val*)pc) == (pc == &as_true), "conversion of the boolean constants");
		if (!ps) VF_CHECK(as_string_get(ps) == NULL && as_string_getorelse(ps, (char*)vf_rule) == vf_rule, "string readers without a string");
		if (!pg) VF_CHECK(as_geojson_get(pg) == NULL && as_geojson_getorelse(pg, (char*)vf_rule) == vf_rule, "GeoJSON readers without GeoJSON");
		VF_CHECK(as_val_tobool(v) == (t == M_BOOL ? m->u.b : t == M_INT ? m->u.i != 0 : false), "truth value");
		/* a pair of two values */
		if (nk && vf_bool()) {
			as_pair sp;
			as_val* other = as_val_reserve(keep[nk - 1]);
			as_val_reserve(v);
			as_pair* p = vf_bool() ? as_pair_new(other, v) : as_pair_init(&sp, other, v);
			VF_CHECK(as_pair_1(p) == other && as_pair_2(p) == v, "halves of a pair");
			VF_CHECK(as_pair_fromval(as_pair_toval(p)) == p && as_string_fromval(as_pair_toval(p)) == NULL, "conversion of a pair");
			as_pair_destroy(p);
			m_expect(v, m, "value after its pair is gone");
		}
		stored(m);
		if (place && (t == M_INT || t == M_DBL || t == M_BOOL || t == M_STR || t == M_GEO || t == M_BYTES)) as_val_destroy(v);
		else if (nk < 8) keep[nk++] = v;
		else as_val_destroy(v);
	}
	VF_CHECK(as_pair_1(NULL) == NULL && as_pair_2(NULL) == NULL && !as_val_tobool(NULL), "readers of nothing");
	while (nk) as_val_destroy(keep[--nk]);
	judge();
	vfa_expect(live0, "after releasing scalars");
}

/* texts longer than 32 bits count */
static void wide(void)
{
	uint64_t live0 = vfa_live();
	size_t n = ((size_t)4 << 30) + (size_t)vf_draw(1000);
	vf_big s = vf_big_make(n, vf_draw(0), true);
	char* t = (char*)s.p;
	unsigned how = (unsigned)vf_draw(5);
	static const char* name[] = { "string", "GeoJSON", "string with length", "GeoJSON with length", "copied string" };
	vf_note("%s of %zu characters", name[how], n);
	vfa_set_limit((size_t)6 << 30);
	as_string u, *p = NULL; as_geojson v, *q = NULL;
	switch (how) {
	case 0: p = as_string_init(&u, t, false); break;
	case 1: q = as_geojson_init(&v, t, false); break;
	case 2: p = as_string_new_wlen(t, n, false); break;
	case 3: q = as_geojson_new_wlen(t, n, false); break;
	default: p = as_string_new_strdup(t);
	}
	VF_CHECK(p || q, "not constructed");
	size_t len = p ? as_string_len(p) : as_geojson_len(q), again = p ? as_string_len(p) : as_geojson_len(q);
	VF_CHECK(len == n && again == n, "%s of %zu characters has length %zu, then %zu", name[how], n, len, again);
	const char* r = p ? as_string_get(p) : as_geojson_get(q);
	VF_CHECK(how == 4 ? r != t && !memcmp(r, t, n + 1) : r == t, "%s of %zu characters: the text differs", name[how], n);
	as_val_destroy((as_val*)(p ? (void*)p : (void*)q));
	vfa_set_limit((size_t)3 << 30);
	vfa_expect(live0, "after releasing a long text");
	vf_big_free(&s);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "list", t_list, 720000, 7200000, 0 },
	{ "map", t_map, 480000, 4800000, 0 },
	{ "rec", t_rec, 480000, 4800000, 0 },
	{ "scalar", t_scalar, 480000, 4800000, 0 },
	{ "wide", wide, 8, 80, VF_SERIAL | VF_LONG },
	{ 0 }
};
