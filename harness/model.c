#include "model.h"

#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_string.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static mval* node(mtype t) { mval* v = vf_tmp(sizeof(mval)); memset(v, 0, sizeof(*v)); v->t = t; return v; }
mval* m_int(int64_t i) { mval* v = node(M_INT); v->u.i = i; return v; }
static mval* mstr(mtype t, const void* p, uint32_t n, uint8_t tag)
{
	mval* v = node(t);
	v->u.s.p = vf_tmp(n + 1); if (p) memcpy(v->u.s.p, p, n); v->u.s.p[n] = 0; v->u.s.n = n; v->u.s.tag = tag;
	return v;
}
mval* m_str(const char* p, uint32_t n) { return mstr(M_STR, p, n, 0); }
mval* m_bytes(const void* p, uint32_t n, uint8_t tag) { return mstr(M_BYTES, p, n, tag); }
mval* m_list(uint32_t n) { mval* v = node(M_LIST); v->u.c.n = n; v->u.c.e = vf_tmp(sizeof(mval*) * (n + 1)); return v; }
mval* m_map(uint32_t n) { mval* v = node(M_MAP); v->u.c.n = n; v->u.c.e = vf_tmp(2 * sizeof(mval*) * (n + 1)); return v; }

unsigned m_len(mcfg* c)
{
	static const unsigned w[] = { 12, 5, 1 };
	static const uint32_t edge[] = { 15, 16, 30, 31, 32, 33, 253, 254, 255, 256, 257 };
	static const uint32_t far[] = { 8183, 8184, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 65533, 65534, 65535, 65536, 65537 };
	unsigned k = c->small ? 0 : vf_pick(c->big ? 3 : 2, w);
	if (k == 0) return (unsigned)vf_draw(9);
	if (k == 1) return edge[vf_draw(sizeof(edge) / sizeof(edge[0]))];
	if (vf_chance(1, 3)) return (unsigned)vf_range(300, 70000);
	return far[vf_draw(sizeof(far) / sizeof(far[0]))];
}

static unsigned count(mcfg* c)
{
	static const unsigned w[] = { 14, 3, 1 };
	static const uint32_t edge[] = { 13, 14, 15, 16, 17, 18 };
	static const uint32_t far[] = { 255, 256, 300, 65533, 65534, 65535, 65536, 65537 };
	unsigned k = c->small ? 0 : vf_pick(c->big ? 3 : 2, w);
	if (k == 0) return (unsigned)vf_draw(7);
	if (k == 1) return edge[vf_draw(6)];
	return far[vf_draw(8)];
}

static const uint8_t btypes[] = { 4, 0, 7, 8, 9, 10, 11, 12, 13, 18, 20, 21, 1, 2, 17, 19, 23, 3 };

static mval* gen_bytes(mcfg* c)
{
	unsigned n = m_len(c);
	if (c->no_empty_bytes && n == 0) n = 1;
	mval* v = mstr(M_BYTES, NULL, n, 4);
	vf_fill(v->u.s.p, n);
	/* tags 3 and 23 denote string and GeoJSON in the encoding, so never blobs */
	if (!c->blob_only && vf_chance(1, 3)) v->u.s.tag = btypes[vf_draw(16)];
	if (v->u.s.tag == 3 || v->u.s.tag == 23) v->u.s.tag = 4;
	return v;
}

static mval* gen_str(mcfg* c, mtype t)
{
	unsigned n = m_len(c);
	mval* v = mstr(t, NULL, n, 0);
	vf_fill_text((char*)v->u.s.p, n);
	return v;
}

mval* m_gen_key(mcfg* c)
{
	static const unsigned w[] = { 5, 4, 3 };
	switch (vf_pick(3, w)) {
	case 0: return m_int(vf_bool() ? vf_irange(-8, 8) : vf_int64());
	case 1: return gen_str(c, M_STR);
	default: { mval* v = gen_bytes(c); v->u.s.tag = 4; return v; }
	}
}

mval* m_gen_scalar(mcfg* c)
{
	static const unsigned w[] = { 6, 4, 3, 2, 2, 2, 1, 1, 1 };
	switch (vf_pick(c->wild ? 9 : 7, w)) {
	case 0: return m_int(vf_int64());
	case 1: return gen_str(c, M_STR);
	case 2: return gen_bytes(c);
	case 3: { mval* v = node(M_DBL); v->u.d = c->nan ? vf_double_any() : vf_double(); return v; }
	case 4: { mval* v = node(M_BOOL); v->u.b = vf_bool(); return v; }
	case 5: return node(M_NIL);
	case 6: return gen_str(c, M_GEO);
	case 7: return node(M_WILD);
	default: return node(M_INF);
	}
}

static mval* bulk_scalar(vf_rng* r)
{
	uint64_t x = vf_rng_next(r);
	switch (x % 6) {
	case 0: return node(M_NIL);
	case 1: { mval* v = node(M_BOOL); v->u.b = (x >> 8) & 1; return v; }
	case 2: { char s[24]; int n = snprintf(s, sizeof(s), "%x", (unsigned)(x >> 8) & 0xfff); return m_str(s, (uint32_t)n); }
	default: return m_int((int64_t)(x >> 8) % 300 - 100);
	}
}

int m_key_cmp(const mval* a, const mval* b)
{
	if (a->t != b->t) return a->t < b->t ? -1 : 1;
	if (a->t == M_INT) return a->u.i < b->u.i ? -1 : a->u.i > b->u.i;
	uint32_t n = a->u.s.n < b->u.s.n ? a->u.s.n : b->u.s.n;
	int r = memcmp(a->u.s.p, b->u.s.p, n);
	if (r) return r < 0 ? -1 : 1;
	return a->u.s.n < b->u.s.n ? -1 : a->u.s.n > b->u.s.n;
}

static int ent_cmp(const void* x, const void* y) { return m_key_cmp(((mval* const*)x)[0], ((mval* const*)y)[0]); }
void m_sort_map(mval* v)
{
	qsort(v->u.c.e, v->u.c.n, 2 * sizeof(mval*), ent_cmp);
}

static mval* gen_node(mcfg* c, unsigned depth);

static void gen_ext(mcfg* c, mval* v);

static mval* gen_list(mcfg* c, unsigned depth)
{
	unsigned n = count(c);
	mval* v = m_list(n);
	vf_rng r = { 0 };
	if (n > 60) r.s = vf_draw(0);
	for (unsigned i = 0; i < n; i++) {
		if (n > 60 && (i & 63)) v->u.c.e[i] = bulk_scalar(&r);
		else if (n > 60 && i > 512) v->u.c.e[i] = bulk_scalar(&r);
		else v->u.c.e[i] = gen_node(c, depth - 1);
	}
	if (c->pairs && n == 2 && vf_chance(1, 3)) v->u.c.pair = true;
	if (c->ext_meta && vf_chance(1, 5)) { v->u.c.flags = vf_bool() ? 0x11 : 1; gen_ext(c, v); }
	return v;
}

static void gen_ext(mcfg* c, mval* v)
{
	static const uint32_t ln[] = { 1, 2, 3, 4, 8, 16, 17, 300 };
	if (!v->u.c.flags || !c->ext_meta || !vf_chance(1, 2)) return;
	v->u.c.ext_n = ln[vf_draw(8)];
	v->u.c.ext = vf_tmp(v->u.c.ext_n);
	vf_fill(v->u.c.ext, v->u.c.ext_n);
}

static mval* gen_map(mcfg* c, unsigned depth)
{
	unsigned n = count(c), k = 0;
	mval* v = m_map(n);
	vf_rng r = { 0 };
	unsigned style = 0;
	int64_t base = 0;
	if (n > 60) { r.s = vf_draw(0); style = (unsigned)vf_draw(2); base = vf_irange(-70000, 70000); }
	for (unsigned i = 0; i < n; i++) {
		mval* key;
		if (n > 60) {
			char s[24];
			if (style == 0) key = m_int(base + i);
			else { int l = snprintf(s, sizeof(s), "k%05u", i); key = m_str(s, (uint32_t)l); }
		}
		else if (c->any_keys && vf_chance(1, 3)) key = depth > 1 && vf_chance(1, 4) ? gen_node(c, depth - 1) : m_gen_scalar(c);
		else key = m_gen_key(c);
		bool dup = false;
		if (n <= 60 && !c->any_keys) for (unsigned j = 0; j < k; j++) if (m_key_cmp(key, v->u.c.e[2 * j]) == 0) dup = true;
		mval* val = n > 60 && (i & 63) ? bulk_scalar(&r) : n > 512 ? bulk_scalar(&r) : gen_node(c, depth - 1);
		if (dup) continue;
		v->u.c.e[2 * k] = key; v->u.c.e[2 * k + 1] = val; k++;
	}
	v->u.c.n = k;
	if (!c->any_keys) m_sort_map(v);
	static const uint8_t fl[] = { 0, 1, 3, 0x11, 0x13 };
	if (vf_chance(1, 3)) v->u.c.flags = fl[1 + vf_draw(4)];
	gen_ext(c, v);
	return v;
}

static mval* gen_node(mcfg* c, unsigned depth)
{
	if (c->budget) c->budget--;
	if (depth == 0 || c->budget == 0) return m_gen_scalar(c);
	static const unsigned w[] = { 5, 2, 2 };
	switch (vf_pick(c->no_maps ? 2 : 3, w)) {
	case 0: return m_gen_scalar(c);
	case 1: return gen_list(c, depth);
	default: return gen_map(c, depth);
	}
}

mval* m_gen(mcfg* c) { return gen_node(c, c->depth); }

mval* m_gen_deep(mcfg* c, unsigned depth)
{
	mval* v = gen_node(c, 1);
	static const unsigned share[] = { 0, 1, 2, 3, 8 };
	unsigned mapw = c->no_maps ? 0 : share[vf_draw(5)];    /* share of map levels, of 8 */
	unsigned sib = (unsigned)vf_draw(4);                   /* share of levels with siblings */
	vf_rng r = { vf_draw(0) };
	unsigned stem = (unsigned)vf_draw(3);
	for (unsigned i = 0; i < depth; i++) {
		uint64_t x = vf_rng_next(&r);
		unsigned before = (x & 7) < sib ? 1 + ((x >> 3) & 1) : 0;
		unsigned after = ((x >> 5) & 7) < sib ? 1 + ((x >> 8) & 1) : 0;
		if (((x >> 9) & 7) < mapw) {
			mval* m = m_map(1 + after);
			m->u.c.e[0] = m_int(5); m->u.c.e[1] = v;
			if (c->any_keys && ((x >> 14) & 3) == 0) { m->u.c.e[0] = v; m->u.c.e[1] = m_int(5); }
			for (unsigned k = 0; k < after; k++) { m->u.c.e[2 + 2 * k] = m_int(10 + k); m->u.c.e[3 + 2 * k] = bulk_scalar(&r); }
			if (((x >> 12) & 3) == 0) m->u.c.flags = 1;
			v = m;
		}
		else {
			mval* l = m_list(before + 1 + after);
			for (unsigned k = 0; k < before; k++) l->u.c.e[k] = stem == 0 ? m_int(1) : bulk_scalar(&r);
			l->u.c.e[before] = v;
			for (unsigned k = 0; k < after; k++) l->u.c.e[before + 1 + k] = bulk_scalar(&r);
			v = l;
		}
	}
	return v;
}

/* A value with one very long string, blob or container in it. */
mval* m_gen_giant(mcfg* c)
{
	static const uint32_t mid[] = { 1u << 17, 1u << 18, 1u << 20, 1u << 23, 1u << 24, 1u << 25 };
	static const unsigned w[] = { 4, 4, 3, 1, 6, 1 };
	uint32_t n = mid[vf_pick(6, w)];
	n = vf_chance(1, 4) ? n + (uint32_t)vf_draw(n / 2) : n - 8 + (uint32_t)vf_draw(12);
	vf_rng r = { vf_draw(0) };
	mval* v;
	if (vf_chance(1, 4)) {
		if (n > 1u << 18) n = (1u << 17) + n % (1u << 17);
		bool map = !c->no_maps && vf_bool();
		v = map ? m_map(n) : m_list(n);
		for (uint32_t i = 0; i < n; i++) {
			if (map) { v->u.c.e[2 * i] = m_int((int64_t)i * 3 - 70000); v->u.c.e[2 * i + 1] = bulk_scalar(&r); }
			else v->u.c.e[i] = bulk_scalar(&r);
		}
	}
	else {
		static const mtype t[] = { M_STR, M_BYTES, M_GEO };
		v = mstr(t[vf_draw(3)], NULL, n, 4);
		for (uint32_t i = 0; i < n; i += 8) {
			uint64_t x = vf_rng_next(&r) | 0x0101010101010101u;
			memcpy(v->u.s.p + i, &x, n - i < 8 ? n - i : 8);
		}
		if (v->t == M_BYTES) v->u.s.p[n / 2] = 0; else v->u.s.tag = 0;
	}
	unsigned before = (unsigned)vf_draw(3), after = (unsigned)vf_draw(3);
	if (before + after == 0 && vf_bool()) return v;
	mval* l = m_list(before + 1 + after);
	for (unsigned i = 0; i < before + 1 + after; i++) l->u.c.e[i] = i == before ? v : m_gen_scalar(c);
	return l;
}

mval* m_copy(const mval* v)
{
	mval* r = vf_tmp(sizeof(mval));
	*r = *v;
	if (v->t == M_LIST || v->t == M_MAP) {
		uint32_t n = v->u.c.n * (v->t == M_MAP ? 2 : 1);
		r->u.c.e = vf_tmp(sizeof(mval*) * (n + 2));
		for (uint32_t i = 0; i < n; i++) r->u.c.e[i] = m_copy(v->u.c.e[i]);
	}
	else if (v->t == M_STR || v->t == M_GEO || v->t == M_BYTES || v->t == M_EXT) {
		r->u.s.p = vf_tmp(v->u.s.n + 1); memcpy(r->u.s.p, v->u.s.p, v->u.s.n); r->u.s.p[v->u.s.n] = 0;
	}
	return r;
}

static mval* tweak_scalar(const mval* v, mcfg* c)
{
	mval* r = m_copy(v);
	switch (v->t) {
	case M_INT: { int64_t d = vf_bool() ? 1 : -1; r->u.i = (int64_t)((uint64_t)r->u.i + (uint64_t)d); return r; }
	case M_DBL: r->u.d = vf_bool() ? -r->u.d : r->u.d / 2; return r;
	case M_BOOL: r->u.b = !r->u.b; return r;
	case M_STR: case M_GEO: case M_BYTES: {
		uint32_t n = v->u.s.n;
		switch (vf_draw(3)) {
		case 0: if (n) { uint32_t k = (uint32_t)vf_draw(n); uint8_t x = (uint8_t)(1u << vf_draw(8)); r->u.s.p[k] ^= x; if (v->t != M_BYTES && r->u.s.p[k] == 0) r->u.s.p[k] = 1; } return r;
		case 1: if (n) { r->u.s.n--; r->u.s.p[r->u.s.n] = 0; } return r;
		default: { mval* q = mstr(v->t, NULL, n + 1, v->u.s.tag); memcpy(q->u.s.p, v->u.s.p, n); q->u.s.p[n] = (uint8_t)(1 + vf_draw(255)); return q; }
		}
	}
	default: return m_gen_scalar(c);
	}
}

mval* m_mutate(const mval* v, mcfg* c)
{
	if (v->t == M_LIST) {
		uint32_t n = v->u.c.n;
		mval* r = m_copy(v);
		if (c->ext_meta && vf_chance(1, 6)) { r->u.c.flags = r->u.c.flags ? 0 : 1; r->u.c.ext_n = 0; return r; }
		switch (vf_draw(6)) {
		case 0: case 1: case 2: if (n) { uint32_t k = (uint32_t)vf_draw(n); r->u.c.e[k] = m_mutate(v->u.c.e[k], c); return r; } /* fall through */
		case 3: if (n) { r->u.c.n--; return r; } /* fall through */
		case 4: { mval* q = m_list(n + 1); memcpy(q->u.c.e, r->u.c.e, n * sizeof(mval*)); q->u.c.flags = r->u.c.flags; q->u.c.ext = r->u.c.ext; q->u.c.ext_n = r->u.c.ext_n; q->u.c.e[n] = m_gen_scalar(c); return q; }
		default: return m_gen_scalar(c);
		}
	}
	if (v->t == M_MAP) {
		uint32_t n = v->u.c.n;
		mval* r = m_copy(v);
		switch (vf_draw(7)) {
		case 0: case 1: if (n) { uint32_t k = (uint32_t)vf_draw(n); r->u.c.e[2 * k + 1] = m_mutate(v->u.c.e[2 * k + 1], c); return r; } /* fall through */
		case 2: if (n && c->any_keys) { uint32_t k = (uint32_t)vf_draw(n); r->u.c.e[2 * k] = m_mutate(v->u.c.e[2 * k], c); return r; } /* fall through */
		case 3: if (n) { r->u.c.n--; return r; } /* fall through */
		case 4: {
			static const uint8_t fl[] = { 0, 1, 3, 0x11, 0x13 };
			r->u.c.flags = fl[vf_draw(5)];
			if (!r->u.c.flags) r->u.c.ext_n = 0;
			return r;
		}
		case 5: {
			/* same encoded entry count: swap an entry for the metadata pair */
			if (n && r->u.c.flags == 0) { r->u.c.n--; r->u.c.flags = 1; return r; }
			return r;
		}
		default: return m_gen_scalar(c);
		}
	}
	return vf_chance(1, 6) ? m_gen_scalar(c) : tweak_scalar(v, c);
}

uint64_t m_nodes(const mval* v)
{
	if (v->t != M_LIST && v->t != M_MAP) return 1;
	uint32_t n = v->u.c.n * (v->t == M_MAP ? 2 : 1);
	uint64_t s = 1;
	for (uint32_t i = 0; i < n; i++) s += m_nodes(v->u.c.e[i]);
	return s;
}
unsigned m_depth(const mval* v)
{
	if (v->t != M_LIST && v->t != M_MAP) return 0;
	uint32_t n = v->u.c.n * (v->t == M_MAP ? 2 : 1);
	unsigned d = 0;
	for (uint32_t i = 0; i < n; i++) { unsigned k = m_depth(v->u.c.e[i]); if (k > d) d = k; }
	return d + 1;
}
bool m_has(const mval* v, unsigned mask)
{
	if (mask & (1u << v->t)) return true;
	if (v->t != M_LIST && v->t != M_MAP) return false;
	uint32_t n = v->u.c.n * (v->t == M_MAP ? 2 : 1);
	for (uint32_t i = 0; i < n; i++) if (m_has(v->u.c.e[i], mask)) return true;
	return false;
}
bool m_equal(const mval* a, const mval* b)
{
	if (a->t != b->t) return false;
	switch (a->t) {
	case M_BOOL: return a->u.b == b->u.b;
	case M_INT: return a->u.i == b->u.i;
	case M_DBL: return memcmp(&a->u.d, &b->u.d, 8) == 0;
	case M_STR: case M_GEO: case M_BYTES: case M_EXT:
		return a->u.s.n == b->u.s.n && a->u.s.tag == b->u.s.tag && memcmp(a->u.s.p, b->u.s.p, a->u.s.n) == 0;
	case M_LIST: case M_MAP: {
		if (a->u.c.n != b->u.c.n || a->u.c.flags != b->u.c.flags || a->u.c.ext_n != b->u.c.ext_n) return false;
		if (a->u.c.ext_n && memcmp(a->u.c.ext, b->u.c.ext, a->u.c.ext_n)) return false;
		uint32_t n = a->u.c.n * (a->t == M_MAP ? 2 : 1);
		for (uint32_t i = 0; i < n; i++) if (!m_equal(a->u.c.e[i], b->u.c.e[i])) return false;
		return true;
	}
	default: return true;
	}
}

static void biggest(const mval* v, uint64_t* len, uint64_t* cnt)
{
	if (v->t == M_STR || v->t == M_GEO || v->t == M_BYTES) { if (v->u.s.n > *len) *len = v->u.s.n; return; }
	if (v->t != M_LIST && v->t != M_MAP) return;
	if (v->u.c.n > *cnt) *cnt = v->u.c.n;
	uint32_t n = v->u.c.n * (v->t == M_MAP ? 2 : 1);
	for (uint32_t i = 0; i < n; i++) biggest(v->u.c.e[i], len, cnt);
}
void m_classify(const mval* v)
{
	uint64_t len = 0, cnt = 0;
	biggest(v, &len, &cnt);
	unsigned d = m_depth(v);
	if (len >= 65535) vf_label("string/blob >= 64K");
	else if (len >= 8180) vf_label("string/blob >= 8K");
	else if (len >= 255) vf_label("string/blob >= 255");
	else if (len >= 31) vf_label("string/blob >= 31");
	if (cnt >= 65535) vf_label("container >= 65535");
	else if (cnt >= 16) vf_label("container >= 16");
	if (d > 512) vf_label("depth > 512");
	else if (d > 256) vf_label("depth > 256");
	else if (d >= 3) vf_label("depth >= 3");
	if (m_has(v, 1u << M_MAP)) vf_label("has map");
	if (v->t == M_LIST || v->t == M_MAP) { if (v->u.c.n >= 1) vf_nontrivial(); }
	else if (len >= 31) vf_nontrivial();
}

static void show(const mval* v, char* out, size_t cap, size_t* n)
{
	if (*n + 64 > cap) { if (*n + 4 < cap) *n += (size_t)snprintf(out + *n, cap - *n, "..."); return; }
	switch (v->t) {
	case M_NIL: *n += (size_t)snprintf(out + *n, cap - *n, "nil"); break;
	case M_BOOL: *n += (size_t)snprintf(out + *n, cap - *n, v->u.b ? "true" : "false"); break;
	case M_INT: *n += (size_t)snprintf(out + *n, cap - *n, "%lld", (long long)v->u.i); break;
	case M_DBL: *n += (size_t)snprintf(out + *n, cap - *n, "%.17g", v->u.d); break;
	case M_WILD: *n += (size_t)snprintf(out + *n, cap - *n, "WILDCARD"); break;
	case M_INF: *n += (size_t)snprintf(out + *n, cap - *n, "INF"); break;
	case M_STR: case M_GEO: case M_BYTES: case M_EXT: {
		*n += (size_t)snprintf(out + *n, cap - *n, "%s(%u,%u):", v->t == M_STR ? "str" : v->t == M_GEO ? "geo" : v->t == M_EXT ? "ext" : "bytes", v->u.s.n, v->u.s.tag);
		for (uint32_t i = 0; i < v->u.s.n && i < 12; i++) *n += (size_t)snprintf(out + *n, cap - *n, "%02x", v->u.s.p[i]);
		break;
	}
	case M_LIST: case M_MAP: {
		*n += (size_t)snprintf(out + *n, cap - *n, "%s(%u", v->t == M_LIST ? "list" : "map", v->u.c.n);
		if (v->u.c.flags) *n += (size_t)snprintf(out + *n, cap - *n, ",f%x,x%u", v->u.c.flags, v->u.c.ext_n);
		*n += (size_t)snprintf(out + *n, cap - *n, ")[");
		uint32_t k = v->u.c.n * (v->t == M_MAP ? 2 : 1);
		for (uint32_t i = 0; i < k; i++) {
			if (*n + 70 > cap) { if (*n + 4 < cap) *n += (size_t)snprintf(out + *n, cap - *n, "..."); break; }
			if (i) *n += (size_t)snprintf(out + *n, cap - *n, " ");
			show(v->u.c.e[i], out, cap, n);
		}
		if (*n + 2 < cap) *n += (size_t)snprintf(out + *n, cap - *n, "]");
		break;
	}
	}
}
const char* m_show(const mval* v)
{
	char* s = vf_tmp(1200); size_t n = 0;
	s[0] = 0;
	show(v, s, 1100, &n);
	return s;
}

/* ---- construction through the public constructors ---- */
as_val* m_build(const mval* v)
{
	switch (v->t) {
	case M_NIL: return (as_val*)&as_nil;
	case M_BOOL: return (as_val*)as_boolean_new(v->u.b);
	case M_INT: return (as_val*)as_integer_new(v->u.i);
	case M_DBL: return (as_val*)as_double_new(v->u.d);
	case M_STR: return (as_val*)as_string_new_strdup((char*)v->u.s.p);
	case M_GEO: return (as_val*)as_geojson_new_strdup((char*)v->u.s.p);
	case M_BYTES: {
		uint8_t* p = cf_malloc(v->u.s.n ? v->u.s.n : 1);
		memcpy(p, v->u.s.p, v->u.s.n);
		as_bytes* b = as_bytes_new_wrap(p, v->u.s.n, true);
		as_bytes_set_type(b, (as_bytes_type)v->u.s.tag);
		return (as_val*)b;
	}
	case M_LIST: {
		if (v->u.c.pair) {
			as_val* k = m_build(v->u.c.e[0]);
			return (as_val*)as_pair_new(k, m_build(v->u.c.e[1]));
		}
		as_arraylist* l = as_arraylist_new(v->u.c.n / 2, v->u.c.n / 4 + 1);
		for (uint32_t i = 0; i < v->u.c.n; i++) {
			int rc = as_arraylist_append(l, m_build(v->u.c.e[i]));
			VF_CHECK(rc == 0, "appending element %u while building a list returned %d", i, rc);
		}
		return (as_val*)l;
	}
	case M_MAP: {
		as_orderedmap* m = as_orderedmap_new(v->u.c.n);
		/* alternate from both ends so that insertion order differs from key order */
		uint32_t lo = 0, hi = v->u.c.n;
		while (lo < hi) {
			uint32_t i = ((lo + hi) & 1) ? lo++ : --hi;
			int rc = as_orderedmap_set(m, m_build(v->u.c.e[2 * i]), m_build(v->u.c.e[2 * i + 1]));
			VF_CHECK(rc == 0, "setting a map entry while building returned %d", rc);
		}
		as_map_set_flags((as_map*)m, v->u.c.flags);
		return (as_val*)m;
	}
	case M_WILD: return (as_val*)&as_cmp_wildcard;
	case M_INF: return (as_val*)&as_cmp_inf;
	default: vf_fail("harness: cannot build type %d", v->t);
	}
}

static const char* const tnames[] = { "nil", "boolean", "integer", "string", "list", "map", "bytes", "double", "geojson", "ext", "wildcard", "inf" };
static const as_val_t ttypes[] = { AS_NIL, AS_BOOLEAN, AS_INTEGER, AS_STRING, AS_LIST, AS_MAP, AS_BYTES, AS_DOUBLE, AS_GEOJSON, AS_UNKNOWN, AS_CMP_WILDCARD, AS_CMP_INF };

void m_expect(const as_val* v, const mval* m, const char* what)
{
	VF_CHECK(v != NULL, "%s: no value where %s was expected", what, tnames[m->t]);
	VF_CHECK(as_val_type(v) == ttypes[m->t], "%s: value type %d where %s was expected", what, (int)as_val_type(v), tnames[m->t]);
	switch (m->t) {
	case M_NIL: case M_WILD: case M_INF: case M_EXT: return;
	case M_BOOL: VF_CHECK(as_boolean_get(as_boolean_fromval(v)) == m->u.b, "%s: boolean differs", what); return;
	case M_INT: {
		int64_t g = as_integer_get(as_integer_fromval(v));
		VF_CHECK(g == m->u.i, "%s: integer %lld expected %lld", what, (long long)g, (long long)m->u.i);
		return;
	}
	case M_DBL: {
		double g = as_double_get(as_double_fromval(v));
		VF_CHECK(memcmp(&g, &m->u.d, 8) == 0, "%s: double %.17g expected %.17g", what, g, m->u.d);
		return;
	}
	case M_STR: {
		as_string* s = as_string_fromval(v);
		VF_CHECK(as_string_get(s) != NULL, "%s: string without text", what);
		size_t n = strlen(as_string_get(s));
		VF_CHECK(n == m->u.s.n, "%s: string of length %zu expected %u", what, n, m->u.s.n);
		VF_CHECK(as_string_len(s) == m->u.s.n, "%s: string reports length %zu expected %u", what, as_string_len(s), m->u.s.n);
		VF_CHECK(memcmp(as_string_get(s), m->u.s.p, m->u.s.n) == 0, "%s: string content differs", what);
		return;
	}
	case M_GEO: {
		as_geojson* s = as_geojson_fromval(v);
		VF_CHECK(as_geojson_get(s) != NULL, "%s: geojson without text", what);
		size_t n = strlen(as_geojson_get(s));
		VF_CHECK(n == m->u.s.n && as_geojson_len(s) == m->u.s.n, "%s: geojson of length %zu expected %u", what, n, m->u.s.n);
		VF_CHECK(memcmp(as_geojson_get(s), m->u.s.p, m->u.s.n) == 0, "%s: geojson content differs", what);
		return;
	}
	case M_BYTES: {
		as_bytes* b = as_bytes_fromval(v);
		VF_CHECK(as_bytes_size(b) == m->u.s.n, "%s: blob of size %u expected %u", what, as_bytes_size(b), m->u.s.n);
		VF_CHECK(as_bytes_get_type(b) == (as_bytes_type)m->u.s.tag, "%s: blob type %d expected %u", what, (int)as_bytes_get_type(b), m->u.s.tag);
		VF_CHECK(m->u.s.n == 0 || memcmp(as_bytes_get(b), m->u.s.p, m->u.s.n) == 0, "%s: blob content differs", what);
		return;
	}
	case M_LIST: {
		as_list* l = as_list_fromval((as_val*)v);
		VF_CHECK(as_list_size(l) == m->u.c.n, "%s: list of %u elements expected %u", what, as_list_size(l), m->u.c.n);
		VF_CHECK(l->flags == m->u.c.flags, "%s: list flags %x expected %x", what, (unsigned)l->flags, m->u.c.flags);
		for (uint32_t i = 0; i < m->u.c.n; i++) m_expect(as_list_get(l, i), m->u.c.e[i], what);
		return;
	}
	case M_MAP: {
		as_map* mp = as_map_fromval(v);
		VF_CHECK(as_map_size(mp) == m->u.c.n, "%s: map of %u entries expected %u", what, as_map_size(mp), m->u.c.n);
		VF_CHECK(mp->flags == m->u.c.flags, "%s: map flags %x expected %x", what, (unsigned)mp->flags, m->u.c.flags);
		as_map_iterator it;
		as_map_iterator_init(&it, mp);
		uint32_t i = 0;
		while (as_iterator_has_next((as_iterator*)&it)) {
			const as_val* e = as_iterator_next((as_iterator*)&it);
			VF_CHECK(i < m->u.c.n, "%s: map iterates more than %u entries", what, m->u.c.n);
			VF_CHECK(e != NULL, "%s: map iterator yields nothing", what);
			as_pair* p = as_pair_fromval((as_val*)e);
			VF_CHECK(p != NULL, "%s: map iterator yields a non-pair", what);
			m_expect(as_pair_1(p), m->u.c.e[2 * i], what);
			m_expect(as_pair_2(p), m->u.c.e[2 * i + 1], what);
			i++;
		}
		VF_CHECK(i == m->u.c.n, "%s: map iterates %u entries expected %u", what, i, m->u.c.n);
		as_iterator_destroy((as_iterator*)&it);
		return;
	}
	}
}

/* ---- ordering ---- */
static int sgn_mem(const uint8_t* a, uint32_t an, const uint8_t* b, uint32_t bn)
{
	uint32_t n = an < bn ? an : bn;
	int r = n ? memcmp(a, b, n) : 0;
	if (r) return r < 0 ? -1 : 1;
	return an < bn ? -1 : an > bn;
}
static int cmp_scalar(const mval* a, const mval* b)
{
	switch (a->t) {
	case M_BOOL: return a->u.b == b->u.b ? 0 : a->u.b ? 1 : -1;
	case M_INT: return a->u.i < b->u.i ? -1 : a->u.i > b->u.i;
	case M_DBL: return a->u.d < b->u.d ? -1 : a->u.d > b->u.d;
	case M_STR: case M_GEO: case M_BYTES: return sgn_mem(a->u.s.p, a->u.s.n, b->u.s.p, b->u.s.n);
	default: return 0;
	}
}
static bool wildpair(const mval* a, const mval* b) { return a->t == M_WILD || b->t == M_WILD; }

static int cmp_meta(const mval* a, const mval* b)
{
	if (a->u.c.flags != b->u.c.flags) return a->u.c.flags < b->u.c.flags ? -1 : 1;
	return sgn_mem(a->u.c.ext, a->u.c.ext_n, b->u.c.ext, b->u.c.ext_n);
}

int m_cmp_packed(const mval* a, const mval* b)
{
	if (wildpair(a, b)) return 0;
	if (a->t != b->t) return a->t < b->t ? -1 : 1;
	if (a->t == M_LIST) {
		uint32_t ma = a->u.c.flags ? 1 : 0, mb = b->u.c.flags ? 1 : 0;
		uint32_t ca = a->u.c.n + ma, cb = b->u.c.n + mb, n = ca < cb ? ca : cb;
		for (uint32_t i = 0; i < n; i++) {
			const mval* x = ma && i == 0 ? NULL : a->u.c.e[i - ma];
			const mval* y = mb && i == 0 ? NULL : b->u.c.e[i - mb];
			int r;
			if (!x && !y) r = cmp_meta(a, b);
			else if (!x || !y) {
				/* extension against an ordinary element */
				const mval* k = x ? x : y;
				if (k->t == M_WILD) return 0;
				r = k->t < M_EXT ? 1 : -1;
				if (x) r = -r;
			}
			else {
				if (wildpair(x, y)) return 0;
				r = m_cmp_packed(x, y);
			}
			if (r) return r;
		}
		return ca < cb ? -1 : ca > cb;
	}
	if (a->t == M_MAP) {
		uint32_t ma = a->u.c.flags ? 1 : 0, mb = b->u.c.flags ? 1 : 0;
		uint32_t ca = a->u.c.n + ma, cb = b->u.c.n + mb;
		if (ca != cb) return ca < cb ? -1 : 1;
		if (ma && mb) {
			int r = cmp_meta(a, b);
			if (r) return r;
		}
		else if (ma != mb) {
			/* metadata extension against the other map's first key */
			const mval* k = ma ? b->u.c.e[0] : a->u.c.e[0];
			if (k->t == M_WILD) return 0;
			int r = k->t < M_EXT ? 1 : -1; /* extension ranks above keys, below infinity */
			return ma ? r : -r;
		}
		for (uint32_t i = 0; i < 2 * a->u.c.n; i++) {
			if (wildpair(a->u.c.e[i], b->u.c.e[i])) return 0;
			int r = m_cmp_packed(a->u.c.e[i], b->u.c.e[i]);
			if (r) return r;
		}
		return 0;
	}
	return cmp_scalar(a, b);
}

int m_cmp_mem(const mval* a, const mval* b)
{
	if (a->t != b->t) return a->t < b->t ? -1 : 1;
	if (a->t == M_LIST) {
		uint32_t n = a->u.c.n < b->u.c.n ? a->u.c.n : b->u.c.n;
		for (uint32_t i = 0; i < n; i++) {
			if (wildpair(a->u.c.e[i], b->u.c.e[i])) return 0;
			int r = m_cmp_mem(a->u.c.e[i], b->u.c.e[i]);
			if (r) return r;
		}
		return a->u.c.n < b->u.c.n ? -1 : a->u.c.n > b->u.c.n;
	}
	if (a->t == M_MAP) {
		if (a->u.c.n != b->u.c.n) return a->u.c.n < b->u.c.n ? -1 : 1;
		for (uint32_t i = 0; i < a->u.c.n; i++) {
			int r = m_cmp_mem(a->u.c.e[2 * i], b->u.c.e[2 * i]);
			if (r) return r;
		}
		return 0;
	}
	return cmp_scalar(a, b);
}

/* ---- encoding ---- */
void mb_put(mbuf* b, const void* p, size_t n)
{
	if (b->n + n > b->cap) {
		size_t c = (b->n + n) * 2 + 64;
		uint8_t* q = vf_tmp(c);
		if (b->n) memcpy(q, b->p, b->n);
		b->p = q; b->cap = c;
	}
	if (n) memcpy(b->p + b->n, p, n);
	b->n += n;
}
void mb_u8(mbuf* b, uint8_t v) { mb_put(b, &v, 1); }
void mb_be(mbuf* b, uint64_t v, unsigned bytes)
{
	uint8_t t[8];
	for (unsigned i = 0; i < bytes; i++) t[i] = (uint8_t)(v >> (8 * (bytes - 1 - i)));
	mb_put(b, t, bytes);
}
void m_enc_uint(mbuf* b, uint64_t v)
{
	if (v < 128) mb_u8(b, (uint8_t)v);
	else if (v < 256) { mb_u8(b, 0xcc); mb_be(b, v, 1); }
	else if (v < 65536) { mb_u8(b, 0xcd); mb_be(b, v, 2); }
	else if (v < (1ull << 32)) { mb_u8(b, 0xce); mb_be(b, v, 4); }
	else { mb_u8(b, 0xcf); mb_be(b, v, 8); }
}
void m_enc_int(mbuf* b, int64_t v)
{
	if (v >= 0) m_enc_uint(b, (uint64_t)v);
	else if (v >= -32) mb_u8(b, (uint8_t)v);
	else if (v >= -128) { mb_u8(b, 0xd0); mb_be(b, (uint64_t)v, 1); }
	else if (v >= -32768) { mb_u8(b, 0xd1); mb_be(b, (uint64_t)v, 2); }
	else if (v >= -2147483648ll) { mb_u8(b, 0xd2); mb_be(b, (uint64_t)v, 4); }
	else { mb_u8(b, 0xd3); mb_be(b, (uint64_t)v, 8); }
}
void m_enc_str_header(mbuf* b, uint32_t n)
{
	if (n < 32) mb_u8(b, (uint8_t)(0xa0 | n));
	else if (n < 256) { mb_u8(b, 0xd9); mb_be(b, n, 1); }
	else if (n < 65536) { mb_u8(b, 0xda); mb_be(b, n, 2); }
	else { mb_u8(b, 0xdb); mb_be(b, n, 4); }
}
void m_enc_list_header(mbuf* b, uint32_t n)
{
	if (n < 16) mb_u8(b, (uint8_t)(0x90 | n));
	else if (n < 65536) { mb_u8(b, 0xdc); mb_be(b, n, 2); }
	else { mb_u8(b, 0xdd); mb_be(b, n, 4); }
}
void m_enc_map_header(mbuf* b, uint32_t n)
{
	if (n < 16) mb_u8(b, (uint8_t)(0x80 | n));
	else if (n < 65536) { mb_u8(b, 0xde); mb_be(b, n, 2); }
	else { mb_u8(b, 0xdf); mb_be(b, n, 4); }
}
void m_enc_ext(mbuf* b, uint8_t type, const void* p, uint32_t n)
{
	switch (n) {
	case 1: mb_u8(b, 0xd4); break;
	case 2: mb_u8(b, 0xd5); break;
	case 4: mb_u8(b, 0xd6); break;
	case 8: mb_u8(b, 0xd7); break;
	case 16: mb_u8(b, 0xd8); break;
	default:
		if (n < 256) { mb_u8(b, 0xc7); mb_be(b, n, 1); }
		else if (n < 65536) { mb_u8(b, 0xc8); mb_be(b, n, 2); }
		else { mb_u8(b, 0xc9); mb_be(b, n, 4); }
	}
	mb_u8(b, type);
	mb_put(b, p, n);
}
static void dbl(mbuf* b, double d) { uint64_t x; memcpy(&x, &d, 8); mb_u8(b, 0xcb); mb_be(b, x, 8); }
static uint8_t tag_of(const mval* v) { return v->t == M_STR ? 3 : v->t == M_GEO ? 23 : v->u.s.tag; }

void m_encode(mbuf* b, const mval* v)
{
	switch (v->t) {
	case M_NIL: mb_u8(b, 0xc0); return;
	case M_BOOL: mb_u8(b, v->u.b ? 0xc3 : 0xc2); return;
	case M_INT: m_enc_int(b, v->u.i); return;
	case M_DBL: dbl(b, v->u.d); return;
	case M_STR: case M_GEO: case M_BYTES:
		m_enc_str_header(b, v->u.s.n + 1); mb_u8(b, tag_of(v)); mb_put(b, v->u.s.p, v->u.s.n); return;
	case M_LIST:
		m_enc_list_header(b, v->u.c.n + (v->u.c.flags ? 1 : 0));
		if (v->u.c.flags) m_enc_ext(b, v->u.c.flags, v->u.c.ext, v->u.c.ext_n);
		for (uint32_t i = 0; i < v->u.c.n; i++) m_encode(b, v->u.c.e[i]);
		return;
	case M_MAP:
		m_enc_map_header(b, v->u.c.n + (v->u.c.flags ? 1 : 0));
		if (v->u.c.flags) {
			m_enc_ext(b, v->u.c.flags, v->u.c.ext, v->u.c.ext_n);
			mb_u8(b, 0xc0);
		}
		for (uint32_t i = 0; i < 2 * v->u.c.n; i++) m_encode(b, v->u.c.e[i]);
		return;
	case M_EXT: m_enc_ext(b, v->u.s.tag, v->u.s.p, v->u.s.n); return;
	case M_WILD: mb_put(b, "\xd4\xff\x00", 3); return;
	case M_INF: mb_put(b, "\xd4\xff\x01", 3); return;
	}
}

/* widths are chosen from a generator seeded by one choice per call, so that
 * large trees do not use up the choice sequence */
static void enc_meta(mbuf* b, const mval* v, bool w, uint64_t x)
{
	uint32_t k = v->u.c.ext_n;
	if (!w) { m_enc_ext(b, v->u.c.flags, v->u.c.ext, k); return; }
	if (k < 256 && (x & 2)) { mb_u8(b, 0xc7); mb_be(b, k, 1); }
	else if (k < 65536 && (x & 4)) { mb_u8(b, 0xc8); mb_be(b, k, 2); }
	else { mb_u8(b, 0xc9); mb_be(b, k, 4); }
	mb_u8(b, v->u.c.flags); mb_put(b, v->u.c.ext, k);
}
static void enc_any(mbuf* b, const mval* v, unsigned wide, vf_rng* r)
{
	bool w = vf_rng_next(r) % 8 < wide;
	uint64_t x = vf_rng_next(r);
	if (!w && v->t != M_LIST && v->t != M_MAP) { m_encode(b, v); return; }
	switch (v->t) {
	case M_INT: {
		int64_t i = v->u.i;
		uint8_t opt[10]; unsigned k = 0;
		if (i >= 0) {
			if (i < 256) opt[k++] = 0xcc;
			if (i < 65536) opt[k++] = 0xcd;
			if (i < (1ll << 32)) opt[k++] = 0xce;
			opt[k++] = 0xcf;
		}
		if (i >= -128 && i < 128) opt[k++] = 0xd0;
		if (i >= -32768 && i < 32768) opt[k++] = 0xd1;
		if (i >= -2147483648ll && i < 2147483648ll) opt[k++] = 0xd2;
		opt[k++] = 0xd3;
		if (i < 0) opt[k++] = 0xcf; /* unsigned past 2^63: the same 64 bits */
		uint8_t h = opt[x % k];
		mb_u8(b, h);
		mb_be(b, (uint64_t)i, 1u << ((h - 0xcc) & 3));
		return;
	}
	case M_DBL: {
		float f = (float)v->u.d; double d = f;
		if (memcmp(&d, &v->u.d, 8) == 0) { uint32_t u; memcpy(&u, &f, 4); mb_u8(b, 0xca); mb_be(b, u, 4); }
		else dbl(b, v->u.d);
		return;
	}
	case M_STR: case M_GEO: case M_BYTES: {
		uint32_t n = v->u.s.n + 1;
		uint8_t opt[8]; unsigned k = 0;
		if (n < 256) { opt[k++] = 0xd9; opt[k++] = 0xc4; }
		if (n < 65536) { opt[k++] = 0xda; opt[k++] = 0xc5; }
		opt[k++] = 0xdb; opt[k++] = 0xc6;
		uint8_t h = opt[x % k];
		mb_u8(b, h);
		mb_be(b, n, h == 0xd9 || h == 0xc4 ? 1 : h == 0xda || h == 0xc5 ? 2 : 4);
		mb_u8(b, tag_of(v)); mb_put(b, v->u.s.p, v->u.s.n);
		return;
	}
	case M_LIST: {
		uint32_t n = v->u.c.n + (v->u.c.flags ? 1 : 0);
		if (!w) m_enc_list_header(b, n);
		else if (n < 65536 && (x & 1)) { mb_u8(b, 0xdc); mb_be(b, n, 2); }
		else { mb_u8(b, 0xdd); mb_be(b, n, 4); }
		if (v->u.c.flags) enc_meta(b, v, w, x);
		for (uint32_t i = 0; i < v->u.c.n; i++) enc_any(b, v->u.c.e[i], wide, r);
		return;
	}
	case M_MAP: {
		uint32_t n = v->u.c.n + (v->u.c.flags ? 1 : 0);
		if (!w) m_enc_map_header(b, n);
		else if (n < 65536 && (x & 1)) { mb_u8(b, 0xde); mb_be(b, n, 2); }
		else { mb_u8(b, 0xdf); mb_be(b, n, 4); }
		if (v->u.c.flags) { enc_meta(b, v, w, x); mb_u8(b, 0xc0); }
		for (uint32_t i = 0; i < 2 * v->u.c.n; i++) enc_any(b, v->u.c.e[i], wide, r);
		return;
	}
	default: m_encode(b, v); return;
	}
}
void m_encode_any(mbuf* b, const mval* v, unsigned wide)
{
	vf_rng r = { vf_draw(0) };
	enc_any(b, v, wide, &r);
}
