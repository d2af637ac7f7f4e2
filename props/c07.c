#define _GNU_SOURCE
/* C07: in-memory comparison is a consistent total order. */
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_serializer.h>
#include <string.h>
#include "model.h"
#include "vf_big.h"

const char* const vf_rule = "two of the three values have the same type, and it is not nil; distinct by choice sequence";

static int sgn(msgpack_compare_t c) { return c == MSGPACK_COMPARE_LESS ? -1 : c == MSGPACK_COMPARE_GREATER ? 1 : c == MSGPACK_COMPARE_EQUAL ? 0 : 99; }

static as_val* reload(const as_val* v, as_buffer* b)
{
	as_serializer s;
	as_msgpack_init(&s);
	as_buffer_init(b);
	VF_CHECK(as_serializer_serialize(&s, (as_val*)v, b) == 0, "serialize failed");
	as_val* w = NULL;
	VF_CHECK(as_serializer_deserialize(&s, b, &w) == 0 && w, "deserialize failed");
	as_serializer_destroy(&s);
	return w;
}

static void triple(mval* const m[3])
{
	for (int i = 0; i < 3; i++) if (vf_describing()) vf_note("value %d %s", i, m_show(m[i]));
	uint64_t base = vfa_live();
	as_val* v[3]; as_val* r[3]; as_buffer b[3];
	for (int i = 0; i < 3; i++) { v[i] = m_build(m[i]); r[i] = reload(v[i], &b[i]); }
	int c[3][3];
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		c[i][j] = sgn(as_val_cmp(v[i], v[j]));
		int want = m_cmp_mem(m[i], m[j]);
		VF_CHECK(c[i][j] == want, "comparing value %d with value %d gives %d, ordering says %d", i, j, c[i][j], want);
		if (i != j && m[i]->t == m[j]->t && m[i]->t != M_NIL) vf_nontrivial();
		int k = sgn(as_val_cmp(v[i], r[j]));
		VF_CHECK(k == c[i][j], "comparing value %d with the deserialized copy of value %d gives %d, with the original %d", i, j, k, c[i][j]);
		k = sgn(as_val_cmp(r[i], v[j]));
		VF_CHECK(k == c[i][j], "comparing the deserialized copy of value %d with value %d gives %d, the original %d", i, j, k, c[i][j]);
		if (!m_has(m[i], 1u << M_MAP) && !m_has(m[j], 1u << M_MAP)) {
			k = sgn(as_unpack_buf_compare(b[i].data, b[i].size, b[j].data, b[j].size));
			VF_CHECK(k == c[i][j], "comparing the encodings of value %d and %d gives %d, in memory %d", i, j, k, c[i][j]);
		}
	}
	for (int i = 0; i < 3; i++) {
		VF_CHECK(c[i][i] == 0, "value %d is not equal to itself", i);
		for (int j = 0; j < 3; j++) {
			VF_CHECK(c[i][j] == -c[j][i], "comparison of %d and %d is not antisymmetric", i, j);
			for (int k = 0; k < 3; k++)
				if (c[i][j] <= 0 && c[j][k] <= 0) VF_CHECK(c[i][k] <= 0, "comparison of %d, %d, %d is not transitive", i, j, k);
		}
	}
	vf_label(c[0][1] == 0 ? "first two equal" : "first two differ");
	for (int i = 0; i < 3; i++) { as_val_destroy(v[i]); as_val_destroy(r[i]); as_buffer_destroy(&b[i]); }
	vfa_expect(base, "after comparing");
}

static mval* related(const mval* a, mcfg* c)
{
	static const unsigned w[] = { 1, 6, 2 };
	switch (vf_pick(3, w)) {
	case 0: return m_copy(a);
	case 1: return m_mutate(a, c);
	default: return m_gen(c);
	}
}
static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 25), .depth = 4, .no_maps = vf_bool() };
	mval* m[3];
	m[0] = m_gen(&c);
	c.budget = 10;
	m[1] = related(m[0], &c);
	c.budget = 10;
	m[2] = related(vf_bool() ? m[0] : m[1], &c);
	triple(m);
}
static void scalars(void)
{
	mcfg c = { 0 };
	mval* m[3];
	m[0] = m_gen_scalar(&c);
	for (int i = 1; i < 3; i++) m[i] = vf_chance(1, 3) ? m_gen_scalar(&c) : m_mutate(m[i - 1], &c);
	triple(m);
}
static void deep(void)
{
	mcfg c = { .budget = 6, .depth = 1 };
	unsigned d = (unsigned)vf_range(200, 600);
	mval* m[3];
	m[0] = m_gen_deep(&c, d);
	c.budget = 6;
	m[1] = m_mutate(m[0], &c);
	m[2] = m_mutate(m[1], &c);
	triple(m);
}

static void large(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 20), .depth = 2, .big = true, .no_maps = vf_bool() };
	mval* m[3];
	m[0] = m_gen(&c);
	c.budget = 5;
	m[1] = related(m[0], &c);
	c.budget = 5;
	m[2] = related(vf_bool() ? m[0] : m[1], &c);
	vf_label("large");
	triple(m);
}
static void giant(void)
{
	mcfg c = { 0 };
	mval* m[3];
	m[0] = m_gen_giant(&c);
	m[1] = vf_chance(1, 5) ? m_copy(m[0]) : m_mutate(m[0], &c);
	m[2] = m_mutate(m[vf_draw(2)], &c);
	vf_label("giant");
	triple(m);
}

/* texts that differ first, or end, past 4 GiB */
static void wide(void)
{
	size_t n = ((size_t)4 << 30) + 1 + (size_t)vf_draw(100000);
	uint64_t seed = vf_draw(0);
	vf_big a = vf_big_make(n, seed, true), b = vf_big_make(n, seed, true);
	size_t at = vf_bool() ? n - 1 : n - 1 - (size_t)vf_draw(n - ((size_t)4 << 30));
	unsigned how = (unsigned)vf_draw(3);
	int want = 0;
	if (how == 1) { a.p[at] = 'a'; b.p[at] = vf_bool() ? 'b' : 0xf0; want = -1; }
	if (how == 2) { a.p[at] = 0; want = -1; }
	bool geo = vf_bool(), swap = vf_bool();
	vf_note("%s texts of %zu characters, %s at %zu, %s", geo ? "GeoJSON" : "string", n, how == 0 ? "equal" : how == 1 ? "different" : "one ending", at, swap ? "swapped" : "in order");
	as_string s, u; as_geojson g, h;
	as_val *x, *y;
	if (geo) { x = (as_val*)as_geojson_init(&g, (char*)a.p, false); y = (as_val*)as_geojson_init(&h, (char*)b.p, false); }
	else { x = (as_val*)as_string_init(&s, (char*)a.p, false); y = (as_val*)as_string_init(&u, (char*)b.p, false); }
	int got = swap ? -sgn(as_val_cmp(y, x)) : sgn(as_val_cmp(x, y));
	VF_CHECK(got == want, "texts %s at %zu compare %d, expected %d", how == 1 ? "different" : "ending", at, got, want);
	vf_big_free(&a); vf_big_free(&b);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "trees", trees, 700000, 7000000, VF_FUZZ },
	{ "scalars", scalars, 1500000, 10000000, VF_FUZZ },
	{ "deep", deep, 9000, 80000, 0 },
	{ "large", large, 1600, 16000, 0 },
	{ "giant", giant, 32, 320, 0 },
	{ "wide", wide, 6, 60, VF_LONG },
	{ 0 }
};
