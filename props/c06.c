/* C06: ordering of encoded values. */
#include <aerospike/as_msgpack.h>
#include <string.h>
#include "model.h"
#include "verydeep.h"

const char* const vf_rule = "both values are non-empty containers or equal-typed scalars; distinct by choice sequence";

static int sgn(msgpack_compare_t c) { return c == MSGPACK_COMPARE_LESS ? -1 : c == MSGPACK_COMPARE_GREATER ? 1 : c == MSGPACK_COMPARE_EQUAL ? 0 : 99; }
static const char* word(int s) { return s < 0 ? "less" : s == 0 ? "equal" : s == 1 ? "greater" : "error"; }

typedef struct { uint8_t* p; uint32_t off, len, total; } enc;

static enc encode(const mval* m, unsigned wide)
{
	enc e;
	mbuf b = { 0 };
	e.off = (uint32_t)vf_draw(4);
	for (unsigned i = 0; i < e.off; i++) mb_u8(&b, 0xc1);
	m_encode_any(&b, m, wide);
	e.len = (uint32_t)b.n - e.off;
	/* what follows is more data, so that a reader that goes too far can go on */
	unsigned tail = (unsigned)vf_draw(4);
	for (unsigned i = 0; i < tail; i++) mb_put(&b, "\x92\x01\xc0", 3);
	e.total = (uint32_t)b.n;
	e.p = vf_guarded(b.n);
	memcpy(e.p, b.p, b.n);
	return e;
}

static void one(const enc* x, const enc* y, int want, const char* what)
{
	as_unpacker a = { .buffer = x->p, .offset = x->off, .length = x->total };
	as_unpacker b = { .buffer = y->p, .offset = y->off, .length = y->total };
	uint64_t base = vfa_live();
	int got = sgn(as_unpack_compare(&a, &b));
	VF_CHECK(got == want, "%s: comparison says %s, ordering says %s", what, word(got), word(want));
	VF_CHECK(a.offset == x->off + x->len, "%s (%s): first reader moved %u of %u bytes", what, word(got), a.offset - x->off, x->len);
	VF_CHECK(b.offset == y->off + y->len, "%s (%s): second reader moved %u of %u bytes", what, word(got), b.offset - y->off, y->len);
	vfa_expect(base, what);
	got = sgn(as_unpack_buf_compare(x->p + x->off, x->total - x->off, y->p + y->off, y->total - y->off));
	VF_CHECK(got == want, "%s: buffer comparison says %s, ordering says %s", what, word(got), word(want));
	bool less = as_unpack_buf_is_less(x->p + x->off, x->total - x->off, y->p + y->off, y->total - y->off);
	VF_CHECK(less == (want < 0), "%s: is-less says %d", what, less);
}

static void compare(const mval* a, const mval* b)
{
	unsigned wa = (unsigned)vf_draw(9), wb = (unsigned)vf_draw(9);
	int want = m_cmp_packed(a, b);
	enc ea = encode(a, wa), eb = encode(b, wb);
	if (vf_describing()) {
		vf_note("first %s", m_show(a));
		vf_note("second %s", m_show(b));
		vf_note("expected %s", word(want));
	}
	vf_label(want < 0 ? "less" : want > 0 ? "greater" : "equal");
	if (a->t == b->t && ((a->t != M_LIST && a->t != M_MAP) || (a->u.c.n && b->u.c.n))) vf_nontrivial();
	one(&ea, &eb, want, "first against second");
	one(&eb, &ea, -want, "second against first");
	one(&ea, &ea, 0, "first against itself");
}

static mval* related(const mval* a, mcfg* c)
{
	static const unsigned w[] = { 2, 6, 3, 1 };
	mval* b = m_copy(a);
	switch (vf_pick(4, w)) {
	case 0: return b;
	case 1: return m_mutate(b, c);
	case 2: b = m_mutate(b, c); return m_mutate(b, c);
	default: return m_gen(c);
	}
}

static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 30), .depth = 4, .any_keys = true, .ext_meta = true, .wild = vf_chance(1, 4) };
	mval* a = m_gen(&c);
	c.budget = 20;
	compare(a, related(a, &c));
}

static void scalars(void)
{
	mcfg c = { .wild = true };
	mval* a = m_gen_scalar(&c);
	mval* b = vf_chance(1, 3) ? m_gen_scalar(&c) : m_mutate(a, &c);
	compare(a, b);
}

static void large(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 20), .depth = 2, .any_keys = true, .ext_meta = true, .big = true };
	mval* a = m_gen(&c);
	c.budget = 5;
	vf_label("large");
	compare(a, related(a, &c));
}

static void giant(void)
{
	mcfg c = { .ext_meta = true };
	mval* a = m_gen_giant(&c);
	vf_label("giant");
	compare(a, vf_chance(1, 5) ? m_copy(a) : m_mutate(a, &c));
}

/* change one node at a drawn level of a deep value */
static mval* change_at(const mval* v, unsigned level, mcfg* c)
{
	mval* r = m_copy(v);
	mval** at = &r;
	for (unsigned i = 0; i < level; i++) {
		mval* x = *at;
		if (x->t != M_LIST && x->t != M_MAP) break;
		uint32_t n = x->u.c.n * (x->t == M_MAP ? 2 : 1);
		mval** next = NULL;
		for (uint32_t k = 0; k < n; k++) if (x->u.c.e[k]->t == M_LIST || x->u.c.e[k]->t == M_MAP) { next = &x->u.c.e[k]; break; }
		if (!next) break;
		at = next;
	}
	*at = m_mutate(*at, c);
	return r;
}

static void deep(void)
{
	static const unsigned edge[] = { 250, 254, 255, 256, 257, 258, 259, 300, 510, 511, 512, 513, 514, 770, 1024 };
	mcfg c = { .budget = 10, .depth = 1, .any_keys = true, .ext_meta = true, .wild = vf_chance(1, 3) };
	unsigned d = vf_chance(1, 6) ? (unsigned)vf_range(3, 1500) : edge[vf_draw(15)];
	mval* a = m_gen_deep(&c, d);
	c.budget = 5;
	unsigned level = vf_bool() ? d - (unsigned)vf_draw(d < 8 ? d + 1 : 8) : (unsigned)vf_draw(d + 1);
	mval* b = vf_chance(1, 6) ? m_copy(a) : change_at(a, level, &c);
	if (d > 256) vf_label("depth > 256");
	if (level > 256) vf_label("differs below 256");
	compare(a, b);
}

static enc* vx; static enc* vy; static int vgot; static uint32_t vao, vbo;
static void vd_compare(void)
{
	as_unpacker a = { .buffer = vx->p, .offset = 0, .length = vx->total };
	as_unpacker b = { .buffer = vy->p, .offset = 0, .length = vy->total };
	vgot = sgn(as_unpack_compare(&a, &b));
	vao = a.offset; vbo = b.offset;
}
static void vd_one(enc* x, enc* y, int want, const char* what)
{
	uint64_t base = vfa_live();
	vx = x; vy = y;
	vd_on_usual_stack(vd_compare);
	VF_CHECK(vgot == want, "%s: comparison says %s, ordering says %s", what, word(vgot), word(want));
	VF_CHECK(vao == x->len, "%s (%s): first reader moved %u of %u bytes", what, word(vgot), vao, x->len);
	VF_CHECK(vbo == y->len, "%s (%s): second reader moved %u of %u bytes", what, word(vgot), vbo, y->len);
	vfa_expect(base, what);
}
static void verydeep(void)
{
	vdeep d;
	vd_gen(&d, 400000);
	mbuf a = { 0 }, b = { 0 };
	vd_encode(&a, &d, false, (unsigned)vf_draw(3));
	bool made = vd_encode(&b, &d, true, (unsigned)vf_draw(3));
	int want = d.change && made ? -d.by : 0;
	enc ea = { vf_guarded(a.n), 0, (uint32_t)a.n, (uint32_t)a.n }, eb = { vf_guarded(b.n), 0, (uint32_t)b.n, (uint32_t)b.n };
	memcpy(ea.p, a.p, a.n); memcpy(eb.p, b.p, b.n);
	vf_note("%u levels, %u of 8 maps, change %d at %u: expected %s", d.levels, d.maps, d.change, d.at, word(want));
	vf_label(d.levels > 10000 ? "more than 10000 levels" : "up to 10000 levels");
	vf_nontrivial();
	vd_one(&ea, &eb, want, "first against second");
	vd_one(&eb, &ea, -want, "second against first");
}

const vf_target vf_targets[] = {
	{ "trees", trees, 1000000, 9000000, VF_FUZZ },
	{ "scalars", scalars, 1500000, 10000000, VF_FUZZ },
	{ "deep", deep, 30000, 300000, VF_FUZZ },
	{ "large", large, 2400, 24000, 0 },
	{ "giant", giant, 64, 640, 0 },
	{ "verydeep", verydeep, 600, 6000, 0 },
	{ 0 }
};
