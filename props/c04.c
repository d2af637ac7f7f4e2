/* C04: every valid encoding decodes and skips as the value it denotes. */
#include <aerospike/as_msgpack.h>
#include <aerospike/as_val.h>
#include <aerospike/as_arraylist.h>
#include <string.h>
#include "model.h"
#include "verydeep.h"

const char* const vf_rule = "encoding denotes a non-empty container or a string/blob of at least 31 bytes, or uses a non-minimal form; distinct by choice sequence";

static const as_val_t ttypes[] = { AS_NIL, AS_BOOLEAN, AS_INTEGER, AS_STRING, AS_LIST, AS_MAP, AS_BYTES, AS_DOUBLE, AS_GEOJSON };

static void shuffle(mval* v, vf_rng* r)
{
	if (v->t == M_LIST) for (uint32_t i = 0; i < v->u.c.n; i++) shuffle(v->u.c.e[i], r);
	if (v->t != M_MAP) return;
	uint32_t n = v->u.c.n;
	for (uint32_t i = 0; i < 2 * n; i++) shuffle(v->u.c.e[i], r);
	for (uint32_t i = n; i > 1; i--) {
		uint32_t j = (uint32_t)(vf_rng_next(r) % i);
		for (int k = 0; k < 2; k++) { mval* t = v->u.c.e[2 * (i - 1) + k]; v->u.c.e[2 * (i - 1) + k] = v->u.c.e[2 * j + k]; v->u.c.e[2 * j + k] = t; }
	}
}

/* some maps become order-preserving ones, whose keys may be anything */
static bool preserve(mval* v, vf_rng* r, unsigned share)
{
	if (v->t != M_LIST && v->t != M_MAP) return false;
	bool any = false;
	uint32_t n = v->u.c.n * (v->t == M_MAP ? 2 : 1);
	for (uint32_t i = 0; i < n; i++) any |= preserve(v->u.c.e[i], r, share);
	uint64_t x = vf_rng_next(r);
	if (v->t == M_LIST || x % 8 >= share) return any;
	v->u.c.flags = (uint8_t)(0x08 | (x & 64 ? 0 : (x >> 8) & 0x33));
	if (n && (x & 128)) { /* a key of another kind, or the key of another entry */
		uint32_t i = (uint32_t)((x >> 20) % v->u.c.n), j = (uint32_t)((x >> 40) % n);
		v->u.c.e[2 * i] = m_copy(v->u.c.e[j]);
	}
	return true;
}
/* the value an encoding of e denotes */
static mval* denoted(const mval* e)
{
	if (e->t != M_LIST && e->t != M_MAP) return (mval*)e;
	uint32_t n = e->u.c.n * (e->t == M_MAP ? 2 : 1);
	bool flat = e->t == M_MAP && (e->u.c.flags & 0x08);
	mval* r = e->t == M_LIST || flat ? m_list(n) : m_map(e->u.c.n);
	for (uint32_t i = 0; i < n; i++) r->u.c.e[i] = denoted(e->u.c.e[i]);
	if (flat) return r;
	r->u.c.flags = e->u.c.flags;
	if (e->t == M_MAP) m_sort_map(r);
	return r;
}

/* visit the encoding with the typed readers */
static void walk(as_unpacker* pk, const mval* e)
{
	as_unpacker q = *pk;
	as_val_t t = as_unpack_peek_type(pk);
	VF_CHECK(t == ttypes[e->t], "type probe says %d, encoded value has type %d", (int)t, (int)ttypes[e->t]);
	VF_CHECK(as_unpack_buf_peek_type(pk->buffer + pk->offset, pk->length - pk->offset) == t, "buffer type probe disagrees");
	VF_CHECK(!as_unpack_peek_is_ext(pk), "a value is reported as an extension");
	VF_CHECK(pk->offset == q.offset, "type probe moved the reader");
	switch (e->t) {
	case M_NIL: VF_CHECK(as_unpack_nil(pk) == 0, "nil reader failed"); break;
	case M_BOOL: { bool b = !e->u.b; VF_CHECK(as_unpack_boolean(pk, &b) == 0 && b == e->u.b, "boolean reader failed"); break; }
	case M_INT: {
		int64_t i = 0; uint64_t u = 0;
		VF_CHECK(as_unpack_int64(pk, &i) == 0 && i == e->u.i, "integer reader gave %lld for %lld", (long long)i, (long long)e->u.i);
		VF_CHECK(as_unpack_uint64(&q, &u) == 0 && u == (uint64_t)e->u.i && q.offset == pk->offset, "unsigned reader gave %llu for %lld", (unsigned long long)u, (long long)e->u.i);
		break;
	}
	case M_DBL: {
		double d = 0;
		VF_CHECK(as_unpack_double(pk, &d) == 0 && memcmp(&d, &e->u.d, 8) == 0, "double reader gave %.17g for %.17g", d, e->u.d);
		break;
	}
	case M_STR: case M_GEO: case M_BYTES: {
		uint32_t n = 0, n2 = 0;
		const uint8_t* p = as_unpack_str(pk, &n);
		VF_CHECK(p != NULL && n == e->u.s.n + 1, "string reader gave %u bytes for %u", n, e->u.s.n + 1);
		VF_CHECK(p[0] == (e->t == M_STR ? 3 : e->t == M_GEO ? 23 : e->u.s.tag) && memcmp(p + 1, e->u.s.p, e->u.s.n) == 0, "string reader content differs");
		as_unpacker q2 = q;
		const uint8_t* p2 = as_unpack_bin(&q, &n2);
		VF_CHECK(p2 == p && n2 == n && q.offset == pk->offset, "bin reader disagrees with string reader");
		int64_t k = as_unpack_blob_size(&q2);
		VF_CHECK(k == (int64_t)n && q2.buffer + q2.offset == p, "blob size reader gave %lld for %u", (long long)k, n);
		break;
	}
	case M_LIST: case M_MAP: {
		int64_t want = (int64_t)e->u.c.n + (e->u.c.flags ? 1 : 0);
		int64_t n = e->t == M_LIST ? as_unpack_list_header_element_count(pk) : as_unpack_map_header_element_count(pk);
		int64_t n2 = e->t == M_LIST ? as_unpack_buf_list_element_count(q.buffer + q.offset, q.length - q.offset) : as_unpack_buf_map_element_count(q.buffer + q.offset, q.length - q.offset);
		VF_CHECK(n == want && n2 == want, "element count readers gave %lld and %lld for %lld", (long long)n, (long long)n2, (long long)want);
		if (e->u.c.flags) {
			as_msgpack_ext x;
			VF_CHECK(as_unpack_peek_is_ext(pk), "metadata not reported as an extension");
			as_unpacker s = *pk;
			uint32_t at = pk->offset;
			VF_CHECK(as_unpack_ext(pk, &x) == 0, "extension reader failed");
			VF_CHECK(x.type == e->u.c.flags && x.size == e->u.c.ext_n && pk->buffer[x.type_offset] == x.type, "extension reader gave type %u size %u for %u, %u", x.type, x.size, e->u.c.flags, e->u.c.ext_n);
			VF_CHECK(x.size == 0 || memcmp(x.data, e->u.c.ext, x.size) == 0, "extension content differs");
			int64_t sz = as_unpack_size(&s);
			VF_CHECK(sz == (int64_t)(pk->offset - at) && s.offset == pk->offset, "skipping an extension advanced %lld", (long long)sz);
			if (e->t == M_MAP) VF_CHECK(as_unpack_nil(pk) == 0, "metadata value is not nil");
		}
		uint32_t k = e->u.c.n * (e->t == M_MAP ? 2 : 1);
		for (uint32_t i = 0; i < k; i++) walk(pk, e->u.c.e[i]);
		break;
	}
	default: vf_fail("harness: type");
	}
}

static void decode(mval* m, unsigned wide, bool do_shuffle)
{
	mval* e = m_copy(m);
	if (do_shuffle) { vf_rng r = { vf_draw(0) }; shuffle(e, &r); }
	if (do_shuffle && vf_chance(1, 6)) {
		vf_rng r = { vf_draw(0) };
		if (preserve(e, &r, 1 + (unsigned)vf_draw(8))) vf_label("order-preserving map");
	}
	mbuf b = { 0 };
	unsigned off = (unsigned)vf_draw(6), tail = (unsigned)vf_draw(6);
	for (unsigned i = 0; i < off; i++) mb_u8(&b, (uint8_t)(0xc1 - i));
	m_encode_any(&b, e, wide);
	uint32_t len = (uint32_t)b.n - off;
	uint8_t junk[8];
	vf_fill(junk, tail);
	mb_put(&b, junk, tail);
	uint8_t* buf = vf_guarded(b.n);
	memcpy(buf, b.p, b.n);
	if (vf_describing()) { vf_note("offset %u wide %u/8 value %s", off, wide, m_show(e)); vf_note_hex("encoding", buf + off, len > 64 ? 64 : len); }
	m_classify(m);
	if (wide) vf_nontrivial();
	uint64_t base = vfa_live();

	as_unpacker pk = { .buffer = buf, .offset = off, .length = (uint32_t)b.n };
	as_val* v = NULL;
	int rc = as_unpack_val(&pk, &v);
	VF_CHECK(rc == 0, "decoding returned %d", rc);
	VF_CHECK(pk.offset == off + len, "decoding consumed %u bytes of %u", pk.offset - off, len);
	m_expect(v, denoted(e), "decoded value");
	as_val_destroy(v);
	vfa_expect(base, "after decoding");

	as_unpacker s = { .buffer = buf, .offset = off, .length = (uint32_t)b.n };
	int64_t sz = as_unpack_size(&s);
	VF_CHECK(sz == (int64_t)len && s.offset == off + len, "skip returned %lld and moved %u for %u bytes", (long long)sz, s.offset - off, len);
	vfa_expect(base, "after skipping");

	as_unpacker w = { .buffer = buf, .offset = off, .length = (uint32_t)b.n };
	walk(&w, e);
	VF_CHECK(w.offset == off + len, "typed readers consumed %u bytes of %u", w.offset - off, len);
}

static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 60), .depth = 5, .ext_meta = true, .nan = true };
	unsigned wide = (unsigned)vf_draw(9);
	decode(m_gen(&c), wide, true);
}
static void large(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 30), .depth = 3, .big = true, .ext_meta = true, .nan = true };
	unsigned wide = (unsigned)vf_draw(9);
	decode(m_gen(&c), wide, false);
}
static void deep(void)
{
	static const unsigned edge[] = { 250, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 770, 1024 };
	mcfg c = { .budget = 10, .depth = 1, .ext_meta = true, .nan = true };
	unsigned wide = (unsigned)vf_draw(9);
	unsigned d = vf_chance(1, 6) ? (unsigned)vf_range(3, 3000) : edge[vf_draw(14)];
	decode(m_gen_deep(&c, d), wide, false);
}

static void giant(void)
{
	mcfg c = { .ext_meta = true, .nan = true };
	unsigned wide = (unsigned)vf_draw(9);
	vf_label("giant");
	decode(m_gen_giant(&c), wide, false);
}

/* skipping does not depend on how deep a value is */
static as_unpacker vu; static int64_t vgot;
static void vd_skip(void) { vgot = as_unpack_size(&vu); }
static void verydeep(void)
{
	vdeep d;
	vd_gen(&d, 400000);
	mbuf a = { 0 };
	vd_encode(&a, &d, false, (unsigned)vf_draw(3));
	size_t n = a.n;
	mb_put(&a, "\x92\x01\xc0", 3);
	uint8_t* p = vf_guarded(a.n);
	memcpy(p, a.p, a.n);
	vf_note("%u levels, %u of 8 maps, %zu bytes", d.levels, d.maps, n);
	vf_nontrivial();
	uint64_t base = vfa_live();
	vu = (as_unpacker){ .buffer = p, .offset = 0, .length = (uint32_t)a.n };
	vd_on_usual_stack(vd_skip);
	VF_CHECK(vgot == (int64_t)n, "a value of %zu bytes measures %lld", n, (long long)vgot);
	VF_CHECK(vu.offset == n, "skipping %zu bytes moved %u", n, vu.offset);
	vfa_expect(base, "after skipping");
}

const vf_target vf_targets[] = {
	{ "trees", trees, 600000, 6000000, VF_FUZZ },
	{ "large", large, 1200, 12000, 0 },
	{ "deep", deep, 8000, 80000, 0 },
	{ "giant", giant, 64, 640, 0 },
	{ "verydeep", verydeep, 1000, 10000, 0 },
	{ 0 }
};
