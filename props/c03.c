/* C03: encoder output is shortest form; fixed buffers are respected. */
#include <aerospike/as_msgpack.h>
#include <citrusleaf/alloc.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "direct writer with a multi-byte encoding or a capacity within 2 bytes of the needed length, or a whole value that is a non-empty container; distinct by choice sequence";

enum { NIL, BOOLEAN, INF, WILD, U64, I64, FLT, DBL, BLOB, STR, STR_H, BIN, BIN_H, LISTH, MAPH, EXTH, BUFEXTH, APPEND, NKIND };
static const char* const names[] = { "nil", "bool", "inf", "wildcard", "uint64", "int64", "float", "double", "bytes", "str", "str header", "bin", "bin header", "list header", "map header", "ext header", "ext header into buffer", "append" };

typedef struct { int kind; uint64_t u; int64_t i; double d; float f; uint8_t* p; uint32_t n; uint8_t type; bool b; } op;

static uint32_t pick_len(void)
{
	static const uint32_t e[] = { 0, 1, 2, 30, 31, 32, 33, 254, 255, 256, 257, 65534, 65535, 65536 };
	static const unsigned w[] = { 6, 5 };
	if (vf_pick(2, w) == 0) return (uint32_t)vf_draw(24);
	return e[vf_draw(14)];
}
static uint32_t pick_count(void)
{
	static const uint32_t e[] = { 14, 15, 16, 17, 255, 256, 65534, 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xffffffffu };
	return vf_bool() ? (uint32_t)vf_draw(24) : e[vf_draw(13)];
}
static void gen(op* o)
{
	memset(o, 0, sizeof(*o));
	o->kind = (int)vf_draw(NKIND);
	switch (o->kind) {
	case BOOLEAN: o->b = vf_bool(); break;
	case U64: o->u = vf_uint64(); break;
	case I64: o->i = vf_int64(); break;
	case FLT: o->f = vf_bool() ? (float)vf_double() : vf_float_bits(); break;
	case DBL: o->d = vf_double_any(); break;
	case BLOB: case STR: case BIN: case APPEND:
		o->n = pick_len(); o->p = vf_guarded(o->n); vf_fill(o->p, o->n); break;
	case STR_H: case BIN_H: o->n = pick_count(); break;
	case LISTH: case MAPH: o->n = pick_count(); break;
	case EXTH: case BUFEXTH: o->n = vf_bool() ? (uint32_t)vf_draw(20) : pick_count(); o->type = (uint8_t)vf_draw(256); break;
	}
}
static void expected(const op* o, mbuf* b)
{
	switch (o->kind) {
	case NIL: mb_u8(b, 0xc0); break;
	case BOOLEAN: mb_u8(b, o->b ? 0xc3 : 0xc2); break;
	case INF: mb_put(b, "\xd4\xff\x01", 3); break;
	case WILD: mb_put(b, "\xd4\xff\x00", 3); break;
	case U64: m_enc_uint(b, o->u); break;
	case I64: m_enc_int(b, o->i); break;
	case FLT: { uint32_t x; memcpy(&x, &o->f, 4); mb_u8(b, 0xca); mb_be(b, x, 4); break; }
	case DBL: { uint64_t x; memcpy(&x, &o->d, 8); mb_u8(b, 0xcb); mb_be(b, x, 8); break; }
	case BLOB: m_enc_str_header(b, o->n + 1); mb_u8(b, 4); mb_put(b, o->p, o->n); break;
	case STR: m_enc_str_header(b, o->n); mb_put(b, o->p, o->n); break;
	case STR_H: m_enc_str_header(b, o->n); break;
	case BIN: case BIN_H:
		if (o->n < 256) { mb_u8(b, 0xc4); mb_be(b, o->n, 1); }
		else if (o->n < 65536) { mb_u8(b, 0xc5); mb_be(b, o->n, 2); }
		else { mb_u8(b, 0xc6); mb_be(b, o->n, 4); }
		if (o->kind == BIN) mb_put(b, o->p, o->n);
		break;
	case LISTH: m_enc_list_header(b, o->n); break;
	case MAPH: m_enc_map_header(b, o->n); break;
	case EXTH: case BUFEXTH:
		switch (o->n) {
		case 1: mb_u8(b, 0xd4); break;
		case 2: mb_u8(b, 0xd5); break;
		case 4: mb_u8(b, 0xd6); break;
		case 8: mb_u8(b, 0xd7); break;
		case 16: mb_u8(b, 0xd8); break;
		default:
			if (o->n < 256) { mb_u8(b, 0xc7); mb_be(b, o->n, 1); }
			else if (o->n < 65536) { mb_u8(b, 0xc8); mb_be(b, o->n, 2); }
			else { mb_u8(b, 0xc9); mb_be(b, o->n, 4); }
		}
		mb_u8(b, o->type);
		break;
	case APPEND: mb_put(b, o->p, o->n); break;
	}
}
static int64_t size_fn(const op* o)
{
	switch (o->kind) {
	case NIL: return as_pack_nil_size();
	case BOOLEAN: return as_pack_bool_size();
	case INF: return as_pack_cmp_inf_size();
	case WILD: return as_pack_cmp_wildcard_size();
	case U64: return as_pack_uint64_size(o->u);
	case I64: return as_pack_int64_size(o->i);
	case FLT: return as_pack_float_size();
	case DBL: return as_pack_double_size();
	case BLOB: return as_pack_str_size(o->n + 1);
	case STR: return as_pack_str_size(o->n);
	case BIN: return as_pack_bin_size(o->n);
	case LISTH: return as_pack_list_header_get_size(o->n);
	case MAPH: return as_pack_map_header_get_size(o->n);
	case EXTH: case BUFEXTH: return as_pack_ext_header_get_size(o->n);
	default: return -1;
	}
}
static int call(const op* o, as_packer* pk)
{
	switch (o->kind) {
	case NIL: return as_pack_nil(pk);
	case BOOLEAN: return as_pack_bool(pk, o->b);
	case INF: return as_pack_cmp_inf(pk);
	case WILD: return as_pack_cmp_wildcard(pk);
	case U64: return as_pack_uint64(pk, o->u);
	case I64: return as_pack_int64(pk, o->i);
	case FLT: return as_pack_float(pk, o->f);
	case DBL: return as_pack_double(pk, o->d);
	case BLOB: return as_pack_bytes(pk, o->p, o->n);
	case STR: return as_pack_str(pk, o->p, o->n);
	case STR_H: return as_pack_str(pk, NULL, o->n);
	case BIN: return as_pack_bin(pk, o->p, o->n);
	case BIN_H: return as_pack_bin(pk, NULL, o->n);
	case LISTH: return as_pack_list_header(pk, o->n);
	case MAPH: return as_pack_map_header(pk, o->n);
	case EXTH: return as_pack_ext_header(pk, o->n, o->type);
	case APPEND: return as_pack_append(pk, o->p, o->n);
	default: return -99;
	}
}

static void direct_one(const op* o)
{
	const char* nm = names[o->kind];
	mbuf e = { 0 };
	expected(o, &e);
	int64_t s = size_fn(o);
	if (o->kind != STR_H && o->kind != BIN_H && o->kind != APPEND)
		VF_CHECK(s == (int64_t)e.n, "%s: size function says %lld, shortest encoding has %zu bytes", nm, (long long)s, e.n);
	/* room after the starting offset, relative to what is needed */
	static const unsigned w[] = { 4, 4, 3 };
	uint32_t off = vf_chance(1, 2) ? 0 : (uint32_t)vf_draw(20), room;
	switch (vf_pick(3, w)) {
	case 0: room = (uint32_t)e.n + (uint32_t)vf_draw(4); break;
	case 1: { uint32_t k = (uint32_t)vf_draw(4); room = e.n > k ? (uint32_t)e.n - k : 0; break; }
	default: room = (uint32_t)vf_draw(e.n + 1); break;
	}
	if (o->kind == BUFEXTH) off = 0;
	uint32_t cap = off + room;
	if (e.n > 1 || room <= e.n + 2) vf_nontrivial();
	vf_label(room >= e.n ? "fits" : "too small");
	if (vf_describing()) vf_note("%s n=%u u=%llu i=%lld offset=%u capacity=%u needed=%zu", nm, o->n, (unsigned long long)o->u, (long long)o->i, off, cap, e.n);
	uint8_t* buf = vf_guarded(cap);
	uint8_t* old = vf_tmp(cap + 1);
	vf_fill(buf, cap);
	memcpy(old, buf, cap);
	uint64_t base = vfa_live();
	as_packer pk = { .buffer = buf, .offset = off, .capacity = cap };
	int rc = o->kind == BUFEXTH ? as_pack_buf_ext_header(buf, cap, o->n, o->type) : call(o, &pk);
	VF_CHECK(memcmp(buf, old, off) == 0, "%s: bytes before the starting offset changed", nm);
	VF_CHECK(pk.buffer == buf && pk.head == NULL && pk.tail == NULL && pk.capacity == cap, "%s: the caller's fixed buffer was replaced (capacity %u, offset %u, needs %zu)", nm, cap, off, e.n);
	vfa_expect(base, nm);
	if (room >= e.n) {
		VF_CHECK(rc == 0, "%s: returned %d although %zu bytes fit in %u", nm, rc, e.n, room);
		if (o->kind != BUFEXTH) VF_CHECK(pk.offset == off + e.n, "%s: offset advanced by %u, encoding has %zu bytes", nm, pk.offset - off, e.n);
		VF_CHECK(memcmp(buf + off, e.p, e.n) == 0, "%s: bytes written are not the shortest encoding", nm);
		VF_CHECK(memcmp(buf + off + e.n, old + off + e.n, room - e.n) == 0, "%s: bytes after the encoding changed", nm);
	}
	else VF_CHECK(rc != 0, "%s: reported success although %zu bytes do not fit in %u", nm, e.n, room);
	if (o->kind != BUFEXTH) {
		as_packer q = { .offset = off };
		rc = call(o, &q);
		VF_CHECK(rc == 0 && q.offset == off + e.n, "%s: sizing packer advanced by %u, encoding has %zu bytes", nm, q.offset - off, e.n);
	}
}

static void direct(void)
{
	op o;
	gen(&o);
	direct_one(&o);
}

/* several direct writers in a row fill one fixed buffer until it is full */
static void row(void)
{
	unsigned n = (unsigned)vf_range(2, 12);
	uint32_t cap = (uint32_t)vf_range(0, 120);
	uint8_t* buf = vf_guarded(cap);
	as_packer pk = { .buffer = buf, .capacity = cap };
	mbuf e = { 0 };
	for (unsigned i = 0; i < n; i++) {
		op o;
		gen(&o);
		if (o.kind == BUFEXTH || o.n > 300) continue;
		mbuf one = { 0 };
		expected(&o, &one);
		uint32_t off = pk.offset;
		int rc = call(&o, &pk);
		VF_CHECK(pk.buffer == buf && pk.head == NULL && pk.capacity == cap, "%s: the caller's fixed buffer was replaced", names[o.kind]);
		if (off + one.n > cap) { VF_CHECK(rc != 0, "%s: reported success beyond capacity %u", names[o.kind], cap); vf_label("ran full"); break; }
		VF_CHECK(rc == 0 && pk.offset == off + one.n, "%s: returned %d, offset %u expected %zu", names[o.kind], rc, pk.offset, off + one.n);
		mb_put(&e, one.p, one.n);
	}
	if (e.n > 8) vf_nontrivial();
	if (vf_describing()) vf_note("row of %u writers, capacity %u, %zu bytes", n, cap, e.n);
	VF_CHECK(e.n == 0 || memcmp(buf, e.p, e.n) == 0, "bytes written by a row of writers differ from the shortest encodings");
}

static void whole(const mval* m)
{
	if (vf_describing()) vf_note("value %s", m_show(m));
	m_classify(m);
	uint64_t base = vfa_live();
	mbuf e = { 0 };
	m_encode(&e, m);
	as_val* v = m_build(m);
	uint8_t* buf = vf_guarded(e.n);
	as_packer pk = { .buffer = buf, .capacity = (uint32_t)e.n };
	int rc = as_pack_val(&pk, v);
	VF_CHECK(rc == 0, "encoding a value returned %d", rc);
	VF_CHECK(pk.head == NULL && pk.buffer == buf, "encoder replaced a buffer of exactly the shortest length %zu", e.n);
	VF_CHECK(pk.offset == e.n, "encoder wrote %u bytes, shortest encoding has %zu", pk.offset, e.n);
	VF_CHECK(memcmp(buf, e.p, e.n) == 0, "encoding differs from the shortest form");
	as_val_destroy(v);
	vfa_expect(base, "after encoding a value");
}
static void values(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 60), .depth = 5, .pairs = true, .wild = true, .nan = true };
	whole(m_gen(&c));
}
static void big_values(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 30), .depth = 3, .big = true, .nan = true };
	whole(m_gen(&c));
}

static void deep_values(void)
{
	mcfg c = { .budget = 10, .depth = 1, .wild = true, .nan = true };
	whole(m_gen_deep(&c, (unsigned)vf_range(3, 1200)));
}
static void giant(void)
{
	mcfg c = { .wild = true, .nan = true };
	vf_label("giant");
	whole(m_gen_giant(&c));
}

const vf_target vf_targets[] = {
	{ "direct", direct, 3000000, 30000000, VF_FUZZ },
	{ "row", row, 1000000, 10000000, 0 },
	{ "values", values, 600000, 6000000, VF_FUZZ },
	{ "big_values", big_values, 3000, 30000, 0 },
	{ "deep_values", deep_values, 3000, 30000, 0 },
	{ "giant", giant, 96, 960, 0 },
	{ 0 }
};
