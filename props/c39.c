/* C39: whole values in hostile input. */
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_serializer.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include "model.h"

const char* const vf_rule = "at least 2 bytes at the reading position, starting with a container, blob, extension or multi-byte number; distinct by choice sequence";

static uint64_t be(const uint8_t* p, unsigned n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }

typedef struct { int64_t len; bool ext; bool top_ext; bool map; } shape;
/* Length of the complete element at p, or -1. */
static shape measure(const uint8_t* p, uint64_t left)
{
	shape s = { -1, false, false, false };
	uint64_t at = 0, need = 1;
	bool first = true;
	while (need) {
		if (need > left - at) return s; /* every element has a byte */
		uint8_t h = p[at++];
		uint64_t rest = left - at, fixed = 0, data = 0, kids = 0;
		need--;
		switch (h) {
		case 0xc0: case 0xc2: case 0xc3: break;
		case 0xc1: return s;
		case 0xcc: case 0xd0: fixed = 1; break;
		case 0xcd: case 0xd1: fixed = 2; break;
		case 0xca: case 0xce: case 0xd2: fixed = 4; break;
		case 0xcb: case 0xcf: case 0xd3: fixed = 8; break;
		case 0xc4: case 0xd9: if (rest < 1) return s; fixed = 1; data = p[at]; break;
		case 0xc5: case 0xda: if (rest < 2) return s; fixed = 2; data = be(p + at, 2); break;
		case 0xc6: case 0xdb: if (rest < 4) return s; fixed = 4; data = be(p + at, 4); break;
		case 0xdc: if (rest < 2) return s; fixed = 2; kids = be(p + at, 2); break;
		case 0xdd: if (rest < 4) return s; fixed = 4; kids = be(p + at, 4); break;
		case 0xde: s.map = true; if (rest < 2) return s; fixed = 2; kids = 2 * be(p + at, 2); break;
		case 0xdf: s.map = true; if (rest < 4) return s; fixed = 4; kids = 2 * be(p + at, 4); break;
		case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: fixed = 1; data = 1u << (h - 0xd4); s.ext = true; break;
		case 0xc7: if (rest < 1) return s; fixed = 2; data = p[at]; s.ext = true; break;
		case 0xc8: if (rest < 2) return s; fixed = 3; data = be(p + at, 2); s.ext = true; break;
		case 0xc9: if (rest < 4) return s; fixed = 5; data = be(p + at, 4); s.ext = true; break;
		default:
			if ((h & 0xe0) == 0xa0) data = h & 0x1f;
			else if ((h & 0xf0) == 0x90) kids = h & 0x0f;
			else if ((h & 0xf0) == 0x80) { kids = 2 * (h & 0x0f); s.map |= kids != 0; }
		}
		if (first) { s.top_ext = s.ext; first = false; }
		if (rest < fixed || rest - fixed < data) return s;
		at += fixed + data;
		need += kids;
	}
	s.len = (int64_t)at;
	return s;
}

static size_t biggest;
static void on_alloc(void* p, size_t n) { (void)p; if (n > biggest) biggest = n; }

static void decode(const uint8_t* buf, uint32_t len, uint32_t pos)
{
	shape s = measure(buf + pos, len - pos);
	uint64_t live = vfa_live();
	as_unpacker pk = { .buffer = buf, .offset = pos, .length = len };
	/* probe */
	as_val_t t = as_unpack_peek_type(&pk);
	VF_CHECK(pk.offset == pos, "the type probe moves");
	VF_CHECK(as_unpack_buf_peek_type(buf + pos, len - pos) == t, "the two type probes disagree");
	if (pos == len) VF_CHECK(t == AS_UNDEF, "the type probe finds type %d where nothing is left", (int)t);
	/* skip */
	int64_t n = as_unpack_size(&pk);
	if (s.len < 0) VF_CHECK(n < 0, "skipping at position %u of %u reports %lld bytes although no complete value is there", pos, len, (long long)n);
	else VF_CHECK(n == s.len && pk.offset == pos + s.len, "skipping at position %u of %u reports %lld bytes and moves %u, the value has %lld", pos, len, (long long)n, pk.offset - pos, (long long)s.len);
	/* nil and boolean */
	pk.offset = pos;
	int rc = as_unpack_nil(&pk);
	VF_CHECK((rc == 0) == (len > pos && buf[pos] == 0xc0), "the nil reader returns %d", rc);
	if (rc == 0) VF_CHECK(pk.offset == pos + 1, "the nil reader moves %u", pk.offset - pos);
	pk.offset = pos;
	bool b = false;
	rc = as_unpack_boolean(&pk, &b);
	VF_CHECK((rc == 0) == (len > pos && (buf[pos] == 0xc2 || buf[pos] == 0xc3)), "the boolean reader returns %d", rc);
	if (rc == 0) VF_CHECK(pk.offset == pos + 1 && b == (buf[pos] == 0xc3), "the boolean reader moves %u and gives %d", pk.offset - pos, b);
	/* decode */
	for (unsigned way = 0; way < 2; way++) {
		as_val* v = NULL;
		biggest = 0;
		vfa_on_alloc = on_alloc;
		uint32_t used = 0;
		if (way == 0) { pk.offset = pos; rc = as_unpack_val(&pk, &v); used = pk.offset - pos; }
		else {
			as_serializer ser;
			as_msgpack_init(&ser);
			as_buffer ab = { .capacity = len - pos, .size = len - pos, .data = (uint8_t*)buf + pos };
			rc = as_serializer_deserialize(&ser, &ab, &v);
			as_serializer_destroy(&ser);
		}
		vfa_on_alloc = NULL;
		VF_CHECK(biggest <= 64 * (size_t)(len - pos) + 4096, "decoding %u bytes requests a block of %zu", len - pos, biggest);
		if (s.len < 0) VF_CHECK(rc != 0, "decoding at position %u of %u succeeds although no complete value is there", pos, len);
		else if (!s.ext && !s.map /* not every type can be a key */) VF_CHECK(rc == 0 && v, "decoding a complete value fails with %d", rc);
		if (rc == 0) {
			VF_CHECK(way == 1 || used == s.len, "decoding moves %u, the value has %lld bytes", used, (long long)s.len);
			VF_CHECK(v || s.top_ext, "decoding succeeds without a value");
			if (v && !s.ext) VF_CHECK(as_val_type(v) == t, "the type probe says %d, the decoded value has %d", (int)t, (int)as_val_type(v));
			if (v) as_val_destroy(v);
		}
		VF_CHECK(vfa_live() == live, "decoding (%s) leaves %lld blocks", rc ? "failed" : "succeeded", (long long)(vfa_live() - live));
	}
	if (len >= pos + 2 && buf[pos] >= 0x80 && buf[pos] < 0xe0) vf_nontrivial();
	vf_label(s.len < 0 ? "incomplete" : s.ext ? "complete with extension" : "complete");
}

static int mirror(msgpack_compare_t c) { return c == MSGPACK_COMPARE_LESS ? MSGPACK_COMPARE_GREATER : c == MSGPACK_COMPARE_GREATER ? MSGPACK_COMPARE_LESS : (int)c; }
static void compare(const uint8_t* a, uint32_t na, const uint8_t* b, uint32_t nb)
{
	shape sa = measure(a, na), sb = measure(b, nb);
	uint64_t live = vfa_live();
	as_unpacker p1 = { .buffer = a, .length = na }, p2 = { .buffer = b, .length = nb };
	msgpack_compare_t c = as_unpack_compare(&p1, &p2);
	VF_CHECK(c == MSGPACK_COMPARE_LESS || c == MSGPACK_COMPARE_EQUAL || c == MSGPACK_COMPARE_GREATER || c == MSGPACK_COMPARE_ERROR, "comparing gives %d", (int)c);
	VF_CHECK(p1.offset <= na && p2.offset <= nb, "comparing ends at %u of %u and %u of %u", p1.offset, na, p2.offset, nb);
	msgpack_compare_t d = as_unpack_buf_compare(a, na, b, nb);
	VF_CHECK(c == d, "comparing two positions gives %d, comparing the same buffers %d", (int)c, (int)d);
	d = as_unpack_buf_compare(b, nb, a, na);
	VF_CHECK(mirror(c) == (int)d, "comparing gives %d, and %d the other way round", (int)c, (int)d);
	VF_CHECK(vfa_live() == live, "comparing leaves %lld blocks", (long long)(vfa_live() - live));
	if (na && nb && (sa.len < 0 || sb.len < 0) && a[0] >= 0x80 && a[0] < 0xe0 && b[0] >= 0x80 && b[0] < 0xe0) vf_nontrivial();
}

static const uint8_t heads[] = { 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xa0, 0xa5, 0xbf, 0x90, 0x91, 0x92, 0x9f, 0x80, 0x81, 0x82, 0x8f, 0x00, 0x7f, 0xe0, 0xff, 0xc0, 0xc1, 0xc2, 0xc3 };

/* a valid encoding, possibly damaged */
static uint8_t* hostile(uint32_t* len, const mval* m, unsigned damage)
{
	mbuf b = { 0 };
	m_encode_any(&b, m, (unsigned)vf_draw(9));
	if (vf_chance(1, 4)) for (unsigned k = (unsigned)vf_draw(6); k; k--) mb_u8(&b, (uint8_t)vf_draw(256));
	uint32_t n = (uint32_t)b.n;
	for (unsigned k = 0; k < damage && n; k++) {
		uint32_t at = (uint32_t)(vf_bool() ? vf_draw(n) : vf_draw(n < 8 ? n : 8));
		switch (vf_draw(6)) {
		case 0: n = (uint32_t)vf_draw(n + 1); break;
		case 1: if (n) n -= 1 + (uint32_t)vf_draw(n < 4 ? n : 4); break;
		case 2: b.p[at] = heads[vf_draw(sizeof(heads))]; break;
		case 3: b.p[at] = (uint8_t)vf_draw(256); break;
		case 4: b.p[at] = (uint8_t)(b.p[at] + vf_irange(-2, 2)); break;
		default: for (uint32_t i = at; i < n && i < at + 4; i++) b.p[i] = 0xff; }
	}
	if (n > b.n) n = (uint32_t)b.n;
	uint8_t* p = vf_guarded(n);
	if (n) memcpy(p, b.p, n);
	*len = n;
	return p;
}
static mval* gen(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 14), .depth = 4, .ext_meta = true, .wild = true, .any_keys = vf_bool() };
	if (vf_chance(1, 40)) return m_gen_deep(&c, 240 + (unsigned)vf_draw(40));
	return m_gen(&c);
}
static void damaged(void)
{
	uint32_t len;
	uint8_t* p = hostile(&len, gen(), (unsigned)vf_draw(4));
	uint32_t pos = vf_chance(3, 4) ? 0 : (uint32_t)vf_draw(len + 1);
	if (vf_describing()) vf_note_hex(vf_fmt("position %u bytes", pos), p, len > 150 ? 150 : len);
	decode(p, len, pos);
}
static void pairs(void)
{
	mval* m = gen();
	mcfg c = { .budget = 6, .depth = 3, .wild = true };
	mval* o = vf_bool() ? m : vf_bool() ? m_mutate(m, &c) : gen();
	uint32_t na, nb;
	uint8_t* a = hostile(&na, m, (unsigned)vf_draw(3));
	uint8_t* b = hostile(&nb, o, (unsigned)vf_draw(3));
	if (vf_describing()) { vf_note_hex("first", a, na > 48 ? 48 : na); vf_note_hex("second", b, nb > 48 ? 48 : nb); }
	compare(a, na, b, nb);
}
static void bytes(void)
{
	uint32_t len = (uint32_t)vf_draw(vf_chance(1, 10) ? 300 : 24);
	uint8_t* p = vf_guarded(len);
	for (uint32_t i = 0; i < len; i++) p[i] = vf_chance(2, 3) ? heads[vf_draw(sizeof(heads))] : (uint8_t)vf_draw(256);
	uint32_t pos = vf_chance(3, 4) ? 0 : (uint32_t)vf_draw(len + 1);
	if (vf_describing()) vf_note_hex(vf_fmt("position %u bytes", pos), p, len > 150 ? 150 : len);
	decode(p, len, pos);
	uint32_t half = (uint32_t)vf_draw(len + 1);
	uint8_t* a = vf_guarded(half); uint8_t* b = vf_guarded(len - half);
	memcpy(a, p, half); memcpy(b, p + half, len - half);
	compare(a, half, b, len - half);
}
/* every byte string of up to three bytes */
static void small(void)
{
	uint64_t i = vf_draw(0) % 16843009u;
	uint32_t len = i < 1 ? 0 : i < 257 ? 1 : i < 65793 ? 2 : 3;
	i -= len == 0 ? 0 : len == 1 ? 1 : len == 2 ? 257 : 65793;
	uint8_t* p = vf_guarded(len);
	for (uint32_t k = 0; k < len; k++) p[k] = (uint8_t)(i >> (8 * k));
	if (vf_describing()) vf_note_hex("bytes", p, len);
	decode(p, len, 0);
	compare(p, len, p, len);
}

/* containers of very long blobs, in a buffer of up to 2^32 - 1 bytes with nothing readable after it */
static void far(void)
{
	static uint8_t* area;
	const uint64_t room = 1ull << 32;
	if (!area) {
		area = mmap(NULL, room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (area == MAP_FAILED || mprotect(area + room, 4096, PROT_NONE)) vf_fail("harness: mmap");
	}
	uint64_t len = vf_chance(1, 3) ? vf_range(64, 0xffffffffu) : (vf_bool() ? 0xffffffffu : 0x80000010u) - vf_draw(32);
	uint8_t* buf = area + room - len;
	uint64_t pos = vf_bool() ? 0 : vf_chance(1, 2) ? vf_draw(len / 2) : len - 64 + vf_draw(60);
	unsigned kids = (unsigned)vf_range(1, 4);
	uint64_t at = pos, cut[5] = { pos, pos, pos, pos, pos };
	buf[at++] = (uint8_t)(0x90 + kids);
	for (unsigned i = 0; i < kids; i++) {
		cut[i] = at;
		uint64_t left = len - at;
		if (left < 6) break;
		uint64_t n = i + 1 == kids || vf_chance(1, 6) ? left - 5 - 3 + vf_draw(6) : vf_draw(left - 5);
		static const uint8_t hd[] = { 0xc6, 0xdb, 0xc9 };
		buf[at++] = hd[vf_draw(3)];
		for (unsigned k = 0; k < 4; k++) buf[at++] = (uint8_t)(n >> (8 * (3 - k)));
		if (n + 2 > len - at) { kids = i + 1; break; }
		at += n + (buf[cut[i]] == 0xc9);
		if (i + 1 == kids) break;
	}
	vf_note("%u long elements at position %llu of %llu", kids, (unsigned long long)pos, (unsigned long long)len);
	shape s = measure(buf + pos, len - pos);
	as_unpacker pk = { .buffer = buf, .offset = (uint32_t)pos, .length = (uint32_t)len };
	int64_t n = as_unpack_size(&pk);
	if (s.len < 0) VF_CHECK(n < 0, "skipping at position %llu of %llu reports %lld bytes although no complete value is there", (unsigned long long)pos, (unsigned long long)len, (long long)n);
	else VF_CHECK(n == s.len && pk.offset == pos + (uint64_t)s.len, "skipping at position %llu of %llu reports %lld bytes and ends at %u, the value has %lld", (unsigned long long)pos, (unsigned long long)len, (long long)n, pk.offset, (long long)s.len);
	vf_label(s.len < 0 ? "far, incomplete" : "far, complete");
	vf_nontrivial();
	buf[pos] = 0;
	for (unsigned i = 0; i < kids; i++) memset(buf + cut[i], 0, len - cut[i] < 5 ? len - cut[i] : 5);
}

static void giant(void)
{
	mcfg c = { .ext_meta = true, .wild = true };
	mval* m = m_gen_giant(&c);
	uint32_t na, nb;
	uint8_t* a = hostile(&na, m, (unsigned)vf_draw(3));
	uint8_t* b = hostile(&nb, vf_bool() ? m : m_mutate(m, &c), (unsigned)vf_draw(3));
	if (vf_describing()) vf_note_hex("bytes", a, na > 48 ? 48 : na);
	vf_label("giant");
	decode(a, na, 0);
	compare(a, na, b, nb);
}

const vf_target vf_targets[] = {
	{ "damaged", damaged, 3000000, 40000000, 0 },
	{ "pairs", pairs, 2000000, 25000000, 0 },
	{ "bytes", bytes, 3000000, 40000000, 0 },
	{ "small", small, 16843009, 16843009, VF_ENUM },
	{ "far", far, 200000, 2000000, 0 },
	{ "giant", giant, 64, 640, 0 },
	{ NULL }
};
