/* C02: predicted size equals bytes written on every output path. */
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_serializer.h>
#include <citrusleaf/alloc.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "value is a non-empty container, or a string/blob of at least 31 bytes; distinct by choice sequence";

static void paths(const mval* m, unsigned cap)
{
	if (vf_describing()) vf_note("initial capacity %u, value %s", cap, m_show(m));
	m_classify(m);
	uint64_t base = vfa_live();
	as_val* v = m_build(m);
	as_serializer* ser = as_msgpack_new();
	uint64_t before = vfa_live();
	uint32_t size = as_serializer_serialize_getsize(ser, v);
	VF_CHECK(size > 0, "size query returned 0");
	vfa_expect(before, "after size query");

	as_buffer b;
	as_buffer_init(&b);
	int rc = as_serializer_serialize(ser, v, &b);
	VF_CHECK(rc == 0, "serialize returned %d", rc);
	VF_CHECK(b.size == size, "size query said %u, serialize wrote %u bytes", size, b.size);
	VF_CHECK(b.capacity >= b.size, "serialize reports capacity %u below size %u", b.capacity, b.size);

	uint8_t* exact = vf_guarded(size);
	memset(exact, 0x5A, size);
	int32_t n = as_serializer_serialize_presized(ser, v, exact);
	VF_CHECK(n == (int32_t)size, "presized serialize returned %d, size query said %u", n, size);
	VF_CHECK(memcmp(exact, b.data, size) == 0, "presized and growing serialization differ");

	/* one without a buffer */
	as_packer q = { 0 };
	rc = as_pack_val(&q, v);
	VF_CHECK(rc == 0 && q.offset == size, "sizing packer returned %d with offset %u, size query said %u", rc, q.offset, size);

	/* one growing from an arbitrary first capacity */
	as_packer pk = { .buffer = cf_malloc(cap), .capacity = cap };
	rc = as_pack_val(&pk, v);
	VF_CHECK(rc == 0, "growing packer with capacity %u returned %d", cap, rc);
	uint32_t at = 0;
	bool grew = pk.head != NULL;
	for (as_packer_buffer* p = pk.head; p;) {
		VF_CHECK(at + (uint64_t)p->length <= size, "growing packer wrote more than %u bytes", size);
		VF_CHECK(memcmp(b.data + at, p->buffer, p->length) == 0, "growing packer (capacity %u) differs at chunk starting %u", cap, at);
		at += p->length;
		as_packer_buffer* nx = p->next;
		cf_free(p->buffer);
		cf_free(p);
		p = nx;
	}
	VF_CHECK((uint64_t)at + pk.offset == size, "growing packer (capacity %u) wrote %u bytes, expected %u", cap, at + pk.offset, size);
	VF_CHECK(memcmp(b.data + at, pk.buffer, pk.offset) == 0, "growing packer (capacity %u) differs in its last chunk", cap);
	cf_free(pk.buffer);
	if (grew) vf_label("several chunks");

	as_buffer_destroy(&b);
	as_val_destroy(v);
	as_serializer_destroy(ser);
	vfa_expect(base, "after all output paths");
}

static unsigned first_cap(void) { return vf_chance(1, 6) ? (unsigned)vf_range(100, 9000) : (unsigned)vf_range(1, 40); }

static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 60), .depth = 5, .pairs = true, .wild = true, .nan = true };
	unsigned cap = first_cap();
	paths(m_gen(&c), cap);
}

static void large(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 30), .depth = 3, .big = true, .nan = true };
	unsigned cap = first_cap();
	paths(m_gen(&c), cap);
}

static void chunks(void)
{
	mcfg c = { .budget = 60, .depth = 2, .nan = true };
	unsigned n = (unsigned)vf_range(1, 8);
	unsigned cap = first_cap();
	mval* l = m_list(n);
	for (unsigned i = 0; i < n; i++) {
		if (vf_chance(1, 3)) {
			unsigned pad = 8170 + (unsigned)vf_draw(30);
			char* s = vf_tmp(pad + 1);
			memset(s, 'y', pad);
			l->u.c.e[i] = m_str(s, pad);
		}
		else l->u.c.e[i] = m_gen(&c);
	}
	paths(l, cap);
}

static void deep(void)
{
	static const unsigned edge[] = { 250, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 770, 1024 };
	mcfg c = { .budget = 10, .depth = 1, .wild = true, .nan = true };
	unsigned d = vf_chance(1, 6) ? (unsigned)vf_range(3, 3000) : edge[vf_draw(14)];
	unsigned cap = first_cap();
	paths(m_gen_deep(&c, d), cap);
}

static void giant(void)
{
	mcfg c = { .wild = true, .nan = true };
	unsigned cap = first_cap();
	vf_label("giant");
	paths(m_gen_giant(&c), cap);
}

const vf_target vf_targets[] = {
	{ "trees", trees, 400000, 4000000, VF_FUZZ },
	{ "large", large, 5000, 50000, 0 },
	{ "chunks", chunks, 100000, 1000000, 0 },
	{ "deep", deep, 6000, 60000, 0 },
	{ "giant", giant, 96, 960, 0 },
	{ 0 }
};
