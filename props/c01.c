/* C01: serialize / deserialize round trip. */
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_serializer.h>
#include <citrusleaf/alloc.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "value is a non-empty container, or a string/blob of at least 31 bytes; distinct by choice sequence";

static void round_trip(const mval* m)
{
	if (vf_describing()) vf_note("value %s", m_show(m));
	m_classify(m);
	uint64_t base = vfa_live();
	as_val* v = m_build(m);
	m_expect(v, m, "value as built");
	as_serializer ser;
	as_msgpack_init(&ser);
	as_buffer b;
	memset(&b, vf_junk(), sizeof(b));
	as_buffer_init(&b);
	VF_CHECK(b.data == NULL && b.size == 0 && b.capacity == 0, "a new buffer is not empty");
	int rc = as_serializer_serialize(&ser, v, &b);
	VF_CHECK(rc == 0, "serialize returned %d", rc);
	VF_CHECK(b.size <= b.capacity, "serialized size %u exceeds capacity %u", b.size, b.capacity);
	/* decode from a block of exactly the serialized size */
	uint8_t* exact = vf_guarded(b.size);
	memcpy(exact, b.data, b.size);
	as_buffer eb = { .capacity = b.size, .size = b.size, .data = exact };
	as_val* w = NULL;
	rc = as_serializer_deserialize(&ser, &eb, &w);
	VF_CHECK(rc == 0, "deserialize returned %d", rc);
	m_expect(w, m, "deserialized value");
	as_buffer b2;
	as_buffer_init(&b2);
	rc = as_serializer_serialize(&ser, w, &b2);
	VF_CHECK(rc == 0, "serializing the deserialized value returned %d", rc);
	VF_CHECK(b2.size == b.size, "second serialization has %u bytes, first %u", b2.size, b.size);
	VF_CHECK(memcmp(b.data, b2.data, b.size) == 0, "second serialization differs from the first");
	m_expect(v, m, "original after serializing");
	as_val_destroy(v);
	m_expect(w, m, "deserialized value after destroying the original");
	as_val_destroy(w);
	as_buffer_destroy(&b);
	as_buffer_destroy(&b2);
	as_serializer_destroy(&ser);
	vfa_expect(base, "after round trip");
}

static void trees(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 60), .depth = 5, .nan = true };
	round_trip(m_gen(&c));
}

static void large(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 30), .depth = 3, .big = true, .nan = true };
	round_trip(m_gen(&c));
}

static void deep(void)
{
	static const unsigned edge[] = { 250, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 770, 1024 };
	mcfg c = { .budget = 10, .depth = 1, .nan = true };
	unsigned d = vf_chance(1, 6) ? (unsigned)vf_range(3, 3000) : edge[vf_draw(14)];
	round_trip(m_gen_deep(&c, d));
}

/* Many small items so that the output crosses buffer-chunk boundaries at every alignment. */
static void chunks(void)
{
	mcfg c = { .budget = 40, .depth = 1, .nan = true };
	unsigned pad = (unsigned)vf_range(8150, 8200);
	unsigned n = (unsigned)vf_range(1, 6);
	bool second = vf_chance(1, 2);
	mval* l = m_list(n + 1 + (second ? 1 : 0));
	char* s = vf_tmp(pad + 1);
	memset(s, 'x', pad);
	unsigned k = 0;
	l->u.c.e[k++] = m_str(s, pad);
	for (unsigned i = 0; i < n; i++) l->u.c.e[k++] = m_gen(&c);
	if (second) l->u.c.e[k++] = m_str(s, pad - (unsigned)vf_draw(40));
	vf_label("chunk boundary");
	round_trip(l);
}

static void giant(void)
{
	mcfg c = { .nan = true };
	vf_label("giant");
	round_trip(m_gen_giant(&c));
}

const vf_target vf_targets[] = {
	{ "trees", trees, 400000, 4000000, VF_FUZZ },
	{ "large", large, 6000, 60000, 0 },
	{ "deep", deep, 6000, 60000, 0 },
	{ "chunks", chunks, 100000, 1000000, 0 },
	{ "giant", giant, 96, 960, 0 },
	{ 0 }
};
