/* C12: byte buffers as bounded byte arrays. */
#include <aerospike/as_bytes.h>
#include <citrusleaf/alloc.h>
#include <string.h>
#include <sys/mman.h>
#include "vf.h"

const char* const vf_rule = "at least 2 calls changed the buffer and at least one read or refused call followed; distinct by choice sequence";

static uint32_t MAXC;
static uint8_t* ref;
static bool* known;
static uint32_t size, cap;
static as_bytes* b;
static unsigned changes, reads;
static as_bytes_type type;

static uint32_t wild_u32(void)
{
	static const uint32_t e[] = { UINT32_MAX, UINT32_MAX - 1, UINT32_MAX - 2, UINT32_MAX - 7, 0x80000000u, 0x7fffffffu, 0xffff0000u };
	return e[vf_draw(7)] - (uint32_t)vf_draw(12);
}
static uint32_t gen_index(void)
{
	static const unsigned w[] = { 6, 3, 2, 2 };
	switch (vf_pick(4, w)) {
	case 0: return (uint32_t)vf_draw(size + 1);
	case 1: return cap >= 4 ? cap - 4 + (uint32_t)vf_draw(7) : (uint32_t)vf_draw(7);
	case 2: return (uint32_t)vf_draw(cap + 4);
	default: return wild_u32();
	}
}
static uint32_t gen_size(uint32_t index)
{
	static const unsigned w[] = { 6, 4, 2 };
	switch (vf_pick(3, w)) {
	case 0: return (uint32_t)vf_range(1, 12);
	case 1: { uint32_t left = index < cap ? cap - index : 0; return left + (uint32_t)vf_draw(3) == 0 ? 1 : left ? left - 1 + (uint32_t)vf_draw(3) : 1; }
	default: return wild_u32();
	}
}

static void verify(const char* what)
{
	VF_CHECK(as_bytes_size(b) == size, "%s: size is %u, expected %u", what, as_bytes_size(b), size);
	VF_CHECK(as_bytes_capacity(b) == cap, "%s: capacity is %u, expected %u", what, as_bytes_capacity(b), cap);
	VF_CHECK(as_bytes_get_type(b) == type, "%s: type is %d, expected %d", what, (int)as_bytes_get_type(b), (int)type);
	const uint8_t* p = as_bytes_get(b);
	for (uint32_t i = 0; i < cap; i++) if (known[i]) VF_CHECK(p[i] == ref[i], "%s: byte %u is %02x, expected %02x", what, i, p[i], ref[i]);
	uint32_t n = 0;
	VF_CHECK(as_bytes_tobytes(b, &n) == p && n == size, "%s: conversion to raw bytes differs", what);
}

static void wrote(uint32_t at, const void* p, uint32_t n)
{
	memcpy(ref + at, p, n);
	memset(known + at, 1, n);
	changes++;
}

static void do_set(bool append)
{
	uint32_t at = append ? size : gen_index();
	unsigned kind = (unsigned)vf_draw(6);
	uint64_t x = vf_draw(0);
	uint8_t raw[8];
	memcpy(raw, &x, 8);
	bool ok;
	uint32_t n;
	switch (kind) {
	case 0: n = 1; ok = append ? as_bytes_append_byte(b, raw[0]) : as_bytes_set_byte(b, at, raw[0]); break;
	case 1: { int16_t v; n = 2; memcpy(&v, raw, 2); ok = append ? as_bytes_append_int16(b, v) : as_bytes_set_int16(b, at, v); break; }
	case 2: { int32_t v; n = 4; memcpy(&v, raw, 4); ok = append ? as_bytes_append_int32(b, v) : as_bytes_set_int32(b, at, v); break; }
	case 3: { int64_t v; n = 8; memcpy(&v, raw, 8); ok = append ? as_bytes_append_int64(b, v) : as_bytes_set_int64(b, at, v); break; }
	case 4: { double v = (double)x; n = 8; memcpy(raw, &v, 8); ok = append ? as_bytes_append_double(b, v) : as_bytes_set_double(b, at, v); break; }
	default: {
		n = gen_size(at);
		uint32_t m = n > MAXC ? 16 : n;
		uint8_t* src = vf_guarded(m);
		vf_fill(src, m);
		vf_note("%s raw at %u size %u of capacity %u", append ? "append" : "set", at, n, cap);
		ok = append ? as_bytes_append(b, src, n) : as_bytes_set(b, at, src, n);
		bool want = (uint64_t)at + n <= cap;
		VF_CHECK(ok == want, "raw write of %u at %u in capacity %u returned %d", n, at, cap, ok);
		if (!ok) { reads++; return; }
		wrote(at, src, n);
		if (at + n > size) size = at + n;
		return;
	}
	}
	vf_note("%s kind %u at %u of capacity %u", append ? "append" : "set", kind, at, cap);
	bool want = (uint64_t)at + n <= cap;
	VF_CHECK(ok == want, "write of %u at %u in capacity %u returned %d", n, at, cap, ok);
	if (!ok) { reads++; return; }
	wrote(at, raw, n);
	if (at + n > size) size = at + n;
}

static void do_get(void)
{
	uint32_t at = gen_index();
	unsigned kind = (unsigned)vf_draw(6);
	static const uint32_t width[] = { 1, 2, 4, 8, 8 };
	uint32_t n = kind < 5 ? width[kind] : gen_size(at);
	bool fits = (uint64_t)at + n <= size;
	uint32_t m = n > MAXC ? 16 : n;
	uint8_t* dst = vf_guarded(m);
	memset(dst, 0x5a, m);
	uint32_t got;
	union { uint8_t b; int16_t s; int32_t i; int64_t l; double d; uint8_t raw[8]; } u;
	memset(&u, 0x5a, sizeof(u));
	vf_note("get kind %u at %u size %u of %u", kind, at, n, size);
	reads++;
	switch (kind) {
	case 0: got = as_bytes_get_byte(b, at, &u.b); break;
	case 1: got = as_bytes_get_int16(b, at, &u.s); break;
	case 2: got = as_bytes_get_int32(b, at, &u.i); break;
	case 3: got = as_bytes_get_int64(b, at, &u.l); break;
	case 4: got = as_bytes_get_double(b, at, &u.d); break;
	default: got = as_bytes_copy(b, at, dst, n); break;
	}
	if (kind < 5) memcpy(dst, u.raw, n);
	VF_CHECK(got == (fits ? n : 0), "read of %u at %u from %u bytes returned %u", n, at, size, got);
	for (uint32_t i = 0; i < m; i++) {
		if (!fits) VF_CHECK(dst[i] == 0x5a, "a refused read wrote to its destination");
		else if (known[at + i]) VF_CHECK(dst[i] == ref[at + i], "byte %u read as %02x, expected %02x", at + i, dst[i], ref[at + i]);
	}
}

static void do_var_set(void)
{
	uint32_t at = gen_index(), v = vf_uint32();
	uint8_t enc[5];
	uint32_t n = 0, x = v;
	while (x >= 0x80) { enc[n++] = (uint8_t)(x | 0x80); x >>= 7; }
	enc[n++] = (uint8_t)x;
	vf_note("set variable %u at %u of capacity %u", v, at, cap);
	uint32_t got = as_bytes_set_var_int(b, at, v);
	bool fits = (uint64_t)at + n <= cap;
	VF_CHECK(got == (fits ? n : 0), "variable-length write of %u bytes at %u in capacity %u returned %u", n, at, cap, got);
	if (!fits) { reads++; return; }
	wrote(at, enc, n);
	uint32_t back = ~v;
	got = as_bytes_get_var_int(b, at, &back);
	VF_CHECK(got == n && back == v, "variable-length %u reads back as %u in %u bytes", v, back, got);
}

static void do_var_get(void)
{
	uint32_t at = gen_index();
	vf_note("get variable at %u of capacity %u", at, cap);
	reads++;
	/* the outcome is determined if the bytes are known and the form is valid or runs off the end */
	uint32_t n = 0, v = 0, want = 0;
	bool det = true;
	for (;;) {
		if ((uint64_t)at + n >= cap) { want = 0; break; }
		if (!known[at + n]) { det = false; break; }
		uint8_t x = ref[at + n++];
		if (n == 5 && x > 0x0f) { det = false; break; } /* does not fit in 32 bits */
		v |= (uint32_t)(x & 0x7f) << (7 * (n - 1));
		if (!(x & 0x80)) { want = n; break; }
	}
	uint32_t out = 0xdeadbeef;
	uint32_t got = as_bytes_get_var_int(b, at, &out);
	if (!det) return;
	VF_CHECK(got == want, "variable-length read at %u in capacity %u returned %u, expected %u", at, cap, got, want);
	if (want) VF_CHECK(out == v, "variable-length read gives %u, expected %u", out, v);
}

static void run(uint32_t start, uint32_t grow, uint32_t limit, unsigned most)
{
	uint64_t base = vfa_live();
	changes = reads = 0;
	memset(known, 0, MAXC);
	vfa_set_limit(limit);
	as_bytes st;
	uint8_t* outside = NULL; uint8_t* orig = vf_tmp(start); uint32_t outside_n = 0;
	cap = vf_chance(1, 8) ? 0 : (uint32_t)vf_draw(start);
	unsigned how = (unsigned)vf_draw(6);
	vf_note("storage %u capacity %u", how, cap);
	switch (how) {
	case 0: b = as_bytes_init(&st, cap); size = 0; memset(ref, 0, cap); memset(known, 1, cap); break;
	case 1: b = as_bytes_new(cap); size = 0; memset(ref, 0, cap); memset(known, 1, cap); break;
	case 2: {
		/* the macro's storage, in exact-size memory */
		as_bytes_inita(&st, 0);
		st.value = vf_guarded(cap); st.capacity = cap;
		b = &st; size = 0;
		break;
	}
	case 3: case 4: {
		outside_n = cap;
		outside = vf_guarded(cap);
		vf_fill(outside, cap); memcpy(ref, outside, cap); memset(known, 1, cap);
		size = cap;
		b = how == 3 ? as_bytes_init_wrap(&st, outside, cap, false) : as_bytes_new_wrap(outside, cap, false);
		break;
	}
	default: {
		if (cap == 0) cap = 1;
		uint8_t* p = cf_malloc(cap);
		vf_fill(p, cap); memcpy(ref, p, cap); memset(known, 1, cap);
		size = cap;
		b = vf_bool() ? as_bytes_init_wrap(&st, p, cap, true) : as_bytes_new_wrap(p, cap, true);
		break;
	}
	}
	bool moved = false;
	type = AS_BYTES_BLOB;
	verify("new buffer");
	unsigned steps = (unsigned)vf_range(1, most);
	for (unsigned i = 0; i < steps; i++) {
		static const unsigned w[] = { 6, 5, 5, 3, 3, 3, 3, 1 };
		switch (vf_pick(8, w)) {
		case 0: do_set(false); break;
		case 1: do_set(true); break;
		case 2: do_get(); break;
		case 3: do_var_set(); break;
		case 4: do_var_get(); break;
		case 5: {
			uint32_t n = vf_chance(1, 5) ? wild_u32() : (uint32_t)vf_draw(size + 2);
			vf_note("truncate %u of %u", n, size);
			bool ok = as_bytes_truncate(b, n);
			VF_CHECK(ok == (n <= size), "truncate of %u from %u returned %d", n, size, ok);
			if (ok) { size -= n; changes++; } else reads++;
			break;
		}
		case 7: {
			static const as_bytes_type t[] = { AS_BYTES_UNDEF, AS_BYTES_INTEGER, AS_BYTES_STRING, AS_BYTES_BLOB, AS_BYTES_JAVA, AS_BYTES_PYTHON, AS_BYTES_HLL, AS_BYTES_MAP, AS_BYTES_LIST, AS_BYTES_GEOJSON };
			type = t[vf_draw(10)];
			as_bytes_set_type(b, type);
			vf_note("type %d", (int)type);
			break;
		}
		default: {
			static const unsigned w2[] = { 5, 3, 1 };
			uint32_t c;
			switch (vf_pick(3, w2)) {
			case 0: c = cap + (uint32_t)vf_draw(grow); break;
			case 1: c = (uint32_t)vf_draw(cap + 1); break;
			default: c = wild_u32(); break;
			}
			bool resize = vf_bool();
			vf_note("ensure %u resize %d", c, resize);
			bool ok = as_bytes_ensure(b, c, resize);
			bool want = c <= cap || (resize && c <= limit);
			VF_CHECK(ok == want, "ensure %u with capacity %u, resize %d, returned %d", c, cap, resize, ok);
			if (!ok || c <= cap) { reads++; break; }
			if (c > MAXC - 100) goto out;
			/* what lay beyond the size is not specified any more */
			memset(known + size, 0, MAXC - size);
			if (outside && !moved) { memcpy(orig, outside, outside_n); moved = true; }
			cap = c; changes++;
			break;
		}
		}
		verify("buffer");
		if (moved) VF_CHECK(memcmp(orig, outside, outside_n) == 0, "the wrapped memory changed after the buffer moved away");
	}
out:
	if (changes >= 2 && reads) vf_nontrivial();
	as_bytes_destroy(b);
	vfa_expect(base, "after destroying the buffer");
}

static void history(void)
{
	static uint8_t r[600]; static bool k[600];
	MAXC = 600; ref = r; known = k;
	run(48, 20, 1 << 16, 30);
}

static void large(void)
{
	static uint8_t r[400000]; static bool k[400000];
	MAXC = 400000; ref = r; known = k;
	run(vf_bool() ? 140000 : 1200, vf_bool() ? 70000 : 300, 1 << 20, 12);
	if (cap > 65536) vf_label("more than 65536 bytes");
}

/* Up to the largest capacity there is; most of the memory is never touched. */
static void giant(void)
{
	static const uint32_t caps[] = { 1u << 24, 1u << 28, 0x7fffffff, 0x80000000u, 0xc0000001u, UINT32_MAX };
	unsigned which = (unsigned)vf_draw(6);
	uint32_t c = caps[which] - (uint32_t)vf_draw(3);
	size_t room = (size_t)c + 4096;
	uint8_t* p = mmap(NULL, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) return;
	uint64_t base = vfa_live();
	as_bytes st;
	b = vf_bool() ? as_bytes_init_wrap(&st, p, c, false) : as_bytes_new_wrap(p, c, false);
	VF_CHECK(b && as_bytes_size(b) == c && as_bytes_capacity(b) == c, "wrapping %u bytes", c);
	uint32_t n = c;
	for (unsigned i = 0; i < 12; i++) {
		uint32_t at = vf_bool() ? n - (uint32_t)vf_draw(12) : c - (uint32_t)vf_draw(12);
		int64_t v = (int64_t)vf_draw(0), w = 0;
		vf_note("op at %u of %u (capacity %u)", at, n, c);
		vf_nontrivial();
		switch (vf_draw(7)) {
		case 0: {
			bool ok = as_bytes_set_int64(b, at, v);
			VF_CHECK(ok == ((uint64_t)at + 8 <= c), "set at %u of %u returned %d", at, c, ok);
			if (!ok) break;
			if (at + 8 > n) n = at + 8;
			VF_CHECK(memcmp(p + at, &v, 8) == 0, "set at %u stored elsewhere", at);
			VF_CHECK(as_bytes_get_int64(b, at, &w) == 8 && w == v, "get at %u differs", at);
			break;
		}
		case 1: {
			bool ok = as_bytes_append_int64(b, v);
			VF_CHECK(ok == ((uint64_t)n + 8 <= c), "append at %u of %u returned %d", n, c, ok);
			if (!ok) break;
			VF_CHECK(memcmp(p + n, &v, 8) == 0, "append at %u stored elsewhere", n);
			n += 8;
			break;
		}
		case 2: {
			uint32_t k = (uint32_t)vf_draw(24);
			VF_CHECK(as_bytes_truncate(b, k), "truncate by %u of %u refused", k, n);
			n -= k;
			break;
		}
		case 3: {
			uint8_t x[16];
			uint32_t k = (uint32_t)vf_range(1, 16), got = as_bytes_copy(b, at, x, k);
			VF_CHECK(got == ((uint64_t)at + k <= n ? k : 0), "copy of %u at %u of %u returned %u", k, at, n, got);
			if (got) VF_CHECK(memcmp(x, p + at, k) == 0, "copy at %u differs", at);
			break;
		}
		case 4: {
			uint8_t x[16];
			uint32_t k = (uint32_t)vf_range(1, 16);
			vf_fill(x, k);
			bool ok = as_bytes_set(b, at, x, k);
			VF_CHECK(ok == ((uint64_t)at + k <= c), "raw write of %u at %u of %u returned %d", k, at, c, ok);
			if (!ok) break;
			if (at + k > n) n = at + k;
			VF_CHECK(memcmp(p + at, x, k) == 0, "raw write at %u stored elsewhere", at);
			break;
		}
		case 5: {
			uint32_t back = 0, k = (uint32_t)v, len = k < 1u << 7 ? 1 : k < 1u << 14 ? 2 : k < 1u << 21 ? 3 : k < 1u << 28 ? 4 : 5;
			uint32_t got = as_bytes_set_var_int(b, at, k);
			VF_CHECK(got == ((uint64_t)at + len <= c ? len : 0), "variable-length write of %u bytes at %u of %u returned %u", len, at, c, got);
			if (!got) break;
			VF_CHECK(as_bytes_get_var_int(b, at, &back) == len && back == k, "variable-length integer at %u reads back differently", at);
			break;
		}
		default: {
			uint8_t x = (uint8_t)v, y = 0;
			bool ok = as_bytes_set_byte(b, at, x);
			VF_CHECK(ok == (at < c), "byte at %u of %u returned %d", at, c, ok);
			if (!ok) break;
			if (at + 1 > n) n = at + 1;
			VF_CHECK(as_bytes_get_byte(b, at, &y) == 1 && y == x, "byte at %u differs", at);
			break;
		}
		}
		VF_CHECK(as_bytes_size(b) == n && as_bytes_capacity(b) == c, "size is %u of %u, expected %u", as_bytes_size(b), as_bytes_capacity(b), n);
		for (unsigned k = 0; k < 64; k++) VF_CHECK(p[(size_t)c + k] == 0, "a byte behind the buffer changed");
		VF_CHECK(p[0] == 0 && p[7] == 0, "the beginning of the buffer changed");
	}
	as_bytes_destroy(b);
	munmap(p, room);
	vfa_expect(base, "after destroying the buffer");
}

const vf_target vf_targets[] = {
	{ "history", history, 4000000, 40000000, VF_FUZZ },
	{ "large", large, 8000, 80000, 0 },
	{ "giant", giant, 20000, 200000, 0 },
	{ 0 }
};
