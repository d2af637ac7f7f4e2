/* C05: length-checked readers on arbitrary bytes. */
#include <aerospike/as_msgpack.h>
#include <string.h>
#include <sys/mman.h>
#include "model.h"

const char* const vf_rule = "at least 2 bytes at the reading position, starting with a header byte of some reader's kind; distinct by choice sequence";

enum { R_INT, R_UINT, R_DBL, R_STR, R_BIN, R_BLOBSZ, R_EXT, R_LISTC, R_MAPC, R_ISEXT, R_BLISTC, R_BMAPC, NREAD };
static const char* const rn[] = { "int64", "uint64", "double", "str", "bin", "blob size", "ext", "list count", "map count", "is ext", "list count of buffer", "map count of buffer" };

typedef struct { bool ok; uint64_t u; double d; const uint8_t* p; uint32_t n; uint8_t type; uint64_t type_at; uint64_t used; } want;

static uint64_t be(const uint8_t* p, unsigned n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }

static want reference(int r, const uint8_t* p, uint64_t left)
{
	want w = { 0 };
	if (left == 0) return w;
	uint8_t h = p[0];
	switch (r) {
	case R_INT: case R_UINT: {
		if (h < 0x80 || h >= 0xe0) { w.ok = true; w.u = (uint64_t)(int64_t)(int8_t)h; w.used = 1; return w; }
		unsigned k; bool sg;
		switch (h) {
		case 0xcc: k = 1; sg = false; break; case 0xcd: k = 2; sg = false; break;
		case 0xce: k = 4; sg = false; break; case 0xcf: k = 8; sg = false; break;
		case 0xd0: k = 1; sg = true; break; case 0xd1: k = 2; sg = true; break;
		case 0xd2: k = 4; sg = true; break; case 0xd3: k = 8; sg = true; break;
		default: return w;
		}
		if (left < 1 + k) return w;
		uint64_t v = be(p + 1, k);
		if (sg && k < 8 && (v >> (8 * k - 1))) v |= ~0ull << (8 * k);
		w.ok = true; w.u = v; w.used = 1 + k;
		return w;
	}
	case R_DBL:
		if (h == 0xca && left >= 5) { uint32_t x = (uint32_t)be(p + 1, 4); float f; memcpy(&f, &x, 4); w.d = (double)f; w.ok = true; w.used = 5; }
		if (h == 0xcb && left >= 9) { uint64_t x = be(p + 1, 8); memcpy(&w.d, &x, 8); w.ok = true; w.used = 9; }
		return w;
	case R_STR: case R_BIN: case R_BLOBSZ: {
		unsigned k;
		uint64_t n;
		if ((h & 0xe0) == 0xa0) { k = 0; n = h & 0x1f; }
		else {
			switch (h) {
			case 0xc4: case 0xd9: k = 1; break;
			case 0xc5: case 0xda: k = 2; break;
			case 0xc6: case 0xdb: k = 4; break;
			default: return w;
			}
			if (left < 1 + k) return w;
			n = be(p + 1, k);
		}
		if (r == R_BLOBSZ) { w.ok = true; w.u = n; w.used = 1 + k; return w; }
		if (left < 1 + k + n) return w;
		w.ok = true; w.p = p + 1 + k; w.n = (uint32_t)n; w.used = 1 + k + n;
		return w;
	}
	case R_EXT: {
		unsigned k;
		uint64_t n;
		switch (h) {
		case 0xd4: k = 0; n = 1; break; case 0xd5: k = 0; n = 2; break; case 0xd6: k = 0; n = 4; break;
		case 0xd7: k = 0; n = 8; break; case 0xd8: k = 0; n = 16; break;
		case 0xc7: k = 1; n = 0; break; case 0xc8: k = 2; n = 0; break; case 0xc9: k = 4; n = 0; break;
		default: return w;
		}
		if (left < 1 + k) return w;
		if (k) n = be(p + 1, k);
		if (left < 1 + k + 1 + n) return w;
		w.ok = true; w.type = p[1 + k]; w.type_at = 1 + k; w.p = p + 2 + k; w.n = (uint32_t)n; w.used = 2 + k + n;
		return w;
	}
	default: {
		bool list = r == R_LISTC || r == R_BLISTC;
		if ((h & 0xf0) == (list ? 0x90 : 0x80)) { w.ok = true; w.u = h & 0x0f; w.used = 1; return w; }
		if (h == (list ? 0xdc : 0xde) && left >= 3) { w.ok = true; w.u = be(p + 1, 2); w.used = 3; }
		if (h == (list ? 0xdd : 0xdf) && left >= 5) { w.ok = true; w.u = be(p + 1, 4); w.used = 5; }
		return w;
	}
	}
}

static bool read_one(int r, as_unpacker* pk)
{
	const uint8_t* at = pk->buffer + pk->offset;
	uint32_t off = pk->offset, len = pk->length;
	const uint8_t* buf = pk->buffer;
	want w = reference(r, at, len - off);
	bool ok = false;
	switch (r) {
	case R_INT: case R_UINT: {
		uint64_t u = 0;
		int rc = r == R_UINT ? as_unpack_uint64(pk, &u) : as_unpack_int64(pk, (int64_t*)&u);
		ok = rc == 0;
		if (ok && w.ok) VF_CHECK(u == w.u, "%s reader gave %llx, item is %llx", rn[r], (unsigned long long)u, (unsigned long long)w.u);
		break;
	}
	case R_DBL: {
		double d = 0;
		ok = as_unpack_double(pk, &d) == 0;
		if (ok && w.ok) VF_CHECK(memcmp(&d, &w.d, 8) == 0 || (d != d && w.d != w.d), "double reader gave %.17g, item is %.17g", d, w.d);
		break;
	}
	case R_STR: case R_BIN: {
		uint32_t n = 0;
		const uint8_t* p = r == R_STR ? as_unpack_str(pk, &n) : as_unpack_bin(pk, &n);
		ok = p != NULL;
		if (ok && w.ok) VF_CHECK(p == w.p && n == w.n, "%s reader gave %u bytes at %td, item has %u at %td", rn[r], n, p - buf, w.n, w.p - buf);
		break;
	}
	case R_BLOBSZ: {
		int64_t n = as_unpack_blob_size(pk);
		ok = n >= 0;
		if (ok && w.ok) VF_CHECK((uint64_t)n == w.u, "blob size reader gave %lld, item has %llu", (long long)n, (unsigned long long)w.u);
		break;
	}
	case R_EXT: {
		as_msgpack_ext x;
		memset(&x, 0, sizeof(x));
		ok = as_unpack_ext(pk, &x) == 0;
		if (ok && w.ok) VF_CHECK(x.type == w.type && x.data == w.p && x.size == w.n && x.type_offset == off + w.type_at, "extension reader gave type %u size %u, item has %u, %u", x.type, x.size, w.type, w.n);
		break;
	}
	case R_LISTC: case R_MAPC: {
		int64_t n = r == R_LISTC ? as_unpack_list_header_element_count(pk) : as_unpack_map_header_element_count(pk);
		ok = n >= 0;
		if (ok && w.ok) VF_CHECK((uint64_t)n == w.u, "%s reader gave %lld, item has %llu", rn[r], (long long)n, (unsigned long long)w.u);
		break;
	}
	case R_BLISTC: case R_BMAPC: {
		int64_t n = r == R_BLISTC ? as_unpack_buf_list_element_count(at, len - off) : as_unpack_buf_map_element_count(at, len - off);
		ok = n >= 0;
		if (ok && w.ok) { VF_CHECK((uint64_t)n == w.u, "%s reader gave %lld, item has %llu", rn[r], (long long)n, (unsigned long long)w.u); pk->offset += (uint32_t)w.used; }
		break;
	}
	case R_ISEXT: {
		bool x = as_unpack_peek_is_ext(pk);
		bool e = len > off && ((at[0] >= 0xd4 && at[0] <= 0xd8) || (at[0] >= 0xc7 && at[0] <= 0xc9));
		VF_CHECK(x == e && pk->offset == off, "extension probe says %d, expected %d", x, e);
		return false;
	}
	}
	VF_CHECK(ok == w.ok, "%s reader %s at position %u of %u although %s complete item is there", rn[r], ok ? "succeeded" : "failed", off, len, w.ok ? "a" : "no");
	if (ok) VF_CHECK(pk->offset == off + w.used, "%s reader moved %u, item has %llu bytes", rn[r], pk->offset - off, (unsigned long long)w.used);
	return ok;
}

static void all_readers(const uint8_t* buf, uint32_t len, uint32_t pos)
{
	for (int r = 0; r < NREAD; r++) {
		as_unpacker pk = { .buffer = buf, .offset = pos, .length = len };
		read_one(r, &pk);
	}
}

static const uint8_t heads[] = { 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xa0, 0xa5, 0xbf, 0x90, 0x9f, 0x80, 0x8f, 0x00, 0x7f, 0xe0, 0xff, 0xc0, 0xc1, 0xc2, 0xc3 };

/* one header with a length field near the number of bytes that follow */
static void items(void)
{
	uint32_t pos = (uint32_t)vf_draw(4);
	uint8_t h = heads[vf_draw(sizeof(heads))];
	unsigned k = 0;
	switch (h) {
	case 0xc4: case 0xd9: case 0xc7: k = 1; break;
	case 0xc5: case 0xda: case 0xc8: case 0xdc: case 0xde: k = 2; break;
	case 0xc6: case 0xdb: case 0xc9: case 0xdd: case 0xdf: k = 4; break;
	}
	uint32_t rest = vf_chance(1, 8) ? (uint32_t)vf_range(0, 400) : (uint32_t)vf_draw(24);
	uint32_t len = pos + 1 + rest;
	if (vf_chance(1, 20)) len = pos;
	uint8_t* buf = vf_guarded(len);
	vf_fill(buf, len);
	if (len > pos) {
		buf[pos] = h;
		if (k && rest >= k) {
			static const uint64_t far[] = { 0xffffffffu, 0xfffffffeu, 0xfffffff0u, 0x80000000u, 0x7fffffffu, 0xffff, 0x8000, 0xff, 0x80, 0 };
			static const unsigned w[] = { 4, 2, 1 };
			uint64_t n;
			switch (vf_pick(3, w)) {
			case 0: n = (uint64_t)((int64_t)rest - (int64_t)k - 3 + (int64_t)vf_draw(6)); break;
			case 1: n = far[vf_draw(10)] - vf_draw(12); break;
			default: n = vf_draw(0); break;
			}
			for (unsigned i = 0; i < k; i++) buf[pos + 1 + i] = (uint8_t)(n >> (8 * (k - 1 - i)));
		}
	}
	if (vf_describing()) vf_note_hex(vf_fmt("position %u bytes", pos), buf, len > 48 ? 48 : len);
	if (len >= pos + 2) vf_nontrivial();
	all_readers(buf, len, pos);
}

/* a valid encoding, cut anywhere and mutated, read by a chain of readers */
static void chain(void)
{
	mcfg c = { .budget = (unsigned)vf_range(1, 12), .depth = 3, .ext_meta = true, .wild = true, .nan = true };
	mval* m = m_gen(&c);
	mbuf b = { 0 };
	m_encode_any(&b, m, (unsigned)vf_draw(9));
	uint32_t len = (uint32_t)b.n;
	if (vf_bool()) len = (uint32_t)vf_draw(b.n + 1);
	uint8_t* buf = vf_guarded(len);
	memcpy(buf, b.p, len);
	unsigned mut = (unsigned)vf_draw(4);
	for (unsigned i = 0; i < mut && len; i++) {
		uint32_t at = (uint32_t)vf_draw(len);
		buf[at] = vf_bool() ? heads[vf_draw(sizeof(heads))] : (uint8_t)vf_draw(256);
	}
	uint32_t pos = vf_bool() ? 0 : (uint32_t)vf_draw(len + 1);
	if (vf_describing()) vf_note_hex(vf_fmt("position %u bytes", pos), buf, len > 48 ? 48 : len);
	if (len >= pos + 2) vf_nontrivial();
	as_unpacker pk = { .buffer = buf, .offset = pos, .length = len };
	for (int n = 0; n < 200; n++) {
		all_readers(buf, len, pk.offset);
		/* take whichever reader succeeds, else stop */
		bool moved = false;
		for (int r = 0; r < NREAD && !moved; r++) {
			as_unpacker q = pk;
			if (r != R_ISEXT && read_one(r, &q)) { moved = q.offset > pk.offset; pk = q; }
		}
		if (!moved) break;
	}
}

static void bytes(void)
{
	uint32_t len = (uint32_t)vf_draw(40);
	uint8_t* buf = vf_guarded(len);
	for (uint32_t i = 0; i < len; i++) buf[i] = (uint8_t)vf_draw(256);
	uint32_t pos = (uint32_t)vf_draw(len + 1);
	if (len >= pos + 2) vf_nontrivial();
	if (vf_describing()) vf_note_hex(vf_fmt("position %u bytes", pos), buf, len);
	all_readers(buf, len, pos);
}

/* the same in a buffer of up to 2^32 - 1 bytes, with nothing readable after it */
static void far(void)
{
	static uint8_t* area;
	const uint64_t room = 1ull << 32;
	if (!area) {
		area = mmap(NULL, room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (area == MAP_FAILED || mprotect(area + room, 4096, PROT_NONE)) vf_fail("harness: mmap");
	}
	static const uint64_t size[] = { 0xffffffffu, 0xfffffff0u, 0x80000010u, 0x7fffffffu, 0x1000010u, 0x10010u };
	uint64_t len = vf_chance(1, 4) ? vf_range(64, 0xffffffffu) : size[vf_draw(6)] - vf_draw(16);
	uint8_t* buf = area + room - len;
	uint64_t pos = vf_chance(1, 3) ? vf_draw(16) : vf_chance(1, 2) ? len - 1 - vf_draw(32) : vf_draw(len);
	static const uint8_t hd[] = { 0xc6, 0xdb, 0xc9, 0xc6, 0xdb, 0xc9, 0xc5, 0xda, 0xc8, 0xdd, 0xdf, 0xdc, 0xde, 0xcf, 0xd3, 0xcb, 0xd8 };
	uint8_t h = hd[vf_draw(sizeof(hd))];
	unsigned k = h == 0xc6 || h == 0xdb || h == 0xc9 || h == 0xdd || h == 0xdf ? 4 : h == 0xcf || h == 0xd3 || h == 0xcb || h == 0xd8 ? 0 : 2;
	uint64_t rest = len - pos - 1;
	uint64_t n = vf_chance(2, 3) ? rest - k - 3 + vf_draw(6) : vf_draw(0);
	uint64_t used = 1 + k;
	buf[pos] = h;
	for (unsigned i = 0; i < k && i < rest; i++) buf[pos + 1 + i] = (uint8_t)(n >> (8 * (k - 1 - i)));
	vf_note("header %02x at position %llu of %llu, length field %llx", h, (unsigned long long)pos, (unsigned long long)len, (unsigned long long)(n & (k == 4 ? 0xffffffffu : 0xffff)));
	vf_nontrivial();
	vf_label("far");
	all_readers(buf, (uint32_t)len, (uint32_t)pos);
	memset(buf + pos, 0, rest < used ? rest + 1 : used);
}

const vf_target vf_targets[] = {
	{ "items", items, 6000000, 60000000, VF_FUZZ },
	{ "chain", chain, 2000000, 20000000, VF_FUZZ },
	{ "bytes", bytes, 1500000, 15000000, VF_FUZZ },
	{ "far", far, 200000, 2000000, 0 },
	{ 0 }
};
