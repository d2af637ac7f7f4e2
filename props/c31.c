/* C31: hash functions and byte order helpers. */
#define _GNU_SOURCE
#include <citrusleaf/cf_byte_order.h>
#include <citrusleaf/cf_hash_math.h>
#include <string.h>
#include "vf.h"
#include "vf_big.h"

#define REF __attribute__((no_sanitize("address")))

const char* const vf_rule = "input of at least one byte or any scalar; distinct by choice sequence";

static REF uint64_t load(const uint8_t* p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }

static REF uint64_t fnv(const uint8_t* p, size_t n, bool w64)
{
	uint64_t h = w64 ? 14695981039346656037ull : 2166136261u;
	for (size_t i = 0; i < n; i++) { h ^= p[i]; h = w64 ? h * 1099511628211ull : (uint32_t)(h * 16777619u); }
	return h;
}

static REF uint32_t jen32(const uint8_t* p, size_t n)
{
	uint32_t h = 0;
	for (size_t i = 0; i < n; i++) { h = h + p[i]; h = h + (h << 10); h = h ^ (h >> 6); }
	h = h + (h << 3); h = h ^ (h >> 11); h = h + (h << 15);
	return h;
}
static REF uint64_t jen64(const uint8_t* p, size_t n)
{
	uint64_t h = 0;
	for (size_t i = 0; i < n; i++) { h = h + p[i]; h = h + (h << 10); h = h ^ (h >> 6); }
	h = h + (h << 3); h = h ^ (h >> 11); h = h + (h << 15);
	return h;
}

static uint64_t rotl(uint64_t x, unsigned r) { return x << r | x >> (64 - r); }
static uint64_t mix(uint64_t k) { k = (k ^ k >> 33) * 0xff51afd7ed558ccdull; k = (k ^ k >> 33) * 0xc4ceb9fe1a85ec53ull; return k ^ k >> 33; }

/* MurmurHash3_x64_128, seed 0 (Appleby): a short last block is a block padded with zeroes, without the final mixing of h. */
static REF void murmur(const uint8_t* p, size_t n, uint64_t* out)
{
	const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
	uint64_t h1 = 0, h2 = 0;
	for (size_t at = 0; at < n; at += 16) {
		size_t left = n - at < 16 ? n - at : 16;
		uint64_t k1 = load(p + at, left < 8 ? (unsigned)left : 8), k2 = left > 8 ? load(p + at + 8, (unsigned)left - 8) : 0;
		k1 *= c1; k1 = rotl(k1, 31); k1 *= c2;
		k2 *= c2; k2 = rotl(k2, 33); k2 *= c1;
		h1 ^= k1;
		if (left == 16) { h1 = rotl(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729; }
		h2 ^= k2;
		if (left == 16) { h2 = rotl(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5; }
	}
	h1 ^= n; h2 ^= n;
	h1 += h2; h2 += h1;
	h1 = mix(h1); h2 = mix(h2);
	h1 += h2; h2 += h1;
	out[0] = h1; out[1] = h2;
}

/* wyhash, final version 3 (Wang Yi). */
static const uint64_t S[4] = { 0xa0761d6478bd642full, 0xe7037ed1a0b428dbull, 0x8ebc6af09c88c6e3ull, 0x589965cc75374cc3ull };
static uint64_t mum(uint64_t a, uint64_t b) { unsigned __int128 r = (unsigned __int128)a * b; return (uint64_t)r ^ (uint64_t)(r >> 64); }
static REF uint64_t wy(const uint8_t* p, size_t n, uint64_t seed)
{
	uint64_t a, b;
	seed ^= S[0];
	if (n == 0) a = b = 0;
	else if (n < 4) { a = (uint64_t)p[0] << 16 | (uint64_t)p[n / 2] << 8 | p[n - 1]; b = 0; }
	else if (n <= 16) {
		size_t d = n / 8 * 4;
		a = load(p, 4) << 32 | load(p + d, 4);
		b = load(p + n - 4, 4) << 32 | load(p + n - 4 - d, 4);
	}
	else {
		size_t i = n;
		const uint8_t* q = p;
		if (i > 48) {
			uint64_t s1 = seed, s2 = seed;
			for (; i > 48; q += 48, i -= 48) {
				seed = mum(load(q, 8) ^ S[1], load(q + 8, 8) ^ seed);
				s1 = mum(load(q + 16, 8) ^ S[2], load(q + 24, 8) ^ s1);
				s2 = mum(load(q + 32, 8) ^ S[3], load(q + 40, 8) ^ s2);
			}
			seed ^= s1 ^ s2;
		}
		for (; i > 16; q += 16, i -= 16) seed = mum(load(q, 8) ^ S[1], load(q + 8, 8) ^ seed);
		a = load(q + i - 16, 8);
		b = load(q + i - 8, 8);
	}
	return mum(S[1] ^ n, mum(a ^ S[1], b ^ seed));
}

static void judge(const uint8_t* p, size_t n)
{
	uint64_t m[2];
	uint8_t* out = vf_guarded(16);
	VF_CHECK(cf_hash_fnv32(p, n) == (uint32_t)fnv(p, n, false), "FNV-1a 32 of %zu bytes differs", n);
	VF_CHECK(cf_hash_fnv64(p, n) == fnv(p, n, true), "FNV-1a 64 of %zu bytes differs", n);
	VF_CHECK(cf_hash_jen32(p, n) == jen32(p, n), "one-at-a-time 32 of %zu bytes differs", n);
	VF_CHECK(cf_hash_jen64(p, n) == jen64(p, n), "one-at-a-time 64 of %zu bytes differs", n);
	murmurHash3_x64_128(p, n, out);
	murmur(p, n, m);
	VF_CHECK(load(out, 8) == m[0] && load(out + 8, 8) == m[1], "MurmurHash3 of %zu bytes differs", n);
	uint64_t w = wy(p, n, 0x29FBB14cc886full);
	VF_CHECK(cf_wyhash64(p, n) == w, "wyhash 64 of %zu bytes differs", n);
	VF_CHECK(cf_wyhash32(p, n) == (uint32_t)w, "wyhash 32 of %zu bytes differs", n);
	if (n >= 8) { uint64_t v; memcpy(&v, p, 8); VF_CHECK(cf_hash_ptr32(&v) == (uint32_t)((v * 0xe221f97c30e94e1dull) >> 32), "pointer hash of %llx differs", (unsigned long long)v); }
}

static void hashes(void)
{
	size_t n = vf_chance(1, 100) ? (size_t)vf_draw(5000) : vf_bool() ? (size_t)vf_draw(24) : (size_t)vf_draw(220);
	size_t off = (size_t)vf_draw(16);
	uint8_t* b = (uint8_t*)vf_guarded(n + off) + off; /* the end is exact at any alignment */
	if (vf_chance(1, 8)) memset(b, vf_bool() ? 0 : 0xFF, n);
	else vf_fill(b, n);
	vf_note_hex("bytes", b, n);
	judge(b, n);
	/* and exact in front */
	uint8_t* f = vf_guarded(n);
	memcpy(f, b, n);
	judge(f, n);
	if (n) vf_nontrivial();
}

static void large(void)
{
	static const size_t edge[] = { 4096, 8192, 32768, 65536, 131072, 1u << 20, 1u << 24, 1u << 26 };
	static const unsigned w[] = { 8, 8, 8, 16, 8, 4, 2, 1 };
	size_t n = edge[vf_pick(8, w)];
	n = vf_bool() ? n / 2 + (size_t)vf_draw(n / 2) : n - 20 + (size_t)vf_draw(40);
	size_t off = (size_t)vf_draw(16);
	uint8_t* b = (uint8_t*)vf_guarded(n + off) + off;
	vf_rng r = { vf_draw(0) };
	for (size_t i = 0; i < n; i += 8) { uint64_t x = vf_rng_next(&r); memcpy(b + i, &x, n - i < 8 ? n - i : 8); }
	vf_note("%zu bytes", n);
	vf_label("large");
	judge(b, n);
	vf_nontrivial();
}

/* Every length, every single-bit input of short lengths. */
static void lengths(void)
{
	size_t n = (size_t)vf_draw(600);
	uint8_t* b = vf_guarded(n);
	vf_rng r = { n };
	for (size_t i = 0; i < n; i++) b[i] = (uint8_t)vf_rng_next(&r);
	judge(b, n);
	if (n <= 100) {
		memset(b, 0, n);
		for (size_t i = 0; i < n * 8; i++) { b[i / 8] = (uint8_t)(1 << i % 8); judge(b, n); b[i / 8] = 0; }
	}
	if (n) vf_nontrivial();
}

static void published(void)
{
	const uint8_t* a = (const uint8_t*)"a";
	VF_CHECK(fnv(a, 1, false) == 0xe40c292cu && fnv(a, 1, true) == 0xaf63dc4c8601ec8cull, "reference FNV-1a");
	VF_CHECK(jen32(a, 1) == 0xca2e9442u, "reference one-at-a-time");
	uint64_t m[2];
	murmur((const uint8_t*)"hello", 5, m);
	VF_CHECK(m[0] == 0xcbd8a7b341bd9b02ull && m[1] == 0x5b1e906a48ae1d19ull, "reference MurmurHash3");
	static const struct { const char* s; uint64_t h; } w[] = {
		{ "", 0x42bc986dc5eec4d3ull }, { "a", 0x84508dc903c31551ull }, { "abc", 0x0bc54887cfc9ecb1ull }, { "message digest", 0x6e2ff3298208a67cull },
		{ "abcdefghijklmnopqrstuvwxyz", 0x9a64e42e897195b9ull }, { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", 0x9199383239c32554ull },
		{ "12345678901234567890123456789012345678901234567890123456789012345678901234567890", 0x7c1ccf6bba30f5a5ull } };
	for (unsigned i = 0; i < 7; i++) VF_CHECK(wy((const uint8_t*)w[i].s, strlen(w[i].s), i) == w[i].h, "reference wyhash %u: %llx", i, (unsigned long long)wy((const uint8_t*)w[i].s, strlen(w[i].s), i));
	vf_nontrivial();
}

/* Stored bytes, most significant first or last. */
static void stored(const void* p, uint64_t v, unsigned n, bool big, const char* what)
{
	const uint8_t* b = p;
	for (unsigned i = 0; i < n; i++) VF_CHECK(b[i] == (uint8_t)(v >> (8 * (big ? n - 1 - i : i))), "%s of %llx: byte %u is %02x", what, (unsigned long long)v, i, b[i]);
}

/* lengths past 32 bits */
static void huge(void)
{
	unsigned k = (unsigned)vf_draw(6);
	size_t n = ((size_t)4 << 30) + 1 + (size_t)vf_draw(100000);
	vf_big b = vf_big_make(n, vf_draw(0), false);
	const uint8_t* p = b.p;
	static const char* name[] = { "FNV-1a 32", "FNV-1a 64", "one-at-a-time 32", "one-at-a-time 64", "MurmurHash3", "wyhash" };
	vf_note("%s of %zu bytes", name[k], n);
	uint64_t got[2] = { 0 }, want[2] = { 0 };
	switch (k) {
	case 0: got[0] = cf_hash_fnv32(p, n); want[0] = fnv(p, n, false); break;
	case 1: got[0] = cf_hash_fnv64(p, n); want[0] = fnv(p, n, true); break;
	case 2: got[0] = cf_hash_jen32(p, n); want[0] = jen32(p, n); break;
	case 3: got[0] = cf_hash_jen64(p, n); want[0] = jen64(p, n); break;
	case 4: murmurHash3_x64_128(p, n, got); murmur(p, n, want); break;
	default: got[0] = cf_wyhash64(p, n); want[0] = wy(p, n, 0x29FBB14cc886full);
	}
	vf_big_free(&b);
	VF_CHECK(got[0] == want[0] && got[1] == want[1], "%s of %zu bytes differs", name[k], n);
	vf_nontrivial();
}

static void order16(void)
{
	uint16_t v = (uint16_t)vf_draw(65536), x;
	x = cf_swap_to_be16(v); stored(&x, v, 2, true, "to big 16"); VF_CHECK(cf_swap_from_be16(x) == v, "from big 16 of %x", v);
	x = cf_swap_to_le16(v); stored(&x, v, 2, false, "to little 16"); VF_CHECK(cf_swap_from_le16(x) == v, "from little 16 of %x", v);
	vf_nontrivial();
}

static void orders(void)
{
	uint32_t v = vf_bool() ? vf_uint32() : (uint32_t)vf_draw(1ull << 32), x;
	x = cf_swap_to_be32(v); stored(&x, v, 4, true, "to big 32"); VF_CHECK(cf_swap_from_be32(x) == v, "from big 32 of %x", v);
	x = cf_swap_to_le32(v); stored(&x, v, 4, false, "to little 32"); VF_CHECK(cf_swap_from_le32(x) == v, "from little 32 of %x", v);
	uint64_t w = vf_bool() ? vf_uint64() : vf_draw(0), y;
	if (vf_chance(1, 8)) w = (vf_bool() ? 0x7ff0000000000000ull : 0xfff0000000000000ull) | vf_draw(1ull << 52); /* not-a-number, quiet or signaling */
	y = cf_swap_to_be64(w); stored(&y, w, 8, true, "to big 64"); VF_CHECK(cf_swap_from_be64(y) == w, "from big 64");
	y = cf_swap_to_le64(w); stored(&y, w, 8, false, "to little 64"); VF_CHECK(cf_swap_from_le64(y) == w, "from little 64");
	double d, e;
	memcpy(&d, &w, 8);
	vf_note("%x %llx", v, (unsigned long long)w);
	e = cf_swap_to_big_float64(d); stored(&e, w, 8, true, "to big double");
	e = cf_swap_from_big_float64(e); VF_CHECK(memcmp(&e, &w, 8) == 0, "double through big-endian storage");
	e = cf_swap_to_little_float64(d); stored(&e, w, 8, false, "to little double");
	e = cf_swap_from_little_float64(e); VF_CHECK(memcmp(&e, &w, 8) == 0, "double through little-endian storage");
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "published", published, 1, 1, VF_ENUM },
	{ "lengths", lengths, 600, 600, VF_ENUM },
	{ "order16", order16, 65536, 65536, VF_ENUM },
	{ "hashes", hashes, 2500000, 30000000, 0 },
	{ "large", large, 1200, 12000, 0 },
	{ "huge", huge, 6, 6, VF_ENUM | VF_LONG },
	{ "orders", orders, 5000000, 50000000, 0 },
	{ NULL, NULL, 0, 0, 0 }
};
