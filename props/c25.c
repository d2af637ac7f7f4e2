/* C25: message digests. */
#include <citrusleaf/cf_crypto.h>
#include <citrusleaf/cf_digest.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "message of at least 56 bytes or of at least two chunks; distinct by choice sequence";

/* ---- SHA-1 (FIPS 180-4) and RIPEMD-160 (Dobbertin, Bosselaers, Preneel) over a whole message ---- */
static uint32_t rol(uint32_t x, unsigned n) { return x << n | x >> (32 - n); }

static uint8_t* padded(const uint8_t* m, size_t n, bool big, size_t* out)
{
	size_t t = (n + 9 + 63) / 64 * 64;
	uint8_t* p = vf_tmp(t);
	memset(p, 0, t);
	memcpy(p, m, n);
	p[n] = 0x80;
	for (unsigned i = 0; i < 8; i++) p[t - 8 + i] = (uint8_t)((uint64_t)n * 8 >> (big ? 56 - 8 * i : 8 * i));
	*out = t;
	return p;
}

static void ref_sha1(const uint8_t* m, size_t n, uint8_t* md)
{
	size_t t;
	uint8_t* p = padded(m, n, true, &t);
	uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
	for (size_t o = 0; o < t; o += 64) {
		uint32_t w[80], v[5];
		for (unsigned i = 0; i < 16; i++) w[i] = (uint32_t)p[o + 4 * i] << 24 | (uint32_t)p[o + 4 * i + 1] << 16 | (uint32_t)p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3];
		for (unsigned i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		memcpy(v, h, sizeof(v));
		for (unsigned i = 0; i < 80; i++) {
			static const uint32_t k[4] = { 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6 };
			uint32_t b = v[1], c = v[2], d = v[3];
			uint32_t f = i < 20 ? ((b & c) ^ (~b & d)) : i < 40 ? (b ^ c ^ d) : i < 60 ? ((b & c) ^ (b & d) ^ (c & d)) : (b ^ c ^ d);
			uint32_t x = rol(v[0], 5) + f + v[4] + k[i / 20] + w[i];
			v[4] = d; v[3] = c; v[2] = rol(b, 30); v[1] = v[0]; v[0] = x;
		}
		for (unsigned i = 0; i < 5; i++) h[i] += v[i];
	}
	for (unsigned i = 0; i < 20; i++) md[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
}

static uint32_t rmd_f(unsigned j, uint32_t x, uint32_t y, uint32_t z)
{
	switch (j) {
	case 0: return x ^ y ^ z;
	case 1: return (x & y) | (~x & z);
	case 2: return (x | ~y) ^ z;
	case 3: return (x & z) | (y & ~z);
	default: return x ^ (y | ~z);
	}
}

static void ref_rmd(const uint8_t* m, size_t n, uint8_t* md)
{
	static const uint8_t rho[16] = { 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8 };
	static const uint8_t shifts[5][16] = {
		{ 11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8 },
		{ 12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7 },
		{ 13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9 },
		{ 14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6 },
		{ 15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5 } };
	static const uint32_t kl[5] = { 0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E };
	static const uint32_t kr[5] = { 0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0 };
	size_t t;
	uint8_t* p = padded(m, n, false, &t);
	uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
	for (size_t o = 0; o < t; o += 64) {
		uint32_t x[16];
		for (unsigned i = 0; i < 16; i++) x[i] = (uint32_t)p[o + 4 * i] | (uint32_t)p[o + 4 * i + 1] << 8 | (uint32_t)p[o + 4 * i + 2] << 16 | (uint32_t)p[o + 4 * i + 3] << 24;
		uint32_t v[2][5];
		memcpy(v[0], h, sizeof(h));
		memcpy(v[1], h, sizeof(h));
		uint8_t r[2][16];
		for (unsigned i = 0; i < 16; i++) { r[0][i] = (uint8_t)i; r[1][i] = (uint8_t)((9 * i + 5) % 16); }
		for (unsigned j = 0; j < 5; j++) {
			for (unsigned side = 0; side < 2; side++) {
				uint32_t* a = v[side];
				for (unsigned i = 0; i < 16; i++) {
					unsigned w = r[side][i];
					uint32_t s = a[0] + rmd_f(side ? 4 - j : j, a[1], a[2], a[3]) + x[w] + (side ? kr[j] : kl[j]);
					s = rol(s, shifts[j][w]) + a[4];
					a[0] = a[4]; a[4] = a[3]; a[3] = rol(a[2], 10); a[2] = a[1]; a[1] = s;
				}
				for (unsigned i = 0; i < 16; i++) r[side][i] = rho[r[side][i]];
			}
		}
		uint32_t x0 = h[1] + v[0][2] + v[1][3];
		h[1] = h[2] + v[0][3] + v[1][4];
		h[2] = h[3] + v[0][4] + v[1][0];
		h[3] = h[4] + v[0][0] + v[1][1];
		h[4] = h[0] + v[0][1] + v[1][2];
		h[0] = x0;
	}
	for (unsigned i = 0; i < 20; i++) md[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4)));
}

static void same(const char* what, size_t n, const uint8_t* got, const uint8_t* want)
{
	if (memcmp(got, want, 20)) {
		vf_note_hex("got", got, 20);
		vf_note_hex("want", want, 20);
		vf_fail("%s of %zu bytes differs", what, n);
	}
}

static uint8_t* message(size_t* n)
{
	switch (vf_draw(4)) {
	case 0: *n = (size_t)vf_draw(200); break;
	case 1: *n = (size_t)vf_draw(6) * 64 + vf_range(50, 70); break;
	case 2: *n = (size_t)vf_skewed(3000); break;
	default: *n = (size_t)vf_draw(70); break;
	}
	uint8_t* m = vf_guarded(*n);
	if (vf_chance(1, 8)) memset(m, (int)vf_draw(256), *n);
	else vf_fill(m, *n);
	vf_note("%zu bytes", *n);
	vf_note_hex("message", m, *n);
	return m;
}

static void sha1(void)
{
	size_t n;
	uint8_t* m = message(&n);
	uint8_t want[20];
	uint8_t* got = vf_guarded(20);
	ref_sha1(m, n, want);
	cf_SHA1(m, n, got);
	same("SHA-1", n, got, want);
	if (n >= 56) vf_nontrivial();
}

static void whole(void)
{
	size_t n;
	uint8_t* m = message(&n);
	uint8_t want[20];
	uint8_t* got = vf_guarded(20);
	ref_rmd(m, n, want);
	VF_CHECK(cf_RIPEMD160(m, n, got) == 0, "one-call digest reports failure");
	same("RIPEMD-160", n, got, want);
	cf_digest* d = vf_guarded(sizeof(cf_digest));
	cf_digest_compute(m, n, d);
	same("record digest", n, d->digest, want);
	size_t cut = (size_t)vf_draw(n + 1);
	uint8_t *a = vf_guarded(cut), *b = vf_guarded(n - cut);
	memcpy(a, m, cut);
	memcpy(b, m + cut, n - cut);
	memset(d->digest, 0, 20);
	vf_note("cut at %zu", cut);
	cf_digest_compute2(a, cut, b, n - cut, d);
	same("two-part digest", n, d->digest, want);
	char* text = vf_guarded(2 + 40 + 1);
	char ref[43] = "0x";
	for (unsigned i = 0; i < 20; i++) { ref[2 + 2 * i] = "0123456789abcdef"[want[i] >> 4]; ref[3 + 2 * i] = "0123456789abcdef"[want[i] & 15]; }
	cf_digest_string(d, text);
	VF_CHECK(strcmp(text, ref) == 0, "printable digest %s, expected %s", text, ref);
	/* both parts from the same memory, also overlapping */
	size_t p = (size_t)vf_draw(n + 1), q = vf_chance(1, 3) ? p : (size_t)vf_draw(n + 1), k = (size_t)vf_draw(n - p + 1), l = vf_bool() && q + k <= n ? k : (size_t)vf_draw(n - q + 1);
	uint8_t* both = vf_tmp(k + l + 1);
	memcpy(both, m + p, k);
	memcpy(both + k, m + q, l);
	vf_note("parts %zu+%zu and %zu+%zu", p, k, q, l);
	ref_rmd(both, k + l, want);
	cf_digest_compute2(m + p, k, m + q, l, d);
	same("digest of two parts of one message", k + l, d->digest, want);
	if (n >= 56) vf_nontrivial();
}

static void chunks(void)
{
	size_t n;
	uint8_t* m = message(&n);
	uint8_t want[20];
	ref_rmd(m, n, want);
	uint8_t* got = vf_guarded(20);
	cf_RIPEMD160_CTX* c = vf_guarded(sizeof(cf_RIPEMD160_CTX));
	memset(c, vf_junk(), sizeof(*c));
	unsigned uses = vf_chance(1, 8) ? 2 : 1, parts = 0;
	for (unsigned u = 0; u < uses; u++) {
		VF_CHECK(cf_RIPEMD160_Init(c) == 0, "start reports failure");
		size_t at = 0;
		unsigned empties = 0;
		while (at < n || vf_chance(1, 6)) {
			size_t left = n - at, k;
			switch (vf_draw(6)) {
			case 0: k = (size_t)vf_draw(4); break;
			case 1: k = (size_t)vf_range(60, 68); break;
			case 2: k = 64 - at % 64 + (size_t)vf_draw(3) - 1; break;
			case 3: k = (size_t)vf_draw(300); break;
			case 4: k = left; break;
			default: k = (size_t)vf_draw(left + 1); break;
			}
			if (k > left) k = left;
			if (k == 0 && empties++ > 3) k = left < 7 ? left : 7;
			uint8_t* part = vf_guarded(k);
			memcpy(part, m + at, k);
			vf_note("chunk %zu", k);
			VF_CHECK(cf_RIPEMD160_Update(c, part, k) == 0, "chunk reports failure");
			at += k;
			parts++;
			if (parts > 200 && at < n) { VF_CHECK(cf_RIPEMD160_Update(c, m + at, n - at) == 0, "chunk reports failure"); at = n; }
			if (at == n && parts > 200) break;
		}
		memset(got, 0, 20);
		VF_CHECK(cf_RIPEMD160_Final(got, c) == 0, "finish reports failure");
		same("RIPEMD-160 in chunks", n, got, want);
	}
	if (n >= 56 || parts >= 2) vf_nontrivial();
}

/* Every length up to 4 blocks. */
static void all_lengths(void)
{
	size_t n = (size_t)vf_draw(1024);
	uint8_t* m = vf_guarded(n);
	vf_rng r = { n };
	for (size_t i = 0; i < n; i++) m[i] = (uint8_t)vf_rng_next(&r);
	uint8_t want[20];
	uint8_t* got = vf_guarded(20);
	ref_sha1(m, n, want);
	cf_SHA1(m, n, got);
	same("SHA-1", n, got, want);
	ref_rmd(m, n, want);
	cf_RIPEMD160(m, n, got);
	same("RIPEMD-160", n, got, want);
	for (size_t cut = 0; cut <= n; cut++) {
		cf_digest d;
		cf_digest_compute2(m, cut, m + cut, n - cut, &d);
		same("two-part digest", n, d.digest, want);
	}
	if (n >= 56) vf_nontrivial();
}

/* Digests order as byte strings. */
static void order(void)
{
	cf_digest* a = vf_guarded(sizeof(cf_digest)); cf_digest* b = vf_guarded(sizeof(cf_digest));
	vf_fill(a->digest, 20);
	memcpy(b->digest, a->digest, 20);
	unsigned k = (unsigned)vf_draw(4);
	if (k == 1) vf_fill(b->digest, 20);
	else if (k > 1) for (unsigned i = 0; i < k - 1; i++) b->digest[vf_draw(20)] ^= (uint8_t)(vf_bool() ? 0x80 : vf_draw(256));
	int want = 0;
	for (int i = 0; i < 20 && !want; i++) want = (a->digest[i] > b->digest[i]) - (a->digest[i] < b->digest[i]);
	vf_note_hex("first", a->digest, 20); vf_note_hex("second", b->digest, 20);
	int x = cf_digest_compare(a, b), y = cf_digest_compare(b, a);
	VF_CHECK((x > 0) - (x < 0) == want && (y > 0) - (y < 0) == -want, "digests compare %d and %d, expected sign %d", x, y, want);
	if (want) vf_nontrivial();
}

/* The published examples decide that the reference itself is right. */
static void published(void)
{
	static const struct { const char* m; const char* sha; const char* rmd; } t[] = {
		{ "", "da39a3ee5e6b4b0d3255bfef95601890afd80709", "9c1185a5c5e9fc54612808977ee8f548b2258d31" },
		{ "abc", "a9993e364706816aba3e25717850c26c9cd0d89d", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc" },
		{ "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "84983e441c3bd26ebaae4aa1f95129e5e54670f1", "12a053384a9c0c88e405a06c27dcf49ada62eb2b" } };
	unsigned i = (unsigned)vf_draw(3);
	uint8_t s[20], r[20], got[20];
	size_t n = strlen(t[i].m);
	for (unsigned k = 0; k < 20; k++) { unsigned a, b; sscanf(t[i].sha + 2 * k, "%2x", &a); sscanf(t[i].rmd + 2 * k, "%2x", &b); s[k] = (uint8_t)a; r[k] = (uint8_t)b; }
	ref_sha1((const uint8_t*)t[i].m, n, got);
	same("reference SHA-1", n, got, s);
	ref_rmd((const uint8_t*)t[i].m, n, got);
	same("reference RIPEMD-160", n, got, r);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "published", published, 3, 3, VF_ENUM },
	{ "all_lengths", all_lengths, 520, 1024, VF_ENUM },
	{ "sha1", sha1, 2000000, 20000000, 0 },
	{ "order", order, 500000, 5000000, 0 },
	{ "whole", whole, 1500000, 15000000, 0 },
	{ "chunks", chunks, 3000000, 30000000, 0 },
	{ NULL, NULL, 0, 0, 0 }
};
