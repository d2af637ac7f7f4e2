/* C24: base64. */
#include <citrusleaf/cf_b64.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "a text of at least two groups, or any candidate text that is not a plain encoding; distinct by choice sequence";

static const char AB[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static int val(unsigned char c)
{
	if (c == 0) return -1;
	const char* p = strchr(AB, c);
	return p ? (int)(p - AB) : -1;
}

static uint32_t ref_encode(const uint8_t* in, uint32_t n, char* out)
{
	uint32_t o = 0;
	for (uint32_t bit = 0; bit < n * 8; bit += 6) {
		unsigned v = 0;
		for (unsigned k = 0; k < 6; k++) {
			uint32_t b = bit + k;
			v = v * 2 + (b < n * 8 ? (in[b / 8] >> (7 - b % 8)) & 1u : 0u);
		}
		out[o++] = AB[v];
	}
	while (o % 4) out[o++] = '=';
	return o;
}

/* -1: not well formed, else number of bytes. */
static int64_t ref_decode(const char* in, uint32_t n, uint8_t* out)
{
	if (n == 0 || n % 4) return -1;
	uint32_t pad = 0;
	if (in[n - 1] == '=') pad = in[n - 2] == '=' ? 2 : 1;
	uint32_t acc = 0, o = 0, bits = 0;
	for (uint32_t i = 0; i < n - pad; i++) {
		int v = val((unsigned char)in[i]);
		if (v < 0) return -1;
		acc = acc << 6 | (uint32_t)v;
		bits += 6;
		if (bits >= 8) { bits -= 8; out[o++] = (uint8_t)(acc >> bits); }
	}
	return o;
}

static char* exact(const char* s, uint32_t n)
{
	char* p = vf_guarded(n);
	memcpy(p, s, n);
	return p;
}

/* Every way of decoding one candidate text. */
static void decode_all(const char* text, uint32_t n)
{
	uint8_t* want = vf_tmp(n + 4);
	int64_t wn = ref_decode(text, n, want);
	vf_note_hex("text", text, n);
	bool with_size = vf_chance(7, 8);
	for (unsigned way = 0; way < 4; way++) {
		bool checked = way >= 2, in_place = way & 1;
		if (!checked && wn < 0) continue;
		char* in = exact(text, n);
		uint8_t* out = in_place ? (uint8_t*)in : vf_guarded(n % 4 ? n : cf_b64_decoded_buf_size(n));
		uint32_t size = 0xABCDEF01u;
		uint32_t* ps = with_size ? &size : NULL;
		bool ok = true;
		switch (way) {
		case 0: cf_b64_decode(in, n, out, ps); break;
		case 1: cf_b64_decode_in_place((uint8_t*)in, n, ps); break;
		case 2: ok = cf_b64_validate_and_decode(in, n, out, ps); break;
		default: ok = cf_b64_validate_and_decode_in_place((uint8_t*)in, n, ps); break;
		}
		if (wn < 0) { VF_CHECK(!ok, "malformed text accepted by %s decoder", in_place ? "in-place" : "separate"); continue; }
		VF_CHECK(ok, "well-formed text refused by %s decoder", in_place ? "in-place" : "separate");
		VF_CHECK(!ps || size == (uint32_t)wn, "decoded size %u, expected %u (way %u)", size, (uint32_t)wn, way);
		VF_CHECK(memcmp(out, want, (size_t)wn) == 0, "decoded bytes differ (way %u)", way);
		VF_CHECK(in_place || memcmp(in, text, n) == 0, "decoder changed its input");
	}
}

static void round_trip(void)
{
	uint32_t n = vf_chance(1, 300) ? (uint32_t)vf_draw(vf_chance(1, 10) ? 400000 : 30000) : (uint32_t)vf_skewed(400);
	uint8_t* in = vf_guarded(n);
	vf_fill(in, n);
	uint32_t want_len = (n + 2) / 3 * 4;
	VF_CHECK(cf_b64_encoded_len(n) == want_len, "predicted length of %u bytes is %u, expected %u", n, cf_b64_encoded_len(n), want_len);
	char* ref = vf_tmp(want_len + 4);
	VF_CHECK(ref_encode(in, n, ref) == want_len, "reference");
	uint8_t* copy = vf_tmp(n);
	memcpy(copy, in, n);
	char* out = vf_guarded(want_len);
	cf_b64_encode(in, n, out);
	VF_CHECK(memcmp(out, ref, want_len) == 0, "encoding of %u bytes differs: got %.*s want %.*s", n, (int)want_len, out, (int)want_len, ref);
	VF_CHECK(memcmp(in, copy, n) == 0, "encoder changed its input");
	if (n) {
		uint8_t* back = vf_tmp(n + 4);
		VF_CHECK(ref_decode(out, want_len, back) == n && memcmp(back, in, n) == 0, "reference decode");
		decode_all(out, want_len);
	}
	if (n > 3) vf_nontrivial();
}

/* Texts near well-formed ones. */
static void candidates(void)
{
	uint32_t n = (uint32_t)vf_skewed(24) * 4;
	if (vf_chance(1, 4)) n += (uint32_t)vf_draw(4);
	char* t = vf_tmp(n + 8);
	for (uint32_t i = 0; i < n; i++) t[i] = AB[vf_draw(64)];
	unsigned pads = n < 4 ? 0 : (unsigned)vf_draw(4);
	for (unsigned i = 0; i < pads; i++) t[n - 1 - i] = '=';
	unsigned muts = (unsigned)vf_draw(4);
	for (unsigned i = 0; i < muts && n; i++) {
		uint32_t at = (uint32_t)vf_draw(n);
		if (vf_bool()) at = n - 1 - (uint32_t)vf_draw(n < 4 ? n : 4);
		switch (vf_draw(4)) {
		case 0: t[at] = '='; break;
		case 1: t[at] = (char)vf_draw(256); break;
		case 2: t[at] = "-_ \n\r\t\0.,:;@[`{|}!*~#$%&'()<>?\\^\"\x80\xff"[vf_draw(36)]; break;
		default: t[at] = AB[vf_draw(64)]; break;
		}
	}
	decode_all(t, n);
	vf_nontrivial();
}

/* All pairs of bytes at the end of one and two groups; all single bytes everywhere. */
static void last_two(void)
{
	uint64_t i = vf_draw(2 * 65536 + 8 * 256 * 3);
	char t[8];
	for (unsigned k = 0; k < 8; k++) t[k] = AB[(k * 23 + 7) % 64];
	if (i < 2 * 65536) {
		uint32_t n = i < 65536 ? 4 : 8;
		t[n - 2] = (char)(i >> 8 & 255);
		t[n - 1] = (char)(i & 255);
		decode_all(t, n);
	}
	else {
		i -= 2 * 65536;
		unsigned pads = (unsigned)(i / 2048);
		for (unsigned k = 0; k < pads; k++) t[7 - k] = '=';
		t[i / 256 % 8] = (char)(i & 255);
		decode_all(t, 8);
	}
	vf_nontrivial();
}

/* Length predictions over the whole range of the size type. */
static void lengths(void)
{
	uint32_t n = vf_bool() ? vf_uint32() : (uint32_t)vf_draw(0) >> vf_draw(32);
	uint64_t enc = ((uint64_t)n + 2) / 3 * 4;
	if (enc <= UINT32_MAX) {
		vf_note("encoded length of %u", n);
		VF_CHECK(cf_b64_encoded_len(n) == enc, "predicted length of %u bytes is %u, expected %llu", n, cf_b64_encoded_len(n), (unsigned long long)enc);
	}
	uint32_t t = n & ~3u;
	uint64_t dec = (uint64_t)t / 4 * 3;
	vf_note("room for %u characters", t);
	VF_CHECK(cf_b64_decoded_buf_size(t) >= dec, "room for decoding %u characters given as %u, at least %llu needed", t, cf_b64_decoded_buf_size(t), (unsigned long long)dec);
	VF_CHECK(cf_b64_decoded_buf_size(t) == dec, "room for decoding %u characters given as %u, expected %llu", t, cf_b64_decoded_buf_size(t), (unsigned long long)dec);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "round_trip", round_trip, 600000, 8000000, 0 },
	{ "candidates", candidates, 800000, 10000000, VF_FUZZ },
	{ "last_two", last_two, 2 * 65536 + 8 * 256 * 3, 2 * 65536 + 8 * 256 * 3, VF_ENUM },
	{ "lengths", lengths, 400000, 4000000, 0 },
	{ NULL, NULL, 0, 0, 0 }
};
