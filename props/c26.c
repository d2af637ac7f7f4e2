/* C26: password hashing. */
#include <aerospike/as_password.h>
#include <aerospike/as_random.h>
#include <stdio.h>
#include <string.h>
#include "pi_words.h"
#include "vf.h"

const char* const vf_rule = "a hash was produced and compared, or an almost well-formed setting was judged; distinct by choice sequence";

/* ---- bcrypt after Provos and Mazieres, 1999 ---- */
typedef struct { uint32_t p[18], s[4][256]; } bf;

static void encipher(const bf* b, uint32_t* l, uint32_t* r)
{
	uint32_t x = *l, y = *r;
	for (unsigned i = 0; i < 16; i++) {
		x ^= b->p[i];
		y ^= ((b->s[0][x >> 24] + b->s[1][x >> 16 & 255]) ^ b->s[2][x >> 8 & 255]) + b->s[3][x & 255];
		uint32_t t = x; x = y; y = t;
	}
	uint32_t t = x; x = y; y = t;
	y ^= b->p[16];
	x ^= b->p[17];
	*l = x; *r = y;
}

static void expand(bf* b, const uint32_t* salt)
{
	uint32_t l = 0, r = 0;
	unsigned k = 0;
	uint32_t* w[5] = { b->p, b->s[0], b->s[1], b->s[2], b->s[3] };
	for (unsigned a = 0; a < 5; a++)
		for (unsigned i = 0; i < (a ? 256u : 18u); i += 2) {
			if (salt) { l ^= salt[k]; r ^= salt[k + 1]; k = (k + 2) % 4; }
			encipher(b, &l, &r);
			w[a][i] = l; w[a][i + 1] = r;
		}
}

static const char B64[65] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";

static void b64_put(char* out, const uint8_t* in, unsigned n)
{
	unsigned o = 0;
	for (unsigned bit = 0; bit < n * 8; bit += 6) {
		unsigned v = 0;
		for (unsigned k = 0; k < 6; k++) v = v * 2 + (bit + k < n * 8 ? (in[(bit + k) / 8] >> (7 - (bit + k) % 8)) & 1u : 0u);
		out[o++] = B64[v];
	}
	out[o] = 0;
}

static bool b64_get(uint8_t* out, const char* in, unsigned chars)
{
	memset(out, 0, chars);
	for (unsigned i = 0; i < chars; i++) {
		const char* p = in[i] ? strchr(B64, in[i]) : NULL;
		if (!p) return false;
		unsigned v = (unsigned)(p - B64);
		for (unsigned k = 0; k < 6; k++) if (v >> (5 - k) & 1) out[(i * 6 + k) / 8] |= (uint8_t)(0x80 >> (i * 6 + k) % 8);
	}
	return true;
}

/* "2y" is bcrypt; "2x" reproduces the sign-extension mistake of old systems; "2a" is bcrypt except where a
 * password with high-bit characters would collide under the mistake. */
static bool ref_bcrypt(const char* pw, const char* set, char* out)
{
	if (strncmp(set, "$2", 2) || (set[2] != 'a' && set[2] != 'x' && set[2] != 'y') || set[3] != '$') return false;
	if (set[4] < '0' || set[4] > '9' || set[5] < '0' || set[5] > '9' || set[6] != '$') return false;
	unsigned cost = (unsigned)(set[4] - '0') * 10 + (unsigned)(set[5] - '0');
	if (cost < 4 || cost > 31) return false;
	uint8_t raw[24];
	if (!b64_get(raw, set + 7, 22)) return false;
	uint32_t salt[4];
	for (unsigned i = 0; i < 4; i++) salt[i] = (uint32_t)raw[4 * i] << 24 | (uint32_t)raw[4 * i + 1] << 16 | (uint32_t)raw[4 * i + 2] << 8 | raw[4 * i + 3];
	size_t cyc = strlen(pw) + 1, at = 0;
	uint32_t good[18], bad[18];
	bool extended = false;
	for (unsigned i = 0; i < 18; i++) {
		good[i] = bad[i] = 0;
		for (unsigned j = 0; j < 4; j++) {
			uint8_t c = (uint8_t)pw[at % cyc];
			at++;
			good[i] = good[i] << 8 | c;
			bad[i] = bad[i] << 8 | (uint32_t)(int32_t)(int8_t)c;
			if (j && c >= 0x80) extended = true;
		}
	}
	bool collides = extended && memcmp(good, bad, sizeof(good)) == 0;
	const uint32_t* key = set[2] == 'x' ? bad : good;
	bf* b = vf_tmp(sizeof(bf));
	memcpy(b->p, pi_words, sizeof(b->p));
	memcpy(b->s, pi_words + 18, sizeof(b->s));
	for (unsigned i = 0; i < 18; i++) b->p[i] ^= key[i];
	if (set[2] == 'a' && collides) b->p[0] ^= 0x10000;
	expand(b, salt);
	for (uint64_t n = 0; n < 1ull << cost; n++) {
		for (unsigned i = 0; i < 18; i++) b->p[i] ^= key[i];
		expand(b, NULL);
		for (unsigned i = 0; i < 18; i++) b->p[i] ^= salt[i % 4];
		expand(b, NULL);
	}
	const char* magic = "OrpheanBeholderScryDoubt";
	uint8_t text[24];
	for (unsigned i = 0; i < 3; i++) {
		uint32_t l = 0, r = 0;
		for (unsigned k = 0; k < 4; k++) { l = l << 8 | (uint8_t)magic[8 * i + k]; r = r << 8 | (uint8_t)magic[8 * i + 4 + k]; }
		for (unsigned k = 0; k < 64; k++) encipher(b, &l, &r);
		for (unsigned k = 0; k < 4; k++) { text[8 * i + k] = (uint8_t)(l >> (24 - 8 * k)); text[8 * i + 4 + k] = (uint8_t)(r >> (24 - 8 * k)); }
	}
	memcpy(out, set, 7);
	b64_put(out + 7, raw, 16);
	b64_put(out + 29, text, 23);
	return true;
}

static char* password(void)
{
	size_t n;
	static const size_t edge[] = { 255, 256, 257, 1023, 4096, 65535, 65536, 65537 };
	switch (vf_chance(1, 50) ? 4 : vf_draw(4)) {
	case 4: n = vf_bool() ? (size_t)vf_draw(5000) : edge[vf_draw(8)]; break;
	case 0: n = (size_t)vf_draw(12); break;
	case 1: n = (size_t)vf_range(66, 80); break;
	case 2: n = (size_t)vf_draw(130); break;
	default: n = (size_t)vf_range(0, 72); break;
	}
	char* p = vf_guarded(n + 1);
	if (n > 130) { vf_rng r = { vf_draw(0) }; for (size_t i = 0; i < n; i++) p[i] = (char)(1 + vf_rng_next(&r) % 255); p[n] = 0; return p; }
	switch (vf_draw(4)) {
	case 0: for (size_t i = 0; i < n; i++) p[i] = (char)vf_range(33, 126); break;
	case 1: for (size_t i = 0; i < n; i++) p[i] = (char)vf_range(1, 255); break;
	case 2: /* runs of 0xff hide or reveal sign extension */
		for (size_t i = 0; i < n; i++) p[i] = (char)(vf_chance(1, 2) ? 0xff : vf_chance(1, 2) ? 0xa3 : vf_range(1, 255));
		break;
	default: { /* words that expand alike with and without sign extension */
		for (size_t i = 0; i < n; i++) {
			size_t w = i % 4;
			p[i] = (char)(w == 0 ? 0xff : w == 3 ? vf_range(1, 255) : vf_chance(1, 6) ? vf_range(1, 255) : 0xff);
			if (w == 1 && vf_chance(1, 3)) p[i] = (char)vf_range(0x80, 0xff);
		}
		break;
	}
	}
	p[n] = 0;
	return p;
}

static char* setting(unsigned cost, bool plain_form)
{
	static const char kinds[3] = { 'a', 'y', 'x' };
	char* s = vf_tmp(80);
	snprintf(s, 80, "$2%c$%02u$", plain_form ? 'a' : kinds[vf_draw(3)], cost);
	for (unsigned i = 0; i < 22; i++) s[7 + i] = B64[vf_draw(64)];
	s[29] = 0;
	if (vf_chance(1, 4)) { /* a stored hash is a setting too */
		for (unsigned i = 29; i < 60; i++) s[i] = B64[vf_draw(64)];
		s[60] = 0;
	}
	return s;
}

static char* exact(const char* s)
{
	size_t n = strlen(s);
	char* p = vf_guarded(n + 1);
	memcpy(p, s, n + 1);
	return p;
}

static void judge(const char* pw, const char* set, char* out)
{
	char want[64];
	vf_note_hex("password", pw, strlen(pw));
	vf_note("setting \"%s\"", set);
	memset(out, 0x77, AS_PASSWORD_HASH_SIZE);
	bool ok = as_password_gen_hash(pw, exact(set), out);
	bool ref = ref_bcrypt(pw, set, want);
	VF_CHECK(ok == ref, "setting \"%s\" %s", set, ok ? "accepted" : "refused");
	if (ref) {
		VF_CHECK(memchr(out, 0, AS_PASSWORD_HASH_SIZE) && strcmp(out, want) == 0, "hash %.60s, expected %s", out, want);
	}
	else {
		/* what is left behind must not pass for the hash that was compared with */
		size_t n = strlen(set);
		VF_CHECK(n >= AS_PASSWORD_HASH_SIZE || memcmp(out, set, n + 1) != 0, "a refused setting \"%s\" left itself behind as the hash", set);
	}
}

static void hashes(void)
{
	unsigned cost = vf_chance(1, 20) ? 5 : 4;
	char* pw = password();
	char* out = vf_guarded(AS_PASSWORD_HASH_SIZE);
	judge(pw, setting(cost, false), out);
	vf_nontrivial();
}

/* each cost up to 13 */
static void costs(void)
{
	unsigned cost = 4 + (unsigned)vf_draw(10);
	char* pw = vf_guarded(20);
	vf_rng r = { cost };
	for (unsigned i = 0; i < 19; i++) pw[i] = (char)(1 + vf_rng_next(&r) % 255);
	pw[19] = 0;
	char set[40];
	snprintf(set, sizeof(set), "$2%c$%02u$", "axy"[cost % 3], cost);
	for (unsigned i = 0; i < 22; i++) set[7 + i] = B64[vf_rng_next(&r) % 64];
	set[29] = 0;
	char* out = vf_guarded(AS_PASSWORD_HASH_SIZE);
	judge(pw, set, out);
	vf_nontrivial();
}

static void verifying(void)
{
	char* pw = password();
	char* set = setting(4, true);
	char* stored = vf_guarded(AS_PASSWORD_HASH_SIZE);
	judge(pw, set, stored);
	/* a close variant of the password, hashed with the stored hash as its setting */
	size_t n = strlen(pw);
	char* other = vf_guarded(n + 2);
	memcpy(other, pw, n + 1);
	switch (vf_draw(4)) {
	case 0: other[n] = (char)vf_range(1, 255); other[n + 1] = 0; break;
	case 1: if (n) other[n - 1] = 0; break;
	case 2: if (n) { size_t at = (size_t)vf_draw(n); other[at] = (char)(other[at] ^ (1 << vf_draw(8))); } break;
	default: break;
	}
	char* again = vf_guarded(AS_PASSWORD_HASH_SIZE);
	judge(other, stored, again);
	char want1[64], want2[64];
	ref_bcrypt(pw, set, want1);
	ref_bcrypt(other, set, want2);
	bool same = strcmp(want1, want2) == 0;
	VF_CHECK(as_password_verify(stored, again) == same, "verification says %d, expected %d", as_password_verify(stored, again), same);
	vf_label(same ? "same hash" : "different hash");
	/* any one changed character */
	memset(again, 0x11, AS_PASSWORD_HASH_SIZE);
	memcpy(again, stored, 61);
	VF_CHECK(as_password_verify(stored, again), "equal hashes not verified");
	unsigned at = (unsigned)vf_draw(60);
	again[at] = (char)(again[at] ^ (1 << vf_draw(8)));
	VF_CHECK(!as_password_verify(stored, again), "hashes differing at %u verified", at);
	vf_nontrivial();
}

/* Settings that are wrong in one place, and right ones among them. Cost stays 4 unless it is what is wrong. */
static void settings(void)
{
	char s[80];
	snprintf(s, sizeof(s), "%s", setting(4, false));
	size_t n = strlen(s);
	switch (vf_draw(7)) {
	case 0: s[vf_draw(n)] = (char)vf_range(1, 255); break;
	case 6: snprintf(s, sizeof(s), "*%c%s", (int)vf_range('0', '2'), vf_chance(1, 3) ? "0" : ""); break; /* what a refusal leaves behind */
	case 1: s[vf_draw(n)] = 0; break;
	case 2: s[2] = (char)vf_range(1, 255); break;
	case 3: { unsigned c = (unsigned)vf_draw(100); s[4] = (char)('0' + c / 10); s[5] = (char)('0' + c % 10); break; }
	case 4: s[4 + vf_draw(2)] = (char)vf_range(1, 255); break;
	default: s[7 + vf_draw(22)] = (char)vf_range(1, 255); break;
	}
	/* never run an expensive cost */
	char probe[80];
	memcpy(probe, s, sizeof(probe));
	if (strlen(s) >= 6 && s[4] >= '0' && s[4] <= '3' && s[5] >= '0' && s[5] <= '9' && s[6] == '$' && (s[4] > '0' || s[5] > '5')) {
		unsigned c = (unsigned)(s[4] - '0') * 10 + (unsigned)(s[5] - '0');
		if (c <= 31) { s[4] = '3'; s[5] = '2'; }
	}
	char* out = vf_guarded(AS_PASSWORD_HASH_SIZE);
	judge(password(), s, out);
	vf_nontrivial();
}

static void constant(void)
{
	char* pw = password();
	char want[64];
	ref_bcrypt(pw, "$2a$10$7EqJtq98hPqEX7fNZaFWoO", want);
	char* out = vf_guarded(AS_PASSWORD_HASH_SIZE);
	vf_note_hex("password", pw, strlen(pw));
	unsigned how = (unsigned)vf_draw(3);
	bool ok;
	if (how == 0) ok = as_password_gen_constant_hash(pw, out);
	else if (how == 1) ok = as_password_get_constant_hash(pw, out);
	else { ok = as_password_get_constant_hash(NULL, out); ref_bcrypt("", "$2a$10$7EqJtq98hPqEX7fNZaFWoO", want); }
	VF_CHECK(ok && strcmp(out, want) == 0, "constant-salt hash %.60s, expected %s", out, want);
	vf_nontrivial();
}

static void salts(void)
{
	char* s[24];
	bool varies[22] = { false };
	for (uint64_t k = vf_draw(1000); k; k--) as_random_get_uint64();
	for (unsigned i = 0; i < 24; i++) {
		s[i] = vf_guarded(AS_PASSWORD_HASH_SIZE);
		memset(s[i], 0x77, AS_PASSWORD_HASH_SIZE);
		VF_CHECK(as_password_gen_salt(s[i]), "no salt generated");
		VF_CHECK(memchr(s[i], 0, AS_PASSWORD_HASH_SIZE) == s[i] + 29, "salt is not 29 characters long");
		VF_CHECK(strncmp(s[i], "$2a$10$", 7) == 0, "salt %s has the wrong form", s[i]);
		for (unsigned k = 0; k < 22; k++) {
			VF_CHECK(strchr(B64, s[i][7 + k]), "salt %s has a bad character", s[i]);
			if (s[i][7 + k] != s[0][7 + k]) varies[k] = true;
		}
		uint8_t raw[24];
		char back[32];
		b64_get(raw, s[i] + 7, 22);
		b64_put(back, raw, 16);
		VF_CHECK(strcmp(back, s[i] + 7) == 0, "salt %s is not canonical", s[i]);
	}
	for (unsigned k = 0; k < 22; k++) VF_CHECK(varies[k], "character %u is the same in 24 generated salts", k);
	/* cost 10 is slow: use the salt at cost 4 */
	char low[40];
	memcpy(low, s[0], 30);
	low[4] = '0'; low[5] = '4';
	char* out = vf_guarded(AS_PASSWORD_HASH_SIZE);
	judge("secret", low, out);
	vf_nontrivial();
}

static void published(void)
{
	static const struct { const char* pw; const char* hash; } t[] = {
		{ "U*U", "$2a$05$CCCCCCCCCCCCCCCCCCCCC.E5YPO9kmyuRGyh0XouQYb4YMJKvyOeW" },
		{ "U*U*", "$2a$05$CCCCCCCCCCCCCCCCCCCCC.VGOzA784oUp/Z0DY336zx7pLYAy0lwK" },
		{ "U*U*U", "$2a$05$XXXXXXXXXXXXXXXXXXXXXOAcXxm9kjPGEMsLznoKqmqw7tc8WCx4a" },
		{ "", "$2a$05$CCCCCCCCCCCCCCCCCCCCC.7uG0VCzI2bS7j6ymqJi9CdcdxiRTWNy" },
		{ "\xff\xff\xa3", "$2x$05$/OK.fbVrR/bpIqNJ5ianF.CE5elHaaO4EbggVDjb8P19RukzXSM3e" },
		{ "\xa3", "$2y$05$/OK.fbVrR/bpIqNJ5ianF.Sa7shbm4.OzKpvFnX1pQLmQW96oUlCq" },
		{ "\xff\xa3" "34" "\xff\xff\xff\xa3" "345", "$2a$05$/OK.fbVrR/bpIqNJ5ianF.ZC1JEJ8Z4gPfpe1JOr/oyPXTWl9EFd." },
	};
	unsigned i = (unsigned)vf_draw(sizeof(t) / sizeof(t[0]));
	char ref[64];
	bool ok = ref_bcrypt(t[i].pw, t[i].hash, ref);
	VF_CHECK(ok && strcmp(ref, t[i].hash) == 0, "reference gives %s for %s", ref, t[i].hash);
	char* out = vf_guarded(AS_PASSWORD_HASH_SIZE);
	judge(t[i].pw, t[i].hash, out);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "published", published, 7, 7, VF_ENUM },
	{ "costs", costs, 10, 10, VF_ENUM },
	{ "hashes", hashes, 20000, 300000, 0 },
	{ "verifying", verifying, 4000, 60000, 0 },
	{ "settings", settings, 40000, 600000, 0 },
	{ "constant", constant, 120, 1600, 0 },
	{ "salts", salts, 400, 8000, 0 },
	{ NULL, NULL, 0, 0, 0 }
};
