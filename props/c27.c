/* C27: peer name checks against certificates. */
#include <aerospike/ssl_util.h>
#include <arpa/inet.h>
#include <ctype.h>
#include <openssl/err.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "certificate with at least one name and a peer name derived from one of its names; distinct by choice sequence";

typedef struct { int kind; uint8_t b[1200]; size_t n; int type; } entry; /* kind 0 DNS, 1 IP, 2 CN, 3 other */

static entry list[400];
static unsigned count;

static const char* const labels[] = { "a", "b", "www", "example", "com", "net", "*", "w*", "*w", "x-1", "WWW", "Example", "" };

static size_t host(uint8_t* out)
{
	size_t n = 0;
	unsigned parts = (unsigned)vf_range(1, 4);
	for (unsigned i = 0; i < parts; i++) {
		if (i) out[n++] = '.';
		if (vf_chance(1, 60)) { /* a long label */
			static const size_t size[] = { 62, 63, 64, 100, 200, 253, 254, 255, 256, 257 };
			size_t k = vf_bool() ? 63 : size[vf_draw(10)];
			memset(out + n, 'q', k);
			n += k;
			continue;
		}
		const char* l = i == 0 && vf_chance(1, 3) ? "*" : labels[vf_chance(1, 8) ? vf_draw(13) : vf_draw(6)];
		memcpy(out + n, l, strlen(l));
		n += strlen(l);
	}
	return n;
}

static void flip_case(uint8_t* s, size_t n)
{
	for (size_t i = 0; i < n; i++) if (isalpha(s[i]) && vf_bool()) s[i] ^= 0x20;
}

/* bytes a hostile issuer may have put in */
static size_t hostile(uint8_t* s, size_t n)
{
	static const uint8_t bad[] = { 0, 0, 0, 1, 9, 10, 13, 27, 127, '\\', 0x80, 0xE9, 0xFF, ' ', '%', '"' };
	unsigned k = (unsigned)vf_range(1, 2);
	for (unsigned i = 0; i < k && n < 1150; i++) {
		size_t at = (size_t)vf_draw(n + 1);
		memmove(s + at + 1, s + at, n - at);
		s[at] = bad[vf_draw(sizeof(bad))];
		n++;
	}
	return n;
}

static void ip_bytes(uint8_t* b, size_t n)
{
	for (size_t i = 0; i < n; i++) b[i] = vf_bool() ? 0 : vf_chance(1, 3) ? (uint8_t)vf_draw(256) : (uint8_t)vf_draw(3);
	if (n == 16 && vf_chance(1, 6)) { memset(b, 0, 10); b[10] = b[11] = 0xFF; }
}

/* One of the many spellings of an IPv6 address. */
static size_t ip6_text(const uint8_t* b, char* out)
{
	uint16_t g[8];
	for (unsigned i = 0; i < 8; i++) g[i] = (uint16_t)(b[2 * i] << 8 | b[2 * i + 1]);
	bool v4 = vf_chance(1, 4);
	unsigned groups = v4 ? 6 : 8, zs = 0, ze = 0;
	if (vf_bool()) { /* shorten some run of zeroes */
		unsigned from = (unsigned)vf_draw(groups);
		for (unsigned i = 0; i < groups; i++) {
			unsigned s = (from + i) % groups;
			if (g[s] == 0) { zs = s; ze = s; while (ze < groups && g[ze] == 0) ze++; break; }
		}
	}
	size_t n = 0;
	bool sep = false;
	for (unsigned i = 0; i < groups; i++) {
		if (i == zs && ze > zs) { n += (size_t)sprintf(out + n, "::"); i = ze - 1; sep = false; continue; }
		if (sep) out[n++] = ':';
		const char* f = vf_bool() ? (vf_bool() ? "%x" : "%X") : (vf_bool() ? "%04x" : "%04X");
		n += (size_t)sprintf(out + n, f, g[i]);
		sep = true;
	}
	if (v4) n += (size_t)sprintf(out + n, "%s%u.%u.%u.%u", sep ? ":" : "", b[12], b[13], b[14], b[15]);
	out[n] = 0;
	return n;
}

static X509* certificate(void)
{
	X509* x = X509_new();
	X509_NAME* subject = X509_NAME_new();
	GENERAL_NAMES* san = NULL;
	count = vf_chance(1, 50) ? (unsigned)vf_range(12, vf_chance(1, 20) ? 400 : 40) : (unsigned)vf_draw(6);
	for (unsigned i = 0; i < count; i++) {
		entry* e = &list[i];
		static const unsigned w[] = { 5, 4, 4, 2 };
		e->kind = (int)vf_pick(4, w);
		if (e->kind == 1) {
			static const size_t sizes[] = { 4, 16, 4, 16, 0, 5, 8, 15, 17, 32 };
			e->n = sizes[vf_chance(1, 8) ? vf_draw(10) : vf_draw(2)];
			ip_bytes(e->b, e->n);
		}
		else if (e->kind == 0 && vf_chance(1, 8)) { uint8_t a[4]; ip_bytes(a, 4); e->n = (size_t)sprintf((char*)e->b, "%u.%u.%u.%u", a[0], a[1], a[2], a[3]); }
		else {
			e->n = host(e->b);
			if (vf_chance(1, 3)) flip_case(e->b, e->n);
			if (vf_chance(1, 3)) e->n = hostile(e->b, e->n);
		}
		if (e->kind == 2) {
			static const int types[] = { V_ASN1_UTF8STRING, V_ASN1_PRINTABLESTRING, V_ASN1_IA5STRING, V_ASN1_T61STRING, V_ASN1_BMPSTRING, V_ASN1_UNIVERSALSTRING };
			e->type = types[vf_draw(6)];
			static uint8_t wide[5000];
			size_t m = 0;
			unsigned width = e->type == V_ASN1_BMPSTRING ? 2 : e->type == V_ASN1_UNIVERSALSTRING ? 4 : 1;
			for (size_t k = 0; k < e->n; k++) { for (unsigned z = 1; z < width; z++) wide[m++] = 0; wide[m++] = e->b[k]; }
			X509_NAME_ENTRY* ne = X509_NAME_ENTRY_new();
			X509_NAME_ENTRY_set_object(ne, OBJ_nid2obj(NID_commonName));
			ASN1_STRING* d = X509_NAME_ENTRY_get_data(ne);
			ASN1_STRING_set(d, wide, (int)m);
			d->type = e->type;
			X509_NAME_add_entry(subject, ne, -1, 0);
			X509_NAME_ENTRY_free(ne);
			vf_note_hex("common name", e->b, e->n);
			continue;
		}
		if (e->kind == 3 && vf_bool()) { /* another attribute of the subject */
			static const int nids[] = { NID_organizationName, NID_organizationalUnitName, NID_serialNumber, NID_surname };
			X509_NAME_add_entry_by_NID(subject, nids[vf_draw(4)], V_ASN1_UTF8STRING, e->b, (int)e->n, -1, 0);
			vf_note_hex("other subject part", e->b, e->n);
			continue;
		}
		if (!san) san = GENERAL_NAMES_new();
		GENERAL_NAME* g = GENERAL_NAME_new();
		if (e->kind == 1) {
			ASN1_OCTET_STRING* o = ASN1_OCTET_STRING_new();
			ASN1_OCTET_STRING_set(o, e->b, (int)e->n);
			GENERAL_NAME_set0_value(g, GEN_IPADD, o);
			vf_note_hex("address", e->b, e->n);
		}
		else {
			int t = GEN_DNS;
			if (e->kind == 3) t = vf_bool() ? GEN_EMAIL : GEN_URI;
			ASN1_IA5STRING* s = ASN1_IA5STRING_new();
			ASN1_STRING_set(s, e->b, (int)e->n);
			GENERAL_NAME_set0_value(g, t, s);
			vf_note_hex(t == GEN_DNS ? "DNS name" : "other alternative name", e->b, e->n);
		}
		sk_GENERAL_NAME_push(san, g);
	}
	if (X509_set_subject_name(x, subject) != 1) /* some contents have no encoding: then the subject stays empty */
		for (unsigned i = 0; i < count; i++) if (list[i].kind == 2) list[i].kind = 3;
	X509_NAME_free(subject);
	if (san) {
		X509_add1_ext_i2d(x, NID_subject_alt_name, san, vf_bool(), 0);
		GENERAL_NAMES_free(san);
	}
	return x;
}

/* A peer name made of printable characters, usually close to something in the certificate. */
static char* peer(void)
{
	uint8_t* s = vf_tmp(2000);
	size_t n = 0;
	if (count && vf_chance(7, 8)) {
		const entry* e = &list[vf_draw(count)];
		if (e->kind == 1) {
			uint8_t b[16] = { 0 };
			memcpy(b, e->b, e->n < 16 ? e->n : 16);
			if (vf_chance(1, 4)) b[vf_draw(16)] ^= (uint8_t)(1 << vf_draw(8));
			if (vf_bool() ? e->n == 4 : e->n < 16) n = (size_t)sprintf((char*)s, vf_chance(1, 8) ? "%03u.%u.%u.%u" : "%u.%u.%u.%u", b[0], b[1], b[2], b[3]);
			else n = ip6_text(b, (char*)s);
		}
		else {
			memcpy(s, e->b, e->n);
			n = e->n;
			if (vf_chance(1, 3)) { /* only the part before or after a NUL */
				uint8_t* z = n ? memchr(s, 0, n) : NULL;
				if (z) {
					size_t at = (size_t)(z - s);
					if (vf_bool()) n = at;
					else { memmove(s, s + at + 1, n - at - 1); n -= at + 1; }
				}
			}
			if (n && s[0] == '*' && vf_chance(3, 4)) { /* fill the wildcard */
				const char* l = vf_chance(1, 6) ? "a.b" : labels[vf_chance(1, 4) ? vf_draw(13) : vf_draw(6)];
				memmove(s + strlen(l), s + 1, n - 1);
				memcpy(s, l, strlen(l));
				n += strlen(l) - 1;
			}
		}
	}
	else n = host(s);
	if (vf_chance(1, 3)) flip_case(s, n);
	if (n && vf_chance(1, 6)) {
		size_t at = (size_t)vf_draw(n);
		switch (vf_draw(4)) {
		case 0: n = at; break;
		case 1: s[at] = (uint8_t)vf_range(32, 126); break;
		case 2: memmove(s + at + 1, s + at, n - at); s[at] = (uint8_t)".a*-:0 "[vf_draw(7)]; n++; break;
		default: memmove(s + at, s + at + 1, n - at - 1); n--; break;
		}
	}
	/* printable, no backslash, not empty */
	size_t m = 0;
	for (size_t i = 0; i < n; i++) if (s[i] >= 32 && s[i] < 127 && s[i] != '\\') s[m++] = s[i];
	if (m == 0) s[m++] = 'a';
	char* p = vf_guarded(m + 1);
	memcpy(p, s, m);
	p[m] = 0;
	return p;
}

static bool plain(const entry* e)
{
	for (size_t i = 0; i < e->n; i++) if (e->b[i] < 32 || e->b[i] >= 127 || e->b[i] == '\\') return false;
	return true;
}

static bool same_nocase(const uint8_t* a, size_t an, const char* b, size_t bn)
{
	if (an != bn) return false;
	for (size_t i = 0; i < an; i++) {
		int x = a[i], y = (uint8_t)b[i];
		if (x >= 'A' && x <= 'Z') x += 32;
		if (y >= 'A' && y <= 'Z') y += 32;
		if (x != y) return false;
	}
	return true;
}

static bool ref_match(const char* name, bool wild)
{
	size_t n = strlen(name);
	for (unsigned i = 0; i < count; i++) {
		const entry* e = &list[i];
		if ((e->kind != 0 && e->kind != 2) || !plain(e)) continue;
		if (same_nocase(e->b, e->n, name, n)) return true;
		if (wild && e->n >= 2 && e->b[0] == '*' && e->b[1] == '.') {
			const char* dot = strchr(name, '.');
			size_t head = dot ? (size_t)(dot - name) : 0;
			if (dot && head && same_nocase(e->b + 1, e->n - 1, dot, n - head)) return true;
		}
	}
	return false;
}

static bool ref_san(const char* name)
{
	size_t n = strlen(name);
	uint8_t b[16];
	bool is4 = inet_pton(AF_INET, name, b) == 1;
	uint8_t c[16];
	bool is6 = inet_pton(AF_INET6, name, c) == 1;
	for (unsigned i = 0; i < count; i++) {
		const entry* e = &list[i];
		if (e->kind == 0 && e->n == n && memcmp(e->b, name, n) == 0) return true;
		if (e->kind == 1 && e->n == 4 && is4 && memcmp(e->b, b, 4) == 0) return true;
		if (e->kind == 1 && e->n == 16 && is6 && memcmp(e->b, c, 16) == 0) return true;
	}
	return false;
}

static void check(void)
{
	X509* x = certificate();
	unsigned peers = (unsigned)vf_range(1, 3);
	uint64_t live = vfa_live();
	for (unsigned i = 0; i < peers; i++) {
		char* name = peer();
		bool wild = vf_bool();
		vf_note("peer \"%s\" wildcards %d", name, wild);
		bool got = as_tls_match_name(x, name, wild), want = ref_match(name, wild);
		VF_CHECK(got == want, "name check %s \"%s\"", got ? "accepts" : "refuses", name);
		bool gots = as_tls_match_san(x, name), wants = ref_san(name);
		VF_CHECK(gots == wants, "alternative-name check %s \"%s\"", gots ? "accepts" : "refuses", name);
		vfa_expect(live, "after name checks");
		if (want) vf_label("accepted");
		if (wants) vf_label("accepted by alternative-name check");
	}
	X509_free(x);
	ERR_clear_error();
	if (count) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "check", check, 700000, 9000000, VF_FUZZ },
	{ NULL, NULL, 0, 0, 0 }
};
