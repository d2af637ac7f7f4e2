/* C13: hexadecimal text of bytes, both ways. */
#include <aerospike/as_bytes.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vf.h"

const char* const vf_rule = "at least one byte to convert, or a text of at least one character after the prefix; distinct by choice sequence";

static const char HEX[] = "0123456789ABCDEF";

static void to_text(void)
{
	uint32_t n = vf_chance(1, 20) ? (uint32_t)vf_draw(3000) : (uint32_t)vf_draw(24);
	uint8_t* src = vf_guarded(n);
	vf_fill(src, n);
	bool prefix = vf_bool();
	uint32_t need = n * 2 + 1 + (prefix ? 2 : 0);
	uint32_t sz = vf_chance(1, 3) ? (uint32_t)vf_draw(8) : need - 3 + (uint32_t)vf_draw(8);
	if ((int32_t)sz < 0) sz = 0;
	uint32_t claim = n;
	if (vf_chance(1, 20)) claim = 0x80000000u + (uint32_t)vf_draw(n + 1) - (uint32_t)vf_draw(3); /* cannot fit in any text buffer */
	char* out = vf_guarded(sz);
	memset(out, 'z', sz);
	vf_note("%u bytes (claimed %u) into %u characters, prefix %d", n, claim, sz, prefix);
	if (n) vf_nontrivial();
	bool ok = prefix ? as_bytes_to_string_with_prefix(src, claim, out, sz) : as_bytes_to_string(src, claim, out, sz);
	bool want = claim == n && sz >= need;
	VF_CHECK(ok == want, "converting %u bytes into %u characters returned %d", claim, sz, ok);
	if (!ok) { vf_label("does not fit"); return; }
	char* e = out;
	if (prefix) { VF_CHECK(e[0] == '0' && e[1] == 'x', "prefix is missing"); e += 2; }
	for (uint32_t i = 0; i < n; i++, e += 2) {
		char h = e[0], l = e[1];
		VF_CHECK((h == HEX[src[i] >> 4] || h == HEX[src[i] >> 4] + 32) && (l == HEX[src[i] & 15] || l == HEX[src[i] & 15] + 32), "byte %u = %02x shows as %c%c", i, src[i], h, l);
	}
	VF_CHECK(*e == 0, "text is not terminated");
	/* back, in either letter case */
	unsigned cs = (unsigned)vf_draw(3);
	vf_rng r = { vf_draw(0) };
	for (char* c = out + (prefix ? 2 : 0); *c; c++) {
		bool low = cs == 1 || (cs == 2 && (vf_rng_next(&r) & 1));
		if (*c >= 'A' && *c <= 'F' && low) *c += 32;
	}
	uint32_t room = n + (uint32_t)vf_draw(3);
	uint8_t* back = vf_guarded(room);
	memset(back, 0x77, room);
	int k = as_bytes_from_string(back, room, out);
	VF_CHECK(k == (int)n && memcmp(back, src, n) == 0, "parsing the text gives %d bytes of %u", k, n);
	for (uint32_t i = n; i < room; i++) VF_CHECK(back[i] == 0x77, "parsing wrote past the last byte");
}

static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

static void parse(void)
{
	static const char odd[] = "gGxX@`/:-+ \t\x80\xff\xc3zZ.";
	uint32_t n = vf_chance(1, 20) ? (uint32_t)vf_draw(2000) : (uint32_t)vf_draw(20);
	bool prefix = vf_chance(1, 3);
	char* s = vf_guarded(n + 1 + (prefix ? 2 : 0));
	char* p = s;
	if (prefix) { *p++ = '0'; *p++ = vf_chance(1, 8) ? 'X' : 'x'; }
	unsigned bad = (unsigned)vf_draw(3); /* 0: none, 1: one, 2: any byte */
	uint32_t at = n ? (uint32_t)vf_draw(n) : 0;
	for (uint32_t i = 0; i < n; i++) {
		if (bad == 2 && vf_chance(1, 4)) { p[i] = (char)vf_range(1, 255); continue; }
		if (bad == 1 && i == at) { p[i] = odd[vf_draw(sizeof(odd) - 1)]; continue; }
		p[i] = "0123456789abcdefABCDEF"[vf_draw(22)];
	}
	p[n] = 0;
	const char* t = s;
	if (t[0] == '0' && t[1] == 'x') t += 2;
	uint32_t len = (uint32_t)strlen(t);
	bool good = len % 2 == 0;
	for (uint32_t i = 0; i < len; i++) if (digit(t[i]) < 0) good = false;
	uint32_t room = len / 2 < 2 || vf_chance(1, 4) ? (uint32_t)vf_draw(len / 2 + 2) : len / 2 - 1 + (uint32_t)vf_draw(3);
	if (len / 2 > room) good = false;
	if (len) vf_nontrivial();
	vf_note("text '%s' into %u bytes", s, room);
	vf_label(good ? "valid" : "invalid");
	uint8_t* out = vf_guarded(room);
	memset(out, 0x77, room);
	int k = as_bytes_from_string(out, room, s);
	if (!good) { VF_CHECK(k < 0, "parsing an invalid text gives %d bytes", k); return; }
	VF_CHECK(k == (int)(len / 2), "parsing gives %d bytes of %u", k, len / 2);
	for (uint32_t i = 0; i < len / 2; i++) VF_CHECK(out[i] == digit(t[2 * i]) * 16 + digit(t[2 * i + 1]), "byte %u parses as %02x", i, out[i]);
	for (uint32_t i = len / 2; i < room; i++) VF_CHECK(out[i] == 0x77, "parsing wrote past the last byte");
}

/* Sizes on both sides of the widths a length may be kept in. */
static void large(void)
{
	static const uint32_t at[] = { 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072 };
	uint32_t n = at[vf_draw(13)];
	bool prefix = vf_bool();
	uint32_t pre = prefix ? 2 : 0, need = n * 2 + 1 + pre, sz = need - 2 + (uint32_t)vf_draw(4);
	uint8_t* src = vf_guarded(n);
	vf_fill(src, n);
	char* out = vf_guarded(sz);
	vf_note("%u bytes into %u characters, prefix %d", n, sz, prefix);
	vf_nontrivial();
	bool ok = prefix ? as_bytes_to_string_with_prefix(src, n, out, sz) : as_bytes_to_string(src, n, out, sz);
	VF_CHECK(ok == (sz >= need), "converting %u bytes into %u characters returned %d", n, sz, ok);
	char* text = vf_guarded(need);
	for (uint32_t i = 0; i < n; i++) { text[pre + 2 * i] = HEX[src[i] >> 4]; text[pre + 2 * i + 1] = HEX[src[i] & 15]; }
	if (prefix) memcpy(text, "0x", 2);
	text[need - 1] = 0;
	if (ok) VF_CHECK(!strcmp(out, text), "converting %u bytes gives another text", n);
	uint32_t room = vf_chance(1, 3) ? (uint32_t)vf_draw(n) : n - 1 + (uint32_t)vf_draw(3);
	uint8_t* back = vf_guarded(room);
	int k = as_bytes_from_string(back, room, text);
	VF_CHECK(room >= n ? k == (int)n && !memcmp(back, src, n) : k < 0, "parsing the text of %u bytes into %u gives %d", n, room, k);
	if (vf_bool()) {
		text[need - 2] = 0; /* odd length */
		VF_CHECK(as_bytes_from_string(vf_guarded(n), n, text) < 0, "a text of odd length is accepted");
	}
}

/* Texts longer than 31 and 32 bits count, mapped from one repeated block. */
static void enormous(void)
{
	static const uint64_t lens[] = { (1ull << 32) + 2, (1ull << 31) + 4, (1ull << 32), (1ull << 33) + 6 };
	uint64_t len = lens[vf_draw(4)];
	size_t blk = 64 << 20, total = (len / blk + 1) * blk;
	int fd = memfd_create("text", 0);
	VF_CHECK(fd >= 0 && ftruncate(fd, (off_t)blk) == 0, "cannot make the text");
	char* b = mmap(NULL, blk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	VF_CHECK(b != MAP_FAILED, "cannot map the text");
	memset(b, '7', blk);
	char* t = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	VF_CHECK(t != MAP_FAILED, "cannot reserve the text");
	for (size_t o = 0; o < total; o += blk)
		VF_CHECK(mmap(t + o, blk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED, "cannot map the text");
	t[len] = 0;
	vf_note("text of %llu digits into 16 bytes", (unsigned long long)len);
	vf_nontrivial();
	uint8_t* out = vf_guarded(16);
	int k = as_bytes_from_string(out, 16, t);
	munmap(t, total);
	munmap(b, blk);
	close(fd);
	VF_CHECK(k < 0, "a text for more bytes than there is room gives %d", k);
}

const vf_target vf_targets[] = {
	{ "to_text", to_text, 8000000, 60000000, VF_FUZZ },
	{ "parse", parse, 8000000, 60000000, VF_FUZZ },
	{ "large", large, 20000, 200000, 0 },
	{ "enormous", enormous, 8, 16, 0 },
	{ 0 }
};
