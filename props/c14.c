#define _GNU_SOURCE
/* C14: string builder output. */
#include <aerospike/as_string_builder.h>
#include <alloca.h>
#include <inttypes.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vf.h"

const char* const vf_rule = "at least 2 non-empty appends; distinct by choice sequence";

static char* ref;
static size_t len, room;

static void put(const char* s, size_t n)
{
	if (len + n + 1 > room) {
		size_t r = (len + n + 1) * 2;
		char* t = vf_tmp(r);
		memcpy(t, ref, len);
		ref = t; room = r;
	}
	memcpy(ref + len, s, n);
	len += n;
	ref[len] = 0;
}

static size_t any_length(bool big, size_t most, size_t usual)
{
	static const uint32_t edge[] = { 255, 256, 4096, 8192, 32767, 32768, 65535, 65536, 131072, 262144 };
	if (!big || vf_chance(1, 2)) return vf_chance(1, 10) ? (size_t)vf_draw(most) : (size_t)vf_draw(usual);
	return vf_bool() ? (size_t)vf_draw(300000) : edge[vf_draw(10)] - 3 + (size_t)vf_draw(6);
}

static void run(bool big)
{
	uint64_t base = vfa_live();
	ref = vf_tmp(64); room = 64; len = 0; ref[0] = 0;
	as_string_builder sb;
	uint32_t cap = vf_chance(1, 8) ? (uint32_t)vf_range(1, 3000) : (uint32_t)vf_range(1, 40);
	if (big && vf_bool()) cap = 1 + (uint32_t)any_length(true, 3000, 40);
	unsigned how = (unsigned)vf_draw(4);
	bool resize = false;
	vf_note("storage %u capacity %u", how, cap);
	switch (how) {
	case 0: resize = true; as_string_builder_init(&sb, cap, true); break;
	case 1: as_string_builder_init(&sb, cap, false); break;
	case 2: {
		as_string_builder_assign(&sb, cap, vf_guarded(cap));
		break;
	}
	default:
		resize = true;
		as_string_builder_inita(&sb, cap, true);
		break;
	}
	bool failed = false;
	unsigned steps = (unsigned)vf_range(1, 20), nonempty = 0;
	for (unsigned i = 0; i < steps; i++) {
		static const unsigned w[] = { 6, 5, 2, 2, 2, 2, 4, 1, 1 };
		size_t before = len;
		bool ok;
		char t[72];
		switch (vf_pick(9, w)) {
		case 0: {
			size_t n = any_length(big, 4000, 30);
			/* aim at the exact capacity now and then */
			if (!resize && !failed && vf_chance(1, 3)) { int64_t left = (int64_t)cap - (int64_t)len - 2 + (int64_t)vf_draw(4); if (left >= 0) n = (size_t)left; }
			char* s = vf_guarded(n + 1);
			vf_fill_text(s, n);
			vf_note("append %zu", n);
			put(s, n);
			ok = as_string_builder_append(&sb, s);
			break;
		}
		case 1: { char c = (char)vf_range(1, 255); vf_note("char %02x", (unsigned char)c); put(&c, 1); ok = as_string_builder_append_char(&sb, c); break; }
		case 2: { int v = (int)(uint32_t)vf_uint32(); snprintf(t, sizeof(t), "%d", v); vf_note("int %s", t); put(t, strlen(t)); ok = as_string_builder_append_int(&sb, v); break; }
		case 3: { uint32_t v = vf_uint32(); snprintf(t, sizeof(t), "%u", v); vf_note("uint %s", t); put(t, strlen(t)); ok = as_string_builder_append_uint(&sb, v); break; }
		case 4: { int64_t v = vf_int64(); snprintf(t, sizeof(t), "%" PRId64, v); vf_note("int64 %s", t); put(t, strlen(t)); ok = as_string_builder_append_int64(&sb, v); break; }
		case 5: { uint64_t v = vf_uint64(); snprintf(t, sizeof(t), "%" PRIu64, v); vf_note("uint64 %s", t); put(t, strlen(t)); ok = as_string_builder_append_uint64(&sb, v); break; }
		case 6: {
			uint32_t n = (uint32_t)any_length(big, 1000, 8);
			if (!resize && !failed && vf_chance(1, 3) && cap > len) { uint32_t k = (uint32_t)(cap - len) / 3; n = k ? k - 1 + (uint32_t)vf_draw(3) : n; }
			uint8_t* s = vf_guarded(n);
			vf_fill(s, n);
			vf_note("bytes %u", n);
			put("[", 1);
			for (uint32_t k = 0; k < n; k++) { if (k) put(" ", 1); put(&"0123456789ABCDEF"[s[k] >> 4], 1); put(&"0123456789ABCDEF"[s[k] & 15], 1); }
			put("]", 1);
			ok = as_string_builder_append_bytes(&sb, s, n);
			break;
		}
		case 7: vf_note("newline"); put("\n", 1); ok = as_string_builder_append_newline(&sb); break;
		default:
			vf_note("reset");
			as_string_builder_reset(&sb);
			len = 0; ref[0] = 0; failed = false;
			VF_CHECK(sb.length == 0 && sb.data[0] == 0, "builder is not empty after a reset");
			continue;
		}
		if (len > before) nonempty++;
		VF_CHECK(resize || sb.length < cap, "length %u in a fixed buffer of %u", sb.length, cap);
		VF_CHECK(strlen(sb.data) == sb.length, "length is %u, text has %zu", sb.length, strlen(sb.data));
		if (failed) continue; /* after a failure only containment and termination are specified */
		bool fits = resize || len + 1 <= cap;
		VF_CHECK(ok == fits, "append of %zu to %zu in %u returned %d", len - before, before, cap, ok);
		if (fits) VF_CHECK(sb.length == len && memcmp(sb.data, ref, len + 1) == 0, "text differs from the concatenation (length %u, expected %zu)", sb.length, len);
		else {
			VF_CHECK(sb.length >= before && sb.length <= len && memcmp(sb.data, ref, sb.length) == 0, "text after a failure is not a prefix of the concatenation");
			failed = true;
			vf_label("fixed buffer full");
		}
	}
	if (nonempty >= 2) vf_nontrivial();
	as_string_builder_destroy(&sb);
	vfa_expect(base, "after destroying the builder");
}

static void history(void) { run(false); }
static void large(void) { vf_label("large"); run(true); }

/* More text than a builder can count: refused, with what is there kept. */
static void giant(void)
{
	static const uint64_t bytes[] = { 0x55555555, 0x55555556, 0x60000000, 0x7fffffff, 0x80000000, 0xaaaaaaab, 0xfffffffe, 0xffffffff };
	static const uint64_t texts[] = { (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, (1ull << 33) - 3 };
	bool blob = vf_bool(), heap = vf_bool();
	uint64_t n = blob ? bytes[vf_draw(8)] - (vf_bool() ? vf_draw(4) : 0) : texts[vf_draw(4)];
	uint32_t cap = (uint32_t)vf_range(1, 40), pre = (uint32_t)vf_draw(30);
	uint64_t base = vfa_live();
	size_t blk = 64 << 20, total = (n / blk + 1) * blk;
	int fd = memfd_create("text", 0);
	VF_CHECK(fd >= 0 && ftruncate(fd, (off_t)blk) == 0, "cannot make the text");
	char* b = mmap(NULL, blk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	VF_CHECK(b != MAP_FAILED, "cannot map the text");
	if (!blob) memset(b, '7', blk);
	char* s = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	VF_CHECK(s != MAP_FAILED, "cannot reserve the text");
	for (size_t o = 0; o < total; o += blk)
		VF_CHECK(mmap(s + o, blk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED, "cannot map the text");
	if (!blob) s[n] = 0;
	vf_note("%s of %llu after %u, capacity %u on the %s", blob ? "bytes" : "text", (unsigned long long)n, pre, cap, heap ? "heap" : "stack");
	vf_nontrivial();
	as_string_builder sb;
	if (heap) as_string_builder_init(&sb, cap, true);
	else { as_string_builder_inita(&sb, cap, true); }
	char t[64];
	memset(t, 'a', pre); t[pre] = 0;
	VF_CHECK(as_string_builder_append(&sb, t), "append failed");
	bool ok = blob ? as_string_builder_append_bytes(&sb, (uint8_t*)s, (uint32_t)n) : as_string_builder_append(&sb, s);
	VF_CHECK(!ok, "an append that cannot fit succeeded");
	VF_CHECK(strlen(sb.data) == sb.length && sb.length >= pre && memcmp(sb.data, t, pre) == 0, "the text before is not kept");
	for (uint32_t i = pre; i < sb.length; i++) VF_CHECK(sb.data[i] == (blob ? (i == pre ? '[' : (i - pre) % 3 ? '0' : ' ') : '7'), "the text is no prefix of the concatenation");
	uint32_t l = sb.length;
	VF_CHECK(as_string_builder_append_char(&sb, 'z') && sb.length == l + 1 && sb.data[l] == 'z' && !sb.data[l + 1], "the builder is not usable after a refusal");
	as_string_builder_destroy(&sb);
	munmap(s, total); munmap(b, blk); close(fd);
	vfa_expect(base, "after destroying the builder");
}

const vf_target vf_targets[] = {
	{ "giant", giant, 32, 200, 0 },
	{ "history", history, 3000000, 30000000, VF_FUZZ },
	{ "large", large, 6000, 60000, 0 },
	{ 0 }
};
