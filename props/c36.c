#define _GNU_SOURCE
/* C36: bounded copies, base names, acquired passwords. */
#include <aerospike/as_password.h>
#include <aerospike/as_string.h>
#include <citrusleaf/alloc.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <termios.h>
#include <unistd.h>
#include "vf.h"
#include "vf_big.h"

const char* const vf_rule = "the text is not empty and does not fit with room to spare (copies), contains a separator (base names), or comes from input (passwords); distinct by choice sequence";

static size_t gen_len(void)
{
	static const size_t edge[] = { 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 131072 };
	if (vf_chance(1, 400)) return vf_bool() ? edge[vf_draw(10)] : vf_draw(200000);
	switch (vf_draw(6)) {
	case 0: return vf_draw(4);
	case 1: return 60 + vf_draw(8);
	case 2: return vf_skewed(5000);
	default: return vf_draw(40);
	}
}

static void gen_chars(char* t, size_t n)
{
	if (n > 300) { vf_rng r = { vf_draw(0) }; for (size_t i = 0; i < n; i++) t[i] = (char)(1 + vf_rng_next(&r) % 255); }
	else for (size_t i = 0; i < n; i++) t[i] = (char)(1 + vf_draw(255));
	t[n] = 0;
}

/* ---- bounded copy ---- */
static void copy(void)
{
	size_t n = gen_len();
	char* src = NULL;
	if (!vf_chance(1, 20)) {
		src = vf_guarded(n + 1);
		gen_chars(src, n);
	}
	else n = 0;
	/* sizes around the length matter most; a huge size must not be touched beyond need */
	int64_t size;
	switch (vf_draw(4)) {
	case 0: size = 1 + (int64_t)vf_draw(n + 4); break;
	case 1: size = 2147483647 - (int64_t)vf_draw(3); break;
	default: size = (int64_t)n + vf_irange(-2, 4);
	}
	if (size < 1) size = 1;
	size_t keep = n < (size_t)size ? n : (size_t)size - 1, room = (size_t)size < n + 1 + 16 ? (size_t)size : n + 1 + 16;
	char* trg = vf_guarded(room);
	memset(trg, 0x7E, room);
	char* before = vf_tmp(n + 1);
	if (src) memcpy(before, src, n + 1);
	vf_note("copy of %zu characters into %lld", n, (long long)size);
	bool cut = as_strncpy(trg, src, (int)size);
	VF_CHECK(cut == (n > keep), "copying %zu characters into %lld bytes reports %struncation", n, (long long)size, cut ? "" : "no ");
	VF_CHECK(strlen(trg) == keep && !memcmp(trg, before, keep), "copying %zu characters into %lld bytes leaves %zu, not the first %zu", n, (long long)size, strlen(trg), keep);
	VF_CHECK(!src || !memcmp(src, before, n + 1), "copying changes the source");
	if (n + 2 > (size_t)size && n) vf_nontrivial();
}

/* ---- base name ---- */
static bool sep(char c) { return c == '/' || c == '\\'; }
static void basename_(void)
{
	size_t n = vf_chance(1, 30) ? vf_draw(vf_chance(1, 20) ? 140000 : 3000) : vf_draw(24);
	char* path = NULL;
	vf_rng g = { 0 };
	if (n > 300) g.s = vf_draw(0);
	unsigned density = (unsigned)vf_draw(4);
	bool any = false;
	if (!vf_chance(1, 40)) {
		path = vf_guarded(n + 1);
		for (size_t i = 0; i < n; i++) {
			if (n > 300) {
				uint64_t x = vf_rng_next(&g);
				path[i] = (x & 4095) < (density == 3 ? 4000 : density * 4) ? ((x >> 12) & 1 ? '/' : '\\') : (char)(1 + (x >> 16) % 255);
				any |= sep(path[i]);
				continue;
			}
			bool s = density == 3 ? !vf_chance(1, 8) : vf_chance(density, 4);
			path[i] = s ? (vf_bool() ? '/' : '\\') : (char)(vf_chance(1, 6) ? (int)(1 + vf_draw(255)) : "ab.~ "[vf_draw(5)]);
			any |= sep(path[i]);
		}
		path[n] = 0;
	}
	else n = 0;
	size_t end = n;
	while (end && sep(path[end - 1])) end--;
	size_t start = end;
	while (start && !sep(path[start - 1])) start--;
	const char* want; size_t wn;
	if (!n) { want = "."; wn = 1; }
	else if (!end) { want = "/"; wn = 1; }
	else { want = path + start; wn = end - start; }
	char* copy = vf_tmp(n + 1);
	if (path) memcpy(copy, path, n + 1);
	vf_note_hex("path", (uint8_t*)copy, n);
	uint64_t live = vfa_live();
	as_string s;
	memset(&s, 0x5A, sizeof(s));
	const char* r = as_basename(&s, path);
	VF_CHECK(r != NULL, "no base name");
	VF_CHECK(strlen(r) == wn && !memcmp(r, want, wn), "the base name of '%s' is '%s'", path ? path : "(none)", r);
	VF_CHECK(as_string_get(&s) && !strcmp(as_string_get(&s), r), "the base name differs from the text of its string");
	VF_CHECK(as_string_len(&s) == wn, "the base name '%s' has length %zu", r, as_string_len(&s));
	VF_CHECK(as_val_type(&s) == AS_STRING, "the base name is not a string");
	VF_CHECK(!path || !memcmp(path, copy, n + 1), "finding the base name changes the path");
	as_string_destroy(&s);
	VF_CHECK(vfa_live() == live, "releasing a base name leaves %lld blocks", (long long)(vfa_live() - live));
	VF_CHECK(!path || !memcmp(path, copy, n + 1), "releasing a base name changes the path");
	if (any) vf_nontrivial();
}

/* more characters than 31 or 32 bits count */
static void wide(void)
{
	unsigned k = (unsigned)vf_draw(4);
	if (k == 3) {
		size_t n = ((size_t)1 << 31) - 5 + (size_t)vf_draw(10), size = 2147483647 - (size_t)vf_draw(3);
		size_t keep = n < size ? n : size - 1;
		vf_big s = vf_big_make(n, vf_draw(0), true);
		char* trg = mmap(NULL, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (trg == MAP_FAILED) vf_fail("harness: no address space");
		memset(trg + size, 0x7E, 4096);
		vf_note("copy of %zu characters into %zu", n, size);
		bool cut = as_strncpy(trg, (char*)s.p, (int)size);
		VF_CHECK(cut == (n > keep), "copying %zu characters into %zu bytes reports %struncation", n, size, cut ? "" : "no ");
		VF_CHECK(!trg[keep] && !memcmp(trg, s.p, keep), "copying %zu characters into %zu bytes does not leave the first %zu", n, size, keep);
		for (size_t i = 0; i < 4096; i++) VF_CHECK(trg[size + i] == 0x7E, "copying %zu characters into %zu bytes writes behind them", n, size);
		munmap(trg, size + 4096);
		vf_big_free(&s);
	}
	else {
		size_t n = ((size_t)4 << 30) + 1 + (size_t)vf_draw(1000);
		vf_big s = vf_big_make(n, 0, true);
		for (size_t i = 0; i < VF_BIG_CHUNK; i++) if (sep((char)s.p[i])) s.p[i] = 'x'; /* all chunks but the last two */
		for (size_t i = s.total - 2 * VF_BIG_CHUNK; i < n; i++) if (sep((char)s.p[i])) s.p[i] = 'x';
		size_t at = n - 1 - (size_t)vf_draw(900);
		if (k == 1) s.p[at] = '/';
		if (k == 2) memset(s.p + at, '/', n - at);
		size_t start = k == 1 && at != n - 1 ? at + 1 : 0, len = (k && (k == 2 || at == n - 1) ? at : n) - start;
		vf_note("base name of %zu characters, %s at %zu", n, k == 0 ? "none" : k == 1 ? "a separator" : "trailing separators", at);
		vfa_set_limit((size_t)6 << 30);
		as_string b;
		const char* r = as_basename(&b, (char*)s.p);
		VF_CHECK(r && as_string_len(&b) == len && as_string_get(&b) == r && !r[len] && !memcmp(r, s.p + start, len), "the base name of %zu characters is wrong", n);
		as_string_destroy(&b);
		vfa_set_limit((size_t)3 << 30);
		vf_big_free(&s);
	}
	vf_nontrivial();
}

/* ---- passwords ---- */
/* the terminal the input comes from; it echoes unless told not to */
static struct termios term, term_before;
static bool is_term, echoed;
int vf_tcgetattr(int fd, struct termios* t);
int vf_tcgetattr(int fd, struct termios* t)
{
	if (fd != 0 || !is_term) { errno = ENOTTY; return -1; }
	*t = term;
	return 0;
}
int vf_tcsetattr(int fd, int how, const struct termios* t);
int vf_tcsetattr(int fd, int how, const struct termios* t)
{
	(void)how;
	if (fd != 0 || !is_term) { errno = ENOTTY; return -1; }
	term = *t;
	return 0;
}
static ssize_t cookie_read(void* c, char* buf, size_t n)
{
	if (is_term && (term.c_lflag & ECHO)) echoed = true;
	return read((int)(intptr_t)c, buf, n);
}
static int cookie_close(void* c) { return close((int)(intptr_t)c); }
typedef struct { FILE* in; FILE* out; FILE* old_in; FILE* old_out; int fd0; } redirect;
static FILE* sink;
static void feed(redirect* r, const void* p, size_t n)
{
	int fd[2];
	if (n > 30000) { /* more than a pipe holds */
		fd[0] = memfd_create("input", 0);
		if (fd[0] < 0 || write(fd[0], p, n) != (ssize_t)n || lseek(fd[0], 0, SEEK_SET)) vf_fail("harness: input file");
		fd[1] = dup(fd[0]);
	}
	else if (pipe(fd) || write(fd[1], p, n) != (ssize_t)n) vf_fail("harness: pipe");
	close(fd[1]);
	if (!sink) sink = fopen("/dev/null", "w");
	r->fd0 = dup(0);
	dup2(fd[0], 0);
	is_term = vf_bool(); echoed = false;
	memset(&term, 0, sizeof(term));
	if (is_term) {
		term.c_iflag = (tcflag_t)vf_draw(1u << 16); term.c_oflag = (tcflag_t)vf_draw(1u << 16); term.c_cflag = (tcflag_t)vf_draw(1u << 16);
		term.c_lflag = (tcflag_t)vf_draw(1u << 16) | ECHO;
		vf_fill(term.c_cc, sizeof(term.c_cc));
	}
	term_before = term;
	cookie_io_functions_t io = { .read = cookie_read, .close = cookie_close };
	r->in = fopencookie((void*)(intptr_t)fd[0], "r", io);
	if (!r->in || !sink) vf_fail("harness: input");
	r->old_in = stdin; r->old_out = stdout;
	stdin = r->in; stdout = sink;
}
static void restore(redirect* r)
{
	stdin = r->old_in; stdout = r->old_out;
	fclose(r->in);
	if (r->fd0 >= 0) { dup2(r->fd0, 0); close(r->fd0); } else close(0);
	VF_CHECK(!echoed, "the terminal echoes while the password is read");
	VF_CHECK(!memcmp(&term, &term_before, sizeof(term)), "the terminal is left in another state (echo %s)", term.c_lflag & ECHO ? "on" : "off");
}

/* Input whose first line is the password; *len is the line without its end. */
static uint8_t* gen_input(size_t* total, size_t* len, bool zeros, size_t max)
{
	size_t n = gen_len(), more = vf_bool() ? vf_draw(20) : 0;
	if (n > max) n = max;
	bool ended = more || vf_chance(3, 4);
	uint8_t* p = vf_tmp(n + 1 + more);
	vf_rng r = { 0 };
	if (n > 300) r.s = vf_draw(0);
	for (size_t i = 0; i < n; i++) {
		p[i] = (uint8_t)(1 + (n > 300 ? vf_rng_next(&r) % 255 : vf_draw(255)));
		if (p[i] == '\n') p[i] = '\r';
		if (zeros && (n > 300 ? vf_rng_next(&r) % 2000 == 0 : vf_chance(1, 10))) p[i] = 0;
	}
	if (zeros && n && vf_chance(1, 6)) p[0] = 0;
	if (ended) p[n] = '\n';
	for (size_t i = 0; i < more; i++) p[n + 1 + i] = (uint8_t)(vf_bool() ? '\n' : 'x');
	*len = n;
	*total = n + (ended ? 1 : 0) + more;
	return p;
}
static char* gen_text(size_t n)
{
	char* t = vf_guarded(n + 1);
	gen_chars(t, n);
	return t;
}
static void acquire(void)
{
	bool given = vf_chance(1, 4), zeros = vf_chance(1, 3);
	size_t total, n;
	uint8_t* in = gen_input(&total, &n, zeros, 300000);
	size_t gn = given ? 1 + gen_len() : 0;
	char* src = given ? gen_text(gn) : vf_bool() ? gen_text(0) : NULL;
	size_t base = given ? gn : n;
	int64_t size = vf_bool() ? 1 + (int64_t)vf_draw(base + 4) : (int64_t)base + vf_irange(-2, 4);
	if (size < 1) size = 1;
	char* trg = vf_guarded((size_t)size);
	memset(trg, 0x7E, (size_t)size);
	const char* from = given ? src : (const char*)in;
	size_t want = base < (size_t)size ? base : (size_t)size - 1, w = 0;
	while (w < want && from[w]) w++;
	vf_note("password of %zu bytes %s into %lld", base, given ? "given" : "read", (long long)size);
	redirect r;
	feed(&r, in, total);
	as_password_acquire(trg, src, (int)size);
	restore(&r);
	VF_CHECK(strnlen(trg, (size_t)size) < (size_t)size, "a password of %zu bytes acquired into %lld bytes is not terminated", base, (long long)size);
	VF_CHECK(strlen(trg) == w && !memcmp(trg, from, w), "a password of %zu bytes %s into %lld bytes becomes %zu bytes, not the first %zu", base, given ? "given" : "read", (long long)size, strlen(trg), w);
	if (!given || base + 1 >= (size_t)size) vf_nontrivial();
}

/* The hash of a password that is given or read: the one it always has. */
static void prompt_hash(void)
{
	bool given = vf_bool();
	size_t total, n;
	uint8_t* in = gen_input(&total, &n, false, 63);
	char* src = NULL;
	if (given) { n = 1 + vf_draw(63); src = gen_text(n); }
	else if (vf_bool()) src = gen_text(0);
	char* pw = vf_guarded(n + 1);
	memcpy(pw, given ? (uint8_t*)src : in, n);
	pw[n] = 0;
	char want[AS_PASSWORD_HASH_SIZE], *hash = vf_guarded(AS_PASSWORD_HASH_SIZE);
	memset(want, 0, sizeof(want)); memset(hash, 0x7E, AS_PASSWORD_HASH_SIZE);
	VF_CHECK(as_password_get_constant_hash(pw, want), "a password of %zu bytes has no hash", n);
	redirect r;
	feed(&r, in, total);
	bool ok = as_password_prompt_hash(src, hash);
	restore(&r);
	VF_CHECK(ok, "a password of %zu bytes %s has no hash", n, given ? "given" : "read");
	VF_CHECK(as_password_verify(hash, want) && strlen(hash) == 60, "a password of %zu bytes %s has another hash than the same password passed directly", n, given ? "given" : "read");
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "copy", copy, 1500000, 15000000, 0 },
	{ "basename", basename_, 2500000, 25000000, 0 },
	{ "wide", wide, 4, 4, VF_ENUM | VF_LONG },
	{ "acquire", acquire, 300000, 3000000, 0 },
	{ "prompt_hash", prompt_hash, 400, 4000, 0 },
	{ NULL }
};
