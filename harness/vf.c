#define _GNU_SOURCE
#include "vf.h"
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXC (1u << 19)
#define MAX_LABELS 96
#define MAX_SAMPLES 3
#define SAMPLE_SZ 1600
#define NOTE_SZ (64 * 1024)
#define EXIT_FAIL 77
#define EXIT_CPU 78

typedef struct {
	volatile uint64_t cur;
	volatile uint32_t nrec;
	volatile uint32_t failed;
	char msg[4096];
	volatile uint64_t evals, nontrivial, distinct;
	uint32_t nlabels;
	struct { char name[56]; uint64_t n; } labels[MAX_LABELS];
	uint32_t nsamples;
	char samples[MAX_SAMPLES][SAMPLE_SZ];
	uint64_t rec[MAXC];
	char note[NOTE_SZ];
} shard_t;

static shard_t* g_sh;          /* shard of this process */
static const uint64_t* g_in;   /* input choices */
static uint32_t g_nin, g_pos;
static bool g_random_tail;
static vf_rng g_rng;
static bool g_describe;
static bool g_nt;
static uint32_t g_note_len;
static uint64_t g_label_mask[(MAX_LABELS + 63) / 64];
static const char* g_outdir;
static uint64_t g_seed;
static bool g_thorough;
static unsigned g_nshards = 8;

/* ------------------------------------------------------------------ */
/* memory private to the harness                                        */

void* vf_xmalloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* vf_xcalloc(size_t n, size_t sz) { void* p = calloc(n ? n : 1, sz ? sz : 1); if (!p) abort(); return p; }
void* vf_xrealloc(void* p, size_t n) { p = realloc(p, n ? n : 1); if (!p) abort(); return p; }
void vf_xfree(void* p) { free(p); }
char* vf_xstrndup(const char* s, size_t n) { char* p = vf_xmalloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

static void** g_tmp; static uint32_t g_ntmp, g_ctmp;
void* vf_tmp(size_t n)
{
	if (g_ntmp == g_ctmp) { g_ctmp = g_ctmp ? g_ctmp * 2 : 256; g_tmp = vf_xrealloc(g_tmp, g_ctmp * sizeof(void*)); }
	return g_tmp[g_ntmp++] = vf_xmalloc(n);
}
void* vf_guarded(size_t n)
{
	/* malloc(0) under ASan still has redzones; keep size exact. */
	if (g_ntmp == g_ctmp) { g_ctmp = g_ctmp ? g_ctmp * 2 : 256; g_tmp = vf_xrealloc(g_tmp, g_ctmp * sizeof(void*)); }
	void* p = malloc(n);
	if (!p) abort();
	return g_tmp[g_ntmp++] = p;
}
static void tmp_release(void)
{
	for (uint32_t i = 0; i < g_ntmp; i++) free(g_tmp[i]);
	g_ntmp = 0;
}
char* vf_fmt(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	va_list ap2; va_copy(ap2, ap);
	int n = vsnprintf(NULL, 0, fmt, ap2); va_end(ap2);
	char* s = vf_tmp((size_t)n + 1);
	vsnprintf(s, (size_t)n + 1, fmt, ap); va_end(ap);
	return s;
}

/* ------------------------------------------------------------------ */
/* choices                                                              */

uint64_t vf_draw(uint64_t n)
{
	uint64_t v;
	if (n == 1) return 0;
	if (g_pos < g_nin) {
		v = g_in[g_pos];
		if (n && v >= n) v %= n;
	}
	else if (g_random_tail) {
		v = vf_rng_next(&g_rng);
		if (n) v = (uint64_t)(((__uint128_t)v * n) >> 64);
	}
	else {
		v = 0;
	}
	g_pos++;
	uint32_t k = g_sh->nrec;
	if (k < MAXC) { g_sh->rec[k] = v; g_sh->nrec = k + 1; }
	return v;
}

uint64_t vf_range(uint64_t lo, uint64_t hi) { return lo + vf_draw(hi - lo + 1); }
int64_t vf_irange(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + vf_draw((uint64_t)hi - (uint64_t)lo + 1)); }
bool vf_bool(void) { return vf_draw(2) != 0; }
bool vf_chance(unsigned num, unsigned den) { return vf_draw(den) >= den - num; }
unsigned vf_pick(unsigned n, const unsigned* w)
{
	unsigned tot = 0;
	for (unsigned i = 0; i < n; i++) tot += w[i];
	uint64_t v = vf_draw(tot);
	for (unsigned i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
	return n - 1;
}
uint64_t vf_skewed(uint64_t n)
{
	if (n <= 1) return 0;
	unsigned bits = 64 - (unsigned)__builtin_clzll(n - 1);
	unsigned b = (unsigned)vf_draw(bits + 1);
	if (b == 0) return 0;
	uint64_t lo = 1ull << (b - 1), hi = b == 64 ? UINT64_MAX : (1ull << b) - 1;
	if (hi > n - 1) hi = n - 1;
	if (lo > hi) return n - 1;
	return lo + vf_draw(hi - lo + 1);
}
uint64_t vf_uint64(void)
{
	switch (vf_draw(4)) {
	case 0: return vf_draw(40);
	case 1: { /* around a power of two */
		unsigned b = (unsigned)vf_draw(65);
		uint64_t base = b == 64 ? 0 : 1ull << b;
		return base + vf_draw(7) - 3;
	}
	case 2: { unsigned b = (unsigned)vf_range(1, 64); return vf_draw(0) >> (64 - b); }
	default: { /* around interesting header limits */
		static const uint64_t t[] = { 0, 31, 127, 255, 65535, 0xFFFFFFFFull, 0x7FFFFFFFull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull };
		return t[vf_draw(9)] + vf_draw(5) - 2;
	}
	}
}
uint32_t vf_uint32(void)
{
	return (uint32_t)vf_uint64();
}
int64_t vf_int64(void)
{
	uint64_t v = vf_uint64();
	return vf_bool() ? (int64_t)(0 - v) : (int64_t)v;
}
static double from_bits(uint64_t u)
{
	double d;
	memcpy(&d, &u, 8);
	return d;
}
float vf_float_bits(void)
{
	uint32_t u = (uint32_t)vf_draw(0);
	if (vf_bool()) u &= 0x807FFFFFu >> vf_draw(23); /* denormals and zeros */
	float f;
	memcpy(&f, &u, 4);
	return f;
}
double vf_double_any(void)
{
	if (!vf_chance(1, 6)) return vf_double();
	/* NaN: every sign, quiet or signalling, any payload */
	uint64_t frac = vf_draw(0) & 0xFFFFFFFFFFFFFull;
	if (vf_bool()) frac &= 0x8000000000000ull | (1ull << vf_draw(52));
	if (vf_bool()) frac &= ~0x1FFFFFFFull; /* also representable in single precision */
	if (frac == 0) frac = 1ull << 51;
	return from_bits((vf_bool() ? 0xFFF0000000000000ull : 0x7FF0000000000000ull) | frac);
}
double vf_double(void)
{
	switch (vf_draw(6)) {
	case 0: return (double)(int64_t)vf_draw(20) - 5;
	case 1: return ldexp((double)vf_int64(), (int)vf_draw(60) - 40);
	case 2: {
		static const double t[] = { 0.0, -0.0, 0.5, -0.5, 1e308, -1e308, 4.9e-324, -4.9e-324, INFINITY, -INFINITY, 3.4028235e38, 1.1754944e-38 };
		return t[vf_draw(12)];
	}
	case 3: return (double)(float)ldexp((double)(int64_t)vf_draw(0), -70);
	case 4: {
		float f = vf_float_bits();
		return isnan(f) ? 1.5 : (double)f;
	}
	default: {
		union { uint64_t u; double d; } x;
		x.u = vf_draw(0);
		if (isnan(x.d)) x.u &= ~0x7FF0000000000000ull;
		return x.d;
	}
	}
}
void vf_fill(void* buf, size_t n)
{
	uint8_t* p = buf;
	if (n == 0) return;
	if (n <= 6) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)vf_draw(256); return; }
	switch (vf_draw(4)) {
	case 0: memset(p, (int)vf_draw(256), n); break;
	case 1: { uint8_t b = (uint8_t)vf_draw(256); for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(b + i); break; }
	default: {
		vf_rng r = { vf_draw(0) };
		size_t i = 0;
		while (i + 8 <= n) { uint64_t v = vf_rng_next(&r); memcpy(p + i, &v, 8); i += 8; }
		if (i < n) { uint64_t v = vf_rng_next(&r); memcpy(p + i, &v, n - i); }
	}
	}
}
void vf_fill_text(char* buf, size_t n)
{
	buf[n] = 0;
	if (n == 0) return;
	if (n <= 6) {
		bool any = vf_chance(1, 3);
		for (size_t i = 0; i < n; i++) buf[i] = any ? (char)vf_range(1, 255) : (char)('a' + vf_draw(26));
		return;
	}
	switch (vf_draw(4)) {
	case 0: memset(buf, 'a' + (int)vf_draw(26), n); break;
	case 1: { vf_rng r = { vf_draw(0) }; for (size_t i = 0; i < n; i++) { buf[i] = (char)(vf_rng_next(&r) % 255 + 1); } break; }
	default: { vf_rng r = { vf_draw(0) }; for (size_t i = 0; i < n; i++) { buf[i] = "abcdefghijklmnopqrstuvwxyz0123456789 ,:(){}\"'\\%"[vf_rng_next(&r) % 47]; } }
	}
}
uint64_t vf_case_seed(void) { return vf_draw(0); }
bool vf_describing(void) { return g_describe; }

/* ------------------------------------------------------------------ */
/* outcome                                                              */

void vf_fail(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	vsnprintf(g_sh->msg, sizeof(g_sh->msg), fmt, ap);
	va_end(ap);
	g_sh->failed = 1;
	_exit(EXIT_FAIL);
}
void vf_nontrivial(void) { g_nt = true; }
void vf_label(const char* name)
{
	uint32_t i;
	for (i = 0; i < g_sh->nlabels; i++) if (!strcmp(g_sh->labels[i].name, name)) break;
	if (i == MAX_LABELS) return;
	if (i == g_sh->nlabels) { snprintf(g_sh->labels[i].name, sizeof(g_sh->labels[i].name), "%s", name); g_sh->nlabels++; }
	if (g_label_mask[i / 64] >> (i % 64) & 1) return; /* once per case */
	g_label_mask[i / 64] |= 1ull << (i % 64);
	g_sh->labels[i].n++;
}
static void note_raw(const char* fmt, va_list ap)
{
	if (!g_describe || g_note_len + 2 >= NOTE_SZ) return;
	int n = vsnprintf(g_sh->note + g_note_len, NOTE_SZ - g_note_len, fmt, ap);
	if (n < 0) return;
	g_note_len += (uint32_t)n;
	if (g_note_len >= NOTE_SZ) g_note_len = NOTE_SZ - 1;
}
static void note_more(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	note_raw(fmt, ap);
	va_end(ap);
}
void (vf_note)(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	note_raw(fmt, ap);
	va_end(ap);
	note_more("; ");
}
void vf_note_hex(const char* what, const void* p, size_t n)
{
	if (!g_describe) return;
	note_more("%s[%zu]=", what, n);
	size_t m = n < 200 ? n : 200;
	for (size_t i = 0; i < m; i++) note_more("%02x", ((const uint8_t*)p)[i]);
	note_more("%s; ", m < n ? "..." : "");
}

/* ------------------------------------------------------------------ */
/* coverage                                                             */

static uint8_t* g_cov_beg[64]; static uint8_t* g_cov_end[64]; static unsigned g_ncov;
static uint8_t* g_cov_seen[64];
void __sanitizer_cov_8bit_counters_init(uint8_t* beg, uint8_t* end);
void __sanitizer_cov_8bit_counters_init(uint8_t* beg, uint8_t* end)
{
	if (beg == end) return;
	for (unsigned i = 0; i < g_ncov; i++) if (g_cov_beg[i] == beg) return;
	if (g_ncov == 64) return;
	g_cov_beg[g_ncov] = beg; g_cov_end[g_ncov] = end; g_ncov++;
}
void __sanitizer_cov_pcs_init(const uintptr_t* b, const uintptr_t* e);
void __sanitizer_cov_pcs_init(const uintptr_t* b, const uintptr_t* e) { (void)b; (void)e; }

static void cov_clear(void)
{
	for (unsigned i = 0; i < g_ncov; i++) memset(g_cov_beg[i], 0, (size_t)(g_cov_end[i] - g_cov_beg[i]));
}
static uint8_t bucket(uint8_t c)
{
	if (c == 0) return 0;
	if (c == 1) return 1;
	if (c == 2) return 2;
	if (c == 3) return 4;
	if (c < 8) return 8;
	if (c < 16) return 16;
	if (c < 32) return 32;
	if (c < 128) return 64;
	return 128;
}
static bool cov_new(void)
{
	bool isnew = false;
	for (unsigned i = 0; i < g_ncov; i++) {
		size_t n = (size_t)(g_cov_end[i] - g_cov_beg[i]);
		if (!g_cov_seen[i]) g_cov_seen[i] = vf_xcalloc(n, 1);
		for (size_t k = 0; k < n; k++) {
			uint8_t b = bucket(g_cov_beg[i][k]);
			if (b & ~g_cov_seen[i][k]) { g_cov_seen[i][k] |= b; isnew = true; }
		}
	}
	return isnew;
}

/* ------------------------------------------------------------------ */
/* running one case                                                     */

static uint64_t hash64(const uint64_t* p, uint32_t n)
{
	uint64_t h = 0x12345678 + n;
	for (uint32_t i = 0; i < n; i++) { h ^= p[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
	return h;
}

/* A case is stuck when it has used g_cpu_limit seconds of CPU time by itself. */
static uint64_t g_cpu_limit = 60;
static volatile uint64_t g_done, g_tick_done = UINT64_MAX;
static volatile unsigned g_strikes;
static void on_cpu(int sig)
{
	(void)sig;
	if (g_done != g_tick_done) { g_tick_done = g_done; g_strikes = 0; return; }
	if (++g_strikes < 4) return;
	snprintf(g_sh->msg, sizeof(g_sh->msg), "case did not finish within %llu s of CPU time", (unsigned long long)g_cpu_limit);
	g_sh->failed = 1;
	_exit(EXIT_CPU);
}
static void arm_cpu(void)
{
	uint64_t us = g_cpu_limit * 1000000 / 4;
	struct itimerval it = { {(time_t)(us / 1000000), (suseconds_t)(us % 1000000)}, {(time_t)(us / 1000000), (suseconds_t)(us % 1000000)} };
	g_tick_done = UINT64_MAX; g_strikes = 0;
	setitimer(ITIMER_PROF, &it, NULL);
}

uint64_t vf_choice_hash(void)
{
	uint64_t x = 0xcbf29ce484222325ull;
	for (uint32_t i = 0; i < g_sh->nrec && i < 12; i++) { x ^= g_sh->rec[i]; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; }
	return x;
}

static void run_case(const vf_target* t, const uint64_t* in, uint32_t nin, bool random_tail, uint64_t rng_seed)
{
	g_in = in; g_nin = nin; g_pos = 0; g_random_tail = random_tail; g_rng.s = rng_seed;
	g_sh->nrec = 0; g_nt = false; g_note_len = 0; g_sh->note[0] = 0;
	memset(g_label_mask, 0, sizeof(g_label_mask));
	vfa_reset();
	t->run();
	tmp_release();
}

/* hash set of non-trivial cases */
static uint64_t* g_set; static uint64_t g_setcap, g_setn;
static void set_add(uint64_t h)
{
	if (h == 0) h = 1;
	if (g_setn * 2 >= g_setcap) {
		uint64_t oc = g_setcap; uint64_t* o = g_set;
		g_setcap = oc ? oc * 2 : 4096; g_set = vf_xcalloc(g_setcap, 8); g_setn = 0;
		for (uint64_t i = 0; i < oc; i++) if (o[i]) set_add(o[i]);
		free(o);
	}
	uint64_t i = h & (g_setcap - 1);
	while (g_set[i]) { if (g_set[i] == h) return; i = (i + 1) & (g_setcap - 1); }
	g_set[i] = h; g_setn++;
}

/* pool of interesting cases */
typedef struct { uint64_t* c; uint32_t n; } entry_t;
static entry_t* g_pool; static uint32_t g_npool, g_cpool;
static void pool_add(const uint64_t* c, uint32_t n)
{
	if (n > 4000) return;
	if (g_npool == 4096) { /* overwrite a pseudo-random slot, deterministically */
		uint32_t k = (uint32_t)(hash64(c, n) % g_npool);
		free(g_pool[k].c); g_pool[k].c = vf_xmalloc(n * 8); memcpy(g_pool[k].c, c, n * 8); g_pool[k].n = n;
		return;
	}
	if (g_npool == g_cpool) { g_cpool = g_cpool ? g_cpool * 2 : 64; g_pool = vf_xrealloc(g_pool, g_cpool * sizeof(entry_t)); }
	g_pool[g_npool].c = vf_xmalloc(n * 8 + 8); memcpy(g_pool[g_npool].c, c, n * 8); g_pool[g_npool].n = n; g_npool++;
}
static uint64_t g_mut[MAXC];
static uint32_t mutate(vf_rng* r)
{
	entry_t* e = &g_pool[vf_rng_next(r) % g_npool];
	uint32_t n = e->n;
	memcpy(g_mut, e->c, n * 8);
	unsigned k = 1 + (unsigned)(vf_rng_next(r) % 4);
	while (k--) {
		if (n == 0) { g_mut[n++] = vf_rng_next(r); continue; }
		uint32_t at = (uint32_t)(vf_rng_next(r) % n);
		switch (vf_rng_next(r) % 8) {
		case 0: g_mut[at] = vf_rng_next(r); break;
		case 1: g_mut[at] = vf_rng_next(r) % 8; break;
		case 2: g_mut[at] += 1 + vf_rng_next(r) % 3; break;
		case 3: g_mut[at] -= 1 + vf_rng_next(r) % 3; break;
		case 4: { /* delete span */
			uint32_t len = 1 + (uint32_t)(vf_rng_next(r) % 8); if (at + len > n) len = n - at;
			memmove(g_mut + at, g_mut + at + len, (n - at - len) * 8); n -= len; break;
		}
		case 5: { /* duplicate span */
			uint32_t len = 1 + (uint32_t)(vf_rng_next(r) % 16); if (at + len > n) len = n - at;
			if (n + len >= MAXC) break;
			memmove(g_mut + at + len, g_mut + at, (n - at) * 8); n += len; break;
		}
		case 6: { /* splice */
			entry_t* o = &g_pool[vf_rng_next(r) % g_npool];
			if (o->n == 0) break;
			uint32_t from = (uint32_t)(vf_rng_next(r) % o->n), len = 1 + (uint32_t)(vf_rng_next(r) % 32);
			if (from + len > o->n) len = o->n - from;
			if (at + len > MAXC) break;
			memcpy(g_mut + at, o->c + from, len * 8); if (at + len > n) n = at + len; break;
		}
		default: n = at; break; /* truncate; the rest is drawn fresh */
		}
	}
	return n;
}

static uint64_t case_rng(const vf_target* t, uint64_t idx)
{
	uint64_t h = g_seed * 0xD6E8FEB86659FD93ull + 0x1234567;
	for (const char* c = t->name; *c; c++) h = (h ^ (uint8_t)*c) * 0x100000001b3ull;
	vf_rng r = { h ^ (idx * 0xA0761D6478BD642Full) };
	vf_rng_next(&r);
	return vf_rng_next(&r);
}

static void worker(const vf_target* t, unsigned shard, unsigned nshards, uint64_t ncases, uint64_t upto, bool describe)
{
	bool fuzz = (t->flags & VF_FUZZ) != 0;
	uint64_t done = 0;
	if (t->flags & VF_LONG) g_cpu_limit = 700;
	arm_cpu();
	for (uint64_t idx = shard; idx < ncases && idx <= upto; idx += nshards) {
		g_sh->cur = idx;
		g_done = ++done;
		g_describe = describe || done <= 40;
		vf_rng mr = { case_rng(t, idx) };
		uint64_t seed = vf_rng_next(&mr);
		if (fuzz) cov_clear();
		if (t->flags & VF_ENUM) { uint64_t in[1] = { idx }; run_case(t, in, 1, true, seed); }
		else if (fuzz && g_npool && vf_rng_next(&mr) % 3) { uint32_t n = mutate(&mr); run_case(t, g_mut, n, true, seed); }
		else run_case(t, NULL, 0, true, seed);
		if (fuzz && cov_new()) pool_add(g_sh->rec, g_sh->nrec);
		g_sh->evals++;
		if (g_nt) {
			g_sh->nontrivial++;
			set_add(hash64(g_sh->rec, g_sh->nrec));
			if (g_describe && g_sh->nsamples < MAX_SAMPLES && g_note_len) {
				snprintf(g_sh->samples[g_sh->nsamples], SAMPLE_SZ, "%.*s", SAMPLE_SZ - 1, g_sh->note);
				g_sh->nsamples++;
			}
		}
	}
	struct itimerval z = { {0, 0}, {0, 0} };
	setitimer(ITIMER_PROF, &z, NULL);
	/* dump hash set for merging */
	char path[1024];
	snprintf(path, sizeof(path), "%s/%s.%u.set", g_outdir, t->name, shard);
	int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd >= 0) {
		uint64_t w = 0;
		uint64_t* flat = vf_xmalloc((g_setn + 1) * 8);
		for (uint64_t i = 0; i < g_setcap; i++) if (g_set[i]) flat[w++] = g_set[i];
		size_t off = 0, tot = w * 8;
		while (off < tot) { ssize_t k = write(fd, (char*)flat + off, tot - off); if (k <= 0) break; off += (size_t)k; }
		close(fd);
	}
	_exit(0);
}

/* ------------------------------------------------------------------ */
/* confirming, shrinking, replaying                                     */

static void quiet_stderr(const char* name)
{
	char path[1024];
	snprintf(path, sizeof(path), "%s/%s", g_outdir, name);
	int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
}

/* Returns true if the case fails; message left in sh->msg. */
static bool attempt(const vf_target* t, shard_t* sh, const uint64_t* in, uint32_t n, bool describe, uint64_t cpu, const char* errname)
{
	sh->failed = 0; sh->msg[0] = 0; sh->nrec = 0;
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		quiet_stderr(errname);
		g_sh = sh; g_describe = describe; g_cpu_limit = t->flags & VF_LONG ? 700 : cpu;
		arm_cpu();
		run_case(t, in, n, false, 0);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if (!sh->failed) {
		/* crash: take the sanitizer summary if there is one */
		char path[1024]; char line[1024]; const char* what = NULL; char keep[1024] = "";
		snprintf(path, sizeof(path), "%s/%s", g_outdir, errname);
		FILE* f = fopen(path, "r");
		if (f) {
			while (fgets(line, sizeof(line), f)) {
				if (strstr(line, "SUMMARY:") || strstr(line, "runtime error:")) { snprintf(keep, sizeof(keep), "%s", line); what = keep; if (strstr(line, "SUMMARY:")) break; }
			}
			fclose(f);
		}
		if (what) { char* nl = strchr(keep, '\n'); if (nl) *nl = 0; }
		if (WIFSIGNALED(st)) snprintf(sh->msg, sizeof(sh->msg), "crash: signal %d %s", WTERMSIG(st), what ? what : "");
		else snprintf(sh->msg, sizeof(sh->msg), "crash: exit %d %s", WEXITSTATUS(st), what ? what : "");
	}
	return true;
}

static double now(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9; }

static uint32_t shrink(const vf_target* t, shard_t* sh, uint64_t* best, uint32_t n)
{
	uint64_t* cand = vf_xmalloc(MAXC * 8ull);
	double end = now() + (getenv("VF_SHRINK_S") ? atof(getenv("VF_SHRINK_S")) : 45);
	unsigned tries = 0;
	const unsigned max_tries = 6000;
	bool progress = true;
#define TRY(m) (tries++ < max_tries && now() < end && attempt(t, sh, cand, (m), false, 10, "shrink.err"))
#define KEEP() do { /* adopt what was actually drawn if it is shorter */ \
		n = sh->nrec; memcpy(best, (void*)sh->rec, n * 8ull); progress = true; } while (0)
	/* drop trailing zeros implicitly: missing choices read as zero */
	while (progress && tries < max_tries && now() < end) {
		progress = false;
		/* delete spans */
		for (uint32_t len = n / 2 ? n / 2 : 1; len >= 1; len /= 2) {
			for (uint32_t at = 0; at + len <= n;) {
				memcpy(cand, best, at * 8ull);
				memcpy(cand + at, best + at + len, (n - at - len) * 8ull);
				uint32_t before = n;
				if (TRY(n - len) && sh->nrec < before) { KEEP(); }
				else at += len;
				if (tries >= max_tries || now() >= end) break;
			}
			if (len == 1) break;
		}
		/* zero spans, then lower single values */
		for (uint32_t len = n > 8 ? 8 : (n ? n : 1); len >= 1; len /= 2) {
			for (uint32_t at = 0; at + len <= n; at += len) {
				bool any = false;
				for (uint32_t k = 0; k < len; k++) any |= best[at + k] != 0;
				if (!any) continue;
				memcpy(cand, best, n * 8ull);
				memset(cand + at, 0, len * 8ull);
				if (TRY(n) && sh->nrec <= n) KEEP();
				if (tries >= max_tries || now() >= end) break;
			}
			if (len == 1) break;
		}
		for (uint32_t at = 0; at < n; at++) {
			uint64_t lo = 0, hi = best[at];
			/* find a smaller failing value by bisection */
			while (hi > lo && tries < max_tries && now() < end) {
				uint64_t mid = lo + (hi - lo) / 2;
				memcpy(cand, best, n * 8ull);
				cand[at] = mid;
				if (TRY(n) && sh->nrec <= n && at < sh->nrec) { KEEP(); hi = mid; if (at >= n) break; }
				else lo = mid + 1;
			}
			if (tries >= max_tries || now() >= end) break;
		}
	}
	free(cand);
	return n;
}

static void json_str(FILE* f, const char* s)
{
	fputc('"', f);
	for (const uint8_t* p = (const uint8_t*)s; *p; p++) {
		if (*p == '"' || *p == '\\') { fputc('\\', f); fputc(*p, f); }
		else if (*p < 32 || *p >= 127) fprintf(f, "\\u%04x", *p);
		else fputc(*p, f);
	}
	fputc('"', f);
}

static shard_t* new_shard(void)
{
	shard_t* s = mmap(NULL, sizeof(shard_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (s == MAP_FAILED) { perror("mmap"); exit(2); }
	return s;
}

static int cmp64(const void* a, const void* b)
{
	uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b;
	return x < y ? -1 : x > y;
}

/* A failure that only shows after earlier cases in the same process. */
static bool attempt_sequence(const vf_target* t, shard_t* sh, unsigned shard, unsigned nshards, uint64_t ncases, uint64_t upto)
{
	sh->failed = 0; sh->msg[0] = 0; sh->evals = 0; sh->nlabels = 0; sh->nsamples = 0;
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) { quiet_stderr("seq.err"); g_sh = sh; worker(t, shard, nshards, ncases, upto, true); }
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if (!sh->failed) snprintf(sh->msg, sizeof(sh->msg), "crash: status 0x%x after a sequence of cases", st);
	return true;
}

static int report_failure(const vf_target* t, shard_t* bad, unsigned shard, unsigned nshards, uint64_t ncases, FILE* out)
{
	uint32_t n = bad->nrec;
	uint64_t idx = bad->cur;
	uint64_t* best = vf_xmalloc(MAXC * 8ull);
	memcpy(best, (void*)bad->rec, n * 8ull);
	shard_t* sh = new_shard();
	char first[4096];
	snprintf(first, sizeof(first), "%s", bad->failed ? bad->msg : "crash");
	int ok = 0;
	int times = t->flags & VF_LONG ? 1 : 3;
	for (int i = 0; i < times; i++) ok += attempt(t, sh, best, n, t->flags & VF_LONG, 60, "replay.err");
	char path[1024];
	snprintf(path, sizeof(path), "%s/%s.replay", g_outdir, t->name);
	if (ok < times) {
		/* not a function of the single case; try the whole sequence */
		int seq = 0;
		for (int i = 0; i < 2; i++) seq += attempt_sequence(t, sh, shard, nshards, ncases, idx);
		FILE* f = fopen(path, "w");
		fprintf(f, "target %s\nsequence %llu %u %u %llu %llu\n", t->name, (unsigned long long)g_seed, shard, nshards, (unsigned long long)ncases, (unsigned long long)idx);
		fprintf(f, "# message: %s\n# first seen: %s\n", sh->msg, first);
		fclose(f);
		fprintf(out, "\"failure\":{\"kind\":\"%s\",\"message\":", seq == 2 || ok > 0 ? "sequence" : "unreproducible");
		json_str(out, sh->msg[0] ? sh->msg : first);
		fprintf(out, ",\"replay\":"); json_str(out, path); fprintf(out, "}");
		return seq == 2 ? 1 : 3;
	}
	if (!(t->flags & VF_LONG)) n = shrink(t, sh, best, n);
	while (n && best[n - 1] == 0) n--;
	int again = 0;
	for (int i = 0; i < 3 && !(t->flags & VF_LONG); i++) again += attempt(t, sh, best, n, true, 60, "replay.err");
	if (again < 3 && !(t->flags & VF_LONG)) { /* shrinking went wrong somewhere: fall back to the original */
		n = bad->nrec; memcpy(best, (void*)bad->rec, n * 8ull);
		attempt(t, sh, best, n, true, 60, "replay.err");
	}
	FILE* f = fopen(path, "w");
	fprintf(f, "target %s\nchoices %u", t->name, n);
	for (uint32_t i = 0; i < n; i++) fprintf(f, " %llu", (unsigned long long)best[i]);
	fprintf(f, "\n# message: %s\n# first seen (case %llu, seed %llu): %s\n# input: %s\n", sh->msg, (unsigned long long)idx, (unsigned long long)g_seed, first, sh->note);
	fclose(f);
	fprintf(out, "\"failure\":{\"kind\":\"case\",\"message\":"); json_str(out, sh->msg);
	fprintf(out, ",\"input\":"); sh->note[4000] = 0; json_str(out, sh->note);
	fprintf(out, ",\"replay\":"); json_str(out, path); fprintf(out, "}");
	return 1;
}

static int run_target(const vf_target* t, FILE* out, double scale)
{
	uint64_t ncases = (uint64_t)((double)(g_thorough ? t->thorough : t->quick) * scale);
	if (ncases == 0) ncases = 1;
	if ((g_thorough ? t->thorough : t->quick) == 0) ncases = 0;
	if (t->flags & VF_ENUM) ncases = g_thorough ? t->thorough : t->quick;
	unsigned ns = (t->flags & VF_SERIAL) ? 1 : g_nshards;
	if (ns > ncases) ns = (unsigned)ncases;
	shard_t** sh = vf_xcalloc(ns, sizeof(*sh));
	pid_t* pid = vf_xcalloc(ns, sizeof(*pid));
	double t0 = now();
	fflush(NULL);
	for (unsigned i = 0; i < ns; i++) {
		sh[i] = new_shard();
		pid[i] = fork();
		if (pid[i] == 0) {
			char nm[64]; snprintf(nm, sizeof(nm), "%s.%u.err", t->name, i);
			quiet_stderr(nm);
			g_sh = sh[i];
			worker(t, i, ns, ncases, UINT64_MAX, false);
		}
	}
	int bad = -1;
	for (unsigned left = ns; left > 0; left--) {
		int st = 0;
		pid_t p;
		while ((p = wait(&st)) < 0 && errno == EINTR) ;
		if (p < 0) break;
		unsigned k = 0;
		while (k < ns && pid[k] != p) k++;
		if (k == ns) { left++; continue; }
		pid[k] = 0;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			bad = (int)k;
			for (unsigned i = 0; i < ns; i++) if (pid[i]) kill(pid[i], SIGKILL);
			for (unsigned i = 0; i < ns; i++) if (pid[i]) waitpid(pid[i], NULL, 0);
			break;
		}
	}
	/* merge */
	uint64_t ev = 0, nt = 0; uint64_t* all = NULL; uint64_t nall = 0;
	for (unsigned i = 0; i < ns; i++) {
		ev += sh[i]->evals; nt += sh[i]->nontrivial;
		char path[1024]; snprintf(path, sizeof(path), "%s/%s.%u.set", g_outdir, t->name, i);
		FILE* f = fopen(path, "rb");
		if (!f) continue;
		struct stat sb; fstat(fileno(f), &sb);
		uint64_t k = (uint64_t)sb.st_size / 8;
		all = vf_xrealloc(all, (nall + k + 1) * 8);
		nall += fread(all + nall, 8, k, f);
		fclose(f); unlink(path);
	}
	if (nall) qsort(all, nall, 8, cmp64);
	uint64_t dist = 0;
	for (uint64_t i = 0; i < nall; i++) if (i == 0 || all[i] != all[i - 1]) dist++;
	fprintf(out, "{\"name\":"); json_str(out, t->name);
	fprintf(out, ",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"wall_s\":%.2f,\"labels\":{", (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)dist, now() - t0);
	/* labels */
	bool firstl = true;
	for (unsigned i = 0; i < ns; i++) {
		for (uint32_t l = 0; l < sh[i]->nlabels; l++) {
			bool seen = false;
			for (unsigned j = 0; j < i && !seen; j++) for (uint32_t m = 0; m < sh[j]->nlabels; m++) if (!strcmp(sh[j]->labels[m].name, sh[i]->labels[l].name)) seen = true;
			if (seen) continue;
			uint64_t tot = 0;
			for (unsigned j = i; j < ns; j++) for (uint32_t m = 0; m < sh[j]->nlabels; m++) if (!strcmp(sh[j]->labels[m].name, sh[i]->labels[l].name)) tot += sh[j]->labels[m].n;
			fprintf(out, "%s", firstl ? "" : ","); firstl = false;
			json_str(out, sh[i]->labels[l].name); fprintf(out, ":%llu", (unsigned long long)tot);
		}
	}
	fprintf(out, "},\"samples\":[");
	bool firsts = true; unsigned emitted = 0;
	for (unsigned i = 0; i < ns && emitted < 4; i++) for (uint32_t s = 0; s < sh[i]->nsamples && s < 1 && emitted < 4; s++) { fprintf(out, "%s", firsts ? "" : ","); json_str(out, sh[i]->samples[s]); firsts = false; emitted++; }
	fprintf(out, "]");
	int rc = 0;
	if (bad >= 0) { fprintf(out, ","); rc = report_failure(t, sh[bad], (unsigned)bad, ns, ncases, out); }
	fprintf(out, "}");
	for (unsigned i = 0; i < ns; i++) munmap(sh[i], sizeof(shard_t));
	free(all); free(sh); free(pid);
	return rc;
}

static int do_replay(const char* file)
{
	FILE* f = fopen(file, "r");
	if (!f) { perror(file); return 2; }
	char name[256]; char kind[32];
	if (fscanf(f, "target %255s %31s", name, kind) != 2) { fprintf(stderr, "bad replay file\n"); return 2; }
	const vf_target* t = NULL;
	for (const vf_target* x = vf_targets; x->name; x++) if (!strcmp(x->name, name)) t = x;
	if (!t) { fprintf(stderr, "unknown target %s\n", name); return 2; }
	shard_t* sh = new_shard();
	bool bad;
	if (!strcmp(kind, "sequence")) {
		unsigned long long seed, nc, up; unsigned s, ns;
		if (fscanf(f, "%llu %u %u %llu %llu", &seed, &s, &ns, &nc, &up) != 5) return 2;
		g_seed = seed;
		bad = attempt_sequence(t, sh, s, ns, nc, up);
	}
	else {
		unsigned n;
		if (fscanf(f, "%u", &n) != 1) return 2;
		uint64_t* c = vf_xcalloc(n + 1, 8);
		for (unsigned i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) return 2; c[i] = v; }
		bad = attempt(t, sh, c, n, true, 60, "replay.err");
	}
	fclose(f);
	printf("input: %s\n", sh->note);
	printf("%s\n", bad ? sh->msg : "held");
	return bad ? 1 : 0;
}

int main(int argc, char** argv)
{
	const char* replay = NULL; const char* only = NULL; double scale = 1.0;
	g_outdir = ".";
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) g_seed = strtoull(argv[++i], NULL, 10);
		else if (!strcmp(argv[i], "--tier")) g_thorough = !strcmp(argv[++i], "thorough");
		else if (!strcmp(argv[i], "--out")) g_outdir = argv[++i];
		else if (!strcmp(argv[i], "--shards")) g_nshards = (unsigned)atoi(argv[++i]);
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--target")) only = argv[++i];
		else if (!strcmp(argv[i], "--scale")) scale = atof(argv[++i]);
		else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
	}
	struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_cpu; sigaction(SIGPROF, &sa, NULL);
	struct rlimit core = { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
	if (replay) return do_replay(replay);
	char path[1024]; snprintf(path, sizeof(path), "%s/result.json", g_outdir);
	FILE* out = fopen(path, "w");
	if (!out) { perror(path); return 2; }
	fprintf(out, "{\"rule\":"); json_str(out, vf_rule); fprintf(out, ",\"targets\":[");
	int rc = 0; bool first = true;
	for (const vf_target* t = vf_targets; t->name; t++) {
		if (only && strcmp(only, t->name)) continue;
		if (!first) fprintf(out, ",");
		first = false;
		int r = run_target(t, out, scale);
		if (r) { rc = r; break; }
	}
	fprintf(out, "]}\n");
	fclose(out);
	return rc;
}
