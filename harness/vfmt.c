#define _GNU_SOURCE
#include "vfmt.h"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>

#define N VFMT_MAX
#define STACK (512 * 1024)

/* ------------------------------------------------------------------ */
/* threads                                                              */

enum { S_FREE, S_READY, S_MUTEX, S_COND, S_JOIN, S_SETTLE, S_SLEEP, S_RW, S_DONE };
typedef struct {
	void* sp;
	uint8_t* stack;
	void* (*fn)(void*);
	void* arg;
	void* ret;
	int state;
	void* obj;             /* mutex, condition or lock waited for */
	void* mutex;           /* mutex to take again after a condition wait */
	bool timed, timed_out, want_write;
	bool detached, joined;
	uint64_t deadline;
	unsigned target;       /* thread being joined */
	uint8_t* tls;          /* its thread-local variables while another runs */
	uint32_t vc[N], acq[N], relf[N];
} co;
static co T[N];
static unsigned nthreads, cur, nstarted;
static bool active;
static uint64_t events, since_switch;
unsigned vfmt_slice;
uint64_t vfmt_limit;
unsigned vfmt_gap = 160;
bool vfmt_calm;
static int64_t gap;            /* events until the next preemption; <0: none planned */
static unsigned preempts_left, preempts, switches, spurious_left;
static uint64_t vt;
static uint32_t stuck_mask;
uint32_t vfmt_create_fails;
unsigned vfmt_spurious_max = 2;
bool vfmt_no_timeouts;

unsigned vfmt_self(void) { return cur; }
unsigned vfmt_switches(void) { return switches; }
unsigned vfmt_preempts(void) { return preempts; }
uint64_t vfmt_now(void) { return vt; }

void vfmt_swap(void** save, void* load);
__asm__(
	".text\n.globl vfmt_swap\n.type vfmt_swap,@function\nvfmt_swap:\n"
	"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
	"movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
	"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
	".size vfmt_swap,.-vfmt_swap\n");

/* ------------------------------------------------------------------ */
/* locks and conditions, by address                                     */

typedef struct { void* addr; int owner; int readers; uint32_t vc[N]; bool dead; uint32_t gen; } lock_t;
#define NLOCK 256
static lock_t locks[NLOCK];
static uint32_t gen = 1;

static uintptr_t hp(const void* p) { uint64_t x = (uint64_t)(uintptr_t)p >> 3; x *= 0x9E3779B97F4A7C15ull; return (uintptr_t)(x >> 40); }
static lock_t* lock_of(void* p)
{
	unsigned i = hp(p) % NLOCK, k;
	for (k = 0; k < NLOCK; k++, i = (i + 1) % NLOCK) {
		lock_t* l = &locks[i];
		if (l->gen != gen) { memset(l, 0, sizeof(*l)); l->gen = gen; l->addr = p; l->owner = -1; return l; }
		if (l->addr == p) return l;
	}
	vf_fail("harness: too many locks");
}

static void join_vc(uint32_t* a, const uint32_t* b) { for (unsigned i = 0; i < N; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void bump(void) { T[cur].vc[cur]++; }

/* ------------------------------------------------------------------ */
/* memory                                                               */

#define ARENA (4u << 20)
#define CELLS (ARENA / 8)
typedef struct { uint32_t acc[N], wr[N]; uint8_t mask[N]; } cell;
static uint8_t* arena;
static cell* acell;
static uint8_t* astate;        /* per 8 bytes: 0 not allocated, 1 live, 2 freed */
static uint8_t* atail;         /* per 8 bytes: valid bytes */
static size_t used;
typedef struct { uint8_t* p; size_t n; bool live; } block;
static block blocks[65536];
static unsigned nblocks, nlive;
static uint64_t nreq, fail_at, fail_from; static bool did_fail; static size_t limit = ARENA;
void (*vfa_on_free)(void* p, size_t n);
void (*vfa_on_alloc)(void* p, size_t n);

#define NHASH (1u << 16)
typedef struct { uintptr_t key; uint32_t gen; cell c; } hcell;
static hcell* htab;
static uint8_t *main_lo, *main_hi, *tls_lo, *tls_hi;

/* Thread-local variables of the program: each coroutine has its own. */
static uint8_t* tlv; static size_t tlv_n, tlv_init; static const void* tlv_image;
static int tls_of_program(struct dl_phdr_info* in, size_t n, void* d)
{
	(void)n; (void)d;
	for (unsigned i = 0; i < in->dlpi_phnum; i++) {
		const ElfW(Phdr)* h = &in->dlpi_phdr[i];
		if (h->p_type != PT_TLS) continue;
		size_t al = h->p_align ? h->p_align : 1;
		tlv_n = h->p_memsz; tlv_init = h->p_filesz;
		tlv_image = (void*)(in->dlpi_addr + h->p_vaddr);
		tlv = (uint8_t*)pthread_self() - (h->p_memsz + al - 1) / al * al;
	}
	return 1; /* the first entry is the program */
}

static void setup(void)
{
	if (arena) return;
	dl_iterate_phdr(tls_of_program, NULL);
	for (unsigned i = 0; i < N; i++) { T[i].tls = calloc(1, tlv_n + 1); if (!T[i].tls) abort(); }
	arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	acell = mmap(NULL, sizeof(cell) * (size_t)CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	astate = mmap(NULL, CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	atail = mmap(NULL, CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	htab = mmap(NULL, sizeof(hcell) * (size_t)NHASH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (arena == MAP_FAILED || acell == MAP_FAILED || astate == MAP_FAILED || atail == MAP_FAILED || htab == MAP_FAILED) abort();
	pthread_attr_t at; void* lo; size_t n;
	if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &n); main_lo = lo; main_hi = main_lo + n; pthread_attr_destroy(&at); }
	uint8_t* fs = (uint8_t*)pthread_self();
	tls_lo = fs - 65536; tls_hi = fs + 4096;
	for (unsigned i = 1; i < N; i++) {
		T[i].stack = mmap(NULL, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (T[i].stack == MAP_FAILED) abort();
		mprotect(T[i].stack, 4096, PROT_NONE);
	}
}

static bool in_arena(const void* p) { return (uint8_t*)p >= arena && (uint8_t*)p < arena + ARENA; }
static block* block_at(const void* p)
{
	/* blocks are ordered by address */
	unsigned lo = 0, hi = nblocks;
	while (lo < hi) { unsigned m = (lo + hi) / 2; if (blocks[m].p <= (uint8_t*)p) lo = m + 1; else hi = m; }
	return lo ? &blocks[lo - 1] : NULL;
}
static cell* cell_of(uintptr_t key)
{
	uint8_t* p = (uint8_t*)(key << 3);
	if (in_arena(p)) return &acell[(size_t)(p - arena) >> 3];
	uint32_t i = (uint32_t)(hp(p) & (NHASH - 1));
	for (unsigned k = 0; k < 64; k++, i = (i + 1) & (NHASH - 1)) {
		if (htab[i].gen != gen) { memset(&htab[i].c, 0, sizeof(cell)); htab[i].gen = gen; htab[i].key = key; return &htab[i].c; }
		if (htab[i].key == key) return &htab[i].c;
	}
	return NULL;
}

static const char* where(const void* p)
{
	static char b[2][128]; static unsigned k;
	char* s = b[k++ & 1];
	if (in_arena(p)) { block* bl = block_at(p); if (bl) { snprintf(s, 128, "offset %ld of a block of %zu bytes", (long)((uint8_t*)p - bl->p), bl->n); return s; } }
	snprintf(s, 128, "static or stack memory");
	return s;
}

static void event(void);
static void note_access(const void* addr, size_t n, bool write, bool atomic)
{
	if (!active || n == 0) return;
	uint8_t* p = (uint8_t*)addr;
	if (cur == 0 ? (p >= main_lo && p < main_hi) : (p >= T[cur].stack && p < T[cur].stack + STACK + 4096)) return;
	if (p >= tls_lo && p < tls_hi) return;
	event();
	uintptr_t k0 = (uintptr_t)p >> 3, k1 = (uintptr_t)(p + n - 1) >> 3;
	if (in_arena(p)) {
		for (uintptr_t k = k0; k <= k1; k++) {
			size_t i = k - ((uintptr_t)arena >> 3);
			if (i >= CELLS || astate[i] == 0) vf_fail("thread %u %s outside allocated memory: %s", cur, write ? "writes" : "reads", where(p));
			if (astate[i] == 2) vf_fail("thread %u %s memory after it was freed: %s", cur, write ? "writes" : "reads", where(p));
			uintptr_t end = k == k1 ? ((uintptr_t)(p + n - 1) & 7) + 1 : 8;
			if (end > atail[i]) vf_fail("thread %u %s past the end of allocated memory: %s", cur, write ? "writes" : "reads", where(p));
		}
	}
	co* t = &T[cur];
	uint32_t e = t->vc[cur];
	for (uintptr_t k = k0; k <= k1; k++) {
		cell* c = cell_of(k);
		if (!c) continue;
		c->acc[cur] = e;
		if (!write || atomic) continue;
		unsigned from = k == k0 ? (unsigned)((uintptr_t)p & 7) : 0;
		unsigned to = k == k1 ? (unsigned)((uintptr_t)(p + n - 1) & 7) : 7;
		uint8_t m = (uint8_t)(((1u << (to - from + 1)) - 1) << from);
		for (unsigned u = 0; u < nthreads; u++) {
			if (u != cur && (c->mask[u] & m) && c->wr[u] > t->vc[u])
				vf_fail("threads %u and %u write the same memory without order: %s", u, cur, where(p));
		}
		if (c->wr[cur] == e) c->mask[cur] |= m; else { c->wr[cur] = e; c->mask[cur] = m; }
	}
}

void vfmt_touch(const void* p, size_t n, bool write) { note_access(p, n, write, false); }

static bool refuse(size_t n)
{
	nreq++;
	if (fail_at && --fail_at == 0) { did_fail = true; return true; }
	if (fail_from) { if (fail_from == 1) { did_fail = true; return true; } fail_from--; }
	return n > limit;
}
void* vf_malloc(size_t n)
{
	setup();
	if (refuse(n)) { errno = ENOMEM; return NULL; }
	size_t r = (n + 15) & ~(size_t)15;
	if (used + r + 32 > ARENA || nblocks == 65536) vf_fail("harness: case uses too much memory");
	uint8_t* p = arena + used + 16;
	used += r + 32;
	memset(p, vf_junk(), n);
	size_t i0 = (size_t)(p - arena) >> 3;
	for (size_t i = 0; i * 8 < n; i++) { astate[i0 + i] = 1; atail[i0 + i] = (uint8_t)(n - i * 8 < 8 ? n - i * 8 : 8); }
	blocks[nblocks].p = p; blocks[nblocks].n = n; blocks[nblocks].live = true; nblocks++; nlive++;
	if (vfa_on_alloc) vfa_on_alloc(p, n);
	return p;
}
void* vf_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return NULL;
	void* p = vf_malloc(n);
	if (p) memset(p, 0, n);
	return p;
}
void vf_free(void* p)
{
	if (!p) return;
	event();
	block* b = in_arena(p) ? block_at(p) : NULL;
	if (!b || b->p != p) vf_fail("thread %u frees memory that was not allocated", cur);
	if (!b->live) vf_fail("thread %u frees a block of %zu bytes a second time", cur, b->n);
	if (vfa_on_free) vfa_on_free(p, b->n);
	size_t i0 = (size_t)((uint8_t*)p - arena) >> 3;
	for (size_t i = 0; i * 8 < b->n; i++) {
		cell* c = &acell[i0 + i];
		if (active) for (unsigned u = 0; u < nthreads; u++) {
			if (u != cur && c->acc[u] > T[cur].vc[u])
				vf_fail("thread %u frees memory without order after an access by thread %u: %s", cur, u, where((uint8_t*)p + i * 8));
		}
		astate[i0 + i] = 2;
	}
	memset(p, 0xDD, b->n);
	b->live = false; nlive--;
}
void* vf_realloc(void* p, size_t n)
{
	if (!p) return vf_malloc(n);
	block* b = in_arena(p) ? block_at(p) : NULL;
	if (!b || b->p != p || !b->live) vf_fail("thread %u resizes memory that is not allocated", cur);
	size_t old = b->n;
	uint8_t* q = vf_malloc(n);
	if (!q) return NULL;
	memcpy(q, p, old < n ? old : n);
	vf_free(p);
	return q;
}
uint64_t vfa_live(void) { return nlive; }
uint64_t vfa_allocs(void) { return nreq; }
bool vfa_is_live(const void* p) { block* b = in_arena(p) ? block_at(p) : NULL; return b && b->p == p && b->live; }
size_t vfa_size(const void* p) { return vfa_is_live(p) ? block_at(p)->n : 0; }
void vfa_fail_at(uint64_t n) { fail_at = n; fail_from = 0; did_fail = false; }
void vfa_fail_from(uint64_t n) { fail_from = n; fail_at = 0; did_fail = false; }
bool vfa_failed(void) { return did_fail; }
void vfa_set_limit(size_t m) { limit = m; }
void vfa_expect(uint64_t want, const char* what)
{
	if (nlive != want) vf_fail("%s: %u memory blocks outstanding, expected %llu", what, nlive, (unsigned long long)want);
}
void vfa_reset(void)
{
	vf_junk_reset();
	fail_at = fail_from = 0; did_fail = false; vfa_on_free = vfa_on_alloc = NULL; limit = ARENA;
	active = false;
	if (arena) {
		size_t cells = (used + 7) / 8;
		memset(acell, 0, cells * sizeof(cell));
		memset(astate, 0, cells);
		memset(atail, 0, cells);
	}
	used = 0; nblocks = nlive = 0;
	gen++;
}

/* ------------------------------------------------------------------ */
/* scheduling                                                           */

static bool can_run(unsigned i)
{
	co* t = &T[i];
	switch (t->state) {
	case S_READY: return true;
	case S_MUTEX: return lock_of(t->obj)->owner < 0 && lock_of(t->obj)->readers == 0;
	case S_RW: { lock_t* l = lock_of(t->obj); return l->owner < 0 && (!t->want_write || l->readers == 0); }
	case S_JOIN: return T[t->target].state == S_DONE;
	default: return false;
	}
}
static void plan(void)
{
	if (preempts_left == 0) { gap = -1; return; }
	gap = 1 + (int64_t)vf_skewed(vfmt_gap);
}
static const char* state_name(unsigned i)
{
	switch (T[i].state) {
	case S_MUTEX: return "a mutex";
	case S_COND: return "a condition";
	case S_JOIN: return "another thread's end";
	case S_RW: return "a lock";
	case S_DONE: return "nothing (ended)";
	default: return "nothing";
	}
}
const char* vfmt_blocked_on(unsigned i) { return state_name(i); }

static void resume(unsigned i)
{
	unsigned from = cur;
	if (i != from) {
		switches++;
		since_switch = 0;
		cur = i;
		vf_note("-> T%u", i);
		plan();
		if (tlv_n) { memcpy(T[from].tls, tlv, tlv_n); memcpy(tlv, T[i].tls, tlv_n); }
		vfmt_swap(&T[from].sp, T[i].sp);
	}
	else plan();
}

/* Choose the next thread. `self_ok`: the current thread may go on. */
static void schedule(bool self_ok)
{
	unsigned cand[N], n = 0, spec[N], m = 0;
	for (unsigned i = 0; i < nthreads; i++) {
		if (i == cur && !self_ok) { if (T[i].state == S_READY) continue; }
		if (can_run(i)) cand[n++] = i;
		else if ((T[i].state == S_COND && (T[i].timed || spurious_left)) || T[i].state == S_SLEEP) {
			if (T[i].state == S_COND && !T[i].timed) { spec[m++] = i; continue; }
			if (!vfmt_no_timeouts) spec[m++] = i;
		}
	}
	unsigned pick;
	bool special = false;
	if (n && m && vf_chance(1, 6)) { pick = spec[vf_draw(m)]; special = true; }
	else if (n) pick = cand[vf_draw(n)];
	else {
		/* only waits that end by themselves are left */
		m = 0;
		for (unsigned i = 0; i < nthreads; i++) if ((T[i].state == S_COND && T[i].timed) || T[i].state == S_SLEEP) spec[m++] = i;
		if (m) { pick = spec[vf_draw(m)]; special = true; }
		else {
			unsigned s = N;
			for (unsigned i = 0; i < nthreads; i++) if (T[i].state == S_SETTLE) s = i;
			if (s == N) {
				char b[512]; size_t k = 0; b[0] = 0;
				for (unsigned i = 0; i < nthreads && k < 400; i++) if (T[i].state != S_DONE) k += (size_t)snprintf(b + k, sizeof(b) - k, " thread %u waits for %s;", i, state_name(i));
				vf_fail("no thread can go on:%s", b);
			}
			stuck_mask = 0;
			for (unsigned i = 0; i < nthreads; i++) if (i != s && T[i].state != S_DONE) stuck_mask |= 1u << i;
			T[s].state = S_READY;
			pick = s;
		}
	}
	co* t = &T[pick];
	if (special) {
		if (t->state == S_SLEEP) { if (vt < t->deadline) vt = t->deadline; t->state = S_READY; }
		else {
			/* a timed wait may expire or wake spuriously; an untimed one only the latter */
			bool spur = !t->timed || (spurious_left && vf_chance(1, 4));
			if (spur && spurious_left) spurious_left--;
			else { t->timed_out = true; if (vt < t->deadline) vt = t->deadline; }
			t->state = S_MUTEX; t->obj = t->mutex;
			if (!can_run(pick)) { schedule(self_ok); return; }
		}
	}
	resume(pick);
}

static void event(void)
{
	if (!active) return;
	events++;
	if (events > vfmt_limit) vf_fail("case does not finish: more than %lu steps", (unsigned long)vfmt_limit);
	if (++since_switch > vfmt_slice) {
		/* probably spinning: the others take turns */
		since_switch = 0;
		for (unsigned k = 1; k < nthreads; k++) {
			unsigned i = (cur + k) % nthreads;
			if (can_run(i)) { resume(i); return; }
		}
		for (unsigned i = 0; i < nthreads; i++) if (T[i].state == S_SLEEP || (T[i].state == S_COND && T[i].timed)) { schedule(false); return; }
		return;
	}
	if (gap > 0 && !vfmt_calm && --gap == 0) {
		unsigned others = 0;
		for (unsigned i = 0; i < nthreads; i++) if (i != cur && can_run(i)) others++;
		if (!others) { plan(); return; }
		preempts_left--; preempts++;
		schedule(false);
	}
}
void vfmt_yield(void) { event(); }
static void block_here(void) { schedule(true); }

static void trampoline(void)
{
	co* t = &T[cur];
	t->ret = t->fn(t->arg);
	t = &T[cur];
	t->state = S_DONE;
	schedule(false);
	abort();
}

void vfmt_begin(void)
{
	setup();
	if (cur && tlv_n) memcpy(tlv, T[0].tls, tlv_n);
	for (unsigned i = 0; i < N; i++) {
		uint8_t *st = T[i].stack, *tl = T[i].tls;
		memset(&T[i], 0, sizeof(co));
		T[i].stack = st; T[i].tls = tl;
	}
	nthreads = 1; cur = 0; nstarted = 0;
	T[0].state = S_READY; T[0].vc[0] = 1;
	events = since_switch = 0; switches = preempts = 0;
	vt = 1700000000ull * 1000000000ull;
	static const unsigned w[] = { 3, 5, 5, 4, 2, 1 };
	unsigned k = vf_pick(6, w);
	preempts_left = k == 5 ? 30 : k;
	spurious_left = vfmt_spurious_max && vf_chance(1, 3) ? 1 + (unsigned)vf_draw(vfmt_spurious_max) : 0;
	vfmt_create_fails = 0;
	vfmt_no_timeouts = false;
	vfmt_slice = 50000; vfmt_limit = 3000000; vfmt_calm = false;
	gap = -1;
	active = true;
	gen++;
	extern void vfmt_ops_reset(void);
	vfmt_ops_reset();
	plan();
}
uint32_t vfmt_settle(void)
{
	T[cur].state = S_SETTLE;
	stuck_mask = 0;
	schedule(true);
	/* what ended threads did is visible now */
	for (unsigned i = 0; i < nthreads; i++) if (T[i].state == S_DONE) join_vc(T[cur].vc, T[i].vc);
	return stuck_mask;
}
void vfmt_end(void) { active = false; }

vfmt_stamp vfmt_mark(void)
{
	vfmt_stamp s;
	memcpy(s.vc, T[cur].vc, sizeof(s.vc));
	s.tid = cur; s.epoch = T[cur].vc[cur];
	return s;
}
bool vfmt_after(const vfmt_stamp* s) { return s->tid == cur || T[cur].vc[s->tid] >= s->epoch; }

/* ------------------------------------------------------------------ */
/* thread calls                                                         */

int vf_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*f)(void*), void* d)
{
	if (!active) vf_fail("harness: thread started outside a case");
	event();
	unsigned k = nstarted++;
	if (k < 32 && (vfmt_create_fails >> k & 1)) return EAGAIN;
	if (nthreads == N) vf_fail("harness: too many threads");
	unsigned i = nthreads++;
	co* t = &T[i];
	uint8_t *st = t->stack, *tl = t->tls;
	memset(t, 0, sizeof(*t));
	if (tlv_n) { memset(tl, 0, tlv_n); memcpy(tl, tlv_image, tlv_init); }
	t->stack = st; t->tls = tl; t->fn = f; t->arg = d; t->state = S_READY;
	int ds = PTHREAD_CREATE_JOINABLE;
	if (a) pthread_attr_getdetachstate(a, &ds);
	t->detached = ds == PTHREAD_CREATE_DETACHED;
	memcpy(t->vc, T[cur].vc, sizeof(t->vc));
	t->vc[i] = 1;
	bump();
	uint64_t* sp = (uint64_t*)(st + STACK + 4096);
	*--sp = 0;
	*--sp = (uint64_t)(uintptr_t)trampoline; /* return address; stack is 16-aligned at entry + 8 */
	for (int j = 0; j < 6; j++) *--sp = 0;
	t->sp = sp;
	*out = (pthread_t)(i + 1);
	event();
	return 0;
}
int vf_pthread_join(pthread_t h, void** ret)
{
	event();
	unsigned i = (unsigned)h - 1;
	if (h == 0 || i >= nthreads || i == cur) vf_fail("thread %u joins a thread that does not exist", cur);
	if (T[i].joined || T[i].detached) vf_fail("thread %u joins thread %u, which was joined or detached before", cur, i);
	T[i].joined = true;
	if (T[i].state != S_DONE) { T[cur].state = S_JOIN; T[cur].target = i; block_here(); T[cur].state = S_READY; }
	join_vc(T[cur].vc, T[i].vc);
	if (ret) *ret = T[i].ret;
	return 0;
}
int vf_pthread_detach(pthread_t h) { unsigned i = (unsigned)h - 1; if (h && i < nthreads) T[i].detached = true; return 0; }
pthread_t vf_pthread_self(void) { return active ? (pthread_t)(cur + 1) : pthread_self(); }
int vf_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int vf_pthread_setname_np(pthread_t h, const char* n) { (void)h; (void)n; return 0; }
int vf_sched_yield(void) { event(); return 0; }
void vf_pthread_exit(void* r) { T[cur].ret = r; T[cur].state = S_DONE; schedule(false); abort(); }

static void live_obj(void* p, const char* what)
{
	if (in_arena(p)) {
		size_t i = (size_t)((uint8_t*)p - arena) >> 3;
		if (astate[i] != 1) vf_fail("thread %u uses a %s in memory that is not allocated", cur, what);
	}
}
static lock_t* use_lock(void* p, const char* what)
{
	live_obj(p, what);
	lock_t* l = lock_of(p);
	if (l->dead) vf_fail("thread %u uses a %s after it was destroyed", cur, what);
	return l;
}
int vf_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	(void)a;
	if (!active) return 0;
	lock_t* l = lock_of(m);
	if (l->owner >= 0) vf_fail("thread %u initializes a mutex that is held", cur);
	l->dead = false; l->owner = -1; l->readers = 0; memset(l->vc, 0, sizeof(l->vc));
	return 0;
}
int vf_pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (!active) return 0;
	event();
	lock_t* l = use_lock(m, "mutex");
	if (l->owner >= 0) vf_fail("thread %u destroys a mutex held by thread %d", cur, l->owner);
	for (unsigned i = 0; i < nthreads; i++) if (T[i].state == S_MUTEX && T[i].obj == m) vf_fail("thread %u destroys a mutex thread %u waits for", cur, i);
	l->dead = true;
	return 0;
}
static void take(lock_t* l) { l->owner = (int)cur; join_vc(T[cur].vc, l->vc); T[cur].state = S_READY; }
int vf_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!active) return 0;
	event();
	lock_t* l = use_lock(m, "mutex");
	if (l->owner >= 0) { T[cur].state = S_MUTEX; T[cur].obj = m; block_here(); l = use_lock(m, "mutex"); }
	take(l);
	return 0;
}
int vf_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active) return 0;
	event();
	lock_t* l = use_lock(m, "mutex");
	if (l->owner >= 0) return EBUSY;
	take(l);
	return 0;
}
int vf_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!active) return 0;
	event();
	lock_t* l = use_lock(m, "mutex");
	if (l->owner != (int)cur) vf_fail("thread %u unlocks a mutex it does not hold", cur);
	l->owner = -1;
	join_vc(l->vc, T[cur].vc);
	bump();
	event();
	return 0;
}
int vf_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
	(void)a;
	if (!active) return 0;
	lock_t* l = lock_of(c);
	l->dead = false;
	return 0;
}
int vf_pthread_cond_destroy(pthread_cond_t* c)
{
	if (!active) return 0;
	event();
	lock_t* l = use_lock(c, "condition");
	for (unsigned i = 0; i < nthreads; i++) if (T[i].state == S_COND && T[i].obj == c) vf_fail("thread %u destroys a condition thread %u waits for", cur, i);
	l->dead = true;
	return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline)
{
	if (!active) return 0;
	event();
	use_lock(c, "condition");
	lock_t* l = use_lock(m, "mutex");
	if (l->owner != (int)cur) vf_fail("thread %u waits on a condition without holding its mutex", cur);
	l->owner = -1;
	join_vc(l->vc, T[cur].vc);
	bump();
	co* t = &T[cur];
	t->state = S_COND; t->obj = c; t->mutex = m; t->timed = timed; t->timed_out = false; t->deadline = deadline;
	block_here();
	l = use_lock(m, "mutex");
	take(l);
	t->timed = false;
	return t->timed_out ? ETIMEDOUT : 0;
}
int vf_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0); }
int vf_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return cond_wait(c, m, true, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
}
int vf_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { (void)k; return vf_pthread_cond_timedwait(c, m, ts); }
static void wake(unsigned i) { T[i].state = S_MUTEX; T[i].obj = T[i].mutex; T[i].timed = false; }
int vf_pthread_cond_signal(pthread_cond_t* c)
{
	if (!active) return 0;
	event();
	use_lock(c, "condition");
	unsigned w[N], n = 0;
	for (unsigned i = 0; i < nthreads; i++) if (T[i].state == S_COND && T[i].obj == c) w[n++] = i;
	if (n) wake(w[vf_draw(n)]);
	event();
	return 0;
}
int vf_pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!active) return 0;
	event();
	use_lock(c, "condition");
	for (unsigned i = 0; i < nthreads; i++) if (T[i].state == S_COND && T[i].obj == c) wake(i);
	event();
	return 0;
}
/* other locks a variant of the code might use */
int vf_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { (void)a; if (active) { lock_t* l = lock_of(m); l->dead = false; l->owner = -1; l->readers = 0; } return 0; }
int vf_pthread_rwlock_destroy(pthread_rwlock_t* m) { if (active) { lock_t* l = use_lock(m, "lock"); l->dead = true; } return 0; }
static int rw(void* m, bool write)
{
	if (!active) return 0;
	event();
	lock_t* l = use_lock(m, "lock");
	T[cur].state = S_RW; T[cur].obj = m; T[cur].want_write = write;
	if (!can_run(cur)) block_here();
	T[cur].state = S_READY;
	l = use_lock(m, "lock");
	if (write) l->owner = (int)cur; else l->readers++;
	join_vc(T[cur].vc, l->vc);
	return 0;
}
int vf_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw(m, false); }
int vf_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw(m, true); }
int vf_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	if (!active) return 0;
	event();
	lock_t* l = use_lock(m, "lock");
	if (l->owner == (int)cur) l->owner = -1; else if (l->readers > 0) l->readers--; else vf_fail("thread %u releases a lock it does not hold", cur);
	join_vc(l->vc, T[cur].vc); bump();
	event();
	return 0;
}
int vf_pthread_spin_init(pthread_spinlock_t* m, int s) { (void)s; return vf_pthread_mutex_init((void*)m, NULL); }
int vf_pthread_spin_destroy(pthread_spinlock_t* m) { return vf_pthread_mutex_destroy((void*)m); }
int vf_pthread_spin_lock(pthread_spinlock_t* m) { return vf_pthread_mutex_lock((void*)m); }
int vf_pthread_spin_trylock(pthread_spinlock_t* m) { return vf_pthread_mutex_trylock((void*)m); }
int vf_pthread_spin_unlock(pthread_spinlock_t* m) { return vf_pthread_mutex_unlock((void*)m); }
int vf_pthread_once(pthread_once_t* o, void (*f)(void))
{
	/* the guard lasts as long as the process, like the static data it protects */
	if (*(int*)o != 2) { *(int*)o = 2; f(); }
	return 0;
}

static int vf_sleep_ns(uint64_t ns)
{
	if (!active) return 0;
	T[cur].state = S_SLEEP; T[cur].deadline = vt + ns;
	schedule(true);
	T[cur].state = S_READY;
	return 0;
}
int vf_usleep(unsigned us) { return vf_sleep_ns(us * 1000ull); }
unsigned vf_sleep(unsigned s) { vf_sleep_ns(s * 1000000000ull); return 0; }
int vf_nanosleep(const struct timespec* a, struct timespec* b) { (void)b; return vf_sleep_ns((uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec); }
__attribute__((weak)) int vf_clock_gettime(clockid_t c, struct timespec* ts)
{
	if (!active) return clock_gettime(c, ts);
	vt += 1000;
	ts->tv_sec = (time_t)(vt / 1000000000ull); ts->tv_nsec = (long)(vt % 1000000000ull);
	return 0;
}

/* ------------------------------------------------------------------ */
/* instrumentation                                                      */

void __tsan_init(void); void __tsan_init(void) {}
void __tsan_func_entry(void* p); void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void); void __tsan_func_exit(void) {}
#define ACC(n) \
	void __tsan_read##n(void* p); void __tsan_read##n(void* p) { note_access(p, n, false, false); } \
	void __tsan_write##n(void* p); void __tsan_write##n(void* p) { note_access(p, n, true, false); } \
	void __tsan_read_write##n(void* p); void __tsan_read_write##n(void* p) { note_access(p, n, true, false); } \
	void __tsan_unaligned_read##n(void* p); void __tsan_unaligned_read##n(void* p) { note_access(p, n, false, false); } \
	void __tsan_unaligned_write##n(void* p); void __tsan_unaligned_write##n(void* p) { note_access(p, n, true, false); } \
	void __tsan_unaligned_read_write##n(void* p); void __tsan_unaligned_read_write##n(void* p) { note_access(p, n, true, false); } \
	void __tsan_volatile_read##n(void* p); void __tsan_volatile_read##n(void* p) { note_access(p, n, false, false); } \
	void __tsan_volatile_write##n(void* p); void __tsan_volatile_write##n(void* p) { note_access(p, n, true, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void* a, void* b); void __tsan_vptr_update(void* a, void* b) { (void)b; note_access(a, 8, true, false); }
void __tsan_vptr_read(void* a); void __tsan_vptr_read(void* a) { note_access(a, 8, false, false); }
void __tsan_read_range(void* p, size_t n); void __tsan_read_range(void* p, size_t n) { note_access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n); void __tsan_write_range(void* p, size_t n) { note_access(p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n); void* __tsan_memcpy(void* d, const void* s, size_t n) { note_access(s, n, false, false); note_access(d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n); void* __tsan_memmove(void* d, const void* s, size_t n) { note_access(s, n, false, false); note_access(d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n); void* __tsan_memset(void* d, int v, size_t n) { note_access(d, n, true, false); return memset(d, v, n); }
void* vf_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* vf_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* vf_memset(void* d, int v, size_t n) { return __tsan_memset(d, v, n); }
int vf_memcmp(const void* a, const void* b, size_t n) { note_access(a, n, false, false); note_access(b, n, false, false); return memcmp(a, b, n); }
size_t vf_strlen(const char* s) { size_t n = strlen(s); note_access(s, n + 1, false, false); return n; }
char* vf_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; note_access(s, n, false, false); note_access(d, n, true, false); return memcpy(d, s, n); }
char* vf_strncpy(char* d, const char* s, size_t n); char* vf_strncpy(char* d, const char* s, size_t n) { note_access(d, n, true, false); return strncpy(d, s, n); }
char* vf_strcat(char* d, const char* s); char* vf_strcat(char* d, const char* s) { size_t n = strlen(d); note_access(d + n, strlen(s) + 1, true, false); strcpy(d + n, s); return d; }
char* vf_strncat(char* d, const char* s, size_t n); char* vf_strncat(char* d, const char* s, size_t n) { size_t l = strlen(d); note_access(d + l, strnlen(s, n) + 1, true, false); return strncat(d, s, n); }
int vf_vsnprintf(char* d, size_t n, const char* f, va_list ap);
int vf_vsnprintf(char* d, size_t n, const char* f, va_list ap)
{
	char* t; int r = vasprintf(&t, f, ap); /* formatted at once, stored after a possible switch */
	if (r < 0) return r;
	if (n) { size_t k = (size_t)r < n ? (size_t)r : n - 1; note_access(d, k + 1, true, false); memcpy(d, t, k); d[k] = 0; }
	free(t);
	return r;
}
int vf_snprintf(char* d, size_t n, const char* f, ...); int vf_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vf_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int vf_sprintf(char* d, const char* f, ...);
int vf_sprintf(char* d, const char* f, ...)
{
	va_list ap; va_start(ap, f);
	char* t; int r = vasprintf(&t, f, ap);
	va_end(ap);
	if (r >= 0) { note_access(d, (size_t)r + 1, true, false); memcpy(d, t, (size_t)r + 1); free(t); }
	return r;
}
int vf_strcmp(const char* a, const char* b) { note_access(a, strlen(a) + 1, false, false); note_access(b, strlen(b) + 1, false, false); return strcmp(a, b); }

/* What an atomic location publishes to those who read it. */
typedef struct { uintptr_t key; uint32_t gen; uint32_t rel[N]; } aloc;
#define NALOC 1024
static aloc alocs[NALOC];
static uint32_t* rel_of(const volatile void* p)
{
	uintptr_t k = (uintptr_t)p;
	unsigned i = hp((void*)(k << 3)) % NALOC;
	for (unsigned j = 0; j < NALOC; j++, i = (i + 1) % NALOC) {
		if (alocs[i].gen != gen) { memset(&alocs[i], 0, sizeof(aloc)); alocs[i].gen = gen; alocs[i].key = k; return alocs[i].rel; }
		if (alocs[i].key == k) return alocs[i].rel;
	}
	vf_fail("harness: too many atomics");
}
#define IS_ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define IS_REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
static void at_read(const volatile void* p, int mo)
{
	if (!active) return;
	uint32_t* r = rel_of(p);
	join_vc(IS_ACQ(mo) ? T[cur].vc : T[cur].acq, r);
	join_vc(T[cur].acq, r);
}
static void at_write(const volatile void* p, int mo, bool rmw)
{
	if (!active) return;
	uint32_t* r = rel_of(p);
	if (!rmw) memset(r, 0, sizeof(uint32_t) * N);
	join_vc(r, IS_REL(mo) ? T[cur].vc : T[cur].relf);
	if (IS_REL(mo)) bump();
}
#define AT(bits, ty) \
	ty __tsan_atomic##bits##_load(const volatile ty* p, int mo); ty __tsan_atomic##bits##_load(const volatile ty* p, int mo) { note_access((void*)p, sizeof(ty), false, true); at_read(p, mo); return *p; } \
	void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo); void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) { note_access((void*)p, sizeof(ty), true, true); at_write(p, mo, false); *p = v; } \
	ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo); ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo) { note_access((void*)p, sizeof(ty), true, true); ty o = *p; at_read(p, mo); at_write(p, mo, true); *p = v; return o; } \
	RMW(bits, ty, add, o + v) RMW(bits, ty, sub, o - v) RMW(bits, ty, and, o & v) RMW(bits, ty, or, o | v) RMW(bits, ty, xor, o ^ v) RMW(bits, ty, nand, (ty)~(o & v)) \
	ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty c, ty v, int mo, int fmo); ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty c, ty v, int mo, int fmo) { note_access((void*)p, sizeof(ty), true, true); ty o = *p; if (o == c) { at_read(p, mo); at_write(p, mo, true); *p = v; } else at_read(p, fmo); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* c, ty v, int mo, int fmo); int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* c, ty v, int mo, int fmo) { ty o = __tsan_atomic##bits##_compare_exchange_val(p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* c, ty v, int mo, int fmo); int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* c, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); }
#define RMW(bits, ty, name, expr) \
	ty __tsan_atomic##bits##_fetch_##name(volatile ty* p, ty v, int mo); ty __tsan_atomic##bits##_fetch_##name(volatile ty* p, ty v, int mo) { note_access((void*)p, sizeof(ty), true, true); ty o = *p; at_read(p, mo); at_write(p, mo, true); *p = (ty)(expr); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo);
void __tsan_atomic_thread_fence(int mo)
{
	if (!active) return;
	event();
	if (IS_ACQ(mo)) join_vc(T[cur].vc, T[cur].acq);
	if (IS_REL(mo)) { memcpy(T[cur].relf, T[cur].vc, sizeof(T[cur].relf)); bump(); }
}
void __tsan_atomic_signal_fence(int mo); void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------------ */
/* recorded calls                                                       */

static vfmt_op ops[VFMT_OPS];
static unsigned nops;
static uint32_t tick;
void vfmt_ops_reset(void); void vfmt_ops_reset(void) { nops = 0; tick = 0; }
unsigned vfmt_nops(void) { return nops; }
vfmt_op* vfmt_ops(void) { return ops; }
vfmt_op* vfmt_call(unsigned op, int64_t a, int64_t b)
{
	if (nops == VFMT_OPS) vf_fail("harness: too many recorded calls");
	vfmt_op* o = &ops[nops++];
	memset(o, 0, sizeof(*o));
	o->tid = cur; o->op = op; o->a = a; o->b = b; o->call = ++tick; o->ret = UINT32_MAX;
	return o;
}
void vfmt_ret(vfmt_op* o, int64_t r, int64_t s) { o->done = true; o->r = r; o->s = s; o->ret = ++tick; }

static size_t lsize;
static bool (*lapply)(void*, const vfmt_op*);
static bool (*lfinal)(const void*, uint32_t);
#define LMEMO (1u << 14)
static struct { uint64_t h; uint32_t gen; } lmemo[LMEMO];
static uint32_t lgen;
static bool lsearch(uint32_t left, const void* st)
{
	uint64_t h = left * 0x9E3779B97F4A7C15ull;
	for (size_t i = 0; i < lsize; i++) { h ^= ((const uint8_t*)st)[i]; h *= 0x100000001b3ull; }
	h ^= h >> 31;
	unsigned k = (unsigned)(h % LMEMO);
	if (lmemo[k].gen == lgen && lmemo[k].h == h) return false; /* tried before */
	uint32_t must = 0, first = UINT32_MAX;
	for (unsigned i = 0; i < nops; i++) if (left >> i & 1) { if (ops[i].done) { must |= 1u << i; if (ops[i].ret < first) first = ops[i].ret; } }
	if (!must && (!lfinal || lfinal(st, left))) return true;
	uint8_t next[lsize];
	for (unsigned i = 0; i < nops; i++) {
		if (!(left >> i & 1) || ops[i].call > first) continue;
		memcpy(next, st, lsize);
		if (!lapply(next, &ops[i])) continue;
		if (lsearch(left & ~(1u << i), next)) return true;
	}
	lmemo[k].gen = lgen; lmemo[k].h = h;
	return false;
}
bool vfmt_linearizable(const void* init, size_t size, bool (*apply)(void* st, const vfmt_op* o), bool (*final)(const void* st, uint32_t waiting))
{
	lsize = size; lapply = apply; lfinal = final; lgen++;
	return lsearch(nops == 32 ? UINT32_MAX : (1u << nops) - 1, init);
}
const char* vfmt_history(const char* (*name)(unsigned op))
{
	static char b[2400]; size_t k = 0;
	b[0] = 0;
	for (unsigned i = 0; i < nops && k < sizeof(b) - 120; i++) {
		vfmt_op* o = &ops[i];
		k += (size_t)snprintf(b + k, sizeof(b) - k, "[%u..", o->call);
		if (o->done) k += (size_t)snprintf(b + k, sizeof(b) - k, "%u] T%u %s(%lld,%lld)=%lld,%lld; ", o->ret, o->tid, name(o->op), (long long)o->a, (long long)o->b, (long long)o->r, (long long)o->s);
		else k += (size_t)snprintf(b + k, sizeof(b) - k, "] T%u %s(%lld,%lld) unfinished; ", o->tid, name(o->op), (long long)o->a, (long long)o->b);
	}
	return b;
}
