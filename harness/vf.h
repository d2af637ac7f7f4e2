/*
 * Property-based testing engine. A case is a sequence of bounded choices; the
 * same property function runs fresh, mutated, shrunk and replayed cases.
 */
#pragma once

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

typedef struct vf_target_s {
	const char* name;
	void (*run)(void);
	uint64_t quick;    /* cases in the quick tier */
	uint64_t thorough; /* cases in the thorough tier */
	unsigned flags;
} vf_target;

#define VF_FUZZ 1 /* coverage-guided: mutate cases that reach new edges */
#define VF_ENUM 2 /* first choice of the case is the case index */
#define VF_SERIAL 4 /* one worker only */
#define VF_LONG 8   /* single cases take minutes; no shrinking */

/* Provided by the property file; terminated by a NULL name. */
extern const vf_target vf_targets[];
/* What makes a case non-trivial, in words. */
extern const char* const vf_rule;

/* ---- choices ---- */
uint64_t vf_draw(uint64_t n);                   /* uniform in [0,n); n==0: 64 bits */
uint64_t vf_range(uint64_t lo, uint64_t hi);    /* inclusive */
int64_t vf_irange(int64_t lo, int64_t hi);      /* inclusive */
bool vf_bool(void);
bool vf_chance(unsigned num, unsigned den);     /* true with probability num/den, shrinks to false */
unsigned vf_pick(unsigned n, const unsigned* weights);
uint64_t vf_skewed(uint64_t n);                 /* [0,n), small values likelier (log-uniform) */
int64_t vf_int64(void);                         /* boundary-biased */
uint64_t vf_uint64(void);                       /* boundary-biased */
uint32_t vf_uint32(void);                       /* boundary-biased */
double vf_double(void);                         /* never NaN; includes infinities, -0, denormals */
double vf_double_any(void); /* also NaN */
float vf_float_bits(void);
void vf_fill(void* buf, size_t n);              /* bytes expanded from one or two choices */
void vf_fill_text(char* buf, size_t n);         /* n non-NUL bytes + terminator */
bool vf_describing(void);

/* ---- outcome ---- */
void vf_fail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void vf_nontrivial(void);                       /* this case counts as non-trivial */
void vf_label(const char* name);                /* count cases by class */
void vf_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_note_hex(const char* what, const void* p, size_t n);
#define vf_note(...) do { if (vf_describing()) (vf_note)(__VA_ARGS__); } while (0) /* arguments cost nothing otherwise */
uint64_t vf_case_seed(void);                    /* per-case pseudo-random value, drawn as a choice */

#define VF_CHECK(cond, ...) do { if (!(cond)) vf_fail(__VA_ARGS__); } while (0)

/* ---- harness-private memory (not counted as library memory) ---- */
void* vf_xmalloc(size_t n);
void* vf_xcalloc(size_t n, size_t sz);
void* vf_xrealloc(void* p, size_t n);
void vf_xfree(void* p);
char* vf_xstrndup(const char* s, size_t n);
/* Arena memory released after each case. */
void* vf_tmp(size_t n);
char* vf_fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* Exact-size block with sanitizer redzones, released after each case. */
void* vf_guarded(size_t n);

/* ---- library memory accounting (symbols renamed in library objects) ---- */
uint64_t vfa_live(void);
uint64_t vfa_allocs(void);                      /* allocation requests so far */
bool vfa_is_live(const void* p);
size_t vfa_size(const void* p);                 /* 0 if not live */
void vfa_fail_at(uint64_t nth);                 /* nth request from now fails; 0 = never */
void vfa_fail_from(uint64_t nth);               /* nth and all later requests fail; 0 = never */
bool vfa_failed(void);                          /* an injected failure happened since vfa_fail_* */
void vfa_expect(uint64_t live, const char* what); /* fail unless live count matches */
void vfa_set_limit(size_t max);                 /* larger single requests return NULL */
uint64_t vf_choice_hash(void);
uint8_t vf_junk(void);                          /* a byte to fill fresh memory with */
void vf_junk_reset(void);
void vfa_reset(void);                           /* forget everything (between cases) */
/* Called for each free when set. */
extern void (*vfa_on_free)(void* p, size_t n);
extern void (*vfa_on_alloc)(void* p, size_t n);

/* ---- small deterministic PRNG for bulk content ---- */
typedef struct { uint64_t s; } vf_rng;
static inline uint64_t vf_rng_next(vf_rng* r)
{
	uint64_t z = (r->s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
