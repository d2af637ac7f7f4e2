/* C28: random generators, one caller at a time. */
#include <aerospike/as_random.h>
#include <citrusleaf/cf_random.h>
#include <ctype.h>
#include <pthread.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "at least 3 calls; distinct by choice sequence";

/* ---- client generator ---- */
static uint64_t s0, s1;

static uint64_t next(void) /* Vigna, xorshift128+ (23, 18, 5) */
{
	uint64_t x = s0, y = s1;
	s0 = y;
	x ^= x << 23;
	s1 = x ^ y ^ (x >> 18) ^ (y >> 5);
	return s1 + y;
}

static void sequence(void)
{
	as_random* r = vf_guarded(sizeof(as_random));
	memset(r, 0, sizeof(*r));
	s0 = vf_bool() ? vf_uint64() : vf_draw(0);
	s1 = vf_bool() ? vf_uint64() : vf_draw(0);
	bool own = vf_chance(1, 4); /* the calling thread's generator */
	if (own) r = as_random_instance();
	r->seed0 = s0; r->seed1 = s1; r->initialized = true;
	vf_note("seeds %llx %llx", (unsigned long long)s0, (unsigned long long)s1);
	unsigned calls = (unsigned)vf_range(1, 24);
	for (unsigned i = 0; i < calls; i++) {
		static const unsigned w[] = { 3, 2, 4, 3 };
		uint32_t n = vf_chance(1, 30) ? (uint32_t)vf_draw(vf_chance(1, 40) ? 200000 : 3000) : (uint32_t)vf_draw(40);
		switch (vf_pick(4, w)) {
		case 0: {
			uint64_t want = next(), got = own ? as_random_get_uint64() : as_random_next_uint64(r);
			vf_note("64 bits");
			VF_CHECK(got == want, "draw %u gives %llx, the sequence has %llx", i, (unsigned long long)got, (unsigned long long)want);
			break;
		}
		case 1: {
			uint32_t want = (uint32_t)next(), got = own ? as_random_get_uint32() : as_random_next_uint32(r);
			vf_note("32 bits");
			VF_CHECK(got == want, "draw %u gives %x, the sequence has %x", i, got, want);
			break;
		}
		case 2: {
			uint8_t* b = vf_guarded(n);
			uint8_t* ref = vf_tmp(n + 8);
			vf_note("%u bytes", n);
			for (uint32_t k = 0; k < n; k += 8) { uint64_t v = next(); memcpy(ref + k, &v, 8); }
			if (own) as_random_get_bytes(b, n); else as_random_next_bytes(r, b, n);
			VF_CHECK(memcmp(b, ref, n) == 0, "%u filled bytes are not those of the sequence", n);
			break;
		}
		default: {
			char* t = vf_guarded(n + 1);
			memset(t, 1, n + 1);
			vf_note("text of %u", n);
			if (own) as_random_get_str(t, n); else as_random_next_str(r, t, n);
			VF_CHECK(t[n] == 0, "text is not terminated");
			unsigned same = 0;
			for (uint32_t k = 0; k < n; k++) {
				unsigned char c = (unsigned char)t[k];
				VF_CHECK((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'), "character %02x at %u of a random text", c, k);
				same += t[k] == t[0];
			}
			uint64_t any = s0 | s1;
			for (uint32_t k = 0; k < n; k += 8) next();
			VF_CHECK(n < 40 || !any || same < n, "random text of one repeated character");
			if (n >= 12000 && any) {
				bool got[256] = { false };
				unsigned kinds = 0;
				for (uint32_t k = 0; k < n; k++) if (!got[(unsigned char)t[k]]) { got[(unsigned char)t[k]] = true; kinds++; }
				VF_CHECK(kinds == 62, "a random text of %u characters has only %u different ones", n, kinds);
			}
			break;
		}
		}
	}
	if (calls >= 3) vf_nontrivial();
}

/* ---- system-seeded generator: marked bytes of the source are counted where they come out ---- */
static unsigned source_calls, source_fails, nmarks;
static uint8_t background;
static bool failing, marking;
static bool seen[256];

int vf_RAND_bytes(unsigned char* b, int n);
int vf_RAND_bytes(unsigned char* b, int n)
{
	source_calls++;
	if (failing) { source_fails++; return 0; }
	memset(b, background, (size_t)n);
	if (marking) {
		unsigned k = (unsigned)vf_range(1, 40);
		for (unsigned i = 0; i < k && nmarks < 255; i++) {
			size_t at;
			switch (vf_draw(4)) {
			case 0: at = (size_t)n - 1 - (size_t)vf_draw(40); break;
			case 1: at = (size_t)vf_draw(40); break;
			default: at = (size_t)vf_draw((uint64_t)n); break;
			}
			if (b[at] != background) continue;
			b[at] = (uint8_t)(++nmarks + background);
		}
	}
	return 1;
}

static void came(const void* p, size_t n)
{
	const uint8_t* b = p;
	for (size_t i = 0; i < n; i++) {
		unsigned m = (uint8_t)(b[i] - background);
		if (m == 0) continue;
		VF_CHECK(m <= nmarks, "byte %02x does not come from the source", b[i]);
		VF_CHECK(!seen[m], "one byte of the source was handed out twice");
		seen[m] = true;
	}
}

/* The same state before every case: less than one word of known bytes is left. */
static void drain(void)
{
	static uint8_t b[8191];
	failing = marking = false;
	nmarks = 0;
	memset(seen, 0, sizeof(seen));
	for (unsigned i = 0; i < 2; i++) VF_CHECK(cf_get_rand_buf(b, sizeof(b)) == 0, "a request for 8191 bytes failed");
}

static void entropy(void)
{
	background = (uint8_t)vf_draw(256);
	drain();
	marking = true;
	unsigned calls = (unsigned)vf_range(1, 24), failed = 0;
	for (unsigned i = 0; i < calls; i++) {
		failing = vf_chance(1, 6);
		unsigned before = source_fails;
		static const unsigned w[] = { 3, 3, 8 };
		switch (vf_pick(3, w)) {
		case 0: {
			uint64_t v = cf_get_rand64();
			vf_note("rand64%s", failing ? " (source down)" : "");
			if (source_fails > before) { failed++; VF_CHECK(v == 0, "%llx returned although the source failed", (unsigned long long)v); }
			else came(&v, 8);
			break;
		}
		case 1: {
			uint32_t v = cf_get_rand32();
			vf_note("rand32%s", failing ? " (source down)" : "");
			if (source_fails > before) { failed++; VF_CHECK(v == 0, "%x returned although the source failed", v); }
			else came(&v, 4);
			break;
		}
		default: {
			int n;
			switch (vf_draw(6)) {
			case 0: n = (int)vf_range(8180, 8191); break;
			case 1: n = (int)vf_draw(8192); break;
			case 2: n = (int)vf_draw(4); break;
			case 3: n = 8192 + (int)vf_skewed(100000); break;
			default: n = (int)vf_draw(64); break;
			}
			bool big = n >= 8192;
			uint8_t* b = vf_guarded(big ? 16 : (size_t)n);
			vf_note("%d bytes%s", n, failing ? " (source down)" : "");
			int rc = cf_get_rand_buf(b, vf_chance(1, 10) && big ? -n : n);
			if (big) { VF_CHECK(rc == -1, "a request for %d bytes returned %d", n, rc); break; }
			if (source_fails > before) { failed++; VF_CHECK(rc == -1, "a request for %d bytes returned %d although the source failed", n, rc); }
			else { VF_CHECK(rc == 0, "a request for %d bytes failed", n); came(b, (size_t)n); }
			break;
		}
		}
	}
	if (failed) vf_label("source failure reported");
	if (nmarks > 40) vf_label("several reloads");
	if (calls >= 3) vf_nontrivial();
}

/* Each thread has its own generator, seeded from the source. */
static void* instance(void* arg)
{
	as_random** out = arg;
	out[0] = as_random_instance();
	out[1] = as_random_instance();
	((uint64_t*)(out + 2))[0] = out[0]->seed0;
	((uint64_t*)(out + 2))[1] = out[0]->seed1;
	return NULL;
}

static void instances(void)
{
	background = (uint8_t)vf_range(1, 255);
	drain();
	unsigned skip = (unsigned)vf_draw(1000);
	marking = true;
	for (unsigned i = 0; i < skip; i++) { uint64_t v = cf_get_rand64(); came(&v, 8); }
	as_random* main_one = as_random_instance();
	uint64_t was[2] = { main_one->seed0, main_one->seed1 };
	void* got[4] = { NULL };
	pthread_t t;
	VF_CHECK(pthread_create(&t, NULL, instance, got) == 0, "harness: thread");
	pthread_join(t, NULL);
	VF_CHECK(got[0] && got[0] == got[1], "a thread's generator changes");
	VF_CHECK(got[0] != (void*)main_one, "two threads share one generator");
	came(got + 2, 16);
	VF_CHECK(main_one->seed0 == was[0] && main_one->seed1 == was[1], "starting another thread's generator changes this thread's");
	as_random fresh = { 0, 0, false };
	as_random_init(&fresh);
	VF_CHECK(fresh.initialized, "generator not marked as initialized");
	came(&fresh.seed0, 8);
	came(&fresh.seed1, 8);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "sequence", sequence, 1500000, 20000000, 0 },
	{ "entropy", entropy, 1000000, 12000000, 0 },
	{ "instances", instances, 4000, 40000, 0 },
	{ NULL, NULL, 0, 0, 0 }
};
