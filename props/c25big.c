/* C25: messages whose length in bits or bytes passes 2^32. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <citrusleaf/cf_crypto.h>
#include <citrusleaf/cf_digest.h>
#include <openssl/ripemd.h>
#include <openssl/sha.h>
#include <string.h>
#include <sys/mman.h>
#include "vf.h"

const char* const vf_rule = "every case; one per length";

static const struct { int how; uint64_t n, cut; } plan[] = {
	{ 1, (1ull << 32) + 65, 0 },
	{ 0, (1ull << 32) + 7, 0 },
	{ 2, (1ull << 32) + 3, (1ull << 32) - 1 },
	{ 2, (1ull << 32) + 100, (1ull << 31) + 31 },
	{ 3, (1ull << 32) + 64, 77 },
	{ 0, (1ull << 29), 0 },
	{ 1, (1ull << 29) + 3, 0 },
	{ 2, (1ull << 29) + 60, 1 << 20 },
	/* thorough */
	{ 0, (1ull << 29) - 1, 0 },
	{ 1, (1ull << 29) - 1, 0 },
	{ 1, (1ull << 32) - 1, 0 },
	{ 1, (1ull << 32), 0 },
	{ 0, (1ull << 32) - 1, 0 },
	{ 0, (1ull << 33) + 9, 0 },
	{ 1, (1ull << 33) + 9, 0 },
	{ 3, (1ull << 32) + 70, (1ull << 32) + 5 },
};

static void long_message(void)
{
	unsigned i = (unsigned)vf_draw(sizeof(plan) / sizeof(plan[0]));
	uint64_t n = plan[i].n, cut = plan[i].cut;
	vf_note("%llu bytes, form %d, cut %llu", (unsigned long long)n, plan[i].how, (unsigned long long)cut);
	uint8_t* m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { vf_label("no memory"); return; }
	vf_rng r = { n };
	for (size_t k = 0; k < 4096; k++) { m[k] = (uint8_t)vf_rng_next(&r); m[n - 1 - k] = (uint8_t)vf_rng_next(&r); }
	uint8_t got[20], want[20];
	if (plan[i].how == 0) {
		cf_SHA1(m, n, got);
		SHA1(m, n, want);
	}
	else {
		RIPEMD160(m, n, want);
		if (plan[i].how == 1) cf_RIPEMD160(m, n, got);
		else if (plan[i].how == 2) {
			cf_RIPEMD160_CTX c;
			cf_RIPEMD160_Init(&c);
			for (uint64_t at = 0; at < n; at += cut) cf_RIPEMD160_Update(&c, m + at, n - at < cut ? n - at : cut);
			cf_RIPEMD160_Final(got, &c);
		}
		else {
			cf_digest d;
			cf_digest_compute2(m, cut, m + cut, n - cut, &d);
			memcpy(got, d.digest, 20);
		}
	}
	munmap(m, n);
	VF_CHECK(memcmp(got, want, 20) == 0, "digest of %llu bytes differs", (unsigned long long)n);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "long_message", long_message, 8, sizeof(plan) / sizeof(plan[0]), VF_ENUM | VF_LONG },
	{ NULL, NULL, 0, 0, 0 }
};
