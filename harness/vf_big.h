/* Inputs past 4 GiB that cost little memory: the same pages over and over, then a private end. */
#ifndef VF_BIG_H
#define VF_BIG_H
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vf.h"

#define VF_BIG_CHUNK ((size_t)16 << 20)
typedef struct { uint8_t* p; size_t n, total; } vf_big;

/* n bytes of content, no zero among them when text, then a zero; the last 16 MB (at least) are private. */
static inline vf_big vf_big_make(size_t n, uint64_t seed, bool text)
{
	vf_big b = { .n = n, .total = (n / VF_BIG_CHUNK + 1) * VF_BIG_CHUNK };
	int fd = memfd_create("vf", 0);
	if (fd < 0 || ftruncate(fd, (off_t)VF_BIG_CHUNK)) vf_fail("harness: no memory file");
	b.p = mmap(NULL, b.total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b.p == MAP_FAILED) vf_fail("harness: no address space");
	size_t shared = b.total < 3 * VF_BIG_CHUNK ? 0 : b.total - 2 * VF_BIG_CHUNK;
	for (size_t at = 0; at < shared; at += VF_BIG_CHUNK)
		if (mmap(b.p + at, VF_BIG_CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) vf_fail("harness: no mapping");
	close(fd);
	vf_rng r = { seed };
	for (size_t i = 0; i < VF_BIG_CHUNK; i += 8) {
		uint64_t x = vf_rng_next(&r);
		if (text) for (unsigned k = 0; k < 64; k += 8) if (!(x >> k & 255)) x |= (uint64_t)'0' << k;
		memcpy(b.p + i, &x, 8);
	}
	for (size_t at = shared ? shared : VF_BIG_CHUNK; at < b.total; at += VF_BIG_CHUNK) memcpy(b.p + at, b.p, VF_BIG_CHUNK);
	memset(b.p + n, 0, b.total - n);
	return b;
}
static inline void vf_big_free(vf_big* b) { munmap(b->p, b->total); }
#endif
