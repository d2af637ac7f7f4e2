/* C24: texts longer than 2^31 characters. */
#include <citrusleaf/cf_b64.h>
#include <string.h>
#include <sys/mman.h>
#include "vf.h"

const char* const vf_rule = "every case; one per boundary length";

static const char AB[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static uint8_t* region(size_t n)
{
	uint8_t* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return p == MAP_FAILED ? NULL : p;
}

static uint8_t byte_at(uint32_t i) { return (uint8_t)((i * 2654435761u) >> 24); }

static void long_text(void)
{
	static const uint32_t sizes[] = { 1610612736u + 3000001, 1610612736u + 1, 1610612736u + 5, 1610612736u - 1 };
	uint32_t n = sizes[vf_draw(4)];
	uint64_t len = ((uint64_t)n + 2) / 3 * 4;
	vf_note("%u bytes, %llu characters", n, (unsigned long long)len);
	VF_CHECK(cf_b64_encoded_len(n) == len, "predicted length");
	VF_CHECK(cf_b64_decoded_buf_size((uint32_t)len) == len / 4 * 3, "predicted room");
	uint8_t* in = region(n);
	char* text = (char*)region(len);
	if (!in || !text) { vf_label("no memory"); return; }
	for (uint32_t i = 0; i < n; i++) in[i] = byte_at(i);
	cf_b64_encode(in, n, text);
	for (uint32_t g = 0; g < len / 4; g++) {
		uint32_t left = n - g * 3;
		uint32_t v = (uint32_t)in[g * 3] << 16 | (left > 1 ? (uint32_t)in[g * 3 + 1] << 8 : 0) | (left > 2 ? in[g * 3 + 2] : 0);
		const char* t = text + (size_t)g * 4;
		VF_CHECK(t[0] == AB[v >> 18] && t[1] == AB[v >> 12 & 63] && t[2] == (left > 1 ? AB[v >> 6 & 63] : '=') && t[3] == (left > 2 ? AB[v & 63] : '='),
				"group %u of %u encoded bytes is %.4s", g, n, t);
	}
	memset(in, 0, n);
	uint32_t size = 0;
	bool in_place = vf_bool();
	uint8_t* out = in_place ? (uint8_t*)text : in;
	bool ok = in_place ? cf_b64_validate_and_decode_in_place((uint8_t*)text, (uint32_t)len, &size) : cf_b64_validate_and_decode(text, (uint32_t)len, in, &size);
	VF_CHECK(ok && size == n, "decoding refused or wrong size %u", size);
	for (uint32_t i = 0; i < n; i++) VF_CHECK(out[i] == byte_at(i), "decoded byte %u of %u differs", i, n);
	munmap(in, n);
	munmap(text, len);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "long_text", long_text, 2, 4, VF_ENUM | VF_SERIAL | VF_LONG },
	{ NULL, NULL, 0, 0, 0 }
};
