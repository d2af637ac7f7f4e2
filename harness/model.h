/* Reference value trees: generation, construction, comparison, encoding. */
#pragma once

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <aerospike/as_val.h>
#include "vf.h"

/* Order of the enumerators is the documented type rank. */
typedef enum { M_NIL, M_BOOL, M_INT, M_STR, M_LIST, M_MAP, M_BYTES, M_DBL, M_GEO, M_EXT, M_WILD, M_INF } mtype;

typedef struct mval_s mval;
struct mval_s {
	mtype t;
	union {
		bool b;
		int64_t i;
		double d;
		struct { uint8_t* p; uint32_t n; uint8_t tag; } s; /* STR, GEO, BYTES(tag), EXT(tag) */
		struct {
			mval** e;       /* list items, or key,value alternating */
			uint32_t n;     /* items, or pairs */
			uint8_t flags;  /* map: metadata flags, 0 = none */
			uint8_t* ext;   /* metadata payload for hand-made encodings */
			uint32_t ext_n;
			bool pair;      /* list of two, built as a pair */
		} c;
	} u;
};

typedef struct {
	unsigned budget;        /* total nodes */
	unsigned depth;
	bool no_maps;
	bool blob_only;         /* bytes only of the plain blob type */
	bool wild;              /* allow wildcard and infinity */
	bool any_keys;          /* map keys of any scalar type, any order, duplicates allowed */
	bool big;               /* allow lengths and counts beyond 64 KiB */
	bool no_empty_bytes;
	bool ext_meta;          /* map metadata with payload bytes */
	bool small;             /* only short strings and small containers */
	bool pairs;     /* some lists of two are pairs in memory */
	bool nan;       /* doubles may be NaN */
} mcfg;

mval* m_gen(mcfg* c);
mval* m_gen_scalar(mcfg* c);
mval* m_gen_key(mcfg* c);
mval* m_gen_deep(mcfg* c, unsigned depth);
mval* m_gen_giant(mcfg* c); /* with a string or blob of up to 48 MiB, or a container of up to 2^18 items */
mval* m_mutate(const mval* v, mcfg* c); /* near copy: same tree with one small change */
mval* m_copy(const mval* v);
mval* m_int(int64_t i);
mval* m_str(const char* p, uint32_t n);
mval* m_bytes(const void* p, uint32_t n, uint8_t tag);
mval* m_list(uint32_t n);
mval* m_map(uint32_t n);
unsigned m_len(mcfg* c); /* boundary-biased length */
uint64_t m_hash(const mval* v);
unsigned m_depth(const mval* v);
uint64_t m_nodes(const mval* v);
void m_classify(const mval* v); /* labels + non-trivial rule for value trees */
bool m_equal(const mval* a, const mval* b);
/* true if any node satisfies the mask of types (1 << t) */
bool m_has(const mval* v, unsigned mask);
const char* m_show(const mval* v);

as_val* m_build(const mval* v);
void m_expect(const as_val* v, const mval* m, const char* what);
/* sort map entries by key as an ordered map would hold them */
void m_sort_map(mval* v);
int m_key_cmp(const mval* a, const mval* b);

/* ordering of encoded values: -1, 0, 1 */
int m_cmp_packed(const mval* a, const mval* b);
/* ordering of in-memory values: -1, 0, 1 */
int m_cmp_mem(const mval* a, const mval* b);

typedef struct { uint8_t* p; size_t n, cap; } mbuf;
void mb_put(mbuf* b, const void* p, size_t n);
void mb_u8(mbuf* b, uint8_t v);
void mb_be(mbuf* b, uint64_t v, unsigned bytes);
void m_encode(mbuf* b, const mval* v);             /* shortest form, library conventions */
void m_encode_any(mbuf* b, const mval* v, unsigned wide); /* widths drawn: wide of 8 nodes use a non-minimal form */
void m_enc_int(mbuf* b, int64_t v);
void m_enc_uint(mbuf* b, uint64_t v);
void m_enc_str_header(mbuf* b, uint32_t n);
void m_enc_list_header(mbuf* b, uint32_t n);
void m_enc_map_header(mbuf* b, uint32_t n);
void m_enc_ext(mbuf* b, uint8_t type, const void* p, uint32_t n); /* shortest */
