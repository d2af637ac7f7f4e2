/* Every atomic operation of the public header, by type. The header's own code
 * runs here, in functions that are instrumented like the library. */
#pragma once
#include <aerospike/as_atomic.h>
#include <stdbool.h>
#include <stdint.h>

enum {
	O_LD_RLX, O_LD_ACQ, O_LD_SEQ, O_LD, O_LD_TACQ,
	O_ST_RLX, O_ST_RLS, O_ST_SEQ, O_ST, O_ST_TRLS,
	O_CAS_RLX, O_CAS_ACQ, O_CAS_RLS, O_CAS_SEQ, O_CAS,
	O_FAS_RLX, O_FAS_ACQ, O_FAS_RLS, O_FAS_SEQ, O_FAA_RLX, O_FAA_ACQ, O_FAA_RLS, O_FAA_SEQ, O_AAF_RLX, O_AAF_ACQ, O_AAF_RLS, O_AAF_SEQ,
	O_SMALL,          /* the types of one byte have the operations above */
	O_FAS = O_SMALL, O_FAA, O_AAF, O_AAF_TRLS, O_ADD, O_INCR, O_INCR_TRLS, O_DECR, O_DECR_TRLS,
	O_MID,            /* most types have these too */
	O_SETMAX = O_MID, O_ALL
};
enum { Y_U64, Y_I64, Y_U32, Y_I32, Y_U16, Y_I16, Y_U8, Y_I8, Y_N };
static const char* const y_name[] = { "uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8" };
static const char* const o_name[] = {
	"load_rlx", "load_acq", "load_seq", "load", "load (acquire)", "store_rlx", "store_rls", "store_seq", "store", "store (release)",
	"cas_rlx", "cas_acq", "cas_rls", "cas_seq", "cas", "fas_rlx", "fas_acq", "fas_rls", "fas_seq", "faa_rlx", "faa_acq", "faa_rls", "faa_seq",
	"aaf_rlx", "aaf_acq", "aaf_rls", "aaf_seq", "fas", "faa", "aaf", "aaf (release)", "add", "incr", "incr (release)", "decr", "decr (release)", "setmax" };
static const unsigned y_size[] = { 8, 8, 4, 4, 2, 2, 1, 1 };
static inline unsigned y_ops(unsigned y) { return y == Y_U64 || y == Y_U32 ? O_ALL : y >= Y_U8 ? O_SMALL : O_MID; }

/* a, b: arguments; the result is returned, *s is what cas leaves in its expected value */
#define SMALL(T, sfx) \
	case O_LD_RLX: return (int64_t)as_load_rlx(p); \
	case O_LD_ACQ: return (int64_t)as_load_acq(p); \
	case O_LD_SEQ: return (int64_t)as_load_seq(p); \
	case O_LD: return (int64_t)as_load_##sfx(p); \
	case O_LD_TACQ: return (int64_t)as_load_##sfx##_acq(p); \
	case O_ST_RLX: as_store_rlx(p, (T)a); return 0; \
	case O_ST_RLS: as_store_rls(p, (T)a); return 0; \
	case O_ST_SEQ: as_store_seq(p, (T)a); return 0; \
	case O_ST: as_store_##sfx(p, (T)a); return 0; \
	case O_ST_TRLS: as_store_##sfx##_rls(p, (T)a); return 0; \
	case O_CAS_RLX: { T o = (T)a; bool k = as_cas_rlx(p, &o, (T)b); *s = (int64_t)o; return k; } \
	case O_CAS_ACQ: { T o = (T)a; bool k = as_cas_acq(p, &o, (T)b); *s = (int64_t)o; return k; } \
	case O_CAS_RLS: { T o = (T)a; bool k = as_cas_rls(p, &o, (T)b); *s = (int64_t)o; return k; } \
	case O_CAS_SEQ: { T o = (T)a; bool k = as_cas_seq(p, &o, (T)b); *s = (int64_t)o; return k; } \
	case O_CAS: return as_cas_##sfx(p, (T)a, (T)b); \
	case O_FAS_RLX: return (int64_t)as_fas_rlx(p, (T)a); \
	case O_FAS_ACQ: return (int64_t)as_fas_acq(p, (T)a); \
	case O_FAS_RLS: return (int64_t)as_fas_rls(p, (T)a); \
	case O_FAS_SEQ: return (int64_t)as_fas_seq(p, (T)a); \
	case O_FAA_RLX: return (int64_t)as_faa_rlx(p, (T)a); \
	case O_FAA_ACQ: return (int64_t)as_faa_acq(p, (T)a); \
	case O_FAA_RLS: return (int64_t)as_faa_rls(p, (T)a); \
	case O_FAA_SEQ: return (int64_t)as_faa_seq(p, (T)a); \
	case O_AAF_RLX: return (int64_t)as_aaf_rlx(p, (T)a); \
	case O_AAF_ACQ: return (int64_t)as_aaf_acq(p, (T)a); \
	case O_AAF_RLS: return (int64_t)as_aaf_rls(p, (T)a); \
	case O_AAF_SEQ: return (int64_t)as_aaf_seq(p, (T)a);
#define MID(T, sfx, D) \
	case O_FAS: return (int64_t)as_fas_##sfx(p, (T)a); \
	case O_FAA: return (int64_t)as_faa_##sfx(p, (D)a); \
	case O_AAF: return (int64_t)as_aaf_##sfx(p, (D)a); \
	case O_AAF_TRLS: return (int64_t)as_aaf_##sfx##_rls(p, (D)a); \
	case O_ADD: as_add_##sfx(p, (D)a); return 0; \
	case O_INCR: as_incr_##sfx(p); return 0; \
	case O_INCR_TRLS: as_incr_##sfx##_rls(p); return 0; \
	case O_DECR: as_decr_##sfx(p); return 0; \
	case O_DECR_TRLS: as_decr_##sfx##_rls(p); return 0;
#define DEF(T, sfx, body) \
	static __attribute__((noinline)) int64_t do_##sfx(unsigned op, T* p, int64_t a, int64_t b, int64_t* s) { switch (op) { body } return 0; }
DEF(uint64_t, uint64, SMALL(uint64_t, uint64) MID(uint64_t, uint64, int64_t) case O_SETMAX: return as_setmax_uint64(p, (uint64_t)a);)
DEF(int64_t, int64, SMALL(int64_t, int64) MID(int64_t, int64, int64_t))
DEF(uint32_t, uint32, SMALL(uint32_t, uint32) MID(uint32_t, uint32, int32_t) case O_SETMAX: return as_setmax_uint32(p, (uint32_t)a);)
DEF(int32_t, int32, SMALL(int32_t, int32) MID(int32_t, int32, int32_t))
DEF(uint16_t, uint16, SMALL(uint16_t, uint16) MID(uint16_t, uint16, int16_t))
DEF(int16_t, int16, SMALL(int16_t, int16) MID(int16_t, int16, int16_t))
DEF(uint8_t, uint8, SMALL(uint8_t, uint8))
DEF(int8_t, int8, SMALL(int8_t, int8))
static __attribute__((noinline)) int64_t perform(unsigned y, unsigned op, void* p, int64_t a, int64_t b, int64_t* s)
{
	switch (y) {
	case Y_U64: return do_uint64(op, p, a, b, s);
	case Y_I64: return do_int64(op, p, a, b, s);
	case Y_U32: return do_uint32(op, p, a, b, s);
	case Y_I32: return do_int32(op, p, a, b, s);
	case Y_U16: return do_uint16(op, p, a, b, s);
	case Y_I16: return do_int16(op, p, a, b, s);
	case Y_U8: return do_uint8(op, p, a, b, s);
	default: return do_int8(op, p, a, b, s);
	}
}

/* ---- what they mean ---- */
static inline int64_t y_cut(unsigned y, int64_t v)
{
	switch (y) {
	case Y_U32: return (uint32_t)v;
	case Y_I32: return (int32_t)v;
	case Y_U16: return (uint16_t)v;
	case Y_I16: return (int16_t)v;
	case Y_U8: return (uint8_t)v;
	case Y_I8: return (int8_t)v;
	default: return v;
	}
}
static inline int64_t y_plus(unsigned y, int64_t v, int64_t d) { return y_cut(y, (int64_t)((uint64_t)v + (uint64_t)d)); }
/* New state in *v; the result is returned, *s as above where the operation has it. */
static inline int64_t y_model(unsigned y, unsigned op, int64_t* v, int64_t a, int64_t b, int64_t* s, bool* has_s)
{
	int64_t o = *v;
	a = y_cut(y, a); b = y_cut(y, b);
	*has_s = false;
	switch (op) {
	case O_LD_RLX: case O_LD_ACQ: case O_LD_SEQ: case O_LD: case O_LD_TACQ: return o;
	case O_ST_RLX: case O_ST_RLS: case O_ST_SEQ: case O_ST: case O_ST_TRLS: *v = a; return 0;
	case O_CAS_RLX: case O_CAS_ACQ: case O_CAS_RLS: case O_CAS_SEQ: *has_s = true; *s = o; /* fall through */
	case O_CAS: if (o == a) { *v = b; return 1; } return 0;
	case O_FAS_RLX: case O_FAS_ACQ: case O_FAS_RLS: case O_FAS_SEQ: case O_FAS: *v = a; return o;
	case O_FAA_RLX: case O_FAA_ACQ: case O_FAA_RLS: case O_FAA_SEQ: case O_FAA: *v = y_plus(y, o, a); return o;
	case O_AAF_RLX: case O_AAF_ACQ: case O_AAF_RLS: case O_AAF_SEQ: case O_AAF: case O_AAF_TRLS: return *v = y_plus(y, o, a);
	case O_ADD: *v = y_plus(y, o, a); return 0;
	case O_INCR: case O_INCR_TRLS: *v = y_plus(y, o, 1); return 0;
	case O_DECR: case O_DECR_TRLS: *v = y_plus(y, o, -1); return 0;
	default: if ((uint64_t)a > (uint64_t)o) { *v = a; return 1; } return 0;
	}
}
