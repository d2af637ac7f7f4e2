/* C34: interface objects (records, lists, maps, streams, modules, ...) hand each call to their implementation. */
#include <aerospike/as_aerospike.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_module.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_timer.h>
#include <aerospike/as_udf_context.h>
#include <citrusleaf/alloc.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "at least 3 calls, one reaching the implementation and one falling back to the default; distinct by choice sequence";

/* What the implementation saw: one entry per hook call. */
static struct { const char* name; unsigned calls, n; uint64_t a[8], ret; } tr;
static bool no_obj, no_hooks;
static unsigned reached, fell_back;

#define BITS(x) ({ __typeof__(x) t_ = (x); uint64_t r_ = 0; memcpy(&r_, &t_, sizeof(t_)); r_; })
#define B1(a) BITS(a)
#define B2(a, ...) BITS(a), B1(__VA_ARGS__)
#define B3(a, ...) BITS(a), B2(__VA_ARGS__)
#define B4(a, ...) BITS(a), B3(__VA_ARGS__)
#define B5(a, ...) BITS(a), B4(__VA_ARGS__)
#define B6(a, ...) BITS(a), B5(__VA_ARGS__)
#define B7(a, ...) BITS(a), B6(__VA_ARGS__)
#define B8(a, ...) BITS(a), B7(__VA_ARGS__)
#define PICK(_1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define ALL(...) PICK(__VA_ARGS__, B8, B7, B6, B5, B4, B3, B2, B1)(__VA_ARGS__)

static void saw(const char* name, unsigned n, const uint64_t* a)
{
	tr.name = name; tr.calls++; tr.n = n;
	memcpy(tr.a, a, n * sizeof(uint64_t));
}

/* One implementation function: note the call, give back what was chosen. */
#define STUB(T, name, params, ...) static T name params { \
	uint64_t a_[] = { ALL(__VA_ARGS__) }; \
	saw(#name, sizeof(a_) / sizeof(a_[0]), a_); \
	T r_; \
	memcpy(&r_, &tr.ret, sizeof(r_)); \
	return r_; }
#define STUBV(name, params, ...) static void name params { \
	uint64_t a_[] = { ALL(__VA_ARGS__) }; \
	saw(#name, sizeof(a_) / sizeof(a_[0]), a_); }

static void verify(const char* name, bool present, uint64_t got, uint64_t ret, uint64_t dflt, unsigned n, const uint64_t* a)
{
	if (!present) {
		VF_CHECK(tr.calls == 0, "%s: %s was called instead", name, tr.name);
		VF_CHECK(got == dflt, "%s: without implementation gives %llx, not %llx", name, (unsigned long long)got, (unsigned long long)dflt);
		fell_back++;
		return;
	}
	VF_CHECK(tr.calls == 1, "%s: implementation called %u times", name, tr.calls);
	VF_CHECK(strcmp(tr.name, name) == 0, "%s: reached %s", name, tr.name);
	VF_CHECK(tr.n == n, "%s: argument count", name);
	for (unsigned i = 0; i < n; i++)
		VF_CHECK(tr.a[i] == a[i], "%s: argument %u arrives as %llx, passed %llx", name, i, (unsigned long long)tr.a[i], (unsigned long long)a[i]);
	VF_CHECK(got == ret, "%s: returns %llx, implementation %llx", name, (unsigned long long)got, (unsigned long long)ret);
	reached++;
}

#define CALL(T, dflt, name, hook, expr, ...) do { \
	tr.calls = 0; \
	tr.ret = vf_draw(0); \
	if (__builtin_types_compatible_p(T, bool)) tr.ret &= 1; \
	T want_; \
	memcpy(&want_, &tr.ret, sizeof(want_)); \
	vf_note(#expr " implemented %d", !no_obj && !no_hooks && hook); \
	T got_ = expr; \
	uint64_t a_[] = { ALL(__VA_ARGS__) }; \
	verify(#name, !no_obj && !no_hooks && hook, BITS(got_), BITS(want_), BITS((T)dflt), sizeof(a_) / sizeof(a_[0]), a_); } while (0)
#define CALLV(name, hook, expr, ...) do { \
	tr.calls = 0; \
	vf_note(#expr " implemented %d", !no_obj && !no_hooks && hook); \
	expr; \
	uint64_t a_[] = { ALL(__VA_ARGS__) }; \
	verify(#name, !no_obj && !no_hooks && hook, 0, 0, 0, sizeof(a_) / sizeof(a_[0]), a_); } while (0)

/* Addresses no one looks behind. */
#define P(T) ((T)(uintptr_t)(vf_draw(0) & 0x7ffffffffff8))

static void begin(void)
{
	no_obj = vf_chance(1, 16);
	no_hooks = !no_obj && vf_chance(1, 16);
	reached = fell_back = 0;
}
static void end(void) { if (reached && fell_back && reached + fell_back >= 3) vf_nontrivial(); }

STUB(as_val*, rec_get, (const as_rec* a0, const char* a1), a0, a1)
STUB(int, rec_set, (const as_rec* a0, const char* a1, const as_val* a2), a0, a1, a2)
STUB(int, rec_remove, (const as_rec* a0, const char* a1), a0, a1)
STUB(uint32_t, rec_ttl, (const as_rec* a0), a0)
STUB(uint64_t, rec_last_update_time, (const as_rec* a0), a0)
STUB(uint16_t, rec_gen, (const as_rec* a0), a0)
STUB(uint32_t, rec_size, (const as_rec* a0), a0)
STUB(uint32_t, rec_memory_size, (const as_rec* a0), a0)
STUB(uint32_t, rec_device_size, (const as_rec* a0), a0)
STUB(as_val*, rec_key, (const as_rec* a0), a0)
STUB(const char*, rec_setname, (const as_rec* a0), a0)
STUB(uint16_t, rec_numbins, (const as_rec* a0), a0)
STUB(int, rec_bin_names, (const as_rec* a0, as_rec_bin_names_callback a1, void* a2), a0, a1, a2)
STUB(as_bytes*, rec_digest, (const as_rec* a0), a0)
STUB(int, rec_set_ttl, (const as_rec* a0, uint32_t a1), a0, a1)
STUB(int, rec_drop_key, (const as_rec* a0), a0)
STUB(bool, rec_foreach, (const as_rec* a0, as_rec_foreach_callback a1, void* a2), a0, a1, a2)
STUB(uint32_t, rec_hashcode, (const as_rec* a0), a0)
STUB(bool, rec_destroy, (as_rec* a0), a0)

static void t_rec(void)
{
	as_rec_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.get = rec_get;
	if (have >> 1 & 1) h.set = rec_set;
	if (have >> 2 & 1) h.remove = rec_remove;
	if (have >> 3 & 1) h.ttl = rec_ttl;
	if (have >> 4 & 1) h.last_update_time = rec_last_update_time;
	if (have >> 5 & 1) h.gen = rec_gen;
	if (have >> 6 & 1) h.size = rec_size;
	if (have >> 7 & 1) h.memory_size = rec_memory_size;
	if (have >> 8 & 1) h.device_size = rec_device_size;
	if (have >> 9 & 1) h.key = rec_key;
	if (have >> 10 & 1) h.setname = rec_setname;
	if (have >> 11 & 1) h.numbins = rec_numbins;
	if (have >> 12 & 1) h.bin_names = rec_bin_names;
	if (have >> 13 & 1) h.digest = rec_digest;
	if (have >> 14 & 1) h.set_ttl = rec_set_ttl;
	if (have >> 15 & 1) h.drop_key = rec_drop_key;
	if (have >> 16 & 1) h.foreach = rec_foreach;
	if (have >> 17 & 1) h.hashcode = rec_hashcode;
	if (have >> 18 & 1) h.destroy = rec_destroy;
	uint64_t live0 = vfa_live();
	as_rec st;
	void* src = vf_chance(1, 6) ? NULL : P(void*);
	memset(&st, vf_junk(), sizeof(st));
	bool heap = vf_bool();
	as_rec* o = heap ? as_rec_new(src, no_hooks ? NULL : &h) : as_rec_init(&st, src, no_hooks ? NULL : &h);
	VF_CHECK(o && (heap || o == &st), "constructor");
	VF_CHECK(as_rec_source(o) == src, "source is not the one given");
	as_rec* made = o;
	if (no_obj) { o = NULL; VF_CHECK(as_rec_source(o) == NULL, "source of nothing"); }
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(25)) {
		case 0: { const char* x1 = P(const char*); CALL(as_val*, NULL, rec_get, h.get, as_rec_get(o, x1), (const as_rec*)o, x1); break; }
		case 1: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set(o, x1, x2), (const as_rec*)o, x1, x2); break; }
		case 2: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set_integer(o, x1, (const as_integer*)x2), (const as_rec*)o, x1, x2); break; }
		case 3: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set_as_double(o, x1, (const as_double*)x2), (const as_rec*)o, x1, x2); break; }
		case 4: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set_string(o, x1, (const as_string*)x2), (const as_rec*)o, x1, x2); break; }
		case 5: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set_geojson(o, x1, (const as_geojson*)x2), (const as_rec*)o, x1, x2); break; }
		case 6: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set_bytes(o, x1, (const as_bytes*)x2), (const as_rec*)o, x1, x2); break; }
		case 7: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set_list(o, x1, (const as_list*)x2), (const as_rec*)o, x1, x2); break; }
		case 8: { const char* x1 = P(const char*); const as_val* x2 = P(const as_val*); CALL(int, 1, rec_set, h.set, as_rec_set_map(o, x1, (const as_map*)x2), (const as_rec*)o, x1, x2); break; }
		case 9: { const char* x1 = P(const char*); CALL(int, 1, rec_remove, h.remove, as_rec_remove(o, x1), (const as_rec*)o, x1); break; }
		case 10: { CALL(uint32_t, 0, rec_ttl, h.ttl, as_rec_ttl(o), (const as_rec*)o); break; }
		case 11: { CALL(uint64_t, 0, rec_last_update_time, h.last_update_time, as_rec_last_update_time(o), (const as_rec*)o); break; }
		case 12: { CALL(uint16_t, 0, rec_gen, h.gen, as_rec_gen(o), (const as_rec*)o); break; }
		case 13: { CALL(uint32_t, 0, rec_size, h.size, as_rec_size(o), (const as_rec*)o); break; }
		case 14: { CALL(uint32_t, 0, rec_memory_size, h.memory_size, as_rec_memory_size(o), (const as_rec*)o); break; }
		case 15: { CALL(uint32_t, 0, rec_device_size, h.device_size, as_rec_device_size(o), (const as_rec*)o); break; }
		case 16: { CALL(as_val*, NULL, rec_key, h.key, as_rec_key(o), (const as_rec*)o); break; }
		case 17: { CALL(const char*, NULL, rec_setname, h.setname, as_rec_setname(o), (const as_rec*)o); break; }
		case 18: { CALL(uint16_t, 0, rec_numbins, h.numbins, as_rec_numbins(o), (const as_rec*)o); break; }
		case 19: { as_rec_bin_names_callback x1 = P(as_rec_bin_names_callback); void* x2 = P(void*); CALL(int, 0, rec_bin_names, h.bin_names, as_rec_bin_names(o, x1, x2), (const as_rec*)o, x1, x2); break; }
		case 20: { CALL(as_bytes*, NULL, rec_digest, h.digest, as_rec_digest(o), (const as_rec*)o); break; }
		case 21: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(int, 0, rec_set_ttl, h.set_ttl, as_rec_set_ttl(o, x1), (const as_rec*)o, x1); break; }
		case 22: { CALL(int, 0, rec_drop_key, h.drop_key, as_rec_drop_key(o), (const as_rec*)o); break; }
		case 23: { as_rec_foreach_callback x1 = P(as_rec_foreach_callback); void* x2 = P(void*); CALL(bool, false, rec_foreach, h.foreach, as_rec_foreach(o, x1, x2), (const as_rec*)o, x1, x2); break; }
		default: { CALL(uint32_t, 0, rec_hashcode, h.hashcode, as_val_hashcode(o), (const as_rec*)o); break; }
		}
	}
	unsigned more = (unsigned)vf_draw(3);
	for (unsigned i = 0; i < more; i++) VF_CHECK(as_val_reserve(made) == (as_val*)made, "reserve");
	tr.calls = 0; tr.ret = 1;
	for (unsigned i = 0; i < more; i++) as_rec_destroy(made);
	VF_CHECK(tr.calls == 0, "destroyed while references remain");
	as_rec_destroy(made);
	uint64_t a[] = { BITS(made) };
	verify("rec_destroy", !no_hooks && h.destroy, 0, 0, 0, 1, a);
	vfa_expect(live0, "after destroying a record");
	end();
}

STUB(as_val*, stream_read, (const as_stream* a0), a0)
STUB(as_stream_status, stream_write, (const as_stream* a0, as_val* a1), a0, a1)
STUB(int, stream_destroy, (as_stream* a0), a0)

static void t_stream(void)
{
	as_stream_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.read = stream_read;
	if (have >> 1 & 1) h.write = stream_write;
	if (have >> 2 & 1) h.destroy = stream_destroy;
	uint64_t live0 = vfa_live();
	as_stream st;
	void* src = vf_chance(1, 6) ? NULL : P(void*);
	memset(&st, vf_junk(), sizeof(st));
	bool heap = vf_bool();
	as_stream* o = heap ? as_stream_new(src, no_hooks ? NULL : &h) : as_stream_init(&st, src, no_hooks ? NULL : &h);
	VF_CHECK(o && (heap || o == &st), "constructor");
	VF_CHECK(as_stream_source(o) == src, "source is not the one given");
	as_stream* made = o;
	if (no_obj) { o = NULL; VF_CHECK(as_stream_source(o) == NULL, "source of nothing"); }
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(2)) {
		case 0: { CALL(as_val*, NULL, stream_read, h.read, as_stream_read(o), (const as_stream*)o); break; }
		default: { as_val* x1 = P(as_val*); CALL(as_stream_status, AS_STREAM_ERR, stream_write, h.write, as_stream_write(o, x1), (const as_stream*)o, x1); break; }
		}
	}
	VF_CHECK(as_stream_readable(o) == (!no_obj && !no_hooks && h.read), "readable");
	VF_CHECK(as_stream_writable(o) == (!no_obj && !no_hooks && h.write), "writable");
	tr.calls = 0;
	if (no_obj) { as_stream_destroy(NULL); VF_CHECK(tr.calls == 0, "destroying nothing"); }
	as_stream_destroy(made);
	uint64_t a[] = { BITS(made) };
	verify("stream_destroy", !no_hooks && h.destroy, 0, 0, 0, 1, a);
	vfa_expect(live0, "after destroying a stream");
	end();
}

STUB(bool, timer_timedout, (const as_timer* a0), a0)
STUB(uint64_t, timer_timeslice, (const as_timer* a0), a0)
STUB(int, timer_destroy, (as_timer* a0), a0)

static void t_timer(void)
{
	as_timer_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.timedout = timer_timedout;
	if (have >> 1 & 1) h.timeslice = timer_timeslice;
	if (have >> 2 & 1) h.destroy = timer_destroy;
	uint64_t live0 = vfa_live();
	as_timer st;
	void* src = vf_chance(1, 6) ? NULL : P(void*);
	memset(&st, vf_junk(), sizeof(st));
	bool heap = vf_bool();
	as_timer* o = heap ? as_timer_new(src, no_hooks ? NULL : &h) : as_timer_init(&st, src, no_hooks ? NULL : &h);
	VF_CHECK(o && (heap || o == &st), "constructor");
	VF_CHECK(as_timer_source(o) == src, "source is not the one given");
	as_timer* made = o;
	if (no_obj) { o = NULL; VF_CHECK(as_timer_source(o) == NULL, "source of nothing"); }
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(2)) {
		case 0: { CALL(bool, false, timer_timedout, h.timedout, as_timer_timedout(o), (const as_timer*)o); break; }
		default: { CALL(uint64_t, 0, timer_timeslice, h.timeslice, as_timer_timeslice(o), (const as_timer*)o); break; }
		}
	}
	/* The timer is freed only if it is a heap timer and its implementation let go of it. */
	if (no_obj) { tr.calls = 0; VF_CHECK(as_timer_destroy(NULL) != 0 && tr.calls == 0, "destroying nothing"); }
	tr.calls = 0;
	tr.ret = vf_bool() ? 0 : 1 + vf_draw(3);
	int want = (int)tr.ret, rc = as_timer_destroy(made);
	uint64_t a[] = { BITS(made) };
	verify("timer_destroy", !no_hooks && h.destroy, BITS(rc), BITS(want), 1, 1, a);
	bool gone = heap && rc == 0;
	vfa_expect(live0 + (heap && !gone), "after destroying a timer");
	if (heap && !gone) cf_free(made);
	end();
}

STUB(int, aero_rec_create, (const as_aerospike* a0, const as_rec* a1), a0, a1)
STUB(int, aero_rec_update, (const as_aerospike* a0, const as_rec* a1), a0, a1)
STUB(int, aero_rec_remove, (const as_aerospike* a0, const as_rec* a1), a0, a1)
STUB(int, aero_rec_exists, (const as_aerospike* a0, const as_rec* a1), a0, a1)
STUB(int, aero_log, (const as_aerospike* a0, const char* a1, int a2, int a3, const char* a4), a0, a1, a2, a3, a4)
STUB(cf_clock, aero_get_current_time, (const as_aerospike* a0), a0)
STUB(int, aero_set_context, (const as_aerospike* a0, const as_rec* a1, uint32_t a2), a0, a1, a2)
STUB(int, aero_get_config, (const as_aerospike* a0, const as_rec* a1, const char* a2), a0, a1, a2)

static void t_aero(void)
{
	as_aerospike_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.rec_create = aero_rec_create;
	if (have >> 1 & 1) h.rec_update = aero_rec_update;
	if (have >> 2 & 1) h.rec_remove = aero_rec_remove;
	if (have >> 3 & 1) h.rec_exists = aero_rec_exists;
	if (have >> 4 & 1) h.log = aero_log;
	if (have >> 5 & 1) h.get_current_time = aero_get_current_time;
	if (have >> 6 & 1) h.set_context = aero_set_context;
	if (have >> 7 & 1) h.get_config = aero_get_config;
	uint64_t live0 = vfa_live();
	as_aerospike st;
	void* src = vf_chance(1, 6) ? NULL : P(void*);
	memset(&st, vf_junk(), sizeof(st));
	bool heap = vf_bool();
	as_aerospike* o = heap ? as_aerospike_new(src, no_hooks ? NULL : &h) : as_aerospike_init(&st, src, no_hooks ? NULL : &h);
	VF_CHECK(o && (heap || o == &st), "constructor");
	as_aerospike* made = o;
	VF_CHECK(made->source == src, "source is not the one given");
	if (no_obj) { o = NULL; }
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(8)) {
		case 0: { const as_rec* x1 = P(const as_rec*); CALL(int, 1, aero_rec_create, h.rec_create, as_aerospike_rec_create(o, x1), (const as_aerospike*)o, x1); break; }
		case 1: { const as_rec* x1 = P(const as_rec*); CALL(int, 1, aero_rec_update, h.rec_update, as_aerospike_rec_update(o, x1), (const as_aerospike*)o, x1); break; }
		case 2: { const as_rec* x1 = P(const as_rec*); CALL(int, 1, aero_rec_remove, h.rec_remove, as_aerospike_rec_remove(o, x1), (const as_aerospike*)o, x1); break; }
		case 3: { const as_rec* x1 = P(const as_rec*); CALL(int, 1, aero_rec_exists, h.rec_exists, as_aerospike_rec_exists(o, x1), (const as_aerospike*)o, x1); break; }
		case 4: { const char* x1 = P(const char*); int x2 = (int)vf_uint64(); int x3 = (int)vf_uint64(); const char* x4 = P(const char*); CALL(int, 1, aero_log, h.log, as_aerospike_log(o, x1, x2, x3, x4), (const as_aerospike*)o, x1, x2, x3, x4); break; }
		case 5: { CALL(cf_clock, 0, aero_get_current_time, h.get_current_time, as_aerospike_get_current_time(o), (const as_aerospike*)o); break; }
		case 6: { const as_rec* x1 = P(const as_rec*); uint32_t x2 = (uint32_t)vf_uint64(); CALL(int, 2, aero_set_context, h.set_context, as_aerospike_set_context(o, x1, x2), (const as_aerospike*)o, x1, x2); break; }
		default: { const as_rec* x1 = P(const as_rec*); const char* x2 = P(const char*); CALL(int, 0, aero_get_config, h.get_config, as_aerospike_get_config(o, x1, x2), (const as_aerospike*)o, x1, x2); break; }
		}
	}
	as_aerospike_destroy(made);
	vfa_expect(live0, "after destroying an interface object");
	end();
}

static as_module_event seen;
static int module_update(as_module* m, as_module_event* e)
{
	uint64_t a[] = { BITS(m), BITS(e) };
	saw("module_update", 2, a);
	seen = *e;
	int r;
	memcpy(&r, &tr.ret, sizeof(r));
	return r;
}
STUB(int, module_validate, (as_module* a0, as_aerospike* a1, const char* a2, const char* a3, uint32_t a4, as_module_error* a5), a0, a1, a2, a3, a4, a5)
STUB(int, module_apply_record, (as_module* a0, as_udf_context* a1, const char* a2, const char* a3, as_rec* a4, as_list* a5, as_result* a6), a0, a1, a2, a3, a4, a5, a6)
STUB(int, module_apply_stream, (as_module* a0, as_udf_context* a1, const char* a2, const char* a3, as_stream* a4, as_list* a5, as_stream* a6, as_result* a7), a0, a1, a2, a3, a4, a5, a6, a7)
STUB(int, module_destroy, (as_module* a0), a0)

static void t_module(void)
{
	as_module_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.validate = module_validate;
	if (have >> 1 & 1) h.apply_record = module_apply_record;
	if (have >> 2 & 1) h.apply_stream = module_apply_stream;
	if (have >> 3 & 1) h.destroy = module_destroy;
	void* src = vf_chance(1, 6) ? NULL : P(void*);
	as_module st = { src, no_hooks ? NULL : &h };
	as_module* o = no_obj ? NULL : &st;
	if (have >> 5 & 1) h.update = module_update;
	VF_CHECK(as_module_source(o) == (no_obj ? NULL : src), "module source");
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(4)) {
		case 0: { as_aerospike* x1 = P(as_aerospike*); const char* x2 = P(const char*); const char* x3 = P(const char*); uint32_t x4 = (uint32_t)vf_uint64(); as_module_error* x5 = P(as_module_error*); CALL(int, 1, module_validate, h.validate, as_module_validate(o, x1, x2, x3, x4, x5), (as_module*)o, x1, x2, x3, x4, x5); break; }
		case 1: { as_udf_context* x1 = P(as_udf_context*); const char* x2 = P(const char*); const char* x3 = P(const char*); as_rec* x4 = P(as_rec*); as_list* x5 = P(as_list*); as_result* x6 = P(as_result*); CALL(int, 1, module_apply_record, h.apply_record, as_module_apply_record(o, x1, x2, x3, x4, x5, x6), (as_module*)o, x1, x2, x3, x4, x5, x6); break; }
		case 2: { as_udf_context* x1 = P(as_udf_context*); const char* x2 = P(const char*); const char* x3 = P(const char*); as_stream* x4 = P(as_stream*); as_list* x5 = P(as_list*); as_stream* x6 = P(as_stream*); as_result* x7 = P(as_result*); CALL(int, 1, module_apply_stream, h.apply_stream, as_module_apply_stream(o, x1, x2, x3, x4, x5, x6, x7), (as_module*)o, x1, x2, x3, x4, x5, x6, x7); break; }
		default: { CALL(int, 1, module_destroy, h.destroy, as_module_destroy(o), (as_module*)o); break; }
		}
	}
	as_module_event ev = { (as_module_event_type)vf_draw(5), { P(void*), P(const char*) } };
	CALL(int, 1, module_update, h.update, as_module_update(o, &ev), o, &ev);
	/* configuring is a configuration event carrying the settings */
	void* config = P(void*);
	tr.calls = 0; tr.ret = vf_draw(0) & 0xffff;
	int want = (int)tr.ret, rc = as_module_configure(o, config);
	bool there = !no_obj && !no_hooks && h.update;
	VF_CHECK(tr.calls == there && rc == (there ? want : 1), "configure returns %d after %u calls", rc, tr.calls);
	if (there) VF_CHECK(tr.a[0] == BITS(o) && seen.type == AS_MODULE_EVENT_CONFIGURE && seen.data.config == config, "configuration event");
	end();
}

STUB(bool, iterator_has_next, (const as_iterator* a0), a0)
STUB(const as_val*, iterator_next, (as_iterator* a0), a0)
STUB(bool, iterator_destroy, (as_iterator* a0), a0)

static void t_iterator(void)
{
	as_iterator_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.has_next = iterator_has_next;
	if (have >> 1 & 1) h.next = iterator_next;
	if (have >> 2 & 1) h.destroy = iterator_destroy;
	uint64_t live0 = vfa_live();
	void* src = vf_chance(1, 6) ? NULL : P(void*);
	as_iterator st, *made;
	bool heap = vf_bool();
	made = as_iterator_init(heap ? cf_malloc(sizeof(as_iterator)) : &st, heap, src, no_hooks ? NULL : &h);
	as_iterator* o = no_obj ? NULL : made;
	VF_CHECK(as_iterator_init(NULL, false, src, &h) == NULL, "constructor without storage");
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(2)) {
		case 0: { CALL(bool, false, iterator_has_next, h.has_next, as_iterator_has_next(o), (const as_iterator*)o); break; }
		default: { CALL(const as_val*, NULL, iterator_next, h.next, as_iterator_next(o), (as_iterator*)o); break; }
		}
	}
	tr.calls = 0; tr.ret = 1;
	as_iterator_destroy(made);
	uint64_t a[] = { BITS(made) };
	verify("iterator_destroy", !no_hooks && h.destroy, 0, 0, 0, 1, a);
	vfa_expect(live0, "after destroying an iterator");
	end();
}

STUB(int, serializer_serialize, (as_serializer* a0, const as_val* a1, as_buffer* a2), a0, a1, a2)
STUB(int32_t, serializer_serialize_presized, (as_serializer* a0, const as_val* a1, uint8_t* a2), a0, a1, a2)
STUB(int, serializer_deserialize, (as_serializer* a0, as_buffer* a1, as_val** a2), a0, a1, a2)
STUB(uint32_t, serializer_serialize_getsize, (as_serializer* a0, const as_val* a1), a0, a1)

static void t_serializer(void)
{
	as_serializer_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.serialize = serializer_serialize;
	if (have >> 1 & 1) h.serialize_presized = serializer_serialize_presized;
	if (have >> 2 & 1) h.deserialize = serializer_deserialize;
	if (have >> 3 & 1) h.serialize_getsize = serializer_serialize_getsize;
	uint64_t live0 = vfa_live();
	as_serializer st, *made;
	bool heap = vf_bool();
	memset(&st, vf_junk(), sizeof(st));
	made = heap ? as_serializer_new(no_hooks ? NULL : &h) : as_serializer_init(&st, no_hooks ? NULL : &h);
	as_serializer* o = no_obj ? NULL : made;
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(4)) {
		case 0: { const as_val* x1 = P(const as_val*); as_buffer* x2 = P(as_buffer*); CALL(int, 1, serializer_serialize, h.serialize, as_serializer_serialize(o, (as_val*)x1, x2), (as_serializer*)o, x1, x2); break; }
		case 1: { const as_val* x1 = P(const as_val*); uint8_t* x2 = P(uint8_t*); CALL(int32_t, 1, serializer_serialize_presized, h.serialize_presized, as_serializer_serialize_presized(o, x1, x2), (as_serializer*)o, x1, x2); break; }
		case 2: { as_buffer* x1 = P(as_buffer*); as_val** x2 = P(as_val**); CALL(int, 1, serializer_deserialize, h.deserialize, as_serializer_deserialize(o, x1, x2), (as_serializer*)o, x1, x2); break; }
		default: { const as_val* x1 = P(const as_val*); CALL(uint32_t, 1, serializer_serialize_getsize, h.serialize_getsize, as_serializer_serialize_getsize(o, (as_val*)x1), (as_serializer*)o, x1); break; }
		}
	}
	as_serializer_destroy(made);
	vfa_expect(live0, "after destroying a serializer");
	end();
}

STUB(uint32_t, list_hashcode, (const as_list* a0), a0)
STUB(uint32_t, list_size, (const as_list* a0), a0)
STUB(as_val*, list_get, (const as_list* a0, uint32_t a1), a0, a1)
STUB(int64_t, list_get_int64, (const as_list* a0, uint32_t a1), a0, a1)
STUB(double, list_get_double, (const as_list* a0, uint32_t a1), a0, a1)
STUB(char*, list_get_str, (const as_list* a0, uint32_t a1), a0, a1)
STUB(int, list_set, (as_list* a0, uint32_t a1, as_val* a2), a0, a1, a2)
STUB(int, list_set_int64, (as_list* a0, uint32_t a1, int64_t a2), a0, a1, a2)
STUB(int, list_set_double, (as_list* a0, uint32_t a1, double a2), a0, a1, a2)
STUB(int, list_set_str, (as_list* a0, uint32_t a1, const char* a2), a0, a1, a2)
STUB(int, list_insert, (as_list* a0, uint32_t a1, as_val* a2), a0, a1, a2)
STUB(int, list_insert_int64, (as_list* a0, uint32_t a1, int64_t a2), a0, a1, a2)
STUB(int, list_insert_double, (as_list* a0, uint32_t a1, double a2), a0, a1, a2)
STUB(int, list_insert_str, (as_list* a0, uint32_t a1, const char* a2), a0, a1, a2)
STUB(int, list_append, (as_list* a0, as_val* a1), a0, a1)
STUB(int, list_append_int64, (as_list* a0, int64_t a1), a0, a1)
STUB(int, list_append_double, (as_list* a0, double a1), a0, a1)
STUB(int, list_append_str, (as_list* a0, const char* a1), a0, a1)
STUB(int, list_prepend, (as_list* a0, as_val* a1), a0, a1)
STUB(int, list_prepend_int64, (as_list* a0, int64_t a1), a0, a1)
STUB(int, list_prepend_double, (as_list* a0, double a1), a0, a1)
STUB(int, list_prepend_str, (as_list* a0, const char* a1), a0, a1)
STUB(int, list_remove, (as_list* a0, uint32_t a1), a0, a1)
STUB(int, list_concat, (as_list* a0, const as_list* a1), a0, a1)
STUB(int, list_trim, (as_list* a0, uint32_t a1), a0, a1)
STUB(as_val*, list_head, (const as_list* a0), a0)
STUB(as_list*, list_tail, (const as_list* a0), a0)
STUB(as_list*, list_drop, (const as_list* a0, uint32_t a1), a0, a1)
STUB(as_list*, list_take, (const as_list* a0, uint32_t a1), a0, a1)
STUB(bool, list_foreach, (const as_list* a0, as_list_foreach_callback a1, void* a2), a0, a1, a2)
STUB(union as_list_iterator_u*, list_iterator_new, (const as_list* a0), a0)
STUB(union as_list_iterator_u*, list_iterator_init, (const as_list* a0, union as_list_iterator_u* a1), a0, a1)
STUB(bool, list_destroy, (as_list* a0), a0)

static void t_list(void)
{
	as_list_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.hashcode = list_hashcode;
	if (have >> 1 & 1) h.size = list_size;
	if (have >> 2 & 1) h.get = list_get;
	if (have >> 3 & 1) h.get_int64 = list_get_int64;
	if (have >> 4 & 1) h.get_double = list_get_double;
	if (have >> 5 & 1) h.get_str = list_get_str;
	if (have >> 6 & 1) h.set = list_set;
	if (have >> 7 & 1) h.set_int64 = list_set_int64;
	if (have >> 8 & 1) h.set_double = list_set_double;
	if (have >> 9 & 1) h.set_str = list_set_str;
	if (have >> 10 & 1) h.insert = list_insert;
	if (have >> 11 & 1) h.insert_int64 = list_insert_int64;
	if (have >> 12 & 1) h.insert_double = list_insert_double;
	if (have >> 13 & 1) h.insert_str = list_insert_str;
	if (have >> 14 & 1) h.append = list_append;
	if (have >> 15 & 1) h.append_int64 = list_append_int64;
	if (have >> 16 & 1) h.append_double = list_append_double;
	if (have >> 17 & 1) h.append_str = list_append_str;
	if (have >> 18 & 1) h.prepend = list_prepend;
	if (have >> 19 & 1) h.prepend_int64 = list_prepend_int64;
	if (have >> 20 & 1) h.prepend_double = list_prepend_double;
	if (have >> 21 & 1) h.prepend_str = list_prepend_str;
	if (have >> 22 & 1) h.remove = list_remove;
	if (have >> 23 & 1) h.concat = list_concat;
	if (have >> 24 & 1) h.trim = list_trim;
	if (have >> 25 & 1) h.head = list_head;
	if (have >> 26 & 1) h.tail = list_tail;
	if (have >> 27 & 1) h.drop = list_drop;
	if (have >> 28 & 1) h.take = list_take;
	if (have >> 29 & 1) h.foreach = list_foreach;
	if (have >> 30 & 1) h.iterator_new = list_iterator_new;
	if (have >> 31 & 1) h.iterator_init = list_iterator_init;
	if (have >> 32 & 1) h.destroy = list_destroy;
	uint64_t live0 = vfa_live();
	as_list st, *made;
	bool heap = vf_bool();
	memset(&st, vf_junk(), sizeof(st));
	made = heap ? as_list_new(no_hooks ? NULL : &h) : as_list_init(&st, no_hooks ? NULL : &h);
	as_list* o = no_obj ? NULL : made;
	VF_CHECK(as_list_fromval(as_list_toval(made)) == made, "conversion");
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(57)) {
		case 0: { CALL(uint32_t, 0, list_hashcode, h.hashcode, as_list_hashcode(o), (const as_list*)o); break; }
		case 1: { CALL(uint32_t, 0, list_hashcode, h.hashcode, as_val_hashcode(o), (const as_list*)o); break; }
		case 2: { CALL(uint32_t, 0, list_size, h.size, as_list_size(o), (const as_list*)o); break; }
		case 3: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(as_val*, NULL, list_get, h.get, as_list_get(o, x1), (const as_list*)o, x1); break; }
		case 4: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(int64_t, 0, list_get_int64, h.get_int64, as_list_get_int64(o, x1), (const as_list*)o, x1); break; }
		case 5: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(double, 0.0, list_get_double, h.get_double, as_list_get_double(o, x1), (const as_list*)o, x1); break; }
		case 6: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(char*, NULL, list_get_str, h.get_str, as_list_get_str(o, x1), (const as_list*)o, x1); break; }
		case 7: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_set, h.set, as_list_set(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 8: { uint32_t x1 = (uint32_t)vf_uint64(); int64_t x2 = vf_int64(); CALL(int, 1, list_set_int64, h.set_int64, as_list_set_int64(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 9: { uint32_t x1 = (uint32_t)vf_uint64(); double x2 = vf_double(); CALL(int, 1, list_set_double, h.set_double, as_list_set_double(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 10: { uint32_t x1 = (uint32_t)vf_uint64(); const char* x2 = P(const char*); CALL(int, 1, list_set_str, h.set_str, as_list_set_str(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 11: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_set, h.set, as_list_set_integer(o, x1, (as_integer*)x2), (as_list*)o, x1, x2); break; }
		case 12: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_set, h.set, as_list_set_as_double(o, x1, (as_double*)x2), (as_list*)o, x1, x2); break; }
		case 13: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_set, h.set, as_list_set_string(o, x1, (as_string*)x2), (as_list*)o, x1, x2); break; }
		case 14: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_set, h.set, as_list_set_bytes(o, x1, (as_bytes*)x2), (as_list*)o, x1, x2); break; }
		case 15: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_set, h.set, as_list_set_list(o, x1, (as_list*)x2), (as_list*)o, x1, x2); break; }
		case 16: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_set, h.set, as_list_set_map(o, x1, (struct as_map_s*)x2), (as_list*)o, x1, x2); break; }
		case 17: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_insert, h.insert, as_list_insert(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 18: { uint32_t x1 = (uint32_t)vf_uint64(); int64_t x2 = vf_int64(); CALL(int, 1, list_insert_int64, h.insert_int64, as_list_insert_int64(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 19: { uint32_t x1 = (uint32_t)vf_uint64(); double x2 = vf_double(); CALL(int, 1, list_insert_double, h.insert_double, as_list_insert_double(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 20: { uint32_t x1 = (uint32_t)vf_uint64(); const char* x2 = P(const char*); CALL(int, 1, list_insert_str, h.insert_str, as_list_insert_str(o, x1, x2), (as_list*)o, x1, x2); break; }
		case 21: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_insert, h.insert, as_list_insert_integer(o, x1, (as_integer*)x2), (as_list*)o, x1, x2); break; }
		case 22: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_insert, h.insert, as_list_insert_as_double(o, x1, (as_double*)x2), (as_list*)o, x1, x2); break; }
		case 23: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_insert, h.insert, as_list_insert_string(o, x1, (as_string*)x2), (as_list*)o, x1, x2); break; }
		case 24: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_insert, h.insert, as_list_insert_bytes(o, x1, (as_bytes*)x2), (as_list*)o, x1, x2); break; }
		case 25: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_insert, h.insert, as_list_insert_list(o, x1, (as_list*)x2), (as_list*)o, x1, x2); break; }
		case 26: { uint32_t x1 = (uint32_t)vf_uint64(); as_val* x2 = P(as_val*); CALL(int, 1, list_insert, h.insert, as_list_insert_map(o, x1, (struct as_map_s*)x2), (as_list*)o, x1, x2); break; }
		case 27: { as_val* x1 = P(as_val*); CALL(int, 1, list_append, h.append, as_list_append(o, x1), (as_list*)o, x1); break; }
		case 28: { int64_t x1 = vf_int64(); CALL(int, 1, list_append_int64, h.append_int64, as_list_append_int64(o, x1), (as_list*)o, x1); break; }
		case 29: { double x1 = vf_double(); CALL(int, 1, list_append_double, h.append_double, as_list_append_double(o, x1), (as_list*)o, x1); break; }
		case 30: { const char* x1 = P(const char*); CALL(int, 1, list_append_str, h.append_str, as_list_append_str(o, x1), (as_list*)o, x1); break; }
		case 31: { as_val* x1 = P(as_val*); CALL(int, 1, list_append, h.append, as_list_append_integer(o, (as_integer*)x1), (as_list*)o, x1); break; }
		case 32: { as_val* x1 = P(as_val*); CALL(int, 1, list_append, h.append, as_list_append_as_double(o, (as_double*)x1), (as_list*)o, x1); break; }
		case 33: { as_val* x1 = P(as_val*); CALL(int, 1, list_append, h.append, as_list_append_string(o, (as_string*)x1), (as_list*)o, x1); break; }
		case 34: { as_val* x1 = P(as_val*); CALL(int, 1, list_append, h.append, as_list_append_bytes(o, (as_bytes*)x1), (as_list*)o, x1); break; }
		case 35: { as_val* x1 = P(as_val*); CALL(int, 1, list_append, h.append, as_list_append_list(o, (as_list*)x1), (as_list*)o, x1); break; }
		case 36: { as_val* x1 = P(as_val*); CALL(int, 1, list_append, h.append, as_list_append_map(o, (struct as_map_s*)x1), (as_list*)o, x1); break; }
		case 37: { as_val* x1 = P(as_val*); CALL(int, 1, list_prepend, h.prepend, as_list_prepend(o, x1), (as_list*)o, x1); break; }
		case 38: { int64_t x1 = vf_int64(); CALL(int, 1, list_prepend_int64, h.prepend_int64, as_list_prepend_int64(o, x1), (as_list*)o, x1); break; }
		case 39: { double x1 = vf_double(); CALL(int, 1, list_prepend_double, h.prepend_double, as_list_prepend_double(o, x1), (as_list*)o, x1); break; }
		case 40: { const char* x1 = P(const char*); CALL(int, 1, list_prepend_str, h.prepend_str, as_list_prepend_str(o, x1), (as_list*)o, x1); break; }
		case 41: { as_val* x1 = P(as_val*); CALL(int, 1, list_prepend, h.prepend, as_list_prepend_integer(o, (as_integer*)x1), (as_list*)o, x1); break; }
		case 42: { as_val* x1 = P(as_val*); CALL(int, 1, list_prepend, h.prepend, as_list_prepend_as_double(o, (as_double*)x1), (as_list*)o, x1); break; }
		case 43: { as_val* x1 = P(as_val*); CALL(int, 1, list_prepend, h.prepend, as_list_prepend_string(o, (as_string*)x1), (as_list*)o, x1); break; }
		case 44: { as_val* x1 = P(as_val*); CALL(int, 1, list_prepend, h.prepend, as_list_prepend_bytes(o, (as_bytes*)x1), (as_list*)o, x1); break; }
		case 45: { as_val* x1 = P(as_val*); CALL(int, 1, list_prepend, h.prepend, as_list_prepend_list(o, (as_list*)x1), (as_list*)o, x1); break; }
		case 46: { as_val* x1 = P(as_val*); CALL(int, 1, list_prepend, h.prepend, as_list_prepend_map(o, (struct as_map_s*)x1), (as_list*)o, x1); break; }
		case 47: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(int, 1, list_remove, h.remove, as_list_remove(o, x1), (as_list*)o, x1); break; }
		case 48: { const as_list* x1 = P(const as_list*); CALL(int, 1, list_concat, h.concat, as_list_concat(o, x1), (as_list*)o, x1); break; }
		case 49: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(int, 1, list_trim, h.trim, as_list_trim(o, x1), (as_list*)o, x1); break; }
		case 50: { CALL(as_val*, NULL, list_head, h.head, as_list_head(o), (const as_list*)o); break; }
		case 51: { CALL(as_list*, NULL, list_tail, h.tail, as_list_tail(o), (const as_list*)o); break; }
		case 52: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(as_list*, NULL, list_drop, h.drop, as_list_drop(o, x1), (const as_list*)o, x1); break; }
		case 53: { uint32_t x1 = (uint32_t)vf_uint64(); CALL(as_list*, NULL, list_take, h.take, as_list_take(o, x1), (const as_list*)o, x1); break; }
		case 54: { as_list_foreach_callback x1 = P(as_list_foreach_callback); void* x2 = P(void*); CALL(bool, false, list_foreach, h.foreach, as_list_foreach(o, x1, x2), (const as_list*)o, x1, x2); break; }
		case 55: { CALL(union as_list_iterator_u*, NULL, list_iterator_new, h.iterator_new, as_list_iterator_new(o), (const as_list*)o); break; }
		default: { union as_list_iterator_u* x1 = P(union as_list_iterator_u*); CALL(union as_list_iterator_u*, NULL, list_iterator_init, h.iterator_init, as_list_iterator_init(x1, o), (const as_list*)o, x1); break; }
		}
	}
	unsigned more = (unsigned)vf_draw(3);
	for (unsigned i = 0; i < more; i++) VF_CHECK(as_val_reserve(made) == (as_val*)made, "reserve");
	tr.calls = 0; tr.ret = 1;
	for (unsigned i = 0; i < more; i++) as_list_destroy(made);
	VF_CHECK(tr.calls == 0, "destroyed while references remain");
	as_list_destroy(made);
	uint64_t a[] = { BITS(made) };
	verify("list_destroy", !no_hooks && h.destroy, 0, 0, 0, 1, a);
	vfa_expect(live0, "after destroying a list");
	end();
}

STUB(uint32_t, map_hashcode, (const as_map* a0), a0)
STUB(uint32_t, map_size, (const as_map* a0), a0)
STUB(int, map_set, (as_map* a0, const as_val* a1, const as_val* a2), a0, a1, a2)
STUB(as_val*, map_get, (const as_map* a0, const as_val* a1), a0, a1)
STUB(int, map_clear, (as_map* a0), a0)
STUB(int, map_remove, (as_map* a0, const as_val* a1), a0, a1)
STUBV(map_set_flags, (as_map* a0, uint32_t a1), a0, a1)
STUB(bool, map_foreach, (const as_map* a0, as_map_foreach_callback a1, void* a2), a0, a1, a2)
STUB(union as_map_iterator_u*, map_iterator_new, (const as_map* a0), a0)
STUB(union as_map_iterator_u*, map_iterator_init, (const as_map* a0, union as_map_iterator_u* a1), a0, a1)
STUB(bool, map_destroy, (as_map* a0), a0)

static void t_map(void)
{
	as_map_hooks h = { 0 };
	uint64_t have = vf_draw(0);
	begin();
	if (have >> 0 & 1) h.hashcode = map_hashcode;
	if (have >> 1 & 1) h.size = map_size;
	if (have >> 2 & 1) h.set = map_set;
	if (have >> 3 & 1) h.get = map_get;
	if (have >> 4 & 1) h.clear = map_clear;
	if (have >> 5 & 1) h.remove = map_remove;
	if (have >> 6 & 1) h.set_flags = map_set_flags;
	if (have >> 7 & 1) h.foreach = map_foreach;
	if (have >> 8 & 1) h.iterator_new = map_iterator_new;
	if (have >> 9 & 1) h.iterator_init = map_iterator_init;
	if (have >> 10 & 1) h.destroy = map_destroy;
	uint64_t live0 = vfa_live();
	as_map st, *made;
	bool heap = vf_bool();
	memset(&st, vf_junk(), sizeof(st));
	made = heap ? as_map_new(no_hooks ? NULL : &h) : as_map_init(&st, no_hooks ? NULL : &h);
	as_map* o = no_obj ? NULL : made;
	VF_CHECK(as_map_fromval(as_map_toval(made)) == made, "conversion");
	for (unsigned k = 1 + (unsigned)vf_draw(12); k; k--) {
		switch (vf_draw(11)) {
		case 0: { CALL(uint32_t, 0, map_hashcode, h.hashcode, as_map_hashcode(o), (const as_map*)o); break; }
		case 1: { CALL(uint32_t, 0, map_hashcode, h.hashcode, as_val_hashcode(o), (const as_map*)o); break; }
		case 2: { CALL(uint32_t, 0, map_size, h.size, as_map_size(o), (const as_map*)o); break; }
		case 3: { const as_val* x1 = P(const as_val*); const as_val* x2 = P(const as_val*); CALL(int, 1, map_set, h.set, as_map_set(o, x1, x2), (as_map*)o, x1, x2); break; }
		case 4: { const as_val* x1 = P(const as_val*); CALL(as_val*, NULL, map_get, h.get, as_map_get(o, x1), (const as_map*)o, x1); break; }
		case 5: { CALL(int, 1, map_clear, h.clear, as_map_clear(o), (as_map*)o); break; }
		case 6: { const as_val* x1 = P(const as_val*); CALL(int, 1, map_remove, h.remove, as_map_remove(o, x1), (as_map*)o, x1); break; }
		case 7: { uint32_t x1 = (uint32_t)vf_uint64(); CALLV(map_set_flags, h.set_flags, as_map_set_flags(o, x1), (as_map*)o, x1); break; }
		case 8: { as_map_foreach_callback x1 = P(as_map_foreach_callback); void* x2 = P(void*); CALL(bool, false, map_foreach, h.foreach, as_map_foreach(o, x1, x2), (const as_map*)o, x1, x2); break; }
		case 9: { CALL(union as_map_iterator_u*, NULL, map_iterator_new, h.iterator_new, as_map_iterator_new(o), (const as_map*)o); break; }
		default: { union as_map_iterator_u* x1 = P(union as_map_iterator_u*); CALL(union as_map_iterator_u*, NULL, map_iterator_init, h.iterator_init, as_map_iterator_init(x1, o), (const as_map*)o, x1); break; }
		}
	}
	unsigned more = (unsigned)vf_draw(3);
	for (unsigned i = 0; i < more; i++) VF_CHECK(as_val_reserve(made) == (as_val*)made, "reserve");
	tr.calls = 0; tr.ret = 1;
	for (unsigned i = 0; i < more; i++) as_map_destroy(made);
	VF_CHECK(tr.calls == 0, "destroyed while references remain");
	as_map_destroy(made);
	uint64_t a[] = { BITS(made) };
	verify("map_destroy", !no_hooks && h.destroy, 0, 0, 0, 1, a);
	vfa_expect(live0, "after destroying a map");
	end();
}

const vf_target vf_targets[] = {
	{ "rec", t_rec, 1000000, 10000000, 0 },
	{ "stream", t_stream, 400000, 4000000, 0 },
	{ "timer", t_timer, 400000, 4000000, 0 },
	{ "aero", t_aero, 600000, 6000000, 0 },
	{ "module", t_module, 600000, 6000000, 0 },
	{ "iterator", t_iterator, 400000, 4000000, 0 },
	{ "serializer", t_serializer, 400000, 4000000, 0 },
	{ "list", t_list, 1500000, 15000000, 0 },
	{ "map", t_map, 800000, 8000000, 0 },
	{ 0 }
};
