/* C11: reference counts used by several threads. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_string.h>
#include <aerospike/as_val.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "at least two threads released references and the run contained a preemption; distinct by choice sequence";

enum { RESERVE, RELEASE, NKINDS };
static const char* name(unsigned k) { return k == RESERVE ? "reserve" : "release"; }
enum { O_INT, O_DOUBLE, O_BOOL, O_STR, O_BYTES, O_GEO, O_PAIR, O_LIST, O_HMAP, O_OMAP, O_REC, O_BLOCK, O_BLOCK_FREE, O_RESULT, N_OBJ };
static const char* const onames[] = { "integer", "double", "boolean", "string", "bytes", "geojson", "pair", "list", "hash map", "ordered map", "record", "counted block", "counted block freed on release", "result" };

static unsigned kind;
static void* obj;            /* what the references are to */
static as_val* inner;        /* an element also held directly, or NULL */
static as_val *ival;         /* its value */
static char text[256], itext[64];
static int held, iheld;      /* references the threads hold */
static unsigned destroyed;
static bool heap;
static as_string s_str; static as_integer s_int; static as_arraylist s_list; static as_bytes s_bytes; static as_pair s_pair; static as_orderedmap s_map; static as_result s_res;
static void* obj_block;

static void on_free(void* p, size_t n)
{
	(void)n;
	if (p == obj_block) {
		destroyed++;
		VF_CHECK(held == 0, "a %s is freed while %d references are held", onames[kind], held);
	}
	if (inner && p == (void*)inner) VF_CHECK(iheld == 0 && held == 0, "an element is freed while the container is held %d times and the element %d times", held, iheld);
}

/* A minimal record type, to take part in the value family. */
static bool rec_destroy(as_rec* r) { destroyed++; VF_CHECK(held == 0, "a record is destroyed while %d references are held", held); cf_free(as_rec_source(r)); return true; }
static uint32_t rec_hash(const as_rec* r) { (void)r; return 7; }
static const as_rec_hooks rec_hooks = { .destroy = rec_destroy, .hashcode = rec_hash };

static void make(void)
{
	inner = NULL; obj_block = NULL; destroyed = 0; held = 1; iheld = 0;
	char* hs = cf_strdup("shared text");
	bool used_hs = false;
	switch (kind) {
	case O_INT: obj = heap ? as_integer_new(42) : as_integer_init(&s_int, 42); break;
	case O_DOUBLE: obj = as_double_new(1.5); heap = true; break;
	case O_BOOL: obj = as_boolean_new(true); heap = true; break;
	case O_STR: obj = heap ? as_string_new(hs, true) : as_string_init(&s_str, hs, true); used_hs = true; break;
	case O_GEO: obj = as_geojson_new(hs, true); used_hs = true; heap = true; break;
	case O_BYTES: {
		uint8_t* b = cf_malloc(5); memcpy(b, "\x01\x02\x03\x04\x05", 5);
		obj = heap ? as_bytes_new_wrap(b, 5, true) : as_bytes_init_wrap(&s_bytes, b, 5, true);
		break;
	}
	case O_PAIR: {
		inner = (as_val*)as_string_new(hs, true); used_hs = true;
		as_val* b = (as_val*)as_integer_new(5);
		obj = heap ? as_pair_new(inner, b) : as_pair_init(&s_pair, inner, b);
		break;
	}
	case O_LIST: {
		as_arraylist* l = heap ? as_arraylist_new(2, 2) : as_arraylist_init(&s_list, 2, 2);
		inner = (as_val*)as_string_new(hs, true); used_hs = true;
		as_arraylist_append_int64(l, 3);
		as_arraylist_append(l, inner);
		as_arraylist_append_str(l, "x");
		obj = l;
		break;
	}
	case O_HMAP: {
		as_hashmap* h = as_hashmap_new(4);
		inner = (as_val*)as_string_new(hs, true); used_hs = true;
		as_hashmap_set(h, (as_val*)as_integer_new(1), inner);
		obj = h; heap = true;
		break;
	}
	case O_OMAP: {
		as_orderedmap* h = heap ? as_orderedmap_new(4) : as_orderedmap_init(&s_map, 4);
		inner = (as_val*)as_string_new(hs, true); used_hs = true;
		as_orderedmap_set(h, (as_val*)as_integer_new(1), inner);
		as_orderedmap_set(h, (as_val*)as_integer_new(2), (as_val*)as_integer_new(2));
		obj = h;
		break;
	}
	case O_REC: obj = as_rec_new(cf_malloc(16), &rec_hooks); heap = true; break;
	case O_BLOCK: case O_BLOCK_FREE: obj = cf_rc_alloc(32); memset(obj, 7, 32); heap = true; break;
	case O_RESULT: {
		inner = (as_val*)as_string_new(hs, true); used_hs = true;
		obj = heap ? as_success_new(inner) : as_success_init(&s_res, inner);
		break;
	}
	}
	if (!used_hs) cf_free(hs);
	/* blocks may sit before what the caller sees */
	if (heap && kind != O_BLOCK && kind != O_BLOCK_FREE) obj_block = obj;
}
static bool is_val(void) { return kind < O_BLOCK; }
static const char* show(as_val* v, char* out, size_t n)
{
	char* t = as_val_tostring(v);
	snprintf(out, n, "%s", t ? t : "(none)");
	if (t) cf_free(t);
	return out;
}

/* One use of the object, compared with what it was before the threads began. */
static void use(bool of_inner)
{
	char b[256];
	if (of_inner) { show(inner, b, sizeof(b)); VF_CHECK(!strcmp(b, itext), "a shared element shows as %s, was %s", b, itext); return; }
	if (kind == O_BLOCK || kind == O_BLOCK_FREE) {
		uint8_t* p = obj;
		vfmt_touch(p, 32, false);
		for (int i = 0; i < 32; i++) if (i < 8 || i >= 16) VF_CHECK(p[i] == 7, "a counted block changed content");
		unsigned t = vfmt_self();
		vfmt_touch(p + 8 + t, 1, true); /* each thread its own byte */
		p[8 + t] = (uint8_t)t;
		return;
	}
	if (kind == O_RESULT) {
		as_val* v = as_result_value(obj);
		show(v, b, sizeof(b));
		VF_CHECK(!strcmp(b, itext), "a shared result shows as %s, was %s", b, itext);
		return;
	}
	if (kind == O_REC) { VF_CHECK(as_val_hashcode(obj) == 7, "a shared record changed"); vfmt_touch(as_rec_source((as_rec*)obj), 16, false); return; }
	if (vf_chance(1, 4) && kind == O_LIST) { VF_CHECK(as_list_size((as_list*)obj) == 3 && as_list_get_int64((as_list*)obj, 0) == 3, "a shared list changed"); return; }
	show(obj, b, sizeof(b));
	VF_CHECK(!strcmp(b, text), "a shared %s shows as %s, was %s", onames[kind], b, text);
}

static void reserve(bool of_inner)
{
	if (of_inner) { VF_CHECK(as_val_reserve(inner) == inner, "reserve returned another value"); iheld++; return; }
	vfmt_op* o = vfmt_call(RESERVE, 0, 0);
	if (kind == O_BLOCK || kind == O_BLOCK_FREE) { uint32_t c = cf_rc_reserve(obj); vfmt_ret(o, c, 0); }
	else if (kind == O_RESULT) { VF_CHECK(as_result_reserve(obj) == obj, "reserve returned another result"); vfmt_ret(o, -1, 0); }
	else { VF_CHECK(as_val_reserve(obj) == obj, "reserve returned another value"); vfmt_ret(o, -1, 0); }
	held++;
}
static void release(bool of_inner)
{
	if (of_inner) { iheld--; as_val_destroy(inner); return; }
	held--;
	vfmt_op* o = vfmt_call(RELEASE, 0, 0);
	if (kind == O_BLOCK) {
		uint32_t c = cf_rc_release(obj);
		vfmt_ret(o, c, 0);
		if (c == 0) {
			/* the last user's clean-up reads and writes what all wrote */
			destroyed++;
			vfmt_touch(obj, 32, true);
			cf_rc_free(obj);
		}
	}
	else if (kind == O_BLOCK_FREE) { uint32_t c = cf_rc_releaseandfree(obj); if (c == 0) destroyed++; vfmt_ret(o, c, 0); }
	else if (kind == O_RESULT) { as_result_destroy(obj); vfmt_ret(o, -1, 0); }
	else { as_val* v = as_val_val_destroy((as_val*)obj); VF_CHECK(v == NULL || v == (as_val*)obj, "release returned another value"); vfmt_ret(o, v ? -2 : 0, 0); }
}
/* r: exact count; -1 not reported; -2 not zero */
static bool apply(void* st, const vfmt_op* o)
{
	int32_t* c = st;
	if (!o->done) return false;
	if (o->op == RESERVE) { if (*c < 1) return false; ++*c; return o->r == -1 || o->r == *c; }
	if (*c < 1) return false;
	--*c;
	return o->r == -1 || (o->r == -2 ? *c > 0 : o->r == *c);
}

static uint8_t prog[VFMT_MAX][8]; /* 0 use, 1 reserve, 2 release, 3..5 the same for the element */
static unsigned plen[VFMT_MAX];
static void* body(void* arg)
{
	unsigned t = (unsigned)(uintptr_t)arg;
	for (unsigned i = 0; i < plen[t]; i++) {
		bool in = prog[t][i] >= 3;
		switch (prog[t][i] % 3) {
		case 0: use(in); break;
		case 1: reserve(in); break;
		case 2: release(in); break;
		}
	}
	return NULL;
}

static void run(void)
{
	kind = (unsigned)vf_draw(N_OBJ);
	heap = !vf_chance(1, 3);
	unsigned nt = 2 + (unsigned)vf_draw(3);
	vfmt_begin();
	uint64_t base = vfa_live();
	make();
	itext[0] = text[0] = 0;
	if (inner) show(inner, itext, sizeof(itext));
	if (is_val() && kind != O_REC) show(obj, text, sizeof(text));
	vfa_on_free = on_free;
	bool elem = inner && vf_bool();
	vf_note("%s%s, %u threads%s", heap ? "" : "static ", onames[kind], nt, elem ? ", element held too" : "");
	/* every thread starts with one reference; main keeps its own for a while or not */
	bool early = vf_bool();
	for (unsigned t = 1; t <= nt; t++) {
		reserve(false);
		unsigned have = 1, ihave = 0, n = 0;
		if (elem && vf_bool()) { reserve(true); ihave = 1; }
		unsigned extra = (unsigned)vf_draw(4);
		for (unsigned k = 0; k < extra; k++) {
			static const unsigned w[] = { 3, 2, 2, 1, 1, 1 };
			unsigned op = vf_pick(6, w);
			if (op == 2 && have < 1) op = 0;
			if (op >= 3 && !elem) op -= 3;
			if (op < 3 && have < 1) { continue; }
			if (op >= 3 && ihave < 1 && !(op == 4 && have > 0)) continue;
			if (n + have + ihave + 2 > 6) break;
			if (op == 1) have++;
			if (op == 2) have--;
			if (op == 4) ihave++;
			if (op == 5) ihave--;
			prog[t][n++] = (uint8_t)op;
		}
		bool el_first = vf_bool();
		if (el_first) while (ihave && n < 8) { prog[t][n++] = 5; ihave--; }
		while (have && n < 8) { prog[t][n++] = 2; have--; }
		while (ihave && n < 8) { prog[t][n++] = 5; ihave--; }
		plen[t] = n;
		if (vf_describing()) { char b[64]; size_t k = 0; static const char* const on[] = { "use ", "reserve ", "release ", "euse ", "ereserve ", "erelease " }; for (unsigned i = 0; i < n && k < 50; i++) k += (size_t)snprintf(b + k, sizeof(b) - k, "%s", on[prog[t][i]]); vf_note("T%u: %s", t, b); }
	}
	if (early) release(false);
	pthread_t th[VFMT_MAX];
	for (unsigned t = 1; t <= nt; t++) VF_CHECK(pthread_create(&th[t], NULL, body, (void*)(uintptr_t)t) == 0, "harness: thread");
	if (!early) { if (vf_bool()) use(false); release(false); }
	VF_CHECK(vfmt_settle() == 0, "a thread stays blocked");
	for (unsigned t = 1; t <= nt; t++) pthread_join(th[t], NULL);
	VF_CHECK(held == 0 && iheld == 0, "harness: references left");
	int32_t c0 = 1;
	VF_CHECK(vfmt_linearizable(&c0, sizeof(c0), apply, NULL), "no sequential order explains the reported counts: %s", vfmt_history(name));
	vfmt_end();
	if (obj_block || kind >= O_REC) VF_CHECK(kind == O_RESULT || kind == O_REC ? destroyed >= (heap ? 1u : 0u) : destroyed == 1, "%s destroyed %u times", onames[kind], destroyed);
	vfa_expect(base, "after the last release");
	vf_label(onames[kind]);
	if (vfmt_preempts()) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "references", run, 12000000, 100000000, 0 },
	{ NULL }
};
#pragma clang attribute pop
