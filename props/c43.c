/* C43: threads that work on objects of their own. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_password.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_random.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_string.h>
#include <aerospike/as_string_builder.h>
#include <aerospike/as_stringmap.h>
#include <aerospike/as_val.h>
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>
#include <citrusleaf/cf_b64.h>
#include <citrusleaf/cf_crypto.h>
#include <citrusleaf/cf_digest.h>
#include <citrusleaf/cf_hash_math.h>
#include <citrusleaf/cf_ll.h>
#include <citrusleaf/cf_queue.h>
#include <stdio.h>
#include <string.h>
#include "vfmt.h"

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

const char* const vf_rule = "at least two threads ran and the schedule switched between them before the first had ended; distinct by choice sequence";

/* ------------------------------------------------------------------ */
/* a job: a fixed sequence of calls, and a digest of all its results     */

typedef struct { uint64_t rng, sum; unsigned self; } job;
static uint64_t rnd(job* j) { j->rng += 0x9E3779B97F4A7C15ull; uint64_t z = j->rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static unsigned upto(job* j, unsigned n) { return (unsigned)(rnd(j) % n); }
static void saw(job* j, uint64_t v) { j->sum = (j->sum ^ v) * 0x100000001B3ull; j->sum ^= j->sum >> 29; }
static void saw_bytes(job* j, const void* p, size_t n) { const uint8_t* b = p; saw(j, n); for (size_t i = 0; i < n; i++) saw(j, b[i]); }
static void saw_text(job* j, const char* s) { if (s) saw_bytes(j, s, strlen(s)); else saw(j, 77); }
static void fill(job* j, uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)rnd(j); }
static char* word(job* j, char* b, unsigned max) { unsigned n = upto(j, max); for (unsigned i = 0; i < n; i++) b[i] = (char)('a' + upto(j, 26)); b[n] = 0; return b; }

static as_val* value(job* j, unsigned depth)
{
	char b[48]; uint8_t raw[40];
	switch (upto(j, depth ? 10 : 7)) {
	case 0: return (as_val*)as_integer_new((int64_t)(rnd(j) >> upto(j, 64)) * (upto(j, 2) ? 1 : -1));
	case 1: return (as_val*)as_double_new((double)(int64_t)rnd(j) / 1024.0);
	case 2: return (as_val*)as_boolean_new(upto(j, 2));
	case 3: return (as_val*)as_string_new_strdup(word(j, b, 40));
	case 4: { unsigned n = upto(j, 20); fill(j, raw, n); as_bytes* v = as_bytes_new(n + 1); as_bytes_append(v, raw, n); return (as_val*)v; }
	case 5: return (as_val*)as_geojson_new_strdup("{\"type\":\"Point\",\"coordinates\":[1.5,2.5]}");
	case 6: return (as_val*)&as_nil;
	case 7: {
		unsigned n = upto(j, 5);
		as_arraylist* l = as_arraylist_new(n + upto(j, 2), 1 + upto(j, 3));
		for (unsigned i = 0; i < n; i++) as_arraylist_append(l, value(j, depth - 1));
		return (as_val*)l;
	}
	default: {
		unsigned n = upto(j, 5);
		as_orderedmap* m = upto(j, 2) ? as_orderedmap_new(4) : (as_orderedmap*)as_hashmap_new(4);
		for (unsigned i = 0; i < n; i++) as_orderedmap_set(m, upto(j, 2) ? (as_val*)as_integer_new(upto(j, 9)) : (as_val*)as_string_new_strdup(word(j, b, 12)), value(j, depth - 1));
		return (as_val*)m;
	}
	}
}
static bool seen_one(as_val* v, void* u) { saw(u, as_val_type(v)); return true; }
static bool seen_pair(const as_val* k, const as_val* v, void* u) { saw(u, as_val_type(k)); saw(u, as_val_hashcode(k)); saw(u, as_val_type(v)); return true; }

static void j_values(job* j)
{
	as_val *a = value(j, 2), *c = upto(j, 2) ? value(j, 2) : as_val_reserve(a);
	char* t = as_val_tostring(a);
	saw_text(j, t);
	cf_free(t);
	saw(j, as_val_hashcode(a));
	saw(j, (uint64_t)as_val_cmp(a, c));
	if (as_val_type(a) == AS_LIST) { as_list_foreach((as_list*)a, seen_one, j); saw(j, as_list_size((as_list*)a)); }
	if (as_val_type(a) == AS_MAP) { as_map_foreach((as_map*)a, seen_pair, j); saw(j, as_map_size((as_map*)a)); }
	as_val_destroy(a);
	as_val_destroy(c);
}
static void j_serial(job* j)
{
	as_serializer s;
	as_msgpack_init(&s);
	as_val *a = value(j, 2), *w = NULL;
	as_buffer b[2];
	as_buffer_init(&b[0]); as_buffer_init(&b[1]);
	saw(j, as_serializer_serialize_getsize(&s, a));
	saw(j, (uint64_t)as_serializer_serialize(&s, a, &b[0]));
	saw_bytes(j, b[0].data, b[0].size);
	saw(j, (uint64_t)as_serializer_deserialize(&s, &b[0], &w));
	if (w) {
		saw(j, (uint64_t)as_val_cmp(a, w));
		saw(j, (uint64_t)as_serializer_serialize(&s, w, &b[1]));
		saw_bytes(j, b[1].data, b[1].size);
		as_unpacker x = { .buffer = b[0].data, .length = b[0].size }, y = { .buffer = b[1].data, .length = b[1].size };
		saw(j, (uint64_t)as_unpack_compare(&x, &y));
		as_unpacker z = { .buffer = b[0].data, .length = b[0].size };
		saw(j, (uint64_t)as_unpack_size(&z));
		as_val_destroy(w);
	}
	as_buffer_destroy(&b[0]); as_buffer_destroy(&b[1]);
	as_serializer_destroy(&s);
	as_val_destroy(a);
}
static void j_deep(job* j)
{
	/* encoded values nested deeper than the call stack is used for */
	uint8_t a[320], b[320];
	unsigned n = 240 + upto(j, 60), m = upto(j, 3) ? n : 240 + upto(j, 60);
	memset(a, 0x91, n); a[n] = (uint8_t)upto(j, 100);
	memset(b, 0x91, m); b[m] = (uint8_t)upto(j, 100);
	saw(j, (uint64_t)as_unpack_buf_compare(a, n + 1, b, m + 1));
	as_unpacker z = { .buffer = a, .length = n + 1 };
	saw(j, (uint64_t)as_unpack_size(&z));
}
static void j_list(job* j)
{
	as_arraylist l;
	as_arraylist_init(&l, upto(j, 4), 1 + upto(j, 4));
	for (unsigned i = 0, n = 3 + upto(j, 8); i < n; i++) {
		unsigned k = upto(j, 6), at = upto(j, 6);
		switch (upto(j, 6)) {
		case 0: saw(j, (uint64_t)as_arraylist_append_int64(&l, k)); break;
		case 1: saw(j, (uint64_t)as_arraylist_insert_int64(&l, at, k)); break;
		case 2: saw(j, (uint64_t)as_arraylist_remove(&l, at)); break;
		case 3: saw(j, (uint64_t)as_arraylist_set_str(&l, at, "text")); break;
		case 4: saw(j, (uint64_t)as_arraylist_prepend_int64(&l, k)); break;
		default: saw(j, (uint64_t)as_arraylist_get_int64(&l, at)); break;
		}
	}
	as_list* part = as_list_take((as_list*)&l, 2);
	if (part) { char* t = as_val_tostring((as_val*)part); saw_text(j, t); cf_free(t); as_list_destroy(part); }
	as_arraylist_iterator it;
	as_arraylist_iterator_init(&it, &l);
	while (as_arraylist_iterator_has_next(&it)) { const as_val* v = as_arraylist_iterator_next(&it); saw(j, as_val_hashcode(v)); }
	as_arraylist_iterator_destroy(&it);
	as_arraylist_destroy(&l);
}
static void j_map(job* j)
{
	as_orderedmap m;
	as_orderedmap_init(&m, 2);
	char b[16];
	for (unsigned i = 0, n = 3 + upto(j, 8); i < n; i++) {
		as_integer k; as_integer_init(&k, upto(j, 6));
		switch (upto(j, 4)) {
		case 0: case 1: saw(j, (uint64_t)as_orderedmap_set(&m, (as_val*)as_integer_new(upto(j, 6)), (as_val*)as_string_new_strdup(word(j, b, 12)))); break;
		case 2: saw(j, (uint64_t)as_orderedmap_remove(&m, (as_val*)&k)); break;
		default: { as_val* v = as_orderedmap_get(&m, (as_val*)&k); saw_text(j, v ? as_string_get((as_string*)v) : NULL); break; }
		}
		as_stringmap_set_int64((as_map*)&m, word(j, b, 4), i);
	}
	as_orderedmap_iterator it;
	as_orderedmap_iterator_init(&it, &m);
	while (as_orderedmap_iterator_has_next(&it)) { const as_pair* p = (const as_pair*)as_orderedmap_iterator_next(&it); saw(j, as_val_hashcode(as_pair_1(p))); }
	as_orderedmap_iterator_destroy(&it);
	as_orderedmap_destroy(&m);
}
static void j_text(job* j)
{
	as_string_builder sb;
	as_string_builder_init(&sb, 1 + upto(j, 12), true);
	char b[48]; uint8_t raw[16];
	for (unsigned i = 0, n = 2 + upto(j, 6); i < n; i++) {
		switch (upto(j, 7)) {
		case 0: saw(j, as_string_builder_append(&sb, word(j, b, 30))); break;
		case 1: saw(j, as_string_builder_append_char(&sb, 'x')); break;
		case 2: saw(j, as_string_builder_append_int(&sb, (int)rnd(j))); break;
		case 3: saw(j, as_string_builder_append_uint(&sb, (uint32_t)rnd(j))); break;
		case 4: saw(j, as_string_builder_append_int64(&sb, (int64_t)rnd(j))); break;
		case 5: saw(j, as_string_builder_append_uint64(&sb, rnd(j))); break;
		default: fill(j, raw, 8); saw(j, as_string_builder_append_bytes(&sb, raw, 8)); break;
		}
	}
	saw_text(j, sb.data);
	as_string_builder_destroy(&sb);
	as_string s;
	char path[40];
	snprintf(path, sizeof(path), "%s/%s", upto(j, 2) ? "/d" : "", word(j, b, 8));
	const char* base = as_basename(&s, path);
	saw_text(j, base);
	as_string_destroy(&s);
	char out[8];
	saw(j, as_strncpy(out, word(j, b, 12), sizeof(out)));
	saw_text(j, out);
}
static void j_bytes(job* j)
{
	uint8_t raw[24]; char hex[80];
	fill(j, raw, sizeof(raw));
	as_bytes y;
	as_bytes_init(&y, 4);
	for (unsigned i = 0, n = 2 + upto(j, 5); i < n; i++) {
		unsigned k = 1 + upto(j, 20);
		fill(j, raw, k);
		saw(j, as_bytes_append(&y, raw, k));
		saw(j, as_bytes_ensure(&y, upto(j, 64), true));
	}
	char* t = as_val_tostring((as_val*)&y);
	saw_text(j, t);
	cf_free(t);
	saw(j, as_bytes_to_string(raw, 1 + upto(j, 24), hex, 8 + upto(j, 72)));
	saw_text(j, hex);
	saw(j, as_bytes_set_var_int(&y, 0, upto(j, 100000)));
	uint32_t v = 0;
	saw(j, as_bytes_get_var_int(&y, 0, &v));
	saw(j, v);
	as_bytes_destroy(&y);
}
static void j_digest(job* j)
{
	uint8_t in[150], out[160]; char text[220];
	unsigned n = upto(j, sizeof(in));
	fill(j, in, n);
	cf_SHA1(in, n, out); saw_bytes(j, out, 20);
	cf_RIPEMD160(in, n, out); saw_bytes(j, out, 20);
	cf_RIPEMD160_CTX c;
	cf_RIPEMD160_Init(&c);
	unsigned cut = upto(j, n + 1);
	cf_RIPEMD160_Update(&c, in, cut); cf_RIPEMD160_Update(&c, in + cut, n - cut);
	cf_RIPEMD160_Final(out, &c); saw_bytes(j, out, 20);
	cf_digest d, e;
	cf_digest_compute(in, n, &d);
	cf_digest_compute2(in, cut, in + cut, n - cut, &e);
	saw(j, (uint64_t)cf_digest_compare(&d, &e));
	cf_digest_string(&d, text); saw_text(j, text);
	saw(j, cf_wyhash64(in, n)); saw(j, cf_hash_fnv32(in, n)); saw(j, cf_hash_jen64(in, n));
	murmurHash3_x64_128(in, n, out); saw_bytes(j, out, 16);
}
static void j_base64(job* j)
{
	uint8_t in[100], out[112]; char text[160]; uint32_t got = 0;
	unsigned n = 1 + upto(j, sizeof(in));
	fill(j, in, n);
	cf_b64_encode(in, n, text);
	uint32_t len = cf_b64_encoded_len(n);
	saw_bytes(j, text, len);
	cf_b64_decode(text, len, out, &got); saw_bytes(j, out, got);
	if (upto(j, 2)) text[upto(j, len)] = '*';
	saw(j, cf_b64_validate_and_decode(text, len, out, &got));
}
static int some(void* p, void* u) { int v; memcpy(&v, p, sizeof(v)); saw(u, (uint64_t)v); return v == 3 ? -1 : 0; }
typedef struct { cf_ll_element e; int v; } link;
static int each(cf_ll_element* e, void* u) { int v = ((link*)e)->v; saw(u, (uint64_t)v); return v == 2 ? CF_LL_REDUCE_DELETE : 0; }
static void unlink_one(cf_ll_element* e) { cf_free(e); }
static void j_queues(job* j)
{
	as_queue a;
	as_queue_init(&a, sizeof(int), 1 + upto(j, 3));
	cf_queue* c = cf_queue_create(sizeof(int), false);
	as_vector v;
	as_vector_init(&v, sizeof(int), 2);
	cf_ll l;
	cf_ll_init(&l, unlink_one, false);
	for (unsigned i = 0, n = 4 + upto(j, 10); i < n; i++) {
		int x = (int)upto(j, 6), y = -1;
		switch (upto(j, 10)) {
		case 0: saw(j, as_queue_push(&a, &x)); break;
		case 1: saw(j, as_queue_push_head(&a, &x)); break;
		case 2: saw(j, as_queue_pop(&a, &y)); saw(j, (uint64_t)y); break;
		case 3: saw(j, (uint64_t)cf_queue_push(c, &x)); break;
		case 4: saw(j, (uint64_t)cf_queue_push_head(c, &x)); break;
		case 5: saw(j, (uint64_t)cf_queue_pop(c, &y, CF_QUEUE_NOWAIT)); saw(j, (uint64_t)y); break;
		case 6: saw(j, (uint64_t)cf_queue_reduce(c, some, j)); break;
		case 7: as_vector_append(&v, &x); break;
		case 8: { link* e = cf_malloc(sizeof(*e)); memset(e, 0, sizeof(*e)); e->v = x; if (x & 1) cf_ll_append(&l, &e->e); else cf_ll_prepend(&l, &e->e); break; }
		default: cf_ll_reduce(&l, true, each, j); saw(j, cf_ll_size(&l)); break;
		}
	}
	for (unsigned i = 0; i < v.size; i++) saw(j, *(uint32_t*)as_vector_get(&v, i));
	as_vector_destroy(&v);
	cf_queue_destroy(c);
	as_queue_destroy(&a);
	while (cf_ll_get_head(&l)) cf_ll_delete(&l, cf_ll_get_head(&l));
}
/* the source gives each thread the same bytes, so that its generator starts alike each time */
int vf_RAND_bytes(unsigned char* b, int n);
int vf_RAND_bytes(unsigned char* b, int n) { memset(b, 0x5A, (size_t)n); return 1; }
static void j_random(job* j)
{
	uint8_t raw[20]; char text[20];
	as_random r;
	as_random_init(&r);
	for (unsigned i = 0, n = 1 + upto(j, 4); i < n; i++) {
		switch (upto(j, 6)) {
		case 0: saw(j, as_random_next_uint64(&r)); break;
		case 1: as_random_next_bytes(&r, raw, 13); saw_bytes(j, raw, 13); break;
		case 2: as_random_next_str(&r, text, 12); saw_text(j, text); break;
		case 3: saw(j, as_random_get_uint64()); break;
		case 4: as_random_get_bytes(raw, 9); saw_bytes(j, raw, 9); break;
		default: as_random_get_str(text, 12); saw_text(j, text); break;
		}
	}
}
static void j_password(job* j)
{
	char pw[24], salt[64] = "$2a$04$", hash[128];
	for (unsigned i = 7; i < 28; i++) salt[i] = (char)('a' + upto(j, 26));
	strcpy(salt + 28, "u");
	memset(hash, 0, sizeof(hash));
	saw(j, as_password_gen_hash(word(j, pw, 20), salt, hash));
	saw_text(j, hash);
}

static const struct { const char* name; void (*run)(job*); } jobs[] = {
	{ "values", j_values }, { "serialize", j_serial }, { "list", j_list }, { "map", j_map }, { "text", j_text }, { "bytes", j_bytes },
	{ "digest", j_digest }, { "base64", j_base64 }, { "queues", j_queues }, { "random", j_random }, { "deep", j_deep }, { "password", j_password },
};
enum { NJOBS = 11, PASSWORD = 11 };

/* ------------------------------------------------------------------ */

typedef struct { unsigned n; struct { unsigned what; uint64_t seed, sum; } j[4]; bool started, ended; } program;
static program progs[2][VFMT_MAX]; /* alone, together */
static bool overlap;

static void* thread(void* arg)
{
	program* g = arg;
	g->started = true;
	for (unsigned i = 0; i < g->n; i++) {
		job j = { .rng = g->j[i].seed };
		jobs[g->j[i].what].run(&j);
		g->j[i].sum = j.sum;
	}
	for (program* o = progs[1]; o < progs[1] + VFMT_MAX; o++) if (o != g && o->started && !o->ended) overlap = true;
	g->ended = true;
	return NULL;
}

static void together(bool password)
{
	static const unsigned gaps[] = { 160, 2000, 20000, 400000 };
	vfmt_gap = password ? gaps[3] : gaps[vf_draw(3)];
	vfmt_begin();
	vfmt_limit = 60000000; vfmt_slice = 5000000;
	unsigned nt = 2 + (password ? 0 : (unsigned)vf_draw(2));
	/* often the same kinds of job in all threads, so that they meet */
	unsigned few[2] = { (unsigned)vf_draw(NJOBS), (unsigned)vf_draw(NJOBS) };
	memset(progs, 0, sizeof(progs));
	overlap = false;
	for (unsigned t = 0; t < nt; t++) {
		program* g = &progs[0][t];
		g->n = password ? 1 : 1 + (unsigned)vf_draw(3);
		for (unsigned i = 0; i < g->n; i++) {
			g->j[i].what = password ? PASSWORD : vf_chance(1, 3) ? (unsigned)vf_draw(NJOBS) : few[vf_draw(2)];
			g->j[i].seed = vf_draw(100000);
			vf_note("T%u: %s %lu", t, jobs[g->j[i].what].name, (unsigned long)g->j[i].seed);
			vf_label(jobs[g->j[i].what].name);
		}
		progs[1][t] = *g;
	}
	pthread_t th[VFMT_MAX];
	/* each alone */
	vfmt_calm = true;
	for (unsigned t = 0; t < nt; t++) {
		VF_CHECK(pthread_create(&th[t], NULL, thread, &progs[0][t]) == 0, "harness: thread");
		pthread_join(th[t], NULL);
	}
	for (unsigned t = 0; t < nt; t++) progs[0][t].ended = true;
	vfmt_calm = false;
	/* all at once */
	vf_note("together");
	for (unsigned t = 0; t < nt; t++) VF_CHECK(pthread_create(&th[t], NULL, thread, &progs[1][t]) == 0, "harness: thread");
	VF_CHECK(vfmt_settle() == 0, "a thread stays blocked");
	for (unsigned t = 0; t < nt; t++) pthread_join(th[t], NULL);
	for (unsigned t = 0; t < nt; t++) for (unsigned i = 0; i < progs[1][t].n; i++)
		VF_CHECK(progs[0][t].j[i].sum == progs[1][t].j[i].sum, "thread %u gets other results from its %s job than alone", t, jobs[progs[1][t].j[i].what].name);
	vfmt_end();
	if (overlap) vf_nontrivial();
}
static void separate(void) { together(false); }
static void passwords(void) { together(true); }

const vf_target vf_targets[] = {
	{ "separate", separate, 1500000, 15000000, 0 },
	{ "passwords", passwords, 3000, 20000, 0 },
	{ 0 }
};
#pragma clang attribute pop
