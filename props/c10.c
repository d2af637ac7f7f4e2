/* C10: every value is released exactly once, when its last reference goes. */
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include <citrusleaf/alloc.h>
#include <stdio.h>
#include <string.h>
#include "model.h"

const char* const vf_rule = "some value was shared (two references at once) and some container held an element, or a container held 1000 values shared with the program; distinct by choice sequence";

typedef enum { SCALAR, LIST, MAP, PAIR, REC, RESULT } kind;
typedef struct node_s node;
struct node_s {
	kind k;
	unsigned id;
	as_val* v;
	as_result* r;
	mval* m;
	bool heap, constant, alive, freed;
	unsigned refs, own;
	void* buf; bool buf_freed;
	unsigned hook;
	node** e; uint32_t n, a; /* children; map: key,value alternating (n = pairs) */
	uint32_t cap, block;
};

#define MAXN 40
static node* all[MAXN];
static unsigned nn;
static bool shared, held;

static void on_free(void* p, size_t sz)
{
	(void)sz;
	for (unsigned i = 0; i < nn; i++) {
		node* x = all[i];
		if (x->heap && !x->freed && (x->v == p || (x->r && (void*)x->r == p))) { x->freed = true; return; }
		if (x->buf == p && !x->buf_freed) { x->buf_freed = true; return; }
	}
}

static node* add_node(kind k)
{
	node* x = vf_tmp(sizeof(node));
	memset(x, 0, sizeof(*x));
	x->k = k; x->id = nn; x->alive = true; x->refs = x->own = 1;
	all[nn++] = x;
	return x;
}

static void drop(node* x)
{
	if (x->constant) return;
	if (--x->refs) return;
	x->alive = false;
	uint32_t c = x->n * (x->k == MAP ? 2 : 1);
	for (uint32_t i = 0; i < c; i++) drop(x->e[i]);
	x->n = 0;
}

static void room(node* x, uint32_t c)
{
	if (c <= x->a) return;
	node** e = vf_tmp(sizeof(node*) * c * 2);
	memcpy(e, x->e, sizeof(node*) * x->a);
	x->e = e; x->a = c * 2;
}

static bool reaches(node* from, node* to)
{
	if (from == to) return true;
	uint32_t c = from->n * (from->k == MAP ? 2 : 1);
	for (uint32_t i = 0; i < c; i++) if (reaches(from->e[i], to)) return true;
	return false;
}

/* a live node of the kinds in the mask, owned by the program if asked */
static node* some(unsigned mask, bool owned)
{
	if (!nn) return NULL;
	unsigned s = (unsigned)vf_draw(nn);
	for (unsigned i = 0; i < nn; i++) {
		node* x = all[(s + i) % nn];
		if (x->alive && (mask >> x->k & 1) && (!owned || x->own)) return x;
	}
	return NULL;
}
#define ANYVAL ((1u << SCALAR) | (1u << LIST) | (1u << MAP) | (1u << PAIR) | (1u << REC))

static bool rec_destroy(as_rec* r) { node* x = as_rec_source(r); x->hook++; return true; }
static const as_rec_hooks hooks = { .destroy = rec_destroy };

static as_val* stack_mem(size_t n) { void* p = vf_tmp(n); memset(p, 0xa5, n); return p; }

static void new_scalar(void)
{
	node* x = add_node(SCALAR);
	mcfg c = { .small = true };
	switch (vf_draw(11)) {
	case 0: case 1: {
		x->m = m_gen_scalar(&c);
		x->heap = x->m->t != M_NIL;
		x->v = m_build(x->m);
		if (!x->heap) x->constant = true;
		break;
	}
	case 2: x->m = m_int(vf_irange(-3, 3)); x->heap = true; x->v = (as_val*)as_integer_new(x->m->u.i); break;
	case 3: x->m = m_int(vf_irange(-3, 3)); x->v = (as_val*)as_integer_init((as_integer*)stack_mem(sizeof(as_integer)), x->m->u.i); break;
	case 4: {
		char t[4] = { 'a' + (char)vf_draw(4), 0 };
		x->m = m_str(t, 1);
		bool own = vf_bool();
		char* s = own ? cf_strdup(t) : memcpy(vf_tmp(2), t, 2);
		if (own) x->buf = s;
		x->heap = vf_bool();
		if (x->heap) x->v = (as_val*)(vf_bool() ? as_string_new(s, own) : as_string_new_wlen(s, 1, own));
		else x->v = (as_val*)as_string_init((as_string*)stack_mem(sizeof(as_string)), s, own);
		break;
	}
	case 5: {
		uint32_t n = (uint32_t)vf_range(1, 4);
		uint8_t t[4]; vf_fill(t, 4);
		x->m = m_bytes(t, n, 4);
		bool own = vf_bool();
		uint8_t* s = own ? cf_malloc(n) : vf_tmp(n);
		memcpy(s, t, n);
		if (own) x->buf = s;
		x->heap = vf_bool();
		if (x->heap) x->v = (as_val*)as_bytes_new_wrap(s, n, own);
		else x->v = (as_val*)as_bytes_init_wrap((as_bytes*)stack_mem(sizeof(as_bytes)), s, n, own);
		if (vf_bool()) {
			/* growing moves the content to memory the value owns */
			VF_CHECK(as_bytes_ensure((as_bytes*)x->v, 64, true), "ensure failed");
			VF_CHECK(!own || x->buf_freed || vfa_is_live(x->buf), "harness");
			x->buf = as_bytes_get((as_bytes*)x->v); x->buf_freed = false;
		}
		break;
	}
	case 6: {
		bool own = vf_bool();
		char* s = own ? cf_strdup("{}") : "{}";
		x->m = m_str("{}", 2); x->m->t = M_GEO;
		if (own) x->buf = s;
		x->heap = vf_bool();
		if (x->heap) x->v = (as_val*)as_geojson_new(s, own);
		else x->v = (as_val*)as_geojson_init((as_geojson*)stack_mem(sizeof(as_geojson)), s, own);
		break;
	}
	case 7: x->m = m_int(0); x->m->t = M_BOOL; x->m->u.b = vf_bool(); x->heap = true; x->v = (as_val*)as_boolean_new(x->m->u.b); break;
	case 8: x->m = m_int(0); x->m->t = M_BOOL; x->m->u.b = vf_bool(); x->constant = true; x->v = (as_val*)(x->m->u.b ? &as_true : &as_false); break;
	case 9: x->m = m_int(0); x->m->t = M_DBL; x->m->u.d = 2.5; x->heap = vf_bool(); x->v = x->heap ? (as_val*)as_double_new(2.5) : (as_val*)as_double_init((as_double*)stack_mem(sizeof(as_double)), 2.5); break;
	default: x->m = m_int(0); x->m->t = M_NIL; x->constant = true; x->v = (as_val*)&as_nil; break;
	}
	vf_note("v%u = %s%s", x->id, m_show(x->m), x->constant ? " (constant)" : x->heap ? "" : " (stack)");
}

static void new_container(void)
{
	switch (vf_draw(4)) {
	case 0: case 1: {
		node* x = add_node(LIST);
		x->cap = (uint32_t)vf_draw(5); x->block = (uint32_t)vf_draw(4);
		x->heap = vf_bool();
		x->v = (as_val*)(x->heap ? as_arraylist_new(x->cap, x->block) : as_arraylist_init((as_arraylist*)stack_mem(sizeof(as_arraylist)), x->cap, x->block));
		vf_note("v%u = %slist capacity %u block %u", x->id, x->heap ? "" : "stack ", x->cap, x->block);
		break;
	}
	case 2: {
		node* x = add_node(MAP);
		x->heap = vf_bool();
		x->v = (as_val*)(x->heap ? as_orderedmap_new(4) : as_orderedmap_init((as_orderedmap*)stack_mem(sizeof(as_orderedmap)), 0));
		vf_note("v%u = %smap", x->id, x->heap ? "" : "stack ");
		break;
	}
	default: {
		node* x = add_node(REC);
		x->heap = vf_bool();
		x->v = (as_val*)(x->heap ? as_rec_new(x, &hooks) : as_rec_init((as_rec*)stack_mem(sizeof(as_rec)), x, &hooks));
		vf_note("v%u = %srecord", x->id, x->heap ? "" : "stack ");
		break;
	}
	}
}

static void take_ref(node* x) { if (!x->constant) x->own--; } /* the reference moves from the program to a container */

static bool list_room(node* l, uint32_t need)
{
	if (need <= l->cap) return true;
	if (!l->block) return false;
	l->cap = UINT32_MAX;
	return true;
}

static void list_store(void)
{
	node* l = some(1u << LIST, false);
	node* x = some(ANYVAL, true);
	if (!l || !x || reaches(x, l)) return;
	as_arraylist* al = (as_arraylist*)l->v;
	unsigned op = (unsigned)vf_draw(4);
	uint32_t ix = op == 0 ? l->n : op == 1 ? 0 : (uint32_t)vf_draw(l->n + 1);
	static const char* const on[] = { "append", "prepend", "insert", "set" };
	vf_note("v%u.%s(%u, v%u)", l->id, on[op], ix, x->id);
	uint32_t need = op == 3 ? ix + 1 : l->n + 1;
	bool ok = (op == 3 && ix < l->n) || list_room(l, need);
	if (op == 3 && ix < l->n) {
		/* the model releases the old element in the same step */
		node* old = l->e[ix];
		VF_CHECK(as_arraylist_set(al, ix, x->v) == 0, "set failed");
		take_ref(x);
		l->e[ix] = x;
		drop(old);
		held = true;
		return;
	}
	int rc;
	switch (op) {
	case 0: rc = as_list_append((as_list*)al, x->v); break;
	case 1: rc = as_arraylist_prepend(al, x->v); break;
	case 2: rc = as_arraylist_insert(al, ix, x->v); break;
	default: rc = as_list_set((as_list*)al, ix, x->v); break;
	}
	VF_CHECK((rc == 0) == ok, "%s returned %d", on[op], rc);
	if (!ok) return;
	take_ref(x);
	room(l, l->n + 1);
	memmove(l->e + ix + 1, l->e + ix, sizeof(node*) * (l->n - ix));
	l->e[ix] = x;
	l->n++;
	held = true;
}

/* helpers that create the stored value themselves */
static void list_typed(void)
{
	node* l = some(1u << LIST, false);
	if (!l || nn >= MAXN) return;
	as_arraylist* al = (as_arraylist*)l->v;
	unsigned op = (unsigned)vf_draw(3), ty = (unsigned)vf_draw(3);
	uint32_t ix = op == 0 ? l->n : op == 1 ? 0 : (uint32_t)vf_draw(l->n + 1);
	vf_note("v%u.typed %u/%u (%u)", l->id, op, ty, ix);
	bool ok = list_room(l, l->n + 1);
	uint64_t live = vfa_live();
	int rc;
	if (ty == 0) rc = op == 0 ? as_arraylist_append_int64(al, 7) : op == 1 ? as_arraylist_prepend_int64(al, 7) : as_arraylist_insert_int64(al, ix, 7);
	else if (ty == 1) rc = op == 0 ? as_arraylist_append_double(al, 7) : op == 1 ? as_arraylist_prepend_double(al, 7) : as_arraylist_insert_double(al, ix, 7);
	else rc = op == 0 ? as_list_append_str((as_list*)al, "seven") : op == 1 ? as_arraylist_prepend_str(al, "seven") : as_arraylist_insert_str(al, ix, "seven");
	VF_CHECK((rc == 0) == ok, "typed store returned %d", rc);
	if (!ok) { vfa_expect(live, "after a refused typed store"); return; }
	node* x = add_node(SCALAR);
	x->heap = true; x->own = 0;
	x->m = ty == 2 ? m_str("seven", 5) : m_int(7);
	if (ty == 1) { x->m->t = M_DBL; x->m->u.d = 7; }
	x->v = as_arraylist_get(al, ix);
	room(l, l->n + 1);
	memmove(l->e + ix + 1, l->e + ix, sizeof(node*) * (l->n - ix));
	l->e[ix] = x;
	l->n++;
	held = true;
}

static void list_shrink(void)
{
	node* l = some(1u << LIST, false);
	if (!l) return;
	uint32_t ix = (uint32_t)vf_draw(l->n + 1);
	bool trim = vf_bool();
	vf_note("v%u.%s(%u)", l->id, trim ? "trim" : "remove", ix);
	int rc = trim ? as_arraylist_trim((as_arraylist*)l->v, ix) : as_list_remove((as_list*)l->v, ix);
	VF_CHECK((rc == 0) == (ix < l->n), "remove or trim returned %d", rc);
	if (rc) return;
	uint32_t n = l->n;
	node* gone[64]; uint32_t g = 0;
	if (trim) { for (uint32_t i = ix; i < n && g < 64; i++) gone[g++] = l->e[i]; l->n = ix; }
	else { gone[g++] = l->e[ix]; memmove(l->e + ix, l->e + ix + 1, sizeof(node*) * (n - ix - 1)); l->n--; }
	for (uint32_t i = 0; i < g; i++) drop(gone[i]);
}

static void list_concat(void)
{
	node* a = some(1u << LIST, false);
	node* b = some(1u << LIST, false);
	if (!a || !b || a->n + b->n > 60) return;
	for (uint32_t i = 0; i < b->n; i++) if (reaches(b->e[i], a)) return;
	/* an uncounted stack element may be shared as well: the count is in the value */
	vf_note("v%u.concat(v%u)", a->id, b->id);
	bool ok = list_room(a, a->n + b->n);
	int rc = as_arraylist_concat((as_arraylist*)a->v, (as_arraylist*)b->v);
	VF_CHECK((rc == 0) == ok, "concat returned %d", rc);
	if (rc) return;
	uint32_t n = b->n;
	room(a, a->n + n);
	for (uint32_t i = 0; i < n; i++) { node* x = b->e[i]; if (!x->constant) x->refs++; a->e[a->n + i] = x; shared = true; }
	a->n += n;
}

static void list_derive(void)
{
	node* l = some(1u << LIST, false);
	if (!l || nn >= MAXN) return;
	unsigned op = (unsigned)vf_draw(3);
	uint32_t k = (uint32_t)vf_draw(l->n + 2), c = k < l->n ? k : l->n, from, n;
	as_arraylist* r;
	as_arraylist* al = (as_arraylist*)l->v;
	switch (op) {
	case 0: r = as_arraylist_take(al, k); from = 0; n = c; break;
	case 1: r = as_arraylist_drop(al, k); from = c; n = l->n - c; break;
	default: r = as_arraylist_tail(al); from = 1; n = l->n ? l->n - 1 : 0; if (!l->n) { VF_CHECK(!r, "tail of empty"); return; } break;
	}
	VF_CHECK(r != NULL, "no derived list");
	node* x = add_node(LIST);
	x->heap = true; x->v = (as_val*)r; x->cap = n; x->block = l->block;
	room(x, n + 1);
	for (uint32_t i = 0; i < n; i++) { x->e[i] = l->e[from + i]; if (!x->e[i]->constant) x->e[i]->refs++; shared = true; }
	x->n = n;
	vf_note("v%u = v%u.%s(%u)", x->id, l->id, op == 0 ? "take" : op == 1 ? "drop" : "tail", k);
}

static bool key_ok(node* x) { return x->k == SCALAR && (x->m->t == M_INT || x->m->t == M_STR || (x->m->t == M_BYTES && x->m->u.s.tag == 4)); }

static void map_set(void)
{
	node* p = some(1u << MAP, false);
	node* k = some(ANYVAL, true);
	node* v = some(ANYVAL, true);
	if (!p || !k || !v || reaches(k, p) || reaches(v, p)) return;
	if (k == v && !k->constant && k->own < 2) return;
	vf_note("v%u.set(v%u, v%u)", p->id, k->id, v->id);
	int rc = vf_bool() ? as_map_set((as_map*)p->v, k->v, v->v) : as_orderedmap_set((as_orderedmap*)p->v, k->v, v->v);
	VF_CHECK((rc == 0) == key_ok(k), "map set returned %d", rc);
	if (rc) return;
	take_ref(k); take_ref(v);
	held = true;
	for (uint32_t i = 0; i < p->n; i++) {
		if (m_key_cmp(p->e[2 * i]->m, k->m) == 0) {
			node* ok = p->e[2 * i]; node* ov = p->e[2 * i + 1];
			p->e[2 * i] = k; p->e[2 * i + 1] = v;
			drop(ok); drop(ov);
			return;
		}
	}
	room(p, 2 * p->n + 2);
	p->e[2 * p->n] = k; p->e[2 * p->n + 1] = v;
	p->n++;
}

static void map_remove(void)
{
	node* p = some(1u << MAP, false);
	if (!p) return;
	if (vf_chance(1, 4)) {
		vf_note("v%u.clear", p->id);
		VF_CHECK(as_map_clear((as_map*)p->v) == 0, "clear failed");
		uint32_t n = p->n;
		p->n = 0;
		for (uint32_t i = 0; i < 2 * n; i++) drop(p->e[i]);
		return;
	}
	node* k = some(1u << SCALAR, true);
	if (!k || !key_ok(k)) return;
	vf_note("v%u.remove(v%u)", p->id, k->id);
	VF_CHECK(as_map_remove((as_map*)p->v, k->v) == 0, "remove failed");
	for (uint32_t i = 0; i < p->n; i++) {
		if (m_key_cmp(p->e[2 * i]->m, k->m) == 0) {
			node* ok = p->e[2 * i]; node* ov = p->e[2 * i + 1];
			memmove(p->e + 2 * i, p->e + 2 * i + 2, sizeof(node*) * 2 * (p->n - i - 1));
			p->n--;
			drop(ok); drop(ov);
			return;
		}
	}
}

static void new_pair(void)
{
	node* a = some(ANYVAL, true);
	node* b = some(ANYVAL, true);
	if (!a || !b || (a == b && !a->constant && a->own < 2) || nn >= MAXN) return;
	node* x = add_node(PAIR);
	x->heap = vf_bool();
	vf_note("v%u = %spair(v%u, v%u)", x->id, x->heap ? "" : "stack ", a->id, b->id);
	x->v = (as_val*)(x->heap ? as_pair_new(a->v, b->v) : as_pair_init((as_pair*)stack_mem(sizeof(as_pair)), a->v, b->v));
	take_ref(a); take_ref(b);
	room(x, 2);
	x->e[0] = a; x->e[1] = b; x->n = 2;
	held = true;
}

static void results(void)
{
	node* v = some(ANYVAL, true);
	node* r = some(1u << RESULT, true);
	switch (vf_draw(4)) {
	case 0: case 1: {
		if (!v || nn >= MAXN) return;
		node* x = add_node(RESULT);
		bool good = vf_bool();
		x->heap = vf_bool();
		vf_note("r%u = %sresult(v%u)", x->id, x->heap ? "" : "stack ", v->id);
		if (x->heap) x->r = good ? as_success_new(v->v) : as_failure_new(v->v);
		else x->r = good ? as_success_init((as_result*)stack_mem(sizeof(as_result)), v->v) : as_failure_init((as_result*)stack_mem(sizeof(as_result)), v->v);
		take_ref(v);
		room(x, 1);
		x->e[0] = v; x->n = 1;
		return;
	}
	case 2: {
		if (!v || !r) return;
		vf_note("r%u set to v%u", r->id, v->id);
		if (vf_bool()) as_result_setsuccess(r->r, v->v); else as_result_setfailure(r->r, v->v);
		take_ref(v);
		node* old = r->n ? r->e[0] : NULL;
		room(r, 1);
		r->e[0] = v; r->n = 1;
		if (old) drop(old);
		return;
	}
	default:
		if (!r) return;
		if (vf_bool()) { vf_note("reserve r%u", r->id); as_result_reserve(r->r); r->refs++; r->own++; return; }
		vf_note("destroy r%u", r->id);
		r->own--;
		{ as_result* rr = r->r; as_result_destroy(rr); }
		drop(r);
		return;
	}
}

static void reserve(void)
{
	node* x = some(ANYVAL, false); /* reserving a value seen in a container is allowed too */
	if (!x) return;
	vf_note("reserve v%u", x->id);
	VF_CHECK(as_val_reserve(x->v) == x->v, "reserve returned something else");
	if (!x->constant) { x->own++; x->refs++; shared = true; }
}

/* The destroy call of the value's own type drops one reference too. */
static bool destroy_typed(as_val* v)
{
	switch (as_val_type(v)) {
	case AS_BOOLEAN: as_boolean_destroy((as_boolean*)v); return true;
	case AS_INTEGER: as_integer_destroy((as_integer*)v); return true;
	case AS_DOUBLE: as_double_destroy((as_double*)v); return true;
	case AS_STRING: as_string_destroy((as_string*)v); return true;
	case AS_GEOJSON: as_geojson_destroy((as_geojson*)v); return true;
	case AS_BYTES: as_bytes_destroy((as_bytes*)v); return true;
	case AS_PAIR: as_pair_destroy((as_pair*)v); return true;
	case AS_REC: as_rec_destroy((as_rec*)v); return true;
	case AS_LIST: if (vf_bool()) as_list_destroy((as_list*)v); else as_arraylist_destroy((as_arraylist*)v); return true;
	case AS_MAP: if (vf_bool()) as_map_destroy((as_map*)v); else as_orderedmap_destroy((as_orderedmap*)v); return true;
	default: return false;
	}
}

static void destroy(node* x)
{
	vf_note("destroy v%u", x->id);
	if (!x->constant && vf_chance(1, 4) && destroy_typed(x->v)) {
		x->own--;
		drop(x);
		return;
	}
	as_val* r = as_val_destroy(x->v);
	if (x->constant) { VF_CHECK(r == x->v, "destroying a constant returned something else"); return; }
	x->own--;
	bool last = x->refs == 1;
	VF_CHECK((r == NULL) == last, "destroying %s reference returned %s", last ? "the last" : "one of several", r ? "the value" : "NULL");
	drop(x);
}

static bool count_cb(as_val* v, void* ud) { (void)v; (*(uint32_t*)ud)++; return true; }

static void iterate(void)
{
	node* x = some((1u << LIST) | (1u << MAP), false);
	if (!x) return;
	vf_note("iterate v%u", x->id);
	uint32_t c = 0;
	uint64_t live = vfa_live();
	as_iterator* it;
	if (x->k == LIST) { as_list_foreach((as_list*)x->v, count_cb, &c); c = 0; it = (as_iterator*)as_list_iterator_new((as_list*)x->v); }
	else it = (as_iterator*)as_map_iterator_new((as_map*)x->v);
	while (as_iterator_has_next(it)) { as_iterator_next(it); c++; }
	as_iterator_destroy(it);
	VF_CHECK(c == x->n, "iteration gave %u of %u", c, x->n);
	vfa_expect(live, "after iterating");
}

static void verify(void)
{
	for (unsigned i = 0; i < nn; i++) {
		node* x = all[i];
		if (x->constant) { VF_CHECK(!x->freed, "a constant was freed"); continue; }
		if (x->heap) VF_CHECK(x->freed == !x->alive, x->freed ? "v%u was freed while %u references exist" : "v%u was not freed with its last reference (%u left)", x->id, x->refs);
		if (x->buf) VF_CHECK(x->buf_freed == !x->alive, x->buf_freed ? "the buffer of v%u was freed while in use" : "the buffer of v%u was not freed", x->id);
		if (x->k == REC) VF_CHECK(x->hook == (x->alive ? 0u : 1u), "record v%u was destroyed %u times", x->id, x->hook);
		if (!x->alive) continue;
		switch (x->k) {
		case SCALAR: m_expect(x->v, x->m, "value"); break;
		case LIST:
			VF_CHECK(as_val_type(x->v) == AS_LIST && as_list_size((as_list*)x->v) == x->n, "list v%u has size %u, expected %u", x->id, as_list_size((as_list*)x->v), x->n);
			for (uint32_t k = 0; k < x->n; k++) VF_CHECK(as_list_get((as_list*)x->v, k) == x->e[k]->v, "list v%u holds another value at %u", x->id, k);
			break;
		case MAP:
			VF_CHECK(as_val_type(x->v) == AS_MAP && as_map_size((as_map*)x->v) == x->n, "map v%u has another size", x->id);
			for (uint32_t k = 0; k < x->n; k++) VF_CHECK(as_map_get((as_map*)x->v, x->e[2 * k]->v) == x->e[2 * k + 1]->v, "map v%u holds another value", x->id);
			break;
		case PAIR:
			VF_CHECK(as_pair_1((as_pair*)x->v) == x->e[0]->v && as_pair_2((as_pair*)x->v) == x->e[1]->v, "pair v%u changed", x->id);
			break;
		case RESULT: VF_CHECK(as_result_value(x->r) == (x->n ? x->e[0]->v : NULL), "result changed"); break;
		default: break;
		}
	}
}

static void program(void)
{
	nn = 0; shared = held = false;
	uint64_t base = vfa_live();
	vfa_on_free = on_free;
	unsigned steps = (unsigned)vf_range(2, 60);
	for (unsigned i = 0; i < steps; i++) {
		static const unsigned w[] = { 10, 5, 10, 3, 3, 3, 4, 6, 3, 2, 4, 6, 6, 1 };
		switch (vf_pick(14, w)) {
		case 0: if (nn < MAXN) new_scalar(); break;
		case 1: if (nn < MAXN) new_container(); break;
		case 2: list_store(); break;
		case 3: list_typed(); break;
		case 4: list_shrink(); break;
		case 5: list_concat(); break;
		case 6: list_derive(); break;
		case 7: map_set(); break;
		case 8: map_remove(); break;
		case 9: new_pair(); break;
		case 10: results(); break;
		case 11: reserve(); break;
		case 12: { node* x = some(ANYVAL, true); if (x) destroy(x); break; }
		default: iterate(); break;
		}
		verify();
	}
	/* the program gives up everything it still owns, in a drawn order */
	unsigned rot = nn ? (unsigned)vf_draw(nn) : 0;
	bool back = vf_bool();
	for (unsigned i = 0; i < nn; i++) {
		node* x = all[((back ? nn - 1 - i : i) + rot) % nn];
		if (x->constant) continue;
		while (x->own) {
			if (x->k == RESULT) { x->own--; as_result_destroy(x->r); drop(x); }
			else destroy(x);
			verify();
		}
	}
	vfa_on_free = NULL;
	vfa_expect(base, "after everything was given up");
	if (shared && held) vf_nontrivial();
}

/* Thousands of entries: the program holds a second reference to every value. */
#define MANY 8192
static as_val* mine[MANY]; /* value stored under the key, also held by the program */
static void give_up(as_val* v, const char* when)
{
	uint64_t live = vfa_live();
	VF_CHECK(as_val_destroy(v) == NULL && vfa_live() == live - 1, "a value %s is still referenced by its container", when);
}
static void still(as_val* v, const char* when)
{
	VF_CHECK(as_val_reserve(v) == v && as_val_destroy(v) == v, "a value %s has lost a reference", when);
}
static void many_map(void)
{
	memset(mine, 0, sizeof(mine));
	uint64_t base = vfa_live();
	as_orderedmap stack;
	as_orderedmap* m = vf_bool() ? as_orderedmap_init(&stack, (uint32_t)vf_draw(64)) : as_orderedmap_new((uint32_t)vf_draw(64));
	vf_rng g = { vf_draw(0) };
	unsigned rounds = 1 + (unsigned)vf_draw(4);
	uint32_t most = 0, n = 0;
	for (unsigned r = 0; r < rounds; r++) {
		uint32_t k = (uint32_t)vf_range(1, r ? 600 : 6000), p = (uint32_t)vf_draw(4), stride = 1 + (uint32_t)vf_draw(3), from = (uint32_t)vf_draw(MANY);
		unsigned what = r ? (unsigned)vf_draw(6) : 0;
		vf_note("%s %u, pattern %u from %u step %u", what <= 2 ? "set" : what == 3 ? "remove" : what == 4 ? "clear" : "iterate", k, p, from, stride);
		if (what == 4) {
			VF_CHECK(as_orderedmap_clear(m) == 0, "clear failed");
			for (uint32_t x = 0; x < MANY; x++) if (mine[x]) { give_up(mine[x], "of a cleared map"); mine[x] = NULL; }
			n = 0;
			continue;
		}
		if (what == 5) { as_map_iterator it; as_map_iterator_init(&it, (as_map*)m); while (as_iterator_has_next((as_iterator*)&it)) as_iterator_next((as_iterator*)&it); as_iterator_destroy((as_iterator*)&it); continue; }
		for (uint32_t i = 0; i < k; i++) {
			uint32_t x = (p == 0 ? from + i * stride : p == 1 ? from - i * stride : p == 2 ? (uint32_t)vf_rng_next(&g) : from + (i % 16) * stride) % MANY;
			as_val* old = mine[x];
			if (old) still(old, "in a map");
			if (what == 3) {
				as_integer key;
				as_integer_init(&key, x);
				VF_CHECK(as_orderedmap_remove(m, (as_val*)&key) == 0, "remove failed");
				mine[x] = NULL;
				n -= old != NULL;
			}
			else {
				as_val* v = (as_val*)as_integer_new(i);
				mine[x] = as_val_reserve(v);
				VF_CHECK(as_orderedmap_set(m, (as_val*)as_integer_new(x), v) == 0, "set failed");
				n += old == NULL;
			}
			if (old) give_up(old, what == 3 ? "removed from a map" : "replaced in a map");
		}
		if (n > most) most = n;
	}
	VF_CHECK(as_orderedmap_size(m) == n, "size is %u, expected %u", as_orderedmap_size(m), n);
	for (uint32_t x = 0; x < MANY; x++) if (mine[x]) still(mine[x], "in a map");
	as_orderedmap_destroy(m);
	for (uint32_t x = 0; x < MANY; x++) if (mine[x]) give_up(mine[x], "of a destroyed map");
	vfa_expect(base, "after everything was given up");
	if (most >= 1000) vf_nontrivial();
}
static void many_list(void)
{
	uint64_t base = vfa_live();
	as_arraylist stack;
	uint32_t block = 1 + (uint32_t)vf_draw(200), n = 0;
	as_arraylist* l = vf_bool() ? as_arraylist_init(&stack, (uint32_t)vf_draw(64), block) : as_arraylist_new((uint32_t)vf_draw(64), block);
	uint32_t k = (uint32_t)vf_range(1, 3000);
	vf_note("%u elements, block %u", k, block);
	for (uint32_t i = 0; i < k; i++) {
		as_val* v = (as_val*)as_integer_new(i);
		mine[n++] = as_val_reserve(v);
		VF_CHECK(as_arraylist_append(l, v) == 0, "append failed");
	}
	uint32_t c = (uint32_t)vf_draw(k + 2), cc = c < k ? c : k, lo, hi;
	as_arraylist* d;
	unsigned op = (unsigned)vf_draw(4);
	vf_note("derive %u at %u", op, c);
	switch (op) {
	case 0: d = as_arraylist_take(l, c); lo = 0; hi = cc; break;
	case 1: d = as_arraylist_drop(l, c); lo = cc; hi = k; break;
	case 2: d = as_arraylist_tail(l); lo = 1; hi = k; break;
	default: d = as_arraylist_new(4, block); VF_CHECK(as_arraylist_concat(d, l) == 0, "concat failed"); lo = 0; hi = k; }
	VF_CHECK(d && as_arraylist_size(d) == hi - lo, "a derived list has the wrong size");
	uint32_t t = (uint32_t)vf_draw(k);
	if (vf_bool()) { VF_CHECK(as_arraylist_trim(l, t) == 0, "trim failed"); }
	else { t = k; for (unsigned i = 0; i < 20 && as_arraylist_size(l); i++) { uint32_t at = (uint32_t)vf_draw(as_arraylist_size(l)); VF_CHECK(as_arraylist_remove(l, at) == 0, "remove failed"); } }
	bool first = vf_bool();
	as_arraylist_destroy(first ? d : l);
	/* the other list still refers to what it holds */
	as_arraylist* rest = first ? l : d;
	for (uint32_t i = 0; i < as_arraylist_size(rest); i++) still(as_arraylist_get(rest, i), "in a list");
	as_arraylist_destroy(rest);
	for (uint32_t i = 0; i < k; i++) give_up(mine[i], "of a destroyed list");
	vfa_expect(base, "after everything was given up");
	if (k >= 1000) vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "program", program, 2500000, 20000000, VF_FUZZ },
	{ "map", many_map, 20000, 200000, 0 },
	{ "list", many_list, 40000, 400000, 0 },
	{ 0 }
};
