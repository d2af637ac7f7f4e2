/* C35: atomic operations, one thread: each does exactly what it says, to its target alone. */
#include "c35ops.h"
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "the operation changed its target, or refused to; distinct by choice sequence";

static int64_t gen_val(unsigned y, int64_t near)
{
	switch (vf_draw(5)) {
	case 0: return y_cut(y, vf_irange(-3, 3));
	case 1: { unsigned bits = y_size[y] * 8; uint64_t e = 1ull << vf_draw(bits); return y_cut(y, (int64_t)(e + (uint64_t)vf_irange(-2, 2))); }
	case 2: return y_plus(y, near, vf_irange(-2, 2));
	case 3: return near;
	default: return y_cut(y, (int64_t)vf_uint64());
	}
}

static void ints(void)
{
	unsigned y = (unsigned)vf_draw(Y_N), sz = y_size[y];
	/* the target between neighbours that must stay */
	_Alignas(8) uint8_t mem[24], want[24];
	for (unsigned i = 0; i < 24; i++) mem[i] = (uint8_t)(vf_bool() ? 0xFF : 0x5A + i);
	uint8_t* p = mem + 8 + sz * vf_draw(8 / sz);
	int64_t v = gen_val(y, 0);
	memcpy(p, &v, sz);
	memcpy(want, mem, 24);
	unsigned n = 1 + (unsigned)vf_skewed(12);
	for (unsigned i = 0; i < n; i++) {
		unsigned op = (unsigned)vf_draw(y_ops(y));
		int64_t a = gen_val(y, v), b = gen_val(y, v), s = 0, ms = 0, was = v;
		vf_note("%s %s(%lld, %lld) on %lld", y_name[y], o_name[op], (long long)a, (long long)b, (long long)v);
		int64_t r = perform(y, op, p, a, b, &s);
		bool has;
		int64_t mr = y_model(y, op, &v, a, b, &ms, &has);
		memcpy(want + (p - mem), &v, sz);
		VF_CHECK(r == mr, "%s %s(%lld, %lld) on %lld gives %lld, not %lld", y_name[y], o_name[op], (long long)a, (long long)b, (long long)was, (long long)r, (long long)mr);
		if (has) VF_CHECK(s == ms, "%s %s reports the value %lld, not %lld", y_name[y], o_name[op], (long long)s, (long long)ms);
		VF_CHECK(!memcmp(mem, want, 24), "%s %s(%lld, %lld) on %lld leaves the wrong value or changes other memory", y_name[y], o_name[op], (long long)a, (long long)b, (long long)was);
		if (v != was || op >= O_CAS_RLX) vf_nontrivial();
	}
}

/* Doubles, floats, truth values and pointers. Compared by representation. */
static void others(void)
{
	_Alignas(8) uint8_t mem[24], want[24];
	for (unsigned i = 0; i < 24; i++) mem[i] = (uint8_t)(0xC0 + i);
	static const double ds[] = { 0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, __builtin_inf(), __builtin_nan("") };
	unsigned n = 1 + (unsigned)vf_skewed(8), kind = (unsigned)vf_draw(4);
	vf_nontrivial();
	if (kind == 0) {
		double* p = (double*)(mem + 8);
		double cur = vf_bool() ? ds[vf_draw(8)] : vf_double();
		memcpy(p, &cur, 8);
		for (unsigned i = 0; i < n; i++) {
			double a = vf_bool() ? ds[vf_draw(8)] : vf_double(), b = vf_bool() ? ds[vf_draw(8)] : vf_double(), r;
			memcpy(want, mem, 24);
			switch (vf_draw(4)) {
			case 0: r = as_load_double(p); VF_CHECK(!memcmp(&r, &cur, 8), "loading a double gives %a, not %a", r, cur); break;
			case 1: as_store_double(p, a); cur = a; break;
			case 2: r = as_fas_double(p, a); VF_CHECK(!memcmp(&r, &cur, 8), "swapping a double gives %a, not %a", r, cur); cur = a; break;
			default: {
				bool same = vf_bool();
				if (same) memcpy(&a, &cur, 8);
				bool eq = !memcmp(&a, &cur, 8), k = as_cas_double(p, a, b);
				VF_CHECK(k == eq, "comparing and swapping a double %s", k ? "replaces a different value" : "refuses an equal one");
				if (k) cur = b;
			} }
			memcpy(want + 8, &cur, 8);
			VF_CHECK(!memcmp(mem, want, 24), "a double operation leaves the wrong value or changes other memory");
		}
	}
	else if (kind == 1) {
		unsigned at = vf_bool() ? 8 : 12;
		float* p = (float*)(mem + at);
		float cur = (float)ds[vf_draw(8)];
		memcpy(p, &cur, 4);
		for (unsigned i = 0; i < n; i++) {
			uint32_t ra = vf_uint32(), rb = vf_uint32();
			float a, b, r;
			memcpy(&a, &ra, 4); memcpy(&b, &rb, 4);
			if (vf_bool()) a = (float)ds[vf_draw(8)];
			/* a signalling NaN may be quietened by being passed by value */
			if (a != a) a = 3.0f;
			if (b != b) b = -3.0f;
			memcpy(want, mem, 24);
			switch (vf_draw(4)) {
			case 0: r = as_load_float(p); VF_CHECK(!memcmp(&r, &cur, 4), "loading a float gives %a, not %a", r, cur); break;
			case 1: as_store_float(p, a); cur = a; break;
			case 2: r = as_fas_float(p, a); VF_CHECK(!memcmp(&r, &cur, 4), "swapping a float gives %a, not %a", r, cur); cur = a; break;
			default: {
				if (vf_bool()) memcpy(&a, &cur, 4);
				bool eq = !memcmp(&a, &cur, 4), k = as_cas_float(p, a, b);
				VF_CHECK(k == eq, "comparing and swapping a float %s", k ? "replaces a different value" : "refuses an equal one");
				if (k) cur = b;
			} }
			memcpy(want + at, &cur, 4);
			VF_CHECK(!memcmp(mem, want, 24), "a float operation leaves the wrong value or changes other memory");
		}
	}
	else if (kind == 2) {
		unsigned at = 8 + (unsigned)vf_draw(8);
		bool* p = (bool*)(mem + at);
		bool cur = vf_bool();
		*p = cur;
		for (unsigned i = 0; i < n; i++) {
			bool a = vf_bool();
			memcpy(want, mem, 24);
			switch (vf_draw(4)) {
			case 0: VF_CHECK(as_load_bool(p) == cur, "loading a truth value gives the other one"); break;
			case 1: VF_CHECK(as_load_bool_acq(p) == cur, "loading a truth value (acquire) gives the other one"); break;
			case 2: as_store_bool(p, a); cur = a; break;
			default: as_store_bool_rls(p, a); cur = a; }
			want[at] = cur;
			VF_CHECK(!memcmp(mem, want, 24), "a truth value operation leaves the wrong value or changes other memory");
		}
	}
	else {
		void** p = (void**)(mem + 8);
		void* cur = (void*)(uintptr_t)vf_uint64();
		*p = cur;
		for (unsigned i = 0; i < n; i++) {
			void* a = vf_bool() ? cur : (void*)(uintptr_t)vf_uint64(); void* b = (void*)(uintptr_t)vf_uint64();
			memcpy(want, mem, 24);
			switch (vf_draw(6)) {
			case 0: VF_CHECK(as_load_ptr(p) == cur, "loading a pointer gives another one"); break;
			case 1: VF_CHECK(as_load_ptr_acq(p) == cur, "loading a pointer (acquire) gives another one"); break;
			case 2: as_store_ptr(p, a); cur = a; break;
			case 3: as_store_ptr_rls(p, a); cur = a; break;
			case 4: VF_CHECK(as_fas_ptr(p, a) == cur, "swapping a pointer gives another one"); cur = a; break;
			default: {
				bool k = as_cas_ptr(p, a, b);
				VF_CHECK(k == (a == cur), "comparing and swapping a pointer %s", k ? "replaces a different one" : "refuses an equal one");
				if (k) cur = b;
			} }
			memcpy(want + 8, &cur, 8);
			VF_CHECK(!memcmp(mem, want, 24), "a pointer operation leaves the wrong value or changes other memory");
		}
	}
}

const vf_target vf_targets[] = {
	{ "integers", ints, 5000000, 60000000, 0 },
	{ "others", others, 2000000, 20000000, 0 },
	{ NULL }
};
