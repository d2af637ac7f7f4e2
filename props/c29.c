/* C29: clocks and deadlines. */
#include <citrusleaf/cf_clock.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "every case; distinct by choice sequence";

static struct timespec mono, wall;

int vf_clock_gettime(clockid_t c, struct timespec* ts);
int vf_clock_gettime(clockid_t c, struct timespec* ts)
{
	*ts = c == CLOCK_REALTIME ? wall : mono;
	return 0;
}

typedef __int128 wide;
#define G ((wide)1000000000)

static wide ns_of(const struct timespec* t) { return (wide)t->tv_sec * G + t->tv_nsec; }

static long some_ns(void)
{
	switch (vf_draw(5)) {
	case 0: return (long)vf_draw(3);
	case 1: return 999999999 - (long)vf_draw(3);
	case 2: { long v = (long)vf_draw(1000) * 1000000; long d = (long)vf_draw(3) - 1; v += d; return v < 0 ? 0 : v; }
	case 3: { long v = (long)vf_draw(1000000) * 1000; long d = (long)vf_draw(3) - 1; v += d; return v < 0 ? 0 : v; }
	default: return (long)vf_draw(1000000000);
	}
}

static time_t some_sec(bool after_epoch)
{
	time_t v;
	switch (vf_draw(5)) {
	case 0: v = (time_t)vf_draw(5); break;
	case 1: v = CITRUSLEAF_EPOCH - 2 + (time_t)vf_draw(5); break;
	case 2: v = (time_t)(1ull << 31) - 2 + (time_t)vf_draw(5); break;
	case 3: v = (time_t)vf_draw(1ull << 32); break;
	default: v = (time_t)vf_draw(9000000000ull); break;
	}
	return after_epoch && v < CITRUSLEAF_EPOCH ? v + CITRUSLEAF_EPOCH : v;
}

static void is_exactly(const struct timespec* t, wide want, const char* what)
{
	VF_CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "%s has %ld nanoseconds", what, t->tv_nsec);
	VF_CHECK(ns_of(t) == want, "%s is %lld.%09ld, expected %lld.%09lld", what, (long long)t->tv_sec, t->tv_nsec, (long long)(want / G), (long long)(want % G));
}

static void deadlines(void)
{
	wall.tv_sec = some_sec(false); wall.tv_nsec = some_ns();
	mono.tv_sec = some_sec(false); mono.tv_nsec = some_ns();
	struct timespec* out = vf_guarded(sizeof(*out));
	int ms;
	switch (vf_draw(4)) {
	case 0: ms = (int)vf_draw(3000); break;
	case 1: ms = (int)(vf_draw(2000000) * 1000 + vf_draw(3)); break;
	case 2: ms = 2147483647 - (int)vf_draw(2000); break;
	default: ms = (int)vf_draw(1ull << 31); break;
	}
	/* aim at the whole second */
	if (vf_chance(1, 3)) { long k = (1000000000 - wall.tv_nsec) / 1000000; ms = (int)(ms / 1000 % 1000000 * 1000 + k); if (vf_bool()) wall.tv_nsec -= wall.tv_nsec % 1000000; }
	vf_note("now %lld.%09ld wait %d ms", (long long)wall.tv_sec, wall.tv_nsec, ms);
	cf_set_wait_timespec(ms, out);
	is_exactly(out, ns_of(&wall) + (wide)ms * 1000000, "deadline");
	cf_clock_set_timespec_ms(ms, out);
	is_exactly(out, (wide)ms * 1000000, "span");
	struct timespec d = { vf_bool() ? (time_t)vf_draw(4) : (time_t)vf_draw(1ull << 32), some_ns() };
	if (vf_chance(1, 3)) { d.tv_nsec = 1000000000 - wall.tv_nsec - 1 + (long)vf_draw(3); if (d.tv_nsec > 999999999) d.tv_nsec = 999999999; }
	vf_note("delay %lld.%09ld", (long long)d.tv_sec, d.tv_nsec);
	cf_clock_current_add(&d, out);
	is_exactly(out, ns_of(&wall) + ns_of(&d), "deadline");
	vf_nontrivial();
}

static void readings(void)
{
	mono.tv_sec = some_sec(false); mono.tv_nsec = some_ns();
	wall.tv_sec = some_sec(true); wall.tv_nsec = some_ns();
	vf_note("monotonic %lld.%09ld wall %lld.%09ld", (long long)mono.tv_sec, mono.tv_nsec, (long long)wall.tv_sec, wall.tv_nsec);
	wide m = ns_of(&mono), w = ns_of(&wall), e = (wide)CITRUSLEAF_EPOCH * G;
#define IS(call, want) do { uint64_t g_ = (call); wide w_ = (want); VF_CHECK((wide)g_ == w_, #call " is %llu, expected %llu", (unsigned long long)g_, (unsigned long long)w_); } while (0)
	IS(cf_getns(), m);
	IS(cf_getus(), m / 1000);
	IS(cf_getms(), m / 1000000);
	IS(cf_get_seconds(), m / G);
	IS(cf_clock_getabsolute(), w / 1000000);
	IS(cf_clepoch_milliseconds(), (w - e) / 1000000);
	IS(cf_secs_since_clepoch(), (w - e) / G);
	if ((w - e) / G <= UINT32_MAX) IS(cf_clepoch_seconds(), (w - e) / G);
	vf_nontrivial();
}

static void conversions(void)
{
	const wide e = (wide)1262304000 * G;
	uint64_t t = vf_bool() ? vf_uint64() : vf_chance(1, 2) ? (uint64_t)(e - 3) + vf_draw(6) + (vf_bool() ? vf_draw(5) * 1000000000ull : 0) : vf_draw(0);
	vf_note("unix time %llu ns", (unsigned long long)t);
	wide c = (wide)t > e ? (wide)t - e : 0;
	IS(cf_clepoch_ns_from_utc_ns(t), c);
	IS(cf_clepoch_us_from_utc_ns(t), c / 1000);
	IS(cf_clepoch_ms_from_utc_ns(t), c / 1000000);
	IS(cf_clepoch_sec_from_utc_ns(t), c / G);
	static const uint64_t unit[4] = { 1, 1000, 1000000, 1000000000 };
	unsigned k = (unsigned)vf_draw(4);
	uint64_t room = (uint64_t)(((wide)UINT64_MAX - e) / unit[k]);
	uint64_t p = vf_chance(1, 4) ? room - vf_draw(3) : vf_draw(room + 1) >> vf_draw(64);
	vf_note("product time %llu in units of %llu ns", (unsigned long long)p, (unsigned long long)unit[k]);
	wide u = e + (wide)p * unit[k];
	uint64_t got = k == 0 ? cf_utc_ns_from_clepoch_ns(p) : k == 1 ? cf_utc_ns_from_clepoch_us(p) : k == 2 ? cf_utc_ns_from_clepoch_ms(p) : cf_utc_ns_from_clepoch_sec(p);
	VF_CHECK((wide)got == u, "conversion to unix time gives %llu, expected %llu", (unsigned long long)got, (unsigned long long)u);
	uint64_t back = k == 0 ? cf_clepoch_ns_from_utc_ns(got) : k == 1 ? cf_clepoch_us_from_utc_ns(got) : k == 2 ? cf_clepoch_ms_from_utc_ns(got) : cf_clepoch_sec_from_utc_ns(got);
	VF_CHECK(back == p, "conversion there and back gives %llu for %llu", (unsigned long long)back, (unsigned long long)p);
	vf_nontrivial();
}

static void lifetimes(void)
{
	wall.tv_nsec = some_ns();
	uint32_t now = vf_bool() ? vf_uint32() : (uint32_t)vf_draw(1ull << 32);
	wall.tv_sec = (time_t)CITRUSLEAF_EPOCH + now;
	mono.tv_sec = 5;
	uint32_t v;
	switch (vf_draw(4)) {
	case 0: v = now - 2 + (uint32_t)vf_draw(5); break;
	case 1: v = vf_uint32(); break;
	case 2: v = 0; break;
	default: v = (uint32_t)vf_draw(1ull << 32); break;
	}
	uint32_t want = v == 0 ? UINT32_MAX : v > now ? v - now : 1;
	vf_note("now %u void time %u", now, v);
	uint32_t got = cf_server_void_time_to_ttl(v);
	VF_CHECK(got == want, "lifetime of a record expiring at %u, seen at %u, is %u, expected %u", v, now, got, want);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "deadlines", deadlines, 12000000, 120000000, 0 },
	{ "readings", readings, 6000000, 60000000, 0 },
	{ "conversions", conversions, 3000000, 30000000, 0 },
	{ "lifetimes", lifetimes, 3000000, 30000000, 0 },
	{ NULL, NULL, 0, 0, 0 }
};
