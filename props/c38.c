/* C38: log messages. */
#include <aerospike/as_log.h>
#include <aerospike/as_log_macros.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "vf.h"

const char* const vf_rule = "a message was delivered, or withheld by its level; distinct by choice sequence";

typedef struct { unsigned calls; as_log_level level; char func[64], file[256], text[4096]; uint32_t line; unsigned who; } seen_t;
static seen_t seen;
static bool answer;
static bool take(unsigned who, as_log_level level, const char* func, const char* file, uint32_t line, const char* fmt, va_list ap)
{
	seen.calls++; seen.who = who; seen.level = level; seen.line = line;
	snprintf(seen.func, sizeof(seen.func), "%s", func);
	snprintf(seen.file, sizeof(seen.file), "%s", file);
	vsnprintf(seen.text, sizeof(seen.text), fmt, ap);
	return answer;
}
#define CB(n) static bool cb##n(as_log_level level, const char* func, const char* file, uint32_t line, const char* fmt, ...) \
	{ va_list ap; va_start(ap, fmt); bool r = take(n, level, func, file, line, fmt, ap); va_end(ap); return r; }
CB(0) CB(1)
static const as_log_callback cbs[] = { cb0, cb1, NULL };

/* what the library starts with, before anything is set */
static unsigned first_mask, second_mask;
static unsigned enabled(void)
{
	return (as_log_error_enabled() ? 1 : 0) | (as_log_warn_enabled() ? 2 : 0) | (as_log_info_enabled() ? 4 : 0) | (as_log_debug_enabled() ? 8 : 0) | (as_log_trace_enabled() ? 16 : 0);
}
__attribute__((constructor)) static void at_start(void)
{
	first_mask = enabled();
	as_log_set_callback(cb0);
	second_mask = enabled();
	as_log_set_callback(NULL);
}

static unsigned evaluated;
static int arg(int v) { evaluated++; return v; }
static uint32_t line_of;
#define SAY(level, ...) do { line_of = __LINE__; as_log_##level(__VA_ARGS__); } while (0)
static const char* const names[] = { "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
/* three shapes of message per level */
#define SHAPES(level) \
	static const char* say_##level(unsigned shape, const char* s, int64_t i, double d) \
	{ \
		static char want[4096]; \
		switch (shape) { \
		case 0: snprintf(want, sizeof(want), "plain 100%%"); SAY(level, "plain 100%%"); break; \
		case 1: snprintf(want, sizeof(want), "%s", s); SAY(level, "%s", s); break; \
		default: snprintf(want, sizeof(want), "%d %s %lld %a %c", 7, s, (long long)i, d, 'x'); SAY(level, "%d %s %lld %a %c", arg(7), s, (long long)i, d, 'x'); } \
		return want; \
	}
SHAPES(error) SHAPES(warn) SHAPES(info) SHAPES(debug) SHAPES(trace)

static void messages(void)
{
	VF_CHECK(first_mask == 0, "messages are enabled before a callback is set (%x)", first_mask);
	VF_CHECK(second_mask == 7, "the levels enabled at first are %x, not error, warning and information", second_mask);
	unsigned threshold = AS_LOG_LEVEL_INFO, cb = 2;
	as_log_set_level(AS_LOG_LEVEL_INFO);
	as_log_set_callback(NULL);
	unsigned n = 1 + (unsigned)vf_skewed(12);
	for (unsigned k = 0; k < n; k++) {
		if (vf_bool()) { threshold = (unsigned)vf_draw(5); as_log_set_level((as_log_level)threshold); }
		if (vf_bool()) { cb = (unsigned)vf_draw(3); as_log_set_callback(cbs[cb]); }
		unsigned level = (unsigned)vf_draw(5), shape = (unsigned)vf_draw(3);
		size_t len = vf_skewed(300);
		char* s = vf_guarded(len + 1);
		vf_fill_text(s, len);
		s[len] = 0;
		int64_t i = vf_int64(); double d = vf_double();
		unsigned want_mask = cb == 2 ? 0 : (2u << threshold) - 1;
		VF_CHECK(enabled() == want_mask, "with level %s and %s callback the enabled levels are %x, not %x", names[threshold], cb == 2 ? "no" : "a", enabled(), want_mask);
		memset(&seen, 0, sizeof(seen));
		answer = vf_bool();
		evaluated = 0;
		const char* want; const char* fn;
		switch (level) {
		case 0: want = say_error(shape, s, i, d); fn = "say_error"; break;
		case 1: want = say_warn(shape, s, i, d); fn = "say_warn"; break;
		case 2: want = say_info(shape, s, i, d); fn = "say_info"; break;
		case 3: want = say_debug(shape, s, i, d); fn = "say_debug"; break;
		default: want = say_trace(shape, s, i, d); fn = "say_trace"; }
		bool due = want_mask >> level & 1;
		vf_note("level %s threshold %s callback %u", names[level], names[threshold], cb);
		VF_CHECK(seen.calls == (due ? 1 : 0), "a message of level %s under %s reaches the callback %u times", names[level], names[threshold], seen.calls);
		VF_CHECK(evaluated == (shape == 2 && due ? 1 : 0), "the arguments of a message are evaluated %u times", evaluated);
		if (due) {
			VF_CHECK(seen.who == cb, "a message reaches a callback that was replaced");
			VF_CHECK(seen.level == (as_log_level)level, "a message of level %s arrives as level %d", names[level], (int)seen.level);
			VF_CHECK(!strcmp(seen.func, fn) && !strcmp(seen.file, __FILE__) && seen.line == line_of, "a message arrives from %s, %s:%u instead of %s, %s:%u", seen.func, seen.file, seen.line, fn, __FILE__, line_of);
			VF_CHECK(!strcmp(seen.text, want), "a message arrives as '%.60s' instead of '%.60s'", seen.text, want);
		}
		if (cb != 2) vf_nontrivial();
		VF_CHECK(!strcmp(as_log_level_tostring((as_log_level)level), names[level]), "level %u is called '%s'", level, as_log_level_tostring((as_log_level)level));
	}
	as_log_set_callback(NULL);
}

const vf_target vf_targets[] = {
	{ "messages", messages, 1500000, 15000000, 0 },
	{ NULL }
};
