/* C40: directory listing, thread names and sleeps. */
#include <aerospike/as_std.h>
#include <aerospike/as_dir.h>
#include <aerospike/as_sleep.h>
#include <aerospike/as_thread.h>
#include <errno.h>
#include <poll.h>
#include <sys/select.h>
#include <time.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vf.h"

const char* const vf_rule = "a directory with at least 2 entries was listed, a name of at least 2 characters was set, or a sleep of at least 1 ms was asked for; distinct by choice sequence";

/* sleeping is recorded, not done */
static uint64_t asked; static unsigned sleeps;
static int record_usleep(useconds_t us) { asked += us; sleeps++; return 0; }
static int record_nanosleep(const struct timespec* t, struct timespec* left) { (void)left; asked += (uint64_t)t->tv_sec * 1000000 + (uint64_t)t->tv_nsec / 1000; sleeps++; return 0; }
static int record_clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* left) { (void)c; (void)flags; return record_nanosleep(t, left); }
static unsigned record_sleep(unsigned s) { asked += s * 1000000ull; sleeps++; return 0; }
static int record_poll(struct pollfd* f, nfds_t n, int ms) { (void)f; (void)n; asked += (uint64_t)ms * 1000; sleeps++; return 0; }
static int record_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { (void)n; (void)r; (void)w; (void)e; asked += (uint64_t)t->tv_sec * 1000000 + (uint64_t)t->tv_usec; sleeps++; return 0; }
#define usleep record_usleep
#define nanosleep record_nanosleep
#define clock_nanosleep record_clock_nanosleep
#define sleep record_sleep
#define poll record_poll
#define select record_select
static void sleep_int(int ms) { as_sleep(ms); }
static void sleep_u32(uint32_t ms) { as_sleep(ms); }
static void sleep_u64(uint64_t ms) { as_sleep(ms); }
static void sleep_sum(uint32_t a, uint32_t b) { as_sleep(a + b); }
static void sleep_cond(bool c, uint32_t a, uint32_t b) { as_sleep(c ? a : b); }
#undef usleep
#undef nanosleep
#undef clock_nanosleep
#undef sleep
#undef poll
#undef select
__attribute__((unused)) static void* const recorders[] = { record_usleep, record_nanosleep, record_clock_nanosleep, record_sleep, record_poll, record_select };

static void sleeping(void)
{
	uint32_t ms = (uint32_t)(vf_bool() ? vf_draw(2000001) : vf_draw(2000));
	uint64_t want = (uint64_t)ms * 1000;
	asked = 0; sleeps = 0;
	unsigned way = (unsigned)vf_draw(5);
	vf_note("sleep %u ms, form %u", ms, way);
	switch (way) {
	case 0: sleep_int((int)ms); break;
	case 1: sleep_u32(ms); break;
	case 2: sleep_u64(ms); break;
	case 3: { uint32_t a = (uint32_t)vf_draw(ms + 1ull); sleep_sum(a, ms - a); break; }
	default: { bool c = vf_bool(); uint32_t o = (uint32_t)vf_draw(1000); sleep_cond(c, c ? ms : o, c ? o : ms); } }
	VF_CHECK(asked == want, "a sleep of %u ms asks for %llu microseconds", ms, (unsigned long long)asked);
	if (ms) vf_nontrivial();
}

static void naming(void)
{
	char name[40], want[64], got[64];
	bool indexed = vf_bool();
	unsigned n = (unsigned)vf_draw(indexed ? 24 : 16);
	for (unsigned i = 0; i < n; i++) name[i] = (char)vf_range(1, 255);
	name[n] = 0;
	if (vf_describing()) vf_note_hex("name", name, n);
	if (indexed) {
		uint32_t ix = (uint32_t)vf_draw(4) ? vf_uint32() : (uint32_t)vf_draw(12);
		vf_note("index %u", ix);
		snprintf(want, sizeof(want), "%s%u", name, ix);
		want[15] = 0;
		as_thread_set_name_index(name, ix);
	}
	else { strcpy(want, name); as_thread_set_name(name); }
	VF_CHECK(pthread_getname_np(pthread_self(), got, sizeof(got)) == 0, "harness: the name cannot be read");
	VF_CHECK(strcmp(got, want) == 0, "the thread is named \"%s\", expected \"%s\"", got, want);
	if (n > 1) vf_nontrivial();
}

static int lowest_fd(void) { int fd = dup(0); if (fd >= 0) close(fd); return fd; }
#define ENTRIES 24
static void listing(void)
{
	char root[] = "/tmp/vf-dir-XXXXXX", path[600];
	VF_CHECK(mkdtemp(root) != NULL, "harness: scratch directory");
	char* names[ENTRIES]; bool isdir[ENTRIES]; bool there[ENTRIES];
	unsigned n = 0, k = (unsigned)vf_draw(ENTRIES);
	for (unsigned i = 0; i < k; i++) {
		unsigned len = vf_chance(1, 8) ? (unsigned)vf_range(200, 255) : (unsigned)vf_range(1, 12);
		char* s = vf_tmp(len + 1);
		for (unsigned j = 0; j < len; j++) { s[j] = vf_chance(1, 6) ? '.' : (char)vf_range(1, 255); if (s[j] == '/') s[j] = '_'; }
		s[len] = 0;
		bool dup = !strcmp(s, ".") || !strcmp(s, "..");
		for (unsigned j = 0; j < n; j++) if (!strcmp(s, names[j])) dup = true;
		if (dup) continue;
		names[n] = s; isdir[n] = vf_chance(1, 3); there[n] = true;
		bool link = vf_chance(1, 4);
		snprintf(path, sizeof(path), "%s/%s", root, s);
		if (link) VF_CHECK(symlink(isdir[n] ? "." : "/nowhere/at/all", path) == 0, "harness: link %d", errno);
		else if (isdir[n]) VF_CHECK(mkdir(path, 0700) == 0, "harness: mkdir %d", errno);
		else { int fd = open(path, O_CREAT | O_WRONLY, 0600); VF_CHECK(fd >= 0, "harness: create %d", errno); close(fd); }
		n++;
	}
	vf_note("%u entries", n);
	/* some go again */
	for (unsigned i = 0; i < n; i++) if (vf_chance(1, 6)) { snprintf(path, sizeof(path), "%s/%s", root, names[i]); remove(path); there[i] = false; }
	/* names from here may be relative */
	int back = -1;
	char* prefix = vf_fmt("%s/", root);
	const char* dot = root;
	if (vf_bool()) {
		back = open(".", O_RDONLY | O_DIRECTORY);
		VF_CHECK(back >= 0 && chdir(root) == 0, "harness: chdir %d", errno);
		static const char* const pre[] = { "", "./", "../%s/", ".//" };
		prefix = vf_fmt(pre[vf_draw(4)], root + 5);
		dot = prefix[0] && vf_bool() ? prefix : ".";
	}
	else if (vf_bool()) dot = prefix;
	int low = lowest_fd();
	unsigned passes = 1 + (unsigned)vf_draw(2), count = 0;
	bool ok = true; char why[700] = "";
	for (unsigned p = 0; p < passes && ok; p++) {
		as_dir d;
		if (!as_dir_open(&d, dot)) { ok = false; snprintf(why, sizeof(why), "an existing directory does not open"); break; }
		unsigned seen[ENTRIES] = { 0 }, self = 0, up = 0;
		const char* e; count = 0;
		while (ok && (e = as_dir_read(&d)) != NULL) {
			if (!strcmp(e, ".")) { self++; continue; }
			if (!strcmp(e, "..")) { up++; continue; }
			unsigned j = 0;
			while (j < n && strcmp(e, names[j])) j++;
			if (j == n || !there[j]) { ok = false; snprintf(why, sizeof(why), "an entry \"%s\" is listed that does not exist", e); }
			else { seen[j]++; count++; }
		}
		for (unsigned j = 0; ok && j < n; j++) if (seen[j] != there[j]) { ok = false; snprintf(why, sizeof(why), "entry \"%s\" is listed %u times, expected %d", names[j], seen[j], there[j]); }
		if (ok && (self > 1 || up > 1)) { ok = false; snprintf(why, sizeof(why), "the directory itself is listed twice"); }
		as_dir_close(&d);
	}
	/* existence */
	if (ok && !as_dir_exists(dot)) { ok = false; snprintf(why, sizeof(why), "an existing directory is reported missing"); }
	for (unsigned j = 0; ok && j < n; j++) {
		snprintf(path, sizeof(path), "%s%s%s", prefix, names[j], isdir[j] && vf_chance(1, 4) ? "/" : "");
		bool want = there[j] && isdir[j], got = as_dir_exists(path);
		if (got != want) { ok = false; snprintf(why, sizeof(why), "%s is reported %s", there[j] ? isdir[j] ? "a directory" : "a file" : "a removed entry", got ? "to be an existing directory" : "not to be one"); }
		as_dir d;
		bool opened = as_dir_open(&d, path);
		if (ok && opened != want) { ok = false; snprintf(why, sizeof(why), "opening %s as a directory %s", want ? "a directory" : "something else", opened ? "succeeds" : "fails"); }
		if (opened) as_dir_close(&d);
	}
	if (ok && as_dir_exists("")) { ok = false; snprintf(why, sizeof(why), "an empty name is reported to be an existing directory"); }
	if (ok && lowest_fd() != low) { ok = false; snprintf(why, sizeof(why), "a descriptor stays open"); }
	if (back >= 0) { if (fchdir(back)) ok = false; close(back); }
	for (unsigned j = 0; j < n; j++) if (there[j]) { snprintf(path, sizeof(path), "%s/%s", root, names[j]); remove(path); }
	rmdir(root);
	VF_CHECK(ok, "%s", why);
	if (count >= 2) vf_nontrivial();
}

/* a directory of thousands of entries, names of up to 255 bytes */
static void crowded(void)
{
	char root[] = "/tmp/vf-dir-XXXXXX", path[600];
	VF_CHECK(mkdtemp(root) != NULL, "harness: scratch directory");
	static const unsigned size[] = { 255, 256, 1000, 2048, 4096 };
	unsigned n = vf_bool() ? size[vf_draw(5)] - 2 + (unsigned)vf_draw(4) : (unsigned)vf_range(30, 3000);
	unsigned len = vf_chance(1, 3) ? 255 : vf_bool() ? 12 : (unsigned)vf_range(5, 255);
	vf_note("%u entries with names of %u bytes", n, len);
	char name[300];
	uint8_t* seen = vf_tmp(n);
	memset(seen, 0, n);
	for (unsigned i = 0; i < n; i++) {
		memset(name, 'n', len);
		snprintf(name, sizeof(name), "%05u", i);
		if (len > 5) name[5] = 'n';
		name[len] = 0;
		snprintf(path, sizeof(path), "%s/%s", root, name);
		int fd = open(path, O_CREAT | O_WRONLY, 0600);
		VF_CHECK(fd >= 0, "harness: create %d", errno);
		close(fd);
	}
	bool ok = true; char why[700] = "";
	as_dir d;
	unsigned count = 0;
	if (!as_dir_open(&d, root)) { ok = false; snprintf(why, sizeof(why), "an existing directory does not open"); }
	else {
		const char* e;
		while (ok && (e = as_dir_read(&d)) != NULL && count <= n) {
			if (!strcmp(e, ".") || !strcmp(e, "..")) continue;
			unsigned at = n;
			if (strlen(e) != len || sscanf(e, "%5u", &at) != 1 || at >= n || seen[at]) { ok = false; snprintf(why, sizeof(why), "an entry \"%s\" is listed that does not exist, or twice", e); break; }
			seen[at] = 1;
			count++;
		}
		if (ok && count != n) { ok = false; snprintf(why, sizeof(why), "%u of %u entries are listed", count, n); }
		as_dir_close(&d);
	}
	for (unsigned i = 0; i < n; i++) {
		memset(name, 'n', len);
		snprintf(name, sizeof(name), "%05u", i);
		if (len > 5) name[5] = 'n';
		name[len] = 0;
		snprintf(path, sizeof(path), "%s/%s", root, name);
		unlink(path);
	}
	rmdir(root);
	VF_CHECK(ok, "%s", why);
	vf_nontrivial();
}

const vf_target vf_targets[] = {
	{ "listing", listing, 30000, 400000, 0 },
	{ "naming", naming, 1000000, 10000000, 0 },
	{ "sleeping", sleeping, 3000000, 30000000, 0 },
	{ "crowded", crowded, 160, 1600, 0 },
	{ NULL }
};
