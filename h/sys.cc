// Queues, file sets, spool directories, rate limiting, thread numbers.
#include <math.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "vf.h"
#include "my.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <ucontext.h>
#include <unistd.h>
using namespace vf;

// ---------------------------------------------------------------- virtual time and injected faults
static bool g_virtual; static int64_t g_now, g_slept, g_jitter_max; static u64 g_sleeps; static Rng *g_vr; static unsigned g_intr = 16;
static std::atomic<int> g_fopen_fail{0};
static std::atomic<bool> g_nosleep{true};
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
FILE *__real_fopen(const char *, const char *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{ if (!g_virtual) return __real_clock_gettime(c, ts); ts->tv_sec = g_now / 1000000000; ts->tv_nsec = g_now % 1000000000; return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *z)
{ if (!g_virtual) return __real_gettimeofday(tv, z); tv->tv_sec = g_now / 1000000000; tv->tv_usec = g_now % 1000000000 / 1000; return 0; }
static void vsleep(int64_t ns) { if (ns < 0) ns = 0; g_slept += ns; g_sleeps++; g_now += ns + (g_jitter_max ? (int64_t) g_vr->below((u64) g_jitter_max) : 0); }
int __wrap_nanosleep(const struct timespec *q, struct timespec *m)
{
	if (!g_virtual) return __real_nanosleep(q, m);
	int64_t ns = q->tv_sec * 1000000000LL + q->tv_nsec;
	if (ns > 1 && g_vr && g_vr->chance(1, g_intr)) {	// interrupted half way
		int64_t h = ns / 2; g_slept += h; g_now += h; ns -= h;
		if (m) { m->tv_sec = ns / 1000000000; m->tv_nsec = ns % 1000000000; }
		errno = EINTR; count("interrupted_sleeps"); return -1;
	}
	vsleep(ns); return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *m)
{
	if (!g_virtual) return __real_clock_nanosleep(c, fl, q, m);
	int64_t ns = q->tv_sec * 1000000000LL + q->tv_nsec;
	if (fl & TIMER_ABSTIME) ns -= g_now;
	if (ns > 1 && g_vr && g_vr->chance(1, g_intr)) { g_slept += ns / 2; g_now += ns / 2; count("interrupted_sleeps"); return EINTR; }
	vsleep(ns); return 0;
}
int __wrap_usleep(useconds_t u) { if (g_virtual) { vsleep(u * 1000LL); return 0; } if (g_nosleep) { sched_yield(); return 0; } return __real_usleep(u); }
FILE *__wrap_fopen(const char *p, const char *m)
{ int n = g_fopen_fail; if (n > 0 && g_fopen_fail.compare_exchange_strong(n, n - 1)) { errno = EMFILE; return nullptr; } return __real_fopen(p, m); }
struct my_rate *my_rate2_init(unsigned, unsigned); void my_rate2_destroy(struct my_rate **); void my_rate2_sleep(struct my_rate *);
}

// ---------------------------------------------------------------- queues
struct QOps { const char *name; struct my_queue *(*init)(unsigned, unsigned); void (*destroy)(struct my_queue **); bool (*insert)(struct my_queue *, void *, unsigned *); bool (*remove)(struct my_queue *, void *, unsigned *); };
static const QOps Q[] = {
	{ "default", my_queue_init, my_queue_destroy, my_queue_insert, my_queue_remove },
	{ "mb", my_queue_mb_ops.init, my_queue_mb_ops.destroy, my_queue_mb_ops.insert, my_queue_mb_ops.remove },
	{ "mutex", my_queue_mutex_ops.init, my_queue_mutex_ops.destroy, my_queue_mutex_ops.insert, my_queue_mutex_ops.remove },
};
static void fillelem(u8 *p, size_t n, u64 id) { for (size_t i = 0; i < n; i++) p[i] = (u8) (mix(id * 31 + i / 8) >> (i % 8 * 8)); }
static bool iselem(const u8 *p, size_t n, u64 id) { Bytes t(n, 0); fillelem((u8 *) &t[0], n, id); return !n || !memcmp(p, t.data(), n); }

// a queue of more elements than a short counts, filled and drained across its end
static void bigqueue(Rng &r, const QOps &o)
{
	unsigned n = 1u << r.range(11, 18), w = (unsigned) r.range(4, 9); struct my_queue *q = o.init(n, w); VF_CHECK(q, "queue:init", "%s: a queue of %u elements was refused", o.name, n);
	struct Del { const QOps &o; struct my_queue *q; ~Del() { o.destroy(&q); } } del{o, q};
	u64 in = 0, out = 0, base = g_case << 24; std::vector<u8> e(w);
	for (unsigned round = 0; round < 3; round++) {
		u64 up = round == 1 ? n - 1 : r.below(n), down = r.below(up + 1); unsigned x;
		while (in - out < up) { fillelem(e.data(), w, base + in); x = ~0u; VF_CHECK(o.insert(q, e.data(), &x), "queue:insert", "%s: refused with %llu of %u used", o.name, (unsigned long long) (in - out), n - 1); in++; VF_CHECK(x == n - 1 - (in - out), "queue:space", "%s: %u spaces reported with %llu of %u used", o.name, x, (unsigned long long) (in - out), n - 1); }
		if (up == n - 1) { fillelem(e.data(), w, base - 1); VF_CHECK(!o.insert(q, e.data(), &x) && x == 0, "queue:insert", "%s: accepted with %u used", o.name, n - 1); count("full"); }
		while (in - out > down) { x = ~0u; VF_CHECK(o.remove(q, e.data(), &x), "queue:remove", "%s: found nothing with %llu used", o.name, (unsigned long long) (in - out)); VF_CHECK(iselem(e.data(), w, base + out), "queue:order", "%s: the element removed is not the oldest one (size %u, width %u)", o.name, n, w); out++; VF_CHECK(x == in - out, "queue:count", "%s: %u elements reported, %llu remain", o.name, x, (unsigned long long) (in - out)); }
	}
	count("inserts", in); count("removes", out); count("large_queues"); seen("nontrivial", mix(in * 31 + out));
}
static void t_queue(Rng &r)
{
	const QOps &o = Q[r.below(3)];
	if (r.chance(1, 500)) return bigqueue(r, o);
	{	// sizes that are no power of two, or too small, are refused
		unsigned bad[] = { 0, 1, 3, 5, 6, 7, 9, 12, 24, 100, 1023, 1025 };
		unsigned b = bad[r.below(12)]; struct my_queue *q = o.init(b, 8);
		bool ok = q == nullptr; if (q) o.destroy(&q);
		VF_CHECK(ok, "queue:init", "%s: a queue of %u elements was accepted", o.name, b);
	}
	unsigned n = 1u << r.range(1, r.chance(1, 8) ? 10 : 4), w = (unsigned) r.range(1, r.chance(1, 8) ? 300 : 24);
	struct my_queue *q = o.init(n, w);
	VF_CHECK(q, "queue:init", "%s: a queue of %u elements was refused", o.name, n);
	std::vector<u64> m; u64 next = g_case << 20; size_t ops = r.range(10, 200); unsigned bias = r.range(1, 9); u64 h = 0;
	try {
	for (size_t i = 0; i < ops; i++) {
		if (r.chance(1, 25)) bias = r.range(0, 10);
		bool null = r.chance(1, 6); unsigned x = 0xdeadbeef;
		if (r.below(10) < bias) {
			Exact e(Bytes(w, 0)); fillelem(e.p, w, ++next);
			bool ok = o.insert(q, e.p, null ? nullptr : &x), want = m.size() < n - 1;
			if (want) m.push_back(next); else count("full");
			VF_CHECK(ok == want, "queue:insert", "%s: insert into %zu of %u: %s", o.name, m.size(), n - 1, ok ? "accepted" : "refused");
			VF_CHECK(null || x == n - 1 - m.size(), "queue:space", "%s: %u spaces reported with %zu of %u used", o.name, x, m.size(), n - 1);
			count("inserts");
		} else {
			Exact e(w, 0x5a);
			bool ok = o.remove(q, e.p, null ? nullptr : &x), want = !m.empty();
			VF_CHECK(ok == want, "queue:remove", "%s: remove from %zu elements: %s", o.name, m.size(), ok ? "succeeded" : "failed");
			if (want) { VF_CHECK(iselem(e.p, w, m[0]), "queue:order", "%s: the element removed is not the oldest one (size %u, width %u)", o.name, n, w); m.erase(m.begin()); } else count("empty");
			VF_CHECK(null || x == m.size(), "queue:count", "%s: %u elements reported, %zu remain", o.name, x, m.size());
			count("removes");
		}
		h = h * 31 + m.size(); seen("fill_states", n * 4096ull + m.size());
	}
	} catch (...) { o.destroy(&q); throw; }
	o.destroy(&q);
	VF_CHECK(q == nullptr, "queue:destroy", "%s: pointer not cleared", o.name);
	seen("nontrivial", h + n * 977 + w);
}

// one preemption at every instruction: the trap flag stops the running operation after a chosen number of
// instructions, and the other side's operation runs to completion there
static struct { volatile long at, n, at2; void (*fn)(); volatile bool ran; } g_step;
static void on_trap(int, siginfo_t *, void *) { long k = g_step.n++; if (k == g_step.at || k == g_step.at2) { g_step.ran = true; g_step.fn(); } }
static inline void tf_on() { asm volatile("lea -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
static inline void tf_off() { asm volatile("lea -128(%%rsp),%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
struct Side { const QOps *o; struct my_queue *q; u8 buf[512]; bool ok; unsigned x; };
struct Nest { Side s; int n; bool ok[4]; u8 buf[4][512]; unsigned x[4]; int tries; bool ins; };
static Nest g_n;
static void nest_run()
{
	for (int i = 0; i < g_n.tries && g_n.n < 4; i++) {
		int k = g_n.n++;
		g_n.x[k] = 0xdeadbeef;
		g_n.ok[k] = g_n.ins ? g_n.s.o->insert(g_n.s.q, g_n.buf[k], &g_n.x[k]) : g_n.s.o->remove(g_n.s.q, g_n.buf[k], &g_n.x[k]);
	}
}
static void t_qstep(Rng &r)
{
	static bool init;
	if (!init) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr); init = true; }
	const QOps &o = Q[r.below(2)];
	if (!strcmp(o.name, "default") && strcmp(my_queue_impl_type(), "memory barrier")) return;	// a lock cannot be preempted by its own thread
	unsigned n = 1u << r.range(1, 3), w = r.flip() ? (unsigned) r.range(1, 64) : (unsigned) r.range(65, 500);
	struct my_queue *q = o.init(n, w); VF_CHECK(q, "queue:init", "refused");
	struct Del { const QOps &o; struct my_queue *q; ~Del() { o.destroy(&q); } } del{o, q};
	std::vector<u64> m; u64 next = g_case << 20; static u8 e[512]; unsigned x;
	// warm up lazily bound functions
	fillelem(e, w, ++next); o.insert(q, e, &x); o.remove(q, e, &x);
	unsigned rounds = r.range(3, 12);
	for (unsigned round = 0; round < rounds; round++) {
		size_t want = r.below(n);
		while (m.size() < want) { fillelem(e, w, ++next); VF_CHECK(o.insert(q, e, nullptr), "queue:insert", "%s: refused with %zu of %u used", o.name, m.size(), n - 1); m.push_back(next); }
		while (m.size() > want) { VF_CHECK(o.remove(q, e, nullptr) && iselem(e, w, m[0]), "queue:order", "%s: wrong element", o.name); m.erase(m.begin()); }
		bool ins = r.flip();
		g_n.s.o = &o; g_n.s.q = q; g_n.n = 0; g_n.ins = !ins; g_n.tries = (int) r.range(1, 2);
		u64 ids[4]; if (!ins) for (int i = 0; i < 4; i++) { ids[i] = (1ull << 40) + (next + 100 + i); fillelem(g_n.buf[i], w, ids[i]); }
		u64 id = ++next; if (ins) fillelem(e, w, id); else memset(e, 0x5a, sizeof e);
		// first run may be a dry run to learn the number of instructions
		static long typical[2] = { 60, 60 };
		g_step.n = 0; g_step.at = (long) r.below((u64) typical[ins] + 4); g_step.at2 = r.chance(1, 3) ? (long) r.below((u64) typical[ins] + 4) : -1; g_step.fn = nest_run; g_step.ran = false;
		bool ok; x = 0xdeadbeef;
		if (ins) { tf_on(); ok = o.insert(q, e, &x); tf_off(); } else { tf_on(); ok = o.remove(q, e, &x); tf_off(); }
		if (g_step.n > 4 && g_step.n < 2000) typical[ins] = g_step.n;
		count("instructions", (u64) g_step.n); maxi("instructions_per_operation", (u64) g_step.n);
		if (g_step.ran) { count("preemptions"); seen("preemption_points", (u64) (ins << 20 | (g_step.at << 4) | (long) m.size())); seen("nontrivial", (u64) ((u64) g_step.at * 1000003 + m.size() * 17 + n * 7 + w * 101 + ins)); }
		std::string ctx = fmt("%s: %s preempted after %ld/%ld of %ld instructions by %d %s; %zu of %u used, width %u", o.name, ins ? "insert" : "remove", g_step.at, g_step.at2, g_step.n, g_n.n, ins ? "removes" : "inserts", m.size(), n - 1, w);
		size_t s0 = m.size(); size_t nested_ok = 0;
		if (ins) {
			bool got_own = false;
			for (int k = 0; k < g_n.n; k++) {
				if (!g_n.ok[k]) { VF_CHECK(m.empty() || got_own, "queue:step:lost", "%s: a nested remove found nothing", ctx.c_str()); continue; }
				nested_ok++;
				if (!m.empty()) { VF_CHECK(iselem(g_n.buf[k], w, m[0]), "queue:step:order", "%s: the nested remove got the wrong element", ctx.c_str()); m.erase(m.begin()); }
				else { VF_CHECK(!got_own && iselem(g_n.buf[k], w, id), "queue:step:torn", "%s: the nested remove got an element that was not inserted", ctx.c_str()); got_own = true; }
				VF_CHECK(g_n.x[k] <= m.size() + (got_own ? 0 : 1), "queue:step:count", "%s: %u elements reported", ctx.c_str(), g_n.x[k]);
			}
			VF_CHECK(ok || s0 == n - 1, "queue:step:refused", "%s: refused although there was room", ctx.c_str());
			VF_CHECK(!ok || s0 < n - 1 || nested_ok, "queue:step:overfull", "%s: accepted although the queue was full", ctx.c_str());
			VF_CHECK(ok || !got_own, "queue:step:phantom", "%s: refused, but its element came out", ctx.c_str());
			size_t lo = n - 1 - std::min<size_t>(n - 1, s0 + (ok ? 1 : 0)), hi = lo + nested_ok;
			VF_CHECK(x >= lo && x <= hi, "queue:step:space", "%s: %u spaces reported, expected %zu..%zu", ctx.c_str(), x, lo, hi);
			if (ok && !got_own) m.push_back(id);
		} else {
			size_t used = s0; std::vector<u64> added;
			for (int k = 0; k < g_n.n; k++) {
				VF_CHECK(g_n.ok[k] || used >= n - 1, "queue:step:refused", "%s: a nested insert was refused although there was room", ctx.c_str());
				VF_CHECK(!g_n.ok[k] || used < n - 1 || (ok && used < n), "queue:step:overfull", "%s: a nested insert was accepted although the queue was full", ctx.c_str());
				if (g_n.ok[k]) { added.push_back(ids[k]); used++; nested_ok++; }
				VF_CHECK(g_n.x[k] <= n - 1, "queue:step:space", "%s: %u spaces", ctx.c_str(), g_n.x[k]);
			}
			for (u64 a : added) m.push_back(a);
			VF_CHECK(!ok || !m.empty(), "queue:step:phantom", "%s: an element came out of an empty queue", ctx.c_str());
			VF_CHECK(ok || s0 == 0, "queue:step:lost", "%s: found nothing", ctx.c_str());
			if (ok) { VF_CHECK(iselem(e, w, m[0]), "queue:step:order", "%s: not the oldest element, or torn", ctx.c_str()); m.erase(m.begin()); }
			VF_CHECK(x <= m.size(), "queue:step:count", "%s: %u elements reported, %zu remain", ctx.c_str(), x, m.size());
			VF_CHECK(x + nested_ok >= m.size(), "queue:step:count", "%s: %u elements reported, %zu remain", ctx.c_str(), x, m.size());
		}
		if (m.size() > n - 1) vf::fail("queue:step:overfull", "%s: holds %zu", ctx.c_str(), m.size());
	}
	while (!m.empty()) { VF_CHECK(o.remove(q, e, nullptr) && iselem(e, w, m[0]), "queue:step:drain", "%s: wrong element while draining (%zu left)", o.name, m.size()); m.erase(m.begin()); }
	VF_CHECK(!o.remove(q, e, nullptr), "queue:step:phantom", "%s: an element too many", o.name);
}
static void stress(Rng &r, const QOps &o, u64 total)
{
	unsigned n = 1u << r.range(1, 7), w = (unsigned) r.range(8, r.flip() ? 16 : 400);
	struct my_queue *q = o.init(n, w); VF_CHECK(q, "queue:init", "refused");
	std::atomic<bool> bad{false}; std::string why; u64 full = 0, empty = 0, base = g_case << 24; unsigned pj = r.range(0, 200), cj = r.range(0, 200); u64 s1 = r.next(), s2 = r.next();
	std::thread prod([&] {
		Rng p(s1); std::vector<u8> e(w);
		for (u64 i = 0; i < total && !bad; i++) {
			fillelem(e.data(), w, base + i); unsigned sp; unsigned spin = 0;
			while (!o.insert(q, e.data(), &sp)) { full++; if (++spin > 50) sched_yield(); if (bad) return; }
			if (sp > n - 2) { bad = true; }
			if (pj && p.below(200) < pj / 20) for (volatile unsigned k = 0; k < p.below(300); k++) { }
		}
	});
	std::thread cons([&] {
		Rng p(s2); std::vector<u8> e(w);
		for (u64 i = 0; i < total && !bad; i++) {
			unsigned c; unsigned spin = 0;
			while (!o.remove(q, e.data(), &c)) { empty++; if (++spin > 50) sched_yield(); if (bad) return; }
			if (c > n - 2) { why = fmt("%u elements reported in a queue of %u", c, n); bad = true; return; }
			if (!iselem(e.data(), w, base + i)) { why = fmt("element %llu of %llu lost, duplicated, reordered or torn (queue %u, width %u)", (unsigned long long) i, (unsigned long long) total, n, w); bad = true; return; }
			if (cj && p.below(200) < cj / 20) for (volatile unsigned k = 0; k < p.below(300); k++) { }
		}
	});
	prod.join(); cons.join();
	bool rest = false; if (!bad) { std::vector<u8> e(w); rest = o.remove(q, e.data(), nullptr); }
	o.destroy(&q);
	VF_CHECK(!bad, "queue:stress", "%s: %s", o.name, why.empty() ? "impossible space count" : why.c_str());
	VF_CHECK(!rest, "queue:stress", "%s: an element too many", o.name);
	count("elements", total); count("found_full", full); count("found_empty", empty);
	seen("nontrivial", n * 1009 + w * 3 + (full > 0) + g_case * 65537);
}
static void t_qstress(Rng &r) { stress(r, Q[r.below(3)], g_thorough ? 100000 : 15000); }
static void t_qmutex(Rng &r) { stress(r, Q[2], g_thorough ? 20000 : 3000); }

// ---------------------------------------------------------------- file sets
struct FS { std::map<u64, Bytes> live; std::map<Bytes, u64> byname; u64 next = 1, loads = 0, unloads = 0; std::string err; bool nullptrs = false; };
static FS *g_fs;
static void *fs_load(struct my_fileset *fs, const char *fn)
{
	if (my_fileset_user(fs) != g_fs) g_fs->err = "user pointer";
	u64 id = g_fs->next++; g_fs->loads++;
	if (g_fs->byname.count(fn)) g_fs->err = fmt("%s loaded while it is loaded", fn);
	if (g_fs->nullptrs && mix(hash(fn, strlen(fn)) + id) % 3 == 0) { g_fs->byname[fn] = 0; count("loaded_as_null"); return nullptr; }	// a loader may have nothing to keep
	g_fs->live[id] = fn; g_fs->byname[fn] = id;
	return (void *) (uintptr_t) id;
}
static void fs_unload(struct my_fileset *fs, const char *fn, void *p)
{
	u64 id = (u64) (uintptr_t) p; g_fs->unloads++;
	if (my_fileset_user(fs) != g_fs) g_fs->err = "user pointer";
	if (id == 0) { auto z = g_fs->byname.find(fn); if (z == g_fs->byname.end() || z->second) g_fs->err = fmt("%s unloaded without its pointer", fn); else g_fs->byname.erase(z); return; }
	auto it = g_fs->live.find(id);
	if (it == g_fs->live.end()) { g_fs->err = fmt("%s unloaded with a pointer that is not loaded", fn); return; }
	if (it->second != fn) { g_fs->err = fmt("%s unloaded with the pointer of %s", fn, it->second.c_str()); return; }
	g_fs->byname.erase(fn); g_fs->live.erase(it);
}
static void put(const std::string &p, const Bytes &b) { FILE *f = __real_fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(78); } fwrite(b.data(), 1, b.size(), f); fclose(f); }
static bool exists(const std::string &p) { struct stat sb; return stat(p.c_str(), &sb) == 0; }
static void t_fileset(Rng &r)
{
	std::string dir = scratch() + "/fs"; rm_rf(dir); mkdir(dir.c_str(), 0700);
	bool subdir = r.flip(); if (subdir) mkdir((dir + "/sub").c_str(), 0700);
	std::string set = dir + "/x.set"; put(set, ""); time_t mt = 1000000000;
	auto stamp = [&] { struct timespec t[2] = { { mt, 0 }, { mt, 0 } }; utimensat(AT_FDCWD, set.c_str(), t, 0); };
	stamp();
	FS F; g_fs = &F; F.nullptrs = r.chance(1, 3);
	unsigned univ = (unsigned) r.range(1, r.chance(1, 60) ? 400 : 12); std::vector<std::string> names;
	for (unsigned i = 0; i < univ; i++) names.push_back((subdir && r.chance(1, 4) ? "sub/" : "") + std::string(1, (char) ('a' + r.below(26))) + (r.flip() ? fmt("%u", i) : std::string(r.range(1, 60), 'z') + fmt("%u", i)) + ".mtbl");
	for (auto &n : names) if (r.chance(3, 4)) put(dir + "/" + n, "x");
	struct my_fileset *fs = my_fileset_init(set.c_str(), fs_load, fs_unload, &F);
	VF_CHECK(fs, "fileset:init", "failed");
	struct Del { struct my_fileset *&f; ~Del() { if (f) my_fileset_destroy(&f); } } del{fs};
	std::set<Bytes> want; Bytes cur, tr; bool first = true; bool pending = false; bool missed = false; time_t top = mt;	// missed: the last state of the list was never read
	unsigned rounds = r.range(2, 14);
	for (unsigned k = 0; k < rounds; k++) {
		// change files on disk
		for (auto &n : names) if (r.chance(1, 6)) { if (exists(dir + "/" + n)) unlink((dir + "/" + n).c_str()); else put(dir + "/" + n, "y"); count("files_changed"); }
		bool change = first || r.chance(3, 4);
		if (change) {
			Bytes t; std::vector<std::string> pick;
			for (auto &n : names) if (r.chance(2, 3)) { pick.push_back(n); if (r.chance(1, 10)) { pick.push_back(n); count("duplicate_lines"); } }
			if (r.chance(1, 4)) pick.push_back("does-not-exist.mtbl");
			r.shuffle(pick);
			for (size_t i = 0; i < pick.size(); i++) t += pick[i] + (i + 1 == pick.size() && r.chance(1, 3) ? "" : "\n");
			// rewritten in place with another time, or replaced by another file, whose time may be the same or an older one
			struct stat s0, s1; if (stat(set.c_str(), &s0)) _exit(78);
			bool repl = r.flip(); if (!repl) put(set, t); else { put(set + ".new", t); rename((set + ".new").c_str(), set.c_str()); }
			if (stat(set.c_str(), &s1)) _exit(78);
			unsigned how = (unsigned) r.below(6); if (how == 0 && repl && s0.st_ino != s1.st_ino && !missed) count("same_time"); else if (how == 1 && !missed) { mt -= 1 + (time_t) r.below(100); count("older_time"); } else { mt = std::max(mt, top) + 1 + (time_t) r.below(3); }
			top = std::max(top, mt); stamp(); cur = t; pending = true;
		}
		bool fault = pending && r.chance(1, 8); missed = false;
		if (fault) g_fopen_fail = 1;
		bool gone = !fault && r.chance(1, 15);
		if (gone) rename(set.c_str(), (set + ".away").c_str());
		u64 l0 = F.loads, u0 = F.unloads;
		std::set<Bytes> before; for (auto &kv : F.byname) before.insert(kv.first);
		my_fileset_reload(fs);
		bool refused = fault && g_fopen_fail == 0; g_fopen_fail = 0;
		if (gone) rename((set + ".away").c_str(), set.c_str());
		VF_CHECK(F.err.empty(), "fileset:callbacks", "%s", F.err.c_str());
		if (gone || refused) { missed = true; count(gone ? "set_missing" : "open_failures"); VF_CHECK(F.loads == l0 && F.unloads == u0, "fileset:spurious", "files were (un)loaded although the set could not be read"); }
		else if (pending) {
			want.clear(); size_t p = 0; std::set<Bytes> inset;
			while (p < cur.size()) { size_t e = cur.find('\n', p); if (e == Bytes::npos) e = cur.size(); Bytes n = cur.substr(p, e - p); p = e + 1; if (exists(dir + "/" + n)) want.insert(dir + "/" + n); }
			pending = false; first = false; count("reloads");
			u64 keep = 0; for (auto &n : want) keep += before.count(n);
			VF_CHECK(F.loads - l0 == want.size() - keep, "fileset:loads", "%llu files loaded, %zu are new", (unsigned long long) (F.loads - l0), (size_t) (want.size() - keep));
			VF_CHECK(F.unloads - u0 == before.size() - keep, "fileset:unloads", "%llu files unloaded, %zu left the set", (unsigned long long) (F.unloads - u0), (size_t) (before.size() - keep));
		} else { VF_CHECK(F.loads == l0 && F.unloads == u0, "fileset:spurious", "the set file did not change, yet %llu files were loaded and %llu unloaded", (unsigned long long) (F.loads - l0), (unsigned long long) (F.unloads - u0)); count("unchanged"); }
		std::set<Bytes> have; for (auto &kv : F.byname) have.insert(kv.first);
		VF_CHECK(have == want, "fileset:conservation", "%zu files are loaded, the set names %zu existing ones", have.size(), want.size());
		size_t i = 0; const char *fn; void *ptr;
		for (auto &n : want) {
			fn = nullptr; ptr = nullptr;
			VF_CHECK(my_fileset_get(fs, i, &fn, &ptr) && n == fn, "fileset:get", "entry %zu is %s, expected %s", i, fn ? fn : "(none)", n.c_str());
			VF_CHECK((u64) (uintptr_t) ptr == F.byname[n], "fileset:get", "entry %zu (%s) has the wrong pointer", i, n.c_str());
			i++;
		}
		VF_CHECK(!my_fileset_get(fs, i, &fn, &ptr), "fileset:get", "there is an entry %zu", i);
		maxi("files", want.size()); tr += fmt("%zu,", want.size()); seen("sets", hash(cur));
	}
	my_fileset_destroy(&fs);
	VF_CHECK(F.err.empty(), "fileset:callbacks", "%s", F.err.c_str());
	VF_CHECK(F.live.empty() && F.byname.empty() && F.loads == F.unloads, "fileset:leak", "%zu files stay loaded after the set is destroyed", F.live.size());
	if (F.loads) seen("nontrivial", hash(tr + cur));
	count("loads", F.loads); count("unloads", F.unloads);
	rm_rf(dir);
}

// ---------------------------------------------------------------- spool directories
static Bytes slurp(const std::string &p) { FILE *f = __real_fopen(p.c_str(), "r"); if (!f) return "?"; Bytes b; char t[512]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n); fclose(f); return b; }
static void t_spool(Rng &r)
{
	std::string dir = scratch() + "/spool"; rm_rf(dir); mkdir(dir.c_str(), 0700);
	bool pre = r.flip(); if (pre) { mkdir((dir + "/incoming").c_str(), 0700); mkdir((dir + "/active").c_str(), 0700); }
	struct spooldir *s = spooldir_init(dir.c_str()); VF_CHECK(s, "spool:init", "failed");
	VF_CHECK(exists(dir + "/incoming") && exists(dir + "/active"), "spool:init", "directories missing");
	char *rp = realpath(dir.c_str(), nullptr); std::string real = rp; free(rp);
	std::map<Bytes, Bytes> expect; unsigned nthr = (unsigned) r.range(1, 4), nf = (unsigned) r.range(0, r.chance(1, 100) ? 600 : 24);
	std::vector<std::string> late; std::set<Bytes> stay;
	auto mk = [&](unsigned i) { std::string n = (r.chance(1, 3) ? std::string(r.range(1, 150), (char) ('a' + r.below(26))) : std::string("f")) + fmt("%u", i) + (r.chance(1, 10) ? " x y" : r.chance(1, 10) ? "%s%n" : ""); Bytes c = fmt("%llu-%u-", (unsigned long long) g_case, i) + r.bytes(r.below(40)); return std::make_pair(n, c); };
	std::vector<std::pair<std::string, Bytes>> later;
	for (unsigned i = 0; i < nf; i++) {
		auto f = mk(i);
		switch (r.below(10)) {
		case 0: put(dir + "/incoming/." + f.first, f.second); stay.insert("." + f.first); count("hidden"); break;
		case 1: mkdir((dir + "/incoming/" + f.first).c_str(), 0700); stay.insert(f.first); count("directories"); break;
		case 2: if (symlink("/nonexistent/x", (dir + "/incoming/" + f.first).c_str())) { } stay.insert(f.first); count("dangling"); break;
		case 9: switch (r.below(3)) {
			case 0: if (mkfifo((dir + "/incoming/" + f.first).c_str(), 0600)) { } count("fifos"); break;
			case 1: { struct sockaddr_un a = {}; a.sun_family = AF_UNIX; std::string t = dir + "/u"; if (t.size() < sizeof a.sun_path) { memcpy(a.sun_path, t.data(), t.size()); int fd = socket(AF_UNIX, SOCK_STREAM, 0); if (fd >= 0 && bind(fd, (struct sockaddr *) &a, sizeof a) == 0 && rename(t.c_str(), (dir + "/incoming/" + f.first).c_str()) == 0) count("sockets"); if (fd >= 0) close(fd); } break; }
			default: if (symlink("/", (dir + "/incoming/" + f.first).c_str())) { } count("links_to_directories");
			}
			{ struct stat sb; if (lstat((dir + "/incoming/" + f.first).c_str(), &sb) == 0) stay.insert(f.first); } break;
		case 3: put(dir + "/active/" + f.first, "older content"); put(dir + "/incoming/" + f.first, f.second); expect[f.first] = f.second; count("replaced"); break;
		case 6: put(dir + "/target-" + fmt("%u", i), f.second); if (symlink((dir + "/target-" + fmt("%u", i)).c_str(), (dir + "/incoming/" + f.first).c_str())) { } expect[f.first] = f.second; count("links_to_files"); break;
		case 4: case 5: later.push_back(f); expect[f.first] = f.second; break;
		default: put(dir + "/incoming/" + f.first, f.second); expect[f.first] = f.second;
		}
	}
	std::vector<std::vector<std::string>> got(nthr); std::atomic<bool> done{false};
	std::vector<std::thread> th;
	for (unsigned t = 0; t < nthr; t++) th.emplace_back([&, t] { unsigned idle = 0; while (idle < 3) { bool d = done; char *p = spooldir_next(s); if (p) { got[t].push_back(p); free(p); idle = 0; } else if (d) idle++; } });
	for (auto &l : later) { put(dir + "/incoming/." + l.first + ".tmp", l.second); rename((dir + "/incoming/." + l.first + ".tmp").c_str(), (dir + "/incoming/" + l.first).c_str()); if (r.flip()) sched_yield(); count("arrived_late"); }
	done = true;
	for (auto &t : th) t.join();
	spooldir_destroy(&s);
	std::set<Bytes> seenn;
	for (auto &g : got) for (auto &p : g) {
		std::string want = real + "/active/";
		VF_CHECK(p.compare(0, want.size(), want) == 0, "spool:path", "returned %s", p.c_str());
		Bytes n = p.substr(want.size());
		VF_CHECK(expect.count(n), "spool:foreign", "returned %s, which is not a spooled file", n.c_str());
		VF_CHECK(seenn.insert(n).second, "spool:twice", "%s was handed out twice", n.c_str());
		VF_CHECK(slurp(p) == expect[n], "spool:content", "%s has the wrong content", n.c_str());
		VF_CHECK(!exists(dir + "/incoming/" + n), "spool:copy", "%s is still in incoming", n.c_str());
	}
	VF_CHECK(seenn.size() == expect.size(), "spool:lost", "%zu of %zu files were handed out", seenn.size(), expect.size());
	struct stat sb; for (auto &n : stay) VF_CHECK(lstat((dir + "/incoming/" + n).c_str(), &sb) == 0, "spool:took", "%s should have stayed", n.c_str());
	count("files", expect.size()); unsigned active = 0; for (auto &g : got) active += !g.empty(); maxi("threads_with_work", active); seen("splits", active);
	if (!expect.empty()) { u64 h = 0; for (auto &g : got) h = h * 131 + g.size(); for (auto &e : expect) h = hash(e.second, h); seen("nontrivial", h); }
	rm_rf(dir);
}

// ---------------------------------------------------------------- rate limiting in virtual time
static void t_rate(Rng &r)
{
	static const unsigned R[] = { 1, 2, 3, 4, 5, 7, 10, 25, 30, 60, 99, 100, 128, 250, 333, 500, 999, 1000, 1024, 2500, 10000, 44100, 100000, 1000000 };
	unsigned rate = r.flip() ? R[r.below(24)] : (unsigned) r.range(1, 3000), freq = r.chance(2, 3) ? 0 : (unsigned) r.range(1, 50);
	g_intr = r.flip() ? 16 : 2; bool alt = r.flip(); bool lazy = freq == 0 && r.flip();
	g_vr = &r; g_now = 1500000000LL * 1000000000 + (int64_t) r.below(1000000000); g_jitter_max = r.flip() ? 0 : (int64_t) r.below(200000); g_slept = 0; g_sleeps = 0;
	g_virtual = true;
	struct V { ~V() { g_virtual = false; g_vr = nullptr; } } v;
	struct my_rate *m = alt ? my_rate2_init(rate, freq) : my_rate_init(rate, freq); VF_CHECK(m, "rate:init", "failed");
	struct D { struct my_rate *m; bool a; ~D() { if (a) my_rate2_destroy(&m); else my_rate_destroy(&m); } } d{m, alt};
	int64_t t0 = g_now; u64 n = std::min<u64>(rate * 12ull, g_thorough ? 20000 : 4000); if (n < 30) n = 30; std::vector<int64_t> ret;
	double low = rate;	// the least the limiter may have come down to: each correction takes one percent at most, in whole events
	for (u64 i = 0; i < n; i++) {
		if (freq && (i + 1) % freq == 0 && i + 1 > freq) low = std::max(1.0, floor(low * 0.99 - 1e-9));
		if (lazy && r.chance(1, 20)) g_now += (int64_t) r.below(4000000000ULL); else if (r.flip()) g_now += (int64_t) r.below(1000000000ULL / rate / 4 + 1);
		int64_t s0 = g_slept;
		if (alt) my_rate2_sleep(m); else my_rate_sleep(m);
		int64_t slept = g_slept - s0; ret.push_back(g_now);
		if (freq == 0) VF_CHECK(slept <= 1000000000LL / rate + 2, "rate:oversleep", "rate %u: slept %lld ns before event %llu", rate, (long long) slept, (unsigned long long) i);
		else VF_CHECK(slept <= (int64_t) (1e9 / low) + 2, "rate:oversleep", "rate %u freq %u: slept %lld ns before event %llu, a limit of %.0f a second", rate, freq, (long long) slept, (unsigned long long) i, low);
	}
	// no window holds more events than the rate allows (one stray tick per second is tolerated: ticks restart every second)
	for (size_t a = 0; a < ret.size(); a += 1 + ret.size() / 40) for (double W : { 1.0, 3.0, 10.0 }) {
		size_t b = a; while (b < ret.size() && ret[b] - ret[a] < (int64_t) (W * 1e9)) b++;
		double lim = (rate + 1.0) * (W + 1) + 2; if (freq) lim = lim * 1.25 + freq;
		VF_CHECK((double) (b - a) <= lim, "rate:exceeded", "rate %u freq %u: %zu events within %.0f s", rate, freq, b - a, W);
		count("windows");
	}
	double T = (double) (ret.back() - t0) / 1e9;
	VF_CHECK((double) n <= ((rate + 1.0) * (T + 1) + 2) * (freq ? 1.25 : 1) + freq, "rate:exceeded", "rate %u freq %u: %llu events in %.3f s", rate, freq, (unsigned long long) n, T);
	count("events", n); count("sleeps", g_sleeps); seen("rates", rate); seen("freqs", freq); seen("nontrivial", rate * 977ull + freq * 7 + alt + g_case * 10000019ull);
	my_rate_sleep(nullptr);
}
// a long run of a fast caller with corrections and no faults
static void t_drift(Rng &r)
{
	static const struct { unsigned rate, freq; } S[] = { { 99, 1 }, { 100000, 50 } };
	auto &c = S[g_case % 2];
	g_vr = nullptr; g_now = 1500000000LL * 1000000000; g_jitter_max = 0; g_slept = 0; g_sleeps = 0; g_virtual = true;
	struct V { ~V() { g_virtual = false; } } v;
	struct my_rate *m = my_rate_init(c.rate, c.freq); struct D { struct my_rate *m; ~D() { my_rate_destroy(&m); } } d{m};
	int64_t t0 = g_now; u64 n = 0; while (g_now - t0 < 20000000000LL && n < c.rate * 60ull) { my_rate_sleep(m); n++; }
	count("events", n); (void) r; seen("nontrivial", n + c.rate * 1000003ull);
	VF_CHECK(n >= c.rate * 16ull, c.rate < 100 ? "rate:drift:below100" : "rate:drift", "a limit of %u a second with corrections every %u events: %llu events in 20 s", c.rate, c.freq, (unsigned long long) n);
	VF_CHECK(n <= c.rate * 26ull, "rate:drift:up", "a limit of %u a second with corrections every %u events: %llu events in 20 s", c.rate, c.freq, (unsigned long long) n);
}

// ---------------------------------------------------------------- thread numbers
static void t_threadnum(Rng &r)
{
	static int next; static bool first = true;
	if (r.chance(1, 10)) {	// many threads, one after the other
		unsigned k = (unsigned) r.range(100, 700); for (unsigned i = 0; i < k; i++) { int x = -1, y = -2; std::thread([&] { my_threadnum_register(); x = my_threadnum(); y = my_threadnum(); }).join(); if (first) { next = 0; first = false; } VF_CHECK(x == y, "threadnum:stable", "a thread's number changed"); VF_CHECK(x == next, "threadnum:consecutive", "thread %d in turn got number %d", next, x); next++; }
		count("threads", k); maxi("numbers", (u64) next); seen("nontrivial", (u64) next * 1000003); return;
	}
	unsigned n = (unsigned) r.range(1, 12); std::vector<int> a(n, -1), b(n, -2); std::atomic<unsigned> ready{0};
	std::vector<std::thread> t;
	for (unsigned i = 0; i < n; i++) t.emplace_back([&, i] { ready++; while (ready < n) sched_yield(); my_threadnum_register(); a[i] = my_threadnum(); sched_yield(); b[i] = my_threadnum(); });
	for (auto &x : t) x.join();
	std::set<int> s(a.begin(), a.end());
	VF_CHECK(a == b, "threadnum:stable", "a thread's number changed");
	VF_CHECK(s.size() == n, "threadnum:unique", "%u threads got %zu numbers", n, s.size());
	if (first) { next = 0; first = false; }
	VF_CHECK(*s.begin() == next && *s.rbegin() == next + (int) n - 1, "threadnum:consecutive", "numbers %d..%d, expected %d..%d", *s.begin(), *s.rbegin(), next, next + (int) n - 1);
	next += (int) n; count("threads", n);
	u64 h = 0; for (int x : a) h = h * 31 + (u64) (x - *s.begin()); seen("nontrivial", h); seen("orders", h);
}

// ---------------------------------------------------------------- atomic counters
extern "C" {
size_t wa_size(int); int64_t wa_static(int), wa_read(int, void *), wa_zero(int, void *);
void wa_set(int, void *, int64_t), wa_add(int, void *, int64_t), wa_sub(int, void *, int64_t), wa_inc(int, void *), wa_dec(int, void *);
int wa_sub_and_test(int, void *, int64_t), wa_dec_and_test(int, void *), wa_inc_and_test(int, void *), wa_add_negative(int, void *, int64_t);
void *wa_ptr_get(void *); bool wa_ptr_set(void *, void *);
}
static int64_t wrapw(int w, u64 v) { return w == 32 ? (int64_t) (int32_t) (u32) v : (int64_t) v; }
// one thread: every operation against plain arithmetic of the counter's width, between guard bytes
static void t_atomseq(Rng &r)
{
	int w = r.flip() ? 32 : 64; u64 h = (u64) w;
	VF_CHECK(wa_static(w) == (w == 32 ? 41 : (int64_t) 41 << 40), "atomic:init", "a %d bit counter initialised statically reads %lld", w, (long long) wa_static(w));
	Exact cell(wa_size(w), 0x5a); void *v = cell.p;
	auto operand = [&](int64_t cur) { switch (r.below(5)) { case 0: return wrapw(w, (u64) cur); case 1: return wrapw(w, -(u64) cur); case 2: return wrapw(w, r.below(5) - 2); default: return wrapw(w, r.edgy64() * (r.flip() ? 1 : -1)); } };
	int64_t m = wrapw(w, r.edgy64()); wa_set(w, v, m);
	for (unsigned i = 0, n = (unsigned) r.range(5, 60); i < n; i++) {
		int64_t x = operand(m), ret = 0, want = 0; unsigned op = (unsigned) r.below(11);
		switch (op) {
		case 0: m = wrapw(w, r.chance(1, 3) ? (u64) operand(m) : r.below(3) - 1); wa_set(w, v, m); break;
		case 1: m = wrapw(w, (u64) m + (u64) x); wa_add(w, v, x); break;
		case 2: m = wrapw(w, (u64) m - (u64) x); wa_sub(w, v, x); break;
		case 3: want = m; m = 0; ret = wa_zero(w, v); break;
		case 4: m = wrapw(w, (u64) m - (u64) x); want = m == 0; ret = !!wa_sub_and_test(w, v, x); break;
		case 5: m = wrapw(w, (u64) m + 1); wa_inc(w, v); break;
		case 6: m = wrapw(w, (u64) m - 1); wa_dec(w, v); break;
		case 7: m = wrapw(w, (u64) m - 1); want = m == 0; ret = !!wa_dec_and_test(w, v); break;
		case 8: m = wrapw(w, (u64) m + 1); want = m == 0; ret = !!wa_inc_and_test(w, v); break;
		case 9: m = wrapw(w, (u64) m + (u64) x); want = m < 0; ret = !!wa_add_negative(w, v, x); break;
		default: ret = want = 0; break;
		}
		VF_CHECK(ret == want, "atomic:result", "%d bit operation %u with %lld answered %lld, not %lld", w, op, (long long) x, (long long) ret, (long long) want);
		VF_CHECK(wa_read(w, v) == m, "atomic:value", "%d bit operation %u with %lld left %lld, not %lld", w, op, (long long) x, (long long) wa_read(w, v), (long long) m);
		h = h * 131 + op * 7 + (u64) want; count("operations");
	}
	Exact pc(wa_size(0), 0); void *cur = nullptr;
	for (unsigned i = 0; i < 8; i++) {
		VF_CHECK(wa_ptr_get(pc.p) == cur, "atomic:ptr", "the pointer read is not the one stored");
		void *nw = r.chance(1, 4) ? nullptr : r.chance(1, 4) ? cur : (void *) (uintptr_t) r.edgy64();
		VF_CHECK(wa_ptr_set(pc.p, nw), "atomic:ptr:set", "storing a pointer failed with no other thread about"); cur = nw;
	}
	seen("nontrivial", h);
}

// many short rounds: all threads do one operation each at the same moment, so that the crossing itself is contended
static void atomrounds(Rng &r)
{
	unsigned T = (unsigned) r.range(2, 4), R = (unsigned) r.range(50, 400); std::vector<u8> ops(R + 1); std::vector<int64_t> res(T);
	for (auto &o : ops) o = (u8) r.below(10);
	int w = r.flip() ? 32 : 64; alignas(8) char cell[8] = {}; void *v = cell; std::atomic<unsigned> go{0}, done{0};
	std::vector<std::thread> t;
	for (unsigned i = 0; i < T; i++) t.emplace_back([&, i] {
		for (unsigned k = 1; k <= R; k++) {
			unsigned n = 0; while (go.load() < k) if (++n > 500) { n = 0; sched_yield(); }
			switch (ops[k]) {
			case 0: case 1: res[i] = !!wa_dec_and_test(w, v); break;
			case 2: res[i] = !!wa_sub_and_test(w, v, 1); break;
			case 3: case 4: res[i] = !!wa_inc_and_test(w, v); break;
			case 5: res[i] = !!wa_add_negative(w, v, 1); break;
			case 6: res[i] = !!wa_add_negative(w, v, -1); break;
			case 7: case 8: res[i] = wa_zero(w, v); break;
			default: if (i) { wa_inc(w, v); res[i] = 0; } else res[i] = wa_zero(w, v); break;
			}
			done++;
		}
	});
	u64 h = T; bool bad = false; unsigned wk = 0; int64_t we = 0, ws = 0; 
	for (unsigned k = 1; k <= R; k++) {
		unsigned o = ops[k]; int64_t st = o <= 2 ? (int64_t) T : o <= 4 ? -(int64_t) T : o == 5 ? -(int64_t) (T / 2) : o == 6 ? (int64_t) (T / 2) : o <= 8 ? 1234567 : 5;
		wa_set(w, v, st); go = k;
		unsigned n = 0; while (done.load() < T * k) if (++n > 500) { n = 0; sched_yield(); }
		int64_t sum = 0, end = wa_read(w, v); for (unsigned i = 0; i < T; i++) sum += res[i], h = h * 31 + (u64) res[i] * (i + 1);
		bool ok = o <= 4 ? sum == 1 && end == 0 : o == 5 ? sum == (T / 2 ? (int64_t) (T / 2) - 1 : 0) && end == st + T : o == 6 ? sum == (int64_t) T - (int64_t) (T / 2) && end == st - T : o <= 8 ? sum == st && end == 0 : sum + end == st + (int64_t) T - 1;
		if (!ok && !bad) { bad = true; wk = o; we = end; ws = sum; }
	}
	for (auto &x : t) x.join();
	VF_CHECK(!bad, "atomic:round", "%u threads, one operation of kind %u each: results sum to %lld, the %d bit counter is left at %lld", T, wk, (long long) ws, w, (long long) we);
	count("rounds", R); count("operations", (u64) R * T); seen("nontrivial", h); seen("outcomes", h);
}

// several threads: nothing is lost, counted twice or reported twice, whatever the interleaving
static void t_atomrun(Rng &r)
{
	if (r.chance(1, 4)) return atomrounds(r);
	int w = r.flip() ? 32 : 64; unsigned kind = (unsigned) r.below(6), T = (unsigned) r.range(2, 6), N = (unsigned) r.range(20, 600);
	alignas(8) char cell[8] = {}; void *v = cell; int64_t base = r.flip() ? 0 : wrapw(w, r.edgy64());
	std::atomic<unsigned> ready{0}; std::vector<u64> seeds, want(T), got(T), hits(T); for (unsigned i = 0; i < T; i++) seeds.push_back(r.next());
	static void *cells[8 * 601]; std::vector<std::vector<void *>> won(T); std::vector<u8> bad(T);
	unsigned zeroers = (unsigned) r.range(1, T - 1);
	if (kind == 0 || kind == 1) wa_set(w, v, base);
	else if (kind == 2) wa_set(w, v, (int64_t) T * N);		// counts down to zero once
	else if (kind == 3) wa_set(w, v, -(int64_t) T * N);		// counts up to zero once
	else if (kind == 4) wa_set(w, v, -(int64_t) r.below(T * N + 1)); 
	int64_t start = kind < 5 ? wa_read(w, v) : 0;
	std::vector<std::thread> t;
	for (unsigned i = 0; i < T; i++) t.emplace_back([&, i] {
		Rng q(seeds[i]); ready++; while (ready < T) sched_yield();
		for (unsigned k = 0; k < N; k++) {
			if (q.chance(1, 64)) sched_yield();
			switch (kind) {
			case 0: { int64_t x = wrapw(w, q.edgy64()); switch (q.below(7)) {
				case 0: wa_add(w, v, x); want[i] += (u64) x; break;
				case 1: wa_sub(w, v, x); want[i] -= (u64) x; break;
				case 2: wa_inc(w, v); want[i]++; break;
				case 3: wa_dec(w, v); want[i]--; break;
				case 4: (void) wa_inc_and_test(w, v); want[i]++; break;
				case 5: (void) wa_add_negative(w, v, x); want[i] += (u64) x; break;
				default: (void) wa_sub_and_test(w, v, x); want[i] -= (u64) x; } break; }
			case 1: if (i < zeroers) got[i] += (u64) wa_zero(w, v); else { wa_inc(w, v); want[i]++; } break;	// what is taken out was put in
			case 2: if (q.flip() ? wa_dec_and_test(w, v) : wa_sub_and_test(w, v, 1)) hits[i]++; break;
			case 3: if (wa_inc_and_test(w, v)) hits[i]++; break;
			case 4: if (wa_add_negative(w, v, 1)) hits[i]++; break;
			default: { void *mine = &cells[i * 601 + k]; if (wa_ptr_set(v, mine)) won[i].push_back(mine); void *g = wa_ptr_get(v); if (g < (void *) cells || g >= (void *) (cells + 8 * 601)) bad[i] = 1; }
			}
		}
	});
	for (auto &x : t) x.join();
	u64 sw = 0, sg = 0, sh = 0, hh = kind * 3 + (u64) w; for (unsigned i = 0; i < T; i++) sw += want[i], sg += got[i], sh += hits[i], hh = hh * 1000003 + got[i] + hits[i];
	int64_t end = kind < 5 ? wa_read(w, v) : 0;
	count("operations", T * N); count(fmt("runs: kind %u", kind).c_str()); 
	switch (kind) {
	case 0: VF_CHECK(end == wrapw(w, (u64) start + sw), "atomic:lost", "%u threads, %u operations each on a %d bit counter: it holds %lld, not %lld", T, N, w, (long long) end, (long long) wrapw(w, (u64) start + sw)); break;
	case 1: VF_CHECK(wrapw(w, (u64) start + sw) == wrapw(w, sg + (u64) end), "atomic:taken", "%lld put in, %lld taken out with %lld left (%d bits)", (long long) wrapw(w, (u64) start + sw), (long long) sg, (long long) end, w); break;
	case 2: VF_CHECK(sh == 1 && end == 0, "atomic:once", "counting down to zero was reported %llu times, %lld left", (unsigned long long) sh, (long long) end); break;
	case 3: VF_CHECK(sh == 1 && end == 0, "atomic:once", "counting up to zero was reported %llu times, %lld left", (unsigned long long) sh, (long long) end); break;
	case 4: { u64 neg = start < 0 ? (u64) -start - 1 : 0; VF_CHECK(sh == neg && end == start + (int64_t) T * N, "atomic:negative", "%llu results were negative, not %llu", (unsigned long long) sh, (unsigned long long) neg); break; }
	default: { void *g = wa_ptr_get(v); bool in = false; u64 nw = 0; for (unsigned i = 0; i < T; i++) { VF_CHECK(!bad[i], "atomic:ptr:torn", "a pointer was read that nobody stored"); nw += won[i].size(); for (void *p : won[i]) in |= p == g; }
		VF_CHECK(in, "atomic:ptr:lost", "the pointer left is from no store that succeeded (%llu did)", (unsigned long long) nw); hh = hh * 31 + nw; }
	}
	for (unsigned i = 0; i < T; i++) hh = hh * 31 + won[i].size();
	seen("nontrivial", hh + T * 7919ull + N * 104729ull); seen("outcomes", hh);
}

int main(int argc, char **argv)
{
	return vf::main(argc, argv, { { "queue", t_queue }, { "qstep", t_qstep }, { "qstress", t_qstress }, { "qmutex", t_qmutex }, { "fileset", t_fileset }, { "spool", t_spool }, { "rate", t_rate }, { "drift", t_drift }, { "threadnum", t_threadnum }, { "atomseq", t_atomseq }, { "atomrun", t_atomrun } });
}
