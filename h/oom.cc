// Memory that cannot be had: every request of the code for memory may be refused.
#include "qry.h"
#include "oom.h"
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
using namespace dn;

// ---- requests ----
static long o_n, o_fail = -1; static bool o_on, o_sticky; static std::vector<u64> *o_sites;
static __attribute__((noinline)) bool refuse(void *a, void *b, void *c)
{
	if (!o_on) return false;
	long n = o_n++;
	if (o_sites) { u64 h = hash("site", 4); for (void *p : { a, b, c }) { intptr_t d = (char *) p - (char *) (void *) &refuse; h = hash(&d, sizeof d, h); } o_sites->push_back(h); }
	return o_fail >= 0 && (n == o_fail || (o_sticky && n > o_fail));
}
#pragma GCC diagnostic ignored "-Wframe-address"
#define RA __builtin_extract_return_addr(__builtin_return_address(0)), __builtin_return_address(1), __builtin_return_address(2)
extern "C" {
void *vf_oom_malloc(size_t n) { return refuse(RA) ? nullptr : malloc(n); }
void *vf_oom_calloc(size_t n, size_t m) { return refuse(RA) ? nullptr : calloc(n, m); }
void *vf_oom_realloc(void *p, size_t n) { return refuse(RA) ? nullptr : realloc(p, n); }
char *vf_oom_strdup(const char *s) { return refuse(RA) ? nullptr : strdup(s); }
char *vf_oom_strndup(const char *s, size_t n) { return refuse(RA) ? nullptr : strndup(s, n); }
int vf_oom_vasprintf(char **p, const char *f, va_list v) { if (refuse(RA)) { *p = nullptr; return -1; } return vasprintf(p, f, v); }
int vf_oom_asprintf(char **p, const char *f, ...) { if (refuse(RA)) { *p = nullptr; return -1; } va_list v; va_start(v, f); int r = vasprintf(p, f, v); va_end(v); return r; }
int oom_obs(int ok, const char *f, ...);
void oom_my(uint64_t seed, const char *dir);
}

// ---- what a session shows: step by step as without refusals, up to the first call that fails ----
struct Line { bool ok; std::string s; bool operator==(const Line &o) const { return ok == o.ok && s == o.s; } };
static std::vector<Line> o_base; static size_t o_at; static bool o_rec, o_refused;
static int o_msg = -1;
struct Refused { };
static bool obs(bool ok, const std::string &s)
{
	Line l = { ok, s };
	if (o_rec) { o_base.push_back(l); return true; }
	if (o_at < o_base.size() && o_base[o_at] == l) { o_at++; return true; }
	if (!ok && o_fail >= 0) { o_refused = true; return false; }
	std::string m = "step " + std::to_string(o_at) + " gives " + s.substr(0, 300) + " instead of " + (o_at < o_base.size() ? o_base[o_at].s.substr(0, 300) : "nothing") + "\n";
	if (write(o_msg, m.data(), m.size()) < 0) { }
	_exit(7);
}
static void see(bool ok, const std::string &s) { if (!obs(ok, s)) throw Refused(); }
int oom_obs(int ok, const char *f, ...) { char b[2048]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return obs(ok != 0, b); }

struct Off { bool was = o_on; Off() { o_on = false; } ~Off() { o_on = was; } };

static void judge_session(Rng &g, const std::function<void()> &session, const char *what)
{
	static std::map<u64, u64> tried;
	std::vector<u64> sites;
	auto once = [&](long fail, bool sticky) { o_n = 0; o_fail = fail; o_sticky = sticky; o_at = 0; o_refused = false; o_on = true; try { session(); } catch (Refused &) { } o_on = false; };
	o_base.clear(); o_rec = true; o_sites = &sites; once(-1, false); o_rec = false; o_sites = nullptr;
	size_t total = sites.size(); count("requests", total); count("steps of sessions", o_base.size());
	sample(fmt("%s: %zu steps, %zu requests", what, o_base.size(), total));
	if (!total) return;
	std::vector<std::pair<u64, size_t>> cand; for (size_t i = 0; i < total; i++) cand.push_back({ tried[sites[i]] * 1000 + g.below(1000), i });
	std::sort(cand.begin(), cand.end());
	size_t n = std::min<size_t>(cand.size(), 8); std::set<u64> now; std::vector<size_t> pick;
	for (auto &c : cand) if (pick.size() < n && now.insert(sites[c.second]).second) pick.push_back(c.second);
	std::string ep = scratch() + "/oom.err", mp = scratch() + "/oom.msg";
	for (size_t k : pick) {
		bool sticky = g.chance(1, 3); tried[sites[k]]++; seen("places where a request was refused", sites[k]);
		fflush(stdout); fflush(stderr);
		int ef = open(ep.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), mf = open(mp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		pid_t p = fork();
		if (p < 0) { perror("fork"); exit(78); }
		if (!p) {
			signal(SIGABRT, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(60); dup2(ef, 2); o_msg = mf;
			once((long) k, sticky);
			bool r = o_refused;
			if (!r && o_at != o_base.size()) { static const char m[] = "the session ends early\n"; if (write(o_msg, m, sizeof m - 1) < 0) { } _exit(7); }
			if (r) { once(-1, false); if (o_at != o_base.size()) _exit(8); }	// and nothing is left wrong for those who come after
			_exit(r ? 5 : 6);
		}
		int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
		auto text = [&](int fd) { char b[1800]; ssize_t x = pread(fd, b, sizeof b, 0); return std::string(b, x > 0 ? (size_t) x : 0); };
		std::string err, msg; bool stop = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, ref = WIFEXITED(st) && WEXITSTATUS(st) == 5, none = WIFEXITED(st) && WEXITSTATUS(st) == 6;
		if (!stop && !ref && !none) { err = text(ef); msg = text(mf); }
		close(ef); close(mf);
		count("requests refused"); count(stop ? "stopped by an assertion" : ref ? "refused calls" : "made no difference"); if (sticky) count("refused for good");
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) fail("hang", "%s: request %zu of %zu refused%s: no end", what, k, total, sticky ? " and all after it" : "");
		if (WIFEXITED(st) && WEXITSTATUS(st) >= 7 && WEXITSTATUS(st) <= 8) fail("wrong", "%s: request %zu of %zu refused%s: %s%s", what, k, total, sticky ? " and all after it" : "", WEXITSTATUS(st) == 8 ? "a later session differs: " : "", msg.c_str());
		if (!stop && !ref && !none) fail("crash", "%s: request %zu of %zu refused%s: status %#x: %s", what, k, total, sticky ? " and all after it" : "", st, err.c_str());
	}
}

// ---- sessions of dnstable ----
static std::string entry_line(struct dnstable_entry *e, Rng &g)
{
	std::string s; u64 v; size_t n; const u8 *p; const char *c;
	see(e != nullptr, "entry");
	auto str = [&](char *t, const char *w) { see(t != nullptr, std::string(w) + (t ? t : "")); free(t); };
	switch (g.below(4)) {
	case 0: str(dnstable_entry_to_text(e), "text "); break;
	case 1: str(dnstable_entry_to_json(e), "json "); break;
	case 2: {
		struct dnstable_formatter *f = dnstable_formatter_init(); see(f != nullptr, "formatter");
		struct G { struct dnstable_formatter *f; ~G() { dnstable_formatter_destroy(&f); } } gd = { f };
		dnstable_formatter_set_output_format(f, g.flip() ? dnstable_output_format_json : dnstable_output_format_text); dnstable_formatter_set_date_format(f, g.flip() ? dnstable_date_format_unix : dnstable_date_format_rfc3339);
		dnstable_formatter_set_rdata_array(f, g.flip()); dnstable_formatter_set_raw_rdata(f, g.flip());
		str(dnstable_entry_format(f, e), "format "); break;
	}
	default: break;
	}
	if (dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success) s += hex(p, n);
	if (dnstable_entry_get_rrtype(e, (u16 *) &v) == dnstable_res_success) s += fmt(" type %u", (unsigned) (u16) v);
	if (dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success) s += " bw " + hex(p, n);
	if (dnstable_entry_get_num_rdata(e, &n) == dnstable_res_success) { size_t m = n; for (size_t i = 0; i < m && i < 5; i++) if (dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success) s += " rd " + hex(p, std::min<size_t>(n, 40)); }
	if (dnstable_entry_get_time_first(e, &v) == dnstable_res_success) s += fmt(" f %llu", (unsigned long long) v);
	if (dnstable_entry_get_time_last(e, &v) == dnstable_res_success) s += fmt(" l %llu", (unsigned long long) v);
	if (dnstable_entry_get_count(e, &v) == dnstable_res_success) s += fmt(" c %llu", (unsigned long long) v);

	(void) c;
	return s;
}
static void rows(struct dnstable_iter *x, Rng &g)
{
	see(x != nullptr, "iterator");
	It it(x);
	size_t n = g.chance(1, 8) ? g.below(4) : 60; dnstable_res r = dnstable_res_success; struct dnstable_entry *e = nullptr;
	while (n-- && (r = dnstable_iter_next(x, &e)) == dnstable_res_success) {
		struct E { struct dnstable_entry *e; ~E() { dnstable_entry_destroy(&e); } } ed = { e };
		see(true, entry_line(e, g));
	}
	see(r == dnstable_res_success, r == dnstable_res_success ? "enough" : "end");
	bool ex; u64 v; std::string s;
	for (int st = 0; st <= 6; st++) for (int c = 0; c <= 8; c++) if (dnstable_iter_get_count(x, (dnstable_stat_stage) st, (dnstable_stat_category) c, &ex, &v) == dnstable_res_success && ex) s += fmt(" %d.%d=%llu", st, c, (unsigned long long) v);
	see(true, s);
}
static void setq(struct dnstable_query *q, dnstable_res r, const char *w)
{
	const char *e = r == dnstable_res_success ? "" : dnstable_query_get_error(q);
	see(r == dnstable_res_success, std::string(w) + " " + (e ? e : "no message"));
}
static void c_dnstable(Rng &g)
{
	size_t nf = g.chance(1, 3) ? 1 : g.range(2, 4);
	vf_mtbl_tiebreak = 0;
	static const dnstable_query_type QT[4] = { DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW };
	Db db = make_db(g, nf, g.range(2, 9));
	bool setfile = nf > 1 || g.flip();
	struct mtbl_reader *one = setfile ? nullptr : mem(db.f[0].raw()); Set *set = setfile ? new Set(db) : nullptr;
	std::vector<Q> qs; for (int i = 0; i < 2; i++) { Q q = rand_query(g, db, QT[g.below(4)]); if (g.flip()) rand_times(g, db, q); q.agg = setfile ? g.chance(2, 3) : true; if (g.chance(1, 5)) q.offset = g.below(4); qs.push_back(q); }
	u64 ss = g.next(); unsigned how = (unsigned) g.below(8); std::string what = qs[0].str();
	auto session = [&]() {
		Rng x(ss);	// the same choices every time
		struct R { struct dnstable_reader *r; ~R() { dnstable_reader_destroy(&r); } } r = { nullptr };
		r.r = setfile ? dnstable_reader_init_setfile(set->path.c_str()) : dnstable_reader_init(mtbl_reader_source(one));
		see(r.r != nullptr, "reader");
		for (auto &q : qs) {
			dnq d(dnstable_query_init(q.t)); see(d.q != nullptr, "query");
			dnstable_query_set_case_sensitive(d.q, q.cs);
			if (x.chance(1, 4)) setq(d.q, dnstable_query_set_data(d.q, x.flip() ? "..bad.." : "300.1.2.3/99"), "bad data");
			{ std::string t = q.data; dnstable_res res; { res = dnstable_query_set_data(d.q, t.c_str()); } setq(d.q, res, "data"); }
			if (q.has_rrs) setq(d.q, dnstable_query_set_rrtype(d.q, q.rrs.c_str()), "type");
			if (q.has_bw) setq(d.q, dnstable_query_set_bailiwick(d.q, q.bws.c_str()), "bailiwick");
			if (x.chance(1, 4)) setq(d.q, dnstable_query_set_rrtype(d.q, "no such type"), "bad type");
			dnstable_query_set_aggregated(d.q, q.agg); dnstable_query_set_offset(d.q, q.offset);
			for (int i = 0; i < 4; i++) if (q.has[i]) setq(d.q, dnstable_query_set_filter_parameter(d.q, FP[i], &q.tv[i], 8), "bound");
			struct timespec t = { 3000, 0 }; if (x.chance(1, 3)) dnstable_query_set_timeout(d.q, &t);
			rows(dnstable_reader_query(r.r, d.q), x);
			if (x.chance(1, 4)) rows(dnstable_query_iter(d.q, one ? mtbl_reader_source(one) : mtbl_reader_source(set->r[0])), x);
		}
		switch (how) {
		case 0: rows(dnstable_reader_iter(r.r), x); break;
		case 1: rows(dnstable_reader_iter_rrset_names(r.r), x); rows(dnstable_reader_iter_time_range(r.r), x); break;
		case 2: rows(dnstable_reader_iter_rdata_names(r.r), x); rows(dnstable_reader_iter_version(r.r), x); break;
		case 3: if (setfile) dnstable_reader_reload_setfile(r.r); rows(dnstable_reader_iter_rdata(r.r), x); break;
		case 4: rows(dnstable_reader_iter_source_info(r.r), x); break;
		case 5: { dnq d(dnstable_query_init(DNSTABLE_QUERY_TYPE_TIME_RANGE)); see(d.q != nullptr, "query"); rows(dnstable_reader_query(r.r, d.q), x); break; }
		default: break;
		}
	};
	judge_session(g, session, what.c_str());
	if (one) mtbl_reader_destroy(&one);
	delete set;
}
// merging: values of a key, with the sizes that make the result grow
static void c_merge(Rng &g)
{
	Db db = make_db(g, g.range(2, 4), g.range(2, 12));
	std::vector<std::tuple<Bytes, Bytes, Bytes>> w;
	for (size_t i = 0; i + 1 < db.f.size(); i++) { auto a = db.f[i].raw(), b = db.f[i + 1].raw(); for (auto &x : a) { auto y = b.find(x.first); if (y != b.end()) w.push_back({ x.first, x.second, y->second }); } }
	auto session = [&]() {
		for (auto &t : w) {
			const Bytes &k = std::get<0>(t), &a = std::get<1>(t), &b = std::get<2>(t); u8 *o = nullptr; size_t lo = 0;
			dnstable_merge_func(nullptr, (const u8 *) k.data(), k.size(), (const u8 *) a.data(), a.size(), (const u8 *) b.data(), b.size(), &o, &lo);
			see(lo == 0 || o != nullptr, "merged " + (o ? hex(o, lo) : Bytes())); free(o);
		}
	};
	judge_session(g, session, "merge");
}
static void c_libmy(Rng &g)
{
	u64 s = g.next(); std::string d = scratch() + "/oomd"; mkdir(d.c_str(), 0700);
	judge_session(g, [&]() { oom_my(s, d.c_str()); }, "libmy");
}
int main(int argc, char **argv) { return vf::main(argc, argv, { { "dnstable", c_dnstable }, { "merge", c_merge }, { "libmy", c_libmy } }); }
