// The command line tools as processes: dnstable_lookup, dnstable_dump, dnstable_merge.
#include "qry.h"
#include <time.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <spawn.h>
#include <tuple>
#include <set>
#include <elf.h>
#include <dlfcn.h>
using namespace dn;
extern char **environ;
static std::string tools() { const char *t = getenv("VF_TOOLS"); if (!t) { fprintf(stderr, "VF_TOOLS is not set\n"); exit(78); } return t; }
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
struct Out { int rc; std::string out, err; };
typedef std::vector<std::string> Args;
static std::string join(const Args &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + ("'" + show(x) + "'"); return s; }
static Out exec(const std::string &prog, const Args &args, const Args &env)
{
	const std::string &d = scratch(); std::string of = d + "/out", ef = d + "/err";
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	posix_spawn_file_actions_addopen(&fa, 1, of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	posix_spawn_file_actions_addopen(&fa, 2, ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	std::string path = tools() + "/" + prog; std::vector<char *> av, ev; av.push_back((char *) path.c_str()); for (auto &x : args) av.push_back((char *) x.c_str()); av.push_back(nullptr);
	std::string pe = "PATH=" + tools() + ":/usr/bin:/bin"; std::vector<std::string> keep;
	for (char **e = environ; *e; e++) if (strncmp(*e, "ASAN_", 5) == 0 || strncmp(*e, "UBSAN_", 6) == 0 || strncmp(*e, "LC_", 3) == 0) keep.push_back(*e);
	keep.push_back(pe); for (auto &x : env) keep.push_back(x);
	for (auto &x : keep) ev.push_back((char *) x.c_str()); ev.push_back(nullptr);
	pid_t pid; int r = posix_spawn(&pid, path.c_str(), &fa, nullptr, av.data(), ev.data()); posix_spawn_file_actions_destroy(&fa);
	if (r) { fprintf(stderr, "cannot run %s: %s\n", path.c_str(), strerror(r)); exit(78); }
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
	Out o; o.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); o.out = slurp(of); o.err = slurp(ef);
	count("processes");
	if (o.rc < 0 || o.rc == 99 || o.rc >= 125) {
		size_t p = o.err.find("ERROR: "); if (p == std::string::npos) p = o.err.find("runtime error"); if (p == std::string::npos) p = o.err.find("Assertion"); if (p == std::string::npos) p = 0; p = p > 60 ? p - 60 : 0;
		fail("tool-crash", "%s %s: status %d: %s", prog.c_str(), join(args).c_str(), o.rc, o.err.substr(p, 600).c_str());
	}
	return o;
}
static void write_mtbl(const std::string &p, const std::map<Bytes, Bytes> &m)
{
	unlink(p.c_str()); struct mtbl_writer *w = mtbl_writer_init(p.c_str(), nullptr); if (!w) { perror(p.c_str()); exit(78); }
	for (auto &x : m) if (mtbl_writer_add(w, (const u8 *) x.first.data(), x.first.size(), (const u8 *) x.second.data(), x.second.size()) != mtbl_res_success) exit(78);
	mtbl_writer_destroy(&w);
}
static std::string multiset(const std::string &s) { std::vector<std::string> l; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); l.push_back(s.substr(p, e - p)); p = e + 1; } std::sort(l.begin(), l.end()); std::string r; for (auto &x : l) r += x + "\n"; return r; }
// what a tool prints for an entry
static std::string printed(const Bytes &k, const Bytes &v, char mode, bool raw, bool dump)
{
	struct dnstable_entry *e = dnstable_entry_decode((const u8 *) k.data(), k.size(), (const u8 *) v.data(), v.size());
	VF_CHECK(e, "rejects-valid", "%s", hex(k).c_str());
	char *s;
	if (mode != 't') {
		struct dnstable_formatter *f = dnstable_formatter_init();
		dnstable_formatter_set_output_format(f, dnstable_output_format_json); dnstable_formatter_set_date_format(f, mode == 'j' ? dnstable_date_format_unix : dnstable_date_format_rfc3339); dnstable_formatter_set_raw_rdata(f, raw);
		s = dnstable_entry_format(f, e); dnstable_formatter_destroy(&f);
	} else s = dnstable_entry_to_text(e);
	std::string r = s ? s : ""; free(s);
	int et = (int) dnstable_entry_get_type(e); dnstable_entry_destroy(&e);
	if (r.empty()) return r;
	if (dump ? !(mode == 't' && et == 2) : mode != 't' || et == 0) r += "\n";
	return r;
}
// stretch the times of a database to thousands of seconds ending long before now
static void stretch(Db &db, u64 base)
{
	auto z = [&](u64 t) { return base + 1000 * t; };
	for (auto &f : db.f) {
		for (auto &x : f.t) { x.second.f = z(x.second.f); x.second.l = z(x.second.l); }
		if (!f.t.empty()) { f.tmin = z(f.tmin); f.tmax = z(f.tmax); }
		auto i = f.other.find(B(254));
		if (i != f.other.end()) { size_t p = 0; u64 a, b; get_varint(i->second, p, i->second.size(), a, 10); get_varint(i->second, p, i->second.size(), b, 10); i->second = varint(z(a)) + varint(z(b)); }
	}
}
// one spelling of a time: exact ones, or relative to now (only for bounds half way between times)
static std::string spell(Rng &g, u64 t, bool loose, u64 now)
{
	time_t tt = (time_t) t; struct tm tm; gmtime_r(&tt, &tm); char b[64];
	switch (g.below(loose ? 8 : 5)) {
	case 0: strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b;
	case 1: strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S", &tm); return b;
	case 2: strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &tm); return b;
	case 3: if (t % 86400 == 0) { strftime(b, sizeof b, "%Y-%m-%d", &tm); return b; }	// fall through
	case 4: return fmt("%llu", (unsigned long long) t);
	case 5: return fmt("-%llu", (unsigned long long) (now - t));
	default: {
		u64 d = now - t; std::string s; static const struct { char c; u64 n; } u[] = { { 'w', 604800 }, { 'd', 86400 }, { 'h', 3600 }, { 'm', 60 }, { 's', 1 } };
		for (auto &x : u) if (d >= x.n && (x.n == 1 || g.chance(3, 4))) { s += fmt("%llu%c", (unsigned long long) (d / x.n), g.flip() ? x.c : toupper(x.c)); d %= x.n; }
		if (g.flip() && s.size() && tolower(s.back()) == 's' && s.find_first_not_of("0123456789") + 1 < s.size()) s.pop_back();	// seconds after another unit need no letter
		return s; }
	}
}
// the statistics of -s and -s -s are the counters of the same query asked through the library
static void counters(const std::string &dir, bool sf, const Q &q, bool twice, const std::string &err, const std::string &what)
{
	vf_mtbl_open_hook = nullptr;
	struct mtbl_reader *m = sf ? nullptr : mtbl_reader_init((dir + "/f0.mtbl").c_str(), nullptr); if (!sf && !m) exit(78);
	struct dnstable_reader *r = sf ? dnstable_reader_init_setfile((dir + "/set").c_str()) : dnstable_reader_init(mtbl_reader_source(m));
	std::map<std::string, u64> w, got; std::map<std::string, u64> *tot = twice ? nullptr : &w;
	{
		Rng g(1); dnq d(make(q, g)); It it(dnstable_reader_query(r, d.q)); (void) drain(it.it); const char *sc, *ss;
		for (int c = 0; (sc = dnstable_stat_category_to_str((dnstable_stat_category) c)); c++) {
			if (tot) w[sc] = 0;
			for (int s = 0; (ss = dnstable_stat_stage_to_str((dnstable_stat_stage) s)); s++) { bool ex = false; u64 v = 0; if (dnstable_iter_get_count(it.it, (dnstable_stat_stage) s, (dnstable_stat_category) c, &ex, &v) != dnstable_res_success || !ex) continue; if (tot) w[sc] += v; else w[std::string(ss) + " " + sc] = v; }
		}
	}
	dnstable_reader_destroy(&r); if (m) mtbl_reader_destroy(&m);
	size_t p = 0; while (p < err.size()) {
		size_t e = err.find('\n', p); if (e == std::string::npos) e = err.size(); std::string l = err.substr(p, e - p); p = e + 1;
		size_t c = l.find(" : "); if (c == std::string::npos) continue; std::string k = l.substr(0, c); while (!k.empty() && k.back() == ' ') k.pop_back();
		if (k == "entries" || k == "elapsed") continue;
		VF_CHECK(!got.count(k), "stats", "%s: two lines for %s", what.c_str(), k.c_str()); got[k] = strtoull(l.c_str() + c + 3, nullptr, 10);
	}
	std::string x, y; for (auto &i : w) x += i.first + fmt("=%llu ", (unsigned long long) i.second); for (auto &i : got) y += i.first + fmt("=%llu ", (unsigned long long) i.second);
	VF_CHECK(x == y, "stats", "%s: counters %s, want %s", what.c_str(), y.c_str(), x.c_str()); count(twice ? "counters by stage" : "counters by category"); seen("counters", hash(x));
}
static const char *FL[4] = { "-B", "-a", "-b", "-A" };	// in the order of Q::tv
static void c_lookup(Rng &g)
{
	size_t nf = g.chance(1, 3) ? 1 : g.range(1, 3);
	dnstable_query_type t = QT[g.below(4)];
	Db db = make_db(g, nf, g.chance(1, 8) ? g.range(20, 60) : g.range(3, 14), t == DNSTABLE_QUERY_TYPE_RDATA_IP ? std::vector<u16>{ 1, 28 } : std::vector<u16>{ 1, 2, 5, 15, 16, 28 });
	struct timespec rt; clock_gettime(CLOCK_REALTIME, &rt); u64 now = (u64) rt.tv_sec;
	stretch(db, g.chance(1, 3) ? now - g.below(2500000) : now - 4000000 - g.below(300000000));
	std::string dir = scratch() + (g.flip() ? "/a b" : "/t"); mkdir(dir.c_str(), 0700);
	std::string list; for (size_t i = 0; i < nf; i++) { std::string n = fmt("f%zu.mtbl", i); write_mtbl(dir + "/" + n, db.f[i].raw()); list += (g.flip() ? n : dir + "/" + n) + "\n"; }
	put_file(dir + "/set", list);
	vf_mtbl_tiebreak = 0;
	for (int i = 0; i < 6; i++) {
		bool sf = nf > 1 || g.flip();
		Args env{ sf ? "DNSTABLE_SETFILE=" + dir + "/set" : "DNSTABLE_FNAME=" + dir + "/f0.mtbl" }; if (g.flip()) env.push_back(g.flip() ? "TZ=America/New_York" : "TZ=XYZ-7");
		Args a; char mode = "ttjJn"[g.below(5)]; bool raw = (mode == 'j' || mode == 'J') && g.chance(1, 3), stats = false, twice = false; struct { bool use; Q q; } sq{};
		std::vector<Args> opts; if (mode != 't') opts.push_back({ fmt("-%c", mode) }); if (raw) opts.push_back({ "-R" });
		if (g.chance(1, 5)) { opts.push_back({ "-s" }); stats = true; if (g.chance(1, 2)) { opts.push_back({ "-s" }); twice = true; } }
		if (g.chance(1, 10)) opts.push_back({ "-t", "100000" });
		if (g.chance(1, 10)) { opts.push_back({ "-i", "50000" }); stats = true; }
		std::vector<std::pair<Bytes, Trip>> w; std::string want; size_t n = 0; bool exact = true;
		if (g.chance(1, 6)) {	// metadata
			bool tr = g.flip(); std::map<Bytes, Bytes> mm; auto keep = opts; opts.clear(); for (auto &o : keep) if (o[0] != "-R") opts.push_back(o); raw = false;
			bool un = sf && g.chance(1, 4); if (un) opts.push_back({ "-u" });
			int vt = -1;
			if (un) continue;
			u64 x = ~0ULL, y = 0; bool any = false; std::map<int, u64> ver;
			for (auto &f : db.f) for (auto &o : f.other) { size_t p = 0; u64 v; if ((u8) o.first[0] == 254) { any = true; get_varint(o.second, p, o.second.size(), v, 10); x = std::min(x, v); get_varint(o.second, p, o.second.size(), v, 10); y = std::max(y, v); } if ((u8) o.first[0] == 255) { get_varint(o.second, p, o.second.size(), v, 5); int e = (u8) o.first[1]; if (!ver.count(e) || v < ver[e]) ver[e] = v; } }
			g.shuffle(opts); for (auto &o : opts) a.insert(a.end(), o.begin(), o.end());
			char m2 = mode == 'n' ? 't' : mode;
			if (tr) { a.push_back("time_range"); if (any) { want = printed(B(254), varint(x) + varint(y), m2, false, false); n = 1; } }
			else { a.push_back("version"); if (g.flip()) { static const char *vn[] = { "rrset", "rrset_name", "rdata", "rdata_name" }; vt = (int) g.below(4); a.push_back(vn[vt]); } for (auto &v : ver) if (vt < 0 || v.first == vt) { want += printed(B(255) + B(v.first), varint(v.second), m2, false, false); n++; } }
			count("metadata");
		} else {
			Q q = rand_query(g, db, t); q.agg = !sf || g.flip();
			if (!q.agg) opts.push_back({ "-u" });
			if (t == DNSTABLE_QUERY_TYPE_RDATA_IP) q.has_rrs = false;
			if (q.has_bw && !q.has_rrs) { q.has_rrs = true; q.rrs = "ANY"; }
			if (q.data.empty() || q.data[0] == '-' || (t == DNSTABLE_QUERY_TYPE_RRSET && q.data.find('/') != std::string::npos)) continue;
			if (q.cs) opts.push_back({ "-C" });
			if (g.flip()) {
				Q z; z.t = t; rand_times(g, db, z); bool strict = g.chance(1, 4); u64 base = db.f[0].t.empty() ? 0 : db.f[0].tmin;
				for (int k = 0; k < 4; k++) if (z.has[k]) {
					if (strict && k != 0 && k != 3) { if (g.flip()) { z.has[k] = false; continue; } }
					if (z.tv[k] == 0 || z.tv[k] > now) { z.has[k] = false; continue; }
					bool loose = base && z.tv[k] > base % 1000 + 2000 && g.flip(); if (loose) z.tv[k] = (z.tv[k] - base % 1000) / 1000 * 1000 + base % 1000 + 500;
					if (loose && z.tv[k] >= now) { z.has[k] = false; continue; }
					opts.push_back({ FL[k], spell(g, z.tv[k], loose, now) });
				}
				if (strict) {	// -A bounds the first time as well, -B the last
					opts.push_back({ "-c" }); count("strict");
					if (z.has[3]) { z.tv[1] = z.has[1] ? std::max(z.tv[1], z.tv[3]) : z.tv[3]; z.has[1] = true; }
					if (z.has[0]) { if (!z.has[2] || z.tv[2] > z.tv[0]) z.tv[2] = z.tv[0]; z.has[2] = true; }
				}
				for (int k = 0; k < 4; k++) { q.has[k] = z.has[k]; q.tv[k] = z.tv[k]; }
			}
			g.shuffle(opts);
			struct R { Bytes ix, key; Trip t; }; std::vector<R> rows; bool clear = true;
			bool lw = lwild(q.name) != 0, rw = rwild(q.name) != 0, ind = t == DNSTABLE_QUERY_TYPE_RRSET ? !lw && rw : t == DNSTABLE_QUERY_TYPE_RDATA_NAME ? !rw && lw : false;
			auto one = [&](const Bytes &k, const Trip &x) {
				const Meta &m = db.meta.at(k); Tri y = asks(q, k, m); if (y == NO || !in_time(q, x)) return; if (y == MAYBE) { clear = false; return; }
				Bytes ix; if (ind) { Bytes d = m.rd0.substr(std::min<size_t>(m.rd0.size(), m.sliced ? slice_off(m.type) : 0)); ix = t == DNSTABLE_QUERY_TYPE_RRSET ? m.owner : rev(d.substr(0, name_at(d, 0, d.size()))); }
				rows.push_back(R{ ix, k, x });
			};
			if (!sf) for (auto &x : db.f[0].t) one(x.first, x.second); else if (q.agg) { auto mm = db.merged(); for (auto &x : mm) one(x.first, x.second); } else for (auto &f : db.f) for (auto &x : f.t) one(x.first, x.second);
			if (!clear) continue;
			std::stable_sort(rows.begin(), rows.end(), [](const R &p, const R &r) { return std::tie(p.ix, p.key, p.t.f, p.t.l) < std::tie(r.ix, r.key, r.t.f, r.t.l); });
			exact = q.agg;
			sq.use = true; sq.q = q;
			u64 off = 0; if (exact && g.chance(1, 5)) { off = g.chance(1, 6) ? (1ULL << 32) + 1 : 1 + g.below(rows.size() + 2); opts.push_back({ "-O", fmt("%llu", (unsigned long long) off) }); sq.q.offset = off; }
			for (size_t k = off; k < rows.size(); k++) { want += printed(rows[k].key, triplet(rows[k].t.f, rows[k].t.l, rows[k].t.c), mode == 'n' ? 't' : mode, raw, false); n++; }
			for (auto &o : opts) a.insert(a.end(), o.begin(), o.end());
			if (t == DNSTABLE_QUERY_TYPE_RRSET) { a.push_back("rrset"); a.push_back(q.data); if (q.has_rrs) a.push_back(q.rrs); if (q.has_bw) a.push_back(q.bws); }
			else { a.push_back("rdata"); a.push_back(t == DNSTABLE_QUERY_TYPE_RDATA_IP ? "ip" : t == DNSTABLE_QUERY_TYPE_RDATA_RAW ? "raw" : "name"); a.push_back(q.data); if (q.has_rrs) a.push_back(q.rrs); }
			if (q.has_bw && q.bws[0] == '-') continue;
			if (n) seen("lookups", hash(join(a)));
		}
		if (mode == 'n') want = "";
		Out o = exec("dnstable_lookup", a, env);
		VF_CHECK(o.rc == 0, "exit-status", "status %d: %s: %s", o.rc, join(a).c_str(), o.err.c_str());
		VF_CHECK(exact ? o.out == want : multiset(o.out) == multiset(want), "output", "%s over %zu files: want %s got %s", join(a).c_str(), nf, show(want).substr(0, 400).c_str(), show(o.out).substr(0, 400).c_str());
		if (mode != 'j' && mode != 'J') VF_CHECK(o.err.find(fmt(";;; Dumped %zu entries.", n)) != std::string::npos, "count", "%s: want %zu entries: %s", join(a).c_str(), n, o.err.c_str());
		if (stats) { size_t p = o.err.find("entries "); VF_CHECK(p != std::string::npos && (p = o.err.find(": ", p)) != std::string::npos && strtoull(o.err.c_str() + p + 2, nullptr, 10) == n, "stats", "%s: want %zu entries: %s", join(a).c_str(), n, o.err.c_str()); count("with statistics"); if (sq.use) counters(dir, sf, sq.q, twice, o.err, join(a)); }
		count("lookups"); if (n) count("lookups with results");
		if (i == 0) sample(join(a) + fmt(" -> %zu entries", n));
	}
	rm_rf(dir);
}
// -t and -i against a clock that follows the steps of the store
static void c_timing(Rng &g)
{
	size_t nf = g.chance(1, 3) ? 1 : g.range(1, 3); dnstable_query_type t = QT[g.below(4)];
	bool big = g.chance(1, 4);	// long runs: several intervals before a timeout
	Db db = make_db(g, nf, big ? g.range(80, 200) : g.chance(1, 3) ? g.range(30, 80) : g.range(5, 30), t == DNSTABLE_QUERY_TYPE_RDATA_IP ? std::vector<u16>{ 1, 28 } : std::vector<u16>{ 1, 2, 5, 15, 16, 28 });
	std::string dir = scratch() + "/w"; mkdir(dir.c_str(), 0700); std::string list; for (size_t i = 0; i < nf; i++) { std::string n = fmt("f%zu.mtbl", i); write_mtbl(dir + "/" + n, db.f[i].raw()); list += n + "\n"; }
	put_file(dir + "/set", list); bool sf = nf > 1 || g.flip(); std::string cf = dir + "/clock";
	for (int i = 0, n = 0; i < 24 && n < 4; i++) {
		Q q = rand_query(g, db, t); bool un = sf && g.chance(1, 3);
		if (big && g.chance(2, 3) && t != DNSTABLE_QUERY_TYPE_RDATA_RAW) { q.data = t == DNSTABLE_QUERY_TYPE_RDATA_IP ? (g.flip() ? "::/0" : "0.0.0.0/0") : "*."; q.has_rrs = q.has_bw = false; }
		if (q.data.empty() || q.data[0] == '-' || (t == DNSTABLE_QUERY_TYPE_RRSET && q.data.find('/') != std::string::npos) || (q.has_bw && q.bws[0] == '-')) continue;
		if (t == DNSTABLE_QUERY_TYPE_RDATA_IP) q.has_rrs = false;
		if (q.has_bw && !q.has_rrs) { q.has_rrs = true; q.rrs = "ANY"; }
		Args b; char mode = "jnt"[g.below(3)]; if (mode != 't') b.push_back(fmt("-%c", mode)); b.push_back("-s"); if (g.chance(1, 4)) b.push_back("-s"); if (un) b.push_back("-u"); if (q.cs) b.push_back("-C");
		Args p; if (t == DNSTABLE_QUERY_TYPE_RRSET) { p = { "rrset", q.data }; if (q.has_rrs) p.push_back(q.rrs); if (q.has_bw) p.push_back(q.bws); } else { p = { "rdata", t == DNSTABLE_QUERY_TYPE_RDATA_IP ? "ip" : t == DNSTABLE_QUERY_TYPE_RDATA_RAW ? "raw" : "name", q.data }; if (q.has_rrs) p.push_back(q.rrs); }
		u64 base = (5 + g.below(1000)) * 1000000000ULL + g.below(1000000000), tick = 1 + g.below(g.flip() ? 150000000 : 1000000000), T = 0, I = 0;
		u64 S = 1000000000ULL;
		struct Res { Out o; u64 now, steps, late; std::vector<std::pair<u64, u64>> bl; };
		auto go = [&](const Args &x, u64 tk, u64 lim) {
			Args a = b; a.insert(a.end(), x.begin(), x.end()); a.insert(a.end(), p.begin(), p.end());
			Res r; unlink(cf.c_str()); r.o = exec("dnstable_lookup", a, { sf ? "DNSTABLE_SETFILE=" + dir + "/set" : "DNSTABLE_FNAME=" + dir + "/f0.mtbl", fmt("VF_TICK=%llu", (unsigned long long) tk), fmt("VF_BASE=%llu", (unsigned long long) base), fmt("VF_LIMIT=%llu", (unsigned long long) lim), "VF_CLOCK=" + cf });
			VF_CHECK(r.o.rc == 0, "exit-status", "status %d: %s: %s", r.o.rc, join(a).c_str(), r.o.err.c_str());
			unsigned long long v[3]; if (sscanf(slurp(cf).c_str(), "%llu %llu %llu", v, v + 1, v + 2) != 3) { fprintf(stderr, "no clock\n"); exit(78); }
			r.now = v[0]; r.steps = v[1]; r.late = v[2];
			size_t q0 = 0; while ((q0 = r.o.err.find("\nentries ", q0)) != std::string::npos) {	// the statistics: entries, then the time elapsed
				size_t c = r.o.err.find(": ", q0), d = r.o.err.find("\nelapsed ", q0), e2 = d == std::string::npos ? d : r.o.err.find(": ", d); VF_CHECK(c != std::string::npos && e2 != std::string::npos, "stats", "%s: %s", join(a).c_str(), r.o.err.c_str());
				unsigned long long es, en; VF_CHECK(sscanf(r.o.err.c_str() + e2 + 2, "%llu.%9llu", &es, &en) == 2, "stats", "%s: %s", join(a).c_str(), r.o.err.c_str());
				r.bl.push_back({ strtoull(r.o.err.c_str() + c + 2, nullptr, 10), es * 1000000000ULL + en }); q0 = e2; }
			VF_CHECK(!r.bl.empty(), "stats", "%s: no statistics: %s", join(a).c_str(), r.o.err.c_str());
			return r;
		};
		Res full = go({}, tick, ~0ULL); if (full.steps < 12 && !g.chance(1, 6)) continue;
		u64 E = full.now - base;
		VF_CHECK(full.bl.size() == 1 && full.bl[0].second <= E && full.bl[0].second + 8 * (nf + 2) * tick >= E, "elapsed", "%s: %zu statistics, elapsed %llu, the clock went %llu", join(p).c_str(), full.bl.size(), (unsigned long long) full.bl[0].second, (unsigned long long) E);
		Args x; bool wt = g.chance(2, 3), wi = !wt || g.flip();
		if (wt) { T = 1 + g.below(E / S + 1); x.push_back("-t"); x.push_back(fmt("%llu", (unsigned long long) T)); T *= S; }
		if (wi) { u64 mn = tick * 10 / S + 1; I = mn + g.below(g.flip() ? 1 : E / S + 2); if (wt && g.chance(1, 4)) I += T / S; x.push_back("-i"); x.push_back(fmt("%llu", (unsigned long long) I)); I *= S; }
		if (full.steps > 150 && g.flip()) { tick = 6 * S / full.steps + g.below(10 * S / full.steps); full.bl[0].second = 0; E = full.steps * tick; I = 2 + g.below(E / S / 2 - 1); T = I + 1 + g.below(std::max<u64>(1, E / S - I)); x = { "-t", fmt("%llu", (unsigned long long) T), "-i", fmt("%llu", (unsigned long long) I) }; T *= S; I *= S; wt = wi = true; count("timeouts between intervals"); }
		if (g.flip() && x.size() == 4) std::rotate(x.begin(), x.begin() + 2, x.end());
		Res r = go(x, tick, wt ? base + T : ~0ULL);
		std::string what = join(x) + " " + join(b) + " " + join(p) + fmt(" over %zu files, %llu ns a step, %llu ns in all", nf, (unsigned long long) tick, (unsigned long long) E);
		u64 bound = 8 * (nf + 2), slack = (bound + 1) * tick;
		VF_CHECK(!wt || r.late <= bound, "late", "%llu steps of the store after the timeout: %s", (unsigned long long) r.late, what.c_str());
		u64 got = r.bl.back().first, all = full.bl[0].first;
		VF_CHECK(got <= all && r.o.out.size() <= full.o.out.size() && full.o.out.compare(0, r.o.out.size(), r.o.out) == 0, "timed-output", "%s: want (the first part of) %s got %s", what.c_str(), show(full.o.out).substr(0, 600).c_str(), show(r.o.out).substr(0, 600).c_str());
		bool ended = got == all && r.o.out == full.o.out, cut = r.o.err.find(";;; timed out\n") != std::string::npos;
		VF_CHECK(ended || (wt && r.now >= base + T), "early", "%s: %llu of %llu entries after %llu ns", what.c_str(), (unsigned long long) got, (unsigned long long) all, (unsigned long long) (r.now - base));
		if (mode == 'j') VF_CHECK((u64) std::count(r.o.out.begin(), r.o.out.end(), '\n') == got, "stats", "%s: %llu entries reported: %s", what.c_str(), (unsigned long long) got, show(r.o.out).substr(0, 600).c_str());
		else { VF_CHECK(r.o.err.find(fmt(";;; Dumped %llu entries.", (unsigned long long) got)) != std::string::npos, "count", "%s: %llu entries reported: %s", what.c_str(), (unsigned long long) got, r.o.err.c_str()); VF_CHECK(cut ? wt && r.now >= base + T : ended, "timed-out-note", "%s: %s", what.c_str(), r.o.err.c_str()); }
		u64 pt = 0, pe = 0; VF_CHECK(wi || r.bl.size() == 1, "interval", "%s: %zu statistics without an interval", what.c_str(), r.bl.size());
		for (size_t k = 0; k < r.bl.size(); k++) {
			auto &z = r.bl[k]; bool last = k + 1 == r.bl.size(); u64 d = z.second - pt;
			VF_CHECK(z.second >= pt && z.first >= pe, "interval", "%s: statistics %zu go back", what.c_str(), k);
			if (wi) { VF_CHECK(last || d + (k ? 0 : slack) >= I || (wt && z.second + slack >= T), "interval", "%s: statistics %zu after %llu ns", what.c_str(), k, (unsigned long long) d); VF_CHECK(d <= I + slack, "interval", "%s: statistics %zu only after %llu ns", what.c_str(), k, (unsigned long long) d); }
			pt = z.second; pe = z.first;
		}
		n++; count("lookups"); if (!ended) count("cut short"); if (cut) count("notes of a timeout"); if (wi && r.bl.size() > 1) count("interrupted by the interval"); maxi("statistics in one lookup", r.bl.size()); maxi("steps after the timeout", r.late); if (all) seen("timings", hash(fmt("%llu %llu %zu %llu", (unsigned long long) got, (unsigned long long) all, r.bl.size(), (unsigned long long) r.steps)));
		if (i == 0) sample(what + fmt(" -> %llu of %llu entries, %zu statistics", (unsigned long long) got, (unsigned long long) all, r.bl.size()));
	}
	rm_rf(dir);
}
static void c_badlookup(Rng &g)
{
	Db db = make_db(g, 1, 4); std::string f = scratch() + "/x.mtbl", s = scratch() + "/x.set"; write_mtbl(f, db.f[0].raw()); put_file(s, f + "\n");
	static const std::vector<Args> bad = {
		{}, { "rrset" }, { "rdata" }, { "rdata", "ip" }, { "rdata", "name" }, { "rdata", "nam", "a.com" }, { "rrsets", "a.com" }, { "rrset", "a.com", "A", "com", "x" }, { "rdata", "ip", "1.2.3.4", "A" }, { "rdata", "raw", "00", "A", "x" }, { "version", "rrset", "x" }, { "version", "nosuch" }, { "time_range", "x" },
		{ "rrset", "a/b.com" }, { "rrset", "a..b" }, { "rrset", "a.com", "NOSUCH" }, { "rrset", "a.com", "A", "x..y" }, { "rdata", "ip", "1.2.3" }, { "rdata", "ip", "1.2.3.4/33" }, { "rdata", "ip", "1.2.3.4-::1" }, { "rdata", "raw", "0" }, { "rdata", "raw", "zz" }, { "rdata", "name", "a..b" }, { "rdata", "name", "a.com", "NOSUCH" },
		{ "-j", "-J", "rrset", "a.com" }, { "-n", "-j", "rrset", "a.com" }, { "-n", "-J", "rrset", "a.com" }, { "-R", "rrset", "a.com" }, { "-n", "-R", "rrset", "a.com" }, { "-O", "0", "rrset", "a.com" }, { "-O", "-1", "rrset", "a.com" }, { "-O", "x", "rrset", "a.com" }, { "-O", "99999999999999999999", "rrset", "a.com" }, { "-O", "1", "version" }, { "-O", "1", "time_range" }, { "-R", "-j", "version" }, { "-R", "-j", "time_range" }, { "-t", "0", "rrset", "a.com" }, { "-t", "-5", "rrset", "a.com" }, { "-i", "0", "rrset", "a.com" }, { "-i", "x", "rrset", "a.com" }, { "-u", "rrset", "a.com" }, { "-Z", "rrset", "a.com" }, { "-A" },
	};
	static const char *bt[] = { "0", "", "x", "1970-01-01", "1970-01-01T00:00:00Z", "1969-12-31", "1901-01-01 00:00:00", "10x", "3d4", "w", "5d-3h", "d5", "0d", "-99999999999", "99999999999999999w", "9223372036854775807d", "9000000000s", "3000w3000w", "2020-13-01", "2020-01-01T", "1h,2m", "2020-01-01T00:00:00UTC", "2020-01-01T00:00:00ZZ", "2020-01-01T00:00:00 Z", "2020-01-01 00:00:00x", "2020-01-01T00:00:00+0100", "2020-01-01x", "2020-01-01T00:00", "0w", "1w0d", "1d0", "1d " };
	for (int i = 0; i < 8; i++) {
		Args a; Args env{ "DNSTABLE_FNAME=" + f }; bool ok = false;
		switch (g.below(4)) {
		case 0: case 1: a = g.pick(bad); break;
		case 2: { const char *t = bt[g.below(sizeof bt / sizeof *bt)]; ok = !strcmp(t, "3d4"); a = { FL[g.below(4)], t, "rrset", "a.com" }; break; }
		default: a = { "rrset", "a.com" }; switch (g.below(4)) { case 0: env.clear(); break; case 1: env.push_back("DNSTABLE_SETFILE=" + s); break; case 2: env = { "DNSTABLE_FNAME=" + f + ".none" }; break; default: env = { "DNSTABLE_FNAME=" + s }; } break;
		}
		if (ok) { Out o = exec("dnstable_lookup", a, env); VF_CHECK(o.rc == 0, "exit-status", "%s: %d %s", join(a).c_str(), o.rc, o.err.c_str()); continue; }
		Out o = exec("dnstable_lookup", a, env);
		VF_CHECK(o.rc == 1, "exit-status", "status %d: %s: %s", o.rc, join(a).c_str(), o.err.c_str());
		VF_CHECK(o.out.empty() && !o.err.empty(), "no-message", "%s: '%s' '%s'", join(a).c_str(), o.out.c_str(), o.err.c_str());
		count("refused"); seen("refused", hash(join(a)));
	}
	unlink(f.c_str()); unlink(s.c_str());
}
static void c_dump(Rng &g)
{
	Db db = make_db(g, 1, g.range(1, 20)); std::string f = scratch() + (g.flip() ? "/d x.mtbl" : "/d.mtbl"); std::map<Bytes, Bytes> raw = db.f[0].raw(); write_mtbl(f, raw);
	struct { int t; Args o; } sec[] = { { 0, { "-r", "--rrset_full" } }, { 2, { "-d", "--rdata_full" } }, { 1, { "--rrset_names" } }, { 3, { "--rdata_names" } }, { 254, { "-t", "--time_range" } }, { 255, { "-v", "--version_entries" } }, { 253, { "-s", "--source_info_entries" } } };
	for (int i = 0; i < 6; i++) {
		auto &s = sec[g.below(7)]; bool j = g.flip(), R = j && (s.t == 0 || s.t == 2) && g.flip();
		Args a; std::vector<std::string> o{ g.pick(s.o) }; if (j) o.push_back(g.flip() ? "-j" : "--json"); if (R) o.push_back(g.flip() ? "-R" : "--raw"); g.shuffle(o); a = o; a.push_back(f);
		std::string want; size_t n = 0; for (auto &x : raw) if ((u8) x.first[0] == s.t) { want += printed(x.first, x.second, j ? 'j' : 't', R, true); n++; }
		Out x = exec("dnstable_dump", a, {});
		VF_CHECK(x.rc == 0, "exit-status", "status %d: %s: %s", x.rc, join(a).c_str(), x.err.c_str());
		VF_CHECK(x.out == want, "output", "%s: want %s got %s", join(a).c_str(), show(want).substr(0, 400).c_str(), show(x.out).substr(0, 400).c_str());
		count("dumps"); count("entries", n); if (n) seen("dumps", hash(want));
		if (i == 0) sample(join(a) + fmt(" -> %zu entries", n));
	}
	static const std::vector<Args> bad = { { "-R", "-r" }, { "-R", "-j", "-t" }, { "-R", "-j", "--rrset_names" }, { "-r", "-d" }, { "-v", "-s" }, { "-Z", "-r" }, { "--nosuch", "-r" }, { "-R", "-d" }, {}, { "-j" }, { "--rrset_full=0" }, { "-r=no" }, { "-j", "--time_range=false" } };
	Args a = g.pick(bad); bool nofile = g.chance(1, 4); if (nofile) a = { "-r" }; a.push_back(nofile ? f + ".none" : f); if (!nofile && g.chance(1, 8)) a.pop_back();
	Out x = exec("dnstable_dump", a, {});
	VF_CHECK(x.rc != 0 && x.out.empty() && !x.err.empty(), "exit-status", "status %d: %s: '%s' '%s'", x.rc, join(a).c_str(), x.out.c_str(), x.err.c_str()); count("refused");
	unlink(f.c_str());
}
static void c_mergetool(Rng &g)
{
	size_t nf = g.range(1, 5); Db db = make_db(g, nf, g.range(1, 15)); std::string dir = scratch() + (g.flip() ? "/m n" : "/m"); mkdir(dir.c_str(), 0700);
	Args a; std::map<Bytes, Bytes> want; std::map<Bytes, std::vector<Bytes>> vals;
	std::vector<size_t> ord; for (size_t i = 0; i < nf; i++) ord.push_back(i); g.shuffle(ord);
	for (size_t i : ord) { std::string p = dir + fmt("/%s%zu.mtbl", g.flip() ? "in" : "i n*", i); write_mtbl(p, db.f[i].raw()); a.push_back(p); for (auto &x : db.f[i].raw()) vals[x.first].push_back(x.second); }
	a.push_back(dir + (g.flip() ? "/out.mtbl" : "/o ut.mtbl"));
	Out o = exec("dnstable_merge", a, {});
	VF_CHECK(o.rc == 0, "exit-status", "status %d: %s: %s", o.rc, join(a).c_str(), o.err.c_str());
	struct mtbl_reader *r = mtbl_reader_init(a.back().c_str(), nullptr); VF_CHECK(r, "no-output", "%s", join(a).c_str());
	std::map<Bytes, Bytes> got; { struct mtbl_iter *it = mtbl_source_iter(mtbl_reader_source(r)); const u8 *k, *v; size_t nk, nv; while (it && mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_success) got[Bytes((char *) k, nk)] = Bytes((char *) v, nv); mtbl_iter_destroy(&it); } mtbl_reader_destroy(&r);
	VF_CHECK(got.size() == vals.size(), "merged-keys", "%zu keys, want %zu", got.size(), vals.size());
	auto mm = db.merged(); size_t dup = 0;
	for (auto &x : got) {
		auto i = vals.find(x.first); VF_CHECK(i != vals.end(), "merged-keys", "extra key %s", hex(x.first).c_str());
		if (i->second.size() > 1) dup++;
		if (x.first[0] == 0 || x.first[0] == 2) { const Trip &t = mm.at(x.first); VF_CHECK(x.second == triplet(t.f, t.l, t.c), "merged-value", "key %s: %s", hex(x.first).c_str(), hex(x.second).c_str()); }
		else if (x.first[0] == 1 || x.first[0] == 3) {
			std::set<u16> all, s; bool any = false, e; for (auto &v : i->second) { union_dec(v, s, e); any |= e; all.insert(s.begin(), s.end()); }
			VF_CHECK(union_dec(x.second, s, e) && e == any && (any || s == all), "merged-value", "key %s: %s", hex(x.first).c_str(), hex(x.second).c_str());
		} else if ((u8) x.first[0] == 254) {
			u64 lo = ~0ULL, hi = 0, v; for (auto &y : i->second) { size_t p = 0; get_varint(y, p, y.size(), v, 10); lo = std::min(lo, v); get_varint(y, p, y.size(), v, 10); hi = std::max(hi, v); }
			VF_CHECK(x.second == varint(lo) + varint(hi), "merged-value", "time range %s", hex(x.second).c_str());
		} else if ((u8) x.first[0] == 255) {
			u64 lo = ~0ULL, v; for (auto &y : i->second) { size_t p = 0; get_varint(y, p, y.size(), v, 5); lo = std::min(lo, v); }
			VF_CHECK(x.second == varint(lo), "merged-value", "version %s: %s", hex(x.first).c_str(), hex(x.second).c_str());
		}
	}
	count("merges"); count("keys", got.size()); count("keys in several files", dup); if (dup) seen("merges", hash(join(a) + fmt("%zu", got.size())));
	for (Args b : { Args{}, Args{ a[0] } }) { Out z = exec("dnstable_merge", b, {}); VF_CHECK(z.rc == 1, "exit-status", "too few arguments: status %d", z.rc); count("refused"); }
	sample(fmt("%zu files, %zu keys, %zu merged", nf, got.size(), dup));
	rm_rf(dir);
}
// The shared library as a program sees it: every function of every release under the version it came with, and nothing else.
static const struct { const char *name, *ver; } API[] = {
	{ "dnstable_entry_decode", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_destroy", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_bailiwick", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_count", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_num_rdata", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_rdata", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_rdata_name", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_rrname", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_rrtype", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_time_first", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_time_last", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_get_type", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_to_json", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_to_text", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_iter_destroy", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_iter_init", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_iter_next", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_iter_set_stat_func", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_iter_get_count", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_merge_func", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_destroy", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_filter", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_get_error", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_init", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_iter", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_set_bailiwick", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_set_case_sensitive", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_set_data", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_query_set_rrtype", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_reader_destroy", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_reader_init", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_reader_init_setfile", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_reader_iter", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_reader_iter_rdata", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_reader_iter_rrset", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_reader_query", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_stat_stage_to_str", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_stat_str_to_stage", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_stat_category_to_str", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_stat_str_to_category", "LIBDNSTABLE_0.6.0" },
	{ "dnstable_entry_set_iszone", "LIBDNSTABLE_0.7.0" },
	{ "dnstable_reader_iter_rdata_names", "LIBDNSTABLE_0.8.0" },
	{ "dnstable_reader_iter_rrset_names", "LIBDNSTABLE_0.8.0" },
	{ "dnstable_reader_reload_setfile", "LIBDNSTABLE_0.8.0" },
	{ "dnstable_query_set_filter_parameter", "LIBDNSTABLE_0.9.0" },
	{ "dnstable_query_set_timeout", "LIBDNSTABLE_0.9.0" },
	{ "dnstable_entry_format", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_formatter_destroy", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_formatter_init", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_formatter_set_date_format", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_formatter_set_output_format", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_formatter_set_rdata_array", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_query_set_aggregated", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_query_set_offset", "LIBDNSTABLE_0.11.0" },
	{ "dnstable_entry_get_version", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_entry_get_source_info", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_entry_get_version_type", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_entry_type_from_string", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_entry_type_to_string", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_formatter_set_raw_rdata", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_reader_iter_time_range", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_reader_iter_version", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_query_set_deadline", "LIBDNSTABLE_0.12.0" },
	{ "dnstable_reader_iter_source_info", "LIBDNSTABLE_0.12.0" },
};
static std::vector<std::string> exported(const std::string &path)
{
	Bytes b = slurp(path); std::vector<std::string> r; const Elf64_Ehdr *h = (const Elf64_Ehdr *) b.data();
	if (b.size() < sizeof *h || memcmp(h->e_ident, ELFMAG, 4)) { fprintf(stderr, "%s is not a library\n", path.c_str()); exit(78); }
	const Elf64_Shdr *s = (const Elf64_Shdr *) (b.data() + h->e_shoff);
	for (int i = 0; i < h->e_shnum; i++) if (s[i].sh_type == SHT_DYNSYM) {
		const Elf64_Sym *y = (const Elf64_Sym *) (b.data() + s[i].sh_offset); const char *n = b.data() + s[s[i].sh_link].sh_offset;
		for (size_t k = 0; k < s[i].sh_size / sizeof *y; k++) if (y[k].st_shndx != SHN_UNDEF && y[k].st_shndx != SHN_ABS && ELF64_ST_BIND(y[k].st_info) != STB_LOCAL) r.push_back(n + y[k].st_name);
	}
	return r;
}
template <class T> static T *sym(void *h, T *, const char *n) { void *p = dlsym(h, n); VF_CHECK(p, "export", "%s is not exported", n); VF_CHECK(p != dlsym(RTLD_DEFAULT, n), "export", "%s is not the one of the library", n); count("calls bound"); return (T *) p; }
#define S(f) auto *d_##f = sym(h, &dnstable_##f, "dnstable_" #f)
static void c_library(Rng &g)
{
	std::string path = tools() + "/libdnstable.so"; void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); VF_CHECK(h, "load", "%s", dlerror());
	std::set<std::string> names;
	for (auto &a : API) { names.insert(a.name); void *p = dlvsym(h, a.name, a.ver); VF_CHECK(p, "version", "%s is not there as %s", a.name, a.ver); VF_CHECK(p == dlsym(h, a.name), "version", "%s has several versions", a.name); count("functions found"); }
	for (auto &n : exported(path)) { VF_CHECK(names.count(n) || n.compare(0, 9, "dnstable_") == 0, "foreign", "%s is exported", n.c_str()); count("exports seen"); }
	S(reader_init_setfile); S(reader_query); S(reader_destroy); S(query_init); S(query_destroy); S(query_set_data); S(query_set_rrtype); S(query_set_aggregated); S(iter_next); S(iter_destroy); S(entry_to_json); S(entry_to_text); S(entry_destroy);
	std::string dir = scratch() + "/l"; mkdir(dir.c_str(), 0700); size_t nf = g.range(1, 3); Db db = make_db(g, nf, g.range(2, 12)); FILE *f = fopen((dir + "/set").c_str(), "w");
	for (size_t i = 0; i < nf; i++) { std::string n = fmt("f%zu.mtbl", i); write_mtbl(dir + "/" + n, db.f[i].raw()); fprintf(f, "%s\n", n.c_str()); }
	fclose(f);
	struct dnstable_reader *r = d_reader_init_setfile((dir + "/set").c_str()), *w = dnstable_reader_init_setfile((dir + "/set").c_str()); VF_CHECK(r && w, "load", "no reader");
	for (int k = 0; k < 6; k++) {
		Q q = rand_query(g, db, QT[g.below(4)]); bool agg = g.flip(); Rows a, b; struct dnstable_entry *e;
		struct dnstable_query *x = d_query_init(q.t), *y = dnstable_query_init(q.t);
		VF_CHECK(d_query_set_data(x, q.data.c_str()) == dnstable_query_set_data(y, q.data.c_str()), "differs", "set_data %s", q.data.c_str()); d_query_set_aggregated(x, agg); dnstable_query_set_aggregated(y, agg);
		std::string ty = q.t == DNSTABLE_QUERY_TYPE_RDATA_IP ? "" : "A"; if (!ty.empty() && g.chance(1, 4)) { d_query_set_rrtype(x, ty.c_str()); dnstable_query_set_rrtype(y, ty.c_str()); }
		std::string one, two; struct dnstable_iter *i = d_reader_query(r, x), *j = dnstable_reader_query(w, y);
		while (d_iter_next(i, &e) == dnstable_res_success) { char *s = k & 1 ? d_entry_to_json(e) : d_entry_to_text(e); one += s ? s : "?"; one += "\n"; free(s); d_entry_destroy(&e); count("entries"); }
		while (dnstable_iter_next(j, &e) == dnstable_res_success) { char *s = k & 1 ? dnstable_entry_to_json(e) : dnstable_entry_to_text(e); two += s ? s : "?"; two += "\n"; free(s); dnstable_entry_destroy(&e); }
		d_iter_destroy(&i); dnstable_iter_destroy(&j); d_query_destroy(&x); dnstable_query_destroy(&y);
		VF_CHECK(one == two, "differs", "the library answers %s, linked in it is %s", one.c_str(), two.c_str()); count("queries"); if (!one.empty()) seen("answers", hash(one));
	}
	d_reader_destroy(&r); dnstable_reader_destroy(&w); rm_rf(dir);
}
int main(int argc, char **argv) { time_bases() = false; return vf::main(argc, argv, { { "lookup", c_lookup }, { "timing", c_timing }, { "badlookup", c_badlookup }, { "dump", c_dump }, { "mergetool", c_mergetool }, { "library", c_library } }); }
