// Command line parsing against a model of the documented behaviour.
#include "vf.h"
#include <cmath>
#include <cstring>
#include <unistd.h>
extern "C" {
#include "libmy/argv.h"
}
using namespace vf;

struct Opt { char s; std::string l; unsigned type, flags; };	// s = 0: long only; ARGV_MAND etc. for positions and ARGV_OR/XOR markers
static bool hasarg(unsigned t) { return t != ARGV_BOOL && t != ARGV_BOOL_NEG && t != ARGV_INCR && t != ARGV_BOOL_INT && t != ARGV_BOOL_INT_NEG; }
struct Val { bool set = false; long long i = 0; double d = 0; Bytes s; bool operator==(const Val &o) const { return i == o.i && s == o.s && (d == o.d || (std::isnan(d) && std::isnan(o.d))); } };
static size_t width(unsigned t)
{
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: return 1;
	case ARGV_SHORT: case ARGV_U_SHORT: return 2;
	case ARGV_INT: case ARGV_U_INT: case ARGV_BIN: case ARGV_OCT: case ARGV_HEX: case ARGV_INCR: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: case ARGV_FLOAT: return 4;
	default: return 8;
	}
}
static Val load(unsigned t, const void *p)
{
	Val v; v.set = true;
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: v.i = *(const unsigned char *) p; break;
	case ARGV_SHORT: v.i = *(const short *) p; break;
	case ARGV_U_SHORT: v.i = *(const unsigned short *) p; break;
	case ARGV_U_INT: v.i = *(const unsigned *) p; break;
	case ARGV_INT: case ARGV_BIN: case ARGV_OCT: case ARGV_HEX: case ARGV_INCR: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: v.i = *(const int *) p; break;
	case ARGV_LONG: case ARGV_U_LONG: case ARGV_SIZE: case ARGV_U_SIZE: v.i = *(const long *) p; break;
	case ARGV_FLOAT: v.d = *(const float *) p; break;
	case ARGV_DOUBLE: v.d = *(const double *) p; break;
	case ARGV_CHAR_P: { char *s = *(char *const *) p; v.s = s ? s : ""; v.i = s != nullptr; break; }
	}
	return v;
}
// a value string for the type, with what it means
static std::string mkvalue(Rng &r, unsigned t, Val &v, bool neg_ok)
{
	v = Val(); v.set = true;
	auto dec = [&](long long lo, long long hi) { u64 span = (u64) hi - (u64) lo; u64 x = r.edgy64(); v.i = (long long) ((u64) lo + (span == ~0ULL ? x : x % (span + 1))); if (!neg_ok && v.i < 0) v.i = v.i == lo ? hi : -v.i; return std::to_string(v.i); };
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_ARG: case ARGV_BOOL_INT_ARG: {
		static const char *T[] = { "t", "T", "true", "True", "y", "Y", "yes", "1" }, *F[] = { "f", "F", "false", "n", "N", "no", "0" };
		v.i = r.flip(); return v.i ? T[r.below(8)] : F[r.below(7)]; }
	case ARGV_CHAR: { std::string s(1, (char) ('A' + r.below(26))); v.i = (unsigned char) s[0]; if (r.chance(1, 3)) s += "rest"; return s; }
	case ARGV_CHAR_P: { std::string s; size_t n = r.below(r.chance(1, 60) ? 900 : 12); for (size_t i = 0; i < n; i++) s += (char) (r.chance(1, 6) ? "=-, /?"[r.below(6)] : 'a' + r.below(26)); if (!s.empty() && s[0] == '-') s[0] = 'x'; if (r.chance(1, 15)) s = "-"; v.s = s; v.i = 1; return s; }
	case ARGV_SHORT: return dec(-32768, 32767);
	case ARGV_U_SHORT: return dec(0, 65535);
	case ARGV_INT: return dec(-2147483648LL, 2147483647);
	case ARGV_INCR: return dec(-2147483648LL, 2147483000);
	case ARGV_U_INT: return dec(0, 4294967295LL);
	case ARGV_LONG: return dec((long long) (1ULL << 63), (long long) (~0ULL >> 1));
	case ARGV_U_LONG: { u64 x = r.edgy64(); v.i = (long long) x; return std::to_string(x); }
	case ARGV_FLOAT: { std::string s = fmt("%s%llu.%02llu", neg_ok && r.flip() ? "-" : "", (unsigned long long) r.below(100000), (unsigned long long) r.below(100)); v.d = strtof(s.c_str(), nullptr); return s; }
	case ARGV_DOUBLE: { std::string s = fmt("%s%llu.%06llu", neg_ok && r.flip() ? "-" : "", (unsigned long long) r.below(1000000000), (unsigned long long) r.below(1000000)); v.d = strtod(s.c_str(), nullptr); return s; }
	case ARGV_BIN: { v.i = (long long) (r.next() >> r.range(33, 63)); std::string s; for (long long x = v.i; x; x >>= 1) s.insert(s.begin(), (char) ('0' + (x & 1))); return s.empty() ? "0" : s; }
	case ARGV_OCT: v.i = (long long) (r.next() >> r.range(33, 63)); return fmt("%s%llo", r.flip() ? "0" : "", (unsigned long long) v.i);
	case ARGV_HEX: v.i = (long long) (r.next() >> r.range(33, 63)); return fmt(r.flip() ? "%s%llx" : "%s%llX", r.flip() ? "0x" : "", (unsigned long long) v.i);
	case ARGV_SIZE: case ARGV_U_SIZE: { long long k = (long long) (r.next() >> r.range(33, 63)); static const char *S[] = { "", "b", "B", "k", "K", "m", "M", "g", "G" }; static const int sh[] = { 0, 0, 0, 10, 10, 20, 20, 30, 30 }; int u = (int) r.below(9); if (t == ARGV_SIZE && neg_ok && r.chance(1, 4)) k = -k; if (t == ARGV_U_SIZE && r.chance(1, 4)) { u64 x = r.edgy64() >> sh[u]; v.i = (long long) (x << sh[u]); return std::to_string(x) + S[u]; } v.i = (long long) ((u64) k << sh[u]); return std::to_string(k) + S[u]; }
	}
	return "";
}

struct Grid {
	std::vector<Opt> o; argv_t *args = nullptr; std::vector<u8 *> var;
	~Grid() { if (args) { argv_cleanup(args); free(args); } for (u8 *p : var) free(p); }
	void build(Rng &r)
	{
		args = (argv_t *) malloc((o.size() + 1) * sizeof(argv_t));
		for (size_t i = 0; i < o.size(); i++) {
			memset(&args[i], 0, sizeof args[i]);
			args[i].ar_short_arg = o[i].s; args[i].ar_long_arg = o[i].l.empty() ? nullptr : o[i].l.c_str(); args[i].ar_type = o[i].type | o[i].flags;
			if (o[i].s == ARGV_OR || o[i].s == ARGV_ONE_OF) { args[i].ar_type = 0; var.push_back(nullptr); continue; }
			size_t w = o[i].flags & ARGV_FLAG_ARRAY ? sizeof(argv_array_t) : width(o[i].type);
			u8 *p = (u8 *) calloc(1, w); var.push_back(p); args[i].ar_variable = p;
			if (r.flip()) { args[i].ar_var_label = "label"; args[i].ar_comment = "comment"; }
		}
		memset(&args[o.size()], 0, sizeof(argv_t)); args[o.size()].ar_short_arg = ARGV_LAST;
	}
};
static void mkgrid(Rng &r, Grid &g)
{
	static const unsigned T[] = { ARGV_BOOL, ARGV_BOOL_NEG, ARGV_BOOL_ARG, ARGV_CHAR, ARGV_CHAR_P, ARGV_SHORT, ARGV_U_SHORT, ARGV_INT, ARGV_U_INT, ARGV_LONG, ARGV_U_LONG, ARGV_FLOAT, ARGV_DOUBLE, ARGV_BIN, ARGV_OCT, ARGV_HEX, ARGV_INCR, ARGV_SIZE, ARGV_U_SIZE, ARGV_BOOL_INT, ARGV_BOOL_INT_NEG, ARGV_BOOL_INT_ARG };
	std::string used; unsigned n = (unsigned) r.range(1, 9); bool link = false;
	std::set<std::string> longs;
	for (unsigned i = 0; i < n; i++) {
		Opt o{}; o.type = T[r.below(22)];
		do o.s = (char) (r.flip() ? 'a' + r.below(26) : 'A' + r.below(26)); while (used.find(o.s) != std::string::npos);
		used += o.s;
		if (r.chance(2, 3)) { static const char *base[] = { "alpha", "alphabet", "al", "beta", "be-ta", "gamma", "gam", "k", "kk", "quite-long-option-name", "quite-long" }; do o.l = std::string(base[r.below(11)]) + (r.flip() ? "" : std::string(1, (char) ('a' + r.below(26)))); while (longs.count(o.l)); longs.insert(o.l); if (r.chance(1, 5)) { used.pop_back(); o.s = 0; } }
		if (hasarg(o.type) && r.chance(1, 5)) o.flags |= ARGV_FLAG_ARRAY;
		if (o.s && r.chance(1, 8)) o.flags |= ARGV_FLAG_MAND;
		g.o.push_back(o);
		if (i + 1 < n && r.chance(1, 6)) { Opt m{}; m.s = r.flip() ? ARGV_OR : ARGV_ONE_OF; if (link && r.flip()) m.s = g.o[g.o.size() - 2].s; g.o.push_back(m); link = true; } else link = false;
	}
	unsigned np = (unsigned) r.below(3);
	for (unsigned i = 0; i < np; i++) { Opt o{}; o.s = ARGV_MAND; do o.type = T[r.below(22)]; while (!hasarg(o.type)); g.o.push_back(o); }
	if (r.chance(1, 3)) { Opt o{}; o.s = r.flip() ? ARGV_MAND : ARGV_MAYBE; do o.type = T[r.below(22)]; while (!hasarg(o.type)); if (r.flip()) o.flags |= ARGV_FLAG_ARRAY; g.o.push_back(o); }
}
static bool marker(const Opt &o) { return o.s == ARGV_OR || o.s == ARGV_ONE_OF; }
static bool position(const Opt &o) { return o.s == ARGV_MAND || o.s == ARGV_MAYBE; }

struct Expect { std::vector<std::vector<Val>> v; std::vector<bool> used; bool error = false; };

// build a command line option by option, keeping what it must mean
static void mkline(Rng &r, Grid &g, std::vector<std::string> &line, Expect &x, const std::string &file, std::vector<std::string> &filelines)
{
	size_t n = g.o.size(); x.v.assign(n, {}); x.used.assign(n, false);
	std::vector<size_t> queue; bool raw = false; bool lengthy = r.chance(1, 400); size_t steps = lengthy ? r.range(50, 600) : r.below(9); if (lengthy) count("long_lines");
	std::vector<std::string> *out = &line; bool infile = false, fileused = false; size_t fileleft = 0;
	auto set = [&](size_t i, const Val &v) {
		if (g.o[i].flags & ARGV_FLAG_ARRAY) x.v[i].push_back(v);
		else x.v[i].assign(1, v);
	};
	auto use = [&](size_t i) {
		x.used[i] = true;
		for (size_t k = i; k >= 2 && marker(g.o[k - 1]); k -= 2) if (x.used[k - 2]) x.error = true;
		for (size_t k = i; k + 2 < n && marker(g.o[k + 1]); k += 2) if (x.used[k + 2]) x.error = true;
	};
	auto flag = [&](size_t i) { Val v; v.set = true; switch (g.o[i].type) { case ARGV_BOOL: case ARGV_BOOL_INT: v.i = 1; break; case ARGV_BOOL_NEG: case ARGV_BOOL_INT_NEG: v.i = 0; break; case ARGV_INCR: v.i = (x.v[i].empty() ? 0 : x.v[i][0].i) + 1; break; } set(i, v); };
	auto feed = [&] { Val v; size_t i = queue[0]; unsigned t = g.o[i].type; bool neg = t == ARGV_SHORT || t == ARGV_INT || t == ARGV_LONG || t == ARGV_FLOAT || t == ARGV_DOUBLE; std::string s = mkvalue(r, t, v, neg || raw); queue.erase(queue.begin()); out->push_back(s); set(i, v); if (!s.empty() && s[0] == '-') count("negative_values"); count("queued_values"); };
	auto longname = [&](size_t i) -> std::string {
		const std::string &l = g.o[i].l; if (l.empty()) return "";
		size_t min = 1; for (; min <= l.size(); min++) { unsigned m = 0; for (auto &o : g.o) if (o.l.compare(0, min, l, 0, min) == 0 && o.l.size() >= min) m++; if (m == 1) break; }
		if (min > l.size()) return "";	// its name is a prefix of another's: ambiguous
		if (r.chance(1, 3)) { size_t k = r.range(min, l.size()); if (k < l.size()) count("abbreviations"); return l.substr(0, k); }
		return l;
	};
	std::vector<size_t> opts; for (size_t i = 0; i < n; i++) if (!marker(g.o[i]) && !position(g.o[i])) opts.push_back(i);
	auto room = [&](size_t i) { (void) i; return true; };
	for (size_t s = 0; s < steps; s++) {
		if (infile && fileleft-- == 0) { infile = false; out = &line; }
		if (!queue.empty() && r.chance(2, 3)) { feed(); continue; }
		if (raw) { if (!queue.empty()) feed(); else break; continue; }
		unsigned op = (unsigned) r.below(14);
		size_t i = opts[r.below(opts.size())]; const Opt &o = g.o[i];
		if (g.o[i].type == ARGV_CHAR_P && x.used[i] && !(o.flags & ARGV_FLAG_ARRAY)) continue;	// a string given twice leaks by design
		if (op < 4) {	// --long or --long=value
			std::string l = longname(i); if (l.empty()) continue;
			use(i);
			if (r.flip()) { Val v; std::string t = mkvalue(r, o.type, v, true); out->push_back("--" + l + "=" + t); set(i, v); count("long_with_value"); }
			else { out->push_back("--" + l); if (hasarg(o.type)) queue.push_back(i); else flag(i); count("long"); }
		} else if (op < 6) {	// -s=value
			if (!o.s) continue;
			use(i); Val v; std::string t = mkvalue(r, o.type, v, true); out->push_back(fmt("-%c=", o.s) + t); set(i, v); count("short_with_value");
		} else if (op < 10) {	// cluster
			std::string c = "-"; size_t k = r.chance(1, 300) ? r.range(100, 900) : r.chance(1, 12) ? r.range(5, 30) : r.range(1, 4); std::set<size_t> strs;
			for (size_t j = 0; j < k; j++) { size_t q = opts[r.below(opts.size())]; if (!g.o[q].s) continue; if (g.o[q].type == ARGV_CHAR_P && !(g.o[q].flags & ARGV_FLAG_ARRAY) && x.used[q]) continue; use(q); c += g.o[q].s; if (hasarg(g.o[q].type)) queue.push_back(q); else flag(q); }
			if (c.size() > 1) { out->push_back(c); if (c.size() > 2) count("clusters"); }
		} else if (op == 10) { out->push_back("--"); raw = true; count("end_markers"); if (infile) { raw = false; out->pop_back(); } }
		else if (op == 11 && !file.empty() && !fileused && !infile && queue.empty()) {
			line.push_back(r.flip() ? "--argv-file=" + file : "--argv-f=" + file); out = &filelines; infile = true; fileleft = r.range(1, 5); fileused = true; count("argument_files");
		} else if (op == 12 && r.chance(1, 4)) { x.error = true; switch (r.below(4)) { case 0: out->push_back("--zzz"); break; case 1: out->push_back("--zzz=5"); break; case 2: out->push_back("-1%"); break; default: { std::string a; for (auto &p : g.o) for (auto &q : g.o) if (&p != &q && !p.l.empty() && !q.l.empty() && p.l[0] == q.l[0]) a = p.l.substr(0, 1); out->push_back(a.empty() ? "--zz" : "--" + a); } } count("bad_options"); }
		else if (op == 13 && queue.empty()) {	// positional
			size_t p = n; for (size_t j = 0; j < n && p == n; j++) if (g.o[j].s == ARGV_MAND && (!x.used[j] || (g.o[j].flags & ARGV_FLAG_ARRAY))) p = j;
			for (size_t j = 0; j < n && p == n; j++) if (g.o[j].s == ARGV_MAYBE && (!x.used[j] || (g.o[j].flags & ARGV_FLAG_ARRAY))) p = j;
			if (p == n) { if (r.chance(1, 3)) { out->push_back("surplus"); x.error = true; count("surplus"); } continue; }
			Val v; std::string t = mkvalue(r, g.o[p].type, v, raw); out->push_back(t); set(p, v); x.used[p] = true; count("positional");
		}
		(void) room;
	}
	out = &line;
	while (!queue.empty()) { if (r.chance(1, 20)) { x.error = true; count("missing_values"); break; } feed(); }
	if (queue.empty()) for (size_t j = 0; j < n; j++) if (g.o[j].s == ARGV_MAND && !x.used[j]) {
		if (r.chance(1, 12)) { count("missing_positional"); break; }
		Val v; std::string t = mkvalue(r, g.o[j].type, v, raw); out->push_back(t); set(j, v); x.used[j] = true; count("positional");
		}
	if (queue.empty()) for (size_t j = 0; j < n; j++) if (!raw && (g.o[j].flags & ARGV_FLAG_MAND) && !x.used[j] && !r.chance(1, 6)) { use(j); Val v; std::string t = mkvalue(r, g.o[j].type, v, true); line.push_back(fmt("-%c=", g.o[j].s) + t); set(j, v); }
	for (size_t j = 0; j < n; j++) {
		if (g.o[j].s == ARGV_MAND && !x.used[j]) x.error = true;
		if ((g.o[j].flags & ARGV_FLAG_MAND) && !x.used[j]) x.error = true;
		if (g.o[j].s == ARGV_ONE_OF && (j < 2 || g.o[j - 2].s != ARGV_ONE_OF)) { bool any = x.used[j - 1]; for (size_t k = j; k < n && g.o[k].s == ARGV_ONE_OF; k += 2) any = any || x.used[k + 1]; if (!any) x.error = true; }
	}
	(void) infile;
}
struct Argv { std::vector<char *> v; Argv(const std::string &p, const std::vector<std::string> &l) { v.push_back(strdup(p.c_str())); for (auto &s : l) v.push_back(strdup(s.c_str())); v.push_back(nullptr); } ~Argv() { for (char *p : v) free(p); } };


// what argv_value_string has to say about a value
static std::string valtext(unsigned t, const Val &v)
{
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: return v.i ? "true (! 0)" : "false (0)";
	case ARGV_CHAR_P: if (!v.i) return "(null)"; // fall through
	case ARGV_CHAR: {
		Bytes b = t == ARGV_CHAR ? Bytes(1, (char) v.i) : v.s, o; static const char S[] = "e\033^^\"\"''\\\\n\nr\rt\tb\bf\fa\007";
		for (unsigned char c : b) { const char *q = nullptr; for (const char *k = S; *k; k += 2) if ((unsigned char) k[1] == c) { q = k; break; } if (q) { o += '\\'; o += *q; } else if (c < 128 && isprint(c)) o += (char) c; else o += fmt("\\%03o", c); }
		return o; }
	case ARGV_U_LONG: return fmt("%llu", (unsigned long long) v.i);
	case ARGV_FLOAT: case ARGV_DOUBLE: return fmt("%f", v.d);
	case ARGV_BIN: { if (!v.i) return "0"; std::string s; for (unsigned x = (unsigned) v.i; x; x >>= 1) s.insert(s.begin(), (char) ('0' + (x & 1))); return fmt("0b%s (%d)", s.c_str(), (int) v.i); }
	case ARGV_OCT: return v.i ? fmt("%#o (%d)", (unsigned) v.i, (int) v.i) : "0";
	case ARGV_HEX: return v.i ? fmt("%#x (%d)", (unsigned) v.i, (int) v.i) : "0";
	case ARGV_SIZE: for (int k = 30; k > 0; k -= 10) if (v.i && v.i % (1LL << k) == 0) return fmt("%lld%c (%lld)", v.i / (1LL << k), " kmg"[k / 10], v.i); return fmt("%lld", v.i);
	case ARGV_U_SIZE: { u64 x = (u64) v.i; for (int k = 30; k > 0; k -= 10) if (x && x % (1ULL << k) == 0) return fmt("%llu%c (%llu)", (unsigned long long) (x / (1ULL << k)), " kmg"[k / 10], (unsigned long long) x); return fmt("%llu", (unsigned long long) x); }
	default: return fmt("%lld", v.i);
	}
}
// the text of an entry in a buffer of exactly so many bytes; exact where there is room for all of it
static void value_text(Rng &r, Grid &g, size_t i, const std::string &want)
{
	size_t n = r.flip() ? r.range(1, 20) : 4200; Exact e(n, 0x5a);
	int len = argv_value_string(&g.args[i], (char *) e.p, (int) n);
	VF_CHECK(len >= 0 && (size_t) len < n, "argv:text", "value of option %zu: %d bytes in a buffer of %zu", i, len, n);
	Bytes got((char *) e.p, (size_t) len);
	if (n == 4200) VF_CHECK(got == want, "argv:text", "option %zu (type %u) is shown as %s, not %s", i, g.o[i].type, got.c_str(), want.c_str());
	else if (g.o[i].type != ARGV_BIN) VF_CHECK(want.compare(0, got.size(), got) == 0, "argv:text", "option %zu (type %u) is shown as %s in %zu bytes, not as %s", i, g.o[i].type, got.c_str(), n, want.c_str());
	count("texts");
}
static void quiet() { argv_interactive = 0; static FILE *nul = fopen("/dev/null", "w"); argv_error_stream = nul; }
static void parse(Rng &r)
{
	quiet();
	Grid g; mkgrid(r, g); g.build(r);
	std::vector<std::string> line, fl; Expect x; std::string file = r.chance(1, 3) ? scratch() + "/args" : "";
	mkline(r, g, line, x, file, fl);
	if (!file.empty()) { FILE *f = fopen(file.c_str(), "w"); for (auto &s : fl) { if (s.empty()) { x.error = true; } fprintf(f, "%s\n%s", s.c_str(), r.chance(1, 5) ? "\n" : ""); } fclose(f); }
	bool blank = false; for (auto &s : fl) blank |= s.empty();
	if (blank) return;	// blank lines in an argument file are skipped
	std::string env; size_t ne = 0; bool mark = false; for (auto &s : line) mark |= s == "--";
	if (r.chance(1, 4) && !mark && !line.empty()) { ne = r.range(1, line.size()); for (size_t i = 0; i < ne; i++) if (line[i].empty() || line[i].find_first_of(" \t") != std::string::npos) ne = i; for (size_t i = 0; i < ne; i++) env += (i ? r.flip() ? " " : "\t" : "") + line[i]; }
	if (ne) { setenv("ARGV_VFPROG", env.c_str(), 1); count("from_environment"); }
	Argv a("/some/where/vfprog", std::vector<std::string>(line.begin() + (long) ne, line.end()));
	Bytes shown; for (auto &s : line) shown += "[" + s + "]"; if (ne) shown += fmt(" (%zu from the environment)", ne);
	for (auto &s : fl) shown += "{" + s + "}";
	for (auto &o : g.o) if (!marker(o)) shown += position(o) ? fmt(" pos:%u%s", o.type, o.flags ? "*" : "") : fmt(" %c/%s:%u%s%s", o.s ? o.s : '0', o.l.c_str(), o.type, o.flags & ARGV_FLAG_ARRAY ? "*" : "", o.flags & ARGV_FLAG_MAND ? "!" : ""); else shown += o.s == ARGV_OR ? " |" : " ^";
	int rc = argv_process(g.args, (int) a.v.size() - 1, a.v.data());
	if (ne) unsetenv("ARGV_VFPROG");
	VF_CHECK(!strcmp(argv_program, "vfprog"), "argv:program", "program name is %s", argv_program);
	VF_CHECK((rc == 0) == !x.error, x.error ? "argv:accepted" : "argv:rejected", "returned %d for %s", rc, shown.c_str());
	seen("nontrivial", hash(shown)); count(x.error ? "refused" : "parsed");
	if (line.size() > 3) sample(shown);
	if (x.error) return;
	for (size_t i = 0; i < g.o.size(); i++) {
		if (marker(g.o[i])) continue;
		seen("types", g.o[i].type | g.o[i].flags);
		VF_CHECK(!!argv_entry_was_used(&g.args[i]) == x.used[i], "argv:used", "option %zu: wrong 'used' for %s", i, shown.c_str());
		if (!position(g.o[i]) && g.o[i].s) VF_CHECK(!!argv_was_used(g.args, g.o[i].s) == x.used[i], "argv:used", "-%c: wrong 'used' for %s", g.o[i].s, shown.c_str());
		if (!g.o[i].l.empty()) { char *copy = strdup(g.o[i].l.c_str()); int u = argv_long_was_used(g.args, copy); free(copy); VF_CHECK(!!u == x.used[i], "argv:used:long", "--%s: wrong 'used' for %s", g.o[i].l.c_str(), shown.c_str()); }
		if (g.o[i].flags & ARGV_FLAG_ARRAY) {
			argv_array_t *ar = (argv_array_t *) g.var[i]; size_t w = width(g.o[i].type);
			VF_CHECK((size_t) ar->aa_entry_n == x.v[i].size(), "argv:array", "option %zu has %d values, expected %zu, for %s", i, ar->aa_entry_n, x.v[i].size(), shown.c_str());
			for (size_t k = 0; k < x.v[i].size(); k++) VF_CHECK(load(g.o[i].type, (char *) ar->aa_entries + k * w) == x.v[i][k], "argv:value", "option %zu, value %zu (type %u) is wrong for %s", i, k, g.o[i].type, shown.c_str());
			count("values", x.v[i].size());
			value_text(r, g, i, x.v[i].empty() ? "0 array entries" : valtext(g.o[i].type, x.v[i][0]) + (x.v[i].size() > 1 ? fmt(" (1st of %zu entries)", x.v[i].size()) : ""));
		} else {
			Val want; if (!x.v[i].empty()) { want = x.v[i][0]; }
			Val have = load(g.o[i].type, g.var[i]);
			VF_CHECK(have == want, "argv:value", "option %zu (type %u) is %lld/%g/%s, expected %lld/%g/%s, for %s", i, g.o[i].type, have.i, have.d, have.s.c_str(), want.i, want.d, want.s.c_str(), shown.c_str());
			count("values");
			value_text(r, g, i, valtext(g.o[i].type, want));
		}
	}
}
// anything at all on the command line: an answer, and no harm
static void hostile(Rng &r)
{
	quiet();
	Grid g; mkgrid(r, g); g.build(r);
	std::vector<std::string> line; bool big = r.chance(1, 200); size_t n = r.below(big ? 300 : 8); std::string sh = "?-=19.xyz"; for (auto &o : g.o) if (o.s > 0) sh += o.s;
	for (size_t i = 0; i < n; i++) {
		std::string s;
		switch (r.below(7)) {
		case 0: s = "-"; for (size_t k = r.below(big ? 3000 : r.chance(1, 5) ? 60 : 6); k; k--) s += sh[r.below(sh.size())]; break;
		case 1: s = "--"; for (size_t k = r.below(6); k; k--) s += sh[r.below(sh.size())]; break;
		case 2: { const Opt &o = g.o[r.below(g.o.size())]; s = "--" + o.l.substr(0, r.below(o.l.size() + 1)) + (r.flip() ? "=" : "") + (r.flip() ? "7" : ""); break; }
		case 3: { static const char *S[] = { "--argv-file", "--usage", "--help", "--version", "--argv-display", "--argv-file=/nonexistent", "--usage-all", "--v", "--h", "--u", "--argv", "-5", "-", "", "--=", "-=", "-=x", "--argv-file=" }; s = S[r.below(18)]; break; }
		case 4: s = std::to_string((long long) r.next() >> r.range(33, 63)); break;
		default: for (size_t k = r.below(big && r.chance(1, 10) ? 5000 : 10); k; k--) s += (char) r.range(1, 255);
		}
		line.push_back(s);
	}
	// numbers beyond the range of their type are not part of the claim
	for (auto &s : line) for (size_t i = 0, run = 0; i < s.size(); i++) { run = isxdigit((u8) s[i]) ? run + 1 : 0; if (run > 7) s[i] = 'z', run = 0; }
	for (auto &o : g.o) if (o.type == ARGV_INCR) o.type = ARGV_INT;
	Argv a("prog", line);
	int rc = argv_process(g.args, (int) a.v.size() - 1, a.v.data());
	VF_CHECK(rc == 0 || rc == -1, "argv:result", "returned %d", rc);
	char buf[64]; Exact e(r.range(1, 63), 0); argv_copy_args((char *) e.p, (int) e.n); VF_CHECK(memchr(e.p, 0, e.n), "argv:copy", "not terminated"); (void) buf;
	for (size_t i = 0; i < g.o.size(); i++) if (!marker(g.o[i])) { Exact b(r.range(1, 40), 0x5a); int len = argv_value_string(&g.args[i], (char *) b.p, (int) b.n); VF_CHECK(len >= 0 && (size_t) len < b.n, "argv:text", "%d bytes in a buffer of %zu", len, b.n); }
	for (int w : { ARGV_USAGE_SHORT, ARGV_USAGE_LONG, ARGV_USAGE_ALL }) argv_usage(g.args, w);
	Bytes t; for (auto &s : line) t += s + '\0'; seen("nontrivial", hash(t)); count(rc ? "hostile_refused" : "hostile_accepted");
	maxi("arguments", n);
}
int main(int argc, char **argv) { return vf::main(argc, argv, { { "parse", parse }, { "hostile", hostile } }); }
