// The merge function (dnstable/merge.c) and sets of record types (rrtype unions).
#include "qry.h"
using namespace dn;

struct Val { Bytes v; };
static Bytes merge(const Bytes &k, const Bytes &a, const Bytes &b)
{
	Exact ek(k); OddExact ea(a), eb(b); u8 *m = nullptr; size_t n = ~(size_t) 0;
	dnstable_merge_func(nullptr, ek.p, ek.n, ea.p, ea.n, eb.p, eb.n, &m, &n);
	VF_CHECK(m, "no-value", "no merged value for %s and %s under %s", hex(a).c_str(), hex(b).c_str(), hex(k).c_str());
	VF_CHECK(n <= 20000, "length", "merged value of %zu bytes", n);
	Bytes r((char *) m, n);	// an overlong length is a report here
	free(m);
	VF_CHECK(ek.str() == k && ea.str() == a && eb.str() == b, "input-changed", "%s", hex(k).c_str());
	count("merges");
	return r;
}
// fold the values in a random order and shape
static Bytes fold(Rng &g, const Bytes &k, std::vector<Bytes> v)
{
	g.shuffle(v);
	while (v.size() > 1) {
		size_t i = g.below(v.size() - 1);
		v[i] = g.flip() ? merge(k, v[i], v[i + 1]) : merge(k, v[i + 1], v[i]);
		v.erase(v.begin() + (long) i + 1);
	}
	return v[0];
}
static u64 num(Rng &g, u64 max) { u64 v = g.edgy64(); return max == ~0ULL ? v : v % (max + 1); }
// ---- algebra ----
static void c_merge(Rng &g)
{
	for (int rep = 0; rep < 12; rep++) {
		size_t n = g.range(2, 7);
		Gen nm(g); std::vector<Bytes> v; Bytes k, want; bool known = true;
		int kind = (int) g.below(6);
		switch (kind) {
		case 0: case 1: {
			RRset r = nm.rrset(); while (r.rd.empty()) r = nm.rrset();
			k = kind ? rdata_key(r.rd[0], r.type, r.owner) : rrset_key(r);
			Trip t{ ~0ULL, 0, 0 };
			for (size_t i = 0; i < n; i++) { Trip x{ num(g, ~0ULL), num(g, ~0ULL), num(g, ~0ULL / n) }; t.f = std::min(t.f, x.f); t.l = std::max(t.l, x.l); t.c += x.c; v.push_back(triplet(x.f, x.l, x.c)); }
			want = triplet(t.f, t.l, t.c); break; }
		case 2: {
			k = B(254); u64 a = ~0ULL, b = 0; bool e = false;
			for (size_t i = 0; i < n; i++) { if (g.chance(1, 12)) { v.push_back(""); e = true; continue; } u64 x = num(g, ~0ULL), y = num(g, ~0ULL); a = std::min(a, x); b = std::max(b, y); v.push_back(varint(x) + varint(y)); }
			if (!e) want = varint(a) + varint(b); break; }
		case 3: {
			int et = g.chance(1, 4) ? (int) g.below(256) : (int) g.below(4); k = B(255) + B(et); u64 m = ~0ULL; bool e = et > 3;
			for (size_t i = 0; i < n; i++) { if (g.chance(1, 12)) { v.push_back(""); e = true; continue; } u64 x = num(g, 0xffffffff); m = std::min(m, x); v.push_back(varint(x)); }
			if (!e) want = varint(m); break; }
		case 4: k = B(253) + "src" + g.bytes(g.below(4)); for (size_t i = 0; i < n; i++) v.push_back(g.flip() ? Bytes() : g.bytes(g.below(4))); break;
		default: { static const u8 ty[] = { 4, 5, 100, 252 }; k = B(g.pick(std::vector<u8>(ty, ty + 4))) + g.bytes(g.below(6)); for (size_t i = 0; i < n; i++) v.push_back(g.bytes(g.below(6))); break; }	// a type this version does not know
		}
		Bytes got = fold(g, k, v);
		VF_CHECK(got == want, "merge-value", "key %s: %zu values starting with %s give %s, want %s", hex(k).c_str(), n, hex(v[0]).c_str(), hex(got).c_str(), hex(want).c_str());
		VF_CHECK(fold(g, k, v) == got, "merge-order", "key %s: the order matters", hex(k).c_str());
		(void) known;
		count("folds"); seen("values", hash(k + want)); count(fmt("kind %d", kind).c_str());
	}
}
// ---- unions ----
static std::set<u16> types(Rng &g)
{
	std::set<u16> s; size_t n;
	switch (g.below(8)) {
	case 0: n = 1; break;
	case 1: n = 2; break;
	case 7: n = g.chance(1, 40) ? 65536 : g.range(30, 400); break;
	default: n = g.range(1, 12);
	}
	if (n == 65536) { unsigned step = (unsigned) g.range(1, 3); for (unsigned i = 0; i < 65536; i += step) s.insert((u16) i); return s; }
	unsigned w = (unsigned) g.below(256);
	for (size_t i = 0; i < n; i++) switch (g.below(6)) {
		case 0: s.insert((u16) g.next()); break;
		case 1: s.insert((u16) (w * 256 + g.below(256))); break;
		case 2: s.insert((u16) (g.below(3) * 256 + 255 * g.below(2))); break;
		case 3: s.insert((u16) (65535 - g.below(9))); break;
		default: s.insert((u16) g.below(70)); break;
	}
	return s;
}
static Bytes enc(Rng &g, const std::set<u16> &s) { return union_enc(s, g.chance(1, 4)); }
static Bytes names_key(Rng &g) { Gen n(g); Bytes w = n.name(); return g.flip() ? B(1) + w : B(3) + rev(w); }
static void c_unions(Rng &g)
{
	for (int rep = 0; rep < 8; rep++) {
		Bytes k = names_key(g);
		size_t n = g.range(2, 5); std::vector<Bytes> v; std::set<u16> all; bool any = false;
		std::set<u16> shared = types(g);
		for (size_t i = 0; i < n; i++) {
			std::set<u16> s = g.chance(1, 3) ? shared : types(g);
			if (g.chance(1, 25)) { v.push_back(""); any = true; continue; }
			all.insert(s.begin(), s.end()); v.push_back(enc(g, s));
		}
		Bytes got = fold(g, k, v); std::set<u16> have; bool every;
		VF_CHECK(union_dec(got, have, every), "union-malformed", "%s of %zu values", hex(got).c_str(), n);
		VF_CHECK(every == any && (any || have == all), "union-value", "%zu types (every %d), want %zu (every %d): %s and %s ... give %s", have.size(), (int) every, all.size(), (int) any, hex(v[0]).substr(0, 80).c_str(), hex(v[1]).substr(0, 80).c_str(), hex(got).substr(0, 80).c_str());
		count("unions"); seen("unions", hash(got)); maxi("types in a union", all.size());
		if (rep == 0) sample(fmt("%zu values -> %zu types", n, all.size()));
	}
}
// what a union says decides which index entries a wildcard query follows
static void c_follow(Rng &g)
{
	for (int rep = 0; rep < 6; rep++) {
		Gen n(g); bool fwd = g.flip();
		std::set<u16> s = types(g);
		if (s.size() > 1000) continue;
		if (g.chance(1, 12)) s.clear();
		Bytes owner = wire({ "x", "example", "com" }), bw = wire({ "com" }), target = wire({ "ns", "target", "net" });
		Bytes val = union_enc(s, !s.empty() && g.flip());
		// one record set under the name for each of the types asked for, whatever the union says
		std::set<u16> ask = types(g); std::vector<u16> av(ask.begin(), ask.end()); if (!s.empty()) for (int i = 0; i < 4; i++) { auto it = s.begin(); std::advance(it, (long) g.below(s.size())); av.push_back(*it); av.push_back((u16) (*it ^ 256)); av.push_back((u16) (*it ^ 1)); }
		std::sort(av.begin(), av.end()); av.erase(std::unique(av.begin(), av.end()), av.end()); g.shuffle(av); av.resize(std::min<size_t>(av.size(), 14));
		std::map<Bytes, Bytes> m;
		static const u16 nt[] = { 2, 5, 12, 39 };
		if (!fwd) for (auto &t : av) t = g.pick(std::vector<u16>(nt, nt + 4)); std::sort(av.begin(), av.end()); av.erase(std::unique(av.begin(), av.end()), av.end());
		for (auto t : av) { if (fwd) { RRset r{ owner, t, bw, { g.bytes(3) } }; m[rrset_key(r)] = triplet(1, 2, 3); } else m[rdata_key(target, t, owner)] = triplet(1, 2, 3); }
		m[fwd ? B(1) + owner : B(3) + rev(target)] = val;
		struct mtbl_reader *r = mem(m); struct dnstable_reader *dr = dnstable_reader_init(mtbl_reader_source(r));
		struct C { struct mtbl_reader *&r; struct dnstable_reader *&d; ~C() { dnstable_reader_destroy(&d); mtbl_reader_destroy(&r); } } c{ r, dr };
		for (auto t : av) {
			if (t == 0 || t == 255) continue;
			dnq d(dnstable_query_init(fwd ? DNSTABLE_QUERY_TYPE_RRSET : DNSTABLE_QUERY_TYPE_RDATA_NAME));
			VF_CHECK(dnstable_query_set_data(d.q, fwd ? "x.example.*" : "*.target.net") == dnstable_res_success && dnstable_query_set_rrtype(d.q, fmt("TYPE%u", t).c_str()) == dnstable_res_success, "setter", "TYPE%u", t);
			size_t got = run(dr, d.q).size(), w = s.empty() || s.count(t);
			VF_CHECK(got == w, "union-follow", "%zu results for TYPE%u, want %zu, union %s of %zu types", got, t, w, hex(val).substr(0, 90).c_str(), s.size());
			count(w ? "followed" : "skipped"); seen("lookups", hash(fmt("%u ", t) + val));
		}
		// and what the entry shows
		Bytes k = fwd ? B(1) + owner : B(3) + rev(target);
		struct dnstable_entry *e = dnstable_entry_decode((const u8 *) k.data(), k.size(), (const u8 *) val.data(), val.size());
		VF_CHECK(e, "rejects-valid", "union %s", hex(val).c_str());
		char *tx = dnstable_entry_to_text(e); std::string txt = tx ? tx : ""; free(tx); char *js = dnstable_entry_to_json(e); std::string jst = js ? js : ""; free(js); dnstable_entry_destroy(&e);
		for (auto t : s) { std::string nmx = tname(t); VF_CHECK(txt.find(nmx) != std::string::npos && jst.find("\"" + nmx + "\"") != std::string::npos, "union-shown", "%s is not in %s / %s", nmx.c_str(), txt.c_str(), jst.c_str()); }
		size_t q = 0; for (size_t p = jst.find('['); p != std::string::npos && p < jst.size(); p++) if (jst[p] == '"') q++;
		if (!s.empty() && jst.find('[') != std::string::npos) VF_CHECK(q == 2 * s.size(), "union-shown", "%zu types shown of %zu: %s", q / 2, s.size(), jst.c_str());
		count("shown");
	}
}
// merging files and then querying is the same as querying the files
static void c_files(Rng &g)
{
	size_t nf = g.range(2, 5); vf_mtbl_tiebreak = g.next();
	Db db = make_db(g, nf, g.range(2, 14));
	// the merge tool's loop, over the code's merge function, in some order
	std::vector<std::map<Bytes, Bytes>> fs; for (auto &f : db.f) fs.push_back(f.raw());
	std::vector<std::map<Bytes, Bytes>> work = fs; g.shuffle(work);
	while (work.size() > 1) { auto b = work.back(); work.pop_back(); size_t i = g.below(work.size()); for (auto &x : b) { auto r = work[i].insert(x); if (!r.second) r.first->second = g.flip() ? merge(x.first, r.first->second, x.second) : merge(x.first, x.second, r.first->second); } }
	struct mtbl_reader *one = mem(work[0]); struct dnstable_reader *dr = dnstable_reader_init(mtbl_reader_source(one));
	struct C { struct mtbl_reader *&r; struct dnstable_reader *&d; ~C() { dnstable_reader_destroy(&d); mtbl_reader_destroy(&r); } } c{ one, dr };
	Rd rd(db, true);
	for (int i = 0; i < 8; i++) {
		Q q = rand_query(g, db, QT[g.below(4)]); if (g.chance(1, 3)) rand_times(g, db, q); q.agg = true;
		dnq d(make(q, g));
		Rows a = sorted(run(dr, d.q)), b = sorted(run(rd.r, d.q));
		VF_CHECK(a == b, "merged-file", "%zu files: merged file %zu rows, file set %zu: %s: %s", nf, a.size(), b.size(), diff(b, a).c_str(), q.str().c_str());
		judge(want(db, q), a, q, "merged file"); count("queries"); seen("queries", hash(q.str()));
	}
	{ It x(dnstable_reader_iter(dr)), y(dnstable_reader_iter(rd.r)); Rows a = sorted(drain(x.it)), b = sorted(drain(y.it)); VF_CHECK(a == b, "merged-file", "contents: %s", diff(b, a).c_str()); count("contents"); }
	for (dnstable_query_type t : { DNSTABLE_QUERY_TYPE_TIME_RANGE, DNSTABLE_QUERY_TYPE_SOURCE_INFO, DNSTABLE_QUERY_TYPE_VERSION }) { dnq d(dnstable_query_init(t)); Rows a = sorted(run(dr, d.q)), b = sorted(run(rd.r, d.q)); VF_CHECK(a == b, "merged-file", "type %d: %s", (int) t, diff(b, a).c_str()); }
	sample(fmt("%zu files, %zu keys merged", nf, work[0].size()));
}
int main(int argc, char **argv) { return vf::main(argc, argv, { { "merge", c_merge }, { "unions", c_unions }, { "follow", c_follow }, { "files", c_files } }); }
