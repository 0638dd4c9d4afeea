// Queries over one file and over file sets (dnstable/query.c, query_mtbl.c, reader.c, iter.c).
#include "qry.h"
#include <time.h>
#include <tuple>
#include <fcntl.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
using namespace dn;

static std::vector<u16> focus_for(dnstable_query_type t, Rng &g)
{
	if (t == DNSTABLE_QUERY_TYPE_RDATA_IP) return { 1, 28, 28, 16, 1 };
	if (t == DNSTABLE_QUERY_TYPE_RDATA_NAME) return { 2, 5, 12, 39, 15, 33, 64, 65, 6, 47, 17 };
	if (g.flip()) return {};
	return { 1, 2, 16, 28, 5 };
}
// now and then many files, or many keys
static void grow(Rng &g, size_t &nf, size_t &most) { if (g.chance(1, 80)) nf = g.range(10, 40); else if (g.chance(1, 100)) most = 500; }
static void exact(Rng &g, dnstable_query_type t, bool times)
{
	size_t nf = times ? g.range(1, 5) : g.chance(1, 3) ? 1 : g.range(1, 4), most = g.chance(1, 8) ? 60 : 18;
	grow(g, nf, most);
	vf_mtbl_tiebreak = g.next();
	Db db = make_db(g, nf, g.range(2, most), focus_for(t, g)); maxi("files in a set", nf); maxi("keys of one file", db.f[0].t.size());
	bool sf = nf != 1 || times || g.flip();
	Rd rd(db, sf);
	size_t n = times ? 10 : 12;
	for (size_t i = 0; i < n; i++) {
		Q q = rand_query(g, db, t);
		if (times) rand_times(g, db, q); else if (g.chance(1, 6)) rand_times(g, db, q);
		q.agg = g.chance(times ? 3 : 1, times ? 4 : 2);
		if (!sf && nf == 1) q.agg = true;	// a plain source has nothing to aggregate
		dnq d(make(q, g));
		Rows got = run(rd.r, d.q);
		Want w = want(db, q);
		judge(w, got, q, fmt("%zu files", nf).c_str());
		count("queries"); count("rows", got.size()); if (w.n) count("queries with results");
		seen("queries", hash(q.str()));
		maxi("rows of one query", got.size());
		if (i == 0) sample(q.str() + fmt(" -> %zu rows", got.size()));
		if (g.chance(1, 8)) {	// a query object can be run again
			Rows again = run(rd.r, d.q);
			VF_CHECK(sorted(again) == sorted(got), "not-repeatable", "%s: %s", q.str().c_str(), diff(sorted(got), sorted(again)).c_str());
			count("repeated");
		}
	}
}
static void c_rrset(Rng &g) { exact(g, DNSTABLE_QUERY_TYPE_RRSET, false); }
static void c_rname(Rng &g) { exact(g, DNSTABLE_QUERY_TYPE_RDATA_NAME, false); }
static void c_rip(Rng &g) { exact(g, DNSTABLE_QUERY_TYPE_RDATA_IP, false); }
static void c_rraw(Rng &g) { exact(g, DNSTABLE_QUERY_TYPE_RDATA_RAW, false); }
static void c_time(Rng &g) { exact(g, QT[g.below(4)], true); }

// IP ranges over few, dense addresses and much that looks like them
static void c_dense(Rng &g)
{
	Db db; db.f.emplace_back(); File &f = db.f[0];
	Gen n(g);
	bool v6 = g.flip(), tight = g.flip();
	size_t len = v6 ? 16 : 4;
	if (g.flip()) for (int i = 0; i < 4; i++) { Labels l; if (g.flip()) l.push_back(g.pick(n.pool)); l.push_back(Bytes(g.chance(1, 4) ? 62 : 63, (char) g.range('l', 'm'))); n.names.push_back(wire(l)); }	// top labels of full length
	if (g.chance(1, 4)) for (int i = 0; i < 4; i++) { Bytes x = g.pick(n.pool); x.resize(g.range(1, 3)); n.names.push_back(wire({ x + Bytes(g.range(1, 3), g.chance(1, 4) ? 1 : 0) })); }
	Bytes base = g.chance(1, 4) ? Bytes(len, g.flip() ? '\xff' : '\0') : g.bytes(len);
	u8 alpha[5] = { 0, 1, 28, 255, (u8) g.next() };
	auto near = [&]() { Bytes a = base; for (size_t i = len - (tight ? 1 : g.range(1, 2)); i < len; i++) a[i] = (char) alpha[g.below(tight ? 3 : 5)]; if (g.chance(1, 3)) a = step(a, g.flip() ? 1 : -1); return a; };
	auto tail = [&]() {	// what may follow an address in a key: a type, labels, a length
		Bytes t; size_t m = g.below(4);
		if (g.flip()) {	// like an owner that there may be, but for an end or a byte
			t += (char) (v6 ? 28 : 1); t += rev(n.name());
			switch (g.below(4)) {
			case 0: t.resize(g.range(1, t.size())); break;
			case 1: { size_t k = g.range(1, t.size() - 1); t[k] = (char) (t[k] + (g.flip() ? 1 : -1)); break; }
			case 2: { size_t k = g.range(1, t.size() - 1); t.resize(k); t += (char) g.below(66); t += g.bytes(g.below(3)); break; }
			default: t += Bytes(g.flip() ? "\4\0" : "\20\0", 2); if (g.flip()) t.resize(t.size() - 1); break;
			}
			return t;
		}
		t += (char) (g.flip() ? (v6 ? 28 : 1) : (int) g.below(64));
		for (size_t i = 0; i < m; i++) switch (g.below(5)) { case 0: t += '\0'; break; case 1: t += (char) g.next(); break; case 2: t += Bytes("\1a", 2); break; case 3: t += (char) g.range(1, 63); t += g.bytes(g.below(4)); break; default: t += Bytes("\2fo", 3); }
		return t;
	};
	size_t m = g.range(3, 50);
	for (size_t i = 0; i < m; i++) {
		RRset r; r.owner = n.name(); r.bw = r.owner;
		switch (g.below(7)) {
		case 0: case 1: case 2: r.type = v6 ? 28 : 1; r.rd = { near() }; break;
		case 3: r.type = v6 ? 1 : 28; { Bytes a = near() + tail() + g.bytes(16); r.rd = { a.substr(0, v6 ? 4 : 16) }; } break;
		case 4: r.type = 16; { Bytes a = near() + tail(); if (g.flip()) a.resize(g.below(a.size() + 1)); r.rd = { a }; } break;
		case 5: r.type = n.type(); if (slice_off(r.type) || indexed_rev(r.type) || r.type == 1 || r.type == 28) r.type = 999; { Bytes a = near(); a.resize(g.below(a.size() + 1)); r.rd = { a }; } break;
		default: r.type = 10; r.rd = { near() + tail() + tail() }; break;
		}
		add(db, f, r, n.trip(), g);
	}
	if (g.flip()) { if (v6) db.ip4.clear(); else db.ip6.clear(); }
	Rd rd(db, false);
	for (int i = 0; i < 15; i++) {
		Q q = rand_query(g, db, DNSTABLE_QUERY_TYPE_RDATA_IP);
		dnq d(make(q, g)); long s0 = vf_mtbl_n_seek;
		Rows got = run(rd.r, d.q);
		judge(want(db, q), got, q, "dense");
		count("queries"); count("rows", got.size()); count("seeks", (u64) (vf_mtbl_n_seek - s0)); seen("queries", hash(q.str()));
		if (i == 0) sample(q.str() + fmt(" -> %zu rows", got.size()));
	}
}
// aggregated and unaggregated answers account for the same observations
static void c_aggr(Rng &g)
{
	size_t nf = g.range(1, 6), most = 12; grow(g, nf, most);
	dnstable_query_type t = QT[g.below(4)];
	Db db = make_db(g, nf, g.range(2, most), focus_for(t, g));
	vf_mtbl_tiebreak = g.next();
	Rd rd(db, true);
	for (int i = 0; i < 10; i++) {
		Q q = rand_query(g, db, t); q.agg = true;
		dnq a(make(q, g)); q.agg = false; dnq b(make(q, g));
		struct T { u64 f, l, c; };
		auto collect = [&](struct dnstable_query *d, bool uniq) {
			std::map<Bytes, T> m; It it(dnstable_reader_query(rd.r, d)); struct dnstable_entry *e; size_t n = 0;
			while (dnstable_iter_next(it.it, &e) == dnstable_res_success) {
				struct G { struct dnstable_entry *e; ~G() { dnstable_entry_destroy(&e); } } guard{ e };
				VF_CHECK(++n < 100000, "endless", "%s", q.str().c_str());
				Meta mm; u16 ty; const u8 *p; size_t l, k; T t2;
				if (dnstable_entry_get_rrname(e, &p, &l) == dnstable_res_success) mm.owner = Bytes((char *) p, l);
				if (dnstable_entry_get_bailiwick(e, &p, &l) == dnstable_res_success) mm.bw = Bytes((char *) p, l);
				VF_CHECK(dnstable_entry_get_rrtype(e, &ty) == dnstable_res_success && dnstable_entry_get_num_rdata(e, &k) == dnstable_res_success, "getter", "rrtype"); mm.type = ty;
				for (size_t j = 0; j < k; j++) if (dnstable_entry_get_rdata(e, j, &p, &l) == dnstable_res_success) mm.rd.push_back(Bytes((char *) p, l));
				VF_CHECK(dnstable_entry_get_time_first(e, &t2.f) == dnstable_res_success && dnstable_entry_get_time_last(e, &t2.l) == dnstable_res_success && dnstable_entry_get_count(e, &t2.c) == dnstable_res_success, "getter", "times");
				Bytes key = entity((int) dnstable_entry_get_type(e), mm, Trip{ 0, 0, 0 });
				auto r = m.insert({ key, t2 });
				if (!r.second) { T &o = r.first->second; if (uniq && t != DNSTABLE_QUERY_TYPE_RDATA_RAW) fail("duplicate", "aggregated result twice: %s: %s", show(key).c_str(), q.str().c_str()); o.f = std::min(o.f, t2.f); o.l = std::max(o.l, t2.l); o.c += t2.c; count("merged in the monitor"); }
			}
			return m;
		};
		auto x = collect(a.q, true), y = collect(b.q, false);
		VF_CHECK(x.size() == y.size(), "conservation", "%zu aggregated, %zu unaggregated entities: %s", x.size(), y.size(), q.str().c_str());
		for (auto &p : x) { auto j = y.find(p.first); VF_CHECK(j != y.end(), "conservation", "%s only aggregated", show(p.first).c_str()); const T &u = p.second, &v = j->second; VF_CHECK(u.f == v.f && u.l == v.l && u.c == v.c, "conservation", "%s: %llu-%llu x%llu aggregated, %llu-%llu x%llu summed: %s", show(p.first).c_str(), (unsigned long long) u.f, (unsigned long long) u.l, (unsigned long long) u.c, (unsigned long long) v.f, (unsigned long long) v.l, (unsigned long long) v.c, q.str().c_str()); }
		count("pairs"); count("entities", x.size()); seen("queries", hash(q.str()));
		if (i == 0) sample(q.str() + fmt(" -> %zu entities of %zu files", x.size(), nf));
	}
}
// the offset drops exactly the first results
static void c_offset(Rng &g)
{
	size_t nf = g.range(1, 4), most = 25; grow(g, nf, most);
	dnstable_query_type t = QT[g.below(4)];
	Db db = make_db(g, nf, g.range(3, most), focus_for(t, g));
	vf_mtbl_tiebreak = 0;
	Rd rd(db, nf > 1 || g.flip());
	for (int i = 0; i < 8; i++) {
		Q q = rand_query(g, db, t);
		if (g.chance(1, 4) && (t == DNSTABLE_QUERY_TYPE_RRSET || t == DNSTABLE_QUERY_TYPE_RDATA_NAME)) { q.data = g.flip() ? "*." : "*.com"; q.name = wire(q.data == "*." ? Labels{ "*" } : Labels{ "*", "com" }); q.has_bw = false; }
		if (g.chance(1, 3)) rand_times(g, db, q);
		q.agg = rd.set ? g.flip() : true;
		dnq z(make(q, g)); Rows all = run(rd.r, z.q);
		u64 ks[] = { 1, g.below(all.size() + 2), all.size(), all.size() + 1, ~0ULL, (1ULL << g.range(8, 63)) + g.below(all.size() + 1), g.edgy64(), 0 };
		dnq one(make(q, g));
		for (u64 k : ks) {
			q.offset = k; Rows w(all.begin() + (long) std::min<u64>(k, all.size()), all.end());
			dnq d(make(q, g)); Rows got = run(rd.r, d.q);
			VF_CHECK(got == w, "offset", "offset %llu of %zu gives %zu rows (%s): %s", (unsigned long long) k, all.size(), got.size(), diff(sorted(w), sorted(got)).c_str(), q.str().c_str());
			// the same query object with another offset, and once more
			VF_CHECK(dnstable_query_set_offset(one.q, k) == dnstable_res_success, "setter", "offset");
			for (int rep = 0; rep < 2; rep++) { Rows r2 = run(rd.r, one.q); VF_CHECK(r2 == w, "offset-reused", "offset %llu of %zu, run %d of the same query, gives %zu rows: %s", (unsigned long long) k, all.size(), rep, r2.size(), q.str().c_str()); }
			count("offsets"); seen("cuts", hash(fmt("%zu %llu", all.size(), (unsigned long long) k)));
		}
		if (!all.empty()) count("queries with results");
		if (i == 0) sample(q.str() + fmt(" of %zu rows", all.size()));
	}
}

// results come in the order of their keys (behind an index: of the index), those of the same key by first and last time
static void c_order(Rng &g)
{
	size_t nf = g.range(1, 5), most = 25; grow(g, nf, most);
	dnstable_query_type t = QT[g.below(4)];
	Db db = make_db(g, nf, g.range(3, most), focus_for(t, g));
	vf_mtbl_tiebreak = g.next();
	Rd rd(db, nf > 1 || g.flip());
	for (int i = 0; i < 10; i++) {
		Q q = rand_query(g, db, t);
		if (g.chance(1, 3)) rand_times(g, db, q);
		q.agg = rd.set ? g.flip() : true;
		bool lw = lwild(q.name) != 0, rw = rwild(q.name) != 0;
		bool ind = t == DNSTABLE_QUERY_TYPE_RRSET ? !lw && rw : t == DNSTABLE_QUERY_TYPE_RDATA_NAME ? !rw && lw : false;
		struct R { Bytes ix, key; Trip t; Bytes row; };
		std::vector<R> w; bool clear = true;
		auto one = [&](const Bytes &k, const Trip &x) {
			const Meta &m = db.meta.at(k); Tri a = asks(q, k, m);
			if (a == NO || !in_time(q, x)) return;
			if (a == MAYBE) { clear = false; return; }
			Bytes ix;
			if (ind) { Bytes d = m.rd0.substr(std::min<size_t>(m.rd0.size(), m.sliced ? slice_off(m.type) : 0)); ix = t == DNSTABLE_QUERY_TYPE_RRSET ? m.owner : rev(d.substr(0, name_at(d, 0, d.size()))); }
			w.push_back(R{ ix, k, x, entity((u8) k[0], m, x) });
		};
		if (q.agg) { auto mm = db.merged(); for (auto &x : mm) one(x.first, x.second); } else for (auto &f : db.f) for (auto &x : f.t) one(x.first, x.second);
		if (!clear) { count("left out"); continue; }
		std::stable_sort(w.begin(), w.end(), [](const R &a, const R &b) { return std::tie(a.ix, a.key, a.t.f, a.t.l) < std::tie(b.ix, b.key, b.t.f, b.t.l); });
		dnq d(make(q, g)); Rows got = run(rd.r, d.q);
		VF_CHECK(got.size() == w.size(), "missing", "%zu rows, want %zu: %s", got.size(), w.size(), q.str().c_str());
		for (size_t j = 0; j < w.size(); ) {	// equal keys and times may come in any order
			size_t e = j; while (e < w.size() && w[e].ix == w[j].ix && w[e].key == w[j].key && w[e].t.f == w[j].t.f && w[e].t.l == w[j].t.l) e++;
			std::multiset<Bytes> a, b; for (size_t k = j; k < e; k++) { a.insert(w[k].row); b.insert(got[k]); }
			VF_CHECK(a == b, "order", "row %zu is %s, want %s: %s", j, show(got[j]).c_str(), show(w[j].row).c_str(), q.str().c_str());
			j = e;
		}
		count("queries"); count("rows", got.size()); if (got.size() > 1) seen("orders", hash(q.str()));
		if (ind && got.size() > 1) count("ordered by an index");
		if (!q.agg && got.size() > 1) count("unaggregated");
		if (i == 0) sample(q.str() + fmt(" -> %zu rows", got.size()));
	}
}
// any history of parameter changes, good and bad: the last good value of each counts
static void c_params(Rng &g)
{
	dnstable_query_type t = QT[g.below(4)];
	size_t nf = g.range(1, 3);
	Db db = make_db(g, nf, g.range(3, 14), focus_for(t, g));
	vf_mtbl_tiebreak = g.next();
	Rd rd(db, true);
	const dnstable_res S = dnstable_res_success, F = dnstable_res_failure;
	dnq d(dnstable_query_init(t));
	Q q; q.t = t; bool data = false;
	auto bad = [&](dnstable_res r, const char *what, const char *val) {
		VF_CHECK(r == F, "accepted", "%s '%s' was accepted by a query of type %d", what, val, (int) t);
		const char *e = dnstable_query_get_error(d.q); VF_CHECK(e && *e && strlen(e) < 1000, "no-error", "%s '%s'", what, val); count("refused");
		dnq f(dnstable_query_init(t)); std::string none = dnstable_query_get_error(f.q);
		dnstable_res x = *what == 'd' ? dnstable_query_set_data(f.q, val) : *what == 'r' ? dnstable_query_set_rrtype(f.q, val) : dnstable_query_set_bailiwick(f.q, val);
		std::string own = dnstable_query_get_error(f.q);
		VF_CHECK(x == F && own != none, "no-reason", "%s '%s' is refused with the message '%s' of a query without an error", what, val, own.c_str());
		VF_CHECK(own == e, "stale-reason", "%s '%s' is refused with the message '%s', by a fresh query with '%s'", what, val, e, own.c_str());
	};
	auto good = [&](dnstable_res r, const char *what, const char *val) { VF_CHECK(r == S, "refused", "%s '%s' was refused by a query of type %d: %s", what, val, (int) t, dnstable_query_get_error(d.q)); count("accepted"); };
	auto setdata = [&](const std::string &v) { Exact e(v + Bytes(1, 0)); return dnstable_query_set_data(d.q, (char *) e.p); };
	std::string hist;
	for (int i = 0; i < 40; i++) {
		switch (g.below(12)) {
		case 0: case 1: case 2: {	// data
			Q o = rand_query(g, db, t);
			if (t == DNSTABLE_QUERY_TYPE_RRSET || t == DNSTABLE_QUERY_TYPE_RDATA_NAME) o.name = q.cs ? o.name : lower(o.name);
			if (q.cs && !o.cs) break;	// the spelling was for a query without case
			good(setdata(o.data), "data", o.data.c_str());
			q.data = o.data; q.name = o.name; q.lo = o.lo; q.hi = o.hi; q.raw = o.raw; data = true;
			if (t == DNSTABLE_QUERY_TYPE_RDATA_IP) q.rrtype = o.rrtype;
			hist += " data=" + o.data; break; }
		case 3: {	// refused data: the query needs new data after it
			std::string v;
			if (t == DNSTABLE_QUERY_TYPE_RRSET || t == DNSTABLE_QUERY_TYPE_RDATA_NAME) {
				switch (g.below(4)) { case 0: v = "a..b"; break; case 1: v = std::string(64, 'a') + ".com"; break; case 2: for (int k = 0; k < 130; k++) v += "a."; break; default: v = "..com"; }
			} else if (t == DNSTABLE_QUERY_TYPE_RDATA_RAW) { static const char *b[] = { "0", "zz", "012", "0g", "01 02", "0x01", "g0", "-1" }; v = b[g.below(8)]; }
			else {
				static const char *b[] = { "", "1.2.3", "1.2.3.4.5", "1.2.3.256", "1.2.3.4/33", "1.2.3.4/-1", "1.2.3.4/", "1.2.3.4/x", "1.2.3.4/8x", "1.2.3.4/8/8", "::/129", "::/-1", "1.2.3.4-", "1.2.3.4-::1", "::1-1.2.3.4", "1.2.3.4-1.2.3", "1.2.3.4-1.2.3.5-1.2.3.6", ":::", "g::", "a", "1.2.3.4/99999999999999999999", "1.2.3.4/4294967296", "1.2.3/8", "/8", "/" };
				v = b[g.below(25)];
			}
			bad(setdata(v), "data", v.c_str()); data = false; hist += " data!" + v;
			if (t == DNSTABLE_QUERY_TYPE_RDATA_RAW && g.flip()) { run(rd.r, d.q); count("run after refused bytes"); }	// defined, whatever it gives
			break; }
		case 4: {	// record type
			if (t == DNSTABLE_QUERY_TYPE_RDATA_IP) { static const char *s[] = { "A", "AAAA", "ANY", "MX", "TYPE77" }; const char *v = g.chance(1, 4) ? nullptr : s[g.below(5)]; good(dnstable_query_set_rrtype(d.q, v), "rrtype", v ? v : "NULL"); break; }
			Q o = rand_query(g, db, t); while (!o.has_rrs) o = rand_query(g, db, t);
			if (g.chance(1, 4)) { good(dnstable_query_set_rrtype(d.q, nullptr), "rrtype", "NULL"); q.rrtype = -1; q.has_rrs = false; hist += " rrtype=NULL"; break; }
			Exact e(o.rrs + Bytes(1, 0)); good(dnstable_query_set_rrtype(d.q, (char *) e.p), "rrtype", o.rrs.c_str());
			q.rrtype = o.rrtype; q.has_rrs = true; q.rrs = o.rrs; hist += " rrtype=" + o.rrs; break; }
		case 5: { static const char *b[] = { "NOSUCH", "", "AA", "TYPE", "TYPEx", "A ", "A,NS" }; const char *v = b[g.below(7)]; bad(dnstable_query_set_rrtype(d.q, v), "rrtype", v); hist += std::string(" rrtype!") + v; break; }
		case 6: {	// bailiwick
			if (t != DNSTABLE_QUERY_TYPE_RRSET) { bad(dnstable_query_set_bailiwick(d.q, "com"), "bailiwick", "com"); break; }
			if (g.chance(1, 3)) { good(dnstable_query_set_bailiwick(d.q, nullptr), "bailiwick", "NULL"); q.has_bw = false; hist += " bw=NULL"; break; }
			Bytes b = db.bws.empty() || g.chance(1, 5) ? wire({ "com" }) : g.pick(db.bws);
			q.has_bw = true; q.bw = lower(b); q.bws = text(b); good(dnstable_query_set_bailiwick(d.q, q.bws.c_str()), "bailiwick", q.bws.c_str()); hist += " bw=" + q.bws; break; }
		case 7: {	// time bounds
			int k = (int) g.below(4);
			if (g.chance(1, 4)) { good(dnstable_query_set_filter_parameter(d.q, FP[k], nullptr, 8), "bound", "NULL"); q.has[k] = false; hist += fmt(" t%d=NULL", k); break; }
			if (g.chance(1, 6)) { u64 z[2] = { 3, 3 }; size_t n = g.flip() ? g.below(8) : 9 + g.below(8); VF_CHECK(dnstable_query_set_filter_parameter(d.q, FP[k], z, n) == F, "accepted", "a bound of %zu bytes", n); VF_CHECK(dnstable_query_set_filter_parameter(d.q, (dnstable_filter_parameter_type) (5 + g.below(20)), z, 8) == F, "accepted", "an unknown bound"); count("refused"); break; }
			Q o; o.t = t; rand_times(g, db, o); for (k = 0; !o.has[k]; k++) { } Exact e(Bytes((char *) &o.tv[k], 8)); good(dnstable_query_set_filter_parameter(d.q, FP[k], e.p, 8), "bound", "value"); q.has[k] = true; q.tv[k] = o.tv[k]; hist += fmt(" t%d=%llu", k, (unsigned long long) q.tv[k]); break; }
		case 8: q.agg = g.flip(); good(dnstable_query_set_aggregated(d.q, q.agg), "aggregated", ""); hist += q.agg ? " agg" : " unagg"; break;
		case 9: q.cs = g.flip(); good(dnstable_query_set_case_sensitive(d.q, q.cs), "case", ""); hist += q.cs ? " case" : " nocase"; break;	// does not touch data set before
		default:
			if (!data) break;
			{ Rows got = run(rd.r, d.q); Want w = want(db, q); judge(w, got, q, ("history" + hist).c_str()); count("queries"); seen("histories", hash(hist)); if (w.n) count("queries with results"); }
		}
	}
	sample("type " + fmt("%d:", (int) t) + hist.substr(0, 300));
}
// ---- virtual clock ----
static bool g_virtual; static u64 g_now, g_tick, g_steps, g_late; static u64 g_dl = ~0ULL;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!g_virtual) return __real_clock_gettime(c, t);
	t->tv_sec = (time_t) (g_now / 1000000000); t->tv_nsec = (long) (g_now % 1000000000);
	return 0;
}
static void on_step(int) { g_now += g_tick; g_steps++; if (g_now >= g_dl) g_late++; }
static struct timespec ts(u64 ns) { struct timespec t; t.tv_sec = (time_t) (ns / 1000000000); t.tv_nsec = (long) (ns % 1000000000); return t; }
struct Virtual { Virtual(u64 now) { g_virtual = true; g_now = now; g_dl = ~0ULL; vf_mtbl_step_hook = on_step; } ~Virtual() { g_virtual = false; vf_mtbl_step_hook = nullptr; g_dl = ~0ULL; } };
static void c_timeout(Rng &g)
{
	size_t nf = g.range(1, 4), most = 25; grow(g, nf, most);
	dnstable_query_type t = QT[g.below(4)];
	Db db = make_db(g, nf, g.range(3, most), focus_for(t, g));
	vf_mtbl_tiebreak = 0;
	Rd rd(db, nf > 1 || g.flip());
	for (int i = 0; i < 6; i++) {
		Q q = rand_query(g, db, t);
		if (g.chance(1, 3)) rand_times(g, db, q);
		q.agg = rd.set ? g.chance(2, 3) : true;
		if (g.chance(1, 4)) q.offset = g.below(4);
		Rows all; { dnq z(make(q, g)); all = run(rd.r, z.q); }
		Virtual v(1000000000ULL * g.range(1, 5) + g.below(1000000000));
		g_tick = g.flip() ? 1000 : 1 + g.below(400000000);
		dnq d(make(q, g));
		// the limits in force; setting and clearing one leaves the other alone
		bool rel = false, abs = false; u64 to = 0, dl = 0; std::string lim;
		auto settle = [](dnstable_res r) { VF_CHECK(r == dnstable_res_success, "setter", "a limit was refused"); };
		auto limit = [&](u64 give) {
			struct timespec x = ts(give), y = ts(g_now + give);
			switch (g.below(8)) {
			case 0: rel = false; settle(dnstable_query_set_timeout(d.q, nullptr)); lim += " timeout=NULL"; break;
			case 1: abs = false; settle(dnstable_query_set_deadline(d.q, nullptr)); lim += " deadline=NULL"; break;
			case 2: case 3: case 4: rel = true; to = give; settle(dnstable_query_set_timeout(d.q, &x)); lim += " timeout"; break;
			default: abs = true; dl = g_now + give; settle(dnstable_query_set_deadline(d.q, &y)); lim += " deadline";
			}
		};
		do limit(g_tick * g.below(30) + (g.flip() ? 1 : 0)); while (g.chance(1, 3) || (!rel && !abs && !g.chance(1, 8)));
		bool timed = rel || abs;	// made without a limit, an iterator has none
		It it(dnstable_reader_query(rd.r, d.q)); VF_CHECK(it.it, "no-iterator", "%s", q.str().c_str());
		Rows got; size_t timeouts = 0, bound = 8 * (nf + 2), stall = 0;
		for (;;) {
			u64 start = g_now, eff = ~0ULL;
			if (timed && rel) eff = start + to;
			if (timed && abs) eff = std::min(eff, dl);
			g_dl = eff; g_late = 0;
			struct dnstable_entry *e = nullptr;
			dnstable_res r = dnstable_iter_next(it.it, &e);
			g_dl = ~0ULL;
			if (r == dnstable_res_success) { got.push_back(describe(e)); dnstable_entry_destroy(&e); stall = 0; VF_CHECK(got.size() <= all.size() + 5, "timeout-duplicate", "%zu rows, untimed %zu: %s", got.size(), all.size(), q.str().c_str()); }
			VF_CHECK(eff == ~0ULL || g_late <= bound, "late", "%zu steps of the store after the deadline (%zu files,%s): %s", (size_t) g_late, nf, lim.c_str(), q.str().c_str());
			maxi("steps after the deadline", g_late);
			if (r == dnstable_res_timeout) {
				VF_CHECK(g_now >= eff, "early-timeout", "timed out at %llu before %llu (%s): %s", (unsigned long long) g_now, (unsigned long long) eff, lim.c_str(), q.str().c_str());
				timeouts++; stall++; count("timeouts");
				// the caller gives more time
				if (rel && (stall > 1 || g.chance(1, 4))) { to = g_tick * 10 * stall; struct timespec x = ts(to); settle(dnstable_query_set_timeout(d.q, &x)); }
				if (abs && (!rel || stall > 1 || g.flip())) { dl = g_now + g_tick * (stall > 3 ? 40 * stall : g.below(40)); struct timespec y = ts(dl); settle(dnstable_query_set_deadline(d.q, &y)); }
				VF_CHECK(stall < 3000, "no-progress", "3000 timeouts in a row: %s", q.str().c_str());
			} else if (r != dnstable_res_success) break;
			if (timed && g.chance(1, 12)) {	// or lifts a limit, or both, or sets another
				if (g.flip()) { rel = false; settle(dnstable_query_set_timeout(d.q, nullptr)); }
				if (g.flip()) { abs = false; settle(dnstable_query_set_deadline(d.q, nullptr)); }
				if (g.chance(1, 3)) { abs = true; dl = g_now + g_tick * g.below(40); struct timespec y = ts(dl); settle(dnstable_query_set_deadline(d.q, &y)); }
				if (g.chance(1, 3)) { rel = true; to = g_tick * g.below(40); struct timespec x = ts(to); settle(dnstable_query_set_timeout(d.q, &x)); }
				lim += " changed"; count("limits changed between steps"); if (!rel && !abs) count("limits lifted between steps");
			}
			if (g.chance(1, 10)) g_now += g_tick * g.below(5);	// time passes outside
		}
		VF_CHECK(got == all, "resume", "%zu timeouts: %s: %s", timeouts, diff(sorted(all), sorted(got)).c_str(), q.str().c_str());
		count("queries"); if (timeouts) count("queries interrupted"); seen("interruptions", hash(fmt("%zu %zu %d", all.size(), timeouts, (int) t)));
		maxi("timeouts in one query", timeouts);
		if (i == 0) sample(q.str() + fmt(" -> %zu rows, %zu timeouts", got.size(), timeouts));
	}
}
// a single entry and dnstable_query_filter: what a query returns passes, what it does not (for its type) fails
static void c_qfilter(Rng &g)
{
	Db db = make_db(g, 1, g.range(3, 25), focus_for(QT[g.below(4)], g));
	for (int i = 0; i < 10; i++) {
		dnstable_query_type t = QT[g.below(4)];
		Q q = rand_query(g, db, t);
		if (g.chance(1, 2)) rand_times(g, db, q);
		if (t == DNSTABLE_QUERY_TYPE_RDATA_IP && g.flip()) continue;
		dnq d(make(q, g));
		for (auto &x : db.f[0].t) {
			const Meta &m = db.meta[x.first];
			Bytes v = triplet(x.second.f, x.second.l, x.second.c);
			struct dnstable_entry *e = dnstable_entry_decode((const u8 *) x.first.data(), x.first.size(), (const u8 *) v.data(), v.size());
			VF_CHECK(e, "rejects-valid", "%s", hex(x.first).c_str());
			struct G { struct dnstable_entry *e; ~G() { dnstable_entry_destroy(&e); } } guard{ e };
			bool w = (q.rrtype < 0 ? t != DNSTABLE_QUERY_TYPE_RDATA_NAME || name_type(m.type) : m.type == q.rrtype) && in_time(q, x.second);
			bool pass = !w; dnstable_res r;
			if (q.has_bw && x.first[0] == 2) {	// no bailiwick to judge by
				r = dnstable_query_filter(d.q, e, &pass);
				if (!w) VF_CHECK(r != dnstable_res_success || !pass, "filter", "an entry that fails passes: %s", q.str().c_str());
				else VF_CHECK(r != dnstable_res_success, "filter", "an entry without bailiwick was judged by it: %s", q.str().c_str());
				count("undecidable"); continue;
			}
			if (q.has_bw) w = w && m.bw == q.bw;
			r = dnstable_query_filter(d.q, e, &pass);
			VF_CHECK(r == dnstable_res_success && pass == w, "filter", "result %d, pass %d, want %d: %s: %s", (int) r, (int) pass, (int) w, show(entity((u8) x.first[0], m, x.second)).c_str(), q.str().c_str());
			count(w ? "passed" : "stopped");
			// and nothing the query returns is stopped
			if (asks(q, x.first, m) == YES && in_time(q, x.second)) VF_CHECK(pass, "filter", "stops a result of the query: %s", q.str().c_str());
		}
		seen("queries", hash(q.str()));
	}
}
// statistics
static void c_stats(Rng &g)
{
	size_t nf = g.range(1, 5);
	dnstable_query_type t = QT[g.below(4)];
	Db db = make_db(g, nf, g.range(3, 20), focus_for(t, g));
	vf_mtbl_tiebreak = g.next();
	Rd rd(db, nf > 1 || g.flip());
	for (int i = 0; i < 8; i++) {
		Q q = rand_query(g, db, t);
		bool tm = g.flip();
		if (tm) rand_times(g, db, q);
		q.agg = rd.set ? g.flip() : true;
		if (g.chance(1, 3)) q.offset = g.range(1, 6);
		dnq d(make(q, g));
		long m0 = vf_mtbl_n_merge, f0 = vf_mtbl_n_merge_set, s0 = vf_mtbl_n_seek;
		It it(dnstable_reader_query(rd.r, d.q));
		u64 rows = drain(it.it).size();
		u64 v[16][4]; bool ex[16][4]; int res[16][4];
		for (int st = 0; st <= DNSTABLE_STAT_STAGE_FILTER_OFFSET; st++) for (int c = 0; c <= DNSTABLE_STAT_CATEGORY_FILES; c++) {
			bool e = g.flip(); u64 n = 12345;
			res[st][c] = (int) dnstable_iter_get_count(it.it, (dnstable_stat_stage) st, (dnstable_stat_category) c, &e, &n);
			u64 n2 = 999; VF_CHECK((int) dnstable_iter_get_count(it.it, (dnstable_stat_stage) st, (dnstable_stat_category) c, nullptr, &n2) == res[st][c], "stat-null", "stage %d category %d without an exists flag", st, c);
			v[st][c] = n; ex[st][c] = res[st][c] == dnstable_res_success && e;
			if (res[st][c] == dnstable_res_success) VF_CHECK(n2 == n, "stat-null", "differs without a flag"); else VF_CHECK(!e, "stat-exists", "stage %d category %d: failed yet exists: %s", st, c, q.str().c_str());
			VF_CHECK(dnstable_iter_get_count(it.it, (dnstable_stat_stage) st, (dnstable_stat_category) c, &e, nullptr) == dnstable_res_failure, "stat-null", "no count wanted, yet success");
			count("counters");
		}
		auto X = [&](int st, int c) { return ex[st][c]; };
		auto N = [&](int st, int c) { return ex[st][c] ? v[st][c] : 0; };
		enum { FI = DNSTABLE_STAT_CATEGORY_FILTERED, ME = DNSTABLE_STAT_CATEGORY_MERGED, SE = DNSTABLE_STAT_CATEGORY_SEEK, FL = DNSTABLE_STAT_CATEGORY_FILES };
		int w = lwild(q.name); bool lw = w != 0, rw = rwild(q.name) != 0, any = lw || rw;
		if (q.t == DNSTABLE_QUERY_TYPE_RDATA_NAME ? rw : !lw) w = rwild(q.name);
		bool plus = any && w == '+', name = t == DNSTABLE_QUERY_TYPE_RRSET || t == DNSTABLE_QUERY_TYPE_RDATA_NAME;
		bool want_rr = t == DNSTABLE_QUERY_TYPE_RDATA_IP || t == DNSTABLE_QUERY_TYPE_RDATA_NAME || (t == DNSTABLE_QUERY_TYPE_RDATA_RAW && q.rrtype >= 0) || (t == DNSTABLE_QUERY_TYPE_RRSET && any && q.rrtype >= 0);
		bool want_bw = q.has_bw && (any || q.rrtype < 0);
		bool fsq = rd.set != nullptr, timed = q.timed();
		struct { int st, c; bool w; } E[] = {
			{ DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, FI, name && plus }, { DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, SE, name && plus },
			{ DNSTABLE_STAT_STAGE_FILTER_RRTYPE, FI, want_rr }, { DNSTABLE_STAT_STAGE_FILTER_RRTYPE, SE, want_rr },
			{ DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, FI, want_bw }, { DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, FI, timed }, { DNSTABLE_STAT_STAGE_FILTER_TIME, FI, timed },
			{ DNSTABLE_STAT_STAGE_REMOVE_STRICT, FI, fsq && q.agg && (q.has[1] || q.has[2]) }, { DNSTABLE_STAT_STAGE_REMOVE_STRICT, FL, fsq && q.agg && (q.has[1] || q.has[2]) }, { DNSTABLE_STAT_STAGE_REMOVE_STRICT, SE, fsq && q.agg && (q.has[1] || q.has[2]) },
			{ DNSTABLE_STAT_STAGE_FILL_MERGER, ME, fsq && q.agg && timed }, { DNSTABLE_STAT_STAGE_FILL_MERGER, FL, fsq && q.agg && timed },
			{ DNSTABLE_STAT_STAGE_LJOIN, ME, fsq && q.agg && timed }, { DNSTABLE_STAT_STAGE_LJOIN, SE, fsq && q.agg && timed },
			{ DNSTABLE_STAT_STAGE_FILTER_OFFSET, FI, q.offset > 0 }, { DNSTABLE_STAT_STAGE_FILESET, ME, true }, { DNSTABLE_STAT_STAGE_FILESET, FL, true },
			{ DNSTABLE_STAT_STAGE_FILTER_RRTYPE, ME, false }, { DNSTABLE_STAT_STAGE_FILTER_OFFSET, FL, false }, { DNSTABLE_STAT_STAGE_FILTER_TIME, ME, false }, { DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, FL, false }, { DNSTABLE_STAT_STAGE_FILL_MERGER, FI, false }, { DNSTABLE_STAT_STAGE_LJOIN, FI, false }, { DNSTABLE_STAT_STAGE_REMOVE_STRICT, ME, false }, { DNSTABLE_STAT_STAGE_FILESET, FI, false }, { DNSTABLE_STAT_STAGE_FILESET, SE, false },
		};
		for (auto &e : E) VF_CHECK(X(e.st, e.c) == e.w, "stat-exists", "stage %s category %s: exists %d, want %d: %s", dnstable_stat_stage_to_str((dnstable_stat_stage) e.st), dnstable_stat_category_to_str((dnstable_stat_category) e.c), (int) X(e.st, e.c), (int) e.w, q.str().c_str());
		{	// no counter outside the tables; seeks counted are seeks done
			int st = (int) g.below(24), c = (int) g.below(9); bool e = true; u64 n = 3;
			if (st > DNSTABLE_STAT_STAGE_FILTER_OFFSET || c > DNSTABLE_STAT_CATEGORY_FILES) { VF_CHECK(dnstable_iter_get_count(it.it, (dnstable_stat_stage) st, (dnstable_stat_category) c, &e, &n) != dnstable_res_success || !e, "stat-unknown", "stage %d category %d exists", st, c); count("unknown counters"); }
			u64 sk = 0; for (int i = 0; i <= DNSTABLE_STAT_STAGE_FILTER_OFFSET; i++) sk += N(i, SE);
			u64 done = (u64) (vf_mtbl_n_seek - s0);
			VF_CHECK(fsq ? sk || !done : sk == done, "stat-seek", "%llu seeks counted, %llu done in the store: %s", (unsigned long long) sk, (unsigned long long) done, q.str().c_str());
			if (done) count("queries that seek");
		}
		// every file is read, held back for filling or used for removal
		u64 files = N(DNSTABLE_STAT_STAGE_FILESET, FL) + N(DNSTABLE_STAT_STAGE_FILL_MERGER, FL) + N(DNSTABLE_STAT_STAGE_REMOVE_STRICT, FL);
		if (!fsq) VF_CHECK(files == 0, "stat-files", "%llu files without a file set", (unsigned long long) files);
		else if (q.agg) VF_CHECK(files == nf, "stat-files", "%llu of %zu files accounted for: %s", (unsigned long long) files, nf, q.str().c_str());
		else if (!timed) VF_CHECK(N(DNSTABLE_STAT_STAGE_FILESET, FL) % nf == 0 && N(DNSTABLE_STAT_STAGE_FILESET, FL) > 0, "stat-files", "%llu files: %s", (unsigned long long) files, q.str().c_str());
		// results and offset
		Q z = q; Want wn = want(db, z);
		if (wn.may.empty()) {
			if (q.offset) VF_CHECK(N(DNSTABLE_STAT_STAGE_FILTER_OFFSET, FI) == std::min<u64>(q.offset, wn.n), "stat-offset", "%llu skipped, offset %llu, %zu results: %s", (unsigned long long) N(DNSTABLE_STAT_STAGE_FILTER_OFFSET, FI), (unsigned long long) q.offset, wn.n, q.str().c_str());
			VF_CHECK(rows + std::min<u64>(q.offset, wn.n) == wn.n, "stat-rows", "%llu rows: %s", (unsigned long long) rows, q.str().c_str());
		}
		// each merge counted is one that happened
		u64 merges = N(DNSTABLE_STAT_STAGE_FILESET, ME) + N(DNSTABLE_STAT_STAGE_FILL_MERGER, ME);
		VF_CHECK(merges == (u64) (vf_mtbl_n_merge - m0), "stat-merged", "%llu merges counted, %ld done: %s", (unsigned long long) merges, vf_mtbl_n_merge - m0, q.str().c_str());
		VF_CHECK(N(DNSTABLE_STAT_STAGE_FILESET, ME) == (u64) (vf_mtbl_n_merge_set - f0), "stat-merged", "%llu merges of file sets counted, %ld done: %s", (unsigned long long) N(DNSTABLE_STAT_STAGE_FILESET, ME), vf_mtbl_n_merge_set - f0, q.str().c_str());
		// which files a fence sets aside follows from their time ranges; which entries are joined from the entries of both
		if (fsq && q.agg && timed) {
			std::set<Bytes> left, right; u64 nl = 0, nfill = 0, nrem = 0;
			for (auto &f : db.f) {
				bool fill = false, rem = false;
				auto rg = f.other.find(B(254));
				if (rg != f.other.end()) {
					u64 lo, hi; size_t p = 0; get_varint(rg->second, p, rg->second.size(), lo, 10); get_varint(rg->second, p, rg->second.size(), hi, 10);
					if (q.has[1] && q.tv[1] > hi) rem = true;
					else if (q.has[3] && q.tv[3] > hi) fill = true;
					else if (q.has[2] && q.tv[2] < lo) rem = true;
					else if (q.has[0] && !q.has[3] && q.tv[0] < lo) fill = true;
				}
				(rem ? nrem : fill ? nfill : nl)++;
				if (!rem) for (auto &x : f.t) (fill ? right : left).insert(x.first);
			}
			if (nrem) count("files removed", nrem);
			if (nfill) count("files set aside", nfill);
			VF_CHECK(N(DNSTABLE_STAT_STAGE_FILESET, FL) == nl, "stat-files", "%llu files read, want %llu: %s", (unsigned long long) N(DNSTABLE_STAT_STAGE_FILESET, FL), (unsigned long long) nl, q.str().c_str());
			VF_CHECK(N(DNSTABLE_STAT_STAGE_FILL_MERGER, FL) == nfill && N(DNSTABLE_STAT_STAGE_REMOVE_STRICT, FL) == nrem, "stat-files", "%llu files set aside and %llu removed, want %llu and %llu: %s", (unsigned long long) N(DNSTABLE_STAT_STAGE_FILL_MERGER, FL), (unsigned long long) N(DNSTABLE_STAT_STAGE_REMOVE_STRICT, FL), (unsigned long long) nfill, (unsigned long long) nrem, q.str().c_str());
			u64 both = 0; for (auto &k : left) both += right.count(k);
			VF_CHECK(N(DNSTABLE_STAT_STAGE_LJOIN, ME) <= both, "stat-joined", "%llu joined of %llu: %s", (unsigned long long) N(DNSTABLE_STAT_STAGE_LJOIN, ME), (unsigned long long) both, q.str().c_str());
			if (both) count("joins possible", both);
			u64 must = 0; for (auto &x : db.merged()) if (left.count(x.first) && right.count(x.first) && asks(q, x.first, db.meta[x.first]) == YES && in_time(q, x.second)) must++;
			VF_CHECK(N(DNSTABLE_STAT_STAGE_LJOIN, ME) >= must, "stat-joined", "%llu joined, %llu of the results are in both: %s", (unsigned long long) N(DNSTABLE_STAT_STAGE_LJOIN, ME), (unsigned long long) must, q.str().c_str());
			if (must) count("joined results", must);
		}
		// conservation behind the fences: every entry asked for that is read is dropped by one stage or returned
		if (timed) {
			std::set<Bytes> keys; u64 in = 0, passing = 0, gone = 0; bool sure = true; std::set<Bytes> removed; std::map<Bytes, Trip> lm;
			for (auto &f : db.f) {
				bool fill = false, rem = false; auto rg = f.other.find(B(254));
				if (fsq && rg != f.other.end()) {
					u64 lo, hi; size_t p = 0; get_varint(rg->second, p, rg->second.size(), lo, 10); get_varint(rg->second, p, rg->second.size(), hi, 10);
					if (q.has[1] && q.tv[1] > hi) rem = true;
					else if (q.has[3] && q.tv[3] > hi) fill = true;
					else if (q.has[2] && q.tv[2] < lo) rem = true;
					else if (q.has[0] && !q.has[3] && q.tv[0] < lo) fill = true;
				}
				if (rem) for (auto &x : f.t) removed.insert(x.first);
				if (!fill && !rem) for (auto &x : f.t) {
					Tri a = asks(q, x.first, db.meta[x.first]);
					if (a == MAYBE) sure = false;
					if (a == YES && (keys.insert(x.first).second || !q.agg)) in++;
					if (a == YES) tmerge(lm, x.first, x.second);
				}
			}
			for (auto &x : lm) if (removed.count(x.first)) { gone++; if (in_time(q, x.second)) passing++; }
			u64 rf = N(DNSTABLE_STAT_STAGE_REMOVE_STRICT, FI), sum = rows + N(DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, FI) + rf + N(DNSTABLE_STAT_STAGE_FILTER_TIME, FI) + N(DNSTABLE_STAT_STAGE_FILTER_OFFSET, FI);
			if (sure) {
				VF_CHECK(sum == in, "stat-fence-conservation", "%llu rows, %llu prefiltered, %llu removed, %llu filtered, %llu skipped of %llu entries read: %s", (unsigned long long) rows, (unsigned long long) N(DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, FI), (unsigned long long) rf, (unsigned long long) N(DNSTABLE_STAT_STAGE_FILTER_TIME, FI), (unsigned long long) N(DNSTABLE_STAT_STAGE_FILTER_OFFSET, FI), (unsigned long long) in, q.str().c_str());
				if (X(DNSTABLE_STAT_STAGE_REMOVE_STRICT, FI)) VF_CHECK(rf <= gone && rf >= passing, "stat-removed", "%llu entries removed of %llu, %llu of them within the fences: %s", (unsigned long long) rf, (unsigned long long) gone, (unsigned long long) passing, q.str().c_str());
				count("fences balanced"); if (rf) count("entries removed", rf);
			}
		}
		// conservation along the pipe, where no stage seeks past entries: what is under the prefix is filtered or returned
		bool simple = !timed && ((t == DNSTABLE_QUERY_TYPE_RRSET && !plus && !rw && !(lw && w == '+')) || t == DNSTABLE_QUERY_TYPE_RDATA_RAW);
		if (simple) {
			u64 cand = 0;
			Q broad = q; broad.has_bw = false; broad.rrtype = -1;
			if (t == DNSTABLE_QUERY_TYPE_RRSET && !any && q.rrtype >= 0) { broad.rrtype = q.rrtype; broad.has_bw = q.has_bw; }
			Want b = want(db, broad); cand = b.n;
			u64 sum = rows + N(DNSTABLE_STAT_STAGE_FILTER_RRTYPE, FI) + N(DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, FI) + N(DNSTABLE_STAT_STAGE_FILTER_OFFSET, FI);
			VF_CHECK(sum == cand, "stat-conservation", "%llu returned or filtered of %llu candidates: %s", (unsigned long long) sum, (unsigned long long) cand, q.str().c_str());
			count("pipes balanced");
		}
		u64 seeks = N(DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, SE) + N(DNSTABLE_STAT_STAGE_FILTER_RRTYPE, SE);
		if (!fsq) VF_CHECK(seeks <= (u64) (vf_mtbl_n_seek - s0), "stat-seek", "%llu seeks counted, %ld done", (unsigned long long) seeks, vf_mtbl_n_seek - s0);
		if (seeks) count("with seeks");
		seen("queries", hash(q.str()));
		if (i == 0) sample(q.str() + fmt(" -> %llu rows, %llu merges, %llu seeks", (unsigned long long) rows, (unsigned long long) merges, (unsigned long long) seeks));
	}
	u64 n; bool e; VF_CHECK(dnstable_iter_get_count(nullptr, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &e, &n) == dnstable_res_failure, "stat-null", "counts of no iterator");
	It plain(dnstable_reader_iter(rd.r)); VF_CHECK(dnstable_iter_get_count(plain.it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &e, &n) == dnstable_res_failure, "stat-null", "counts of an iterator without any");
}
// iterators of a reader, and the queries for file metadata
static void c_readers(Rng &g)
{
	size_t nf = g.range(1, 4), most = 15; grow(g, nf, most);
	Db db = make_db(g, nf, g.range(1, most));
	vf_mtbl_tiebreak = g.next();
	bool sf = nf > 1 || g.flip();
	Rd rd(db, sf);
	Rows all, by[256];
	auto put = [&](int t, const Bytes &r) { all.push_back(r); by[t].push_back(r); };
	for (auto &x : db.merged()) put((u8) x.first[0], entity((u8) x.first[0], db.meta[x.first], x.second));
	std::map<Bytes, bool> names; std::map<Bytes, u64> ver; std::map<Bytes, bool> src;
	u64 a = ~0ULL, b = 0; bool tr = false;
	for (auto &f : db.f) {
		for (auto &x : f.u) names[x.first] = true;
		for (auto &x : f.other) {
			size_t p = 0; u64 v;
			switch ((u8) x.first[0]) {
			case 255: get_varint(x.second, p, x.second.size(), v, 5); if (!ver.count(x.first) || v < ver[x.first]) ver[x.first] = v; break;
			case 254: get_varint(x.second, p, x.second.size(), v, 10); a = std::min(a, v); get_varint(x.second, p, x.second.size(), v, 10); b = std::max(b, v); tr = true; break;
			case 253: src[x.first] = true; break;
			}
		}
	}
	for (auto &x : names) put((u8) x.first[0], x.first[0] == 1 ? "E1 N" + lp(x.first.substr(1)) : "E3 R" + lp(rev(x.first.substr(1))));
	if (tr) put(254, fmt("E254 f%llu l%llu ", (unsigned long long) a, (unsigned long long) b));
	for (auto &x : ver) put(255, fmt("E255 V%llu T%d ", (unsigned long long) x.second, (u8) x.first[1]));
	for (auto &x : src) put(253, "E253 S" + lp(x.first.substr(1)));
	struct { const char *n; struct dnstable_iter *(*f)(struct dnstable_reader *); int t; } its[] = { { "iter", dnstable_reader_iter, -1 }, { "rrset", dnstable_reader_iter_rrset, 0 }, { "rrset_names", dnstable_reader_iter_rrset_names, 1 }, { "rdata", dnstable_reader_iter_rdata, 2 }, { "rdata_names", dnstable_reader_iter_rdata_names, 3 }, { "time_range", dnstable_reader_iter_time_range, 254 }, { "source_info", dnstable_reader_iter_source_info, 253 }, { "version", dnstable_reader_iter_version, 255 } };
	for (auto &i : its) {
		It it(i.f(rd.r)); VF_CHECK(it.it, "no-iterator", "%s", i.n);
		Rows got = sorted(drain(it.it)), w = sorted(i.t < 0 ? all : by[i.t]);
		VF_CHECK(got == w, "reader-iter", "%s over %zu files: %s", i.n, nf, diff(w, got).c_str());
		count("iterations"); count("entries", got.size());
		Bytes cat; for (auto &x : got) cat += x; seen("contents", hash(cat));
	}
	// the metadata queries say the same
	struct { dnstable_query_type q; int t; } mq[] = { { DNSTABLE_QUERY_TYPE_TIME_RANGE, 254 }, { DNSTABLE_QUERY_TYPE_SOURCE_INFO, 253 }, { DNSTABLE_QUERY_TYPE_VERSION, 255 } };
	for (auto &m : mq) {
		dnq d(dnstable_query_init(m.q));
		Rows got = sorted(run(rd.r, d.q)), w = sorted(by[m.t]);
		VF_CHECK(got == w, "meta-query", "type %d over %zu files: %s", m.t, nf, diff(w, got).c_str());
		count("metadata queries");
	}
	static const char *vt[] = { "rrset", "rrset_name", "rdata", "rdata_name" };
	for (int t = 0; t < 4; t++) {
		dnq d(dnstable_query_init(DNSTABLE_QUERY_TYPE_VERSION)); VF_CHECK(dnstable_query_set_data(d.q, vt[t]) == dnstable_res_success, "setter-data", "version of %s", vt[t]);
		Rows got = run(rd.r, d.q), w; Bytes k = B(255) + B(t); if (ver.count(k)) w.push_back(fmt("E255 V%llu T%d ", (unsigned long long) ver[k], t));
		VF_CHECK(got == w, "meta-query", "version of %s: %s", vt[t], diff(w, got).c_str());
		count("metadata queries");
	}
	sample(fmt("%zu files, %zu entries", nf, all.size()));
}
// reload follows the list; iterators made before keep working
static void c_reload(Rng &g)
{
	Db big = make_db(g, g.chance(1, 50) ? g.range(10, 40) : g.range(2, 5), g.range(2, 12));
	vf_mtbl_tiebreak = 0; vf_mtbl_open_hook = open_hook;
	std::vector<struct mtbl_reader *> rs; for (size_t i = 0; i < big.f.size(); i++) { rs.push_back(mem(big.f[i].raw())); open_table()[fmt("vf%zu.mtbl", i)] = rs.back(); }
	struct Clean { std::vector<struct mtbl_reader *> &r; ~Clean() { for (size_t i = 0; i < r.size(); i++) { open_table().erase(fmt("vf%zu.mtbl", i)); mtbl_reader_destroy(&r[i]); } } } clean{ rs };
	static u64 serial; std::string path = scratch() + fmt("/r%llu.set", (unsigned long long) serial++);
	u64 stamp = 1000;
	auto write = [&](u64 mask) { std::string s; for (size_t i = 0; i < rs.size(); i++) if (mask >> i & 1) s += fmt("vf%zu.mtbl\n", i); put_file(path, s); struct timespec t[2] = { ts(stamp * 1000000000), ts(stamp * 1000000000) }; stamp++; utimensat(AT_FDCWD, path.c_str(), t, 0); };
	struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{ path };
	u64 mask = g.below(1ULL << rs.size());
	write(mask);
	struct dnstable_reader *r = dnstable_reader_init_setfile(path.c_str());
	struct RG { struct dnstable_reader *r; ~RG() { dnstable_reader_destroy(&r); } } rg{ r };
	auto sub = [&](u64 m) { Db d; d.meta = big.meta; d.owners = big.owners; d.rnames = big.rnames; d.bws = big.bws; d.rds = big.rds; d.ip4 = big.ip4; d.ip6 = big.ip6; d.types = big.types; for (size_t i = 0; i < rs.size(); i++) if (m >> i & 1) d.f.push_back(big.f[i]); return d; };
	for (int k = 0; k < 6; k++) {
		Db d = sub(mask);
		Q q = rand_query(g, d, QT[g.below(4)]); q.agg = g.flip(); if (g.chance(1, 4)) rand_times(g, big, q);
		dnq dq(make(q, g));
		if (g.chance(1, 3)) { // unread iterator across a reload
			It it(dnstable_reader_query(r, dq.q)); u64 old = mask; mask = g.below(1ULL << rs.size()); write(mask); dnstable_reader_reload_setfile(r);
			judge(want(sub(old), q), drain(it.it), q, "iterator made before the reload"); count("iterators across a reload");
			continue;
		}
		judge(want(d, q), run(r, dq.q), q, fmt("file set %llx", (unsigned long long) mask).c_str());
		{ It it(dnstable_reader_iter_rrset(r)); Rows w; for (auto &x : d.merged()) if (x.first[0] == 0) w.push_back(entity(0, d.meta[x.first], x.second)); Rows got = sorted(drain(it.it)); w = sorted(w); VF_CHECK(got == w, "reload-iter", "%s", diff(w, got).c_str()); }
		count("queries"); seen("sets", mask); seen("nontrivial", hash(q.str()) + mask);
		if (g.flip()) { mask = g.below(1ULL << rs.size()); write(mask); dnstable_reader_reload_setfile(r); count("reloads"); }
	}
	// a reader without a list has nothing to reload
	struct mtbl_reader *one = mem(big.f[0].raw()); struct dnstable_reader *o = dnstable_reader_init(mtbl_reader_source(one)); dnstable_reader_reload_setfile(o); dnstable_reader_destroy(&o); VF_CHECK(!o, "destroy", "not NULL"); dnstable_reader_destroy(&o); mtbl_reader_destroy(&one);
}
// everything taken is given back, also when an iterator is left early, timed out or a query is refused
static void life(Rng &g, const Db &db, bool setfile)
{
	Rd rd(db, setfile);
	for (int i = 0; i < 6; i++) {
		Q q = rand_query(g, db, QT[g.below(4)]); if (g.flip()) rand_times(g, db, q); q.agg = setfile ? g.flip() : true; if (g.chance(1, 4)) q.offset = g.below(5);
		dnq d(make(q, g));
		bool timed = g.chance(1, 3);
		struct timespec to = ts(5), dl = ts(10);
		if (timed) { (void) dnstable_query_set_timeout(d.q, &to); if (g.flip()) (void) dnstable_query_set_deadline(d.q, &dl); }
		for (int j = 0; j < 3; j++) { // change of mind
			Q o = rand_query(g, db, q.t);
			if (g.chance(1, 3)) (void) dnstable_query_set_data(d.q, o.data.c_str());
			if (g.chance(1, 6) && o.has_bw) (void) dnstable_query_set_bailiwick(d.q, o.bws.c_str());
			if (g.chance(1, 6)) (void) dnstable_query_set_bailiwick(d.q, nullptr);
			if (g.chance(1, 6)) (void) dnstable_query_set_bailiwick(d.q, "a..b");
			if (g.chance(1, 6)) { static const char *bad[] = { "a..b", "1.2.3.4/33", "1.2.3.4/", "zz", "0", "1.2.3.4-::1", "1.2.3.4-", "-", "/", "\\", "01 02" }; if (dnstable_query_set_data(d.q, bad[g.below(11)]) != dnstable_res_success) (void) dnstable_query_get_error(d.q); (void) dnstable_query_set_data(d.q, o.data.c_str()); }
			if (g.chance(1, 6)) { (void) dnstable_query_set_rrtype(d.q, "NO-SUCH-TYPE"); (void) dnstable_query_get_error(d.q); }
		}
		g_now = g.below(6); g_tick = g.below(3);
		g_virtual = true; vf_mtbl_step_hook = on_step;
		struct dnstable_iter *it = dnstable_reader_query(rd.r, d.q);
		size_t n = g.flip() ? g.below(4) : 200; dnstable_res r = dnstable_res_success; struct dnstable_entry *e;
		for (size_t k = 0; k < n && (r == dnstable_res_success || (r == dnstable_res_timeout && k < 20)); k++) { if ((r = dnstable_iter_next(it, &e)) == dnstable_res_success) { if (g.flip()) { char *s = g.flip() ? dnstable_entry_to_json(e) : dnstable_entry_to_text(e); free(s); } dnstable_entry_destroy(&e); } else if (r == dnstable_res_timeout) { g_now = g.below(6); count("timed out"); } }
		dnstable_iter_destroy(&it);
		g_virtual = false; vf_mtbl_step_hook = nullptr;
		count("iterators");
		if (r == dnstable_res_success) count("left early");
	}
	struct dnstable_iter *i1 = g.flip() ? dnstable_reader_iter(rd.r) : dnstable_reader_iter_rdata_names(rd.r); struct dnstable_entry *e; if (dnstable_iter_next(i1, &e) == dnstable_res_success) dnstable_entry_destroy(&e); dnstable_iter_destroy(&i1);
	if (setfile) dnstable_reader_reload_setfile(rd.r);
}
static void c_life(Rng &g)
{
	Db db = make_db(g, g.range(1, 4), g.range(1, 12));
	bool sf = db.f.size() > 1 || g.flip(); vf_mtbl_tiebreak = 0;
	u64 s = g.next();
	Rng w(s); life(w, db, sf);	// warms up what is allocated once
	long a0 = vf_mtbl_live_iters, b0 = vf_mtbl_live_sources, c0 = vf_mtbl_live_filesets, d0 = vf_mtbl_live_mergers;
	size_t before = __sanitizer_get_current_allocated_bytes();
	{ Rng r(s); life(r, db, sf); }
	size_t after = __sanitizer_get_current_allocated_bytes();
	VF_CHECK(vf_mtbl_live_iters == a0 && vf_mtbl_live_sources == b0 && vf_mtbl_live_filesets == c0 && vf_mtbl_live_mergers == d0, "store-leak", "iterators %ld sources %ld filesets %ld mergers %ld", vf_mtbl_live_iters - a0, vf_mtbl_live_sources - b0, vf_mtbl_live_filesets - c0, vf_mtbl_live_mergers - d0);
	VF_CHECK(after == before, "leak", "%ld bytes remain of a session with %zu files", (long) (after - before), db.f.size());
	count("sessions"); seen("sessions", s);
}
// hostile content: nothing but success, failure and termination
static void c_hostile(Rng &g)
{
	Db db = make_db(g, 1, g.range(1, 12), focus_for(QT[g.below(4)], g));
	std::map<Bytes, Bytes> m = db.f[0].raw(), h;
	for (auto &x : m) {
		Bytes k = x.first, v = x.second;
		if (g.chance(1, 2)) {
			size_t n = g.range(1, 2);
			for (size_t i = 0; i < n; i++) switch (g.below(7)) {
				case 0: k.resize(g.range(1, k.size())); break;
				case 1: if (k.size() > 1) k[g.range(1, k.size() - 1)] = (char) g.next(); break;
				case 2: k += (char) g.next(); break;
				case 3: if (k.size() > 1) k.erase(g.range(1, k.size() - 1), g.range(1, 3)); break;
				case 4: k.insert(g.range(1, k.size()), g.bytes(g.range(1, 3))); break;
				case 5: if (!v.empty()) v.resize(g.below(v.size())); break;
				default: if (!v.empty()) v[g.below(v.size())] = (char) g.next(); else v = g.bytes(g.range(1, 5)); break;
			}
			h[x.first] = x.second;
		}
		h[k] = v;
	}
	for (int i = 0; i < 6; i++) { static const u8 ty[] = { 0, 1, 2, 3, 253, 254, 255 }; Bytes k = B(ty[g.below(7)]); if (!db.owners.empty() && g.flip()) { Bytes n = g.pick(db.owners); n.resize(g.below(n.size() + 1)); k += n; } k += g.bytes(g.chance(1, 5) ? g.range(250, 600) : g.below(6)); h[k] = g.bytes(g.below(6)); }
	struct mtbl_reader *r = mem(h); struct dnstable_reader *dr = dnstable_reader_init(mtbl_reader_source(r));
	struct C { struct mtbl_reader *&r; struct dnstable_reader *&d; ~C() { dnstable_reader_destroy(&d); mtbl_reader_destroy(&r); } } c{ r, dr };
	// an iterator of the reader gives every entry that can be decoded, whatever stands between them
	auto scan = [&](struct dnstable_iter *i, int t) {
		Rows w; for (auto &x : h) if (t < 0 || (u8) x.first[0] == t) { struct dnstable_entry *e = dnstable_entry_decode((const u8 *) x.first.data(), x.first.size(), (const u8 *) x.second.data(), x.second.size()); if (e) { w.push_back(describe(e)); dnstable_entry_destroy(&e); } else count("undecodable entries"); }
		It it(i); Rows got = drain(it.it); VF_CHECK(got == w, "hostile-iter", "iterator %d over damaged entries: %s", t, diff(sorted(w), sorted(got)).c_str()); count("iterations"); return got; };
	std::map<Bytes, int> full; for (auto &x : scan(dnstable_reader_iter(dr), -1)) full[x]++;
	for (int i = 0; i < 14; i++) {
		Q q = rand_query(g, db, QT[g.below(4)]);
		if (g.chance(1, 4)) rand_times(g, db, q);
		dnq d(make(q, g));
		Rows got = run(dr, d.q);
		std::map<Bytes, int> mine; for (auto &x : got) { VF_CHECK(++mine[x] <= full[x], "hostile-extra", "result not in the file: %s: %s", show(x).c_str(), q.str().c_str()); }
		// the intact entries are still found
		for (auto &x : db.f[0].t) { auto j = h.find(x.first); const Meta &mt = db.meta[x.first]; if (j == h.end() || j->second != m[x.first] || asks(q, x.first, mt) != YES || !in_time(q, x.second)) continue;
			bool ind = q.t == DNSTABLE_QUERY_TYPE_RRSET ? !lwild(q.name) && rwild(q.name) : q.t == DNSTABLE_QUERY_TYPE_RDATA_NAME && !rwild(q.name) && lwild(q.name);
			if (ind) continue;	// the index may be the damaged part
			VF_CHECK(mine.count(entity((u8) x.first[0], mt, x.second)), "hostile-missing", "an intact entry is lost among damaged ones: %s: %s", show(entity((u8) x.first[0], mt, x.second)).c_str(), q.str().c_str()); count("intact entries found"); }
		count("queries"); count("rows", got.size()); seen("queries", hash(q.str()));
	}
	for (dnstable_query_type t : { DNSTABLE_QUERY_TYPE_TIME_RANGE, DNSTABLE_QUERY_TYPE_SOURCE_INFO, DNSTABLE_QUERY_TYPE_VERSION }) { dnq d(dnstable_query_init(t)); (void) run(dr, d.q); }
	scan(dnstable_reader_iter_rrset(dr), 0); scan(dnstable_reader_iter_rrset_names(dr), 1); scan(dnstable_reader_iter_rdata(dr), 2); scan(dnstable_reader_iter_rdata_names(dr), 3); scan(dnstable_reader_iter_time_range(dr), 254); scan(dnstable_reader_iter_source_info(dr), 253); scan(dnstable_reader_iter_version(dr), 255);
	sample(fmt("%zu keys", h.size()));
}
int main(int argc, char **argv)
{
	return vf::main(argc, argv, { { "rrset", c_rrset }, { "rname", c_rname }, { "rip", c_rip }, { "rraw", c_rraw }, { "time", c_time }, { "dense", c_dense }, { "aggr", c_aggr }, { "offset", c_offset }, { "order", c_order }, { "params", c_params }, { "timeout", c_timeout },
		{ "qfilter", c_qfilter }, { "stats", c_stats }, { "readers", c_readers }, { "reload", c_reload }, { "life", c_life }, { "hostile", c_hostile } });
}
