// Queries with an independent definition of what they must return.
#pragma once
#include "dn.h"
#include <arpa/inet.h>
namespace dn {
enum Tri { NO, YES, MAYBE };
struct Q {
	dnstable_query_type t; std::string data; Bytes name, lo, hi, raw; bool cs = false, range = false;
	int rrtype = -1; std::string rrs; bool has_rrs = false;
	bool has_bw = false; Bytes bw; std::string bws;
	bool agg = true; u64 offset = 0; bool has[4] = { false, false, false, false }; u64 tv[4] = { 0, 0, 0, 0 };	// first before, first after, last before, last after
	bool timed() const { return has[0] || has[1] || has[2] || has[3]; }
	std::string str() const
	{
		std::string s = fmt("type %d data '%s' rrtype %s bailiwick %s %s offset %llu", (int) t, data.c_str(), has_rrs ? rrs.c_str() : "-", has_bw ? bws.c_str() : "-", agg ? "agg" : "unagg", (unsigned long long) offset);
		static const char *n[] = { "first<=", "first>=", "last<=", "last>=" };
		for (int i = 0; i < 4; i++) if (has[i]) s += fmt(" %s%llu", n[i], (unsigned long long) tv[i]);
		return s + (cs ? " case" : "");
	}
};
static const dnstable_filter_parameter_type FP[4] = { DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER };
struct dnq { struct dnstable_query *q; dnq(struct dnstable_query *x) : q(x) {} ~dnq() { dnstable_query_destroy(&q); } dnq(const dnq &) = delete; };
inline struct dnstable_query *make(const Q &q, Rng &g)
{
	struct dnstable_query *d = dnstable_query_init(q.t);
	const dnstable_res S = dnstable_res_success;
	VF_CHECK(dnstable_query_set_case_sensitive(d, q.cs) == S, "setter", "case");
	std::vector<int> order = { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
	g.shuffle(order);
	for (int o : order) switch (o) {
		case 0: if (q.t != DNSTABLE_QUERY_TYPE_TIME_RANGE && q.t != DNSTABLE_QUERY_TYPE_SOURCE_INFO && !(q.t == DNSTABLE_QUERY_TYPE_VERSION && q.data.empty())) { Exact e(q.data + Bytes(1, 0)); dnstable_res r = dnstable_query_set_data(d, (char *) e.p); if (r != S) { std::string er = dnstable_query_get_error(d); dnstable_query_destroy(&d); fail("setter-data", "refused: %s (%s)", q.str().c_str(), er.c_str()); } } break;
		case 1: if (q.has_rrs) { Exact e(q.rrs + Bytes(1, 0)); VF_CHECK(dnstable_query_set_rrtype(d, (char *) e.p) == S, "setter-rrtype", "%s", q.str().c_str()); } break;
		case 2: if (q.has_bw) { Exact e(q.bws + Bytes(1, 0)); VF_CHECK(dnstable_query_set_bailiwick(d, (char *) e.p) == S, "setter-bailiwick", "%s", q.str().c_str()); } break;
		case 3: VF_CHECK(dnstable_query_set_aggregated(d, q.agg) == S, "setter", "agg"); break;
		case 4: VF_CHECK(dnstable_query_set_offset(d, q.offset) == S, "setter", "offset"); break;
		default: if (q.has[o - 5]) VF_CHECK(dnstable_query_set_filter_parameter(d, FP[o - 5], &q.tv[o - 5], 8) == S, "setter", "time"); break;
	}
	return d;
}
inline bool suffix_of(const Labels &s, const Labels &l) { return s.size() <= l.size() && std::equal(s.rbegin(), s.rend(), l.rbegin()); }
inline bool prefix_of(const Labels &s, const Labels &l) { return s.size() <= l.size() && std::equal(s.begin(), s.end(), l.begin()); }
inline int lwild(const Bytes &n) { return n.size() >= 3 && n[0] == 1 && (n[1] == '*' || n[1] == '+') ? n[1] : 0; }
inline int rwild(const Bytes &n) { return n.size() >= 3 && n[n.size() - 3] == 1 && (n[n.size() - 2] == '*' || n[n.size() - 2] == '+') ? n[n.size() - 2] : 0; }
inline bool wild_match(const Bytes &qn, const Bytes &n, bool left, int w)
{
	Labels q = labels(qn), l = labels(n);
	if (left) q.erase(q.begin()); else q.pop_back();
	return (left ? suffix_of(q, l) : prefix_of(q, l)) && (w == '*' || l.size() == q.size() + 1);
}
inline bool starts(const Bytes &s, const Bytes &p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
// does the query ask for this RRSET or RDATA key (times aside)?
inline Tri asks(const Q &q, const Bytes &key, const Meta &m)
{
	if (q.t == DNSTABLE_QUERY_TYPE_RRSET) {
		if (key[0] != 0) return NO;
		if (q.rrtype >= 0 && m.type != q.rrtype) return NO;
		if (q.has_bw && m.bw != q.bw) return NO;
		int w = lwild(q.name); bool left = w != 0;
		if (!w) w = rwild(q.name);
		return (w ? wild_match(q.name, m.owner, left, w) : m.owner == q.name) ? YES : NO;
	}
	if (key[0] != 2) return NO;
	if (q.rrtype >= 0 && m.type != q.rrtype) return NO;
	if (q.t == DNSTABLE_QUERY_TYPE_RDATA_RAW) return starts(key.substr(1), q.raw) ? YES : NO;
	if (q.t == DNSTABLE_QUERY_TYPE_RDATA_IP) return !m.sliced && m.rd0.size() == q.lo.size() && q.lo <= m.rd0 && m.rd0 <= q.hi ? YES : NO;
	if (q.t != DNSTABLE_QUERY_TYPE_RDATA_NAME) return NO;
	if (m.sliced != (slice_off(m.type) != 0)) return NO;
	if (q.rrtype < 0 && !name_type(m.type)) return NO;
	Bytes d = m.rd0.substr(m.sliced ? slice_off(m.type) : 0);
	int w = rwild(q.name); bool left = false;
	if (!w) { w = lwild(q.name); left = w != 0; }
	if (name_type(m.type)) {
		Bytes n = d.substr(0, name_at(d, 0, d.size()));
		if (!(w ? wild_match(q.name, n, left, w) : n == q.name)) return NO;
		// names of these types are not indexed for left wildcards
		return left && !indexed_rev(m.type) ? MAYBE : YES;
	}
	// a type without a name, asked for by rrtype: what starts with the bytes of the name
	if (left) return MAYBE;
	if (w == '*') return starts(d, q.name.substr(0, q.name.size() - 3)) ? YES : starts(key.substr(1), q.name.substr(0, q.name.size() - 3)) ? MAYBE : NO;
	if (w) return MAYBE;
	return starts(d, q.name) ? YES : starts(key.substr(1), q.name) ? MAYBE : NO;
}
inline bool in_time(const Q &q, const Trip &t)
{ return !(q.has[0] && t.f > q.tv[0]) && !(q.has[1] && t.f < q.tv[1]) && !(q.has[2] && t.l > q.tv[2]) && !(q.has[3] && t.l < q.tv[3]); }
struct Want { std::map<Bytes, int> must, may; size_t n = 0; };
inline Want want(const Db &db, const Q &q)
{
	Want w;
	auto one = [&](const Bytes &k, const Trip &t) {
		const Meta &m = db.meta.at(k);
		Tri a = asks(q, k, m);
		if (a == NO || !in_time(q, t)) return;
		Bytes r = entity((u8) k[0], m, t);
		if (a == YES) { w.must[r]++; w.n++; } else w.may[r]++;
	};
	if (q.agg) { auto mm = db.merged(); for (auto &x : mm) one(x.first, x.second); }
	else for (auto &f : db.f) for (auto &x : f.t) one(x.first, x.second);
	return w;
}
inline void judge(const Want &w, const Rows &got, const Q &q, const char *what)
{
	std::map<Bytes, int> g; for (auto &r : got) g[r]++;
	for (auto &x : w.must) { int have = g.count(x.first) ? g[x.first] : 0; VF_CHECK(have >= x.second, "missing", "%s: %d of %d times, wants %s: %s", what, have, x.second, show(x.first).c_str(), q.str().c_str()); }
	for (auto &x : g) {
		auto a = w.must.find(x.first), b = w.may.find(x.first);
		int lim = (a == w.must.end() ? 0 : a->second) + (b == w.may.end() ? 0 : b->second);
		VF_CHECK(x.second <= lim, lim ? "duplicate" : "extra", "%s: %d times, allowed %d: %s: %s", what, x.second, lim, show(x.first).c_str(), q.str().c_str());
	}
}
// a spelling of a name or type with random letter case
inline std::string recase(Rng &g, std::string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] != '\\' && g.flip()) s[i] = (char) (isupper((u8) s[i]) ? tolower((u8) s[i]) : toupper((u8) s[i])); return s; }
inline Bytes qname(Rng &g, const Db &db, bool rd)
{
	const std::vector<Bytes> &src = rd && !db.rnames.empty() && g.chance(4, 5) ? db.rnames : db.owners;
	Bytes n = src.empty() ? wire({ "com" }) : g.pick(src);
	Labels l = labels(n);
	switch (g.below(8)) {
	case 0: case 1: break;
	case 2: case 3: { size_t k = g.below(l.size() + 1); l.erase(l.begin(), l.begin() + (long) k); l.insert(l.begin(), Bytes(1, g.flip() ? '*' : '+')); break; }
	case 4: case 5: { size_t k = g.below(l.size() + 1); l.resize(k); l.push_back(Bytes(1, g.flip() ? '*' : '+')); break; }
	case 6: if (!l.empty()) { if (g.flip()) l.pop_back(); else l.erase(l.begin()); } break;
	case 7: if (!l.empty()) { Bytes &x = l[g.below(l.size())]; switch (g.below(3)) { case 0: if (x.size() < 63) x += 'b'; break; case 1: if (x.size() > 1) x.pop_back(); break; default: x[g.below(x.size())] ^= 1; } } break;
	}
	Bytes w = wire(l);
	return w.size() > 255 ? n : w;
}
inline std::string tname(u16 t) { const char *s = wdns_rrtype_to_str(t); return s ? s : fmt("TYPE%u", t); }
inline std::string iptext(const Bytes &a) { char b[64]; inet_ntop(a.size() == 4 ? AF_INET : AF_INET6, a.data(), b, sizeof b); return b; }
inline Bytes step(Bytes a, int d) { for (size_t i = a.size(); i-- > 0; ) { int v = (u8) a[i] + d; a[i] = (char) v; if (v >= 0 && v < 256) break; } return a; }
inline Q rand_query(Rng &g, const Db &db, dnstable_query_type t)
{
	Q q; q.t = t;
	if (t == DNSTABLE_QUERY_TYPE_RRSET || t == DNSTABLE_QUERY_TYPE_RDATA_NAME) {
		q.cs = g.chance(1, 3);
		Bytes n = qname(g, db, t == DNSTABLE_QUERY_TYPE_RDATA_NAME);
		q.data = text(n);
		if (q.data != "." && g.chance(1, 4)) q.data.pop_back();	// the final dot is optional
		if (q.cs) q.name = n; else { if (g.flip()) q.data = recase(g, q.data); q.name = lower(n); }
	}
	if (t == DNSTABLE_QUERY_TYPE_RDATA_IP) {
		bool v6 = db.ip4.empty() || (!db.ip6.empty() && g.flip());
		const std::vector<Bytes> &p = v6 ? db.ip6 : db.ip4;
		Bytes a = p.empty() ? g.bytes(v6 ? 16 : 4) : g.pick(p), b = p.empty() || g.chance(1, 4) ? g.bytes(a.size()) : g.pick(p);
		if (g.chance(1, 8)) a = g.bytes(a.size());
		if (g.chance(1, 5)) a = step(a, g.flip() ? 1 : -1);
		if (g.chance(1, 5)) b = step(b, g.flip() ? 1 : -1);
		switch (g.below(3)) {
		case 0: q.lo = q.hi = a; q.data = iptext(a); break;
		case 1: {
			unsigned n = (unsigned) g.below(a.size() * 8 + 1);
			if (g.chance(1, 4)) n = (unsigned) (a.size() * 8 - g.below(9));
			q.lo = q.hi = a; q.range = true;
			for (unsigned i = n; i < a.size() * 8; i++) { q.lo[i / 8] = (char) (q.lo[i / 8] & ~(0x80 >> i % 8)); q.hi[i / 8] = (char) (q.hi[i / 8] | (0x80 >> i % 8)); }
			q.data = iptext(a) + fmt("/%u", n); break; }
		default: if (b < a && !g.chance(1, 10)) std::swap(a, b); q.lo = a; q.hi = b; q.range = true; q.data = iptext(a) + "-" + iptext(b);
		}
		q.rrtype = a.size() == 4 ? 1 : 28;
		if (g.chance(1, 4)) { q.has_rrs = true; static const char *s[] = { "ANY", "A", "AAAA", "TXT", "any" }; q.rrs = s[g.below(5)]; }	// has no effect
	} else {
		if (t == DNSTABLE_QUERY_TYPE_RDATA_RAW) {
			Bytes d = db.rds.empty() || g.chance(1, 6) ? g.bytes(g.below(4)) : g.pick(db.rds);
			switch (g.below(5)) { case 0: d.resize(g.below(d.size() + 1)); break; case 1: d += (char) g.next(); break; case 2: if (d.size() > 2) d = d.substr(2); break; default: break; }
			if (d.empty()) d = g.bytes(1);
			q.raw = d; q.data = hex(d); if (g.flip()) q.data = recase(g, q.data);
		}
		if ((t == DNSTABLE_QUERY_TYPE_RRSET || t == DNSTABLE_QUERY_TYPE_RDATA_NAME || t == DNSTABLE_QUERY_TYPE_RDATA_RAW) && g.flip()) {
			q.has_rrs = true;
			if (g.chance(1, 5)) { static const char *s[] = { "ANY", "TYPE255", "ANY-DNSSEC", "any", "Any-Dnssec", "type255" }; q.rrs = s[g.below(6)]; }
			else {
				do q.rrtype = db.types.empty() || g.chance(1, 5) ? (int) g.range(1, 65535) : g.pick(db.types); while (q.rrtype == 255 || q.rrtype == 0);
				q.rrs = g.flip() ? tname((u16) q.rrtype) : fmt("TYPE%d", q.rrtype);
				if (wdns_str_to_rrtype(q.rrs.c_str()) != q.rrtype) q.rrs = fmt("TYPE%d", q.rrtype);
				if (g.flip()) q.rrs = recase(g, q.rrs);
			}
		}
		if (t == DNSTABLE_QUERY_TYPE_RRSET && g.chance(1, 3)) {
			q.has_bw = true; Bytes b = db.bws.empty() || g.chance(1, 5) ? wire({ "com" }) : g.pick(db.bws);
			q.bw = lower(b); q.bws = text(b); if (g.flip()) q.bws = recase(g, q.bws);
		}
	}
	return q;
}
inline void rand_times(Rng &g, const Db &db, Q &q)
{
	// bounds near the ends of files and entries
	std::vector<u64> v;
	for (auto &f : db.f) { if (!f.t.empty()) { v.push_back(f.tmin); v.push_back(f.tmax); auto i = f.t.begin(); std::advance(i, (long) g.below(f.t.size())); v.push_back(i->second.f); v.push_back(i->second.l); } }
	auto m = db.merged(); if (!m.empty()) for (int k = 0; k < 3; k++) { auto i = m.begin(); std::advance(i, (long) g.below(m.size())); v.push_back(i->second.f); v.push_back(i->second.l); }
	v.push_back(50);
	unsigned mask = 1 + (unsigned) g.below(15);
	for (int i = 0; i < 4; i++) if (mask >> i & 1) { q.has[i] = true; q.tv[i] = g.pick(v) + g.below(3); if (q.tv[i]) q.tv[i]--; if (g.chance(1, 40)) q.tv[i] = g.flip() ? 0 : ~0ULL; }
}
static const dnstable_query_type QT[4] = { DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW };
// a reader over one in-memory file, or over a setfile of several
struct Rd {
	struct mtbl_reader *one = nullptr; Set *set = nullptr; struct dnstable_reader *r;
	Rd(const Db &db, bool setfile)
	{
		if (setfile) { set = new Set(db); r = dnstable_reader_init_setfile(set->path.c_str()); }
		else { one = mem(db.f.at(0).raw()); r = dnstable_reader_init(mtbl_reader_source(one)); }
	}
	~Rd() { dnstable_reader_destroy(&r); if (one) mtbl_reader_destroy(&one); delete set; }
	Rd(const Rd &) = delete;
};
struct It { struct dnstable_iter *it; It(struct dnstable_iter *i) : it(i) {} ~It() { dnstable_iter_destroy(&it); } It(const It &) = delete; };
inline Rows run(struct dnstable_reader *r, struct dnstable_query *q) { It it(dnstable_reader_query(r, q)); VF_CHECK(it.it, "no-iterator", "a complete query gave no iterator"); return drain(it.it); }
}
