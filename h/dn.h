// Model of a dnstable database: names, records, key/value encodings (written from
// man/dnstable-encoding.5, independently of the code under test), a generator, and
// helpers that turn API results into comparable strings.
#pragma once
#include "vf.h"
extern "C" {
#include <mtbl.h>
#include <wdns.h>
#include <dnstable.h>
}
#include <unistd.h>
#include <sys/stat.h>
namespace dn {
using namespace vf;
typedef std::vector<Bytes> Labels;

inline Bytes wire(const Labels &l) { Bytes r; for (auto &x : l) { r += (char) x.size(); r += x; } r += '\0'; return r; }
inline Labels labels(const Bytes &w) { Labels r; size_t p = 0; while (p < w.size() && w[p]) { size_t n = (u8) w[p]; r.push_back(w.substr(p + 1, n)); p += n + 1; } return r; }
inline Bytes rev(const Bytes &w) { Labels l = labels(w); std::reverse(l.begin(), l.end()); return wire(l); }
inline Bytes lower(Bytes s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
// length of the name at p, or 0
inline size_t name_at(const Bytes &b, size_t p, size_t end)
{
	size_t s = p;
	for (;;) {
		if (p >= end) return 0;
		size_t n = (u8) b[p++];
		if (n > 63) return 0;
		if (n == 0) return p - s;
		if (n > end - p) return 0;
		p += n;
	}
}
// presentation form
inline std::string text(const Bytes &w)
{
	std::string r; Labels l = labels(w);
	if (l.empty()) return ".";
	for (auto &x : l) {
		for (char ch : x) {
			u8 c = (u8) ch;
			if (c == '.' || c == '\\') { r += '\\'; r += ch; }
			else if (c > ' ' && c <= '~') r += ch;
			else r += fmt("\\%03u", c);
		}
		r += '.';
	}
	return r;
}
inline Bytes varint(u64 v) { Bytes r; while (v >= 128) { r += (char) (v | 128); v >>= 7; } r += (char) v; return r; }
// canonical-or-not varint of at most maxlen bytes at p; false if none
inline bool get_varint(const Bytes &b, size_t &p, size_t end, u64 &v, unsigned maxlen)
{
	v = 0;
	for (unsigned i = 0; i < maxlen; i++) {
		if (p + i >= end) return false;
		u8 c = (u8) b[p + i];
		if (7 * i < 64) v |= (u64) (c & 127) << (7 * i);
		if (!(c & 128)) { p += i + 1; return true; }
	}
	return false;
}
inline Bytes be16(unsigned v) { Bytes r; r += (char) (v >> 8); r += (char) v; return r; }
inline Bytes be32(u32 v) { return be16(v >> 16) + be16(v & 0xffff); }
inline Bytes le16(unsigned v) { Bytes r; r += (char) v; r += (char) (v >> 8); return r; }
inline Bytes B(int c) { return Bytes(1, (char) c); }
inline Bytes triplet(u64 f, u64 l, u64 c) { return varint(f) + varint(l) + varint(c); }
// a set of rrtypes: empty = every type, one value = 1 or 2 bytes, else an RFC 4034 bitmap
inline Bytes union_enc(const std::set<u16> &s, bool force_bitmap = false)
{
	Bytes r;
	if (s.empty()) return r;
	if (s.size() == 1 && !force_bitmap) { u16 t = *s.begin(); return t < 256 ? B(t) : le16(t); }
	for (unsigned w = 0; w < 256; w++) {
		u8 m[32] = {0}; int top = -1;
		for (auto i = s.lower_bound((u16) (w * 256)); i != s.end() && (unsigned) *i / 256 == w; ++i) { unsigned o = *i % 256; m[o / 8] |= (u8) (0x80 >> o % 8); top = (int) o / 8; }
		if (top >= 0) { r += (char) w; r += (char) (top + 1); r.append((char *) m, (size_t) top + 1); }
	}
	return r;
}
// false: not well formed
inline bool union_dec(const Bytes &v, std::set<u16> &s, bool &all)
{
	s.clear(); all = v.empty();
	if (v.empty()) return true;
	if (v.size() == 1) { s.insert((u8) v[0]); return true; }
	if (v.size() == 2) { s.insert((u16) ((u8) v[0] | (u8) v[1] << 8)); return true; }
	int prev = -1; size_t p = 0;
	while (p < v.size()) {
		if (p + 2 > v.size()) return false;
		int w = (u8) v[p]; size_t n = (u8) v[p + 1];
		p += 2;
		if (w <= prev || n < 1 || n > 32 || p + n > v.size()) return false;
		prev = w;
		for (size_t i = 0; i < n * 8; i++) if ((u8) v[p + i / 8] & (0x80 >> i % 8)) s.insert((u16) (w * 256 + (int) i));
		p += n;
	}
	return true;
}

struct RRset { Bytes owner; u16 type; Bytes bw; std::vector<Bytes> rd; };
inline unsigned slice_off(u16 t) { return t == WDNS_TYPE_MX || t == WDNS_TYPE_SVCB || t == WDNS_TYPE_HTTPS ? 2 : t == WDNS_TYPE_SRV ? 6 : 0; }
inline bool indexed_rev(u16 t) { switch (t) { case WDNS_TYPE_NS: case WDNS_TYPE_CNAME: case WDNS_TYPE_SOA: case WDNS_TYPE_PTR: case WDNS_TYPE_MX: case WDNS_TYPE_SRV: case WDNS_TYPE_DNAME: case WDNS_TYPE_SVCB: case WDNS_TYPE_HTTPS: return true; } return false; }
// types a name query without rrtype may return
inline bool name_type(u16 t) { return indexed_rev(t) || t == WDNS_TYPE_NSEC || t == WDNS_TYPE_RP || t == WDNS_TYPE_NXT; }
inline Bytes rrset_key(const RRset &r) { Bytes k = B(0) + rev(r.owner) + varint(r.type) + rev(r.bw); for (auto &d : r.rd) k += varint(d.size()) + d; return k; }
inline Bytes rdata_key(const Bytes &rd, u16 t, const Bytes &owner) { return B(2) + rd + varint(t) + rev(owner) + le16((unsigned) rd.size()); }
inline Bytes sliced_key(const Bytes &rd, u16 t, const Bytes &owner) { unsigned o = slice_off(t); return B(2) + rd.substr(o) + varint(t) + rev(owner) + rd.substr(0, o) + le16((unsigned) (rd.size() - o)); }

struct Trip { u64 f, l, c; };
inline void tmerge(std::map<Bytes, Trip> &m, const Bytes &k, const Trip &t)
{
	auto r = m.insert({ k, t });
	if (!r.second) { Trip &o = r.first->second; o.f = std::min(o.f, t.f); o.l = std::max(o.l, t.l); o.c += t.c; }
}
struct Meta { u16 type; Bytes owner, bw, rd0; std::vector<Bytes> rd; bool sliced; };	// what an RRSET or RDATA key stands for
struct File {
	std::map<Bytes, Trip> t;			// RRSET and RDATA
	std::map<Bytes, std::set<u16>> u;		// NAME_FWD and NAME_REV; empty set = every type
	std::map<Bytes, Bytes> other;			// VERSION, SOURCE_INFO, TIME_RANGE
	u64 tmin = ~0ULL, tmax = 0;
	bool has_range = false;
	std::map<Bytes, Bytes> raw() const
	{
		std::map<Bytes, Bytes> m = other;
		for (auto &x : t) m[x.first] = triplet(x.second.f, x.second.l, x.second.c);
		for (auto &x : u) m[x.first] = union_enc(x.second);
		return m;
	}
};
struct Db {
	std::vector<File> f;
	std::map<Bytes, Meta> meta;			// by key
	std::vector<Bytes> owners, rnames, bws, rds, ip4, ip6;	// seen values, to build queries from
	std::vector<u16> types;
	std::map<Bytes, Trip> merged() const { std::map<Bytes, Trip> m; for (auto &x : f) for (auto &y : x.t) tmerge(m, y.first, y.second); return m; }
};
inline void add(Db &db, File &f, const RRset &r, const Trip &t, Rng &g)
{
	Bytes k = rrset_key(r);
	db.meta[k] = Meta{ r.type, r.owner, r.bw, "", r.rd, false };
	tmerge(f.t, k, t);
	f.u[B(1) + r.owner].insert(r.type);
	for (auto &d : r.rd) {
		Bytes rk = rdata_key(d, r.type, r.owner);
		db.meta[rk] = Meta{ r.type, r.owner, "", d, { d }, false };
		tmerge(f.t, rk, t);
		if (slice_off(r.type)) {
			Bytes sk = sliced_key(d, r.type, r.owner);
			db.meta[sk] = Meta{ r.type, r.owner, "", d, { d }, true };
			tmerge(f.t, sk, t);
		}
		if (indexed_rev(r.type)) {
			unsigned o = slice_off(r.type);
			Bytes n = d.substr(o, name_at(d, o, d.size()));
			f.u[B(3) + rev(n)].insert(r.type);
			db.rnames.push_back(n);
		} else if (name_type(r.type)) db.rnames.push_back(d.substr(0, name_at(d, 0, d.size())));
		db.rds.push_back(d);
		if (r.type == 1) db.ip4.push_back(d);
		if (r.type == 28) db.ip6.push_back(d);
	}
	f.tmin = std::min(f.tmin, t.f); f.tmax = std::max(f.tmax, t.l);
	db.owners.push_back(r.owner); db.bws.push_back(r.bw); db.types.push_back(r.type);
	(void) g;
}

// ---- generator ----
inline bool &time_bases() { static bool b = true; return b; }	// off: all times are small
struct Gen {
	bool longs = false; u64 base = 0;	// names up to the limit of 255 bytes; earliest time
	Rng &g; Labels pool; std::vector<Bytes> names; std::vector<u16> focus; bool mixed;
	explicit Gen(Rng &r, std::vector<u16> foc = {}, bool mixed_case = true) : g(r), focus(foc), mixed(mixed_case)
	{
		static const char *base[] = { "com", "net", "a", "b", "example", "www", "ns1", "x", "xn--p1ai", "foo", "foob", "fo", "*", "+", "_dmarc", "org", "*a", "0" };
		for (auto b : base) pool.push_back(b);
		for (int i = 0; i < 3; i++) pool.push_back(g.bytes(g.range(1, 3)));
		for (auto &x : pool) for (auto &c : x) if (c == 1) c = 2;	// a '*' after a byte 1 inside a label is taken for a wildcard label
		if (g.chance(1, 3)) pool.push_back(Bytes(63, 'l'));
		if (mixed) { pool.push_back("WWW"); pool.push_back("Com"); }
		if (g.chance(1, 4)) pool.push_back(Bytes("\0", 1));
		g.shuffle(pool); pool.resize(std::min<size_t>(pool.size(), g.range(3, 9)));
		if ((longs = g.chance(1, 14))) { pool.push_back(Bytes(63, 'm')); pool.push_back(Bytes(g.range(1, 63), 'z')); }
		size_t n = g.range(3, 10);
		for (size_t i = 0; i < n; i++) names.push_back(fresh());
	}
	Bytes fresh()
	{
		if (g.chance(1, 15)) return wire({});
		if (longs && g.flip()) {
			Labels l; size_t left = (g.flip() ? 255 : g.range(128, 255)) - 1, most = g.flip() ? 63 : g.range(1, 20);
			while (left >= 2) { size_t s = std::min<size_t>(left - 1, g.flip() ? most : g.range(1, most)); if (left - 1 - s == 1 && s > 1) s--; Bytes x = g.pick(pool); x.resize(s, 'y'); l.push_back(x); left -= s + 1; }
			return wire(l);
		}
		Labels l; size_t n = g.range(1, 4), tot = 1;
		if (!names.empty() && g.flip()) { l = labels(g.pick(names)); if (g.flip() && !l.empty()) l.erase(l.begin()); for (auto &x : l) tot += x.size() + 1; n = g.range(0, 2); }
		for (size_t i = 0; i < n; i++) { Bytes x = g.pick(pool); if (tot + x.size() + 1 > 255) break; tot += x.size() + 1; if (g.flip()) l.insert(l.begin(), x); else l.push_back(x); }
		return wire(l);
	}
	Bytes name() { if (g.chance(1, 8)) names.push_back(fresh()); return g.pick(names); }
	u16 type()
	{
		if (!focus.empty() && g.chance(3, 4)) return g.pick(focus);
		static const u16 t[] = { 1, 1, 1, 28, 28, 28, 2, 2, 5, 5, 6, 12, 15, 15, 16, 16, 33, 33, 39, 64, 65, 47, 17, 30, 46, 257, 256, 10, 255 + 10, 999, 65534, 65535, 127, 128 };
		return t[g.below(sizeof t / sizeof *t)];
	}
	std::vector<Bytes> v4;
	Bytes ip4()
	{
		if (!v4.empty() && g.chance(2, 3)) { Bytes a = g.pick(v4); if (g.flip()) a[3] = (char) (a[3] + g.range(0, 2) - 1); return a; }
		Bytes a = g.bytes(4);
		switch (g.below(6)) { case 0: a = Bytes("\x0a\0\0\1", 4); break; case 1: a = Bytes("\xff\xff\xff\xff", 4); break; case 2: a = Bytes(4, '\0'); break; case 3: a = Bytes("\x0a\x01\xff\xff", 4); break; }
		v4.push_back(a); return a;
	}
	Bytes ip6()
	{
		Bytes a = ip4() + g.bytes(12);
		switch (g.below(6)) {
		case 0: a = Bytes("\x20\x01\x0d\xb8", 4) + Bytes(11, '\0') + B((int) g.below(3)); break;
		case 1: a[4] = 1; a[5] = (char) g.below(12); for (int i = 6; i < 16; i++) if (g.flip()) a[(size_t) i] = (char) g.below(12); break;	// looks like an A entry and a label
		case 2: a[4] = 1; a[5] = (char) g.below(70); break;
		case 3: a[4] = 1; a[5] = 1; a[6] = 'a'; a[7] = 0; break;
		case 4: a = Bytes(16, g.flip() ? '\xff' : '\0'); break;
		}
		return a;
	}
	Bytes rdata(u16 t)
	{
		switch (t) {
		case 1: return ip4();
		case 28: return ip6();
		case 2: case 5: case 12: case 39: return name();
		case 15: return (g.flip() ? be16((unsigned) g.below(400)) : g.bytes(2)) + name();
		case 33: return (g.flip() ? be16((unsigned) g.below(300)) + be16((unsigned) g.below(300)) + be16((unsigned) g.below(300)) : g.bytes(6)) + name();
		case 64: case 65: return (g.flip() ? be16((unsigned) g.below(300)) : g.bytes(2)) + name() + (g.flip() ? g.bytes(g.chance(1, 30) ? g.range(100, 400) : g.below(6)) : Bytes());
		case 6: return name() + name() + g.bytes(20);
		case 17: return name() + name();
		case 47: case 30: return name() + Bytes("\0\1\x40", 3);
		case 16: { if (g.chance(1, 50)) { Bytes r; for (u64 i = g.range(1, g.chance(1, 8) ? 250 : 5); i; i--) { size_t m = g.flip() ? 255 : g.range(100, 255); r += B((int) m) + Bytes(m, (char) g.range('a', 'z')); } return r; } if (g.chance(1, 4)) return ip4() + B(1) + wire({ "a" }); Bytes s = g.chance(1, 3) ? name() : g.bytes(g.below(5)); return B((int) s.size()) + s; }	// some look like other things
		case 10: return g.chance(1, 2) ? Bytes() : g.chance(1, 2) ? name() : ip4();
		default: if (g.chance(1, 50)) return g.bytes(g.chance(1, 8) ? g.range(10000, 65535) : g.range(100, 700)); return g.chance(1, 3) ? name() : g.chance(1, 3) ? ip4() + g.bytes(g.below(3)) : g.bytes(g.below(8));
		}
	}
	void rebase() { switch (g.below(6)) { case 0: base = 1ULL << g.range(5, 62); break; case 1: base = (1ULL << g.range(6, 63)) - g.range(1, 60); break; case 2: base = ~0ULL - 1000 - g.below(1000); break; case 3: base = 4294967296ULL - 70; break; default: base = 1200000000 + g.below(600000000); } }
	Trip trip(u64 lo = 1, u64 span = 60)
	{
		Trip t; t.f = base + lo + g.below(span); t.l = t.f + g.below(span); t.c = g.chance(1, 10) ? g.edgy64() >> 2 : 1 + g.below(9);
		if (t.c == 0) t.c = 1;
		return t;
	}
	RRset rrset()
	{
		RRset r; r.owner = name(); r.type = type();
		Labels l = labels(r.owner);
		if (g.chance(5, 6)) { size_t k = l.empty() ? 0 : g.below(l.size() + 1); l.erase(l.begin(), l.begin() + (long) k); r.bw = wire(l); } else r.bw = name();
		size_t n = g.chance(1, 20) ? 0 : g.chance(1, 3) ? g.range(2, 4) : g.chance(1, 300) ? g.range(100, 400) : 1;
		std::set<Bytes> s; for (size_t i = 0; i < n; i++) s.insert(n > 4 && r.type == 1 ? g.bytes(4) : n > 4 && r.type == 28 ? g.bytes(16) : rdata(r.type));
		r.rd.assign(s.begin(), s.end());
		return r;
	}
};
// nf files over a shared population, so that keys collide between files
inline Db make_db(Rng &g, size_t nf, size_t npop, std::vector<u16> focus = {}, bool time_ranges = true)
{
	Db db; Gen n(g, focus);
	if (time_bases() && g.chance(2, 3)) n.rebase();
	bool wide = time_bases() && g.chance(1, 8);	// any distance between times
	std::vector<RRset> pop;
	for (size_t i = 0; i < npop; i++) {
		if (!pop.empty() && g.chance(1, 3)) { RRset r = g.pick(pop); switch (g.below(3)) { case 0: r.owner = n.name(); break; case 1: r.bw = n.name(); break; default: r.rd = { n.rdata(r.type) }; } pop.push_back(r); }
		else pop.push_back(n.rrset());
	}
	for (size_t i = 0; i < nf; i++) {
		db.f.emplace_back(); File &f = db.f.back();
		// the files cover partly overlapping periods
		u64 lo = 1 + g.below(80), span = 1 + g.below(40);
		size_t m = g.chance(1, 12) ? 0 : g.range(1, npop);
		for (size_t k = 0; k < m; k++) {
			if (wide && g.flip()) n.rebase();
			Trip t = n.trip(lo, span);
			if (wide && g.chance(1, 3)) { n.rebase(); t.l = std::max(t.f, n.base + g.below(span)); }
			add(db, f, g.pick(pop), t, g);
		}
		if (g.chance(1, 10)) for (auto &x : f.u) if (g.chance(1, 3)) x.second.clear();	// "every type"
		if (time_ranges && !f.t.empty() && g.chance(9, 10)) {
			f.has_range = true;
			u64 a = f.tmin, b = f.tmax;
			if (g.chance(1, 5)) { a -= std::min(a, g.below(4)); b += g.below(4); }	// a range may be wider than the data
			f.other[B(254)] = varint(a) + varint(b);
		}
		for (int t : { 0, 1, 2, 3 }) if (g.chance(1, 3)) f.other[B(255) + B(t)] = varint(g.chance(1, 4) ? g.edgy64() & 0xffffffff : g.below(3));
		if (g.chance(1, 3)) f.other[B(253) + Bytes("source-") + B('a' + (int) g.below(3)) + (g.chance(1, 20) ? Bytes(g.range(50, 3000), 'x') : Bytes())] = "";
	}
	return db;
}

// ---- running ----
inline struct mtbl_reader *mem(const std::map<Bytes, Bytes> &m)
{
	struct mtbl_reader *r = vf_mtbl_reader_mem();
	for (auto &x : m) vf_mtbl_reader_mem_add(r, (const u8 *) x.first.data(), x.first.size(), (const u8 *) x.second.data(), x.second.size());
	return r;
}
// files by name for setfiles
inline std::map<std::string, struct mtbl_reader *> &open_table() { static std::map<std::string, struct mtbl_reader *> t; return t; }
inline struct mtbl_reader *open_hook(const char *fn)
{
	const char *b = strrchr(fn, '/'); b = b ? b + 1 : fn;
	auto i = open_table().find(b);
	if (i == open_table().end()) return nullptr;
	vf_mtbl_reader_ref(i->second);
	return i->second;
}
inline void put_file(const std::string &path, const std::string &s)
{ FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(78); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
// in-memory readers behind a setfile
struct Set {
	std::vector<struct mtbl_reader *> r; std::string path; std::vector<std::string> nm; static long &serial() { static long s; return s; }
	explicit Set(const Db &db)
	{
		vf_mtbl_open_hook = open_hook;
		path = scratch() + fmt("/%zu.set", db.f.size());
		std::string s;
		for (size_t i = 0; i < db.f.size(); i++) { r.push_back(mem(db.f[i].raw())); nm.push_back(fmt("vf%zu.mtbl", i)); open_table()[nm.back()] = r.back(); s += nm.back() + "\n"; }
		struct stat sb;
		if (stat(path.c_str(), &sb) != 0) put_file(path, s);
	}
	~Set() { for (auto &n : nm) open_table().erase(n); for (auto &x : r) mtbl_reader_destroy(&x); }
	Set(const Set &) = delete;
};
inline Bytes lp(const Bytes &b) { return fmt("%zu:", b.size()) + b; }
inline Bytes entity(int etype, const Meta &m, const Trip &t)
{
	Bytes r = fmt("E%d t%u f%llu l%llu c%llu ", etype, m.type, (unsigned long long) t.f, (unsigned long long) t.l, (unsigned long long) t.c) + lp(m.owner) + lp(m.bw);
	for (auto &d : m.rd) r += lp(d);
	return r;
}
// what the accessors say about an entry, in the same form
inline Bytes describe(struct dnstable_entry *e)
{
	const u8 *p; size_t n; u64 v;
	int et = (int) dnstable_entry_get_type(e);
	if (et == DNSTABLE_ENTRY_TYPE_RRSET || et == DNSTABLE_ENTRY_TYPE_RDATA) {
		Meta m; Trip t; u16 ty;
		VF_CHECK(dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success, "getter", "no rrname in a %d entry", et);
		m.owner = Bytes((char *) p, n);
		if (et == DNSTABLE_ENTRY_TYPE_RRSET) { VF_CHECK(dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success, "getter", "no bailiwick"); m.bw = Bytes((char *) p, n); }
		VF_CHECK(dnstable_entry_get_rrtype(e, &ty) == dnstable_res_success, "getter", "no rrtype"); m.type = ty;
		size_t k; VF_CHECK(dnstable_entry_get_num_rdata(e, &k) == dnstable_res_success, "getter", "no num_rdata");
		for (size_t i = 0; i < k; i++) { VF_CHECK(dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success, "getter", "no rdata %zu of %zu", i, k); m.rd.push_back(Bytes((char *) p, n)); }
		VF_CHECK(dnstable_entry_get_rdata(e, k, &p, &n) == dnstable_res_failure, "getter-rdata-past-end", "rdata %zu of %zu handed out", k, k);
		VF_CHECK(dnstable_entry_get_time_first(e, &t.f) == dnstable_res_success && dnstable_entry_get_time_last(e, &t.l) == dnstable_res_success && dnstable_entry_get_count(e, &t.c) == dnstable_res_success, "getter", "no times");
		return entity(et, m, t);
	}
	Bytes r = fmt("E%d ", et);
	if (dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success) r += "N" + lp(Bytes((char *) p, n));
	if (dnstable_entry_get_rdata_name(e, &p, &n) == dnstable_res_success) r += "R" + lp(Bytes((char *) p, n));
	if (dnstable_entry_get_time_first(e, &v) == dnstable_res_success) r += fmt("f%llu ", (unsigned long long) v);
	if (dnstable_entry_get_time_last(e, &v) == dnstable_res_success) r += fmt("l%llu ", (unsigned long long) v);
	const char *s; if (dnstable_entry_get_source_info(e, &s) == dnstable_res_success) r += Bytes("S") + lp(s);
	u32 ver; if (dnstable_entry_get_version(e, &ver) == dnstable_res_success) r += fmt("V%u ", ver);
	dnstable_entry_type vt; if (dnstable_entry_get_version_type(e, &vt) == dnstable_res_success) r += fmt("T%u ", (unsigned) vt);
	return r;
}
typedef std::vector<Bytes> Rows;
inline Rows drain(struct dnstable_iter *it, size_t limit = 100000)
{
	Rows r; struct dnstable_entry *e = nullptr; dnstable_res res;
	while ((res = dnstable_iter_next(it, &e)) == dnstable_res_success) { r.push_back(describe(e)); dnstable_entry_destroy(&e); VF_CHECK(r.size() <= limit, "endless", "more than %zu results", limit); }
	VF_CHECK(res == dnstable_res_failure, "unexpected-result", "iterator returned %d without a timeout", (int) res);
	return r;
}
inline Rows sorted(Rows r) { std::sort(r.begin(), r.end()); return r; }
// first difference of two sorted row lists, for messages
inline std::string diff(const Rows &want, const Rows &got)
{
	Rows a, b;
	std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a));
	std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
	std::string s = fmt("want %zu rows, got %zu; ", want.size(), got.size());
	if (!a.empty()) s += "missing " + show(a[0]) + "; ";
	if (!b.empty()) s += "extra " + show(b[0]);
	return s;
}
}
