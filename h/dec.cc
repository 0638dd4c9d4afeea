// Entry decoding, accessors and rendering (dnstable/entry.c, triplet.c, dnstable-json.h, util.c).
#include "dn.h"
using namespace dn;

// ---- reference decoder, from man/dnstable-encoding.5 ----
struct Ref {
	int et = -1; Bytes name, bw, src; u32 type = 0; std::vector<Bytes> rd; Bytes map;
	u64 f = 0, l = 0, c = 0; u32 ver = 0; int vt = 0;
};
static bool rname(const Bytes &b, size_t &p, size_t end, Bytes &out) { size_t n = name_at(b, p, end); if (!n || n > 255) return false; out = rev(b.substr(p, n)); p += n; return true; }
static bool rv32(const Bytes &b, size_t &p, size_t end, u32 &v) { u64 x; if (!get_varint(b, p, end, x, 5)) return false; v = (u32) x; return true; }
static bool rtrip(const Bytes &v, Ref &r)
{
	size_t p = 0;
	if (!get_varint(v, p, v.size(), r.f, 10) || !get_varint(v, p, v.size(), r.l, 10) || !get_varint(v, p, v.size(), r.c, 10) || p != v.size()) return false;
	if (!r.c) r.c = 1;
	if (!r.l) r.l = r.f;
	return true;
}
static bool ref_decode(const Bytes &k, const Bytes &v, Ref &r)
{
	if (k.empty()) return false;
	size_t p = 1;
	r.et = (u8) k[0];
	switch (r.et) {
	case 0:
		if (!rname(k, p, k.size(), r.name) || !rv32(k, p, k.size(), r.type) || !rname(k, p, k.size(), r.bw)) return false;
		while (p < k.size()) { u32 n; if (!rv32(k, p, k.size(), n) || n > 65535 || n > k.size() - p) return false; r.rd.push_back(k.substr(p, n)); p += n; }
		return rtrip(v, r);
	case 2: {
		if (k.size() < 3) return false;
		size_t end = k.size() - 2, n = (u8) k[end] | (u8) k[end + 1] << 8;
		if (n > end - 1) return false;
		Bytes d = k.substr(1, n);
		p = 1 + n;
		if (!rv32(k, p, end, r.type) || !rname(k, p, end, r.name)) return false;
		r.rd.push_back(k.substr(p, end - p) + d);
		return rtrip(v, r); }
	case 1: case 3:
		if (k.size() < 2 || name_at(k, 1, k.size()) != k.size() - 1 || k.size() - 1 > 255) return false;
		r.name = r.et == 1 ? k.substr(1) : rev(k.substr(1)); r.map = v;
		return true;
	case 254: { size_t q = 0; return get_varint(v, q, v.size(), r.f, 10) && get_varint(v, q, v.size(), r.l, 10) && q == v.size(); }
	case 253: r.src = k.substr(1).c_str(); return true;
	case 255: { if (k.size() != 2) return false; r.vt = (u8) k[1]; size_t q = 0; return rv32(v, q, v.size(), r.ver) && q == v.size(); }
	}
	return false;
}

// ---- reference rendering ----
struct Civil { long long y; int mo, d, h, mi, s; };
static Civil civil(u64 t)
{
	u64 z = t / 86400 + 719468; int r = (int) (t % 86400);
	u64 era = z / 146097; unsigned doe = (unsigned) (z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	long long y = (long long) yoe + (long long) era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
	Civil c; c.d = (int) (doy - (153 * mp + 2) / 5 + 1); c.mo = (int) (mp < 10 ? mp + 3 : mp - 9); c.y = y + (c.mo <= 2);
	c.h = r / 3600; c.mi = r / 60 % 60; c.s = r % 60; return c;
}
static const u64 T9999 = 253402300799ULL;
static std::string num(u64 v) { return fmt("%llu", (unsigned long long) v); }
static std::string r3339(u64 t) { Civil c = civil(t); return fmt("%04lld-%02d-%02dT%02d:%02d:%02dZ", c.y, c.mo, c.d, c.h, c.mi, c.s); }
static std::string ttime(u64 t, bool unx) { Civil c = civil(t); return unx ? fmt("%lld-%02d-%02d %02d:%02d:%02d -0000", c.y, c.mo, c.d, c.h, c.mi, c.s) : t > T9999 ? num(t) : r3339(t); }	// RFC 3339 ends with the year 9999
static std::string tname(u32 t) { const char *s = wdns_rrtype_to_str((u16) t); return s ? s : fmt("TYPE%u", (u16) t); }
static std::string rdstr(const Bytes &d, u32 t) { Exact e(d); char *s = wdns_rdata_to_str(e.p, (u16) e.n, (u16) t, WDNS_CLASS_IN); std::string r = s; free(s); return r; }
static std::string js(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) switch (c) {
		case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break;
		case '"': r += "\\\""; break; case '\\': r += "\\\\"; break;
		default: if (c < 0x20) r += fmt("\\u%04x", c); else r += (char) c;
	}
	return r + "\"";
}
static const char *etname(int t) { switch (t) { case 0: return "rrset"; case 1: return "rrset_name"; case 2: return "rdata"; case 3: return "rdata_name"; case 253: return "source_info"; case 254: return "time_range"; case 255: return "version"; } return nullptr; }
static std::string ref_text(const Ref &r, bool unx, bool zone)
{
	std::string s;
	switch (r.et) {
	case 0:
		s = ";;  bailiwick: " + text(r.bw) + "\n;;      count: " + num(r.c) + "\n;; first seen" + (zone ? " in zone file" : "") + ": " + ttime(r.f, unx) + "\n;;  last seen" + (zone ? " in zone file" : "") + ": " + ttime(r.l, unx) + "\n";
		/* fallthrough */
	case 2: for (auto &d : r.rd) s += text(r.name) + " IN " + tname(r.type) + " " + rdstr(d, r.type) + "\n"; return s;
	case 1: case 3: {
		std::set<u16> m; bool all; s = text(r.name) + " RRtypes=[";
		if (!union_dec(r.map, m, all)) s += "<failure>"; else { bool first = true; for (u16 t : m) { if (!first) s += " "; first = false; s += tname(t); } }
		return s + "]  ;; " + (r.et == 1 ? "rrset name fwd" : "rdata name rev") + "\n"; }
	case 254: return ";; Earliest time_first: " + ttime(r.f, unx) + "\n;; Latest time_last: " + ttime(r.l, unx) + "\n";
	case 253: return ";; source info: " + r.src + "\n";
	case 255: return etname(r.vt) ? fmt(";; Version type %s: %u\n", etname(r.vt), r.ver) : fmt(";; Version type %u: %u\n", (unsigned) r.vt, r.ver);
	}
	return s;
}
static std::string ref_json(const Ref &r, bool unx, bool zone, bool arr, bool raw)
{
	std::string s = "{"; auto T = [&](u64 t) { return unx || t > T9999 ? num(t) : "\"" + r3339(t) + "\""; };
	const char *z = zone ? "zone_" : "";
	if (r.et == 0 || r.et == 2) s += "\"count\":" + num(r.c) + ",\"" + z + "time_first\":" + T(r.f) + ",\"" + z + "time_last\":" + T(r.l) + ",\"rrname\":" + js(text(r.name)) + ",\"rrtype\":" + js(tname(r.type));
	auto list = [&](std::vector<std::string> v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + js(v[i]); return o + "]"; };
	std::vector<std::string> a, b;
	switch (r.et) {
	case 0:
		for (auto &d : r.rd) { a.push_back(rdstr(d, r.type)); b.push_back(hex(d) + hex(varint(r.type))); }
		s += ",\"bailiwick\":" + js(text(r.bw)) + ",\"rdata\":" + list(a);
		if (raw) s += ",\"rdata_raw\":" + list(b);
		break;
	case 2: {
		std::string o = js(rdstr(r.rd[0], r.type)), h = js(hex(r.rd[0]));
		s += ",\"rdata\":" + (arr ? "[" + o + "]" : o);
		if (raw) s += ",\"rdata_raw\":" + (arr ? "[" + h + "]" : h);
		break; }
	case 1: case 3: {
		std::set<u16> m; bool all;
		s += (r.et == 1 ? "\"rrset_name\":" : "\"rdata_name\":") + js(text(r.name)) + ",\"rrtypes\":";
		if (!union_dec(r.map, m, all)) a.push_back("<failure>"); else for (u16 t : m) a.push_back(tname(t));
		s += list(a); break; }
	case 254: s += "\"time_first\":" + T(r.f) + ",\"time_last\":" + T(r.l); break;
	case 253: s += "\"source info\":" + js(r.src); break;
	case 255: s += "\"entry_type\":" + js(etname(r.vt) ? etname(r.vt) : fmt("unknown-%d", r.vt)) + ",\"version\":" + num(r.ver); break;
	}
	return s + "}";
}
// strict JSON checker
struct J {
	const std::string &s; size_t p = 0;
	explicit J(const std::string &x) : s(x) {}
	bool lit(const char *t) { size_t n = strlen(t); if (s.compare(p, n, t)) return false; p += n; return true; }
	bool str()
	{
		if (p >= s.size() || s[p++] != '"') return false;
		while (p < s.size() && s[p] != '"') {
			if ((u8) s[p] < 0x20) return false;
			if (s[p] == '\\') { p++; if (p >= s.size()) return false; if (s[p] == 'u') { for (int i = 0; i < 4; i++) if (!isxdigit((u8) s[++p])) return false; } else if (!strchr("\"\\/bfnrt", s[p])) return false; }
			p++;
		}
		return p < s.size() && s[p++] == '"';
	}
	bool val()
	{
		if (p >= s.size()) return false;
		if (s[p] == '"') return str();
		if (s[p] == '{' || s[p] == '[') {
			char o = s[p], c = o == '{' ? '}' : ']'; p++;
			if (p < s.size() && s[p] == c) { p++; return true; }
			for (;;) {
				if (o == '{' && (!str() || p >= s.size() || s[p++] != ':')) return false;
				if (!val() || p >= s.size()) return false;
				if (s[p] == c) { p++; return true; }
				if (s[p++] != ',') return false;
			}
		}
		if (s[p] == '0') { p++; return true; }
		size_t q = p; while (p < s.size() && isdigit((u8) s[p])) p++;
		return p > q || lit("null") || lit("true") || lit("false");
	}
	bool ok() { return val() && p == s.size(); }
};

// ---- generation ----
static u64 edge_time(Rng &g, bool sane)
{
	switch (g.below(6)) {
	case 0: return g.below(3);
	case 1: return T9999 - g.below(3);
	case 2: return g.below(sane ? T9999 : 67768000000000000ULL);
	case 3: return 951782400 + 86400 * g.below(2000) + g.below(2) - 1;	// around leap days
	default: return 1200000000 + g.below(600000000);
	}
}
static void valid(Rng &g, Bytes &k, Bytes &v, bool sane_times)
{
	Gen n(g);
	switch (g.below(9)) {
	case 0: case 1: case 2: { RRset r = n.rrset(); if (g.chance(1, 10)) r.rd.push_back(g.bytes(g.range(120, 300))); if (g.chance(1, 300)) r.rd.push_back(g.bytes(65535)); if (g.chance(1, 40)) { u64 m = g.chance(1, 10) ? g.range(1000, 5000) : g.range(100, 600); for (u64 i = 0; i < m; i++) r.rd.push_back(g.bytes(g.below(6))); } k = rrset_key(r); break; }
	case 3: case 4: case 5: { u16 t = n.type(); Bytes d = n.rdata(t), o = n.name(); if (g.chance(1, 300)) d = g.bytes(g.range(65000, 65535)); k = slice_off(t) && g.flip() && d.size() > 8 ? sliced_key(d, t, o) : rdata_key(d, t, o); break; }
	case 6: case 7: {
		k = B(g.flip() ? 1 : 3) + n.name();
		std::set<u16> s; size_t m = g.below(5); for (size_t i = 0; i < m; i++) s.insert(g.chance(1, 3) ? (u16) g.next() : n.type());
		if (g.chance(1, 150)) for (int i = 0; i < 3000; i++) s.insert((u16) g.next());
		if (g.chance(1, 4000)) for (int i = 0; i < 65536; i++) s.insert((u16) i);
		v = union_enc(s, g.chance(1, 4));
		return; }
	default:
		switch (g.below(3)) {
		case 0: k = B(254); v = varint(edge_time(g, sane_times)) + varint(edge_time(g, sane_times)); return;
		case 1: k = B(253); { size_t m = g.chance(1, 8) ? g.below(5000) : g.below(30); for (size_t i = 0; i < m; i++) if (g.chance(1, 25)) { static const char *u[] = { "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\x7f" }; k += u[g.below(5)]; } else k += (char) (g.chance(1, 6) ? g.range(1, 31) : g.chance(1, 8) ? (g.flip() ? '"' : '\\') : g.range(32, 126)); } if (g.flip()) v = ""; else v = g.bytes(3); return;
		default: k = B(255) + B(g.flip() ? (int) g.below(5) : g.flip() ? 253 + (int) g.below(3) : (int) g.below(256)); v = varint(g.flip() ? g.below(5) : g.next() & 0xffffffff); return;
		}
	}
	v = triplet(edge_time(g, sane_times), edge_time(g, sane_times), g.flip() ? g.edgy64() : g.below(4));
}
// a type set that cannot be read: of an index name it is rendered as a failure
static void damage_union(Rng &g, const Bytes &k, Bytes &v)
{
	if ((k[0] != 1 && k[0] != 3) || !g.chance(1, 6)) return;
	std::set<u16> s; size_t m = g.range(2, 5); for (size_t i = 0; i < m; i++) s.insert((u16) g.below(g.flip() ? 256 : 65280)); v = union_enc(s, true);
	switch (g.below(5)) {
	case 0: v += (char) g.next(); break;	// one byte left over
	case 1: v += B(255) + B(0); break;	// an empty block
	case 2: v += v.substr(0, 2 + (size_t) (u8) v[1]); break;	// a window again
	case 3: v += B(255) + B((int) g.range(2, 32)) + B(1); break;	// cut short
	default: v = B(255) + B(1) + B((int) g.below(256)) + v; break;	// out of order
	}
	count("unreadable type sets");
}
static void mutate(Rng &g, Bytes &b)
{
	size_t n = g.range(1, 3);
	for (size_t i = 0; i < n; i++) switch (g.below(8)) {
		case 0: if (!b.empty()) b.resize(g.below(b.size())); break;
		case 1: if (!b.empty()) b[g.below(b.size())] = (char) g.next(); break;
		case 2: if (!b.empty()) b.pop_back(); break;
		case 3: b += (char) g.next(); break;
		case 4: b.insert(g.below(b.size() + 1), g.bytes(g.range(1, 3))); break;
		case 5: if (!b.empty()) b.erase(g.below(b.size()), g.range(1, 3)); break;
		case 6: if (!b.empty()) b[g.below(b.size())] ^= (char) (1 << g.below(8)); break;
		default: b.insert(g.below(b.size() + 1), g.flip() ? Bytes(g.range(1, 11), '\xff') : Bytes("\x80\0", 2)); break;
	}
}
static void hostile(Rng &g, Bytes &k, Bytes &v)
{
	static const u8 ty[] = { 0, 1, 2, 3, 253, 254, 255, 4, 77 };
	switch (g.below(5)) {
	case 0: k = g.bytes(g.below(40)); if (!k.empty()) k[0] = (char) ty[g.below(sizeof ty)]; v = g.bytes(g.below(30)); break;
	case 1: { // names at and over the limit
		Bytes nm; size_t want = g.range(245, 262); while (nm.size() + 2 < want) { size_t l = std::min<size_t>(want - nm.size() - 2, g.chance(1, 3) ? 63 : g.range(1, 63)); nm += B((int) l) + g.bytes(l); } nm += '\0';
		int t = ty[g.below(4)]; Bytes o = wire({ "a" });
		if (t == 0) k = B(0) + (g.flip() ? nm + varint(1) + o : o + varint(1) + nm) + varint(2) + "xy";
		else if (t == 2) k = B(2) + "abc" + varint(5) + nm + le16(3);
		else k = B(t) + nm;
		v = triplet(1, 2, 3); break; }
	default: valid(g, k, v, false); if (g.flip()) mutate(g, k); if (g.flip()) mutate(g, v); break;
	}
}
struct E {
	struct dnstable_entry *e; Exact *k; OddExact *v;
	E(const Bytes &kk, const Bytes &vv) { k = new Exact(kk); v = new OddExact(vv); e = dnstable_entry_decode(k->p, k->n, v->p, v->n); delete k; delete v; }	// nothing may point into the input afterwards
	~E() { dnstable_entry_destroy(&e); if (e) abort(); }
};
static std::string take(char *s, const char *what) { VF_CHECK(s != nullptr, "render-null", "%s returned NULL", what); std::string r = s; free(s); return r; }
struct F {
	struct dnstable_formatter *f;
	F(bool json, bool unx, bool arr, bool raw) : f(dnstable_formatter_init())
	{
		dnstable_formatter_set_output_format(f, json ? dnstable_output_format_json : dnstable_output_format_text);
		dnstable_formatter_set_date_format(f, unx ? dnstable_date_format_unix : dnstable_date_format_rfc3339);
		dnstable_formatter_set_rdata_array(f, arr); dnstable_formatter_set_raw_rdata(f, raw);
	}
	~F() { dnstable_formatter_destroy(&f); }
};
static void c_hostile(Rng &g)
{
	for (int rep = 0; rep < 12; rep++) {
		Bytes k, v; hostile(g, k, v);
		E e(k, v);
		count("inputs");
		if (!e.e) { count("rejected"); continue; }
		count("accepted");
		seen("shapes", hash(fmt("%d %zu %zu", k.empty() ? -1 : (u8) k[0], k.size(), v.size())));
		Bytes d = describe(e.e);
		std::string t = take(dnstable_entry_to_text(e.e), "to_text"), j = take(dnstable_entry_to_json(e.e), "to_json");
		bool src = (u8) k[0] == 253;
		for (int m = 0; m < 16; m++) {
			F f(m & 1, m & 2, m & 4, m & 8);
			if (m == 9) dnstable_entry_set_iszone(e.e, true);
			std::string s = take(dnstable_entry_format(f.f, e.e), "format");
			if (m & 1) VF_CHECK(J(s).ok(), "invalid-json", "not JSON: %s (key %s val %s)", show(s).c_str(), hex(k).c_str(), hex(v).c_str());
			count("renderings");
		}
		VF_CHECK(J(j).ok(), "invalid-json", "not JSON: %s", show(j).c_str());
		if (!src) for (unsigned char c : j) VF_CHECK(c < 0x80, "json-not-ascii", "byte %02x in %s", c, show(j).c_str());
		if (rep == 0) sample(hex(k.substr(0, 40)) + " -> " + show(d.substr(0, 80)));
	}
}
static void same(const char *what, const Bytes &a, const Bytes &b, const Bytes &k) { VF_CHECK(a == b, what, "%s: want %s, got %s (key %s)", what, hex(a).c_str(), hex(b).c_str(), hex(k.substr(0, 100)).c_str()); }
static void c_decode(Rng &g)
{
	for (int rep = 0; rep < 12; rep++) {
		Bytes k, v;
		if (g.flip()) valid(g, k, v, false); else hostile(g, k, v);
		Ref r; bool ok = ref_decode(k, v, r);
		if ((r.et == 0 || r.et == 2) && r.type > 65535) continue;	// not a type; accepted, shown modulo 2^16
		if (r.et == 2 && ok && r.rd[0].size() > 65535) continue;
		E E_(k, v); struct dnstable_entry *e = E_.e;
		VF_CHECK(ok == (e != nullptr), ok ? "rejects-valid" : "accepts-malformed", "key %s val %s", hex(k.substr(0, 200)).c_str(), hex(v.substr(0, 100)).c_str());
		count(ok ? "accepted" : "rejected");
		if (!e) continue;
		seen("shapes", hash(fmt("%d %zu %zu %zu", r.et, k.size() % 97, v.size() % 97, r.rd.size())));
		const u8 *p; size_t n; u64 u; u16 ty; u32 u4; dnstable_entry_type vt; const char *cs;
		const dnstable_res S = dnstable_res_success;
		VF_CHECK((int) dnstable_entry_get_type(e) == r.et, "type", "type %d, want %d", (int) dnstable_entry_get_type(e), r.et);
		bool rr = r.et == 0 || r.et == 2;
#define WANT(cond, call) VF_CHECK(((call) == S) == (cond), "getter-presence", "%s on a %d entry", #call, r.et); if (cond)
		WANT(rr || r.et == 1, dnstable_entry_get_rrname(e, &p, &n)) same("rrname", r.name, Bytes((char *) p, n), k);
		WANT(r.et == 0, dnstable_entry_get_bailiwick(e, &p, &n)) same("bailiwick", r.bw, Bytes((char *) p, n), k);
		WANT(rr, dnstable_entry_get_rrtype(e, &ty)) VF_CHECK(ty == r.type, "rrtype", "%u want %u", ty, r.type);
		WANT(rr, dnstable_entry_get_num_rdata(e, &n)) {
			VF_CHECK(n == r.rd.size(), "num-rdata", "%zu want %zu", n, r.rd.size());
			for (size_t i = 0; i < r.rd.size(); i++) { VF_CHECK(dnstable_entry_get_rdata(e, i, &p, &n) == S, "rdata", "no rdata %zu", i); same("rdata", r.rd[i], Bytes((char *) p, n), k); }
			for (size_t i : { r.rd.size(), r.rd.size() + 1, (size_t) -1 }) VF_CHECK(dnstable_entry_get_rdata(e, i, &p, &n) != S, "getter-rdata-past-end", "rdata %zu of %zu handed out", i, r.rd.size());
		} else VF_CHECK(dnstable_entry_get_rdata(e, 0, &p, &n) != S, "getter-presence", "rdata of a %d entry", r.et);
		WANT(r.et == 3, dnstable_entry_get_rdata_name(e, &p, &n)) same("rdata-name", r.name, Bytes((char *) p, n), k);
		WANT(rr || r.et == 254, dnstable_entry_get_time_first(e, &u)) VF_CHECK(u == r.f, "time-first", "%llu want %llu", (unsigned long long) u, (unsigned long long) r.f);
		WANT(rr || r.et == 254, dnstable_entry_get_time_last(e, &u)) VF_CHECK(u == r.l, "time-last", "%llu want %llu", (unsigned long long) u, (unsigned long long) r.l);
		WANT(rr, dnstable_entry_get_count(e, &u)) VF_CHECK(u == r.c, "count", "%llu want %llu", (unsigned long long) u, (unsigned long long) r.c);
		WANT(r.et == 253, dnstable_entry_get_source_info(e, &cs)) same("source-info", r.src, cs, k);
		WANT(r.et == 255, dnstable_entry_get_version(e, &u4)) VF_CHECK(u4 == r.ver, "version", "%u want %u", u4, r.ver);
		WANT(r.et == 255, dnstable_entry_get_version_type(e, &vt)) VF_CHECK((int) vt == r.vt, "version-type", "%d want %d", (int) vt, r.vt);
		if (rep == 0) sample(hex(k.substr(0, 40)) + " -> type " + num((u64) r.et));
	}
}
static void c_text(Rng &g)
{
	for (int rep = 0; rep < 12; rep++) {
		Bytes k, v; valid(g, k, v, false); damage_union(g, k, v);
		Ref r; if (!ref_decode(k, v, r)) { note("generator", "bad valid entry %s", hex(k).c_str()); continue; }
		E e(k, v); VF_CHECK(e.e, "rejects-valid", "key %s", hex(k.substr(0, 200)).c_str());
		for (int z = 0; z < 2; z++) {
			if (z) dnstable_entry_set_iszone(e.e, true);
			bool unx = g.flip();
			if (r.f > T9999 || r.l > T9999) count("times beyond the year 9999");
			F f(false, unx, g.flip(), g.flip());
			std::string want = ref_text(r, unx, z), got = take(dnstable_entry_format(f.f, e.e), "format");
			VF_CHECK(want == got, "text", "want %s got %s", show(want).c_str(), show(got).c_str());
			if (!z) { std::string t = take(dnstable_entry_to_text(e.e), "to_text"); std::string w2 = ref_text(r, true, false); VF_CHECK(t == w2, "text", "to_text: want %s got %s", show(w2).c_str(), show(t).c_str()); }
			count("rendered"); seen("texts", hash(want));
			if (rep == 0 && !z) sample(show(want.substr(0, 200)));
		}
	}
}
static void c_json(Rng &g)
{
	for (int rep = 0; rep < 12; rep++) {
		Bytes k, v; valid(g, k, v, false); damage_union(g, k, v);
		Ref r; if (!ref_decode(k, v, r)) { note("generator", "bad valid entry %s", hex(k).c_str()); continue; }
		E e(k, v); VF_CHECK(e.e, "rejects-valid", "key %s", hex(k.substr(0, 200)).c_str());
		struct dnstable_formatter *df = dnstable_formatter_init();
		std::string dflt = take(dnstable_entry_format(df, e.e), "format"), d2 = take(dnstable_entry_to_json(e.e), "to_json"), wd = ref_json(r, true, false, false, false);
		dnstable_formatter_destroy(&df);
		VF_CHECK(dflt == wd && d2 == wd, "json-default", "want %s got %s and %s", show(wd).c_str(), show(dflt).c_str(), show(d2).c_str());
		for (int z = 0; z < 2; z++) {
			dnstable_entry_set_iszone(e.e, z);
			for (int m = 0; m < 8; m++) {
				bool unx = m & 1, arr = m & 2, raw = m & 4;
				F f(true, unx, arr, raw);
				std::string want = ref_json(r, unx, z, arr, raw), got = take(dnstable_entry_format(f.f, e.e), "format");
				VF_CHECK(want == got, "json", "options %d zone %d: want %s got %s", m, z, show(want).c_str(), show(got).c_str());
				VF_CHECK(J(got).ok(), "invalid-json", "%s", show(got).c_str());
				count("rendered"); seen("texts", hash(want));
			}
		}
		if (rep == 0) sample(show(wd.substr(0, 200)));
	}
}
// enum <-> string conversions and the formatter's mutable state
static void c_strs(Rng &g)
{
	for (int t = -3; t < 300; t++) {
		const char *s = dnstable_entry_type_to_string((dnstable_entry_type) t); const char *w = t >= 0 && t < 256 ? etname(t) : nullptr;
		VF_CHECK((s == nullptr) == (w == nullptr) && (!s || !strcmp(s, w)), "entry-type-string", "type %d is %s", t, s ? s : "NULL");
		if (s) { dnstable_entry_type b; VF_CHECK(dnstable_entry_type_from_string(&b, s) == dnstable_res_success && (int) b == t, "entry-type-string", "%s does not come back", s); count("round trips"); }
	}
	std::set<std::string> st, ct;
	for (int i = -3; i < 40; i++) {
		const char *s = dnstable_stat_stage_to_str((dnstable_stat_stage) i);
		VF_CHECK((s != nullptr) == (i >= 0 && i <= DNSTABLE_STAT_STAGE_FILTER_OFFSET), "stat-string", "stage %d is %s", i, s ? s : "NULL");
		if (s) { dnstable_stat_stage b; VF_CHECK(st.insert(s).second, "stat-string", "two stages are called %s", s); VF_CHECK(dnstable_stat_str_to_stage(s, &b) == dnstable_res_success && (int) b == i, "stat-string", "stage %s does not come back", s); std::string up = s; for (auto &c : up) if (g.flip()) c = (char) toupper(c); VF_CHECK(dnstable_stat_str_to_stage(up.c_str(), &b) == dnstable_res_success && (int) b == i, "stat-string", "stage %s", up.c_str()); count("round trips"); }
		s = dnstable_stat_category_to_str((dnstable_stat_category) i);
		VF_CHECK((s != nullptr) == (i >= 0 && i <= DNSTABLE_STAT_CATEGORY_FILES), "stat-string", "category %d is %s", i, s ? s : "NULL");
		if (s) { dnstable_stat_category b; VF_CHECK(ct.insert(s).second, "stat-string", "two categories are called %s", s); VF_CHECK(dnstable_stat_str_to_category(s, &b) == dnstable_res_success && (int) b == i, "stat-string", "category %s does not come back", s); count("round trips"); }
	}
	// anything that is not one of the names is refused and leaves the output alone
	std::vector<std::string> names(st.begin(), st.end()); names.insert(names.end(), ct.begin(), ct.end());
	for (int t : { 0, 1, 2, 3, 253, 254, 255 }) names.push_back(etname(t));
	for (int i = 0; i < 40; i++) {
		std::string s = g.pick(names);
		switch (g.below(4)) { case 0: s += (char) g.range(32, 126); break; case 1: if (!s.empty()) s.pop_back(); break; case 2: s.insert(g.below(s.size() + 1), 1, (char) g.range(33, 126)); break; default: { Bytes b = g.bytes(g.below(12)); s = b.c_str(); } }
		dnstable_stat_stage a; dnstable_stat_category b; dnstable_entry_type e; memset(&a, 77, sizeof a); memset(&b, 77, sizeof b); memset(&e, 77, sizeof e);
		std::string lo = lower(s); bool is_e = false; for (int t : { 0, 1, 2, 3, 253, 254, 255 }) is_e |= s == etname(t);
		VF_CHECK((dnstable_stat_str_to_stage(s.c_str(), &a) == dnstable_res_success) == (st.count(lo) > 0), "stat-string", "stage name %s", show(s).c_str());
		VF_CHECK((dnstable_stat_str_to_category(s.c_str(), &b) == dnstable_res_success) == (ct.count(lo) > 0), "stat-string", "category name %s", show(s).c_str());
		VF_CHECK((dnstable_entry_type_from_string(&e, s.c_str()) == dnstable_res_success) == is_e, "entry-type-string", "entry type name %s", show(s).c_str());
		if (!st.count(lo)) VF_CHECK(*(u8 *) &a == 77, "stat-string", "output changed on failure");
		if (!ct.count(lo)) VF_CHECK(*(u8 *) &b == 77, "stat-string", "output changed on failure");
		count("refusals"); seen("nontrivial", hash(s));
	}
	dnstable_stat_stage a; dnstable_stat_category b;
	VF_CHECK(dnstable_stat_str_to_stage(nullptr, &a) != dnstable_res_success && dnstable_stat_str_to_stage("", &a) != dnstable_res_success && dnstable_stat_str_to_stage("time", nullptr) != dnstable_res_success, "stat-string", "NULL or empty accepted");
	VF_CHECK(dnstable_stat_str_to_category(nullptr, &b) != dnstable_res_success && dnstable_stat_str_to_category("", &b) != dnstable_res_success && dnstable_stat_str_to_category("seek", nullptr) != dnstable_res_success, "stat-string", "NULL or empty accepted");
}
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static void leaksess(Rng &g)
{
	for (int rep = 0; rep < 15; rep++) {
		Bytes k, v; if (g.chance(1, 3)) hostile(g, k, v); else valid(g, k, v, false);
		E e(k, v); if (!e.e) { count("rejected"); continue; }
		count("accepted"); seen("inputs", hash(k + v));
		if (g.flip()) describe(e.e);
		if (g.chance(1, 4)) dnstable_entry_set_iszone(e.e, g.flip());
		if (g.flip()) free(dnstable_entry_to_text(e.e));
		if (g.flip()) free(dnstable_entry_to_json(e.e));
		F f(g.flip(), g.flip(), g.flip(), g.flip()); for (u64 i = g.below(3); i; i--) free(dnstable_entry_format(f.f, e.e));
		dnstable_entry_type t; (void) dnstable_entry_type_from_string(&t, g.flip() ? "rrset" : "none");
	}
}
static void c_leaks(Rng &g)
{
	u64 s = g.next(); { Rng w(s); leaksess(w); }
	size_t before = __sanitizer_get_current_allocated_bytes();
	{ Rng r(s); leaksess(r); }
	size_t after = __sanitizer_get_current_allocated_bytes();
	VF_CHECK(after == before, "leak", "%ld bytes remain of fifteen entries", (long) (after - before));
	count("sessions");
}
int main(int argc, char **argv) { return vf::main(argc, argv, { { "hostile", c_hostile }, { "decode", c_decode }, { "text", c_text }, { "json", c_json }, { "strs", c_strs }, { "leaks", c_leaks } }); }
