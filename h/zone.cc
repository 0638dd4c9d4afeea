// Zone files as the reader hands them out, against the records they were written from.
#include "vf.h"
#include <ldns/ldns.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
extern "C" {
struct zonefile;
struct zonefile *zonefile_init_fname(const char *); void zonefile_destroy(struct zonefile **);
const ldns_rdf *zonefile_get_domain(struct zonefile *); size_t zonefile_get_count(struct zonefile *); uint32_t zonefile_get_serial(struct zonefile *); ldns_status zonefile_read(struct zonefile *, ldns_rr **);
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
}
using namespace vf;

struct RR { std::string owner; u32 ttl; std::string type, rdata; };	// absolute
static std::string label(Rng &r) { static const char *L[] = { "www", "ns1", "mail", "a", "b", "c-d", "x9", "_tcp", "long-label-with-many-characters" }; return L[r.below(9)]; }
static std::string under(Rng &r, const std::string &zone) { std::string s; unsigned n = (unsigned) r.below(3); for (unsigned i = 0; i < n; i++) s += label(r) + "."; return s + zone; }
static RR mkrr(Rng &r, const std::string &zone)
{
	RR x; x.owner = under(r, zone); x.ttl = (u32) r.range(1, 100000);
	switch (r.below(7)) {
	case 0: x.type = "A"; x.rdata = fmt("192.0.2.%u", (unsigned) r.below(256)); break;
	case 1: x.type = "AAAA"; x.rdata = fmt("2001:db8::%x", (unsigned) r.range(1, 65535)); break;
	case 2: x.type = "NS"; x.rdata = under(r, zone); break;
	case 3: x.type = "MX"; x.rdata = fmt("%u ", (unsigned) r.below(100)) + under(r, zone); break;
	case 4: x.type = "TXT"; x.rdata = fmt("\"text %u; not a comment\"", (unsigned) r.below(1000)); if (r.chance(1, 8)) for (size_t k = r.range(1, r.chance(1, 4) ? 40 : 3); k; k--) x.rdata += " \"" + std::string(r.range(1, 250), 't') + "\""; break;
	case 5: x.type = "CNAME"; x.rdata = under(r, zone); break;
	default: x.type = "SRV"; x.rdata = fmt("%u %u %u ", (unsigned) r.below(9), (unsigned) r.below(9), (unsigned) r.below(65536)) + under(r, zone);
	}
	return x;
}
static std::string rel(Rng &r, const std::string &abs, const std::string &origin)	// may be written relative to the origin
{
	if (origin.empty()) return abs;
	if (abs == origin) return r.flip() ? "@" : abs;
	if (abs.size() > origin.size() + 1 && abs.compare(abs.size() - origin.size() - 1, std::string::npos, "." + origin) == 0 && r.flip()) return abs.substr(0, abs.size() - origin.size() - 1);
	return abs;
}
static void body1(Rng &r, bool check);
static void body(Rng &r) { Rng c = r; body1(c, false); body1(r, true); }	// one-time allocations happen in the first run
static void body1(Rng &r, bool check)
{
	static const char *Z[] = { "example.com.", "example.", "sub.zone.example.net.", "x." };
	std::string zone = Z[r.below(4)], text, origin; u32 ttl = 0; bool havettl = false; std::vector<RR> want; std::string prev;
	auto noise = [&] { while (r.chance(1, 4)) { switch (r.below(4)) { case 0: text += "\n"; break; case 1: text += "; a comment with \"quotes\" ( and parentheses\n"; break; case 2: text += "  \n"; break; default: text += "   ; indented comment\n"; } count("noise_lines"); } };
	noise();
	if (r.flip()) { std::string o = r.chance(1, 4) ? zone.substr(zone.find('.') + 1) : zone; if (o.empty()) o = zone; text += "$ORIGIN " + o + "\n"; origin = o; count("origins"); }
	noise();
	if (r.flip()) { ttl = (u32) r.range(1, 99999); havettl = true; text += fmt("$TTL %u\n", ttl); count("ttls"); }
	noise();
	u32 serial = (u32) r.edgy64(), sttl = (u32) r.range(1, 99999);
	RR soa; soa.owner = zone; soa.ttl = sttl; soa.type = "SOA"; soa.rdata = fmt("ns.%s host.%s %u 3600 900 604800 86400", zone.c_str(), zone.c_str(), serial);
	if (r.flip()) text += rel(r, zone, origin) + fmt(" %u IN SOA ns.%s host.%s ( %u ; serial\n   3600\n 900 604800 ; more\n  86400 )\n", sttl, zone.c_str(), zone.c_str(), serial);
	else text += rel(r, zone, origin) + fmt("\t%u\tIN\tSOA\t%s\n", sttl, soa.rdata.c_str());
	want.push_back(soa); prev = zone;
	if (origin.empty()) origin = zone;
	size_t n = r.below(g_thorough ? 60 : 16); if (r.chance(1, 400)) { n = r.range(250, r.chance(1, 20) ? 70000 : 1500); count("large_zones"); }
	bool second = false; size_t after = 0;
	for (size_t i = 0; i < n; i++) {
		noise();
		if (r.chance(1, 8)) { origin = r.flip() ? zone : label(r) + "." + zone; text += "$ORIGIN " + origin + "\n"; count("origins"); }
		if (r.chance(1, 8)) { ttl = (u32) r.range(1, 99999); havettl = true; text += fmt("$TTL %u\n", ttl); count("ttls"); }
		if (i && r.chance(1, n > 200 ? 4000 : 25)) { second = true; text += zone + fmt(" %u IN SOA %s\n", sttl, soa.rdata.c_str()); after = r.below(3); for (size_t k = 0; k < after; k++) text += "after." + zone + " 5 IN A 192.0.2.1\n"; count("second_soas"); break; }
		RR x = mkrr(r, zone); bool same = r.chance(1, 4); if (same) x.owner = prev;
		bool useT = havettl && r.flip(); if (useT) x.ttl = ttl;
		std::string rd = x.rdata;
		if (x.type == "NS" || x.type == "CNAME") rd = rel(r, x.rdata, origin);
		text += (same && r.flip() ? std::string("") : rel(r, x.owner, origin)) + (r.flip() ? "\t" : "  ") + (useT ? "" : fmt("%u ", x.ttl)) + (r.flip() ? "IN " : "") + x.type + " " + rd + (r.chance(1, 5) ? " ; trailing\n" : "\n");
		want.push_back(x); prev = x.owner;
	}
	if (!second && r.chance(1, 6) && !text.empty()) text.pop_back();	// last line without newline
	bool gz = r.chance(1, 6); static const char *N[] = { "zone", "zone with blanks", "zo'ne", "zo\"ne", "z;true", "$(true)", "-z", "z.gz.txt", "a&b" };
	std::string path = scratch() + "/" + (gz ? std::string(N[r.below(9)]) + ".gz" : N[r.below(9)]);
	if (gz) { gzFile f = gzopen(path.c_str(), "wb"); gzwrite(f, text.data(), (unsigned) text.size()); gzclose(f); count("compressed"); }
	else { FILE *f = fopen(path.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
	struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};

	size_t mem0 = 0; bool stop_early = r.chance(1, 8); size_t stop = r.below(want.size() + 1);
	if (&__sanitizer_get_current_allocated_bytes) mem0 = __sanitizer_get_current_allocated_bytes();
	{
	struct zonefile *z = zonefile_init_fname(path.c_str());
	VF_CHECK(z, "zone:open", "a valid zone was refused: %s", show(text).c_str());
	struct D { struct zonefile *&z; ~D() { zonefile_destroy(&z); } } d{z};
	ldns_rdf *dn = ldns_dname_new_frm_str(zone.c_str()); int c = ldns_dname_compare(dn, zonefile_get_domain(z)); ldns_rdf_deep_free(dn);
	VF_CHECK(c == 0, "zone:domain", "wrong domain for %s", zone.c_str());
	size_t i = 0;
	for (;; i++) {
		if (stop_early && i == stop) break;
		VF_CHECK(zonefile_get_serial(z) == serial, "zone:serial", "serial is %u after %zu records, expected %u", zonefile_get_serial(z), i, serial);
		VF_CHECK(zonefile_get_count(z) == std::max<size_t>(i, 1), "zone:count", "count is %zu after %zu records", zonefile_get_count(z), i);
		ldns_rr *rr = nullptr; ldns_status st = zonefile_read(z, &rr);
		VF_CHECK(st == LDNS_STATUS_OK, "zone:status", "record %zu: status %d: %s", i, (int) st, show(text).c_str());
		if (!rr) break;
		VF_CHECK(i < want.size(), "zone:extra", "a record too many (%zu expected): %s", want.size(), show(text).c_str());
		std::string full = want[i].owner + fmt(" %u IN ", want[i].ttl) + want[i].type + " " + want[i].rdata; ldns_rr *w = nullptr;
		if (ldns_rr_new_frm_str(&w, full.c_str(), 0, nullptr, nullptr) != LDNS_STATUS_OK) { fprintf(stderr, "bad expectation: %s\n", full.c_str()); _exit(78); }
		int cmp = ldns_rr_compare(rr, w); u32 t = ldns_rr_ttl(rr); char *s = ldns_rr2str(rr); std::string got = s ? s : "?"; free(s);
		if (!got.empty() && got.back() == '\n') got.pop_back();
		ldns_rr_free(rr); ldns_rr_free(w);
		VF_CHECK(cmp == 0 && t == want[i].ttl, "zone:record", "record %zu is '%s', expected '%s'", i, got.c_str(), full.c_str());
		count("records"); seen("types", hash(want[i].type));
	}
	VF_CHECK(stop_early || i == want.size(), "zone:lost", "%zu of %zu records read: %s", i, want.size(), show(text).c_str());
	}
	if (mem0 && check) { size_t m = __sanitizer_get_current_allocated_bytes(); VF_CHECK(m <= mem0, "zone:leak", "%zu bytes are still allocated: %s", m - mem0, show(text).c_str()); count("leak_checks"); }
	seen("nontrivial", hash(text)); if (n > 3) sample(show(text).substr(0, 400));
}
// files that are no zones are refused, without harm
static void refuse(Rng &r)
{
	std::string text; switch (r.below(5)) {
	case 0: break;
	case 1: text = "www.example.com. 5 IN A 192.0.2.1\n"; break;
	case 2: text = "; only comments\n\n$TTL 5\n"; break;
	case 3: text = r.bytes(r.below(60)); break;
	default: text = "example.com. 5 IN SOA ns.example.com. host.example.com. 1 2 3 4\n";	// a field is missing
	}
	bool none = r.chance(1, 6), gz = r.chance(1, 8); std::string path = scratch() + (gz ? "/r.gz" : "/r");
	unlink(path.c_str()); if (!none) { FILE *f = fopen(path.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
	struct zonefile *z = zonefile_init_fname(path.c_str()); if (z) zonefile_destroy(&z);
	size_t mem0 = &__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
	z = zonefile_init_fname(path.c_str()); bool ok = z == nullptr; if (z) zonefile_destroy(&z);
	VF_CHECK(ok || text.find("SOA") != std::string::npos, "zone:accepted", "accepted: %s", show(text).c_str());
	if (mem0) { size_t m = __sanitizer_get_current_allocated_bytes(); VF_CHECK(m <= mem0, "zone:leak:refused", "%zu bytes are still allocated after refusing %s: %s", m - mem0, none ? "a missing file" : "a file", show(text).c_str()); }
	count("refused"); seen("nontrivial", hash(text) + none);
	unlink(path.c_str());
}
int main(int argc, char **argv) { return vf::main(argc, argv, { { "body", body }, { "refuse", refuse } }); }
