// The stages a query is made of (left join, filter, removal, timeout), each against set arithmetic,
// alone and stacked, under any mix of stepping and seeking.
#include "dn.h"
#include <setjmp.h>
using namespace dn;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" {
typedef mtbl_res (*filter_fn)(void *, struct mtbl_iter *, const uint8_t *, size_t, const uint8_t *, size_t, bool *);
void *ws_ljoin(const struct mtbl_source *, const struct mtbl_source *, mtbl_merge_func, void *);
void *ws_filter(const struct mtbl_source *, filter_fn, void *);
void *ws_timeout(const struct mtbl_source *, const struct timespec *, jmp_buf *);
void *ws_remove(const struct mtbl_source *, const struct mtbl_source **, size_t);
const struct mtbl_source *ws_source(int, void *);
void ws_destroy(int, void **);
int ws_counter(int, void *, int, bool *, uint64_t *);
}
typedef std::map<Bytes, Bytes> M;
static size_t g_longest;
static Bytes rkey(Rng &g, unsigned alpha) { Bytes k(g.below(g_longest), 0); for (auto &c : k) c = (char) (g.chance(1, 8) ? 255 : g.below(alpha)); return k; }
struct Pred { unsigned mod, rem; unsigned mode; Bytes stop; M *up; u64 rejected = 0, sought = 0; bool seeking() const { return mode == 1; } };
static bool g_bare;	// nothing of the monitor's own is allocated
static bool keep(const Pred &p, const Bytes &k) { return hash(k) % p.mod != p.rem; }
// mode 1: jumps to the next wanted key by itself; mode 2: gives up at the stop key
static mtbl_res filt(void *c, struct mtbl_iter *seek, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv, bool *match)
{
	Pred &p = *(Pred *) c; Bytes key((const char *) k, lk);
	VF_CHECK(p.up->count(key) && (*p.up)[key] == Bytes((const char *) v, lv), "stage:given", "the filter is given a pair its source does not hold: %s", hex(key).c_str());
	if (p.mode == 2 && key >= p.stop) { *match = false; return mtbl_res_failure; }
	*match = keep(p, key);
	if (!*match) {
		p.rejected++;
		if (p.mode == 1) {
			auto it = p.up->upper_bound(key); while (it != p.up->end() && !keep(p, it->first)) ++it;
			if (it == p.up->end()) { auto l = p.up->rbegin(); Bytes past = l->first + '\0'; p.sought++; return mtbl_iter_seek(seek, (const u8 *) past.data(), past.size()); }
			Bytes to = it->first; p.sought++; if (!g_bare) count("filter seeks"); return mtbl_iter_seek(seek, (const u8 *) to.data(), to.size());
		}
	}
	return mtbl_res_success;
}
static u64 g_joined;
static void join(void *c, const uint8_t *k, size_t lk, const uint8_t *a, size_t la, const uint8_t *b, size_t lb, uint8_t **o, size_t *lo)
{
	VF_CHECK(c == &g_joined, "stage:clos", "the merge function got another closure"); (void) k; (void) lk; g_joined++;
	*lo = la + lb + 1; *o = (u8 *) malloc(*lo); memcpy(*o, a, la); (*o)[la] = '|'; memcpy(*o + la + 1, b, lb);
}
struct Stage { int k; void *s; M out; Pred *p; M right; std::set<Bytes> gone; std::vector<const struct mtbl_source *> src; };
static void c_stage(Rng &g)
{
	bool big = g.chance(1, 40); g_longest = big ? g.range(4, 300) : 5; size_t most = big ? 500 : 40; if (big) count("large tables");
	unsigned alpha = (unsigned) g.range(2, 6); std::vector<struct mtbl_reader *> rd; std::vector<Stage> st; std::vector<Pred *> preds;
	struct Clean { std::vector<struct mtbl_reader *> &rd; std::vector<Stage> &st; std::vector<Pred *> &pr; ~Clean() { while (st.size()) { ws_destroy(st.back().k, &st.back().s); st.pop_back(); } for (auto &r : rd) mtbl_reader_destroy(&r); for (auto p : pr) delete p; } } clean{ rd, st, preds };
	auto table = [&](size_t n, M *m, const M *near) {
		for (size_t i = 0; i < n; i++) { Bytes k = rkey(g, alpha); if (near && near->size() && g.chance(2, 3)) { auto it = near->begin(); std::advance(it, (long) g.below(near->size())); k = it->first; } (*m)[k] = g.bytes(g.below(4)); }
		struct mtbl_reader *r = vf_mtbl_reader_mem(); for (auto &x : *m) vf_mtbl_reader_mem_add(r, (const u8 *) x.first.data(), x.first.size(), (const u8 *) x.second.data(), x.second.size());
		rd.push_back(r); return mtbl_reader_source(r);
	};
	M base; const struct mtbl_source *src = table(g.range(0, most), &base, nullptr); M cur = base;
	struct timespec far = { 4000000000L, 0 }; jmp_buf env; std::string desc; bool stops = false; M *before[8];
	unsigned n = (unsigned) g.range(1, 4); st.reserve(8);
	for (unsigned i = 0; i < n; i++) {
		Stage s{ (int) g.below(4), nullptr, {}, nullptr, {}, {}, {} };
		// the filter looks at the contents of its source, kept in the stage below (or base)
		before[i] = i ? &st[i - 1].out : &base;
		switch (s.k) {
		case 0: { const struct mtbl_source *r = table(g.range(0, most), &s.right, &cur); s.src.push_back(r); s.s = ws_ljoin(src, r, join, &g_joined); for (auto &x : cur) { auto it = s.right.find(x.first); s.out[x.first] = it == s.right.end() ? x.second : x.second + "|" + it->second; } desc += " join"; break; }
		case 1: { Pred *p = new Pred{ (unsigned) g.range(1, 4), 0, (unsigned) g.below(5), rkey(g, alpha), before[i] }; if (p->mode > 2) p->mode = 0; if (p->mod == 1 && g.flip()) p->mod = 2; preds.push_back(p); s.p = p; s.s = ws_filter(src, filt, p);
			for (auto &x : cur) { if (p->mode == 2 && x.first >= p->stop) { stops = true; break; } if (keep(*p, x.first)) s.out.insert(x); } desc += fmt(" filter%u", p->mode); break; }
		case 2: { std::vector<const struct mtbl_source *> rm; size_t nr = big && g.flip() ? g.below(50) : g.below(4); for (size_t j = 0; j < nr; j++) { M m; rm.push_back(table(g.range(0, 25), &m, &cur)); for (auto &x : m) s.gone.insert(x.first); } s.s = ws_remove(src, rm.data(), rm.size()); s.src = rm; for (auto &x : cur) if (!s.gone.count(x.first)) s.out.insert(x); desc += fmt(" remove%zu", nr); break; }
		default: s.s = ws_timeout(src, &far, &env); s.out = cur; desc += " timeout"; break;
		}
		cur = s.out; src = ws_source(s.k, s.s); st.push_back(s);
	}
	VF_CHECK(setjmp(env) == 0, "stage:timeout", "a deadline in the future ran out");
	long live = vf_mtbl_live_iters;
	for (int rep = 0; rep < 4; rep++) {
		int how = (int) g.below(4); Bytes lo = rkey(g, alpha), hi = rkey(g, alpha); if (base.size() && g.flip()) { auto it = base.begin(); std::advance(it, (long) g.below(base.size())); lo = it->first; } 
		if (how == 2) lo = lo.substr(0, g.below(3)); if (hi < lo) std::swap(lo, hi); if (how == 0) lo = "";
		auto in = [&](const Bytes &k) { return how == 0 ? true : how == 1 ? k == lo : how == 2 ? k.compare(0, lo.size(), lo) == 0 && k.size() >= lo.size() : k >= lo && k <= hi; };
		std::vector<std::pair<Bytes, Bytes>> want; for (auto &x : cur) if (in(x.first)) want.push_back(x);
		Exact el(lo), eh(hi); struct mtbl_iter *it = how == 0 ? mtbl_source_iter(src) : how == 1 ? mtbl_source_get(src, el.p, el.n) : how == 2 ? mtbl_source_get_prefix(src, el.p, el.n) : mtbl_source_get_range(src, el.p, el.n, eh.p, eh.n);
		struct CI { struct mtbl_iter *&it; ~CI() { mtbl_iter_destroy(&it); } } ci{ it };
		memset(el.p, 0xa5, el.n); memset(eh.p, 0x5a, eh.n);	// the bounds are the caller's again
		size_t pos = 0; bool seeks = g.flip(), ended = false; g_joined = 0; u64 steps = 0; std::string tr;
		long k0 = vf_mtbl_n_seek; u64 c0[4][4] = {}; for (unsigned i = 0; i < n; i++) if (st[i].k < 3) for (int c = 0; c < 4; c++) { bool ex; (void) ws_counter(st[i].k, st[i].s, c, &ex, &c0[i][c]); }
		for (auto p : preds) p->rejected = p->sought = 0;
		for (unsigned op = 0, ops = (unsigned) g.range(1, big ? 1000 : 90); op < ops; op++) {
			if (seeks && g.chance(1, 4)) {
				Bytes to = g.chance(1, 3) && want.size() ? want[g.below(want.size())].first : g.chance(1, 3) && base.size() ? base.begin()->first : rkey(g, alpha);
				if (to < lo) to = lo;
				Exact e(to); mtbl_res r = mtbl_iter_seek(it, e.p, e.n); memset(e.p, 0x77, e.n); tr += " seek " + hex(to); count("seeks");
				if (r != mtbl_res_success) { bool left = false; for (auto &x : want) left |= x.first >= to; VF_CHECK(!left || ended, "stage:seek", "%s: seek to %s failed with keys behind it", desc.c_str(), hex(to).c_str()); if (ended) break; continue; }
				pos = 0; while (pos < want.size() && want[pos].first < to) pos++; ended = false;
				continue;
			}
			if (ended) { if (!seeks) break; continue; }
			const u8 *k, *v; size_t lk, lv; mtbl_res r = mtbl_iter_next(it, &k, &lk, &v, &lv); steps++; tr += " next";
			if (r != mtbl_res_success) { VF_CHECK(pos == want.size(), "stage:lost", "%s how %d:%s: ends after %zu of %zu pairs, next is %s", desc.c_str(), how, tr.c_str(), pos, want.size(), hex(want[pos].first).c_str()); ended = true; continue; }
			Bytes gk((const char *) k, lk), gv((const char *) v, lv);
			VF_CHECK(pos < want.size(), "stage:extra", "%s how %d:%s: gives %s after the last pair", desc.c_str(), how, tr.c_str(), hex(gk).c_str());
			VF_CHECK(want[pos].first == gk, "stage:key", "%s how %d:%s: gives %s, not %s", desc.c_str(), how, tr.c_str(), hex(gk).c_str(), hex(want[pos].first).c_str());
			VF_CHECK(want[pos].second == gv, "stage:value", "%s how %d:%s: %s has value %s, not %s", desc.c_str(), how, tr.c_str(), hex(gk).c_str(), hex(gv).c_str(), hex(want[pos].second).c_str());
			pos++; count("pairs");
		}
		// a run from the start to the end without seeks: the counters say what happened
		if (!seeks && ended && !stops) {
			u64 sought = 0; bool jumps = false;
			for (unsigned i = 0; i < n; i++) if (st[i].k < 3) {
				u64 now[4] = {}; bool ex[4]; for (int c = 0; c < 4; c++) (void) ws_counter(st[i].k, st[i].s, c, &ex[c], &now[c]);
				bool plain = true; for (unsigned j = 0; j < n; j++) if (st[j].p && st[j].p->seeking()) plain = false;
				u64 exp = 0; for (auto &x : *before[i]) if (in(x.first)) exp += st[i].k == 0 ? st[i].right.count(x.first) : st[i].k == 1 ? !keep(*st[i].p, x.first) : st[i].gone.count(x.first);
				int cat = st[i].k == 0 ? DNSTABLE_STAT_CATEGORY_MERGED : DNSTABLE_STAT_CATEGORY_FILTERED;
				VF_CHECK(ex[cat], "stage:counter", "%s: stage %u has no counter %d", desc.c_str(), i, cat);
				if (plain) VF_CHECK(now[cat] - c0[i][cat] == exp, "stage:count", "%s how %d: stage %u counted %llu, not %llu", desc.c_str(), how, i, (unsigned long long) (now[cat] - c0[i][cat]), (unsigned long long) exp);
				count("counters compared");
				int sc = DNSTABLE_STAT_CATEGORY_SEEK; VF_CHECK(ex[sc], "stage:counter", "%s: stage %u has no seek counter", desc.c_str(), i);
				u64 sk = now[sc] - c0[i][sc]; sought += sk; if (st[i].p) { jumps |= st[i].p->sought != 0; VF_CHECK(sk == st[i].p->sought, "stage:seeks", "%s how %d: stage %u counted %llu seeks, %llu were made", desc.c_str(), how, i, (unsigned long long) sk, (unsigned long long) st[i].p->sought); }
			}
			// without a filter that jumps, the tables were sought only by the stages
			if (!jumps) VF_CHECK(sought == (u64) (vf_mtbl_n_seek - k0), "stage:seeks", "%s how %d: %llu seeks counted, %ld made", desc.c_str(), how, (unsigned long long) sought, vf_mtbl_n_seek - k0);
		}
		seen("nontrivial", hash(tr + desc, want.size() * 31 + (u64) how)); if (want.size() && seeks) count("seeking runs with pairs");
	}
	VF_CHECK(vf_mtbl_live_iters == live, "stage:leak", "%s: %ld iterators left", desc.c_str(), vf_mtbl_live_iters - live);
	// the same stack once more, with nothing allocated but by the stages and the tables
	g_bare = true;
	u8 tob[3][304]; size_t ton[3]; for (int i = 0; i < 3; i++) { Bytes k = rkey(g, alpha); ton[i] = k.size(); memcpy(tob[i], k.data(), k.size()); }
	for (int warm = 0; warm < 2; warm++) {
		size_t b0 = __sanitizer_get_current_allocated_bytes(); void *ss[8]; const struct mtbl_source *top = mtbl_reader_source(rd[0]); int k[8];
		for (unsigned i = 0; i < n; i++) {
			Stage &s = st[i]; k[i] = s.k;
			ss[i] = s.k == 0 ? ws_ljoin(top, s.src[0], join, &g_joined) : s.k == 1 ? ws_filter(top, filt, s.p) : s.k == 2 ? ws_remove(top, s.src.data(), s.src.size()) : ws_timeout(top, &far, &env);
			top = ws_source(s.k, ss[i]);
		}
		struct mtbl_iter *a = mtbl_source_iter(top), *b = mtbl_source_get_prefix(top, tob[0], ton[0] > 1 ? 1 : ton[0]), *c = mtbl_source_get_range(top, tob[0], ton[0], tob[1], ton[1]), *e = mtbl_source_get(top, tob[2], ton[2]);
		const u8 *p, *v; size_t lp, lv;
		while (mtbl_iter_next(a, &p, &lp, &v, &lv) == mtbl_res_success) { }
		(void) mtbl_iter_next(b, &p, &lp, &v, &lv);
		if (ton[2]) { (void) mtbl_iter_seek(a, tob[2], ton[2]); for (int i = 0; i < 3; i++) (void) mtbl_iter_next(a, &p, &lp, &v, &lv); }
		(void) mtbl_iter_next(c, &p, &lp, &v, &lv); (void) mtbl_iter_next(e, &p, &lp, &v, &lv);
		mtbl_iter_destroy(&b); mtbl_iter_destroy(&a); mtbl_iter_destroy(&e); mtbl_iter_destroy(&c);
		for (unsigned i = n; i-- > 0;) { ws_destroy(k[i], &ss[i]); VF_CHECK(ss[i] == nullptr, "stage:destroy", "%s: stage %u is still pointed to", desc.c_str(), i); ws_destroy(k[i], &ss[i]); }
		size_t b1 = __sanitizer_get_current_allocated_bytes();
		if (warm) VF_CHECK(b1 == b0, "stage:memory", "%s: %ld bytes remain", desc.c_str(), (long) (b1 - b0));
	}
	g_bare = false; count("stacks without remains");
	for (int k = 0; k < 3; k++) { bool ex = true; uint64_t u = 7; VF_CHECK(!ws_counter(k, nullptr, DNSTABLE_STAT_CATEGORY_SEEK, &ex, &u) && !ex, "stage:counter", "a stage that is not there has counters"); }
	for (unsigned i = 0; i < n; i++) if (st[i].k < 3) { bool ex = true; uint64_t u = 7; VF_CHECK(!ws_counter(st[i].k, st[i].s, 4 + (int) g.below(9), &ex, &u) && !ex, "stage:counter", "%s: stage %u has an unknown counter", desc.c_str(), i); }
	seen("pipelines", hash(desc)); sample(desc);
}
int main(int argc, char **argv) { return vf::main(argc, argv, { { "stage", c_stage } }); }
