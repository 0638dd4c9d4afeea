// Containers of libmy against models from the C++ library.
#include "vf.h"
#include "my.h"
#include <cerrno>
#include <climits>
#include <list>
using namespace vf;

// ---------------------------------------------------------------- heap
struct Item { long key; long id; };
static u64 g_cmps;
static int hcmp(const void *a, const void *b) { g_cmps++; long x = ((const Item *) a)->key, y = ((const Item *) b)->key; return x < y ? -1 : x > y; }
static void t_heap(Rng &r)
{
	std::vector<Item *> all;
	std::multiset<std::pair<long, long>> m;		// what is inside
	std::map<long, Item *> byid;
	long next = 0, span = r.flip() ? 4 : r.flip() ? 30 : 100000;
	::heap *h = heap_init(hcmp);
	bool heaped = true;	// heap_add leaves the order open until heapify
	std::string tr;
	auto mk = [&] { Item *i = new Item{(long) r.below(span) - span / 2, next++}; all.push_back(i); byid[i->id] = i; return i; };
	struct Clean { ::heap *&h; std::vector<Item *> &a; ~Clean() { heap_destroy(&h); for (auto i : a) delete i; } } cl{h, all};
	unsigned ops = r.range(1, r.chance(1, 10) ? 400 : 60);
	auto took = [&](void *p, const char *what) {
		VF_CHECK(!m.empty() == (p != nullptr), "heap:empty", "%s gives %s with %zu elements after %s", what, p ? "an element" : "none", m.size(), tr.c_str());
		if (!p) return;
		Item *i = (Item *) p;
		auto it = m.find({i->key, i->id});
		VF_CHECK(it != m.end(), "heap:foreign", "%s gives an element that is not in the heap after %s", what, tr.c_str());
		VF_CHECK(i->key == m.begin()->first, "heap:order", "%s gives key %ld while %ld is smaller, after %s", what, i->key, m.begin()->first, tr.c_str());
	};
	if (r.chance(1, 2000)) { unsigned n = (unsigned) r.range(1000, 90000); span = r.flip() ? span : 1000000000; for (unsigned j = 0; j < n; j++) { Item *i = mk(); if (r.flip()) { heap_add(h, i); heaped = false; } else { if (!heaped) { if (m.size() > 64 && !r.chance(1, 50)) { heap_add(h, i); m.insert({i->key, i->id}); continue; } heap_heapify(h); heaped = true; } heap_push(h, i); } m.insert({i->key, i->id}); } count("large_heaps"); }
	for (unsigned k = 0; k < ops; k++) {
		unsigned op = r.below(16);
		if (tr.size() < 600) tr += fmt("%u ", op);
		if (op < 6) { if (!heaped) { heap_heapify(h); heaped = true; } Item *i = mk(); heap_push(h, i); m.insert({i->key, i->id}); }
		else if (op < 9) { if (!heaped) { heap_heapify(h); heaped = true; } void *p = heap_pop(h); took(p, "pop"); if (p) m.erase(m.find({((Item *) p)->key, ((Item *) p)->id})); count("pops"); }
		else if (op < 10) { if (heaped) { took(heap_peek(h), "peek"); } }
		else if (op < 12) { if (heaped) { Item *i = mk(); void *p = heap_replace(h, i); took(p, "replace"); if (p) { m.erase(m.find({((Item *) p)->key, ((Item *) p)->id})); m.insert({i->key, i->id}); } count("replaces"); } }
		else if (op < 14) { unsigned n = r.range(1, 12); for (unsigned j = 0; j < n; j++) { Item *i = mk(); heap_add(h, i); m.insert({i->key, i->id}); } heaped = false; if (r.flip()) { heap_heapify(h); heaped = true; } count("heapifies"); }
		else if (op == 14 && r.chance(1, 6)) { heap_reset(h); m.clear(); heaped = true; }
		else if (op == 15 && r.chance(1, 3)) {	// dropping the tail keeps the rest a heap
			size_t n = r.below(m.size() + 3);
			std::vector<Item *> gone;
			for (size_t j = n; j < m.size(); j++) gone.push_back((Item *) heap_get(h, j));
			heap_clip(h, n);
			for (auto g : gone) m.erase(m.find({g->key, g->id}));
		}
		VF_CHECK(heap_size(h) == m.size(), "heap:size", "size %zu, not %zu after %s", heap_size(h), m.size(), tr.c_str());
		// every index gives a distinct element that is inside; nothing beyond the end
		if (r.chance(1, m.size() > 2000 ? 40 : 4)) {
			std::set<void *> s;
			for (size_t j = 0; j < m.size(); j++) { Item *i = (Item *) heap_get(h, j); VF_CHECK(i && m.count({i->key, i->id}), "heap:get", "element %zu of %zu is foreign", j, m.size()); s.insert(i); }
			VF_CHECK(s.size() == m.size(), "heap:get:distinct", "%zu distinct elements of %zu", s.size(), m.size());
			VF_CHECK(heap_get(h, m.size() + r.below(5)) == nullptr, "heap:get:beyond", "an element beyond the %zu in the heap", m.size());
			count("index_scans");
		}
		maxi("size", m.size());
	}
	if (!heaped) heap_heapify(h);
	std::vector<std::pair<long, long>> out;
	while (heap_size(h)) { void *p = heap_pop(h); took(p, "drain"); m.erase(m.find({((Item *) p)->key, ((Item *) p)->id})); count("pops"); }
	VF_CHECK(m.empty() && heap_pop(h) == nullptr && heap_peek(h) == nullptr, "heap:lost", "%zu elements lost", m.size());
	seen("nontrivial", hash(tr) + next); count("comparisons", g_cmps); g_cmps = 0;
}

// ---------------------------------------------------------------- vectors and string buffers
static void t_vector(Rng &r)
{
	int k = r.below(3);
	size_t w = k == 0 ? 1 : k == 1 ? 4 : 12;
	void *v = wv_init(k, r.chance(1, 6) ? 0 : r.below(r.flip() ? 4 : 40)), *o = wv_init(k, r.below(4));
	Bytes m, mo;	// models: concatenated elements
	struct Clean { int k; void *&v, *&o; ~Clean() { wv_destroy(k, &v); wv_destroy(k, &o); } } cl{k, v, o};
	std::string tr;
	unsigned ops = r.range(1, 60);
	auto chk = [&](void *x, const Bytes &mm) {
		VF_CHECK(wv_size(k, x) == mm.size() / w, "vector:size", "%zu elements, not %zu after %s", wv_size(k, x), mm.size() / w, tr.c_str());
		VF_CHECK(wv_bytes(k, x) == mm.size(), "vector:bytes", "%zu bytes, not %zu", wv_bytes(k, x), mm.size());
		VF_CHECK(mm.empty() || !memcmp(wv_data(k, x), mm.data(), mm.size()), "vector:data", "contents differ after %s", tr.c_str());
		VF_CHECK((u8 *) wv_ptr(k, x) == (u8 *) wv_data(k, x) + mm.size(), "vector:ptr", "the end pointer is at %td, not %zu, after %s", (u8 *) wv_ptr(k, x) - (u8 *) wv_data(k, x), mm.size(), tr.c_str());
	};
	for (unsigned i = 0; i < ops; i++) {
		unsigned op = r.below(11);
		if (tr.size() < 400) tr += fmt("%u ", op);
		switch (op) {
		case 0: case 1: { Bytes e = r.bytes(w); wv_add(k, v, e.data()); m += e; break; }
		case 2: { Bytes e = r.bytes(w * r.range(1, r.chance(1, 3000) ? 90000 : r.chance(1, 8) ? 300 : 9)); Exact x(e); wv_append(k, v, x.p, e.size() / w); m += e; break; }
		case 3: { Bytes e = r.bytes(w); wv_add(k, o, e.data()); mo += e; break; }
		case 4: wv_extend(k, v, o); m += mo; break;
		case 5: { size_t n = r.below(m.size() / w + 4); wv_clip(k, v, n); if (n * w < m.size()) m.resize(n * w); break; }
		case 6: if (r.chance(1, 3)) { wv_reset(k, v); m.clear(); } break;
		case 7: {	// fill reserved space by hand, then claim it
			size_t n = r.range(1, r.chance(1, 3000) ? 90000 : r.chance(1, 8) ? 200 : 10); wv_reserve(k, v, n);
			Bytes e = r.bytes(w * n); memcpy(wv_ptr(k, v), e.data(), e.size()); wv_advance(k, v, n); m += e; break;
		}
		case 8: if (r.chance(1, 4)) { void *d = nullptr; size_t n = 0; wv_detach(k, v, &d, &n); bool same = n == m.size() / w && (m.empty() || !memcmp(d, m.data(), m.size())); free(d); VF_CHECK(same, "vector:detach", "detached contents differ after %s", tr.c_str()); m.clear(); count("detached"); } break;
		case 9: if (m.size()) { size_t j = r.below(m.size() / w); u8 e[12]; wv_value(k, v, j, e); VF_CHECK(!memcmp(e, m.data() + j * w, w), "vector:value", "element %zu differs", j); } break;
		case 10: std::swap(v, o); std::swap(m, mo); break;
		}
		chk(v, m); chk(o, mo);
		count("operations"); maxi("elements", m.size() / w);
	}
	seen("nontrivial", hash(tr) + k);
	// string buffers
	void *u = r.flip() ? wu_new() : nullptr;
	Bytes s;
	if (!u) { s = Bytes(r.below(80), 'd'); u = wu_dup_cstr(s.c_str()); }
	struct CleanU { void *&u; ~CleanU() { wv_destroy(0, &u); } } cu{u};
	bool term = false;
	for (unsigned i = 0, n = r.range(1, 12); i < n; i++) {
		switch (r.below(6)) {
		case 0: { Bytes t(r.below(r.chance(1, 2000) ? 90000 : r.chance(1, 6) ? 300 : 10), (char) ('a' + r.below(26))); wu_add_cstr(u, t.c_str()); s += t; term = false; break; }
		case 1: { Bytes a(r.below(90), 'x'), b(r.below(r.chance(1, 1000) ? 90000 : r.chance(1, 50) ? 9000 : r.chance(1, 6) ? 300 : 10), 'y'); long d = (long) r.edgy64(); wu_add_fmt(u, a.c_str(), d, b.c_str()); s += a + "|" + std::to_string(d) + "|" + b; term = false; count("formatted"); break; }
		case 2: wu_cterm(u); term = true; break;
		case 3: VF_CHECK(wu_cstr(u) == s, "vector:cstr", "string is '%s', not '%s'", wu_cstr(u), s.c_str()); term = true; break;
		case 4: if (!term) { char c = s.size() && r.flip() ? s.back() : 'q'; wu_rstrip(u, c); if (s.size() && s.back() == c) s.pop_back(); } break;
		case 5: if (!term) { Bytes t(r.below(r.chance(1, 6) ? 300 : 10), (char) ('A' + r.below(26))); Exact e(t); wu_pb_append(u, e.p, e.n); s += t; count("protobuf appends"); } break;
		}
		VF_CHECK(wv_size(0, u) == s.size() + term, "vector:ubuf", "%zu bytes for '%s'", wv_size(0, u), s.c_str());
	}
	VF_CHECK(wu_cstr(u) == s, "vector:ubuf:text", "string is '%s', not '%s'", wu_cstr(u), s.c_str());
}

// ---------------------------------------------------------------- linked lists
static void t_list(Rng &r)
{
	size_t n = r.range(1, 12);
	wl_list *w = wl_new(n);
	struct Clean { wl_list *w; ~Clean() { wl_free(w); } } cl{w};
	std::list<int> m[2];
	std::vector<int> where(n, -1);
	std::string tr;
	for (unsigned i = 0, ops = r.range(1, 80); i < ops; i++) {
		unsigned op = r.below(8), l = r.below(2); int a = r.below(n), b = -1;
		if (op == 2 || op == 7) { if (where[a] < 0) continue; l = where[a]; m[l].remove(a); wl_op(w, op, l, a, -1); where[a] = -1; }
		else if (op == 5) { if (!r.chance(1, 3)) continue; wl_op(w, 5, l, -1, -1); for (int x : m[1 - l]) where[x] = l; m[l].splice(m[l].end(), m[1 - l]); }
		else {
			if (where[a] >= 0) continue;
			if (op == 3 || op == 4) {
				if (m[l].empty()) continue;
				auto it = m[l].begin(); std::advance(it, r.below(m[l].size())); b = *it;
				wl_op(w, op, l, a, b); if (op == 4) ++it; m[l].insert(it, a);
			} else { wl_op(w, op, l, a, -1); if (op == 0) m[l].push_front(a); else m[l].push_back(a); }
			where[a] = l;
		}
		if (tr.size() < 500) tr += fmt("%u:%u:%d:%d ", op, l, a, b);
		for (int q = 0; q < 2; q++) {
			int ids[64]; std::vector<int> f(m[q].begin(), m[q].end()), bk(m[q].rbegin(), m[q].rend());
			int k = wl_walk(w, q, 0, ids, 64);
			VF_CHECK(std::vector<int>(ids, ids + k) == f, "list:forward", "list %d differs from the model after %s", q, tr.c_str());
			k = wl_walk(w, q, 1, ids, 64);
			VF_CHECK(std::vector<int>(ids, ids + k) == bk, "list:backward", "list %d backwards differs from the model after %s", q, tr.c_str());
			VF_CHECK(!!wl_empty(w, q) == m[q].empty(), "list:empty", "list %d emptiness after %s", q, tr.c_str());
			u64 h = q; for (int x : f) h = h * 31 + x + 1; seen("states", h);
		}
		for (size_t x = 0; x < n; x++) VF_CHECK(!!wl_linked(w, x) == (where[x] >= 0), "list:linked", "node %zu after %s", x, tr.c_str());
		count("operations");
	}
	if (tr.size()) seen("nontrivial", hash(tr));
}

// ---------------------------------------------------------------- ordered trees
static void t_tree(Rng &r)
{
	int kind = g_case % 2;
	wt_tree *t = wt_new(kind);
	struct Clean { wt_tree *t; ~Clean() { wt_free(t); } } cl{t};
	std::map<long, long> m;
	std::string tr;
	long span = r.flip() ? 12 : r.flip() ? 64 : 5000;
	unsigned ops = r.range(1, r.chance(1, 6) ? 600 : 120); bool huge = r.chance(1, 1500); if (huge) { ops = (unsigned) r.range(5000, 12000); span = 100000; count("large_trees"); }
	unsigned mode = r.below(4), delw = r.range(1, 6);
	long seq = 0;
	for (unsigned i = 0; i < ops; i++) {
		long key = mode == 0 ? seq++ % span : mode == 1 ? span - seq++ % span : (long) r.below(span);
		unsigned op = r.below(8);
		if (tr.size() < 600) tr += fmt("%u:%ld ", op, key);
		if (op >= 8 - delw && m.size() && r.flip()) { auto it = m.lower_bound(key); if (it == m.end()) it = m.begin(); key = it->first; }
		if (op < 8 - delw) {
			long had = wt_insert(t, key, i);
			auto it = m.find(key);
			VF_CHECK(had == (it == m.end() ? -1 : it->second), "tree:insert", "inserting %ld gives %ld after %s", key, had, tr.c_str());
			if (it == m.end()) m[key] = i;
		} else {
			long id = wt_remove(t, key);
			auto it = m.find(key);
			VF_CHECK(id == (it == m.end() ? -1 : it->second), "tree:remove", "removing %ld gives %ld after %s", key, id, tr.c_str());
			if (it != m.end()) { m.erase(it); count("removed"); }
		}
		int c = huge && !r.chance(1, 200) ? 0 : wt_check(t);
		VF_CHECK(c == 0, "tree:balance", "red-black rule %d broken after %s", c, tr.c_str());
		long probe = (long) r.below(span + 2) - 1;
		auto it = m.find(probe);
		VF_CHECK(wt_find(t, probe) == (it == m.end() ? -1 : it->second), "tree:find", "looking for %ld after %s", probe, tr.c_str());
		if (kind == 0) {
			long ko = -7, id = wt_nfind(t, probe, &ko); auto lb = m.lower_bound(probe);
			VF_CHECK(lb == m.end() ? id == -1 : id == lb->second && ko == lb->first, "tree:nfind", "first at or after %ld is %ld after %s", probe, ko, tr.c_str());
		}
		if (r.chance(1, huge ? 1000 : 4) || i + 1 == ops) {
			std::vector<long> want, keys(m.size() + 8);
			for (auto &p : m) want.push_back(p.first);
			int n = wt_walk(t, 0, keys.data(), keys.size());
			VF_CHECK(std::vector<long>(keys.begin(), keys.begin() + n) == want, "tree:walk", "in-order walk differs (%d of %zu) after %s", n, want.size(), tr.c_str());
			if (kind == 0) {
				std::reverse(want.begin(), want.end());
				n = wt_walk(t, 1, keys.data(), keys.size());
				VF_CHECK(std::vector<long>(keys.begin(), keys.begin() + n) == want, "tree:walkback", "reverse walk differs after %s", tr.c_str());
			}
			long mn = 0, mx = 0; int e = wt_minmax(t, &mn, &mx);
			VF_CHECK(m.empty() ? e == 0 : e == 1 && mn == m.begin()->first && mx == m.rbegin()->first, "tree:minmax", "extremes %ld %ld after %s", mn, mx, tr.c_str());
			if (m.size()) {
				auto q = m.lower_bound(probe); if (q == m.end()) q = m.begin();
				long o = 0; int s = wt_step(t, q->first, 0, &o); auto nx = std::next(q);
				VF_CHECK(nx == m.end() ? s == 0 : s == 1 && o == nx->first, "tree:next", "successor of %ld after %s", q->first, tr.c_str());
				if (kind == 0) { s = wt_step(t, q->first, 1, &o); VF_CHECK(q == m.begin() ? s == 0 : s == 1 && o == std::prev(q)->first, "tree:prev", "predecessor of %ld after %s", q->first, tr.c_str()); }
			}
			count("walks");
		}
		count(kind ? "splay_ops" : "rb_ops"); maxi("size", m.size());
	}
	seen("nontrivial", hash(tr) * 2 + kind);
}

int main(int argc, char **argv)
{
	return vf::main(argc, argv, { {"heap", t_heap}, {"vector", t_vector}, {"list", t_list}, {"tree", t_tree} });
}
