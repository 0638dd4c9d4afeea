// Case runner shared by every harness: deterministic cases from (seed, index),
// violation reporting, counters and distinct-state sets for the evidence file.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>

namespace vf {
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef std::string Bytes;

inline u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
inline u64 hash(const void *p, size_t n, u64 h = 0xcbf29ce484222325ULL)
{ const u8 *b = (const u8 *) p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL; return h; }
inline u64 hash(const Bytes &s, u64 h = 0xcbf29ce484222325ULL) { return hash(s.data(), s.size(), h); }

struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(mix(seed)) {}
	u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	u64 range(u64 a, u64 b) { return a + below(b - a + 1); }	// inclusive
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	bool flip() { return next() >> 63; }
	Bytes bytes(size_t n) { Bytes r(n, 0); for (auto &c : r) c = (char) next(); return r; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	template <class T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
	// integers with a bias towards boundaries
	u64 edgy64() {
		switch (below(8)) {
		case 0: return below(4);
		case 1: return ~0ULL - below(3);
		case 2: return (1ULL << below(64)) - below(2);
		case 3: return (1ULL << (7 * below(10))) - below(2);
		case 4: return next() >> below(64);
		case 5: return 0x7fffffffULL + below(3);
		case 6: return 0xffffffffULL - 1 + below(3);
		default: return next();
		}
	}
};

struct Fail { };

extern u64 g_seed, g_case;
extern bool g_verbose;
extern bool g_thorough;
void report(const char *key, const char *fmt, va_list ap);
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));	// record without ending the case
#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf::fail(key, __VA_ARGS__); } while (0)

void count(const char *name, u64 n = 1);	// summed over workers
void maxi(const char *name, u64 n);		// maximum over workers
void seen(const char *set, u64 h);		// distinct values, united over workers
void sample(const std::string &s);		// a few samples for the evidence file
Bytes hex(const Bytes &b);
inline Bytes hex(const void *p, size_t n) { return hex(Bytes((const char *) p, n)); }
Bytes show(const Bytes &b);			// printable
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
// per-worker scratch directory (created on first use, removed at exit)
const std::string &scratch();
void rm_rf(const std::string &path);	// refuses anything outside scratch()

// exact-size heap block so that ASan sees any overrun
struct Exact {
	u8 *p; size_t n;
	explicit Exact(const Bytes &b) : p((u8 *) malloc(b.size() ? b.size() : 0)), n(b.size()) { if (n) memcpy(p, b.data(), n); }
	Exact(size_t n_, int fill) : p((u8 *) malloc(n_)), n(n_) { if (n) memset(p, fill, n); }
	~Exact() { free(p); }
	Exact(const Exact &) = delete; Exact &operator=(const Exact &) = delete;
	Bytes str() const { return Bytes((char *) p, n); }
};

// the same at an odd address
struct OddExact {
	u8 *p; size_t n;
	explicit OddExact(const Bytes &b) : p((u8 *) malloc(b.size() + 1) + 1), n(b.size()) { if (n) memcpy(p, b.data(), n); }
	~OddExact() { free(p - 1); }
	OddExact(const OddExact &) = delete; OddExact &operator=(const OddExact &) = delete;
	Bytes str() const { return Bytes((char *) p, n); }
};

struct Prop { const char *name; void (*run)(Rng &); };
int main(int argc, char **argv, const std::vector<Prop> &props);
}
