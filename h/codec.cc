// Encodings and arithmetic of libmy against independent reference implementations.
#include "vf.h"
#include "my.h"
#include <arpa/inet.h>
#include <cctype>
#include <cmath>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace vf;

// ---------------------------------------------------------------- crc32c
static u32 ref_crc(const Bytes &b)
{
	u32 c = ~0u;
	for (u8 x : b) { c ^= x; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82f63b78u & -(c & 1)); }
	return ~c;
}
static Bytes gen_bytes(Rng &r, size_t n)
{
	switch (r.below(6)) {
	case 0: return Bytes(n, 0);
	case 1: return Bytes(n, (char) 0xff);
	case 2: { Bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char) i; return b; }
	case 3: { Bytes b(n, 0); if (n) b[r.below(n)] = (char) (1 << r.below(8)); return b; }
	case 4: { Bytes b(n, (char) 0xff); for (auto &c : b) if (r.chance(1, 4)) c = (char) (0x80 | r.below(128)); return b; }
	default: return r.bytes(n);
	}
}
static void crc32c(Rng &r)
{
	// every length up to 300 is met in turn; longer ones at random
	size_t n = g_case % 2 ? (g_case / 2) % 300 : r.chance(1, 200) ? r.range(60000, r.chance(1, 10) ? 1100000 : 280000) : r.below(r.chance(1, 20) ? 20000 : 4000);
	size_t off = r.below(16);
	Bytes b = gen_bytes(r, n);
	Exact e(b.size() + off, 0x5a);		// the data ends where the block ends
	memcpy(e.p + off, b.data(), n);
	u32 want = ref_crc(b);
	struct { const char *n; my_crc32c_fp f; } im[] = { {"slicing", my_crc32c_slicing}, {"default", my_crc32c},
		{"sse42", my_crc32c_sse42_supported() ? my_crc32c_sse42 : nullptr} };
	for (auto &i : im) if (i.f) {
		u32 got = i.f(e.p + off, n);
		VF_CHECK(got == want, (std::string("crc32c:") + i.n).c_str(), "%s(len %zu, offset %zu, %s...) = %08x, polynomial gives %08x", i.n, n, off, hex(b.substr(0, 24)).c_str(), got, want);
		count(i.n);
	}
	if (n) seen("nontrivial", hash(b) + off);
	seen("lengths", n); seen("alignments", (uintptr_t) (e.p + off) & 15);
}

// ---------------------------------------------------------------- base32 (extended hex, RFC 4648)
static Bytes ref_b32(const Bytes &b)
{
	static const char *A = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
	Bytes r; u32 acc = 0; int bits = 0;
	for (u8 c : b) { acc = (acc << 8) | c; bits += 8; while (bits >= 5) { bits -= 5; r += A[(acc >> bits) & 31]; } acc &= (1u << bits) - 1; }
	if (bits) r += A[(acc << (5 - bits)) & 31];
	return r;
}
static void base32(Rng &r)
{
	size_t n = g_case % 3 ? r.below(60) : g_case / 3 % 40; if (r.chance(1, 1000)) n = r.range(300, r.flip() ? 5000 : 140000);
	Bytes b = gen_bytes(r, n), want = ref_b32(b);
	Exact src(b);
	if (n > 0) {	// the encoder emits one all-zero group for no input at all
		Exact dst(want.size() + (r.flip() ? r.below(9) : 0), 0x5a);
		size_t got = base32_encode((char *) dst.p, dst.n, src.p, src.n);
		VF_CHECK(got == want.size(), "b32:encode:length", "encoding %zu bytes into %zu gives %zu characters, not %zu", n, dst.n, got, want.size());
		VF_CHECK(!memcmp(dst.p, want.data(), got), "b32:encode:text", "encoding %s gives %s, not %s", hex(b).c_str(), Bytes((char *) dst.p, got).c_str(), want.c_str());
		for (size_t i = got; i < dst.n; i++) VF_CHECK(dst.p[i] == 0x5a, "b32:encode:beyond", "wrote beyond the %zu characters it reports", got);
		size_t room = r.below(want.size() + 1);
		if (room) {
			Exact small(room, 0x5a);
			got = base32_encode((char *) small.p, small.n, src.p, src.n);
			VF_CHECK(got == room && !memcmp(small.p, want.data(), room), "b32:encode:truncated", "a destination of %zu gets %zu characters", room, got);
			count("truncated_encodes");
		}
		seen("nontrivial", hash(b));
	}
	// decoding: either letter case, with or without trailing padding
	Bytes t = want;
	for (auto &c : t) if (r.flip()) c = (char) tolower(c);
	if (r.chance(1, 4)) while (t.size() % 8) t += '=';
	if (n) {
		Exact in(t), out(n, 0x5a);
		size_t got = base32_decode(out.p, out.n, (char *) in.p, in.n);
		VF_CHECK(got == n && !memcmp(out.p, b.data(), n), "b32:decode:roundtrip", "decoding %s into %zu bytes gives %zu: %s, not %s", t.c_str(), n, got, hex(out.p, n).c_str(), hex(b).c_str());
		count("decodes");
		// room to spare gets nothing but zero bytes: no data is made up
		Exact wide(n + r.range(1, 9), 0x5a);
		got = base32_decode(wide.p, wide.n, (char *) in.p, in.n);
		VF_CHECK(got >= n && got <= wide.n && !memcmp(wide.p, b.data(), n), "b32:decode:roundtrip", "decoding %s into %zu bytes gives %zu", t.c_str(), wide.n, got);
		for (size_t i = n; i < got; i++) VF_CHECK(wide.p[i] == 0, "b32:decode:invented", "decoding %s into %zu bytes gives %s, which is not in the text", t.c_str(), wide.n, hex(wide.p + n, got - n).c_str());
		size_t room = r.range(1, n);
		Exact small(room, 0x5a);
		got = base32_decode(small.p, small.n, (char *) in.p, in.n);
		VF_CHECK(got == room && !memcmp(small.p, b.data(), room), "b32:decode:truncated", "a destination of %zu gets %zu bytes", room, got);
	}
	// a character outside the alphabet before the destination is full is refused
	if (t.size() >= 2 && n >= 2) {
		Bytes bad = want;
		size_t at = r.below((n - 1) * 8 / 5 / 8 * 8 + 1);	// inside what must be read
		if (at >= bad.size()) at = 0;
		u8 c; do c = (u8) r.next(); while (isdigit(c) || (c >= 'A' && c <= 'V') || (c >= 'a' && c <= 'v') || c == '=');
		bad[at] = (char) c;
		Exact in(bad), out(n, 0x5a);
		size_t got = base32_decode(out.p, out.n, (char *) in.p, in.n);
		VF_CHECK(got == (size_t) -1, "b32:decode:accepts", "character 0x%02x at %zu accepted (returned %zu)", c, at, got);
		count("refused"); seen("bad_characters", c);
	}
	// arbitrary text never writes outside the destination
	Bytes junk = r.bytes(r.below(40));
	if (r.flip()) for (auto &c : junk) c = "0123456789abcdefghijklmnopqrstuvV=="[r.below(35)];
	Exact in(junk), out(r.range(1, 30), 0x5a);
	size_t got = base32_decode(out.p, out.n, (char *) in.p, in.n);
	VF_CHECK(got == (size_t) -1 || got <= out.n, "b32:decode:count", "reports %zu bytes in a destination of %zu", got, out.n);
}

// ---------------------------------------------------------------- base64, fed in pieces
static Bytes ref_b64(const Bytes &b)
{
	static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	Bytes r;
	for (size_t i = 0; i < b.size(); i += 3) {
		u32 v = (u8) b[i] << 16 | (i + 1 < b.size() ? (u8) b[i + 1] << 8 : 0) | (i + 2 < b.size() ? (u8) b[i + 2] : 0);
		r += A[v >> 18]; r += A[(v >> 12) & 63]; r += i + 1 < b.size() ? A[(v >> 6) & 63] : '='; r += i + 2 < b.size() ? A[v & 63] : '=';
	}
	return r;
}
static std::vector<Bytes> pieces(Rng &r, const Bytes &b)
{
	std::vector<Bytes> p;
	unsigned k = r.below(5);
	for (size_t i = 0; i < b.size();) { size_t n = k == 0 ? 1 : k == 1 ? b.size() : r.below(k == 2 ? 4 : 9); n = std::min(n, b.size() - i); p.push_back(b.substr(i, n)); i += n; }
	return p;
}
static void base64(Rng &r)
{
	size_t n = g_case % 3 ? r.below(80) : g_case / 3 % 50; if (r.chance(1, 1000)) n = r.range(300, r.flip() ? 5000 : 100000);
	Bytes b = gen_bytes(r, n), want = ref_b64(b), got;
	base64_encodestate es;
	base64_init_encodestate(&es);
	for (auto &p : pieces(r, b)) {
		Exact in(p), out((p.size() + 2) / 3 * 4 + 4, 0x5a);
		int k = base64_encode_block((char *) in.p, (int) in.n, (char *) out.p, &es);
		VF_CHECK(k >= 0 && (size_t) k <= out.n, "b64:encode:count", "reports %d characters", k);
		got += Bytes((char *) out.p, k);
		seen("encode_states", es.step);
	}
	{ Exact out(4, 0x5a); int k = base64_encode_blockend((char *) out.p, &es); VF_CHECK(k >= 0 && k <= 4, "b64:encode:end", "reports %d", k); got += Bytes((char *) out.p, k); }
	VF_CHECK(got == want, "b64:encode:text", "encoding %s in pieces gives %s, not %s", hex(b).c_str(), got.c_str(), want.c_str());
	if (n) seen("nontrivial", hash(b));
	// decode with line breaks and other foreign characters in between, in other pieces
	Bytes t;
	bool noise = r.flip();
	for (char c : want) {
		while (noise && r.chance(1, 6)) { u8 x; do x = (u8) r.next(); while (isalnum(x) || x == '+' || x == '/' || x == '='); t += (char) x; seen("noise_characters", x); }
		t += c;
	}
	base64_decodestate ds;
	base64_init_decodestate(&ds);
	Bytes back;
	for (auto &p : pieces(r, t)) {
		Exact in(p), out(p.size() + 1, 0x5a);
		int k = base64_decode_block((char *) in.p, (int) in.n, (char *) out.p, &ds);
		VF_CHECK(k >= 0 && (size_t) k < out.n + 1, "b64:decode:count", "reports %d bytes from %zu characters", k, p.size());
		back += Bytes((char *) out.p, k);
		seen("decode_states", ds.step);
	}
	VF_CHECK(back == b, "b64:decode:roundtrip", "decoding %s gives %s, not %s", show(t).c_str(), hex(back).c_str(), hex(b).c_str());
	u8 c = (u8) g_case;
	const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", *at = c ? strchr(A, c) : nullptr;
	int v = base64_decode_value((char) c);
	VF_CHECK(at ? v == at - A : v < 0, "b64:value", "character 0x%02x has value %d", c, v);
	seen("characters", c);
}

// ---------------------------------------------------------------- varint
static Bytes ref_varint(u64 v) { Bytes r; while (v >= 128) { r += (char) (v | 128); v >>= 7; } return r + (char) v; }
static void varint(Rng &r)
{
	u64 v = r.edgy64();
	Bytes want = ref_varint(v);
	VF_CHECK(varint_length(v) == want.size(), "varint:length", "%llu needs %zu bytes, reported %u", (unsigned long long) v, want.size(), varint_length(v));
	{
		Exact o(want.size(), 0);
		size_t n = varint_encode64(o.p, v);
		VF_CHECK(n == want.size() && o.str() == want, "varint:encode64", "%llu encodes to %s (%zu)", (unsigned long long) v, hex(o.str()).c_str(), n);
		u64 back = 0x5a5a;
		n = varint_decode64(o.p, &back);
		VF_CHECK(n == want.size() && back == v, "varint:decode64", "%s decodes to %llu in %zu bytes, not %llu", hex(want).c_str(), (unsigned long long) back, n, (unsigned long long) v);
	}
	u32 w = (u32) (r.flip() ? v : r.edgy64());
	Bytes want32 = ref_varint(w);
	{
		Exact o(want32.size(), 0);
		size_t n = varint_encode32(o.p, w);
		VF_CHECK(n == want32.size() && o.str() == want32, "varint:encode32", "%u encodes to %s (%zu)", w, hex(o.str()).c_str(), n);
		u32 back = 0x5a5a;
		n = varint_decode32(o.p, &back);
		VF_CHECK(n == want32.size() && back == w, "varint:decode32", "%s decodes to %u in %zu bytes, not %u", hex(want32).c_str(), back, n, w);
	}
	seen("nontrivial", v); seen("lengths", want.size()); seen("lengths32", want32.size());
	// length of a packed number at the front of a buffer; 0 when it does not end inside it
	Bytes buf = r.bytes(r.below(13));
	if (r.flip()) for (auto &c : buf) c |= (char) 0x80;
	if (buf.size() && r.flip()) buf[r.below(buf.size())] &= 0x7f;
	Exact e(buf);
	unsigned k = varint_length_packed(e.p, e.n), wk = 0;
	for (size_t i = 0; i < buf.size(); i++) if (!((u8) buf[i] & 0x80)) { wk = i + 1; break; }
	VF_CHECK(k == wk, "varint:packed", "length in %s is %u, not %u", hex(buf).c_str(), k, wk);
	seen("packed", k);
	// numbers longer than they can be are reported as undecodable, from exactly the bytes allowed
	Exact ten(Bytes(10, (char) (0x80 | r.below(128))));
	u64 o64; u32 o32;
	VF_CHECK(varint_decode64(ten.p, &o64) == 0, "varint:unterminated64", "an unterminated number is accepted");
	Exact five(Bytes(5, (char) (0x80 | r.below(128))));
	VF_CHECK(varint_decode32(five.p, &o32) == 0, "varint:unterminated32", "an unterminated number is accepted");
}

// ---------------------------------------------------------------- hexadecimal and decimal text
static void text(Rng &r)
{
	auto nib = [](bool upper, unsigned v) { const char *t = upper ? "0123456789ABCDEF" : "0123456789abcdef"; return t[v]; };	// (a ? b : c)[i] is miscompiled by g++ 13 with UBSan
	Bytes b = gen_bytes(r, r.chance(1, 1000) ? r.below(r.flip() ? 3000 : 80000) : r.below(40));
	bool up = r.flip();
	Bytes want;
	for (u8 c : b) { want += nib(up, c >> 4); want += nib(up, c & 15); }
	{
		size_t sz = r.flip() ? want.size() + 1 : r.range(1, want.size() + 4);
		Exact in(b), out(sz, 0x5a);
		size_t n = my_bytes_to_hex_str(in.p, in.n, up, (char *) out.p, out.n);
		size_t fit = std::min(want.size(), (sz - 1) / 2 * 2);
		VF_CHECK(n == fit && !memcmp(out.p, want.data(), fit) && out.p[fit] == 0, "text:hex", "%s in a buffer of %zu gives %zu characters: %s", hex(b).c_str(), sz, n, show(out.str()).c_str());
		count("hex"); if (fit < want.size()) count("hex_truncated");
	}
	{
		u16 v = (u16) r.edgy64();
		char w[8]; snprintf(w, 8, up ? "%04X" : "%04x", v);
		Exact out(5 + r.below(3), 0x5a);
		size_t n = my_uint16_to_hex_str(v, up, (char *) out.p, out.n);
		VF_CHECK(n == 4 && !strcmp((char *) out.p, w), "text:hex16", "%u gives %s", v, show(out.str()).c_str());
	}
	{
		u64 v = r.edgy64();
		char w[32]; snprintf(w, 32, "%llu", (unsigned long long) v);
		size_t wl = strlen(w), sz = r.range(wl + 1, 24);
		Exact out(sz, '#');
		const char *st = nullptr;
		size_t n = my_uint64_to_str(v, (char *) out.p, out.n, r.chance(1, 8) ? nullptr : &st);
		VF_CHECK(n == wl && out.p[sz - 1] == 0 && !memcmp(out.p + sz - 1 - wl, w, wl), "text:decimal", "%s in a buffer of %zu gives %zu digits: %s", w, sz, n, show(out.str()).c_str());
		VF_CHECK(!st || st == (char *) out.p + sz - 1 - wl, "text:decimal:start", "%s: start is at %td", w, st - (char *) out.p);
		seen("digits", wl); seen("nontrivial", v);
		// a small buffer keeps the low digits
		size_t small = r.range(2, wl + 1);
		Exact o2(small, '#');
		n = my_uint64_to_str(v, (char *) o2.p, o2.n, &st);
		VF_CHECK(n == std::min(wl, small - 1) && !strcmp(st, w + wl - n), "text:decimal:small", "%s in a buffer of %zu gives %s", w, small, st);
	}
	{
		Bytes t;
		for (u8 c : b) { t += nib(r.flip(), c >> 4); t += nib(r.flip(), c & 15); }
		bool bad = false;
		if (r.chance(1, 3) && t.size()) {
			size_t at = r.below(t.size()); u8 c; do c = (u8) r.range(1, 255); while (isxdigit(c) && c < 128);
			t[at] = (char) c; bad = true; seen("bad_characters", c);
		} else if (r.chance(1, 5)) { t += "0"; bad = true; }
		if (t.empty()) bad = true;
		Exact in(t + '\0');
		u8 *raw = nullptr; size_t len = 777;
		bool ok = w_hex_decode((char *) in.p, &raw, &len);
		VF_CHECK(ok == !bad, "text:unhex:accept", "%s is %s", show(t).c_str(), ok ? "accepted" : "refused");
		if (ok) { bool same = len == b.size() && !memcmp(raw, b.data(), len); free(raw); VF_CHECK(same, "text:unhex", "%s decodes wrong", t.c_str()); count("unhex"); }
		else { VF_CHECK(raw == nullptr, "text:unhex:dangling", "refused, but the result pointer is left set"); count("unhex_refused"); }
	}
}

// ---------------------------------------------------------------- address arithmetic
static void ip(Rng &r)
{
	for (int fam = 4; fam <= 6; fam += 2) {
		size_t n = fam == 4 ? 4 : 16;
		unsigned bits = n * 8, plen = fam == 4 ? g_case % 33 : g_case % 129;
		Bytes a = gen_bytes(r, n), lo = a, hi = a;
		for (unsigned i = plen; i < bits; i++) { lo[i / 8] &= (char) ~(0x80 >> (i % 8)); hi[i / 8] |= (char) (0x80 >> (i % 8)); }
		Exact in(a), ol(n, 0x5a), oh(n, 0x5a);
		(fam == 4 ? w_ip4_lower : w_ip6_lower)(in.p, plen, ol.p);
		(fam == 4 ? w_ip4_upper : w_ip6_upper)(in.p, plen, oh.p);
		VF_CHECK(ol.str() == lo, fam == 4 ? "ip:lower4" : "ip:lower6", "lowest address of %s/%u is %s, not %s", hex(a).c_str(), plen, hex(ol.str()).c_str(), hex(lo).c_str());
		VF_CHECK(oh.str() == hi, fam == 4 ? "ip:upper4" : "ip:upper6", "highest address of %s/%u is %s, not %s", hex(a).c_str(), plen, hex(oh.str()).c_str(), hex(hi).c_str());
		VF_CHECK(in.str() == a, "ip:input", "the address given was changed");
		Bytes inc = a;
		if (r.flip()) { size_t k = r.below(n); for (size_t i = k; i < n; i++) a[i] = (char) 0xff; inc = a; }
		for (size_t i = n; i-- > 0;) { inc[i] = (char) (inc[i] + 1); if (inc[i]) break; }
		Exact x(a);
		(fam == 4 ? w_ip4_incr : w_ip6_incr)(x.p);
		VF_CHECK(x.str() == inc, fam == 4 ? "ip:incr4" : "ip:incr6", "%s + 1 is %s, not %s", hex(a).c_str(), hex(x.str()).c_str(), hex(inc).c_str());
		seen(fam == 4 ? "plen4" : "plen6", plen); seen("nontrivial", hash(a) * 131 + plen);
	}
}

// ---------------------------------------------------------------- lookup3
#define ROT(x, k) (((x) << (k)) | ((x) >> (32 - (k))))
static void l3mix(u32 &a, u32 &b, u32 &c)
{
	a -= c; a ^= ROT(c, 4); c += b; b -= a; b ^= ROT(a, 6); a += c; c -= b; c ^= ROT(b, 8); b += a;
	a -= c; a ^= ROT(c, 16); c += b; b -= a; b ^= ROT(a, 19); a += c; c -= b; c ^= ROT(b, 4); b += a;
}
static void l3final(u32 &a, u32 &b, u32 &c)
{
	c ^= b; c -= ROT(b, 14); a ^= c; a -= ROT(c, 11); b ^= a; b -= ROT(a, 25); c ^= b; c -= ROT(b, 16);
	a ^= c; a -= ROT(c, 4); b ^= a; b -= ROT(a, 14); c ^= b; c -= ROT(b, 24);
}
// byte-at-a-time definition
static void ref_l3(const Bytes &k, u32 &pc, u32 &pb, bool two, bool big)
{
	u32 a, b, c; a = b = c = 0xdeadbeef + (u32) k.size() + pc; if (two) c += pb;
	size_t n = k.size(), i = 0;
	auto w = [&](size_t o, size_t lim) { u32 v = 0; for (size_t j = 0; j < 4; j++) if (o + j < lim) v |= (u32) (u8) k[o + j] << (big ? 24 - 8 * j : 8 * j); return v; };
	while (n - i > 12) { a += w(i, n); b += w(i + 4, n); c += w(i + 8, n); l3mix(a, b, c); i += 12; }
	if (n - i == 0) { pc = c; pb = b; return; }
	a += w(i, n); b += w(i + 4, n); c += w(i + 8, n);
	l3final(a, b, c);
	pc = c; pb = b;
}
extern "C" { u32 vg_hashlittle(const void *, size_t, u32); void vg_hashlittle2(const void *, size_t, u32 *, u32 *); }
static void lookup3(Rng &r)
{
	size_t n = g_case % 2 ? g_case / 2 % 64 : r.chance(1, 300) ? r.range(300, r.flip() ? 5000 : 140000) : r.below(300);
	Bytes b = gen_bytes(r, n);
	u32 iv = (u32) r.edgy64(), iv2 = (u32) r.next();
	u32 c = iv, d = 0; ref_l3(b, c, d, false, false);
	u32 cb = iv, db = 0; ref_l3(b, cb, db, false, true);
	u32 c2 = iv, d2 = iv2; ref_l3(b, c2, d2, true, false);
	for (int off = 0; off < 4; off++) {
		// word-wise code may read the rest of the last aligned word, nothing further
		size_t cap = (n + off + 3) & ~(size_t) 3;
		Exact e(cap, 0);
		for (size_t i = 0; i < cap; i++) e.p[i] = (u8) r.next();
		memcpy(e.p + off, b.data(), n);
		u32 h = my_hashlittle(e.p + off, n, iv);
		VF_CHECK(h == c, "lookup3:little", "hash of %zu bytes at offset %d is %08x, not %08x", n, off, h, c);
		h = my_hashbig(e.p + off, n, iv);
		VF_CHECK(h == cb, "lookup3:big", "big-endian hash of %zu bytes at offset %d is %08x, not %08x", n, off, h, cb);
		u32 x = iv, y = iv2;
		my_hashlittle2(e.p + off, n, &x, &y);
		VF_CHECK(x == c2 && y == d2, "lookup3:little2", "pair of %zu bytes at offset %d is %08x %08x, not %08x %08x", n, off, x, y, c2, d2);
		// the strict build ends with the input
		Exact ve(n + off, 0); memcpy(ve.p + off, b.data(), n);
		h = vg_hashlittle(ve.p + off, n, iv);
		VF_CHECK(h == c, "lookup3:strict", "strict hash of %zu bytes at offset %d is %08x, not %08x", n, off, h, c);
		x = iv; y = iv2; vg_hashlittle2(ve.p + off, n, &x, &y);
		VF_CHECK(x == c2 && y == d2, "lookup3:strict2", "strict pair of %zu bytes at offset %d is %08x %08x, not %08x %08x", n, off, x, y, c2, d2);
		count("hashes", 5);
	}
	size_t nw = n / 4;
	Bytes wb = b.substr(0, nw * 4);
	Exact e(wb);
	// the word variant counts its length in words
	u32 a, bb, cc; a = bb = cc = 0xdeadbeef + ((u32) nw << 2) + iv;
	size_t k = 0; const u32 *w = (const u32 *) e.p;
	size_t left = nw;
	while (left > 3) { a += w[k]; bb += w[k + 1]; cc += w[k + 2]; l3mix(a, bb, cc); left -= 3; k += 3; }
	if (left) { if (left > 2) cc += w[k + 2]; if (left > 1) bb += w[k + 1]; a += w[k]; l3final(a, bb, cc); }
	u32 h = my_hashword(w, nw, iv);
	VF_CHECK(h == cc, "lookup3:word", "hash of %zu words is %08x, not %08x", nw, h, cc);
	u32 x = iv, y = 0;
	my_hashword2(w, nw, &x, &y);
	VF_CHECK(x == cc && y == bb, "lookup3:word2", "pair of %zu words is %08x %08x, not %08x %08x", nw, x, y, cc, bb);
	if (n) seen("nontrivial", hash(b) + iv);
	seen("lengths", n);
}

// ---------------------------------------------------------------- strings, time, numbers from the environment
static Bytes rnd_str(Rng &r, size_t max, const char *alpha)
{
	Bytes s; size_t n = r.below(max + 1), k = strlen(alpha);
	for (size_t i = 0; i < n; i++) s += alpha[r.below(k)];
	return s;
}
// reads and sleeps that are interrupted now and then; sleeping only moves a virtual clock
static unsigned g_intr; static Rng *g_iv, *g_vr; static u64 g_intrs; static __int128 g_slept; static unsigned g_sleeps;
extern "C" {
ssize_t __real_read(int, void *, size_t); int __real_nanosleep(const struct timespec *, struct timespec *);
ssize_t __wrap_read(int fd, void *p, size_t n) { if (g_intr && g_iv->chance(1, g_intr)) { g_intrs++; errno = EINTR; return -1; } return __real_read(fd, p, n); }
int __wrap_nanosleep(const struct timespec *q, struct timespec *m)
{
	if (!g_vr) return __real_nanosleep(q, m);
	if (q->tv_nsec < 0 || q->tv_nsec > 999999999 || q->tv_sec < 0) { errno = EINVAL; return -1; }
	__int128 ns = (__int128) q->tv_sec * 1000000000 + q->tv_nsec; g_sleeps++;
	if (ns > 1 && g_sleeps < 20 && g_vr->chance(1, 3)) { __int128 h = (__int128) g_vr->below((u64) ns); g_slept += h; ns -= h; if (m) { m->tv_sec = (time_t) (ns / 1000000000); m->tv_nsec = (long) (ns % 1000000000); } errno = EINTR; return -1; }
	g_slept += ns; return 0;
}
}
static void strings(Rng &r)
{
	{
		const char *al = r.flip() ? "ab" : "abcd.*";
		bool huge = r.chance(1, 2500); Bytes s = rnd_str(r, huge ? 90000 : r.chance(1, 10) ? 400 : 30, al), o = rnd_str(r, huge && r.flip() ? 1 : r.chance(1, 60) ? 300 : 4, al), n = rnd_str(r, r.chance(1, 10) ? 100 : 6, r.flip() ? al : "xyz"), want;
		if (o.empty() && !r.chance(1, 10)) o = "a";
		if (o.empty()) want = s;	// nothing to look for
		else for (size_t i = 0; i < s.size();) { if (s.compare(i, o.size(), o) == 0) { want += n; i += o.size(); count("replaced"); } else want += s[i++]; }
		Exact es(s + '\0'), eo(o + '\0'), en(n + '\0');
		char *g = w_string_replace((char *) es.p, (char *) eo.p, (char *) en.p);
		Bytes got = g; free(g);
		VF_CHECK(got == want, "strings:replace", "replacing '%s' by '%s' in '%s' gives '%s', not '%s'", o.c_str(), n.c_str(), s.c_str(), got.c_str(), want.c_str());
		seen("nontrivial", hash(s + '|' + o + '|' + n));
	}
	{
		Bytes b = gen_bytes(r, r.chance(1, 4000) ? r.below(70000) : r.below(30)), want = "\"";
		for (u8 c : b) { if (c == '"') want += "\\\""; else if (c >= 32 && c < 127) want += (char) c; else want += fmt("\\x%02x", c); }
		want += '"';
		char *m = nullptr; size_t ms = 0;
		FILE *f = open_memstream(&m, &ms);
		Exact e(b);
		w_print_string(e.p, e.n, f);
		fclose(f);
		Bytes got(m, ms); free(m);
		VF_CHECK(got == want, "strings:print", "%s is shown as %s, not %s", hex(b).c_str(), got.c_str(), want.c_str());
	}
	{
		auto ts = [&] { struct timespec t; t.tv_sec = (time_t) (r.edgy64() & 0xffffffffffull); t.tv_nsec = (long) (r.chance(1, 4) ? 999999999 - r.below(2) : r.chance(1, 4) ? r.below(2) : r.below(1000000000)); return t; };
		struct timespec a = ts(), b = r.chance(1, 4) ? a : ts();
		auto ns = [](const struct timespec &t) { return (__int128) t.tv_sec * 1000000000 + t.tv_nsec; };
		struct timespec s = b, d = b;
		w_ts_add(&a, &s);
		VF_CHECK(ns(s) == ns(a) + ns(b) && s.tv_nsec >= 0 && s.tv_nsec < 1000000000, "strings:ts_add", "%lld.%09ld + %lld.%09ld = %lld.%09ld", (long long) a.tv_sec, a.tv_nsec, (long long) b.tv_sec, b.tv_nsec, (long long) s.tv_sec, s.tv_nsec);
		w_ts_sub(&a, &d);
		VF_CHECK(ns(d) == ns(b) - ns(a) && d.tv_nsec >= 0 && d.tv_nsec < 1000000000, "strings:ts_sub", "%lld.%09ld - %lld.%09ld = %lld.%09ld", (long long) b.tv_sec, b.tv_nsec, (long long) a.tv_sec, a.tv_nsec, (long long) d.tv_sec, d.tv_nsec);
		int c = w_ts_cmp(&a, &b), w = ns(a) < ns(b) ? -1 : ns(a) > ns(b);
		VF_CHECK(c == w, "strings:ts_cmp", "comparison gives %d, not %d", c, w);
		seen("cmp", (u64) (c + 1));
		struct timespec sm = { (time_t) r.below(1000000), a.tv_nsec };
		double x = w_ts_to_double(&sm);
		VF_CHECK(fabs(x - (sm.tv_sec + sm.tv_nsec / 1e9)) < 1e-6, "strings:ts_double", "%ld.%09ld is %f", (long) sm.tv_sec, sm.tv_nsec, x);
		struct timespec back;
		w_ts_from_double(x, &back);
		double diff = (double) (ns(back) - ns(sm));
		VF_CHECK(fabs(diff) < 1000 && back.tv_nsec >= 0 && back.tv_nsec < 1000000000, "strings:ts_from_double", "%f becomes %ld.%09ld", x, (long) back.tv_sec, back.tv_nsec);
		x = (double) (r.edgy64() & 0xffffffffffull) + (double) r.below(1024) / 1024;
		w_ts_from_double(x, &back);
		VF_CHECK(fabsl(back.tv_sec + back.tv_nsec / 1e9L - (long double) x) < 1e-6L && back.tv_nsec >= 0 && back.tv_nsec < 1000000000, "strings:ts_from_double", "%f becomes %ld.%09ld", x, (long) back.tv_sec, back.tv_nsec);
	}
	{
		u64 v = r.edgy64(), got = 1;
		Bytes t; bool ok = true;
		switch (r.below(6)) {
		case 0: t = fmt("%llu", (unsigned long long) v); break;
		case 1: t = fmt("0x%llx", (unsigned long long) v); break;
		case 2: t = fmt("0%llo", (unsigned long long) v); break;
		case 3: t = fmt("%llu", (unsigned long long) v) + "x"; ok = false; break;
		case 4: t = fmt("%llu ", (unsigned long long) v); ok = false; break;
		default: t = "q" + fmt("%llu", (unsigned long long) v); ok = false; break;
		}
		setenv("VF_TEST_INT", t.c_str(), 1);
		bool res = w_getenv_int("VF_TEST_INT", &got);
		VF_CHECK(res == ok && (!ok || got == v), "strings:getenv_int", "'%s' gives %d, %llu", t.c_str(), res, (unsigned long long) got);
		unsetenv("VF_TEST_INT");
		VF_CHECK(!w_getenv_int("VF_TEST_INT", &got), "strings:getenv_unset", "an unset variable has a value");
		count(ok ? "numbers" : "not_numbers");
	}
	{
		u64 v = r.edgy64();
		u16 s = (u16) v; u32 l = (u32) v;
		VF_CHECK(w_bo(0, s) == __builtin_bswap16(s) && w_bo(6, s) == __builtin_bswap16(s) && w_bo(3, s) == s && w_bo(9, s) == s, "strings:byteorder16", "%04x", s);
		VF_CHECK(w_bo(1, l) == __builtin_bswap32(l) && w_bo(7, l) == __builtin_bswap32(l) && w_bo(4, l) == l && w_bo(10, l) == l, "strings:byteorder32", "%08x", l);
		VF_CHECK(w_bo(2, v) == __builtin_bswap64(v) && w_bo(8, v) == __builtin_bswap64(v) && w_bo(5, v) == v && w_bo(11, v) == v, "strings:byteorder64", "%llx", (unsigned long long) v);
	}
	{
		// a socket that delivers in pieces
		int sv[2];
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) exit(78);
		bool huge = r.chance(1, 1000);
		Bytes b = r.bytes(huge ? r.range(4000, 400000) : r.range(1, 200));
		size_t cut = r.chance(1, 4) ? r.below(b.size()) : b.size();
		auto feed = [&](u64 s) { Rng q(s); for (size_t i = 0; i < cut;) { size_t n = std::min<size_t>(huge ? q.range(1, 70000) : q.range(1, 60), cut - i); ssize_t k = write(sv[1], b.data() + i, n); if (k <= 0) exit(78); i += (size_t) k; } close(sv[1]); };
		std::thread th; u64 s = r.next(); if (huge) th = std::thread(feed, s); else feed(s);
		Exact out(b.size(), 0x5a);
		g_intr = r.chance(1, 3) ? 2 : 0; g_iv = &r; u64 i0 = g_intrs;
		bool ok = w_read_bytes(sv[0], out.p, out.n);
		g_intr = 0; count("interrupted_reads", g_intrs - i0); if (huge) { while (!ok && cut == b.size()) { char t[4096]; if (read(sv[0], t, sizeof t) <= 0) break; } th.join(); count("large_reads"); }
		close(sv[0]);
		VF_CHECK(ok == (cut == b.size()), "strings:read_bytes", "%zu of %zu bytes: %s", cut, b.size(), ok ? "success" : "failure");
		VF_CHECK(!memcmp(out.p, b.data(), cut), "strings:read_bytes:data", "bytes differ");
		if (r.chance(1, 20)) {	// nothing can be read at all
			int fd = -1; if (r.flip()) { fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); }
			bool res = w_read_bytes(fd, out.p, out.n); if (fd >= 0) close(fd);
			VF_CHECK(!res, "strings:read_bytes", "reading from a %s succeeded", fd < 0 ? "closed descriptor" : "socket without a peer"); count("unreadable");
		}
	}
	{	// a sleep that is interrupted goes on for what is left of it, in virtual time
		struct timespec t = { (time_t) r.below(r.flip() ? 2 : 100000), (long) r.below(1000000000) };
		g_vr = &r; g_slept = 0; g_sleeps = 0; w_nanosleep(&t); g_vr = nullptr;
		__int128 want = (__int128) t.tv_sec * 1000000000 + t.tv_nsec;
		if (g_sleeps) { VF_CHECK(g_slept == want, "strings:nanosleep", "asked for %lld.%09ld s, slept %lld ns in %u sleeps", (long long) t.tv_sec, t.tv_nsec, (long long) g_slept, g_sleeps); if (g_sleeps > 1) count("interrupted_sleeps"); }
	}
}

int main(int argc, char **argv)
{
	return vf::main(argc, argv, { {"crc32c", crc32c}, {"base32", base32}, {"base64", base64}, {"varint", varint}, {"text", text}, {"ip", ip}, {"lookup3", lookup3}, {"strings", strings} });
}
