/* Stand-in for libwdns; see wdns.h */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "wdns.h"
#include <arpa/inet.h>
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <assert.h>

size_t wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
{
	/* same contract as libwdns: dst holds WDNS_PRESLEN_NAME bytes, src is a
	 * complete uncompressed name; misuse is left for ASan to see */
	size_t bytes_read = 0, rem = src_len;
	uint8_t oclen;
	assert(src != NULL);
	oclen = *src;
	while (rem > 0 && oclen != 0) {
		src++; rem--;
		bytes_read += (size_t) oclen + 1;
		while (oclen-- && rem > 0) {
			uint8_t c = *src++;
			rem--;
			if (c == '.' || c == '\\') { *dst++ = '\\'; *dst++ = (char) c; }
			else if (c >= '!' && c <= '~') *dst++ = (char) c;
			else {
				*dst++ = '\\';
				*dst++ = (char) ('0' + c / 100); *dst++ = (char) ('0' + c / 10 % 10); *dst++ = (char) ('0' + c % 10);
			}
		}
		*dst++ = '.';
		oclen = *src;
	}
	if (bytes_read == 0) *dst++ = '.';
	bytes_read++;
	*dst = '\0';
	return bytes_read;
}

wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
{
	size_t olen = (size_t) (eop - p), len = olen;
	for (;;) {
		if (len == 0) return wdns_res_out_of_bounds;
		uint8_t oclen = *p++;
		len--;
		if (oclen > 63) return wdns_res_invalid_length_octet;
		if (oclen == 0) break;
		if (oclen > len) return wdns_res_overflow;
		len -= oclen; p += oclen;
	}
	*sz = olen - len;
	return wdns_res_success;
}

wdns_res wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev)
{
	size_t n = len_name;
	if (n == 0) return wdns_res_name_overflow;	/* rev must hold len_name bytes */
	const uint8_t *p = name, *end = name + n;
	uint8_t *q = rev + n;
	*--q = 0;
	while (p < end && *p != 0) {
		size_t l = (size_t) *p + 1;
		if (*p > 63) return wdns_res_invalid_length_octet;
		if (l > (size_t) (end - p) || l > (size_t) (q - rev)) return wdns_res_name_overflow;
		q -= l;
		memcpy(q, p, l);
		p += l;
	}
	return q == rev ? wdns_res_success : wdns_res_name_len;
}

void wdns_downcase_name(wdns_name_t *name)
{
	uint8_t *p = name->data;
	for (unsigned i = 0; i < name->len; i++)
		if (p[i] >= 'A' && p[i] <= 'Z') p[i] |= 0x20;
}

static wdns_res str_to_name(const char *str, wdns_name_t *name, bool down)
{
	uint8_t buf[WDNS_MAXLEN_NAME + 1];
	size_t n = 0, lab = 0, ll = 0;
	const unsigned char *p = (const unsigned char *) str;
	name->data = NULL; name->len = 0;
	if (!*p) return wdns_res_parse_error;
	if (p[0] == '.' && p[1] == 0) { n = 1; buf[0] = 0; goto done; }
	buf[n++] = 0;
	while (*p) {
		unsigned c = *p++;
		if (c == '.') {
			if (ll == 0) return wdns_res_parse_error;
			buf[lab] = (uint8_t) ll;
			if (n >= WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
			lab = n; ll = 0; buf[n++] = 0;
			continue;
		}
		if (c == '\\') {
			c = *p++;
			if (c == 0) return wdns_res_parse_error;
			if (isdigit(c)) {
				if (!isdigit(p[0]) || !isdigit(p[1])) return wdns_res_parse_error;
				c = (c - '0') * 100 + (p[0] - '0') * 10u + (p[1] - '0');
				p += 2;
				if (c > 255) return wdns_res_parse_error;
			}
		}
		if (down && c >= 'A' && c <= 'Z') c |= 0x20;
		if (++ll > 63) return wdns_res_name_overflow;
		if (n >= WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
		buf[n++] = (uint8_t) c;
	}
	if (ll > 0) {
		buf[lab] = (uint8_t) ll;
		if (n >= WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
		buf[n++] = 0;
	}
done:
	name->data = malloc(n);
	if (!name->data) return wdns_res_malloc;
	memcpy(name->data, buf, n);
	name->len = (uint8_t) n;
	return wdns_res_success;
}
wdns_res wdns_str_to_name(const char *s, wdns_name_t *n) { return str_to_name(s, n, true); }
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *n) { return str_to_name(s, n, false); }

static const struct { uint16_t t; const char *s; } types[] = {
	{1,"A"},{2,"NS"},{3,"MD"},{4,"MF"},{5,"CNAME"},{6,"SOA"},{7,"MB"},{8,"MG"},{9,"MR"},{10,"NULL"},{11,"WKS"},
	{12,"PTR"},{13,"HINFO"},{14,"MINFO"},{15,"MX"},{16,"TXT"},{17,"RP"},{18,"AFSDB"},{19,"X25"},{20,"ISDN"},{21,"RT"},
	{22,"NSAP"},{23,"NSAP-PTR"},{24,"SIG"},{25,"KEY"},{26,"PX"},{27,"GPOS"},{28,"AAAA"},{29,"LOC"},{30,"NXT"},{31,"EID"},
	{32,"NIMLOC"},{33,"SRV"},{34,"ATMA"},{35,"NAPTR"},{36,"KX"},{37,"CERT"},{38,"A6"},{39,"DNAME"},{40,"SINK"},{41,"OPT"},
	{42,"APL"},{43,"DS"},{44,"SSHFP"},{45,"IPSECKEY"},{46,"RRSIG"},{47,"NSEC"},{48,"DNSKEY"},{49,"DHCID"},{50,"NSEC3"},
	{51,"NSEC3PARAM"},{52,"TLSA"},{53,"SMIMEA"},{55,"HIP"},{56,"NINFO"},{57,"RKEY"},{58,"TALINK"},{59,"CDS"},{60,"CDNSKEY"},
	{61,"OPENPGPKEY"},{62,"CSYNC"},{63,"ZONEMD"},{64,"SVCB"},{65,"HTTPS"},{99,"SPF"},{100,"UINFO"},{101,"UID"},{102,"GID"},
	{103,"UNSPEC"},{104,"NID"},{105,"L32"},{106,"L64"},{107,"LP"},{108,"EUI48"},{109,"EUI64"},{249,"TKEY"},{250,"TSIG"},
	{251,"IXFR"},{252,"AXFR"},{253,"MAILB"},{254,"MAILA"},{255,"ANY"},{256,"URI"},{257,"CAA"},{32768,"TA"},{32769,"DLV"},
};
const char *wdns_rrtype_to_str(uint16_t t)
{
	for (size_t i = 0; i < sizeof types / sizeof *types; i++) if (types[i].t == t) return types[i].s;
	return NULL;
}
uint16_t wdns_str_to_rrtype(const char *s)
{
	for (size_t i = 0; i < sizeof types / sizeof *types; i++) if (!strcasecmp(types[i].s, s)) return types[i].t;
	if (!strncasecmp(s, "TYPE", 4) && isdigit((unsigned char) s[4])) {
		char *e;
		unsigned long v = strtoul(s + 4, &e, 10);
		if (*e == 0 && v <= 65535) return (uint16_t) v;
	}
	return 0;
}

/* ---- rdata ---- */
struct sb { char *p; size_t n, cap; };
static void sb_add(struct sb *s, const char *p, size_t n)
{
	if (s->n + n + 1 > s->cap) { s->cap = (s->n + n + 1) * 2; s->p = realloc(s->p, s->cap); if (!s->p) abort(); }
	memcpy(s->p + s->n, p, n); s->n += n; s->p[s->n] = 0;
}
static void sb_str(struct sb *s, const char *p) { sb_add(s, p, strlen(p)); }
static void sb_u(struct sb *s, unsigned long v) { char b[32]; snprintf(b, sizeof b, "%lu", v); sb_str(s, b); }
/* layout: n name, 4 A, 6 AAAA, b/h/w u8/u16/u32, s one string, S strings to end,
 * x hex to end (upper), t salt (len8 + hex), H hash (len8 + b32), T type bitmap, y rrtype u16, B base64 to end, r other */
static const char *layout(uint16_t t)
{
	switch (t) {
	case 1: return "4"; case 28: return "6";
	case 2: case 3: case 4: case 5: case 7: case 8: case 9: case 12: case 23: case 39: return "n";
	case 6: return "nnwwwww"; case 13: return "ss"; case 14: case 17: return "nn";
	case 15: case 18: case 21: case 36: return "hn"; case 16: case 99: return "S";
	case 26: return "hnn"; case 33: return "hhhn"; case 35: return "hhsssn";
	case 43: case 32769: case 59: return "hbbx"; case 44: return "bbx"; case 46: case 24: return "ybbwwwhnB";
	case 47: return "nT"; case 48: case 60: case 25: return "hbbB"; case 50: return "bbhtHT"; case 51: return "bbht";
	case 52: return "bbbx"; 
	default: return NULL;
	}
}
static const char HEXU[] = "0123456789ABCDEF";
static void sb_hex(struct sb *s, const uint8_t *p, size_t n)
{ for (size_t i = 0; i < n; i++) { char c[2] = { HEXU[p[i] >> 4], HEXU[p[i] & 15] }; sb_add(s, c, 2); } }
static void sb_b32(struct sb *s, const uint8_t *p, size_t n)
{
	static const char A[] = "0123456789abcdefghijklmnopqrstuv";
	uint64_t acc = 0; int bits = 0;
	for (size_t i = 0; i < n; i++) { acc = acc << 8 | p[i]; bits += 8; while (bits >= 5) { bits -= 5; sb_add(s, &A[acc >> bits & 31], 1); } }
	if (bits) sb_add(s, &A[acc << (5 - bits) & 31], 1);
}
static void sb_b64(struct sb *s, const uint8_t *p, size_t n)
{
	static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t) p[i] << 16 | (i + 1 < n ? p[i+1] << 8 : 0) | (i + 2 < n ? p[i+2] : 0);
		char c[4] = { A[v >> 18], A[v >> 12 & 63], i + 1 < n ? A[v >> 6 & 63] : '=', i + 2 < n ? A[v & 63] : '=' };
		sb_add(s, c, 4);
	}
}
static void sb_qstr(struct sb *s, const uint8_t *p, size_t n)
{
	sb_str(s, "\"");
	for (size_t i = 0; i < n; i++) {
		char b[8];
		if (p[i] == '"' || p[i] == '\\') { b[0] = '\\'; b[1] = (char) p[i]; sb_add(s, b, 2); }
		else if (p[i] >= ' ' && p[i] <= '~') { b[0] = (char) p[i]; sb_add(s, b, 1); }
		else { snprintf(b, sizeof b, "\\%03u", p[i]); sb_str(s, b); }
	}
	sb_str(s, "\"");
}
static void sb_generic(struct sb *s, const uint8_t *p, size_t n)
{
	sb_str(s, "\\# "); sb_u(s, n);
	if (n) { sb_str(s, " "); sb_hex(s, p, n); }
}
char *wdns_rdata_to_str(const uint8_t *rd, uint16_t rdlen, uint16_t rrtype, uint16_t rrclass)
{
	struct sb s = { 0 };
	const char *l = layout(rrtype);
	const uint8_t *p = rd, *e = rd + rdlen;
	(void) rrclass;
	sb_str(&s, "");
	if (!l) { sb_generic(&s, rd, rdlen); return s.p; }
	for (; *l; l++) {
		size_t n; char nm[WDNS_PRESLEN_NAME];
		if (l != layout(rrtype) && s.n && s.p[s.n - 1] != ' ') sb_str(&s, " ");
		switch (*l) {
		case 'n':
			if (wdns_len_uname(p, e, &n) != wdns_res_success || n > WDNS_MAXLEN_NAME) goto bad;
			wdns_domain_to_str(p, n, nm); sb_str(&s, nm); p += n; break;
		case '4': if (e - p < 4) goto bad; inet_ntop(AF_INET, p, nm, sizeof nm); sb_str(&s, nm); p += 4; break;
		case '6': if (e - p < 16) goto bad; inet_ntop(AF_INET6, p, nm, sizeof nm); sb_str(&s, nm); p += 16; break;
		case 'b': if (e - p < 1) goto bad; sb_u(&s, p[0]); p++; break;
		case 'h': if (e - p < 2) goto bad; sb_u(&s, p[0] << 8 | p[1]); p += 2; break;
		case 'w': if (e - p < 4) goto bad; sb_u(&s, (uint32_t) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]); p += 4; break;
		case 'y': { if (e - p < 2) goto bad; uint16_t t = (uint16_t) (p[0] << 8 | p[1]); const char *q = wdns_rrtype_to_str(t);
			if (q) sb_str(&s, q); else { sb_str(&s, "TYPE"); sb_u(&s, t); } p += 2; break; }
		case 's': if (e - p < 1 || e - p < 1 + p[0]) goto bad; sb_qstr(&s, p + 1, p[0]); p += 1 + p[0]; break;
		case 'S': for (bool first = true; p < e; first = false) {
				if (e - p < 1 + p[0]) goto bad;
				if (!first) sb_str(&s, " ");
				sb_qstr(&s, p + 1, p[0]); p += 1 + p[0]; } break;
		case 'x': sb_hex(&s, p, (size_t) (e - p)); p = e; break;
		case 'B': sb_b64(&s, p, (size_t) (e - p)); p = e; break;
		case 't': if (e - p < 1 || e - p < 1 + p[0]) goto bad; if (p[0]) sb_hex(&s, p + 1, p[0]); else sb_str(&s, "-"); p += 1 + p[0]; break;
		case 'H': if (e - p < 1 || e - p < 1 + p[0]) goto bad; if (p[0]) sb_b32(&s, p + 1, p[0]); else sb_str(&s, "-"); p += 1 + p[0]; break;
		case 'T': for (bool first = true; p < e; ) {
				if (e - p < 2 || p[1] == 0 || p[1] > 32 || e - p < 2 + p[1]) goto bad;
				for (unsigned i = 0; i < p[1] * 8u; i++) if (p[2 + i / 8] & (0x80 >> i % 8)) {
					uint16_t t = (uint16_t) (p[0] << 8 | i); const char *q = wdns_rrtype_to_str(t);
					if (!first) sb_str(&s, " "); 
					first = false;
					if (q) sb_str(&s, q); else { sb_str(&s, "TYPE"); sb_u(&s, t); } }
				p += 2 + p[1]; } break;
		}
	}
	if (p != e) goto bad;
	return s.p;
bad:
	s.n = 0;
	sb_str(&s, "### PARSE ERROR ###");
	return s.p;
}

wdns_res wdns_str_to_rdata(const char *str, uint16_t rrtype, uint16_t rrclass, uint8_t **rd, size_t *rdlen)
{
	/* enough for "1 1 0 - 0 TYPE TYPE ..." NSEC3 (the tests), A, AAAA and names */
	(void) rrclass;
	uint8_t *b = calloc(1, 70000);
	size_t n = 0;
	if (rrtype == WDNS_TYPE_A) { if (inet_pton(AF_INET, str, b) != 1) goto bad; n = 4; }
	else if (rrtype == WDNS_TYPE_AAAA) { if (inet_pton(AF_INET6, str, b) != 1) goto bad; n = 16; }
	else if (layout(rrtype) && !strcmp(layout(rrtype), "n")) {
		wdns_name_t nm; if (wdns_str_to_name_case(str, &nm) != wdns_res_success) goto bad;
		memcpy(b, nm.data, nm.len); n = nm.len; free(nm.data);
	} else if (rrtype == WDNS_TYPE_NSEC3) {
		static uint8_t bits[65536 / 8];
		uint8_t *bm = calloc(1, sizeof bits);
		char *c = strdup(str), *sv = NULL, *t; int i = 0;
		unsigned max = 0; bool any = false;
		for (t = strtok_r(c, " ", &sv); t; t = strtok_r(NULL, " ", &sv), i++) {
			if (i == 0 || i == 1) b[n++] = (uint8_t) atoi(t);
			else if (i == 2) { int v = atoi(t); b[n++] = (uint8_t) (v >> 8); b[n++] = (uint8_t) v; }
			else if (i == 3) { if (strcmp(t, "-")) { free(c); free(bm); goto bad; } b[n++] = 0; }
			else if (i == 4) { b[n++] = 1; b[n++] = 0; n--; n--; b[n++] = 0; }
			else {
				uint16_t ty = wdns_str_to_rrtype(t);
				if (!ty && strcasecmp(t, "TYPE0")) { free(c); free(bm); goto bad; }
				bm[ty / 8] |= (uint8_t) (0x80 >> ty % 8); any = true; if (ty > max) max = ty;
			}
		}
		free(c);
		for (unsigned w = 0; any && w < 256; w++) {
			int top = -1;
			for (int k = 0; k < 32; k++) if (bm[w * 32 + (unsigned) k]) top = k;
			if (top < 0) continue;
			b[n++] = (uint8_t) w; b[n++] = (uint8_t) (top + 1);
			memcpy(b + n, bm + w * 32, (size_t) top + 1); n += (size_t) top + 1;
		}
		free(bm);
	} else goto bad;
	*rd = b; *rdlen = n;
	return wdns_res_success;
bad:
	free(b);
	return wdns_res_parse_error;
}
