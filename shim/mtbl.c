/* Stand-in for libmtbl; see mtbl.h */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mtbl.h"
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <zlib.h>
#ifndef VF_NO_ZSTD
#include <zstd.h>
#include <lz4.h>
#endif

uint64_t vf_mtbl_tiebreak;
long vf_mtbl_live_iters, vf_mtbl_live_sources, vf_mtbl_live_filesets, vf_mtbl_live_mergers;
void (*vf_mtbl_step_hook)(int);
long vf_mtbl_n_next, vf_mtbl_n_seek, vf_mtbl_n_merge, vf_mtbl_n_merge_set;
#define ATOMIC_ADD(v, n) __atomic_add_fetch(&(v), (n), __ATOMIC_RELAXED)

static void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void *xcalloc(size_t n, size_t m) { void *p = calloc(n, m); if (!p) abort(); return p; }
static void *xrealloc(void *q, size_t n) { void *p = realloc(q, n ? n : 1); if (!p) abort(); return p; }
/* exact-size copy: a zero-length block gets a zero-length allocation */
static uint8_t *xdup(const void *p, size_t n)
{
	uint8_t *q = malloc(n);
	if (!q && n) abort();
	if (n) memcpy(q, p, n);
	return q;
}

/* values are handed out at odd addresses, as they may be inside a block */
static uint8_t *vdup(const void *p, size_t n)
{
	uint8_t *q = malloc(n + 1);
	if (!q) abort();
	if (n) memcpy(q + 1, p, n);
	return q + 1;
}
static void vfree(uint8_t *p) { if (p) free(p - 1); }

static int bcmp3(const uint8_t *a, size_t la, const uint8_t *b, size_t lb)
{
	size_t l = la < lb ? la : lb;
	int r = l ? memcmp(a, b, l) : 0;
	if (r) return r;
	return la < lb ? -1 : la > lb;
}

/* ---------------------------------------------------------------- varint */
unsigned mtbl_varint_length(uint64_t v)
{
	unsigned len = 1;
	while (v >= 128) { v >>= 7; len++; }
	return len;
}
unsigned mtbl_varint_length_packed(const uint8_t *data, size_t len_data)
{
	for (size_t i = 0; i < len_data; i++)
		if (!(data[i] & 0x80)) return (unsigned) i + 1;
	return 0;
}
size_t mtbl_varint_encode64(uint8_t *dst, uint64_t v)
{
	uint8_t *p = dst;
	while (v >= 128) { *p++ = (v & 127) | 128; v >>= 7; }
	*p++ = (uint8_t) v;
	return (size_t) (p - dst);
}
size_t mtbl_varint_encode32(uint8_t *dst, uint32_t v) { return mtbl_varint_encode64(dst, v); }
size_t mtbl_varint_decode32(const uint8_t *data, uint32_t *value)
{
	unsigned len = mtbl_varint_length_packed(data, 5);
	uint32_t val = data[0] & 0x7f;
	if (len > 1) {
		val |= (uint32_t) (data[1] & 0x7f) << 7;
		if (len > 2) {
			val |= (uint32_t) (data[2] & 0x7f) << 14;
			if (len > 3) {
				val |= (uint32_t) (data[3] & 0x7f) << 21;
				if (len > 4)
					val |= (uint32_t) data[4] << 28;
			}
		}
	}
	*value = val;
	return len;
}
size_t mtbl_varint_decode64(const uint8_t *data, uint64_t *value)
{
	unsigned len = mtbl_varint_length_packed(data, 10);
	uint64_t val = 0;
	if (len < 5) {
		uint32_t tmp;
		size_t l = mtbl_varint_decode32(data, &tmp);
		*value = tmp;
		return l;
	}
	for (unsigned i = 0; i < len; i++)
		val |= (uint64_t) (data[i] & 0x7f) << (7 * i);
	*value = val;
	return len;
}
size_t mtbl_fixed_encode32(uint8_t *d, uint32_t v) { for (int i = 0; i < 4; i++) d[i] = (uint8_t) (v >> (8 * i)); return 4; }
size_t mtbl_fixed_encode64(uint8_t *d, uint64_t v) { for (int i = 0; i < 8; i++) d[i] = (uint8_t) (v >> (8 * i)); return 8; }
uint32_t mtbl_fixed_decode32(const uint8_t *p) { return p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24; }
uint64_t mtbl_fixed_decode64(const uint8_t *p) { return mtbl_fixed_decode32(p) | (uint64_t) mtbl_fixed_decode32(p + 4) << 32; }
uint32_t mtbl_crc32c(const uint8_t *buf, size_t len)
{
	uint32_t crc = 0xffffffff;
	while (len--) {
		crc ^= *buf++;
		for (int k = 0; k < 8; k++) crc = crc & 1 ? (crc >> 1) ^ 0x82f63b78 : crc >> 1;
	}
	return ~crc;
}

/* ---------------------------------------------------------------- iter / source */
struct mtbl_iter { mtbl_iter_seek_func seek; mtbl_iter_next_func next; mtbl_iter_free_func free; void *clos; };
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *clos)
{
	struct mtbl_iter *it = xcalloc(1, sizeof *it);
	it->seek = s; it->next = n; it->free = f; it->clos = clos;
	ATOMIC_ADD(vf_mtbl_live_iters, 1);
	return it;
}
void mtbl_iter_destroy(struct mtbl_iter **it)
{
	if (*it) {
		if ((*it)->free) (*it)->free((*it)->clos);
		free(*it); *it = NULL;
		ATOMIC_ADD(vf_mtbl_live_iters, -1);
	}
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t lk)
{ return it == NULL ? mtbl_res_failure : it->seek(it->clos, k, lk); }
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{ return it == NULL ? mtbl_res_failure : it->next(it->clos, k, lk, v, lv); }

struct mtbl_source {
	mtbl_source_iter_func iter; mtbl_source_get_func get; mtbl_source_get_prefix_func prefix;
	mtbl_source_get_range_func range; mtbl_source_free_func free; void *clos;
};
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g,
	mtbl_source_get_prefix_func p, mtbl_source_get_range_func r, mtbl_source_free_func f, void *clos)
{
	assert(i && g && p && r);
	struct mtbl_source *s = xcalloc(1, sizeof *s);
	s->iter = i; s->get = g; s->prefix = p; s->range = r; s->free = f; s->clos = clos;
	ATOMIC_ADD(vf_mtbl_live_sources, 1);
	return s;
}
void mtbl_source_destroy(struct mtbl_source **s)
{
	if (*s) {
		if ((*s)->free) (*s)->free((*s)->clos);
		free(*s); *s = NULL;
		ATOMIC_ADD(vf_mtbl_live_sources, -1);
	}
}
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->iter(s->clos); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t l) { return s->get(s->clos, k, l); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t l) { return s->prefix(s->clos, k, l); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k0, size_t l0, const uint8_t *k1, size_t l1)
{ return s->range(s->clos, k0, l0, k1, l1); }

/* ---------------------------------------------------------------- reader */
struct kv { uint8_t *k; size_t lk; uint8_t *v; size_t lv; };
struct mtbl_reader {
	struct kv *e; size_t n, cap;
	struct mtbl_source *src;
	long refs;
};
struct mtbl_reader_options { bool verify, madvise; };

enum rtype { R_ITER, R_GET, R_PREFIX, R_RANGE };
struct riter {
	struct mtbl_reader *r; enum rtype t; size_t pos; bool valid;
	uint8_t *k; size_t lk;		/* get/prefix key or range end */
	uint8_t *ok, *ov;		/* last key/value handed out */
};
static size_t lower_bound(struct mtbl_reader *r, const uint8_t *k, size_t lk)
{
	size_t lo = 0, hi = r->n;
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		if (bcmp3(r->e[m].k, r->e[m].lk, k, lk) < 0) lo = m + 1; else hi = m;
	}
	return lo;
}
static void riter_drop(struct riter *it) { free(it->ok); vfree(it->ov); it->ok = it->ov = NULL; }
static mtbl_res riter_next(void *v, const uint8_t **k, size_t *lk, const uint8_t **val, size_t *lv)
{
	struct riter *it = v;
	ATOMIC_ADD(vf_mtbl_n_next, 1);
	if (vf_mtbl_step_hook) vf_mtbl_step_hook(0);
	riter_drop(it);
	if (!it->valid || it->pos >= it->r->n) { it->valid = false; return mtbl_res_failure; }
	struct kv *e = &it->r->e[it->pos++];
	switch (it->t) {
	case R_ITER: break;
	case R_GET: if (bcmp3(e->k, e->lk, it->k, it->lk) != 0) it->valid = false; break;
	case R_PREFIX: if (e->lk < it->lk || (it->lk && memcmp(e->k, it->k, it->lk) != 0)) it->valid = false; break;
	case R_RANGE: if (bcmp3(e->k, e->lk, it->k, it->lk) > 0) it->valid = false; break;
	}
	if (!it->valid) return mtbl_res_failure;
	it->ok = xdup(e->k, e->lk); it->ov = vdup(e->v, e->lv);
	*k = it->ok; *lk = e->lk; *val = it->ov; *lv = e->lv;
	return mtbl_res_success;
}
static mtbl_res riter_seek(void *v, const uint8_t *k, size_t lk)
{
	struct riter *it = v;
	ATOMIC_ADD(vf_mtbl_n_seek, 1);
	if (vf_mtbl_step_hook) vf_mtbl_step_hook(1);
	it->pos = lower_bound(it->r, k, lk);	/* before dropping: k may be ours */
	riter_drop(it);
	it->valid = true;
	return mtbl_res_success;
}
static void reader_unref(struct mtbl_reader *r)
{
	if (__atomic_sub_fetch(&r->refs, 1, __ATOMIC_ACQ_REL) > 0) return;
	for (size_t i = 0; i < r->n; i++) { free(r->e[i].k); free(r->e[i].v); }
	free(r->e);
	mtbl_source_destroy(&r->src);
	free(r);
}
static void reader_ref(struct mtbl_reader *r) { __atomic_add_fetch(&r->refs, 1, __ATOMIC_ACQ_REL); }
static void riter_free(void *v) { struct riter *it = v; riter_drop(it); free(it->k); reader_unref(it->r); free(it); }
static struct mtbl_iter *riter_make(struct mtbl_reader *r, enum rtype t, size_t pos, const uint8_t *k, size_t lk)
{
	struct riter *it = xcalloc(1, sizeof *it);
	reader_ref(r);
	it->r = r; it->t = t; it->pos = pos; it->valid = true;
	if (t != R_ITER) { it->k = xdup(k, lk); it->lk = lk; }
	return mtbl_iter_init(riter_seek, riter_next, riter_free, it);
}
static struct mtbl_iter *r_iter(void *c) { struct mtbl_reader *r = c; return r->n ? riter_make(r, R_ITER, 0, NULL, 0) : NULL; }
/* like libmtbl: NULL when no key >= the start key exists */
static struct mtbl_iter *r_get(void *c, const uint8_t *k, size_t l)
{ struct mtbl_reader *r = c; size_t p = lower_bound(r, k, l); return p == r->n ? NULL : riter_make(r, R_GET, p, k, l); }
static struct mtbl_iter *r_prefix(void *c, const uint8_t *k, size_t l)
{ struct mtbl_reader *r = c; size_t p = lower_bound(r, k, l); return p == r->n ? NULL : riter_make(r, R_PREFIX, p, k, l); }
static struct mtbl_iter *r_range(void *c, const uint8_t *k0, size_t l0, const uint8_t *k1, size_t l1)
{ struct mtbl_reader *r = c; size_t p = lower_bound(r, k0, l0); return p == r->n ? NULL : riter_make(r, R_RANGE, p, k1, l1); }

struct mtbl_reader *vf_mtbl_reader_mem(void)
{
	struct mtbl_reader *r = xcalloc(1, sizeof *r);
	r->refs = 1;
	r->src = mtbl_source_init(r_iter, r_get, r_prefix, r_range, NULL, r);
	return r;
}
void vf_mtbl_reader_mem_add(struct mtbl_reader *r, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv)
{
	if (r->n == r->cap) { r->cap = r->cap ? 2 * r->cap : 16; r->e = xrealloc(r->e, r->cap * sizeof *r->e); }
	assert(r->n == 0 || bcmp3(r->e[r->n - 1].k, r->e[r->n - 1].lk, k, lk) <= 0);
	r->e[r->n++] = (struct kv) { xdup(k, lk), lk, xdup(v, lv), lv };
}

static uint8_t *decompress(unsigned comp, const uint8_t *in, size_t n, size_t *out_n)
{
	if (comp == MTBL_COMPRESSION_NONE) { *out_n = n; return xdup(in, n); }
	if (comp == MTBL_COMPRESSION_ZLIB) {
		size_t cap = n * 8 + 4096;
		for (;;) {
			uint8_t *o = xmalloc(cap);
			uLongf l = cap;
			int rc = uncompress(o, &l, in, n);
			if (rc == Z_OK) { *out_n = l; return o; }
			free(o);
			if (rc != Z_BUF_ERROR || cap > (1u << 30)) return NULL;
			cap *= 2;
		}
	}
#ifndef VF_NO_ZSTD
	if (comp == MTBL_COMPRESSION_ZSTD) {
		unsigned long long l = ZSTD_getFrameContentSize(in, n);
		if (l > (1u << 30)) return NULL;
		uint8_t *o = xmalloc(l);
		size_t r = ZSTD_decompress(o, l, in, n);
		if (ZSTD_isError(r)) { free(o); return NULL; }
		*out_n = r; return o;
	}
	if (comp == MTBL_COMPRESSION_LZ4 || comp == MTBL_COMPRESSION_LZ4HC) {
		if (n < 4) return NULL;
		uint32_t l = (uint32_t) in[0] << 24 | in[1] << 16 | in[2] << 8 | in[3];
		if (l > (1u << 30)) return NULL;
		uint8_t *o = xmalloc(l);
		int r = LZ4_decompress_safe((const char *) in + 4, (char *) o, (int) n - 4, (int) l);
		if (r < 0) { free(o); return NULL; }
		*out_n = (size_t) r; return o;
	}
#endif
	return NULL;
}
#define MAGIC_V1 0x77846676u
#define MAGIC_V2 0x4D54424Cu
struct mtbl_reader *mtbl_reader_init_fd(int fd, const struct mtbl_reader_options *o)
{
	(void) o;
	struct stat sb;
	if (fstat(fd, &sb) != 0 || sb.st_size < 512) return NULL;
	size_t sz = (size_t) sb.st_size, got = 0;
	uint8_t *d = xmalloc(sz);
	while (got < sz) {
		ssize_t r = pread(fd, d + got, sz - got, (off_t) got);
		if (r <= 0) { free(d); return NULL; }
		got += (size_t) r;
	}
	const uint8_t *m = d + sz - 512;
	uint32_t magic = mtbl_fixed_decode32(m + 508);
	if (magic != MAGIC_V1 && magic != MAGIC_V2) { free(d); return NULL; }
	uint64_t bytes_data = mtbl_fixed_decode64(m + 40);
	unsigned comp = (unsigned) mtbl_fixed_decode64(m + 16);
	struct mtbl_reader *r = vf_mtbl_reader_mem();
	size_t off = 0;
	while (off < bytes_data) {
		uint64_t blen; 
		if (magic == MAGIC_V1) { blen = mtbl_fixed_decode32(d + off); off += 4; }
		else off += mtbl_varint_decode64(d + off, &blen);
		uint32_t crc = mtbl_fixed_decode32(d + off);
		off += 4;
		if (off + blen > sz || mtbl_crc32c(d + off, blen) != crc) { free(d); mtbl_reader_destroy(&r); return NULL; }
		size_t n = 0;
		uint8_t *b = decompress(comp, d + off, blen, &n);
		if (!b) { fprintf(stderr, "mtbl stand-in: cannot decompress (%u)\n", comp); free(d); mtbl_reader_destroy(&r); return NULL; }
		off += blen;
		uint32_t nrest = mtbl_fixed_decode32(b + n - 4);
		size_t end = n - 4 - 4 * (size_t) nrest, p = 0;
		uint8_t *key = NULL; size_t lkey = 0;
		while (p < end) {
			uint32_t sh, nsh; uint64_t lv;
			p += mtbl_varint_decode32(b + p, &sh);
			p += mtbl_varint_decode32(b + p, &nsh);
			p += mtbl_varint_decode64(b + p, &lv);
			key = xrealloc(key, sh + nsh + 1);
			(void) lkey;
			memcpy(key + sh, b + p, nsh); p += nsh;
			lkey = sh + nsh;
			vf_mtbl_reader_mem_add(r, key, lkey, b + p, lv);
			p += lv;
		}
		free(key);
		free(b);
	}
	free(d);
	return r;
}
struct mtbl_reader *(*vf_mtbl_open_hook)(const char *fname);
void vf_mtbl_reader_ref(struct mtbl_reader *r) { reader_ref(r); }
struct mtbl_reader *mtbl_reader_init(const char *fname, const struct mtbl_reader_options *o)
{
	if (vf_mtbl_open_hook) {
		struct mtbl_reader *m = vf_mtbl_open_hook(fname);
		if (m) return m;
	}
	int fd = open(fname, O_RDONLY);
	if (fd < 0) return NULL;
	struct mtbl_reader *r = mtbl_reader_init_fd(fd, o);
	close(fd);
	return r;
}
void mtbl_reader_destroy(struct mtbl_reader **r) { if (*r) { reader_unref(*r); *r = NULL; } }
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return r->src; }
struct mtbl_reader_options *mtbl_reader_options_init(void) { return xcalloc(1, sizeof(struct mtbl_reader_options)); }
void mtbl_reader_options_destroy(struct mtbl_reader_options **o) { free(*o); *o = NULL; }
void mtbl_reader_options_set_verify_checksums(struct mtbl_reader_options *o, bool b) { o->verify = b; }
void mtbl_reader_options_set_madvise_random(struct mtbl_reader_options *o, bool b) { o->madvise = b; }

/* ---------------------------------------------------------------- writer */
struct mtbl_writer_options { unsigned comp; size_t bs; };
struct mtbl_writer {
	FILE *fp; struct mtbl_writer_options o;
	uint8_t *b; size_t n, cap; uint32_t *rest; size_t nrest; unsigned ctr;
	uint8_t *last; size_t llast;
	struct kv *idx; size_t nidx;
	uint64_t off, count, blocks, bkeys, bvals;
	bool pending;
};
struct mtbl_writer_options *mtbl_writer_options_init(void)
{ struct mtbl_writer_options *o = xcalloc(1, sizeof *o); o->comp = MTBL_COMPRESSION_ZLIB; o->bs = 8192; return o; }
void mtbl_writer_options_destroy(struct mtbl_writer_options **o) { free(*o); *o = NULL; }
void mtbl_writer_options_set_compression(struct mtbl_writer_options *o, mtbl_compression_type c)
{ o->comp = c == MTBL_COMPRESSION_NONE ? 0 : MTBL_COMPRESSION_ZLIB; }
void mtbl_writer_options_set_block_size(struct mtbl_writer_options *o, size_t s) { o->bs = s; }
static void w_put(struct mtbl_writer *w, const void *p, size_t n)
{
	if (w->n + n > w->cap) { w->cap = (w->n + n) * 2; w->b = xrealloc(w->b, w->cap); }
	if (n) memcpy(w->b + w->n, p, n);
	w->n += n;
}
static void w_entry(struct mtbl_writer *w, const uint8_t *prev, size_t lprev, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv)
{
	uint8_t t[10];
	size_t sh = 0;
	if (w->ctr % 16 == 0) { w->rest = xrealloc(w->rest, (w->nrest + 1) * 4); w->rest[w->nrest++] = (uint32_t) w->n; }
	else while (sh < lprev && sh < lk && prev[sh] == k[sh]) sh++;
	w->ctr++;
	w_put(w, t, mtbl_varint_encode32(t, (uint32_t) sh));
	w_put(w, t, mtbl_varint_encode32(t, (uint32_t) (lk - sh)));
	w_put(w, t, mtbl_varint_encode64(t, lv));
	w_put(w, k + sh, lk - sh);
	w_put(w, v, lv);
}
static size_t w_flush(struct mtbl_writer *w, unsigned comp)
{
	uint8_t t[10];
	for (size_t i = 0; i < w->nrest; i++) { mtbl_fixed_encode32(t, w->rest[i]); w_put(w, t, 4); }
	mtbl_fixed_encode32(t, (uint32_t) w->nrest); w_put(w, t, 4);
	uint8_t *o = w->b; size_t on = w->n;
	if (comp == MTBL_COMPRESSION_ZLIB) {
		uLongf l = compressBound(w->n);
		o = xmalloc(l);
		if (compress(o, &l, w->b, w->n) != Z_OK) abort();
		on = l;
	}
	size_t l = mtbl_varint_encode64(t, on);
	fwrite(t, 1, l, w->fp);
	mtbl_fixed_encode32(t, mtbl_crc32c(o, on)); fwrite(t, 1, 4, w->fp);
	fwrite(o, 1, on, w->fp);
	if (o != w->b) free(o);
	w->n = 0; w->nrest = 0; w->ctr = 0;
	return l + 4 + on;
}
static void w_block(struct mtbl_writer *w)
{
	if (w->ctr == 0) return;
	uint64_t off = w->off;
	w->off += w_flush(w, w->o.comp);
	w->blocks++;
	uint8_t t[10]; size_t l = mtbl_varint_encode64(t, off);
	w->idx = xrealloc(w->idx, (w->nidx + 1) * sizeof *w->idx);
	w->idx[w->nidx++] = (struct kv) { xdup(w->last, w->llast), w->llast, xdup(t, l), l };
}
struct mtbl_writer *mtbl_writer_init_fd(int fd, const struct mtbl_writer_options *o)
{
	struct mtbl_writer *w = xcalloc(1, sizeof *w);
	w->fp = fdopen(fd, "w");
	if (o) w->o = *o; else { w->o.comp = MTBL_COMPRESSION_ZLIB; w->o.bs = 8192; }
	return w;
}
struct mtbl_writer *mtbl_writer_init(const char *fname, const struct mtbl_writer_options *o)
{
	int fd = open(fname, O_WRONLY | O_CREAT | O_EXCL, 0644);
	return fd < 0 ? NULL : mtbl_writer_init_fd(fd, o);
}
mtbl_res mtbl_writer_add(struct mtbl_writer *w, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv)
{
	if (w->count && bcmp3(k, lk, w->last, w->llast) <= 0) return mtbl_res_failure;
	if (w->n + lk + lv > w->o.bs) w_block(w);
	w_entry(w, w->last, w->llast, k, lk, v, lv);
	free(w->last); w->last = xdup(k, lk); w->llast = lk;
	w->count++; w->bkeys += lk; w->bvals += lv;
	return mtbl_res_success;
}
void mtbl_writer_destroy(struct mtbl_writer **pw)
{
	struct mtbl_writer *w = *pw;
	if (!w) return;
	w_block(w);
	uint64_t idxoff = w->off;
	for (size_t i = 0; i < w->nidx; i++)
		w_entry(w, i ? w->idx[i-1].k : NULL, i ? w->idx[i-1].lk : 0, w->idx[i].k, w->idx[i].lk, w->idx[i].v, w->idx[i].lv);
	uint64_t il = w_flush(w, 0);
	uint8_t m[512]; memset(m, 0, sizeof m);
	uint64_t f[] = { idxoff, w->o.bs, w->o.comp, w->count, w->blocks, idxoff, il, w->bkeys, w->bvals };
	for (int i = 0; i < 9; i++) mtbl_fixed_encode64(m + 8 * i, f[i]);
	mtbl_fixed_encode32(m + 508, MAGIC_V2);
	fwrite(m, 1, 512, w->fp);
	fclose(w->fp);
	for (size_t i = 0; i < w->nidx; i++) { free(w->idx[i].k); free(w->idx[i].v); }
	free(w->idx); free(w->b); free(w->rest); free(w->last); free(w); *pw = NULL;
}

/* ---------------------------------------------------------------- merger */
struct mtbl_merger_options { mtbl_merge_func mf; void *mclos; mtbl_dupsort_func df; void *dclos; };
struct mtbl_merger { struct mtbl_merger_options o; const struct mtbl_source **s; size_t n; struct mtbl_source *src; };
struct ment { struct mtbl_iter *it; const uint8_t *k, *v; size_t lk, lv; bool live; uint32_t tb; };
struct miter { struct mtbl_merger_options o; struct ment *e; size_t n; uint8_t *k, *v; size_t lk, lv; uint64_t rng; bool started;
	void (*rel)(void *); void *relclos; };
static uint32_t m_rnd(struct miter *it)
{ it->rng = it->rng * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t) (it->rng >> 33); }
static void m_fill(struct miter *it, struct ment *e)
{
	e->live = mtbl_iter_next(e->it, &e->k, &e->lk, &e->v, &e->lv) == mtbl_res_success;
	if (!e->live) { e->k = e->v = NULL; }
	e->tb = vf_mtbl_tiebreak ? m_rnd(it) : 0;
}
static struct ment *m_min(struct miter *it)
{
	struct ment *b = NULL;
	for (size_t i = 0; i < it->n; i++) {
		struct ment *e = &it->e[i];
		if (!e->live) continue;
		if (!b) { b = e; continue; }
		int c = bcmp3(e->k, e->lk, b->k, b->lk);
		if (c == 0 && it->o.df) c = it->o.df(it->o.dclos, e->k, e->lk, e->v, e->lv, b->v, b->lv);
		if (c == 0 && e->tb != b->tb) c = e->tb < b->tb ? -1 : 1;
		if (c < 0) b = e;
	}
	return b;
}
static mtbl_res miter_next(void *c, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	struct miter *it = c;
	if (!it->started) { it->started = true; for (size_t i = 0; i < it->n; i++) m_fill(it, &it->e[i]); }
	free(it->k); vfree(it->v); it->k = it->v = NULL;
	struct ment *e = m_min(it);
	if (!e) return mtbl_res_failure;
	it->k = xdup(e->k, e->lk); it->lk = e->lk; it->v = vdup(e->v, e->lv); it->lv = e->lv;
	m_fill(it, e);
	if (it->o.mf) {
		while ((e = m_min(it)) != NULL && bcmp3(e->k, e->lk, it->k, it->lk) == 0) {
			uint8_t *mv = NULL; size_t ml = 0;
			ATOMIC_ADD(vf_mtbl_n_merge, 1); if (it->rel) ATOMIC_ADD(vf_mtbl_n_merge_set, 1);
			it->o.mf(it->o.mclos, it->k, it->lk, it->v, it->lv, e->v, e->lv, &mv, &ml);
			vfree(it->v); it->v = NULL;
			if (mv == NULL) return mtbl_res_failure;
			it->v = vdup(mv, ml); it->lv = ml; free(mv);	/* exact-size block */
			m_fill(it, e);
		}
	}
	*k = it->k; *lk = it->lk; *v = it->v; *lv = it->lv;
	return mtbl_res_success;
}
static mtbl_res miter_seek(void *c, const uint8_t *k, size_t lk)
{
	struct miter *it = c;
	uint8_t *kk = xdup(k, lk);
	for (size_t i = 0; i < it->n; i++) {
		struct ment *e = &it->e[i];
		e->live = false;
		if (mtbl_iter_seek(e->it, kk, lk) == mtbl_res_success) m_fill(it, e);
	}
	it->started = true;
	free(kk);
	return mtbl_res_success;
}
static void miter_free(void *c)
{
	struct miter *it = c;
	for (size_t i = 0; i < it->n; i++) mtbl_iter_destroy(&it->e[i].it);
	if (it->rel) it->rel(it->relclos);
	free(it->e); free(it->k); vfree(it->v); free(it);
}
static struct mtbl_iter *miter_make(const struct mtbl_source **s, size_t n, struct mtbl_merger_options *o, enum rtype t,
	const uint8_t *k0, size_t l0, const uint8_t *k1, size_t l1, void (*rel)(void *), void *relclos)
{
	struct miter *it = xcalloc(1, sizeof *it);
	it->o = *o; it->e = xcalloc(n ? n : 1, sizeof *it->e);
	it->rng = vf_mtbl_tiebreak; it->rel = rel; it->relclos = relclos;
	for (size_t i = 0; i < n; i++) {
		struct mtbl_iter *x = NULL;
		switch (t) {
		case R_ITER: x = mtbl_source_iter(s[i]); break;
		case R_GET: x = mtbl_source_get(s[i], k0, l0); break;
		case R_PREFIX: x = mtbl_source_get_prefix(s[i], k0, l0); break;
		case R_RANGE: x = mtbl_source_get_range(s[i], k0, l0, k1, l1); break;
		}
		if (x) it->e[it->n++].it = x;
	}
	return mtbl_iter_init(miter_seek, miter_next, miter_free, it);
}
static struct mtbl_iter *m_iter(void *c) { struct mtbl_merger *m = c; return miter_make(m->s, m->n, &m->o, R_ITER, 0, 0, 0, 0, 0, 0); }
static struct mtbl_iter *m_get(void *c, const uint8_t *k, size_t l) { struct mtbl_merger *m = c; return miter_make(m->s, m->n, &m->o, R_GET, k, l, 0, 0, 0, 0); }
static struct mtbl_iter *m_prefix(void *c, const uint8_t *k, size_t l) { struct mtbl_merger *m = c; return miter_make(m->s, m->n, &m->o, R_PREFIX, k, l, 0, 0, 0, 0); }
static struct mtbl_iter *m_range(void *c, const uint8_t *k, size_t l, const uint8_t *k1, size_t l1)
{ struct mtbl_merger *m = c; return miter_make(m->s, m->n, &m->o, R_RANGE, k, l, k1, l1, 0, 0); }

struct mtbl_merger_options *mtbl_merger_options_init(void) { return xcalloc(1, sizeof(struct mtbl_merger_options)); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { free(*o); *o = NULL; }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->mf = f; o->mclos = c; }
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *o, mtbl_dupsort_func f, void *c) { o->df = f; o->dclos = c; }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o)
{
	struct mtbl_merger *m = xcalloc(1, sizeof *m);
	if (o) m->o = *o;
	m->src = mtbl_source_init(m_iter, m_get, m_prefix, m_range, NULL, m);
	ATOMIC_ADD(vf_mtbl_live_mergers, 1);
	return m;
}
void mtbl_merger_destroy(struct mtbl_merger **m)
{
	if (*m) { mtbl_source_destroy(&(*m)->src); free((*m)->s); free(*m); *m = NULL; ATOMIC_ADD(vf_mtbl_live_mergers, -1); }
}
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s)
{ m->s = xrealloc(m->s, (m->n + 1) * sizeof *m->s); m->s[m->n++] = s; }
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->src; }

/* ---------------------------------------------------------------- fileset */
struct mtbl_fileset_options {
	mtbl_merge_func mf; void *mclos; mtbl_dupsort_func df; void *dclos;
	mtbl_filename_filter_func ff; void *fclos; mtbl_reader_filter_func rf; void *rclos; uint32_t interval;
};
struct fsent { char *name; struct mtbl_reader *r; };
struct fsshared { char *setfile, *dir; struct fsent *e; size_t n; long refs; ino_t ino; struct timespec mt; bool loaded; unsigned long gen; };
struct mtbl_fileset { struct fsshared *sh; struct mtbl_fileset_options o; struct mtbl_source *src;
	struct mtbl_reader **r; size_t nr; unsigned long gen; bool built, dup; };
struct mtbl_fileset_options *mtbl_fileset_options_init(void)
{ struct mtbl_fileset_options *o = xcalloc(1, sizeof *o); o->interval = 60; return o; }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { free(*o); *o = NULL; }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->mf = f; o->mclos = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->df = f; o->dclos = c; }
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *o, mtbl_filename_filter_func f, void *c) { o->ff = f; o->fclos = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rf = f; o->rclos = c; }
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *o, uint32_t i) { o->interval = i; }
static void fs_load(struct fsshared *sh)
{
	FILE *fp = fopen(sh->setfile, "r");
	if (!fp) return;
	struct fsent *ne = NULL; size_t nn = 0;
	char *line = NULL; size_t ll = 0; ssize_t r;
	while ((r = getline(&line, &ll, fp)) != -1) {
		while (r > 0 && (line[r - 1] == '\n' || line[r - 1] == '\r')) line[--r] = 0;
		if (!r) continue;
		char *fn = NULL;
		if (line[0] == '/') fn = strdup(line);
		else if (asprintf(&fn, "%s/%s", sh->dir, line) < 0) abort();
		struct mtbl_reader *rd = NULL;
		for (size_t i = 0; i < sh->n; i++) if (!strcmp(sh->e[i].name, fn)) { rd = sh->e[i].r; reader_ref(rd); }
		if (!rd) rd = mtbl_reader_init(fn, NULL);
		if (!rd) { free(fn); continue; }
		ne = xrealloc(ne, (nn + 1) * sizeof *ne);
		ne[nn].name = fn; ne[nn++].r = rd;
	}
	free(line); fclose(fp);
	for (size_t i = 0; i < sh->n; i++) { free(sh->e[i].name); reader_unref(sh->e[i].r); }
	free(sh->e);
	sh->e = ne; sh->n = nn; sh->loaded = true; sh->gen++;
}
void mtbl_fileset_reload_now(struct mtbl_fileset *f) { fs_load(f->sh); }
void mtbl_fileset_reload(struct mtbl_fileset *f) { if (!f->sh->loaded) fs_load(f->sh); }
struct fsrel { struct mtbl_reader **r; size_t n; };
static void fs_release(void *c) { struct fsrel *x = c; for (size_t i = 0; i < x->n; i++) reader_unref(x->r[i]); free(x->r); free(x); }
/* The reader filter runs once per (re)build of a fileset's merger, as in libmtbl:
 * at init/dup time, and again only after a reload changed the shared list.
 * A duplicate keeps the snapshot it was made from. */
static void fs_drop(struct mtbl_fileset *f)
{
	for (size_t i = 0; i < f->nr; i++) reader_unref(f->r[i]);
	free(f->r); f->r = NULL; f->nr = 0;
}
static void fs_build(struct mtbl_fileset *f)
{
	fs_drop(f);
	f->r = xcalloc(f->sh->n + 1, sizeof *f->r);
	for (size_t i = 0; i < f->sh->n; i++) {
		if (f->o.ff && !f->o.ff(f->sh->e[i].name, f->o.fclos)) continue;
		if (f->o.rf && !f->o.rf(f->sh->e[i].r, f->o.rclos)) continue;
		reader_ref(f->sh->e[i].r);
		f->r[f->nr++] = f->sh->e[i].r;
	}
	f->gen = f->sh->gen; f->built = true;
}
static struct mtbl_iter *fs_make(struct mtbl_fileset *f, enum rtype t, const uint8_t *k0, size_t l0, const uint8_t *k1, size_t l1)
{
	if (!f->dup) mtbl_fileset_reload(f);
	if (!f->built || (!f->dup && f->gen != f->sh->gen)) fs_build(f);
	struct fsrel *x = xcalloc(1, sizeof *x);
	x->r = xcalloc(f->nr + 1, sizeof *x->r);
	const struct mtbl_source **s = xcalloc(f->nr + 1, sizeof *s);
	for (size_t i = 0; i < f->nr; i++) {
		reader_ref(f->r[i]);
		x->r[x->n] = f->r[i];
		s[x->n++] = f->r[i]->src;
	}
	struct mtbl_merger_options mo = { f->o.mf, f->o.mclos, f->o.df, f->o.dclos };
	struct mtbl_iter *it = miter_make(s, x->n, &mo, t, k0, l0, k1, l1, fs_release, x);
	free(s);
	return it;
}
static struct mtbl_iter *f_iter(void *c) { return fs_make(c, R_ITER, 0, 0, 0, 0); }
static struct mtbl_iter *f_get(void *c, const uint8_t *k, size_t l) { return fs_make(c, R_GET, k, l, 0, 0); }
static struct mtbl_iter *f_prefix(void *c, const uint8_t *k, size_t l) { return fs_make(c, R_PREFIX, k, l, 0, 0); }
static struct mtbl_iter *f_range(void *c, const uint8_t *k, size_t l, const uint8_t *k1, size_t l1) { return fs_make(c, R_RANGE, k, l, k1, l1); }
static struct mtbl_fileset *fs_new(struct fsshared *sh, const struct mtbl_fileset_options *o)
{
	struct mtbl_fileset *f = xcalloc(1, sizeof *f);
	f->sh = sh; __atomic_add_fetch(&sh->refs, 1, __ATOMIC_ACQ_REL);
	if (o) f->o = *o;
	f->src = mtbl_source_init(f_iter, f_get, f_prefix, f_range, NULL, f);
	ATOMIC_ADD(vf_mtbl_live_filesets, 1);
	return f;
}
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *o)
{
	struct stat sb;
	assert(stat(fname, &sb) == 0);
	struct fsshared *sh = xcalloc(1, sizeof *sh);
	sh->setfile = strdup(fname);
	char *t = strdup(fname); sh->dir = strdup(dirname(t)); free(t);
	struct mtbl_fileset *f = fs_new(sh, o);
	fs_load(sh);
	return f;
}
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *f, const struct mtbl_fileset_options *o) { struct mtbl_fileset *d = fs_new(f->sh, o); d->dup = true; fs_build(d); return d; }
void mtbl_fileset_destroy(struct mtbl_fileset **pf)
{
	struct mtbl_fileset *f = *pf;
	if (!f) return;
	struct fsshared *sh = f->sh;
	if (__atomic_sub_fetch(&sh->refs, 1, __ATOMIC_ACQ_REL) == 0) {
		for (size_t i = 0; i < sh->n; i++) { free(sh->e[i].name); reader_unref(sh->e[i].r); }
		free(sh->e); free(sh->setfile); free(sh->dir); free(sh);
	}
	fs_drop(f);
	mtbl_source_destroy(&f->src);
	free(f); *pf = NULL;
	ATOMIC_ADD(vf_mtbl_live_filesets, -1);
}
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { return f->src; }
