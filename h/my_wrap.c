/* C wrappers around the header-only parts of libmy */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libmy/my_alloc.h"
#include "libmy/my_byteorder.h"
#include "libmy/ip_arith.h"
#include "libmy/hex_decode.h"
#include "libmy/vector.h"
#include "libmy/ubuf.h"
#include "libmy/ubuf-pb.h"
#include "libmy/string_replace.h"
#include "libmy/print_string.h"
#include "libmy/my_time.h"
#include "libmy/getenv_int.h"
#include "libmy/read_bytes.h"
#include "libmy/list.h"
#include "libmy/tree.h"

void w_ip4_lower(const void *a, unsigned p, void *o) { ip4_lower(a, p, o); }
void w_ip4_upper(const void *a, unsigned p, void *o) { ip4_upper(a, p, o); }
void w_ip4_incr(void *a) { ip4_incr(a); }
void w_ip6_lower(const void *a, unsigned p, void *o) { ip6_lower(a, p, o); }
void w_ip6_upper(const void *a, unsigned p, void *o) { ip6_upper(a, p, o); }
void w_ip6_incr(void *a) { ip6_incr(a); }
bool w_hex_decode(const char *h, uint8_t **r, size_t *l) { return hex_decode(h, r, l); }
bool w_hex_to_int(char c, uint8_t *v) { return hex_to_int(c, v); }

typedef struct { uint32_t a, b, c; } rec;
VECTOR_GENERATE(v32, uint32_t);
VECTOR_GENERATE(vrec, rec);
#define ALL(call8, call32, callrec) do { if (k == 0) { call8; } else if (k == 1) { call32; } else { callrec; } } while (0)
void *wv_init(int k, unsigned h) { return k == 0 ? (void *) ubuf_init(h) : k == 1 ? (void *) v32_init(h) : (void *) vrec_init(h); }
void wv_destroy(int k, void **v) { ALL(ubuf_destroy((ubuf **) v), v32_destroy((v32 **) v), vrec_destroy((vrec **) v)); }
void wv_add(int k, void *v, const void *e) { ALL(ubuf_add(v, *(const uint8_t *) e), v32_add(v, *(const uint32_t *) e), vrec_add(v, *(const rec *) e)); }
void wv_append(int k, void *v, const void *e, size_t n) { ALL(ubuf_append(v, e, n), v32_append(v, e, n), vrec_append(v, e, n)); }
void wv_extend(int k, void *v, void *o) { ALL(ubuf_extend(v, o), v32_extend(v, o), vrec_extend(v, o)); }
void wv_reset(int k, void *v) { ALL(ubuf_reset(v), v32_reset(v), vrec_reset(v)); }
void wv_clip(int k, void *v, size_t n) { ALL(ubuf_clip(v, n), v32_clip(v, n), vrec_clip(v, n)); }
void wv_reserve(int k, void *v, size_t n) { ALL(ubuf_reserve(v, n), v32_reserve(v, n), vrec_reserve(v, n)); }
size_t wv_size(int k, void *v) { size_t r; ALL(r = ubuf_size(v), r = v32_size(v), r = vrec_size(v)); return r; }
size_t wv_bytes(int k, void *v) { size_t r; ALL(r = ubuf_bytes(v), r = v32_bytes(v), r = vrec_bytes(v)); return r; }
void wv_value(int k, void *v, size_t i, void *o) { ALL(*(uint8_t *) o = ubuf_value(v, i), *(uint32_t *) o = v32_value(v, i), *(rec *) o = vrec_value(v, i)); }
void *wv_ptr(int k, void *v) { void *r; ALL(r = ubuf_ptr(v), r = v32_ptr(v), r = vrec_ptr(v)); return r; }
void *wv_data(int k, void *v) { void *r; ALL(r = ubuf_data(v), r = v32_data(v), r = vrec_data(v)); return r; }
void wv_advance(int k, void *v, size_t n) { ALL(ubuf_advance(v, n), v32_advance(v, n), vrec_advance(v, n)); }
void wv_detach(int k, void *v, void **o, size_t *n) { ALL(ubuf_detach(v, (uint8_t **) o, n), v32_detach(v, (uint32_t **) o, n), vrec_detach(v, (rec **) o, n)); }
void wv_reinit(int k, unsigned h, void *v) { ALL(ubuf_reinit(h, v), v32_reinit(h, v), vrec_reinit(h, v)); }
void *wu_new(void) { return ubuf_new(); }
void *wu_dup_cstr(const char *s) { return ubuf_dup_cstr(s); }
void wu_add_cstr(void *u, const char *s) { ubuf_add_cstr(u, s); }
void wu_cterm(void *u) { ubuf_cterm(u); }
char *wu_cstr(void *u) { return ubuf_cstr(u); }
void wu_rstrip(void *u, char c) { ubuf_rstrip(u, c); }
void wu_add_fmt(void *u, const char *s, long d, const char *s2) { ubuf_add_fmt(u, "%s|%ld|%s", s, d, s2); }
void wu_pb_append(void *u, const void *d, size_t n) { struct ubuf_protobuf_c_buffer b = UBUF_PROTOBUF_C_BUFFER_INIT(u); b.base.append(&b.base, n, d); }
char *w_string_replace(const char *a, const char *b, const char *c) { return string_replace(a, b, c); }
void w_print_string(const void *d, size_t n, FILE *f) { print_string(d, n, f); }
void w_ts_add(const struct timespec *a, struct timespec *b) { my_timespec_add(a, b); }
void w_ts_sub(const struct timespec *a, struct timespec *b) { my_timespec_sub(a, b); }
int w_ts_cmp(const struct timespec *a, const struct timespec *b) { return my_timespec_cmp(a, b); }
double w_ts_to_double(const struct timespec *t) { return my_timespec_to_double(t); }
void w_ts_from_double(double d, struct timespec *t) { my_timespec_from_double(d, t); }
void w_nanosleep(const struct timespec *t) { my_nanosleep(t); }
bool w_getenv_int(const char *n, uint64_t *v) { return getenv_int(n, v); }
bool w_read_bytes(int fd, uint8_t *b, size_t n) { return read_bytes(fd, b, n); }
uint64_t w_bo(int w, uint64_t v)
{
	switch (w) {
	case 0: return htobe16(v); case 1: return htobe32(v); case 2: return htobe64(v);
	case 3: return htole16(v); case 4: return htole32(v); case 5: return htole64(v);
	case 6: return be16toh(v); case 7: return be32toh(v); case 8: return be64toh(v);
	case 9: return le16toh(v); case 10: return le32toh(v); default: return le64toh(v);
	}
}

/* ---- lists ---- */
struct wl_node { int id; ISC_LINK(struct wl_node) link; };
struct wl_list { size_t n; struct wl_node **nodes; ISC_LIST(struct wl_node) l[2]; };
struct wl_list *wl_new(size_t n)
{
	struct wl_list *w = malloc(sizeof *w); memset(w, 0xa5, sizeof *w);
	w->n = n;
	w->nodes = calloc(n, sizeof *w->nodes);
	for (size_t i = 0; i < n; i++) { w->nodes[i] = malloc(sizeof(struct wl_node)); w->nodes[i]->id = i; ISC_LINK_INIT(w->nodes[i], link); }
	ISC_LIST_INIT(w->l[0]);
	ISC_LIST_INIT(w->l[1]);
	return w;
}
void wl_free(struct wl_list *w) { for (size_t i = 0; i < w->n; i++) free(w->nodes[i]); free(w->nodes); free(w); }
void wl_op(struct wl_list *w, int op, int list, int a, int b)
{
	struct wl_node *A = a >= 0 ? w->nodes[a] : NULL, *Bn = b >= 0 ? w->nodes[b] : NULL;
	switch (op) {
	case 0: ISC_LIST_PREPEND(w->l[list], A, link); break;
	case 1: ISC_LIST_APPEND(w->l[list], A, link); break;
	case 2: ISC_LIST_UNLINK(w->l[list], A, link); break;
	case 3: ISC_LIST_INSERTBEFORE(w->l[list], Bn, A, link); break;
	case 4: ISC_LIST_INSERTAFTER(w->l[list], Bn, A, link); break;
	case 5: ISC_LIST_APPENDLIST(w->l[list], w->l[1 - list], link); break;
	case 6: ISC_LIST_ENQUEUE(w->l[list], A, link); break;
	case 7: ISC_LIST_DEQUEUE(w->l[list], A, link); break;
	}
}
int wl_walk(struct wl_list *w, int list, int back, int *ids, int max)
{
	int n = 0;
	struct wl_node *e = back ? ISC_LIST_TAIL(w->l[list]) : ISC_LIST_HEAD(w->l[list]);
	while (e != NULL && n < max) {
		ids[n++] = e->id;
		e = back ? ISC_LIST_PREV(e, link) : ISC_LIST_NEXT(e, link);
	}
	return n;
}
int wl_empty(struct wl_list *w, int list) { return ISC_LIST_EMPTY(w->l[list]); }
int wl_linked(struct wl_list *w, int a) { return ISC_LINK_LINKED(w->nodes[a], link); }

/* ---- trees ---- */
struct rbn { long key, id; RB_ENTRY(rbn) e; };
struct spn { long key, id; SPLAY_ENTRY(spn) e; };
static int rbcmp(struct rbn *a, struct rbn *b) { return a->key < b->key ? -1 : a->key > b->key; }
static int spcmp(struct spn *a, struct spn *b) { return a->key < b->key ? -1 : a->key > b->key; }
RB_HEAD(rbt, rbn);
RB_PROTOTYPE(rbt, rbn, e, rbcmp)
RB_GENERATE(rbt, rbn, e, rbcmp)
SPLAY_HEAD(spt, spn);
SPLAY_PROTOTYPE(spt, spn, e, spcmp)
SPLAY_GENERATE(spt, spn, e, spcmp)
struct wt_tree { int kind; struct rbt rb; struct spt sp; };
struct wt_tree *wt_new(int kind) { struct wt_tree *t = malloc(sizeof *t); memset(t, 0xa5, sizeof *t); t->kind = kind; RB_INIT(&t->rb); SPLAY_INIT(&t->sp); return t; }
void wt_free(struct wt_tree *t)
{
	struct rbn *r; struct spn *s;
	while ((r = RB_ROOT(&t->rb)) != NULL) { RB_REMOVE(rbt, &t->rb, r); free(r); }
	while ((s = SPLAY_ROOT(&t->sp)) != NULL) { SPLAY_REMOVE(spt, &t->sp, s); free(s); }
	free(t);
}
int wt_insert(struct wt_tree *t, long key, long id)
{
	if (t->kind == 0) {
		struct rbn *n = malloc(sizeof *n), *o;
		memset(n, 0xa5, sizeof *n);
		n->key = key; n->id = id;
		o = RB_INSERT(rbt, &t->rb, n);
		if (o != NULL) { free(n); return o->id; }
	} else {
		struct spn *n = malloc(sizeof *n), *o;
		memset(n, 0xa5, sizeof *n);
		n->key = key; n->id = id;
		o = SPLAY_INSERT(spt, &t->sp, n);
		if (o != NULL) { free(n); return o->id; }
	}
	return -1;
}
int wt_remove(struct wt_tree *t, long key)
{
	int id;
	if (t->kind == 0) {
		struct rbn k, *n;
		k.key = key;
		n = RB_FIND(rbt, &t->rb, &k);
		if (n == NULL) return -1;
		if (RB_REMOVE(rbt, &t->rb, n) != n) return -2;
		id = n->id; free(n);
	} else {
		struct spn k, *n;
		k.key = key;
		n = SPLAY_FIND(spt, &t->sp, &k);
		if (n == NULL) return -1;
		if (SPLAY_REMOVE(spt, &t->sp, n) != n) return -2;
		id = n->id; free(n);
	}
	return id;
}
long wt_find(struct wt_tree *t, long key)
{
	if (t->kind == 0) { struct rbn k, *n; k.key = key; n = RB_FIND(rbt, &t->rb, &k); return n ? n->id : -1; }
	struct spn k, *n; k.key = key; n = SPLAY_FIND(spt, &t->sp, &k); return n ? n->id : -1;
}
long wt_nfind(struct wt_tree *t, long key, long *ko)
{
	struct rbn k, *n;
	k.key = key; n = RB_NFIND(rbt, &t->rb, &k);
	if (n == NULL) return -1;
	*ko = n->key;
	return n->id;
}
int wt_walk(struct wt_tree *t, int back, long *keys, int max)
{
	int c = 0;
	if (t->kind == 0) {
		struct rbn *n;
		if (back) { RB_FOREACH_REVERSE(n, rbt, &t->rb) { if (c < max) keys[c++] = n->key; else break; } }
		else { RB_FOREACH(n, rbt, &t->rb) { if (c < max) keys[c++] = n->key; else break; } }
	} else {
		struct spn *n;
		SPLAY_FOREACH(n, spt, &t->sp) { if (c < max) keys[c++] = n->key; else break; }
	}
	return c;
}
int wt_minmax(struct wt_tree *t, long *mn, long *mx)
{
	if (t->kind == 0) {
		struct rbn *a = RB_MIN(rbt, &t->rb), *b = RB_MAX(rbt, &t->rb);
		if (a == NULL || b == NULL) return a == NULL && b == NULL ? 0 : -1;
		*mn = a->key; *mx = b->key;
	} else {
		struct spn *a = SPLAY_MIN(spt, &t->sp), *b = SPLAY_MAX(spt, &t->sp);
		if (a == NULL || b == NULL) return a == NULL && b == NULL ? 0 : -1;
		*mn = a->key; *mx = b->key;
	}
	return 1;
}
int wt_step(struct wt_tree *t, long key, int back, long *out)
{
	if (t->kind == 0) {
		struct rbn k, *n; k.key = key; n = RB_FIND(rbt, &t->rb, &k);
		if (n == NULL) return -2;
		n = back ? RB_PREV(rbt, &t->rb, n) : RB_NEXT(rbt, &t->rb, n);
		if (n == NULL) return 0;
		*out = n->key; return 1;
	}
	struct spn k, *n; k.key = key; n = SPLAY_FIND(spt, &t->sp, &k);
	if (n == NULL) return -2;
	n = SPLAY_NEXT(spt, &t->sp, n);
	if (n == NULL) return 0;
	*out = n->key; return 1;
}
static int rbchk(struct rbn *n, struct rbn *parent, int *bh)
{
	if (n == NULL) { *bh = 1; return 0; }
	int l, r, x;
	if (RB_PARENT(n, e) != parent) return 1;
	if (RB_COLOR(n, e) != RB_RED && RB_COLOR(n, e) != RB_BLACK) return 2;
	if (RB_COLOR(n, e) == RB_RED && ((RB_LEFT(n, e) && RB_COLOR(RB_LEFT(n, e), e) == RB_RED) || (RB_RIGHT(n, e) && RB_COLOR(RB_RIGHT(n, e), e) == RB_RED))) return 3;
	if ((x = rbchk(RB_LEFT(n, e), n, &l)) != 0) return x;
	if ((x = rbchk(RB_RIGHT(n, e), n, &r)) != 0) return x;
	if (l != r) return 4;
	*bh = l + (RB_COLOR(n, e) == RB_BLACK);
	return 0;
}
int wt_check(struct wt_tree *t)
{
	int bh;
	if (t->kind != 0 || RB_ROOT(&t->rb) == NULL) return 0;
	if (RB_COLOR(RB_ROOT(&t->rb), e) != RB_BLACK) return 5;
	return rbchk(RB_ROOT(&t->rb), NULL, &bh);
}
