// Entry points of libmy, and C wrappers for the parts of it that live in headers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <ctime>
extern "C" {
typedef uint32_t (*my_crc32c_fp)(const uint8_t *, size_t);
extern my_crc32c_fp my_crc32c;
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
bool my_crc32c_sse42_supported(void);
uint32_t my_crc32c_sse42(const uint8_t *, size_t);
size_t base32_decode(void *, size_t, const char *, size_t);
size_t base32_encode(char *, size_t, const void *, size_t);
typedef struct { int step; char plainchar; } base64_decodestate;
void base64_init_decodestate(base64_decodestate *);
int base64_decode_value(char);
int base64_decode_block(const char *, const int, char *, base64_decodestate *);
typedef struct { int step; char result; } base64_encodestate;
void base64_init_encodestate(base64_encodestate *);
char base64_encode_value(char);
int base64_encode_block(const char *, int, char *, base64_encodestate *);
int base64_encode_blockend(char *, base64_encodestate *);
unsigned varint_length(uint64_t);
unsigned varint_length_packed(const uint8_t *, size_t);
size_t varint_encode32(uint8_t *, uint32_t);
size_t varint_encode64(uint8_t *, uint64_t);
size_t varint_decode32(const uint8_t *, uint32_t *);
size_t varint_decode64(const uint8_t *, uint64_t *);
size_t my_bytes_to_hex_str(const uint8_t *, size_t, bool, char *, size_t);
size_t my_uint16_to_hex_str(uint16_t, bool, char *, size_t);
size_t my_uint64_to_str(uint64_t, char *, size_t, const char **);
struct heap;
struct heap *heap_init(int (*)(const void *, const void *));
void heap_destroy(struct heap **);
void heap_reset(struct heap *);
void heap_clip(struct heap *, size_t);
void heap_heapify(struct heap *);
void heap_add(struct heap *, void *);
void heap_push(struct heap *, void *);
void *heap_pop(struct heap *);
void *heap_replace(struct heap *, void *);
void *heap_peek(struct heap *);
void *heap_get(struct heap *, size_t);
size_t heap_size(struct heap *);
uint32_t my_hashword(const uint32_t *, size_t, uint32_t);
uint32_t my_hashlittle(const void *, size_t, uint32_t);
uint32_t my_hashbig(const void *, size_t, uint32_t);
void my_hashword2(const uint32_t *, size_t, uint32_t *, uint32_t *);
void my_hashlittle2(const void *, size_t, uint32_t *, uint32_t *);
struct my_fileset;
struct my_fileset *my_fileset_init(const char *, void *(*)(struct my_fileset *, const char *), void (*)(struct my_fileset *, const char *, void *), void *);
void my_fileset_destroy(struct my_fileset **);
void *my_fileset_user(struct my_fileset *);
void my_fileset_reload(struct my_fileset *);
bool my_fileset_get(struct my_fileset *, size_t, const char **, void **);
struct spooldir;
struct spooldir *spooldir_init(const char *);
void spooldir_destroy(struct spooldir **);
char *spooldir_next(struct spooldir *);
struct my_rate;
struct my_rate *my_rate_init(unsigned, unsigned);
void my_rate_destroy(struct my_rate **);
void my_rate_sleep(struct my_rate *);
void my_threadnum_register(void);
int my_threadnum(void);
struct my_queue;
struct my_queue_ops {
	struct my_queue *(*init)(unsigned, unsigned);
	void (*destroy)(struct my_queue **);
	const char *(*impl_type)(void);
	bool (*insert)(struct my_queue *, void *, unsigned *);
	bool (*remove)(struct my_queue *, void *, unsigned *);
};
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
struct my_queue *my_queue_init(unsigned, unsigned);
void my_queue_destroy(struct my_queue **);
bool my_queue_insert(struct my_queue *, void *, unsigned *);
bool my_queue_remove(struct my_queue *, void *, unsigned *);
const char *my_queue_impl_type(void);

// header-only parts (my_wrap.c)
void w_ip4_lower(const void *, unsigned, void *); void w_ip4_upper(const void *, unsigned, void *); void w_ip4_incr(void *);
void w_ip6_lower(const void *, unsigned, void *); void w_ip6_upper(const void *, unsigned, void *); void w_ip6_incr(void *);
bool w_hex_decode(const char *, uint8_t **, size_t *); bool w_hex_to_int(char, uint8_t *);
// vectors: kind 0 = bytes, 1 = 32-bit words, 2 = 12-byte records
void *wv_init(int kind, unsigned hint); void wv_destroy(int kind, void **v);
void wv_add(int k, void *v, const void *elem); void wv_append(int k, void *v, const void *elems, size_t n);
void wv_extend(int k, void *v, void *o); void wv_reset(int k, void *v); void wv_clip(int k, void *v, size_t n);
void wv_reserve(int k, void *v, size_t n); size_t wv_size(int k, void *v); size_t wv_bytes(int k, void *v);
void wv_value(int k, void *v, size_t i, void *out); void *wv_ptr(int k, void *v); void *wv_data(int k, void *v);
void wv_advance(int k, void *v, size_t n); void wv_detach(int k, void *v, void **out, size_t *n); void wv_reinit(int k, unsigned hint, void *v);
void *wu_new(void); void *wu_dup_cstr(const char *s);
void wu_add_cstr(void *u, const char *s); void wu_cterm(void *u); char *wu_cstr(void *u); void wu_rstrip(void *u, char c); void wu_pb_append(void *, const void *, size_t);
void wu_add_fmt(void *u, const char *s, long d, const char *s2);
char *w_string_replace(const char *, const char *, const char *);
void w_print_string(const void *, size_t, FILE *);
void w_ts_add(const struct timespec *, struct timespec *); void w_ts_sub(const struct timespec *, struct timespec *);
int w_ts_cmp(const struct timespec *, const struct timespec *); double w_ts_to_double(const struct timespec *);
void w_ts_from_double(double, struct timespec *); void w_nanosleep(const struct timespec *);
bool w_getenv_int(const char *, uint64_t *); bool w_read_bytes(int, uint8_t *, size_t);
uint64_t w_bo(int which, uint64_t v);
// lists: ops on a fixed pool of nodes
struct wl_node; struct wl_list;
struct wl_list *wl_new(size_t nodes); void wl_free(struct wl_list *);
void wl_op(struct wl_list *, int op, int list, int a, int b);	// see my_wrap.c
int wl_walk(struct wl_list *, int list, int back, int *ids, int max); int wl_empty(struct wl_list *, int list); int wl_linked(struct wl_list *, int a);
// trees: kind 0 = red-black, 1 = splay
struct wt_tree;
struct wt_tree *wt_new(int kind); void wt_free(struct wt_tree *);
int wt_insert(struct wt_tree *, long key, long id);	// id of an equal element already there, or -1
int wt_remove(struct wt_tree *, long key);		// id removed, or -1
long wt_find(struct wt_tree *, long key);		// id, or -1
long wt_nfind(struct wt_tree *, long key, long *kout);	// first >= key (red-black only)
int wt_walk(struct wt_tree *, int back, long *keys, int max);
int wt_minmax(struct wt_tree *, long *mn, long *mx);
int wt_check(struct wt_tree *);				// 0 = structural invariants hold
int wt_step(struct wt_tree *, long key, int back, long *out);	// successor / predecessor of an existing key
}
