/*
 * Stand-in for libmtbl >= 1.6 (not installed in this sandbox).
 * Same API, same on-disk format; deliberately hostile to misuse: every key and
 * value handed out is an exact-size heap block freed at the next call on the
 * same iterator, so that any out-of-bounds or stale access is visible to ASan.
 */
#ifndef MTBL_H
#define MTBL_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef enum { mtbl_res_failure = 0, mtbl_res_success = 1 } mtbl_res;
typedef enum {
	MTBL_COMPRESSION_NONE = 0, MTBL_COMPRESSION_SNAPPY = 1, MTBL_COMPRESSION_ZLIB = 2,
	MTBL_COMPRESSION_LZ4 = 3, MTBL_COMPRESSION_LZ4HC = 4, MTBL_COMPRESSION_ZSTD = 5
} mtbl_compression_type;

struct mtbl_iter; struct mtbl_source; struct mtbl_reader; struct mtbl_reader_options;
struct mtbl_writer; struct mtbl_writer_options; struct mtbl_merger; struct mtbl_merger_options;
struct mtbl_fileset; struct mtbl_fileset_options;

typedef void (*mtbl_merge_func)(void *clos, const uint8_t *key, size_t len_key,
	const uint8_t *val0, size_t len_val0, const uint8_t *val1, size_t len_val1,
	uint8_t **merged_val, size_t *len_merged_val);
typedef int (*mtbl_dupsort_func)(void *clos, const uint8_t *key, size_t len_key,
	const uint8_t *val0, size_t len_val0, const uint8_t *val1, size_t len_val1);
typedef bool (*mtbl_filename_filter_func)(const char *, void *);
typedef bool (*mtbl_reader_filter_func)(struct mtbl_reader *, void *);

/* iter */
typedef mtbl_res (*mtbl_iter_seek_func)(void *, const uint8_t *key, size_t len_key);
typedef mtbl_res (*mtbl_iter_next_func)(void *, const uint8_t **key, size_t *len_key,
	const uint8_t **val, size_t *len_val);
typedef void (*mtbl_iter_free_func)(void *);
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func, mtbl_iter_next_func, mtbl_iter_free_func, void *clos);
void mtbl_iter_destroy(struct mtbl_iter **);
mtbl_res mtbl_iter_seek(struct mtbl_iter *, const uint8_t *key, size_t len_key)
	__attribute__((warn_unused_result));
mtbl_res mtbl_iter_next(struct mtbl_iter *, const uint8_t **key, size_t *len_key,
	const uint8_t **val, size_t *len_val) __attribute__((warn_unused_result));

/* source */
typedef struct mtbl_iter *(*mtbl_source_iter_func)(void *clos);
typedef struct mtbl_iter *(*mtbl_source_get_func)(void *clos, const uint8_t *key, size_t len_key);
typedef struct mtbl_iter *(*mtbl_source_get_prefix_func)(void *clos, const uint8_t *key, size_t len_key);
typedef struct mtbl_iter *(*mtbl_source_get_range_func)(void *clos, const uint8_t *key0, size_t len_key0,
	const uint8_t *key1, size_t len_key1);
typedef void (*mtbl_source_free_func)(void *clos);
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func, mtbl_source_get_func,
	mtbl_source_get_prefix_func, mtbl_source_get_range_func, mtbl_source_free_func, void *clos);
void mtbl_source_destroy(struct mtbl_source **);
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *) __attribute__((warn_unused_result));
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *, const uint8_t *key, size_t len_key)
	__attribute__((warn_unused_result));
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *, const uint8_t *key, size_t len_key)
	__attribute__((warn_unused_result));
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *, const uint8_t *key0, size_t len_key0,
	const uint8_t *key1, size_t len_key1) __attribute__((warn_unused_result));

/* reader */
struct mtbl_reader *mtbl_reader_init(const char *fname, const struct mtbl_reader_options *);
struct mtbl_reader *mtbl_reader_init_fd(int fd, const struct mtbl_reader_options *);
void mtbl_reader_destroy(struct mtbl_reader **);
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *);
struct mtbl_reader_options *mtbl_reader_options_init(void);
void mtbl_reader_options_destroy(struct mtbl_reader_options **);
void mtbl_reader_options_set_verify_checksums(struct mtbl_reader_options *, bool);
void mtbl_reader_options_set_madvise_random(struct mtbl_reader_options *, bool);

/* writer */
struct mtbl_writer *mtbl_writer_init(const char *fname, const struct mtbl_writer_options *);
struct mtbl_writer *mtbl_writer_init_fd(int fd, const struct mtbl_writer_options *);
void mtbl_writer_destroy(struct mtbl_writer **);
mtbl_res mtbl_writer_add(struct mtbl_writer *, const uint8_t *key, size_t len_key,
	const uint8_t *val, size_t len_val);
struct mtbl_writer_options *mtbl_writer_options_init(void);
void mtbl_writer_options_destroy(struct mtbl_writer_options **);
void mtbl_writer_options_set_compression(struct mtbl_writer_options *, mtbl_compression_type);
void mtbl_writer_options_set_block_size(struct mtbl_writer_options *, size_t);

/* merger */
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *);
void mtbl_merger_destroy(struct mtbl_merger **);
void mtbl_merger_add_source(struct mtbl_merger *, const struct mtbl_source *);
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *);
struct mtbl_merger_options *mtbl_merger_options_init(void);
void mtbl_merger_options_destroy(struct mtbl_merger_options **);
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *, mtbl_merge_func, void *clos);
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *, mtbl_dupsort_func, void *clos);

/* fileset */
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *);
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *, const struct mtbl_fileset_options *);
void mtbl_fileset_destroy(struct mtbl_fileset **);
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *);
void mtbl_fileset_reload(struct mtbl_fileset *);
void mtbl_fileset_reload_now(struct mtbl_fileset *);
struct mtbl_fileset_options *mtbl_fileset_options_init(void);
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **);
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *, mtbl_merge_func, void *clos);
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *, mtbl_dupsort_func, void *clos);
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *,
	mtbl_filename_filter_func, void *clos);
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *,
	mtbl_reader_filter_func, void *clos);
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *, uint32_t);

/* varint */
unsigned mtbl_varint_length(uint64_t v) __attribute__((const));
unsigned mtbl_varint_length_packed(const uint8_t *buf, size_t len_buf) __attribute__((pure));
size_t mtbl_varint_encode32(uint8_t *ptr, uint32_t value);
size_t mtbl_varint_encode64(uint8_t *ptr, uint64_t value);
size_t mtbl_varint_decode32(const uint8_t *ptr, uint32_t *value);
size_t mtbl_varint_decode64(const uint8_t *ptr, uint64_t *value);

/* crc32c */
uint32_t mtbl_crc32c(const uint8_t *buf, size_t len);

/* fixed */
size_t mtbl_fixed_encode32(uint8_t *dst, uint32_t value);
size_t mtbl_fixed_encode64(uint8_t *dst, uint64_t value);
uint32_t mtbl_fixed_decode32(const uint8_t *ptr);
uint64_t mtbl_fixed_decode64(const uint8_t *ptr);

/* ---- stand-in specific (test) extensions ---- */
/* an in-memory reader; entries must be added in strictly increasing key order
 * unless allow_dups; bytes are copied. */
struct mtbl_reader *vf_mtbl_reader_mem(void);
void vf_mtbl_reader_mem_add(struct mtbl_reader *, const uint8_t *key, size_t len_key,
	const uint8_t *val, size_t len_val);
/* tie-break seed for the merge order of equal keys, and live-object counters */
extern uint64_t vf_mtbl_tiebreak;
extern long vf_mtbl_live_iters, vf_mtbl_live_sources, vf_mtbl_live_filesets, vf_mtbl_live_mergers;
/* called (if set) before every next/seek of a reader iterator */
extern void (*vf_mtbl_step_hook)(int is_seek);
/* if set, asked first for every file opened by name; may return an in-memory
 * reader (a new reference) or NULL to read the file */
extern struct mtbl_reader *(*vf_mtbl_open_hook)(const char *fname);
void vf_mtbl_reader_ref(struct mtbl_reader *);
extern long vf_mtbl_n_next, vf_mtbl_n_seek, vf_mtbl_n_merge, vf_mtbl_n_merge_set;	/* _set: merges done by file sets */

#ifdef __cplusplus
}
#endif
#endif
