/* the stages of a query (dnstable/query_mtbl.c), seen through the declarations their users see */
#include <mtbl.h>
#include "dnstable-private.h"
void *ws_ljoin(const struct mtbl_source *l, const struct mtbl_source *r, mtbl_merge_func f, void *c) { return ljoin_mtbl_init(l, r, f, c); }
void *ws_filter(const struct mtbl_source *u, filter_mtbl_func f, void *c) { return filter_mtbl_init(u, f, c); }
void *ws_timeout(const struct mtbl_source *u, const struct timespec *d, jmp_buf *e) { return timeout_mtbl_init(u, d, e); }
void *ws_remove(const struct mtbl_source *u, const struct mtbl_source **rm, size_t n)
{
	struct remove_mtbl *r = remove_mtbl_init();
	size_t i;
	for (i = 0; i < n / 2; i++) remove_mtbl_add_source(r, rm[i]);
	remove_mtbl_set_upstream(r, u);
	for (; i < n; i++) remove_mtbl_add_source(r, rm[i]);
	return r;
}
const struct mtbl_source *ws_source(int k, void *s) { return k == 0 ? ljoin_mtbl_source(s) : k == 1 ? filter_mtbl_source(s) : k == 2 ? remove_mtbl_source(s) : timeout_mtbl_source(s); }
void ws_destroy(int k, void **s) { if (k == 0) ljoin_mtbl_destroy((void *) s); else if (k == 1) filter_mtbl_destroy((void *) s); else if (k == 2) remove_mtbl_destroy((void *) s); else timeout_mtbl_destroy((void *) s); }
int ws_counter(int k, void *s, int cat, bool *ex, uint64_t *n)
{ return (k == 0 ? ljoin_mtbl_get_counter(s, cat, ex, n) : k == 1 ? filter_mtbl_get_counter(s, cat, ex, n) : remove_mtbl_get_counter(s, cat, ex, n)) == dnstable_res_success; }
