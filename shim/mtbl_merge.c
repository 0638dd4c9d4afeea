/* Stand-in for the mtbl_merge tool: mtbl_merge IN... OUT, merge function from MTBL_MERGE_DSO / MTBL_MERGE_FUNC_PREFIX */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "mtbl.h"
int main(int argc, char **argv)
{
	const char *dso = getenv("MTBL_MERGE_DSO"), *pfx = getenv("MTBL_MERGE_FUNC_PREFIX");
	if (argc < 3 || !dso || !pfx) { fprintf(stderr, "mtbl_merge: usage\n"); return 1; }
	void *h = dlopen(dso, RTLD_NOW);
	if (!h) { fprintf(stderr, "mtbl_merge: %s\n", dlerror()); return 1; }
	char *sym; if (asprintf(&sym, "%s_func", pfx) < 0) return 1;
	mtbl_merge_func mf = (mtbl_merge_func) dlsym(h, sym);
	if (!mf) { fprintf(stderr, "mtbl_merge: %s\n", dlerror()); return 1; }
	struct mtbl_merger_options *mo = mtbl_merger_options_init();
	mtbl_merger_options_set_merge_func(mo, mf, NULL);
	struct mtbl_merger *m = mtbl_merger_init(mo);
	mtbl_merger_options_destroy(&mo);
	struct mtbl_reader **rs = calloc(argc, sizeof *rs);
	for (int i = 1; i < argc - 1; i++) {
		struct mtbl_reader *r = mtbl_reader_init(argv[i], NULL);
		if (!r) { fprintf(stderr, "mtbl_merge: cannot open %s\n", argv[i]); return 1; }
		rs[i] = r;
		mtbl_merger_add_source(m, mtbl_reader_source(r));
	}
	struct mtbl_writer *w = mtbl_writer_init(argv[argc - 1], NULL);
	if (!w) { fprintf(stderr, "mtbl_merge: cannot create %s\n", argv[argc - 1]); return 1; }
	struct mtbl_iter *it = mtbl_source_iter(mtbl_merger_source(m));
	const uint8_t *k, *v; size_t lk, lv;
	while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success)
		if (mtbl_writer_add(w, k, lk, v, lv) != mtbl_res_success) return 1;
	mtbl_iter_destroy(&it);
	mtbl_writer_destroy(&w);
	mtbl_merger_destroy(&m);
	for (int i = 1; i < argc - 1; i++) mtbl_reader_destroy(&rs[i]);
	free(rs); free(sym);
	return 0;
}
