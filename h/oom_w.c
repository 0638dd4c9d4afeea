/* sessions of libmy under refused requests for memory: containers, conversions, queues, file sets and command lines */
#include "oom.h"
#include <stdbool.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <utime.h>
#include "libmy/my_alloc.h"
#include "libmy/vector.h"
#include "libmy/ubuf.h"
#include "libmy/heap.h"
#include "libmy/hex_decode.h"
#include "libmy/string_replace.h"
#include "libmy/my_fileset.h"
#include "libmy/my_queue.h"
#include "libmy/my_rate.h"
#include "libmy/argv.h"
int oom_obs(int ok, const char *f, ...);
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
static uint64_t S; static unsigned rnd(unsigned n) { S = S * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned) (S >> 33) % n; }
#define SEE(ok, ...) do { if (!oom_obs((ok) != 0, __VA_ARGS__)) goto out; } while (0)
typedef struct { uint32_t a, b, c; } rec;
VECTOR_GENERATE(vr, rec);
static int cmp(const void *a, const void *b) { int x = *(const int *) a, y = *(const int *) b; return x < y ? -1 : x > y; }
static void *ld(struct my_fileset *f, const char *n) { (void) f; return my_strdup(n); }
static void un(struct my_fileset *f, const char *n, void *p) { (void) f; (void) n; free(p); }
static void put(const char *n, const char *s, int t) { FILE *f = fopen(n, "w"); if (!f) return; fputs(s, f); fclose(f); struct utimbuf u = { t, t }; utime(n, &u); }

static int vectors(void)
{
	int r = 0; uint8_t *p = NULL; size_t n = 0; unsigned i, m, sum = 0;
	ubuf *u = ubuf_init(1 + rnd(20)); vr *v = vr_init(1 + rnd(4));
	SEE(u != NULL && v != NULL, "made");
	for (m = rnd(300), i = 0; i < m; i++) switch (rnd(5)) {
		case 0: ubuf_add_cstr(u, "some text"); break;
		case 1: ubuf_add_fmt(u, "%u of %u, %s", i, m, rnd(20) ? "short" : "a rather long piece of text that may not fit into what is there"); break;
		case 2: ubuf_reserve(u, rnd(3000)); ubuf_append(u, (const uint8_t *) "0123456789", rnd(10)); break;
		case 3: { rec x = { i, m, i ^ m }; vr_add(v, x); break; }
		default: { rec x[9]; memset(x, (int) i, sizeof x); vr_append(v, x, rnd(9)); if (!rnd(40)) vr_reset(v); break; }
	}
	for (i = 0; i < vr_size(v); i++) sum = sum * 31 + vr_value(v, i).a + vr_value(v, i).c;
	ubuf_cterm(u);
	for (i = 0; i < ubuf_size(u); i++) sum = sum * 31 + ubuf_value(u, i);
	SEE(1, "%zu bytes, %zu records, %u", ubuf_size(u), vr_size(v), sum);
	ubuf_detach(u, &p, &n);
	SEE(p != NULL && n > 0, "detached %zu", n);
	ubuf_add_cstr(u, "again"); SEE(1, "%.5s", (const char *) ubuf_data(u));
	r = 1;
out:	free(p); if (u) ubuf_destroy(&u); if (v) vr_destroy(&v); return r;
}
static int heaps(void)
{
	int r = 0, x[200], n = (int) rnd(200), i; struct heap *h = heap_init(cmp); char t[2000]; size_t o = 0;
	SEE(h != NULL, "heap");
	for (i = 0; i < n; i++) { x[i] = (int) rnd(1000); if (rnd(2)) heap_push(h, &x[i]); else heap_add(h, &x[i]), heap_heapify(h); }
	SEE(heap_size(h) == (size_t) n, "%zu elements", heap_size(h));
	while (heap_size(h)) { int *p = heap_pop(h); if (o < sizeof t - 20) o += (size_t) sprintf(t + o, " %d", *p); }
	t[o] = 0; SEE(1, "%s", t);
	r = 1;
out:	if (h) heap_destroy(&h); return r;
}
static int texts(void)
{
	int r = 0; uint8_t *p = NULL; size_t n = 0, i; char *s = NULL, h[401]; static const char d[] = "0123456789abcdefABCDEF";
	n = 2 * (1 + rnd(200)); for (i = 0; i < n; i++) h[i] = d[rnd(22)]; h[n] = 0;
	if (!rnd(4)) h[rnd((unsigned) n)] = 'x';
	bool ok = hex_decode(h, &p, &n); unsigned sum = 0; if (ok) for (i = 0; i < n; i++) sum = sum * 31 + p[i];
	SEE(ok, "%s: %zu %u", h, ok ? n : 0, sum);
	s = string_replace(h, rnd(2) ? "a" : "nothing", rnd(2) ? "" : "a long replacement"); SEE(s != NULL, "%s", s);
	r = 1;
out:	if (p && ok) free(p); free(s); return r;
}
static int files(const char *dir)
{
	int r = 0, k, i; char f[300], t[4000], nm[300]; struct my_fileset *fs = NULL;
	snprintf(f, sizeof f, "%s/list", dir);
	for (i = 0; i < 6; i++) { snprintf(nm, sizeof nm, "%s/f%d", dir, i); put(nm, "", 1); }
	for (k = 0; k < 4; k++) {
		unsigned m = rnd(64); t[0] = 0; for (i = 0; i < 6; i++) if (m >> i & 1) { sprintf(nm, "f%d\n", i); strcat(t, nm); if (!rnd(5)) strcat(t, "missing\n"); }
		put(f, t, 1000 + k);
		if (!fs) { fs = my_fileset_init(f, ld, un, NULL); SEE(fs != NULL, "file set"); }
		my_fileset_reload(fs);
		const char *n; void *p; t[0] = 0; for (i = 0; my_fileset_get(fs, (size_t) i, &n, &p); i++) { const char *b = strrchr(n, '/'); snprintf(nm, sizeof nm, " %s%s", b ? b : n, p && !strcmp(p, n) ? "" : "?"); strcat(t, nm); }
		SEE(1, "%d files:%s", i, t);
	}
	r = 1;
out:	if (fs) my_fileset_destroy(&fs); return r;
}
static int lines(const char *dir)
{
	int r = 0, i, rc; static char *str, *mand; static int num, flag; static argv_array_t arr, rest; char f[300], a1[320], t[2000]; size_t o = 0;
	snprintf(f, sizeof f, "%s/args", dir); FILE *w = fopen(f, "w"); if (w) { for (i = 0; i < (int) rnd(60); i++) fprintf(w, "-a\nvalue%d\n", i); fclose(w); }
	argv_t args[] = {
		{ 'f', "flag", ARGV_BOOL, &flag, NULL, "a flag" }, { 'n', "num", ARGV_INT, &num, "n", "a number" }, { 's', "str", ARGV_CHAR_P, &str, "s", "a text" },
		{ 'a', "arr", ARGV_CHAR_P | ARGV_FLAG_ARRAY, &arr, "a", "texts" }, { ARGV_MAND, NULL, ARGV_CHAR_P, &mand, "first", "the first" }, { ARGV_MAYBE, NULL, ARGV_CHAR_P | ARGV_FLAG_ARRAY, &rest, "rest", "the rest" }, { ARGV_LAST } };
	char *av[64], sv[] = "--str=value"; int ac = 0; av[ac++] = "prog";
	str = mand = NULL; num = flag = 0; memset(&arr, 0, sizeof arr); memset(&rest, 0, sizeof rest);
	argv_interactive = 0; argv_error_stream = NULL;
	for (i = (int) rnd(12); i > 0; i--) switch (rnd(5)) {
		case 0: if (!flag++) av[ac++] = "-f"; break;
		case 1: av[ac++] = "-a"; av[ac++] = "text"; break;
		case 2: av[ac++] = "--arr"; av[ac++] = "more"; break;
		case 3: if (!num++) { av[ac++] = "-n"; av[ac++] = "17"; } break;
		default: if (!str) { str = ""; av[ac++] = sv; } break;
	}
	flag = num = 0; str = NULL;
	if (rnd(2)) { av[ac++] = "-@"; snprintf(a1, sizeof a1, "%s", f); av[ac++] = a1; }
	av[ac++] = "first"; for (i = (int) rnd(30); i > 0; i--) av[ac++] = "other";
	av[ac] = NULL;
	rc = argv_process_no_env(args, ac, av);
	if (rc == 0) {
		o = (size_t) snprintf(t, sizeof t, "flag %d num %d str %s first %s arr %d", flag, num, str ? str : "-", mand ? mand : "-", arr.aa_entry_n);
		for (i = 0; i < arr.aa_entry_n && o < 1000; i++) o += (size_t) sprintf(t + o, " %s", ARGV_ARRAY_ENTRY(arr, char *, i));
		o += (size_t) sprintf(t + o, " rest %d", rest.aa_entry_n); for (i = 0; i < rest.aa_entry_n && o < 1500; i++) o += (size_t) sprintf(t + o, " %s", ARGV_ARRAY_ENTRY(rest, char *, i));
	} else strcpy(t, "refused");
	int used = oom_obs(rc == 0, "%s", t);
	argv_cleanup(args);
	r = used;
	return r;
}
static int rest(void)
{
	int r = 0; struct my_rate *t = my_rate_init(100 + rnd(1000), rnd(10)); SEE(t != NULL, "rate limiter");
	r = 1;
out:	if (t) my_rate_destroy(&t); return r;
}
static int queues(int k)
{
	int r = 0; const struct my_queue_ops *q = k ? &my_queue_mb_ops : &my_queue_mutex_ops; unsigned n = 1U << (1 + rnd(10)), i, sp = 0; struct my_queue *x = q->init(n, 8); uint64_t v, s = 0;
	SEE(x != NULL, "queue of %u", n);
	for (i = 0; i < n + 2; i++) { v = i * 77; q->insert(x, &v, &sp); }
	for (i = 0; q->remove(x, &v, &sp); i++) s = s * 31 + v;
	SEE(1, "%u out, %llu", i, (unsigned long long) s);
	r = 1;
out:	if (x) q->destroy(&x); return r;
}
void oom_my(uint64_t seed, const char *dir)
{
	S = seed;
	for (int i = 0; i < 5; i++) {
		int r;
		switch (rnd(8)) { case 0: case 1: r = vectors(); break; case 2: r = heaps(); break; case 3: r = texts(); break; case 4: r = files(dir); break; case 5: r = lines(dir); break; case 6: r = queues((int) rnd(2)); break; default: r = rest(); }
		if (!r) return;
	}
}
