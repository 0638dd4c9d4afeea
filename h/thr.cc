// Independent threads: each with its own queries, iterators, entries and renderings, over shared table data.
#include "qry.h"
#include <pthread.h>
#include <sched.h>
using namespace dn;
struct Job { const Q *q; Rows rows; std::vector<std::string> txt; bool set; };
struct Worker { std::vector<Job> jobs; struct dnstable_reader *shared; const std::string *setpath; u64 seed; pthread_barrier_t *b; size_t stat; };
static __thread u64 t_rng;
static void on_step(int) { t_rng = mix(t_rng + 1); if (t_rng % 7 == 0) sched_yield(); }
static void render(struct dnstable_entry *e, std::vector<std::string> &out)
{
	char *s = dnstable_entry_to_text(e); out.push_back(s ? s : "(null)"); free(s);
	struct dnstable_formatter *f = dnstable_formatter_init();
	dnstable_formatter_set_output_format(f, dnstable_output_format_json); dnstable_formatter_set_date_format(f, dnstable_date_format_rfc3339); dnstable_formatter_set_raw_rdata(f, true);
	s = dnstable_entry_format(f, e); out.push_back(s ? s : "(null)"); free(s); dnstable_formatter_destroy(&f);
	s = dnstable_entry_to_json(e); out.push_back(s ? s : "(null)"); free(s);
}
static void exec(Worker &w, Job &j)
{
	Rng g(w.seed ^ (u64) (size_t) (&j - w.jobs.data()));
	struct dnstable_query *q = make(*j.q, g);
	struct timespec far = { 1L << 40, 0 }; if (g.flip()) (void) dnstable_query_set_deadline(q, &far);
	struct dnstable_reader *own = j.set ? dnstable_reader_init_setfile(w.setpath->c_str()) : nullptr;
	struct dnstable_iter *it = dnstable_reader_query(own ? own : w.shared, q); struct dnstable_entry *e = nullptr;
	while (it && j.rows.size() < 100000 && dnstable_iter_next(it, &e) == dnstable_res_success) { j.rows.push_back(describe(e)); if (j.txt.size() < 60) render(e, j.txt); bool p; (void) dnstable_query_filter(q, e, &p); dnstable_entry_destroy(&e); }
	u64 n; bool ex; if (it && dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &ex, &n) == dnstable_res_success && ex) w.stat += n;
	dnstable_iter_destroy(&it); dnstable_query_destroy(&q); if (own) dnstable_reader_destroy(&own);
	// parameters that are refused, and their message
	q = dnstable_query_init(j.q->t); if (dnstable_query_set_rrtype(q, "NOSUCH") != dnstable_res_success) w.stat += strlen(dnstable_query_get_error(q)); if (dnstable_query_set_data(q, "a..b") != dnstable_res_success) w.stat += strlen(dnstable_query_get_error(q)); dnstable_query_destroy(&q);
}
static void *go(void *p) { Worker &w = *(Worker *) p; t_rng = w.seed; pthread_barrier_wait(w.b); for (auto &j : w.jobs) exec(w, j); return nullptr; }
static void c_threads(Rng &g)
{
	size_t nf = g.range(1, 3), nt = g.range(2, 4);
	dnstable_query_type t = QT[g.below(4)];
	Db db = make_db(g, nf, g.range(3, 14), { 1, 2, 15, 16, 28 });
	Db flat; flat.f.push_back(db.f[0]); flat.meta = db.meta; flat.owners = db.owners; flat.rnames = db.rnames; flat.bws = db.bws; flat.rds = db.rds; flat.ip4 = db.ip4; flat.ip6 = db.ip6; flat.types = db.types;
	vf_mtbl_tiebreak = 0;
	Rd plain(flat, false); Set set(db);
	std::vector<Q> qs; size_t per = 4; std::vector<bool> useset;
	for (size_t i = 0; i < nt * per; i++) { Q q = rand_query(g, db, g.flip() ? t : QT[g.below(4)]); if (g.chance(1, 3)) rand_times(g, db, q); bool s = g.flip(); q.agg = s ? g.flip() : true; if (i && g.chance(1, 4)) { qs.push_back(qs[g.below(qs.size())]); useset.push_back(s); if (!s) qs.back().agg = true; } else { qs.push_back(q); useset.push_back(s); } }
	pthread_barrier_t b; pthread_barrier_init(&b, nullptr, (unsigned) nt);
	std::vector<Worker> ws(nt);
	for (size_t i = 0; i < nt; i++) { ws[i].shared = plain.r; ws[i].setpath = &set.path; ws[i].seed = g.next(); ws[i].b = &b; ws[i].stat = 0; for (size_t k = 0; k < per; k++) { Job j; j.q = &qs[i * per + k]; j.set = useset[i * per + k]; ws[i].jobs.push_back(j); } }
	vf_mtbl_step_hook = on_step;
	std::vector<pthread_t> th(nt);
	for (size_t i = 0; i < nt; i++) if (pthread_create(&th[i], nullptr, go, &ws[i])) { perror("pthread_create"); exit(78); }
	for (auto &x : th) pthread_join(x, nullptr);
	vf_mtbl_step_hook = nullptr;
	pthread_barrier_destroy(&b);
	for (auto &w : ws) for (auto &j : w.jobs) {
		Want wn = want(j.set ? db : flat, *j.q);
		judge(wn, j.rows, *j.q, "in a thread");
		count("queries"); count("rows", j.rows.size()); if (wn.n) seen("queries", hash(j.q->str()));
		// and the same alone
		Worker one; one.shared = plain.r; one.setpath = &set.path; one.seed = w.seed; one.stat = 0; Job k; k.q = j.q; k.set = j.set; one.jobs.push_back(k);
		exec(one, one.jobs[0]);
		VF_CHECK(one.jobs[0].rows.size() == j.rows.size(), "thread-differs", "%zu rows alone, %zu in a thread", one.jobs[0].rows.size(), j.rows.size());
		VF_CHECK(sorted(one.jobs[0].txt) == sorted(j.txt), "thread-text", "renderings differ: %s", diff(sorted(one.jobs[0].txt), sorted(j.txt)).c_str());
		count("renderings", j.txt.size());
	}
	count("threads", nt);
	sample(fmt("%zu threads, %zu files", nt, nf));
}
int main(int argc, char **argv) { return vf::main(argc, argv, { { "threads", c_threads } }); }
