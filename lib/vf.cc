#include "vf.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {
u64 g_seed, g_case;
bool g_verbose, g_thorough;
static volatile u64 *g_prog;	// [0] = case, [1] = cases finished
static FILE *g_out;
static std::map<std::string, u64> g_counts, g_maxi;
static std::map<std::string, std::set<u64>> g_sets;
static std::vector<std::string> g_samples;
static std::map<std::string, u64> g_nviol;
static std::string g_scratch;
static const char *g_prop;
static pid_t g_pid;

void report(const char *key, const char *f, va_list ap)
{
	char buf[4096];
	vsnprintf(buf, sizeof buf, f, ap);
	for (char *p = buf; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
	if (g_verbose) fprintf(stderr, "VIOLATION key=%s case=%llu %s\n", key, (unsigned long long) g_case, buf);
	if (g_nviol[key]++ < 3) { fprintf(g_out, "V\t%s\t%llu\t%s\n", key, (unsigned long long) g_case, buf); fflush(g_out); }
}
void fail(const char *key, const char *f, ...) { va_list ap; va_start(ap, f); report(key, f, ap); va_end(ap); throw Fail(); }
void note(const char *key, const char *f, ...) { va_list ap; va_start(ap, f); report(key, f, ap); va_end(ap); }
void count(const char *n, u64 k) { g_counts[n] += k; }
void maxi(const char *n, u64 k) { u64 &m = g_maxi[n]; if (k > m) m = k; }
void seen(const char *s, u64 h) { auto &x = g_sets[s]; if (x.size() < 200000) x.insert(h); }
void sample(const std::string &s) { if (g_samples.size() < 3) g_samples.push_back(s); }
Bytes hex(const Bytes &b) { Bytes r; char t[3]; for (u8 c : b) { snprintf(t, 3, "%02x", c); r += t; } return r; }
Bytes show(const Bytes &b)
{ Bytes r; char t[8]; for (u8 c : b) if (c >= 32 && c < 127 && c != '\\') r += (char) c; else { snprintf(t, 8, "\\x%02x", c); r += t; } return r; }
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

static void rm_rec(const std::string &p)
{
	struct stat sb;
	if (lstat(p.c_str(), &sb)) return;
	if (S_ISDIR(sb.st_mode)) {
		if (DIR *d = opendir(p.c_str())) {
			while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") rm_rec(p + "/" + n); }
			closedir(d);
		}
		rmdir(p.c_str());
	} else unlink(p.c_str());
}
const std::string &scratch()
{
	if (g_scratch.empty()) {
		const char *base = getenv("VF_SCRATCH");
		std::string t = std::string(base ? base : "/tmp") + "/vfXXXXXX";
		std::vector<char> b(t.begin(), t.end()); b.push_back(0);
		if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(78); }
		g_scratch = b.data();
	}
	return g_scratch;
}
void rm_rf(const std::string &p)
{
	if (g_scratch.empty() || p.compare(0, g_scratch.size(), g_scratch) || p.find("..") != std::string::npos) return;
	rm_rec(p);
}

static void on_cpu(int)
{
	char b[128];
	int n = snprintf(b, sizeof b, "\nVF-CPU-LIMIT case=%llu\n", (unsigned long long) g_case);
	if (write(2, b, (size_t) n) < 0) { }
	_exit(77);
}
static void arm(unsigned secs)
{
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &it, nullptr);
}

int main(int argc, char **argv, const std::vector<Prop> &props)
{
	std::string prop, outp, progp; u64 from = 0, to = 1; unsigned cpu = 30;
	g_seed = 1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> const char * { if (++i >= argc) { fprintf(stderr, "missing value\n"); exit(78); } return argv[i]; };
		if (a == "--prop") prop = val();
		else if (a == "--seed") g_seed = strtoull(val(), 0, 0);
		else if (a == "--from") from = strtoull(val(), 0, 0);
		else if (a == "--to") to = strtoull(val(), 0, 0);
		else if (a == "--case") { from = strtoull(val(), 0, 0); to = from + 1; }
		else if (a == "--out") outp = val();
		else if (a == "--prog") progp = val();
		else if (a == "--cpu") cpu = (unsigned) atoi(val());
		else if (a == "--thorough") g_thorough = true;
		else if (a == "-v") g_verbose = true;
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 78; }
	}
	const Prop *P = nullptr;
	for (auto &p : props) if (prop == p.name) P = &p;
	if (!P) { fprintf(stderr, "no such property mode: %s\n", prop.c_str()); return 78; }
	g_prop = P->name; g_pid = getpid();
	g_out = outp.empty() ? stdout : fopen(outp.c_str(), "w");
	if (!g_out) { perror("out"); return 78; }
	static u64 dummy[2];
	g_prog = dummy;
	if (!progp.empty()) {
		int fd = open(progp.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, 16)) { perror("prog"); return 78; }
		g_prog = (volatile u64 *) mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
	}
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_cpu; sigaction(SIGPROF, &sa, nullptr);
	for (u64 c = from; c < to; c++) {
		g_case = c; g_prog[0] = c;
		arm(cpu);
		Rng r(mix(g_seed) ^ mix(c + 0x1234567) ^ hash(Bytes(g_prop)));
		try { P->run(r); } catch (const Fail &) { }
		arm(0);
		g_prog[1]++;
		count("cases");
	}
	for (auto &k : g_counts) fprintf(g_out, "C\t%s\t%llu\n", k.first.c_str(), (unsigned long long) k.second);
	for (auto &k : g_maxi) fprintf(g_out, "M\t%s\t%llu\n", k.first.c_str(), (unsigned long long) k.second);
	for (auto &k : g_sets) { fprintf(g_out, "S\t%s\t", k.first.c_str()); for (u64 h : k.second) fprintf(g_out, "%llx,", (unsigned long long) h); fputc('\n', g_out); }
	for (auto &s : g_samples) { std::string t = s; for (auto &ch : t) if (ch == '\n' || ch == '\t') ch = ' '; fprintf(g_out, "E\t%s\n", t.c_str()); }
	fprintf(g_out, "DONE\n");
	fflush(g_out);
	if (!g_scratch.empty() && getpid() == g_pid) rm_rec(g_scratch);
	if (g_out != stdout) fclose(g_out);
	return 0;
}
}
