/* A clock that follows the steps of the store, for the command line tools: VF_TICK is the time of one step in ns, VF_BASE the
 * start, VF_LIMIT a point in time; at exit the time, the steps and the steps taken at or after the limit go to VF_CLOCK. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
extern void (*vf_mtbl_step_hook)(int);
static int on; static uint64_t now, tick, steps, late, limit;
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!on || (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_RAW && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_BOOTTIME)) return __real_clock_gettime(c, t);
	t->tv_sec = (time_t) (now / 1000000000); t->tv_nsec = (long) (now % 1000000000);
	return 0;
}
static void step(int seek) { (void) seek; now += tick; steps++; if (now >= limit) late++; }
static void done(void) { FILE *f = fopen(getenv("VF_CLOCK"), "w"); if (f) { fprintf(f, "%llu %llu %llu\n", (unsigned long long) now, (unsigned long long) steps, (unsigned long long) late); fclose(f); } }
__attribute__((constructor)) static void begin(void)
{
	if (!getenv("VF_TICK")) return;
	tick = strtoull(getenv("VF_TICK"), NULL, 10); now = strtoull(getenv("VF_BASE"), NULL, 10); limit = strtoull(getenv("VF_LIMIT"), NULL, 10);
	on = 1; vf_mtbl_step_hook = step; atexit(done);
}
