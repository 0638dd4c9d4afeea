/* Included ahead of every source file of the repository in the oom harness: its requests for memory pass through here. */
#ifndef VF_OOM_H
#define VF_OOM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vf_oom_malloc(size_t), *vf_oom_calloc(size_t, size_t), *vf_oom_realloc(void *, size_t);
char *vf_oom_strdup(const char *), *vf_oom_strndup(const char *, size_t);
int vf_oom_asprintf(char **, const char *, ...), vf_oom_vasprintf(char **, const char *, va_list);
#ifdef __cplusplus
}
#else
#define malloc(n) vf_oom_malloc(n)
#define calloc(n, m) vf_oom_calloc(n, m)
#define realloc(p, n) vf_oom_realloc(p, n)
#undef strdup
#undef strndup
#define strdup(s) vf_oom_strdup(s)
#define strndup(s, n) vf_oom_strndup(s, n)
#define asprintf(...) vf_oom_asprintf(__VA_ARGS__)
#define vasprintf(p, f, v) vf_oom_vasprintf(p, f, v)
#endif
#endif
