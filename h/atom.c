/* C wrappers around the atomic counters of libmy, one row of functions per width */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "libmy/atomic.h"
#include "libmy/atomic_64.h"
#include "libmy/atomic_ptr.h"

static atomic_t init32 = ATOMIC_INIT(41);
static atomic64_t init64 = ATOMIC64_INIT(INT64_C(41) << 40);
size_t wa_size(int w) { return w == 32 ? sizeof(atomic_t) : w == 64 ? sizeof(atomic64_t) : sizeof(atomic_ptr_t); }
int64_t wa_static(int w) { return w == 32 ? atomic_read(&init32) : atomic64_read(&init64); }
int64_t wa_read(int w, void *v) { return w == 32 ? atomic_read((atomic_t *) v) : atomic64_read((atomic64_t *) v); }
void wa_set(int w, void *v, int64_t i) { if (w == 32) atomic_set((atomic_t *) v, i); else atomic64_set((atomic64_t *) v, i); }
void wa_add(int w, void *v, int64_t i) { if (w == 32) atomic_add(i, v); else atomic64_add(i, v); }
void wa_sub(int w, void *v, int64_t i) { if (w == 32) atomic_sub(i, v); else atomic64_sub(i, v); }
int64_t wa_zero(int w, void *v) { return w == 32 ? atomic_zero(v) : atomic64_zero(v); }
int wa_sub_and_test(int w, void *v, int64_t i) { return w == 32 ? atomic_sub_and_test(i, v) : atomic64_sub_and_test(i, v); }
void wa_inc(int w, void *v) { if (w == 32) atomic_inc(v); else atomic64_inc(v); }
void wa_dec(int w, void *v) { if (w == 32) atomic_dec(v); else atomic64_dec(v); }
int wa_dec_and_test(int w, void *v) { return w == 32 ? atomic_dec_and_test(v) : atomic64_dec_and_test(v); }
int wa_inc_and_test(int w, void *v) { return w == 32 ? atomic_inc_and_test(v) : atomic64_inc_and_test(v); }
int wa_add_negative(int w, void *v, int64_t i) { return w == 32 ? atomic_add_negative(i, v) : atomic64_add_negative(i, v); }
void *wa_ptr_get(void *v) { return atomic_ptr_get(v); }
bool wa_ptr_set(void *v, void *p) { return atomic_ptr_set(v, p); }
