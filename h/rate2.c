// the rate limiter built the other way (absolute sleeps)
#undef HAVE_CLOCK_NANOSLEEP
#define HAVE_CLOCK_NANOSLEEP 1
#define my_rate_init my_rate2_init
#define my_rate_destroy my_rate2_destroy
#define my_rate_sleep my_rate2_sleep
#include "libmy/my_rate.c"
