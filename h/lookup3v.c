// the build of lookup3 that reads no byte beyond its input (for memory checkers)
#define VALGRIND 1
#define my_hashword vg_hashword
#define my_hashword2 vg_hashword2
#define my_hashlittle vg_hashlittle
#define my_hashlittle2 vg_hashlittle2
#define my_hashbig vg_hashbig
#include "libmy/lookup3.c"
