/* the blocks of the "fastmem" heap come from VirtualAlloc or mmap in the real builds, which give zeroed memory */
#include <stdlib.h>
static inline void *uv_malloc(size_t n) { return n >= 0x70000 ? calloc(1, n) : malloc(n); }
#define malloc(n) uv_malloc(n)
