#include <cstddef>
extern "C" {
void* mc_malloc(size_t);
void* mc_calloc(size_t, size_t);
void* mc_realloc(void*, size_t);
void mc_free(void*);
void* __wrap_malloc(size_t n) { return mc_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return mc_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return mc_realloc(p, n); }
void __wrap_free(void* p) { mc_free(p); }
}
