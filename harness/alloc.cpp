// Allocator of the builds that watch for dynamic memory: the C library's, but every request is reported first.
#include <cerrno>
#include <cstddef>
#include <cstdlib>
extern "C" {
void v_allocating(const void* who);
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { v_allocating(__builtin_return_address(0)); return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { v_allocating(__builtin_return_address(0)); return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { v_allocating(__builtin_return_address(0)); return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { v_allocating(__builtin_return_address(0)); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { v_allocating(__builtin_return_address(0)); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
    v_allocating(__builtin_return_address(0));
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}
}
