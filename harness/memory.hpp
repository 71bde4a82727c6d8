// The allocator belongs to the explorer: every block is counted, and any request can be made to fail.
// Include it in one source file only; not together with a sanitizer.
#ifndef MEMORY_HPP
#define MEMORY_HPP
#include <cerrno>
#include <cstddef>
#include <fcntl.h>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*); }
namespace memory {
static volatile long blocks, bytes, requests;   // live blocks, live bytes, requests since `count` was set
static volatile long fail_at = -1, fail_for = 1; // the request with this number (from 0) fails, and so many after it
static volatile bool count;
static void* got(void* p) { if (p) { blocks++; bytes += (long)malloc_usable_size(p); } return p; }
static void gone(void* p) { if (p) { blocks--; bytes -= (long)malloc_usable_size(p); } }
static bool fails() { if (!count) return false; long n = requests++; return fail_at >= 0 && n >= fail_at && n < fail_at + fail_for; }
static int descriptors() { int n = 0; for (int i = 0; i < 512; i++) n += fcntl(i, F_GETFD) != -1; return n; }
}
extern "C" {
void* malloc(size_t n) noexcept { if (memory::fails()) { errno = ENOMEM; return nullptr; } return memory::got(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) noexcept { if (memory::fails()) { errno = ENOMEM; return nullptr; } return memory::got(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) noexcept { if (memory::fails()) { errno = ENOMEM; return nullptr; } memory::gone(p); void* q = __libc_realloc(p, n); if (q) memory::got(q); else if (n && p) memory::got(p); return q; }
void* memalign(size_t a, size_t n) noexcept { if (memory::fails()) { errno = ENOMEM; return nullptr; } return memory::got(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) noexcept { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
void free(void* p) noexcept { memory::gone(p); __libc_free(p); }
}
#endif
