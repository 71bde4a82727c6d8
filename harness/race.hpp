// Records every access of two threads to memory, byte by byte, through the calls that -fsanitize=thread inserts.
// Thread 1 runs to its end and stays alive, then thread 2 runs: its accesses are compared with those of thread 1.
#ifndef RACE_HPP
#define RACE_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <pthread.h>
#include <sys/mman.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); size_t malloc_usable_size(void*); }
namespace race {
typedef uintptr_t up;
struct Byte { up addr; uint64_t wlocks, rlocks; uint32_t wseq, rseq; uint8_t w, r, aw, ar; up wpc, rpc; };   // w, r: plain; aw, ar: atomic
struct Table {
  Byte* t = nullptr; size_t cap = 0, n = 0;
  static size_t h(up a) { a *= 0x9E3779B97F4A7C15ull; return a ^ (a >> 29); }
  static Byte* get(size_t c) { return (Byte*)mmap(nullptr, c * sizeof(Byte), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  Byte* find(up a) { if (!cap) return nullptr; for (size_t i = h(a) & (cap - 1);; i = (i + 1) & (cap - 1)) { if (t[i].addr == a) return &t[i]; if (!t[i].addr) return nullptr; } }
  Byte* at(up a) {
    if (2 * (n + 1) > cap) { size_t c = cap ? cap * 2 : 1 << 14; Byte* o = get(c); for (size_t i = 0; i < cap; i++) if (t[i].addr) { size_t j = h(t[i].addr) & (c - 1); while (o[j].addr) j = (j + 1) & (c - 1); o[j] = t[i]; } if (t) munmap(t, cap * sizeof(Byte)); t = o; cap = c; }
    size_t i = h(a) & (cap - 1); for (; t[i].addr; i = (i + 1) & (cap - 1)) if (t[i].addr == a) return &t[i];
    n++; t[i].addr = a; t[i].wlocks = t[i].rlocks = ~0ull; return &t[i]; }
};
struct Conflict { up addr; bool w1, w2; up pc1, pc2; };
static thread_local int me;                    // 1 or 2 while that thread is recorded
static thread_local up stack_lo, stack_hi; static thread_local int in_guard; static thread_local uint64_t locks; static thread_local up held[64]; static thread_local int nheld;
static Table first, published; static uint32_t seq, seen; static Conflict found; static bool any; static uint64_t accesses[3];
enum { READ, WRITE };
static void* deferred[1 << 16]; static size_t ndeferred;
static void touch(up a, size_t n, int kind, bool atomic, up pc) {
  if (!me || in_guard || (a >= stack_lo && a < stack_hi)) return;
  accesses[me]++; seq++;
  for (up x = a; x < a + n; x++) {
    if (me == 1) {
      Byte* b = first.at(x);
      if (kind == WRITE) { (atomic ? b->aw : b->w) = 1; b->wlocks &= locks; b->wseq = seq; b->wpc = pc; } else { (atomic ? b->ar : b->r) = 1; b->rlocks &= locks; b->rseq = seq; b->rpc = pc; }
    } else if (!any) {
      Byte* b = first.find(x); if (!b) continue;
      bool ww = (atomic ? b->w : b->w || b->aw) && b->wseq > seen && !(b->wlocks & locks);
      bool rr = kind == WRITE && (atomic ? b->r : b->r || b->ar) && b->rseq > seen && !(b->rlocks & locks);
      if (ww || rr) { any = true; found = Conflict{x, ww, kind == WRITE, ww ? b->wpc : b->rpc, pc}; }
    }
  }
}
static void publish(up a) { if (me == 1) { Byte* b = published.at(a); b->wseq = ++seq; } }
static void acquire(up a) { if (me == 2) { Byte* b = published.find(a); if (b && b->wseq > seen) seen = b->wseq; } }
static uint64_t bit(up a) { return 1ull << (Table::h(a) >> 7 & 63); }
static void relock() { locks = 0; for (int i = 0; i < nheld; i++) locks |= bit(held[i]); }
static void lock(void* m) { if (me && nheld < 64) { held[nheld++] = (up)m; relock(); } }
static void unlock(void* m) { if (!me) return; for (int i = nheld - 1; i >= 0; i--) if (held[i] == (up)m) { held[i] = held[--nheld]; break; } relock(); }
static void enter(int who) { pthread_attr_t at; void* p; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &p, &n); pthread_attr_destroy(&at); stack_lo = (up)p; stack_hi = (up)p + n; in_guard = 0; locks = 0; nheld = 0; me = who; }
static void leave() { me = 0; }
}
#define PC ((race::up)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* a) { race::touch((race::up)a, n, race::READ, false, PC); } void __tsan_write##n(void* a) { race::touch((race::up)a, n, race::WRITE, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { race::touch((race::up)a, n, race::READ, false, PC); } void __tsan_unaligned_write##n(void* a) { race::touch((race::up)a, n, race::WRITE, false, PC); } \
  void __tsan_volatile_read##n(void* a) { race::touch((race::up)a, n, race::READ, false, PC); } void __tsan_volatile_write##n(void* a) { race::touch((race::up)a, n, race::WRITE, false, PC); } \
  void __tsan_read_write##n(void* a) { race::touch((race::up)a, n, race::READ, false, PC); race::touch((race::up)a, n, race::WRITE, false, PC); } void __tsan_unaligned_read_write##n(void* a) { race::touch((race::up)a, n, race::READ, false, PC); race::touch((race::up)a, n, race::WRITE, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void* a) { race::touch((race::up)a, 8, race::READ, false, PC); }
void __tsan_vptr_update(void* a, void* v) { if (*(void**)a != v) race::touch((race::up)a, 8, race::WRITE, false, PC); }
void __tsan_read_range(void* a, size_t n) { race::touch((race::up)a, n, race::READ, false, PC); } void __tsan_write_range(void* a, size_t n) { race::touch((race::up)a, n, race::WRITE, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { race::touch((race::up)s, n, race::READ, false, PC); race::touch((race::up)d, n, race::WRITE, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { race::touch((race::up)s, n, race::READ, false, PC); race::touch((race::up)d, n, race::WRITE, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { race::touch((race::up)d, n, race::WRITE, false, PC); return memset(d, c, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); } void* __wrap_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); } void* __wrap_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { race::touch((race::up)a, n, race::READ, false, PC); race::touch((race::up)b, n, race::READ, false, PC); return memcmp(a, b, n); }
int __wrap_bcmp(const void* a, const void* b, size_t n) { race::touch((race::up)a, n, race::READ, false, PC); race::touch((race::up)b, n, race::READ, false, PC); return memcmp(a, b, n); }
const void* __wrap_memchr(const void* a, int c, size_t n) { race::touch((race::up)a, n, race::READ, false, PC); return memchr(a, c, n); }
size_t __wrap_strlen(const char* a) { size_t n = strlen(a); race::touch((race::up)a, n + 1, race::READ, false, PC); return n; }
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { race::touch((race::up)a, sizeof(T), race::READ, true, PC); if (mo >= 1) race::acquire((race::up)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); if (mo >= 3) race::publish((race::up)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { race::touch((race::up)a, sizeof(T), race::WRITE, true, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// what happens while a static is initialised is ordered before all later uses of it
int __cxa_guard_acquire(uint64_t* g) { if (*(volatile uint8_t*)g) return 0; race::in_guard++; return 1; }
void __cxa_guard_release(uint64_t* g) { *(volatile uint8_t*)g = 1; race::in_guard--; }
void __cxa_guard_abort(uint64_t*) { race::in_guard--; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = pthread_mutex_lock(m); if (!r) race::lock(m); return r; } int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { int r = pthread_mutex_trylock(m); if (!r) race::lock(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { race::unlock(m); return pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { int r = pthread_rwlock_rdlock(m); if (!r) race::lock(m); return r; } int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { int r = pthread_rwlock_wrlock(m); if (!r) race::lock(m); return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { race::unlock(m); return pthread_rwlock_unlock(m); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { race::in_guard++; int r = pthread_once(o, f); race::in_guard--; return r; }
// memory given back by one thread must not be taken for shared memory when the other one gets it
void free(void* p) noexcept { if (race::me && p && race::ndeferred < sizeof race::deferred / sizeof *race::deferred) race::deferred[race::ndeferred++] = p; else __libc_free(p); }
}
#endif
