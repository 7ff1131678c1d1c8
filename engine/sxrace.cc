// What -fsanitize=thread calls in the native replay: checks heap accesses with race.hh, on any stack and
// without real threads. Memory is never reused, so that accesses after free are seen as well.
#include <execinfo.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include "race.hh"
static const uint64_t kArena = 0x200000000000ull, kSize = 1ull << 32;
static uint64_t next_;
static uint8_t *valid;
static bool inside;   // the detector's own containers use malloc
static void *take(uint64_t n, uint64_t al = 16) {
    if (!valid) {
        auto *p = mmap(reinterpret_cast<void *>(kArena), kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) abort();
        valid = static_cast<uint8_t *>(mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        next_ = kArena + 64;
    }
    uint64_t a = (next_ + 32 + al - 1) / al * al;
    if (a + n + 64 > kArena + kSize) abort();
    *reinterpret_cast<uint64_t *>(a - 16) = n;
    memset(valid + (a - kArena), 1, n);
    next_ = (a + n + 31) / 16 * 16;
    return reinterpret_cast<void *>(a);
}
[[noreturn]] static void report(const char *what, uint64_t a) {
    printf("ERROR: %s at 0x%llx\n", what, (unsigned long long)a);
    fflush(stdout);
    void *b[40];
    backtrace_symbols_fd(b, backtrace(b, 40), 1);
    _exit(76);
}
static void give(void *p) {
    auto a = reinterpret_cast<uint64_t>(p);
    if (a < kArena || a >= kArena + kSize) return free(p);
    auto n = *reinterpret_cast<uint64_t *>(a - 16);
    if (n && !valid[a - kArena]) report("double free", a);
    if (!inside) {
        inside = true;
        auto b = race::access(a, n, true);
        inside = false;
        if (b) report("data race with the release of memory", b);
    }
    memset(valid + (a - kArena), 0, n);
}
static void check(const void *p, uint64_t n, bool w) {
    auto a = reinterpret_cast<uint64_t>(p);
    if (inside || a < kArena || a >= kArena + kSize) return;
    for (uint64_t i = 0; i < n; i++)
        if (!valid[a - kArena + i]) report(w ? "heap write out of bounds or after free" : "heap read out of bounds or after free", a + i);
    inside = true;
    auto b = race::access(a, n, w);
    inside = false;
    if (b) report("data race", b);
}
void *operator new(size_t n) { return inside ? malloc(n) : take(n); }
void *operator new[](size_t n) { return inside ? malloc(n) : take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return inside ? malloc(n) : take(n); }
void *operator new(size_t n, std::align_val_t a) { return take(n, static_cast<uint64_t>(a)); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, std::align_val_t) noexcept { give(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { give(p); }
static void atomic_(const volatile void *p) {
    inside = true;
    sx_race_acquire(const_cast<const void *>(p));
    sx_race_release(const_cast<const void *>(p));
    inside = false;
}
extern "C" {
#define RW(n)                                                                \
    void __tsan_read##n(void *p) { check(p, n, false); }                     \
    void __tsan_write##n(void *p) { check(p, n, true); }                     \
    void __tsan_unaligned_read##n(void *p) { check(p, n, false); }           \
    void __tsan_unaligned_write##n(void *p) { check(p, n, true); }           \
    void __tsan_read_write##n(void *p) { check(p, n, true); }                \
    void __tsan_unaligned_read_write##n(void *p) { check(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { check(p, n, false); }
void __tsan_write_range(void *p, size_t n) { check(p, n, true); }
void __tsan_vptr_read(void **p) { check(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { check(p, 8, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    check(s, n, false), check(d, n, true);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    check(s, n, false), check(d, n, true);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    check(d, n, true);
    return memset(d, c, n);
}
#define AT(b, T)                                                                                                        \
    T __tsan_atomic##b##_load(const volatile T *p, int) { atomic_(p); return *p; }                                      \
    void __tsan_atomic##b##_store(volatile T *p, T v, int) { atomic_(p); *p = v; }                                      \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { atomic_(p); T o = *p; *p = v; return o; }                  \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { atomic_(p); T o = *p; *p = o + v; return o; }             \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { atomic_(p); T o = *p; *p = o - v; return o; }             \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { atomic_(p); T o = *p; *p = o & v; return o; }             \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { atomic_(p); T o = *p; *p = o | v; return o; }              \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { atomic_(p); T o = *p; *p = o ^ v; return o; }             \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                                \
        atomic_(p);                                                                                                     \
        if (*p == *e) { *p = v; return 1; }                                                                             \
        *e = *p;                                                                                                        \
        return 0;                                                                                                       \
    }                                                                                                                   \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atomic_(p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
