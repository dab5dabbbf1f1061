// Footprints: which memory the library touches on behalf of which machine.
//
// The machines are compiled with -fsanitize=thread but linked with the callbacks
// below instead of the sanitizer's runtime: every memory access, atomic operation
// and memcpy of library code arrives here.  Every machine instance runs on a thread
// of its own; the explorer hands control from one to the other.  Two accesses to
// one location from two threads, at least one of them a write and not both atomic,
// are dependent operations of threads that do not synchronise: a data race in some
// interleaving.  As long as no pair is dependent all interleavings of the threads'
// accesses are equivalent (one Mazurkiewicz trace), so the explored one decides them all.
//
// Stacks and thread local storage are private; static storage (of the executable)
// and memory from operator new are tracked byte by byte.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <functional>
#include <memory>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <vector>

extern "C" char __data_start, _end;

namespace foot {
inline int tid = -1; // machine whose thread runs, -1: the explorer
inline int guardDepth = 0; // inside the guarded initialisation of a static variable
inline long accesses = 0, tracked = 0, conflicts = 0;
inline std::string conflict;
inline bool* inLibrary = nullptr;

constexpr std::size_t ARENA = std::size_t(1) << 30;
constexpr int MAXT = 3;
// shadow byte: bits 0..2 plain read by thread t, 3..5 plain write; a second byte for atomics
inline char* arena = nullptr;
inline std::uint8_t *shHeap = nullptr, *shHeapA = nullptr;
inline std::uint8_t *shData = nullptr, *shDataA = nullptr;
inline std::size_t bump = 0;
inline void* freeList[64] = {};

inline void setup(bool* lib)
{
    inLibrary = lib;
    auto map = [](std::size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    arena = static_cast<char*>(map(ARENA));
    shHeap = static_cast<std::uint8_t*>(map(ARENA));
    shHeapA = static_cast<std::uint8_t*>(map(ARENA));
    const std::size_t n = std::size_t(&_end - &__data_start);
    shData = static_cast<std::uint8_t*>(map(n));
    shDataA = static_cast<std::uint8_t*>(map(n));
}
inline bool inArena(const void* p) { return arena && p >= arena && p < arena + ARENA; }
inline void* alloc(std::size_t n)
{
    // size classes of 64 bytes up to 2 KB, powers of two above
    std::size_t c = (n + 63) / 64, sz = c * 64, k = c;
    if (c > 32) {
        k = 33;
        sz = 4096;
        while (sz < n) sz *= 2, k++;
    }
    void* p = freeList[k];
    if (p) {
        std::memcpy(&freeList[k], p, sizeof(void*));
    } else {
        if (bump + sz + 64 > ARENA) std::abort();
        p = arena + bump + 64;
        std::memcpy(arena + bump, &k, sizeof(k));
        std::memcpy(arena + bump + 8, &sz, sizeof(sz));
        bump += sz + 64;
    }
    std::memset(shHeap + (static_cast<char*>(p) - arena), 0, sz);
    std::memset(shHeapA + (static_cast<char*>(p) - arena), 0, sz);
    return p;
}
inline void report(const void* p, bool write, const void* pc, int other)
{
    conflicts++;
    if (!conflict.empty()) return;
    auto name = [](const void* a) -> std::string {
        Dl_info i {};
        if (dladdr(a, &i) && i.dli_sname) return i.dli_sname;
        return "?";
    };
    conflict = "the threads of machine " + std::to_string(other) + " and of machine " + std::to_string(tid) + " share "
        + (inArena(p) ? std::string("heap memory") : "static storage (" + name(p) + ")") + " that is written: " + (write ? "write" : "read") + " in " + name(pc);
}
inline void access(const void* p, std::size_t n, bool write, bool atomic, const void* pc)
{
    if (tid < 0 || !*inLibrary) return;
    if (guardDepth) return; // initialises a static variable: ordered before every use by the guard
    accesses++;
    std::uint8_t *s, *a;
    std::size_t off;
    if (inArena(p)) {
        off = std::size_t(static_cast<const char*>(p) - arena);
        s = shHeap, a = shHeapA;
    } else if (p >= &__data_start && p < &_end) {
        off = std::size_t(static_cast<const char*>(p) - &__data_start);
        s = shData, a = shDataA;
    } else {
        return;
    }
    tracked++;
    const int rd = 1 << tid, wr = 8 << tid;
    const int allR = 7 & ~rd, allW = 56 & ~wr;
    for (std::size_t k = off; k < off + n; k++) {
        // dependent with the accesses of the other threads
        const int other = atomic ? s[k] : (s[k] | a[k]);
        const int hit = write ? other & (allR | allW) : other & allW;
        if (hit) report(p, write, pc, __builtin_ctz(unsigned((hit | hit >> 3) & 7)));
        std::uint8_t& mine = atomic ? a[k] : s[k];
        const std::uint8_t v = std::uint8_t(mine | (write ? wr : rd));
        if (v != mine) {
            mine = v;
        }
    }
}
inline void release(void* p)
{
    std::size_t k, sz;
    std::memcpy(&k, static_cast<char*>(p) - 64, sizeof(k));
    std::memcpy(&sz, static_cast<char*>(p) - 56, sizeof(sz));
    // giving memory back conflicts with every other thread that used it
    access(p, sz, true, false, __builtin_return_address(0));
    std::memcpy(p, &freeList[k], sizeof(void*));
    freeList[k] = p;
}
// The footprints on static storage are those of all runs so far: what one thread writes
// in one history (perhaps only in the first one of the process) and another thread touches
// in another history is shared whenever the two threads run these histories.
inline void newRun() { conflict.clear(); }

// ---- one thread per machine; exactly one thread runs at a time
struct Baton {
    int v = 0;
    void acquire()
    {
        while (__atomic_exchange_n(&v, 0, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    void release()
    {
        __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST);
        syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
};
struct Worker {
    Baton go, done;
    std::function<void()>* job = nullptr;
    std::exception_ptr exc;
    Worker()
    {
        std::thread([this] {
            while (true) {
                go.acquire();
                try {
                    (*job)();
                } catch (...) {
                    exc = std::current_exception();
                }
                done.release();
            }
        }).detach();
    }
};
inline void on(int i, std::function<void()> f)
{
    static Worker* w[MAXT] = {};
    if (tid == i) return f();
    if (!w[i]) w[i] = new Worker;
    const int old = tid;
    w[i]->job = &f;
    tid = i;
    w[i]->go.release();
    w[i]->done.acquire();
    tid = old;
    if (w[i]->exc) {
        auto e = std::move(w[i]->exc);
        w[i]->exc = nullptr;
        std::rethrow_exception(e);
    }
}
}

// ---- the interface -fsanitize=thread code is compiled against
#define VH_ACC(n, w, a) foot::access(p, n, w, a, __builtin_return_address(0))
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define VH_RW(N) \
    void __tsan_read##N(void* p) { VH_ACC(N, false, false); } \
    void __tsan_write##N(void* p) { VH_ACC(N, true, false); } \
    void __tsan_unaligned_read##N(void* p) { VH_ACC(N, false, false); } \
    void __tsan_unaligned_write##N(void* p) { VH_ACC(N, true, false); } \
    void __tsan_volatile_read##N(void* p) { VH_ACC(N, false, false); } \
    void __tsan_volatile_write##N(void* p) { VH_ACC(N, true, false); } \
    void __tsan_unaligned_volatile_read##N(void* p) { VH_ACC(N, false, false); } \
    void __tsan_unaligned_volatile_write##N(void* p) { VH_ACC(N, true, false); }
VH_RW(1) VH_RW(2) VH_RW(4) VH_RW(8) VH_RW(16)
void __tsan_read_range(void* p, std::size_t n) { VH_ACC(n, false, false); }
void __tsan_write_range(void* p, std::size_t n) { VH_ACC(n, true, false); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) VH_ACC(8, true, false);
}
void __tsan_vptr_read(void** p) { VH_ACC(8, false, false); }
#define VH_AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* q, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), false, true); return __atomic_load_n(q, 5); } \
    void __tsan_atomic##N##_store(volatile T* q, T v, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); __atomic_store_n(q, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile T* q, T v, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_exchange_n(q, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T* q, T v, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_fetch_add(q, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* q, T v, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_fetch_sub(q, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T* q, T v, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_fetch_and(q, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T* q, T v, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_fetch_or(q, v, 5); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* q, T v, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_fetch_xor(q, v, 5); } \
    bool __tsan_atomic##N##_compare_exchange_strong(volatile T* q, T* e, T v, int, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_compare_exchange_n(q, e, v, false, 5, 5); } \
    bool __tsan_atomic##N##_compare_exchange_weak(volatile T* q, T* e, T v, int, int) { const void* p = const_cast<const T*>(q); VH_ACC(sizeof(T), true, true); return __atomic_compare_exchange_n(q, e, v, false, 5, 5); }
VH_AT(8, unsigned char) VH_AT(16, unsigned short) VH_AT(32, unsigned int) VH_AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) { __atomic_signal_fence(5); }
// function local statics: initialised once, before everybody's first use
int __cxa_guard_acquire(std::uint64_t* g)
{
    if (*reinterpret_cast<unsigned char*>(g)) return 0;
    foot::guardDepth++;
    return 1;
}
void __cxa_guard_release(std::uint64_t* g)
{
    *reinterpret_cast<unsigned char*>(g) = 1;
    foot::guardDepth--;
}
void __cxa_guard_abort(std::uint64_t*) { foot::guardDepth--; }
// block operations (linked with --wrap)
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
void* __wrap_memcpy(void* p, const void* q, std::size_t n)
{
    VH_ACC(n, true, false);
    foot::access(q, n, false, false, __builtin_return_address(0));
    return __real_memcpy(p, q, n);
}
void* __wrap_memmove(void* p, const void* q, std::size_t n)
{
    VH_ACC(n, true, false);
    foot::access(q, n, false, false, __builtin_return_address(0));
    return __real_memmove(p, q, n);
}
void* __wrap_memset(void* p, int c, std::size_t n)
{
    VH_ACC(n, true, false);
    return __real_memset(p, c, n);
}
}
