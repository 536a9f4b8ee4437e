// Own runtime for code compiled with -fsanitize=thread (clang): the real ThreadSanitizer runtime is NOT linked.
//  * every atomic operation of the code under test is a preemption point of the simulated scheduler;
//  * in the fully instrumented build every plain access to the simulated heap is checked
//      - against freed blocks (use after free), and
//      - against a vector-clock happens-before detector over the simulated threads (data race).
// Everything is deterministic: the "threads" are fibers.
#include "kernel.h"
#include "race.h"
#include <cstring>
#include <sys/mman.h>

using namespace sim;

namespace sim {
bool race_on = false;   // data race detection
bool uaf_on = false;    // use-after-free detection
} // namespace sim

namespace {
enum { MF = 24 };
const uintptr_t ARENA = 0x100000000000ull;
const uintptr_t ARENA_SZ = size_t(512) << 20;
const uintptr_t SHADOW = 0x300000000000ull;

struct Acc {
    uint32_t clk;
    uint8_t fiber; // fiber + 1
    uint8_t mask;
    uint16_t pad;
};
struct Cell {
    Acc w, r0, r1;
    void *wpc;
};
static_assert(sizeof(Cell) == 32, "");

struct VC {
    uint32_t c[MF];
    VC() { memset(c, 0, sizeof(c)); }
    void join(const VC &o) {
        for (int i = 0; i < MF; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};
VC fvc[MF];
kmap<uintptr_t, VC> *syncs = nullptr;
bool enabled = false;
enum { FREED = 0xFE };

inline Cell *cell(uintptr_t a) { return reinterpret_cast<Cell *>(SHADOW + ((a - ARENA) >> 3) * sizeof(Cell)); }
inline bool hb(const Acc &x, int f) { return !x.fiber || x.fiber - 1 == f || x.clk <= fvc[f].c[x.fiber - 1]; }

[[noreturn]] __attribute__((noinline)) void report(const char *cls, const char *what, uintptr_t a, int other, void *pc) {
    size_t size = 0;
    uint64_t seq = 0;
    bool freed = false;
    void *site = nullptr;
    void *base = heap_block_info(reinterpret_cast<void *>(a), &size, &seq, &freed, &site);
    fail(cls, "%s at offset %ld of a block of %zu bytes (alloc #%llu, allocated from %p); threads %s / %s; pc %p", what,
         base ? long(a - reinterpret_cast<uintptr_t>(base)) : -1l, size, (unsigned long long)seq, site,
         fiber_name(self()), other >= 0 ? fiber_name(other) : "-", pc);
}

__attribute__((noinline)) void access_granule(uintptr_t g, uint8_t mask, bool write, void *pc) {
    Cell *c = cell(g);
    if (c->w.fiber == FREED) {
        if (uaf_on)
            report("heap/use-after-free", write ? "write after free" : "read after free", g, -1, pc);
        return;
    }
    if (!race_on)
        return;
    int f = self();
    uint32_t clk = fvc[f].c[f];
    if ((c->w.mask & mask) && !hb(c->w, f))
        report("race/data", write ? "unsynchronised write/write" : "unsynchronised write/read", g, c->w.fiber - 1, pc);
    if (write) {
        if ((c->r0.mask & mask) && !hb(c->r0, f))
            report("race/data", "unsynchronised read/write", g, c->r0.fiber - 1, pc);
        if ((c->r1.mask & mask) && !hb(c->r1, f))
            report("race/data", "unsynchronised read/write", g, c->r1.fiber - 1, pc);
        if (c->w.fiber == f + 1 && c->w.clk == clk)
            c->w.mask |= mask;
        else
            c->w = Acc{clk, uint8_t(f + 1), mask, 0};
        c->wpc = pc;
    } else {
        Acc &a = (c->r0.fiber == 0 || c->r0.fiber == f + 1 || hb(c->r0, f)) ? c->r0 : c->r1;
        if (a.fiber == f + 1 && a.clk == clk)
            a.mask |= mask;
        else
            a = Acc{clk, uint8_t(f + 1), mask, 0};
    }
}

inline void access(const void *p, size_t n, bool write, void *pc) {
    if (!enabled)
        return;
    auto a = reinterpret_cast<uintptr_t>(p);
    if (a < ARENA || a >= ARENA + ARENA_SZ)
        return;
    uintptr_t end = a + n;
    for (uintptr_t g = a & ~uintptr_t(7); g < end; g += 8) {
        unsigned lo = a > g ? unsigned(a - g) : 0;
        unsigned hi = end < g + 8 ? unsigned(end - g) : 8;
        uint8_t mask = uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1));
        access_granule(g, mask, write, pc);
    }
}

void sync_acq(uintptr_t o) {
    auto it = syncs->find(o);
    if (it != syncs->end())
        fvc[self()].join(it->second);
}
void sync_rel(uintptr_t o) {
    int f = self();
    (*syncs)[o].join(fvc[f]);
    fvc[f].c[f]++;
}
void on_alloc(void *p, size_t n) {
    auto a = reinterpret_cast<uintptr_t>(p);
    size_t cells = (n + 7) / 8;
    if (!cells)
        cells = 1;
    memset(static_cast<void *>(cell(a)), 0, cells * sizeof(Cell));
}
void on_free(void *p, size_t n) {
    auto a = reinterpret_cast<uintptr_t>(p);
    if (race_on) {
        access(p, n, true, __builtin_return_address(0));
        auto it = syncs->lower_bound(a);
        while (it != syncs->end() && it->first < a + n)
            it = syncs->erase(it);
    }
    for (size_t i = 0; i < (n + 7) / 8; ++i)
        cell(a + i * 8)->w.fiber = FREED;
}
void on_spawn(int child) {
    int f = self();
    fvc[child].join(fvc[f]);
    fvc[child].c[child]++;
    fvc[f].c[f]++;
}
} // namespace

namespace sim {
void race_enable(bool race, bool uaf) {
    void *s = mmap(reinterpret_cast<void *>(SHADOW), ARENA_SZ / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (s == MAP_FAILED)
        return;
    syncs = new (malloc(sizeof(*syncs))) kmap<uintptr_t, VC>();
    for (int i = 0; i < MF; ++i)
        fvc[i].c[i] = 1;
    race_on = race;
    uaf_on = uaf;
    on_alloc_hook = on_alloc;
    on_free_hook = on_free;
    on_spawn_hook = on_spawn;
    on_sync_acquire = [](void *o) { sync_acq(reinterpret_cast<uintptr_t>(o)); };
    on_sync_release = [](void *o) { sync_rel(reinterpret_cast<uintptr_t>(o)); };
    enabled = true;
}
void hb_release(void *o) {
    if (on_sync_release)
        on_sync_release(o);
}
void hb_acquire(void *o) {
    if (on_sync_acquire)
        on_sync_acquire(o);
}
} // namespace sim

#define PC __builtin_return_address(0)

static inline void atomic_pre(const volatile void *a, size_t n, int mo, bool load, bool store) {
    if (!active())
        return;
    yield();
    if (!enabled)
        return;
    auto p = reinterpret_cast<uintptr_t>(a);
    if (p >= ARENA && p < ARENA + ARENA_SZ && cell(p & ~uintptr_t(7))->w.fiber == FREED && uaf_on)
        report("heap/use-after-free", "atomic access after free", p, -1, nullptr);
    (void)n;
    if (!race_on)
        return;
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (load && acq)
        sync_acq(p);
    if (store && rel)
        sync_rel(p);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define RW(N)                                                                                                          \
    void __tsan_read##N(void *p) { access(p, N, false, PC); }                                                          \
    void __tsan_write##N(void *p) { access(p, N, true, PC); }                                                          \
    void __tsan_read_write##N(void *p) { access(p, N, true, PC); }                                                     \
    void __tsan_unaligned_read##N(const void *p) { access(p, N, false, PC); }                                          \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); }                                                \
    void __tsan_unaligned_read_write##N(void *p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) {
    if (*p != v)
        access(p, 8, true, PC);
}
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    access(d, n, true, PC);
    return memset(d, c, n);
}

#define AT(N, T)                                                                                                       \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) {                                                           \
        atomic_pre(a, N / 8, mo, true, false);                                                                         \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) {                                                        \
        atomic_pre(a, N / 8, mo, false, true);                                                                         \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                                                        \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) {                                                       \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) {                                                       \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) {                                                       \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) {                                                        \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) {                                                       \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) {                                                      \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) {                            \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) {                              \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) {                                  \
        atomic_pre(a, N / 8, mo, true, true);                                                                          \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return c;                                                                                                      \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
// 128-bit compare-and-swap: the kernel is single threaded, plain code is atomic
typedef unsigned __int128 u128;
u128 __tsan_atomic128_load(const volatile u128 *a, int mo) {
    atomic_pre(a, 16, mo, true, false);
    return *const_cast<const u128 *>(a);
}
void __tsan_atomic128_store(volatile u128 *a, u128 v, int mo) {
    atomic_pre(a, 16, mo, false, true);
    *const_cast<u128 *>(a) = v;
}
int __tsan_atomic128_compare_exchange_strong(volatile u128 *a, u128 *c, u128 v, int mo, int) {
    atomic_pre(a, 16, mo, true, true);
    if (*a == *c) {
        *a = v;
        return 1;
    }
    *c = *a;
    return 0;
}
int __tsan_atomic128_compare_exchange_weak(volatile u128 *a, u128 *c, u128 v, int mo, int f) {
    return __tsan_atomic128_compare_exchange_strong(a, c, v, mo, f);
}
u128 __tsan_atomic128_compare_exchange_val(volatile u128 *a, u128 c, u128 v, int mo, int f) {
    __tsan_atomic128_compare_exchange_strong(a, &c, v, mo, f);
    return c;
}
void __tsan_atomic_thread_fence(int) {
    if (active())
        yield();
}
void __tsan_atomic_signal_fence(int) {}
}
