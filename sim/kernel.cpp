#include "kernel.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {

Result *result = nullptr;
bool tracing = false;
void (*on_switch_hook)(int, int) = nullptr;
void (*on_free_hook)(void *, size_t) = nullptr;
void (*on_alloc_hook)(void *, size_t) = nullptr;
void (*on_sync_release)(void *) = nullptr;
void (*on_sync_acquire)(void *) = nullptr;
void (*on_spawn_hook)(int) = nullptr;

static char join_anchor;
void *join_obj() { return &join_anchor; }

namespace {

enum { MAX_FIBERS = 24, STACK = 512 * 1024, NSLOTS = 32, NFLS = 8 };
const uintptr_t STACK_BASE = 0x200000000000ull;
const uintptr_t ARENA_BASE = 0x100000000000ull;
enum { REGIONS = 8 };
const size_t REGION = size_t(64) << 20;

struct Fiber {
    void *sp = nullptr;
    std::function<void()> *fn = nullptr;
    char name[24];
    enum St { FREE, RUN, BLOCKED, DONE } st = FREE;
    uint64_t deadline = NEVER;
    bool timed_out = false;
    WaitQ *wq = nullptr;
    uint64_t prio = 0;
    void *fls[NFLS];
    uint64_t eh[2];
    uint64_t last_read = 0; // monotonic clock value this fiber saw last
};

struct K {
    bool active = false;
    SchedCfg cfg;
    Rng srng{1}, erng{2}, hrng{3};
    Fiber f[MAX_FIBERS];
    int nf = 0, cur = 0;
    uint64_t now = 1000000000ull;
    int64_t wall = 1600000000ll * 1000000000ll;
    uint64_t steps = 0, next_point = 0;
    size_t next_ev = 0;
    int nopreempt = 0;
    bool faults = true;
    uint64_t stalls = 0, jumps = 0, switches = 0;
    uint64_t fault_ns = 0; // time lost by stalls and jumps
    uint64_t low_prio = 1u << 30;
    uint64_t hash = 1469598103934665603ull, ohash = 1469598103934665603ull;
    bool finishing = false;
} k;

int kscope = 0;

extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

inline void mix(uint64_t &h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 1099511628211ull;
}

void record(uint8_t kind, uint8_t fiber, uint32_t arg) {
    if (!result)
        return;
    if (result->n_events >= MAX_EVENTS || k.steps > 0xFFFFFFFFull) {
        result->events_overflow = 1;
        return;
    }
    result->events[result->n_events++] = SEv{uint32_t(k.steps), kind, fiber, 0, arg};
}

bool runnable(const Fiber &f) { return f.st == Fiber::RUN || (f.st == Fiber::BLOCKED && f.deadline <= k.now); }

void set_next_point() {
    if (k.cfg.explicit_) {
        while (k.next_ev < k.cfg.events.size() && k.cfg.events[k.next_ev].idx <= k.steps)
            ++k.next_ev;
        k.next_point = k.next_ev < k.cfg.events.size() ? k.cfg.events[k.next_ev].idx : k.cfg.max_steps;
    } else if (k.cfg.gap == 0) {
        k.next_point = k.cfg.max_steps;
    } else {
        // geometric-ish gap with mean cfg.gap
        uint32_t g = 1;
        uint64_t r = k.srng.next() & 0xFFFF;
        // inverse exponential by table-free approximation: sum of two uniforms has a mode, so mix
        g = 1 + uint32_t((r * 2 * k.cfg.gap) >> 16);
        if (k.srng.one_in(4))
            g = 1 + k.srng.below(4);
        k.next_point = k.steps + g;
    }
    if (k.next_point > k.cfg.max_steps)
        k.next_point = k.cfg.max_steps;
}

void switch_to(int to) {
    Fiber &t = k.f[to];
    if (t.st == Fiber::BLOCKED) {
        t.st = Fiber::RUN;
        t.timed_out = true;
        if (t.wq) {
            auto &w = t.wq->w;
            for (size_t i = 0; i < w.size(); ++i)
                if (w[i] == to) {
                    w.erase(w.begin() + long(i));
                    break;
                }
            t.wq = nullptr;
        }
    }
    t.deadline = NEVER;
    if (to == k.cur)
        return;
    ++k.switches;
    mix(k.hash, (uint64_t(to) << 40) ^ k.steps);
    if (tracing)
        tr("-- [%s -> %s] step %llu t=%.6f", k.f[k.cur].name, t.name, (unsigned long long)k.steps, double(k.now) / 1e9);
    int from = k.cur;
    auto *eh = reinterpret_cast<uint64_t *>(__cxxabiv1::__cxa_get_globals());
    k.f[from].eh[0] = eh[0];
    k.f[from].eh[1] = eh[1];
    eh[0] = t.eh[0];
    eh[1] = t.eh[1];
    k.cur = to;
    if (on_switch_hook)
        on_switch_hook(from, to);
    sim_switch(&k.f[from].sp, t.sp);
}

int default_choice() {
    for (int i = 1; i <= k.nf; ++i) {
        int c = (k.cur + i) % k.nf;
        if (runnable(k.f[c]))
            return c;
    }
    return -1;
}

int pick(bool exclude_self) {
    int c[MAX_FIBERS], n = 0;
    for (int i = 0; i < k.nf; ++i)
        if (runnable(k.f[i]) && !(exclude_self && i == k.cur))
            c[n++] = i;
    if (!n)
        return -1;
    if (k.cfg.mode == 1) {
        int best = c[0];
        for (int i = 1; i < n; ++i)
            if (k.f[c[i]].prio > k.f[best].prio)
                best = c[i];
        return best;
    }
    return c[k.srng.below(uint32_t(n))];
}

void step_limit() {
    if (k.steps >= k.cfg.max_steps)
        fail("hang/steps", "no end after %llu scheduler steps (livelock), fiber %s", (unsigned long long)k.steps,
             k.f[k.cur].name);
}

void block_current() { // state of the current fiber already set to BLOCKED or DONE
    ++k.steps;
    step_limit();
    bool any = false;
    for (int i = 0; i < k.nf; ++i)
        any = any || runnable(k.f[i]);
    if (!any) {
        uint64_t d = NEVER;
        for (int i = 0; i < k.nf; ++i)
            if (k.f[i].st == Fiber::BLOCKED && k.f[i].deadline < d)
                d = k.f[i].deadline;
        if (d == NEVER)
            fail("deadlock", "every fiber is blocked for ever");
        k.now = d;
    }
    int def = default_choice(), to = def;
    if (k.cfg.explicit_) {
        while (k.next_ev < k.cfg.events.size() && k.cfg.events[k.next_ev].idx < k.steps)
            ++k.next_ev;
        if (k.next_ev < k.cfg.events.size()) {
            auto &e = k.cfg.events[k.next_ev];
            if (e.idx == k.steps && e.kind == EV_SWITCH && e.fiber < k.nf && runnable(k.f[e.fiber])) {
                to = e.fiber;
            }
        }
        set_next_point();
    } else {
        to = pick(false);
        if (k.next_point <= k.steps)
            set_next_point();
    }
    if (to != def)
        record(EV_SWITCH, uint8_t(to), 0);
    switch_to(to);
}

void do_stall(int fiber, uint64_t ns) {
    Fiber &me = k.f[fiber];
    me.st = Fiber::BLOCKED;
    me.deadline = k.now + ns;
    me.wq = nullptr;
    ++k.stalls;
    k.fault_ns += ns;
    ev("stall", fiber, int64_t(ns));
    block_current();
}

uint32_t log_uniform(Rng &r, uint32_t max_us) {
    uint32_t bits = 0;
    while ((max_us >> bits) > 1)
        ++bits;
    uint32_t b = r.below(bits + 1);
    uint32_t base = 1u << b;
    uint32_t v = base + r.below(base);
    return v > max_us ? max_us : v;
}

__attribute__((noinline)) void slow_point() {
    step_limit();
    if (k.cfg.explicit_) {
        if (k.next_ev < k.cfg.events.size() && k.cfg.events[k.next_ev].idx == k.steps) {
            SEv e = k.cfg.events[k.next_ev];
            set_next_point();
            if (e.kind == EV_SWITCH) {
                if (e.fiber < k.nf && int(e.fiber) != k.cur && runnable(k.f[e.fiber])) {
                    record(EV_SWITCH, e.fiber, 0);
                    switch_to(e.fiber);
                }
            } else if (e.kind == EV_STALL) {
                record(EV_STALL, uint8_t(k.cur), e.arg);
                do_stall(k.cur, uint64_t(e.arg) * US);
            } else if (e.kind == EV_JUMP) {
                record(EV_JUMP, 0, e.arg);
                ++k.jumps;
                k.now += uint64_t(e.arg) * US;
                k.fault_ns += uint64_t(e.arg) * US;
                k.wall += (int64_t(e.arg % 7) - 3) * 1000000000ll;
                ev("clock-jump", int64_t(e.arg));
            }
        } else
            set_next_point();
        return;
    }
    set_next_point();
    if (k.faults) {
        if (k.cfg.stall_1in && k.stalls < k.cfg.stall_max && k.srng.one_in(k.cfg.stall_1in)) {
            uint32_t us = log_uniform(k.srng, k.cfg.stall_us);
            record(EV_STALL, uint8_t(k.cur), us);
            do_stall(k.cur, uint64_t(us) * US);
            return;
        }
        if (k.cfg.jump_1in && k.jumps < k.cfg.jump_max && k.srng.one_in(k.cfg.jump_1in)) {
            uint32_t us = log_uniform(k.srng, k.cfg.jump_us);
            record(EV_JUMP, 0, us);
            ++k.jumps;
            k.now += uint64_t(us) * US;
            k.fault_ns += uint64_t(us) * US;
            k.wall += (int64_t(us % 7) - 3) * 1000000000ll; // the wall clock steps back and forth
            ev("clock-jump", int64_t(us));
            return;
        }
    }
    if (k.cfg.mode == 1)
        k.f[k.cur].prio = --k.low_prio;
    int to = pick(true);
    if (k.cfg.mode == 1 && to >= 0 && k.f[to].prio < k.f[k.cur].prio)
        to = -1;
    if (to >= 0) {
        record(EV_SWITCH, uint8_t(to), 0);
        switch_to(to);
    }
}

void fiber_main() {
    Fiber &me = k.f[k.cur];
    (*me.fn)();
    me.st = Fiber::DONE;
    me.deadline = NEVER;
    ev("fiber-end", k.cur);
    if (on_sync_release)
        on_sync_release(join_obj());
    block_current();
    __builtin_trap();
}

// ------------------------------------------------------------------ heap
struct Hdr {
    uint32_t magic;
    uint32_t size;
    uint32_t state; // 1 live, 2 freed
    uint32_t seq;
    void *site;
    uint32_t total;
    uint32_t cls;
};
static_assert(sizeof(Hdr) == 32, "");
char *region_pos[REGIONS];
kvec<Hdr *> *freelist = nullptr; // by total/16
HeapStats hs;
uint32_t alloc_seq = 0;

char *region_base(int i) { return reinterpret_cast<char *>(ARENA_BASE + REGION * size_t(i)); }

bool owns(const void *p) {
    auto v = reinterpret_cast<uintptr_t>(p);
    return v >= ARENA_BASE && v < ARENA_BASE + REGION * REGIONS;
}

void *heap_alloc(size_t n, void *site) {
    if (n > (1u << 26)) // rotor never asks for that much
        fail("heap/huge-allocation", "allocation of %zu bytes", n);
    uint32_t total = uint32_t((n + sizeof(Hdr) + 15) & ~size_t(15));
    if (n == 0)
        total += 16;
    Hdr *h = nullptr;
    if ((k.cfg.heap & 2) && total / 16 < 256) {
        auto &fl = freelist[total / 16];
        if (!fl.empty() && k.hrng.below(4)) {
            size_t i = (k.hrng.below(2)) ? fl.size() - 1 : k.hrng.below(uint32_t(fl.size()));
            h = fl[i];
            fl[i] = fl.back();
            fl.pop_back();
        }
    }
    if (!h) {
        int r = (k.cfg.heap & 1) ? int(k.hrng.below(REGIONS)) : 0;
        char *p = region_pos[r];
        if (p + total > region_base(r) + REGION)
            fail("heap/exhausted", "simulated heap exhausted");
        region_pos[r] = p + total;
        h = reinterpret_cast<Hdr *>(p);
    }
    h->magic = 0x51A110C8;
    h->size = uint32_t(n);
    h->state = 1;
    h->seq = ++alloc_seq;
    h->site = site;
    h->total = total;
    hs.live_blocks++;
    hs.live_bytes += n;
    hs.allocs++;
    std::memset(h + 1, 0xCD, n);
    if (on_alloc_hook)
        on_alloc_hook(h + 1, n);
    return h + 1;
}

void heap_free(void *p) {
    Hdr *h = static_cast<Hdr *>(p) - 1;
    if (h->magic != 0x51A110C8)
        fail("heap/bad-free", "free of a pointer which is not a heap block");
    if (h->state != 1)
        fail("heap/double-free", "double free of a block of %u bytes (alloc #%u)", h->size, h->seq);
    h->state = 2;
    hs.live_blocks--;
    hs.live_bytes -= h->size;
    std::memset(p, 0xDD, h->size);
    if (on_free_hook)
        on_free_hook(p, h->size);
    if ((k.cfg.heap & 2) && h->total / 16 < 256)
        freelist[h->total / 16].push_back(h);
}

template <class F> void walk(F &&f) {
    for (int r = 0; r < REGIONS; ++r)
        for (char *p = region_base(r); p < region_pos[r];) {
            Hdr *h = reinterpret_cast<Hdr *>(p);
            f(h);
            p += h->total;
        }
}

bool maps_ready = false;
void ensure_maps() {
    if (maps_ready)
        return;
    void *a = mmap(reinterpret_cast<void *>(ARENA_BASE), REGION * REGIONS, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = mmap(reinterpret_cast<void *>(STACK_BASE), size_t(STACK) * MAX_FIBERS, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED || s == MAP_FAILED) {
        fprintf(stderr, "sim: mmap failed\n");
        _exit(3);
    }
    for (int i = 0; i < MAX_FIBERS; ++i)
        mprotect(reinterpret_cast<char *>(STACK_BASE) + size_t(STACK) * size_t(i), 4096, PROT_NONE);
    maps_ready = true;
}

void sig(int s, siginfo_t *si, void *) {
    const char *n = s == SIGSEGV  ? "crash/SIGSEGV"
                    : s == SIGBUS ? "crash/SIGBUS"
                    : s == SIGFPE ? "crash/SIGFPE"
                    : s == SIGILL ? "crash/SIGILL"
                    : s == SIGABRT ? "crash/SIGABRT"
                    : s == SIGPROF ? "hang/cpu"
                                   : "crash/signal";
    if (s == SIGSEGV || s == SIGBUS) {
        auto a = reinterpret_cast<uintptr_t>(si->si_addr);
        if (a >= STACK_BASE && a < STACK_BASE + size_t(STACK) * MAX_FIBERS)
            n = "crash/stack-overflow";
    }
    fail(n, "signal %d (address %p) in fiber %s", s, si->si_addr, k.f[k.cur].name);
}

char altstack[65536];

} // namespace

void boot() { ensure_maps(); }

KScope::KScope() {
    ++kscope;
    ++k.nopreempt;
}
KScope::~KScope() {
    --kscope;
    --k.nopreempt;
}

bool active() { return k.active; }

void start(const SchedCfg &cfg, Result *res, bool trace) {
    ensure_maps();
    ++kscope;
    k.cfg = cfg;
    freelist = new kvec<Hdr *>[256];
    --kscope;
    result = res;
    tracing = trace;
    std::memset(result, 0, offsetof(Result, events));
    result->events_overflow = 0;
    result->trace_len = 0;
    k.srng = Rng(cfg.seed * 3 + 1);
    k.erng = Rng(cfg.seed * 3 + 2);
    k.hrng = Rng(cfg.seed * 3 + 3);
    for (int i = 0; i < REGIONS; ++i)
        region_pos[i] = region_base(i);
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof(altstack);
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_sigaction = sig;
    sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF})
        sigaction(s, &sa, nullptr);
    struct itimerval it {};
    it.it_value.tv_sec = 10;
    setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate([] { fail("crash/terminate", "std::terminate called"); });
    k.nf = 1;
    k.cur = 0;
    k.f[0].st = Fiber::RUN;
    k.f[0].prio = (1u << 30) + k.srng.below(1u << 20);
    std::snprintf(k.f[0].name, sizeof(k.f[0].name), "driver");
    k.active = true;
    set_next_point();
}

static void fill_result() {
    auto *r = result;
    r->hash = k.hash;
    r->obs_hash = k.ohash;
    r->steps = k.steps;
    r->switches = k.switches;
    r->stalls = k.stalls;
    r->jumps = k.jumps;
    r->sim_ns = k.now - 1000000000ull;
    r->allocs = hs.allocs;
    r->live = hs.live_blocks;
}

void finish() {
    k.nopreempt++;
    heap_check_poison();
    mix(k.hash, k.steps);
    fill_result();
    result->finished = 1;
    _exit(0);
}

void fail(const char *cls, const char *fmt, ...) {
    if (k.finishing)
        _exit(11);
    k.finishing = true;
    k.nopreempt++;
    if (result) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(result->msg, sizeof(result->msg), fmt, ap);
        va_end(ap);
        snprintf(result->cls, sizeof(result->cls), "%s", cls);
        for (const char *p = cls; *p; ++p)
            mix(k.hash, uint64_t(*p));
        if (tracing)
            tr("VIOLATION %s: %s (t=%.6f fiber %s)", cls, result->msg, double(k.now) / 1e9, k.f[k.cur].name);
        mix(k.hash, k.steps);
        fill_result();
        result->finished = 2;
    }
    _exit(10);
}

int spawn(const char *name, std::function<void()> fn) {
    if (k.nf >= MAX_FIBERS)
        fail("harness/fibers", "too many fibers");
    int id = k.nf++;
    Fiber &f = k.f[id];
    ++kscope;
    f.fn = new std::function<void()>(std::move(fn));
    --kscope;
    snprintf(f.name, sizeof(f.name), "%s", name);
    char *top = reinterpret_cast<char *>(STACK_BASE) + size_t(STACK) * size_t(id + 1);
    auto *sp = reinterpret_cast<void **>(top);
    *--sp = nullptr; // fake return address of fiber_main (alignment)
    *--sp = reinterpret_cast<void *>(&fiber_main);    // ret target
    for (int i = 0; i < 6; ++i)
        *--sp = nullptr;
    f.sp = sp;
    f.st = Fiber::RUN;
    f.prio = (1u << 30) + k.srng.below(1u << 20);
    if (on_spawn_hook)
        on_spawn_hook(id);
    ev("spawn", id);
    yield();
    return id;
}

bool done(int i) { return k.f[i].st == Fiber::DONE; }
int self() { return k.cur; }
const char *fiber_name(int i) { return k.f[i].name; }
int fiber_count() { return k.nf; }
void *&fls(int slot) { return k.f[k.cur].fls[slot]; }

void yield() {
    if (!k.active || k.nopreempt)
        return;
    k.now += k.cfg.tick_ns;
    if (++k.steps < k.next_point)
        return;
    slow_point();
}

void sleep_ns(uint64_t ns) {
    if (!k.active)
        return;
    Fiber &me = k.f[k.cur];
    me.st = Fiber::BLOCKED;
    me.deadline = k.now + ns;
    me.wq = nullptr;
    block_current();
}

void stall(int fiber, uint64_t ns) {
    if (fiber == k.cur)
        do_stall(fiber, ns);
}

uint64_t now() { return k.now; }
uint64_t read_clock(bool mono) {
    yield();
    if (mono)
        k.f[k.cur].last_read = k.now;
    return k.now;
}
uint64_t last_read() { return k.f[k.cur].last_read; }
int64_t wall_offset() { return k.wall; }
uint64_t fault_ns() { return k.fault_ns; }
uint32_t rnd(uint32_t n) { return k.erng.below(n); }
void faults_off() { k.faults = false; }
void faults_on() { k.faults = true; }
bool preempt_on() { return k.active && !k.nopreempt; }

NoPreempt::NoPreempt() { ++k.nopreempt; }
NoPreempt::~NoPreempt() { --k.nopreempt; }

bool wait(WaitQ &q, uint64_t deadline) {
    Fiber &me = k.f[k.cur];
    me.st = Fiber::BLOCKED;
    me.deadline = deadline;
    me.timed_out = false;
    me.wq = &q;
    q.w.push_back(k.cur);
    block_current();
    return !k.f[k.cur].timed_out;
}

static void wake(int i) {
    Fiber &f = k.f[i];
    f.st = Fiber::RUN;
    f.deadline = NEVER;
    f.timed_out = false;
    f.wq = nullptr;
}

void notify_one(WaitQ &q) {
    if (q.w.empty())
        return;
    size_t i = q.w.size() > 1 ? k.erng.below(uint32_t(q.w.size())) : 0;
    int f = q.w[i];
    q.w.erase(q.w.begin() + long(i));
    wake(f);
}

void notify_all(WaitQ &q) {
    for (int f : q.w)
        wake(f);
    q.w.clear();
}

bool wait_for(const std::function<bool()> &pred, uint64_t max_ns, uint64_t step) {
    uint64_t end = k.now + max_ns;
    while (!pred()) {
        if (k.now >= end)
            return false;
        uint64_t left = end - k.now;
        sleep_ns(step < left ? step : left);
        if (step < SEC)
            step = step * 3 / 2;
    }
    return true;
}

static void mix_ev(uint64_t &h, const char *tag, int64_t a, int64_t b, int64_t c) {
    for (const char *p = tag; *p; ++p)
        mix(h, uint64_t(*p));
    mix(h, uint64_t(a));
    mix(h, uint64_t(b));
    mix(h, uint64_t(c));
}

void ev(const char *tag, int64_t a, int64_t b, int64_t c) {
    mix_ev(k.hash, tag, a, b, c);
    if (tracing)
        tr("%-12s %10.6f %s %lld %lld %lld", k.f[k.cur].name, double(k.now) / 1e9, tag, (long long)a, (long long)b,
           (long long)c);
}

void obs(const char *tag, int64_t a, int64_t b, int64_t c) {
    mix_ev(k.ohash, tag, a, b, c);
    ev(tag, a, b, c);
}

void tr(const char *fmt, ...) {
    if (!tracing || !result)
        return;
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
    va_end(ap);
    if (n > int(sizeof(buf)) - 2)
        n = int(sizeof(buf)) - 2;
    buf[n++] = '\n';
    if (result->trace_len + uint32_t(n) < MAX_TRACE) {
        memcpy(result->trace + result->trace_len, buf, size_t(n));
        result->trace_len += uint32_t(n);
    }
}

void probe(const char *name, uint64_t n) {
    if (!result)
        return;
    uint32_t i = 0;
    for (; i < result->n_probes; ++i)
        if (!strcmp(result->probes[i].name, name)) {
            result->probes[i].n += n;
            return;
        }
    if (i < MAX_PROBES) {
        snprintf(result->probes[i].name, sizeof(result->probes[i].name), "%s", name);
        result->probes[i].n = n;
        result->n_probes = i + 1;
    }
}

HeapStats heap() { return hs; }
bool leaks_expected = false;
bool want_reasons = false;
bool release_delivery = false;
bool inventory = false;
uint64_t heap_seq() { return alloc_seq; }
void heap_report_live(uint64_t since, int max) {
    walk([&](Hdr *h) {
        if (h->state == 1 && h->seq > since && max-- > 0)
            tr("live block #%u %u bytes site=%p", h->seq, h->size, h->site);
    });
}
uint64_t heap_live(uint64_t since, void **site, uint32_t *size, uint64_t *seq) {
    uint64_t n = 0;
    Hdr *first = nullptr;
    walk([&](Hdr *h) {
        if (h->state == 1 && h->seq > since) {
            ++n;
            if (!first || h->seq < first->seq)
                first = h;
        }
    });
    if (first) {
        *site = first->site;
        *size = first->size;
        *seq = first->seq;
    }
    return n;
}
void heap_sites(kmap<void *, uint32_t> &out) {
    walk([&](Hdr *h) {
        if (h->state == 1)
            ++out[h->site];
    });
}
void heap_check_poison() {
    if (k.cfg.heap & 2)
        return;
    walk([&](Hdr *h) {
        if (h->magic != 0x51A110C8)
            fail("heap/overflow", "heap block header overwritten");
        if (h->state == 2) {
            auto *p = reinterpret_cast<unsigned char *>(h + 1);
            for (uint32_t i = 0; i < h->size; ++i)
                if (p[i] != 0xDD)
                    fail("heap/write-after-free", "block of %u bytes (alloc #%u) written at +%u after it was freed",
                         h->size, h->seq, i);
        }
    });
}
bool heap_owns(const void *p) { return owns(p); }
void *heap_block_info(const void *p, size_t *size, uint64_t *seq, bool *freed, void **site) {
    void *found = nullptr;
    walk([&](Hdr *h) {
        auto *b = reinterpret_cast<char *>(h + 1);
        if (p >= b && p < b + h->total - sizeof(Hdr)) {
            found = b;
            *size = h->size;
            *seq = h->seq;
            *freed = h->state == 2;
            *site = h->site;
        }
    });
    return found;
}

// ------------------------------------------------------------------ operator new / delete
static inline void *do_new(size_t n, void *site) {
    if (k.active && !kscope)
        return heap_alloc(n, site);
    void *p = std::malloc(n ? n : 1);
    if (!p)
        std::abort();
    return p;
}
static inline void do_delete(void *p) {
    if (!p)
        return;
    if (owns(p))
        heap_free(p);
    else
        std::free(p);
}
} // namespace sim

void *operator new(size_t n) { return sim::do_new(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return sim::do_new(n, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { sim::do_delete(p); }
void operator delete[](void *p) noexcept { sim::do_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::do_delete(p); }
// aligned versions
void *operator new(size_t n, std::align_val_t a) {
    if (size_t(a) <= 16)
        return sim::do_new(n, __builtin_return_address(0));
    return std::aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a));
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }

extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *func) {
    const char *b = strrchr(file, '/');
    b = b ? b + 1 : file;
    char cls[90];
    snprintf(cls, sizeof(cls), "assert/%s", b);
    sim::fail(cls, "assertion '%s' failed at %s:%u in %s", expr, b, line, func);
}
