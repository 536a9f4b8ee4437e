// Deterministic simulation kernel: fibers, virtual time, seeded scheduler, fault injection,
// deterministic heap, event log.  No rotor / boost includes here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <set>

namespace sim {

// ---------------------------------------------------------------- rng
struct Rng {
    uint64_t s = 0x9E3779B97F4A7C15ull;
    explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
    int range(int a, int b) { return a + int(below(uint32_t(b - a + 1))); } // inclusive
    bool one_in(uint32_t n) { return n && below(n) == 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(uint32_t(v.size()))]; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(uint32_t(l.size()))); }
};

// ---------------------------------------------------------------- malloc-backed containers (never in the sim arena)
template <class T> struct kalloc {
    using value_type = T;
    kalloc() = default;
    template <class U> kalloc(const kalloc<U> &) {}
    T *allocate(size_t n) { return static_cast<T *>(std::malloc(n * sizeof(T))); }
    void deallocate(T *p, size_t) { std::free(p); }
    template <class U> bool operator==(const kalloc<U> &) const { return true; }
    template <class U> bool operator!=(const kalloc<U> &) const { return false; }
};
template <class T> using kvec = std::vector<T, kalloc<T>>;
template <class T> using kdeque = std::deque<T, kalloc<T>>;
template <class K, class V> using kmap = std::map<K, V, std::less<K>, kalloc<std::pair<const K, V>>>;
template <class K> using kset = std::set<K, std::less<K>, kalloc<K>>;
using kstr = std::basic_string<char, std::char_traits<char>, kalloc<char>>;

// allocations made inside such a scope are not part of the simulated heap
struct KScope {
    KScope();
    ~KScope();
};

// ---------------------------------------------------------------- schedule description
enum EvKind : uint8_t { EV_SWITCH = 1, EV_STALL = 2, EV_JUMP = 3 };
struct SEv {
    uint32_t idx;
    uint8_t kind;
    uint8_t fiber;
    uint16_t pad;
    uint32_t arg;
};

struct SchedCfg {
    uint64_t seed = 1;
    uint32_t gap = 32;        // mean number of yield points between preemptions (0: never preempt)
    uint32_t mode = 0;        // 0 random walk, 1 priorities with change points
    uint32_t tick_ns = 100;   // virtual cost of one yield point
    uint32_t stall_1in = 0;   // at a preemption point: 1 in N to stall the fiber instead (0: never)
    uint32_t stall_max = 0;   // max number of stalls
    uint32_t stall_us = 0;    // max stall duration (log-uniform below it)
    uint32_t jump_1in = 0;    // at a preemption point: 1 in N to jump the monotonic clock forward
    uint32_t jump_max = 0;
    uint32_t jump_us = 0;
    uint32_t heap = 0;        // bit0: permute placement, bit1: reuse freed blocks
    uint32_t explicit_ = 0;   // replay `events` instead of drawing
    uint32_t max_steps = 4000000;
    std::vector<SEv> events;
};

// ---------------------------------------------------------------- shared result block (filled by the simulated process)
enum { MAX_PROBES = 160, MAX_EVENTS = 60000, MAX_TRACE = 1 << 20 };
struct Result {
    int finished;            // 1: run reached its end, 2: violation recorded
    char cls[96];            // violation class
    char msg[1024];
    uint64_t hash;           // hash of the event log
    uint64_t obs_hash;       // hash of the observable behaviour (messages, callbacks) in global order
    uint64_t steps, switches, stalls, jumps;
    uint64_t sim_ns;
    uint64_t allocs, live;
    uint32_t n_events;
    uint32_t n_probes;
    struct {
        char name[40];
        uint64_t n;
    } probes[MAX_PROBES];
    SEv events[MAX_EVENTS];
    uint32_t events_overflow;
    uint32_t trace_len;
    char trace[MAX_TRACE];
};
extern Result *result;
extern bool tracing;

// ---------------------------------------------------------------- kernel api (inside a simulated run)
bool active();
void start(const SchedCfg &cfg, Result *res, bool tracing); // turns the calling context into fiber 0 (the driver)
[[noreturn]] void finish();                                  // ends the run, writes the result, _exit(0)
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

int spawn(const char *name, std::function<void()> fn); // returns the fiber id
bool done(int fiber);
void *join_obj(); // happens-before anchor of finished fibers
int self();
const char *fiber_name(int id);
int fiber_count();
void *&fls(int slot); // fiber local storage

void yield();                      // preemption point
void sleep_ns(uint64_t ns);        // virtual sleep
uint64_t now();                    // virtual monotonic ns (no tick)
uint64_t read_clock(bool mono = true);             // same, as seen by the code: costs one yield point
uint64_t last_read();              // what the calling fiber got from the monotonic clock last (0: it never looked)
uint64_t fault_ns();               // total time which stalls and clock jumps have taken so far
int64_t wall_offset();             // realtime = now + offset
uint32_t rnd(uint32_t n);          // environment randomness (latencies, losses...)
void faults_off();                 // no more stalls/jumps from here on
void faults_on();
void stall(int fiber, uint64_t ns);

bool preempt_on();
struct NoPreempt { // no voluntary preemption inside (the oracle's own code)
    NoPreempt();
    ~NoPreempt();
};

struct WaitQ {
    kvec<int> w;
};
bool wait(WaitQ &q, uint64_t deadline_ns); // false: timed out
void notify_one(WaitQ &q);
void notify_all(WaitQ &q);
// driver helper: virtual-time poll until pred or until `max_ns` of virtual time passed
bool wait_for(const std::function<bool()> &pred, uint64_t max_ns, uint64_t step_ns = 1000000);

void ev(const char *tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);  // event log, hashed
void obs(const char *tag, int64_t a = 0, int64_t b = 0, int64_t c = 0); // the same, observable behaviour
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char *name, uint64_t n = 1);

// heap
struct HeapStats {
    uint64_t live_blocks, live_bytes, allocs;
};
HeapStats heap();
extern bool release_delivery; // messages are delivered by the variant for release builds (local_delivery_t)
extern bool want_reasons;   // the shutdown reasons of all actors are checked in this run
extern bool inventory;      // the heap is checked in this run
extern bool leaks_expected; // the run left an actor behind which never finished its shutdown
void heap_report_live(uint64_t since_seq, int max); // to trace
// blocks still allocated, made after `since`: their number, and the first one
uint64_t heap_live(uint64_t since, void **site, uint32_t *size, uint64_t *seq);
void heap_sites(kmap<void *, uint32_t> &out); // live blocks by the place which allocated them
uint64_t heap_seq();
void heap_check_poison();
bool heap_is_freed(const void *p);
bool heap_owns(const void *p);
void *heap_block_info(const void *p, size_t *size, uint64_t *seq, bool *freed, void **site);

// hooks for the race detector (kernel -> tsan runtime)
extern void (*on_switch_hook)(int from, int to);
extern void (*on_free_hook)(void *p, size_t n);
extern void (*on_alloc_hook)(void *p, size_t n);
extern void (*on_sync_release)(void *obj);
extern void (*on_sync_acquire)(void *obj);
extern void (*on_spawn_hook)(int child);

enum : uint64_t { NEVER = ~0ull, US = 1000ull, MS = 1000000ull, SEC = 1000000000ull };
} // namespace sim
