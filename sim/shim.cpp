// Interposed C library entry points: inside a simulated run every clock, lock, condition variable, thread-specific
// value, sleep and readiness wait of the code under test (and of the real boost::asio / libev underneath it) is
// served by the simulation kernel.  Outside of a run the real functions are used.
#include "kernel.h"
#include <cerrno>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

using namespace sim;

namespace {
template <class F> F real(F &slot, const char *name) {
    if (!slot)
        slot = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    return slot;
}
struct MutexState {
    int owner = 0; // fiber + 1
    int depth = 0;
    WaitQ q;
};
kmap<const void *, MutexState> *mtx = nullptr;
kmap<const void *, WaitQ> *cvs = nullptr;
MutexState &M(const void *m) {
    if (!mtx)
        mtx = new (malloc(sizeof(*mtx))) kmap<const void *, MutexState>();
    return (*mtx)[m];
}
WaitQ &C(const void *c) {
    if (!cvs)
        cvs = new (malloc(sizeof(*cvs))) kmap<const void *, WaitQ>();
    return (*cvs)[c];
}
uint64_t to_ns(const timespec *ts) { return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec); }
void from_ns(uint64_t ns, timespec *ts) {
    ts->tv_sec = time_t(ns / 1000000000ull);
    ts->tv_nsec = long(ns % 1000000000ull);
}
void lock_impl(void *m) {
    auto &s = M(m);
    int me = self() + 1;
    bool rec = (static_cast<pthread_mutex_t *>(m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (s.owner == me && rec) {
        ++s.depth;
        return;
    }
    if (s.owner == me)
        fail("deadlock/self-lock", "a mutex is locked twice by the same thread");
    while (s.owner) {
        probe("mutex-contended");
        wait(s.q, NEVER);
    }
    s.owner = me;
    s.depth = 1;
    if (on_sync_acquire)
        on_sync_acquire(m);
}
void unlock_impl(void *m) {
    auto &s = M(m);
    if (--s.depth > 0)
        return;
    if (on_sync_release)
        on_sync_release(m);
    s.owner = 0;
    notify_one(s.q);
}
} // namespace

extern "C" {

int clock_gettime(clockid_t id, timespec *ts) {
    if (!active())
        return int(syscall(SYS_clock_gettime, id, ts));
    uint64_t t = read_clock(id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
        t = uint64_t(int64_t(t) + wall_offset());
    from_ns(t, ts);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    (void)tz;
    return 0;
}
time_t time(time_t *out) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const timespec *req, timespec *) {
    if (!active())
        return int(syscall(SYS_nanosleep, req, nullptr));
    sleep_ns(to_ns(req));
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const timespec *req, timespec *) {
    if (!active())
        return int(syscall(SYS_clock_nanosleep, id, flags, req, nullptr));
    uint64_t t = to_ns(req);
    if (flags & TIMER_ABSTIME)
        t = t > now() ? t - now() : 0;
    sleep_ns(t);
    return 0;
}
int usleep(useconds_t us) {
    if (!active()) {
        timespec ts;
        from_ns(uint64_t(us) * 1000, &ts);
        return int(syscall(SYS_nanosleep, &ts, nullptr));
    }
    sleep_ns(uint64_t(us) * 1000);
    return 0;
}
int sched_yield(void) {
    if (active())
        yield();
    return 0;
}

// ---------------------------------------------------------------- mutexes
int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = nullptr;
    if (!active())
        return real(r, "pthread_mutex_lock")(m);
    yield();
    lock_impl(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = nullptr;
    if (!active())
        return real(r, "pthread_mutex_trylock")(m);
    yield();
    if (M(m).owner)
        return EBUSY;
    lock_impl(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = nullptr;
    if (!active())
        return real(r, "pthread_mutex_unlock")(m);
    unlock_impl(m);
    yield();
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    static int (*r)(pthread_mutex_t *, const pthread_mutexattr_t *) = nullptr;
    if (active() && mtx)
        mtx->erase(m);
    return real(r, "pthread_mutex_init")(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = nullptr;
    if (!active())
        return real(r, "pthread_mutex_destroy")(m);
    if (mtx) {
        auto it = mtx->find(m);
        if (it != mtx->end()) {
            if (it->second.owner)
                fail("misuse/mutex-destroyed-locked", "a locked mutex is destroyed");
            mtx->erase(it);
        }
    }
    return 0;
}

// ---------------------------------------------------------------- condition variables
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
    yield();
    unlock_impl(m);
    bool ok = sim::wait(C(c), deadline);
    yield();
    lock_impl(m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *) = nullptr;
    if (!active())
        return real(r, "pthread_cond_wait")(c, m);
    probe("cond-wait");
    // spurious wake-ups are legal: take one now and then
    uint64_t dl = rnd(40) == 0 ? now() + 1000 + rnd(1000000) : uint64_t(NEVER);
    if (dl != NEVER)
        probe("fault:spurious-wakeup");
    cond_wait(c, m, dl);
    return 0;
}
static int timed(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
    probe("cond-timedwait");
    bool spurious = rnd(40) == 0;
    uint64_t s = now() + 1000 + rnd(1000000);
    if (spurious && s < dl) {
        probe("fault:spurious-wakeup");
        cond_wait(c, m, s);
        return 0;
    }
    return cond_wait(c, m, dl);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *, const timespec *) = nullptr;
    if (!active())
        return real(r, "pthread_cond_timedwait")(c, m, ts);
    int64_t dl = int64_t(to_ns(ts)) - wall_offset();
    return timed(c, m, dl < 0 ? 0 : uint64_t(dl));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const timespec *ts) {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *) = nullptr;
    if (!active())
        return real(r, "pthread_cond_clockwait")(c, m, id, ts);
    int64_t dl = int64_t(to_ns(ts)) - (id == CLOCK_REALTIME ? wall_offset() : 0);
    return timed(c, m, dl < 0 ? 0 : uint64_t(dl));
}
int pthread_cond_signal(pthread_cond_t *c) {
    static int (*r)(pthread_cond_t *) = nullptr;
    if (!active())
        return real(r, "pthread_cond_signal")(c);
    sim::notify_one(C(c));
    yield();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    static int (*r)(pthread_cond_t *) = nullptr;
    if (!active())
        return real(r, "pthread_cond_broadcast")(c);
    sim::notify_all(C(c));
    yield();
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    static int (*r)(pthread_cond_t *, const pthread_condattr_t *) = nullptr;
    if (active() && cvs)
        cvs->erase(c);
    return real(r, "pthread_cond_init")(c, a);
}
int pthread_cond_destroy(pthread_cond_t *c) {
    static int (*r)(pthread_cond_t *) = nullptr;
    if (!active())
        return real(r, "pthread_cond_destroy")(c);
    if (cvs)
        cvs->erase(c);
    return 0;
}

// ---------------------------------------------------------------- thread specific data: per fiber
enum { MAXKEY = 64, MAXF = 32 };
static void *tsd[MAXF][MAXKEY];
static int next_key = 1;
int pthread_key_create(pthread_key_t *key, void (*)(void *)) {
    if (next_key >= MAXKEY)
        return EAGAIN;
    *key = pthread_key_t(next_key++);
    return 0;
}
int pthread_key_delete(pthread_key_t) { return 0; }
void *pthread_getspecific(pthread_key_t key) { return key < MAXKEY ? tsd[active() ? self() : 0][key] : nullptr; }
int pthread_setspecific(pthread_key_t key, const void *v) {
    if (key >= MAXKEY)
        return EINVAL;
    tsd[active() ? self() : 0][key] = const_cast<void *>(v);
    return 0;
}

// ---------------------------------------------------------------- readiness (real boost::asio and real libev)
static WaitQ *epq = nullptr;
static void hb_io() {
    static int dummy;
    if (on_sync_release)
        on_sync_release(&dummy);
}
ssize_t write(int fd, const void *buf, size_t n) {
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (active() && fd > 2) {
        if (epq) {
            hb_io();
            notify_all(*epq);
        }
        yield();
    }
    return r;
}
int epoll_ctl(int epfd, int op, int fd, struct epoll_event *e) { // asio interrupts its reactor that way
    int r = int(syscall(SYS_epoll_ctl, epfd, op, fd, e));
    if (active()) {
        if (epq) {
            hb_io();
            notify_all(*epq);
        }
        yield();
    }
    return r;
}
int timerfd_create(int clk, int flags) {
    (void)clk;
    (void)flags;
    errno = ENOSYS;
    return -1;
}
int epoll_wait(int epfd, struct epoll_event *evs, int maxev, int timeout) {
    if (!active())
        return int(syscall(SYS_epoll_wait, epfd, evs, maxev, timeout));
    if (!epq)
        epq = new (malloc(sizeof(*epq))) WaitQ();
    yield();
    uint64_t deadline = timeout < 0 ? uint64_t(NEVER) : now() + uint64_t(timeout) * MS;
    for (;;) {
        int r = int(syscall(SYS_epoll_wait, epfd, evs, maxev, 0));
        if (r != 0 || timeout == 0)
            return r;
        if (now() >= deadline)
            return 0;
        if (rnd(60) == 0) { // a signal arrives, now or after a while
            probe("fault:interrupted-poll");
            uint64_t s = now() + rnd(2000) * 1000ull;
            if (s < deadline)
                wait(*epq, s);
            errno = EINTR;
            return -1;
        }
        wait(*epq, deadline);
    }
}
int epoll_pwait(int epfd, struct epoll_event *evs, int maxev, int timeout, const sigset_t *) {
    return epoll_wait(epfd, evs, maxev, timeout);
}
}
