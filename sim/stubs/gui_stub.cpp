#include "../kernel.h"
#include "../race.h"
#include "gui_stub.h"
#include "wx/simwx.h"
#include <FL/Fl.H>
#include <list>

using namespace sim;

// ------------------------------------------------------------------ wx
wxAppConsole *wxTheApp = nullptr;
struct wxSimLoop {
    struct T {
        wxTimer *t;
        uint64_t due;
        uint64_t seq;
    };
    std::deque<std::function<void()>> q; // std containers in the simulated heap, like the real toolkit
    kvec<T> timers;
    WaitQ wq;
    uint64_t seq = 0;
    static void disarm(wxTimer *t) { t->armed = false; }
    static void arm(wxTimer *t) { t->armed = true; }
};
static wxSimLoop *wxl = nullptr;
static char wx_sync;

wxEvtHandler::wxEvtHandler() {}
wxEvtHandler::~wxEvtHandler() {}
void wxEvtHandler::QueueSim(std::function<void()> fn) {
    yield(); // the toolkit takes a lock here
    wxl->q.emplace_back(std::move(fn));
    hb_release(&wx_sync);
    notify_all(wxl->wq);
    yield();
}
wxTimer::wxTimer() {}
wxTimer::~wxTimer() { Stop(); }
bool wxTimer::Start(int ms, bool) {
    Stop();
    armed = true;
    wxl->timers.push_back({this, now() + uint64_t(ms < 0 ? 0 : ms) * MS, ++wxl->seq});
    notify_all(wxl->wq);
    return true;
}
void wxTimer::Stop() {
    armed = false;
    auto &v = wxl->timers;
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i].t == this) {
            v.erase(v.begin() + long(i));
            break;
        }
}
void wxTimer::Notify() {}

namespace gui {
void wx_reset() {
    wxl = new (malloc(sizeof(wxSimLoop))) wxSimLoop();
}
size_t wx_pending() { return wxl ? wxl->q.size() : 0; }
void wx_wake() {
    if (wxl)
        notify_all(wxl->wq);
}
void wx_dispatch(unsigned long long max_wait_ns) {
    bool did = false;
    while (!wxl->q.empty()) {
        hb_acquire(&wx_sync);
        auto fn = std::move(wxl->q.front());
        wxl->q.pop_front();
        fn();
        fn = nullptr;
        did = true;
        yield();
    }
    for (;;) {
        wxSimLoop::T *best = nullptr;
        for (auto &t : wxl->timers)
            if (t.due <= now() && (!best || t.due < best->due || (t.due == best->due && t.seq < best->seq)))
                best = &t;
        if (!best)
            break;
        wxTimer *t = best->t;
        wxl->timers.erase(wxl->timers.begin() + (best - wxl->timers.data()));
        wxSimLoop::disarm(t);
        t->Notify(); // may delete t
        did = true;
        yield();
    }
    if (did || !wxl->q.empty())
        return;
    uint64_t dl = now() + max_wait_ns;
    for (auto &t : wxl->timers)
        dl = t.due < dl ? t.due : dl;
    wait(wxl->wq, dl);
}
} // namespace gui

// ------------------------------------------------------------------ FLTK
struct FlSim {
    struct A {
        Fl_Awake_Handler cb;
        void *data;
    };
    struct T {
        Fl_Timeout_Handler cb;
        void *data;
        uint64_t due, seq;
    };
    kdeque<A> ring;
    kvec<T> timers;
    WaitQ wq;
    bool woken = false;
    unsigned cap = 1024;
    uint64_t seq = 0;
};
static FlSim *fls_ = nullptr;
static char fl_sync;
namespace gui {
void fl_reset(unsigned cap) {
    fls_ = new (malloc(sizeof(FlSim))) FlSim();
    fls_->cap = cap;
}
// the application ends: pending events go with their event handlers
void end() {
    if (!wxl)
        return;
    KScope ks; // the empty queue is not of the simulated heap
    std::deque<std::function<void()>> e;
    e.swap(wxl->q);
}
size_t fl_pending() { return fls_ ? fls_->ring.size() : 0; }
} // namespace gui

int Fl::awake(Fl_Awake_Handler cb, void *data) {
    yield();
    if (fls_->ring.size() >= fls_->cap) {
        probe("fault:fl-awake-ring-full");
        return -1;
    }
    fls_->ring.push_back({cb, data});
    hb_release(&fl_sync);
    Fl::awake(static_cast<void *>(nullptr));
    return 0;
}
void Fl::awake(void *) {
    fls_->woken = true;
    notify_all(fls_->wq);
    yield();
}
void Fl::add_timeout(double t, Fl_Timeout_Handler cb, void *data) {
    fls_->timers.push_back({cb, data, now() + uint64_t((t < 0 ? 0 : t) * 1e9), ++fls_->seq});
}
void Fl::remove_timeout(Fl_Timeout_Handler cb, void *data) {
    auto &v = fls_->timers;
    for (size_t i = 0; i < v.size();) {
        if (v[i].cb == cb && (v[i].data == data || !data))
            v.erase(v.begin() + long(i));
        else
            ++i;
    }
}
// as the toolkit does it: due timeouts first, then one wait, which ends with the first wake up or when the next timeout
// is due (that one is run by the next call)
double Fl::wait(double seconds) {
    for (;;) {
        FlSim::T *best = nullptr;
        for (auto &t : fls_->timers)
            if (t.due <= now() && (!best || t.due < best->due || (t.due == best->due && t.seq < best->seq)))
                best = &t;
        if (!best)
            break;
        auto t = *best;
        fls_->timers.erase(fls_->timers.begin() + (best - fls_->timers.data()));
        t.cb(t.data);
    }
    uint64_t dl = seconds > 1e9 ? ~0ull : now() + uint64_t(seconds * 1e9);
    for (auto &t : fls_->timers)
        dl = t.due < dl ? t.due : dl;
    while (!fls_->woken && now() < dl)
        sim::wait(fls_->wq, dl);
    fls_->woken = false;
    while (!fls_->ring.empty()) {
        hb_acquire(&fl_sync);
        auto a = fls_->ring.front();
        fls_->ring.pop_front();
        a.cb(a.data);
        yield();
    }
    return 1;
}
