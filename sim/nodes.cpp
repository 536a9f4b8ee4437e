#include "rt.h"
#include "stubs/gui_stub.h"
#include <ev.h>
#include <FL/Fl.H>
#include <wx/app.h>

namespace rs {
const char *bk_name[] = {"sim", "thread", "ev", "asio", "fltk", "wx"};
const char *cb_name[] = {"ctor",  "configure",      "init_start",      "init_finish", "on_start",
                         "shutdown_start", "shutdown_finish", "dtor",        "on_unlink"};
World *W = nullptr;

namespace {
struct to_timer {};
int bound_fiber[64];
kmap<const void *, int> *sup_ents = nullptr;
} // namespace
} // namespace rs

namespace rotor {
template <>
inline auto actor_base_t::access<rs::to_timer, request_id_t, bool>(request_id_t id, bool cancelled) noexcept {
    on_timer_trigger(id, cancelled);
}
} // namespace rotor

namespace rs {

World::World() {
    for (int i = 0; i < 64; ++i)
        inside[i] = -1, depth[i] = 0, bound_fiber[i] = -1;
}

void world_init() {
    W = new (malloc(sizeof(World))) World();
    sup_ents = new (malloc(sizeof(*sup_ents))) kmap<const void *, int>();
    W->ents.reserve(8192); // references stay valid
}

int World::add(bool is_sup, r::actor_base_t *p) {
    sim::NoPreempt np;
    Ent e;
    e.id = int(ents.size());
    if (ents.size() == ents.capacity())
        FAIL("harness/entities", "too many entities");
    e.is_sup = is_sup;
    e.ptr = p;
    e.alive = true;
    ents.push_back(e);
    if (is_sup)
        (*sup_ents)[p] = e.id;
    return e.id;
}

int ent_of_sup(r::supervisor_t &s) {
    auto it = sup_ents->find(static_cast<r::actor_base_t *>(&s));
    return it == sup_ents->end() ? -1 : it->second;
}

void World::cb(int id, Cb c) {
    Ent &e = ents[size_t(id)];
    int ci = int(c);
    bool first_cfg = c == Cb::configure && !(e.seen & (1u << ci));
    if (c != Cb::configure || first_cfg)
        sim::obs(cb_name[ci], id, e.tag);
    if (check_life)
        life(e, c);
    if (sim::want_reasons && (c == Cb::shutdown_start || c == Cb::shutdown_finish))
        reason(e, c);
    if (check_child && e.is_sup && c == Cb::shutdown_finish)
        for (auto &x : ents)
            if (x.parent == id && x.alive && x.child_down != 1)
                FAIL("life/child-hook", "supervisor %d ends and was not told about the shutdown of its child %d", id, x.id);
    e.seen |= 1u << ci;
    e.cnt[ci]++;
    if (e.cnt[ci] == 1) {
        e.at[ci] = sim::now();
        e.seq_at[ci] = ++seq;
    }
    if (c != Cb::configure)
        e.last = ci;
    if (c == Cb::dtor) {
        e.alive = false;
        e.ptr = nullptr;
    }
    if (on_cb && (c != Cb::configure || first_cfg)) {
        sim::NoPreempt np;
        on_cb(e, c);
    }
}

void World::child(int sup, r::actor_base_t *a, bool down, const r::extended_error_ptr_t *ec) {
    if (!check_child)
        return;
    if (!a && ec && *ec)
        return; // its initialization has timed out, and it is gone already
    sim::NoPreempt np;
    Ent *e = nullptr;
    for (auto &x : ents)
        if (x.ptr && x.ptr == a)
            e = &x;
    const char *what = down ? "shutdown" : "initialization";
    if (!e || e->parent != sup)
        FAIL("life/child-hook", "supervisor %d is told about the %s of %s", sup, what, e ? "a stranger" : "nobody");
    sim::obs("child", sup, e->id, down);
    auto seen = [&](Cb x) { return (e->seen >> int(x)) & 1u; };
    if ((down ? e->child_down : e->child_init)++)
        FAIL("life/child-hook", "supervisor %d is told twice about the %s of its child %d", sup, what, e->id);
    if (!down && e->child_down)
        FAIL("life/child-hook", "supervisor %d is told about the initialization of its child %d after its shutdown", sup, e->id);
    if (!down && !*ec && !seen(Cb::init_finish))
        FAIL("life/child-hook", "supervisor %d is told that its child %d is initialized although it is not", sup, e->id);
}

// the documented lifecycle, as an automaton over the callbacks of one instance
void World::life(Ent &e, Cb c) {
    auto seen = [&](Cb x) { return (e.seen >> int(x)) & 1u; };
    auto bad = [&](const char *why) {
        FAIL("life/order", "entity %d (tag %d, %s): callback %s: %s", e.id, e.tag, e.is_sup ? "supervisor" : "actor",
             cb_name[int(c)], why);
    };
    if (c != Cb::configure && c != Cb::ctor && c != Cb::on_unlink && seen(c))
        bad("called twice");
    switch (c) {
    case Cb::configure:
        if (seen(Cb::start) || seen(Cb::shutdown_finish))
            bad("configured after start or after shutdown");
        break;
    case Cb::init_start:
        if (!seen(Cb::configure))
            bad("before the first configure");
        if (seen(Cb::shutdown_start))
            bad("after the shutdown began");
        break;
    case Cb::init_finish:
        if (!seen(Cb::init_start))
            bad("without init start");
        if (seen(Cb::shutdown_start))
            bad("after the shutdown began");
        break;
    case Cb::start:
        if (!seen(Cb::init_finish))
            bad("started without finished initialization");
        if (seen(Cb::shutdown_start))
            bad("started after the shutdown began");
        break;
    case Cb::shutdown_start:
        if (seen(Cb::shutdown_finish))
            bad("after shutdown finish");
        break;
    case Cb::shutdown_finish:
        if (!seen(Cb::shutdown_start))
            bad("without shutdown start");
        break;
    case Cb::dtor:
        if ((seen(Cb::init_start) || seen(Cb::shutdown_start)) && !seen(Cb::shutdown_finish))
            bad("destroyed before its shutdown finished");
        break;
    default:
        break;
    }
}

// what holds for the reason of any shutdown: it is there, it stays, and its chain is not cut: these codes are the
// consequences of something, and never the origin
void World::reason(Ent &e, Cb c) {
    const char *what = e.is_sup ? "supervisor" : "actor";
    auto &rs = e.ptr->get_shutdown_reason();
    if (!rs)
        FAIL("reason/none", "%s %d (tag %d): %s without a shutdown reason", what, e.id, e.tag, cb_name[int(c)]);
    if (c == Cb::shutdown_start)
        e.reason = rs.get();
    else if (e.reason != rs.get())
        FAIL("reason/changed", "the shutdown reason of %s %d (tag %d) changed during its shutdown", what, e.id, e.tag);
    auto root = rs->root();
    static const r::shutdown_code_t derived[] = {r::shutdown_code_t::supervisor_shutdown, r::shutdown_code_t::child_down,
                                                 r::shutdown_code_t::init_failed};
    // (a factory which throws leaves no other cause than these)
    bool cut = !thrown && (root->ec == r::make_error_code(r::shutdown_code_t::child_init_failed) ||
                           root->ec == r::make_error_code(r::error_code_t::failure_escalation)) ||
               root->ec == r::make_error_code(r::error_code_t::registration_failed) ||
               root->ec == r::make_error_code(r::error_code_t::discovery_failed);
    for (auto d : derived)
        cut |= root->ec == r::make_error_code(d);
    if (cut)
        FAIL("reason/truncated", "the chain of reasons of %s %d (tag %d) does not lead to a cause: %s", what, e.id, e.tag, rs->message().c_str());
}

Scope::Scope(int ent) {
    loc = W->ents[size_t(ent)].loc;
    W->handler_calls++;
    if (loc < 0 || loc >= 64)
        return;
    int me = sim::self();
    if (W->check_confine) {
        if (W->inside[loc] != -1 && W->inside[loc] != me)
            FAIL("confine/overlap", "code of locality %d runs in thread %s while thread %s is inside it", loc,
                 sim::fiber_name(me), sim::fiber_name(W->inside[loc]));
        if (bound_fiber[loc] >= 0 && bound_fiber[loc] != me)
            FAIL("confine/wrong-thread", "code of locality %d (thread %s) runs in thread %s", loc,
                 sim::fiber_name(bound_fiber[loc]), sim::fiber_name(me));
    }
    W->inside[loc] = me;
    W->depth[loc]++;
}
Scope::~Scope() {
    if (loc < 0 || loc >= 64)
        return;
    if (--W->depth[loc] == 0)
        W->inside[loc] = -1;
}

Ctx &cctx() {
    void *&p = sim::fls(0);
    if (!p)
        p = new (malloc(sizeof(Ctx))) Ctx();
    return *static_cast<Ctx *>(p);
}
SupOpts *&next_opts() { return reinterpret_cast<SupOpts *&>(sim::fls(1)); }

void context_error(r::actor_base_t *, const r::extended_error_ptr_t &ec) {
    W->errors++;
    bool expected = false;
    {
        sim::NoPreempt np;
        expected = W->on_error && W->on_error(ec);
    }
    if (!expected)
        FAIL("context/fatal-error", "the system context reported a fatal error: %s", ec ? ec->message().c_str() : "?");
}

// ------------------------------------------------------------------ sact_t
sact_t::sact_t(config_t &c) : r::actor_base_t(c), tag(c.tag), spec(c.spec) {
    ent = W->add(false, this);
    auto &e = W->ents[size_t(ent)];
    e.tag = tag;
    if (c.supervisor) {
        e.parent = ent_of_sup(*c.supervisor);
        if (e.parent >= 0)
            e.loc = W->ents[size_t(e.parent)].loc;
    }
    W->cb(ent, Cb::ctor);
}
sact_t::~sact_t() { W->cb(ent, Cb::dtor); }
void sact_t::configure(r::plugin::plugin_base_t &p) noexcept {
    Scope s(ent);
    W->cb(ent, Cb::configure);
    r::actor_base_t::configure(p);
    on_configure(p);
}
void sact_t::init_start() noexcept {
    Scope s(ent);
    r::actor_base_t::init_start();
    W->cb(ent, Cb::init_start);
}
void sact_t::init_finish() noexcept {
    Scope s(ent);
    r::actor_base_t::init_finish();
    W->cb(ent, Cb::init_finish);
}
void sact_t::on_start() noexcept {
    Scope s(ent);
    r::actor_base_t::on_start();
    W->cb(ent, Cb::start);
    started();
}
void sact_t::shutdown_start() noexcept {
    Scope s(ent);
    W->cb(ent, Cb::shutdown_start);
    r::actor_base_t::shutdown_start();
    stopping();
}
void sact_t::shutdown_finish() noexcept {
    Scope s(ent);
    stopped();
    r::actor_base_t::shutdown_finish();
    W->cb(ent, Cb::shutdown_finish);
}

// ------------------------------------------------------------------ SIM loop
void SimLoop::post(r::message_ptr_t m) {
    sim::yield();
    int src = sim::self();
    uint64_t lat = latency_us ? uint64_t(sim::rnd(uint32_t(latency_us) + 1)) * 1000 : 0;
    if (lat)
        sim::probe("fault:message-delay");
    uint64_t due = sim::now() + lat;
    if (due < last_due)
        due = last_due; // a loop keeps the order of the enqueue calls
    last_due = due;
    sim::hb_release(&sync);
    auto *raw = m.detach();
    inbox.push_back(In{raw, due, ++seq, src});
    sim::notify_all(wq);
    sim::yield();
}
void SimLoop::start_timer(const pt::time_duration &i, r::timer_handler_base_t &h) {
    uint64_t late = timer_late_us ? uint64_t(sim::rnd(uint32_t(timer_late_us) + 1)) * 1000 : 0;
    if (late)
        sim::probe("fault:timer-late");
    timers.push_back(T{sim::now() + uint64_t(i.total_nanoseconds()) + late, ++seq, &h});
}
void SimLoop::cancel_timer(r::request_id_t id) {
    for (size_t i = 0; i < timers.size(); ++i)
        if (timers[i].h->request_id == id) {
            auto *h = timers[i].h;
            timers.erase(timers.begin() + long(i));
            h->owner->access<to_timer, r::request_id_t, bool>(id, true);
            return;
        }
}
void SimLoop::drain() {
    for (auto &i : inbox)
        r::message_ptr_t(i.msg, false).reset();
    inbox.clear();
}
void SimLoop::run() {
    if (leader)
        leader->do_process();
    while (!stop) {
        bool did = false;
        for (;;) {
            size_t best = timers.size();
            for (size_t i = 0; i < timers.size(); ++i)
                if (timers[i].due <= sim::now() &&
                    (best == timers.size() || timers[i].due < timers[best].due ||
                     (timers[i].due == timers[best].due && timers[i].seq < timers[best].seq)))
                    best = i;
            if (best == timers.size())
                break;
            auto *h = timers[best].h;
            timers.erase(timers.begin() + long(best));
            h->owner->access<to_timer, r::request_id_t, bool>(h->request_id, false);
            leader->do_process();
            did = true;
            sim::yield();
        }
        for (;;) {
            size_t best = inbox.size();
            for (size_t i = 0; i < inbox.size(); ++i)
                if (inbox[i].due <= sim::now() && (best == inbox.size() || inbox[i].due < inbox[best].due ||
                                                   (inbox[i].due == inbox[best].due && inbox[i].seq < inbox[best].seq)))
                    best = i;
            if (best == inbox.size())
                break;
            auto *m = inbox[best].msg;
            inbox.erase(inbox.begin() + long(best));
            sim::hb_acquire(&sync);
            leader->put(r::message_ptr_t(m, false));
            did = true;
            if (sim::rnd(3) == 0)
                break;
        }
        if (did) {
            leader->do_process();
            sim::yield();
            continue;
        }
        uint64_t dl = sim::NEVER;
        for (auto &t : timers)
            dl = std::min(dl, t.due);
        for (auto &t : inbox)
            dl = std::min(dl, t.due);
        sim::wait(wq, dl);
    }
}

void sim_sup_t::start() noexcept {
    // asks the loop to process the queue
    sim::notify_all(loop->wq);
}
void sim_sup_t::shutdown() noexcept {
    auto &sup_addr = supervisor->get_address();
    auto reason = r::make_error("sim-external", r::make_error_code(r::shutdown_code_t::normal));
    supervisor->enqueue(r::make_message<r::payload::shutdown_trigger_t>(sup_addr, address, reason));
}
void sim_sup_t::enqueue(r::message_ptr_t m) noexcept { static_cast<sim_sup_t *>(locality_leader)->loop->post(std::move(m)); }

// ------------------------------------------------------------------ nodes
template <class B> void apply(B &b, const SupOpts &o) {
    std::move(b).init_timeout(ms(o.init_ms));
    std::move(b).shutdown_timeout(ms(o.shutdown_ms));
    std::move(b).policy(o.policy);
    std::move(b).poll_duration(us(o.poll_us));
    if (o.registry)
        std::move(b).create_registry(true);
    if (o.sync_start)
        std::move(b).synchronize_start(true);
    if (o.registry_addr)
        std::move(b).registry_address(o.registry_addr);
    if (o.flag)
        std::move(b).shutdown_flag(*o.flag, ms(o.flag_ms));
    if (o.autoshutdown)
        std::move(b).autoshutdown_supervisor(true);
    if (o.escalate)
        std::move(b).escalate_failure(true);
}

// the plugins of a supervisor with the delivery of release builds (the default one of builds with assertions may dump messages)
template <class List> struct release_list;
template <class... P> struct release_list<std::tuple<P...>> {
    using inspected_t = r::plugin::delivery_plugin_t<r::plugin::inspected_local_delivery_t>;
    using local_t = r::plugin::delivery_plugin_t<r::plugin::local_delivery_t>;
    using type = std::tuple<std::conditional_t<std::is_same_v<P, inspected_t>, local_t, P>...>;
};

template <class Sup, class B> SupIface *fin(B &&b, SupOpts &o, r::intrusive_ptr_t<r::supervisor_t> *keep, int parent) {
    apply(b, o);
    if (sim::release_delivery)
        b.config.plugins_constructor = []() -> r::plugin_storage_ptr_t {
            return std::make_unique<r::plugin_storage_t<typename release_list<typename Sup::plugins_list_t>::type>>();
        };
    SupIface *out = nullptr;
    auto user = o.prepare;
    o.prepare = [&](SupIface &i) {
        out = &i;
        W->ents[size_t(i.ent)].parent = parent;
        if (user)
            user(i);
    };
    next_opts() = &o;
    auto p = std::move(b).finish();
    next_opts() = nullptr;
    if (keep)
        *keep = p;
    o.prepare = user;
    return out;
}

void Node::destroy() {
    keep.clear();
    root.reset();
    ctx.reset();
}
bool Node::finished() const {
    for (int f : fibers)
        if (!sim::done(f))
            return false;
    return true;
}

namespace {
struct SimNode : Node {
    std::vector<std::unique_ptr<SimLoop>> loops;
    int latency = 0, late = 0;
    SupIface *make_root(SupOpts &o) override {
        o.loc = loc_of(o.strand);
        auto *c = new obs_ctx_t<r::system_context_t>();
        ctx.reset(c);
        SimLoop *l = loops[0].get();
        root_if = fin<obs_sup_t<sim_sup_t>>(c->create_supervisor<obs_sup_t<sim_sup_t>>().loop(l), o, &root, -1);
        l->leader = root.get();
        return root_if;
    }
    SupIface *make_child(r::supervisor_t &parent, SupOpts &o) override {
        SimLoop *pl = static_cast<sim_sup_t &>(parent).loop;
        SimLoop *l = pl;
        if (o.strand > 0 && o.strand < int(loops.size()) && !loops[size_t(o.strand)]->leader)
            l = loops[size_t(o.strand)].get();
        o.loc = loc0 + l->id;
        int pe = ent_of_sup(parent);
        auto *i = fin<obs_sup_t<sim_sup_t>>(parent.create_actor<obs_sup_t<sim_sup_t>>().loop(l), o, nullptr, pe);
        if (l != pl && i) {
            l->leader = i->sup();
            sim::notify_all(l->wq);
        }
        return i;
    }
    void start() override {
        started = true;
        for (size_t i = 0; i < loops.size(); ++i) {
            auto *l = loops[i].get();
            char n[24];
            snprintf(n, sizeof n, "sim%d.%zu", idx, i);
            bound_fiber[loc0 + int(i)] = sim::fiber_count();
            int f = sim::spawn(n, [l] {
                while (!l->leader && !l->stop)
                    sim::wait(l->wq, sim::NEVER);
                if (l->leader)
                    l->run();
            });
            l->fiber = f;
            fibers.push_back(f);
        }
    }
    void request_stop() override {
        for (auto &l : loops) {
            l->stop = true;
            sim::notify_all(l->wq);
        }
    }
    void destroy() override {
        for (auto &l : loops)
            l->drain();
        Node::destroy();
        loops.clear();
    }
};

struct ThreadNode : Node {
    using S = obs_sup_t<r::thread::supervisor_thread_t>;
    SupIface *make_root(SupOpts &o) override {
        o.loc = loc0;
        auto *c = new obs_ctx_t<r::thread::system_context_thread_t>();
        ctx.reset(c);
        return root_if = fin<S>(c->create_supervisor<S>(), o, &root, -1);
    }
    SupIface *make_child(r::supervisor_t &parent, SupOpts &o) override {
        o.loc = loc0;
        return fin<S>(parent.create_actor<S>(), o, nullptr, ent_of_sup(parent));
    }
    void start() override {
        started = true;
        char n[24];
        snprintf(n, sizeof n, "thread%d", idx);
        auto *c = static_cast<r::thread::system_context_thread_t *>(ctx.get());
        bound_fiber[loc0] = sim::fiber_count();
        fibers.push_back(sim::spawn(n, [c] { c->run(); }));
    }
};

struct EvNode : Node {
    using S = obs_sup_t<r::ev::supervisor_ev_t>;
    struct ev_loop *loop = nullptr;
    SupIface *make_root(SupOpts &o) override {
        o.loc = loc0;
        auto *c = new obs_ctx_t<r::ev::system_context_ev_t>();
        ctx.reset(c);
        loop = ev_loop_new(0);
        return root_if = fin<S>(c->create_supervisor<S>().loop(loop).loop_ownership(true), o, &root, -1);
    }
    SupIface *make_child(r::supervisor_t &parent, SupOpts &o) override {
        o.loc = loc0;
        return fin<S>(parent.create_actor<S>().loop(loop).loop_ownership(false), o, nullptr, ent_of_sup(parent));
    }
    void start() override {
        started = true;
        char n[24];
        snprintf(n, sizeof n, "ev%d", idx);
        root->start();
        bound_fiber[loc0] = sim::fiber_count();
        fibers.push_back(sim::spawn(n, [this] { ev_run(loop, 0); }));
    }
};

struct AsioNode : Node {
    using S = obs_sup_t<r::asio::supervisor_asio_t>;
    using strand_t = boost::asio::io_context::strand;
    std::unique_ptr<boost::asio::io_context> io;
    std::vector<std::shared_ptr<strand_t>> strands;
    bool used[8] = {true};
    SupIface *make_root(SupOpts &o) override {
        o.loc = loc_of(o.strand);
        io = std::make_unique<boost::asio::io_context>(threads);
        for (int i = 0; i < nstrands; ++i)
            strands.push_back(std::make_shared<strand_t>(*io));
        auto *c = new obs_ctx_t<r::asio::system_context_asio_t>(*io);
        ctx.reset(c);
        return root_if = fin<S>(
                   c->create_supervisor<S>().strand(strands[size_t(o.strand % nstrands)]).guard_context(true), o, &root,
                   -1);
    }
    SupIface *make_child(r::supervisor_t &parent, SupOpts &o) override {
        // a strand of its own, or the parent's one (split_strands: any strand, even one used elsewhere in the tree)
        int ps = W->ents[size_t(ent_of_sup(parent))].loc - loc0;
        int st = o.strand < nstrands ? o.strand : 0;
        if (!split_strands && (st == 0 || used[st]))
            st = ps;
        used[st] = true;
        o.loc = loc0 + st;
        auto *i = fin<S>(parent.create_actor<S>().strand(strands[size_t(st)]).guard_context(false), o, nullptr,
                         ent_of_sup(parent));
        if (i && st != W->ents[size_t(ent_of_sup(parent))].loc - loc0)
            i->sup()->start();
        return i;
    }
    void start() override {
        started = true;
        root->start();
        for (int i = 0; i < threads; ++i) {
            char n[24];
            snprintf(n, sizeof n, "asio%d.%d", idx, i);
            if (threads == 1)
                for (int s = 0; s < nstrands; ++s)
                    bound_fiber[loc0 + s] = sim::fiber_count();
            fibers.push_back(sim::spawn(n, [this] { io->run(); }));
        }
    }
    void destroy() override {
        Node::destroy();
        io.reset();
        strands.clear();
    }
};

struct FltkNode : Node {
    using S = obs_sup_t<r::fltk::supervisor_fltk_t>;
    bool stop = false;
    SupIface *make_root(SupOpts &o) override {
        o.loc = loc0;
        gui::fl_reset(1024);
        auto *c = new obs_ctx_t<r::fltk::system_context_fltk_t>();
        ctx.reset(c);
        return root_if = fin<S>(c->create_supervisor<S>(), o, &root, -1);
    }
    SupIface *make_child(r::supervisor_t &parent, SupOpts &o) override {
        o.loc = loc0;
        return fin<S>(parent.create_actor<S>(), o, nullptr, ent_of_sup(parent));
    }
    void start() override {
        started = true;
        root->start();
        char n[24];
        snprintf(n, sizeof n, "fltk%d", idx);
        bound_fiber[loc0] = sim::fiber_count();
        // the loop of the documentation and of the examples; an application may also sleep until something happens
        double limit = sim::rnd(2) ? 0.1 : 1e20;
        fibers.push_back(sim::spawn(n, [this, limit] {
            while (!stop) {
                root->do_process();
                Fl::wait(limit);
            }
        }));
    }
    void request_stop() override {
        stop = true;
        Fl::awake();
    }
    void drain() override { Fl::wait(0); } // pending awake callbacks release their references
};

struct WxNode : Node {
    using S = obs_sup_t<r::wx::supervisor_wx_t>;
    bool stop = false;
    std::unique_ptr<wxAppConsole> app;
    std::unique_ptr<wxEvtHandler> handler;
    SupIface *make_root(SupOpts &o) override {
        o.loc = loc0;
        gui::wx_reset();
        app = std::make_unique<wxAppConsole>();
        handler = std::make_unique<wxEvtHandler>();
        auto *c = new obs_ctx_t<r::wx::system_context_wx_t>(app.get());
        ctx.reset(c);
        return root_if = fin<S>(c->create_supervisor<S>().handler(handler.get()), o, &root, -1);
    }
    SupIface *make_child(r::supervisor_t &parent, SupOpts &o) override {
        o.loc = loc0;
        return fin<S>(parent.create_actor<S>().handler(handler.get()), o, nullptr, ent_of_sup(parent));
    }
    void start() override {
        started = true;
        root->start();
        char n[24];
        snprintf(n, sizeof n, "wx%d", idx);
        bound_fiber[loc0] = sim::fiber_count();
        fibers.push_back(sim::spawn(n, [this] {
            while (!stop)
                gui::wx_dispatch(100 * sim::MS);
        }));
    }
    void request_stop() override {
        stop = true;
        gui::wx_wake();
    }
    void drain() override {
        for (int i = 0; i < 1000 && gui::wx_pending(); ++i)
            gui::wx_dispatch(0);
    }
    void destroy() override {
        Node::destroy();
        handler.reset();
        app.reset();
    }
};
} // namespace

bool backend_unique(BK b) { return b == B_FLTK || b == B_WX; }

// harness objects live outside the simulated heap (the race detector is for the code under test)
#define KNEW(T) new (malloc(sizeof(T))) T
Node *make_node(BK bk, int idx, const NodeCfg &c) {
    Node *n = nullptr;
    switch (bk) {
    case B_SIM: {
        auto *s = KNEW(SimNode)();
        s->nstrands = std::max(1, c.strands);
        for (int i = 0; i < s->nstrands; ++i) {
            s->loops.emplace_back(KNEW(SimLoop)());
            s->loops.back()->id = i;
            s->loops.back()->latency_us = c.latency_us;
            s->loops.back()->timer_late_us = c.timer_late_us;
        }
        n = s;
        break;
    }
    case B_THREAD:
        n = KNEW(ThreadNode)();
        break;
    case B_EV:
        n = KNEW(EvNode)();
        break;
    case B_ASIO: {
        auto *a = KNEW(AsioNode)();
        a->threads = std::max(1, c.threads);
        a->nstrands = std::max(1, c.strands);
        n = a;
        break;
    }
    case B_FLTK:
        n = KNEW(FltkNode)();
        break;
    case B_WX:
        n = KNEW(WxNode)();
        break;
    default:
        FAIL("harness/backend", "bad backend");
    }
    n->idx = idx;
    n->bk = bk;
    n->loc0 = idx * 8;
    char pn[40];
    snprintf(pn, sizeof pn, "node:%s", bk_name[bk]);
    sim::probe(pn);
    return n;
}
void destroy_node(Node *n) {
    n->destroy();
    delete n;
}

kvec<int> pick_backends(sim::Rng &rng, int n, unsigned mask) {
    kvec<int> all;
    for (int i = 0; i < B_COUNT; ++i)
        if (mask & (1u << i))
            all.push_back(i);
    kvec<int> out;
    while (int(out.size()) < n) {
        int b = all[rng.below(uint32_t(all.size()))];
        bool dup = false;
        for (int o : out)
            dup = dup || (o == b && backend_unique(BK(b)));
        if (!dup)
            out.push_back(b);
        else if (all.size() == 1)
            break;
    }
    return out;
}

// Actors which have shut down are to be destroyed although the system keeps running (the harness must not refer to them).
void check_destroyed() {
    if (!sim::inventory || sim::leaks_expected)
        return;
    auto has = [](const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; };
    int left = -1;
    bool ok = sim::wait_for(
        [&] {
            left = -1;
            for (auto &e : W->ents) {
                if (e.is_sup && (!has(e, Cb::start) || has(e, Cb::shutdown_start)))
                    return true; // what a dying supervisor drops it drops when it is destroyed itself
                if (!e.is_sup && has(e, Cb::shutdown_finish) && !has(e, Cb::dtor))
                    left = e.id;
            }
            return left < 0;
        },
        30 * sim::SEC, 50 * sim::MS);
    if (!ok)
        FAIL("leak/actor", "actor %d has shut down and nobody refers to it, but it is not destroyed while the system keeps running", left);
    sim::probe("destroyed-while-running");
}
void shutdown_and_join(kvec<Node *> &nodes, const char *cls, uint64_t limit) {
    for (auto *n : nodes) {
        auto &e = W->ents[size_t(n->root_if->ent)];
        if (!(e.seen & (1u << int(Cb::shutdown_start))))
            n->root->shutdown(); // thread-safe call from a foreign thread
    }
    bool ok = sim::wait_for(
        [&] {
            for (auto *n : nodes)
                if (W->ents[size_t(n->root_if->ent)].last != int(Cb::shutdown_finish))
                    return false;
            return true;
        },
        limit);
    if (!ok) {
        for (auto *n : nodes) {
            auto &e = W->ents[size_t(n->root_if->ent)];
            if (e.last != int(Cb::shutdown_finish))
                FAIL(cls, "root supervisor of node %d (%s) has not shut down within %.1f simulated seconds", n->idx,
                     bk_name[n->bk], double(limit) / 1e9);
        }
    }
    for (auto *n : nodes)
        n->request_stop();
    limit = 30 * sim::SEC; // nothing is left to be done
    ok = sim::wait_for(
        [&] {
            for (auto *n : nodes)
                if (!n->finished())
                    return false;
            return true;
        },
        limit);
    if (!ok)
        for (auto *n : nodes)
            if (!n->finished())
                FAIL(cls, "the loop of node %d (%s) has not ended within %.1f simulated seconds after its shutdown",
                     n->idx, bk_name[n->bk], double(limit) / 1e9);
    // the joining thread sees everything the loops did
    sim::hb_acquire(sim::join_obj());
    for (int i = 0; i < 64; ++i)
        bound_fiber[i] = -1;
}
void destroy_all(kvec<Node *> &nodes) {
    for (auto *n : nodes)
        n->drain();
    for (auto *n : nodes)
        destroy_node(n);
    nodes.clear();
    gui::end();
}
} // namespace rs
