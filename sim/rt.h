// rotor-side harness: simulated nodes on every loop backend, observed supervisors and actors, common monitors.
#pragma once
#include "kernel.h"
#include "plan.h"
#include "race.h"

#include "rotor.hpp"
#include "rotor/thread.hpp"
#include "rotor/ev.hpp"
#include "rotor/asio.hpp"
#include "rotor/fltk.hpp"
#include "rotor/wx.hpp"
#include <boost/asio.hpp>
#include <array>
#include <memory>
#include <atomic>

namespace rs {
namespace r = rotor;
namespace pt = rotor::pt;
using sim::Op;
using sim::Plan;
using sim::Rng;
using sim::kmap;
using sim::kvec;
using sim::kset;
using sim::kdeque;

enum BK { B_SIM = 0, B_THREAD, B_EV, B_ASIO, B_FLTK, B_WX, B_COUNT };
extern const char *bk_name[];

// ------------------------------------------------------------------ lifecycle observation
enum class Cb { ctor, configure, init_start, init_finish, start, shutdown_start, shutdown_finish, dtor, on_unlink };
extern const char *cb_name[];

struct Ent { // what the oracle knows about an actor or supervisor instance
    int id = -1;
    bool is_sup = false;
    int loc = -1;     // locality (execution context)
    int parent = -1;  // entity id of the supervisor
    int tag = 0;      // scenario specific
    int last = -1;    // last lifecycle callback
    unsigned seen = 0; // bit mask of callbacks seen
    unsigned cnt[16] = {0};
    uint64_t at[16] = {0};
    r::actor_base_t *ptr = nullptr;
    bool alive = false;
    uint64_t seq_at[16] = {0};
    int child_init = 0, child_down = 0; // reported to its supervisor
    const void *reason = nullptr;       // at the beginning of its shutdown
};

struct World {
    kvec<Ent> ents;
    uint64_t seq = 0;
    // confinement monitor
    int inside[64];
    int depth[64];
    bool check_confine = true;
    bool check_life = false;
    bool check_child = false; // the supervisor's hooks about its children
    std::function<void(Ent &, Cb)> on_cb;                      // scenario listener
    std::function<bool(const r::extended_error_ptr_t &)> on_error; // returns true when the scenario expects it
    int errors = 0;
    uint64_t handler_calls = 0;

    World();
    int add(bool is_sup, r::actor_base_t *p);
    void cb(int id, Cb c);
    void life(Ent &e, Cb c);
    void reason(Ent &e, Cb c);
    bool thrown = false; // a factory has thrown
    void child(int sup, r::actor_base_t *a, bool down, const r::extended_error_ptr_t *ec);
};
extern World *W;
void world_init();

// scope of the code of one locality: handlers, callbacks, timers
struct Scope {
    int loc;
    explicit Scope(int ent);
    ~Scope();
};

// fiber-local construction context (which entity tag/locality the next constructed actor gets)
struct Ctx {
    int loc = 0;
    int tag = 0;
    int parent = -1;
};
Ctx &cctx(); // per fiber

// ------------------------------------------------------------------ observed supervisor
struct SupIface {
    int ent = -1;
    virtual ~SupIface() {}
    virtual r::supervisor_t *sup() = 0;
    virtual r::state_t st() = 0;
    int on_child_init = 0, on_child_shutdown = 0, child_init_err = 0;
    std::function<void(r::actor_base_t *, const r::extended_error_ptr_t &)> child_init_cb;
    std::function<void(r::actor_base_t *)> child_down_cb;
    std::function<void(r::supervisor_t &)> start_cb;
    std::function<void(r::supervisor_t &)> init_cb;
    std::function<void(r::supervisor_t &)> init_finish_cb;
    std::function<void(r::supervisor_t &, r::plugin::plugin_base_t &)> configure_cb;
    std::function<void(r::supervisor_t &)> shutdown_finish_cb;
};

struct SupOpts;
SupOpts *&next_opts(); // fiber local

struct SupOpts {
    int loc = 0;
    int init_ms = 1000, shutdown_ms = 1000;
    r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self;
    bool registry = false, sync_start = false, autoshutdown = false, escalate = false;
    r::address_ptr_t registry_addr;
    const std::atomic_bool *flag = nullptr;
    int flag_ms = 100;
    int poll_us = 0;
    int strand = 0; // asio: which strand, sim: which loop (0 = the parent's)
    std::function<void(SupIface &)> prepare;
};

template <class Base> struct obs_sup_t : Base, SupIface {
    using config_t = typename Base::config_t;
    template <typename S> using config_builder_t = typename Base::template config_builder_t<S>;

    explicit obs_sup_t(config_t &c) : Base(c) {
        ent = W->add(true, this);
        if (auto *o = next_opts()) {
            next_opts() = nullptr;
            W->ents[size_t(ent)].loc = o->loc;
            if (o->prepare)
                o->prepare(*this);
        }
        W->cb(ent, Cb::ctor);
    }
    ~obs_sup_t() { W->cb(ent, Cb::dtor); }
    r::supervisor_t *sup() override { return this; }
    r::state_t st() override { return this->state; }

    void configure(r::plugin::plugin_base_t &p) noexcept override {
        // no Scope: a supervisor of another locality is constructed by its parent's thread
        W->cb(ent, Cb::configure);
        Base::configure(p);
        if (configure_cb)
            configure_cb(*this, p);
    }
    void init_start() noexcept override {
        Scope s(ent);
        Base::init_start();
        W->cb(ent, Cb::init_start);
        if (init_cb)
            init_cb(*this);
    }
    void init_finish() noexcept override {
        Scope s(ent);
        Base::init_finish();
        W->cb(ent, Cb::init_finish);
        if (init_finish_cb)
            init_finish_cb(*this);
    }
    void on_start() noexcept override {
        Scope s(ent);
        Base::on_start();
        W->cb(ent, Cb::start);
        if (start_cb)
            start_cb(*this);
    }
    void shutdown_start() noexcept override {
        Scope s(ent);
        Base::shutdown_start();
        W->cb(ent, Cb::shutdown_start);
    }
    void shutdown_finish() noexcept override {
        Scope s(ent);
        Base::shutdown_finish();
        W->cb(ent, Cb::shutdown_finish);
        if (shutdown_finish_cb)
            shutdown_finish_cb(*this);
    }
    void on_child_init(r::actor_base_t *a, const r::extended_error_ptr_t &ec) noexcept override {
        Scope s(ent);
        W->child(ent, a, false, &ec);
        Base::on_child_init(a, ec);
        ++SupIface::on_child_init;
        if (ec)
            ++child_init_err;
        if (child_init_cb)
            child_init_cb(a, ec);
    }
    void on_child_shutdown(r::actor_base_t *a) noexcept override {
        Scope s(ent);
        W->child(ent, a, true, nullptr);
        ++SupIface::on_child_shutdown;
        if (child_down_cb)
            child_down_cb(a);
        Base::on_child_shutdown(a);
    }
};

// ------------------------------------------------------------------ the simulator's own loop backend
struct SimLoop {
    struct In {
        r::message_base_t *msg;
        uint64_t due;
        uint64_t seq;
        int src;
    };
    struct T {
        uint64_t due, seq;
        r::timer_handler_base_t *h;
    };
    int id = 0;
    r::supervisor_t *leader = nullptr;
    SupIface *leader_if = nullptr;
    kvec<In> inbox;
    kvec<T> timers;
    sim::WaitQ wq;
    uint64_t seq = 0;
    uint64_t last_due = 0;
    int latency_us = 0; // max extra latency per message
    int timer_late_us = 0;
    bool stop = false;
    int fiber = -1;
    char sync;

    void post(r::message_ptr_t m);
    void run();
    void drain();
    void start_timer(const pt::time_duration &i, r::timer_handler_base_t &h);
    void cancel_timer(r::request_id_t id);
};

struct sim_sup_config_t : r::supervisor_config_t {
    SimLoop *loop = nullptr;
    using r::supervisor_config_t::supervisor_config_t;
};
template <typename S> struct sim_sup_builder_t : r::supervisor_config_builder_t<S> {
    using builder_t = typename S::template config_builder_t<S>;
    using parent_t = r::supervisor_config_builder_t<S>;
    using parent_t::parent_t;
    builder_t &&loop(SimLoop *l) && {
        parent_t::config.loop = l;
        return std::move(*static_cast<builder_t *>(this));
    }
};
struct sim_sup_t : r::supervisor_t {
    using config_t = sim_sup_config_t;
    template <typename S> using config_builder_t = sim_sup_builder_t<S>;
    SimLoop *loop;
    explicit sim_sup_t(config_t &c) : r::supervisor_t(c), loop(c.loop) {}
    void start() noexcept override;
    void shutdown() noexcept override;
    void enqueue(r::message_ptr_t m) noexcept override;
    r::address_ptr_t make_address() noexcept override { return instantiate_address(loop); }
    void do_start_timer(const pt::time_duration &i, r::timer_handler_base_t &h) noexcept override {
        loop->start_timer(i, h);
    }
    void do_cancel_timer(r::request_id_t id) noexcept override { loop->cancel_timer(id); }
};

template <class Base> struct obs_ctx_t : Base {
    using Base::Base;
    void on_error(r::actor_base_t *a, const r::extended_error_ptr_t &ec) noexcept override;
};
void context_error(r::actor_base_t *a, const r::extended_error_ptr_t &ec);
template <class Base> void obs_ctx_t<Base>::on_error(r::actor_base_t *a, const r::extended_error_ptr_t &ec) noexcept {
    context_error(a, ec);
}

// ------------------------------------------------------------------ nodes
struct Node {
    int idx = 0;
    BK bk = B_SIM;
    int loc0 = 0; // first locality id of this node
    int nstrands = 1;
    int threads = 1;
    bool split_strands = false;
    r::intrusive_ptr_t<r::system_context_t> ctx;
    r::intrusive_ptr_t<r::supervisor_t> root;
    SupIface *root_if = nullptr;
    kvec<r::intrusive_ptr_t<r::supervisor_t>> keep; // addresses do not keep their supervisor alive
    kvec<int> fibers;
    bool started = false;
    bool shut = false; // root supervisor reached its final state (recorded by the observer)
    virtual ~Node() {}
    virtual SupIface *make_root(SupOpts &o) = 0;
    virtual SupIface *make_child(r::supervisor_t &parent, SupOpts &o) = 0;
    virtual void start() = 0; // spawns the loop fibers
    virtual void request_stop() {} // ask loops without own termination to stop
    virtual void drain() {} // what the toolkit has still queued runs while all supervisors exist
    virtual void destroy();
    bool finished() const;
    bool down() const { return shut; }
    int loc_of(int strand) const { return loc0 + (strand % nstrands); }
};

struct NodeCfg {
    int threads = 1;  // asio: threads running the io_context
    int strands = 1;  // asio / sim
    int latency_us = 0;
    int timer_late_us = 0;
};
Node *make_node(BK bk, int idx, const NodeCfg &c);
void destroy_node(Node *n);
bool backend_unique(BK b); // at most one node of this kind per run

// ------------------------------------------------------------------ observed actor
struct sact_config_t : r::actor_config_t {
    int tag = 0;
    void *spec = nullptr;
    using r::actor_config_t::actor_config_t;
};
template <typename A> struct sact_builder_t : r::actor_config_builder_t<A> {
    using builder_t = typename A::template config_builder_t<A>;
    using parent_t = r::actor_config_builder_t<A>;
    using parent_t::parent_t;
    builder_t &&tag(int v) && {
        parent_t::config.tag = v;
        return std::move(*static_cast<builder_t *>(this));
    }
    builder_t &&spec(void *v) && {
        parent_t::config.spec = v;
        return std::move(*static_cast<builder_t *>(this));
    }
};
struct sact_t : r::actor_base_t {
    using config_t = sact_config_t;
    template <typename A> using config_builder_t = sact_builder_t<A>;
    int ent;
    int tag;
    void *spec;
    explicit sact_t(config_t &c);
    ~sact_t();
    void configure(r::plugin::plugin_base_t &p) noexcept override;
    void init_start() noexcept override;
    void init_finish() noexcept override;
    void on_start() noexcept override;
    void shutdown_start() noexcept override;
    void shutdown_finish() noexcept override;
    virtual void on_configure(r::plugin::plugin_base_t &) noexcept {}
    virtual void started() noexcept {}
    virtual void stopping() noexcept {}
    virtual void stopped() noexcept {}
    r::state_t st() const { return state; }
};
int ent_of_sup(r::supervisor_t &s); // entity id of an observed supervisor (or -1)

inline pt::time_duration ms(int v) { return pt::milliseconds(v); }
inline pt::time_duration us(int64_t v) { return pt::microseconds(v); }

// standard end of a run: shut every node down from a foreign thread, wait for it, destroy everything
struct Fin {
    uint64_t limit_ns = 60 * sim::SEC;
    bool shutdown = true;
};
void check_destroyed();
void shutdown_and_join(kvec<Node *> &nodes, const char *cls, uint64_t limit_ns);
void destroy_all(kvec<Node *> &nodes);
void final_life_check(); // end-of-run lifecycle conclusions

// picks backends for n nodes (swarm): mask of allowed backends
kvec<int> pick_backends(sim::Rng &rng, int n, unsigned mask);
#define FAIL(cls, ...) ::sim::fail(cls, __VA_ARGS__)
#define CHECK_P(cond, cls, ...)                                                                                        \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            ::sim::fail(cls, __VA_ARGS__);                                                                             \
    } while (0)

} // namespace rs
