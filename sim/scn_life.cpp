// C07, C08, C09, C18: trees of supervisors and actors which fail, stall and stop at every stage of their lives.
#include "rt.h"
using namespace rs;

namespace {
enum { M_LIFE = 1, M_TREE = 2, M_POLICY = 4, M_REASON = 8 };
// what an actor does
enum Init { I_OK, I_FAIL_START, I_SLOW, I_NEVER, I_STOP_START, I_FAIL_FINISH, I_FAIL_ON_START, I_STOP_ON_START, I_FAIL_CONF, I_N };
enum Down { D_OK, D_SLOW, D_NEVER, D_N };
struct Spec {
    int init = 0, down = 0, slow_us = 0;
    bool escalate = false, autoshut = false;
    int ent = -1;
    int id = 0;
};
struct Cmd {
    int op, a, b;
};
struct Note {
    int x;
};
enum { LONG_MS = 1000000, NEVER_INIT_MS = 40, NEVER_DOWN_MS = 60 };

struct EX { // the oracle's knowledge about one entity, by entity id
    Spec *spec = nullptr;
    SupIface *sup = nullptr;
    int policy = 0;
    bool sync = false;
    bool asked = false; // somebody asked it to stop
    kset<int> causes;   // ids of the errors it was given
    int cause_any = 0;  // was stopped with the library's own reason
    int told_init = 0, told_init_err = 0, told_down = 0;
    const void *reason_at_start = nullptr;
    const void *root_ptr_at_start = nullptr;
    sim::kstr root_at_start; // context of the root cause when the shutdown began
    bool dyn = false;
    bool escalate = false, autoshut = false;
    bool abnormal = false; // the root of its reason is an error
    bool abandoned = false; // its shutdown timed out
    sim::kstr root;              // context of the root of its reason
};
struct St {
    Plan *pl;
    int mon = 0;
    kvec<Node *> nodes;
    kvec<EX> x; // by entity
    kvec<Spec *> specs;
    kvec<r::address_ptr_t> addr; // static actors
    kvec<SupIface *> sups;
    kvec<Node *> sup_node;
    int n_causes = 0;
    int reported = 0; // errors reported to the system contexts
};
St *S;
EX &X(int e) {
    sim::NoPreempt np;
    S->x.reserve(8192); // references stay valid
    while (int(S->x.size()) <= e)
        S->x.emplace_back();
    return S->x[size_t(e)];
}
bool seen(const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; }
Ent &E(int i) { return W->ents[size_t(i)]; }

r::extended_error_ptr_t new_cause(int ent, bool normal) {
    int n;
    {
        sim::NoPreempt np;
        n = S->n_causes++;
        X(ent).asked = true;
        X(ent).causes.insert(n);
        sim::obs("cause", ent, n, normal);
    }
    return r::make_error("cause-" + std::to_string(n), normal ? r::make_error_code(r::shutdown_code_t::normal)
                                                               : std::make_error_code(std::errc(1 + n % 20)));
}

enum { O_SUP = 1, O_ACT, O_STOP, O_FSTOP, O_STOPSUP, O_CREATE, O_MSG, O_SLEEP };
const char *op_names[] = {"", "supervisor(parent,policy+sync,strand,flags)", "actor(sup,init,down,flags+delay)", "stop(actor,how)",
                          "stop-supervisor-from-a-thread(sup)", "actor-stops-its-supervisor(actor,how)",
                          "create-actor(at-actor,init,down,flags+delay)", "message(actor)", "sleep(us)"};
const char *pnames[sim::NPARAM] = {"nodes-1", "backend0", "backend1", "asio threads-1", "strands-1", "latency_us", "timer_late_us",
                                   "poll_us", "monitors", "root policy", "root synchronized start", "start at once"};
enum { P_N, P_B0, P_B1, P_THR, P_STR, P_LAT, P_LATE, P_POLL, P_MON, P_POL, P_SYNC, P_NOW };
const int slows[] = {1, 700, 5000, 30000, 200000, 1500000};

// never becomes operational
bool init_fails(int i) { return i == I_FAIL_START || i == I_NEVER || i == I_STOP_START || i == I_FAIL_CONF; }
struct act_t;
Spec *make_spec(int b, int c, int d) {
    auto *s = new (malloc(sizeof(Spec))) Spec();
    s->init = b % I_N;
    s->down = c % D_N;
    s->slow_us = slows[(d / 4) % 6];
    s->escalate = d & 1;
    s->autoshut = d & 2;
    sim::NoPreempt np;
    S->specs.reserve(256);
    s->id = int(S->specs.size());
    S->specs.push_back(s);
    return s;
}
r::intrusive_ptr_t<act_t> make_act(r::supervisor_t &sup, Spec *s, bool dyn);

struct act_t : sact_t {
    using sact_t::sact_t;
    r::plugin::resources_plugin_t *res = nullptr;
    bool conf_failed = false;
    Spec &sp() { return *static_cast<Spec *>(spec); }
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_note);
        });
        p.with_casted<r::plugin::resources_plugin_t>(
            [&](auto &p) {
                if (sp().init == I_FAIL_CONF && !conf_failed) {
                    conf_failed = true;
                    do_shutdown(new_cause(ent, false));
                }
                if (sp().init == I_SLOW || sp().init == I_NEVER) {
                    p.acquire(0);
                    if (sp().init == I_SLOW)
                        start_timer(us(sp().slow_us), *this, &act_t::on_slow);
                }
            },
            r::plugin::config_phase_t::INITIALIZING);
    }
    void on_slow(r::request_id_t, bool cancelled) noexcept {
        Scope s(ent);
        if (!cancelled)
            with_res([](auto &p) { return p.release(0); });
    }
    template <class F> uint32_t with_res(F &&f) {
        auto *p = static_cast<r::plugin::resources_plugin_t *>(
            get_plugin(r::plugin::resources_plugin_t::class_identity));
        return uint32_t(f(*p));
    }
    void init_start() noexcept override {
        sact_t::init_start();
        if (sp().init == I_FAIL_START)
            do_shutdown(new_cause(ent, false));
        else if (sp().init == I_STOP_START)
            do_shutdown(new_cause(ent, true));
    }
    void init_finish() noexcept override {
        sact_t::init_finish();
        if (sp().init == I_FAIL_FINISH)
            do_shutdown(new_cause(ent, false));
    }
    void started() noexcept override {
        if (sp().init == I_FAIL_ON_START)
            do_shutdown(new_cause(ent, false));
        else if (sp().init == I_STOP_ON_START)
            do_shutdown(new_cause(ent, true));
    }
    void stopping() noexcept override {
        if (sp().init == I_NEVER && with_res([](r::plugin::resources_plugin_t &p) { return p.has(0); }))
            start_timer(us(100), *this, &act_t::on_slow);
        if (sp().down == D_OK)
            return;
        with_res([](auto &p) { p.acquire(1); return 0; });
        if (sp().down == D_SLOW)
            start_timer(us(sp().slow_us), *this, &act_t::on_slow_down);
    }
    void on_slow_down(r::request_id_t, bool cancelled) noexcept {
        Scope s(ent);
        if (!cancelled)
            with_res([](auto &p) { return p.release(1); });
    }
    void on_note(r::message_t<Note> &) noexcept {
        Scope s(ent);
        user_message();
    }
    void user_message() {
        if ((S->mon & M_LIFE) && seen(E(ent), Cb::shutdown_finish))
            FAIL("life/message-after-end", "actor %d handles a message after its shutdown has finished", ent);
        sim::obs("note", ent);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        user_message();
        auto c = m.payload;
        switch (c.op) {
        case O_STOP:
            if (st() < r::state_t::SHUTTING_DOWN) {
                if (c.a % 3 == 2) {
                    {
                        sim::NoPreempt np;
                        X(ent).asked = true;
                        X(ent).cause_any++;
                    }
                    do_shutdown();
                } else
                    do_shutdown(new_cause(ent, c.a % 3));
                if (c.a >= 3)
                    do_shutdown(new_cause(ent, c.a % 2));
            }
            break;
        case O_STOPSUP: {
            int se = ent_of_sup(*supervisor);
            if (seen(E(se), Cb::shutdown_start))
                break;
            supervisor->do_shutdown(new_cause(se, c.a & 1));
            break;
        }
        case O_CREATE: {
            int se = ent_of_sup(*supervisor);
            if (seen(E(se), Cb::shutdown_start) || S->specs.size() > 40)
                break;
            make_act(*supervisor, S->specs[size_t(c.a)], true);
            break;
        }
        }
    }
    void stopped() noexcept override { reason_seen(); }
    void reason_seen();
};
struct root_of {
    static const char *ctx(const r::extended_error_ptr_t &e) {
        auto r = e->root();
        return r->context.c_str();
    }
};
// a chain must not end at one of the codes which only pass a cause on
void check_root(const char *what, int id, const r::extended_error_ptr_t &e) {
    auto &c = e->root()->ec;
    if (c == r::error_code_t::failure_escalation || c == r::shutdown_code_t::supervisor_shutdown ||
        c == r::shutdown_code_t::child_init_failed || c == r::shutdown_code_t::init_failed ||
        c == r::shutdown_code_t::child_down)
        FAIL("reason/lost", "%s of %d does not lead to the cause: %s", what, id, e->message().c_str());
}
void reason_final(Ent &e, const r::extended_error_ptr_t &rs) {
    if (!(S->mon & M_REASON))
        return;
    if (!rs)
        FAIL("reason/none", "%s %d has shut down without a reason", e.is_sup ? "supervisor" : "actor", e.id);
    auto &x = X(e.id);
    if (x.reason_at_start && x.reason_at_start != rs.get())
        FAIL("reason/changed", "the shutdown reason of %s %d changed during its shutdown", e.is_sup ? "supervisor" : "actor",
             e.id);
    sim::kstr root(rs->root()->context.c_str());
    x.root = root;
    sim::tr("reason of %d: %s", e.id, rs->message().c_str());
    check_root("the shutdown reason", e.id, rs);
    // where may it come from?
    int cause = root.compare(0, 6, "cause-") == 0 ? atoi(root.c_str() + 6) : -1;
    if (cause >= 0) {
        if (x.causes.count(cause)) {
            if (cause != *x.causes.begin())
                FAIL("reason/not-first", "%s %d shut down because of %s, but it was told to stop because of cause-%d before",
                     e.is_sup ? "supervisor" : "actor", e.id, root.c_str(), *x.causes.begin());
            return;
        }
        if (e.parent >= 0 && X(e.parent).root == root)
            return;
        // the parent may still be shutting down
        if (e.parent >= 0 && seen(E(e.parent), Cb::shutdown_start)) {
            if (X(e.parent).root_at_start == root)
                return;
        }
        // upwards: a descendant which failed or escalated
        for (auto &c : W->ents)
            if (X(c.id).causes.count(cause))
                for (int p = c.parent; p >= 0; p = E(p).parent)
                    if (p == e.id)
                        return;
        FAIL("reason/foreign", "%s %d shut down because of %s, which is neither its own nor its supervisor's nor its child's "
                               "cause (%s)",
             e.is_sup ? "supervisor" : "actor", e.id, root.c_str(), rs->message().c_str());
    }
    // a descendant which had no reason of its own has the root of its supervisor's
    if (e.parent >= 0 && !x.asked && seen(E(e.parent), Cb::shutdown_start) && !e.is_sup &&
        seen(e, Cb::start)) {
        auto &px = X(e.parent); // (the supervisor might be of another thread)
        if (!px.root_ptr_at_start)
            FAIL("reason/none", "supervisor %d is shutting down without a reason", e.parent);
        if (px.root_ptr_at_start != rs->root().get())
            FAIL("reason/chain", "actor %d was shut down by its supervisor, but the root cause differs: %s vs. %s", e.id,
                 rs->message().c_str(), px.root_at_start.c_str());
    }
}
void act_t::reason_seen() {
    sim::NoPreempt np;
    reason_final(E(ent), get_shutdown_reason());
}

r::intrusive_ptr_t<act_t> make_act(r::supervisor_t &sup, Spec *s, bool dyn) {
    auto a = sup.create_actor<act_t>()
                 .spec(s)
                 .tag(s->id)
                 .init_timeout(ms(init_fails(s->init) ? int(NEVER_INIT_MS) : int(LONG_MS)))
                 .shutdown_timeout(ms(s->down == D_NEVER ? int(NEVER_DOWN_MS) : int(LONG_MS)))
                 .escalate_failure(s->escalate)
                 .autoshutdown_supervisor(s->autoshut)
                 .finish();
    sim::NoPreempt np;
    s->ent = a->ent;
    X(a->ent).spec = s;
    X(a->ent).dyn = dyn;
    X(a->ent).escalate = s->escalate;
    X(a->ent).autoshut = s->autoshut;
    return a;
}


// created at run time
bool is_dyn(Ent &e) {
    if (X(e.id).dyn)
        return true;
    auto &p = E(e.parent);
    return seen(p, Cb::init_finish) && e.seq_at[int(Cb::ctor)] > p.seq_at[int(Cb::init_finish)];
}
// e ends and has to take its supervisor along
bool takes_along(Ent &e) {
    auto &x = X(e.id);
    return seen(e, Cb::shutdown_start) && (x.autoshut || (x.escalate && x.abnormal));
}
// e is going to end before it is started
bool fails_init(Ent &e) {
    auto &x = X(e.id);
    if (seen(e, Cb::start))
        return false;
    if (seen(e, Cb::shutdown_start) || x.asked || (x.spec && x.spec->init == I_NEVER))
        return true;
    if (e.is_sup)
        for (auto &c : W->ents)
            if (c.parent == e.id) {
                if (fails_init(c) || takes_along(c))
                    return true;
            }
    return false;
}

// may e begin to shut down now?
bool has_cause(Ent &e) {
    auto &x = X(e.id);
    if (x.asked)
        return true;
    if (e.parent >= 0 && seen(E(e.parent), Cb::shutdown_start))
        return true;
    if (x.spec && x.spec->init == I_NEVER)
        return true;
    if (!e.is_sup)
        return false;
    bool init_done = seen(e, Cb::init_finish);
    for (auto &c : W->ents) {
        if (c.parent != e.id)
            continue;
        if (takes_along(c))
            return true;
        // known finding: the policy "shutdown_failed" shuts the supervisor down too
        if ((!init_done || x.policy) && fails_init(c))
            return true;
    }
    return false;
}

void listener(Ent &e, Cb c) {
    auto &x = X(e.id);
    if (c == Cb::shutdown_start) {
        if (e.ptr)
            x.reason_at_start = e.ptr->get_shutdown_reason().get();
        if (e.ptr && e.ptr->get_shutdown_reason())
            x.root_at_start = e.ptr->get_shutdown_reason()->root()->context.c_str(),
            x.root_ptr_at_start = e.ptr->get_shutdown_reason()->root().get();
        if (e.ptr && e.ptr->get_shutdown_reason())
            x.abnormal = bool(e.ptr->get_shutdown_reason()->root()->ec);
        if ((S->mon & M_POLICY) && !has_cause(e))
            FAIL("policy/spurious-shutdown", "%s %d (tag %d) shuts down, but nothing that happened is a reason for it",
                 e.is_sup ? "supervisor" : "actor", e.id, e.tag);
        if ((S->mon & M_REASON) && e.ptr && !e.ptr->get_shutdown_reason())
            FAIL("reason/none", "%s %d begins to shut down without a reason", e.is_sup ? "supervisor" : "actor", e.id);
    }
    if (c == Cb::init_finish && e.is_sup && (S->mon & M_POLICY)) {
        for (auto &k : W->ents)
            if (k.parent == e.id && seen(k, Cb::init_start)) {
                if (!x.policy && seen(k, Cb::shutdown_start) && !seen(k, Cb::start) && !seen(k, Cb::init_finish))
                    FAIL("policy/ignored-failure", "supervisor %d finished its initialization although its child %d failed",
                         e.id, k.id);
                if (!seen(k, Cb::init_finish) && !seen(k, Cb::shutdown_start) && !is_dyn(k) &&
                    !(x.policy && fails_init(k)))
                    FAIL("policy/early-init", "supervisor %d finished its initialization before its child %d", e.id, k.id);
            }
    }
    if (c == Cb::start && e.parent >= 0 && X(e.parent).sync && (S->mon & M_POLICY)) {
        if (!seen(E(e.parent), Cb::init_finish))
            FAIL("policy/early-start", "child %d of supervisor %d with synchronized start has started before the supervisor "
                                       "was initialized",
                 e.id, e.parent);
        if (!e.is_sup && !seen(E(e.parent), Cb::start))
            FAIL("policy/early-start", "child %d of supervisor %d with synchronized start has started before the supervisor", e.id,
                 e.parent);
        for (auto &k : W->ents)
            if (k.parent == e.parent && !is_dyn(k) && !seen(k, Cb::init_finish) &&
                !(X(e.parent).policy && fails_init(k)))
                FAIL("policy/early-start", "child %d of supervisor %d with synchronized start has started before child %d "
                                           "was initialized",
                     e.id, e.parent, k.id);
    }
    if (c == Cb::shutdown_finish) {
        if (e.is_sup) {
            if (e.ptr)
                reason_final(e, e.ptr->get_shutdown_reason());
            if (S->mon & M_TREE)
                for (auto &k : W->ents)
                    if (k.parent == e.id && !seen(k, Cb::shutdown_finish) && !X(k.id).abandoned)
                        FAIL("tree/order", "supervisor %d has shut down while its child %d (%s) has not", e.id, k.id,
                             cb_name[k.last < 0 ? 0 : k.last]);
            if (S->mon & M_TREE)
                for (auto &k : W->ents)
                    if (k.parent == e.id && X(k.id).told_down != 1)
                        FAIL("tree/notify", "supervisor %d has shut down and was notified %d times of the shutdown of child %d",
                             e.id, X(k.id).told_down, k.id);
        }
    }
}

void watch_sup(SupIface &si, int policy, bool sync) {
    sim::NoPreempt np;
    auto &x = X(si.ent);
    x.sup = &si;
    x.policy = policy;
    x.sync = sync;
    int me = si.ent;
    auto id_of = [](r::actor_base_t *a) {
        for (size_t i = W->ents.size(); i-- > 0;)
            if (W->ents[i].ptr == a)
                return int(i);
        return -1;
    };
    si.child_init_cb = [me, id_of](r::actor_base_t *a, const r::extended_error_ptr_t &ec) {
        sim::NoPreempt np;
        int k = a ? id_of(a) : -1;
        if (k < 0)
            return;
        auto &kx = X(k);
        kx.told_init++;
        if (ec)
            kx.told_init_err++;
        sim::obs("child-init", me, k, bool(ec));
        if ((S->mon & M_REASON) && ec) {
            check_root("the initialization failure", k, ec);
            const char *rc = ec->root()->context.c_str();
            if (!strncmp(rc, "cause-", 6)) {
                bool ok = false;
                for (auto &c : W->ents)
                    if (X(c.id).causes.count(atoi(rc + 6)))
                        for (int p = c.id; p >= 0; p = E(p).parent)
                            ok = ok || p == k;
                if (!ok)
                    FAIL("reason/foreign", "child %d of %d reports %s as its initialization failure, which is not its cause", k, me,
                         rc);
            }
        }
        if (!(S->mon & M_POLICY))
            return;
        if (kx.told_init > 1)
            FAIL("policy/notify", "supervisor %d was told twice about the initialization of child %d", me, k);
        if (E(k).parent != me)
            FAIL("policy/notify", "supervisor %d was told about the initialization of child %d of supervisor %d", me, k,
                 E(k).parent);
        if (!ec && !seen(E(k), Cb::init_finish))
            FAIL("policy/notify", "supervisor %d was told that child %d has initialized, but it has not", me, k);
        if (ec && kx.spec && !init_fails(kx.spec->init))
            FAIL("policy/notify", "supervisor %d was told that child %d failed to initialize: %s", me, k,
                 ec->message().c_str());
    };
    si.child_down_cb = [me, id_of](r::actor_base_t *a) {
        sim::NoPreempt np;
        int k = a ? id_of(a) : -1;
        if (k < 0)
            FAIL("tree/notify", "supervisor %d is notified about the shutdown of an unknown child", me);
        auto &kx = X(k);
        kx.told_down++;
        sim::obs("child-down", me, k);
        if (kx.spec && kx.spec->down == D_NEVER)
            kx.abandoned = true;
        if (!(S->mon & M_TREE))
            return;
        if (kx.told_down > 1)
            FAIL("tree/notify", "supervisor %d was notified twice of the shutdown of child %d", me, k);
        if (E(k).parent != me)
            FAIL("tree/notify", "supervisor %d was notified of the shutdown of child %d of supervisor %d", me, k, E(k).parent);
        if (!seen(E(k), Cb::shutdown_finish) && !kx.abandoned)
            FAIL("tree/notify", "supervisor %d was notified of the shutdown of child %d which has not shut down", me, k);
    };
}

void gen(Rng &g, Plan &pl, int mon) {
    int n = g.one_in(3) ? 2 : 1;
    auto b = pick_backends(g, n, 0x3f);
    pl.p[P_N] = int(b.size()) - 1;
    for (int i = 0; i < int(b.size()); ++i)
        pl.p[P_B0 + i] = b[size_t(i)];
    pl.p[P_THR] = g.range(0, 2);
    pl.p[P_STR] = g.range(0, 2);
    pl.p[P_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000, 30000});
    pl.p[P_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[P_POLL] = g.pick({0, 0, 5, 100});
    pl.p[P_MON] = mon;
    pl.p[P_POL] = g.range(0, 1);
    pl.p[P_SYNC] = g.one_in(3);
    pl.p[P_NOW] = g.one_in(3);
    bool calm = g.one_in(3); // mostly healthy initializations
    auto init = [&] { return g.one_in(calm ? 12 : 3) ? g.range(0, I_N - 1) : g.one_in(3) ? int(I_SLOW) : int(I_OK); };
    auto down = [&] { return g.one_in(12) ? int(D_NEVER) : g.one_in(3) ? int(D_SLOW) : int(D_OK); };
    auto flags = [&] { return (g.one_in(6) ? 1 : 0) | (g.one_in(8) ? 2 : 0) | (g.range(0, 5) * 4); };
    int ns = g.range(0, 3), na = g.range(1, 7);
    for (int i = 0; i < ns; ++i)
        pl.ops.push_back(Op{O_SUP, g.range(0, 99), (g.one_in(3) ? 1 : 0) | (g.one_in(3) ? 2 : 0), g.range(0, 3),
                            (g.one_in(6) ? 1 : 0) | (g.one_in(8) ? 2 : 0)});
    for (int i = 0; i < na; ++i)
        pl.ops.push_back(Op{O_ACT, g.range(0, 99), init(), down(), flags()});
    int ops = g.range(0, 12);
    for (int i = 0; i < ops; ++i) {
        int a = g.range(0, 99);
        switch (g.below(9)) {
        case 0: case 1:
            pl.ops.push_back(Op{O_STOP, a, g.range(0, 5), 0, 0});
            break;
        case 2:
            pl.ops.push_back(g.one_in(2) ? Op{O_FSTOP, a, 0, 0, 0} : Op{O_STOPSUP, a, g.range(0, 1), 0, 0});
            break;
        case 3: case 4:
            pl.ops.push_back(Op{O_CREATE, a, init(), down(), flags()});
            break;
        case 5:
            pl.ops.push_back(Op{O_MSG, a, 0, 0, 0});
            break;
        default:
            pl.ops.push_back(Op{O_SLEEP, g.pick({1, 30, 800, 6000, 35000, 250000}), 0, 0, 0});
        }
    }
}
void gen07(Rng &g, Plan &pl) { gen(g, pl, M_LIFE); }
void gen08(Rng &g, Plan &pl) { gen(g, pl, M_TREE); }
void gen09(Rng &g, Plan &pl) { gen(g, pl, M_POLICY); }
void gen18(Rng &g, Plan &pl) { gen(g, pl, M_REASON); }

// is everything where it has to end up?
const char *unsettled(Ent &e) {
    auto &x = X(e.id);
    bool down = seen(e, Cb::shutdown_finish) || x.abandoned;
    if (down)
        return nullptr;
    if (seen(e, Cb::shutdown_start))
        return x.spec && x.spec->down == D_NEVER ? nullptr : "it began to shut down and does not finish";
    if (x.asked)
        return "it was asked to stop and does not";
    if (e.parent >= 0 && seen(E(e.parent), Cb::shutdown_start))
        return "its supervisor shuts down and it does not";
    if (x.spec && init_fails(x.spec->init))
        return "its initialization failed, but it does not shut down";
    if (e.is_sup) {
        bool init_done = seen(e, Cb::init_finish);
        for (auto &k : W->ents)
            if (k.parent == e.id) {
                if (!init_done && seen(k, Cb::shutdown_start) && !seen(k, Cb::init_finish))
                    return "a child failed to initialize, but it neither starts nor stops";
                if (takes_along(k))
                    return "a child which has to take it along has stopped, but it does not stop";
            }
    }
    if (!seen(e, Cb::start))
        return "it is healthy, but it never started";
    return nullptr;
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    S->pl = &pl;
    S->mon = pl.p[P_MON];
    W->check_life = S->mon & M_LIFE;
    W->check_child = S->mon & (M_LIFE | M_TREE);
    W->on_cb = listener;
    W->on_error = [](const r::extended_error_ptr_t &) { // a child did not confirm its shutdown in time
        int n = 0;
        for (auto *s : S->specs)
            n += s->down == D_NEVER && s->ent >= 0 && seen(E(s->ent), Cb::shutdown_start);
        return ++S->reported <= n;
    };
    int n = pl.p[P_N] + 1;
    NodeCfg nc;
    nc.threads = pl.p[P_THR] + 1;
    nc.strands = pl.p[P_STR] + 1;
    nc.latency_us = pl.p[P_LAT];
    nc.timer_late_us = pl.p[P_LATE];
    for (int i = 0; i < n; ++i) {
        auto *nd = make_node(BK(pl.p[P_B0 + i]), i, nc);
        S->nodes.push_back(nd);
        SupOpts o;
        o.poll_us = pl.p[P_POLL];
        o.init_ms = o.shutdown_ms = LONG_MS;
        o.policy = pl.p[P_POL] ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        o.sync_start = pl.p[P_SYNC];
        o.prepare = [&](SupIface &si) { watch_sup(si, pl.p[P_POL], pl.p[P_SYNC]); };
        auto *r = nd->make_root(o);
        S->sups.push_back(r);
        S->sup_node.push_back(nd);
    }
    for (auto &o : pl.ops) {
        if (o.k == O_SUP && S->sups.size() < 8) {
            int p = o.a % int(S->sups.size());
            SupOpts so;
            so.poll_us = pl.p[P_POLL];
            so.init_ms = so.shutdown_ms = LONG_MS;
            so.policy = o.b & 1 ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
            so.sync_start = o.b & 2;
            so.strand = o.c;
            so.escalate = o.d & 1;
            so.autoshutdown = o.d & 2;
            so.prepare = [&](SupIface &si) {
                watch_sup(si, o.b & 1, o.b & 2);
                X(si.ent).escalate = o.d & 1;
                X(si.ent).autoshut = o.d & 2;
            };
            auto *nd = S->sup_node[size_t(p)];
            auto *c = nd->make_child(*S->sups[size_t(p)]->sup(), so);
            nd->keep.push_back(c->sup());
            S->sups.push_back(c);
            S->sup_node.push_back(nd);
        } else if (o.k == O_ACT) {
            auto *s = make_spec(o.b, o.c, o.d);
            auto a = make_act(*S->sups[size_t(o.a) % S->sups.size()]->sup(), s, false);
            S->addr.push_back(a->get_address());
        }
    }
    for (auto *nd : S->nodes)
        nd->start();
    if (!pl.p[P_NOW])
        sim::sleep_ns(5 * sim::MS);
    for (auto &o : pl.ops) {
        sim::yield();
        if (o.k == O_SLEEP)
            sim::sleep_ns(uint64_t(o.a) * sim::US);
        else if (o.k == O_FSTOP) {
            auto *si = S->sups[size_t(o.a) % S->sups.size()];
            {
                sim::NoPreempt np;
                X(si->ent).asked = true;
                X(si->ent).cause_any++;
            }
            sim::probe("fault:external-stop");
            si->sup()->shutdown();
        } else if (o.k >= O_STOP && !S->addr.empty()) {
            auto &ad = S->addr[size_t(o.a) % S->addr.size()];
            if (o.k == O_MSG)
                ad->supervisor.enqueue(r::make_message<Note>(ad, Note{1}));
            else if (o.k == O_CREATE) {
                auto *s = make_spec(o.b, o.c, o.d);
                ad->supervisor.enqueue(r::make_message<Cmd>(ad, Cmd{O_CREATE, s->id, 0}));
            } else
                ad->supervisor.enqueue(r::make_message<Cmd>(ad, Cmd{o.k, o.b, 0}));
        }
    }
    for (auto *s : S->specs) {
        if (s->ent >= 0 && init_fails(s->init))
            sim::probe("fault:child-init-failure");
        if (s->ent >= 0 && s->down == D_NEVER)
            sim::probe("fault:unresponsive-shutdown");
    }
    sim::faults_off();
    if (S->mon & (M_TREE | M_POLICY | M_LIFE)) {
        bool ok = sim::wait_for(
            [&] {
                for (auto &e : W->ents)
                    if (unsettled(e))
                        return false;
                return true;
            },
            120 * sim::SEC, 20 * sim::MS);
        if (!ok)
            for (auto &e : W->ents)
                if (auto *why = unsettled(e))
                    FAIL("life/stuck", "%s %d (tag %d, last callback %s, supervisor %d): %s", e.is_sup ? "supervisor" : "actor",
                         e.id, e.tag, cb_name[e.last < 0 ? 0 : e.last], e.parent, why);
    } else
        sim::sleep_ns(3 * sim::SEC);
    for (auto *s : S->sups)
        X(s->ent).asked = X(s->ent).asked || E(s->ent).parent < 0;
    check_destroyed();
    shutdown_and_join(S->nodes, "life/no-shutdown", 500 * sim::SEC);
    if (S->mon & M_TREE)
        for (auto &e : W->ents)
            if (!seen(e, Cb::shutdown_finish) && !X(e.id).abandoned)
                FAIL("tree/left", "%s %d is still there after the shutdown of its root supervisor",
                     e.is_sup ? "supervisor" : "actor", e.id);
    if (S->mon & M_TREE) {
        int n = 0;
        for (auto *s : S->specs)
            n += s->down == D_NEVER && s->ent >= 0 && seen(E(s->ent), Cb::shutdown_start);
        if (S->reported != n)
            FAIL("tree/report", "%d children did not confirm their shutdown in time, %d were reported to the system context", n,
                 S->reported);
    }
    W->check_life = W->check_child = false;
    S->addr.clear();
    for (auto *s : S->specs)
        sim::leaks_expected |= s->down == D_NEVER;
    destroy_all(S->nodes);
}
sim::Reg r7({"C07", "lifecycles", gen07, run, op_names, pnames, 1, false});
sim::Reg r8({"C08", "trees", gen08, run, op_names, pnames, 1, false});
sim::Reg r9({"C09", "policies", gen09, run, op_names, pnames, 1, false});
sim::Reg r18({"C18", "reasons", gen18, run, op_names, pnames, 1, false});
} // namespace
