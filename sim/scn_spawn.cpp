// C10: spawners whose instances end in scripted ways, under supervisors which may stop at any moment.
#include "rt.h"
using namespace rs;

namespace {
enum Out { X_THROW, X_FAIL_INIT, X_STOP_INIT, X_FAIL_START, X_STOP_START, X_FAIL, X_STOP, X_RUN, X_TIMEOUT, X_N };
const char *out_name[] = {"factory throws", "fails init", "stops in init", "fails on start", "stops on start", "fails", "stops",
                          "runs", "init timeout"};
enum { LONG_MS = 1000000, INIT_MS = 40 };
const int periods_us[] = {0, 1000, 20000, 300000, 2000000};
const int delays_us[] = {1, 800, 15000, 250000};
struct Step {
    int out = X_RUN, delay_us = 0, down_us = 0, slow_us = 0;
    bool again = false; // should_restart
    int flags = 0;      // 1: escalate_failure, 2: autoshutdown_supervisor (both are up to the spawner)
};
struct Spw {
    int id = 0;
    int sup = -1; // entity
    BK bk = B_SIM;
    r::restart_policy_t policy;
    int period_us = 0;
    size_t max = 0;
    bool escalate = false;
    kvec<Step> script; // afterwards: runs
    // history
    int n = 0; // factory calls
    int cur = -1; // entity of the last instance (-1: none was made)
    uint64_t last_start = 0, last_end = 0;
    bool threw = false;
    bool asked_restart = false;
    bool abnormal = false; // how the last one ended
    bool init_phase = false; // the last one ended while its supervisor was initializing
    bool ended = false;
    Step step(int i) const { return i < int(script.size()) ? script[size_t(i)] : Step(); }
};
struct Inst {
    Spw *s;
    Step st;
    int k;
};
struct Cmd {
    int op, a;
};
struct St {
    kvec<Node *> nodes;
    kvec<SupIface *> sups;
    kvec<Node *> sup_node;
    kvec<Spw *> spw;
    kvec<r::address_ptr_t> helper; // one per supervisor
    kset<int> asked, launched;
    kset<int> init_failed; // supervisors with the shut-down policy, a factory has thrown during their initialization
    kset<int> early; // supervisors which may shut down because of a failure while they initialize
    kmap<int, int> pol_of;
    kmap<int, Inst *> inst;
};
St *S;
Ent &E(int i) { return W->ents[size_t(i)]; }
bool seen(const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; }
bool below(Ent &e, int sup) {
    for (int i = e.id; i >= 0; i = E(i).parent)
        if (i == sup)
            return true;
    return false;
}
// a failure while supervisors initialize
void early(int sup) {
    for (int i = sup; i >= 0; i = E(i).parent)
        S->early.insert(i);
}

enum { O_SUP = 1, O_SPAWNER, O_STEP, O_LATE, O_STOPSUP, O_FSTOP, O_SLEEP };
const char *op_names[] = {"", "supervisor(parent,strand,policy+sync,bare)", "spawner(sup,policy,period,max+escalate)",
                          "script(outcome,delay,again+2*flags,down+8*slow-init)", "start-spawner(nr)", "actor-stops-its-supervisor(sup)",
                          "stop-supervisor-from-a-thread(sup)", "sleep(us)"};
const char *pnames[sim::NPARAM] = {"nodes-1", "backend0", "backend1", "asio threads-1", "strands-1", "latency_us", "timer_late_us",
                                   "poll_us", "root policy", "start at once"};
enum { P_N, P_B0, P_B1, P_THR, P_STR, P_LAT, P_LATE, P_POLL, P_POL, P_NOW };

r::extended_error_ptr_t err() { return r::make_error("scripted", std::make_error_code(std::errc::io_error)); }

struct inst_t : sact_t {
    using sact_t::sact_t;
    Inst &in() { return *static_cast<Inst *>(spec); }
    r::plugin::resources_plugin_t &res() {
        return *static_cast<r::plugin::resources_plugin_t *>(get_plugin(r::plugin::resources_plugin_t::class_identity));
    }
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::resources_plugin_t>(
            [&](auto &p) {
                if (in().st.out == X_TIMEOUT || in().st.slow_us)
                    p.acquire(0);
                if (in().st.out != X_TIMEOUT && in().st.slow_us)
                    start_timer(us(in().st.slow_us), *this, &inst_t::on_r0);
            },
            r::plugin::config_phase_t::INITIALIZING);
    }
    bool should_restart() const noexcept override {
        sim::NoPreempt np;
        auto *i = static_cast<Inst *>(spec);
        i->s->asked_restart = true;
        if (i->s->policy != r::restart_policy_t::ask_actor)
            FAIL("spawn/asked", "should_restart() is called although the policy of the spawner is not ask_actor");
        return i->st.again;
    }
    void init_start() noexcept override {
        sact_t::init_start();
        if (in().st.out == X_FAIL_INIT)
            do_shutdown(err());
        if (in().st.out == X_STOP_INIT)
            do_shutdown();
    }
    void started() noexcept override {
        switch (in().st.out) {
        case X_FAIL_START:
            do_shutdown(err());
            break;
        case X_STOP_START:
            do_shutdown();
            break;
        case X_FAIL:
        case X_STOP:
            start_timer(us(in().st.delay_us), *this, &inst_t::on_end);
            break;
        default:;
        }
    }
    void on_end(r::request_id_t, bool cancelled) noexcept {
        Scope s(ent);
        if (cancelled)
            return;
        if (in().st.out == X_FAIL)
            do_shutdown(err());
        else
            do_shutdown();
    }
    void stopping() noexcept override {
        if (res().has(0))
            start_timer(us(100), *this, &inst_t::on_r0);
        if (in().st.down_us) {
            res().acquire(1);
            start_timer(us(in().st.down_us), *this, &inst_t::on_r1);
        }
    }
    void on_r0(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        if (!c && res().has(0))
            res().release(0);
    }
    void on_r1(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        if (!c)
            res().release(1);
    }
};

bool policy_restart(const Spw &s) { // does the policy call for another instance?
    using P = r::restart_policy_t;
    switch (s.policy) {
    case P::always:
        return true;
    case P::never:
        return false;
    case P::normal_only:
        return !s.threw && !s.abnormal;
    case P::fail_only:
        return s.threw || s.abnormal;
    case P::ask_actor:
        return !s.threw && s.step(s.n - 1).again;
    }
    return false;
}
bool limit_left(const Spw &s) { return !s.max || size_t(s.n) < s.max; }
bool must_escalate(const Spw &s) { // an instance has crashed for the last time
    using P = r::restart_policy_t;
    if (!s.escalate || s.threw || !s.abnormal || s.policy == P::never || s.policy == P::ask_actor)
        return false;
    return !limit_left(s) || s.policy == P::normal_only;
}
bool may_escalate(const Spw &s) { return s.escalate && (!limit_left(s) || !policy_restart(s)); }

const char *policy_name(const Spw &s) {
    static const char *n[] = {"always", "never", "ask_actor", "normal_only", "fail_only"};
    return n[int(s.policy)];
}

// called by the library when it wants an instance
r::actor_ptr_t factory(Spw *s, r::supervisor_t &sup, const r::address_ptr_t &spawner) {
    Step st;
    {
        sim::NoPreempt np;
        auto &se = E(s->sup);
        int k = s->n;
        sim::obs("instance", s->id, k);
        if (seen(se, Cb::shutdown_start))
            FAIL("spawn/while-stopping", "instance %d of spawner %d (%s) is made although its supervisor is shutting down", k, s->id,
                 policy_name(*s));
        if (k) {
            if (!s->ended)
                FAIL("spawn/second-instance", "instance %d of spawner %d (%s) is made although instance %d has not shut down", k,
                     s->id, policy_name(*s), k - 1);
            if (!limit_left(*s))
                FAIL("spawn/limit", "spawner %d (%s) makes instance number %d, but the limit is %zu", s->id, policy_name(*s), k + 1,
                     s->max);
            if (!policy_restart(*s))
                FAIL("spawn/policy", "spawner %d (%s) makes a new instance although the last one %s", s->id, policy_name(*s),
                     s->threw ? "could not be made" : s->abnormal ? "has failed" : "has ended normally");
            uint64_t due = s->last_start + uint64_t(s->period_us) * sim::US;
            // these loops count timers from the time they have read last
            uint64_t lag = s->bk == B_THREAD || s->bk == B_EV ? 20 * sim::MS + sim::fault_ns() : 0;
            if (sim::now() + 3 * sim::MS + lag < due)
                FAIL("spawn/early", "spawner %d (%s, pause %d us) makes a new instance %llu us after the previous one", s->id,
                     policy_name(*s), s->period_us, (unsigned long long)((sim::now() - s->last_start) / 1000));
        }
        st = s->step(k);
        s->n++;
        s->cur = -1;
        s->threw = st.out == X_THROW;
        s->ended = s->threw;
        s->abnormal = s->threw;
        s->last_start = sim::now();
        if (sim::last_read())
            s->last_start = std::min(s->last_start, sim::last_read());
        if (s->threw) {
            s->last_end = sim::now();
            sim::probe("fault:throwing-factory");
            s->init_phase = !seen(se, Cb::init_finish);
            // no instance failed, the others are to be kept
            if (s->init_phase && !(S->pol_of[s->sup] & 1)) {
                early(s->sup);
                S->init_failed.insert(s->sup);
            }
        } else if (st.out != X_RUN && st.out != X_STOP)
            sim::probe("fault:failing-instance");
    }
    if (st.out == X_THROW)
        throw W->thrown = true, std::runtime_error("scripted");
    auto *in = new (malloc(sizeof(Inst))) Inst{s, st, s->n - 1};
    auto a = sup.create_actor<inst_t>()
                 .spec(in)
                 .init_timeout(ms(st.out == X_TIMEOUT ? int(INIT_MS) : int(LONG_MS)))
                 .shutdown_timeout(ms(LONG_MS))
                 .spawner_address(spawner)
                 .escalate_failure(st.flags & 1)
                 .autoshutdown_supervisor(st.flags & 2)
                 .finish();
    {
        sim::NoPreempt np;
        s->cur = a->ent;
        S->inst[a->ent] = in;
    }
    return a;
}

struct helper_t : sact_t {
    using sact_t::sact_t;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&helper_t::on_cmd); });
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept;
};
void launch(Spw *s, r::supervisor_t &sup) {
    sup.spawn([s](r::supervisor_t &sp, const r::address_ptr_t &ad) { return factory(s, sp, ad); })
        .restart_policy(s->policy)
        .restart_period(us(s->period_us))
        .max_attempts(s->max)
        .escalate_failure(s->escalate)
        .spawn();
}
void helper_t::on_cmd(r::message_t<Cmd> &m) noexcept {
    Scope sc(ent);
    auto &c = m.payload;
    if (c.op == O_LATE) {
        {
            sim::NoPreempt np;
            S->launched.insert(c.a);
        }
        launch(S->spw[size_t(c.a)], *supervisor);
    } else {
        {
            sim::NoPreempt np;
            S->asked.insert(ent_of_sup(*supervisor));
        }
        if (c.a)
            supervisor->do_shutdown(err());
        else
            supervisor->do_shutdown();
    }
}

void listener(Ent &e, Cb c) {
    auto it = S->inst.find(e.id);
    if (it != S->inst.end()) {
        auto *s = it->second->s;
        if (c == Cb::shutdown_finish) {
            auto &rs = e.ptr->get_shutdown_reason();
            s->abnormal = rs && bool(rs->root()->ec);
            s->ended = true;
            s->last_end = sim::now();
            s->init_phase = !seen(E(s->sup), Cb::init_finish);
            if (!seen(e, Cb::start))
                early(s->sup);
        }
        if (c == Cb::shutdown_start && !seen(e, Cb::start))
            early(s->sup);
    }
    if (c == Cb::shutdown_start)
        for (int p = e.parent; p >= 0; p = E(p).parent)
            if (!seen(E(p), Cb::start))
                S->early.insert(p);
    if (c == Cb::init_finish && e.is_sup) {
        bool strict = !(S->pol_of[e.id] & 1);
        for (auto &k : W->ents)
            if (k.parent == e.id && seen(k, Cb::init_start) && !seen(k, Cb::init_finish)) {
                if (!seen(k, Cb::shutdown_start) && S->inst.count(k.id))
                    FAIL("policy/early-init", "supervisor %d finished its initialization before the spawned child %d", e.id, k.id);
                if (strict && seen(k, Cb::shutdown_start))
                    FAIL("policy/ignored-failure", "supervisor %d finished its initialization although its child %d failed", e.id, k.id);
            }
    }
    if (c == Cb::shutdown_start && e.is_sup) {
        bool ok = S->asked.count(e.id) || (e.parent >= 0 && seen(E(e.parent), Cb::shutdown_start));
        ok = ok || S->early.count(e.id);
        for (auto *s : S->spw)
            ok = ok || (s->sup == e.id && s->ended && may_escalate(*s));
        for (auto &k : W->ents) // failures climb up to supervisors which are still initializing
            ok = ok || (k.parent == e.id && seen(k, Cb::shutdown_start) && !seen(e, Cb::start));
        for (auto &k : W->ents) { // a timeout
            auto it = S->inst.find(k.id);
            ok = ok || (it != S->inst.end() && it->second->st.out == X_TIMEOUT && !seen(e, Cb::start) && below(k, e.id));
        }
        if (!ok)
            FAIL("spawn/spurious-shutdown", "supervisor %d shuts down without a reason", e.id);
    }
}
// nullptr: everything about this spawner is where it has to be
const char *unsettled(Spw &s) {
    auto &se = E(s.sup);
    if (seen(se, Cb::shutdown_start))
        return nullptr; // whether it ends is checked elsewhere
    if (S->init_failed.count(s.sup))
        return "a factory has thrown while its supervisor with the shut-down policy was initializing, which goes on";
    if (!seen(se, Cb::start))
        return "its supervisor neither starts nor stops";
    if (!s.n)
        return "it never made an instance";
    if (!s.ended) {
        auto out = s.step(s.n - 1).out;
        return out != X_RUN ? "its instance does not end"
               : s.cur >= 0 && seen(E(s.cur), Cb::start) ? nullptr
                                                         : "its instance does not start";
    }
    if (must_escalate(s))
        return "the failure of its last instance has to shut the supervisor down, but does not";
    if (policy_restart(s) && limit_left(s))
        return "it has to make a new instance and does not";
    return nullptr;
}

void gen(Rng &g, Plan &pl) {
    int n = g.one_in(4) ? 2 : 1;
    auto b = pick_backends(g, n, 0x3f);
    pl.p[P_N] = int(b.size()) - 1;
    for (int i = 0; i < int(b.size()); ++i)
        pl.p[P_B0 + i] = b[size_t(i)];
    pl.p[P_THR] = g.range(0, 2);
    pl.p[P_STR] = g.range(0, 2);
    pl.p[P_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000, 30000});
    pl.p[P_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[P_POLL] = g.pick({0, 0, 5, 100});
    pl.p[P_POL] = g.range(0, 1) | (g.one_in(3) ? 2 : 0) | (g.one_in(12) ? 4 : 0);
    pl.p[P_NOW] = g.one_in(3);
    int ns = g.range(0, 2), nsp = g.range(1, 3);
    for (int i = 0; i < ns; ++i)
        pl.ops.push_back(Op{O_SUP, g.range(0, 99), g.range(0, 2), g.range(0, 3), g.one_in(5)});
    for (int i = 0; i < nsp; ++i) {
        bool late = g.one_in(2);
        pl.ops.push_back(Op{O_SPAWNER, g.range(0, 99), g.range(0, 4) | (late ? 8 : 0), g.range(0, 4),
                            g.range(0, 4) * 2 + g.range(0, 1)});
        int k = g.range(0, 5);
        for (int j = 0; j < k; ++j)
            pl.ops.push_back(Op{O_STEP, g.one_in(2) ? g.range(0, X_N - 1) : g.pick({int(X_FAIL), int(X_STOP), int(X_THROW)}),
                                g.range(0, 3), (g.range(0, 2) != 0) | (g.one_in(3) ? g.range(1, 3) << 1 : 0), (g.one_in(4) ? g.range(1, 4) : 0) + (g.one_in(4) ? 8 * g.range(1, 4) : 0)});
    }
    int ops = g.range(1, 8);
    for (int i = 0; i < ops; ++i) {
        int a = g.range(0, 99);
        switch (g.below(9)) {
        case 0: case 1:
            pl.ops.push_back(Op{O_LATE, a, 0, 0, 0});
            break;
        case 2:
            pl.ops.push_back(Op{g.one_in(2) ? O_STOPSUP : O_FSTOP, a, g.range(0, 1), 0, 0});
            break;
        default:
            pl.ops.push_back(Op{O_SLEEP, g.pick({1, 30, 800, 6000, 35000, 250000, 900000}), 0, 0, 0});
        }
    }
}

void run(Plan &pl) {
    world_init();
    W->check_child = true;
    S = new (malloc(sizeof(St))) St();
    W->on_cb = listener;
    NodeCfg nc;
    nc.threads = pl.p[P_THR] + 1;
    nc.strands = pl.p[P_STR] + 1;
    nc.latency_us = pl.p[P_LAT];
    nc.timer_late_us = pl.p[P_LATE];
    auto opts = [&](int pol) {
        SupOpts o;
        o.poll_us = pl.p[P_POLL];
        o.init_ms = o.shutdown_ms = LONG_MS;
        o.policy = pol & 1 ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        o.sync_start = pol & 2;
        return o;
    };
    auto add = [&](SupIface *si, Node *nd, int pol) {
        S->sups.push_back(si);
        S->sup_node.push_back(nd);
        S->pol_of[si->ent] = pol;
        if (pol & 4) { // no children but spawned ones; those come when it has been told to stop
            S->helper.push_back(nullptr);
            si->start_cb = [ent = si->ent](r::supervisor_t &sup) {
                {
                    sim::NoPreempt np;
                    S->asked.insert(ent);
                }
                sim::probe("spawn-after-stop");
                sup.do_shutdown();
                for (size_t i = 0; i < S->spw.size(); ++i)
                    if (S->spw[i]->sup == ent)
                        launch(S->spw[i], sup);
            };
            return;
        }
        auto a = si->sup()->create_actor<helper_t>().timeout(ms(LONG_MS)).finish();
        S->helper.push_back(a->get_address());
    };
    for (int i = 0; i <= pl.p[P_N]; ++i) {
        auto *nd = make_node(BK(pl.p[P_B0 + i]), i, nc);
        S->nodes.push_back(nd);
        auto o = opts(pl.p[P_POL]);
        add(nd->make_root(o), nd, pl.p[P_POL]);
    }
    kvec<Spw *> late;
    Spw *last = nullptr;
    for (auto &o : pl.ops) {
        if (o.k == O_SUP && S->sups.size() < 6) {
            size_t p = size_t(o.a) % S->sups.size();
            auto so = opts(o.c);
            so.strand = o.b;
            if (o.d)
                o.c |= 4;
            auto *nd = S->sup_node[p];
            auto *c = nd->make_child(*S->sups[p]->sup(), so);
            nd->keep.push_back(c->sup());
            add(c, nd, o.c);
        } else if (o.k == O_SPAWNER) {
            auto *s = last = new (malloc(sizeof(Spw))) Spw();
            size_t p = size_t(o.a) % S->sups.size();
            s->id = int(S->spw.size());
            s->sup = S->sups[p]->ent;
            s->bk = S->sup_node[p]->bk;
            s->policy = r::restart_policy_t((o.b & 7) % 5);
            s->period_us = periods_us[size_t(o.c) % 5];
            s->max = size_t(o.d / 2);
            s->escalate = o.d & 1;
            S->spw.push_back(s);
            if ((o.b & 8) && !(S->pol_of[s->sup] & 4))
                late.push_back(s);
        } else if (o.k == O_STEP && last)
            last->script.push_back(Step{o.a, delays_us[size_t(o.b) % 4], o.d & 7 ? delays_us[size_t((o.d & 7) - 1) % 4] : 0, o.d >> 3 ? delays_us[size_t((o.d >> 3) - 1) % 4] : 0, (o.c & 1) != 0, (o.c >> 1) & 3});
    }
    kset<int> active;
    auto sup_of = [&](Spw *s) {
        for (auto *x : S->sups)
            if (x->ent == s->sup)
                return x;
        return S->sups[0];
    };
    for (auto *s : S->spw) {
        bool is_late = false;
        for (auto *l : late)
            is_late = is_late || l == s;
        if (!is_late && !(S->pol_of[s->sup] & 4)) {
            launch(s, *sup_of(s)->sup());
            active.insert(s->id);
        }
    }
    for (auto *nd : S->nodes)
        nd->start();
    if (!pl.p[P_NOW])
        sim::sleep_ns(5 * sim::MS);
    for (auto &o : pl.ops) {
        sim::yield();
        switch (o.k) {
        case O_SLEEP:
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            break;
        case O_LATE:
            if (!late.empty()) {
                auto *s = late.back();
                late.pop_back();
                for (size_t i = 0; i < S->sups.size(); ++i)
                    if (S->sups[i]->ent == s->sup)
                        S->helper[i]->supervisor.enqueue(r::make_message<Cmd>(S->helper[i], Cmd{O_LATE, s->id}));
            }
            break;
        case O_STOPSUP: {
            auto &h = S->helper[size_t(o.a) % S->helper.size()];
            if (h)
                h->supervisor.enqueue(r::make_message<Cmd>(h, Cmd{O_STOPSUP, o.b}));
            break;
        }
        case O_FSTOP: {
            auto *si = S->sups[size_t(o.a) % S->sups.size()];
            {
                sim::NoPreempt np;
                S->asked.insert(si->ent);
            }
            sim::probe("fault:external-stop");
            si->sup()->shutdown();
            break;
        }
        default:;
        }
    }
    sim::faults_off();
    auto bad = [&](Spw *s) -> const char * {
        if (!active.count(s->id) && !S->launched.count(s->id))
            return nullptr;
        if (S->asked.count(s->sup))
            return seen(E(s->sup), Cb::shutdown_finish) ? nullptr : "its supervisor does not stop";
        return unsettled(*s);
    };
    bool ok = sim::wait_for(
        [&] {
            for (auto *s : S->spw)
                if (bad(s))
                    return false;
            for (auto &e : W->ents)
                if (seen(e, Cb::shutdown_start) && !seen(e, Cb::shutdown_finish))
                    return false;
            return true;
        },
        120 * sim::SEC, 20 * sim::MS);
    if (!ok) {
        for (auto *s : S->spw)
            if (S->init_failed.count(s->sup) && !seen(E(s->sup), Cb::shutdown_start))
                FAIL("policy/ignored-failure", "supervisor %d goes on although a factory has thrown during its initialization", s->sup);
        for (auto *s : S->spw)
            if (auto *why = bad(s))
                FAIL("spawn/stuck", "spawner %d (%s, pause %d us, limit %zu%s; %d instances made, last one %s): %s", s->id,
                     policy_name(*s), s->period_us, s->max, s->escalate ? ", escalating" : "", s->n,
                     s->n ? out_name[s->step(s->n - 1).out] : "-", why);
        for (auto &e : W->ents)
            if (seen(e, Cb::shutdown_start) && !seen(e, Cb::shutdown_finish))
                FAIL("spawn/no-shutdown", "%s %d began to shut down and does not finish", e.is_sup ? "supervisor" : "actor", e.id);
    }
    sim::sleep_ns(5 * sim::SEC); // nothing more may happen
    for (auto *s : S->sups)
        if (E(s->ent).parent < 0)
            S->asked.insert(s->ent);
    check_destroyed();
    shutdown_and_join(S->nodes, "spawn/no-shutdown", 500 * sim::SEC);
    for (auto *s : S->spw) {
        if (s->n && !s->ended)
            FAIL("spawn/left", "an instance of spawner %d outlives its supervisor", s->id);
        sim::probe("instances", uint64_t(s->n));
    }
    S->helper.clear();
    destroy_all(S->nodes);
}
sim::Reg reg({"C10", "spawners", gen, run, op_names, pnames, 1, false});
} // namespace
