// C16: supervisors are started, stopped, flagged and posted to from foreign threads at any moment of their lives:
// before their loop runs, while they initialize, under load, while they shut down and after the loop has ended.
#include "mesh.h"
using namespace rs;

namespace {
enum { MAXX = 4, MAXS = 16 };
const int holds_ms[] = {0, 0, 0, 1, 30, 700};
struct Body {
    int id;
    uint32_t check;
    explicit Body(int i) : id(i), check(uint32_t(i) * 2654435761u ^ 0x77) {}
    ~Body() { check = 0; }
};
struct Cmd {
    int op; // 0: stop yourself, 1: stop your supervisor
};
struct Rec {
    int to, count;
    bool up; // posted to an operational actor
};
struct St {
    Mesh m;
    kvec<Rec> recs;
    kvec<uint64_t> asked;   // entity -> sequence number of the first request to stop it
    kvec<uint64_t> flag_at; // supervisor -> when its flag was raised
    kvec<bool> flagged;
    kvec<std::atomic_bool *> flag; // supervisor -> flag
    int flag_ms = 0;
    int running = 0; // node loops started
    int cmds = 0;
    bool stop_all = false;
};
St *S;
void ask(int ent) {
    sim::NoPreempt np;
    while (int(S->asked.size()) <= ent)
        S->asked.push_back(0);
    if (!S->asked[size_t(ent)])
        S->asked[size_t(ent)] = ++W->seq;
}
bool is_asked(int ent) { return ent < int(S->asked.size()) && S->asked[size_t(ent)]; }
bool saw(const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; }

struct act_t : sact_t {
    using sact_t::sact_t;
    r::plugin::resources_plugin_t *res = nullptr;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            res = &p;
            hold(S->m.pl->p[P_USER + 1]);
        });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_msg);
        });
    }
    void hold(int pattern) { // keeps the actor in its current phase for a while
        int t = holds_ms[(pattern + tag * 5) % 6];
        if (!pattern || !t)
            return;
        res->acquire(0);
        start_timer(ms(t), *this, &act_t::on_timer);
        sim::probe("held");
    }
    void on_timer(r::request_id_t, bool) noexcept {
        Scope s(ent);
        if (res->has(0))
            res->release(0);
    }
    void stopping() noexcept override { hold(S->m.pl->p[P_USER + 2]); }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        S->cmds--;
        if (m.payload.op) {
            ask(S->m.slots[size_t(tag)].sup_ent);
            supervisor->do_shutdown();
        } else {
            ask(ent);
            do_shutdown();
        }
    }
    void on_msg(r::message_t<Body> &m) noexcept {
        Scope s(ent);
        sim::NoPreempt np;
        int id = m.payload.id;
        sim::obs("got", id, tag);
        CHECK_P(m.payload.check == (uint32_t(id) * 2654435761u ^ 0x77), "stop/corrupt", "actor %d gets a corrupted message", tag);
        auto &r = S->recs[size_t(id)];
        CHECK_P(r.to == tag, "stop/misdirected", "actor %d gets a message for actor %d", tag, r.to);
        CHECK_P(++r.count == 1, "stop/twice", "message %d is handled %d times by actor %d", id, r.count, tag);
    }
};

const char *op_names[] = {"", "stop(thread,supervisor)", "raise-flag(thread,supervisor)", "post(thread,actor,count)", "start-again(thread,supervisor)",
                          "stop-from-inside(thread,actor,whole supervisor)", "sleep(thread,us)", "run-loop(thread 0,node)"};
enum { O_STOP = 1, O_FLAG, O_POST, O_START, O_INSIDE, O_SLEEP, O_RUN };
const char *pnames[sim::NPARAM] = {MESH_PNAMES, "foreign threads-1", "initialization pattern", "shutdown pattern", "flags(mask)", "flag polling(ms)",
                                   "synchronized start(mask)", "stops after the end", "policy"};
enum { Q_FOR = P_USER, Q_INIT, Q_DOWN, Q_FLAGS, Q_FLAGMS, Q_SYNC, Q_AFTER, Q_POLICY };

void gen(Rng &g, Plan &pl) {
    gen_mesh(g, pl, 0x3f, 3, 1, 3);
    pl.p[Q_FOR] = g.range(0, MAXX - 1);
    pl.p[Q_INIT] = g.one_in(2) ? 0 : g.range(1, 6);
    pl.p[Q_DOWN] = g.one_in(2) ? 0 : g.range(1, 6);
    pl.p[Q_FLAGS] = g.one_in(2) ? 0 : g.range(1, 4095);
    pl.p[Q_FLAGMS] = g.pick({1, 20, 100, 1000});
    if (pl.p[Q_FLAGS]) // every poll of a flag is followed by that much of spinning
        pl.p[P_POLL] = std::min(pl.p[P_POLL], pl.p[Q_FLAGMS] >= 100 ? 100 : 5);
    pl.p[Q_SYNC] = g.one_in(3) ? g.range(1, 4095) : 0;
    pl.p[Q_AFTER] = g.range(0, 15);
    pl.p[Q_POLICY] = g.range(0, 1);
    int ops = g.range(1, 20);
    bool calm = g.one_in(4); // mostly posts
    for (int i = 0; i < ops; ++i) {
        int t = g.range(0, MAXX - 1), a = g.range(0, 99);
        Op o;
        switch (g.below(10)) {
        case 0:
        case 1:
            o = calm ? Op{O_POST, t, a, 3, 0} : Op{O_STOP, t, a, 0, 0};
            break;
        case 2:
            o = Op{O_FLAG, t, a, 0, 0};
            break;
        case 3:
            o = Op{O_START, t, a, 0, 0};
            break;
        case 4:
            o = calm ? Op{O_POST, t, a, 3, 0} : Op{O_INSIDE, t, a, g.one_in(3), 0};
            break;
        case 5:
        case 6:
            o = Op{O_SLEEP, t, g.pick({1, 20, 300, 5000, 100000, 1500000}), 0, 0};
            break;
        case 7:
            o = Op{O_RUN, 0, a, 0, 0};
            break;
        default:
            o = Op{O_POST, t, a, g.range(1, 4), 0};
        }
        pl.ops.push_back(o);
    }
}

// is there a reason for this entity to stop?
bool allowed(int ent) {
    auto chain = [](int e) {
        for (; e >= 0; e = W->ents[size_t(e)].parent)
            if (is_asked(e))
                return true;
        return false;
    };
    if (chain(ent))
        return true;
    for (int e = ent; e >= 0; e = W->ents[size_t(e)].parent) {
        auto &x = W->ents[size_t(e)];
        if (!x.is_sup)
            continue;
        // somebody below failed to initialize (was stopped), while this supervisor was initializing
        for (auto &y : W->ents) {
            if (!is_asked(y.id))
                continue;
            bool below = false;
            for (int p = y.parent; p >= 0; p = W->ents[size_t(p)].parent)
                below |= p == e;
            if (below && (!saw(x, Cb::init_finish) || S->asked[size_t(y.id)] < x.seq_at[int(Cb::init_finish)] || !saw(y, Cb::init_finish)))
                return true;
        }
    }
    return false;
}

void exec(int th, const Op &o) {
    auto &m = S->m;
    int ns = int(m.sups.size());
    switch (o.k) {
    case O_STOP: {
        auto *s = m.sups[size_t(o.b % ns)];
        ask(s->ent);
        sim::probe("fault:external-stop");
        s->sup()->shutdown();
        break;
    }
    case O_FLAG: {
        int i = o.b % ns;
        if (!S->flag[size_t(i)])
            break;
        ask(m.sups[size_t(i)]->ent);
        if (!S->flagged[size_t(i)]) {
            S->flagged[size_t(i)] = true;
            S->flag_at[size_t(i)] = sim::now();
        }
        sim::probe("fault:flag-raised");
        S->flag[size_t(i)]->store(true);
        break;
    }
    case O_START:
        m.sups[size_t(o.b % ns)]->sup()->start();
        break;
    case O_POST:
        for (int i = 0; i < o.c; ++i) {
            int a = o.b % m.n(), id;
            {
                sim::NoPreempt np;
                auto &e = W->ents[0];
                (void)e;
                bool up = false;
                for (auto &x : W->ents)
                    if (!x.is_sup && x.tag == a)
                        up = is_up(x);
                S->recs.push_back(Rec{a, 0, up});
                id = int(S->recs.size()) - 1;
            }
            m.tell<Body>(a, id);
        }
        break;
    case O_INSIDE:
        m.tell<Cmd>(o.b % m.n(), Cmd{o.c});
        break;
    case O_SLEEP:
        sim::sleep_ns(uint64_t(o.b) * sim::US);
        break;
    case O_RUN:
        if (th == 0) {
            auto *n = m.nodes[size_t(o.b) % m.nodes.size()];
            if (!n->started) {
                n->start();
                sim::probe("late-start");
            }
        }
        break;
    }
}

bool settled(bool complain) {
    for (size_t i = 0; i < S->m.sups.size(); ++i) {
        auto &e = W->ents[size_t(S->m.sups[i]->ent)];
        if (is_asked(e.id) && !is_down(e)) {
            if (complain)
                FAIL("stop/ignored", "supervisor %d (node %d, %s) was asked to stop%s, %s 100 simulated seconds after", int(i), e.loc / 8,
                     bk_name[S->m.nodes[size_t(e.loc / 8)]->bk], S->flagged[i] ? " (by its flag)" : "",
                     saw(e, Cb::shutdown_start) ? "has not finished its shutdown" : "has not begun its shutdown");
            return false;
        }
    }
    for (auto &e : W->ents) {
        if (allowed(e.id)) {
            if (is_asked(e.id) && !is_down(e)) {
                if (complain)
                    FAIL("stop/ignored", "actor (tag %d) was asked to stop and is not down 100 simulated seconds after", e.tag);
                return false;
            }
            continue;
        }
        if (!saw(e, Cb::start)) {
            if (complain)
                FAIL("stop/not-started", "%s %d (tag %d), which nobody asked to stop, has not started within 100 simulated seconds", e.is_sup ? "supervisor" : "actor",
                     e.id, e.tag);
            return false;
        }
    }
    for (auto &r : S->recs)
        for (auto &e : W->ents)
            if (!e.is_sup && e.tag == r.to && r.up && !r.count && !allowed(e.id)) {
                if (complain)
                    FAIL("stop/post-lost", "a message posted to actor %d, which is operational, has not come within 100 simulated seconds", r.to);
                return false;
            }
    return true;
}

void run(Plan &pl) {
    world_init();
    W->check_life = true;
    S = new (malloc(sizeof(St))) St();
    auto &m = S->m;
    m.max_actors = 8;
    S->flag_ms = std::max(1, pl.p[Q_FLAGMS]);
    int nsup = 0;
    m.tune = [&](SupOpts &o, int, int) {
        auto *f = ((pl.p[Q_FLAGS] >> (nsup % 12)) & 1) ? new (malloc(sizeof(std::atomic_bool))) std::atomic_bool(false) : nullptr;
        if (f) {
            o.flag = f;
            o.flag_ms = S->flag_ms;
        }
        if ((pl.p[Q_SYNC] >> (nsup % 12)) & 1)
            o.sync_start = true;
        if (pl.p[Q_POLICY])
            o.policy = r::supervisor_policy_t::shutdown_failed;
        S->flag.push_back(f);
        S->flag_at.push_back(0);
        S->flagged.push_back(false);
        ++nsup;
    };
    m.factory = [](r::supervisor_t &sup, int tag) -> r::intrusive_ptr_t<r::actor_base_t> {
        return sup.create_actor<act_t>().tag(tag).timeout(ms(LONG_MS)).finish();
    };
    m.build(pl);
    static kvec<Op> ops[MAXX];
    int nf = pl.p[Q_FOR] + 1;
    for (auto &o : pl.ops)
        ops[o.k == O_RUN ? 0 : o.a % nf].push_back(o);
    kvec<int> ff;
    for (int x = 1; x < nf; ++x) {
        static const char *nm[] = {"", "foreign1", "foreign2", "foreign3"};
        ff.push_back(sim::spawn(nm[x], [x] {
            for (auto &o : ops[x]) {
                sim::yield();
                exec(x, o);
            }
        }));
    }
    if (!std::any_of(pl.ops.begin(), pl.ops.end(), [](auto &o) { return o.k == O_RUN; }))
        m.start();
    for (auto &o : ops[0]) {
        sim::yield();
        exec(0, o);
    }
    for (auto *n : m.nodes)
        if (!n->started)
            n->start();
    sim::faults_off();
    bool ok = sim::wait_for(
        [&] {
            for (int f : ff)
                if (!sim::done(f))
                    return false;
            return true;
        },
        200 * sim::SEC);
    CHECK_P(ok, "stop/blocked", "a foreign thread is blocked in a call to the library");
    ok = sim::wait_for([] { return settled(false); }, 100 * sim::SEC, 20 * sim::MS);
    if (!ok)
        settled(true);
    if (pl.sched.stall_1in) // stalls which are under way run out
        sim::sleep_ns(uint64_t(pl.sched.stall_us) * sim::US + sim::MS);
    // the flags which are raised now, take effect within their polling interval
    kvec<int> late;
    for (int i = 0; i < nsup; ++i) {
        auto &e = W->ents[size_t(m.sups[size_t(i)]->ent)];
        if (S->flag[size_t(i)] && !S->flagged[size_t(i)] && is_up(e)) {
            exec(0, Op{O_FLAG, 0, i, 0, 0});
            late.push_back(i);
        }
    }
    if (!late.empty()) {
        sim::probe("flag-timed", late.size());
        sim::sleep_ns(uint64_t(S->flag_ms) * sim::MS + 300 * sim::MS);
        for (int i : late) {
            auto &e = W->ents[size_t(m.sups[size_t(i)]->ent)];
            CHECK_P(saw(e, Cb::shutdown_start), "stop/flag-late", "supervisor %d (node %d, %s) does not shut down %d ms after its flag was raised (polling interval %d ms)",
                    i, e.loc / 8, bk_name[m.nodes[size_t(e.loc / 8)]->bk], S->flag_ms + 300, S->flag_ms);
        }
    }
    for (auto &e : W->ents)
        CHECK_P(allowed(e.id) || !saw(e, Cb::shutdown_start), "stop/unasked", "%s %d (tag %d) shuts down, nobody asked for it", e.is_sup ? "supervisor" : "actor", e.id,
                e.tag);
    // several threads stop everything at once
    if (pl.p[Q_AFTER] & 1) {
        int f = sim::spawn("stopper", [&m] {
            for (auto *n : m.nodes)
                n->root->shutdown();
        });
        ff.push_back(f);
    }
    W->check_life = true;
    check_destroyed();
    shutdown_and_join(m.nodes, "stop/no-shutdown", 500 * sim::SEC);
    ok = sim::wait_for(
        [&] {
            for (int f : ff)
                if (!sim::done(f))
                    return false;
            return true;
        },
        20 * sim::SEC);
    CHECK_P(ok, "stop/blocked", "a foreign thread is blocked in a call to the library");
    sim::hb_acquire(sim::join_obj());
    // and afterwards
    for (int i = 0; i < nsup; ++i) {
        auto *s = m.sups[size_t(i)]->sup();
        if (pl.p[Q_AFTER] & 2)
            s->shutdown();
        if (pl.p[Q_AFTER] & 4)
            s->start();
    }
    if (pl.p[Q_AFTER] & 8)
        for (int a = 0; a < m.n(); ++a)
            exec(0, Op{O_POST, 0, a, 2, 0});
    m.slots.clear();
    m.sups.clear();
    destroy_all(m.nodes);
}
sim::Reg r1({"C16", "stops", gen, run, op_names, pnames, 1, false});
} // namespace
