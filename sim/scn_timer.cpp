// C06: timers fire exactly once, never early, cancellable, none after shutdown.
// C17: the same with handlers which block, on the thread loop; messages keep their order meanwhile.
#include "mesh.h"
using namespace rs;

namespace {
struct Cmd {
    int op, a, b;
    int seq = -1;  // per receiver, sent by the driver only
    int block = 0; // us spent in the handler
};
struct BCmd : Cmd { // its handler is marked as blocking
    using Cmd::Cmd;
};
struct Ping {
    int from, seq;
};
struct TR { // one timer
    int ent;
    r::request_id_t id;
    uint64_t base, started, interval;
    int outcome = 0; // 1 expired 2 cancelled
    uint64_t at = 0;
    bool cancel_asked = false;
    BK bk;
};
struct St {
    Mesh m;
    kvec<TR> timers;
    uint64_t faults_end = 0; // from here on lateness is bounded
    int pending = 0;
    int undone = 0;
    bool blocking = false;
    int seq[64] = {0}, seen[64] = {0};
    int psent[64][64] = {{0}}, pgot[64][64] = {{0}};
    long pings = 0;
    uint64_t block_end[64] = {0}; // per locality: the end of the last blocking handler
};
St *S;
enum { O_START = 1, O_CANCEL, O_CHAIN, O_BUSY, O_STOP, O_SLEEP, O_MANY, O_CROSS, O_STUBBORN, O_N };
const char *op_names[] = {"", "start(actor,interval_us,,block_us)", "cancel(actor,k-th newest)", "chain(actor,interval_us,n)",
                          "slow-handler-then-start(actor,us,interval_us)", "shut-down-actor(actor)", "sleep(us)",
                          "start-several(actor,interval_us,n)", "timer-cancels-timer(actor,interval_us,victim_us)",
                          "start-again-when-cancelled(actor,interval_us,times)"};
const char *pnames[sim::NPARAM] = {MESH_PNAMES, "no stalls and jumps", "idle before the loops run (ms)", "timer at start (us)", "blocking handlers"};

struct act_t : sact_t {
    using sact_t::sact_t;
    BK bk = B_SIM;
    kvec<int> live; // indices of my unfinished timers
    int chain_left = 0;
    int chain_us = 0;
    int stubborn_left = 0, stubborn_us = 0, stubborn_t = -1;
    bool in_blocking = false;
    int chain_t = -1, killer_t = -1, victim_t = -1;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_bcmd)->tag_io();
            p.subscribe_actor(&act_t::on_ping);
        });
    }
    int start_one(int64_t iv) {
        TR t;
        t.ent = ent;
        t.started = sim::now();
        t.base = in_blocking ? t.started : timer_base(bk);
        if (bk == B_THREAD) // what runs after a blocking handler knows the time after it
            t.base = std::max(t.base, S->block_end[W->ents[size_t(ent)].loc]);
        t.interval = uint64_t(iv) * sim::US;
        t.bk = bk;
        t.id = start_timer(us(iv), *this, &act_t::on_timer);
        sim::NoPreempt np;
        for (auto &x : S->timers)
            if (x.ent == ent && x.id == t.id && !x.outcome)
                FAIL("timer/id", "two running timers of actor %d have the same id", tag);
        int idx = int(S->timers.size());
        S->timers.push_back(t);
        S->undone++;
        live.push_back(idx);
        sim::obs("timer-start", tag, idx, iv);
        return idx;
    }
    void cancel(int idx) {
        r::request_id_t id;
        {
            sim::NoPreempt np;
            auto &t = S->timers[size_t(idx)];
            if (t.outcome)
                return;
            t.cancel_asked = true;
            id = t.id;
        }
        cancel_timer(id);
        sim::NoPreempt np;
        if (S->timers[size_t(idx)].outcome != 2)
            FAIL("timer/cancel", "actor %d cancelled timer %d and was not told so", tag, idx);
    }
    void started() noexcept override {
        if (int iv = S->m.pl->p[P_USER + 2])
            start_one(iv);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        ordered(m.payload);
        perform(m.payload);
        S->pending--;
    }
    void on_bcmd(r::message_t<BCmd> &m) noexcept {
        Scope s(ent);
        auto c = m.payload;
        ordered(c);
        in_blocking = true;
        ping((tag + 1) % S->m.n());
        sim::sleep_ns(uint64_t(c.block) * sim::US);
        perform(c);
        if (c.block % 3 == 1) { // and a little more of the same
            sim::sleep_ns(uint64_t(c.block) * sim::US / 2);
            start_one(c.block / 2);
            sim::sleep_ns(uint64_t(c.block) * sim::US / 2);
        }
        ping((tag + c.seq) % S->m.n());
        in_blocking = false;
        S->block_end[W->ents[size_t(ent)].loc] = sim::now();
        sim::probe("blocking-handler");
        S->pending--;
    }
    void ping(int dst) {
        int q;
        {
            sim::NoPreempt np;
            q = S->psent[tag][dst]++;
            S->pings++;
        }
        send<Ping>(S->m.slots[size_t(dst)].addr, tag, q);
    }
    void on_ping(r::message_t<Ping> &m) noexcept {
        Scope s(ent);
        sim::NoPreempt np;
        auto &p = m.payload;
        int &g = S->pgot[p.from][tag];
        if (p.seq != g)
            FAIL("msg/order", "actor %d received message %d from actor %d where %d was next", tag, p.seq, p.from, g);
        ++g;
        S->pings--;
    }
    void ordered(const Cmd &c) {
        sim::NoPreempt np;
        sim::obs("cmd", tag, c.seq);
        if (c.seq != S->seen[tag])
            FAIL("msg/order", "actor %d received command %d where %d was next", tag, c.seq, S->seen[tag]);
        S->seen[tag]++;
    }
    void perform(const Cmd &c) {
        switch (c.op) {
        case O_START:
            start_one(c.a);
            break;
        case O_MANY:
            for (int i = 0; i < c.b; ++i)
                start_one(c.a + (i % 3 == 2 ? i * 100 : 0));
            break;
        case O_CANCEL:
            if (!live.empty())
                cancel(live[live.size() - 1 - size_t(c.a) % live.size()]);
            break;
        case O_CHAIN:
            chain_left = c.b;
            chain_us = c.a;
            chain_t = start_one(c.a);
            break;
        case O_BUSY:
            sim::sleep_ns(uint64_t(c.a) * sim::US);
            start_one(c.b);
            break;
        case O_CROSS:
            killer_t = start_one(c.a);
            victim_t = start_one(c.b);
            break;
        case O_STUBBORN: // its cancellation, that by the end of the actor included, starts another one
            stubborn_left = c.b;
            stubborn_us = c.a;
            stubborn_t = start_one(c.a);
            break;
        case O_STOP:
            do_shutdown();
            break;
        }
    }
    void on_timer(r::request_id_t id, bool cancelled) noexcept {
        Scope s(ent);
        int idx = -1;
        {
            sim::NoPreempt np;
            int old = -1;
            for (size_t i = 0; i < S->timers.size(); ++i)
                if (S->timers[i].ent == ent && S->timers[i].id == id) {
                    if (!S->timers[i].outcome)
                        idx = int(i);
                    else
                        old = int(i);
                }
            if (idx < 0 && old >= 0)
                FAIL("timer/twice", "timer %d of actor %d ended twice (first as %s, now as %s)", old, tag,
                     S->timers[size_t(old)].outcome == 1 ? "expired" : "cancelled", cancelled ? "cancelled" : "expired");
            if (idx < 0)
                FAIL("timer/foreign", "actor %d was called for a timer it never started", tag);
            auto &t = S->timers[size_t(idx)];
            auto &e = W->ents[size_t(ent)];
            t.outcome = cancelled ? 2 : 1;
            t.at = sim::now();
            S->undone--;
            sim::obs("timer-end", tag, idx, cancelled);
            for (size_t i = 0; i < live.size(); ++i)
                if (live[i] == idx) {
                    live.erase(live.begin() + long(i));
                    break;
                }
            if (is_down(e))
                FAIL("timer/after-shutdown", "timer %d of actor %d reported after the shutdown of the actor", idx, tag);
            if (!cancelled) {
                if (t.cancel_asked)
                    FAIL("timer/expired-after-cancel", "timer %d of actor %d was cancelled but reported as expired", idx, tag);
                if (t.at + timer_slack(t.bk) < t.base + t.interval)
                    FAIL("timer/early", "timer %d of actor %d (%s) of %.6f s fired after %.6f s", idx, tag, bk_name[t.bk],
                         double(t.interval) / 1e9, double(t.at - t.base) / 1e9);
                uint64_t due = std::max(t.started + t.interval, S->faults_end);
                if (S->faults_end && !S->blocking && t.at > due + 2 * sim::SEC)
                    FAIL("timer/late", "timer %d of actor %d (%s) of %.6f s fired %.6f s late", idx, tag, bk_name[t.bk],
                         double(t.interval) / 1e9, double(t.at - due) / 1e9);
                sim::probe("timer-expired");
            } else {
                if (!t.cancel_asked && !(e.seen & (1u << int(Cb::shutdown_start))))
                    FAIL("timer/cancelled", "timer %d of actor %d reported as cancelled, but nobody cancelled it", idx, tag);
                sim::probe("timer-cancelled");
            }
        }
        if (cancelled) {
            if (idx == stubborn_t && stubborn_left > 0) {
                --stubborn_left;
                stubborn_t = start_one(stubborn_us);
                if (stubborn_left % 2)
                    start_one(stubborn_us);
                sim::probe("started-when-cancelled");
            }
            return;
        }
        if (idx == chain_t && chain_left > 0 && W->ents[size_t(ent)].seen && st() == r::state_t::OPERATIONAL) {
            --chain_left;
            chain_t = start_one(chain_us);
        } else if (idx == killer_t && victim_t >= 0) {
            killer_t = -1;
            cancel(victim_t);
            start_one(77);
        }
    }
    void stopping() noexcept override {
        if (tag % 3 == 0)
            start_one(tag % 2 ? 1 : 5000000); // a timer started while shutting down is reported as well
    }
};

void gen_ops(Rng &g, Plan &pl, bool blocking) {
    pl.p[P_USER] = g.one_in(3);
    pl.p[P_USER + 1] = g.pick({0, 0, 300, 5000});
    pl.p[P_USER + 2] = g.pick({0, 0, 1000, 200000, 2000000});
    int ops = g.range(3, 30);
    auto iv = [&] { return g.pick({0, 1, 37, 100, 1000, 1500, 2500, 20000, 20000, 100000, 1000000, 15000000}); };
    for (int i = 0; i < ops; ++i) {
        int a = g.range(0, 99);
        Op o;
        switch (g.below(13)) {
        case 0: case 1: case 2:
            o = Op{O_START, a, iv(), 0, 0};
            break;
        case 3: case 4:
            o = Op{O_CANCEL, a, g.range(0, 3), 0, 0};
            break;
        case 5:
            o = Op{O_CHAIN, a, g.pick({1, 300, 1000, 20000, 500000}), g.range(1, 6), 0};
            break;
        case 6:
            o = Op{O_BUSY, a, g.pick({10, 1000, 30000, 400000}), iv(), 0};
            break;
        case 7:
            o = Op{O_MANY, a, iv(), g.range(2, 5), 0};
            break;
        case 8:
            o = Op{O_CROSS, a, g.pick({1, 1000, 3000, 20000}), g.pick({1, 1000, 3000, 3001, 20000, 1000000}), 0};
            break;
        case 9:
            o = Op{O_STUBBORN, a, iv(), g.range(1, 3), 0};
            break;
        case 10:
            if (g.one_in(3)) {
                o = Op{O_STOP, a, 0, 0, 0};
                break;
            }
            [[fallthrough]];
        default:
            o = Op{O_SLEEP, g.pick({1, 50, 900, 3000, 21000, 300000, 1500000}), 0, 0, 0};
        }
        if (blocking && o.k != O_SLEEP && g.one_in(2))
            o.d = g.pick({1, 40, 1000, 1500, 20000, 100000, 2000000}) + g.range(0, 2);
        if (blocking && o.k == O_STOP)
            continue; // a stopped actor sees no further messages
        pl.ops.push_back(o);
    }
}
void gen(Rng &g, Plan &pl) {
    gen_mesh(g, pl, 0x3f, 3, 1, 2);
    gen_ops(g, pl, false);
}
void gen_block(Rng &g, Plan &pl) {
    gen_mesh(g, pl, g.one_in(3) ? 0x03 : 0x02, 2, 2, 2);
    pl.p[P_B0] = B_THREAD;
    gen_ops(g, pl, true);
    pl.p[P_USER + 3] = 1;
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    S->blocking = pl.p[P_USER + 3];
    if (pl.p[P_USER]) {
        sim::faults_off();
        S->faults_end = 1;
    }
    auto &m = S->m;
    m.factory = [&](r::supervisor_t &sup, int tag) -> r::intrusive_ptr_t<r::actor_base_t> {
        auto a = sup.create_actor<act_t>().tag(tag).timeout(ms(LONG_MS)).finish();
        a->bk = m.nodes.back()->bk;
        return a;
    };
    m.build(pl);
    W->on_cb = [](Ent &e, Cb c) {
        if (c == Cb::shutdown_finish && !e.is_sup)
            for (size_t i = 0; i < S->timers.size(); ++i)
                if (S->timers[i].ent == e.id && !S->timers[i].outcome)
                    FAIL("timer/none", "timer %zu of actor %d (%s) was neither reported as expired nor as cancelled when "
                                       "the actor had shut down",
                         i, e.tag, bk_name[S->timers[i].bk]);
    };
    if (pl.p[P_USER + 1])
        sim::sleep_ns(uint64_t(pl.p[P_USER + 1]) * sim::MS);
    m.start();
    if (!m.wait_started())
        FAIL("start/stuck", "not everything started");
    for (auto &o : pl.ops) {
        sim::yield();
        if (o.k == O_SLEEP) {
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            continue;
        }
        int a = o.a % m.n();
        S->pending++;
        if (o.d && S->blocking) {
            BCmd c;
            c.op = o.k, c.a = o.b, c.b = o.c, c.seq = S->seq[a]++, c.block = o.d;
            m.tell<BCmd>(a, c);
        } else {
            Cmd c;
            c.op = o.k, c.a = o.b, c.b = o.c, c.seq = S->seq[a]++;
            m.tell<Cmd>(a, c);
        }
    }
    sim::sleep_ns(sim::MS);
    sim::faults_off();
    if (!S->faults_end)
        S->faults_end = sim::now() + 5 * sim::SEC; // what was stalled has come back by then
    bool ok = true;
    if (S->blocking && !sim::wait_for([] { return S->pending == 0 && S->pings == 0; }, 200 * sim::SEC, 20 * sim::MS))
        FAIL("msg/lost", "%d commands and %ld messages were not handled within 200 simulated seconds", S->pending, S->pings);
    if (pl.seed % 3)
        ok = sim::wait_for([] { return S->undone == 0; }, 60 * sim::SEC, 20 * sim::MS);
    if (!ok)
        for (size_t i = 0; i < S->timers.size(); ++i)
            if (!S->timers[i].outcome)
                FAIL("timer/never", "timer %zu (%s) of %.6f s did not fire within 60 simulated seconds", i,
                     bk_name[S->timers[i].bk], double(S->timers[i].interval) / 1e9);
    m.finish("timer/no-shutdown");
    sim::NoPreempt np;
    for (size_t i = 0; i < S->timers.size(); ++i)
        if (!S->timers[i].outcome)
            FAIL("timer/none", "timer %zu (%s) ended without any report", i, bk_name[S->timers[i].bk]);
}
sim::Reg r2({"C17", "blocking-handlers", gen_block, run, op_names, pnames, 1, false});
sim::Reg r1({"C06", "timers", gen, run, op_names, pnames, 1, false});
} // namespace
