// C01 / C02: message ordering, at-most-once, integrity and completeness across actors, nested supervisors and loops.
#include "rt.h"
using namespace rs;

namespace {
enum { MAXA = 24, MAXX = 3 }; // actors, foreign sender threads

struct Body { // payload with redundancy
    int src, dst, seq, ttl;
    uint32_t len;
    std::vector<uint32_t> data;
    std::string text;
    static uint32_t word(int src, int dst, int seq, uint32_t i) {
        return uint32_t(src) * 2654435761u ^ uint32_t(dst) * 40503u ^ uint32_t(seq) * 97u ^ i * 7919u;
    }
    Body(int s, int d, int q, int t) : src(s), dst(d), seq(q), ttl(t), len(uint32_t(1 + (q * 7 + s) % 5)) {
        for (uint32_t i = 0; i < len; ++i)
            data.push_back(word(s, d, q, i));
        text = std::to_string(s) + ":" + std::to_string(d) + ":" + std::to_string(q) + ":padpadpadpadpadpad";
    }
    bool intact() const {
        if (data.size() != len || len != uint32_t(1 + (seq * 7 + src) % 5))
            return false;
        for (uint32_t i = 0; i < len; ++i)
            if (data[i] != word(src, dst, seq, i))
                return false;
        return text == std::to_string(src) + ":" + std::to_string(dst) + ":" + std::to_string(seq) +
                           ":padpadpadpadpadpad";
    }
};
struct MA : Body {
    using Body::Body;
};
struct MB : Body {
    using Body::Body;
};
struct Cmd {
    int dst, n, ttl, gap;
};
struct Busy { // handled by a handler marked as blocking: it takes its time, and sends before and after
    int dst, n, us;
};

struct St {
    Plan *pl = nullptr;
    sim::kvec<Node *> nodes;
    int n_act = 0;
    sim::kvec<r::address_ptr_t> addr;
    r::address_ptr_t alias[MAXA]; // destination MAXA + i: another address of actor i
    sim::kvec<int> node_of;
    sim::kvec<Node *> node_p;
    // history, per (src, dst)
    int sent[MAXA + MAXX][2 * MAXA] = {{0}};
    int got[MAXA + MAXX][2 * MAXA] = {{0}};
    int last[MAXA + MAXX][2 * MAXA];
    r::address_ptr_t &dest(int d) { return d < MAXA ? addr[size_t(d)] : alias[d - MAXA]; }
    int pick(int v) { // any address of any actor
        int d = v % n_act;
        return v / n_act % 3 == 1 ? d + MAXA : d;
    }
    int started = 0;
    long total_sent = 0, total_got = 0;
    int pending = 0; // commands and timers which will send more
    bool check_order = true, check_all = true;
};
St *S;

struct act_t : sact_t {
    using sact_t::sact_t;
    int n_timers = 0;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) {
            p.subscribe_actor(&act_t::on_a);
            p.subscribe_actor(&act_t::on_b);
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_busy)->tag_io();
        });
        p.with_casted<r::plugin::starter_plugin_t>([this](auto &p) {
            auto &al = S->alias[tag];
            if (al)
                return;
            al = create_address();
            p.subscribe_actor(&act_t::on_a, al);
            p.subscribe_actor(&act_t::on_b, al);
        });
    }
    void started() noexcept override { S->started++; }
    void send_one(int dst, int ttl) {
        int q;
        {
            sim::NoPreempt np;
            q = S->sent[tag][dst]++;
            S->total_sent++;
            sim::obs("send", tag, dst, q);
        }
        if (q % 3 == 2)
            send<MB>(S->dest(dst), tag, dst, q, ttl);
        else
            send<MA>(S->dest(dst), tag, dst, q, ttl);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        auto &c = m.payload;
        for (int i = 0; i < c.n; ++i)
            send_one(c.dst, c.ttl);
        S->pending--;
        if (c.gap) { // more of them later, out of a timer
            start_timer(us(c.gap), *this, &act_t::on_timer);
            last_cmd = c;
            S->pending++;
        }
    }
    void on_busy(r::message_t<Busy> &m) noexcept {
        Scope s(ent);
        sim::probe("blocking-handler");
        for (int i = 0; i < m.payload.n; ++i)
            send_one(m.payload.dst, 0);
        sim::sleep_ns(uint64_t(m.payload.us) * sim::US);
        for (int i = 0; i < m.payload.n; ++i)
            send_one(m.payload.dst, i);
        S->pending--;
    }
    Cmd last_cmd{};
    void on_timer(r::request_id_t, bool cancelled) noexcept {
        Scope s(ent);
        S->pending--;
        if (!cancelled)
            for (int i = 0; i < last_cmd.n; ++i)
                send_one(last_cmd.dst, last_cmd.ttl);
    }
    void on_a(r::message_t<MA> &m) noexcept { receive(m.payload, m.address); }
    void on_b(r::message_t<MB> &m) noexcept { receive(m.payload, m.address); }
    void receive(Body &b, r::address_ptr_t &at) {
        Scope s(ent);
        {
            sim::NoPreempt np;
            sim::obs("recv", b.src, tag, b.seq);
            if (!b.intact() || b.dst % MAXA != tag || b.dst < 0 || b.dst >= 2 * MAXA || S->dest(b.dst) != at || b.src < 0 || b.src >= MAXA + MAXX)
                FAIL("msg/corrupt", "actor %d received a corrupted or misdirected message (src %d dst %d seq %d)", tag,
                     b.src, b.dst, b.seq);
            int &l = S->last[b.src][b.dst];
            if (b.seq >= S->sent[b.src][b.dst])
                FAIL("msg/phantom", "actor %d received message %d from %d which was never sent", tag, b.seq, b.src);
            if (b.seq == l)
                FAIL("msg/duplicate", "actor %d received message %d from %d twice", tag, b.seq, b.src);
            if (b.seq < l)
                FAIL("msg/reordered", "actor %d received message %d from %d after message %d", tag, b.seq, b.src, l);
            if (b.seq != l + 1 && S->check_all)
                FAIL("msg/gap", "actor %d received message %d from %d right after %d", tag, b.seq, b.src, l);
            l = b.seq;
            S->got[b.src][b.dst]++;
            S->total_got++;
        }
        if (b.ttl > 0) {
            int next = (b.src < S->n_act && b.seq % 2) ? b.src : S->pick(tag + b.seq);
            send_one(next, b.ttl - 1);
        }
        b.data.clear(); // a handler owns the message while it runs: nobody else may see this
        b.data.shrink_to_fit();
    }
};

const char *op_names[] = {"", "actor-sends(actor,dst,count,ttl)", "foreign-sends(thread,dst,count)", "sleep(us)",
                          "actor-sends-and-repeats(actor,dst,count,gap_us)", "shutdown-node(node)",
                          "actor-blocks-and-sends(actor,dst,count,us)"};
enum { O_SEND = 1, O_FSEND, O_SLEEP, O_REPEAT, O_DOWN, O_BUSY };
const char *pnames[sim::NPARAM] = {"nodes-1",     "backend0",   "backend1", "backend2", "backend3",
                                   "actors/node-1", "nested",   "asio threads-1", "strands-1", "latency_us",
                                   "timer_late_us", "poll_us",  "foreign threads", "crash a node"};
enum { P_N, P_B0, P_B1, P_B2, P_B3, P_ACT, P_NEST, P_THR, P_STR, P_LAT, P_LATE, P_POLL, P_FOR, P_CRASH };

void gen(Rng &g, Plan &pl, unsigned mask, bool crash) {
    int n = g.range(1, 4);
    pl.p[P_N] = n - 1;
    auto b = pick_backends(g, n, mask);
    for (int i = 0; i < n; ++i)
        pl.p[P_B0 + i] = b[size_t(i)];
    pl.p[P_ACT] = g.range(0, 2);
    pl.p[P_NEST] = g.range(0, 3);
    pl.p[P_THR] = g.range(0, 2);
    pl.p[P_STR] = g.range(0, 2);
    pl.p[P_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000, 100000});
    pl.p[P_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[P_POLL] = g.pick({0, 0, 5, 100, 1000});
    pl.p[P_FOR] = g.range(0, MAXX);
    pl.p[P_CRASH] = crash;
    int ops = g.range(2, 24);
    for (int i = 0; i < ops; ++i) {
        Op o;
        switch (g.below(9)) {
        case 0:
        case 1:
        case 2:
            o = Op{O_SEND, g.range(0, 99), g.range(0, 99), g.range(1, 5), g.range(0, 6)};
            break;
        case 3:
            o = Op{O_REPEAT, g.range(0, 99), g.range(0, 99), g.range(1, 4), g.pick({1, 50, 1000, 20000})};
            break;
        case 4:
        case 5:
            o = Op{O_FSEND, g.range(0, 99), g.range(0, 99), g.range(1, 5), 0};
            break;
        case 6:
            o = Op{O_SLEEP, g.pick({1, 20, 300, 5000, 100000}), 0, 0, 0};
            break;
        case 7:
            o = Op{O_BUSY, g.range(0, 99), g.range(0, 99), g.range(0, 3), g.pick({1, 100, 5000, 100000})};
            break;
        default:
            if (crash && g.one_in(2))
                o = Op{O_DOWN, g.range(0, 3), 0, 0, 0};
            else
                o = Op{O_SEND, g.range(0, 99), g.range(0, 99), g.range(1, 3), g.range(0, 12)};
        }
        pl.ops.push_back(o);
    }
}
void gen_order(Rng &g, Plan &pl) { gen(g, pl, 0x3f, g.one_in(2)); }
void gen_all(Rng &g, Plan &pl) { gen(g, pl, 0x3f, false); }

void foreign_send(int x, int dst, int n) {
    for (int i = 0; i < n; ++i) {
        int q;
        {
            sim::NoPreempt np;
            q = S->sent[MAXA + x][dst]++;
            S->total_sent++;
            sim::obs("fsend", x, dst, q);
        }
        auto &a = S->dest(dst);
        r::message_ptr_t m;
        if (q % 3 == 2)
            m = r::make_message<MB>(a, MAXA + x, dst, q, 0);
        else
            m = r::make_message<MA>(a, MAXA + x, dst, q, 0);
        a->supervisor.enqueue(std::move(m));
    }
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    S->pl = &pl;
    for (auto &row : S->last)
        for (auto &v : row)
            v = -1;
    bool crash = pl.p[P_CRASH];
    S->check_all = !crash;
    int n = pl.p[P_N] + 1;
    NodeCfg nc;
    nc.threads = pl.p[P_THR] + 1;
    nc.strands = pl.p[P_STR] + 1;
    nc.latency_us = pl.p[P_LAT];
    nc.timer_late_us = pl.p[P_LATE];
    for (int i = 0; i < n; ++i) {
        auto *nd = make_node(BK(pl.p[P_B0 + i]), i, nc);
        S->nodes.push_back(nd);
        SupOpts o;
        o.poll_us = pl.p[P_POLL];
        o.init_ms = o.shutdown_ms = 1000000;
        auto *root = nd->make_root(o);
        auto add_actor = [&](r::supervisor_t &sup) {
            if (S->n_act >= MAXA)
                return;
            auto a = sup.create_actor<act_t>().tag(S->n_act).timeout(ms(1000000)).finish();
            S->addr.push_back(a->get_address());
            S->node_of.push_back(i);
            S->node_p.push_back(nd);
            S->n_act++;
        };
        for (int k = 0; k <= pl.p[P_ACT]; ++k)
            add_actor(*root->sup());
        r::supervisor_t *cur = root->sup();
        for (int k = 0; k < pl.p[P_NEST]; ++k) {
            SupOpts co = o;
            co.strand = k + 1;
            co.prepare = [&](SupIface &si) {
                si.init_cb = [&](r::supervisor_t &) {};
            };
            co.prepare = nullptr;
            auto *c = nd->make_child(k % 2 ? *root->sup() : *cur, co);
            if (!c)
                break;
            cur = c->sup();
            nd->keep.push_back(cur); // the user's duty: the supervisor outlives the senders
            add_actor(*cur);
        }
    }
    for (auto *nd : S->nodes)
        nd->start();
    if (!sim::wait_for([] { return S->started == S->n_act; }, 100 * sim::SEC))
        FAIL("msg/never-started", "only %d of %d actors became operational", S->started, S->n_act);

    // foreign threads take their operations from their own lists
    int nf = pl.p[P_FOR];
    sim::kvec<int> ff;
    static sim::kvec<Op> fops[MAXX];
    for (auto &o : pl.ops)
        if (o.k == O_FSEND && nf)
            fops[o.a % nf].push_back(o);
    for (int x = 1; x < nf; ++x)
        ff.push_back(sim::spawn(x == 1 ? "foreign1" : "foreign2", [x] {
            for (auto &o : fops[x]) {
                foreign_send(x, S->pick(o.b), o.c);
                if (o.a & 1)
                    sim::sleep_ns(sim::rnd(3000) * sim::US);
            }
        }));
    for (auto &o : pl.ops) {
        sim::yield();
        int a = S->n_act ? o.a % S->n_act : 0, b = S->n_act ? S->pick(o.b) : 0;
        switch (o.k) {
        case O_SEND:
        case O_REPEAT: {
            auto &ad = S->addr[size_t(a)];
            S->pending++;
            ad->supervisor.enqueue(r::make_message<Cmd>(
                ad, Cmd{b, o.c, o.k == O_SEND ? o.d : 0, o.k == O_REPEAT ? std::max(1, o.d) : 0}));
            break;
        }
        case O_BUSY: {
            auto &ad = S->addr[size_t(a)];
            S->pending++;
            ad->supervisor.enqueue(r::make_message<Busy>(ad, Busy{b, o.c, o.d}));
            break;
        }
        case O_FSEND:
            if (nf && o.a % nf == 0)
                foreign_send(0, b, o.c);
            break;
        case O_SLEEP:
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            break;
        case O_DOWN:
            if (crash) {
                sim::probe("fault:node-shutdown-under-load");
                S->nodes[size_t(o.a % n)]->root->shutdown();
            }
            break;
        }
    }
    bool ok = sim::wait_for(
        [&] {
            for (int f : ff)
                if (!sim::done(f))
                    return false;
            return true;
        },
        100 * sim::SEC);
    CHECK_P(ok, "start/foreign", "foreign senders did not finish");
    sim::faults_off();
    if (!crash) {
        // every message sent so far (and everything they trigger) arrives
        long prev = -1;
        bool quiet = sim::wait_for(
            [&] {
                bool all = S->pending == 0 && S->total_got == S->total_sent && S->total_sent == prev;
                prev = S->total_sent;
                return all;
            },
            30 * sim::SEC, 50 * sim::MS);
        if (!quiet) {
            for (int s = 0; s < MAXA + MAXX; ++s)
                for (int d = 0; d < 2 * MAXA; ++d)
                    if (S->sent[s][d] != S->got[s][d])
                        FAIL("msg/lost", "%d of %d messages from %s %d to actor %d (node %d, %s) were not delivered within "
                                         "30 simulated seconds",
                             S->sent[s][d] - S->got[s][d], S->sent[s][d], s >= MAXA ? "foreign thread" : "actor",
                             s >= MAXA ? s - MAXA : s, d, S->node_of[size_t(d % MAXA)],
                             bk_name[S->node_p[size_t(d % MAXA)]->bk]);
            FAIL("msg/lost", "%d commands were not executed within 30 simulated seconds", S->pending);
        }
        sim::probe("messages-delivered", uint64_t(S->total_got));
    } else
        sim::sleep_ns(200 * sim::MS);
    sim::probe("messages", uint64_t(S->total_got));
    check_destroyed();
    shutdown_and_join(S->nodes, "msg/no-shutdown", 500 * sim::SEC);
    S->addr.clear();
    for (auto &a : S->alias)
        a.reset();
    destroy_all(S->nodes);
}

sim::Reg r1({"C01", "mesh-order", gen_order, run, op_names, pnames, 1, false});
sim::Reg r2({"C02", "mesh-complete", gen_all, run, op_names, pnames, 3, false});
} // namespace
