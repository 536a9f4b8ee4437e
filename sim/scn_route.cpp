// C14: messages with a follow-up route: recipients on any loops, senders anywhere, captured and redirected messages,
// subscribers which shut down meanwhile.
#include "mesh.h"
using namespace rs;

namespace {
enum { MAXX = 3 };
const int slows_us[] = {0, 0, 1, 30, 1000, 40000};
struct Body {
    int id;
    uint32_t check;
    explicit Body(int i) : id(i), check(uint32_t(i) * 2654435761u ^ 0x5bd1e995u) {}
    ~Body() { check = 0; }
};
struct Cmd {
    int op, a, b, c, d;
};
struct Rec { // one routed message
    int main, next, ttl, mode, slow;
    int stage = 0; // redirected so many times
    const void *obj = nullptr;
    kvec<int> begun, done, follow; // slots, of the current stage
    bool captured = false, dropped = false, followed = false;
    uint64_t sent = 0;
};
enum Mode { M_PLAIN, M_REDIRECT_NOW, M_REDIRECT_LATER, M_REDIRECT_ROUTE, M_N };
struct St {
    Mesh m;
    kvec<r::address_ptr_t> addr; // [0, n) main addresses of the actors, [n, 2n) further ones
    kvec<kvec<int>> subs;        // address -> slots
    kvec<bool> asked;            // slot: told to stop
    kvec<Rec *> recs;
    int pending = 0;
    int n = 0;
};
St *S;
bool has(const kvec<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
int index_of(const r::address_ptr_t &a) {
    for (int i = 0; i < int(S->addr.size()); ++i)
        if (S->addr[size_t(i)].get() == a.get())
            return i;
    return -1;
}
Rec *make_rec(int id, int main, int next, int ttl, int mode, int slow) {
    sim::NoPreempt np;
    auto *r = new (malloc(sizeof(Rec))) Rec();
    r->main = main;
    r->next = next == main ? -1 : next;
    r->ttl = ttl;
    r->mode = mode;
    r->slow = slow;
    r->sent = sim::now();
    // only the sole recipient may capture a message
    if (mode != M_PLAIN && S->subs[size_t(main)].size() != 1)
        r->mode = M_PLAIN;
    while (int(S->recs.size()) <= id)
        S->recs.push_back(nullptr);
    S->recs[size_t(id)] = r;
    sim::obs("route", id, main, next);
    return r;
}
int new_id() {
    sim::NoPreempt np;
    S->recs.push_back(nullptr);
    return int(S->recs.size()) - 1;
}

struct act_t : sact_t {
    using sact_t::sact_t;
    struct Held {
        r::request_id_t timer;
        int id;
        r::message_ptr_t msg;
    };
    std::vector<Held> held;

    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &am) {
            auto a = am.create_address();
            sim::NoPreempt np;
            while (int(S->addr.size()) <= tag * 2 + 1)
                S->addr.push_back({});
            S->addr[size_t(tag * 2 + 1)] = a;
        });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            for (int i = 0; i < int(S->subs.size()); ++i)
                if (has(S->subs[size_t(i)], tag))
                    p.subscribe_actor(&act_t::on_msg, S->addr[size_t(i)]);
        });
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        auto &c = m.payload;
        if (c.op == 1) {
            emit(c.a, c.b, c.c, c.d & 7, c.d >> 3);
            S->pending--;
        } else if (c.op == 2)
            do_shutdown();
    }
    void emit(int main, int next, int ttl, int mode, int slow) {
        int id = new_id();
        auto *r = make_rec(id, main, next, ttl, mode, slow);
        if (r->next >= 0)
            route<Body>(S->addr[size_t(main)], S->addr[size_t(r->next)], id);
        else
            send<Body>(S->addr[size_t(main)], id);
    }
    void on_msg(r::message_t<Body> &m) noexcept {
        Scope s(ent);
        int id = m.payload.id;
        CHECK_P(m.payload.check == (uint32_t(id) * 2654435761u ^ 0x5bd1e995u), "route/corrupt", "actor %d gets a corrupted message", tag);
        int at = index_of(m.address);
        auto *r = S->recs[size_t(id)];
        bool main = r && at == r->main;
        {
            sim::NoPreempt np;
            sim::obs("recv", id, tag, at);
            CHECK_P(r && at >= 0, "route/phantom", "actor %d gets message %d, which is unknown", tag, id);
            CHECK_P(main || (at == r->next && !r->captured), "route/address", "actor %d gets message %d on address %d, it was sent to %d and then %d%s", tag,
                    id, at, r->main, r->next, r->captured ? " (captured)" : "");
            CHECK_P(has(S->subs[size_t(at)], tag), "route/stranger", "actor %d gets message %d from address %d", tag, id, at);
            CHECK_P(!r->obj || r->obj == &m, "route/copied", "message %d comes as another object to actor %d", id, tag);
            r->obj = &m;
            if (main) {
                CHECK_P(!has(r->begun, tag), "route/twice", "actor %d handles message %d twice", tag, id);
                CHECK_P(!r->followed, "route/early", "message %d is handled by actor %d after it was forwarded to its next address", id, tag);
                r->begun.push_back(tag);
            } else {
                CHECK_P(!has(r->follow, tag), "route/follow-twice", "actor %d gets the follow-up of message %d twice", tag, id);
                r->follow.push_back(tag);
                r->followed = true;
                for (int x : S->subs[size_t(r->main)]) {
                    bool ok = has(r->done, x) || (S->asked[size_t(x)] && !has(r->begun, x));
                    CHECK_P(ok, "route/early", "message %d is forwarded although actor %d %s it (subscriber of its main address)", id, x,
                            has(r->begun, x) ? "still handles" : "has not handled");
                }
                sim::probe("followed");
            }
        }
        int slow = slows_us[(r->slow + tag) % int(sizeof slows_us / sizeof *slows_us)];
        if (slow)
            sim::sleep_ns(uint64_t(slow) * sim::US);
        else
            sim::yield();
        if (main && r->mode != M_PLAIN)
            return capture(m, *r);
        {
            sim::NoPreempt np;
            if (main)
                r->done.push_back(tag);
        }
        if (!main && r->ttl > 0 && r->follow.size() == 1)
            emit(r->next, r->main, r->ttl - 1, M_PLAIN, r->slow + 1);
    }
    void capture(r::message_t<Body> &m, Rec &r) {
        int id = m.payload.id;
        sim::probe("captured");
        if (r.mode == M_REDIRECT_LATER) {
            r.captured = true;
            auto t = start_timer(us(slows_us[r.slow % 6] + 5), *this, &act_t::on_later);
            held.push_back(Held{t, id, r::message_ptr_t(&m)});
            return;
        }
        forward(r::message_ptr_t(&m), id);
    }
    void forward(r::message_ptr_t msg, int id) {
        auto &r = *S->recs[size_t(id)];
        int to, next;
        {
            sim::NoPreempt np;
            to = (r.main + r.slow + 1) % int(S->addr.size());
            next = r.mode == M_REDIRECT_ROUTE ? (to + 1 + r.slow) % int(S->addr.size()) : -1;
            if (next == to)
                next = -1;
            r.stage++;
            r.main = to;
            r.next = next;
            r.mode = M_PLAIN;
            r.captured = false;
            r.begun.clear();
            r.done.clear();
        }
        redirect(std::move(msg), S->addr[size_t(to)], next >= 0 ? S->addr[size_t(next)] : r::address_ptr_t());
    }
    void on_later(r::request_id_t t, bool cancelled) noexcept {
        Scope s(ent);
        for (size_t i = 0; i < held.size(); ++i)
            if (held[i].timer == t) {
                auto h = std::move(held[i]);
                held.erase(held.begin() + long(i));
                if (cancelled)
                    S->recs[size_t(h.id)]->dropped = true;
                else
                    forward(std::move(h.msg), h.id);
                return;
            }
        FAIL("route/timer", "unknown timer");
    }
};

const char *op_names[] = {"", "subscribe(actor,address)", "actor-routes(actor,main,next,ttl+8*(mode+8*slow))", "thread-routes(thread,main,next,mode+8*slow)",
                          "stop-actor(actor)", "sleep(us)"};
enum { O_SUB = 1, O_ROUTE, O_FROUTE, O_STOP, O_SLEEP };
const char *pnames[sim::NPARAM] = {MESH_PNAMES, "foreign threads"};
enum { Q_FOR = P_USER };

void gen(Rng &g, Plan &pl) {
    gen_mesh(g, pl, 0x3f, 4, 1, 3);
    pl.p[Q_FOR] = g.range(0, MAXX);
    int subs = g.range(1, 14);
    int hot = g.range(0, 31);
    for (int i = 0; i < subs; ++i)
        pl.ops.push_back(Op{O_SUB, g.range(0, 99), g.one_in(2) ? hot : g.range(0, 99), 0, 0});
    int ops = g.range(2, 16);
    for (int i = 0; i < ops; ++i) {
        Op o;
        int main = g.one_in(2) ? hot : g.range(0, 99);
        int mode = g.one_in(3) ? g.range(1, M_N - 1) : 0;
        switch (g.below(10)) {
        default:
            o = Op{O_ROUTE, g.range(0, 99), main, g.range(0, 99), (g.one_in(3) ? g.range(0, 4) : 0) + 8 * (mode + 8 * g.range(0, 7))};
            break;
        case 5:
        case 6:
        case 7:
            o = Op{O_FROUTE, g.range(0, 2), main, g.range(0, 99), mode + 8 * g.range(0, 7)};
            break;
        case 8:
            o = Op{O_SLEEP, g.pick({1, 20, 300, 5000, 100000}), 0, 0, 0};
            break;
        case 9:
            o = g.one_in(2) ? Op{O_STOP, g.range(0, 99), 0, 0, 0} : Op{O_SLEEP, g.pick({1, 50}), 0, 0, 0};
        }
        pl.ops.push_back(o);
    }
}

bool settled(Rec &r, bool complain, int id) {
    if (r.dropped)
        return true;
    bool excused = false;
    for (int x : S->subs[size_t(r.main)]) {
        if (S->asked[size_t(x)]) {
            excused |= r.mode != M_PLAIN && !has(r.done, x);
            continue;
        }
        if (r.mode != M_PLAIN) {
            if (complain)
                FAIL("route/lost", "message %d, sent to address %d, was not handled by actor %d", id, r.main, x);
            return false;
        }
        if (!has(r.done, x)) {
            if (complain)
                FAIL("route/lost", "message %d, sent to address %d, was not handled by actor %d within 30 simulated seconds", id, r.main, x);
            return false;
        }
    }
    if (excused || r.next < 0)
        return true;
    for (int x : S->subs[size_t(r.next)])
        if (!S->asked[size_t(x)] && !has(r.follow, x)) {
            if (complain)
                FAIL("route/no-follow-up",
                     "message %d was not forwarded from address %d to actor %d (address %d) within 30 simulated seconds; the main address has %d subscribers", id,
                     r.main, x, r.next, int(S->subs[size_t(r.main)].size()));
            return false;
        }
    return true;
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    auto &m = S->m;
    m.max_actors = 12;
    m.factory = [](r::supervisor_t &sup, int tag) -> r::intrusive_ptr_t<r::actor_base_t> {
        auto a = sup.create_actor<act_t>().tag(tag).timeout(ms(LONG_MS)).finish();
        while (int(S->addr.size()) <= tag * 2 + 1)
            S->addr.push_back({});
        S->addr[size_t(tag * 2)] = a->get_address();
        return a;
    };
    m.build(pl);
    int n = S->n = m.n();
    int na = 2 * n;
    S->subs.resize(size_t(na));
    S->asked.resize(size_t(n));
    for (auto &o : pl.ops)
        if (o.k == O_SUB && !has(S->subs[size_t(o.b % na)], o.a % n))
            S->subs[size_t(o.b % na)].push_back(o.a % n);
    m.start();
    if (!m.wait_started())
        FAIL("route/never-started", "not all actors became operational");

    auto froute = [na](const Op &o) {
        int id = new_id();
        int main = o.b % na;
        auto *r = make_rec(id, main, o.c % na, 0, o.d & 7, o.d >> 3);
        auto &a = S->addr[size_t(main)];
        auto msg = r->next >= 0 ? r::make_routed_message<Body>(a, S->addr[size_t(r->next)], id) : r::make_message<Body>(a, id);
        a->supervisor.enqueue(std::move(msg));
    };
    static kvec<Op> fops[MAXX];
    kvec<int> ff;
    int nf = pl.p[Q_FOR];
    for (auto &o : pl.ops)
        if (o.k == O_FROUTE && nf)
            fops[o.a % nf].push_back(o);
    for (int x = 1; x < nf; ++x)
        ff.push_back(sim::spawn(x == 1 ? "foreign1" : "foreign2", [x, froute] {
            for (auto &o : fops[x]) {
                froute(o);
                if (o.b & 1)
                    sim::sleep_ns(sim::rnd(3000) * sim::US);
            }
        }));
    for (auto &o : pl.ops) {
        sim::yield();
        switch (o.k) {
        case O_ROUTE: {
            int a = o.a % n;
            if (S->asked[size_t(a)])
                break;
            S->pending++;
            m.tell<Cmd>(a, Cmd{1, o.b % na, o.c % na, o.d & 7, o.d >> 3});
            break;
        }
        case O_FROUTE:
            if (nf && o.a % nf == 0)
                froute(o);
            break;
        case O_STOP: {
            int a = o.a % n;
            if (S->asked[size_t(a)])
                break;
            // what it was told to do comes first
            sim::wait_for([] { return S->pending == 0; }, 100 * sim::SEC);
            S->asked[size_t(a)] = true;
            sim::probe("fault:subscriber-stops");
            m.tell<Cmd>(a, Cmd{2, 0, 0, 0, 0});
            break;
        }
        case O_SLEEP:
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            break;
        }
    }
    sim::faults_off();
    bool ok = sim::wait_for(
        [&] {
            for (int f : ff)
                if (!sim::done(f))
                    return false;
            return S->pending == 0;
        },
        100 * sim::SEC);
    CHECK_P(ok, "route/stuck", "%d commands were not executed", S->pending);
    size_t last = 0;
    ok = sim::wait_for(
        [&] {
            bool grown = S->recs.size() != last;
            last = S->recs.size();
            for (size_t i = 0; i < S->recs.size(); ++i)
                if (S->recs[i] && !settled(*S->recs[i], false, int(i)))
                    return false;
            return !grown;
        },
        30 * sim::SEC, 20 * sim::MS);
    if (!ok)
        for (size_t i = 0; i < S->recs.size(); ++i)
            if (S->recs[i])
                settled(*S->recs[i], true, int(i));
    sim::sleep_ns(300 * sim::MS); // time for what should not come
    sim::probe("routed", S->recs.size());
    S->m.nodes = m.nodes;
    check_destroyed();
    shutdown_and_join(m.nodes, "route/no-shutdown", 500 * sim::SEC);
    S->addr.clear();
    m.slots.clear();
    m.sups.clear();
    destroy_all(m.nodes);
}
sim::Reg r1({"C14", "routes", gen, run, op_names, pnames, 1, false});
} // namespace
