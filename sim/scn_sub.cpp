// C03: subscriptions made and withdrawn at run time (also from within the handlers of the very message), by actors of
// any loops, on addresses of any loops, while actors and foreign threads publish and actors shut down.
#include "mesh.h"
using namespace rs;

namespace {
enum { MAXX = 3, NK = 7, K_DUP = 5, K_CFG = 6, K_PLG = 7 };
struct BodyA {
    int id;
    explicit BodyA(int i) : id(i) {}
};
struct BodyC {
    int id;
    explicit BodyC(int i) : id(i) {}
};
using MA = r::message_t<BodyA>;
using MC = r::message_t<BodyC>;
bool type_c(int k) { return k == 3 || k == K_DUP; }
struct Cmd {
    int op, addr, k, style;
};
enum { I_NONE, I_SUB, I_UNSUB, I_RESUB, I_STOP, I_PUB, I_N };
struct Inst { // one subscription
    int actor, addr, k;
    const r::handler_base_t *h0 = nullptr;
    r::subscription_info_ptr_t info;
    uint64_t made = 0, conf = 0, unsub = 0, gone = 0;
};
struct Hit {
    int actor, k, count;
};
struct Rec { // one publication
    int addr;
    bool c;
    int iop, ik, istyle; // what the first actor, which gets it, does
    bool idone = false;
    uint64_t at = 0;
    kvec<Hit> hits;
};
struct St {
    Mesh m;
    kvec<r::address_ptr_t> addr; // main address of actor i: 2i, the further one: 2i+1
    kvec<kvec<int>> cfg;         // actor -> addresses subscribed to upon configuration
    kvec<kvec<int>> plg;         // actor -> addresses its plugin subscribes to upon start
    kvec<bool> asked;
    kvec<Inst *> insts;
    kvec<Rec *> recs;
    int pending = 0;
    uint64_t seq = 0;
    int n = 0;
};
St *S;
int index_of(const r::address_ptr_t &a) {
    for (int i = 0; i < int(S->addr.size()); ++i)
        if (S->addr[size_t(i)].get() == a.get())
            return i;
    return -1;
}
int new_rec(int addr, bool c, int iop, int ik, int istyle) {
    sim::NoPreempt np;
    auto *r = new (malloc(sizeof(Rec))) Rec();
    r->addr = addr;
    r->c = c;
    r->iop = iop;
    r->ik = ik;
    r->istyle = istyle;
    r->at = ++S->seq;
    S->recs.push_back(r);
    int id = int(S->recs.size()) - 1;
    sim::obs("publish", id, addr, c);
    return id;
}
Inst *live(int actor, int addr, int k) { // made and not asked to withdraw
    for (size_t i = S->insts.size(); i-- > 0;) {
        auto *x = S->insts[i];
        if (x->actor == actor && x->addr == addr && x->k == k && !x->unsub && !x->gone)
            return x;
    }
    return nullptr;
}

struct watch_plugin_t : r::plugin::plugin_base_t {
    static const std::type_index class_identity;
    const std::type_index &identity() const noexcept override { return class_identity; }
    int tag = -1;
    void activate(r::actor_base_t *a) noexcept override;
    bool handle_subscription(r::message::subscription_t &m) noexcept override {
        sim::NoPreempt np;
        for (auto *x : S->insts)
            if (x->actor == tag && (x->h0 == m.payload.point.handler.get())) {
                if (x->conf)
                    continue;
                x->conf = ++S->seq;
                sim::obs("confirmed", tag, x->addr, x->k);
                break;
            }
        return false;
    }
    bool handle_unsubscription(const r::subscription_point_t &p, bool external) noexcept override {
        Inst *who = nullptr;
        Inst *y = nullptr;
        {
        sim::NoPreempt np;
        for (auto *x : S->insts)
            if (x->actor == tag && S->addr[size_t(x->addr)].get() == p.address.get() &&
                (x->h0 == p.handler.get() || (x->info && x->info->handler.get() == p.handler.get())))
                who = x;
        if (!who)
            return false;
        for (auto *x : S->insts)
            if (x->actor == tag && x->addr == who->addr && x->k == who->k && !x->gone && (x->unsub || S->asked[size_t(tag)])) {
                y = x;
                break;
            }
        CHECK_P(y, "sub/wrong-withdrawal", "actor %d: its subscription of handler %d to address %d is withdrawn, nobody asked for it", tag, who->k, who->addr);
        y->gone = ++S->seq;
        sim::obs("withdrawn", tag, y->addr, y->k);
        }
        return who->k == K_PLG && plugin_base_t::handle_unsubscription(p, external);
    }
    void handle_start(r::message::start_trigger_t *) noexcept override;
    void on_p(MA &m) noexcept;
};
const std::type_index watch_plugin_t::class_identity = typeid(watch_plugin_t);

struct act_t : sact_t {
    using sact_t::sact_t;
    using plugins_list_t =
        std::tuple<r::plugin::address_maker_plugin_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t, r::plugin::link_server_plugin_t,
                   r::plugin::link_client_plugin_t, r::plugin::registry_plugin_t, r::plugin::resources_plugin_t, r::plugin::starter_plugin_t, watch_plugin_t>;

    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &am) {
            auto a = am.create_address();
            sim::NoPreempt np;
            while (int(S->addr.size()) <= tag * 2 + 1)
                S->addr.push_back({});
            S->addr[size_t(tag * 2 + 1)] = a;
        });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            for (int a : S->cfg[size_t(tag)])
                made(a, K_CFG, false, p.subscribe_actor(&act_t::on_e, S->addr[size_t(a)]));
        });
    }
    void started() noexcept override {
        sim::NoPreempt np;
        for (auto *x : S->insts)
            if (x->actor == tag && x->k == K_CFG && !x->conf)
                FAIL("sub/unconfirmed", "actor %d starts while its configured subscription to address %d is not confirmed", tag, x->addr);
    }
    void stopped() noexcept override {
        for (size_t i = 0; i < S->insts.size(); ++i) { // (others add to it while a reference is dropped)
            auto *x = S->insts[i];
            if (x->actor == tag)
                x->info.reset(); // (it refers to the actor)
        }
    }
    Inst *made(int addr, int k, bool tag_io, const r::subscription_info_ptr_t &info) {
        // (the confirmation cannot be processed before the end of the current handler)
        Inst *x;
        {
            sim::NoPreempt np;
            x = new (malloc(sizeof(Inst))) Inst();
            x->actor = tag;
            x->addr = addr;
            x->k = k;
            x->info = info;
            x->h0 = info->handler.get();
            x->made = ++S->seq;
            S->insts.push_back(x);
            sim::obs("subscribe", tag, addr, k);
        }
        if (tag_io)
            info->tag_io();
        return x;
    }
    auto lambda(int k) {
        return r::lambda<MA>([this, k](MA &m) { got(m.payload.id, m.address, k, false); });
    }
    void sub(int addr, int k, int style) {
        if (k == K_CFG)
            k = 0;
        if (k != K_DUP && live(tag, addr, k))
            return;
        auto &a = S->addr[size_t(addr)];
        bool tag_io = (style & 4) != 0;
        r::subscription_info_ptr_t info;
        uint64_t before = S->seq;
        switch (k) {
        case 0:
            info = subscribe(&act_t::on_a, a);
            break;
        case 1:
            info = subscribe(&act_t::on_b, a);
            break;
        case 2:
        case 4:
            info = subscribe(lambda(k), a);
            break;
        case 3:
            info = subscribe(&act_t::on_c, a);
            break;
        case K_DUP:
            info = subscribe(&act_t::on_d, a);
            break;
        }
        made(addr, k, tag_io, info)->made = before;
    }
    void unsub(int addr, int k, int style, bool any) {
        Inst *x = k == K_DUP ? nullptr : live(tag, addr, k);
        if (!x && any)
            for (size_t i = S->insts.size(); i-- > 0 && !x;)
                if (S->insts[i]->actor == tag && S->insts[i]->k != K_DUP && S->insts[i]->k != K_PLG && !S->insts[i]->unsub && !S->insts[i]->gone)
                    x = S->insts[i];
        if (!x)
            return;
        {
            sim::NoPreempt np;
            x->unsub = ++S->seq;
            sim::obs("unsubscribe", tag, x->addr, x->k);
            sim::probe("withdrawn");
        }
        auto &a = S->addr[size_t(x->addr)];
        bool own = a.get() == address.get();
        if (style & 1) {
            if (own && (style & 2))
                unsubscribe(x->info->handler);
            else
                lifetime->unsubscribe(x->info);
            return;
        }
        switch (x->k) {
        case 0:
            own ? unsubscribe(&act_t::on_a) : unsubscribe(&act_t::on_a, a);
            break;
        case 1:
            own ? unsubscribe(&act_t::on_b) : unsubscribe(&act_t::on_b, a);
            break;
        case 2:
        case 4:
            lifetime->unsubscribe(x->info->handler, a);
            break;
        case 3:
            own ? unsubscribe(&act_t::on_c) : unsubscribe(&act_t::on_c, a);
            break;
        case K_CFG:
            own ? unsubscribe(&act_t::on_e) : unsubscribe(&act_t::on_e, a);
            break;
        }
    }
    void act(int op, int addr, int k, int style) {
        if (st() != r::state_t::OPERATIONAL || S->asked[size_t(tag)])
            return;
        switch (op) {
        case I_SUB:
            sub(addr, k, style);
            break;
        case I_UNSUB:
            unsub(addr, k, style, true);
            break;
        case I_RESUB:
            unsub(addr, k, style, false);
            sub(addr, k, style);
            if (style & 8)
                unsub(addr, k, style, false);
            break;
        case I_STOP:
            S->asked[size_t(tag)] = true;
            sim::probe("fault:subscriber-stops");
            do_shutdown();
            break;
        case I_PUB:
            publish(addr, k & 1, I_NONE, 0, 0);
            break;
        }
    }
    void publish(int addr, bool c, int iop, int ik, int istyle) {
        int id = new_rec(addr, c, iop, ik, istyle);
        if (c)
            send<BodyC>(S->addr[size_t(addr)], id);
        else
            send<BodyA>(S->addr[size_t(addr)], id);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        auto &c = m.payload;
        if (c.op < I_N) {
            act(c.op, c.addr, c.k, c.style);
        } else {
            publish(c.addr, c.k & 1, (c.k >> 1) & 7, (c.k >> 4) & 7, c.style);
        }
        sim::NoPreempt np;
        S->pending--;
    }
    void got(int id, const r::address_ptr_t &a, int k, bool c) {
        Scope s(ent);
        Rec *r;
        {
            sim::NoPreempt np;
            r = S->recs[size_t(id)];
            int at = index_of(a);
            uint64_t now = ++S->seq;
            sim::obs("handle", id, tag, k);
            CHECK_P(r->addr == at && r->c == c, "sub/mixed-up", "publication %d on address %d comes to actor %d as from address %d", id, r->addr, tag, at);
            int can = 0, alive = 0;
            for (auto *x : S->insts) {
                if (x->actor != tag || x->addr != at || x->k != k)
                    continue;
                alive += !x->gone;
                can += x->made < now && (!x->gone || x->gone > r->at);
            }
            CHECK_P(can, "sub/stranger", "actor %d handles publication %d on address %d by handler %d, which %s", tag, id, at, k,
                    alive ? "is not subscribed yet" : "is not subscribed (any more)");
            CHECK_P(alive, "sub/ghost", "actor %d handles publication %d on address %d by handler %d after the withdrawal of that subscription was confirmed", tag, id,
                    at, k);
            Hit *h = nullptr;
            for (auto &y : r->hits)
                if (y.actor == tag && y.k == k)
                    h = &y;
            if (!h) {
                r->hits.push_back(Hit{tag, k, 0});
                h = &r->hits.back();
            }
            h->count++;
            CHECK_P(h->count <= can, "sub/duplicate", "publication %d on address %d is handled %d times by actor %d, handler %d, which has %d subscription(s)", id, at,
                    h->count, tag, k, can);
        }
        sim::yield();
        if (r->iop && !r->idone) {
            r->idone = true;
            sim::probe("from-handler");
            act(r->iop, (r->istyle & 16) ? (r->addr + 1) % int(S->addr.size()) : r->addr, r->ik, r->istyle);
        }
    }
    void on_a(MA &m) noexcept { got(m.payload.id, m.address, 0, false); }
    void on_b(MA &m) noexcept { got(m.payload.id, m.address, 1, false); }
    void on_c(MC &m) noexcept { got(m.payload.id, m.address, 3, true); }
    void on_d(MC &m) noexcept { got(m.payload.id, m.address, K_DUP, true); }
    void on_e(MA &m) noexcept { got(m.payload.id, m.address, K_CFG, false); }
};
void watch_plugin_t::activate(r::actor_base_t *a) noexcept {
    plugin_base_t::activate(a);
    tag = static_cast<act_t *>(a)->tag;
    reaction_on(reaction_t::SUBSCRIPTION);
    if (!S->plg.empty())
        reaction_on(reaction_t::START);
}
void watch_plugin_t::handle_start(r::message::start_trigger_t *) noexcept {
    reaction_off(reaction_t::START);
    if (S->plg.empty() || S->asked[size_t(tag)])
        return;
    for (int a : S->plg[size_t(tag)])
        static_cast<act_t *>(actor)->made(a, K_PLG, false, subscribe(&watch_plugin_t::on_p, S->addr[size_t(a)]));
}
void watch_plugin_t::on_p(MA &m) noexcept {
    CHECK_P(actor, "sub/ghost", "the plugin of actor %d handles a publication after the withdrawal of its subscriptions was confirmed", tag);
    static_cast<act_t *>(actor)->got(m.payload.id, m.address, K_PLG, false);
}

const char *op_names[] = {"", "configured-subscription(actor,address)", "command(actor,op,address,kind+8*style)",
                          "actor-publishes(actor,address,type+2*(op+8*kind),style)", "thread-publishes(thread,address,type+2*(op+8*kind),style)", "sleep(us)", "subscription-of-a-plugin(actor,address)"};
enum { O_CFG = 1, O_CMD, O_PUB, O_FPUB, O_SLEEP, O_PLG };
const char *pnames[sim::NPARAM] = {MESH_PNAMES, "foreign threads"};
enum { Q_FOR = P_USER };

void gen(Rng &g, Plan &pl) {
    gen_mesh(g, pl, 0x3f, 4, 1, 3);
    pl.p[Q_FOR] = g.range(0, MAXX);
    int hot = g.range(0, 31), hota = g.range(0, 31);
    int narrow = g.one_in(2); // few addresses, handlers and actors
    auto addr = [&] { return g.one_in(2) || narrow ? hot + 2 * g.range(0, 1) * g.range(0, 1) : g.range(0, 99); };
    auto actor = [&] { return narrow && g.one_in(2) ? hota : g.range(0, 99); };
    auto kind = [&] { return narrow ? g.pick({0, 0, 1, 2, 4}) : g.range(0, NK - 1); };
    int cfgs = g.range(0, 8);
    for (int i = 0; i < cfgs; ++i)
        pl.ops.push_back(Op{O_CFG, actor(), addr(), 0, 0});
    int plgs = g.one_in(2) ? g.range(1, 6) : 0;
    for (int i = 0; i < plgs; ++i)
        pl.ops.push_back(Op{O_PLG, actor(), addr(), 0, 0});
    int ops = g.range(3, 30);
    auto instr = [&]() -> int { return g.one_in(3) ? g.pick({I_SUB, I_SUB, I_UNSUB, I_RESUB, I_STOP, I_PUB}) : 0; };
    for (int i = 0; i < ops; ++i) {
        Op o;
        switch (g.below(12)) {
        case 0:
        case 1:
        case 2:
        case 3:
            o = Op{O_CMD, actor(), g.one_in(8) ? g.pick({I_RESUB, I_STOP}) : I_SUB, addr(), kind() + 8 * g.range(0, 31)};
            break;
        case 4:
        case 5:
            o = Op{O_CMD, actor(), g.one_in(2) ? I_UNSUB : I_RESUB, addr(), kind() + 8 * g.range(0, 31)};
            break;
        default:
            o = Op{O_PUB, g.range(0, 99), addr(), (g.one_in(3) ? 1 : 0) + 2 * (instr() + 8 * kind()), g.range(0, 31)};
            break;
        case 9:
        case 10:
            o = Op{O_FPUB, g.range(0, 2), addr(), (g.one_in(3) ? 1 : 0) + 2 * (instr() + 8 * kind()), g.range(0, 31)};
            break;
        case 11:
            o = Op{O_SLEEP, g.pick({1, 20, 300, 5000, 100000}), 0, 0, 0};
        }
        pl.ops.push_back(o);
    }
}

bool settled(bool complain) {
    for (auto *x : S->insts) {
        if (S->asked[size_t(x->actor)])
            continue;
        if (!x->unsub && !x->conf) {
            if (complain)
                FAIL("sub/unconfirmed", "the subscription of actor %d, handler %d, to address %d is not confirmed within 30 simulated seconds", x->actor, x->k, x->addr);
            return false;
        }
        if (x->unsub && !x->gone) {
            if (complain)
                FAIL("sub/withdrawal-unconfirmed", "the withdrawal of the subscription of actor %d, handler %d, to address %d is not confirmed within 30 simulated seconds",
                     x->actor, x->k, x->addr);
            return false;
        }
    }
    for (size_t id = 0; id < S->recs.size(); ++id) {
        auto &r = *S->recs[id];
        for (auto *x : S->insts) {
            if (x->addr != r.addr || type_c(x->k) != r.c || S->asked[size_t(x->actor)])
                continue;
            int must = 0;
            for (auto *y : S->insts)
                must += y->actor == x->actor && y->addr == x->addr && y->k == x->k && y->conf && y->conf < r.at && !y->unsub && !y->gone;
            int have = 0;
            for (auto &h : r.hits)
                if (h.actor == x->actor && h.k == x->k)
                    have = h.count;
            if (have < must) {
                if (complain)
                    FAIL("sub/lost", "publication %d on address %d was handled %d time(s) by actor %d, handler %d, which has %d subscription(s) confirmed before", int(id),
                         r.addr, have, x->actor, x->k, must);
                return false;
            }
        }
    }
    return true;
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    auto &m = S->m;
    m.max_actors = 8;
    m.factory = [](r::supervisor_t &sup, int tag) -> r::intrusive_ptr_t<r::actor_base_t> {
        auto a = sup.create_actor<act_t>().tag(tag).timeout(ms(LONG_MS)).finish();
        while (int(S->addr.size()) <= tag * 2 + 1)
            S->addr.push_back({});
        S->addr[size_t(tag * 2)] = a->get_address();
        return a;
    };
    for (auto &o : pl.ops)
        if (o.k == O_PLG)
            S->plg.resize(size_t(m.max_actors * 8));
    m.build(pl);
    int n = S->n = m.n();
    int na = 2 * n;
    S->cfg.resize(size_t(n));
    S->asked.resize(size_t(n));
    for (auto &o : pl.ops)
        if (o.k == O_CFG) {
            auto &v = S->cfg[size_t(o.a % n)];
            if (std::find(v.begin(), v.end(), o.b % na) == v.end())
                v.push_back(o.b % na);
        } else if (o.k == O_PLG) {
            auto &v = S->plg[size_t(o.a % n)];
            int a = o.b % na & ~1;
            if (std::find(v.begin(), v.end(), a) == v.end())
                v.push_back(a);
        }
    m.start();
    if (!m.wait_started())
        FAIL("sub/never-started", "not all actors became operational");

    auto fpub = [na](const Op &o) {
        int addr = o.b % na;
        int id = new_rec(addr, o.c & 1, (o.c >> 1) & 7, (o.c >> 4) & 7, o.d);
        auto &a = S->addr[size_t(addr)];
        a->supervisor.enqueue((o.c & 1) ? r::make_message<BodyC>(a, id) : r::make_message<BodyA>(a, id));
    };
    static kvec<Op> fops[MAXX];
    kvec<int> ff;
    int nf = pl.p[Q_FOR];
    for (auto &o : pl.ops)
        if (o.k == O_FPUB && nf)
            fops[o.a % nf].push_back(o);
    for (int x = 1; x < nf; ++x)
        ff.push_back(sim::spawn(x == 1 ? "foreign1" : "foreign2", [x, fpub] {
            for (auto &o : fops[x]) {
                fpub(o);
                if (o.d & 1)
                    sim::sleep_ns(sim::rnd(3000) * sim::US);
            }
        }));
    auto idle = [] { return S->pending == 0; };
    for (auto &o : pl.ops) {
        sim::yield();
        if (o.k == O_SLEEP) {
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            continue;
        }
        if (o.k == O_FPUB) {
            if (nf && o.a % nf == 0)
                fpub(o);
            continue;
        }
        if (o.k != O_CMD && o.k != O_PUB)
            continue;
        int a = o.a % n;
        if (S->asked[size_t(a)])
            continue;
        Cmd c = o.k == O_CMD ? Cmd{o.b, o.c % na, o.d & 7, o.d >> 3} : Cmd{I_N, o.b % na, o.c, o.d};
        if (c.op != I_N && c.k >= NK)
            c.k = 0;
        {
            sim::NoPreempt np;
            S->pending++;
        }
        m.tell<Cmd>(a, c);
        (void)idle;
    }
    sim::faults_off();
    // (an actor, which stops by a command within a publication, does not execute its further commands)
    bool ok = sim::wait_for(
        [&] {
            for (int f : ff)
                if (!sim::done(f))
                    return false;
            bool any = false;
            for (int i = 0; i < n; ++i)
                any |= S->asked[size_t(i)];
            return S->pending == 0 || any;
        },
        100 * sim::SEC);
    CHECK_P(ok, "sub/stuck", "%d commands were not executed", S->pending);
    if (S->pending)
        sim::sleep_ns(5 * sim::SEC);
    size_t last = 0;
    ok = sim::wait_for(
        [&] {
            bool grown = S->recs.size() != last;
            last = S->recs.size();
            return settled(false) && !grown;
        },
        30 * sim::SEC, 20 * sim::MS);
    if (!ok)
        settled(true);
    sim::sleep_ns(300 * sim::MS); // time for what should not come
    sim::probe("published", S->recs.size());
    for (int i = 0; i < n; ++i)
        S->asked[size_t(i)] = true;
    check_destroyed();
    shutdown_and_join(m.nodes, "sub/no-shutdown", 500 * sim::SEC);
    S->addr.clear();
    for (auto *x : S->insts)
        x->info.reset();
    m.slots.clear();
    m.sups.clear();
    destroy_all(m.nodes);
}
sim::Reg r1({"C03", "subscriptions", gen, run, op_names, pnames, 1, false});
} // namespace
