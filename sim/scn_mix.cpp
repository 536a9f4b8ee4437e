// C15 (and C04): every feature at once, and a shutdown which comes whenever it likes, with messages, requests, timers,
// discoveries, links, spawns and subscriptions in flight.  Nothing is checked but what holds for any run: no access to
// freed memory, no data race, everything ends, and the heap is as before when everybody has dropped his references.
#include "mesh.h"
#include <set>
#include <stdexcept>
using namespace rs;

namespace mixp {
struct Text {
    std::string text;
    int ttl;
};
struct Pub {
    std::string text;
};
struct Res {
    std::string text = "a response which does not fit into the string object itself";
};
struct Req {
    using response_t = Res;
    std::string text;
    int mode;
};
struct ResA : rotor::arc_base_t<ResA> {
    std::vector<int> data;
    explicit ResA(int n) : data(size_t(n), n) {}
    virtual ~ResA() = default;
};
struct ReqA : rotor::arc_base_t<ReqA> {
    using response_t = rotor::intrusive_ptr_t<ResA>;
    std::vector<int> data;
    int mode;
    explicit ReqA(int m) : data(7, m), mode(m) {}
    virtual ~ReqA() = default;
};
} // namespace mixp

namespace {
using namespace mixp;
using rq_t = r::request_traits_t<Req>::request::message_t;
using rs_t = r::request_traits_t<Req>::response::message_t;
using rqa_t = r::request_traits_t<ReqA>::request::message_t;
using rsa_t = r::request_traits_t<ReqA>::response::message_t;

enum { O_CFG = 1, O_TELL, O_REQ, O_TIMER, O_CANCEL, O_SUB, O_UNSUB, O_PUB, O_SPAWN, O_CREATE, O_ROUTE, O_ASK_REGISTRY, O_LINK,
       O_RELEASE, O_STOP, O_STOPSUP, O_SLEEP, O_N };
const char *op_names[] = {"", "configure(actor,what,target,x)", "tell(actor,to,count)", "request(actor,to,mode,timeout)",
                          "timer(actor,us,count)", "cancel-timer(actor)", "subscribe(actor,at)", "unsubscribe(actor,at)",
                          "publish(actor,at,count)", "spawn(actor,script,policy,pause_us)", "create-child(actor,life_us)",
                          "route(actor,main,next,capture)", "ask-registry(actor,what,name)", "link(actor,to,operational)",
                          "release(actor)", "stop(actor,how)", "stop-supervisor(sup)", "sleep(us)"};
enum { F_REGISTER, F_DISCOVER, F_DISCOVER_LINK, F_LINK, F_SUB, F_RES, F_TIMER, F_HOLD_UNLINK, F_REQUEST, F_PROMISE, F_N };
const char *pnames[sim::NPARAM] = {MESH_PNAMES, "last pause_us", "stop order", "policies(mask)", "registry", "stop without waiting for the start", "pause between nodes_us",
                                   "posts after the shutdown"};
enum { Q_PAUSE = P_USER, Q_ORDER, Q_POL, Q_REG, Q_NOW, Q_GAP, Q_AFTER };

struct Cmd {
    int op, a, b, c;
};
struct St {
    Mesh m;
    Plan *pl = nullptr;
    bool registry = false;
};
St *S;
r::address_ptr_t addr_of(int i) {
    auto &v = S->m.slots;
    return v.empty() ? r::address_ptr_t() : v[size_t(i) % v.size()].addr;
}
std::string long_text(int i) { return "some text which lives in the heap, number " + std::to_string(i); }
std::string name_of(int k) { return "service-of-the-mixed-scenario-" + std::to_string(k % 4); }

struct act_t : sact_t {
    using sact_t::sact_t;
    int life_us = -1;
    std::vector<r::request_id_t> timers;
    std::vector<r::message_ptr_t> kept;
    std::vector<r::intrusive_ptr_t<rq_t>> pending;
    std::set<const void *> subs;
    r::address_ptr_t found[4];
    r::address_ptr_t second;
    bool held = false;
    std::set<int> linked;
    r::plugin::resources_plugin_t *res = nullptr;
    r::plugin::link_client_plugin_t *lc = nullptr;

    template <class F> void cfg(int what, F &&f) {
        for (auto &o : S->pl->ops)
            if (o.k == O_CFG && o.a == tag && tag >= 0 && o.b == what)
                f(o);
    }
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &) { second = create_address(); });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_text);
            p.subscribe_actor(&act_t::on_text, second);
            p.subscribe_actor(&act_t::on_rq);
            p.subscribe_actor(&act_t::on_rqa);
            p.subscribe_actor(&act_t::on_rs);
            p.subscribe_actor(&act_t::on_rsa);
            p.subscribe_actor(&act_t::on_discovery);
            p.subscribe_actor(&act_t::on_future);
            cfg(F_SUB, [&](const Op &o) {
                if (o.c % std::max(1, tag) < tag)
                    sub(o.c % std::max(1, tag));
            });
        });
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            if (!S->registry)
                return;
            std::set<std::string> mine, wanted; // once each
            cfg(F_REGISTER, [&](const Op &o) {
                if (mine.insert(name_of(o.c)).second)
                    p.register_name(name_of(o.c), address);
            });
            int n = 0;
            auto disc = [&](const Op &o, bool link) {
                auto name = name_of(o.c + tag);
                for (auto &q : S->pl->ops) // a discovery links, and links are not to make cycles
                    if (q.k == O_CFG && q.b == F_REGISTER && q.a >= tag && name_of(q.c) == name)
                        return;
                if (n >= 4 || !wanted.insert(name).second)
                    return;
                auto &t = p.discover_name(name, found[n++], o.d & 1);
                if (link)
                    t.link(o.d & 2);
            };
            cfg(F_DISCOVER, [&](const Op &o) { disc(o, false); });
            cfg(F_DISCOVER_LINK, [&](const Op &o) { disc(o, true); });
        });
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            lc = &p;
            cfg(F_HOLD_UNLINK, [&](const Op &o) {
                p.on_unlink([this](r::message::unlink_request_t &m) {
                    kept.emplace_back(&m);
                    lc->forget_link(m);
                    return true;
                });
            });
            cfg(F_LINK, [&](const Op &o) {
                if (tag > 0)
                    link_to(o.c % tag, o.d & 1);
            });
        });
        p.with_casted<r::plugin::resources_plugin_t>(
            [&](auto &p) {
                res = &p;
                cfg(F_RES, [&](const Op &o) {
                    p.acquire(r::plugin::resource_id_t(o.c % 3));
                    timers.push_back(start_timer(us(o.d + 1), *this, &act_t::on_res));
                    held = true;
                });
                cfg(F_TIMER, [&](const Op &o) { timers.push_back(start_timer(us(o.d), *this, &act_t::on_timer)); });
                cfg(F_REQUEST, [&](const Op &o) { ask(o.c, o.d, 50000); });
            },
            r::plugin::config_phase_t::INITIALIZING);
    }
    void link_to(int to, bool operational) { // once; and not where a discovery may have linked already
        bool discovers = false;
        cfg(F_DISCOVER, [&](const Op &) { discovers = true; });
        cfg(F_DISCOVER_LINK, [&](const Op &) { discovers = true; });
        if (!discovers && linked.insert(to).second)
            lc->link(addr_of(to), operational, [](auto &) {});
    }
    void drop() {
        if (res)
            for (r::plugin::resource_id_t i = 0; i < 3; ++i)
                while (res->has(i))
                    res->release(i);
    }
    void on_res(r::request_id_t id, bool cancelled) noexcept {
        Scope s(ent);
        timers.erase(std::remove(timers.begin(), timers.end(), id), timers.end());
        if (!cancelled)
            drop();
    }
    void stopping() noexcept override { start_timer(us(20), *this, &act_t::on_last); }
    void on_last(r::request_id_t, bool) noexcept {
        Scope s(ent);
        drop();
    }
    void started() noexcept override {
        if (life_us >= 0)
            start_timer(us(life_us), *this, &act_t::on_life);
        cfg(F_PROMISE, [&](const Op &o) { registry_op(1 + o.d % 2, o.c); });
    }
    void on_life(r::request_id_t, bool cancelled) noexcept {
        Scope s(ent);
        if (!cancelled)
            (life_us & 1) ? do_shutdown() : do_shutdown(make_error(r::make_error_code(r::error_code_t::request_timeout)));
    }
    void on_timer(r::request_id_t id, bool cancelled) noexcept {
        Scope s(ent);
        timers.erase(std::remove(timers.begin(), timers.end(), id), timers.end());
        sim::probe(cancelled ? "timer-cancelled" : "timer-expired");
        if (!cancelled && !S->m.slots.empty())
            send<Text>(addr_of(int(sim::rnd(uint32_t(S->m.slots.size())))), long_text(1), 1);
    }
    void sub(int at) {
        auto a = addr_of(at);
        if (a && subs.insert(a.get()).second)
            subscribe(&act_t::on_pub, a);
    }
    void ask(int to, int mode, int timeout_us) {
        auto a = addr_of(to);
        if (!a)
            return;
        sim::probe("requests");
        r::request_id_t id;
        if (mode & 8)
            id = request<ReqA>(a, mode & 7).send(us(timeout_us));
        else
            id = request<Req>(a, Req{long_text(mode), mode & 7}).send(us(timeout_us));
        (void)id;
    }
    void registry_op(int what, int name) {
        auto &reg = supervisor->get_registry_address();
        if (!reg)
            return;
        sim::probe("registry-operations");
        switch (what % 5) {
        case 0:
            request<r::payload::registration_request_t>(reg, "second-" + name_of(name), second).send(ms(200));
            break;
        case 1:
            request<r::payload::discovery_request_t>(reg, name_of(name)).send(ms(200));
            break;
        case 2:
            promise = request<r::payload::discovery_promise_t>(reg, name_of(name)).send(ms(3000));
            break;
        case 3:
            send<r::payload::deregistration_notify_t>(reg, second);
            break;
        default:
            if (promise)
                send<r::message::discovery_cancel_t::payload_t>(reg, promise, address);
            promise = 0;
        }
    }
    r::request_id_t promise = 0;
    void on_discovery(r::message::discovery_response_t &m) noexcept {
        Scope s(ent);
        if (!m.payload.ee)
            found[0] = m.payload.res.service_addr;
    }
    void on_future(r::message::discovery_future_t &m) noexcept {
        Scope s(ent);
        promise = 0;
        if (!m.payload.ee)
            found[1] = m.payload.res.service_addr;
    }
    void on_text(r::message_t<Text> &m) noexcept {
        Scope s(ent);
        sim::probe("texts");
        if (m.payload.ttl > 3 && kept.size() < 20)
            kept.emplace_back(&m); // captured until the end
        else if (m.payload.ttl > 0 && !S->m.slots.empty())
            send<Text>(addr_of(int(sim::rnd(uint32_t(S->m.slots.size())))), long_text(m.payload.ttl), m.payload.ttl - 1);
    }
    void on_pub(r::message_t<Pub> &) noexcept {
        Scope s(ent);
        sim::probe("publications");
    }
    template <class M> void answer(M &m, int mode) {
        sim::probe("request-handled");
        switch (mode) {
        case 0:
            good(m);
            break;
        case 1:
            reply_with_error(m, make_error(std::make_error_code(std::errc::io_error)));
            break;
        case 2:
            good(m);
            good(m);
            break;
        case 3:
            kept.emplace_back(&m);
            break;
        case 4:
            good(m);
            do_shutdown();
            break;
        default:
            break;
        }
    }
    void good(rq_t &m) { reply_to(m); }
    void good(rqa_t &m) { reply_to(m, 3); }
    void on_rq(rq_t &m) noexcept {
        Scope s(ent);
        if (m.payload.request_payload.mode == 5)
            pending.emplace_back(&m), start_timer(us(300), *this, &act_t::on_later);
        else
            answer(m, m.payload.request_payload.mode);
    }
    void on_later(r::request_id_t, bool cancelled) noexcept {
        Scope s(ent);
        auto m = pending.front();
        pending.erase(pending.begin());
        if (!cancelled)
            reply_to(*m);
    }
    void on_rqa(rqa_t &m) noexcept {
        Scope s(ent);
        answer(m, m.payload.request_payload->mode);
    }
    void on_rs(rs_t &m) noexcept {
        Scope s(ent);
        sim::probe(m.payload.ee ? "request-failed" : "request-answered");
        if (m.payload.ee && kept.size() < 20)
            kept.emplace_back(&m);
    }
    void on_rsa(rsa_t &) noexcept { Scope s(ent); }
    void on_cmd(r::message_t<Cmd> &m) noexcept;
    void stopped() noexcept override {
        if (tag % 3 == 1)
            kept.clear();
    }
};

void act_t::on_cmd(r::message_t<Cmd> &m) noexcept {
    Scope s(ent);
    auto c = m.payload;
    switch (c.op) {
    case O_TELL:
        for (int i = 0; i < c.b; ++i)
            send<Text>(addr_of(c.a + i), long_text(i), (c.a + i) % 6);
        break;
    case O_REQ:
        ask(c.a, c.b, c.c);
        break;
    case O_TIMER:
        for (int i = 0; i < c.b; ++i)
            timers.push_back(start_timer(us(c.a * (i + 1)), *this, &act_t::on_timer));
        break;
    case O_CANCEL:
        if (!timers.empty()) {
            auto t = timers[timers.size() / 2];
            cancel_timer(t);
        }
        break;
    case O_SUB:
        sub(c.a);
        break;
    case O_UNSUB: {
        auto a = addr_of(c.a);
        if (subs.erase(a.get()))
            unsubscribe(&act_t::on_pub, a);
        break;
    }
    case O_PUB:
        for (int i = 0; i < c.b; ++i)
            send<Pub>(addr_of(c.a), long_text(i));
        break;
    case O_SPAWN: {
        auto script = c.a;
        auto n = std::make_shared<int>(0);
        supervisor
            ->spawn([script, n](r::supervisor_t &sp, const r::address_ptr_t &ad) {
                int k = (script >> (2 * (*n)++ % 12)) & 3;
                if (k == 3)
                    throw W->thrown = true, std::runtime_error("scripted");
                auto a = sp.create_actor<act_t>().tag(-1).timeout(ms(LONG_MS)).spawner_address(ad).finish();
                static_cast<act_t *>(a.get())->life_us = k == 0 ? -1 : 100 * k;
                sim::probe("instances");
                return r::actor_ptr_t(a);
            })
            .restart_policy(r::restart_policy_t(c.b % 5))
            .restart_period(us(c.c))
            .max_attempts(size_t(1 + script % 4))
            .escalate_failure(script & 16)
            .spawn();
        break;
    }
    case O_CREATE: {
        auto a = supervisor->create_actor<act_t>().tag(-1).timeout(ms(LONG_MS)).finish();
        a->life_us = c.a;
        break;
    }
    case O_ROUTE:
        route<Text>(addr_of(c.a), c.c & 2 ? second : addr_of(c.b), long_text(c.a), c.c & 1 ? 5 : 1);
        break;
    case O_ASK_REGISTRY:
        registry_op(c.a, c.b);
        break;
    case O_LINK:
        if (lc && c.a % S->m.n() < tag && state < r::state_t::SHUTTING_DOWN) // a link made while shutting down is misuse
            link_to(c.a % S->m.n(), c.b & 1);
        break;
    case O_RELEASE:
        drop();
        break;
    case O_STOP:
        c.a & 1 ? do_shutdown() : do_shutdown(make_error(std::make_error_code(std::errc::io_error)));
        break;
    }
}

void gen(Rng &g, Plan &pl) {
    gen_mesh(g, pl, 63, 4, 2, 2);
    pl.p[Q_PAUSE] = g.pick({0, 0, 50, 1000, 20000, 500000});
    pl.p[Q_ORDER] = g.range(0, 5);
    pl.p[Q_POL] = g.one_in(2) ? 4095 : int(g.below(4096));
    pl.p[Q_REG] = g.one_in(2);
    pl.p[Q_NOW] = g.one_in(4);
    pl.p[Q_GAP] = g.pick({0, 10, 1000, 100000});
    pl.p[Q_AFTER] = g.range(0, 3);
    int nc = g.range(0, 10);
    for (int i = 0; i < nc; ++i)
        pl.ops.push_back({O_CFG, g.range(0, 11), g.range(0, F_N - 1), g.range(0, 20), g.pick({0, 1, 2, 3, 100, 5000, 8})});
    int n = g.range(0, 30);
    for (int i = 0; i < n; ++i) {
        Op o{g.range(O_TELL, O_SLEEP), g.range(0, 99), 0, 0, 0};
        if (g.one_in(3))
            o.k = g.pick({int(O_TELL), int(O_REQ), int(O_SLEEP)});
        if ((o.k == O_STOP || o.k == O_STOPSUP) && !g.one_in(3))
            o.k = O_TELL;
        switch (o.k) {
        case O_REQ:
            o.b = g.range(0, 99), o.c = g.range(0, 15), o.d = g.pick({1, 200, 20000, 1000000});
            break;
        case O_TIMER:
            o.b = g.pick({0, 1, 100, 3000, 200000}), o.c = g.range(1, 4);
            break;
        case O_SPAWN:
            o.b = int(g.below(1 << 20)), o.c = g.range(0, 4), o.d = g.pick({1, 100, 10000});
            break;
        case O_CREATE:
            o.b = g.pick({-1, 0, 1, 500, 501});
            break;
        case O_SLEEP:
            o.a = g.pick({1, 20, 300, 5000, 100000});
            break;
        default:
            o.b = g.range(0, 99), o.c = g.range(0, 6), o.d = g.range(0, 3);
        }
        pl.ops.push_back(o);
    }
}

void run(Plan &pl) {
    world_init();
    W->on_error = [](auto &) { return true; };
    S = new (malloc(sizeof(St))) St();
    S->pl = &pl;
    S->registry = pl.p[Q_REG];
    auto &m = S->m;
    m.max_actors = 12;
    int nsup = 0;
    r::address_ptr_t reg;
    m.tune = [&](SupOpts &o, int node, int level) {
        if (S->registry && node == 0 && level == 0)
            o.registry = true;
        if (S->registry && node > 0 && level == 0)
            o.registry_addr = m.sups[0]->sup()->get_registry_address();
        if ((pl.p[Q_POL] >> (nsup % 12)) & 1)
            o.policy = r::supervisor_policy_t::shutdown_failed;
        ++nsup;
    };
    m.factory = [](r::supervisor_t &sup, int tag) -> r::intrusive_ptr_t<r::actor_base_t> {
        return sup.create_actor<act_t>().tag(tag).timeout(ms(LONG_MS)).finish();
    };
    m.build(pl);
    m.start();
    if (!pl.p[Q_NOW])
        sim::wait_for([] {
            for (auto &e : W->ents)
                if (!(e.seen & ((1u << int(Cb::start)) | (1u << int(Cb::shutdown_start)))))
                    return false;
            return true;
        }, 2 * sim::SEC, 50 * sim::US);
    int n = m.n();
    for (auto &o : pl.ops) {
        sim::yield();
        switch (o.k) {
        case O_CFG:
            break;
        case O_SLEEP:
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            break;
        case O_STOPSUP:
            sim::probe("fault:supervisor-stopped");
            m.sups[size_t(o.a) % m.sups.size()]->sup()->shutdown();
            break;
        case O_STOP:
            sim::probe("fault:actor-stopped"); // fall through
        default:
            if (n)
                m.tell<Cmd>(o.a % n, Cmd{o.k, o.b, o.c, o.d});
        }
    }
    if (pl.p[Q_PAUSE])
        sim::sleep_ns(uint64_t(pl.p[Q_PAUSE]) * sim::US);
    sim::faults_off();
    // the nodes go down one after another
    int nn = int(m.nodes.size());
    for (int i = 0; i < nn; ++i) {
        int k = (i + pl.p[Q_ORDER]) % nn;
        if (pl.p[Q_ORDER] >= 3)
            k = nn - 1 - k;
        m.nodes[size_t(k)]->root->shutdown();
        if (pl.p[Q_GAP])
            sim::sleep_ns(uint64_t(pl.p[Q_GAP]) * sim::US);
    }
    check_destroyed();
    shutdown_and_join(m.nodes, "mix/no-shutdown", 500 * sim::SEC);
    for (int i = 0; i < pl.p[Q_AFTER] && n; ++i)
        m.tell<Text>((i * 7) % n, long_text(i), 5);
    m.slots.clear();
    m.sups.clear();
    destroy_all(m.nodes);
    m.factory = nullptr;
    m.tune = nullptr;
}
sim::Reg reg_({"C15", "mix", gen, run, op_names, pnames, 200, false});
} // namespace
