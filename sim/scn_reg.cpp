// C12: names in a registry: registering, discovering, promises, cancellation and the registry plugin, over the nodes.
#include "mesh.h"
#include <string>
#include <tuple>
using namespace rs;

namespace {

const int shorts_ms[] = {20, 150};
const int slows_us[] = {1, 700, 20000, 300000};
enum { I_OK, I_SLOW, I_FAIL };
struct Disc {
    int name;
    bool delayed, op, cb;
    // outcome
    r::address_ptr_t addr;
    int found = 0, linked = 0, lerr = 0;
};
struct Spec {
    int idx = 0;
    bool user = false; // raw requests
    int init = 0, slow_us = 0, stop_us = -1;
    int timeout_ms = LONG_MS;
    kvec<int> regs;
    kvec<Disc> disc;
    int ent = -1;
    bool dyn = false, born = false;
    r::address_ptr_t addr;
};
enum Kind { K_REG, K_DISC, K_PROM };
struct Ans { // what the reference registry answers
    bool seen = false, done = false, err = false;
    const void *addr = nullptr;
    int err_ec = 0;
};
struct Req {
    Kind kind;
    int name;
    bool got = false, cancelled = false;
    Ans a;
};
struct EX {
    Spec *spec = nullptr;
    bool asked = false;
    kvec<const void *> told;
    kmap<uint64_t, Req> reqs; // of raw users
    kvec<std::pair<int, const void *>> handed; // answers to the plugin: name, address (or null: error)
    kvec<int> reg_ok, reg_err;
};
struct Cmd {
    int op, a, b;
};
struct St {
    kvec<Node *> nodes;
    kvec<SupIface *> sups;
    kvec<Spec *> specs;
    kvec<r::address_ptr_t> helper, aliases;
    kvec<EX> x;
    int reg_ent = -1;
    r::address_ptr_t reg;
    bool model = true;
    uint64_t slow_reg = 0;
    bool raw = true; // nobody uses the plugin
    // the reference registry
    kmap<int, const void *> names;
    struct P {
        const void *origin;
        uint64_t id;
        int name;
    };
    kdeque<P> promises;
    kmap<const void *, int> ent_of; // address -> entity
    kmap<int, bool> raw_dereg;      // names which a raw user has withdrawn
};
St *S;
EX &X(int e) {
    sim::NoPreempt np;
    S->x.reserve(8192); // references stay valid
    while (int(S->x.size()) <= e)
        S->x.emplace_back();
    return S->x[size_t(e)];
}
Ent &E(int i) { return W->ents[size_t(i)]; }
bool seen(const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; }
std::string name_of(int k) { return "service-" + std::to_string(k); }
int num_of(const std::string &s) { return atoi(s.c_str() + 8); }
Ent *owner(const void *a) {
    auto it = S->ent_of.find(a);
    return it == S->ent_of.end() ? nullptr : &E(it->second);
}

// the answer of the reference registry
void answer(const void *origin, uint64_t id, Kind k, int name, const void *addr, int err) {
    auto *e = owner(origin);
    if (!e)
        return;
    auto &x = X(e->id);
    sim::obs("answer", e->id, name, err);
    if (!x.spec->user) {
        if (k == K_REG)
            (err ? x.reg_err : x.reg_ok).push_back(name);
        else
            x.handed.push_back({name, err ? nullptr : addr});
        return;
    }
    // on another thread the registry may see it before the asking user knows the id
    auto &q = x.reqs[id];
    q.kind = k;
    q.name = name;
    auto &a = q.a;
    a.done = true;
    a.err = err;
    a.err_ec = err;
    a.addr = addr;
}

struct reg_t : r::registry_t {
    using r::registry_t::registry_t;
    int ent = -1;
    using config_t = sact_config_t;
    template <typename A> using config_builder_t = sact_builder_t<A>;
    explicit reg_t(config_t &c) : r::registry_t(c) {}
    void shutdown_start() noexcept override {
        {
            sim::NoPreempt np;
            S->reg_ent = -2;
        }
        r::registry_t::shutdown_start();
    }
    void on_reg(r::message::registration_request_t &m) noexcept override {
        if (S->slow_reg && sim::rnd(3) == 0) {
            sim::probe("fault:slow-registry");
            sim::sleep_ns(S->slow_reg * sim::MS);
        }
        {
            sim::NoPreempt np;
            auto &p = m.payload.request_payload;
            int n = num_of(p.service_name);
            const void *a = p.service_addr.get();
            if (S->names.count(n)) {
                answer(m.payload.origin.get(), m.payload.id, K_REG, n, nullptr, int(r::error_code_t::already_registered));
                sim::probe("name-taken");
            } else {
                S->names[n] = a;
                answer(m.payload.origin.get(), m.payload.id, K_REG, n, nullptr, 0);
                for (size_t i = 0; i < S->promises.size();) {
                    auto q = S->promises[i];
                    if (q.name == n) {
                        sim::probe("promise-fulfilled");
                        S->promises.erase(S->promises.begin() + long(i));
                        answer(q.origin, q.id, K_PROM, n, a, 0);
                    } else {
                        ++i;
                    }
                }
            }
        }
        r::registry_t::on_reg(m);
    }
    void on_dereg(r::message::deregistration_notify_t &m) noexcept override {
        {
            sim::NoPreempt np;
            for (auto it = S->names.begin(); it != S->names.end();)
                it = it->second == m.payload.service_addr.get() ? S->names.erase(it) : std::next(it);
        }
        r::registry_t::on_dereg(m);
    }
    void on_dereg_service(r::message::deregistration_service_t &m) noexcept override {
        {
            sim::NoPreempt np;
            int n = num_of(m.payload.service_name);
            if (auto it = S->names.find(n); it != S->names.end() && !S->raw_dereg[n])
                if (auto *e = owner(it->second); e && !X(e->id).spec->user && is_up(*e))
                    FAIL("registry/withdrawn", "%s of the running actor %d is withdrawn, though nobody asked for it",
                         m.payload.service_name.c_str(), e->id);
            S->names.erase(n);
        }
        r::registry_t::on_dereg_service(m);
    }
    void on_discovery(r::message::discovery_request_t &m) noexcept override {
        {
            sim::NoPreempt np;
            int n = num_of(m.payload.request_payload.service_name);
            auto it = S->names.find(n);
            if (it == S->names.end())
                answer(m.payload.origin.get(), m.payload.id, K_DISC, n, nullptr, int(r::error_code_t::unknown_service));
            else
                answer(m.payload.origin.get(), m.payload.id, K_DISC, n, it->second, 0);
        }
        r::registry_t::on_discovery(m);
    }
    void on_promise(r::message::discovery_promise_t &m) noexcept override {
        {
            sim::NoPreempt np;
            int n = num_of(m.payload.request_payload.service_name);
            auto it = S->names.find(n);
            if (it == S->names.end())
                S->promises.push_back({m.payload.origin.get(), m.payload.id, n});
            else
                answer(m.payload.origin.get(), m.payload.id, K_PROM, n, it->second, 0);
        }
        r::registry_t::on_promise(m);
    }
    void on_cancel(r::message::discovery_cancel_t &m) noexcept override {
        {
            sim::NoPreempt np;
            for (size_t i = S->promises.size(); i-- > 0;) {
                auto q = S->promises[i];
                if (q.origin == m.payload.source.get() && q.id == m.payload.id) {
                    S->promises.erase(S->promises.begin() + long(i));
                    sim::probe("promise-cancelled");
                    answer(q.origin, q.id, K_PROM, q.name, nullptr, int(r::error_code_t::cancelled));
                    break;
                }
            }
        }
        r::registry_t::on_cancel(m);
    }
};

enum { O_SUP = 1, O_ACT, O_REG, O_DISC, O_CMD, O_STOP, O_FSTOP, O_CREATE, O_SLEEP };
const char *op_names[] = {"", "supervisor(parent,strand)", "actor(sup,init+8*short+32*later,slow+16*slow-stop,raw-user)",
                          "registers(name)", "discovers(name,delayed+2*operational+4*callback)", "user-command(actor,what,name)",
                          "stop(actor,how)", "stop-supervisor-from-a-thread(sup)", "create-actor(nr,at-sup)", "sleep(us)"};
const char *pnames[sim::NPARAM] = {"nodes-1", "backend0", "backend1", "backend2", "asio threads-1", "strands-1", "latency_us",
                                   "timer_late_us", "poll_us", "start at once", "own registry", "slow registry_ms"};
enum { Q_N, Q_B0, Q_B1, Q_B2, Q_THR, Q_STR, Q_LAT, Q_LATE, Q_POLL, Q_NOW, Q_OWN, Q_SLOW };
enum { C_REG, C_DEREG, C_DEREG_ALL, C_DISC, C_PROM, C_CANCEL, C_REG2, C_DEREG_ALL2, C_N };
r::extended_error_ptr_t err() { return r::make_error("scripted", std::make_error_code(std::errc::io_error)); }

struct base_t : sact_t {
    using sact_t::sact_t;
    Spec &sp() { return *static_cast<Spec *>(spec); }
    void do_stop(int how) {
        if (st() >= r::state_t::SHUTTING_DOWN)
            return;
        {
            sim::NoPreempt np;
            X(ent).asked = true;
        }
        if (how)
            do_shutdown(err());
        else
            do_shutdown();
    }
};
// makes raw requests
struct user_t : base_t {
    using base_t::base_t;
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t,
                                      r::plugin::link_server_plugin_t, r::plugin::starter_plugin_t>;
    template <typename A> using config_builder_t = sact_builder_t<A>;
    uint64_t last_prom = 0;
    r::address_ptr_t alias; // it might offer services at several addresses
    r::address_ptr_t &other() {
        if (!alias) {
            alias = create_address();
            sim::NoPreempt np;
            S->ent_of[alias.get()] = ent;
            S->aliases.push_back(alias);
        }
        return alias;
    }
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) {
            p.subscribe_actor(&user_t::on_cmd);
            p.subscribe_actor(&user_t::on_reg);
            p.subscribe_actor(&user_t::on_disc);
            p.subscribe_actor(&user_t::on_fut);
        });
    }
    void stopping() noexcept override {
        send<r::payload::deregistration_notify_t>(S->reg, address);
        if (alias)
            send<r::payload::deregistration_notify_t>(S->reg, alias);
    }
    template <class P, class... A> void ask(Kind k, int n, A &&...a) {
        auto rb = request<P>(S->reg, name_of(n), std::forward<A>(a)...);
        auto id = rb.send(ms(LONG_MS));
        sim::NoPreempt np;
        auto &q = X(ent).reqs[id];
        q.kind = k;
        q.name = n;
        if (k == K_PROM)
            last_prom = id;
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope sc(ent);
        auto c = m.payload;
        if (c.op == O_STOP)
            return do_stop(c.a);
        if (st() != r::state_t::OPERATIONAL)
            return;
        int n = c.b;
        switch (c.a) {
        case C_REG:
            return ask<r::payload::registration_request_t>(K_REG, n, address);
        case C_DISC:
            return ask<r::payload::discovery_request_t>(K_DISC, n);
        case C_PROM:
            return ask<r::payload::discovery_promise_t>(K_PROM, n);
        case C_DEREG:
            {
                sim::NoPreempt np;
                S->raw_dereg[n] = true;
            }
            return send<r::payload::deregistration_service_t>(S->reg, name_of(n));
        case C_DEREG_ALL:
            return send<r::payload::deregistration_notify_t>(S->reg, address);
        case C_REG2:
            // only the main address of an actor is linkable, see link_server_plugin_t
            return ask<r::payload::registration_request_t>(K_REG, n, S->raw ? other() : address);
        case C_DEREG_ALL2:
            return send<r::payload::deregistration_notify_t>(S->reg, other());
        case C_CANCEL:
            if (last_prom) {
                {
                    sim::NoPreempt np;
                    X(ent).reqs[last_prom].cancelled = true;
                }
                send<r::message::discovery_cancel_t::payload_t>(S->reg, last_prom, address);
            }
        default:;
        }
    }
    void outcome(uint64_t id, Kind k, const std::string &name, const r::extended_error_ptr_t &ee, const r::address_ptr_t *a) {
        sim::NoPreempt np;
        auto it = X(ent).reqs.find(id);
        int n = num_of(name);
        sim::obs("outcome", ent, n, bool(ee));
        if (it == X(ent).reqs.end() || it->second.kind != k || it->second.name != n)
            FAIL("registry/answer", "user %d got an answer to a request it never made", ent);
        auto &q = it->second;
        if (q.got)
            FAIL("registry/twice", "user %d got a second answer to a request for %s", ent, name.c_str());
        q.got = true;
        if (!S->model)
            return;
        if (!q.a.done)
            FAIL("registry/answer", "user %d got an answer for %s, which is not due", ent, name.c_str());
        if (q.a.err != bool(ee) || (ee && ee->root()->ec.value() != q.a.err_ec) || (!ee && a && a->get() != q.a.addr))
            FAIL("registry/answer", "user %d got a wrong answer for %s: %s, expected %s", ent, name.c_str(),
                 ee ? ee->message().c_str() : "ok", q.a.err ? "an error" : "another address");
    }
    void on_reg(r::message::registration_response_t &m) noexcept {
        Scope sc(ent);
        outcome(m.payload.req->payload.id, K_REG, m.payload.req->payload.request_payload.service_name, m.payload.ee, nullptr);
    }
    void on_disc(r::message::discovery_response_t &m) noexcept {
        Scope sc(ent);
        outcome(m.payload.req->payload.id, K_DISC, m.payload.req->payload.request_payload.service_name, m.payload.ee,
                m.payload.ee ? nullptr : &m.payload.res.service_addr);
    }
    void on_fut(r::message::discovery_future_t &m) noexcept {
        Scope sc(ent);
        outcome(m.payload.req->payload.id, K_PROM, m.payload.req->payload.request_payload.service_name, m.payload.ee,
                m.payload.ee ? nullptr : &m.payload.res.service_addr);
    }
};

// uses the plugin
struct act_t : base_t {
    using base_t::base_t;
    r::plugin::resources_plugin_t &res() {
        return *static_cast<r::plugin::resources_plugin_t *>(get_plugin(r::plugin::resources_plugin_t::class_identity));
    }
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&act_t::on_cmd); });
        p.with_casted<r::plugin::resources_plugin_t>(
            [&](auto &p) {
                if (sp().init == I_SLOW) {
                    p.acquire(0);
                    start_timer(us(sp().slow_us), *this, &act_t::on_r0);
                }
            },
            r::plugin::config_phase_t::INITIALIZING);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            for (int n : sp().regs)
                p.register_name(name_of(n), address);
            for (auto &d : sp().disc) {
                auto &t = p.discover_name(name_of(d.name), d.addr, d.delayed).link(d.op);
                if (d.cb) {
                    auto *dp = &d;
                    t.callback([this, dp](r::plugin::registry_plugin_t::phase_t ph, const r::extended_error_ptr_t &ec) {
                        sim::NoPreempt np;
                        bool link = ph == r::plugin::registry_plugin_t::phase_t::linking;
                        sim::obs("discovery-callback", ent, dp->name, int(link) + 2 * bool(ec));
                        if (!ec && !dp->addr)
                            FAIL("registry/address", "actor %d: discovery callback without an address", ent);
                        if (link && !ec) {
                            bool op = true;
                            for (auto &o : sp().disc)
                                op = op && o.op;
                            if (auto *o = owner(dp->addr.get()); op && o && !seen(*o, Cb::start))
                                FAIL("registry/callback", "actor %d is told that it is linked to %s, which is not operational", ent,
                                     name_of(dp->name).c_str());
                        }
                        if (link)
                            ec ? ++dp->lerr : ++dp->linked;
                        else
                            ++dp->found;
                        if (dp->found > 1 || dp->linked + dp->lerr > 1 || (link && !dp->found))
                            FAIL("registry/callback", "actor %d: callbacks of the discovery of %s: %d found, %d linked, %d link errors",
                                 ent, name_of(dp->name).c_str(), dp->found, dp->linked, dp->lerr);
                    });
                }
            }
        });
    }
    void init_start() noexcept override {
        sact_t::init_start();
        if (sp().init == I_FAIL) {
            {
                sim::NoPreempt np;
                X(ent).asked = true;
            }
            do_shutdown(err());
        }
    }
    void init_finish() noexcept override {
        sact_t::init_finish();
        sim::NoPreempt np;
        complete();
    }
    void complete() {
        auto &x = X(ent);
        for (auto &d : sp().disc) {
            if (!d.addr)
                FAIL("registry/incomplete", "actor %d finished its initialization without the address of %s", ent, name_of(d.name).c_str());
            if (d.cb && (d.found != 1 || d.linked != 1))
                FAIL("registry/incomplete", "actor %d finished its initialization, discovery of %s: %d found, %d linked", ent,
                     name_of(d.name).c_str(), d.found, d.linked);
            bool handed = !S->model;
            for (auto &h : x.handed)
                handed = handed || (h.first == d.name && h.second == d.addr.get());
            if (!handed)
                FAIL("registry/address", "actor %d found %s at an address which the registry has not answered", ent, name_of(d.name).c_str());
            sim::probe("discovered");
        }
        if (S->model)
            for (int n : sp().regs) {
                bool ok = false;
                for (int k : x.reg_ok)
                    ok = ok || k == n;
                if (!ok)
                    FAIL("registry/incomplete", "actor %d finished its initialization, but %s is not registered", ent, name_of(n).c_str());
            }
    }
    void on_r0(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        if (!c && res().has(0))
            res().release(0);
    }
    void stopping() noexcept override {
        if (sp().stop_us >= 0 && !res().has(0))
            res().acquire(0);
        if (res().has(0)) // the timer of the initialization is cancelled or will release it
            start_timer(us(std::max(50, sp().stop_us)), *this, &act_t::on_r0);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope sc(ent);
        if (m.payload.op == O_STOP)
            do_stop(m.payload.a);
    }
    bool on_unlink(const r::address_ptr_t &a) noexcept override {
        sim::NoPreempt np;
        sim::obs("unlink", ent, 0, 0);
        X(ent).told.push_back(a.get());
        return true;
    }
};
void make_act(r::supervisor_t &sup, Spec *s) {
    auto done = [&](base_t *a) {
        sim::NoPreempt np;
        s->born = true;
        s->ent = a->ent;
        X(a->ent).spec = s;
        s->addr = a->get_address();
        S->ent_of[s->addr.get()] = a->ent;
    };
    if (s->user)
        done(sup.create_actor<user_t>().spec(s).tag(s->idx).timeout(ms(LONG_MS)).finish().get());
    else
        done(sup.create_actor<act_t>().spec(s).tag(s->idx).init_timeout(ms(s->timeout_ms)).shutdown_timeout(ms(LONG_MS)).finish().get());
}
struct helper_t : sact_t {
    using sact_t::sact_t;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&helper_t::on_cmd); });
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope sc(ent);
        auto *s = S->specs[size_t(m.payload.a)];
        {
            sim::NoPreempt np;
            if (s->born || seen(E(ent_of_sup(*supervisor)), Cb::shutdown_start))
                return;
            s->born = true;
        }
        make_act(*supervisor, s);
    }
};

const char *unsettled(Ent &e) {
    if (seen(e, Cb::shutdown_finish))
        return nullptr;
    auto &x = X(e.id);
    if (seen(e, Cb::shutdown_start))
        return "it began to shut down and does not finish";
    if (x.asked)
        return "it was asked to stop and does not";
    if (e.parent >= 0 && seen(E(e.parent), Cb::shutdown_start))
        return "its supervisor shuts down and it does not";
    if (!x.spec)
        return nullptr;
    if (!x.told.empty())
        return "it was told to unlink and does not shut down";
    bool reg_up = S->reg_ent != -2;
    if (x.spec->user) {
        if (is_up(e) && reg_up && S->model)
            for (auto &q : x.reqs)
                if (q.second.a.done && !q.second.got)
                    return "the answer of the registry does not arrive";
                else if (!q.second.got && q.second.kind != K_PROM)
                    return "the registry does not answer its request";
                else if (!q.second.got && q.second.cancelled)
                    return "the registry does not answer its cancelled promise";
        return nullptr;
    }
    bool uses = !x.spec->regs.empty() || !x.spec->disc.empty();
    bool linked = seen(e, Cb::start) || !x.reg_ok.empty() || !x.reg_err.empty() || !x.handed.empty();
    if (uses && !reg_up && !linked && x.spec->timeout_ms == LONG_MS)
        return nullptr; // nobody answers until the link times out
    if (uses && !reg_up)
        return "the registry shuts down and it does not";
    if (!x.reg_err.empty())
        return "its name was refused and it does not stop";
    for (auto &h : x.handed)
        if (!h.second)
            return "its discovery failed and it does not stop";
    for (auto &d : x.spec->disc)
        if (d.addr && is_up(e))
            if (auto *o = owner(d.addr.get()); o && seen(*o, Cb::shutdown_start))
                return "a discovered and linked server goes down and it does not";
    if (seen(e, Cb::start) || !S->model || !seen(E(e.parent), Cb::start))
        return nullptr;
    if (x.spec->timeout_ms != LONG_MS)
        return "its initialization does not time out";
    for (auto &d : x.spec->disc) {
        bool h = false;
        for (auto &k : x.handed)
            if (k.first == d.name) {
                h = true;
                auto *o = owner(k.second);
                if (o && ((!seen(*o, Cb::start) && d.op) || is_down(*o)))
                    return nullptr; // waits for its server, or for the timeout of the link to a dead one
            }
        if (!h) {
            for (auto &p : S->promises)
                if (p.origin == x.spec->addr.get() && p.name == d.name)
                    return nullptr; // waits for the name
            return "the registry has not answered";
        }
    }
    return "it has everything for its initialization and does not start";
}
void listener(Ent &e, Cb c) {
    if (c != Cb::shutdown_finish)
        return;
    for (auto &k : W->ents) {
        auto *sp = X(k.id).spec;
        if (!sp || sp->user || !is_up(k) || k.id == e.id)
            continue;
        auto &t = X(k.id).told;
        for (auto &d : sp->disc)
            if (auto *o = owner(d.addr.get()); o && o->id == e.id && std::find(t.begin(), t.end(), d.addr.get()) == t.end())
                FAIL("registry/outlived", "service %d has shut down while %d, which has discovered it, is running", e.id, k.id);
    }
}

void gen(Rng &g, Plan &pl) {
    int n = g.range(1, 3);
    auto b = pick_backends(g, n, 0x3f);
    pl.p[Q_N] = int(b.size()) - 1;
    for (int i = 0; i < int(b.size()); ++i)
        pl.p[Q_B0 + i] = b[size_t(i)];
    pl.p[Q_THR] = g.range(0, 2);
    pl.p[Q_STR] = g.range(0, 2);
    pl.p[Q_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000, 30000});
    pl.p[Q_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[Q_POLL] = g.pick({0, 0, 5, 100});
    pl.p[Q_NOW] = g.one_in(3);
    pl.p[Q_OWN] = g.one_in(6);
    pl.p[Q_SLOW] = g.one_in(6) ? g.pick({5, 60, 200}) : 0;
    int ns = g.range(1, 3), na = g.range(2, 7), nd = g.range(0, 4);
    for (int i = 0; i < ns; ++i)
        pl.ops.push_back(Op{O_SUP, g.range(0, 99), g.range(0, 2), 0, 0});
    bool shorts = g.one_in(3);
    bool raw = g.one_in(4); // raw users only, which quarrel about few names
    bool few = !raw && g.one_in(4); // raw users offer what the others wait for, under several names
    if (raw)
        na = g.range(1, 3), nd = 0;
    int kmax = raw ? 1 : few ? 2 : na + nd + 1;
    for (int i = 0; i < na + nd; ++i) {
        bool later = i >= na || g.one_in(4), user = raw || (few ? i < 2 : g.one_in(4));
        int init = g.one_in(4) ? int(I_SLOW) : g.one_in(later ? 8 : 25) ? int(I_FAIL) : int(I_OK);
        pl.ops.push_back(Op{O_ACT, g.range(0, 99), init | (shorts && g.one_in(3) ? 8 : 0) | (later ? 32 : 0),
                            g.range(0, 3) + (g.one_in(6) ? 16 : 0), user});
        if (user)
            continue;
        int nr = few || g.one_in(3) ? 0 : g.range(1, 2), nq = g.one_in(4) ? 0 : g.range(1, 3);
        for (int k = 0; k < nr; ++k)
            pl.ops.push_back(Op{O_REG, g.one_in(6) ? g.range(i, kmax) : i + k, 0, 0, 0});
        for (int k = 0; few && k < 3; ++k)
            pl.ops.push_back(Op{O_DISC, k, 1 + 2 * g.range(0, 3), 0, 0});
        for (int k = 0; k < nq && i && !few; ++k)
            pl.ops.push_back(Op{O_DISC, g.range(std::max(0, i - 4), i - 1), g.one_in(later ? 3 : 20) ? g.range(0, 7) : g.range(0, 3) * 2 + 1, 0, 0});
    }
    int ops = raw ? g.range(5, 60) : g.range(1, 25);
    for (int i = 0; i < ops; ++i) {
        int a = g.range(0, 99);
        switch (raw && !g.one_in(6) ? 2 : g.below(12)) {
        case 0: case 1:
            pl.ops.push_back(Op{O_STOP, a, g.range(0, 1), 0, 0});
            break;
        case 2: case 3: case 4: case 5: case 6: case 7:
            pl.ops.push_back(Op{O_CMD, a, g.range(0, C_N - 1), g.range(0, kmax), 0});
            break;
        case 8:
            if (g.one_in(3))
                pl.ops.push_back(Op{O_FSTOP, a, 0, 0, 0});
            break;
        case 9:
            pl.ops.push_back(Op{O_CREATE, a, g.range(0, 99), 0, 0});
            break;
        default:
            pl.ops.push_back(Op{O_SLEEP, g.pick({1, 30, 800, 6000, 35000, 250000}), 0, 0, 0});
        }
    }
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    S->model = !pl.p[Q_OWN];
    S->slow_reg = uint64_t(pl.p[Q_SLOW]);
    W->on_cb = listener;
    NodeCfg nc;
    nc.threads = pl.p[Q_THR] + 1;
    nc.strands = pl.p[Q_STR] + 1;
    nc.latency_us = pl.p[Q_LAT];
    nc.timer_late_us = pl.p[Q_LATE];
    SupOpts o;
    o.poll_us = pl.p[Q_POLL];
    o.init_ms = o.shutdown_ms = LONG_MS;
    kvec<Node *> sup_node;
    r::intrusive_ptr_t<reg_t> reg;
    auto add = [&](SupIface *si, Node *nd) {
        S->sups.push_back(si);
        sup_node.push_back(nd);
        auto a = si->sup()->create_actor<helper_t>().timeout(ms(LONG_MS)).finish();
        S->helper.push_back(a->get_address());
    };
    for (int i = 0; i <= pl.p[Q_N]; ++i) {
        auto *nd = make_node(BK(pl.p[Q_B0 + i]), i, nc);
        S->nodes.push_back(nd);
        SupOpts ro = o;
        if (!i && !S->model)
            ro.registry = true;
        if (i)
            ro.registry_addr = S->reg;
        auto *si = nd->make_root(ro);
        if (!i) {
            if (S->model)
                S->reg = si->sup()->create_actor<reg_t>().timeout(ms(LONG_MS)).finish()->get_address();
            else
                S->reg = si->sup()->get_registry_address();
            sup_node.push_back(nd);
            S->sups.push_back(si);
            S->helper.push_back(nullptr);
            // actors of the registry's own node live under a child supervisor, which knows its address
            SupOpts so = o;
            if (S->model)
                so.registry_addr = S->reg;
            auto *c = nd->make_child(*si->sup(), so);
            nd->keep.push_back(c->sup());
            add(c, nd);
        } else {
            add(si, nd);
        }
    }
    for (auto &op : pl.ops)
        if (op.k == O_SUP && S->sups.size() < 6) {
            size_t p = size_t(op.a) % S->sups.size();
            SupOpts so = o;
            so.strand = op.b;
            so.registry_addr = op.b == 2 && p ? r::address_ptr_t() : S->reg; // or inherited
            auto *nd = sup_node[p];
            auto *c = nd->make_child(*S->sups[p]->sup(), so);
            nd->keep.push_back(c->sup());
            add(c, nd);
        }
    auto place = [&](int a) { return 1 + size_t(a) % (S->sups.size() - 1); };
    Spec *last = nullptr;
    for (auto &op : pl.ops) {
        if (op.k == O_ACT) {
            auto *s = last = new (malloc(sizeof(Spec))) Spec();
            s->idx = int(S->specs.size());
            s->init = op.b & 3;
            s->slow_us = slows_us[size_t(op.c) % 4];
            s->stop_us = op.c & 16 ? slows_us[size_t(op.c) % 4] : -1;
            s->timeout_ms = op.b & 8 ? shorts_ms[size_t(op.c) % 2] : int(LONG_MS);
            s->dyn = op.b & 32;
            s->user = op.d;
            S->specs.push_back(s);
            S->raw = S->raw && s->user;
        } else if (op.k == O_REG && last && !last->user) {
            bool dup = op.a < last->idx; // names of a level: no cycles of links
            for (int r : last->regs)
                dup = dup || r == op.a;
            if (!dup)
                last->regs.push_back(op.a);
        } else if (op.k == O_DISC && last && !last->user) {
            bool dup = op.a >= last->idx;
            for (auto &d : last->disc)
                dup = dup || d.name == op.a;
            if (!dup)
                last->disc.push_back(Disc{op.a, bool(op.b & 1), bool(op.b & 2), bool(op.b & 4), {}});
        }
    }
    {
        size_t i = 0;
        for (auto &op : pl.ops)
            if (op.k == O_ACT) {
                auto *s = S->specs[i++];
                if (!s->dyn)
                    make_act(*S->sups[place(op.a)]->sup(), s);
            }
    }
    for (auto *nd : S->nodes)
        nd->start();
    if (!pl.p[Q_NOW])
        sim::sleep_ns(5 * sim::MS);
    for (auto &op : pl.ops) {
        sim::yield();
        switch (op.k) {
        case O_SLEEP:
            sim::sleep_ns(uint64_t(op.a) * sim::US);
            break;
        case O_STOP:
        case O_CMD: {
            kvec<Spec *> c;
            for (auto *s : S->specs)
                if (op.k == O_STOP || s->user)
                    c.push_back(s);
            if (!c.empty()) {
                r::address_ptr_t ad;
                {
                    sim::NoPreempt np;
                    ad = c[size_t(op.a) % c.size()]->addr;
                }
                if (ad)
                    ad->supervisor.enqueue(r::make_message<Cmd>(ad, Cmd{op.k, op.b, op.c}));
            }
            break;
        }
        case O_FSTOP: {
            auto *si = S->sups[size_t(op.a) % S->sups.size()];
            {
                sim::NoPreempt np;
                X(si->ent).asked = true;
            }
            sim::probe("fault:external-stop");
            si->sup()->shutdown();
            break;
        }
        case O_CREATE: {
            kvec<int> d;
            for (auto *s : S->specs)
                if (s->dyn)
                    d.push_back(s->idx);
            if (!d.empty()) {
                auto &h = S->helper[place(op.b)];
                h->supervisor.enqueue(r::make_message<Cmd>(h, Cmd{O_CREATE, d[size_t(op.a) % d.size()], 0}));
            }
            break;
        }
        default:;
        }
    }
    sim::faults_off();
    bool ok = sim::wait_for(
        [&] {
            for (auto &e : W->ents)
                if (unsettled(e))
                    return false;
            return true;
        },
        120 * sim::SEC, 20 * sim::MS);
    if (!ok)
        for (auto &e : W->ents)
            if (auto *why = unsettled(e))
                FAIL("registry/stuck", "%s %d (nr %d, last callback %s, supervisor %d): %s", e.is_sup ? "supervisor" : "actor", e.id,
                     e.tag, cb_name[e.last < 0 ? 0 : e.last], e.parent, why);
    if (S->model) {
        // the registry may run on other thread, it needs its time (or is stopped)
        int name = -1, ent = -1;
        ok = sim::wait_for(
            [&] {
                if (S->reg_ent == -2)
                    return true;
                for (auto &nm : S->names)
                    if (auto *e = owner(nm.second); e && is_down(*e)) {
                        name = nm.first, ent = e->id;
                        return false;
                    }
                return true;
            },
            60 * sim::SEC, 20 * sim::MS);
        if (!ok)
            FAIL("registry/dead-service", "%s is still registered for actor %d, which has shut down", name_of(name).c_str(), ent);
    }
    check_destroyed();
    shutdown_and_join(S->nodes, "registry/no-shutdown", 500 * sim::SEC);
    for (auto *s : S->specs) {
        s->addr.reset();
        s->disc.clear();
    }
    S->helper.clear();
    S->aliases.clear();
    S->reg.reset();
    destroy_all(S->nodes);
}
sim::Reg reg_({"C12", "registry", gen, run, op_names, pnames, 1, false});
} // namespace
