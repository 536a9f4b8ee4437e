// C11: clients linked to servers, all over the nodes, which stop and fail at any moment.
#include "mesh.h"
using namespace rs;

namespace {

const int shorts_ms[] = {20, 150};
const int slows_us[] = {1, 700, 20000, 300000};
enum { I_OK, I_SLOW, I_FAIL };
struct LinkSpec {
    int target;
    bool op;
};
struct Spec {
    int idx = 0; // position in the order of links
    int init = 0, slow_us = 0;
    int timeout_ms = LONG_MS;
    bool survive = false;
    int differ = 0; // servers it treats the other way round
    bool survives(int se) const { return survive != bool((differ >> (se & 1)) & 1); }
    int delay_us = -1; // reaction to unlink requests
    bool dyn = false;
    kvec<LinkSpec> links;
    int ent = -1;
    bool born = false;
};
enum LS { L_NONE, L_LINKING, L_UP, L_GONE };
struct Link { // from one client to one server, by server entity
    LS st = L_NONE;
    uint64_t t0 = 0;
    bool op = false, init = false, delivered = false;
    int outcomes = 0;
    bool answered = true;
};
struct EX {
    Spec *spec = nullptr;
    bool asked = false, link_failed = false;
    kmap<int, Link> links;
    bool told_true = false; // on_unlink has answered "shut me down"
    BK bk = B_SIM;
};
struct Cmd {
    int op, a, b;
};
struct St {
    kvec<Node *> nodes;
    kvec<SupIface *> sups;
    kvec<Node *> sup_node;
    kvec<Spec *> specs;
    kvec<r::address_ptr_t> addr;  // by spec
    kvec<r::address_ptr_t> helper;
    kvec<EX> x;
    int n_static = 0;
};
St *S;
EX &X(int e) {
    sim::NoPreempt np;
    S->x.reserve(8192); // references stay valid
    while (int(S->x.size()) <= e)
        S->x.emplace_back();
    return S->x[size_t(e)];
}
Ent &E(int i) { return W->ents[size_t(i)]; }
bool seen(const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; }

enum { O_SUP = 1, O_ACT, O_LINK, O_RLINK, O_STOP, O_FSTOP, O_CREATE, O_SLEEP };
const char *op_names[] = {"", "supervisor(parent,strand)", "actor(sup,init+8*short+32*later,survive+2*reaction+16*differ,slow)",
                          "link-of-the-last-actor(target,operational)", "link-at-run-time(actor,target,operational)",
                          "stop(actor,how)", "stop-supervisor-from-a-thread(sup)", "create-actor(nr,at-sup)", "sleep(us)"};
const char *pnames[sim::NPARAM] = {"nodes-1", "backend0", "backend1", "backend2", "asio threads-1", "strands-1", "latency_us",
                                   "timer_late_us", "poll_us", "start at once"};
enum { Q_N, Q_B0, Q_B1, Q_B2, Q_THR, Q_STR, Q_LAT, Q_LATE, Q_POLL, Q_NOW };

// targets >= 1000 are supervisors
int target_ent(int t) { return t >= 1000 ? S->sups[size_t(t - 1000) % S->sups.size()]->ent : S->specs[size_t(t)]->ent; }
r::address_ptr_t target_addr(int t) {
    return t >= 1000 ? S->sups[size_t(t - 1000) % S->sups.size()]->sup()->get_address() : S->addr[size_t(t)];
}
r::extended_error_ptr_t err() { return r::make_error("scripted", std::make_error_code(std::errc::io_error)); }

struct act_t : sact_t {
    using sact_t::sact_t;
    Spec &sp() { return *static_cast<Spec *>(spec); }
    r::plugin::link_client_plugin_t *lc = nullptr;
    int retries = 2;
    kdeque<r::intrusive_ptr_t<r::message::unlink_request_t>> held;
    r::plugin::resources_plugin_t &res() {
        return *static_cast<r::plugin::resources_plugin_t *>(get_plugin(r::plugin::resources_plugin_t::class_identity));
    }
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_link_request);
        });
        p.with_casted<r::plugin::resources_plugin_t>(
            [&](auto &p) {
                if (sp().init == I_SLOW) {
                    p.acquire(0);
                    start_timer(us(sp().slow_us), *this, &act_t::on_r0);
                }
            },
            r::plugin::config_phase_t::INITIALIZING);
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            lc = &p;
            if (sp().delay_us >= 0)
                p.on_unlink([this](r::message::unlink_request_t &m) {
                    if (sp().delay_us == 0) {
                        lc->forget_link(m);
                    } else {
                        held.push_back(&m);
                        start_timer(us(sp().delay_us), *this, &act_t::on_forget);
                    }
                    return true;
                });
            for (auto &l : sp().links)
                if (l.target < sp().idx || l.target >= 1000)
                    do_link(l.target, l.op, true);
        });
    }
    // the plugin answers, this one only looks
    void on_link_request(r::message::link_request_t &m) noexcept {
        Scope s(ent);
        sim::NoPreempt np;
        for (size_t i = 0; i < S->addr.size(); ++i)
            if (S->addr[i] == m.payload.origin) {
                auto &x = X(S->specs[i]->ent);
                if (x.spec && x.spec->timeout_ms == LONG_MS)
                    x.links[ent].delivered = true;
            }
    }
    void on_forget(r::request_id_t, bool) noexcept {
        Scope s(ent);
        auto m = held.front();
        held.pop_front();
        lc->forget_link(*m);
    }
    void init_start() noexcept override {
        sact_t::init_start();
        if (sp().init == I_FAIL) {
            {
                sim::NoPreempt np;
                X(ent).asked = true;
            }
            do_shutdown(err());
        }
    }
    void on_r0(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        if (!c && res().has(0))
            res().release(0);
    }
    void stopping() noexcept override {
        if (res().has(0)) // the timer is cancelled
            start_timer(us(50), *this, &act_t::on_r0);
    }
    void do_link(int target, bool op, bool init) {
        int se;
        {
            sim::NoPreempt np;
            se = target_ent(target);
            auto &l = X(ent).links[se];
            if (l.st == L_LINKING || l.st == L_UP || X(ent).told_true)
                return;
            l.st = L_LINKING;
            l.t0 = timer_base(X(ent).bk);
            if (X(ent).bk == B_THREAD || X(ent).bk == B_EV)
                l.t0 -= std::min(l.t0, 20 * sim::MS + sim::fault_ns());
            l.op = op;
            l.delivered = false;
            l.init = init;
            sim::obs("link", ent, se, op);
        }
        auto me = ent;
        lc->link(target_addr(target), op, [this, me, se, target, op, init](const r::extended_error_ptr_t &ec) {
            outcome(me, se, ec);
            if (ec && !init && retries-- > 0 && st() == r::state_t::OPERATIONAL) { // try it again, out of the callback
                sim::probe("link-again");
                do_link(target, op, false);
            }
        });
    }
    void outcome(int me, int se, const r::extended_error_ptr_t &ec) {
        sim::NoPreempt np;
        auto &l = X(me).links[se];
        auto &s = E(se);
        sim::obs("link-outcome", me, se, bool(ec));
        if (l.st != L_LINKING)
            FAIL("link/outcome", "the link of %d to %d has got another outcome", me, se);
        if (!ec) {
            if (seen(s, Cb::shutdown_finish))
                FAIL("link/dead-server", "client %d is linked to %d, which has already shut down", me, se);
            if (l.op && !seen(s, Cb::start))
                FAIL("link/not-operational", "client %d wanted an operational server, but %d was not started yet", me, se);
            l.st = L_UP;
            sim::probe("linked");
            return;
        }
        l.st = L_GONE;
        if (ec->root()->ec == r::error_code_t::already_linked)
            FAIL("link/state-left", "server %d refuses client %d because of an old link", se, me);
        auto &x = X(me);
        bool timeout = ec->root()->ec == r::error_code_t::request_timeout;
        if (timeout && sim::now() + 3 * sim::MS < l.t0 + uint64_t(x.spec->timeout_ms) * sim::MS)
            FAIL("link/early-timeout", "the link of %d to %d timed out early", me, se);
        if (!timeout && !seen(s, Cb::shutdown_start))
            FAIL("link/refused", "server %d refused client %d although it is not shutting down: %s", se, me,
                 ec->message().c_str());
        sim::probe(timeout ? "fault:link-timeout" : "fault:link-refused");
        if (!seen(E(me), Cb::init_finish))
            x.link_failed = true;
    }
    bool on_unlink(const r::address_ptr_t &a) noexcept override {
        sim::NoPreempt np;
        int se = -1;
        for (size_t i = 0; i < S->addr.size(); ++i)
            if (S->addr[i] == a)
                se = S->specs[i]->ent;
        for (auto *s : S->sups)
            if (s->sup()->get_address() == a)
                se = s->ent;
        auto &l = X(ent).links[se];
        sim::obs("unlink", ent, se, sp().survives(se));
        if (l.st != L_UP)
            FAIL("link/unlink", "client %d is told twice, or without a link, that server %d goes down", ent, se);
        if (!seen(E(se), Cb::shutdown_start))
            FAIL("link/unlink", "client %d is told that server %d goes down, but it does not", ent, se);
        if (seen(E(ent), Cb::shutdown_finish))
            FAIL("link/unlink", "client %d is told that server %d goes down after its own end", ent, se);
        l.st = L_GONE;
        if (!sp().survives(se))
            X(ent).told_true = true;
        return !sp().survives(se);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept;
    void stopped() noexcept override {
        sim::NoPreempt np;
        auto &x = X(ent);
        auto &rs = get_shutdown_reason();
        bool unl = rs && rs->root()->ec == r::shutdown_code_t::unlink_requested && rs->root()->context == identity;
        if (unl && !x.told_true)
            FAIL("link/survivor", "client %d goes down with a server although it chose to survive it: %s", ent, rs->message().c_str());
        bool sup_down = E(ent).parent >= 0 && seen(E(E(ent).parent), Cb::shutdown_start);
        if (x.told_true && !x.asked && !sup_down && !x.link_failed && !unl)
            FAIL("link/reason", "client %d went down with its server, but its reason is %s", ent, rs ? rs->message().c_str() : "-");
    }
};
struct helper_t : sact_t {
    using sact_t::sact_t;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&helper_t::on_cmd); });
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept;
};
void make_act(r::supervisor_t &sup, Spec *s, BK bk) {
    auto a = sup.create_actor<act_t>()
                 .spec(s)
                 .tag(s->idx)
                 .init_timeout(ms(s->timeout_ms))
                 .shutdown_timeout(ms(LONG_MS))
                 .finish();
    sim::NoPreempt np;
    s->born = true;
    s->ent = a->ent;
    X(a->ent).spec = s;
    X(a->ent).bk = bk;
    S->addr[size_t(s->idx)] = a->get_address();
}
void helper_t::on_cmd(r::message_t<Cmd> &m) noexcept {
    Scope sc(ent);
    auto *s = S->specs[size_t(m.payload.a)];
    {
        sim::NoPreempt np;
        if (s->born || seen(E(ent_of_sup(*supervisor)), Cb::shutdown_start))
            return;
        s->born = true;
    }
    for (size_t i = 0; i < S->sups.size(); ++i)
        if (S->sups[i]->sup() == supervisor)
            make_act(*supervisor, s, S->sup_node[i]->bk);
}
void act_t::on_cmd(r::message_t<Cmd> &m) noexcept {
    Scope sc(ent);
    auto c = m.payload;
    if (c.op == O_STOP) {
        if (st() >= r::state_t::SHUTTING_DOWN)
            return;
        {
            sim::NoPreempt np;
            X(ent).asked = true;
        }
        if (c.a)
            do_shutdown(err());
        else
            do_shutdown();
    } else if (st() == r::state_t::OPERATIONAL) {
        int t = c.a >= 1000 ? c.a : c.a % (S->n_static ? S->n_static : 1);
        if (t >= 1000 || (t < sp().idx && S->specs[size_t(t)]->ent >= 0))
            do_link(t, c.b, false);
    }
}

void listener(Ent &e, Cb c) {
    if (c != Cb::shutdown_finish)
        return;
    for (auto &k : W->ents) {
        auto it = X(k.id).links.find(e.id);
        if (it != X(k.id).links.end() && it->second.st == L_UP && !seen(k, Cb::shutdown_start))
            FAIL("link/outlived", "server %d has shut down while client %d is still linked to it", e.id, k.id);
    }
    for (auto &l : X(e.id).links)
        if (l.second.st == L_UP || l.second.st == L_LINKING)
            l.second.st = L_GONE;
}

const char *unsettled(Ent &e) {
    if (seen(e, Cb::shutdown_finish))
        return nullptr;
    auto &x = X(e.id);
    if (seen(e, Cb::shutdown_start))
        return "it began to shut down and does not finish";
    if (x.asked)
        return "it was asked to stop and does not";
    if (e.parent >= 0 && seen(E(e.parent), Cb::shutdown_start))
        return "its supervisor shuts down and it does not";
    if (x.told_true)
        return "its server went down and it does not";
    if (x.link_failed)
        return "a link failed during its initialization, but it does not stop";
    bool waits = false;
    for (auto &[se, l] : x.links) {
        auto &s = E(se);
        if (l.st == L_UP && seen(s, Cb::shutdown_start))
            return "its server shuts down and it is not told";
        if (l.st == L_LINKING && seen(s, Cb::start) && !seen(s, Cb::shutdown_start))
            return "its link attempt has no outcome";
        if (l.st == L_LINKING && l.delivered && seen(s, Cb::shutdown_start))
            return "its link request was delivered to a server, which shuts down without an answer";
        if (l.st == L_LINKING && x.spec->timeout_ms != LONG_MS)
            return "its link attempt does not time out";
        if (l.st == L_LINKING)
            waits = true;
    }
    (void)waits;
    return nullptr;
}

void gen(Rng &g, Plan &pl) {
    int n = g.range(1, 3);
    auto b = pick_backends(g, n, 0x3f);
    pl.p[Q_N] = int(b.size()) - 1;
    for (int i = 0; i < int(b.size()); ++i)
        pl.p[Q_B0 + i] = b[size_t(i)];
    pl.p[Q_THR] = g.range(0, 2);
    pl.p[Q_STR] = g.range(0, 2);
    pl.p[Q_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000, 30000});
    pl.p[Q_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[Q_POLL] = g.pick({0, 0, 5, 100});
    pl.p[Q_NOW] = g.one_in(3);
    int ns = g.range(0, 2), na = g.range(2, 7), nd = g.range(0, 3);
    for (int i = 0; i < ns; ++i)
        pl.ops.push_back(Op{O_SUP, g.range(0, 99), g.range(0, 2), 0, 0});
    bool shorts = g.one_in(3);
    if (n > 1 && g.one_in(5)) { // clients wait for a server, which goes before it is operational
        pl.p[Q_NOW] = 1;
        shorts = false;
        ns = 0;
        na = g.range(0, 1);
        nd = g.range(0, 1);
        pl.ops.clear();
        pl.ops.push_back(Op{O_ACT, 0, I_SLOW, 0, g.range(2, 3)});
        for (int i = g.range(1, 2); i > 0; --i) {
            pl.ops.push_back(Op{O_ACT, 1, I_OK, 0, 0});
            pl.ops.push_back(Op{O_LINK, 0, 1, 0, 0});
        }
        pl.ops.push_back(Op{O_SLEEP, g.pick({800, 3000, 6000}), 0, 0, 0});
        if (g.one_in(2))
            pl.ops.push_back(Op{O_STOP, 0, g.range(0, 1), 0, 0});
        else
            pl.ops.push_back(Op{O_FSTOP, 0, 0, 0, 0});
    }
    auto target = [&](int i) { return g.one_in(6) || !i ? 1000 + g.range(0, 9) : g.range(0, i - 1); };
    for (int i = 0; i < na + nd; ++i) {
        int init = g.one_in(4) ? int(I_SLOW) : g.one_in(i < na ? 25 : 8) ? int(I_FAIL) : int(I_OK);
        pl.ops.push_back(Op{O_ACT, g.range(0, 99), init | (shorts && g.one_in(3) ? 8 : 0) | (i >= na ? 32 : 0),
                            (g.one_in(4) ? 1 : 0) + 2 * (g.one_in(3) ? g.range(1, 4) : 0) + 16 * (g.one_in(4) ? g.range(1, 3) : 0),
                            g.range(0, 3)});
        int nl = g.one_in(3) ? 0 : g.range(1, 3);
        for (int k = 0; k < nl; ++k)
            pl.ops.push_back(Op{O_LINK, target(std::min(i, na)), g.range(0, 1), 0, 0});
    }
    int ops = g.range(1, 12);
    for (int i = 0; i < ops; ++i) {
        int a = g.range(0, 99);
        switch (g.below(10)) {
        case 0: case 1: case 2:
            pl.ops.push_back(Op{O_STOP, a, g.range(0, 1), 0, 0});
            break;
        case 3: case 4:
            pl.ops.push_back(Op{O_RLINK, a, g.one_in(6) ? 1000 + g.range(0, 9) : g.range(0, na - 1), g.range(0, 1), 0});
            break;
        case 5:
            if (g.one_in(2))
                pl.ops.push_back(Op{O_FSTOP, a, 0, 0, 0});
            break;
        case 6:
            pl.ops.push_back(Op{O_CREATE, a, g.range(0, 99), 0, 0});
            break;
        default:
            pl.ops.push_back(Op{O_SLEEP, g.pick({1, 30, 800, 6000, 35000, 250000}), 0, 0, 0});
        }
    }
}

bool ancestor(int sup, int of) {
    for (int i = of; i >= 0; i = E(i).parent)
        if (i == sup)
            return true;
    return false;
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    W->on_cb = listener;
    NodeCfg nc;
    nc.threads = pl.p[Q_THR] + 1;
    nc.strands = pl.p[Q_STR] + 1;
    nc.latency_us = pl.p[Q_LAT];
    nc.timer_late_us = pl.p[Q_LATE];
    SupOpts o;
    o.poll_us = pl.p[Q_POLL];
    o.init_ms = o.shutdown_ms = LONG_MS;
    auto add = [&](SupIface *si, Node *nd) {
        S->sups.push_back(si);
        S->sup_node.push_back(nd);
        auto a = si->sup()->create_actor<helper_t>().timeout(ms(LONG_MS)).finish();
        S->helper.push_back(a->get_address());
    };
    for (int i = 0; i <= pl.p[Q_N]; ++i) {
        auto *nd = make_node(BK(pl.p[Q_B0 + i]), i, nc);
        S->nodes.push_back(nd);
        SupOpts ro = o;
        add(nd->make_root(ro), nd);
    }
    for (auto &op : pl.ops)
        if (op.k == O_SUP && S->sups.size() < 6) {
            size_t p = size_t(op.a) % S->sups.size();
            SupOpts so = o;
            so.strand = op.b;
            auto *nd = S->sup_node[p];
            auto *c = nd->make_child(*S->sups[p]->sup(), so);
            nd->keep.push_back(c->sup());
            add(c, nd);
        }
    Spec *last = nullptr;
    for (auto &op : pl.ops) {
        if (op.k == O_ACT) {
            auto *s = last = new (malloc(sizeof(Spec))) Spec();
            s->idx = int(S->specs.size());
            s->init = op.b & 3;
            s->slow_us = slows_us[size_t(op.d) % 4];
            s->timeout_ms = op.b & 8 ? shorts_ms[size_t(op.d) % 2] : int(LONG_MS);
            s->dyn = op.b & 32;
            s->survive = op.c & 1;
            int reaction = (op.c & 15) / 2;
            s->delay_us = reaction == 0 ? -1 : reaction == 1 ? 0 : slows_us[size_t(reaction) % 4];
            s->differ = op.c >> 4;
            S->specs.push_back(s);
            S->addr.push_back(nullptr);
            if (!s->dyn) {
                size_t p = size_t(op.a) % S->sups.size();
                make_act(*S->sups[p]->sup(), s, S->sup_node[p]->bk);
                S->n_static = s->idx + 1;
            }
        } else if (op.k == O_LINK && last) {
            LinkSpec l{op.a, op.b != 0};
            if (l.target < 1000 && (l.target >= S->n_static || l.target == last->idx))
                continue;
            if (l.target >= 1000 && !last->dyn)
                l.op = false; // would wait for each other
            bool dup = false;
            for (auto &q : last->links)
                dup = dup || target_ent(q.target) == target_ent(l.target);
            if (!dup)
                last->links.push_back(l);
        }
    }
    for (auto *nd : S->nodes)
        nd->start();
    if (!pl.p[Q_NOW])
        sim::sleep_ns(5 * sim::MS);
    for (auto &op : pl.ops) {
        sim::yield();
        auto to = [&](size_t i, int k, int a, int b) {
            auto &ad = S->addr[i];
            if (ad)
                ad->supervisor.enqueue(r::make_message<Cmd>(ad, Cmd{k, a, b}));
        };
        switch (op.k) {
        case O_SLEEP:
            sim::sleep_ns(uint64_t(op.a) * sim::US);
            break;
        case O_STOP:
        case O_RLINK:
            if (!S->addr.empty()) {
                r::address_ptr_t ad;
                {
                    sim::NoPreempt np;
                    ad = S->addr[size_t(op.a) % S->addr.size()];
                }
                if (ad)
                    ad->supervisor.enqueue(r::make_message<Cmd>(ad, Cmd{op.k, op.b, op.c}));
            }
            break;
        case O_FSTOP: {
            auto *si = S->sups[size_t(op.a) % S->sups.size()];
            {
                sim::NoPreempt np;
                X(si->ent).asked = true;
            }
            sim::probe("fault:external-stop");
            si->sup()->shutdown();
            break;
        }
        case O_CREATE: {
            kvec<int> d;
            for (auto *s : S->specs)
                if (s->dyn)
                    d.push_back(s->idx);
            if (!d.empty()) {
                auto &h = S->helper[size_t(op.b) % S->helper.size()];
                h->supervisor.enqueue(r::make_message<Cmd>(h, Cmd{O_CREATE, d[size_t(op.a) % d.size()], 0}));
            }
            break;
        }
        default:;
        }
    }
    sim::faults_off();
    bool ok = sim::wait_for(
        [&] {
            for (auto &e : W->ents)
                if (unsettled(e))
                    return false;
            return true;
        },
        120 * sim::SEC, 20 * sim::MS);
    if (!ok)
        for (auto &e : W->ents)
            if (auto *why = unsettled(e))
                FAIL("link/stuck", "%s %d (nr %d, last callback %s, supervisor %d): %s", e.is_sup ? "supervisor" : "actor", e.id,
                     e.tag, cb_name[e.last < 0 ? 0 : e.last], e.parent, why);
    check_destroyed();
    shutdown_and_join(S->nodes, "link/no-shutdown", 500 * sim::SEC);
    S->addr.clear();
    S->helper.clear();
    destroy_all(S->nodes);
}
sim::Reg reg({"C11", "links", gen, run, op_names, pnames, 1, false});
} // namespace
