// C13: resources held by actors and supervisors at every stage of their lives, acquired and released everywhere.
#include "mesh.h"
using namespace rs;

namespace {
enum Where { W_CONF_PRE, W_CONF, W_START_PRE, W_START, W_INIT_START, W_LINK_CB, W_INIT_FINISH, W_ON_START, W_STOPPING, W_UNLINK, W_N };
enum Mode { R_NOW, R_TIMER, R_MSG, R_LINKCB, R_STOP, R_NEXT, R_N }; // when it is released
const int slows_us[] = {1, 300, 9000, 90000, 400000};
const int shorts_ms[] = {20, 150};
enum { NRES = 5 };
struct Step {
    int where, mode, id, slow;
};
struct Spec {
    int idx = 0, link = -1, op = 0;
    int timeout_ms = LONG_MS;
    bool fail = false, dyn = false, born = false;
    int unlink = 0; // >0: it lets its server wait that long before it unlinks
    kvec<Step> steps;
    r::address_ptr_t addr;
    int ent = -1;
};
struct Cmd {
    int op, a, b, c;
};
struct Hop {
    int id, left;
};
struct EX {
    Spec *spec = nullptr;
    bool asked = false, told = false, link_err = false;
    bool linked = false, unlinks = false; // to its server; has been asked to unlink and does so
    int cnt[NRES] = {0};
    int total = 0;
    r::plugin::resources_plugin_t *res = nullptr;
};
struct St {
    kvec<Node *> nodes;
    kvec<SupIface *> sups;
    kvec<Spec *> specs;
    kvec<r::address_ptr_t> helper;
    kvec<EX> x;
};
St *S;
EX &X(int e) {
    sim::NoPreempt np;
    S->x.reserve(8192); // references stay valid
    while (int(S->x.size()) <= e)
        S->x.emplace_back();
    return S->x[size_t(e)];
}
Ent &E(int i) { return W->ents[size_t(i)]; }
bool seen(const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; }
r::extended_error_ptr_t err() { return r::make_error("scripted", std::make_error_code(std::errc::io_error)); }

enum { O_SUP = 1, O_ACT, O_STEP, O_ACQ, O_STOP, O_FSTOP, O_CREATE, O_SACQ, O_SLEEP };
const char *op_names[] = {"", "supervisor(parent,strand,sync+2*held+8*slow)", "actor(sup,link,short+2*fail+4*later+8*operational,unlinks-late)",
                          "acquires(where,release-mode,resource,slow)", "acquire-command(actor,release-mode,resource,slow)", "stop(actor,how)",
                          "stop-supervisor-from-a-thread(sup)", "create-actor(nr,at-sup)", "acquire-for-supervisor(sup,slow)", "sleep(us)"};
const char *pnames[sim::NPARAM] = {"nodes-1", "backend0", "backend1", "asio threads-1", "strands-1", "latency_us",
                                   "timer_late_us", "poll_us", "start at once"};
enum { Q_N, Q_B0, Q_B1, Q_THR, Q_STR, Q_LAT, Q_LATE, Q_POLL, Q_NOW };

// every acquisition and release goes through these two and is compared with the model
void acquire(int ent, int id) {
    EX *x;
    {
        sim::NoPreempt np;
        x = &X(ent);
        ++x->cnt[id], ++x->total;
        sim::obs("acquire", ent, id, x->cnt[id]);
        sim::probe("acquired");
    }
    X(ent).res->acquire(r::plugin::resource_id_t(id));
    sim::NoPreempt np;
    if (int(X(ent).res->has(r::plugin::resource_id_t(id))) != X(ent).cnt[id] || !X(ent).res->has_any())
        FAIL("resources/count", "entity %d: resource %d is held %d times, the plugin says %d", ent, id, X(ent).cnt[id],
             int(X(ent).res->has(r::plugin::resource_id_t(id))));
}
void release(int ent, int id) {
    bool left;
    r::plugin::resources_plugin_t *p;
    {
        sim::NoPreempt np;
        auto &x = X(ent);
        p = x.res;
        if (x.cnt[id] <= 0)
            FAIL("resources/harness", "released too often");
        for (int i = 0; i < NRES + 2; ++i)
            if (int(p->has(r::plugin::resource_id_t(i))) != (i < NRES ? x.cnt[i] : 0))
                FAIL("resources/count", "entity %d: resource %d is held %d times, the plugin says %d", ent, i, i < NRES ? x.cnt[i] : 0,
                     int(p->has(r::plugin::resource_id_t(i))));
        --x.cnt[id], --x.total;
        left = x.total > 0;
        sim::obs("release", ent, id, x.cnt[id]);
        if (!left)
            sim::probe("last-release");
    }
    bool ret = p->release(r::plugin::resource_id_t(id));
    if (ret != left)
        FAIL("resources/count", "entity %d: release says %d, %d resources are held", ent, int(ret), int(left));
}

struct act_t : sact_t {
    using sact_t::sact_t;
    Spec &sp() { return *static_cast<Spec *>(spec); }
    r::address_ptr_t target;
    r::plugin::link_client_plugin_t *links = nullptr;
    r::intrusive_ptr_t<r::message::unlink_request_t> to_unlink;
    kvec<int> in_link, in_stop, in_next; // to be released then
    kmap<r::request_id_t, int> in_timer;

    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        using Ph = r::plugin::config_phase_t;
        p.with_casted<r::plugin::resources_plugin_t>(
            [&](auto &p) {
                {
                    sim::NoPreempt np;
                    X(ent).res = &p;
                    X(ent).spec = &sp();
                    if (sp().link >= 0)
                        target = S->specs[size_t(sp().link)]->addr;
                }
                at(W_CONF_PRE);
            },
            Ph::PREINIT);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { at(W_CONF); }, Ph::INITIALIZING);
        p.with_casted<r::plugin::starter_plugin_t>(
            [&](auto &p) {
                p.subscribe_actor(&act_t::on_cmd);
                p.subscribe_actor(&act_t::on_hop);
                at(W_START_PRE);
            },
            Ph::PREINIT);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { at(W_START); }, Ph::INITIALIZING);
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            if (target) {
                links = &p;
                p.on_unlink([this](r::message::unlink_request_t &m) {
                    if (sp().unlink && st() < r::state_t::SHUTTING_DOWN && !to_unlink) {
                        sim::probe("unlinks-late");
                        to_unlink = &m;
                        start_timer(us(slows_us[size_t(sp().unlink) % 5]), *this, &act_t::on_forget);
                        return true;
                    }
                    sim::NoPreempt np;
                    X(ent).unlinks = true;
                    return false;
                });
                p.link(target, sp().op, [this](const r::extended_error_ptr_t &ec) {
                    if (ec) {
                        sim::NoPreempt np;
                        X(ent).link_err = true;
                        sim::probe("link-failed");
                    } else {
                        sim::NoPreempt np;
                        X(ent).linked = true;
                    }
                    flush(in_link);
                    if (st() < r::state_t::SHUTTING_DOWN)
                        at(W_LINK_CB);
                });
            }
        });
    }
    void on_forget(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        auto m = std::move(to_unlink);
        if (c)
            return;
        {
            sim::NoPreempt np;
            X(ent).unlinks = true;
        }
        links->forget_link(*m);
    }
    // its shutdown cannot go on before that of a client
    bool waits_for_client() {
        sim::NoPreempt np;
        for (auto *o : S->specs) {
            if (o->link != sp().idx || o->ent < 0)
                continue;
            auto &x = X(o->ent);
            if (x.linked && !x.unlinks && (!seen(E(o->ent), Cb::shutdown_start) || x.total > 0)) {
                sim::probe("acquired-late");
                return true;
            }
        }
        return false;
    }
    void flush(kvec<int> &v) {
        kvec<int> c;
        c.swap(v);
        for (int id : c)
            release(ent, id);
    }
    void at(int where) {
        kvec<Step> c;
        {
            sim::NoPreempt np;
            flush_next(c, where);
        }
        kvec<int> n;
        n.swap(in_next);
        for (auto &s : c)
            take(s);
        for (int id : n)
            release(ent, id);
    }
    void flush_next(kvec<Step> &c, int where) {
        for (auto &s : sp().steps)
            if (s.where == where)
                c.push_back(s);
    }
    void take(const Step &s) {
        if (!X(ent).res) // too early
            return;
        if (st() == r::state_t::SHUT_DOWN || (st() == r::state_t::SHUTTING_DOWN && !X(ent).total && s.where != W_STOPPING && !waits_for_client()))
            return;
        acquire(ent, s.id);
        bool early = s.where == W_CONF_PRE || s.where == W_START_PRE;
        later(!early && (s.mode == R_NEXT || s.mode == R_LINKCB) ? int(R_TIMER) : s.mode, s.id, s.slow);
    }
    void later(int mode, int id, int slow) {
        bool down = st() >= r::state_t::SHUTTING_DOWN;
        if (down && mode != R_NOW && mode != R_MSG)
            mode = R_TIMER;
        switch (mode) {
        case R_NOW:
            return release(ent, id);
        case R_MSG:
            return send<Hop>(address, id, slow * 2);
        case R_LINKCB:
            if (target) {
                in_link.push_back(id);
                return;
            }
            break;
        case R_STOP:
            if (st() >= r::state_t::INITIALIZED) {
                in_stop.push_back(id);
                return;
            }
            break;
        case R_NEXT:
            if (st() < r::state_t::INITIALIZED) {
                in_next.push_back(id);
                return;
            }
            break;
        default:;
        }
        auto t = start_timer(us(slows_us[size_t(slow) % 5]), *this, &act_t::on_t);
        in_timer[t] = id;
    }
    void on_t(r::request_id_t t, bool c) noexcept {
        Scope s(ent);
        int id = in_timer[t];
        in_timer.erase(t);
        if (c)
            FAIL("resources/finished", "actor %d finished its shutdown while it holds resource %d", ent, id);
        release(ent, id);
    }
    void init_start() noexcept override {
        sact_t::init_start();
        at(W_INIT_START);
        if (sp().fail) {
            {
                sim::NoPreempt np;
                X(ent).asked = true;
            }
            do_shutdown(err());
        }
    }
    void init_finish() noexcept override {
        sact_t::init_finish();
        at(W_INIT_FINISH);
    }
    void started() noexcept override { at(W_ON_START); }
    void stopping() noexcept override {
        // whatever waits for something which may not happen any more
        kvec<int> v;
        for (auto *q : {&in_link, &in_stop, &in_next}) {
            for (int id : *q)
                v.push_back(id);
            q->clear();
        }
        at(W_STOPPING);
        int i = 0;
        for (int id : v)
            later(i++ % 2 ? R_TIMER : R_MSG, id, ent % 4);
    }
    bool on_unlink(const r::address_ptr_t &) noexcept override {
        {
            sim::NoPreempt np;
            X(ent).told = true;
        }
        at(W_UNLINK);
        return true;
    }
    void on_hop(r::message_t<Hop> &m) noexcept {
        Scope s(ent);
        if (m.payload.left > 0)
            return send<Hop>(address, m.payload.id, m.payload.left - 1);
        release(ent, m.payload.id);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        auto c = m.payload;
        if (c.op == O_STOP) {
            if (st() >= r::state_t::SHUTTING_DOWN)
                return;
            {
                sim::NoPreempt np;
                X(ent).asked = true;
            }
            if (c.a)
                do_shutdown(err());
            else
                do_shutdown();
        } else {
            take(Step{W_N, c.a, c.b, c.c});
        }
    }
};
void make_act(r::supervisor_t &sup, Spec *s) {
    auto a = sup.create_actor<act_t>().spec(s).tag(s->idx).init_timeout(ms(s->timeout_ms)).shutdown_timeout(ms(LONG_MS)).finish();
    sim::NoPreempt np;
    s->born = true;
    s->ent = a->ent;
    X(a->ent).spec = s;
    s->addr = a->get_address();
}
// creates actors later, and holds resources on behalf of its supervisor
struct helper_t : sact_t {
    using sact_t::sact_t;
    int sent = -1, pending = 0;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&helper_t::on_cmd); });
        // the supervisor has acquired `tag & 3` of them for its initialization
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            {
                sim::NoPreempt np;
                X(ent).res = &p;
                sent = ent_of_sup(*supervisor);
            }
            for (int i = 0; i < (tag & 3); ++i)
                hold(slows_us[size_t((tag >> 2) + i) % 5]);
        });
    }
    void hold(int slow) {
        ++pending;
        start_timer(us(slow), *this, &helper_t::on_t);
    }
    void on_t(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        if (c)
            FAIL("resources/finished", "supervisor %d shuts its children down while it holds a resource", sent);
        --pending;
        release(sent, 1);
        if (X(ent).total)
            release(ent, 0);
    }
    // outlives what it does for the supervisor
    void stopping() noexcept override {
        for (int i = 0; i < pending; ++i)
            acquire(ent, 0);
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope sc(ent);
        if (m.payload.op == O_SACQ) {
            {
                sim::NoPreempt np;
                if ((seen(E(sent), Cb::shutdown_start) && !X(sent).total) || st() >= r::state_t::SHUTTING_DOWN)
                    return;
            }
            acquire(sent, 1);
            return hold(slows_us[size_t(m.payload.a) % 5]);
        }
        auto *s = S->specs[size_t(m.payload.a)];
        {
            sim::NoPreempt np;
            if (s->born || seen(E(sent), Cb::shutdown_start))
                return;
            s->born = true;
        }
        make_act(*supervisor, s);
    }
};

void listener(Ent &e, Cb c) {
    auto &x = X(e.id);
    if (c == Cb::init_finish) {
        if (x.total)
            FAIL("resources/finished", "%s %d finished its initialization while it holds %d resources", e.is_sup ? "supervisor" : "actor", e.id, x.total);
        if (x.link_err)
            FAIL("resources/failed", "actor %d finished its initialization, which had failed", e.id);
    }
    if (c == Cb::shutdown_finish && x.total)
        FAIL("resources/finished", "%s %d finished its shutdown while it holds %d resources", e.is_sup ? "supervisor" : "actor", e.id, x.total);
}
const char *unsettled(Ent &e) {
    if (seen(e, Cb::shutdown_finish))
        return nullptr;
    auto &x = X(e.id);
    if (seen(e, Cb::shutdown_start))
        return "it began to shut down and does not finish";
    if (x.asked)
        return "it was asked to stop and does not";
    if (x.told)
        return "it was told to unlink and does not shut down";
    if (e.parent >= 0 && seen(E(e.parent), Cb::shutdown_start))
        return "its supervisor shuts down and it does not";
    if (x.spec && x.link_err && !seen(e, Cb::init_finish))
        return "its link failed and it does not stop";
    if (seen(e, Cb::start))
        return nullptr;
    if (seen(e, Cb::init_finish))
        return e.parent >= 0 && seen(E(e.parent), Cb::start) ? "it is initialized and does not start" : nullptr;
    if (x.spec) {
        if (x.spec->timeout_ms != LONG_MS)
            return "its initialization does not time out";
        if (x.spec->link >= 0) {
            auto *o = S->specs[size_t(x.spec->link)];
            if (o->ent >= 0 && ((x.spec->op && !seen(E(o->ent), Cb::start)) || is_down(E(o->ent))))
                return nullptr; // waits for its server, or for the timeout of the link to a dead one
        }
        if (!seen(E(e.parent), Cb::init_start))
            return nullptr;
        return x.total ? "the harness does not release its resources" : "it holds nothing and does not finish its initialization";
    }
    for (auto &k : W->ents)
        if (k.parent == e.id && !seen(k, Cb::init_finish) && !seen(k, Cb::shutdown_finish))
            return nullptr; // waits for a child
    return "it holds nothing and does not finish its initialization";
}

void gen(Rng &g, Plan &pl) {
    int n = g.range(1, 2);
    auto b = pick_backends(g, n, 0x3f);
    pl.p[Q_N] = int(b.size()) - 1;
    for (int i = 0; i < int(b.size()); ++i)
        pl.p[Q_B0 + i] = b[size_t(i)];
    pl.p[Q_THR] = g.range(0, 2);
    pl.p[Q_STR] = g.range(0, 2);
    pl.p[Q_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000, 30000});
    pl.p[Q_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[Q_POLL] = g.pick({0, 0, 5, 100});
    pl.p[Q_NOW] = g.one_in(2);
    int ns = g.range(0, 3), na = g.range(1, 5), nd = g.range(0, 3);
    for (int i = 0; i < ns; ++i)
        pl.ops.push_back(Op{O_SUP, g.range(0, 99), g.range(0, 2), g.range(0, 1) + 2 * (g.one_in(2) ? g.range(1, 3) : 0) + 8 * g.range(0, 4), 0});
    bool shorts = g.one_in(3);
    for (int i = 0; i < na + nd; ++i) {
        bool later = i >= na || g.one_in(4);
        pl.ops.push_back(Op{O_ACT, g.range(0, 99), i && g.one_in(2) ? 1 + g.range(std::max(0, i - 3), i - 1) : 0,
                            (shorts && g.one_in(2) ? 1 : 0) + (g.one_in(later ? 8 : 25) ? 2 : 0) + (later ? 4 : 0) + (g.one_in(3) ? 8 : 0), g.one_in(2) ? g.range(1, 4) : 0});
        int k = g.one_in(5) ? 0 : g.range(1, 4);
        for (int j = 0; j < k; ++j)
            pl.ops.push_back(Op{O_STEP, g.range(0, W_N - 1), g.range(0, R_N - 1), g.range(0, NRES - 1), g.range(0, 4)});
    }
    int ops = g.range(1, 20);
    int hot = g.range(0, na - 1);
    bool narrow = g.one_in(2);
    for (int i = 0; i < ops; ++i) {
        int a = narrow && g.one_in(2) ? hot : g.range(0, 99);
        switch (g.below(12)) {
        case 0: case 1:
            pl.ops.push_back(Op{O_STOP, a, g.range(0, 1), 0, 0});
            break;
        case 2: case 3: case 4: case 5:
            pl.ops.push_back(Op{O_ACQ, a, g.range(0, R_N - 1), g.range(0, NRES - 1), g.range(0, 4)});
            break;
        case 6:
            if (g.one_in(2))
                pl.ops.push_back(Op{O_FSTOP, a, 0, 0, 0});
            break;
        case 7:
            pl.ops.push_back(Op{O_CREATE, a, g.range(0, 99), 0, 0});
            break;
        case 8:
            pl.ops.push_back(Op{O_SACQ, a, g.range(0, 4), 0, 0});
            break;
        default:
            pl.ops.push_back(Op{O_SLEEP, g.pick({1, 30, 800, 6000, 35000, 250000}), 0, 0, 0});
        }
    }
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    W->on_cb = listener;
    W->check_life = true;
    NodeCfg nc;
    nc.threads = pl.p[Q_THR] + 1;
    nc.strands = pl.p[Q_STR] + 1;
    nc.latency_us = pl.p[Q_LAT];
    nc.timer_late_us = pl.p[Q_LATE];
    SupOpts o;
    o.poll_us = pl.p[Q_POLL];
    o.init_ms = o.shutdown_ms = LONG_MS;
    kvec<Node *> sup_node;
    auto prepare = [&](SupOpts &so, int held) {
        so.prepare = [held](SupIface &si) {
            auto *ip = &si;
            int e = si.ent;
            si.configure_cb = [ip, e, held](r::supervisor_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
                    {
                        sim::NoPreempt np;
                        X(e).res = &p;
                    }
                    for (int i = 0; i < held; ++i)
                        acquire(e, 1);
                }, r::plugin::config_phase_t::PREINIT);
            };
        };
    };
    auto add = [&](SupIface *si, Node *nd, int tag) {
        S->sups.push_back(si);
        sup_node.push_back(nd);
        auto a = si->sup()->create_actor<helper_t>().tag(tag).timeout(ms(LONG_MS)).finish();
        S->helper.push_back(a->get_address());
    };
    for (int i = 0; i <= pl.p[Q_N]; ++i) {
        auto *nd = make_node(BK(pl.p[Q_B0 + i]), i, nc);
        S->nodes.push_back(nd);
        SupOpts ro = o;
        prepare(ro, 0);
        add(nd->make_root(ro), nd, 0);
    }
    for (auto &op : pl.ops)
        if (op.k == O_SUP && S->sups.size() < 6) {
            size_t p = size_t(op.a) % S->sups.size();
            SupOpts so = o;
            so.strand = op.b;
            so.sync_start = op.c & 1;
            int held = (op.c >> 1) & 3;
            prepare(so, held);
            auto *nd = sup_node[p];
            auto *c = nd->make_child(*S->sups[p]->sup(), so);
            nd->keep.push_back(c->sup());
            add(c, nd, held | ((op.c >> 3) << 2));
        }
    auto place = [&](int a) { return size_t(a) % S->sups.size(); };
    Spec *last = nullptr;
    for (auto &op : pl.ops) {
        if (op.k == O_ACT) {
            auto *s = last = new (malloc(sizeof(Spec))) Spec();
            s->idx = int(S->specs.size());
            s->link = op.b - 1 < s->idx ? op.b - 1 : -1;
            s->timeout_ms = op.c & 1 ? shorts_ms[size_t(s->idx) % 2] : int(LONG_MS);
            s->fail = op.c & 2;
            s->dyn = op.c & 4;
            s->op = (op.c & 8) != 0;
            s->unlink = op.d;
            S->specs.push_back(s);
        } else if (op.k == O_STEP && last) {
            last->steps.push_back(Step{op.a, op.b, op.c, op.d});
        }
    }
    {
        size_t i = 0;
        for (auto &op : pl.ops)
            if (op.k == O_ACT) {
                auto *s = S->specs[i++];
                if (!s->dyn)
                    make_act(*S->sups[place(op.a)]->sup(), s);
            }
    }
    for (auto *nd : S->nodes)
        nd->start();
    if (!pl.p[Q_NOW])
        sim::sleep_ns(5 * sim::MS);
    for (auto &op : pl.ops) {
        sim::yield();
        switch (op.k) {
        case O_SLEEP:
            sim::sleep_ns(uint64_t(op.a) * sim::US);
            break;
        case O_STOP:
        case O_ACQ: {
            if (S->specs.empty())
                break;
            r::address_ptr_t ad;
            {
                sim::NoPreempt np;
                ad = S->specs[size_t(op.a) % S->specs.size()]->addr;
            }
            if (ad)
                ad->supervisor.enqueue(r::make_message<Cmd>(ad, Cmd{op.k, op.b, op.c, op.d}));
            break;
        }
        case O_FSTOP: {
            auto *si = S->sups[place(op.a)];
            {
                sim::NoPreempt np;
                X(si->ent).asked = true;
            }
            sim::probe("fault:external-stop");
            si->sup()->shutdown();
            break;
        }
        case O_CREATE: {
            kvec<int> d;
            for (auto *s : S->specs)
                if (s->dyn)
                    d.push_back(s->idx);
            if (!d.empty()) {
                auto &h = S->helper[place(op.b)];
                h->supervisor.enqueue(r::make_message<Cmd>(h, Cmd{O_CREATE, d[size_t(op.a) % d.size()], 0, 0}));
            }
            break;
        }
        case O_SACQ: {
            auto &h = S->helper[place(op.a)];
            h->supervisor.enqueue(r::make_message<Cmd>(h, Cmd{O_SACQ, op.b, 0, 0}));
            break;
        }
        default:;
        }
    }
    sim::faults_off();
    bool ok = sim::wait_for(
        [&] {
            for (auto &e : W->ents)
                if (unsettled(e))
                    return false;
            return true;
        },
        120 * sim::SEC, 20 * sim::MS);
    if (!ok)
        for (auto &e : W->ents)
            if (auto *why = unsettled(e))
                FAIL("resources/stuck", "%s %d (nr %d, last callback %s, supervisor %d): %s", e.is_sup ? "supervisor" : "actor", e.id,
                     e.tag, cb_name[e.last < 0 ? 0 : e.last], e.parent, why);
    check_destroyed();
    shutdown_and_join(S->nodes, "resources/no-shutdown", 500 * sim::SEC);
    for (auto *s : S->specs)
        s->addr.reset();
    S->helper.clear();
    destroy_all(S->nodes);
}
sim::Reg reg_({"C13", "resources", gen, run, op_names, pnames, 1, false});
} // namespace
