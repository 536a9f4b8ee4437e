// C15: a system which keeps creating and ending actors does not accumulate memory. The same short lives are repeated; when
// nothing is going on any more, the heap has to look as after the previous round.
#include "mesh.h"
#include <string>
using namespace rs;

namespace {

enum { ROUNDS = 13, WARMUP = 4 };
enum F {
    F_LINK = 1,      // links to a hub
    F_REG = 2,       // registers a name
    F_DISC = 4,      // discovers and links the name of a hub
    F_WAIT = 8,      // waits for a name, which never comes: times out, or is told to stop before
    F_SUB = 16,      // subscribes at a hub
    F_UNSUB = 32,    // and withdraws that itself
    F_REQ = 64,      // asks a hub, which answers, keeps silent or answers too late
    F_TIMER = 128,   // timers, some are pending in the end
    F_FAIL = 256,    // fails to initialize
    F_SPAWN = 512,   // is made by a spawner, twice
    F_NEST = 1024,   // comes with a supervisor of its own
    F_ADDR = 2048,   // makes another address and listens there
    F_PAIR = 4096,   // has a client, which goes with it or at about the same time
    F_N = 13
};
const int lives_us[] = {1, 700, 9000, 45000};
struct payload_res {
    int v;
};
struct payload_req {
    using response_t = payload_res;
    int how;
};
using Req = r::request_traits_t<payload_req>::request::message_t;
using Res = r::request_traits_t<payload_req>::response::message_t;
struct Note {
    int v;
};
struct Cmd {
    int op, a;
};
enum { O_SUP = 1, O_LIFE, O_MAKE, O_STOP };
struct Spec {
    int flags, life_us, hub, sup;
    int id;
};
struct St {
    kvec<Node *> nodes;
    kvec<SupIface *> sups;
    kvec<Node *> sup_node;
    kvec<Spec *> specs;
    kvec<r::address_ptr_t> helper, hub;
    int done = 0; // entities of earlier rounds
    bool race = false;
};
St *S;
Ent &E(int i) { return W->ents[size_t(i)]; }
bool seen(const Ent &e, Cb c) { return (e.seen >> int(c)) & 1u; }
r::extended_error_ptr_t err() { return r::make_error("scripted", std::make_error_code(std::errc::io_error)); }
std::string hub_name(int i) { return "hub-" + std::to_string(i); }

struct hub_t : sact_t {
    using sact_t::sact_t;
    kdeque<r::intrusive_ptr_t<Req>> late;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&hub_t::on_req); });
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) { p.register_name(hub_name(tag), address); });
    }
    void on_req(Req &m) noexcept {
        Scope s(ent);
        send<Note>(address, 1);
        switch (m.payload.request_payload.how) {
        case 0:
            reply_to(m, 1);
            break;
        case 1:
            reply_with_error(m, err());
            break;
        case 2:
            late.push_back(&m);
            start_timer(ms(60), *this, &hub_t::on_late);
            break;
        default:; // never
        }
    }
    void on_late(r::request_id_t, bool) noexcept {
        Scope s(ent);
        auto m = late.front();
        late.pop_front();
        reply_to(*m, 2);
    }
};

struct client_t : sact_t {
    using sact_t::sact_t;
    Spec &sp() { return *static_cast<Spec *>(spec); }
    bool has(int f) { return sp().flags & f; }
    r::address_ptr_t found, never, other, pair;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        auto &hub = S->hub[size_t(sp().hub)];
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) {
            if (has(F_ADDR))
                other = p.create_address();
        });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&client_t::on_res);
            if (has(F_ADDR))
                p.subscribe_actor(&client_t::on_note, other);
            if (has(F_SUB))
                p.subscribe_actor(&client_t::on_note, hub);
        });
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            if (has(F_LINK))
                p.link(hub, sp().id & 1);
        });
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            if (has(F_REG))
                p.register_name("client-" + std::to_string(sp().id), address);
            if (has(F_DISC) && !has(F_LINK))
                p.discover_name(hub_name(sp().hub), found, true).link(false);
            if (has(F_WAIT))
                p.discover_name("nobody", never, true);
        });
    }
    void init_start() noexcept override {
        sact_t::init_start();
        if (has(F_FAIL))
            do_shutdown(err());
        if (has(F_WAIT) && (sp().id & 1))
            start_timer(us(sp().life_us), *this, &client_t::on_end);
    }
    void started() noexcept override {
        start_timer(us(sp().life_us), *this, &client_t::on_end);
        if (has(F_TIMER)) {
            start_timer(us(300), *this, &client_t::on_timer);
            start_timer(ms(LONG_MS), *this, &client_t::on_timer);
            cancel_timer(start_timer(ms(LONG_MS), *this, &client_t::on_timer));
        }
        if (has(F_REQ))
            for (int i = 0; i < 4; ++i)
                request<payload_req>(S->hub[size_t(sp().hub)], i).send(ms(i & 1 ? 20 : int(LONG_MS)));
        if (has(F_ADDR))
            send<Note>(other, 2);
    }
    void on_end(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        if (c)
            return;
        if (has(F_SUB) && has(F_UNSUB) && st() == r::state_t::OPERATIONAL)
            unsubscribe(&client_t::on_note, S->hub[size_t(sp().hub)]);
        if (pair && !(sp().id & 4))
            send<Note>(pair, 3);
        if (sp().id & 2)
            do_shutdown(err());
        else
            do_shutdown();
        if (has(F_NEST) && !has(F_SPAWN))
            supervisor->do_shutdown();
    }
    void on_timer(r::request_id_t, bool) noexcept { Scope s(ent); }
    void on_note(r::message_t<Note> &) noexcept { Scope s(ent); }
    void on_res(Res &) noexcept { Scope s(ent); }
    void stopped() noexcept override {
        found.reset();
        never.reset();
        other.reset();
        pair.reset();
    }
};
r::intrusive_ptr_t<client_t> make_client(r::supervisor_t &sup, Spec *s, const r::address_ptr_t &spawner = {}) {
    return sup.create_actor<client_t>()
        .spec(s)
        .tag(s->id)
        .init_timeout(ms(s->flags & F_WAIT ? 40 : int(LONG_MS)))
        .shutdown_timeout(ms(LONG_MS))
        .spawner_address(spawner)
        .finish();
}
struct pair_t : sact_t {
    using sact_t::sact_t;
    r::address_ptr_t server;
    int life_us = 0;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) { p.link(server, tag & 1); });
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&pair_t::on_note); });
    }
    void on_note(r::message_t<Note> &) noexcept {
        Scope s(ent);
        do_shutdown();
    }
    void started() noexcept override {
        if (tag & 6)
            start_timer(us(life_us + (tag & 2 ? 0 : 20)), *this, &pair_t::on_end);
    }
    void on_end(r::request_id_t, bool c) noexcept {
        Scope s(ent);
        if (!c)
            do_shutdown();
    }
    void stopped() noexcept override { server.reset(); }
};
struct helper_t : sact_t {
    using sact_t::sact_t;
    kvec<r::supervisor_ptr_t> keep; // addresses do not keep their supervisor alive, others might still answer
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&helper_t::on_cmd); });
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope sc(ent);
        if (m.payload.op == O_STOP) {
            keep.clear();
            return;
        }
        auto *s = S->specs[size_t(m.payload.a)];
        auto *sup = supervisor;
        if (s->flags & F_SPAWN) {
            sup->spawn([s](r::supervisor_t &sp, const r::address_ptr_t &ad) { return make_client(sp, s, ad); })
                .restart_policy(r::restart_policy_t::always)
                .restart_period(us(s->life_us))
                .max_attempts(2)
                .spawn();
            return;
        }
        if (s->flags & F_NEST) {
            SupOpts so;
            so.init_ms = so.shutdown_ms = LONG_MS;
            for (size_t i = 0; i < S->sups.size(); ++i)
                if (S->sups[i]->sup() == supervisor) {
                    sup = S->sup_node[i]->make_child(*supervisor, so)->sup();
                    sim::NoPreempt np;
                    (S->race ? S->sup_node[i]->keep : keep).push_back(sup);
                }
        }
        auto a = make_client(*sup, s);
        if (s->flags & F_PAIR) {
            auto p = supervisor->create_actor<pair_t>().tag(s->id).init_timeout(ms(100)).shutdown_timeout(ms(LONG_MS)).finish();
            p->server = a->get_address();
            p->life_us = s->life_us;
            a->pair = p->get_address();
        }
    }
};
bool over(const Ent &e) { return seen(e, e.is_sup ? Cb::shutdown_finish : Cb::dtor); }
bool round_over() {
    for (size_t i = size_t(S->done); i < W->ents.size(); ++i)
        if (!over(W->ents[i]))
            return false;
    return true;
}
void tell_helpers(int op) {
    for (auto &h : S->helper)
        h->supervisor.enqueue(r::make_message<Cmd>(h, Cmd{op, 0}));
}

const char *op_names[] = {"", "supervisor(parent,strand)", "life(sup,what,life,hub)"};
const char *pnames[sim::NPARAM] = {"nodes-1", "backend0", "backend1", "asio threads-1", "strands-1", "latency_us", "timer_late_us", "poll_us"};
enum { Q_N, Q_B0, Q_B1, Q_THR, Q_STR, Q_LAT, Q_LATE, Q_POLL };

void gen(Rng &g, Plan &pl) {
    int n = g.range(1, 2);
    auto b = pick_backends(g, n, 0x3f);
    pl.p[Q_N] = int(b.size()) - 1;
    for (int i = 0; i < int(b.size()); ++i)
        pl.p[Q_B0 + i] = b[size_t(i)];
    pl.p[Q_THR] = g.range(0, 1);
    pl.p[Q_STR] = g.range(0, 1);
    pl.p[Q_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000});
    pl.p[Q_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[Q_POLL] = g.pick({0, 0, 5, 100});
    int ns = g.range(0, 2), nl = g.range(1, 4);
    for (int i = 0; i < ns; ++i)
        pl.ops.push_back(Op{O_SUP, g.range(0, 99), g.range(0, 2), 0, 0});
    for (int i = 0; i < nl; ++i) {
        int f = 0, k = g.range(1, 4);
        for (int j = 0; j < k; ++j)
            f |= 1 << g.range(0, F_N - 1);
        pl.ops.push_back(Op{O_LIFE, g.range(0, 99), f, g.range(0, 3), g.range(0, 99)});
    }
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    S->race = pl.race;
    NodeCfg nc;
    nc.threads = pl.p[Q_THR] + 1;
    nc.strands = pl.p[Q_STR] + 1;
    nc.latency_us = pl.p[Q_LAT];
    nc.timer_late_us = pl.p[Q_LATE];
    SupOpts o;
    o.poll_us = pl.p[Q_POLL];
    o.init_ms = o.shutdown_ms = LONG_MS;
    o.policy = r::supervisor_policy_t::shutdown_failed;
    r::address_ptr_t reg;
    auto add = [&](SupIface *si, Node *nd) {
        S->sups.push_back(si);
        S->sup_node.push_back(nd);
        auto a = si->sup()->create_actor<helper_t>().timeout(ms(LONG_MS)).finish();
        S->helper.push_back(a->get_address());
    };
    for (int i = 0; i <= pl.p[Q_N]; ++i) {
        auto *nd = make_node(BK(pl.p[Q_B0 + i]), i, nc);
        S->nodes.push_back(nd);
        SupOpts ro = o;
        if (i)
            ro.registry_addr = reg;
        else
            ro.registry = true;
        auto *si = nd->make_root(ro);
        if (!i)
            reg = si->sup()->get_registry_address();
        add(si, nd);
        S->hub.push_back(si->sup()->create_actor<hub_t>().tag(i).timeout(ms(LONG_MS)).finish()->get_address());
    }
    for (auto &op : pl.ops)
        if (op.k == O_SUP && S->sups.size() < 4) {
            size_t p = size_t(op.a) % S->sups.size();
            SupOpts so = o;
            so.strand = op.b;
            auto *nd = S->sup_node[p];
            auto *c = nd->make_child(*S->sups[p]->sup(), so);
            nd->keep.push_back(c->sup());
            add(c, nd);
        } else if (op.k == O_LIFE) {
            auto *s = new (malloc(sizeof(Spec))) Spec{op.b, lives_us[size_t(op.c) % 4], int(size_t(op.d) % S->hub.size()), 0, int(S->specs.size())};
            s->sup = op.a;
            S->specs.push_back(s);
        }
    for (auto *nd : S->nodes)
        nd->start();
    bool ok = sim::wait_for(
        [&] {
            for (auto &e : W->ents)
                if (!seen(e, Cb::start))
                    return false;
            return true;
        },
        120 * sim::SEC, 5 * sim::MS);
    if (!ok)
        FAIL("churn/stuck", "the system does not start");
    S->done = int(W->ents.size());
    kmap<void *, uint32_t> last, first;
    kmap<void *, int> grown;
    for (int round = 0; round < ROUNDS; ++round) {
        for (auto *s : S->specs) {
            sim::yield();
            auto &h = S->helper[size_t(s->sup) % S->helper.size()];
            h->supervisor.enqueue(r::make_message<Cmd>(h, Cmd{O_MAKE, s->id}));
        }
        sim::sleep_ns(300 * sim::MS);
        ok = sim::wait_for([&] { return round_over(); }, 120 * sim::SEC, 20 * sim::MS);
        if (!ok)
            for (size_t i = size_t(S->done); i < W->ents.size(); ++i)
                if (auto &e = W->ents[i]; !over(e)) {
                    if (seen(e, Cb::shutdown_finish))
                        FAIL("leak/actor", "%s %d (life %d) has shut down and nobody refers to it, but it is not destroyed while the "
                                           "system keeps running",
                             e.is_sup ? "supervisor" : "actor", e.id, e.tag);
                    FAIL("churn/stuck", "%s %d (life %d, last callback %s) does not end", e.is_sup ? "supervisor" : "actor", e.id, e.tag,
                         cb_name[e.last < 0 ? 0 : e.last]);
                }
        sim::sleep_ns(500 * sim::MS); // late answers, cancelled timers
        if (!pl.race) // others touched the supervisors, and nothing orders that and their end
            tell_helpers(O_STOP);
        ok = pl.race || sim::wait_for(
            [&] {
                for (size_t i = size_t(S->done); i < W->ents.size(); ++i)
                    if (!seen(W->ents[i], Cb::dtor))
                        return false;
                return true;
            },
            120 * sim::SEC, 20 * sim::MS);
        if (!ok)
            FAIL("leak/actor", "a nested supervisor has shut down and nobody refers to it, but it is not destroyed while the system "
                               "keeps running");
        S->done = int(W->ents.size());
        sim::sleep_ns(100 * sim::MS);
        kmap<void *, uint32_t> now;
        sim::heap_sites(now);
        sim::probe("rounds");
        if (round >= WARMUP)
            for (auto &[site, n] : now)
                if (n > last[site])
                    ++grown[site];
        if (round == WARMUP)
            first = now;
        last = now;
    }
    for (auto &[site, g] : grown)
        if (g == ROUNDS - WARMUP && !pl.race)
            FAIL("leak/growth", "each of the last %d equal rounds of short lives leaves more memory behind: %u blocks allocated from %p, "
                                "there were %u",
                 g, last[site], site, first[site]);
    S->helper.clear();
    S->hub.clear();
    reg.reset();
    shutdown_and_join(S->nodes, "churn/no-shutdown", 500 * sim::SEC);
    destroy_all(S->nodes);
}
sim::Reg reg_({"C15", "churn", gen, run, op_names, pnames, 30, false});
} // namespace
