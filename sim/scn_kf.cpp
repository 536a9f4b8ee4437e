// One dedicated scenario per listed finding (known_findings.txt).
#include "mesh.h"
using namespace rs;

namespace {
const char *op_names[] = {""};
const char *pnames[sim::NPARAM] = {""};
void gen(Rng &, Plan &) {}
struct Ping {
    int n;
};

// C02: asio supervisors which share a strand, but are separated by one on another strand
int got;
struct recv_t : sact_t {
    using sact_t::sact_t;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&recv_t::on_ping); });
    }
    void on_ping(r::message_t<Ping> &) noexcept { ++got; }
};
struct send_t : sact_t {
    using sact_t::sact_t;
    r::address_ptr_t to;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&send_t::on_ping); });
    }
    void on_ping(r::message_t<Ping> &m) noexcept { send<Ping>(to, m.payload.n); }
};
bool all_started() {
    for (auto &e : W->ents)
        if (!(e.seen & (1u << int(Cb::start))))
            return false;
    return true;
}
void run_strands(Plan &) {
    world_init();
    NodeCfg nc;
    nc.strands = 2;
    kvec<Node *> nodes;
    auto *nd = make_node(B_ASIO, 0, nc);
    nd->split_strands = true;
    nodes.push_back(nd);
    SupOpts o;
    o.init_ms = o.shutdown_ms = LONG_MS;
    auto *root = nd->make_root(o);
    SupOpts c1 = o, c2 = o;
    c1.strand = 1;
    c2.strand = 2; // = 0
    auto *s1 = nd->make_child(*root->sup(), c1);
    nd->keep.push_back(s1->sup());
    auto *s2 = nd->make_child(*s1->sup(), c2);
    nd->keep.push_back(s2->sup());
    auto a = root->sup()->create_actor<send_t>().timeout(ms(LONG_MS)).finish();
    auto b = s2->sup()->create_actor<recv_t>().timeout(ms(LONG_MS)).finish();
    a->to = b->get_address();
    auto ad = a->get_address();
    a.reset();
    b.reset();
    nd->start();
    sim::faults_off();
    bool up = sim::wait_for(all_started, 10 * sim::SEC);
    if (up) {
        for (int i = 0; i < 5; ++i)
            root->sup()->enqueue(r::make_message<Ping>(ad, Ping{i}));
        bool ok = sim::wait_for([] { return got == 5; }, 10 * sim::SEC);
        if (!ok)
            FAIL("msg/lost", "%d of 5 messages between supervisors which share a strand were not delivered", 5 - got);
    } else
        FAIL("msg/lost", "the supervisors which share a strand do not start: messages between them are lost");
    ad.reset();
    shutdown_and_join(nodes, "msg/no-shutdown", 500 * sim::SEC);
    destroy_all(nodes);
}

// C09: the policy shutdown_failed
struct fail_t : sact_t {
    using sact_t::sact_t;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::resources_plugin_t>([](auto &p) { p.acquire(0); },
                                                     r::plugin::config_phase_t::INITIALIZING);
    }
    void stopping() noexcept override { start_timer(us(100), *this, &fail_t::on_t); }
    void on_t(r::request_id_t, bool) noexcept {
        static_cast<r::plugin::resources_plugin_t *>(get_plugin(r::plugin::resources_plugin_t::class_identity))->release(0);
    }
};
void run_policy(Plan &) {
    world_init();
    kvec<Node *> nodes;
    auto *nd = make_node(B_SIM, 0, NodeCfg());
    nodes.push_back(nd);
    SupOpts o;
    o.init_ms = o.shutdown_ms = LONG_MS;
    o.policy = r::supervisor_policy_t::shutdown_failed;
    auto *root = nd->make_root(o);
    root->sup()->create_actor<fail_t>().init_timeout(ms(20)).shutdown_timeout(ms(1000)).finish();
    root->sup()->create_actor<recv_t>().timeout(ms(1000)).finish();
    nd->start();
    sim::faults_off();
    sim::sleep_ns(2 * sim::SEC);
    auto &e = W->ents[size_t(root->ent)];
    if (!is_up(e))
        FAIL("policy/shutdown-failed", "a supervisor with the policy shutdown_failed shuts itself down when a child fails to "
                                       "initialize");
    shutdown_and_join(nodes, "msg/no-shutdown", 500 * sim::SEC);
    destroy_all(nodes);
}
// C15: a reply to a supervisor, which is gone
struct ask_res {};
struct ask_req {
    using response_t = ask_res;
};
using Ask = r::request_traits_t<ask_req>::request::message_t;
using Answer = r::request_traits_t<ask_req>::response::message_t;
struct late_t : sact_t {
    using sact_t::sact_t;
    r::intrusive_ptr_t<Ask> req;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&late_t::on_ask); });
    }
    void on_ask(Ask &m) noexcept {
        req = &m;
        start_timer(ms(500), *this, &late_t::on_t);
    }
    void on_t(r::request_id_t, bool) noexcept {
        auto m = std::move(req);
        reply_to(*m);
    }
};
struct asker_t : sact_t {
    using sact_t::sact_t;
    r::address_ptr_t to;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&asker_t::on_answer); });
    }
    void started() noexcept override {
        request<ask_req>(to).send(ms(20));
        start_timer(ms(40), *this, &asker_t::on_t);
    }
    void on_t(r::request_id_t, bool) noexcept { supervisor->do_shutdown(); }
    void on_answer(Answer &) noexcept {}
    void stopped() noexcept override { to.reset(); }
};
void run_dead(Plan &) {
    world_init();
    kvec<Node *> nodes;
    r::address_ptr_t ad;
    SupOpts o;
    o.init_ms = o.shutdown_ms = LONG_MS;
    for (int i = 0; i < 2; ++i) {
        auto *nd = make_node(B_SIM, i, NodeCfg());
        nodes.push_back(nd);
        auto *root = nd->make_root(o);
        if (!i) {
            ad = root->sup()->create_actor<late_t>().timeout(ms(LONG_MS)).finish()->get_address();
        } else {
            auto *c = nd->make_child(*root->sup(), o);
            auto a = c->sup()->create_actor<asker_t>().timeout(ms(LONG_MS)).finish();
            a->to = ad;
        }
    }
    ad.reset();
    for (auto *nd : nodes)
        nd->start();
    sim::faults_off();
    sim::sleep_ns(2 * sim::SEC);
    shutdown_and_join(nodes, "msg/no-shutdown", 500 * sim::SEC);
    destroy_all(nodes);
}
sim::Reg k3({"KF", "kf-dead", gen, run_dead, op_names, pnames, 1, false});
sim::Reg k1({"KF", "kf-strands", gen, run_strands, op_names, pnames, 1, false});
sim::Reg k2({"KF", "kf-policy", gen, run_policy, op_names, pnames, 1, false});
} // namespace
