#include "mesh.h"
namespace rs {
void gen_mesh(Rng &g, Plan &pl, unsigned mask, int max_nodes, int max_act, int max_nest) {
    int n = g.range(1, max_nodes);
    pl.p[P_N] = n - 1;
    auto b = pick_backends(g, n, mask);
    for (int i = 0; i < n && i < int(b.size()); ++i)
        pl.p[P_B0 + i] = b[size_t(i)];
    pl.p[P_N] = int(b.size()) - 1;
    pl.p[P_ACT] = g.range(0, max_act);
    pl.p[P_NEST] = g.range(0, max_nest);
    pl.p[P_THR] = g.range(0, 2);
    pl.p[P_STR] = g.range(0, 2);
    pl.p[P_LAT] = g.one_in(2) ? 0 : g.pick({10, 1000, 100000});
    pl.p[P_LATE] = g.one_in(3) ? 2000 : 0;
    pl.p[P_POLL] = g.pick({0, 0, 5, 100, 1000});
}

void Mesh::build(Plan &p) {
    pl = &p;
    int n = p.p[P_N] + 1;
    NodeCfg nc;
    nc.threads = p.p[P_THR] + 1;
    nc.strands = p.p[P_STR] + 1;
    nc.latency_us = p.p[P_LAT];
    nc.timer_late_us = p.p[P_LATE];
    for (int i = 0; i < n; ++i) {
        auto *nd = make_node(BK(p.p[P_B0 + i]), i, nc);
        nodes.push_back(nd);
        SupOpts o;
        o.poll_us = p.p[P_POLL];
        o.init_ms = o.shutdown_ms = LONG_MS;
        SupOpts ro = o;
        if (tune)
            tune(ro, i, 0);
        auto *root = nd->make_root(ro);
        sups.push_back(root);
        auto add = [&](SupIface *sup) {
            for (int k = 0; k <= p.p[P_ACT] && int(slots.size()) < max_actors; ++k) {
                Slot s;
                s.tag = int(slots.size());
                s.node = nd;
                s.sup = sup->sup();
                s.sup_ent = sup->ent;
                auto a = factory(*s.sup, s.tag);
                if (!a)
                    return;
                s.act = a.get();
                s.addr = a->get_address();
                slots.push_back(s);
            }
        };
        add(root);
        SupIface *cur = root;
        for (int k = 0; k < p.p[P_NEST]; ++k) {
            SupOpts co = o;
            co.strand = k + 1;
            if (tune)
                tune(co, i, k + 1);
            auto *c = nd->make_child(k % 2 ? *root->sup() : *cur->sup(), co);
            if (!c)
                break;
            nd->keep.push_back(c->sup()); // the user's duty: a supervisor outlives those who hold its addresses
            sups.push_back(c);
            cur = c;
            add(cur);
        }
    }
}
void Mesh::start() {
    for (auto *n : nodes)
        n->start();
}
int Mesh::started() const {
    int k = 0;
    for (auto &e : W->ents)
        if (!e.is_sup && (e.seen & (1u << int(Cb::start))))
            ++k;
    return k;
}
bool Mesh::wait_started(uint64_t limit) {
    return sim::wait_for(
        [&] {
            for (auto &e : W->ents)
                if (!(e.seen & (1u << int(Cb::start))))
                    return false;
            return true;
        },
        limit);
}
void Mesh::finish(const char *cls) {
    shutdown_and_join(nodes, cls, 500 * sim::SEC);
    slots.clear();
    sups.clear();
    destroy_all(nodes);
}
bool is_up(const Ent &e) {
    return (e.seen & (1u << int(Cb::start))) && !(e.seen & (1u << int(Cb::shutdown_start)));
}
bool is_down(const Ent &e) { return e.seen & (1u << int(Cb::shutdown_finish)); }
uint64_t timer_slack(BK b) {
    switch (b) {
    case B_WX:
        return sim::MS; // wxTimer counts whole milliseconds
    case B_EV:
    case B_FLTK:
        return 2 * sim::US; // seconds as double
    default:
        return sim::US;
    }
}
uint64_t timer_base(BK b) {
    if ((b == B_THREAD || b == B_EV) && sim::last_read())
        return std::min(sim::now(), sim::last_read());
    return sim::now();
}
} // namespace rs
