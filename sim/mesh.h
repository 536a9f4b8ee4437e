// A generated topology: 1-4 nodes on chosen backends, nested supervisors, actors everywhere.
#pragma once
#include "rt.h"

namespace rs {
// plan parameters 0..15 belong to the mesh
enum { P_N, P_B0, P_B1, P_B2, P_B3, P_ACT, P_NEST, P_THR, P_STR, P_LAT, P_LATE, P_POLL, P_MESH_END, P_USER = 16 };
#define MESH_PNAMES                                                                                                    \
    "nodes-1", "backend0", "backend1", "backend2", "backend3", "actors/supervisor-1", "nested supervisors/node",       \
        "asio threads-1", "strands-1", "latency_us", "timer_late_us", "poll_us", "", "", "", ""

struct Slot { // one actor of the mesh
    int tag = 0;
    Node *node = nullptr;
    r::supervisor_t *sup = nullptr; // alive until the end (kept by the node)
    int sup_ent = -1;
    r::actor_base_t *act = nullptr; // do not use after its end
    r::address_ptr_t addr;
};
enum : int { LONG_MS = 1000000 };

struct Mesh {
    Plan *pl = nullptr;
    kvec<Node *> nodes;
    kvec<Slot> slots;
    kvec<SupIface *> sups;
    int max_actors = 24;
    // creates one actor, returns it (may return null)
    std::function<r::intrusive_ptr_t<r::actor_base_t>(r::supervisor_t &, int tag)> factory;
    std::function<void(SupOpts &, int node, int level)> tune; // supervisor options
    int n() const { return int(slots.size()); }

    void build(Plan &p);
    void start();
    bool wait_started(uint64_t limit = 200 * sim::SEC);
    int started() const;
    void post_to(int slot, r::message_ptr_t m) { slots[size_t(slot)].sup->enqueue(std::move(m)); }
    template <class P, class... A> void tell(int slot, A &&...a) {
        auto &s = slots[size_t(slot)];
        s.sup->enqueue(r::make_message<P>(s.addr, std::forward<A>(a)...));
    }
    void finish(const char *cls); // shuts everything down, joins, destroys
};
void gen_mesh(Rng &g, Plan &pl, unsigned mask, int max_nodes = 4, int max_act = 2, int max_nest = 3);
bool is_up(const Ent &e);   // between on_start and shutdown_start
bool is_down(const Ent &e); // shutdown finished
// the time a timer started right now counts from: loops which cache the time take the one they read last
uint64_t timer_base(BK b);
// how early a timer of that backend may be seen (resolution of the backend)
uint64_t timer_slack(BK b);
} // namespace rs
