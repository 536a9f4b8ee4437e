// Simulated GUI event loops (used by the nodes of nodes.cpp)
#pragma once
namespace gui {
void wx_reset();
// runs pending CallAfter callbacks and due timers, blocks at most until the deadline; returns when something was done
void wx_dispatch(unsigned long long max_wait_ns);
void wx_wake();
size_t wx_pending();
void fl_reset(unsigned awake_ring);
size_t fl_pending();
void end();
} // namespace gui
