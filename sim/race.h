#pragma once
namespace sim {
void race_enable(bool race, bool uaf);
void hb_release(void *o); // happens-before edge: publish
void hb_acquire(void *o); // happens-before edge: consume
} // namespace sim
