// Schedule perturbation: the executable interposes on the locking and sleeping calls and, while enabled, inserts random
// yields and short sleeps around them. No hook in the code under test is needed.
#ifndef PBT_SCHEDULE_H
#define PBT_SCHEDULE_H
#include <cstdint>
namespace sched {
// 0 disables; intensity in [0, 100] is the probability of a perturbation at each point
void enable(std::uint64_t seed, unsigned intensity);
void disable();
void point();
// points reached since enable()
std::uint64_t points();
}
#endif
