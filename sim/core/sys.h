#ifndef SIM_SYS_H
#define SIM_SYS_H
#include <vector>
namespace sim {
struct ClockRead { int node; bool ok; long us; };
std::vector<ClockRead>& clock_reads();
void threads_guard(int d);
bool host_busy();
}
#endif
