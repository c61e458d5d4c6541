// Controlled scheduler and happens-before race detector for the schedule-exploring checks (C27, C28).
// Threads of the program under test are fibers; every synchronisation operation is a scheduling point; which thread goes
// on is decided by a deterministic default plus an explicit list of deviations, so that an execution is a pure function
// of (scenario, base order, deviations).
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace srt {
struct Dev { int point; int choice; };                     // at that decision take alternative number `choice` (1..)
struct Result { std::string problem, race; std::vector<unsigned char> alts; // alternatives at every decision (0 = none)
    long steps = 0; int threads = 0; long lost = 0; bool grew = false; };
extern bool detect;                                        // race detection on/off
// base: 0 = round robin upwards, 1 = downwards, 2 = a new thread runs at once (creation preempts the creator), 3..7 = thread base-2 runs only when no other can, 8/9 = strict priority by lowest/highest number,
// 10/11 = 0/8 with queue items of other threads becoming visible only through synchronisation
Result run(const std::function<void()> &body, int base, const std::vector<Dev> &devs);
std::string traceText();                                   // the last execution, one line per decision taken
}
