// Cooperative thread runtime: inside rt::run every std::thread of the program under test is a fiber scheduled here.
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
namespace rt {
struct Stuck : std::runtime_error { using std::runtime_error::runtime_error; };
// Run body with deterministic scheduling: a thread runs until it waits; returns a description of a deadlock/livelock, or "".
// When the program gets stuck its fibers are abandoned.
std::string run(const std::function<void()> &body);
// number of threads created in the last run
extern long threadsCreated, switches;
}
