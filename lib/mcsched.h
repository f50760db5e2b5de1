// Controlled scheduler for OpenMP regions: logical threads are coroutines, every memory access of the instrumented
// code (compiled with -fsanitize=thread, linked against the runtime in sched.cpp) is seen by the scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
namespace sched {
enum Order { Forward, Backward, Explore };
void threads(int n);                              // size of the next parallel regions (1: regions run directly)
void order(Order o);                              // how the coroutines are scheduled
void chooser(std::function<int(int)> preempt, std::function<int(int)> next);   // answers of the explorer
void reset();                                     // forget recorded accesses and conflicts
uint64_t accesses();                              // recorded shared accesses
uint64_t regions();                               // parallel regions executed with more than one thread
uint64_t points();                                // scheduling points visited
std::vector<uintptr_t> conflicts();               // code addresses taking part in conflicting accesses
void explore_at(const std::vector<uintptr_t>& pcs);
std::string describe(uintptr_t pc);
bool stuck();                                     // a schedule in which no thread could continue
}
