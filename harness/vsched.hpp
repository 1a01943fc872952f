// Controlled scheduler: runs the threads of a program (TBB tasks, std::thread, std::async) as
// fibers of one thread and decides at every instrumented memory access which of them goes on.
#pragma once
namespace vs {
// explore one schedule, determined by the seed, of what runs until end() with at most t workers
void begin(unsigned long seed, int t);
void end();
unsigned long switches();      // preemptions so far
void yield();                  // let others go on
}    // namespace vs
