// Simulated processes: each scheduler thread may be given a process number; advisory record locks, flock and System V semaphores are then
// those of that process, and file-system calls are scheduling points.
#pragma once
#include <functional>
namespace vproc {
void process(int p);    // the calling thread acts for simulated process p
int process();
extern long now;                                    // if not 0: what time() returns
extern std::function<bool(const char*)> unwritable;  // access(path, W_OK) fails there
void points(bool on);   // are file-system calls scheduling points?
}
