// Deterministic scheduler: inside vs_run() all threads created by the code under
// test run one at a time and are switched only at synchronisation operations
// (pthread mutexes, condition variables, semaphores, create, join, yield/sleep),
// in an order chosen by a strategy. Works by symbol interposition, so it does not
// depend on how the code under test is written.
#ifndef VSCHED_H
#define VSCHED_H
#include <functional>
#include <string>
#include <vector>

struct VsDecision { int chosen; int options; };

struct VsStrategy
{
    // 0: replay `prefix`, then the default choice 0 (for depth-first search)
    // 1: uniformly random, seeded
    // 2: random priorities with `depth` change points (PCT), seeded
    int kind;
    std::vector<int> prefix;
    unsigned long long seed;
    int depth;
    int preemption_bound;   // for kind 0
    int spurious_budget;    // number of spurious wake-ups allowed in this run
    long max_steps;
    VsStrategy() : kind(0), seed(1), depth(3), preemption_bound(2), spurious_budget(0), max_steps(200000) {}
};

struct VsResult
{
    bool deadlock;
    bool no_progress;
    long steps;
    int threads_alive;      // controlled threads (other than main) not finished
    std::vector<VsDecision> decisions;
};

// Called when the run can never finish (deadlock / no progress); must not return.
extern std::function<void(const char*)> vs_on_stuck;

VsResult vs_run(const VsStrategy& strategy, const std::function<void()>& body);
bool vs_controlled();       // is the calling thread scheduled by vs_run?
void vs_yield();            // scheduling point for harness code
int vs_self();              // 0 = main, 1.. = created threads, in creation order
int vs_alive();             // controlled created threads that have not finished
int vs_plain_alive();       // threads outside the scheduler whose function has not returned
int vs_created();           // threads created so far in this run
long vs_clock_skips();
// next prefix for depth-first search, empty result => exhausted (returns false)
bool vs_next_prefix(const std::vector<VsDecision>& d, std::vector<int>& prefix);
// number of hardware threads reported to the code under test (0: report 0; <0: real)
extern int vs_hardware_concurrency;
#endif
