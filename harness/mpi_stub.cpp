#include "mpi_shim.h"
#include <boost/mpi.hpp>
#include "mpi_stub.h"
#include "vsched.h"
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <set>
#include <cstdio>
#include <cstdlib>

namespace mpi_stub
{
static int g_size = 1;
static thread_local int t_rank = 0;
static std::list<Message> box;
static int delay_kind = 0;
static unsigned long long rng = 1;
std::function<void(int, int, const std::any&)> on_post;

static unsigned long long rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

void reset(int size) { g_size = size; box.clear(); t_rank = 0; }
void set_rank(int r) { t_rank = r; }
void set_delay(int kind, unsigned long long seed) { delay_kind = kind; rng = seed * 0x9E3779B97F4A7C15ULL + 7; rnd(); }
static std::atomic_flag guard = ATOMIC_FLAG_INIT;
static std::set<const void*>& living() { static std::set<const void*>* s = new std::set<const void*>(); return *s; }
void born(const void* c) { while(guard.test_and_set()) {} living().insert(c); guard.clear(); }
void dead(const void* c) { while(guard.test_and_set()) {} living().erase(c); guard.clear(); }
void must_be_alive(const void* c)
{
    while(guard.test_and_set()) {}
    bool ok = living().count(c) != 0;
    guard.clear();
    if(!ok) { fprintf(stderr, "MPI: a communicator that does not exist (any more) is used\n"); abort(); }
}
int rank() { return t_rank; }
int size() { return g_size; }
int pending() { return (int)box.size(); }

void post(int to, int tag, const std::any& v)
{
    if(to < 0 || to >= g_size) throw std::runtime_error("MPI: invalid rank");
    if(on_post) on_post(t_rank, to, v);
    Message m = { t_rank, to, tag, v };
    box.push_back(m);
    vs_yield();
}
bool take(int from, int to, int tag, std::any& v)
{
    for(std::list<Message>::iterator it = box.begin(); it != box.end(); ++it)
        if(it->to == to && (from < 0 || it->from == from) && (tag < 0 || it->tag == tag))
        {
            v = it->value;
            box.erase(it);
            return true;
        }
    return false;
}
bool may_deliver()
{
    if(delay_kind == 0) return true;
    return rnd() % (delay_kind + 1) == 0;
}
void pause() { sched_yield(); }
}
