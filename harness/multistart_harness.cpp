// usage: multistart_harness TRACE seq|threads|mpi N SEED   (mpi: built with BUILD_WITH_MPI)
// Random search over a local optimiser of the harness, or none.
#ifdef BUILD_WITH_MPI
#include "mpi_shim.h"
#include <boost/mpi.hpp>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include "mpi_ranks.h"
#include "mpi_stub.h"
#endif
#include <k52/optimization/random_search.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/params/i_continuous_parameters.h>
#include "trace.h"
#include "vsched.h"
#include <boost/thread.hpp>
#include <fcntl.h>
#include <pthread.h>
#include <unistd.h>
#include <cmath>
#include <random>
#include <stdexcept>
using namespace k52::optimization;
typedef std::vector<double> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static std::mt19937 gen;
static int extreme = 0;
extern "C" int rand() throw() { unsigned r = gen(); if(extreme && r % 3 == 0) return r & 64 ? 0 : RAND_MAX; return (int)(r & 0x7fffffff); }
extern "C" void srand(unsigned) throw() {}

static std::vector<std::string> ev;
static pthread_mutex_t ev_mutex = PTHREAD_MUTEX_INITIALIZER;
static bool free_mode = true;
static void emit(const J& j)
{
    if(free_mode) pthread_mutex_lock(&ev_mutex);
    ev.push_back(j.done());
    if(free_mode) pthread_mutex_unlock(&ev_mutex);
}
static std::string id(const V& v)
{
    std::string s;
    char b[64];
    for(size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.17g", i ? " " : "", v[i]); s += b; }
    return s;
}
static int salt, spread_of_values, fail_one_in, lattice;
static unsigned mix(unsigned h, long x) { h ^= (unsigned)x + 0x9e3779b9u + (h << 6) + (h >> 2); return h * 2654435761u; }
static unsigned code(const V& v, int s) { unsigned h = s; for(size_t i = 0; i < v.size(); i++) h = mix(h, (long)std::floor(v[i] * 4)); return h >> 7; }
static long value(const V& v) { return (long)(code(v, salt) % (2 * spread_of_values + 1)) - spread_of_values; }

class F : public ContinuousObjectiveFunction
{
public:
    explicit F(bool trace) : trace_(trace) {}
    double operator()(const V& v) const { long r = value(v); if(trace_) emit(J("Eval").str("at", id(v)).i("val", r)); vs_yield(); return (double)r; }
    F* Clone() const { return new F(trace_); }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {}
    void Receive(boost::mpi::communicator*, int) {}
#endif
private:
    bool trace_;
};
class P : public IContinuousParameters
{
public:
    explicit P(const V& v) : v_(v) {}
    bool CheckConstraints() const { return true; }
    void SetValues(const V& v) { v_ = v; }
    V GetValues() const { return v_; }
    P* Clone() const { return new P(v_); }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator* c, int target) const { c->send(target, 0, v_); }
    void Receive(boost::mpi::communicator* c, int source) { c->recv(source, 0, v_); }
#endif
private:
    V v_;
};
static double g_lo, g_hi;
static size_t g_dim;
static int* g_original; // the number of times the optimiser given by the user was run itself
class Local : public ContinuousOptimizer
{
public:
    Local(bool original) : original_(original) {}
    Local* Clone() const { return new Local(false); }
    std::string get_name() const { return "local"; }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {}
    void Receive(boost::mpi::communicator*, int) {}
#endif
protected:
    V FindOptimalParameters(const V& start)
    {

        bool in = start.size() == g_dim;
        for(size_t i = 0; i < start.size(); i++) if(!(start[i] >= g_lo && start[i] <= g_hi)) in = false;
        unsigned c = code(start, salt + 1);
        bool fail = fail_one_in > 0 && c % fail_one_in == 0;
        vs_yield();
        V end = start;
        if(c % 4)
            for(size_t i = 0; i < end.size(); i++)
            {
                end[i] = std::floor(end[i] * 4) / 4 + ((c >> (4 + i)) % 3) / 4.0;
                if(lattice) end[i] = std::floor(end[i]);
            }
        if(fail) { emit(J("Run").str("start", id(start)).b("in", in).b("fail", true)); throw std::runtime_error("local failure"); }
        double seen = CountObjectiveFunctionValueToMinimize(end);
        vs_yield();
        double seen2 = CountObjectiveFunctionValueToMaximize(end);
        emit(J("Run").str("start", id(start)).b("in", in).b("fail", false).str("end", id(end)).i("val", value(end))
            .b("max", get_maximize()).i("seen", (long)(get_maximize() ? -seen : seen)).i("seen2", (long)(get_maximize() ? seen2 : -seen2)));
        vs_yield();
        return end;
    }
private:
    bool original_;

};
static std::set<std::string> seen_runs;
static long runs = 0, distinct = 0;
static void flush_run()
{
    runs++;
    std::string all;
    for(size_t i = 0; i < ev.size(); i++) all += ev[i] + "\n";
    ev.clear();
    if(seen_runs.insert(all).second) { distinct++; fputs(all.c_str(), out.f); }
}
static void stuck(const char* why)
{
    emit(J("Stuck").str("why", why));
    flush_run();
    out.close();
    _exit(0);
}
static void search(RandomSearch& s, int n, bool opt, bool max)
{
    V init(g_dim, 0.0);
    for(size_t i = 0; i < g_dim; i++) init[i] = 50 + (double)i; // outside every bound
    P p(init);
    F f(!opt);
    bool ok = true;
#ifdef BUILD_WITH_MPI
    k52::parallel::mpi::IdentifyableObjectsManager& m = k52::parallel::mpi::IdentifyableObjectsManager::Instance();
    m.RegisterObject(f);
    m.RegisterObject(P(V(2, 60.0)));
    m.RegisterObject(Local(false));
#endif
    emit(J("Search").i("n", n).b("opt", opt).b("max", max).b("differ", !extreme && g_hi > g_lo));
    try { s.Optimize((const ContinuousObjectiveFunction&)f, &p, max); } catch(const std::exception&) { ok = false; }
    V r = p.GetValues();
    bool in = r.size() == g_dim;
    for(size_t i = 0; i < r.size(); i++) if(!(r[i] >= g_lo && r[i] <= g_hi)) in = false;
    emit(J("Result").b("ok", ok).b("in", in).str("at", id(r)).i("val", value(r)));
}
static void episode(int hw)
{
    vs_hardware_concurrency = hw;
    g_dim = (size_t)(free_mode && rnd(0, 9) == 0 ? rnd(4, 40) : rnd(1, 3));
    double grid[] = {-3, -1.5, -0.25, 0, 0.5, 1, 2.75, 4};
    int a = (int)rnd(0, 7), b = (int)rnd(a, 7);
    g_lo = grid[a]; g_hi = grid[b];
    bool opt = rnd(0, 2) != 0;
    int n = rnd(0, 19) ? (int)rnd(1, free_mode ? 9 : 5) : 0;
    if(free_mode && rnd(0, 7) == 0) n = (int)rnd(10, 120);
    Local local(true);
    fail_one_in = 0;
    salt = (int)rnd(0, 1000000);
    extreme = (int)rnd(0, 1);
    gen.seed(rng());
    {
        RandomSearch s(n, g_lo, g_hi, opt ? &local : 0);
        emit(J("New").i("n", n));
        for(int k = (int)rnd(1, 3); k > 0; k--)
        {
            spread_of_values = (int)rnd(0, 3) ? (int)rnd(1, 3) : 1000;
            lattice = (int)rnd(0, 1);
            fail_one_in = opt && rnd(0, 5) == 0 ? (int)rnd(2, 6) : 0;
#ifdef BUILD_WITH_MPI
            fail_one_in = 0;
#endif
            salt = (int)rnd(0, 1000000);
            search(s, n, opt, rnd(0, 1));
        }
    }
#ifdef BUILD_WITH_MPI
    emit(J("Channels").i("left", mpi_left).i("lost", mpi_lost));
#endif
    emit(J("End").i("alive", free_mode ? 0 : vs_alive()));
}
int main(int, char** argv)
{
    out.open(argv[1]);
    std::string mode = argv[2];
    long n = atol(argv[3]), seed = atol(argv[4]);
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    vs_on_stuck = stuck;
    rng.seed(seed);
#ifdef BUILD_WITH_MPI
    mpi_workers = 0;
#endif
    episode(2); ev.clear();
    for(long r = 0; r < n; r++)
    {
        rng.seed(seed * 1000003 + r);
        if(mode == "seq") { free_mode = true; episode((int)rnd(0, 1)); }
        else
        {
            VsStrategy s;
            s.kind = 1 + r % 2;
            s.seed = seed * 1000003ULL + r + 1;
            s.depth = 1 + r % 5;
            s.spurious_budget = r % 3;
#ifdef BUILD_WITH_MPI
            s.max_steps = 1000000;
            mpi_workers = (int)rnd(1, 4);
            mpi_stub::set_delay((r / 2) % 4, s.seed);
#endif
            int hw = (int)rnd(2, 4);
            free_mode = mode == "real";
            if(free_mode) episode(hw); else vs_run(s, [&] { episode(hw); });
        }
        flush_run();
    }
    out.close();
    _exit(0);
}
