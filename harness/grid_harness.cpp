// usage: grid_harness TRACE N SEED
// Grid searches over the harness's objective functions, with and without worker threads.
#include <k52/optimization/grid_search.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/params/i_continuous_parameters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include "trace.h"
#include "vsched.h"
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <cmath>
#include <random>
#include <stdexcept>
using namespace k52::optimization;
typedef std::vector<double> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static double unit;
static long salt, range_of_values, fail_one_in, shift;
static bool offgrid;
static std::string evals;
static std::vector<long> vals;
static long failures;
static std::string point(const V& v)
{
    std::string s = "[";
    for(size_t i = 0; i < v.size(); i++)
    {
        double k = v[i] / unit;
        if(!(std::fabs(k) < 2e9) || k != std::floor(k)) { offgrid = true; k = 0; }
        s += (i ? "," : "") + std::to_string((long)k);
    }
    return s + "]";
}
static unsigned code(const V& v) { unsigned h = (unsigned)salt; for(size_t i = 0; i < v.size(); i++) { h ^= (unsigned)(long)(v[i] / unit) + 0x9e3779b9u + (h << 6) + (h >> 2); h *= 2654435761u; } return h >> 7; }
class F : public ContinuousObjectiveFunction
{
public:
    double operator()(const V& v) const
    {
        unsigned c = code(v);
        long r = (long)(c % (unsigned)range_of_values) + shift;
        bool fail = fail_one_in > 0 && c % (unsigned)fail_one_in == 0;
        pthread_mutex_lock(&mutex);
        evals += (evals.empty() ? "" : ",") + point(v);
        vals.push_back(r);
        if(fail) failures++;
        pthread_mutex_unlock(&mutex);
        if(fail) throw std::runtime_error("failing objective");
        return (double)r;
    }
    F* Clone() const { return new F; }
};
class Parameters : public IContinuousParameters
{
public:
    explicit Parameters(const V& v) : v_(v) {}
    bool CheckConstraints() const { return true; }
    void SetValues(const V& v) { v_ = v; }
    V GetValues() const { return v_; }
    Parameters* Clone() const { return new Parameters(v_); }
private:
    V v_;
};
class OtherParameters : public IParameters
{
public:
    bool CheckConstraints() const { return true; }
    OtherParameters* Clone() const { return new OtherParameters; }
};
static void search(IOptimizer& s, long low, long high, long step)
{
    int dim = (int)rnd(0, 3);
    if(high >= low)
    {
        if(rnd(0, 29) == 0) dim = (int)rnd(4, 8);
        while(dim > 0 && std::pow((double)((high - low) / step + 1), dim) > (rnd(0, 9) ? 130 : 1100)) dim--;
    }
    V start;
    for(int i = 0; i < dim; i++) start.push_back((double)rnd(-5000, 5000) * unit);
    boost::shared_ptr<IContinuousParameters> p;
    if(rnd(0, 1)) p.reset(new ContinuousParametersArray(start)); else p.reset(new Parameters(start));
    range_of_values = rnd(0, 2) ? rnd(1, 4) : 100000;
    shift = rnd(0, 2) ? 0 : rnd(-200000, 1000);
    fail_one_in = rnd(0, 9) == 0 ? rnd(2, 40) : 0;
    salt = rnd(0, 1000000000);
    offgrid = false; evals.clear(); vals.clear(); failures = 0;
    bool max = rnd(0, 1), ok = true;
    F f;
    if(rnd(0, 30) == 0)
    {
        OtherParameters other;
        try { s.Optimize(f, &other, max); } catch(const std::exception&) { ok = false; }
        out.put(J("Other").b("ok", ok).i("evals", vals.size()));
        return;
    }
    try { s.Optimize(f, p.get(), max); } catch(const std::exception&) { ok = false; }
    std::string at = point(p->GetValues());
    out.put(J("Search").i("low", low).i("high", high).i("step", step).i("dim", dim).b("max", max).b("ok", ok).b("failed", failures > 0)
        .b("offgrid", offgrid).b("kept", p->GetValues() == start).raw("evals", "[" + evals + "]").seq("vals", vals).raw("at", at));
}
int main(int, char** argv)
{
    out.open(argv[1]);
    long n = atol(argv[2]), seed = atol(argv[3]);
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    for(long r = 0; r < n; r++)
    {
        rng.seed(seed * 1000003 + r);
        vs_hardware_concurrency = (int)(r % 4 == 0 ? rnd(2, 4) : rnd(0, 1));
        unit = std::ldexp(1., (int)rnd(-12, 12));
        long step = rnd(0, 2) ? rnd(1, 5) : rnd(1, 400), low = rnd(0, 3) ? rnd(-900, 900) : rnd(-1000000000, 1000000000);
        long high = rnd(0, 7) ? low + (rnd(0, 2) ? rnd(0, 6 * step) : rnd(0, 130 * step)) : low - rnd(1, 3 * step);
        GridSearch s(step * unit, low * unit, high * unit);
        for(int k = (int)rnd(1, 3); k > 0; k--) search(s, low, high, step);
    }
    out.close();
    _exit(0);
}
