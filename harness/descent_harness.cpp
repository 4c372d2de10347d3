// usage: descent_harness TRACE gradient|sweeps|line N SEED
// gradient: steepest descent and conjugate gradients; the k-th iterate is the result of a run
//           that may make k iterations.
// sweeps:   the Rosenbrock method, judged by the points it evaluates and its results.
// line:     the same in one dimension, where all numbers are exact.
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include "trace.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <random>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
using namespace k52::optimization;
typedef std::vector<double> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static double frac(double a, double b) { return a + (b - a) * (rng() / 4294967296.0); }
typedef std::shared_ptr<ContinuousOptimizer> O;
static double dot(const V& a, const V& b) { double s = 0; for(size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static double norm(const V& a) { return std::sqrt(dot(a, a)); }
static V minus(const V& a, const V& b) { V r(a); for(size_t i = 0; i < r.size(); i++) r[i] -= b[i]; return r; }
static bool fine(const V& a) { for(size_t i = 0; i < a.size(); i++) if(!std::isfinite(a[i])) return false; return true; }

struct Log { std::vector<V> at; std::vector<double> val; };
static Log* cur = 0;
static size_t budget = 200000;
struct Budget : public std::runtime_error { Budget() : std::runtime_error("budget") {} };
struct Shape // strictly convex, smooth
{
    int n; std::vector<V> a; V c; double q, f0, largest;
    double value(const V& v) const
    {
        V x = minus(v, c);
        double s = 0, p = 0;
        for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) s += x[i] * a[i][j] * x[j]; p += x[i] * x[i] * x[i] * x[i]; }
        return 0.5 * s + q * p + f0;
    }
    V gradient(const V& v) const
    {
        V x = minus(v, c), g(n);
        for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) g[i] += a[i][j] * x[j]; g[i] += 4 * q * x[i] * x[i] * x[i]; }
        return g;
    }
};
class F : public ContinuousObjectiveFunction
{
public:
    F(const Shape& s, double sign) : s_(s), sign_(sign) {}
    double operator()(const V& v) const
    {
        double r = s_.value(v);
        if(cur)
        {
            if(cur->at.size() >= budget) throw Budget();
            cur->at.push_back(v); cur->val.push_back(r);
        }
        return sign_ * r;
    }
    F* Clone() const { return new F(s_, sign_); }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {}
    void Receive(boost::mpi::communicator*, int) {}
#endif
private:
    Shape s_; double sign_;
};
static Shape shape(int n, bool quartic)
{
    Shape s;
    s.n = n;
    s.a.assign(n, V(n));
    s.c = V(n);
    // B'B + D, with small integer entries
    std::vector<V> b(n, V(n));
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) b[i][j] = (double)rnd(-2, 2) / 2;
    double trace = 0;
    for(int i = 0; i < n; i++)
    {
        for(int j = 0; j < n; j++) for(int k = 0; k < n; k++) s.a[i][j] += b[k][i] * b[k][j];
        s.a[i][i] += (double)rnd(2, 6) / 4;
        s.c[i] = rnd(0, 5) ? (double)rnd(-16, 16) / 8 : 0;
        trace += s.a[i][i];
    }
    s.largest = trace;
    s.q = quartic ? frac(0.01, 0.1) : 0;
    s.f0 = rnd(0, 1) ? 0 : (double)rnd(-5, 5);
    return s;
}
struct Made { bool ok, budget; V at; };
static Made make(ContinuousOptimizer& o, const Shape& s, const V& start, bool max, Log* log)
{
    Made m;
    ContinuousParametersArray p(start);
    F f(s, max ? -1 : 1);
    cur = log;
    m.ok = true; m.budget = false;
    try { o.Optimize((const ContinuousObjectiveFunction&)f, &p, max); }
    catch(const Budget&) { m.ok = false; m.budget = true; }
    catch(const std::exception&) { m.ok = false; }
    cur = 0;
    m.at = p.GetValues();
    return m;
}

static void gradient()
{
    bool steepest = rnd(0, 1);
    int n = (int)(rnd(0, 7) ? rnd(1, 4) : steepest ? rnd(5, 9) : rnd(5, 6));
    Shape s = shape(n, steepest && rnd(0, 2) == 0);
    double increments[] = { 1. / 2, 1. / 4, 1. / 16, 1. / 64 };
    // central differences are exact for quadratic functions, whatever the increment
    double inc = s.q > 0 ? 1e-4 : increments[rnd(0, 3)];
    double precisions[] = { 1e-2, 1e-3, 1e-4 };
    double p = steepest ? precisions[rnd(0, 2)] : (rnd(0, 1) ? 1e-7 : precisions[rnd(0, 2)]);
    bool max = rnd(0, 1);
    V start(n);
    bool at_optimum = rnd(0, 7) == 0;
    for(int i = 0; i < n; i++) start[i] = at_optimum ? s.c[i] : (double)rnd(-32, 32) / 8;
    int limit = steepest ? (int)rnd(1, 8) : n + 2;
    std::vector<V> x(1, start);
    if(!steepest && rnd(0, 3) == 0)
    {   // next to the optimum, where the gradient is small and not small enough
        s.f0 = 0;
        p = 1e-7;
        for(int i = 0; i < n; i++) start[i] = s.c[i] + std::ldexp((double)rnd(-8, 8), -20);
        x[0] = start;
    }
    long before = rnd(0, 3);
    Shape other = shape((int)rnd(1, 3), false);
    other.f0 = 0;
    if(!steepest && p < 1e-6) s.f0 = 0; // there the differences of values drown in rounding
    bool ok = true;
    std::string how = "ok";
    for(int k = 1; k <= limit + 1 && ok; k++)
    {
        size_t l = k <= limit ? k : 3000;
        O o(steepest ? (ContinuousOptimizer*)new SteepestDescentMethod(inc, l, p) : new ConjugateGradientMethod(p, inc, l));
        Log log;
        budget = 2000000;
        if(before == 1 || before == 3)
        {   // an optimizer that has been used, on another function
            V elsewhere(other.n, 0.5);
            make(*o, other, elsewhere, !max, &log);
            log = Log();
        }
        if(before >= 2) o.reset(o->Clone());
        Made m = make(*o, s, start, max, &log);
        if(!m.ok) { ok = false; how = m.budget ? "long" : "refused"; }
        x.push_back(m.at);
    }
    std::vector<long> fall, down, orth, near, conj, far;
    double g0 = norm(s.gradient(start));
    for(size_t k = 0; k < x.size() && ok; k++)
    {
        V g = s.gradient(x[k]);
        double h = norm(g), tol = s.q > 0 ? 1e-4 + 1e-6 * g0 : 1e-9 * (1 + g0 + std::fabs(s.f0));
        // is the gradient within the precision: 1 yes, 0 no, 2 cannot tell
        near.push_back(!fine(x[k]) ? 0 : h > p * (1 + 1e-6) + tol ? 0 : h < p * (1 - 1e-6) - tol ? 1 : 2);
        if(k == 0) continue;
        V d = minus(x[k], x[k - 1]);
        double len = norm(d);
        V b = s.gradient(x[k - 1]);
        bool last = (int)k == limit + 1;
        far.push_back(len > 0);
        fall.push_back(s.value(x[k]) <= s.value(x[k - 1]) + 1e-9 * (1 + std::fabs(s.value(x[k - 1]))));
        // only single steps are known to be along one line
        double slack = steepest ? 6 * p * s.largest * (1 + 12 * s.q * 36) * norm(b) + 1e-4 * (s.q > 0) : 1e-6 * (1 + g0);
        orth.push_back(last || len == 0 || std::fabs(dot(g, d)) / len <= slack + 1e-7 * (1 + g0));
        down.push_back(last || len == 0 || (!steepest && k > 1) || -dot(d, b) / len >= (1 - 1e-4) * norm(b) - (s.q > 0 ? 1e-4 : 1e-6) * (1 + std::fabs(s.f0)));
    }
    out.put(J("Descent").str("method", steepest ? "steepest" : "conjugate").i("n", n).i("limit", limit).str("how", how)
        .b("quadratic", s.q == 0).seq("near", near).seq("far", far).seq("fall", fall).seq("down", down).seq("orth", orth));
}
// ---- sweeps
static const double UNIT = 4096;
static double unit_now = UNIT;
static long units(double x) { return (long)std::floor(x * unit_now + 0.5); }
static std::string list(const V& v)
{
    std::vector<long> u;
    for(size_t i = 0; i < v.size(); i++) u.push_back(units(v[i]));
    std::ostringstream o;
    o << "[";
    for(size_t i = 0; i < u.size(); i++) o << (i ? "," : "") << u[i];
    o << "]";
    return o.str();
}
struct Bumps { int kind, salt, n; long a[8], c[8]; };
static unsigned mix(unsigned h, long x) { h ^= (unsigned)x + 0x9e3779b9u + (h << 6) + (h >> 2); return h * 2654435761u; }
static long level(const Bumps& f, const V& v)
{
    long q = 0;
    unsigned h = f.salt;
    for(int i = 0; i < f.n; i++)
    {
        long x = (long)std::floor(v[i] * 64);
        if(f.kind == 0) q += f.c[i] * ((x - f.a[i]) * (x - f.a[i]) / 8);
        if(f.kind == 1) q += f.c[i] * std::labs(x - f.a[i]);
        if(f.kind == 2) q += std::labs(x - f.a[i]) / 16;
        h = mix(h, x >> 3);
    }
    if(f.kind == 3) q = (h >> 7) % 12;
    return q > 1000000000 ? 1000000000 : q;
}
class G : public ContinuousObjectiveFunction
{
public:
    G(const Bumps& f, double sign) : f_(f), sign_(sign) {}
    double operator()(const V& v) const
    {
        double r = (double)level(f_, v);
        if(cur) { if(cur->at.size() >= budget) throw Budget(); cur->at.push_back(v); cur->val.push_back(r); }
        return sign_ * r;
    }
    G* Clone() const { return new G(f_, sign_); }
#ifdef BUILD_WITH_MPI
    void Send(boost::mpi::communicator*, int) const {}
    void Receive(boost::mpi::communicator*, int) {}
#endif
private:
    Bumps f_; double sign_;
};
static Made sweep_run(HleborodovRosenbrockMethod& o, const Bumps& b, const V& start, bool max, Log* log)
{
    Made m;
    ContinuousParametersArray p(start);
    G f(b, max ? -1 : 1);
    cur = log;
    m.ok = true; m.budget = false;
    try { o.Optimize((const ContinuousObjectiveFunction&)f, &p, max); }
    catch(const Budget&) { m.ok = false; m.budget = true; }
    catch(const std::exception&) { m.ok = false; }
    cur = 0;
    m.at = p.GetValues();
    return m;
}
static void sweeps(bool line)
{
    // the line: every number is a multiple of the unit
    unit_now = line ? 65536 : UNIT;
    int n = line ? 1 : (int)(rnd(0, 7) ? rnd(1, 3) : rnd(4, 7));
    Bumps b;
    b.kind = (int)rnd(0, 3); b.n = n; b.salt = (int)rnd(0, 1 << 20);
    for(int i = 0; i < 8; i++) { b.a[i] = rnd(-150, 150); b.c[i] = rnd(1, 4); }
    double first_steps[] = { 0.25, 0.5, 1, 1.5 };
    double first = first_steps[rnd(0, 3)], top = line ? (rnd(0, 1) ? 4 : 1.5) : frac(0.75, 1.5);
    int limit = line ? 10 : (int)rnd(3, 6);
    double p = line ? (double)rnd(1, 4000) / unit_now : frac(0.001, 0.3);
    bool max = rnd(0, 1);
    V x(n);
    for(int i = 0; i < n; i++) x[i] = (double)rnd(-128, 128) / 64;
    out.put(J("Rosenbrock").i("n", n).i("first", units(first)).i("top", units(top)).i("precision", units(p)).raw("start", list(x))
        .i("tolerance", line ? 0 : 1).i("limit", limit));
    long used = rnd(0, 3);
    Bumps other = b;
    other.n = (int)rnd(1, 3);
    other.a[0] = 77;
    Log before;
    V origin = x;
    for(int k = 1; k <= limit; k++)
    {
        Log log;
        V start = x;
        std::shared_ptr<HleborodovRosenbrockMethod> o(new HleborodovRosenbrockMethod(p, k, first, top));
        if(used == 1 || used == 3)
        {   // an optimizer that has been used, on another function
            V elsewhere(other.n, 0.5);
            sweep_run(*o, other, elsewhere, !max, 0);
        }
        if(used >= 2) o.reset(o->Clone());
        Made m = sweep_run(*o, b, origin, max, &log);
        // the points evaluated beyond those of the run with one sweep less
        std::vector<std::string> tests;
        std::vector<long> values, lengths;
        size_t known = 0;
        while(known < log.at.size() && known < before.at.size() && log.at[known] == before.at[known]) known++;
        std::vector<V> seen;
        for(size_t i = known; i < log.at.size(); i++)
        {
            if(log.at[i] == start || std::find(seen.begin(), seen.end(), log.at[i]) != seen.end()) continue;
            // (a look at the result is no test)
            if((int)seen.size() == n && i + 1 == log.at.size() && log.at[i] == m.at) continue;
            seen.push_back(log.at[i]);
            V d = minus(log.at[i], start);
            tests.push_back(list(d));
            values.push_back((long)log.val[i]);
            lengths.push_back(units(norm(d)));
        }
        std::string t = "[";
        for(size_t i = 0; i < tests.size(); i++) t += (i ? "," : "") + tests[i];
        t += "]";
        V d = minus(m.at, start);
        double move = 0;
        for(int i = 0; i < n; i++) move = std::max(move, std::fabs(d[i]));
        out.put(J("Sweep").i("k", k).b("ok", m.ok).i("value", level(b, start)).raw("tests", t).seq("values", values).seq("lengths", lengths)
            .raw("move", list(d)).i("edge", !line && std::fabs(move - p) < 1e-9).b("small", move <= p));
        before = log;
        x = m.at;
        if(!m.ok) break;
    }
}
int main(int, char** argv)
{
    out.open(argv[1]);
    std::string mode = argv[2];
    long n = atol(argv[3]), seed = atol(argv[4]);
    dup2(open("/dev/null", O_WRONLY), 1);
    for(long r = 0; r < n; r++)
    {
        rng.seed(seed * 1000003 + r);
        if(mode == "gradient") gradient(); else sweeps(mode == "line");
    }
    out.close();
    _exit(0);
}
