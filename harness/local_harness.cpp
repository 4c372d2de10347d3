// usage: local_harness TRACE hj|hjm|nm|nm1|nmn|guard|anneal|leave N SEED
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/params/i_continuous_parameters.h>
#include <k52/common/random.h>
#include <boost/shared_ptr.hpp>
#include "trace.h"
#include <cmath>
#include <map>
#include <random>
#include <set>
#include <stdexcept>
#include <unistd.h>
using namespace k52::optimization;
typedef std::vector<double> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static std::mt19937 gen;
extern "C" int rand() throw() { return (int)(gen() & 0x7fffffff); }
extern "C" void srand(unsigned) throw() {}
static std::string id(const V& v)
{
    std::string s;
    char b[64];
    for(size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.17g", i ? " " : "", v[i] == 0 ? 0.0 : v[i]); s += b; }
    return s;
}
static unsigned mix(unsigned h, long x) { h ^= (unsigned)x + 0x9e3779b9u + (h << 6) + (h >> 2); return h * 2654435761u; }
static const long TOP = 1000000000;

struct Budget : public std::runtime_error { Budget() : std::runtime_error("budget") {} };
struct Fun // integer-valued functions
{
    int kind, salt, n;
    long a[8], c[8];
    double value(const V& v) const
    {
        long q = 0, m = 0;
        for(int i = 0; i < n; i++) if(!(std::fabs(v[i]) < 500)) return TOP;
        std::vector<long> x;
        for(int i = 0; i < n; i++) x.push_back((long)std::floor(v[i] * 64));
        switch(kind)
        {
        case 0: for(int i = 0; i < n; i++) q += c[i] * ((x[i] - a[i]) * (x[i] - a[i]) / 16); break;
        case 1: for(int i = 0; i < n; i++) q += c[i] * std::labs(x[i] - a[i]); break;
        case 2: for(int i = 0; i < n; i++) m = std::max(m, c[i] * std::labs(x[i] - a[i])); q = m; break;
        case 3:
            for(int i = 0; i < n; i++) m = std::max(m, std::labs(x[i] - a[i]));
            if(m > 320) return 100 + m;
            { unsigned h = salt; for(int i = 0; i < n; i++) h = mix(h, x[i] >> 3); q = (long)((h >> 7) % 20); }
            break;
        case 4: for(int i = 0; i < n; i++) q += (x[i] - a[i]) * (x[i] - a[i]); q = q / 5000; break;
        case 5:
            { long s = 0, d = 0; for(int i = 0; i < n; i++) { s += x[i] - a[i]; d += (i % 2 ? -1 : 1) * (x[i] - a[i]); } q = 10 * std::labs(d) + std::labs(s) + m; }
            for(int i = 0; i < n; i++) q += std::labs(x[i] - a[i]) / 8;
            break;
        case 6: return TOP / 2; // constant
        default: // smooth
            { double s = 0; for(int i = 0; i < n; i++) s += c[i] * (v[i] - a[i] / 64.) * (v[i] - a[i] / 64.); return s; }
        }
        return (double)(q > TOP ? TOP : q);
    }
};
static Fun any_fun(int n, int lo, int hi)
{
    Fun f;
    f.kind = (int)rnd(lo, hi); f.n = n; f.salt = (int)rnd(0, 1 << 20);
    for(int i = 0; i < 8; i++) { f.a[i] = rnd(-200, 200); f.c[i] = rnd(1, 4); }
    return f;
}
// what happened in one run
struct Log
{
    std::vector<V> at;
    std::vector<double> val;
    std::map<std::string, double> seen;
    long bad;      // evaluations of points that violate the constraints
    long refused;  // constraint checks answered with no
    bool budget;
    Log() : bad(0), refused(0), budget(false) {}
};
static Log* cur;
static size_t max_evals = 20000;
struct Rule // constraints
{
    int kind, salt; double lo, hi;
    bool ok(const V& v) const
    {
        if(kind == 0) return true;
        double s = 0;
        unsigned h = salt;
        for(size_t i = 0; i < v.size(); i++)
        {
            if(!(v[i] >= -1e6 && v[i] <= 1e6)) return false;
            if(kind == 1 && !(v[i] >= lo && v[i] <= hi)) return false;
            s += v[i];
            h = mix(h, (long)std::floor(v[i] * 2));
        }
        if(kind == 2) return s >= lo;
        if(kind == 3) return (h >> 9) % 12 != 0;
        return true;
    }
};
class F : public ContinuousObjectiveFunction
{
public:
    F(const Fun& f, const Rule& r, double scale) : f_(f), r_(r), scale_(scale) {}
    double operator()(const V& v) const
    {
        if(cur->at.size() >= max_evals) { cur->budget = true; throw Budget(); }
        double x = f_.value(v);
        cur->at.push_back(v); cur->val.push_back(x);
        cur->seen[id(v)] = x;
        if(!r_.ok(v)) cur->bad++;
        return x * scale_;
    }
    F* Clone() const { return new F(f_, r_, scale_); }
private:
    Fun f_; Rule r_; double scale_;
};
class P : public IContinuousParameters
{
public:
    P(const V& v, const Rule& r) : v_(v), r_(r) {}
    bool CheckConstraints() const { bool ok = r_.ok(v_); if(!ok) cur->refused++; return ok; }
    void SetValues(const V& v) { v_ = v; }
    V GetValues() const { return v_; }
    P* Clone() const { return new P(v_, r_); }
private:
    V v_; Rule r_;
};
struct Run { bool ok; V at; Log log; };
static Run run(ContinuousOptimizer& o, const Fun& f, const Rule& r, const V& start, bool max, double scale, unsigned seed = 1)
{
    Run x;
    P p(start, r);
    F g(f, r, scale);
    gen.seed(seed);
    cur = &x.log;
    x.ok = true;
    try { o.Optimize((const ContinuousObjectiveFunction&)g, &p, max); } catch(const std::exception&) { x.ok = false; }
    cur = 0;
    x.at = p.GetValues();
    return x;
}
static const Rule FREE = {0, 0, 0, 0};
static V start_point(int n, long den, long lo, long hi) { V v; for(int i = 0; i < n; i++) v.push_back((double)rnd(lo, hi) / den); return v; }
static long value_of(const Fun& f, const V& v) { return (long)f.value(v); }

static void hooke(int runs)
{
    while(runs > 0)
    {
        double acc[] = {2, 1, 1.5, 3};
        long p = rnd(1, 40);                          // precision, in units of 1/64
        long h0 = 1L << rnd(0, 8);                    // first step
        size_t limit = rnd(0, 3) ? 1000000 : (size_t)rnd(1, 6);
        double a = acc[rnd(0, 3)];
        boost::shared_ptr<HookeJeevesMethod> used(new HookeJeevesMethod(a, h0 / 64., limit, p / 64., 2));
        for(int k = (int)rnd(1, 4); k > 0; k--, runs--)
        {
            int n = (int)(rnd(0, 5) ? rnd(1, 4) : rnd(5, 8));
            Fun f = any_fun(n, 0, 6);
            V s = start_point(n, 64, -256, 256);
            bool max = rnd(0, 1);
            double scale = max ? -1 : 1;
            HookeJeevesMethod fresh(a, h0 / 64., limit, p / 64., 2);
            Run y = run(fresh, f, FREE, s, max, scale);
            if(rnd(0, 4) == 0) used.reset(used->Clone());
            Run x = run(*used, f, FREE, s, max, scale);
            if(x.log.budget || y.log.budget) { out.put(J("Budget")); continue; }
            long h = h0;
            while(h * h * n > 4 * p * p) h /= 2;
            std::vector<long> nb;
            for(int i = 0; i < n && x.at.size() == s.size(); i++)
                for(int d = -1; d <= 1; d += 2) { V t = x.at; t[i] += d * h / 64.; nb.push_back(value_of(f, t)); }
            out.put(J("Hooke").i("n", n).i("h0", h0).i("p", p).b("limited", limit < 1000000).b("ok", x.ok).b("seen", x.log.seen.count(id(x.at)))
                .i("start", value_of(f, s)).i("val", x.at.size() == s.size() ? value_of(f, x.at) : TOP).i("step", h).seq("nb", nb)
                .str("at", id(x.at)).str("fresh", id(y.at)));
        }
    }
}
static bool regular(const std::vector<V>& p, int n, double l, const V& start)
{
    bool has = false;
    for(int i = 0; i <= n; i++)
    {
        if(p[i] == start) has = true;
        for(int k = 0; k < i; k++)
        {
            double d = 0;
            for(int j = 0; j < n; j++) d += (p[i][j] - p[k][j]) * (p[i][j] - p[k][j]);
            if(std::fabs(std::sqrt(d) - l) > 1e-9 * l) return false;
        }
    }
    return has;
}
static void nelder(int runs)
{
    while(runs > 0)
    {
        double l = rnd(1, 64) / 16., prec = (double)rnd(0, 3) ? rnd(1, 8) / 8. : 1e-4, lo = -rnd(2, 8), hi = rnd(2, 8);
        boost::shared_ptr<BoundedNelderMead> used(new BoundedNelderMead(l, prec, lo, hi));
        for(int k = (int)rnd(1, 4); k > 0; k--, runs--)
        {
            int n = (int)(rnd(0, 5) ? rnd(1, 5) : rnd(6, 8));
            Fun f = any_fun(n, 0, 6);
            V s = start_point(n, 64, -300, 300);
            for(int i = 0; i < n; i++) s[i] = std::min(std::max(s[i], lo), hi);
            bool max = rnd(0, 1);
            double scale = max ? -1 : 1;
            BoundedNelderMead fresh(l, prec, lo, hi);
            Run y = run(fresh, f, FREE, s, max, scale);
            if(rnd(0, 4) == 0) used.reset(used->Clone());
            Run x = run(*used, f, FREE, s, max, scale);
            unlink("polygon.plot");
            if(x.log.budget || y.log.budget) { out.put(J("Budget")); continue; }
            long outside = 0, best = TOP, first = TOP;
            bool inside = true, reg = (int)x.log.at.size() > n && regular(x.log.at, n, l, s);
            for(size_t i = 0; i < x.log.at.size(); i++)
            {
                bool in = true;
                for(int j = 0; j < n; j++) if(!(x.log.at[i][j] >= lo && x.log.at[i][j] <= hi)) in = false;
                if(!in) { outside++; if((int)i <= n) inside = false; }
                best = std::min(best, (long)x.log.val[i]);
                if((int)i <= n) first = std::min(first, (long)x.log.val[i]);
            }
            out.put(J("Nelder").i("n", n).b("ok", x.ok).b("inside", inside).i("outside", outside).b("regular", reg).i("dim", x.at.size())
                .i("val", (int)x.at.size() == n ? value_of(f, x.at) : TOP).i("best", best).i("first", first).b("seen", x.log.seen.count(id(x.at)))
                .str("at", id(x.at)).str("fresh", id(y.at)));
        }
    }
}
// one dimension, everything exact in units of 1/SC
static const double SC = 65536;
static void nelder1(int runs)
{
    while(runs > 0)
    {
        long l = rnd(1, 32) * 4096, lo = -rnd(1, 8) * 32768, hi = rnd(1, 8) * 32768, prec = rnd(0, 6);
        BoundedNelderMead used(l / SC, (double)prec / 2, lo / SC, hi / SC);
        int steps = (int)rnd(1, 3);
        for(int k = 0; k < steps; k++, runs--)
        {
            Fun f = any_fun(1, 0, 6);
            V s = start_point(1, 64, -256, 256);
            bool max = rnd(0, 1);
            Run x = run(used, f, FREE, s, max, max ? -1 : 1);
            unlink("polygon.plot");
            bool exact = x.ok && x.at.size() == 1 && x.log.at.size() < 150;
            std::vector<long> at, val;
            for(size_t i = 0; i < x.log.at.size() && exact; i++)
            {
                double z = x.log.at[i][0] * SC, r = std::floor(z + 0.5);
                // the first vertices carry the rounding of the regular simplex
                if(!(std::fabs(z) < 1e8) || std::fabs(z - r) > 1e-6) { exact = false; break; }
                at.push_back((long)r); val.push_back((long)x.log.val[i]);
            }
            if(!exact) continue;
            out.put(J("Run").i("l", l).i("lo", lo).i("hi", hi).i("prec", prec).i("start", (long)(s[0] * SC)));
            for(size_t i = 0; i < at.size(); i++) out.put(J("Eval").i("x", at[i]).i("v", val[i]));
            out.put(J("Result").i("x", (long)std::floor(x.at[0] * SC + 0.5)));
        }
    }
}
// the points of a run in units of 1/unit; false if they are not whole numbers of them (within slack)
static bool whole(const Run& r, double unit, double slack, std::vector<std::vector<long> >* at)
{
    for(size_t i = 0; i < r.log.at.size(); i++)
    {
        std::vector<long> p;
        for(size_t k = 0; k < r.log.at[i].size(); k++)
        {
            double z = r.log.at[i][k] * unit, w = std::floor(z + 0.5);
            if(!(std::fabs(z) < 4e6) || std::fabs(z - w) > slack) return false;
            p.push_back((long)w);
        }
        at->push_back(p);
    }
    return true;
}
static void evaluations(const Run& r, const std::vector<std::vector<long> >& at, double unit)
{
    for(size_t i = 0; i < at.size(); i++) out.put(J("Eval").seq("x", at[i]).i("v", (long)r.log.val[i]));
    std::vector<long> e;
    for(size_t k = 0; k < r.at.size(); k++) { double z = std::floor(r.at[k] * unit + 0.5); e.push_back(std::fabs(z) < 1e9 ? (long)z : TOP); }
    if(r.log.budget) out.put(J("Budget"));
    else out.put(J("End").b("ok", r.ok).seq("x", e));
}
// the moves of the pattern search, in units of 1/64 (all arithmetic exact)
static void hooke_moves(int runs)
{
    const size_t before = max_evals;
    while(runs > 0)
    {
        static const double accs[] = {2, 2, 1, 3, 4, 1.5, 2.5, 0.5};
        static const long divs[] = {2, 2, 4, 8, 3, 5, 10};
        long div = divs[rnd(0, 6)], h0 = rnd(1, 3), p = rnd(1, 40);
        for(long k = rnd(0, 5); k > 0 && h0 * div < 1500; k--) h0 *= div;
        double a = accs[rnd(0, 7)];
        size_t limit = a != std::floor(a) ? (size_t)rnd(1, 4) : rnd(0, 2) ? 1000 : (size_t)rnd(1, 5);
        if(a != std::floor(a)) h0 *= 16;
        int n = (int)(rnd(0, 5) ? rnd(1, 4) : rnd(5, 8));
        long h = h0;
        while(h * h * n > p * p && h % div == 0) h /= div;
        if(h * h * n > p * p) continue;
        HookeJeevesMethod used(a, h0 / 64., limit, p / 64., div);
        for(int k = (int)rnd(1, 3); k > 0; k--, runs--)
        {
            Fun f = any_fun(n, 0, 6);
            V s = start_point(n, 64, -256, 256);
            bool max = rnd(0, 1);
            max_evals = 250;
            Run r = run(used, f, FREE, s, max, max ? -1 : 1);
            max_evals = before;
            std::vector<std::vector<long> > at;
            if(!whole(r, 64, 0, &at)) continue;
            std::vector<long> s0;
            for(int i = 0; i < n; i++) s0.push_back((long)(s[i] * 64));
            out.put(J("Run").i("n", n).seq("s", s0).i("h", h0).i("div", div).i("a2", (long)(a * 2)).i("p", p).i("limit", limit));
            evaluations(r, at, 64);
        }
    }
}
// the moves of the simplex method in several dimensions, rounded to 1/4096
static void nelder_moves(int runs)
{
    const size_t before = max_evals;
    while(runs > 0)
    {
        static const double unit = 4096;
        long lo = -rnd(2, 8), hi = rnd(2, 8), prec = rnd(0, 6);
        double l = rnd(4, 64) / 16.;
        BoundedNelderMead used(l, (double)prec / 2, lo, hi);
        for(int k = (int)rnd(1, 3); k > 0; k--, runs--)
        {
            int n = (int)(rnd(0, 5) ? rnd(2, 4) : rnd(5, 8));
            Fun f = any_fun(n, 0, 6);
            V s = start_point(n, 64, -256, 256);
            for(int i = 0; i < n; i++) s[i] = std::min(std::max(s[i], (double)lo), (double)hi);
            bool max = rnd(0, 1);
            max_evals = 120;
            Run r = run(used, f, FREE, s, max, max ? -1 : 1);
            max_evals = before;
            unlink("polygon.plot");
            std::vector<std::vector<long> > at;
            if(!whole(r, unit, 1, &at)) continue;
            std::vector<long> s0;
            for(int i = 0; i < n; i++) s0.push_back((long)(s[i] * unit));
            out.put(J("Run").i("n", n).seq("s", s0).i("lo", (long)(lo * unit)).i("hi", (long)(hi * unit)).i("prec", prec));
            evaluations(r, at, unit);
        }
    }
}
static ContinuousOptimizer* make(int kind, unsigned seed, double lo, double hi)
{
    std::mt19937 g(seed);
    int a = (int)(g() % 5), b = (int)(g() % 5);
    switch(kind)
    {
    case 0: return new HookeJeevesMethod(a % 2 ? 2 : 1.5, (1 << b) / 8., 1000, 0.01, 2);
    case 1: return new BoundedNelderMead((1 + a) / 4., 0.01, lo, hi);
    case 2: return new SimulatedAnnealing(1 + a * 20 + b, lo, hi);
    case 3: return new ConjugateGradientMethod(0.001, 0.001 * (1 + b), 50);
    case 4: return new SteepestDescentMethod(0.001 * (1 + b), 1 + a * 5, 0.001);
    default: return new HleborodovRosenbrockMethod(0.001, 1 + a * 30, (1 + b) / 10., 1 + b);
    }
}
static std::string path(const Log& l)
{
    unsigned long h = 1469598103934665603UL;
    for(size_t i = 0; i < l.at.size(); i++) { std::string s = id(l.at[i]) + ";"; for(size_t k = 0; k < s.size(); k++) h = (h ^ (unsigned char)s[k]) * 1099511628211UL; }
    char b[64]; snprintf(b, sizeof b, "%zu:%016lx", l.at.size(), h); return b;
}
// parameters and functions of some other kind must be refused, untouched and without evaluations
class Neither : public IParameters
{
public:
    bool CheckConstraints() const { touched++; return true; }
    Neither* Clone() const { touched++; return new Neither(); }
    mutable long touched = 0;
};
static long strange_calls;
class Strange : public IObjectiveFunction
{
public:
    double operator()(const IParameters* const) const { strange_calls++; return 0; }
    Strange* Clone() const { return new Strange(); }
};
static void foreign(ContinuousOptimizer& o, const char* name, const Fun& f, const V& s)
{
    static Log log;
    log = Log();
    cur = &log;
    strange_calls = 0;
    Rule none = {0, 0, 0, 0};
    F fun(f, none, 1);
    Neither n;
    P p(s, none);
    bool parameters = false, function = false, direct = false;
    IOptimizer& i = o;
    try { i.Optimize(static_cast<const IObjectiveFunction&>(fun), static_cast<IParameters*>(&n), rnd(0, 1)); } catch(const std::exception&) { parameters = true; }
    try { i.Optimize(Strange(), static_cast<IParameters*>(&p), rnd(0, 1)); } catch(const std::exception&) { function = true; }
    const IObjectiveFunction& g = fun;
    try { g(static_cast<const IParameters*>(&n)); } catch(const std::exception&) { direct = true; }
    out.put(J("Foreign").str("opt", name).b("parameters", parameters).b("function", function).b("direct", direct)
        .i("evals", log.at.size() + strange_calls).b("untouched", p.GetValues() == s));
}
static void guard(int runs)
{
    const char* names[] = {"hooke-jeeves", "nelder-mead", "annealing", "conjugate", "descent", "rosenbrock"};
    max_evals = 3000;
    while(runs > 0)
    {
        int kind = (int)rnd(0, 5);
        unsigned cfg = rng();
        double lo = -rnd(1, 8), hi = rnd(1, 8);
        boost::shared_ptr<ContinuousOptimizer> used(make(kind, cfg, lo, hi));
        for(int k = (int)rnd(1, 3); k > 0; k--, runs--)
        {
            int n = (int)(rnd(0, 4) ? rnd(1, 3) : rnd(4, 8));
            Fun f = kind >= 3 ? any_fun(n, 6, 8) : any_fun(n, 0, 8);
            if(kind == 3 && rnd(0, 1)) f.kind = 7;
            Rule r = {(int)rnd(0, 3), (int)rnd(0, 1000), -rnd(0, 5) - 0.5, rnd(0, 5) + 0.25};
            V s = start_point(n, 16, -40, 40);
            double big = kind == 2 && rnd(0, 1) ? 1e7 : 1;
            unsigned seed = rng();
            bool max = rnd(0, 1);
            // (simulated annealing refuses to be copied)
            if(rnd(0, 7) == 0) foreign(*used, names[kind], f, s);
            if(rnd(0, 3) == 0) try { used.reset(used->Clone()); } catch(const std::logic_error&) {}
            Run x = run(*used, f, r, s, max, max ? -big : big, seed);
            boost::shared_ptr<ContinuousOptimizer> fresh(make(kind, cfg, lo, hi));
            Run y = run(*fresh, f, r, s, !max, max ? big : -big, seed);
            boost::shared_ptr<ContinuousOptimizer> fresh2(make(kind, cfg, lo, hi));
            Run z = run(*fresh2, f, r, s, max, max ? -big : big, seed);
            unlink("polygon.plot");
            bool walk = true, best = true;
            if(kind == 2)
            {
                double b = HUGE_VAL;
                for(size_t i = 0; i < x.log.at.size(); i++)
                {
                    for(int j = 0; j < n; j++) { double q = x.log.at[i][j]; if(q != s[j] && !(q >= lo && q <= hi)) walk = false; }
                    b = std::min(b, x.log.val[i]);
                }
                if(x.ok) best = big == 1 || f.value(x.at) == b;
            }
            out.put(J("Run").str("opt", names[kind]).i("bad", x.log.bad + y.log.bad).b("refused", x.log.refused > 0).b("budget", x.log.budget)
                .b("ok", x.ok).b("valid", r.ok(x.at)).b("seen", x.log.seen.count(id(x.at)) > 0)
                .b("walk", walk).b("best", best)
                .str("path", path(x.log)).str("twin", path(y.log)).str("fresh", path(z.log))
                .b("twinok", y.ok).b("freshok", z.ok).str("at", id(x.at)).str("twinat", id(y.at)).str("freshat", id(z.at)));
        }
    }
}
static std::vector<std::string> words(const V& v) { std::vector<std::string> r; for(size_t i = 0; i < v.size(); i++) r.push_back(id(V(1, v[i]))); return r; }
static void anneal(int runs)
{
    for(; runs > 0; runs--)
    {
        int n = (int)(rnd(0, 3) ? rnd(1, 4) : rnd(5, 8));
        double lo = -rnd(1, 8), hi = rnd(1, 8);
        size_t iters = (size_t)rnd(1, rnd(0, 15) ? 30 : 300);
        SimulatedAnnealing o(iters, lo, hi);
        for(int k = (int)rnd(1, 2); k > 0; k--)
        {
            Fun f = any_fun(n, 0, 6);
            Rule r = {rnd(0, 2) ? 0 : (int)rnd(1, 3), (int)rnd(0, 1000), -rnd(0, 5) - 0.5, rnd(0, 5) + 0.25};
            V s = start_point(n, 16, -40, 40);
            bool cold = rnd(0, 1), max = rnd(0, 1);
            double big = cold ? 1e7 : 0.125;
            Run x = run(o, f, r, s, max, max ? -big : big, rng());
            out.put(J("Walk").i("iters", iters).b("cold", cold).strs("start", words(s)).i("v", value_of(f, s)));
            for(size_t i = 0; i < x.log.at.size(); i++)
            {
                std::vector<long> in;
                for(int j = 0; j < n; j++) in.push_back(x.log.at[i][j] >= lo && x.log.at[i][j] <= hi);
                out.put(J("Eval").strs("x", words(x.log.at[i])).seq("in", in).i("v", (long)x.log.val[i]));
            }
            out.put(J("End").b("ok", x.ok).b("refused", x.log.refused > 0).strs("x", words(x.at)));
        }
    }
}
// how often the walk leaves a start that is better than every other point by d
class Pit : public ContinuousObjectiveFunction
{
public:
    Pit(const V& at, double d, double sign) : at_(at), d_(d), sign_(sign) {}
    double operator()(const V& v) const { changed(v); return v == at_ ? 0 : sign_ * d_; }
    Pit* Clone() const { return new Pit(at_, d_, sign_); }
    static std::set<int> changes;
private:
    void changed(const V& v) const { for(size_t i = 0; i < v.size(); i++) if(v[i] != at_[i]) changes.insert((int)i); }
    V at_; double d_, sign_;
};
// a walk of very many iterations that never leaves its start: every iteration tries one new neighbour
class Well : public ContinuousObjectiveFunction
{
public:
    Well(const V& at, double sign) : at_(at), sign_(sign) {}
    double operator()(const V& v) const
    {
        if(v == at_) return 0;
        tried++;
        int c = 0;
        for(size_t i = 0; i < v.size(); i++) c += v[i] != at_[i];
        if(c != 1) strange++;
        return sign_ * 1e9;
    }
    Well* Clone() const { return new Well(at_, sign_); }
    static long tried, strange;
private:
    V at_; double sign_;
};
long Well::tried, Well::strange;
static void long_walk(size_t iters)
{
    V s = start_point((int)rnd(1, 8), 16, -40, 40);
    bool max = rnd(0, 1);
    Well f(s, max ? -1 : 1);
    Well::tried = Well::strange = 0;
    SimulatedAnnealing o(iters, -3, 3);
    P p(s, FREE);
    bool ok = true;
    try { o.Optimize((const ContinuousObjectiveFunction&)f, &p, max); } catch(const std::exception&) { ok = false; }
    out.put(J("Long").i("iters", iters).b("ok", ok).i("tried", Well::tried).i("strange", Well::strange).b("stayed", p.GetValues() == s));
}
std::set<int> Pit::changes;
static void leave(int runs)
{
    static Log none;
    cur = &none;
    size_t lens[] = {1, 2, 255, 256, 1000, 32767, 32768, 65535, 65537, 70000, 131072, 200001};
    for(size_t k = 0; k < sizeof lens / sizeof *lens; k++) long_walk(lens[k]);
    for(int k = 0; k < 6; k++)
    {
        int n = k % 3 == 2 ? (int)rnd(5, 8) : 1 + k % 4;
        size_t iters = (size_t)rnd(2, 7);
        double d = rnd(4, 16) / 16., stay = 1;
        for(size_t i = 1; i < iters; i++) stay *= 1 - std::exp(-d * iters / (double)(iters - i));
        V s = start_point(n, 16, -40, 40);
        bool max = rnd(0, 1);
        Pit f(s, d, max ? -1 : 1);
        SimulatedAnnealing o(iters, -3, 3);
        Pit::changes.clear();
        long left = 0;
        gen.seed(rng());
        for(int r = 0; r < runs; r++)
        {
            P p(s, FREE);
            o.Optimize((const ContinuousObjectiveFunction&)f, &p, max);
            if(p.GetValues() != s) left++;
        }
        out.put(J("Leave").i("runs", runs).i("left", left).i("expect", (long)(runs * (1 - stay))).i("sigma", (long)std::sqrt(runs * stay * (1 - stay)) + 1)
            .i("n", n).i("changed", Pit::changes.size()));
    }
}
int main(int, char** argv)
{
    out.open(argv[1]);
    rng.seed(atol(argv[4]));
    if(!freopen("/dev/null", "w", stdout)) return 77;
    k52::common::Random::Instance(); // draws once when it is made
    std::string mode = argv[2];
    int n = atoi(argv[3]);
    if(mode == "hj") hooke(n);
    else if(mode == "nm") nelder(n);
    else if(mode == "nm1") nelder1(n);
    else if(mode == "hjm") hooke_moves(n);
    else if(mode == "nmn") nelder_moves(n);
    else if(mode == "anneal") anneal(n);
    else if(mode == "leave") leave(n);
    else guard(n);
    out.close();
    return 0;
}
