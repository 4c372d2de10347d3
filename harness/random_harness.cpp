// usage: random_harness TRACE random|mutators N SEED
#include <k52/common/random.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/flip_bit_mutator.h>
#include "trace.h"
#include <climits>
#include <cmath>
#include <limits>
#include <random>
#include <set>
#include <stdexcept>
using k52::common::Random;
using namespace k52::optimization;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }

// the generator: the script while there is one, else random
static std::vector<int> script;
static size_t script_at = 0;
static long calls = 0;
extern "C" int rand() throw() { calls++; if(script_at < script.size()) return script[script_at++]; return (int)(rng() & 0x7fffffff); }
extern "C" void srand(unsigned) throw() {}
static void play(const std::vector<int>& s) { script = s; script_at = 0; }
static std::vector<int> spread(int n)
{
    std::vector<int> r;
    for(int k = 0; k < n; k++) r.push_back((int)((double)RAND_MAX * k / (n - 1)));
    return r;
}
static std::vector<int> outputs()
{
    std::vector<int> r;
    for(int k = 0; k < 700; k++) { r.push_back(k); r.push_back(RAND_MAX - k); }
    std::vector<int> s = spread(1500);
    r.insert(r.end(), s.begin(), s.end());
    for(int k = 0; k < 31; k++) { r.push_back(1 << k); r.push_back(RAND_MAX ^ (1 << k)); }
    return r;
}
static void range(int lo, int hi)
{
    std::vector<int> o = outputs();
    std::set<int> vals;
    bool in = true;
    long n = (long)hi - lo + 1;
    for(size_t i = 0; i < o.size(); i++)
    {
        play(std::vector<int>(1, o[i]));
        int v = Random::Instance().GetUniformlyDistributedDiscreteRandomQuantity(lo, hi);
        if(v < lo || v > hi) in = false;
        if(n <= 64) vals.insert((int)((long)v - lo));
    }
    play(std::vector<int>());
    out.put(J("Range").str("lo", std::to_string(lo)).str("hi", std::to_string(hi)).i("n", n <= 64 ? n : 1000).b("in", in).seq("vals", vals));
}
static void real(double lo, double hi)
{
    std::vector<int> o = outputs();
    bool in = true;
    for(size_t i = 0; i < o.size(); i += 3)
    {
        play(std::vector<int>(1, o[i]));
        double v = Random::Instance().GetContinuousRandomQuantity(lo, hi);
        if(!(v >= lo && v <= hi)) in = false;
    }
    play(std::vector<int>(1, RAND_MAX));
    double b = Random::Instance().GetBaseRandomQuantity();
    if(!(b >= 0 && b <= 1)) in = false;
    play(o);
    int n = (int)rnd(0, 9);
    std::vector<double> v = Random::Instance().GenerateRandomVector(n, lo, hi);
    for(size_t i = 0; i < v.size(); i++) if(!(v[i] >= lo && v[i] <= hi)) in = false;
    play(std::vector<int>());
    out.put(J("Real").str("lo", std::to_string(lo)).str("hi", std::to_string(hi)).b("in", in).i("len", v.size()).i("want", n));
}
static void event(int permille)
{
    std::vector<int> o = spread(2001);
    int yes = 0;
    for(size_t i = 0; i < o.size(); i++)
    {
        play(std::vector<int>(1, o[i]));
        if(Random::Instance().CheckEventOutcome(permille / 1000.0)) yes++;
    }
    play(std::vector<int>());
    out.put(J("Event").i("p", permille).i("n", o.size()).i("yes", yes));
}
static void prob(double p)
{
    bool refused = false, refused2 = false;
    try { Random::ValidateProbability(p); } catch(const std::exception&) { refused = true; }
    try { Random::Instance().CheckEventOutcome(p); } catch(const std::exception&) { refused2 = true; }
    out.put(J("Prob").b("valid", p >= 0 && p <= 1).b("refused", refused).b("second", refused2));
    if(refused != refused2) out.put(J("Prob").b("valid", p >= 0 && p <= 1).b("refused", refused2));
}
// the booleans decided by generator output w
static std::string batch(int w)
{
    // finish the current output
    std::string s;
    play(std::vector<int>(1, w));
    long c = calls;
    int guard = 0;
    while(calls == c && guard++ < 1000) { bool b = Random::Instance().GetRandomBool(); if(calls > c) s += b ? '1' : '0'; }
    if(guard >= 1000) return "";
    c = calls;
    // up to the next output; that one is drained by the next batch
    for(guard = 0; guard < 1000; guard++)
    {
        bool b = Random::Instance().GetRandomBool();
        if(calls > c) break;
        s += b ? '1' : '0';
    }
    play(std::vector<int>());
    return s;
}
static void word(int w)
{
    std::string b = batch(w);
    std::vector<std::string> f;
    for(int k = 0; k < 31; k++) f.push_back(batch(w ^ (1 << k)));
    out.put(J("Word").str("bools", b).strs("flips", f));
}
// the booleans decided by each of several outputs, one after another
static std::vector<std::string> batches(const std::vector<int>& w)
{
    std::vector<std::string> r;
    play(w);
    long c = calls;
    int guard = 0;
    size_t cur = 0;
    while(cur <= w.size() && guard++ < 40000)
    {
        bool b = Random::Instance().GetRandomBool();
        if(calls > c) { cur += calls - c; c = calls; r.resize(cur); }
        if(cur >= 1) r[cur - 1] += b ? '1' : '0';
    }
    play(std::vector<int>());
    r.resize(std::min(r.size(), w.size()));
    return r;
}
// outputs repeat within the sequence, running or not: the same output always decides the same booleans
static void sequence()
{
    int alphabet[4] = {(int)(rng() & 0x7fffffff), (int)(rng() & 0x7fffffff), rnd(0, 3) ? (int)(rng() & 0x7fffffff) : 0, rnd(0, 3) ? (int)(rng() & 0x7fffffff) : RAND_MAX};
    std::vector<int> w, id;
    int n = (int)rnd(3, 12);
    for(int k = 0; k < n; k++) { int a = k && rnd(0, 1) ? id.back() - 1 : (int)rnd(0, 3); id.push_back(a + 1); w.push_back(alphabet[a]); }
    out.put(J("Sequence").seq("ids", id).strs("bools", batches(w)));
}
// a long random vector: every component is drawn by itself
static void vector_of(int n)
{
    std::vector<double> v = Random::Instance().GenerateRandomVector(n, -3, 5);
    std::set<double> s(v.begin(), v.end());
    std::set<int> parts;
    for(size_t i = 0; i < v.size(); i++) parts.insert((int)std::floor(v[i] + 3));
    out.put(J("Vector").i("want", n).i("len", v.size()).i("distinct", s.size()).seq("parts", parts));
}
static void random_source(int n)
{
    for(int k = 0; k < n / 2; k++) sequence();
    for(int k = 0; k < n / 4; k++) vector_of((int)rnd(0, 40) * (int)rnd(1, 5));
    for(int k = 0; k < 3; k++) vector_of((int)rnd(300, 3000));
    Random::Instance();
    int edges[] = {0, 1, -1, 2, 7, -8, 100, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), RAND_MAX - 1};
    for(size_t i = 0; i < sizeof edges / sizeof *edges; i++)
        for(size_t k = 0; k < sizeof edges / sizeof *edges; k++)
            if(edges[i] <= edges[k]) range(edges[i], edges[k]);
    for(int k = 1; k <= 64; k++) { int lo = (int)rnd(-50, 50); range(lo, lo + k - 1); }
    for(int k = 0; k < n; k++) { long a = (int)rng(), b = (int)rng(); range((int)std::min(a, b), (int)std::max(a, b)); }
    double re[] = {0, 1, -1, 0.1, 0.3, 1e-300, -1e300, 1e300, 5e-324, 1e17, 123456.789, std::nextafter(1.0, 2)};
    for(size_t i = 0; i < sizeof re / sizeof *re; i++)
        for(size_t k = 0; k < sizeof re / sizeof *re; k++)
            if(re[i] <= re[k]) real(re[i], re[k]);
    for(int k = 0; k < n; k++)
    {
        double a = (rng() / 1e9 - 2) * std::pow(10.0, rnd(-5, 5)), b = (rng() / 1e9 - 2) * std::pow(10.0, rnd(-5, 5));
        real(std::min(a, b), std::max(a, b));
    }
    int ps[] = {0, 1, 2, 5, 10, 100, 250, 333, 500, 667, 750, 900, 990, 998, 999, 1000};
    for(size_t i = 0; i < sizeof ps / sizeof *ps; i++) event(ps[i]);
    for(int k = 0; k < n / 4; k++) event((int)rnd(0, 1000));
    double pr[] = {-1, -1e-300, -0.0, 0, 5e-324, 0.5, 1, std::nextafter(1.0, 2), std::nextafter(1.0, 0), 2, 1e300, INFINITY, -INFINITY, NAN};
    for(size_t i = 0; i < sizeof pr / sizeof *pr; i++) prob(pr[i]);
    int ws[] = {0, RAND_MAX, 1, RAND_MAX - 1, 0x55555555, 0x2aaaaaaa};
    for(size_t i = 0; i < sizeof ws / sizeof *ws; i++) word(ws[i]);
    for(int k = 0; k < n / 4; k++) word((int)(rng() & 0x7fffffff));
}

class OpenLinear : public LinearMutator
{
public:
    OpenLinear(double a, double b) : LinearMutator(a, b) {}
    double GetCurrentGenMutationProbability() { return LinearMutator::GetCurrentGenMutationProbability(); }
};
static void make_linear(double a, double b)
{
    bool ok = true;
    try { LinearMutator m(a, b); } catch(const std::exception&) { ok = false; }
    out.put(J("Make").str("kind", "linear").b("valid", a >= 0 && a <= 1 && b >= 0 && b <= 1).b("ok", ok));
}
static void make_flip(double p)
{
    bool ok = true;
    try { FlipBitMutator m(p); } catch(const std::exception&) { ok = false; }
    if(p > 0.5 && p <= 1) return; // not decided by the property
    out.put(J("Make").str("kind", "flip").b("valid", p > 0 && p <= 1).b("ok", ok));
}
static void linear(int a, int b, int d, int g, int max)
{
    OpenLinear m((double)a / d, (double)b / d);
    MutationContext c; c.current_generation = g; c.max_number_of_generations = max;
    m.ApplyNewMutationContext(c);
    double p = m.GetCurrentGenMutationProbability();
    double lo = std::min((double)a / d, (double)b / d), hi = std::max((double)a / d, (double)b / d);
    double num = p * d * (max <= 1 ? 1 : max - 1), r = std::floor(num + 0.5);
    bool fin = std::fabs(num) < 1e6;
    std::vector<int> o = spread(501);
    play(o);
    ChromosomeType x(o.size());
    for(size_t i = 0; i < x.size(); i++) x[i] = rnd(0, 1);
    ChromosomeType y = x;
    m.MutateChromosome(&y);
    play(std::vector<int>());
    int flips = 0;
    for(size_t i = 0; i < std::min(x.size(), y.size()); i++) flips += x[i] != y[i];
    out.put(J("Linear").i("a", a).i("b", b).i("d", d).i("g", g).i("max", max).i("num", fin ? (long)r : -777).b("near", fin && std::fabs(num - r) < 1e-9 * (1 + std::fabs(r)))
        .b("inside", p >= lo && p <= hi).b("sure", p == 0 || p == 1).i("genes", x.size()).i("len", y.size()).i("flips", flips));
}
static void flip(double p, int inv)
{
    FlipBitMutator m(p);
    MutationContext c; c.current_generation = 0; c.max_number_of_generations = 5;
    m.ApplyNewMutationContext(c);
    std::vector<int> at;
    std::set<int> gaps;
    int total = 0, last = 0;
    bool len = true;
    for(int k = 0; k < 40 || (k < 4000 && total < inv * 40 && inv <= 40); k++)
    {
        int n = (int)rnd(0, 12);
        ChromosomeType x(n);
        for(int i = 0; i < n; i++) x[i] = rnd(0, 1);
        ChromosomeType y = x;
        if(rnd(0, 3) == 0) { std::vector<int> e; for(int i = 0; i < 3; i++) e.push_back(rnd(0, 1) ? 0 : rnd(0, 1) ? RAND_MAX : inv - 1); play(e); }
        m.MutateChromosome(&y);
        if(y.size() != x.size()) { len = false; continue; }
        for(int i = 0; i < n; i++)
        {
            total++;
            if(x[i] != y[i])
            {
                if(k < 40) at.push_back(total);
                gaps.insert(total - last); last = total;
            }
        }
        if(k == 39) { out.put(J("Flip").i("inv", inv).b("len", len).seq("at", at).i("total", total)); }
    }
    play(std::vector<int>());
    if(inv <= 6 && inv * 40 <= total) out.put(J("Gaps").i("inv", inv).seq("gaps", gaps));
}
// rare mutations: the distances reach from next to nothing to about inv
static void reach(int inv)
{
    FlipBitMutator m(1.0 / (inv + 0.5));
    MutationContext c; c.current_generation = 0; c.max_number_of_generations = 5;
    m.ApplyNewMutationContext(c);
    long total = 0, last = 0, least = LONG_MAX, most = 0, flips = 0;
    while(total < 250L * inv)
    {
        ChromosomeType x((size_t)rnd(1, 2000)), y;
        y = x;
        m.MutateChromosome(&y);
        for(size_t i = 0; i < x.size(); i++)
        {
            total++;
            if(x[i] == y[i]) continue;
            long gap = total - last;
            last = total; flips++;
            least = std::min(least, gap); most = std::max(most, gap);
        }
    }
    out.put(J("Reach").i("inv", inv).i("genes", total).i("flips", flips).i("least", std::min(least, 1000000000L)).i("most", std::max(most, total - last)));
}
static void mutators(int n)
{
    double pr[] = {-1, -1e-300, 0, 5e-324, 1e-12, 0.1, 0.5, 0.75, 1, std::nextafter(1.0, 2), 2, INFINITY, -INFINITY, NAN};
    for(size_t i = 0; i < sizeof pr / sizeof *pr; i++)
    {
        for(size_t k = 0; k < sizeof pr / sizeof *pr; k++) make_linear(pr[i], pr[k]);
        make_flip(pr[i]);
    }
    for(int k = 0; k < n; k++)
    {
        int d = (int)(const int[]){1, 2, 3, 7, 10, 100}[rnd(0, 5)], max = (int)(rnd(0, 7) ? rnd(1, 12) : rnd(13, 3000));
        linear((int)rnd(0, d), rnd(0, 3) ? (int)rnd(0, d) : 0, d, (int)rnd(0, max - 1), max);
    }
    for(int k = 0; k < n / 3; k++)
    {
        double p = rnd(0, 1) ? 1.0 / rnd(2, 12) : rnd(1, 500) / 1000.0;
        flip(p, (int)std::floor(1 / p));
    }
    for(int k = 0; k < std::min(n / 100, 6); k++) reach((int)(rnd(0, 1) ? rnd(40, 400) : rnd(400, 3000)));
    double small[] = {1e-3, 1e-12, 5e-324, 1e-9, 0.5};
    for(size_t i = 0; i < sizeof small / sizeof *small; i++) flip(small[i], (int)std::min(std::floor(1 / small[i]), 2e9));
}
int main(int, char** argv)
{
    out.open(argv[1]);
    rng.seed(atol(argv[4]));
    if(std::string(argv[2]) == "random") random_source(atoi(argv[3]));
    else mutators(atoi(argv[3]));
    out.close();
    return 0;
}
