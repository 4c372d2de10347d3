// usage: transfer_harness TRACE objects|runs N SEED
// objects: parameters and optimisers are sent through one channel and received into copies of
//          prototypes that hold something else.
// runs:    random searches and genetic algorithms with the tasks distributed over MPI, each next
//          to the same run with all tasks done in place.
#include "mpi_shim.h"
#include <boost/mpi.hpp>
#include <k52/optimization/random_search.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/common/random.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include "mpi_ranks.h"
#include "mpi_stub.h"
#include "trace.h"
#include "vsched.h"
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <memory>
#include <random>
using namespace k52::optimization;
using k52::parallel::mpi::IdentifyableObjectsManager;
using k52::parallel::mpi::ITransferable;
typedef std::vector<double> V;
typedef std::string S;
static Out out;
static std::mt19937 rng, gen;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static double frac(double a, double b) { return a + (b - a) * (rng() / 4294967296.0); }
static bool drained, constant;
extern "C" int rand() throw() { drained = true; return constant ? 0 : (int)(gen() & 0x7fffffff); }
extern "C" void srand(unsigned) throw() {}
// the generator of the library may hold bits drawn before
static void reseed(unsigned seed)
{
    constant = true;
    drained = false;
    for(int i = 0; i < 100 && !drained; i++) k52::common::Random::Instance().GetRandomBool();
    constant = false;
    gen.seed(seed);
}

static unsigned long long fnv(const void* p, size_t n, unsigned long long h)
{
    const unsigned char* c = (const unsigned char*)p;
    for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
static unsigned long long hash_of(const V& v, double r)
{
    unsigned long long h = 1469598103934665603ULL;
    if(!v.empty()) h = fnv(&v[0], v.size() * sizeof(double), h);
    return fnv(&r, sizeof r, h) >> 3;
}
static S hex(unsigned long long x) { char b[32]; snprintf(b, 32, "%llx", x); return b; }
static S text(const V& v)
{
    S s; char b[40];
    for(size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.17g", i ? " " : "", v[i]); s += b; }
    return s;
}

// ---- what was evaluated, whatever the order
static unsigned long long evals, ordered, sum, limit_evals = 200000;
struct TooLong {};
static V centre, weight;
static double sign;
static double shape(const V& v)
{
    double r = 0;
    for(size_t i = 0; i < v.size(); i++)
    {
        double d = v[i] - centre[i % centre.size()];
        r += weight[i % weight.size()] * d * d;
        if(i) r += 0.25 * d * (v[i - 1] - centre[(i - 1) % centre.size()]);
    }
    return sign * r;
}
static void note(const V& v, double r)
{
    unsigned long long h = hash_of(v, r);
    if(++evals > limit_evals) throw TooLong();
    sum += h;
    ordered = ordered * 31 + h;
}
class F : public ContinuousObjectiveFunction
{
public:
    double operator()(const V& v) const { double r = shape(v); note(v, r); return r; }
    F* Clone() const { return new F(); }
    void Send(boost::mpi::communicator*, int) const {}
    void Receive(boost::mpi::communicator*, int) {}
};
static S bits(const IDiscreteParameters& p)
{
    ChromosomeType c(p.GetChromosomeSize());
    p.SetChromosome(c.begin(), c.end());
    S s;
    for(size_t i = 0; i < c.size(); i++) s += c[i] ? '1' : '0';
    return s;
}
static V values(const IDiscreteParameters& p)
{
    V r;
    if(const DoubleParametersArray* a = dynamic_cast<const DoubleParametersArray*>(&p)) return a->get_values();
    if(const IntParameter* a = dynamic_cast<const IntParameter*>(&p)) r.push_back(a->get_value());
    if(const DoubleParameter* a = dynamic_cast<const DoubleParameter*>(&p)) r.push_back(a->GetValue());
    if(const CompositeDiscreteParameters* a = dynamic_cast<const CompositeDiscreteParameters*>(&p))
        for(size_t i = 0; i < a->GetNumberOfParameters(); i++)
        {
            V w = values(*a->GetParameter(i));
            r.insert(r.end(), w.begin(), w.end());
        }
    return r;
}
class G : public DiscreteObjectiveFunction
{
public:
    double operator()(const IDiscreteParameters* p) const { V v = values(*p); double r = std::fabs(shape(v)); note(v, r); return r; }
    G* Clone() const { return new G(); }
    void Send(boost::mpi::communicator*, int) const {}
    void Receive(boost::mpi::communicator*, int) {}
};

// ---- things that travel
typedef std::shared_ptr<IParameters> P;
typedef std::shared_ptr<ContinuousOptimizer> O;
static double precision() { double p[] = { 1e-1, 1e-2, 1e-3, 1e-5 }; return p[rnd(0, 3)]; }
static O optimizer(int k, bool small)
{
    switch(k)
    {
    case 0: return O(new HookeJeevesMethod(frac(1.1, 4), frac(0.1, 2), rnd(1, small ? 15 : 60), precision(), frac(1.5, 10)));
    case 1: { double lo = frac(-6, -4), hi = frac(4, 6); return O(new BoundedNelderMead(frac(0.2, 2), precision(), lo, hi)); }
    case 2: return O(new ConjugateGradientMethod(precision(), frac(1e-6, 1e-4), rnd(2, 12)));
    case 3: return O(new SteepestDescentMethod(frac(1e-6, 1e-4), rnd(1, 12), precision()));
    default: return O(new HleborodovRosenbrockMethod(precision(), rnd(1, small ? 8 : 25), frac(0.1, 1.5), frac(1.6, 4)));
    }
}
static const char* optimizer_name(int k)
{
    static const char* n[] = { "Hooke-Jeeves", "Nelder-Mead", "conjugate gradient", "steepest descent", "Rosenbrock", "none" };
    return n[k];
}
static S path(ContinuousOptimizer& o)
{
    S r;
    for(int k = 0; k < 3; k++)
    {
        centre.clear(); weight.clear();
        for(int i = 0; i < 1 + k; i++) { centre.push_back(0.37 * (i + 1) - 0.8 * k); weight.push_back(1 + 0.5 * i * k); }
        bool max = k == 1;
        sign = max ? -1 : 1;
        V v(1 + k, 1.25 + 0.5 * k);
        ContinuousParametersArray p(v);
        F f;
        evals = ordered = sum = 0;
        S how = "ok";
        try { o.Optimize((const ContinuousObjectiveFunction&)f, &p, max); }
        catch(const TooLong&) { how = "long"; }
        catch(const std::exception&) { how = "refused"; }
        r += how + "," + hex(ordered) + "," + text(p.GetValues()) + ";";
    }
    return r;
}
static S describe(const ITransferable& t, bool received)
{
    if(const ContinuousParametersArray* a = dynamic_cast<const ContinuousParametersArray*>(&t)) return "array " + text(a->GetValues());
    if(const IDiscreteParameters* a = dynamic_cast<const IDiscreteParameters*>(&t))
    {   // what travels is the chromosome
        S g = bits(*a);
        std::shared_ptr<IDiscreteParameters> c(a->Clone());
        ChromosomeType v(g.size());
        for(size_t i = 0; i < g.size(); i++) v[i] = g[i] == '1';
        const ChromosomeType& w = v;
        c->SetFromChromosome(w.begin(), w.end());
        return "genes " + g + " " + text(values(received ? *a : *c));
    }
    return path(*const_cast<ContinuousOptimizer*>(dynamic_cast<const ContinuousOptimizer*>(&t)));
}
struct Thing { std::shared_ptr<ITransferable> sent, got; const char* kind; };
static std::shared_ptr<IDiscreteParameters> discrete(int k, int meta, bool first)
{
    typedef std::shared_ptr<IDiscreteParameters> D;
    long lo = -(meta % 7), hi = lo + 1 + meta % 90;
    double prec = meta % 2 ? 0.05 : 0.003;
    switch(k)
    {
    case 1: return D(new IntParameter(first ? (int)lo : (int)rnd(lo, hi), (int)lo, (int)hi));
    case 2: return D(new DoubleParameter(first ? lo : frac(lo, hi), lo, hi, prec));
    case 3:
    {
        size_t n = 1 + meta % 4;
        DoubleParametersArray* a = new DoubleParametersArray(lo, hi, prec, n);
        V v(n, lo);
        for(size_t i = 0; i < n && !first; i++) v[i] = frac(lo, hi);
        a->SetValues(v);
        return D(a);
    }
    default:
    {
        std::vector<IDiscreteParameters::shared_ptr> v;
        for(int i = 0; i < 1 + meta % 3; i++)
        {
            D d = discrete(1 + (meta / 3 + i) % 3, meta + i, first);
            v.push_back(IDiscreteParameters::shared_ptr(d->Clone()));
        }
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        c->Initialize(v);
        return D(c);
    }
    }
}
static Thing thing()
{
    Thing t;
    int k = (int)rnd(0, 9);
    static const char* names[] = { "values", "int", "double", "double array", "composite" };
    if(k == 0)
    {
        V a(rnd(0, 6)), b(rnd(0, 1) ? a.size() : rnd(0, 4));
        for(size_t i = 0; i < a.size(); i++) a[i] = rnd(0, 5) ? frac(-1e3, 1e3) : std::ldexp(frac(-1, 1), (int)rnd(-300, 300));
        for(size_t i = 0; i < b.size(); i++) b[i] = frac(-9, 9);
        t.sent.reset(new ContinuousParametersArray(a));
        ContinuousParametersArray proto(b);
        t.got.reset(proto.Clone());
        t.kind = names[0];
    }
    else if(k < 5)
    {
        int meta = (int)rnd(0, 1000);
        std::shared_ptr<IDiscreteParameters> a = discrete(k, meta, false), b = discrete(k, meta, rnd(0, 1));
        t.sent.reset(a->Clone());
        t.got.reset(b->Clone());
        t.kind = names[k];
    }
    else
    {
        O a = optimizer(k - 5, false), b = optimizer(k - 5, false);
        if(rnd(0, 1)) path(*b);            // a prototype that has been used already
        t.sent = a;
        t.got.reset(b->Clone());
        t.kind = optimizer_name(k - 5);
    }
    return t;
}
struct Sentinel {};
static void objects()
{
    std::vector<Thing> all;
    for(int n = (int)rnd(1, 6); n > 0; n--) all.push_back(thing());
    std::vector<S> kinds, sent, got;
    for(size_t i = 0; i < all.size(); i++) kinds.push_back(all[i].kind);
    mpi_stub::reset(4);
    int from = (int)rnd(0, 3), to = (from + 1 + (int)rnd(0, 2)) % 4;
    boost::mpi::communicator comm;
    bool failed = false;
    mpi_stub::set_rank(from);
    for(size_t i = 0; i < all.size(); i++)
    {
        all[i].sent->Send(&comm, to);
        sent.push_back(describe(*all[i].sent, false));
    }
    Sentinel end;
    comm.send(to, 0, end);
    mpi_stub::set_rank(to);
    for(size_t i = 0; i < all.size() && !failed; i++)
    {
        try { all[i].got->Receive(&comm, from); got.push_back(describe(*all[i].got, true)); }
        catch(const std::exception&) { failed = true; got.push_back("received something else"); }
    }
    int left = mpi_stub::pending() - 1;     // but the sentinel
    mpi_stub::set_rank(0);
    mpi_stub::reset(1);
    out.put(J("Transfer").strs("kinds", kinds).strs("sent", sent).strs("got", got).i("left", left).b("failed", failed));
}

// ---- distributed runs
static const char* expected_id = 0;
static S last_known;
static void created()
{
    bool known = true;
    try { IdentifyableObjectsManager::Instance().GetObject(expected_id); } catch(const std::exception&) { known = false; }
    out.put(J("Created").b("known", known));
}
struct Outcome { S how, result; unsigned long long evals, sum; };
static J& add(J& j, const char* k, const Outcome& o)
{
    std::vector<S> v;
    v.push_back(o.how); v.push_back(o.result); v.push_back(hex(o.evals)); v.push_back(hex(o.sum));
    return j.strs(k, v);
}
struct Scenario
{
    bool ga, max;
    int n, k, dim, generations, kind, meta;
    unsigned seed;
    O opt;
    double lo, hi;
    int times;
};
static Outcome play(const Scenario& s)
{
    Outcome r;
    reseed(s.seed);
    evals = ordered = sum = 0;
    r.how = "ok";
    try
    {
        if(s.ga)
        {
            std::shared_ptr<IDiscreteParameters> p = discrete(s.kind, s.meta, true);
            IdentifyableObjectsManager::Instance().RegisterObject(*p);
            IMutator::shared_ptr mutator(new FlipBitMutator(0.1));
            GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(s.n, 1, s.generations, mutator, 0, 1e12, "");
            G f;
            for(int i = 0; i < s.times; i++) { g->Optimize(f, p.get(), s.max); r.result += bits(*p) + ";"; }
        }
        else
        {
            RandomSearch search(s.n, s.lo, s.hi, s.opt.get());
            ContinuousParametersArray p(V(s.dim, 40.0));
            F f;
            for(int i = 0; i < s.times; i++)
            {
                search.Optimize((const ContinuousObjectiveFunction&)f, &p, s.max);
                r.result += text(p.GetValues()) + ";";
            }
        }
    }
    catch(const TooLong&) { r.how = "long"; }
    catch(const std::exception& e) { r.how = "refused"; }
    r.evals = evals; r.sum = sum;
    return r;
}
static S current = "?";
static void stuck(const char* why)
{
    out.put(J("Stuck").str("why", why).str("what", current));
    out.close();
    _exit(0);
}
static long skipped = 0;
static bool first[2] = { true, true };
static void run_one(long r, unsigned long long seed)
{
    Scenario s;
    s.ga = r % 4 == 3;
    s.max = rnd(0, 1);
    s.seed = rng();
    s.n = s.ga ? 2 * (int)rnd(1, 6) : (int)rnd(1, rnd(0, 3) ? 7 : 30);
    s.k = (int)rnd(0, 5);
    s.dim = (int)rnd(1, 3);
    s.generations = (int)rnd(1, 5);
    s.kind = (int)rnd(1, 4);
    s.meta = (int)rnd(0, 1000);
    s.times = (int)rnd(1, 3);
    double b = frac(-3, 3);
    s.lo = b; s.hi = b + (rnd(0, 4) ? frac(0, 4) : 0);
    centre.clear(); weight.clear();
    for(int i = 0; i < 4; i++) { centre.push_back(frac(-2, 2)); weight.push_back(frac(0.3, 3)); }
    sign = s.max ? -1 : 1;
    // what the workers start from: copies of these, which are set up differently
    if(!s.ga && s.k < 5) s.opt = optimizer(s.k, true);
    for(int k = 0; k < 5; k++) IdentifyableObjectsManager::Instance().RegisterObject(*optimizer(k, true));
    IdentifyableObjectsManager::Instance().RegisterObject(ContinuousParametersArray(V(rnd(0, 3), 7.0)));
    F f; G g;
    IdentifyableObjectsManager::Instance().RegisterObject(f);
    IdentifyableObjectsManager::Instance().RegisterObject(g);
    Outcome ref, got;
    // the pools of the library run the tasks in the order given when there is one thread
    bool count = s.ga || s.k == 5;
    expected_id = count ? mpi_count_task() : mpi_optimization_task();
    mpi_on_create = first[count] ? created : 0;
    first[count] = false;
    int workers = (int)rnd(1, 5);
    mpi_workers = 0;
    ref = play(s);
    mpi_on_create = 0;
    Outcome again = play(s);
    // compare only what is determined by the random numbers
    if(ref.how != "ok" || again.result != ref.result || again.sum != ref.sum) { skipped++; return; }
    VsStrategy st;
    st.kind = 1 + r % 2;
    st.seed = seed;
    st.depth = 1 + r % 5;
    st.max_steps = 3000000;
    mpi_stub::set_delay((r / 2) % 4, seed);
    mpi_workers = workers;
    mpi_left = mpi_lost = 0;
    current = s.ga ? "genetic algorithm" : S("random search, ") + optimizer_name(s.k);
    vs_run(st, [&] { got = play(s); });
    J j("Distributed");
    j.str("what", current).i("workers", workers).i("tasks", s.n);
    add(j, "ref", ref);
    add(j, "got", got);
    out.put(j.i("left", mpi_left).i("lost", mpi_lost));
}
int main(int, char** argv)
{
    out.open(argv[1]);
    S mode = argv[2];
    long n = atol(argv[3]), seed = atol(argv[4]);
    dup2(open("/dev/null", O_WRONLY), 1);
    vs_on_stuck = stuck;
    k52::common::Random::Instance();
    rng.seed(seed);
    for(long r = 0; r < n; r++)
    {
        rng.seed(seed * 1000003 + r);
        limit_evals = mode == "objects" ? 2000 : 200000;
        if(mode == "objects") objects(); else run_one(r, seed * 1000003ULL + r + 1);
        out.flush();
    }
    out.put(J("Stats").i("runs", n).i("skipped", skipped));
    out.close();
    _exit(0);
}
