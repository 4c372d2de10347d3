// usage: select_harness TRACE RUNS SEED
// One population bred from again and again: which individuals are drawn as parents, how
// often both parents are one, where the chromosomes are cut.
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/generation_statistics.h>
#include <k52/optimization/params/discrete_parameters.h>
#include <boost/thread.hpp>
#include "trace.h"
#include <algorithm>
#include <cmath>
#include <mutex>
#include <random>
#include <set>
#include <stdexcept>

using namespace k52::optimization;
typedef std::string S;
static Out out;
static std::mt19937 lib_rng;
static std::mutex lib_mutex;
extern "C" int rand() throw() { std::lock_guard<std::mutex> g(lib_mutex); return (int)(lib_rng() & 0x7fffffff); }
extern "C" void srand(unsigned) throw() {}
static unsigned hw = 1;
namespace boost { unsigned thread::hardware_concurrency() BOOST_NOEXCEPT { return hw; } }

static std::set<S> valid; // all if empty
class Genes : public DiscreteParameters
{
public:
    explicit Genes(const S& g) : g_(g) {}
    Genes* Clone() const { return new Genes(g_); }
    bool HasSameMetaParameters(const IDiscreteParameters* p) const { return dynamic_cast<const Genes*>(p) != 0; }
    bool CheckConstraints() const { return valid.empty() || valid.count(g_); }
    void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const { for(size_t i = 0; from != to; ++from, ++i) *from = g_.at(i) == '1'; }
    void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to) { g_.clear(); for(; from != to; ++from) g_ += *from ? '1' : '0'; }
    size_t GetChromosomeSize() const { return g_.size(); }
    S g_;
};
static std::vector<S> genes; // of the initial population
static std::vector<int> fits;
static double scale;
class Objective : public DiscreteObjectiveFunction
{
public:
    double operator()(const IDiscreteParameters* const p) const
    {
        const Genes* g = dynamic_cast<const Genes*>(p);
        for(size_t i = 0; i < genes.size(); i++) if(genes[i] == g->g_) return fits[i] * scale;
        return 0;
    }
    Objective* Clone() const { return new Objective(); }
};
static std::vector<S> now, bred; // now: seen by the mutator, bred: those of the generation shown last
class Keep : public IMutator
{
public:
    void ApplyNewMutationContext(const MutationContext&) { now.clear(); }
    void MutateChromosome(ChromosomeType* c) { S s; for(size_t i = 0; i < c->size(); i++) s += (*c)[i] ? '1' : '0'; now.push_back(s); }
};
static S drawn;
static void on_generation(GenerationStatistics g)
{
    bred = now;
    drawn = "[";
    std::list<IndividualStatistics> all = g.get_all_individuals_statistics();
    for(std::list<IndividualStatistics>::const_iterator i = all.begin(); i != all.end(); ++i)
        drawn += (drawn.size() > 1 ? ",[" : "[") + std::to_string((long)std::floor(i->fitness / scale + 0.5)) + "," + std::to_string(i->times_chosen_for_crossover) + "]";
    drawn += "]";
}
static void episode(const std::vector<int>& f, int l, bool ends, double sc, int runs)
{
    fits = f; scale = sc; genes.clear();
    while(genes.size() < f.size())
    {
        S g;
        for(int i = 0; i < l; i++) g += ends ? (genes.empty() ? '0' : '1') : (lib_rng() >> 7) & 1 ? '1' : '0';
        if(std::find(genes.begin(), genes.end(), g) == genes.end()) genes.push_back(g);
    }
    GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(f.size(), 0, 2, IMutator::shared_ptr(new Keep()), 0, 1e30, "");
    if(!ga) { out.put(J("Failed")); return; }
    std::vector<IDiscreteParameters::shared_ptr> init;
    for(size_t i = 0; i < genes.size(); i++) init.push_back(IDiscreteParameters::shared_ptr(new Genes(genes[i])));
    ga->SetInitialParameters(init);
    ga->OnNextGenerationReadyConnect(on_generation);
    out.put(J("Wheel").seq("fits", fits).i("l", l).b("ends", ends));
    for(int r = 0; r < runs; r++)
    {
        Genes p(genes[0]);
        now.clear(); bred.clear(); drawn = "[]";
        try { ga->Optimize(Objective(), &p, true); } catch(const std::exception&) { out.put(J("Failed")); return; }
        // pairs: 0 both children alike, k > 0: 0..01..1 and the contrary, the first k genes alike
        std::vector<int> alike, cuts;
        for(size_t i = 0; i + 1 < bred.size(); i += 2)
        {
            alike.push_back(bred[i] == bred[i + 1]);
            if(ends && bred[i] != bred[i + 1]) cuts.push_back(bred[i].find_first_not_of(bred[i][0]) == S::npos ? 0 : bred[i].find_first_not_of(bred[i][0]));
        }
        out.put(J("Bred").raw("stats", drawn).seq("alike", alike).seq("cuts", cuts));
    }
    out.put(J("Judge"));
}
// populations drawn afresh, the chromosomes of some rule alone being valid
static std::vector<S> born;
static std::mutex born_mutex;
static long invalid;
class Born : public DiscreteObjectiveFunction
{
public:
    double operator()(const IDiscreteParameters* const p) const
    {
        std::lock_guard<std::mutex> g(born_mutex);
        born.push_back(dynamic_cast<const Genes*>(p)->g_);
        return 1;
    }
    Born* Clone() const { return new Born(); }
};
static void on_fresh(GenerationStatistics g) { invalid = g.get_invalid_chromosomes(); }
static long code(const S& g) { long c = 0; for(size_t i = 0; i < g.size(); i++) c = c * 2 + (g[i] == '1'); return c; }
static void fresh(int l, int n, int pct, int runs)
{
    std::vector<long> codes;
    valid.clear();
    for(int c = 0; c < 1 << l; c++)
    {
        S g;
        for(int i = l - 1; i >= 0; i--) g += c >> i & 1 ? '1' : '0';
        if((int)((lib_rng() >> 9) % 100) < pct || c == 1) { valid.insert(g); codes.push_back(code(g)); }
    }
    GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(n, 0, 1, IMutator::shared_ptr(new Keep()), 0, 1e30, "");
    if(!ga) { out.put(J("Failed")); return; }
    ga->OnNextGenerationReadyConnect(on_fresh);
    out.put(J("Fresh").i("l", l).i("n", n).seq("valid", codes));
    for(int r = 0; r < runs; r++)
    {
        Genes p(*valid.begin());
        born.clear(); invalid = -1;
        try { ga->Optimize(Born(), &p, true); } catch(const std::exception&) { out.put(J("Failed")); break; }
        std::vector<long> cs;
        for(size_t i = 0; i < born.size(); i++) cs.push_back(code(born[i]));
        out.put(J("Born").seq("codes", cs).i("inv", invalid));
    }
    out.put(J("JudgeBorn"));
    valid.clear();
}
int main(int, char** argv)
{
    out.open(argv[1]);
    int n = atoi(argv[2]);
    long seed = atol(argv[3]);
    lib_rng.seed(seed * 7919 + 1);
    if(!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) return 77;
    const std::vector<int> F[] = {{1, 2, 3, 4}, {4, 3, 2, 1}, {0, 1, 1, 6}, {0, 0, 5, 0, 3, 0}, {9, 1}, {1, 1, 1, 1, 1, 1}, {0, 0, 0, 7}, {2, 0, 0, 0, 0, 0, 0, 8}};
    const double scales[] = {1, 1e-7, 0.3, 1e12};
    for(int k = 0; k < 4; k++) episode(F[(seed * 4 + k) % 8], 6 + k, false, scales[(seed + k) % 4], n);
    const int ls[] = {2, 3, 5, 8};
    hw = 2;
    episode({1, 1}, ls[seed % 4], true, 1, n);
    fresh(1 + seed % 4, 2, 30 + (seed % 3) * 30, n);
    fresh(3, 6, 100, n / 3);
    out.close();
    return 0;
}
