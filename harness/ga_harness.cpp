// usage: ga_harness TRACE SCENARIOS SEED
// Histories of runs of the genetic algorithm on one or several optimizer objects. The
// random generator, the objective function, the mutator and the observer are the
// harness's; everything is recorded in the order it happens.
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/generation_statistics.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <boost/thread.hpp>
#include "trace.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <memory>
#include <atomic>
#include <mutex>
#include <random>
#include <stdexcept>

using namespace k52::optimization;
typedef std::string S;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static bool chance(int pct) { return rnd(1, 100) <= pct; }

// the library's source of randomness, made reproducible
static std::mt19937 lib_rng;
static std::mutex lib_mutex;
extern "C" int rand() throw() { std::lock_guard<std::mutex> g(lib_mutex); return (int)(lib_rng() & 0x7fffffff); }
extern "C" void srand(unsigned) throw() {}
static unsigned hw = 3;
namespace boost { unsigned thread::hardware_concurrency() BOOST_NOEXCEPT { return hw; } }

static S bitstr(const ChromosomeType& c) { S s; for(size_t i = 0; i < c.size(); i++) s += c[i] ? '1' : '0'; return s; }
static ChromosomeType tobits(const S& s) { ChromosomeType c(s.size()); for(size_t i = 0; i < s.size(); i++) c[i] = s[i] == '1'; return c; }
static S enc(const IDiscreteParameters& p) { ChromosomeType c(p.GetChromosomeSize()); p.SetChromosome(c.begin(), c.end()); return bitstr(c); }
static void dec(IDiscreteParameters& p, const S& s) { ChromosomeType c = tobits(s); const ChromosomeType& k = c; p.SetFromChromosome(k.begin(), k.end()); }

// A user's own parameters: L genes, constrained.
class Own : public DiscreteParameters
{
public:
    Own(int l, int rule, const S& g) : l_(l), rule_(rule), genes_(g) {}
    Own* Clone() const { return new Own(l_, rule_, genes_); }
    bool HasSameMetaParameters(const IDiscreteParameters* p) const
    {
        const Own* o = dynamic_cast<const Own*>(p);
        return o && o->l_ == l_ && o->rule_ == rule_;
    }
    bool CheckConstraints() const
    {
        int ones = std::count(genes_.begin(), genes_.end(), '1');
        switch(rule_)
        {
        case 1: return ones % 2 == 0;
        case 2: return ones <= l_ / 2;
        case 3: return genes_.find("11") == S::npos;
        case 5: return ones == 0 || ones == l_; // very few
        default: return true;
        }
    }
    void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const
    {
        for(size_t i = 0; from != to; ++from, ++i) *from = genes_.at(i) == '1';
    }
    void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
    {
        if(to - from != l_) throw std::invalid_argument("length");
        for(int i = 0; i < l_; i++, ++from) genes_[i] = *from ? '1' : '0';
    }
    size_t GetChromosomeSize() const { return l_; }
    S genes() const { return genes_; }
private:
    int l_, rule_;
    S genes_;
};

typedef boost::shared_ptr<IDiscreteParameters> PP;
struct Kind { int type; long a, b; double prec; int n; }; // how to make parameters
static PP make(const Kind& k, bool random = false)
{
    if(k.type == 0)
    {
        DoubleParametersArray* p = new DoubleParametersArray(k.a, k.b, k.prec, k.n);
        std::vector<double> v(k.n, k.a);
        if(random) for(int i = 0; i < k.n; i++) v[i] = std::min<double>(k.b, k.a + (k.b - k.a) * (rng() % 1000) / 999.0);
        p->SetValues(v);
        return PP(p);
    }
    if(k.type == 1) return PP(new IntParameter(random ? rnd(k.a, k.b) : k.a, k.a, k.b));
    if(k.type == 2)
    {
        std::vector<IDiscreteParameters::shared_ptr> v;
        v.push_back(PP(new IntParameter(k.a, k.a, k.b)));
        v.push_back(PP(new DoubleParameter(0.5, 0, 1, k.prec)));
        v.push_back(PP(new IntParameter(k.b, k.a - 1, k.b)));
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        c->Initialize(v);
        return PP(c);
    }
    Own* o = new Own(k.a, k.b, S(k.a, '0'));
    PP r(o);
    while(random)
    {
        S g; for(int i = 0; i < k.a; i++) g += chance(50) ? '1' : '0';
        dec(*o, g);
        if(o->CheckConstraints()) break;
    }
    return r;
}
static std::vector<double> values(const IDiscreteParameters& p)
{
    std::vector<double> r;
    if(const DoubleParametersArray* a = dynamic_cast<const DoubleParametersArray*>(&p)) return a->get_values();
    if(const IntParameter* a = dynamic_cast<const IntParameter*>(&p)) r.push_back(a->get_value());
    if(const DoubleParameter* a = dynamic_cast<const DoubleParameter*>(&p)) r.push_back(a->GetValue());
    if(const Own* a = dynamic_cast<const Own*>(&p)) { S g = a->genes(); for(size_t i = 0; i < g.size(); i++) r.push_back(g[i]); }
    if(const CompositeDiscreteParameters* a = dynamic_cast<const CompositeDiscreteParameters*>(&p))
        for(size_t i = 0; i < a->GetNumberOfParameters(); i++) { std::vector<double> q = values(*a->GetParameter(i)); r.insert(r.end(), q.begin(), q.end()); }
    return r;
}
static Kind kind;
static bool valid_bits(const S& b)
{
    PP p = make(kind);
    if(p->GetChromosomeSize() != b.size()) return false;
    dec(*p, b);
    return p->CheckConstraints();
}
static bool in_sync(const IDiscreteParameters& p, const S& b)
{
    PP q(p.Clone());
    dec(*q, b);
    return values(*q) == values(p);
}
static long I(double v) { return (v == std::floor(v) && std::fabs(v) < 1e6) ? (long)v : -777; }

// ------------------------------------------------------------------ recording
static std::mutex ev_mutex;
static std::vector<S> events;
static void ev(const J& j) { std::lock_guard<std::mutex> g(ev_mutex); events.push_back(j.done()); }

struct Fn { unsigned salt; int mod; int throw_pct; bool popcount; };
static int fn_value(const Fn& f, const S& b)
{
    unsigned h = 2166136261u ^ f.salt;
    int ones = 0;
    for(size_t i = 0; i < b.size(); i++) { h = (h ^ (unsigned char)b[i]) * 16777619u; ones += b[i] == '1'; }
    h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15;
    return f.popcount ? ones : (int)(h % f.mod);
}
static bool fn_throws(const Fn& f, const S& b)
{
    return f.throw_pct && fn_value(Fn{f.salt * 31 + 7, 100, 0, false}, b) < f.throw_pct;
}
class Objective : public DiscreteObjectiveFunction
{
public:
    explicit Objective(const Fn& f) : f_(f) {}
    double operator()(const IDiscreteParameters* const p) const
    {
        S b = enc(*p);
        int v = fn_value(f_, b);
        bool t = fn_throws(f_, b);
        ev(J("Eval").str("b", b).i("f", v).b("v", p->CheckConstraints()).b("s", in_sync(*p, b)).b("t", t));
        if(t) throw std::runtime_error("objective");
        return v;
    }
    Objective* Clone() const { return new Objective(f_); }
private:
    Fn f_;
};
class Flipper : public IMutator // flips one or two genes, sometimes none
{
public:
    void ApplyNewMutationContext(const MutationContext&) {}
    void MutateChromosome(ChromosomeType* c)
    {
        for(int k = rnd(0, 2); k > 0 && !c->empty(); k--) { size_t i = rng() % c->size(); (*c)[i] = !(*c)[i]; }
    }
};
static std::vector<S> cur_outs; // valid results of the mutations since the last context
class Logged : public IMutator
{
public:
    explicit Logged(IMutator::shared_ptr m) : m_(m) {}
    void ApplyNewMutationContext(const MutationContext& c)
    {
        ev(J("Ctx").i("g", c.current_generation).i("max", c.max_number_of_generations));
        cur_outs.clear();
        m_->ApplyNewMutationContext(c);
    }
    void MutateChromosome(ChromosomeType* c)
    {
        S in = bitstr(*c);
        m_->MutateChromosome(c);
        S o = bitstr(*c);
        bool v = valid_bits(o);
        if(v) cur_outs.push_back(o);
        ev(J("Mut").str("in", in).b("iv", valid_bits(in)).str("out", o).b("ov", v));
    }
private:
    IMutator::shared_ptr m_;
};

struct Saved { S file; std::vector<S> rows; }; // population known to have been saved
static std::vector<Saved> saved;
static S pending_file, pending_more;
static int save_counter = 0;
static size_t pending_at = 0;
static int cb_generation = 0;
static bool save_always = true;

static std::vector<S> tokens(const S& text)
{
    std::vector<S> t; std::istringstream in(text); S w;
    while(in >> w) t.push_back(w);
    return t;
}
static S slurp(const S& f) { std::ifstream in(f.c_str()); std::ostringstream o; o << in.rdbuf(); return o.str(); }
static void spill(const S& f, const S& t) { std::ofstream o(f.c_str()); o << t; }
static bool is_gene(const S& w, size_t len) { return w.size() == len && w.find_first_not_of("01") == S::npos; }
// the rows of a population file: (genes, fitness)
static bool parse(const S& text, size_t len, std::vector<std::pair<S, S> >* rows)
{
    std::vector<S> t = tokens(text);
    for(size_t i = 0; i < t.size(); i++)
        if(t[i].find("hromosome:") != S::npos && i + 3 < t.size() && is_gene(t[i + 1], len))
            rows->push_back(std::make_pair(t[i + 1], t[i + 3]));
    return !rows->empty();
}
static void flush_pending()
{
    if(pending_file.empty()) return;
    PP p = make(kind);
    for(int i = 0; i < 2; i++)
    {
    const S& name = i ? pending_more : pending_file;
    std::vector<std::pair<S, S> > rows;
    if(!name.empty() && parse(slurp(name), p->GetChromosomeSize(), &rows))
    {
        std::vector<S> js;
        S r = "[";
        for(size_t i = 0; i < rows.size(); i++)
        {
            char* e; double f = strtod(rows[i].second.c_str(), &e);
            r += (i ? "," : "") + ("{\"b\":\"" + rows[i].first + "\",\"f\":" + std::to_string(*e ? -778 : I(f)) +
                                   ",\"v\":" + (valid_bits(rows[i].first) ? "true" : "false") + "}");
        }
        // it belongs right after the generation that asked for it
        std::lock_guard<std::mutex> g(ev_mutex);
        events.insert(events.begin() + pending_at, J("Pop").raw("rows", r + "]").done());
    }
    }
    pending_file.clear();
}
static S stats(const GenerationStatistics& g)
{
    S r = "[";
    std::list<IndividualStatistics> all = g.get_all_individuals_statistics();
    for(std::list<IndividualStatistics>::const_iterator i = all.begin(); i != all.end(); ++i)
        r += (r.size() > 1 ? ",[" : "[") + std::to_string(I(i->fitness)) + "," + std::to_string(i->times_chosen_for_crossover) + "]";
    return r + "]";
}
static void on_generation(GenerationStatistics g)
{
    flush_pending();
    const IDiscreteParameters* p = dynamic_cast<const IDiscreteParameters*>(g.get_best_parameters());
    S b = p ? enc(*p) : S("?");
    ev(J("Gen").i("g", g.get_number_of_generation()).i("best", I(g.get_best_fitness())).str("bb", b)
       .b("bv", p && p->CheckConstraints()).b("bs", p && in_sync(*p, b))
       .i("sum", I(std::floor(g.get_average_fitness() * cb_generation * 1024 + 0.5) / 1024)).i("hits", g.get_cache_hits())
       .raw("stats", stats(g)).i("inv", g.get_invalid_chromosomes()));
    if(!save_always && chance(60)) return;
    pending_file = "pop-" + std::to_string(save_counter++);
    pending_at = events.size();
    // the file may be there already, and a population may be saved in several files
    if(chance(35)) spill(pending_file, saved.empty() ? S("Population_size: 2 1 0 ") : slurp(saved[rng() % saved.size()].file));
    pending_more = chance(25) ? pending_file + "-too" : S();
    if(!pending_more.empty()) g.SaveCurrentPopulationToFile(pending_more);
    g.SaveCurrentPopulationToFile(pending_file);
    if(!cur_outs.empty()) { Saved s; s.file = pending_more.empty() || chance(50) ? pending_file : pending_more; s.rows = cur_outs; saved.push_back(s); }
}

// ------------------------------------------------------------------ one run
struct Plan
{
    int n, elite, max, crit, cache; // cache: 0 none, 1 big
    bool cb, min, base;             // base: through the IOptimizer interface
    Fn fn;
};
struct Start { S how; std::vector<S> rows; bool bad; bool known; };
// parameters and functions of some other kind must be refused
class Neither : public IParameters
{
public:
    bool CheckConstraints() const { return true; }
    Neither* Clone() const { return new Neither(); }
};
static std::atomic<long> strange_calls;
class Strange : public IObjectiveFunction
{
public:
    double operator()(const IParameters* const) const { strange_calls++; return 0; }
    Strange* Clone() const { return new Strange(); }
};
static void foreign(IOptimizer& o, const Fn& fn)
{
    Objective f(fn);
    Neither n;
    PP params = make(kind);
    bool parameters = false, function = false, direct = false;
    strange_calls = 0;
    size_t before = events.size();
    try { o.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&n), true); } catch(const std::exception&) { parameters = true; }
    try { o.Optimize(Strange(), static_cast<IParameters*>(params.get()), true); } catch(const std::exception&) { function = true; }
    try { static_cast<const IObjectiveFunction&>(f)(static_cast<const IParameters*>(&n)); } catch(const std::exception&) { direct = true; }
    long done = (long)(events.size() - before) + strange_calls;
    ev(J("Foreign").b("parameters", parameters).b("function", function).b("direct", direct).i("evals", done));
}
static void do_run(GeneticAlgorithm& ga, const Plan& p, const Start& st)
{
    cur_outs.clear();
    if(chance(8)) foreign(ga, p.fn);
    cb_generation = p.n;
    ev(J("Run").i("n", p.n).i("elite", p.elite).i("max", p.max).i("crit", p.crit).b("cache", p.cache).b("cb", p.cb)
       .b("min", p.min).str("how", st.how).strs("rows", st.rows).b("bad", st.bad).b("known", st.known));
    PP params = make(kind);
    Objective f(p.fn);
    try
    {
        if(p.base) static_cast<IOptimizer&>(ga).Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(params.get()), !p.min);
        else ga.Optimize(f, params.get(), !p.min);
        flush_pending();
        S b = enc(*params);
        ev(J("End").str("b", b).b("v", params->CheckConstraints()).b("s", in_sync(*params, b)).i("f", fn_value(p.fn, b)));
    }
    catch(const std::exception& e)
    {
        flush_pending();
        ev(J("Throw").str("what", e.what()));
    }
}
static IMutator::shared_ptr some_mutator()
{
    IMutator::shared_ptr m;
    switch(rnd(0, 3))
    {
    case 0: m.reset(new FlipBitMutator(rnd(1, 5) / 10.0)); break;
    case 1: m.reset(new LinearMutator(rnd(0, 10) / 10.0, rnd(0, 6) / 10.0)); break;
    case 2: m.reset(new LinearMutator(0, chance(50) ? 0 : 0.2)); break;
    default: m.reset(new Flipper());
    }
    return IMutator::shared_ptr(new Logged(m));
}
static Fn some_fn(bool may_throw)
{
    static const int mods[] = {1, 2, 3, 8, 40, 1000};
    Fn f = {(unsigned)rng(), mods[rnd(0, 5)], may_throw && chance(12) ? (int)rnd(5, 30) : 0, chance(20)};
    return f;
}
static Kind some_kind(bool with_initial)
{
    Kind k = {0, 0, 0, 0, 0};
    k.type = with_initial ? (const int[]){0, 1, 3, 3}[rnd(0, 3)] : (const int[]){0, 1, 2, 3, 3}[rnd(0, 4)];
    switch(k.type)
    {
    case 0: k.a = rnd(-3, 2); k.b = k.a + rnd(1, 4); k.prec = 0.3 / rnd(1, 3); k.n = rnd(1, 3); break;
    case 1: k.a = rnd(-9, 5); k.b = k.a + rnd(1, 12); break;
    case 2: k.a = rnd(-3, 3); k.b = k.a + rnd(1, 6); k.prec = 0.2; break;
    default:
        k.a = rnd(2, 7); k.b = rnd(0, 3);
        if(chance(5)) { k.a = rnd(8, 90); k.b = rnd(0, 1) * 2; } // long chromosomes
    }
    return k;
}
static S random_bits(size_t n) { S s; for(size_t i = 0; i < n; i++) s += chance(50) ? '1' : '0'; return s; }

// a damaged copy of a population file; false if this damage does not apply
static bool damage(const S& text, size_t len, int how, S* res, S* name)
{
    std::vector<std::pair<S, S> > rows;
    if(!parse(text, len, &rows)) return false;
    size_t row = rng() % rows.size();
    // position of the genes of that row
    size_t pos = 0;
    for(size_t r = 0; r <= row; r++)
    {
        pos = text.find("hromosome:", pos);
        if(pos == S::npos) return false;
        pos = text.find(rows[r].first, pos);
        if(pos == S::npos) return false;
        if(r < row) pos += len;
    }
    size_t last = text.find_last_not_of(" \t\r\n");
    while(last > 0 && !isspace((unsigned char)text[last - 1])) last--; // start of the last word
    *res = text;
    switch(how)
    {
    case 0: *name = "truncated"; *res = text.substr(0, rnd(0, (long)last)); return true;
    case 1: *name = "character"; (*res)[pos + rng() % len] = "2aX.-"[rnd(0, 4)]; return true;
    case 2: *name = "short row"; if(len < 2) return false; res->erase(pos, 1); return true;
    case 3: *name = "long row"; res->insert(pos, "0"); return true;
    case 4:
    case 5:
    {
        // the first (second) number of the header
        size_t i = text.find_first_of("0123456789");
        if(i == S::npos) return false;
        size_t e = text.find_first_not_of("0123456789", i);
        if(how == 5)
        {
            i = text.find_first_of("0123456789", e);
            if(i == S::npos || i >= pos) return false;
            e = text.find_first_not_of("0123456789", i);
        }
        long v = atol(text.substr(i, e - i).c_str());
        long d = chance(50) ? 2 : -1;
        *name = how == 4 ? "population size" : "chromosome size";
        *res = text.substr(0, i) + std::to_string(std::max(0L, v + d)) + text.substr(e);
        return true;
    }
    case 6:
        *name = "constraints";
        for(int t = 0; t < 200; t++)
        {
            S b = random_bits(len);
            if(!valid_bits(b)) { res->replace(pos, len, b); return true; }
        }
        return false;
    case 7: *name = "empty"; *res = ""; return true;
    case 8: // a row missing, header as before
    {
        *name = "missing row";
        size_t s = text.rfind('\n', pos), e = text.find('\n', pos);
        if(s == S::npos || e == S::npos) return false;
        *res = text.substr(0, s) + text.substr(e);
        return true;
    }
    default: // last word missing
        *name = "no fitness"; *res = text.substr(0, last); return true;
    }
}
static GeneticAlgorithm::shared_ptr create(const Plan& p, const S& file)
{
    hw = (unsigned)(const int[]){1, 2, 3, 5}[rnd(0, 3)];
    GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(p.n, p.elite, p.max, some_mutator(), p.cache ? 100 : 0, p.crit, file);
    ev(J("Create").b("valid", true).b("made", ga.get() != 0));
    if(ga && p.cb) ga->OnNextGenerationReadyConnect(on_generation);
    return ga;
}
static Plan some_plan()
{
    Plan p;
    save_always = chance(60);
    p.n = 2 * rnd(1, 4);
    p.elite = rnd(0, 3) ? (int)rnd(0, p.n / 2) : (int)rnd(0, 6);
    p.max = rnd(1, 5);
    p.crit = chance(60) ? 100000 : (int)rnd(0, 40);
    p.cb = chance(85);
    p.cache = p.cb && chance(60);
    p.min = false;
    p.base = chance(20);
    p.fn = some_fn(true);
    switch(rnd(0, 23))
    {
    case 0: p.n = 2 * rnd(5, chance(50) ? 15 : 40); p.elite = rnd(0, p.n / 2); p.max = rnd(1, 3); if(chance(50)) p.fn.mod = 1000; break; // many individuals
    case 1: p.n = 2 * rnd(1, 2); p.elite = rnd(0, 1); p.max = rnd(20, 70); if(chance(50)) p.fn.mod = 1000; break; // many generations
    default: break;
    }
    return p;
}
static void scenario_random()
{
    kind = some_kind(false);
    Plan p = some_plan();
    GeneticAlgorithm::shared_ptr ga = create(p, "");
    if(!ga) return;
    Start none = {"random", {}, false, false};
    int runs = rnd(1, 4);
    for(int r = 0; r < runs; r++)
    {
        p.min = chance(6);
        p.base = chance(20);
        do_run(*ga, p, none);
        if(chance(80)) p.fn = some_fn(true);
    }
}
static void scenario_initial()
{
    kind = some_kind(true);
    Plan p = some_plan();
    GeneticAlgorithm::shared_ptr ga = create(p, "");
    if(!ga) return;
    int runs = rnd(1, 4);
    Start st = {"initial", {}, false, true};
    for(int r = 0; r < runs; r++)
    {
        if(r == 0 || chance(60))
        {
            std::vector<IDiscreteParameters::shared_ptr> init;
            st.rows.clear(); st.bad = false; st.how = "initial";
            for(int i = 0; i < p.n; i++)
            {
                PP q = (i && chance(25)) ? PP(init[rng() % i]->Clone()) : make(kind, true);
                init.push_back(q);
                st.rows.push_back(enc(*q));
            }
            if(chance(45))
            {
                size_t at = rng() % p.n;
                Kind other = kind;
                switch(rnd(0, 4))
                {
                case 0: init.push_back(make(kind, true)); st.how = "too many"; break;
                case 1: init.pop_back(); st.how = "too few"; break;
                case 2: // other meta-parameters
                    if(kind.type == 0) { if(chance(50)) other.a--; else other.n++; } else if(kind.type == 1) { if(chance(50)) other.b++; else { other.a--; other.b--; } } else { if(chance(50)) other.a++; else other.b = 4; }
                    init[at] = make(other, true); st.how = "meta-parameters"; break;
                case 3: other.type = kind.type == 3 ? 1 : 3; other.a = 3; other.b = kind.type == 3 ? 10 : 0;
                    init[at] = make(other, true); st.how = "type"; break;
                default:
                {
                    S b; bool found = false;
                    size_t len = init[at]->GetChromosomeSize();
                    for(int t = 0; t < 200 && !found; t++) { b = random_bits(len); found = !valid_bits(b); }
                    if(found)
                    {
                        if(kind.type == 1 && chance(50)) static_cast<IntParameter*>(init[at].get())->set_value(chance(50) ? kind.b + 1 : kind.a - 1);
                        else dec(*init[at], b);
                        st.how = "constraints";
                    }
                }
                }
                if(st.how != "initial") { st.bad = true; st.rows.clear(); }
            }
            ga->SetInitialParameters(init);
            // the optimizer has its own copies
            if(chance(30)) for(size_t i = 0; i < init.size(); i++) if(init[i]->GetChromosomeSize()) dec(*init[i], S(init[i]->GetChromosomeSize(), '0'));
        }
        do_run(*ga, p, st);
        if(chance(70)) p.fn = some_fn(true);
    }
}
static void scenario_file()
{
    kind = some_kind(false);
    Plan p = some_plan();
    p.cb = true; p.max = rnd(2, 4); p.crit = 100000; p.fn.throw_pct = 0; save_always = true;
    saved.clear();
    {
        GeneticAlgorithm::shared_ptr ga = create(p, "");
        if(!ga) return;
        Start none = {"random", {}, false, false};
        do_run(*ga, p, none);
    }
    if(saved.empty()) return;
    std::vector<Saved> from = saved;
    Plan q = some_plan();
    q.n = p.n;
    S file = "load-" + std::to_string(save_counter++);
    GeneticAlgorithm::shared_ptr ga = create(q, file);
    if(!ga) return;
    int runs = rnd(2, 5);
    size_t len = make(kind)->GetChromosomeSize();
    for(int r = 0; r < runs; r++)
    {
        const Saved& s = from[rng() % from.size()];
        Start st = {"file", s.rows, false, true};
        S text = slurp(s.file);
        if(chance(50))
        {
            S bad, name;
            if(chance(8)) { remove(file.c_str()); st.bad = true; st.how = "no file"; }
            else if(damage(text, len, rnd(0, 9), &bad, &name)) { spill(file, bad); st.bad = true; st.how = name; }
            else spill(file, text);
        }
        else
        {
            // the recorded fitness is another function's: only the genes count
            spill(file, text);
        }
        if(st.bad) st.rows.clear();
        if(chance(70)) q.fn = some_fn(true);
        do_run(*ga, q, st);
    }
}
static void scenario_create()
{
    struct { int n, max; bool m; } bad[] = {{3, 2, true}, {0, 2, true}, {-2, 2, true}, {-3, 1, true}, {1, 1, true}, {2, 0, true}, {4, -1, true}, {2, 2, false}, {7, 3, false}};
    for(size_t i = 0; i < sizeof bad / sizeof *bad; i++)
    {
        bool made = false;
        try { made = GeneticAlgorithm::Create(bad[i].n, rnd(0, 2), bad[i].max, bad[i].m ? some_mutator() : IMutator::shared_ptr(), chance(50) ? 1 : 0).get() != 0; }
        catch(const std::exception&) {}
        ev(J("Create").b("valid", false).b("made", made));
    }
}
// two chromosomes that boost::hash does not tell apart
static void scenario_collision()
{
    kind = Kind{3, 34, 0, 0, 0};
    Plan p = {4, 2, 3, 100000, 1, true, false, false, {1, 1, 0, true}};
    GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(p.n, p.elite, p.max, IMutator::shared_ptr(new Logged(IMutator::shared_ptr(new LinearMutator(0, 0)))), 100, p.crit, "");
    ev(J("Create").b("valid", true).b("made", ga.get() != 0));
    if(!ga) return;
    ga->OnNextGenerationReadyConnect(on_generation);
    std::vector<IDiscreteParameters::shared_ptr> init;
    Start st = {"initial", {}, false, true};
    const unsigned long two[] = {0x1b44a56abUL, 0x28249d963UL, 0x1b44a56abUL, 0x28249d963UL};
    for(int k = 0; k < 4; k++)
    {
        S b; for(int i = 33; i >= 0; i--) b += (two[k] >> i & 1) ? '1' : '0';
        init.push_back(PP(new Own(34, 0, b)));
        st.rows.push_back(b);
    }
    ga->SetInitialParameters(init);
    do_run(*ga, p, st);
}

// constraints that hardly any chromosome satisfies: initialisation, crossover and
// mutation have to try thousands of times
class Spoiler : public IMutator // long spoils every chromosome, then mends it
{
public:
    explicit Spoiler(int n) : n_(n), left_(n) {}
    void ApplyNewMutationContext(const MutationContext&) {}
    void MutateChromosome(ChromosomeType* c)
    {
        if(left_-- == n_) { was_ = *c; if(n_ % 2) was_.flip(); (*c)[0] = !(*c)[0]; }
        if(left_ < 0) { *c = was_; left_ = n_; }
    }
private:
    int n_, left_;
    ChromosomeType was_;
};
static void scenario_rare(int l, int spoil)
{
    kind = Kind{3, l, 5, 0, 0};
    Plan p = {2, 0, 3, 100000, 1, true, false, false, {(unsigned)rng(), 1000, 0, false}};
    save_always = true;
    GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(p.n, p.elite, p.max, IMutator::shared_ptr(new Logged(IMutator::shared_ptr(new Spoiler(spoil)))), 100, p.crit, "");
    ev(J("Create").b("valid", true).b("made", ga.get() != 0));
    if(!ga) return;
    ga->OnNextGenerationReadyConnect(on_generation);
    Start none = {"random", {}, false, false};
    do_run(*ga, p, none);
}

int main(int, char** argv)
{
    out.open(argv[1]);
    int n = atoi(argv[2]);
    rng.seed(atol(argv[3]));
    lib_rng.seed(atol(argv[3]) * 7919 + 1);
    if(!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) return 77;
    for(int i = 0; i < n; i++)
    {
        if(i == 0) { scenario_create(); scenario_collision(); scenario_rare(13, 1500); scenario_rare(15, 2); }
        else switch(rnd(0, 9))
        {
        case 0: case 1: case 2: case 3: scenario_random(); break;
        case 4: case 5: case 6: scenario_initial(); break;
        default: scenario_file();
        }
        for(size_t k = 0; k < events.size(); k++) out.line(events[k]);
        events.clear();
        out.flush();
    }
    out.close();
    return 0;
}
