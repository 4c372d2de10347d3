// usage: fft_harness TRACE dfs|random|real N SEED
// Threads that create, use and destroy fast Fourier transforms; the library's
// planner and its executions are interposed.
#include <k52/dsp/transform/fast_fourier_transform.h>
#include "trace.h"
#include "vsched.h"
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <dlfcn.h>
#include <fftw3.h>
#include <pthread.h>
#include <unistd.h>
#include <cmath>
#include <map>
#include <random>
#include <stdexcept>
using k52::dsp::FastFourierTransform;
typedef std::complex<double> C;
typedef std::vector<C> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static std::vector<std::string> ev;
static pthread_mutex_t ev_mutex = PTHREAD_MUTEX_INITIALIZER;
static bool free_mode = false, recording = false;
static std::map<const void*, int> plans;
static int plan_count;
static __thread int me = -1;
static bool on() { return recording && me >= 0; }
static void lock() { if(free_mode) pthread_mutex_lock(&ev_mutex); }
static void unlock() { if(free_mode) pthread_mutex_unlock(&ev_mutex); }
static void emit(const J& j) { lock(); ev.push_back(j.done()); unlock(); }
static void pause_here() { if(free_mode) usleep(50); else vs_yield(); }
template <class F> F next_fn(const char* n) { F f = (F)dlsym(RTLD_NEXT, n); if(!f) _exit(77); return f; }
static void plan_in() { if(on()) { emit(J("PlanIn").i("t", me)); pause_here(); } }
static fftw_plan plan_out(fftw_plan p)
{
    if(!on()) return p;
    pause_here();
    lock();
    int id = plans[p] = ++plan_count;
    ev.push_back(J("PlanOut").i("t", me).i("plan", id).done());
    unlock();
    return p;
}
static void executed(fftw_plan p)
{
    if(!on()) return;
    lock();
    std::map<const void*, int>::iterator i = plans.find(p);
    ev.push_back(J("Execute").i("t", me).i("plan", i == plans.end() ? 0 : i->second).done());
    unlock();
    pause_here();
}
extern "C" fftw_plan fftw_plan_dft_1d(int n, fftw_complex* i, fftw_complex* o, int s, unsigned f)
{ static fftw_plan (*real)(int, fftw_complex*, fftw_complex*, int, unsigned) = next_fn<fftw_plan (*)(int, fftw_complex*, fftw_complex*, int, unsigned)>("fftw_plan_dft_1d"); plan_in(); return plan_out(real(n, i, o, s, f)); }
extern "C" fftw_plan fftw_plan_dft(int r, const int* n, fftw_complex* i, fftw_complex* o, int s, unsigned f)
{ static fftw_plan (*real)(int, const int*, fftw_complex*, fftw_complex*, int, unsigned) = next_fn<fftw_plan (*)(int, const int*, fftw_complex*, fftw_complex*, int, unsigned)>("fftw_plan_dft"); plan_in(); return plan_out(real(r, n, i, o, s, f)); }
extern "C" fftw_plan fftw_plan_many_dft(int r, const int* n, int h, fftw_complex* i, const int* ie, int is, int id, fftw_complex* o, const int* oe, int os, int od, int s, unsigned f)
{ typedef fftw_plan (*T)(int, const int*, int, fftw_complex*, const int*, int, int, fftw_complex*, const int*, int, int, int, unsigned); static T real = next_fn<T>("fftw_plan_many_dft"); plan_in(); return plan_out(real(r, n, h, i, ie, is, id, o, oe, os, od, s, f)); }
extern "C" void fftw_destroy_plan(fftw_plan p)
{
    static void (*real)(fftw_plan) = next_fn<void (*)(fftw_plan)>("fftw_destroy_plan");
    bool known = true;
    if(on())
    {
        lock();
        std::map<const void*, int>::iterator i = plans.find(p);
        known = i != plans.end();
        ev.push_back(J("DestroyIn").i("t", me).i("plan", known ? i->second : 0).done());
        if(known) plans.erase(i);
        unlock();
        pause_here();
    }
    if(known) real(p); // destroying a plan twice is only recorded
    if(on()) { pause_here(); emit(J("DestroyOut").i("t", me)); }
}
extern "C" void fftw_cleanup(void)
{ static void (*real)(void) = next_fn<void (*)(void)>("fftw_cleanup"); plan_in(); real(); if(on()) { pause_here(); plan_out((fftw_plan)&plans); } }
extern "C" void fftw_execute(const fftw_plan p)
{
    static void (*real)(const fftw_plan) = next_fn<void (*)(const fftw_plan)>("fftw_execute");
    if(on()) pause_here();
    bool known = !on();
    if(!known) { lock(); known = plans.count(p) > 0; unlock(); }
    if(known) real(p);
    executed(p);
}
extern "C" void fftw_execute_dft(const fftw_plan p, fftw_complex* i, fftw_complex* o)
{
    static void (*real)(const fftw_plan, fftw_complex*, fftw_complex*) = next_fn<void (*)(const fftw_plan, fftw_complex*, fftw_complex*)>("fftw_execute_dft");
    if(on()) pause_here();
    bool known = !on();
    if(!known) { lock(); known = plans.count(p) > 0; unlock(); }
    if(known) real(p, i, o);
    executed(p);
}
static long fixed(double v, double unit) { double z = std::floor(v * unit + 0.5); return std::fabs(z) < 2e9 ? (long)z : 2000000000; }
static std::string json(const V& v, double unit)
{
    std::string s = "[";
    for(size_t i = 0; i < v.size(); i++) s += (i ? ",[" : "[") + std::to_string(fixed(v[i].real(), unit)) + "," + std::to_string(fixed(v[i].imag(), unit)) + "]";
    return s + "]";
}
struct Step { int what; int slot; size_t n; V x; }; // 0 create, 1 transform, 2 destroy
typedef std::vector<Step> Script;
static void play(int t, const Script* script)
{
    me = t;
    FastFourierTransform* f[2] = {0, 0};
    size_t made[2] = {0, 0};
    for(size_t i = 0; i < script->size(); i++)
    {
        const Step& s = (*script)[i];
        switch(s.what)
        {
        case 0:
            {
                bool ok = true;
                try { f[s.slot] = new FastFourierTransform(s.n); made[s.slot] = s.n; } catch(const std::exception&) { ok = false; }
                emit(J("Made").i("t", t).i("n", s.n).b("ok", ok));
                break;
            }
        case 1:
            {
                if(!f[s.slot]) break;
                bool refused = false;
                V r;
                try { r = f[s.slot]->Transform(s.x); } catch(const std::exception&) { refused = true; }
                emit(J("Transform").i("t", t).i("n", made[s.slot]).raw("x", json(s.x, 1)).b("refused", refused).raw("r", json(r, 1e6)));
                break;
            }
        default: delete f[s.slot]; f[s.slot] = 0; emit(J("Gone").i("t", t));
        }
    }
    me = -1;
}
static Script any_script(int objects, bool wild)
{
    static const size_t sizes[] = {1, 2, 3, 4, 4, 5, 8};
    Script s;
    bool overlap = wild && rnd(0, 2) == 0;
    size_t n[2] = {0, 0};
    for(int o = 0; o < objects; o++)
    {
        int slot = overlap ? o % 2 : 0;
        n[slot] = wild && rnd(0, 9) == 0 ? 0 : sizes[rnd(0, 6)];
        if(overlap && o >= 2) s.push_back(Step{2, slot, 0, V()});
        s.push_back(Step{0, slot, n[slot], V()});
        for(int k = wild ? (int)rnd(0, 2) : 1; k > 0; k--)
        {
            int which = overlap && o > 0 ? (int)rnd(0, 1) : slot;
            size_t len = wild && rnd(0, 7) == 0 ? (size_t)rnd(0, 6) : n[which];
            V x;
            for(size_t i = 0; i < len; i++) x.push_back(C((double)rnd(-8, 8), (double)rnd(-8, 8)));
            s.push_back(Step{1, which, 0, x});
        }
        if(!overlap) s.push_back(Step{2, slot, 0, V()});
    }
    if(overlap) for(int k = 0; k < 2; k++) s.push_back(Step{2, k, 0, V()});
    return s;
}
static void episode(const std::vector<Script>& scripts)
{
    plans.clear(); plan_count = 0;
    ev.push_back(J("Start").done());
    recording = true;
    {
        boost::thread_group g;
        for(size_t t = 0; t < scripts.size(); t++) g.create_thread(boost::bind(&play, (int)t, &scripts[t]));
        g.join_all();
    }
    recording = false;
    ev.push_back(J("End").done());
}
static std::set<std::string> seen_runs;
static long runs = 0, distinct = 0;
static void flush_run()
{
    runs++;
    std::string all;
    for(size_t i = 0; i < ev.size(); i++) all += ev[i] + "\n";
    ev.clear();
    if(seen_runs.insert(all).second) { distinct++; fputs(all.c_str(), out.f); }
}
static void stuck(const char* why)
{
    ev.push_back(J("Stuck").str("why", why).done());
    flush_run();
    out.close();
    _exit(0);
}
static std::vector<Script> scripts(int threads, int objects, bool wild)
{
    std::vector<Script> v;
    for(int t = 0; t < threads; t++) v.push_back(any_script(wild ? (int)rnd(1, objects) : objects, wild));
    return v;
}
int main(int, char** argv)
{
    out.open(argv[1]);
    std::string mode = argv[2];
    long n = atol(argv[3]), seed = atol(argv[4]);
    vs_on_stuck = stuck;
    rng.seed(seed);
    { std::vector<Script> v; Script s; for(size_t k = 1; k <= 8; k++) { s.push_back(Step{0, 0, k, V()}); s.push_back(Step{1, 0, 0, V(k)}); s.push_back(Step{2, 0, 0, V()}); } v.push_back(s); free_mode = true; episode(v); ev.clear(); free_mode = false; }
    if(mode == "dfs")
    {
        for(int k = 0; k < 4 && runs < n; k++)
        {
            std::vector<Script> v = scripts(2, 1 + k % 2, k >= 2);
            long first = runs;
            std::vector<std::vector<int> > level(1), next;
            for(int dev = 0; dev <= 2 && runs - first < n / 4; dev++)
            {
                next.clear();
                if(dev == 2) std::shuffle(level.begin(), level.end(), rng);
                for(size_t d = 0; d < level.size() && runs - first < n / 4; d++)
                {
                    VsStrategy s;
                    s.kind = 0; s.prefix = level[d]; s.preemption_bound = 1000000;
                    VsResult r = vs_run(s, [&] { episode(v); });
                    flush_run();
                    if(dev == 2) continue;
                    std::vector<int> base;
                    for(size_t i = 0; i < r.decisions.size(); i++)
                    {
                        if(i >= level[d].size())
                            for(int c = 1; c < r.decisions[i].options; c++) { next.push_back(base); next.back().push_back(c); }
                        base.push_back(r.decisions[i].chosen);
                    }
                }
                level.swap(next);
            }
        }
    }
    else
        for(long r = 0; r < n; r++)
        {
            rng.seed(seed * 1000003 + r);
            std::vector<Script> v = scripts((int)rnd(2, 4), 3, true);
            free_mode = mode == "real";
            if(free_mode) { episode(v); flush_run(); continue; }
            VsStrategy s;
            s.kind = 1 + r % 2;
            s.seed = seed * 1000003ULL + r + 1;
            s.depth = 1 + r % 5;
            vs_run(s, [&] { episode(v); });
            flush_run();
        }
    out.close();
    _exit(0);
}
