// usage: chain_harness TRACE chain|registry RANDOM_RUNS SEED
#include "mpi_shim.h"
#include <boost/mpi.hpp>
#include <boost/bind.hpp>
#include <k52/parallel/mpi/async_call_chain.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include "mpi_stub.h"
#include "trace.h"
#include <memory>

using namespace k52::parallel::mpi;
void verif_exit(int code) { WorkerExit e = { code }; throw e; }

static Out out;
static std::vector<int> called;
static std::shared_ptr<bool> current;

static boost::optional<boost::mpi::request> make(int id, bool real)
{
    called.push_back(id);
    if(!real) { current.reset(); return boost::none; }
    std::shared_ptr<bool> flag(new bool(false));
    current = flag;
    return boost::mpi::request([flag]() { return *flag; });
}

// ops: 0 add (with request) 1 add (without) 2 finished? 3 more? 4 next 5 completion
static void chain(const std::vector<int>& ops, bool first_real)
{
    called.clear();
    current.reset();
    int id = 1, left = 1;
    AsyncCallChain::shared_ptr c = AsyncCallChain::CreateAsyncCallChain(boost::bind(make, 1, first_real));
    out.put(J("Chain").b("real", first_real).seq("called", called));
    for(size_t i = 0; i < ops.size(); i++)
    {
        called.clear();
        switch(ops[i])
        {
        case 0: case 1:
            id++; left++;
            c->Add(boost::bind(make, id, ops[i] == 0));
            out.put(J("Add").i("id", id).b("real", ops[i] == 0).seq("called", called));
            break;
        case 2:
        {
            std::string r;
            try { r = c->IsCurrentCallFinished() ? "yes" : "no"; } catch(const std::exception&) { r = "error"; }
            out.put(J("Finished").str("r", r).seq("called", called));
            break;
        }
        case 3: { bool r = c->WillBeNextCall(); out.put(J("More").b("r", r).seq("called", called)); break; }
        case 4:
        {
            if(left == 0) break;
            std::string r = "made";
            try { c->MakeNextCall(); left--; } catch(const std::exception&) { r = "refused"; }
            out.put(J("Next").str("r", r).seq("called", called));
            break;
        }
        case 5:
            if(current && !*current) { *current = true; out.put(J("Completed")); }
            break;
        }
    }
}

using k52::common::ICloneable;
static int live = 0;
template <int N> struct Obj : public ICloneable
{
    int v;
    Obj(int x) : v(x) { live++; }
    Obj(const Obj& o) : v(o.v) { live++; }
    virtual ~Obj() { live--; }
    virtual Obj* Clone() const { return new Obj(*this); }
};
template <int N> struct Derived : public Obj<N>
{
    Derived(int x) : Obj<N>(x) {}
    virtual Derived* Clone() const { return new Derived(*this); }
};

static unsigned long long rng;
static unsigned rnd(unsigned n) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)((rng >> 11) % n); }

template <class T> static void get(int k)
{
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    T probe(-5);
    std::string id = m.GetId(probe);
    int v = -1;
    try
    {
        const ICloneable* o = m.GetObject(id);
        const T* t = dynamic_cast<const T*>(o);
        v = t && typeid(*o) == typeid(T) ? t->v : -2;
    }
    catch(const std::exception&) { v = -1; }
    out.put(J("Get").i("k", k).i("v", v));
}
template <class T> static void reg(int k, int v)
{
    T o(v);
    IdentifyableObjectsManager::Instance().RegisterObject(o);
    o.v = -77;          // the registry keeps its own copy
    out.put(J("Register").i("k", k).i("v", v));
}
template <int G> static void registry_episode()
{
    out.put(J("Group"));
    int n = 10 + rnd(30);
    for(int i = 0; i < n; i++)
    {
        int k = 1 + rnd(4), v = rnd(50);
        bool g = rnd(3) != 0;
        switch(k)
        {
        case 1: g ? get<Obj<3 * G> >(1) : reg<Obj<3 * G> >(1, v); break;
        case 2: g ? get<Derived<3 * G> >(2) : reg<Derived<3 * G> >(2, v); break;
        case 3: g ? get<Obj<3 * G + 1> >(3) : reg<Obj<3 * G + 1> >(3, v); break;
        case 4: g ? get<Obj<3 * G + 2> >(4) : reg<Obj<3 * G + 2> >(4, v); break;
        }
        if(rnd(8) == 0)
        {
            int v2 = -1;
            try { IdentifyableObjectsManager::Instance().GetObject("no such kind"); v2 = 0; } catch(const std::exception&) {}
            out.put(J("Get").i("k", 9).i("v", v2));
        }
    }
}
template <int G> struct Episodes { static void run() { registry_episode<G>(); Episodes<G - 1>::run(); } };
template <> struct Episodes<0> { static void run() { registry_episode<0>(); } };

int main(int argc, char** argv)
{
    out.open(argv[1]);
    std::string mode = argv[2];
    long n = atol(argv[3]);
    rng = strtoull(argv[4], 0, 10) * 0x9E3779B97F4A7C15ULL + 3;
    if(mode == "chain")
    {
        mpi_stub::set_delay(0, 1);
        for(int first = 0; first < 2; first++)
        for(int len = 0; len <= 4; len++)
        {
            std::vector<int> ops(len, 0);
            while(true)
            {
                chain(ops, first == 1);
                int i = 0;
                while(i < len && ++ops[i] == 6) ops[i++] = 0;
                if(i == len) break;
            }
        }
        for(long r = 0; r < n; r++)
        {
            std::vector<int> ops(5 + rnd(20));
            bool waiting = rnd(6) == 0; // many calls waiting before the first ones are made
            if(waiting) ops.resize(40 + rnd(60));
            for(size_t i = 0; i < ops.size(); i++) ops[i] = waiting && i < ops.size() / 3 ? rnd(2) : rnd(6);
            chain(ops, rnd(2));
        }
    }
    else Episodes<80>::run();
    out.close();
}
