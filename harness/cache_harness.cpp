// usage: cache_harness TRACE HISTORIES SEED
#include <k52/common/cache.h>
#include "trace.h"
#include <random>
#include <stdexcept>
using k52::common::Cache;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }

template <class K, class V> struct Conv { static K key(int i); static V val(int i); static int num(const V& v); };
template <> struct Conv<int, int> { static int key(int i) { return i; } static int val(int i) { return i; } static int num(int v) { return v; } };
template <> struct Conv<unsigned long, double> { static unsigned long key(int i) { return i * 0x9e3779b97f4a7c15UL; } static double val(int i) { return i / 4.0; } static int num(double v) { return (int)(v * 4); } };
template <> struct Conv<std::string, std::string>
{
    static std::string key(int i) { return std::string(i, 'k'); }
    static std::string val(int i) { return std::to_string(i); }
    static int num(const std::string& v) { return v.empty() ? -1 : atoi(v.c_str()); }
};
template <> struct Conv<std::vector<bool>, double>
{
    static std::vector<bool> key(int i) { std::vector<bool> b; for(int k = 0; k < 11; k++) b.push_back(i >> k & 1); return b; }
    static double val(int i) { return i; } static int num(double v) { return (int)v; }
};

template <class K, class V> static void history(int ops, bool wide)
{
    typedef Cache<K, V> C;
    typedef Conv<K, V> X;
    double entry = sizeof(typename C::cache_map_type::key_type) + sizeof(typename C::cache_map_type::value_type);
    int n = (int)rnd(0, 6), universe = (int)rnd(2, 9), most = 4;
    if(wide) { universe = (int)rnd(100, 700); most = universe / 2; ops = ops / 2 + 1; if(rnd(0, 2)) n = (int)rnd(7, universe); }
    double mb = n == 6 ? (rnd(0, 1) ? 0 : -1) : n == 5 ? 100 : (n + 0.5) * entry / 1048576;
    int limit = n == 5 ? 1000 : n;
    typename C::shared_ptr c = C::Create(mb);
    out.put(J("Create").b("positive", mb > 0).b("made", c.get() != 0).i("limit", limit));
    if(!c) return;
    std::vector<int> all;
    for(int o = 0; o < ops; o++)
    {
        int k = wide && !all.empty() && rnd(0, 3) ? all[rng() % all.size()] : (int)rnd(0, universe - 1), v = (int)rnd(0, 5);
        J j("");
        switch(rnd(0, 5))
        {
        case 0: case 1:
        {
            bool ok = true;
            try { c->AddValue(X::key(k), X::val(v)); } catch(const std::exception&) { ok = false; }
            j = J("Store").b("ok", ok).raw("recs", "[[" + std::to_string(k) + "," + std::to_string(v) + "]]");
            break;
        }
        case 2:
        {
            std::vector<typename C::CacheRecord> recs;
            std::string s = "[";
            for(int i = (int)rnd(0, most); i > 0; i--)
            {
                int kk = (int)rnd(0, universe - 1), vv = (int)rnd(0, 5);
                recs.push_back(typename C::CacheRecord(X::key(kk), X::val(vv)));
                s += (s.size() > 1 ? ",[" : "[") + std::to_string(kk) + "," + std::to_string(vv) + "]";
            }
            bool ok = true;
            try { c->AddValues(recs); } catch(const std::exception&) { ok = false; }
            j = J("Store").b("ok", ok).raw("recs", s + "]");
            break;
        }
        case 3: case 4:
        {
            bool ok = true; int r = -1;
            try { r = X::num(c->GetCachedValue(X::key(k))); } catch(const std::exception&) { ok = false; }
            j = J("Get").i("k", k).b("ok", ok).i("v", r);
            break;
        }
        default: j = J("Ask").i("k", k).b("r", c->IsCached(X::key(k)));
        }
        all.clear();
        for(int i = 0; i < universe + 2; i++) if(c->IsCached(X::key(i))) all.push_back(i);
        out.put(j.seq("all", all));
    }
}
int main(int, char** argv)
{
    out.open(argv[1]);
    rng.seed(atol(argv[3]));
    if(!freopen("/dev/null", "w", stdout)) return 77;
    for(int i = 0; i < atoi(argv[2]); i++)
    {
        int ops = (int)rnd(5, 60);
        bool wide = i % 60 >= 56;
        switch(i % 4)
        {
        case 0: history<int, int>(ops, wide); break;
        case 1: history<unsigned long, double>(ops, wide); break;
        case 2: history<std::string, std::string>(ops, wide); break;
        default: history<std::vector<bool>, double>(ops, wide);
        }
    }
    out.close();
    return 0;
}
