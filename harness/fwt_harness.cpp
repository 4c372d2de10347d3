// usage: fwt_harness TRACE HISTORIES SEED
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include "trace.h"
#include <cmath>
#include <complex>
#include <map>
#include <random>
#include <stdexcept>
using namespace k52::dsp;
typedef std::complex<double> C;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static long mod(long a, long m) { return ((a % m) + m) % m; }

class Psi : public IWavelet // integer values at multiples of 1/16, others just above and just below of them
{
public:
    explicit Psi(int w) : w_(w) {}
    C GetValue(double t)
    {
        double d = t * 16;
        long u = (long)std::floor(d + 0.5);
        if(std::fabs(u - d) > 0.2) return C(1e3, 1e3); // the code asks for a point it has no reason to ask for
        int side = d > u ? 1 : d < u ? -1 : 0;
        return C(mod(u * (2 * w_ + 3) + w_, 11) - 5 + side * 3, w_ % 2 == 0 ? 0 : mod(u * u + w_, 7) - 3 + side);
    }
private:
    int w_;
};
// 2^e, exactly (d = 0) or a little more (d = 1) or less (d = -1): how little does not matter
struct ScaleValue { int e, d; double value; };
static bool lengthy = false; // far points move further with the scale
static ScaleValue scale_value(int e, int d) { ScaleValue s = { e, d, std::ldexp(1 + d * std::ldexp(1., -(int)rnd(lengthy ? 20 : 10, 44)), e) }; return s; }
typedef std::vector<ScaleValue> ScaleValues;
static std::string json(const ScaleValues& es)
{
    std::string s = "[";
    for(size_t i = 0; i < es.size(); i++) s += (i ? ",[" : "[") + std::to_string(es[i].e) + "," + std::to_string(es[i].d) + "]";
    return s + "]";
}
class Scales : public IScale
{
public:
    explicit Scales(const ScaleValues& es) : es_(es) {}
    std::vector<double> GetScales() const { std::vector<double> r; for(size_t i = 0; i < es_.size(); i++) r.push_back(es_[i].value); return r; }
private:
    ScaleValues es_;
};
static bool near_all;
static std::string row(const std::vector<C>& v, double factor)
{
    std::string s = "[";
    for(size_t i = 0; i < v.size(); i++)
    {
        double re = v[i].real() * factor, im = v[i].imag() * factor;
        long a = (long)std::floor(re + 0.5), b = (long)std::floor(im + 0.5);
        if(!(std::fabs(re - a) < 1e-6 && std::fabs(im - b) < 1e-6)) near_all = false;
        if(!(std::fabs(re) < 1e6 && std::fabs(im) < 1e6)) { a = b = 999999; near_all = false; }
        s += (i ? ",[" : "[") + std::to_string(a) + "," + std::to_string(b) + "]";
    }
    return s + "]";
}
static std::string sig(const std::vector<C>& x) { near_all = true; return row(x, 1); }

int main(int, char** argv)
{
    out.open(argv[1]);
    rng.seed(atol(argv[3]));
    if(!freopen("/dev/null", "w", stdout)) return 77;
    for(int h = 0; h < atoi(argv[2]); h++)
    {
        int nobj = (int)rnd(1, 3), nw = (int)rnd(1, 3);
        std::vector<IWavelet::shared_ptr> w;
        for(int i = 0; i < nw; i++) w.push_back(IWavelet::shared_ptr(new Psi(i)));
        std::vector<int> which;
        for(int i = 0; i < nw; i++) which.push_back(i);
        std::vector<boost::shared_ptr<FastWaveletTransform> > obj;
        std::vector<int> len;
        std::vector<ScaleValues> ess;
        int common = (int)rnd(1, 9);
        lengthy = rnd(0, 59) == 0;
        bool many = !lengthy && rnd(0, 19) == 0; // long signals, many scales
        if(lengthy) common = (int)rnd(10, rnd(0, 2) ? 80 : 200);
        for(int i = 0; i < nobj; i++)
        {
            int n = rnd(0, 2) || lengthy ? common : (int)rnd(1, 9);
            ScaleValues es;
            IScale::shared_ptr sc;
            if(rnd(0, 2) == 0)
            {
                int lo = (int)rnd(-1, 1), hi = (int)rnd(lo + 1, 3);
                for(int e = lo; e <= hi; e++) es.push_back(scale_value(e, 0));
                sc.reset(new LogarithmicScale(lo, hi));
            }
            else
            {
                for(int k = (int)(many ? rnd(5, 40) : rnd(0, 4)); k > 0; k--) es.push_back(scale_value((int)rnd(-1, 3), (int)rnd(-1, 1)));
                sc.reset(new Scales(es));
            }
            int kind = (int)rnd(0, 2);
            double mb = kind == 0 ? -1 : kind == 1 ? 10 : (rnd(0, 4) * 60.0) / 1048576;
            bool ok = true;
            boost::shared_ptr<FastWaveletTransform> p;
            try { p.reset(new FastWaveletTransform(sc, n, mb)); } catch(const std::exception&) { ok = false; }
            out.put(J("New").i("id", i).i("n", n).b("tiny", kind == 2).raw("es", json(es)).b("ok", ok));
            obj.push_back(p); len.push_back(n); ess.push_back(es);
        }
        for(int o = (int)rnd(2, lengthy ? 4 : 14); o > 0; o--)
        {
            int i = (int)rnd(0, nobj - 1), wi = (int)rnd(0, nw - 1);
            if(rnd(0, 6) == 0) // the wavelet goes, another takes its place (perhaps its address, too)
            {
                w[wi].reset();
                which[wi] = (int)rnd(0, 5);
                w[wi].reset(new Psi(which[wi]));
            }
            int n = rnd(0, 9) ? len[i] : (int)rnd(0, 10);
            std::vector<C> x;
            for(int k = 0; k < n; k++) x.push_back(C(rnd(-4, 4), rnd(0, 1) ? 0 : rnd(-4, 4)));
            std::string xs = sig(x);
            near_all = true;
            bool ok = true;
            if(rnd(0, 1))
            {
                std::string rows = "[";
                try
                {
                    std::vector<std::vector<C> > r = obj[i]->Transform(x, w[wi]);
                    for(size_t k = 0; k < r.size(); k++)
                        rows += (k ? "," : "") + row(r[k], std::sqrt(k < ess[i].size() ? ess[i][k].value : 1));
                }
                catch(const std::exception&) { ok = false; rows = "["; }
                // without scales nothing is transformed and nothing can be refused
                if(ess[i].empty() && n != len[i]) continue;
                out.put(J("All").i("id", i).i("w", which[wi]).raw("x", xs).b("ok", ok).b("near", near_all).raw("rows", rows + "]"));
            }
            else
            {
                int e = rnd(0, 9) ? (int)rnd(-1, 3) : 99;
                ScaleValue v = scale_value(e == 99 ? 0 : e, rnd(0, 1) ? 0 : (int)rnd(-1, 1));
                double s = e == 99 ? (rnd(0, 1) ? 0.0 : -2.0) : v.value;
                std::string r = "[]";
                try { r = row(obj[i]->TransformOneScale(x, w[wi], s), std::sqrt(std::fabs(s))); }
                catch(const std::exception&) { ok = false; }
                out.put(J("One").i("id", i).i("w", which[wi]).i("exp", e).i("d", v.d).raw("x", xs).b("ok", ok).b("near", near_all).raw("row", r));
            }
        }
        for(int i = 0; i < nobj; i++) out.put(J("Drop").i("id", i));
    }
    out.close();
    return 0;
}
