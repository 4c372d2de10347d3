// usage: cwt_harness TRACE cwt|scale|waves N SEED
#include <k52/dsp/cwt.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include "trace.h"
#include <cmath>
#include <random>
#include <stdexcept>
using namespace k52::dsp;
typedef std::vector<double> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static long fixed(double v) { double z = std::floor(v + 0.5); return std::fabs(z) < 2e9 ? (long)z : 2000000000; }
static long fdiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static long fmod_(long a, long b) { return a - b * fdiv(a, b); }
static bool offgrid;
// integer-valued on a grid, see CwtDefs.tla
class Table : public IWavelet
{
public:
    explicit Table(double unit) : unit_(unit) {}
    std::complex<double> GetValue(double t)
    {
        double z = t * unit_;
        long q = fixed(z);
        if(!(std::fabs(z - q) < 1e-5)) offgrid = true;
        return std::complex<double>((double)(fmod_(q * q + 3 * q + 7 * fdiv(q, 3), 9) - 4), (double)(fmod_(q * q * 2 + q + 5 * fdiv(q, 4), 7) - 3));
    }
private:
    double unit_;
};
static std::vector<long> told;
struct Callback { double n; void operator()(double p) const { told.push_back((long)std::floor(p * 100 + 1e-6)); } };
static void cwt()
{
    bool linear = rnd(0, 1);
    int len, min, count, ratio = 0;
    if(linear) { len = 2 * (int)rnd(1, 8); min = (int)rnd(1, len); count = (int)rnd(1, 5); ratio = len / min; }
    else { count = (int)rnd(1, 4); min = (int)rnd(1, 2); len = min << count; }
    V x;
    int most = rnd(0, 49) ? 20 : 420;
    if(rnd(0, 39) == 0) // long windows or many scales; positions stay small enough for the specification's integers
    {
        linear = true;
        if(rnd(0, 1)) { len = 2 * (int)rnd(8, 256); count = (int)rnd(1, 3); min = (int)rnd((len + 1) / 2, len); }
        else { len = 2 * (int)rnd(1, 8); count = (int)rnd(6, 40); min = (int)rnd((len + 3) / 4, len); }
        ratio = len / min;
        most = 10;
    }
    else if(!linear && rnd(0, 39) == 0) { count = (int)rnd(5, 8); min = 1; len = min << count; most = 6; }
    for(int n = (int)rnd(0, most); n > 0; n--) x.push_back((double)(rnd(0, 2) ? rnd(-9, 9) : 0));
    int step = rnd(0, 9) ? (int)rnd(1, 7) : -(int)rnd(0, 3);
    if(most > 20 && rnd(0, 1)) step = (int)rnd(5, 300);
    bool callback = rnd(0, 1), refused = false;
    offgrid = false;
    told.clear();
    IWavelet::shared_ptr f(new Table(linear ? (double)count * len : (double)len));
    Wavelet::shared_ptr w = Wavelet::BuildWavelet(f, min, len, count, linear ? Wavelet::Linear : Wavelet::Log);
    std::vector<V> r;
    Callback c = {(double)x.size()};
    try { r = callback ? ContiniousWaveletTransformation(x, w, step, c) : ContiniousWaveletTransformation(x, w, step); } catch(const std::invalid_argument&) { refused = true; }
    std::string rows = "[";
    for(size_t i = 0; i < r.size(); i++)
    {
        rows += i ? ",[" : "[";
        for(size_t k = 0; k < r[i].size(); k++)
        {
            double q = r[i][k] * r[i][k];
            long v = fixed(q);
            if(!(std::fabs(q - v) < 1e-6 * (1 + v)) || r[i][k] < 0) v = 1999999999;
            rows += (k ? "," : "") + std::to_string(v);
        }
        rows += "]";
    }
    std::vector<long> lx(x.begin(), x.end());
    out.put(J("Cwt").str("type", linear ? "linear" : "log").i("len", len).i("ratio", ratio).i("count", count).i("step", step).seq("x", lx)
        .b("refused", refused).b("offgrid", offgrid).b("callback", callback).raw("rows", rows + "]").seq("told", told));
}
// limits that are no small fractions: the distance from an even spacing, in 2^-40 of the upper limit
static void any_scale()
{
    double min = std::exp((double)rnd(-30000, 30000) / 1000.), max = min * (1 + std::exp((double)rnd(-9000, 9000) / 1000.));
    size_t count = (size_t)(rnd(0, 3) ? rnd(2, 40) : rnd(41, 20000));
    V v = LinearScale(min, max, count).GetScales();
    double err = 0;
    bool rising = true;
    for(size_t i = 0; i < v.size(); i++)
    {
        long double want = (long double)min + ((long double)max - min) * (long double)i / (long double)(count - 1);
        err = std::max(err, std::fabs((double)(v[i] - want)) / max);
        if(i && !(v[i] > v[i - 1])) rising = false;
    }
    out.put(J("Wide").i("count", count).i("len", v.size()).b("rising", rising).i("err", fixed(err * std::ldexp(1., 40))));
}
// Mexican hat and Morlet, in units of 2^-15; sums over steps of 1 in units of 10^-6
static void waves(int n)
{
    for(; n > 0; n--)
    {
        MhatWaveletFunction hat;
        MorletWaveletFunction morlet;
        int k = (int)(rnd(0, 3) ? rnd(-64, 64) : rnd(-256, 256));
        switch(rnd(0, 4))
        {
        case 0: case 1: { std::complex<double> v = morlet.GetValue(k / 16.); out.put(J("Morlet").i("k", k).i("re", fixed(v.real() * 32768)).i("im", fixed(v.imag() * 32768))); break; }
        case 2: case 3:
        {
            std::complex<double> v = hat.GetValue(3 * k / 16.), z = hat.GetValue(0);
            out.put(J("Hat").i("k", k).i("v", fixed(v.real() / z.real() * 32768)).b("real", v.imag() == 0 && z.imag() == 0).b("up", z.real() > 0));
            break;
        }
        default:
        {
            double d = rnd(0, 999) / 1000., sum = 0, energy = 0;
            for(int i = -90; i <= 90; i++) { double v = hat.GetValue(i + d).real(); sum += v; energy += v * v; }
            out.put(J("Sums").i("mean", fixed(sum * 1e6)).i("energy", fixed(energy * 1e6)));
        }
        }
    }
}
int main(int, char** argv)
{
    out.open(argv[1]);
    if(std::string(argv[2]) == "waves")
    {
        rng.seed(atol(argv[4]));
        waves(atoi(argv[3]));
        out.close();
        return 0;
    }
    bool scale = std::string(argv[2]) == "scale";
    int n = atoi(argv[3]);
    rng.seed(atol(argv[4]));
    HaarWaveletFunction haar;
    for(; n > 0; n--)
        switch(scale ? rnd(1, 2) : 3 * rnd(0, 3))
        {
        case 0: { long at = rnd(-20, 20); std::complex<double> v = haar.GetValue(at / 16.); out.put(J("Haar").i("at", at).i("re", fixed(v.real())).i("im", fixed(v.imag()))); break; }
        case 1:
            {
                long min = rnd(-3, 40), max = rnd(-3, 60), count = rnd(0, 30);
                switch(rnd(0, 40))
                {
                case 0: count = rnd(30, 3000); break;
                case 1: case 2: count = rnd(100, 520); break;
                case 3: case 4: case 5: max = rnd(-3, 60000); min = rnd(-3, 60000); break;
                case 6: case 7: any_scale(); continue;
                default: break;
                }
                if(rnd(0, 3) == 0) { max = min + rnd(0, 2); }
                bool ok = true; V v;
                try { v = LinearScale(min / 64., max / 64., (size_t)count).GetScales(); } catch(const std::invalid_argument&) { ok = false; }
                std::vector<long> lv;
                for(size_t i = 0; i < v.size(); i++) lv.push_back(fixed(v[i] * 64 * (double)(count - 1) * 1000));
                out.put(J("Linear").i("min", min).i("max", max).i("count", count).b("ok", ok).seq("v", lv));
                break;
            }
        case 2:
            {
                int min = (int)(rnd(0, 1) ? rnd(-40, 40) : rnd(-1000, 1000)), max = min + (int)(rnd(0, 3) ? rnd(0, 30) : rnd(-30, 1));
                if(rnd(0, 9) == 0) { min = (int)rnd(-1074, 600); max = min + (int)rnd(30, rnd(0, 3) ? 130 : 1500); }
                if(max > 1023) max = 1023;
                bool ok = true, exact = true; V v;
                try { v = LogarithmicScale(min, max).GetScales(); } catch(const std::invalid_argument&) { ok = false; }
                std::vector<long> lv;
                for(size_t i = 0; i < v.size(); i++) { int e; if(std::frexp(v[i], &e) != 0.5) exact = false; lv.push_back(e - 1); }
                out.put(J("Log").i("min", min).i("max", max).b("ok", ok).b("exact", exact).seq("v", lv));
                break;
            }
        default: cwt();
        }
    out.close();
    return 0;
}
