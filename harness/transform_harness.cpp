// usage: transform_harness TRACE N SEED
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include "trace.h"
#include <cmath>
#include <random>
#include <stdexcept>
using namespace k52::dsp;
typedef std::complex<double> C;
typedef std::vector<C> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static V signal(size_t n, long top)
{
    V v;
    int kind = (int)rnd(0, 5);
    for(size_t i = 0; i < n; i++)
        v.push_back(kind == 0 ? C(rnd(0, 2) ? 0 : 1, 0) : kind == 1 ? C((double)rnd(-top, top), 0) : kind == 2 ? C(0, (double)rnd(-top, top)) : kind == 3 ? C(3, -1) : C((double)rnd(-top, top), (double)rnd(-top, top)));
    if(n > 1 && rnd(0, 2) == 0)
        switch(rnd(0, 4)) // special, or almost
        {
        case 0: v[rnd(0, 1) ? n - 1 : (size_t)rnd(0, (long)n - 1)] += C((double)rnd(-3, 3), (double)rnd(-3, 3)); break;
        case 1: for(size_t i = 1; i < n; i++) v[n - i] = std::conj(v[i]); break;
        case 2: for(size_t i = 2; i < n; i++) v[i] = v[i - 2]; break;
        case 3: for(size_t i = 0; i < n; i++) if(i != (size_t)rnd(0, (long)n - 1)) v[i] = 0; break;
        default: for(size_t i = n / 2; i < n; i++) v[i] = 0;
        }
    return v;
}
static long fixed(double v, double unit) { double z = std::floor(v * unit + 0.5); return std::fabs(z) < 2e9 ? (long)z : 2000000000; }
// unit <= 0: the values have to be integers (within 1e-6, exactly if unit is 0)
static std::string json(const V& v, double unit)
{
    std::string s = "[";
    for(size_t i = 0; i < v.size(); i++)
    {
        long p[2];
        double q[2] = {v[i].real(), v[i].imag()};
        for(int k = 0; k < 2; k++)
            if(unit > 0) p[k] = fixed(q[k], unit);
            else { p[k] = fixed(q[k], 1); if(!(std::fabs(q[k] - p[k]) <= (unit < 0 ? 1e-6 : 0))) p[k] = 1999999999; }
        s += (i ? "," : "") + std::string("[") + std::to_string(p[0]) + "," + std::to_string(p[1]) + "]";
    }
    return s + "]";
}
static IFourierTransform::shared_ptr fourier(size_t n, bool fast)
{
    return fast ? IFourierTransform::shared_ptr(new FastFourierTransform(n)) : IFourierTransform::shared_ptr(new FourierTransform());
}
static void conv(const ICircularConvolution& c, const V& a, const V& b, bool exact, const char* kind)
{
    V r;
    bool refused = false;
    try { r = c.EvaluateConvolution(a, b); } catch(const std::exception&) { refused = true; }
    out.put(J("Conv").str("kind", kind).raw("a", json(a, 1)).raw("b", json(b, 1)).b("refused", refused).raw("r", json(r, exact ? 0 : -1)));
}
static double greatest(const V& a)
{
    double s = 0;
    for(size_t i = 0; i < a.size(); i++) s = std::max(s, std::abs(a[i]));
    return s;
}
// relative to the greatest value, or to at_least where values may cancel out
static double distance(const V& a, const V& b, double at_least = 0)
{
    if(a.size() != b.size()) return 1e9;
    double d = 0, s = std::max(at_least, 1e-300);
    for(size_t i = 0; i < a.size(); i++) { d = std::max(d, std::abs(a[i] - b[i])); s = std::max(s, std::abs(a[i])); }
    return d / s;
}
static long err(double d) { return d < 1 ? (long)(d * 1e9) : 1000000000; }
int main(int, char** argv)
{
    out.open(argv[1]);
    int n = atoi(argv[2]);
    rng.seed(atol(argv[3]));
    CircularConvolution direct;
    for(; n > 0; n--)
    {
        size_t len = (size_t)(rnd(0, 1) ? rnd(1, 5) : rnd(1, 16));
        switch(rnd(0, 5))
        {
        case 0: conv(direct, signal((size_t)rnd(0, 12), 9), signal((size_t)rnd(0, 12), 9), true, "direct"); break;
        case 1: { len = (size_t)rnd(0, 12); conv(direct, signal(len, 9), signal(len, 9), true, "direct"); break; }
        case 2:
            {
                if(len > 12) len = 12;
                bool fast = rnd(0, 1);
                FourierBasedCircularConvolution c(fourier(len, fast));
                for(int k = 0; k < 3; k++)
                {
                    size_t other = rnd(0, 3) ? len : (size_t)rnd(1, 12);
                    conv(c, signal(len, 9), signal(other, 9), false, fast ? "fast" : "fourier");
                }
                break;
            }
        case 3: case 4:
            {
                bool fast = rnd(0, 1), inverse = rnd(0, 1);
                IFourierTransform::shared_ptr f = fourier(len, fast);
                InverseFourierTransform g(f);
                for(int k = 0; k < 3; k++) // one object, several signals
                {
                    V x = signal(len, 8), r = inverse ? g.Transform(x) : f->Transform(x);
                    if(inverse) for(size_t i = 0; i < r.size(); i++) r[i] *= (double)len;
                    out.put(J("Dft").b("fast", fast).b("inverse", inverse).raw("x", json(x, 1)).raw("r", json(r, 1e6)));
                }
                break;
            }
        default:
            if(rnd(0, 1))
            {
                bool fast = rnd(0, 1);
                static const size_t lens[] = {17, 24, 31, 32, 45, 64, 97, 128, 129, 200, 256, 300};
                len = fast ? lens[rnd(0, 11)] : (size_t)rnd(17, rnd(0, 5) ? 120 : 260);
                IFourierTransform::shared_ptr f = fourier(len, fast), slow = fourier(len, false);
                InverseFourierTransform back(f);
                V x = signal(len, 9), y = signal(len, 9);
                double unit = rnd(0, 1) ? 1 : std::ldexp(1., (int)rnd(-100, 100));
                for(size_t i = 0; i < len; i++) { x[i] *= unit; y[i] *= unit; }
                V X = f->Transform(x), Y = f->Transform(y), z = x, shifted, turned = X;
                double e = distance(x, back.Transform(X));
                for(size_t i = 0; i < len; i++) { z[i] = 2. * x[i] - y[i] * C(0, 1); shifted.push_back(x[(i + len - 1) % len]); turned[i] = 2. * X[i] - Y[i] * C(0, 1); }
                e = std::max(e, distance(f->Transform(z), turned, greatest(X) + greatest(Y)));
                for(size_t i = 0; i < len; i++) turned[i] = X[i] * std::polar(1., -2 * M_PI * (double)i / (double)len);
                e = std::max(e, distance(f->Transform(shifted), turned));
                V d(len, C(0, 0)), ones(len, C(1, 0));
                d[0] = 1;
                e = std::max(e, distance(f->Transform(d), ones));
                if(fast) e = std::max(e, distance(X, slow->Transform(x)));
                e = std::max(e, distance(direct.EvaluateConvolution(x, y), FourierBasedCircularConvolution(f).EvaluateConvolution(x, y), greatest(X) * greatest(Y) / (double)len));
                out.put(J("Laws").i("n", len).b("fast", fast).b("sizes", X.size() == len).i("err", err(e)));
            }
            else
            {
                size_t given = rnd(0, 2) ? (size_t)rnd(0, 20) : len;
                FastFourierTransform f(len);
                bool refused = false, after = false;
                try { f.Transform(signal(given, 5)); } catch(const std::invalid_argument&) { refused = true; }
                V x = signal(len, 5);
                after = distance(FourierTransform().Transform(x), f.Transform(x)) < 1e-9;
                out.put(J("Refuse").i("made", len).i("given", given).b("refused", refused).b("after", after));
            }
        }
    }
    out.close();
    return 0;
}
