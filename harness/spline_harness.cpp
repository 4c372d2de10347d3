// usage: spline_harness TRACE N SEED
#include <vector>
#include <boost/shared_ptr.hpp>
#include <algorithm>
#include <k52/dsp/akima_spline.h>
#include <k52/dsp/akima_wavelet_function.h>
#include "trace.h"
#include <cmath>
#include <limits>
#include <random>
#include <stdexcept>
using k52::dsp::AkimaSpline;
using k52::dsp::AkimaWavelet;
typedef std::vector<double> V;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static double NaN() { return std::numeric_limits<double>::quiet_NaN(); }
static bool value(AkimaSpline& s, double x, double& v) { try { v = s.Value(x); return true; } catch(const std::out_of_range&) { return false; } }
static long fixed(double v, double unit) { double z = std::floor(v * unit + 0.5); return std::fabs(z) < 2e9 ? (long)z : 2000000000; }
static long error(double v, double w, double size) { double e = std::fabs(v - w) / size * 1e12; return e < 1e9 ? (long)e : 1000000000; }
static std::vector<long> longs(const V& v) { std::vector<long> r; for(size_t i = 0; i < v.size(); i++) r.push_back((long)v[i]); return r; }

// ex, ey: powers of two the knots are multiplied with (which no result may depend on)
struct State { V x, y; bool set, exact, line; double a, b, ex, ey; };
static V times(const V& v, double f) { V r = v; for(size_t i = 0; i < r.size(); i++) r[i] *= f; return r; }
static bool initialize(AkimaSpline& s, const V& x, const V& y) { try { s.Initialize(x, y); return true; } catch(const std::invalid_argument&) { return false; } }
// integer knots, perhaps ill-formed
static void init_exact(AkimaSpline& s, State& st)
{
    V x, y;
    int n = (int)(rnd(0, 6) ? rnd(5, 9) : rnd(0, 3) ? rnd(0, 4) : rnd(10, 160));
    long at = rnd(-6, 3);
    for(int i = 0; i < n; i++) { x.push_back(at); y.push_back(rnd(-3, 3)); at += rnd(1, 2); }
    bool nan = false;
    if(rnd(0, 5) == 0) y = V(n, (double)rnd(-3, 3)); // flat
    double ex = rnd(0, 1) ? 1 : std::ldexp(1., (int)rnd(-30, 30)), ey = rnd(0, 1) ? 1 : std::ldexp(1., (int)rnd(-60, 60));
    if(st.set && st.exact && rnd(0, 2) == 0) // almost the knots there are already
    {
        x = st.x; y = st.y; n = (int)x.size(); ex = st.ex; ey = st.ey;
        switch(rnd(0, 5))
        {
        case 0: x[n - 1] = x[n - 2] + 3 - (x[n - 1] - x[n - 2]); break;
        case 1: x[0] = x[1] - 3 + (x[1] - x[0]); break;
        case 2: y[0] += 1; break;
        case 3: y[n - 1] -= 1; break;
        default: y[rnd(1, n - 2)] += rnd(0, 1) ? 1 : -1;
        }
        for(int i = 0; i < n; i++) y[i] = std::max(-4., std::min(4., y[i]));
        if(rnd(0, 3) == 0) { ex *= 2; if(rnd(0, 1)) ey /= 4; }
    }
    if(rnd(0, 5) == 0 && n > 1)
        switch(rnd(0, 4))
        {
        case 0: { int i = (int)rnd(0, n - 2); x[i + 1] = x[i]; break; }
        case 1: { int i = (int)rnd(0, n - 2); std::swap(x[i], x[i + 1]); break; }
        case 2: y.pop_back(); break;
        case 3: y.push_back(0); break;
        default: nan = true;
        }
    std::vector<long> lx = longs(x);
    if(nan) x[rnd(0, n - 1)] = NaN();
    bool ok = initialize(s, times(x, ex), times(y, ey));
    out.put(J("Initialize").seq("x", lx).seq("y", longs(y)).i("ny", y.size()).b("nan", nan).b("ok", ok));
    if(ok) { st.x = x; st.y = y; st.ex = ex; st.ey = ey; st.set = st.exact = true; st.line = false; }
}
// any knots
static void init_any(AkimaSpline& s, State& st, bool line)
{
    V x, y;
    std::vector<long> order;
    double at = rnd(-1000, 1000) / 7., a = rnd(-50, 50) / 3., b = rnd(-50, 50) / 9.;
    int n = (int)rnd(5, 30);
    for(int i = 0; i < n; i++)
    {
        x.push_back(at); y.push_back(line ? a + b * at : rnd(-1000, 1000) / 11.); order.push_back(i);
        at += std::pow(10., (double)rnd(-2, 2)) * rnd(1, 9) / 7;
    }
    bool ok = initialize(s, x, y);
    out.put(J("Initialize").seq("x", order).seq("y", std::vector<long>(n, 0)).i("ny", n).b("nan", false).b("ok", ok));
    if(ok) { st.x = x; st.y = y; st.ex = st.ey = 1; st.set = true; st.exact = false; st.line = line; st.a = a; st.b = b; }
}
static void query(AkimaSpline& s, State& st)
{
    if(!st.set) return;             // never built: nothing is promised
    double v = 0;
    J j("Value");
    if(rnd(0, 3) == 0)
    {
        double lo = st.x[0] * st.ex, hi = st.x.back() * st.ex, inf = HUGE_VAL;
        double at[] = {std::nextafter(lo, -inf), std::nextafter(hi, inf), lo - st.ex, hi + st.ex, lo - 1e18, hi + 1e18, -inf, inf, NaN(), -NaN(), lo - st.ex, hi + 0.5 * st.ex};
        bool ok = value(s, at[rnd(0, 11)], v);
        out.put(j.str("where", "out").b("refused", !ok));
        return;
    }
    int n = (int)st.x.size(), i = (int)rnd(0, n - 2), q = (int)rnd(0, 4);
    if(rnd(0, 5) == 0) { i = n - 2; q = 4; }
    if(st.exact)
    {
        bool ok = value(s, (st.x[i] + (st.x[i + 1] - st.x[i]) * q / 4) * st.ex, v);
        v /= st.ey;
        out.put(j.str("where", "q").i("i", i + 1).i("q", q).b("refused", !ok).i("v", fixed(v, 1000)).i("v6", fixed(v, 1000000)));
        return;
    }
    double size = 1;
    for(int k = 0; k < n; k++) size = std::max(size, std::fabs(st.y[k]));
    if(st.line && rnd(0, 1))
    {
        double at = std::min(st.x[i] + (st.x[i + 1] - st.x[i]) * rnd(0, 1000) / 1000., st.x.back());
        bool ok = value(s, at, v);
        out.put(j.str("where", "line").b("refused", !ok).i("err", error(v, st.a + st.b * at, size)));
        return;
    }
    if(q == 4) i++;
    bool ok = value(s, st.x[i], v);
    out.put(j.str("where", "knot").i("i", i + 1).b("refused", !ok).i("err", error(v, st.y[i], size)));
}
static void wavelet(int n)
{
    V re, im(n, 0.);
    for(int i = 0; i < n; i++) re.push_back(rnd(-64, 64) / 16.);
    boost::shared_ptr<AkimaWavelet> w;
    bool ok = true;
    try { w = AkimaWavelet::CreateAkimaWavelet(re, im); } catch(const std::invalid_argument&) { ok = false; }
    long errors = 0, off = 0, outside = 0, imag = 0;
    for(int i = 0; ok && i < n + 40; i++)
    {
        double inf = HUGE_VAL, d = 8. / n;
        double at = i < n ? -4 + d * i : i == n ? 4 : i < n + 10 ? (i % 2 ? -4 - rnd(1, 100) / 10. : 4 + rnd(1, 100) / 10.)
            : i == n + 10 ? std::nextafter(4., inf) : i == n + 11 ? std::nextafter(4., -inf) : i == n + 12 ? std::nextafter(-4., -inf) : rnd(-4000, 4000) / 1000.;
        try
        {
            std::complex<double> v = w->GetValue(at);
            if(v.imag() != 0) imag++;
            if(i < n && std::fabs(v.real() - re[i]) > 1e-9) off++;
            if(i == n && std::fabs(v.real()) > 1e-9) off++;
            if((at < -4 || at > 4) && v.real() != 0) outside++;
            if(!(std::fabs(v.real()) < 1e3)) off++;
        }
        catch(const std::exception&) { errors++; }
    }
    out.put(J("Wavelet").i("n", n).b("ok", ok).i("errors", errors).i("off", off).i("outside", outside).i("imag", imag));
}
// between its samples: whole samples, a power of two many (all exact), some quarters of some intervals
static void between(int n)
{
    V re, im(n, 0.);
    for(int i = 0; i < n; i++) re.push_back(rnd(-3, 3));
    boost::shared_ptr<AkimaWavelet> w = AkimaWavelet::CreateAkimaWavelet(re, im);
    for(int k = 0; k < 8; k++)
    {
        int i = k == 0 ? 0 : k == 1 ? n - 1 : (int)rnd(0, n - 1), q = (int)rnd(1, 3);
        std::complex<double> v = w->GetValue(-4 + 8. / n * (i + q / 4.));
        out.put(J("Between").seq("s", longs(re)).i("i", i + 1).i("q", q).i("v", fixed(v.real(), 1000)).b("real", v.imag() == 0));
    }
}
int main(int, char** argv)
{
    out.open(argv[1]);
    int n = atoi(argv[2]);
    rng.seed(atol(argv[3]));
    for(; n > 0; n--)
    {
        if(rnd(0, 9) == 0) { between(1 << (rnd(0, 5) ? rnd(2, 4) : rnd(5, 7))); continue; }
        if(rnd(0, 4) == 0) { wavelet((int)(rnd(0, 3) ? rnd(1, 64) : rnd(1, 500))); continue; }
        AkimaSpline::shared_ptr s = AkimaSpline::Create();
        State st = {V(), V(), false, false, false, 0, 0, 1, 1};
        out.put(J("New"));
        for(int k = (int)rnd(1, 5); k > 0; k--)
        {
            if(rnd(0, 1)) init_exact(*s, st); else if(rnd(0, 1)) init_any(*s, st, rnd(0, 1));
            for(int q = (int)rnd(0, 8); q > 0; q--) query(*s, st);
        }
    }
    out.close();
    return 0;
}
