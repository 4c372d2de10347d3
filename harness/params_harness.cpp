// usage: params_harness TRACE codec|store|guard N SEED
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/initialization_checker.h>
#include <k52/optimization/individual.h>
#include <k52/optimization/i_mutator.h>
#include "trace.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <map>
#include <memory>
#include <random>
#include <stdexcept>
#include <thread>

using namespace k52::optimization;
typedef std::string S;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }

static S tok(double v) { char b[40]; snprintf(b, 40, "%.17g", v == 0 ? 0.0 : v); return b; }
static S tok(int v) { return std::to_string(v); }
static S bitstr(const ChromosomeType& c) { S s; for(size_t i = 0; i < c.size(); i++) s += c[i] ? '1' : '0'; return s; }
static ChromosomeType tobits(const S& s) { ChromosomeType c(s.size()); for(size_t i = 0; i < s.size(); i++) c[i] = s[i] == '1'; return c; }
// whatever the buffer held before
static S enc(const IDiscreteParameters& p)
{
    ChromosomeType c(p.GetChromosomeSize(), true), z(c.size(), false);
    p.SetChromosome(c.begin(), c.end());
    p.SetChromosome(z.begin(), z.end());
    return c == z ? bitstr(c) : S("depends on the buffer");
}
template <class P> static void dec(P& p, const S& s) { ChromosomeType c = tobits(s); const ChromosomeType& k = c; p.SetFromChromosome(k.begin(), k.end()); }
static S randbits(size_t n) { S s; for(size_t i = 0; i < n; i++) s += (rng() & 1) ? '1' : '0'; return s; }
static long permille(double err, double prec)
{
    double e = std::fabs(err) / prec * 1000.0;
    if(!(e <= 1e6)) return 1000000;
    return (long)std::ceil(e - 1e-4);
}

// ------------------------------------------------------------------ codec
template <class P> static void bad_lengths(P& p, size_t size)
{
    for(int d = -1; d <= 1; d += 2)
    {
        if(d < 0 && size == 0) continue;
        S before = enc(p);
        bool refused = false;
        try { dec(p, randbits(size + d)); } catch(const std::exception&) { refused = true; }
        out.put(J("Bad").i("n", size + d).b("refused", refused).b("same", enc(p) == before));
        ChromosomeType buf(size + d, true);
        refused = false;
        try { p.SetChromosome(buf.begin(), buf.end()); } catch(const std::exception&) { refused = true; }
        out.put(J("Bad").i("n", size + d).b("refused", refused).b("same", buf == ChromosomeType(size + d, true)));
    }
}
static std::vector<S> strings(size_t n, size_t cap)
{
    std::vector<S> r;
    if(n < 12 && ((size_t)1 << n) <= cap)
        for(size_t v = 0; v < ((size_t)1 << n); v++) { S s; for(size_t i = 0; i < n; i++) s += (v >> i & 1) ? '1' : '0'; r.push_back(s); }
    else
    {
        r.push_back(S(n, '0')); r.push_back(S(n, '1'));
        for(size_t i = 0; i < n; i++) { S s(n, '0'); s[i] = '1'; r.push_back(s); }
        while(r.size() < cap) r.push_back(randbits(n));
    }
    return r;
}
static void int_range(int min, int max, size_t cap)
{
    IntParameter p(min, max);
    out.put(J("Range").str("kind", "int").b("ok", true).i("size", p.GetChromosomeSize()).str("min", tok(min)).str("max", tok(max)));
    std::vector<int> vals;
    long span = (long)max - min;
    if(span < (long)cap) for(long v = min; v <= max; v++) vals.push_back((int)v);
    else
    {
        long s[] = {0, 1, 2, span / 2, span / 2 + 1, span - 1, span};
        for(size_t i = 0; i < sizeof s / sizeof *s; i++) vals.push_back((int)(min + s[i]));
        for(long b = 1; b < span; b *= 2) { vals.push_back((int)(min + b)); vals.push_back((int)(min + b - 1)); }
        while(vals.size() < cap) vals.push_back((int)(min + (long)(rng() % (unsigned long)(span + 1))));
    }
    for(size_t i = 0; i < vals.size(); i++)
    {
        p.set_value(vals[i]);
        S b = enc(p);
        IntParameter q(min, max); dec(q, b);
        out.put(J("Set").str("v", tok(vals[i])).b("chk", p.CheckConstraints()).i("size", p.GetChromosomeSize()).str("bits", b)
            .str("back", tok(q.get_value())).b("backchk", q.CheckConstraints()).str("again", enc(q)).i("err", 0));
    }
    std::vector<S> bs = strings(p.GetChromosomeSize(), cap);
    for(size_t i = 0; i < bs.size(); i++)
    {
        dec(p, bs[i]);
        long v = p.get_value();
        out.put(J("Dec").str("bits", bs[i]).str("v", tok(p.get_value())).b("in", v >= min && v <= max)
            .b("chk", p.CheckConstraints()).i("size", p.GetChromosomeSize()).str("again", enc(p)));
    }
    p.set_value(max);
    bad_lengths(p, p.GetChromosomeSize());
}
static void real_range(double min, double max, double prec, size_t cap)
{
    bool ok = true;
    std::auto_ptr<DoubleParameter> p;
    try { p.reset(new DoubleParameter(min, min, max, prec)); } catch(const std::exception&) { ok = false; }
    if(!ok) { out.put(J("Range").str("kind", "real").b("ok", false)); return; }
    out.put(J("Range").str("kind", "real").b("ok", true).i("size", p->GetChromosomeSize()).str("min", tok(min)).str("max", tok(max)).str("prec", tok(prec)));
    std::vector<double> vals;
    vals.push_back(min); vals.push_back(max); vals.push_back((min + max) / 2);
    vals.push_back(std::nextafter(max, min)); vals.push_back(std::nextafter(min, max));
    double step = std::min(prec, max - min);
    for(int k = 1; k <= 9; k++) { vals.push_back(std::max(min, max - step * k / 4)); vals.push_back(std::min(max, min + step * k / 4)); }
    while(vals.size() < cap) vals.push_back(std::min(max, min + (max - min) * (rng() / 4294967296.0)));
    for(size_t i = 0; i < vals.size(); i++)
    {
        p->SetValue(vals[i]);
        S b = enc(*p);
        DoubleParameter q(max, min, max, prec); dec(q, b);
        // "its precision": the one declared to users, never coarser than the requested
        double pr = std::min(q.get_actual_precision(), prec);
        out.put(J("Set").str("v", tok(vals[i])).b("chk", p->CheckConstraints()).i("size", p->GetChromosomeSize()).str("bits", b)
            .str("back", tok(q.GetValue())).b("backchk", q.CheckConstraints()).str("again", enc(q))
            .i("err", std::max(permille(q.GetValue() - vals[i], pr), permille(p->GetValue() - vals[i], pr))));
    }
    std::vector<S> bs = strings(p->GetChromosomeSize(), cap);
    for(size_t i = 0; i < bs.size(); i++)
    {
        dec(*p, bs[i]);
        double v = p->GetValue();
        // the value, assigned to a fresh parameter, has to give the genes back
        S again = enc(*p);
        if(p->CheckConstraints()) { DoubleParameter q(min, min, max, prec); q.SetValue(v); if(enc(q) != again) again = "reassigned:" + enc(q); }
        out.put(J("Dec").str("bits", bs[i]).str("v", tok(v)).b("in", v >= min && v <= max)
            .b("chk", p->CheckConstraints()).i("size", p->GetChromosomeSize()).str("again", again));
    }
    p->SetValue(max);
    bad_lengths(*p, p->GetChromosomeSize());
}
static S vtok(const std::vector<double>& v) { S s; for(size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + tok(v[i]); return s; }
static void array_range(double min, double max, double prec, size_t n, size_t cap)
{
    DoubleParametersArray p(min, max, prec, n);
    out.put(J("Range").str("kind", "array").b("ok", true).i("size", p.GetChromosomeSize()).str("min", tok(min)).str("max", tok(max)));
    for(size_t i = 0; i < cap; i++)
    {
        std::vector<double> v(n);
        for(size_t k = 0; k < n; k++) switch(rnd(0, 4)) { case 0: v[k] = min; break; case 1: v[k] = max; break; default: v[k] = std::min(max, min + (max - min) * (rng() / 4294967296.0)); }
        p.SetValues(v);
        S b = enc(p);
        DoubleParametersArray q(min, max, prec, n); dec(q, b);
        long err = 0;
        std::vector<double> w = q.get_values();
        for(size_t k = 0; k < n; k++) err = std::max(err, permille(w[k] - v[k], std::min(q.get_actual_precision(), prec)));
        out.put(J("Set").str("v", vtok(v)).b("chk", p.CheckConstraints()).i("size", p.GetChromosomeSize()).str("bits", b)
            .str("back", vtok(w)).b("backchk", q.CheckConstraints()).str("again", enc(q)).i("err", err));
    }
    std::vector<S> bs = strings(p.GetChromosomeSize(), cap);
    for(size_t i = 0; i < bs.size(); i++)
    {
        dec(p, bs[i]);
        std::vector<double> w = p.get_values();
        bool in = true;
        for(size_t k = 0; k < n; k++) in = in && w[k] >= min && w[k] <= max;
        S again = enc(p);
        if(p.CheckConstraints()) { DoubleParametersArray q(min, max, prec, n); q.SetValues(w); if(enc(q) != again) again = "reassigned:" + enc(q); }
        out.put(J("Dec").str("bits", bs[i]).str("v", vtok(w)).b("in", in).b("chk", p.CheckConstraints()).i("size", p.GetChromosomeSize()).str("again", again));
    }
    bad_lengths(p, p.GetChromosomeSize());
}
static void codec(long rounds)
{
    for(int min = -3; min <= 3; min += 3) for(int s = 0; s <= 34; s++) int_range(min, min + s, 64);
    for(int k = 6; k <= 31; k++) for(int d = -1; d <= 1; d++)
    {
        long span = (1L << k) + d;
        if(span > INT_MAX) continue;
        int_range(0, (int)span, 60);
        int_range((int)(INT_MAX - span), INT_MAX, 60);
        if(k < 31) { int_range(-(int)span / 2, -(int)span / 2 + (int)span, 60); int_range(-INT_MAX, (int)(-INT_MAX + span), 60); }
    }
    int_range(INT_MIN, INT_MAX, 60); int_range(INT_MIN, 0, 60); int_range(INT_MIN, INT_MAX - 1, 60); int_range(-5, INT_MAX, 60);
    double r[][3] = {{0, 1, 0.25}, {0, 1, 1}, {0, 1, 0.5}, {0, 1, 0.3}, {-1, 1, 0.1}, {-3, 5, 0.125}, {-3, 5, 1}, {0.1, 0.7, 0.01},
        {-0.3, 0.3, 0.1}, {1, 2, 0.001}, {0, 1e-3, 1e-5}, {-100, 100, 0.1}, {-1e6, 1e6, 0.01}, {0, 1, 1e-9}, {0, 10, 5e-9},
        {0, 1, 2}, {2.5, 2.75, 0.01}, {-7.3, -1.1, 0.05}, {0, 3, 1}, {0, 5, 1}, {1e6, 1e6 + 1, 0.1}};
    for(size_t i = 0; i < sizeof r / sizeof *r; i++) real_range(r[i][0], r[i][1], r[i][2], 70);
    for(size_t n = 0; n <= 4; n++) { array_range(-1, 1, 0.25, n, 40); array_range(1, 2.2, 0.07, n, 40); }
    for(long i = 0; i < rounds; i++)
    {
        int a = (int)rnd(-1000, 1000);
        int_range(a, a + (int)rnd(0, 1 << rnd(0, 30)), 50);
        double mn = rnd(-10000, 10000) / (double)rnd(1, 1000);
        double w = rnd(1, 100000) / (double)rnd(1, 10000);
        real_range(mn, mn + w, w / rnd(1, 1 << rnd(1, 20)) * (rnd(0, 3) ? 1 : 1.37), 60);
        array_range(mn, mn + w, w / rnd(1, 1 << rnd(1, 10)), rnd(0, 9) ? rnd(1, 5) : rnd(6, 40), 20);
    }
}

// ------------------------------------------------------------------ store
struct Obj
{
    char kind;
    std::shared_ptr<IParameters> p;
    double min, max, prec;   // construction arguments
    size_t n;
};
typedef std::map<int, Obj> Store;
static Store st;
static bool in(double v, const Obj& o) { return v >= o.min && v <= o.max; }

static S obs(const IParameters* p, double min, double max, bool known)
{
    J j("o");
    if(const IntParameter* i = dynamic_cast<const IntParameter*>(p))
    {
        long v = i->get_value();
        j = J("I"); j.str("kind", "I").strs("val", {tok(i->get_value())}).b("in", v >= i->get_min_value() && v <= i->get_max_value());
        j.str("bounds", tok(i->get_min_value()) + " " + tok(i->get_max_value()));
    }
    else if(const DoubleParameter* d = dynamic_cast<const DoubleParameter*>(p))
    {
        double v = d->GetValue();
        j = J("D"); j.str("kind", "D").strs("val", {tok(v)}).b("in", v >= d->get_min_value() && v <= d->get_max_value());
        j.str("bounds", tok(d->get_min_value()) + " " + tok(d->get_max_value()) + " " + tok(d->get_actual_precision()));
    }
    else if(const DoubleParametersArray* a = dynamic_cast<const DoubleParametersArray*>(p))
    {
        std::vector<double> v = a->get_values();
        std::vector<S> t; bool ok = true;
        for(size_t k = 0; k < v.size(); k++) { t.push_back(tok(v[k])); ok = ok && v[k] >= a->get_min_value() && v[k] <= a->get_max_value(); }
        j = J("A"); j.str("kind", "A").strs("val", t).b("in", ok);
        j.str("bounds", tok(a->get_min_value()) + " " + tok(a->get_max_value()) + " " + tok(a->get_actual_precision()));
    }
    else if(const ContinuousParametersArray* c = dynamic_cast<const ContinuousParametersArray*>(p))
    {
        std::vector<double> v = c->GetValues(); std::vector<S> t;
        for(size_t k = 0; k < v.size(); k++) t.push_back(tok(v[k]));
        j = J("V"); j.str("kind", "V").strs("val", t).b("chk", c->CheckConstraints());
        return j.done();
    }
    const IDiscreteParameters* d = dynamic_cast<const IDiscreteParameters*>(p);
    if(const CompositeDiscreteParameters* c = dynamic_cast<const CompositeDiscreteParameters*>(p))
    {
        S used; bool ready = true;
        try { c->GetNumberOfParameters(); } catch(const std::exception&) { ready = false; }
        if(!ready)
        {
            ChromosomeType b(3), z;
            try { c->CheckConstraints(); used += "CheckConstraints "; } catch(const std::exception&) {}
            try { c->GetChromosomeSize(); used += "GetChromosomeSize "; } catch(const std::exception&) {}
            try { c->SetChromosome(b.begin(), b.end()); used += "SetChromosome "; } catch(const std::exception&) {}
            try { c->SetChromosome(z.begin(), z.end()); used += "SetChromosome0 "; } catch(const std::exception&) {}
            try { const_cast<CompositeDiscreteParameters*>(c)->SetFromChromosome(b.begin(), b.end()); used += "SetFromChromosome "; } catch(const std::exception&) {}
            try { const_cast<CompositeDiscreteParameters*>(c)->SetFromChromosome(z.begin(), z.end()); used += "SetFromChromosome0 "; } catch(const std::exception&) {}
            try { c->GetParameter(0); used += "GetParameter "; } catch(const std::exception&) {}
            try { delete c->Clone(); used += "Clone "; } catch(const std::exception&) {}
            return J("U").str("kind", "U").str("used", used).done();
        }
        j = J("C"); j.str("kind", "C").i("n", c->GetNumberOfParameters());
        S parts = "[";
        for(size_t k = 0; k < c->GetNumberOfParameters(); k++) parts += (k ? "," : "") + obs(c->GetParameter(k).get(), 0, 0, false);
        j.raw("parts", parts + "]");
        bool beyond = false;
        try { c->GetParameter(c->GetNumberOfParameters()); } catch(const std::exception&) { beyond = true; }
        j.b("beyond", beyond);
    }
    j.b("chk", d->CheckConstraints()).i("size", d->GetChromosomeSize());
    S e;
    try { e = enc(*d); } catch(const std::exception& x) { e = S("error ") + x.what(); }
    j.str("bits", e);
    return j.done();
}
static S all()
{
    S s = "[";
    for(Store::iterator it = st.begin(); it != st.end(); ++it)
    {
        S o = obs(it->second.p.get(), 0, 0, false);
        s += S(s.size() > 1 ? "," : "") + "{\"id\":" + std::to_string(it->first) + ",\"o\":" + o + "}";
    }
    return s + "]";
}
static int next_id;
static double pick(const Obj& o, bool* far)
{
    double w = o.max - o.min;
    *far = false;
    switch(rnd(0, 9))
    {
    case 0: return o.min;
    case 1: return o.max;
    case 2: *far = true; return o.max + w * rnd(1, 5) + 2 * o.prec;
    case 3: *far = true; return o.min - w * rnd(1, 5) - 2 * o.prec;
    case 4: return std::nextafter(o.max, 1e300);
    case 5: return std::nextafter(o.min, -1e300);
    case 6: *far = true; return o.max + 1.01 * o.prec;
    default: return std::min(o.max, o.min + w * (rng() / 4294967296.0));
    }
}
static int pick_int(const Obj& o)
{
    int mn = (int)o.min, mx = (int)o.max;
    switch(rnd(0, 6))
    {
    case 0: return mn;
    case 1: return mx;
    case 2: return mx + (int)rnd(1, 20);
    case 3: return mn - (int)rnd(1, 20);
    default: return mx < mn ? mn : (int)rnd(mn, mx);
    }
}
static void make_bounds(Obj& o)
{
    static const double mins[] = {0, -1, 0.1, -3, 1, 5};
    static const double ws[] = {1, 2, 0.6, 8, 3};
    static const double ps[] = {0.25, 0.1, 1, 0.07};
    if(o.kind == 'I') { o.min = rnd(-4, 4); o.max = o.min + rnd(0, 9); o.prec = 0; }
    else { o.min = mins[rnd(0, 5)]; o.max = o.min + ws[rnd(0, 4)]; o.prec = ps[rnd(0, 3)]; }
}
static S new_kinds = "IDAVC";
static void do_new()
{
    Obj o; o.kind = new_kinds[rnd(0, new_kinds.size() - 1)]; o.n = 0;
    int id = ++next_id;
    make_bounds(o);
    J j("New");
    bool ok = true, valid = true; std::vector<S> want; long err = 0;
    S kind(1, o.kind);
    try
    {
        if(o.kind == 'I')
        {
            int v = rnd(0, 2) ? pick_int(o) : (int)o.min;
            if(v == (int)o.min && rnd(0, 1)) o.p.reset(new IntParameter((int)o.min, (int)o.max));
            else o.p.reset(new IntParameter(v, (int)o.min, (int)o.max));
            want.push_back(tok(v));
        }
        else if(o.kind == 'D')
        {
            bool far; double v = pick(o, &far);
            double mx = o.max;
            if(rnd(0, 9) == 0) { mx = o.min - rnd(0, 2); }
            double pr = o.prec;
            if(rnd(0, 9) == 0) { pr = -pr; }
            valid = v >= o.min && v <= mx && mx > o.min && pr > 0;
            o.max = mx;
            want.push_back(tok(v));
            DoubleParameter* d = new DoubleParameter(v, o.min, mx, pr);
            o.p.reset(d);
            err = permille(d->GetValue() - v, std::min(pr, d->get_actual_precision()));
        }
        else if(o.kind == 'A') { o.n = rnd(0, 9) ? rnd(0, 3) : rnd(4, 30); o.p.reset(new DoubleParametersArray(o.min, o.max, o.prec, o.n)); }
        else if(o.kind == 'V')
        {
            o.n = rnd(0, 9) ? rnd(0, 3) : rnd(4, 30); std::vector<double> v(o.n);
            for(size_t k = 0; k < o.n; k++) { v[k] = rnd(-50, 50) / 7.0; want.push_back(tok(v[k])); }
            o.p.reset(new ContinuousParametersArray(v));
        }
        else { o.p.reset(new CompositeDiscreteParameters()); kind = "U"; }
    }
    catch(const std::exception&) { ok = false; }
    if(ok) st[id] = o;
    out.put(j.i("id", id).str("kind", kind).b("ok", ok).b("valid", valid).strs("want", want).i("err", err).raw("all", all()));
}
static int any(const S& kinds)
{
    std::vector<int> c;
    for(Store::iterator it = st.begin(); it != st.end(); ++it) if(kinds.find(it->second.kind) != S::npos) c.push_back(it->first);
    return c.empty() ? 0 : c[rnd(0, c.size() - 1)];
}
// assigns something to p; fills the event
static void assign(IParameters* p, const Obj& o, J& j)
{
    bool ok = true, inb = true, far = false; std::vector<S> want; long err = 0;
    try
    {
        if(IntParameter* i = dynamic_cast<IntParameter*>(p))
        {
            int v = pick_int(o); want.push_back(tok(v)); inb = v >= o.min && v <= o.max;
            i->set_value(v);
        }
        else if(DoubleParameter* d = dynamic_cast<DoubleParameter*>(p))
        {
            double v = pick(o, &far); want.push_back(tok(v)); inb = in(v, o);
            d->SetValue(v);
            if(inb) err = permille(d->GetValue() - v, std::min(o.prec, d->get_actual_precision()));
        }
        else if(DoubleParametersArray* a = dynamic_cast<DoubleParametersArray*>(p))
        {
            size_t n = o.n + (rnd(0, 5) == 0 ? rnd(0, 2) - 1 : 0);
            if(n == (size_t)-1) n = 0;
            std::vector<double> v(n);
            int outs = (int)rnd(-2, (long)n - 1);     // at most one outside, sometimes the last
            for(size_t k = 0; k < n; k++)
            {
                bool f; do v[k] = pick(o, &f); while((int)k != outs && !in(v[k], o));
                if(rnd(0, 60) == 0) v[k] = std::nan("");
                want.push_back(tok(v[k])); inb = inb && in(v[k], o);
            }
            a->SetValues(v);
        }
        else if(ContinuousParametersArray* c = dynamic_cast<ContinuousParametersArray*>(p))
        {
            size_t n = rnd(0, 3) ? o.n : rnd(0, 4);
            std::vector<double> v(n);
            for(size_t k = 0; k < n; k++) { v[k] = rnd(-50, 50) / 7.0; want.push_back(tok(v[k])); }
            c->SetValues(v);
        }
    }
    catch(const std::exception&) { ok = false; }
    j.b("ok", ok).b("inb", inb).b("far", far).strs("want", want).i("err", err);
}
static std::map<const void*, Obj> part_info; // construction data of composite components
static std::map<int, std::vector<Obj> > comp_parts;

static size_t most_parts = 3;
// the two encode and decode at the same time in two threads: each as if alone
static void both(int a, int b)
{
    IDiscreteParameters* x = dynamic_cast<IDiscreteParameters*>(st[a].p.get());
    IDiscreteParameters* y = dynamic_cast<IDiscreteParameters*>(st[b].p.get());
    S sx = enc(*x), sy = enc(*y);
    bool good[2] = {true, true};
    struct Loop { static void run(const IDiscreteParameters* p, S want, bool* good) { try { for(int k = 0; k < 400 && *good; k++) *good = enc(*p) == want; } catch(const std::exception&) { *good = false; } } };
    std::thread t(Loop::run, x, sx, &good[0]);
    Loop::run(y, sy, &good[1]);
    t.join();
    out.put(J("Both").i("a", a).i("b", b).b("ok", good[0] && good[1]).raw("all", all()));
}
static void step()
{
    int id, op = rnd(0, 99);
    if(op < 14 || st.empty())
    {
        if(st.size() >= 6) { id = any("IDAVCU"); st.erase(id); comp_parts.erase(id); out.put(J("Drop").i("id", id).raw("all", all())); return; }
        do_new(); return;
    }
    if(op < 44)
    {
        id = any("IDAV"); if(!id) return;
        J j("Set"); j.i("id", id); assign(st[id].p.get(), st[id], j);
        out.put(j.raw("all", all())); return;
    }
    if(op < 56)
    {
        id = any("C"); if(!id || !comp_parts.count(id)) return;
        CompositeDiscreteParameters* c = dynamic_cast<CompositeDiscreteParameters*>(st[id].p.get());
        std::vector<Obj>& ps = comp_parts[id];
        int at = rnd(0, ps.size());
        J j("SetPart"); j.i("id", id).i("at", at + 1);
        if(at == (int)ps.size())
        {
            bool ok = true;
            try { c->GetParameter(at); } catch(const std::exception&) { ok = false; }
            j.b("ok", ok);
        }
        else if(ps[at].kind == 'C') return;
        else assign(c->GetParameter(at).get(), ps[at], j);
        out.put(j.raw("all", all())); return;
    }
    if(op < 72)
    {
        id = any("IDAC"); if(!id) return;
        IDiscreteParameters* d = dynamic_cast<IDiscreteParameters*>(st[id].p.get());
        bool ok = true; size_t n = 2;
        try { n = d->GetChromosomeSize(); } catch(const std::exception&) {}
        if(rnd(0, 6) == 0) n += rnd(0, 1) ? 1 : (n ? -1 : 1);
        S b = randbits(n);
        if(rnd(0, 2))
        {
            if(rnd(0, 1)) b = S(n, '1');
            else if(n && rnd(0, 1))
            {   // zeros but for a window: the constraints of few parts are violated
                b = S(n, '0');
                for(size_t i = rng() % n, to = std::min(n, i + 1 + rng() % 8); i < to; i++) b[i] = '1';
            }
        }
        try { dec(*d, b); } catch(const std::exception&) { ok = false; }
        out.put(J("Dec").i("id", id).str("bits", b).b("ok", ok).raw("all", all())); return;
    }
    if(op < 75)
    {
        id = any("IDAC"); if(!id) return;
        IDiscreteParameters* d = dynamic_cast<IDiscreteParameters*>(st[id].p.get());
        size_t n = 2;
        try { n = d->GetChromosomeSize(); } catch(const std::exception&) {}
        n += rnd(1, 3);
        ChromosomeType buf(n, true); bool ok = true;
        try { d->SetChromosome(buf.begin(), buf.end()); } catch(const std::exception&) { ok = false; }
        out.put(J("BadEnc").i("id", id).b("ok", ok).b("untouched", buf == ChromosomeType(n, true)).raw("all", all())); return;
    }
    if(op < 86)
    {
        id = any("IDAVC"); if(!id || st.size() >= 7) return;
        Obj o = st[id]; int nid = ++next_id; bool ok = true, meta = true;
        try { o.p.reset(dynamic_cast<IParameters*>(st[id].p->Clone())); } catch(const std::exception&) { ok = false; }
        if(ok)
        {
            st[nid] = o;
            if(comp_parts.count(id)) comp_parts[nid] = comp_parts[id];
            if(o.kind != 'V' && o.kind != 'C')
            {
                IDiscreteParameters* a = dynamic_cast<IDiscreteParameters*>(st[id].p.get());
                IDiscreteParameters* b = dynamic_cast<IDiscreteParameters*>(o.p.get());
                meta = a->HasSameMetaParameters(b) && b->HasSameMetaParameters(a);
            }
        }
        out.put(J("Clone").i("id", id).i("new", nid).b("ok", ok).b("meta", meta).raw("all", all()));
        if(ok && o.kind != 'V' && o.kind != 'I' && rnd(0, 3) == 0)
        {
            // different values, so that a mix-up would show
            try { dec(*dynamic_cast<IDiscreteParameters*>(o.p.get()), S(dynamic_cast<IDiscreteParameters*>(o.p.get())->GetChromosomeSize(), '0')); } catch(const std::exception&) {}
            out.put(J("Dec").i("id", nid).str("bits", S(dynamic_cast<IDiscreteParameters*>(o.p.get())->GetChromosomeSize(), '0')).b("ok", true).raw("all", all()));
            both(id, nid);
        }
        return;
    }
    if(op < 90)
    {
        id = any("IDA"); int id2 = any("IDA"); if(!id || st[id].kind != st[id2].kind) return;
        const Obj& a = st[id]; const Obj& b = st[id2];
        IDiscreteParameters* x = dynamic_cast<IDiscreteParameters*>(a.p.get());
        IDiscreteParameters* y = dynamic_cast<IDiscreteParameters*>(b.p.get());
        bool same = a.min == b.min && a.max == b.max && a.n == b.n;
        if(same && a.prec != b.prec)     // different requests may give the same grid
        {
            if(a.kind == 'D') same = dynamic_cast<DoubleParameter*>(x)->get_actual_precision() == dynamic_cast<DoubleParameter*>(y)->get_actual_precision();
            if(a.kind == 'A') same = dynamic_cast<DoubleParametersArray*>(x)->get_actual_precision() == dynamic_cast<DoubleParametersArray*>(y)->get_actual_precision();
        }
        bool r = x->HasSameMetaParameters(y);
        out.put(J("Meta").i("id", id).i("other", id2).b("r", r).b("expected", same).raw("all", all())); return;
    }
    id = any("C"); if(!id) return;
    CompositeDiscreteParameters* c = dynamic_cast<CompositeDiscreteParameters*>(st[id].p.get());
    std::vector<IDiscreteParameters::shared_ptr> v; std::vector<int> from; std::vector<Obj> infos;
    int n = most_parts > 3 ? rnd(2, most_parts) : rnd(0, most_parts); bool sample = rnd(0, 2) == 0;
    for(int k = 0; k < n; k++)
    {
        int f = sample && k ? from[0] : any("IDAC");
        if(!f) { n = k; break; }
        if(st[f].kind == 'C' && !comp_parts.count(f)) { n = k; break; }
        struct Null { void operator()(void*) const {} };
        IDiscreteParameters* d = dynamic_cast<IDiscreteParameters*>(st[f].p.get());
        v.push_back(IDiscreteParameters::shared_ptr(d, Null())); from.push_back(f); infos.push_back(st[f]);
    }
    if(v.empty()) sample = false;
    bool ok = true;
    try { if(sample) c->Initialize(v[0], v.size()); else c->Initialize(v); } catch(const std::exception&) { ok = false; }
    if(ok) comp_parts[id] = infos;
    out.put(J("Init").i("id", id).seq("from", from).b("sample", sample).b("ok", ok).raw("all", all()));
}
static void store(long n)
{
    for(long h = 0; h < n; h++)
    {
        st.clear(); comp_parts.clear(); next_id = 0;
        out.put(J("Reset"));
        most_parts = 3;
        if(h % 2) // mostly composites
        {
            most_parts = h % 12 == 3 ? 24 : 5;
            new_kinds = "IDA"; for(int k = rnd(2, 4); k > 0; k--) do_new();
            new_kinds = "C"; do_new(); do_new();
        }
        new_kinds = "IDAVC";
        for(int k = 0; k < 40; k++) step();
    }
}

// ------------------------------------------------------------------ guards
struct Sized : public ConstChromosomeSizeParemeters
{
    void SetChromosome(ChromosomeType::iterator, ChromosomeType::iterator) const {}
    void SetFromChromosome(ChromosomeType::const_iterator, ChromosomeType::const_iterator) {}
    bool CheckConstraints() const { return true; }
    Sized* Clone() const { Sized* s = new Sized(); s->CopyState(this); return s; }
    bool HasSameMetaParameters(const IDiscreteParameters*) const { return true; }
    void set(size_t n) { SetConstChromosomeSize(n); }
    void check(size_t n) const { CheckForConstChromosomeSize(n); }
};
struct Flip : public IMutator
{
    Flip() {}
    virtual void MutateChromosome(ChromosomeType* c) { if(!c->empty()) (*c)[0] = !(*c)[0]; }
    virtual void ApplyNewMutationContext(const MutationContext&) {}
};
static S ind_state(const Individual& g)
{
    const IntParameter* p = dynamic_cast<const IntParameter*>(g.GetParametersAccordingToChromosome());
    S s = bitstr(g.GetChromosome()) + "|" + tok(p->get_value()) + "|";
    return s + (g.HasFitness() ? tok(g.get_fitness()) : S("-"));
}
static void guard(long n)
{
    for(long h = 0; h < n; h++)
    {
        out.put(J("Reset"));
        std::map<int, std::shared_ptr<InitializationChecker> > ks;
        std::map<int, std::shared_ptr<Sized> > zs;
        std::map<int, std::shared_ptr<Individual> > gs;
        std::map<int, bool> ready;
        int id = 0;
        for(int k = 0; k < 40; k++)
        {
            int op = rnd(0, 9);
            if(op == 0 || id == 0)
            {
                int kind = rnd(0, 2); id++;
                if(kind == 0) ks[id].reset(new InitializationChecker());
                else if(kind == 1) zs[id].reset(new Sized());
                else gs[id].reset(new Individual());
                ready[id] = false;
                out.put(J("New").i("id", id)); continue;
            }
            int i = rnd(1, id); bool ok = true; S v, what;
            if(op == 1)
            {
                id++;
                if(ks.count(i)) ks[id].reset(new InitializationChecker(*ks[i]));
                else if(zs.count(i)) zs[id].reset(zs[i]->Clone());
                else if(rnd(0, 1)) gs[id].reset(new Individual(*gs[i]));
                else { gs[id].reset(new Individual()); *gs[id] = *gs[i]; }
                ready[id] = ready[i];
                out.put(J("Copy").i("id", i).i("new", id)); continue;
            }
            if(op <= 4)
            {
                if(ks.count(i)) { v = "set"; try { ks[i]->SetInitialized(); } catch(const std::exception&) { ok = false; } }
                else if(zs.count(i)) { int s = rnd(0, 5); v = tok(s); try { zs[i]->set(s); } catch(const std::exception&) { ok = false; } }
                else
                {
                    int mx = rnd(1, 9); IntParameter p((int)rnd(0, mx), 0, mx);
                    v = enc(p) + "|" + tok(p.get_value()) + "|-";
                    try { gs[i]->Initialize(&p); } catch(const std::exception&) { ok = false; }
                }
                if(ok) ready[i] = true;
                out.put(J("Set").i("id", i).str("v", v).b("ok", ok)); continue;
            }
            if(ks.count(i)) { v = "set"; what = "check"; try { ks[i]->InitializationCheck(); } catch(const std::exception&) { ok = false; } }
            else if(zs.count(i))
            {
                what = "size";
                try { v = tok((int)zs[i]->GetChromosomeSize()); zs[i]->check(zs[i]->GetChromosomeSize()); } catch(const std::exception&) { ok = false; }
                bool bad = true;
                try { zs[i]->check(7); } catch(const std::exception&) { bad = false; }
                if(bad) v = "accepted a wrong size";
            }
            else if(!ready[i] || op <= 6)
            {
                int m = rnd(0, 7);
                if(ready[i] && m >= 3) m %= 3;
                IMutator::shared_ptr flip(new Flip());
                std::ostringstream os; std::istringstream is("Chromosome: 01 Fitness: 3\n");
                try
                {
                    switch(m)
                    {
                    case 0: gs[i]->GetChromosome(); break;
                    case 1: gs[i]->GetParametersAccordingToChromosome(); break;
                    case 2: gs[i]->IsValid(); break;
                    case 3: gs[i]->SetRandomChromosome(); break;
                    case 4: gs[i]->Mutate(flip); break;
                    case 5: { Individual o; gs[i]->Crossover(&o); break; }
                    case 6: os << *gs[i]; break;
                    default: is >> *gs[i];
                    }
                    v = ind_state(*gs[i]);
                }
                catch(const std::exception&) { ok = false; }
                what = "individual " + tok(m);
            }
            else if(op == 7)
            {
                double f = rnd(0, 9);
                gs[i]->set_fitness(f);
                out.put(J("Mod").i("id", i).str("v", ind_state(*gs[i]))); continue;
            }
            else
            {
                int o = 0;
                for(std::map<int, bool>::iterator it = ready.begin(); it != ready.end(); ++it) if(!it->second && gs.count(it->first)) o = it->first;
                if(!o) continue;
                bool swap = rnd(0, 1);
                try { if(swap) gs[o]->Crossover(gs[i].get()); else gs[i]->Crossover(gs[o].get()); } catch(const std::exception&) { ok = false; }
                out.put(J("Use2").i("id", i).i("other", o).b("ok", ok));
                // the ready one must not have changed
                out.put(J("Use").i("id", i).str("what", "after").b("ok", true).str("v", ind_state(*gs[i])));
                continue;
            }
            out.put(J("Use").i("id", i).str("what", what).b("ok", ok).str("v", v));
        }
    }
}

int main(int argc, char** argv)
{
    out.open(argv[1]);
    S mode = argv[2];
    rng.seed(atol(argv[4]));
    srand(atol(argv[4]));
    if(mode == "codec") codec(atol(argv[3]));
    else if(mode == "store") store(atol(argv[3]));
    else guard(atol(argv[3]));
    out.close();
    return 0;
}
