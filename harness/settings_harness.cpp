// usage: settings_harness TRACE N SEED
#include <k52/common/settings_manager.h>
#include <boost/shared_ptr.hpp>
#include "trace.h"
#include <cmath>
#include <fstream>
#include <random>
#include <unistd.h>
typedef boost::property_tree::ptree T;
typedef std::vector<std::string> Path;
static Out out;
static std::mt19937 rng;
static long rnd(long a, long b) { return a + (long)(rng() % (unsigned long)(b - a + 1)); }
static std::string pick(const std::vector<std::string>& v) { return v[rnd(0, v.size() - 1)]; }
static const std::vector<std::string> NAMES = {"a", "b", "cc", "a-b", "x_1"};
static const std::vector<std::string> TEXTS = {"0", "1", "5", "42", "-3", "2000", " 7", "1.5", "-0.5", "1e2", "true", "false", "", "text", "two words", "x=y", "--a=b", "a.b", "<&>"};
static Path any_path() { Path p; for(int n = (int)(rnd(0, 3) ? rnd(1, 2) : rnd(1, 4)); n > 0; n--) p.push_back(pick(NAMES)); return p; }
static std::string dotted(const Path& p) { std::string s; for(size_t i = 0; i < p.size(); i++) s += (i ? "." : "") + p[i]; return s; }
static std::string json_path(const Path& p) { std::string s = "["; for(size_t i = 0; i < p.size(); i++) s += (i ? ",\"" : "\"") + J::esc(p[i]) + "\""; return s + "]"; }
static std::string json_set(const Path& p, const std::string& v) { return "{\"p\":" + json_path(p) + ",\"v\":\"" + J::esc(v) + "\"}"; }
static std::string json_list(const std::vector<std::string>& v) { std::string s = "["; for(size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }

// a value whose conversion to text fails, one way or another
struct Bad { int how; };
std::ostream& operator<<(std::ostream& o, const Bad& b)
{
    if(b.how == 0) throw std::runtime_error("no");
    o << "part";
    o.setstate(std::ios::failbit);
    return o;
}
std::istream& operator>>(std::istream& i, Bad&) { i.setstate(std::ios::failbit); return i; }

// what derived classes are given, where it is there
class S : public k52::SettingsManager
{
public:
    S(int n, const char* a[]) : k52::SettingsManager(n, a) {}
    S(const std::string& f) : k52::SettingsManager(f) {}
    template <class X> static auto args(X& x, int n, const char** a, int) -> decltype(x.ParseCommandLine(n, a), bool()) { x.ParseCommandLine(n, a); return true; }
    template <class X> static bool args(X&, int, const char**, long) { return false; }
    template <class X> static auto file(X& x, const std::string& f, int) -> decltype(x.ParseXmlConfigFile(f), bool()) { x.ParseXmlConfigFile(f); return true; }
    template <class X> static bool file(X&, const std::string&, long) { return false; }
    static T merge(const T& a, const T& b) { return Merge(a, b); }
};

struct Args
{
    std::vector<std::string> text, sets;
    std::vector<const char*> ptr;
    Args()
    {
        for(int n = (int)rnd(0, 5); n > 0; n--)
        {
            Path p = any_path();
            std::string v = pick(TEXTS);
            switch(rnd(0, 7))
            {
            case 0: text.push_back("--" + dotted(p)); sets.push_back(json_set(p, dotted(p))); break;
            case 1: { static const std::vector<std::string> plain = {"", "-", "-a=1", "a=1", "=", "program", "--", "--=5", "- -a=5", " --a=5", "a--b=1", "/x/--y=2"}; text.push_back(pick(plain)); break; }
            default: text.push_back("--" + dotted(p) + "=" + v); sets.push_back(json_set(p, v));
            }
        }
        for(size_t i = 0; i < text.size(); i++) ptr.push_back(text[i].c_str());
        ptr.push_back(0);
    }
};
static std::string xml_text(const std::string& v)
{
    std::string r;
    for(size_t i = 0; i < v.size(); i++) r += v[i] == '<' ? "&lt;" : v[i] == '&' ? "&amp;" : v[i] == '>' ? "&gt;" : std::string(1, v[i]);
    return r;
}
static void grow(T& t, int depth, bool dots)
{
    for(size_t i = 0; i < NAMES.size(); i++)
        if(rnd(0, 2) == 0)
        {
            std::string name = dots && rnd(0, 4) == 0 ? NAMES[i] + "." + pick(NAMES) : NAMES[i];
            T k(rnd(0, 2) ? pick(TEXTS) : std::string());
            if(depth > 1) grow(k, depth - 1, dots);
            if(t.find(name) == t.not_found()) t.push_back(std::make_pair(name, k));
        }
}
static void flat(const T& t, Path p, std::vector<std::string>& r)
{
    for(T::const_iterator i = t.begin(); i != t.end(); ++i)
    {
        Path q = p; q.push_back(i->first);
        r.push_back(json_set(q, i->second.data()));
        flat(i->second, q, r);
    }
}
static std::string xml(const T& t)
{
    std::string s;
    for(T::const_iterator i = t.begin(); i != t.end(); ++i) s += "<" + i->first + ">" + xml_text(i->second.data()) + xml(i->second) + "</" + i->first + ">";
    return s;
}
struct File
{
    std::string name; bool good; std::vector<std::string> sets;
    File()
    {
        name = "settings.xml";
        unlink(name.c_str());
        int kind = (int)rnd(0, 5);
        good = kind > 1;
        if(kind == 0) return; // no such file
        T t, root;
        T k(rnd(0, 1) ? pick(TEXTS) : std::string());
        grow(k, 2, false);
        t.push_back(std::make_pair(pick(NAMES), k));
        flat(t, Path(), sets);
        std::string s = xml(t);
        if(kind == 1) s = rnd(0, 1) ? s.substr(0, s.size() - 1 - rnd(0, 2)) : "<a x=1>5</a>";
        std::ofstream(name.c_str()) << "<?xml version=\"1.0\"?>\n" << s;
    }
};
static std::string key(const Path& p) { return json_path(p); }
template <class V> static bool got(const S& s, const Path& p, bool hasdef, const V& def, V& v)
{
    try { v = hasdef ? s.get<V>(dotted(p), def) : s.get<V>(dotted(p)); return true; }
    catch(const std::runtime_error&) { return false; }
}
static void get(const S& s, const Path& p)
{
    bool hasdef = rnd(0, 1);
    J j("Get");
    j.raw("p", key(p)).b("hasdef", hasdef);
    bool ok;
    switch(rnd(0, 3))
    {
    case 0: { std::string d = pick(TEXTS), v; ok = got(s, p, hasdef, d, v); j.str("ty", "string").str("def", d).str("v", v); break; }
    case 1: { int d = (int)rnd(-5, 5), v = 0; ok = got(s, p, hasdef, d, v); j.str("ty", "int").i("def", d).i("v", v); break; }
    case 2: { bool d = rnd(0, 1), v = false; ok = got(s, p, hasdef, d, v); j.str("ty", "bool").i("def", d).i("v", v); break; }
    default: { double d = rnd(-5, 5) / 2., v = 0; ok = got(s, p, hasdef, d, v); j.str("ty", "halves").i("def", (long)(d * 2)).i("v", v * 2 == std::floor(v * 2) && std::fabs(v) < 1e6 ? (long)(v * 2) : 999999); }
    }
    out.put(j.str("got", ok ? "value" : "refused"));
}
static void put(S& s, const Path& p)
{
    J j("Put");
    j.raw("p", key(p));
    bool ok, good = true;
    std::string n = dotted(p), v;
    switch(rnd(0, 6))
    {
    case 0: { static const int is[] = {0, 1, 5, 42, -3, 2000}; int i = is[rnd(0, 5)]; ok = s.put(n, i); v = std::to_string(i); break; }
    case 1: { bool b = rnd(0, 1); ok = s.put(n, b); v = b ? "true" : "false"; break; }
    case 2: { double d = rnd(0, 1) ? 1.5 : -0.5; ok = s.put(n, d); v = d > 0 ? "1.5" : "-0.5"; break; }
    case 3: { Bad b = {(int)rnd(0, 1)}; ok = s.put(n, b); good = false; break; }
    case 4: { v = pick(TEXTS); ok = s.put(n, v.c_str()); break; }
    default: v = pick(TEXTS); ok = s.put(n, v);
    }
    out.put(j.b("ok", ok).b("good", good).str("v", v));
}
int main(int, char** argv)
{
    out.open(argv[1]);
    int n = atoi(argv[2]);
    rng.seed(atol(argv[3]));
    for(; n > 0; n--)
    {
        if(rnd(0, 3) == 0)
        {
            T a, b;
            bool dots = rnd(0, 1);
            grow(a, (int)rnd(1, 3), dots); grow(b, (int)rnd(1, 3), dots);
            std::vector<std::string> fa, fb, fm;
            flat(a, Path(), fa); flat(b, Path(), fb);
            bool ok = true;
            try { T m = S::merge(a, b); flat(m, Path(), fm); } catch(const std::exception&) { ok = false; }
            out.put(J("Merge").b("ok", ok).raw("a", json_list(fa)).raw("b", json_list(fb)).raw("m", json_list(fm)));
            continue;
        }
        boost::shared_ptr<S> s;
        if(rnd(0, 1))
        {
            Args a;
            s.reset(new S((int)a.text.size(), &a.ptr[0]));
            out.put(J("New").raw("sets", json_list(a.sets)).strs("args", a.text));
        }
        else
        {
            File f;
            bool ok = true;
            out.put(J("New").raw("sets", "[]"));
            try { s.reset(new S(f.name)); } catch(const std::runtime_error&) { ok = false; }
            out.put(J("File").b("ok", ok).b("good", f.good).raw("sets", json_list(f.sets)));
            if(!s) continue;
        }
        std::vector<Path> used;
        for(int k = (int)rnd(1, 15); k > 0; k--)
        {
            Path p = used.empty() || rnd(0, 3) == 0 ? any_path() : used[rnd(0, used.size() - 1)];
            if(rnd(0, 9) == 0 && p.size() > 1) p.pop_back();
            switch(rnd(0, 9))
            {
            case 0: { Args a; if(S::args(*s, (int)a.text.size(), &a.ptr[0], 0)) out.put(J("Args").raw("sets", json_list(a.sets)).strs("args", a.text)); break; }
            case 1:
                {
                    File f; bool ok = true, there = true;
                    try { there = S::file(*s, f.name, 0); } catch(const std::runtime_error&) { ok = false; }
                    if(there) out.put(J("File").b("ok", ok).b("good", f.good).raw("sets", json_list(f.sets)));
                    break;
                }
            case 2: case 3: case 4: put(*s, p); used.push_back(p); break;
            case 5: { S copy(*s); s.reset(new S(copy)); }
            default: get(*s, p);
            }
        }
        for(size_t i = 0; i < used.size(); i++) get(*s, used[i]);
    }
    unlink("settings.xml");
    out.close();
    return 0;
}
