// Minimal ndjson event writer shared by the harnesses.
#ifndef VERIF_TRACE_H
#define VERIF_TRACE_H
#include <cstdio>
#include <cstdlib>
#include <set>
#include <sstream>
#include <string>
#include <vector>

struct J // one JSON object, built field by field
{
    std::string s;
    J(const char* e) { s = std::string("{\"e\":\"") + e + "\""; }
    static std::string esc(const std::string& v)
    {
        std::string r;
        for(size_t i = 0; i < v.size(); i++)
        {
            char c = v[i];
            if(c == '"' || c == '\\') { r += '\\'; r += c; }
            else if((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }
    J& i(const char* k, long v) { std::ostringstream o; o << ",\"" << k << "\":" << v; s += o.str(); return *this; }
    J& b(const char* k, bool v) { s += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
    J& str(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":\"" + esc(v) + "\""; return *this; }
    template <class V> J& seq(const char* k, const V& v)
    {
        std::ostringstream o; o << ",\"" << k << "\":[";
        bool first = true;
        for(typename V::const_iterator it = v.begin(); it != v.end(); ++it) { if(!first) o << ","; o << (long)*it; first = false; }
        o << "]"; s += o.str(); return *this;
    }
    J& strs(const char* k, const std::vector<std::string>& v)
    {
        s += std::string(",\"") + k + "\":[";
        for(size_t n = 0; n < v.size(); n++) { if(n) s += ","; s += "\"" + esc(v[n]) + "\""; }
        s += "]"; return *this;
    }
    J& raw(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":" + v; return *this; }
    std::string done() const { return s + "}"; }
};

struct Out
{
    FILE* f;
    Out() : f(0) {}
    void open(const char* p) { f = fopen(p, "w"); if(!f) { perror(p); exit(77); } }
    void put(const J& j) { fputs((j.done() + "\n").c_str(), f); }
    void line(const std::string& l) { fputs((l + "\n").c_str(), f); }
    void flush() { fflush(f); }
    void close() { fclose(f); f = 0; }
};
#endif
