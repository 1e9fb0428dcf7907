// Common harness: deterministic case generation, verdict recording, coverage counters.
#ifndef VH_HPP
#define VH_HPP
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh
{
inline std::uint64_t mix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
    std::uint64_t u64()
    {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    // inclusive range
    unsigned u(unsigned lo, unsigned hi)
    {
        return lo + static_cast<unsigned>(u64() % (static_cast<std::uint64_t>(hi) - lo + 1u));
    }
    double unit()
    {
        return static_cast<double>(u64() >> 11) * 0x1.0p-53;
    }
    double real(double a, double b)
    {
        return a + (b - a) * unit();
    }
    bool coin(double p = 0.5)
    {
        return unit() < p;
    }
    template <typename V>
    auto &pick(V &v)
    {
        return v[u64() % v.size()];
    }
    template <typename V>
    void shuffle(V &v)
    {
        for (std::size_t i = v.size(); i > 1u; --i) std::swap(v[i - 1u], v[u64() % i]);
    }
};

struct State {
    std::uint64_t seed = 1;
    long cases = 100;
    long only = -1;
    long offset = 0;
    std::string out, variant = "plain", tier = "quick";
    long cur = -1;
    unsigned long long evaluations = 0, nontrivial = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, unsigned long long> counters;
    std::map<std::string, std::pair<unsigned long long, std::string>> viol; // key -> count, first detail
    std::vector<std::string> samples;
    std::mutex mx;
};
inline State &st()
{
    static State s;
    return s;
}
inline void count(const std::string &name, unsigned long long n = 1)
{
    std::lock_guard<std::mutex> l(st().mx);
    st().counters[name] += n;
}
inline void violation(const std::string &key, const std::string &detail)
{
    std::lock_guard<std::mutex> l(st().mx);
    auto &v = st().viol[key];
    if (v.first++ == 0u) {
        std::ostringstream ss;
        ss << "case " << st().cur << ": " << detail;
        v.second = ss.str();
        std::fprintf(stderr, "VH-VIOLATION key=%s %s\n", key.c_str(), v.second.c_str());
    }
}
// hash of a case descriptor
inline std::uint64_t hstr(const std::string &s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h);
}
// one evaluated case. `nontriv`: satisfies the check's rule.
inline void evaluated(const std::string &descr, bool nontriv)
{
    std::lock_guard<std::mutex> l(st().mx);
    ++st().evaluations;
    if (nontriv) {
        st().distinct.insert(hstr(descr));
        if (st().samples.size() < 4u || (st().samples.size() < 8u && st().distinct.size() % 97u == 0u))
            st().samples.push_back(descr.substr(0, 600));
    }
}
inline std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c > 0x7e) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += static_cast<char>(c);
    }
    return r;
}
inline void write_out()
{
    auto &s = st();
    std::ofstream o(s.out);
    o << "{\"evaluations\":" << s.evaluations << ",\"distinct\":[";
    bool f = true;
    for (auto h : s.distinct) {
        o << (f ? "" : ",") << h;
        f = false;
    }
    o << "],\"counters\":{";
    f = true;
    for (auto &c : s.counters) {
        o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second;
        f = false;
    }
    o << "},\"samples\":[";
    f = true;
    for (auto &x : s.samples) {
        o << (f ? "" : ",") << "\"" << jesc(x) << "\"";
        f = false;
    }
    o << "],\"violations\":[";
    f = true;
    for (auto &v : s.viol) {
        o << (f ? "" : ",") << "{\"key\":\"" << jesc(v.first) << "\",\"count\":" << v.second.first << ",\"detail\":\""
          << jesc(v.second.second) << "\"}";
        f = false;
    }
    o << "],\"done\":true}\n";
}
template <typename T>
std::string vs(const std::vector<T> &v)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << "[";
    for (std::size_t i = 0; i < v.size(); ++i) ss << (i ? "," : "") << v[i];
    ss << "]";
    return ss.str();
}
template <typename T>
std::string str(const T &x)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << x;
    return ss.str();
}
// bitwise equality of doubles, all NaN equal
inline bool same(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}
inline bool same(const std::vector<double> &a, const std::vector<double> &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
// close up to rounding (relative)
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b));
}
// discards what is printed on std::cout (restored before static destructors flush it)
struct Mute {
    std::ostringstream sink;
    std::streambuf *old;
    Mute() : old(std::cout.rdbuf(sink.rdbuf())) {}
    ~Mute() { std::cout.rdbuf(old); }
};
template <typename F>
int run(int argc, char **argv, F &&one_case)
{
    auto &s = st();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k(argv[i]), v(argv[i + 1]);
        if (k == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--cases") s.cases = std::atol(v.c_str());
        else if (k == "--only") s.only = std::atol(v.c_str());
        else if (k == "--offset") s.offset = std::atol(v.c_str());
        else if (k == "--out") s.out = v;
        else if (k == "--variant") s.variant = v;
        else if (k == "--tier") s.tier = v;
        else {
            std::fprintf(stderr, "bad arg %s\n", k.c_str());
            return 3;
        }
    }
    long lo = s.offset, hi = s.offset + s.cases;
    if (s.only >= 0) {
        lo = s.only;
        hi = lo + 1;
    }
    std::string prog = s.out.empty() ? "" : s.out + ".progress";
    for (long c = lo; c < hi; ++c) {
        s.cur = c;
        if (!prog.empty()) {
            // so that a crash or hang can be attributed to a case
            static std::FILE *pf = std::fopen(prog.c_str(), "w");
            if (pf) {
                std::rewind(pf);
                std::fprintf(pf, "%ld          \n", c);
                std::fflush(pf);
            }
        }
        Rng r(mix(s.seed * 1000003ull + 17u) ^ mix(static_cast<std::uint64_t>(c) + 0x5151ull));
        try {
            one_case(r, c);
        } catch (const std::exception &e) {
            violation("unexpected-exception", std::string("an exception escaped from a valid use: ") + e.what());
        } catch (...) {
            violation("unexpected-exception", "an unknown exception escaped from a valid use");
        }
    }
    if (!s.out.empty()) write_out();
    return 0;
}
} // namespace vh
#endif
