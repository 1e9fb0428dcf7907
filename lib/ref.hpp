// Independent reference: CGP decoding, kernel definitions, evaluation over several number types
// (double, double with injected rounding noise, nested dual numbers). Does not include any dcgp header.
#ifndef REF_HPP
#define REF_HPP
#include "vh.hpp"

namespace ref
{
// ---------------------------------------------------------------- noisy double
inline std::uint64_t &noise_state()
{
    static thread_local std::uint64_t s = 0; // 0: no noise
    return s;
}
// the sign of a zero is noise as well: 1 all positive, 2 all negative, 3 random; zero_seen: some result was zero
inline int &zero_mode()
{
    static thread_local int m = 0;
    return m;
}
inline bool &zero_seen()
{
    static thread_local bool z = false;
    return z;
}
inline double nz(double x)
{
    auto &s = noise_state();
    if (s == 0u) return x;
    if (x == 0.) {
        zero_seen() = true;
        auto m = zero_mode();
        if (m == 3) {
            s += 0x9e3779b97f4a7c15ull;
            return vh::mix(s) & 1u ? 0. : -0.;
        }
        return m == 2 ? -0. : 0.;
    }
    s += 0x9e3779b97f4a7c15ull;
    double u = static_cast<double>(vh::mix(s) >> 11) * 0x1.0p-53; // [0,1)
    return x * (1. + (2. * u - 1.) * 1e-11);
}
struct N {
    double v;
    N(double x = 0.) : v(x) {}
};
inline N operator+(N a, N b) { return nz(a.v + b.v); }
inline N operator-(N a, N b) { return nz(a.v - b.v); }
inline N operator*(N a, N b) { return nz(a.v * b.v); }
inline N operator/(N a, N b) { return nz(a.v / b.v); }
inline N operator-(N a) { return N(-a.v); }
inline N exp(N a) { return nz(std::exp(a.v)); }
inline N log(N a) { return nz(std::log(a.v)); }
inline N sin(N a) { return nz(std::sin(a.v)); }
inline N cos(N a) { return nz(std::cos(a.v)); }
inline N tanh(N a) { return nz(std::tanh(a.v)); }
inline N sqrt(N a) { return nz(std::sqrt(a.v)); }
inline double val(N a) { return a.v; }

// ---------------------------------------------------------------- dual numbers (nestable)
template <typename B>
struct Dual {
    B a, b; // a + b eps
    Dual(double x = 0.) : a(x), b(0.) {}
    Dual(B x, B y) : a(x), b(y) {}
};
template <typename B> double val(const Dual<B> &x) { return val(x.a); }
template <typename B> Dual<B> operator+(Dual<B> x, Dual<B> y) { return {x.a + y.a, x.b + y.b}; }
template <typename B> Dual<B> operator-(Dual<B> x, Dual<B> y) { return {x.a - y.a, x.b - y.b}; }
template <typename B> Dual<B> operator-(Dual<B> x) { return {-x.a, -x.b}; }
template <typename B> Dual<B> operator*(Dual<B> x, Dual<B> y) { return {x.a * y.a, x.a * y.b + x.b * y.a}; }
template <typename B> Dual<B> operator/(Dual<B> x, Dual<B> y)
{
    B q = x.a / y.a;
    return {q, (x.b - q * y.b) / y.a};
}
template <typename B> Dual<B> exp(Dual<B> x) { B e = exp(x.a); return {e, e * x.b}; }
template <typename B> Dual<B> log(Dual<B> x) { return {log(x.a), x.b / x.a}; }
template <typename B> Dual<B> sin(Dual<B> x) { return {sin(x.a), cos(x.a) * x.b}; }
template <typename B> Dual<B> cos(Dual<B> x) { return {cos(x.a), -(sin(x.a) * x.b)}; }
template <typename B> Dual<B> tanh(Dual<B> x) { B t = tanh(x.a); return {t, (B(1.) - t * t) * x.b}; }
template <typename B> Dual<B> sqrt(Dual<B> x) { B s = sqrt(x.a); return {s, x.b / (B(2.) * s)}; }

// extraction of the mixed partial of depth d: all infinitesimals
inline double top(N x) { return x.v; }
template <typename B> double top(const Dual<B> &x) { return top(x.b); }
// seeding: variable with value v; bits[k] says whether infinitesimal k (outermost first) is attached
template <typename S> struct Seed;
template <> struct Seed<N> {
    static N make(double v, const bool *) { return N(v); }
};
template <typename B> struct Seed<Dual<B>> {
    static Dual<B> make(double v, const bool *bits) { return Dual<B>(Seed<B>::make(v, bits + 1), B(bits[0] ? 1. : 0.)); }
};

// ---------------------------------------------------------------- kernels
inline const std::vector<std::string> &all_kernels()
{
    static const std::vector<std::string> k{"sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU",
                                            "sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt", "sin_nu",
                                            "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
    return k;
}
inline const std::vector<std::string> &ann_kernels()
{
    static const std::vector<std::string> k{"sig", "tanh", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu",
                                            "gaussian_nu", "sum", "inv_sum", "abs", "step"};
    return k;
}
// distance of the evaluation from a non-smooth point (set by kernels during evaluation)
inline double &kink()
{
    static thread_local double k = std::numeric_limits<double>::infinity();
    return k;
}
inline double &biggest()
{
    static thread_local double k = 0.;
    return k;
}
// set when some node evaluates to a non-finite value
inline bool &nonfinite_node()
{
    static thread_local bool k = false;
    return k;
}
inline void near_kink(double d)
{
    d = std::abs(d);
    if (d < kink()) kink() = d;
}
template <typename S>
S total(const std::vector<S> &in)
{
    S s = in[0];
    for (std::size_t i = 1; i < in.size(); ++i) s = s + in[i];
    return s;
}
template <typename S>
S kernel(const std::string &k, const std::vector<S> &in)
{
    if (k == "sum") return total(in);
    if (k == "diff") {
        S s = in[0];
        for (std::size_t i = 1; i < in.size(); ++i) s = s - in[i];
        return s;
    }
    if (k == "mul") {
        S s = in[0];
        for (std::size_t i = 1; i < in.size(); ++i) s = s * in[i];
        return s;
    }
    if (k == "div") {
        S s = in[0];
        for (std::size_t i = 1; i < in.size(); ++i) s = s / in[i];
        return s;
    }
    if (k == "pdiv") {
        // first over the product of the others; 1 when that is not a finite number
        S d(1.);
        for (std::size_t i = 1; i < in.size(); ++i) d = d * in[i];
        S q = in[0] / d;
        if (std::isfinite(val(q))) return q;
        nonfinite_node() = true; // protected: differs from a division
        return S(1.);
    }
    if (k == "sig") return S(1.) / (S(1.) + exp(-total(in)));
    if (k == "tanh") return tanh(total(in));
    if (k == "ReLu") {
        S s = total(in);
        near_kink(val(s));
        return val(s) < 0. ? S(0.) : s;
    }
    if (k == "ELU") {
        S s = total(in);
        near_kink(val(s));
        return val(s) < 0. ? exp(s) - S(1.) : s;
    }
    if (k == "ISRU") {
        S s = total(in);
        return s / sqrt(S(1.) + s * s);
    }
    if (k == "sin") return sin(in[0]);
    if (k == "cos") return cos(in[0]);
    if (k == "log") return log(in[0]);
    if (k == "exp") return exp(in[0]);
    if (k == "gaussian") return exp(-(in[0] * in[0]));
    if (k == "sqrt") return sqrt(in[0]);
    if (k == "psqrt") {
        near_kink(val(in[0]));
        return val(in[0]) < 0. ? sqrt(-in[0]) : sqrt(in[0]);
    }
    if (k == "sin_nu") return sin(total(in));
    if (k == "cos_nu") return cos(total(in));
    if (k == "gaussian_nu") {
        S s = total(in);
        return exp(-(s * s));
    }
    if (k == "inv_sum") return -total(in);
    if (k == "abs") {
        S s = total(in);
        near_kink(val(s));
        return val(s) < 0. ? -s : s;
    }
    if (k == "step") {
        S s = total(in);
        near_kink(val(s));
        return val(s) < 0. ? S(0.) : S(1.);
    }
    throw std::logic_error("ref: unknown kernel " + k);
}

// ---------------------------------------------------------------- CGP program
struct Prog {
    unsigned n = 1, m = 1, r = 1, c = 1, l = 1; // n: inputs including constants
    std::vector<unsigned> arity;                // per column
    std::vector<std::string> f;
    std::vector<unsigned> x;
    std::size_t size() const
    {
        std::size_t s = m;
        for (auto a : arity) s += static_cast<std::size_t>(r) * (a + 1u);
        return s;
    }
    // position of the function gene of a node: walk the chromosome column by column, row by row
    std::size_t pos(unsigned node) const
    {
        std::size_t p = 0;
        unsigned id = n;
        for (unsigned col = 0; col < c; ++col, id += r) {
            if (node >= id && node - id < r) return p + static_cast<std::size_t>(node - id) * (1u + arity[col]);
            p += static_cast<std::size_t>(r) * (1u + arity[col]);
        }
        throw std::logic_error("ref: no such node");
    }
    unsigned col(unsigned node) const { return (node - n) / r; }
    unsigned ar(unsigned node) const { return arity[col(node)]; }
    unsigned out(unsigned i) const { return x[x.size() - m + i]; }
    std::vector<unsigned> lb() const
    {
        std::vector<unsigned> b;
        for (unsigned co = 0; co < c; ++co)
            for (unsigned row = 0; row < r; ++row) {
                b.push_back(0u);
                for (unsigned a = 0; a < arity[co]; ++a) b.push_back(co >= l ? n + r * (co - l) : 0u);
            }
        for (unsigned i = 0; i < m; ++i) b.push_back(c >= l ? n + r * (c - l) : 0u);
        return b;
    }
    std::vector<unsigned> ub() const
    {
        std::vector<unsigned> b;
        for (unsigned co = 0; co < c; ++co)
            for (unsigned row = 0; row < r; ++row) {
                b.push_back(static_cast<unsigned>(f.size()) - 1u);
                for (unsigned a = 0; a < arity[co]; ++a) b.push_back(n + r * co - 1u);
            }
        for (unsigned i = 0; i < m; ++i) b.push_back(n + r * c - 1u);
        return b;
    }
    // reachable nodes, ascending
    std::set<unsigned> active() const
    {
        std::set<unsigned> seen;
        std::vector<unsigned> stack;
        for (unsigned i = 0; i < m; ++i) stack.push_back(out(i));
        while (!stack.empty()) {
            auto id = stack.back();
            stack.pop_back();
            if (!seen.insert(id).second || id < n) continue;
            auto p = pos(id);
            for (unsigned a = 0; a < ar(id); ++a) stack.push_back(x[p + 1u + a]);
        }
        return seen;
    }
    std::set<unsigned> active_genes() const
    {
        std::set<unsigned> g;
        for (auto id : active())
            if (id >= n)
                for (unsigned a = 0; a <= ar(id); ++a) g.insert(static_cast<unsigned>(pos(id)) + a);
        for (unsigned i = 0; i < m; ++i) g.insert(static_cast<unsigned>(x.size() - m + i));
        return g;
    }
    // first weight index of a node (weights laid out like the connection genes)
    std::size_t wpos(unsigned node) const { return pos(node) - (node - n); }
    std::size_t n_weights() const
    {
        std::size_t s = 0;
        for (auto a : arity) s += static_cast<std::size_t>(r) * a;
        return s;
    }
    // w/b: optional weights and biases (as S), empty = none
    template <typename S>
    std::vector<S> eval(const std::vector<S> &in, const std::vector<S> &w = {}, const std::vector<S> &b = {}) const
    {
        std::map<unsigned, S> memo;
        std::vector<S> o;
        for (unsigned i = 0; i < m; ++i) o.push_back(node_val(out(i), in, w, b, memo));
        return o;
    }
    template <typename S>
    S node_val(unsigned id, const std::vector<S> &in, const std::vector<S> &w, const std::vector<S> &b,
               std::map<unsigned, S> &memo) const
    {
        if (id < n) return in[id];
        auto it = memo.find(id);
        if (it != memo.end()) return it->second;
        auto p = pos(id);
        std::vector<S> args;
        for (unsigned a = 0; a < ar(id); ++a) {
            S v = node_val(x[p + 1u + a], in, w, b, memo);
            if (!w.empty()) v = v * w[wpos(id) + a];
            args.push_back(v);
        }
        if (!b.empty()) args[0] = args[0] + b[id - n];
        S v = kernel(f[x[p]], args);
        double m_ = std::abs(val(v));
        if (!std::isfinite(m_)) nonfinite_node() = true;
        else if (m_ > biggest()) biggest() = m_;
        memo.emplace(id, v);
        return v;
    }
    // number of leaves and nodes of the formula when every output is written out as a tree
    double formula_size() const
    {
        std::map<unsigned, double> sz;
        double t = 0.;
        for (auto id : active()) { // ascending: connections come first
            double q = 1.;
            if (id >= n)
                for (unsigned a = 0; a < ar(id); ++a) q += sz[x[pos(id) + 1u + a]];
            sz[id] = q;
        }
        for (unsigned i = 0; i < m; ++i) t += sz[out(i)];
        return t;
    }
    std::string descr() const
    {
        std::ostringstream s;
        s << "n=" << n << " m=" << m << " r=" << r << " c=" << c << " l=" << l << " arity=" << vh::vs(arity) << " f=";
        for (auto &k : f) s << k << ",";
        s << " x=" << vh::vs(x);
        return s.str();
    }
};

// Result of a conditioned evaluation of a scalar: value and tolerance; `ok` false = do not judge.
struct Cond {
    double v = 0., tol = 0.;
    bool ok = false;
    bool nonfinite = false;
};
// f() must evaluate the scalar from scratch with N-based numbers, returning double
template <typename F>
Cond conditioned(F &&f, double max_rel = 1e-4)
{
    Cond c;
    noise_state() = 0;
    kink() = std::numeric_limits<double>::infinity();
    biggest() = 0.;
    c.v = f();
    double k = kink(), big = biggest();
    double spread = 0.;
    bool allnf = !std::isfinite(c.v), anynf = !std::isfinite(c.v);
    zero_seen() = false;
    for (unsigned t = 1; t <= (zero_seen() ? 7u : 3u); ++t) {
        zero_mode() = t < 3u ? static_cast<int>(t) : 3;
        noise_state() = 0x1234567ull * t + 1u;
        double v = f();
        if (!std::isfinite(v)) anynf = true;
        else {
            allnf = false;
            spread = std::max(spread, std::abs(v - c.v));
        }
    }
    noise_state() = 0;
    if (anynf) {
        c.nonfinite = allnf && big < 1e100;
        return c;
    }
    if (big > 1e120) return c;
    (void)k;
    c.tol = 30. * spread + 1e-12 * std::abs(c.v) + 1e-290;
    if (spread > max_rel * (std::abs(c.v) + 1e-3)) return c;
    c.ok = true;
    return c;
}
// vector version
template <typename F>
std::vector<Cond> conditioned_v(F &&f, double max_rel = 1e-4)
{
    noise_state() = 0;
    kink() = std::numeric_limits<double>::infinity();
    biggest() = 0.;
    std::vector<double> v0 = f();
    double big = biggest();
    std::vector<Cond> r(v0.size());
    std::vector<double> spread(v0.size(), 0.);
    std::vector<bool> allnf(v0.size()), anynf(v0.size());
    for (std::size_t i = 0; i < v0.size(); ++i) {
        r[i].v = v0[i];
        allnf[i] = anynf[i] = !std::isfinite(v0[i]);
    }
    zero_seen() = false;
    for (unsigned t = 1; t <= (zero_seen() ? 7u : 3u); ++t) {
        zero_mode() = t < 3u ? static_cast<int>(t) : 3;
        noise_state() = 0x1234567ull * t + 1u;
        auto v = f();
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (!std::isfinite(v[i])) anynf[i] = true;
            else {
                allnf[i] = false;
                spread[i] = std::max(spread[i], std::abs(v[i] - v0[i]));
            }
        }
    }
    noise_state() = 0;
    for (std::size_t i = 0; i < v0.size(); ++i) {
        if (anynf[i]) {
            r[i].nonfinite = allnf[i] && big < 1e100;
            continue;
        }
        if (big > 1e120) continue;
        r[i].tol = 30. * spread[i] + 1e-12 * std::abs(v0[i]) + 1e-290;
        r[i].ok = !(spread[i] > max_rel * (std::abs(v0[i]) + 1e-3));
    }
    return r;
}
// 1 agree, 0 disagree, -1 not judged
inline int judge(const Cond &c, double actual)
{
    if (c.ok) return std::abs(actual - c.v) <= c.tol ? 1 : 0;
    if (c.nonfinite) return std::isfinite(actual) ? 0 : 1;
    return -1;
}
} // namespace ref
#endif
