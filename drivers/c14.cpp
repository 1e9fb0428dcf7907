// C14: library kernels against their documented definitions; kernel sets against a model list.
#include "gen.hpp"
#include <audi/audi.hpp>
using namespace vh;
using audi::gdual_d;
using audi::gdual_v;
using V = std::vector<double>;
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();

static bool unary(const std::string &k)
{
    return k == "sin" || k == "cos" || k == "log" || k == "exp" || k == "gaussian" || k == "sqrt" || k == "psqrt";
}
// the functors of the public header, called without a kernel around them
template <typename T>
static bool functor(const std::string &k, const std::vector<T> &a, T &out)
{
#define F(n, f)                                                                                                        \
    if (k == n) {                                                                                                      \
        out = dcgp::f<T>(a);                                                                                           \
        return true;                                                                                                   \
    }
    F("sum", my_sum) F("diff", my_diff) F("mul", my_mul) F("div", my_div) F("pdiv", my_pdiv) F("sig", my_sig)
    F("tanh", my_tanh) F("ReLu", my_relu) F("ELU", my_elu) F("ISRU", my_isru) F("sin", my_sin) F("cos", my_cos)
    F("log", my_log) F("exp", my_exp) F("gaussian", my_gaussian) F("sqrt", my_sqrt) F("psqrt", my_psqrt)
    F("sin_nu", my_sin_nu) F("cos_nu", my_cos_nu) F("gaussian_nu", my_gaussian_nu) F("inv_sum", my_inv_sum)
    F("abs", my_abs) F("step", my_step)
#undef F
    return false;
}
static double value(Rng &r, int family)
{
    double s = r.coin() ? 1. : -1.;
    switch (family) {
        case 0: return gen::value(r);
        case 1: return s * std::pow(10., r.real(-3., 3.));
        case 2: return s * std::pow(10., r.real(-30., 30.));
        case 3: return s * std::ldexp(1., static_cast<int>(r.u(0, 40)) - 20);
        case 4: return static_cast<double>(static_cast<int>(r.u(0, 2000)) - 1000);
        default: return s * r.real(0., 1e-8);
    }
}
static V args(Rng &r, unsigned n, std::string &what, const std::string &k = "")
{
    V a(n);
    int f = static_cast<int>(r.u(0, 6));
    for (auto &x : a) x = value(r, f == 6 ? static_cast<int>(r.u(0, 5)) : f);
    what = "family " + str(f);
    if (n > 2 && r.coin(k == "div" || k == "pdiv" ? 0.3 : 0.02)) { // a long quotient of tiny and huge numbers that stays in range
        double from = (r.coin() ? 1. : -1.) * r.real(0., 280.), step = (from + r.real(-280., 280.)) / (n - 1u);
        for (auto &x : a) {
            double e = &x == a.data() ? from : step + r.real(-3., 3.);
            x = (r.coin() ? 1. : -1.) * std::pow(10., e);
        }
        what = "balanced quotient";
        return a;
    }
    // sums near a sign change or exactly zero
    if (n > 1 && r.coin(0.15)) {
        double t = 0.;
        for (auto &x : a) x = static_cast<double>(static_cast<int>(r.u(0, 64)) - 32) / 4.;
        for (unsigned i = 0; i + 1 < n; ++i) t += a[i];
        a.back() = -t + (r.coin() ? 0. : static_cast<double>(static_cast<int>(r.u(0, 2)) - 1) / 4.);
        what = "exact sum";
    } else if (r.coin(0.1)) {
        a[r.u(0, n - 1)] = r.coin() ? 0. : -0.;
        what += " with a zero";
    }
    return a;
}
// products and quotients in any order stay within range
static bool in_range(const std::string &k, const V &a)
{
    double lg = 0., mx = 0.;
    bool zero = false;
    for (double x : a) {
        if (x == 0.) zero = true;
        else lg += std::abs(std::log10(std::abs(x)));
        mx = std::max(mx, std::abs(x));
    }
    if (k == "div" && !zero) { // the quotients one after the other, whatever the size of the product of the divisors
        double q = std::log10(std::abs(a[0]));
        bool in = std::abs(q) < 290.;
        for (std::size_t i = 1; i < a.size(); ++i) q -= std::log10(std::abs(a[i])), in = in && std::abs(q) < 290. && std::abs(std::log10(std::abs(a[i]))) < 290.;
        return in;
    }
    if (k == "mul" || k == "div" || k == "pdiv") return lg < 290.;
    return mx < 1e100;
}
static ref::Cond truth(const std::string &k, const V &a)
{
    auto c = ref::conditioned([&] {
        std::vector<ref::N> in;
        for (double x : a) in.push_back(ref::N(x));
        return ref::kernel<ref::N>(k, in).v;
    });
    return c;
}
// exact discontinuities: only when the sum is exactly representable in any order
static bool exact_sum(const V &a)
{
    double t = 0.;
    for (double x : a) {
        if (x * 1024. != std::floor(x * 1024.) || std::abs(x) > 1e9) return false;
        t += std::abs(x);
    }
    return t < 1e9;
}

// ------------------------------------------------------------------ doubles
static void doubles(Rng &r)
{
    auto &ks = ref::all_kernels();
    const auto k = ks[r.u(0, static_cast<unsigned>(ks.size()) - 1)];
    unsigned n = r.u(1, 6);
    if (r.coin(0.05)) n = r.u(7, 40);
    std::string what;
    auto a = args(r, n, what, k);
    std::string d = k + " of " + vs(a) + " (" + what + ")";
    dcgp::kernel_set<double> set(std::vector<std::string>{k});
    auto ker = set()[0];
    const auto before = a;
    const double y = ker(a);
    if (a != before) violation("arguments modified", d);
    double z = 0.;
    if (!functor<double>(k, a, z) || !same(y, z)) violation("the functor and the kernel differ", d + " " + str(z) + " " + str(y));
    // the other way to call it
    double w = y;
    switch (n) {
        case 1: w = ker({a[0]}); break;
        case 2: w = ker({a[0], a[1]}); break;
        case 3: w = ker({a[0], a[1], a[2]}); break;
        case 4: w = ker({a[0], a[1], a[2], a[3]}); break;
        default: break;
    }
    if (!same(w, y)) violation("the call with a list differs from the one with a vector", d + " " + str(w) + " " + str(y));
    // other calls in between do not matter
    V other(r.u(1, 5));
    for (auto &x : other) x = gen::value(r);
    ker(other);
    if (!same(ker(a), y)) violation("the value depends on previous calls", d);
    if (unary(k) && n > 1) {
        auto b = a;
        for (unsigned i = 1; i < n; ++i) b[i] = r.coin(0.1) ? NaN : gen::value(r);
        if (!same(ker(b), y)) violation("a unary kernel uses more than its first argument", d + " and " + vs(b));
        count("unary kernels with changed extra arguments");
    }
    bool judged = false;
    if (in_range(k, a)) {
        if ((k == "step" || k == "ReLu" || k == "ELU" || k == "abs") && exact_sum(a)) {
            double t = 0.;
            for (double x : a) t += x;
            double want = k == "step" ? (t < 0. ? 0. : 1.) : k == "ReLu" ? (t < 0. ? 0. : t) : k == "abs" ? std::abs(t) : (t < 0. ? std::exp(t) - 1. : t);
            if (std::abs(y - want) > 1e-15 * std::abs(want) + 4e-16) violation("kernel value", d + " expected " + str(want) + " got " + str(y));
            judged = true;
            count(t == 0. ? "piecewise kernels at exactly zero" : "piecewise kernels on exact sums");
        } else if (k == "pdiv") {
            double prod = 1.;
            for (unsigned i = 1; i < n; ++i) prod *= a[i];
            if (prod == 0.) {
                if (y != 1.) violation("kernel value", d + " expected the protected value 1, got " + str(y));
                count("protected divisions by zero");
                judged = true;
            }
        }
        if (!judged) {
            auto c = truth(k, a);
            int v = ref::judge(c, y);
            if (v == 0) violation("kernel value", d + " expected " + str(c.v) + " +- " + str(c.tol) + " got " + str(y));
            if (v >= 0) judged = true;
            else count("ill conditioned, not judged");
        }
    }
    count("double " + k + " calls");
    evaluated("double " + d, judged);
}
// ------------------------------------------------------------------ runs of calls
// Calls that follow one another on arguments that differ in little (the sign of a zero, the order, one argument, one derivative):
// the result of each is the one the same call gives on its own.
static void runs_doubles(Rng &r)
{
    auto &names = ref::all_kernels();
    std::vector<std::string> ks{r.pick(names), r.pick(names)};
    auto set = dcgp::kernel_set<double>(ks)();
    const unsigned n = r.u(1, 4);
    std::string what;
    V a = args(r, n, what, ks[0]);
    for (auto &x : a)
        if (r.coin(0.4)) x = r.coin(0.7) ? 0. : 1.;
    std::vector<std::pair<unsigned, V>> calls;
    for (unsigned i = r.u(4, 12); i > 0u; --i) {
        const auto j = r.u(0, static_cast<unsigned>(a.size()) - 1u);
        switch (r.u(0, 5)) {
            case 0:
            case 1:
                for (auto &x : a)
                    if (x == 0. && r.coin()) x = -x;
                break;
            case 2: std::swap(a[0], a[j]); break;
            case 3: a[j] = r.coin() ? -a[j] : std::nextafter(a[j], 10.); break;
            case 4:
                if (n > 1u && r.coin(0.5) && a.size() == n) a.pop_back();
                else if (a.size() < n) a.push_back(r.coin() ? 0. : 1.);
                break;
            default: break;
        }
        calls.emplace_back(r.coin(0.8) ? 0u : 1u, a);
    }
    V got;
    for (auto &c : calls) got.push_back(set[c.first](c.second));
    for (std::size_t i = 0; i < calls.size(); ++i) {
        // alone: after a call on unrelated arguments of another length, on a new kernel
        auto one = dcgp::kernel_set<double>(std::vector<std::string>{ks[calls[i].first]})()[0];
        one(V(calls[i].second.size() + 1u, 0.3 + r.real(0., 1.)));
        const double y = one(calls[i].second);
        if (!same(y, got[i]))
            violation("the value depends on the calls before", ks[calls[i].first] + " of " + vs(calls[i].second) + " after " + (i ? vs(calls[i - 1u].second) : "nothing") + " gave " + str(got[i])
                                                                   + ", alone " + str(y));
        count("calls in runs compared");
    }
    evaluated("run " + ks[0] + " " + ks[1] + " " + vs(a), true);
}
// ------------------------------------------------------------------ special values
static void special(Rng &r)
{
    struct S {
        const char *k;
        V a;
        double want;
    };
    static const std::vector<S> tab = [] {
        std::vector<S> t;
        const double big = 1e200, M = std::numeric_limits<double>::max(), den = 4.9406564584124654e-324;
        for (double s : {1., -1.}) {
            const double i = s * INF;
            for (unsigned n = 1; n <= 4; ++n)
                for (unsigned p = 0; p < n; ++p) {
                    V a(n, 1.5);
                    a[p] = i;
                    t.push_back({"sum", a, i});
                    t.push_back({"inv_sum", a, -i});
                    t.push_back({"abs", a, INF});
                    t.push_back({"diff", a, p == 0u ? i : -i});
                    t.push_back({"mul", a, i});
                    t.push_back({"div", a, p == 0u ? i : 0.});
                    t.push_back({"pdiv", a, p == 0u ? 1. : 0.});
                    t.push_back({"sig", a, s > 0. ? 1. : 0.});
                    t.push_back({"tanh", a, s});
                    t.push_back({"ReLu", a, s > 0. ? INF : 0.});
                    t.push_back({"ELU", a, s > 0. ? INF : -1.});
                    t.push_back({"gaussian_nu", a, 0.});
                    t.push_back({"step", a, s > 0. ? 1. : 0.});
                    if (p == 0u) {
                        t.push_back({"exp", a, s > 0. ? INF : 0.});
                        t.push_back({"log", a, s > 0. ? INF : NaN});
                        t.push_back({"gaussian", a, 0.});
                        t.push_back({"sqrt", a, s > 0. ? INF : NaN});
                        t.push_back({"psqrt", a, INF});
                        t.push_back({"sin", a, NaN});
                        t.push_back({"cos", a, NaN});
                    }
                    t.push_back({"sin_nu", a, NaN});
                    t.push_back({"cos_nu", a, NaN});
                    // saturation
                    V b(n, 0.);
                    b[p] = s * 1000.;
                    t.push_back({"sig", b, s > 0. ? 1. : 0.});
                    t.push_back({"tanh", b, s});
                    t.push_back({"gaussian_nu", b, 0.});
                    t.push_back({"ELU", b, s > 0. ? 1000. : -1.});
                    t.push_back({"ReLu", b, s > 0. ? 1000. : 0.});
                    // the smallest numbers decide the branch
                    V q(n, 0.);
                    q[p] = s * den;
                    t.push_back({"step", q, s > 0. ? 1. : 0.});
                    t.push_back({"ReLu", q, s > 0. ? den : 0.});
                    t.push_back({"abs", q, den});
                    t.push_back({"sum", q, s * den});
                    t.push_back({"inv_sum", q, -s * den});
                    // zeros
                    V z(n, s * 0.);
                    t.push_back({"sum", z, 0.});
                    t.push_back({"diff", z, 0.});
                    t.push_back({"mul", z, 0.});
                    t.push_back({"inv_sum", z, 0.});
                    t.push_back({"abs", z, 0.});
                    t.push_back({"sig", z, 0.5});
                    t.push_back({"tanh", z, 0.});
                    t.push_back({"ReLu", z, 0.});
                    t.push_back({"ELU", z, 0.});
                    t.push_back({"ISRU", z, 0.});
                    t.push_back({"step", z, 1.});
                    t.push_back({"sin", z, 0.});
                    t.push_back({"cos", z, 1.});
                    t.push_back({"sin_nu", z, 0.});
                    t.push_back({"cos_nu", z, 1.});
                    t.push_back({"exp", z, 1.});
                    t.push_back({"gaussian", z, 1.});
                    t.push_back({"gaussian_nu", z, 1.});
                    t.push_back({"sqrt", z, 0.});
                    t.push_back({"psqrt", z, 0.});
                    t.push_back({"log", z, -INF});
                    t.push_back({"pdiv", z, n == 1u ? 0. : 1.});
                    t.push_back({"div", z, n == 1u ? 0. : NaN});
                    V y(n, 2.);
                    y[p] = s * 0.;
                    if (p > 0u) {
                        t.push_back({"pdiv", y, 1.});
                    } else {
                        t.push_back({"pdiv", y, 0.});
                        t.push_back({"div", y, 0.});
                    }
                    t.push_back({"mul", y, 0.});
                    // not a number
                    V m(n, 2.);
                    m[p] = NaN;
                    for (auto k : {"sum", "diff", "mul", "div", "inv_sum", "sig", "tanh", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "abs"})
                        t.push_back({k, m, NaN});
                    t.push_back({"pdiv", m, 1.});
                    if (p == 0u)
                        for (auto k : {"sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt"}) t.push_back({k, m, NaN});
                    // overflow
                    V o(n, 1.);
                    o[p] = s * big;
                    t.push_back({"gaussian_nu", o, 0.});
                    t.push_back({"sig", o, s > 0. ? 1. : 0.});
                    t.push_back({"tanh", o, s});
                    t.push_back({"sum", o, s * big});
                    t.push_back({"mul", o, s * big});
                    if (p == 0u) t.push_back({"pdiv", o, s * big});
                    if (p == 0u) t.push_back({"div", o, s * big});
                    if (p == 0u) t.push_back({"gaussian", o, 0.});
                    if (p == 0u) t.push_back({"exp", o, s > 0. ? INF : 0.});
                    if (p == 0u) t.push_back({"psqrt", o, 1e100});
                    V v(n, s * M);
                    if (n > 1u) {
                        t.push_back({"sum", v, i});
                        t.push_back({"inv_sum", v, -i});
                        t.push_back({"abs", v, INF});
                        t.push_back({"step", v, s > 0. ? 1. : 0.});
                        t.push_back({"ReLu", v, s > 0. ? INF : 0.});
                        t.push_back({"ELU", v, s > 0. ? INF : -1.});
                    }
                }
            // a quotient out of range is not finite
            t.push_back({"pdiv", {s * 1e200, 1e-200}, 1.});
            t.push_back({"pdiv", {1e200, s * 1e-200}, 1.});
            t.push_back({"pdiv", {s * 1e200, 1e-100, 1e-100}, 1.});
            t.push_back({"div", {s * 1e200, 1e-200}, i});
            t.push_back({"pdiv", {s * 3., 3.}, s});
            t.push_back({"pdiv", {6., s * 3., 2.}, s});
            t.push_back({"div", {6., s * 3., 2.}, s});
            t.push_back({"psqrt", {s * 4.}, 2.});
            t.push_back({"sqrt", {s * 4.}, s > 0. ? 2. : NaN});
            t.push_back({"log", {s}, s > 0. ? 0. : NaN});
        }
        return t;
    }();
    const auto &s = tab[r.u(0, static_cast<unsigned>(tab.size()) - 1)];
    auto ker = dcgp::kernel_set<double>(std::vector<std::string>{s.k})()[0];
    const double y = ker(s.a);
    std::string d = std::string(s.k) + " of " + vs(s.a);
    bool ok = std::isnan(s.want) ? std::isnan(y) : std::isinf(s.want) ? y == s.want : std::abs(y - s.want) <= 1e-14 * std::abs(s.want);
    if (!ok) violation("special value", d + " expected " + str(s.want) + " got " + str(y));
    count("special values");
    evaluated("special " + d, true);
}
// ------------------------------------------------------------------ generalized duals
static V coeffs(const gdual_d &g, std::size_t)
{
    return {g.constant_cf()};
}
static V coeffs(const gdual_v &g, std::size_t n)
{
    auto c = g.constant_cf();
    V v(c.begin(), c.end());
    if (v.size() == 1u) v.assign(n, v[0]);
    return v;
}
// the expansion along each seeded symbol: index of the argument -> derivative per point
template <typename T>
static V slope(const T &g, const std::string &sym, std::size_t n)
{
    if (g.get_order() == 0u) return V(n, 0.); // a constant
    auto c = g.get_derivative(std::unordered_map<std::string, unsigned>{{"d" + sym, 1u}});
    V v;
    if constexpr (std::is_same<T, gdual_d>::value) v = {c};
    else v.assign(c.begin(), c.end());
    if (v.size() == 1u) v.assign(n, v[0]);
    return v;
}
template <typename T>
static void duals(Rng &r, const char *type)
{
    auto ks = ref::all_kernels();
    const auto k = ks[r.u(0, static_cast<unsigned>(ks.size()) - 1)];
    const unsigned n = r.u(1, 6), np = std::is_same<T, gdual_d>::value ? 1u : r.u(1, 5), order = r.u(0, 2);
    std::vector<V> pts(n); // per argument, per point
    std::string what;
    std::vector<V> cols;
    for (unsigned j = 0; j < np; ++j) {
        auto a = args(r, n, what);
        cols.push_back(a);
        for (unsigned i = 0; i < n; ++i) pts[i].push_back(a[i]);
    }
    std::string d = std::string(type) + " " + k + " order " + str(order);
    for (auto &p : pts) d += " " + vs(p);
    std::vector<T> in;
    std::vector<bool> seeded(n, false);
    for (unsigned i = 0; i < n; ++i) {
        seeded[i] = order > 0u && r.coin(0.7);
        if constexpr (std::is_same<T, gdual_d>::value) in.push_back(seeded[i] ? T(pts[i][0], "x" + str(i), order) : T(pts[i][0]));
        else {
            auto p = pts[i];
            // a constant for all the points may be given once
            bool eq = std::all_of(p.begin(), p.end(), [&](double q) { return q == p[0]; });
            if (eq && r.coin()) p.resize(1);
            in.push_back(seeded[i] ? T(audi::vectorized<double>(p), "x" + str(i), order) : T(audi::vectorized<double>(p)));
        }
    }
    if (k == "pdiv") {
        bool threw = false;
        try {
            dcgp::kernel_set<T> s(std::vector<std::string>{k});
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        if (!threw) violation("protected division accepted for duals", d);
        try {
            dcgp::my_pdiv<T>(in);
            violation("protected division evaluated on duals", d);
        } catch (const std::invalid_argument &) {
        }
        count("protected divisions of duals rejected");
        evaluated(d, true);
        return;
    }
    auto ker = dcgp::kernel_set<T>(std::vector<std::string>{k})()[0];
    const T y = ker(in);
    T y2(0.);
    if (!functor<T>(k, in, y2) || !(coeffs(y, np) == coeffs(y2, np) || vs(coeffs(y, np)) == vs(coeffs(y2, np))))
        violation("the functor and the kernel differ", d);
    auto got = coeffs(y, np);
    if (got.size() != np) {
        violation("number of values", d + " has " + str(got.size()) + " values for " + str(np) + " points");
        return;
    }
    bool judged = false;
    for (unsigned j = 0; j < np; ++j) {
        const auto &a = cols[j];
        if (!in_range(k, a)) continue;
        if ((k == "sqrt" || k == "psqrt" || k == "log") && order > 0u && a[0] == 0.) continue; // singular expansion
        if ((k == "div") && std::any_of(a.begin() + 1, a.end(), [](double x) { return x == 0.; })) continue;
        bool piece = k == "step" || k == "ReLu" || k == "ELU" || k == "abs";
        if (piece && exact_sum(a)) {
            double t = 0.;
            for (double x : a) t += x;
            double want = k == "step" ? (t < 0. ? 0. : 1.) : k == "ReLu" ? (t < 0. ? 0. : t) : k == "abs" ? std::abs(t) : (t < 0. ? std::exp(t) - 1. : t);
            if (std::abs(got[j] - want) > 1e-15 * std::abs(want) + 4e-16) violation("kernel value on duals", d + " point " + str(j) + " expected " + str(want) + " got " + str(got[j]));
            judged = true;
        } else {
            auto c = truth(k, a);
            c.nonfinite = false;
            int v = ref::judge(c, got[j]);
            if (v == 0) violation("kernel value on duals", d + " point " + str(j) + " expected " + str(c.v) + " +- " + str(c.tol) + " got " + str(got[j]));
            if (v > 0) judged = true;
        }
    }
    // first order terms
    if (order > 0u) {
        using D = ref::Dual<ref::N>;
        for (unsigned i = 0; i < n; ++i) {
            if (!seeded[i]) continue;
            auto g = slope(y, "x" + str(i), np);
            if (g.size() != np) {
                violation("number of derivatives", d);
                continue;
            }
            for (unsigned j = 0; j < np; ++j) {
                if (!in_range(k, cols[j])) continue;
                ref::nonfinite_node() = false;
                auto c = ref::conditioned([&] {
                    std::vector<D> q;
                    for (unsigned h = 0; h < n; ++h) {
                        bool b[1] = {h == i};
                        q.push_back(ref::Seed<D>::make(cols[j][h], b));
                    }
                    return ref::top(ref::kernel<D>(k, q));
                });
                if (ref::kink() < 1e-6 * (1. + std::abs(cols[j][0]))) continue;
                c.nonfinite = false;
                c.tol += 1e-12;
                for (double x : cols[j]) if (x != 0. && (std::abs(x) < 1e-6 || std::abs(x) > 1e6)) c.ok = false; // expansions of extreme magnitude
                int v = ref::judge(c, g[j]);
                if (v == 0) violation("kernel derivative on duals", d + " point " + str(j) + " argument " + str(i) + " expected " + str(c.v) + " got " + str(g[j]));
                if (v > 0) count("first derivatives of kernels compared");
            }
        }
    }
    if constexpr (!std::is_same<T, gdual_d>::value) {
        if (np > 1u && (k == "step" || k == "ReLu" || k == "ELU" || k == "abs")) {
            int neg = 0;
            for (auto &a : cols) {
                double t = 0.;
                for (double x : a) t += x;
                neg += t < 0.;
            }
            if (neg && neg < static_cast<int>(np)) count("piecewise kernels on points of both signs");
        }
    }
    count(std::string(type) + " calls");
    evaluated(d, judged);
}
template <typename T>
static void runs_duals(Rng &r, const char *type)
{
    auto names = ref::all_kernels();
    names.erase(std::find(names.begin(), names.end(), "pdiv"));
    const auto k = r.pick(names);
    auto ker = dcgp::kernel_set<T>(std::vector<std::string>{k})()[0];
    const unsigned n = r.u(1, 3), np = std::is_same<T, gdual_d>::value ? 1u : r.u(1, 3);
    struct Arg {
        V p;
        unsigned order; // 0: a number
        std::string sym;
    };
    auto make = [&](const Arg &a) {
        if constexpr (std::is_same<T, gdual_d>::value) return a.order ? T(a.p[0], a.sym, a.order) : T(a.p[0]);
        else return a.order ? T(audi::vectorized<double>(a.p), a.sym, a.order) : T(audi::vectorized<double>(a.p));
    };
    const unsigned ord = r.u(1, 2);
    std::vector<Arg> a;
    for (unsigned i = 0; i < n; ++i) a.push_back({gen::smooth_values(r, np), r.coin(0.7) ? ord : 0u, "x" + str(r.u(0, 1))});
    std::vector<std::vector<Arg>> calls;
    for (unsigned i = r.u(3, 8); i > 0u; --i) {
        auto &q = a[r.u(0, n - 1u)];
        switch (r.u(0, 3)) {
            case 0: q.order = q.order ? 0u : ord; break; // same value, other derivatives
            case 1: q.sym = q.sym == "x0" ? "x1" : "x0"; break;
            case 2: q.p[r.u(0, np - 1u)] = gen::smooth_values(r, 1u)[0]; break;
            default: std::swap(a[0], a[r.u(0, n - 1u)]);
        }
        calls.push_back(a);
    }
    auto summary = [&](const T &g) {
        std::string s = vs(coeffs(g, np));
        for (const char *x : {"x0", "x1"}) s += std::string(" ") + x + vs(slope(g, x, np));
        return s;
    };
    auto in = [&](const std::vector<Arg> &v) {
        std::vector<T> t;
        for (auto &q : v) t.push_back(make(q));
        return t;
    };
    std::vector<std::string> got;
    for (auto &c : calls) got.push_back(summary(ker(in(c))));
    for (std::size_t i = 0; i < calls.size(); ++i) {
        auto one = dcgp::kernel_set<T>(std::vector<std::string>{k})()[0];
        one(std::vector<T>(n + 1u, T(0.3 + r.real(0., 1.))));
        auto y = summary(one(in(calls[i])));
        if (y != got[i]) violation("the value on duals depends on the calls before", std::string(type) + " " + k + " call " + str(i) + " gave " + got[i] + ", alone " + y);
        count(std::string("calls in runs compared, ") + type);
    }
    evaluated(std::string("run ") + type + " " + k + " " + got[0], true);
}
// ------------------------------------------------------------------ kernel sets
template <typename T>
static std::string in_words(const dcgp::kernel<T> &k)
{
    return k.get_name() + ":" + k(std::vector<std::string>{"a", "b", "q"});
}
static double my_user(const V &v) { return 100. + v[0]; }
static std::string my_user_s(const std::vector<std::string> &v) { return "user(" + v[0] + ")"; }
template <typename T>
static void sets(Rng &r, const char *type)
{
    auto names = ref::all_kernels();
    std::vector<std::string> model; // words of each kernel held
    auto good = [&](bool allow_pdiv) {
        std::string k;
        do k = r.pick(names);
        while (k == "pdiv" && !allow_pdiv);
        return k;
    };
    const bool dbl = std::is_same<T, double>::value;
    auto word = [](const std::string &k) { return in_words(dcgp::kernel_set<T>(std::vector<std::string>{k})()[0]); };
    std::vector<std::string> init;
    for (unsigned i = r.u(0, 5); i > 0u; --i) init.push_back(good(dbl));
    dcgp::kernel_set<T> s(init);
    for (auto &k : init) model.push_back(word(k));
    std::string d = std::string(type) + " set " + vs(init);
    if (r.coin(0.2)) {
        dcgp::kernel_set<T> e;
        if (!e().empty()) violation("default set not empty", d);
    }
    auto check = [&](const std::string &when) {
        auto v = s();
        if (v.size() != model.size()) {
            violation("contents of a kernel set", d + " after " + when + ": " + str(v.size()) + " kernels instead of " + str(model.size()));
            return false;
        }
        std::string shown = str(s);
        std::size_t at = 0;
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (in_words(v[i]) != model[i] || in_words(s[i]) != model[i]) {
                violation("contents of a kernel set", d + " after " + when + ": kernel " + str(i) + " is " + in_words(v[i]) + " / " + in_words(s[i]) + " instead of " + model[i]);
                return false;
            }
            auto nm = model[i].substr(0, model[i].find(':'));
            if (v[i].get_name() != nm || str(v[i]) != nm) violation("name of a kernel", d + " " + str(v[i]));
            if (i < 5u) {
                at = shown.find(nm, at);
                if (at == std::string::npos) {
                    violation("printed kernel set", d + " after " + when + ": " + shown + " misses " + nm);
                    return false;
                }
                at += nm.size();
            }
        }
        return true;
    };
    if (!check("construction")) return;
    for (unsigned i = r.u(1, 10); i > 0u; --i) {
        std::string op;
        switch (r.u(0, 6)) {
            case 0:
            case 1: {
                auto k = good(dbl);
                op = "push_back(" + k + ")";
                s.push_back(k);
                model.push_back(word(k));
                break;
            }
            case 2: { // unknown names
                static const std::vector<std::string> bad{"", "Sum", "sum ", " sum", "relu", "RELU", "elu", "sigmoid", "plus", "sub", "minus", "times", "ln", "pow", "max",
                                                          "sin_", "sinnu", "cos_nu ", "my_sum", "gauss", "SUM", "isru", "Step", "neg", "id", "sqr", "tan", "pexp", "summ"};
                auto k = r.coin(0.8) || dbl ? bad[r.u(0, static_cast<unsigned>(bad.size()) - 1)] : std::string("pdiv");
                op = "push_back(\"" + k + "\")";
                bool threw = false;
                try {
                    s.push_back(k);
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                if (!threw) violation("unknown kernel name accepted", d + " " + op);
                threw = false;
                auto l = init;
                l.insert(l.begin() + r.u(0, static_cast<unsigned>(l.size())), k);
                try {
                    dcgp::kernel_set<T> q(l);
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                if (!threw) violation("unknown kernel name accepted", d + " list " + vs(l));
                count("unknown names");
                break;
            }
            case 3: { // a kernel of the user
                std::string nm = r.coin() ? "mine" + str(r.u(0, 9)) : good(true); // possibly the name of a library kernel
                op = "push_back(kernel " + nm + ")";
                const double tag = r.real(0., 9.);
                auto text = [tag](const std::vector<std::string> &v) { return "u" + str(tag) + "(" + v[0] + ")"; };
                if constexpr (std::is_same<T, double>::value) {
                    if (r.coin(0.3)) {
                        s.push_back(dcgp::kernel<T>(my_user, my_user_s, nm));
                        model.push_back(nm + ":user(a)");
                    } else {
                        s.push_back(dcgp::kernel<T>([tag](const std::vector<T> &v) { return v[0] + tag; }, text, nm));
                        model.push_back(nm + ":u" + str(tag) + "(a)");
                        if (s()[model.size() - 1u](V{1., 7.}) != 1. + tag) violation("a user kernel changed", d + " " + op);
                    }
                } else {
                    s.push_back(dcgp::kernel<T>([tag](const std::vector<T> &v) { return v[0] + tag; }, text, nm));
                    model.push_back(nm + ":u" + str(tag) + "(a)");
                }
                count("user kernels");
                break;
            }
            case 4:
                if (r.coin(0.3)) {
                    op = "clear";
                    s.clear();
                    model.clear();
                }
                break;
            case 5: { // what was handed out is a copy
                op = "change a handed out list";
                auto v = s();
                v.clear();
                if (!model.empty()) {
                    auto k = s[model.size() - 1u];
                    k = dcgp::kernel<T>();
                }
                break;
            }
            default: {
                op = "copy and assign";
                dcgp::kernel_set<T> t(s);
                t.push_back(std::string("sum"));
                if (t().size() != model.size() + 1u) violation("contents of a kernel set", d + " copy");
                dcgp::kernel_set<T> u;
                u = s;
                s = u;
                u.clear();
            }
        }
        d += " " + op;
        if (!check(op)) return;
    }
    count("kernel set histories");
    evaluated(d, true);
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [](Rng &r, long) {
        switch (r.u(0, 17)) {
            case 0: sets<double>(r, "double"); break;
            case 1: r.coin() ? sets<gdual_d>(r, "gdual_d") : sets<gdual_v>(r, "gdual_v"); break;
            case 2:
            case 3: special(r); break;
            case 4:
            case 5:
            case 6: duals<gdual_d>(r, "gdual_d"); break;
            case 7:
            case 8:
            case 9:
            case 10: duals<gdual_v>(r, "gdual_v"); break;
            case 16: runs_doubles(r); break;
            case 17: r.coin() ? runs_duals<gdual_d>(r, "gdual_d") : runs_duals<gdual_v>(r, "gdual_v"); break;
            default: doubles(r);
        }
    });
}
