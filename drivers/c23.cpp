// C23: the gym data sets are the published problems.
#include "vh.hpp"
#include <dcgp/gym.hpp>
#include <random>
#include <thread>
using namespace vh;
using V = std::vector<double>;
using D = std::vector<V>;
using L = long double;
typedef void (*Gen)(D &, D &);
namespace gym = dcgp::gym;

struct Set {
    const char *name;
    Gen gen;
    unsigned n, dim;
    std::vector<std::pair<double, double>> range; // per dimension
    char kind;                                    // 'g' equally spaced grid, 'r' random points, 't' table
    std::function<L(const V &)> f;                // formula or certified model
    L rss;                                        // tables: certified residual sum of squares
};
static const L PI = 3.14159265358979323846264338327950288L, E = 2.71828182845904523536028747135266250L;
static L sal(L x) { return std::exp(-x) * x * x * x * std::cos(x) * std::sin(x) * (std::cos(x) * std::sin(x) * std::sin(x) - 1); }
static L p(L x, int k) { return k == 0 ? L(1) : x * p(x, k - 1); }
static std::function<L(const V &)> chw(L a, L b, L c)
{
    return [=](const V &x) { return std::exp(-a * x[0]) / (b + c * x[0]); };
}
static std::function<L(const V &)> gauss(std::vector<L> b)
{
    return [=](const V &v) {
        L x = v[0];
        return b[0] * std::exp(-b[1] * x) + b[2] * std::exp(-p((x - b[3]) / b[4], 2)) + b[5] * std::exp(-p((x - b[6]) / b[7], 2));
    };
}
static const std::vector<Set> &sets()
{
    static const std::vector<Set> s{
        {"koza_quintic", gym::generate_koza_quintic, 10, 1, {{-3, 3}}, 'g', [](const V &x) { return p(x[0], 5) - 2 * p(x[0], 3) + x[0]; }, 0},
        {"P1", gym::generate_P1, 10, 1, {{1, 3}}, 'g', [](const V &x) { return p(x[0], 5) - PI * p(x[0], 3) + x[0]; }, 0},
        {"P2", gym::generate_P2, 10, 1, {{0.1, 5}}, 'g', [](const V &x) { return p(x[0], 5) - PI * p(x[0], 3) + 2 * PI / x[0]; }, 0},
        {"P3", gym::generate_P3, 10, 1, {{-0.9, 1}}, 'g', [](const V &x) { return (E * p(x[0], 5) + p(x[0], 3)) / (L(x[0]) + 1); }, 0},
        {"P4", gym::generate_P4, 10, 1, {{-1, 1}}, 'g', [](const V &x) { return std::sin(PI * x[0]) + L(1) / x[0]; }, 0},
        {"P5", gym::generate_P5, 10, 1, {{1, 3}}, 'g', [](const V &x) { return E * p(x[0], 5) - PI * p(x[0], 3) + x[0]; }, 0},
        {"P6", gym::generate_P6, 10, 1, {{-2.1, 1}}, 'g', [](const V &x) { return (E * x[0] * x[0] - 1) / (PI * (L(x[0]) + 2)); }, 0},
        {"P7", gym::generate_P7, 10, 1, {{-1, 1}}, 'g', [](const V &x) { return std::cos(PI * x[0]) + std::sin(E * x[0]); }, 0},
        {"salutowicz", gym::generate_salutowicz, 100, 1, {{0.05, 10}}, 'g', [](const V &x) { return sal(x[0]); }, 0},
        {"kotanchek", gym::generate_kotanchek, 100, 2, {{0.3, 4}, {0.3, 4}}, 'r',
         [](const V &x) { return std::exp(-p(L(x[0]) - 1, 2)) / (L(1.2L) + p(L(x[1]) - 2.5L, 2)); }, 0},
        {"salutowicz2d", gym::generate_salutowicz2d, 601, 2, {{0.05, 10}, {0.05, 10}}, 'r', [](const V &x) { return sal(x[0]) * (L(x[1]) - 5); }, 0},
        {"uball5d", gym::generate_uball5d, 1024, 5, {{0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}}, 'r',
         [](const V &x) {
             L s = 5;
             for (double v : x) s += p(L(v) - 3, 2);
             return 10 / s;
         },
         0},
        {"ratpol3d", gym::generate_ratpol3d, 300, 3, {{0.05, 2}, {1, 2}, {0.05, 2}}, 'r',
         [](const V &x) { return 30 * (L(x[0]) - 1) * (L(x[2]) - 1) / (p(x[1], 2) * (L(x[0]) - 10)); }, 0},
        {"sinecosine", gym::generate_sinecosine, 30, 2, {{0.1, 5.9}, {0.1, 5.9}}, 'r', [](const V &x) { return 6 * std::sin(L(x[0])) * std::cos(L(x[1])); }, 0},
        {"ripple", gym::generate_ripple, 300, 2, {{0.05, 6.05}, {0.05, 6.05}}, 'r',
         [](const V &x) { return (L(x[0]) - 3) * (L(x[1]) - 3) + 2 * std::sin((L(x[0]) - 4) * (L(x[1]) - 4)); }, 0},
        {"ratpol2d", gym::generate_ratpol2d, 50, 2, {{0.05, 6.05}, {0.05, 6.05}}, 'r',
         [](const V &x) { return (p(L(x[0]) - 3, 4) + p(L(x[1]) - 3, 3) - (L(x[1]) - 3)) / (p(L(x[1]) - 2, 4) + 10); }, 0},
        // NIST statistical reference datasets: certified parameters and residual sum of squares
        {"chwirut1", gym::generate_chwirut1, 214, 1, {{0.5, 6}}, 't', chw(0.19027818370L, 0.0061314004477L, 0.010530908399L), 2384.4771393L},
        {"chwirut2", gym::generate_chwirut2, 54, 1, {{0.5, 6}}, 't', chw(0.16657666537L, 0.0051653291286L, 0.012150007096L), 513.04802941L},
        {"daniel_wood", gym::generate_daniel_wood, 6, 1, {{1.309, 1.68}}, 't', [](const V &x) { return 0.76886226176L * std::pow(L(x[0]), 3.8604055871L); },
         4.3173084083E-03L},
        {"gauss1", gym::generate_gauss1, 250, 1, {{1, 250}}, 't',
         gauss({98.778210871L, 0.010497276517L, 100.48990633L, 67.481111276L, 23.129773360L, 71.994503004L, 178.99805021L, 18.389389025L}), 1315.8222432L},
        {"kirby2", gym::generate_kirby2, 151, 1, {{9.65, 371.3}}, 't',
         [](const V &v) {
             L x = v[0];
             return (1.6745063063L - 0.13927397867L * x + 0.0025961181191L * x * x) / (1 - 0.0017241811870L * x + 2.1664802578E-05L * x * x);
         },
         3.9050739624L},
        {"lanczos2", gym::generate_lanczos2, 24, 1, {{0, 1.15}}, 't',
         [](const V &v) {
             L x = v[0];
             return 0.096251029939L * std::exp(-1.0057332849L * x) + 0.86424689056L * std::exp(-3.0078283915L * x) + 1.5529016879L * std::exp(-5.0028798100L * x);
         },
         2.2299428125E-11L},
        {"misra1b", gym::generate_misra1b, 14, 1, {{77.6, 760}}, 't',
         [](const V &x) { return 337.99746163L * (1 - 1 / p(1 + 3.9039091287E-04L * x[0] / 2, 2)); }, 7.5464681533E-02L},
        // temperature profile: no certified fit; sums of the table as distributed
        {"luca1", gym::generate_luca1, 631, 1, {{0, 38220}}, 't', nullptr, 0}};
    return s;
}
static void check(const Set &s, const D &x, const D &y, const std::string &how)
{
    const std::string d = std::string(s.name) + " " + how;
    const std::string n(s.name);
    if (x.size() != s.n || y.size() != s.n) return violation(n + " size", d + " " + str(x.size()) + " points, " + str(y.size()) + " labels, expected " + str(s.n));
    for (auto &v : x)
        if (v.size() != s.dim) return violation(n + " dimension", d + " " + vs(v));
    for (auto &v : y)
        if (v.size() != 1u) return violation(n + " label dimension", d + " " + vs(v));
    for (unsigned k = 0; k < s.dim; ++k) {
        double lo = x[0][k], hi = lo;
        for (auto &v : x) lo = std::min(lo, v[k]), hi = std::max(hi, v[k]);
        const double a = s.range[k].first, b = s.range[k].second, w = b - a;
        const double slack = 1e-12 * w, fill = s.kind == 'r' ? 12. * w / s.n : 1e-12 * w; // P(no random point there) < 1e-5
        if (!(lo >= a - slack && lo <= a + fill && hi <= b + slack && hi >= b - fill))
            return violation(n + " range", d + " dimension " + str(k) + " in [" + str(lo) + "," + str(hi) + "], documented [" + str(a) + "," + str(b) + "]");
        if (s.kind == 'r') {
            // the points are uniform: Kolmogorov-Smirnov distance, and different coordinates are uncorrelated
            V c;
            for (auto &v : x) c.push_back((v[k] - a) / w);
            for (unsigned j = 0; j < k; ++j) {
                double cr = 0.;
                for (auto &v : x) cr += (c[&v - &x[0]] - 0.5) * ((v[j] - s.range[j].first) / (s.range[j].second - s.range[j].first) - 0.5) * 12.;
                if (std::abs(cr / s.n) > 5. / std::sqrt(s.n)) violation(n + " correlated", d + " " + str(cr / s.n));
            }
            std::sort(c.begin(), c.end());
            double ks = 0.;
            for (unsigned i = 0; i < c.size(); ++i) ks = std::max({ks, std::abs(c[i] - double(i) / s.n), std::abs(c[i] - double(i + 1u) / s.n)});
            if (ks > 2.4 / std::sqrt(s.n)) violation(n + " not uniform", d + " dimension " + str(k) + " distance " + str(ks));
            for (unsigned i = 1; i < c.size(); ++i)
                if (c[i] == c[i - 1u]) return violation(n + " repeated point", d);
        }
    }
    if (s.kind == 'g')
        for (unsigned i = 0; i < s.n; ++i) {
            const double e = s.range[0].first + (s.range[0].second - s.range[0].first) * i / (s.n - 1.);
            if (std::abs(x[i][0] - e) > 1e-12 * (std::abs(s.range[0].first) + std::abs(s.range[0].second)))
                return violation(n + " spacing", d + " point " + str(i) + " is " + str(x[i][0]) + ", expected " + str(e));
        }
    if (s.kind != 't')
        for (unsigned i = 0; i < s.n; ++i) {
            // conditioning: the label at nearby points
            L w = s.f(x[i]), tol = 1e-13L * (1 + std::abs(w));
            for (unsigned k = 0; k < s.dim; ++k) {
                auto q = x[i];
                q[k] += 1e-7 * (1. + std::abs(q[k]));
                tol += std::abs(s.f(q) - w) * 1e-7L;
            }
            if (!(std::abs(y[i][0] - w) <= tol)) return violation(n + " label", d + " at " + vs(x[i]) + " is " + str(y[i][0]) + ", the formula gives " + str(double(w)));
        }
    else if (s.f) {
        L q = 0;
        for (unsigned i = 0; i < s.n; ++i) q += p(y[i][0] - s.f(x[i]), 2);
        if (!(std::abs(q - s.rss) <= 1e-8L * s.rss))
            violation(n + " certified residual", d + " residual sum of squares " + str(double(q)) + ", certified " + str(double(s.rss)));
    } else {
        L sx = 0, sxx = 0, sy = 0, syy = 0, sxy = 0;
        bool inc = true;
        for (unsigned i = 0; i < s.n; ++i) {
            L a = x[i][0], b = y[i][0];
            sx += a, sxx += a * a, sy += b, syy += b * b, sxy += i * b;
            if (i && !(x[i][0] > x[i - 1u][0])) inc = false;
        }
        auto ne = [](L a, L b) { return !(std::abs(a - b) <= 1e-11L * std::abs(b)); };
        if (!inc || ne(sx, 12118500.0L) || ne(sxx, 309815830800.0L) || ne(sy, 196032.9846698L) || ne(syy, 60936511.08203329L) || ne(sxy, 61097903.8865885L))
            violation(n + " table", d + " sums " + str(double(sx)) + " " + str(double(sxx)) + " " + str(double(sy)) + " " + str(double(syy)) + " " + str(double(sxy)));
    }
    count(std::string("judged: ") + s.name);
}
int main(int argc, char **argv)
{
    std::map<std::string, std::pair<D, D>> first;
    return vh::run(argc, argv, [&](Rng &r, long) {
        // a destination used again and again, whatever it holds
        D x, y;
        std::string how;
        unsigned calls = r.u(1, 6);
        if (r.coin(0.1)) {
            // several threads at once
            const unsigned nt = r.u(2, 4);
            std::vector<D> tx(nt), ty(nt);
            std::vector<unsigned> w(nt);
            unsigned same = r.u(0, unsigned(sets().size()) - 1u);
            for (auto &k : w) k = r.coin() ? same : r.u(0, unsigned(sets().size()) - 1u);
            std::vector<std::thread> th;
            for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t] { sets()[w[t]].gen(tx[t], ty[t]); });
            for (auto &t : th) t.join();
            for (unsigned t = 0; t < nt; ++t) check(sets()[w[t]], tx[t], ty[t], "in a thread");
            count("in threads", nt);
            how = "threads";
        } else
            for (unsigned k = 0; k < calls; ++k) {
                auto junk = [&](D &v) {
                    switch (r.u(0, 6)) {
                        case 0: v.clear(); return "empty";
                        case 1: v = D(r.u(1, 1200), V(r.u(0, 6), r.coin() ? 0.5 : NAN)); return "filled";
                        case 2: { D o(std::move(v)); return "moved from"; }
                        case 3: for (auto &q : v) for (auto &z : q) z = -1e300; return "overwritten";
                        case 4: v.resize(v.size() / 2u); return "cut";
                        case 5: v.reserve(2000); return "reserved";
                        default: return "as left by the previous call";
                    }
                };
                std::string hx = junk(x), hy = junk(y);
                const auto &s = sets()[r.u(0, unsigned(sets().size()) - 1u)];
                how += std::string(s.name) + "(" + hx + "," + hy + ") ";
                s.gen(x, y);
                check(s, x, y, how);
                auto it = first.find(s.name);
                if (it == first.end()) first[s.name] = {x, y};
                else if (it->second.first != x || it->second.second != y) violation(std::string(s.name) + " not deterministic", how);
            }
        evaluated(how + str(st().cur), true);
    });
}
