// C25: what the evolutions do to the constants.
#include "alg.hpp"
#include <Eigen/Dense>
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
using namespace vh;
using alg::V;

// is y what one Newton step from x makes of the constants of x? (integer parts are the same)
// empty: yes. kind: what was decided
static std::string newton(const dcgp::symbolic_regression &sr, const V &x, const V &y, unsigned n, std::string &kind)
{
    auto g = sr.gradient(x);
    auto h = sr.hessians(x)[0];
    auto near = [](double a, double b, double scale) { return same(a, b) || std::abs(a - b) <= 1e-9 * (1. + std::abs(scale) + std::abs(b)); };
    std::vector<unsigned> act;
    for (unsigned i = 0; i < n; ++i) {
        if (g[i] != 0. || n == 1u) act.push_back(i);
        else if (!(y[i] >= -10. && y[i] <= 10.))
            return "constant " + str(i) + " without effect drawn out of bounds: " + str(y[i]);
    }
    auto H = [&](unsigned i, unsigned j) { return i >= j ? h[i * (i + 1u) / 2u + j] : h[j * (j + 1u) / 2u + i]; };
    bool unchanged = true;
    for (auto i : act) unchanged = unchanged && same(x[i], y[i]);
    if (act.empty()) {
        kind = "no active constant";
        return "";
    }
    if (act.size() == 1u) {
        unsigned i = act[0];
        double gi = g[i], hi = H(i, i);
        if (hi != 0. && std::isfinite(gi) && std::isfinite(hi)) {
            kind = "one constant, step";
            double e = x[i] - gi / hi;
            return near(y[i], e, gi / hi) ? "" : "constant " + str(i) + " from " + str(x[i]) + " expected " + str(e) + " got " + str(y[i]);
        }
        kind = "one constant, no step";
        return unchanged ? "" : "constant " + str(i) + " moved from " + str(x[i]) + " to " + str(y[i]) + " without a defined step";
    }
    auto m = static_cast<Eigen::Index>(act.size());
    Eigen::MatrixXd M(m, m);
    Eigen::VectorXd G(m), D(m);
    bool fin = true;
    for (Eigen::Index i = 0; i < m; ++i) {
        auto ai = act[static_cast<std::size_t>(i)];
        G(i) = g[ai];
        D(i) = y[ai] - x[ai];
        fin = fin && std::isfinite(g[ai]);
        for (Eigen::Index j = 0; j < m; ++j) {
            M(i, j) = H(ai, act[static_cast<std::size_t>(j)]);
            fin = fin && std::isfinite(M(i, j));
        }
    }
    if (!fin) {
        kind = "several constants, derivatives not finite";
        return unchanged ? "" : "constants moved although the derivatives are not finite";
    }
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(M, Eigen::EigenvaluesOnly);
    double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff(), big = std::max(std::abs(lo), std::abs(hi));
    if (!(big > 1e-100 && big < 1e100)) {
        kind = "several constants, extreme";
        return "";
    }
    if (unchanged) {
        kind = "several constants, no step";
        // a step below the last digit of the constants
        Eigen::VectorXd s = M.fullPivLu().solve(G);
        bool tiny = true;
        for (Eigen::Index i = 0; i < m; ++i) tiny = tiny && std::abs(s(i)) < 1e-12 * (1. + std::abs(x[act[static_cast<std::size_t>(i)]]));
        return lo > 1e-6 * big && !tiny ? "positive definite hessian but the constants did not move" : "";
    }
    kind = "several constants, step";
    if (hi < -1e-6 * big) return "constants moved although the hessian is negative definite";
    double smallest = big;
    for (Eigen::Index i = 0; i < m; ++i) smallest = std::min(smallest, std::abs(es.eigenvalues()(i)));
    if (smallest < 1e-7 * big) {
        kind = "several constants, nearly singular";
        return "";
    }
    // the size of what is lost when the step is added to the constants
    double lost = 0.;
    for (auto i : act) lost = std::max({lost, std::abs(x[i]), std::abs(y[i])});
    Eigen::VectorXd R = M * D + G;
    double scale = big * (D.norm() + lost) + G.norm();
    return R.norm() <= 1e-7 * scale ? "" : "constants " + vs(x) + " became " + vs(y) + ", not a Newton step (residual " + str(R.norm()) + " of " + str(scale) + ")";
}
struct Best {
    double f;
    std::vector<V> xs;
    void see(const V &x, double g)
    {
        if (xs.empty() || alg::less(g, f)) f = g, xs.clear();
        if (same(g, f)) xs.push_back(x);
    }
};
static std::vector<alg::Event> fitness_calls(const std::shared_ptr<alg::Log> &l)
{
    std::vector<alg::Event> F;
    for (auto &e : alg::take(l))
        if (e.kind == 'F') F.push_back(e);
    return F;
}
static bool consts_equal(const V &a, const V &b, unsigned n)
{
    for (unsigned i = 0; i < n; ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
static V with_consts(V x, const V &p, unsigned n)
{
    std::copy(p.begin(), p.begin() + n, x.begin());
    return x;
}
struct Gauss { // gaussian steps seen
    std::vector<V> z;
    std::vector<std::pair<V, V>> next; // consecutive mutants of a generation
    void check(const std::string &d)
    {
        if (z.size() < 200u) return;
        auto N = static_cast<double>(z.size());
        auto n = z[0].size();
        V mean(n), sd(n);
        for (auto &q : z)
            for (std::size_t i = 0; i < n; ++i) mean[i] += q[i] / N, sd[i] += q[i] * q[i] / N;
        for (std::size_t i = 0; i < n; ++i) {
            if (!(sd[i] > 0.) || std::abs(mean[i]) > 7. * std::sqrt(sd[i] / N)) violation("mutations of a constant are biased", d + " constant " + str(i) + " mean " + str(mean[i]) + " std " + str(std::sqrt(sd[i])));
            for (std::size_t j = 0; j < i; ++j) {
                double c = 0.;
                for (auto &q : z) c += q[i] * q[j] / N;
                if (std::abs(c) > 7. * std::sqrt(sd[i] * sd[j] / N)) violation("mutations of two constants are tied", d + " " + str(i) + "," + str(j));
            }
        }
        for (std::size_t i = 0; i < n && next.size() >= 200u; ++i) {
            double c = 0., a = 0., b = 0.;
            for (auto &q : next) c += q.first[i] * q.second[i], a += q.first[i] * q.first[i], b += q.second[i] * q.second[i];
            if (std::abs(c) > 7. * std::sqrt(a * b / static_cast<double>(next.size()))) violation("mutations of a constant in different mutants are tied", d + " constant " + str(i));
        }
        count("distributions of gaussian steps checked");
    }
};
int main(int argc, char **argv)
{
    alg::hook();
    return vh::run(argc, argv, [](Rng &r, long) {
        unsigned which = r.u(0, 3); // es mes moes momes
        alg::SOpt so;
        so.mo = which >= 2u;
        so.par = r.coin(0.3);
        so.eph = r.coin(0.1) ? 0 : static_cast<int>(r.u(1, 5));
        so.wild = 0.2;
        auto s = alg::setup(r, so);
        const unsigned n = s.c.n_eph;
        pagmo::problem prob{alg::Rec(s.sr)};
        auto log = prob.extract<alg::Rec>()->log;
        auto p = alg::population(r, s, prob);
        alg::take(log);
        auto sr = s.sr;
        unsigned mm = r.u(1, 4), seed = static_cast<unsigned>(r.u64()), gen = r.u(1, 12);
        bool learn = r.coin();
        bool stat = which % 2u == 0u && learn && r.coin(0.15);
        if (stat) gen = 150;
        static const char *names[] = {"es", "mes", "moes", "momes"};
        auto d = std::string(names[which]) + " gen=" + str(gen) + " max_mut=" + str(mm) + " learn=" + str(learn) + " seed=" + str(seed) + " " + s.descr();
        bool judged = false;
        unsigned bfe = r.u(0, 2);
        Gauss gs;
        auto check_newton = [&](const std::vector<V> &parents, const V &y) {
            std::string err, kind;
            for (auto &q : parents) {
                auto e = newton(sr, with_consts(y, q, n), y, n, kind);
                if (e.empty()) {
                    err.clear();
                    break;
                }
                err = e;
            }
            if (!err.empty()) violation("constants of a mutant", d + " " + err);
            else if (n) count(kind), judged = judged || kind.find("step") != std::string::npos;
        };
        bool follows = false; // the previous mutant belongs to the same generation and was recorded
        auto check_es = [&](const std::vector<V> &parents, const V &y) {
            bool one_equal = false, one_changed = false;
            for (auto &q : parents) {
                one_equal = one_equal || consts_equal(q, y, n);
                bool ch = true;
                for (unsigned i = 0; i < n; ++i) ch = ch && (!same(q[i], y[i]) || !std::isfinite(q[i]) || std::abs(q[i]) > 1e14);
                one_changed = one_changed || ch;
            }
            if (!learn && !one_equal) violation("constants changed although they are not learned", d + " " + vs(y));
            if (learn && !one_changed) violation("constants not mutated although they are learned", d + " " + vs(y));
            if (n) judged = true, count(learn ? "mutants with learned constants" : "mutants with the constants of the parent");
            bool was = follows;
            follows = false;
            if (learn && n && parents.size() == 1u) {
                follows = was;
                V z;
                for (unsigned i = 0; i < n; ++i) z.push_back(y[i] - parents[0][i]);
                if (std::all_of(z.begin(), z.end(), [](double q) { return std::isfinite(q); }) && std::all_of(parents[0].begin(), parents[0].end(), [](double q) { return std::abs(q) < 1e6; }))
                {
                    if (follows && !gs.z.empty()) gs.next.emplace_back(gs.z.back(), z);
                    gs.z.push_back(z), follows = true;
                    return;
                }
            }
        };
        if (which < 2u) {
            pagmo::population q(p);
            {
                Mute m;
                if (which == 0u) {
                    dcgp::es4cgp a(gen, mm, 0., learn, seed);
                    if (bfe == 2u) a.set_bfe(pagmo::bfe(alg::OneByOne{}));
                    q = a.evolve(p);
                } else {
                    dcgp::mes4cgp a(gen, mm, 0., seed);
                    q = a.evolve(p);
                }
            }
            auto F = fitness_calls(log);
            Best b;
            for (std::size_t i = 0; i < p.size(); ++i) b.see(p.get_x()[i], p.get_f()[i][0]);
            for (std::size_t g = 0; (g + 1u) * p.size() <= F.size(); ++g) {
                auto parents = b.xs;
                follows = false;
                for (std::size_t i = 0; i < p.size(); ++i) {
                    auto &e = F[g * p.size() + i];
                    if (which == 0u) check_es(parents, e.x);
                    else check_newton(parents, e.x);
                    b.see(e.x, e.f[0]);
                }
            }
            // the constants of the survivors are those evaluated
            alg::check_members(d, s, p, q, F, false);
        } else {
            if (which == 2u) {
                dcgp::moes4cgp a(1u, mm, 0., learn, seed);
                if (bfe == 2u) a.set_bfe(pagmo::bfe(alg::OneByOne{}));
                for (unsigned g = 0; g < gen; ++g) {
                    auto q = a.evolve(p);
                    auto F = fitness_calls(log);
                    if (F.size() != p.size()) violation("evaluations in a generation", d + " " + str(F.size()));
                    else
                        for (std::size_t i = follows = 0; i < F.size(); ++i) check_es({p.get_x()[i]}, F[i].x);
                    alg::check_members(d, s, p, q, F, false);
                    p = q;
                }
            } else {
                dcgp::momes4cgp a(1u, mm, 0., seed);
                for (unsigned g = 0; g < gen; ++g) {
                    auto q = a.evolve(p);
                    auto F = fitness_calls(log);
                    if (F.size() != p.size()) violation("evaluations in a generation", d + " " + str(F.size()));
                    else
                        for (std::size_t i = 0; i < F.size(); ++i) {
                            if (alg::distance(p.get_x()[i], F[i].x, n) > mm) violation("mutant of another individual", d);
                            check_newton({p.get_x()[i]}, F[i].x);
                        }
                    alg::check_members(d, s, p, q, F, false);
                    p = q;
                }
            }
        }
        gs.check(d);
        evaluated(d, judged);
    });
}
