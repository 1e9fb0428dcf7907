// Recording problem and offline checkers of evolutions.
#ifndef ALG_HPP
#define ALG_HPP
#include "srref.hpp"
#include <memory>
#include <pagmo/batch_evaluators/default_bfe.hpp>
#include <pagmo/batch_evaluators/member_bfe.hpp>
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>

namespace alg
{
using vh::Rng;
using V = std::vector<double>;
// one call made by the algorithm to the problem: 'F'itness, 'G'radient, 'H'essians
struct Event {
    char kind;
    V x, f;
};
struct Log {
    std::mutex m;
    std::vector<Event> ev;
    bool paused = false;
    void add(char k, const V &x, const V &f)
    {
        std::lock_guard<std::mutex> l(m);
        if (!paused) ev.push_back({k, x, f});
    }
};
// a symbolic regression problem that records what it is asked
struct Rec {
    dcgp::symbolic_regression sr;
    std::shared_ptr<Log> log;
    Rec() : log(std::make_shared<Log>()) {}
    explicit Rec(const dcgp::symbolic_regression &s) : sr(s), log(std::make_shared<Log>()) {}
    V fitness(const V &x) const
    {
        auto f = sr.fitness(x);
        log->add('F', x, f);
        return f;
    }
    V gradient(const V &x) const
    {
        auto g = sr.gradient(x);
        log->add('G', x, g);
        return g;
    }
    std::vector<V> hessians(const V &x) const
    {
        auto h = sr.hessians(x);
        log->add('H', x, h[0]);
        return h;
    }
    pagmo::sparsity_pattern gradient_sparsity() const { return sr.gradient_sparsity(); }
    std::vector<pagmo::sparsity_pattern> hessians_sparsity() const { return sr.hessians_sparsity(); }
    V::size_type get_nobj() const { return sr.get_nobj(); }
    V::size_type get_nix() const { return sr.get_nix(); }
    std::pair<V, V> get_bounds() const { return sr.get_bounds(); }
    std::string get_name() const { return sr.get_name(); }
    pagmo::thread_safety get_thread_safety() const { return sr.get_thread_safety(); }
    template <typename Archive>
    void serialize(Archive &, unsigned) {}
};
// makes the algorithms see through the recorder
inline void hook()
{
    static bool once = [] {
        auto old = dcgp::details::extract_sr_cpp_py;
        dcgp::details::extract_sr_cpp_py = [old](const pagmo::problem &p) -> const dcgp::symbolic_regression * {
            if (auto q = p.extract<Rec>()) return &q->sr;
            return old(p);
        };
        return true;
    }();
    (void)once;
}
inline std::vector<Event> take(const std::shared_ptr<Log> &l)
{
    std::lock_guard<std::mutex> g(l->m);
    std::vector<Event> e;
    e.swap(l->ev);
    return e;
}
// a batch evaluator that evaluates one by one, in order or in reverse
struct OneByOne {
    bool reverse = false;
    std::shared_ptr<std::atomic<unsigned long>> calls = std::make_shared<std::atomic<unsigned long>>(0ul);
    V operator()(const pagmo::problem &q, const V &x) const
    {
        ++*calls;
        pagmo::problem p(q); // pagmo::bfe counts the evaluations
        auto nx = p.get_nx(), nf = p.get_nf();
        auto n = x.size() / nx;
        V f(n * nf);
        for (std::size_t k = 0; k < n; ++k) {
            auto i = reverse ? n - 1u - k : k;
            auto fi = p.fitness(V(x.begin() + static_cast<long>(i * nx), x.begin() + static_cast<long>((i + 1u) * nx)));
            std::copy(fi.begin(), fi.end(), f.begin() + static_cast<long>(i * nf));
        }
        return f;
    }
    template <typename Archive>
    void serialize(Archive &, unsigned) {}
};
// NaN is worst
inline bool less(double a, double b) { return std::isnan(a) ? false : std::isnan(b) ? true : a < b; }
inline bool noworse(double a, double b) { return !less(b, a); }

struct Setup {
    srg::Conf c;
    dcgp::symbolic_regression sr;
    unsigned np;
    std::string descr() const { return c.descr() + " NP=" + std::to_string(np); }
};
struct SOpt {
    int mo = 0, eph = -1;
    unsigned max_np = 6, max_eph = 4;
    double wild = 0.3; // probability of kernels that yield non finite values
    bool par = true;
};
inline Setup setup(Rng &r, const SOpt &so)
{
    srg::Opt o;
    o.mo = so.mo;
    o.eph = so.eph;
    o.max_eph = so.max_eph;
    o.max_points = 6;
    o.parallel = so.par;
    if (!r.coin(so.wild)) o.g.kernels = r.coin() ? std::vector<std::string>{"sum", "diff", "mul"} : srg::smooth_kernels();
    if (r.coin(0.2)) o.g.max_c = 12;
    auto c = srg::conf(r, o);
    if (c.par > 2u) c.par = 1u;
    if (r.coin(0.4) && c.loss == "MSE") { // there is an exact model
        auto p = c.p;
        p.x = gen::chromosome(r, p);
        V cst;
        for (unsigned i = 0; i < c.n_eph; ++i) cst.push_back(r.real(-2., 2.));
        std::vector<V> Y;
        bool ok = true;
        for (auto &x : c.X) {
            V in(x);
            in.insert(in.end(), cst.begin(), cst.end());
            std::vector<ref::N> q(in.begin(), in.end());
            V y;
            for (auto &z : p.template eval<ref::N>(q)) y.push_back(z.v), ok = ok && std::isfinite(z.v) && std::abs(z.v) < 1e6;
            Y.push_back(y);
        }
        if (ok) c.Y = Y;
    }
    auto s = srg::make(c);
    return Setup{c, s, r.u(2, so.max_np)};
}
// a population with random, duplicated, related or far away individuals
inline pagmo::population population(Rng &r, const Setup &s, const pagmo::problem &p)
{
    if (r.coin(0.3)) return pagmo::population(p, s.np, static_cast<unsigned>(r.u64()));
    pagmo::population pop(p, 0u, static_cast<unsigned>(r.u64()));
    for (unsigned i = 0; i < s.np; ++i) {
        if (i && r.coin(0.2)) pop.push_back(pop.get_x()[r.u(0, i - 1u)]);
        else if (i && r.coin(0.3)) pop.push_back(srg::neighbour(r, s.c, pop.get_x()[r.u(0, i - 1u)]));
        else pop.push_back(srg::dv(r, s.c, r.coin(0.1) ? 10. : 3.));
    }
    return pop;
}
inline unsigned distance(const V &a, const V &b, std::size_t n_eph)
{
    unsigned d = 0;
    for (std::size_t i = n_eph; i < a.size(); ++i) d += a[i] != b[i];
    return d;
}
inline bool same_pop(const pagmo::population &a, const pagmo::population &b)
{
    if (a.size() != b.size() || a.get_ID() != b.get_ID()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!vh::same(a.get_x()[i], b.get_x()[i]) || !vh::same(a.get_f()[i], b.get_f()[i])) return false;
    return true;
}
inline std::string show(const pagmo::population &p)
{
    std::string s;
    for (std::size_t i = 0; i < p.size(); ++i) s += vh::vs(p.get_x()[i]) + "->" + vh::vs(p.get_f()[i]) + " ";
    return s;
}
// every individual is admissible, paired with its own fitness, and known
inline void check_members(const std::string &d, const Setup &s, const pagmo::population &p0, const pagmo::population &p1,
                          const std::vector<Event> &ev, bool judge_values = true)
{
    using namespace vh;
    if (p1.size() != p0.size()) {
        violation("population size", d + " " + str(p0.size()) + " became " + str(p1.size()));
        return;
    }
    auto lb = s.c.p.lb(), ub = s.c.p.ub();
    for (std::size_t i = 0; i < p1.size(); ++i) {
        auto &x = p1.get_x()[i];
        auto &f = p1.get_f()[i];
        auto w = d + " individual " + str(i) + " x " + vs(x) + " f " + vs(f);
        if (x.size() != s.c.dim() || f.size() != (s.c.mo ? 2u : 1u)) {
            violation("individual of the wrong size", w);
            continue;
        }
        bool adm = true;
        for (std::size_t j = 0; j < lb.size(); ++j) {
            double g = x[s.c.n_eph + j];
            adm = adm && g == std::floor(g) && g >= lb[j] && g <= ub[j];
        }
        if (!adm) {
            violation("individual that is not a model", w);
            continue;
        }
        bool known = false;
        for (std::size_t j = 0; j < p0.size() && !known; ++j) known = same(p0.get_x()[j], x) && same(p0.get_f()[j], f);
        for (std::size_t j = 0; j < ev.size() && !known; ++j) known = ev[j].kind == 'F' && same(ev[j].x, x) && same(ev[j].f, f);
        if (!known) violation("individual neither of the initial population nor evaluated with that fitness", w);
        if (!judge_values) continue;
        bool nf = false;
        auto t = srg::ref_loss(s.c, x, srg::Pc{}, nf);
        int v = ref::judge(t, f[0]);
        if (v == 0) violation("individual with the fitness of another model", w + " expected " + str(t.v));
        if (v > 0 && t.ok) count("fitness of final individuals compared with the reference");
        if (s.c.mo) {
            auto want = static_cast<double>(srg::prog_of(s.c, x).active_genes().size());
            if (f[1] != want) violation("individual with the complexity of another model", w + " expected " + str(want));
        }
    }
}
} // namespace alg
#endif
