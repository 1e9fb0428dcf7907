// C11: a symbolic regression problem or an algorithm restored from an archive behaves as the original.
#include "s11n_common.hpp"
#include "behave_p.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/batch_evaluators/default_bfe.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/s11n.hpp>
PAGMO_S11N_PROBLEM_IMPLEMENT(dcgp::symbolic_regression)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::es4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::moes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::mes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::momes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::gd4cgp)
static std::atomic<unsigned long> bfe_calls{0};
struct CountingBfe {
    pagmo::vector_double operator()(const pagmo::problem &p, const pagmo::vector_double &x) const
    {
        ++bfe_calls;
        return pagmo::default_bfe{}(p, x);
    }
    template <typename Archive>
    void serialize(Archive &, unsigned) {}
};
PAGMO_S11N_BFE_EXPORT(CountingBfe)

// ---------------------------------------------------------------- problems
static void problems(Rng &r)
{
    srg::Opt o;
    auto c = srg::conf(r, o);
    if (c.par > 2u) c.par = 1u;
    auto c2 = srg::conf(r, o);
    auto s = srg::make(c);
    auto into = r.coin() ? srg::make(c2) : r.coin() ? dcgp::symbolic_regression() : srg::make(c);
    auto correct = [&](dcgp::symbolic_regression &q) { q.set_phenotype_correction(CorrD{1.5}, CorrV{1.5}); };
    bool der = c.n_eph > 0u;
    if (r.coin(0.3)) correct(s);
    if (r.coin(0.2)) correct(into);
    std::vector<std::vector<double>> xs;
    for (unsigned i = 0; i < 3u; ++i) xs.push_back(srg::dv(r, c));
    // a history (caches, inner chromosome)
    std::string hist;
    for (unsigned i = r.u(0, 4); i--;) {
        auto &x = r.pick(xs);
        switch (r.u(0, 3)) {
            case 0: s.fitness(x); break;
            case 1: if (der) s.gradient(x); break;
            case 2: if (der) s.hessians(x); break;
            default: s.predict(c.X[0], x);
        }
    }
    bool fin = true;
    {
        auto q = s;
        for (auto &x : xs)
            for (int twice = 0; twice < 2; ++twice) {
                for (auto v : q.fitness(x)) fin = fin && std::isfinite(v);
                if (der) q.gradient(x);
            }
    }
    bool text = fin && r.coin(); // Boost's text archives cannot hold infinities (the cached fitness)
    auto d = c.descr() + (text ? " text" : " binary");
    std::string a, b;
    dcgp::symbolic_regression t(s); // keeps the state
    if (r.coin()) {
        restore(s, into, text);
        // the cached values too are those of the original
        auto x = r.pick(xs);
        if (vs(s.fitness(x)) != vs(into.fitness(x))) violation("problem restored", d + " fitness " + vs(s.fitness(x)) + " became " + vs(into.fitness(x)));
        a = show_problem(s, c, xs, der);
        b = show_problem(into, c, xs, der);
    } else {
        pagmo::problem p(s), q(into);
        for (unsigned i = r.u(0, 2); i--;) p.fitness(r.pick(xs));
        restore(p, q, text);
        if (p.get_fevals() != q.get_fevals()) violation("problem restored (pagmo)", d + " fevals");
        a = show_problem(*p.extract<dcgp::symbolic_regression>(), c, xs, der);
        auto *u = q.extract<dcgp::symbolic_regression>();
        b = u ? show_problem(*u, c, xs, der) : "another type";
        std::ostringstream x1, x2;
        x1 << p, x2 << q;
        a += x1.str(), b += x2.str();
    }
    if (a != b) {
        std::size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        i = i > 80u ? i - 80u : 0u;
        violation("problem restored", d + "\n" + a.substr(i, 400) + "\nrestored\n" + b.substr(i, 400));
    }
    evaluated("problem " + d, true);
}
// ---------------------------------------------------------------- algorithms
template <typename A>
static void algorithm(Rng &r, const std::string &name, A a, A into, const pagmo::population &p0, const std::string &conf, bool has_bfe)
{
    bool fin = true;
    a.set_verbosity(r.u(0, 3));
    into.set_verbosity(r.u(0, 3));
    pagmo::population p(p0);
    for (unsigned i = r.u(0, 2); i--;) p = a.evolve(p);
    if (r.coin(0.3)) into.evolve(p0);
    auto la = log_str(a, fin);
    bool text = fin && r.coin();
    auto d = name + " " + conf + (text ? " text" : " binary");
    auto info = a.get_extra_info();
    unsigned long before = bfe_calls, ua, ub;
    if (r.coin()) {
        restore(a, into, text);
    } else {
        pagmo::algorithm x(a), y(into);
        restore(x, y, text);
        std::ostringstream x1, x2;
        x1 << x, x2 << y;
        if (x1.str() != x2.str()) violation("algorithm restored", d + " " + x1.str() + " became " + x2.str());
        if (!y.extract<A>()) {
            violation("algorithm restored", d + " another type");
            return;
        }
        into = *y.extract<A>();
    }
    if (into.get_extra_info() != info || a.get_extra_info() != info) violation("algorithm restored", d + " " + info + " became " + into.get_extra_info());
    if (log_str(into, fin) != la) violation("log restored", d + "\n" + la + "\nbecame\n" + log_str(into, fin));
    for (unsigned i = 0; i < 2u; ++i) {
        auto q = p;
        before = bfe_calls;
        p = a.evolve(p);
        ua = bfe_calls - before;
        before = bfe_calls;
        q = into.evolve(q);
        ub = bfe_calls - before;
        if (pop_str(p) != pop_str(q)) {
            violation("algorithm used after restoring", d + " evolve " + str(i) + "\n" + pop_str(p).substr(0, 800) + "\nrestored\n" + pop_str(q).substr(0, 800));
            return;
        }
        if (log_str(a, fin) != log_str(into, fin)) violation("log after restoring", d + "\n" + log_str(a, fin) + "\nrestored\n" + log_str(into, fin));
        if (has_bfe && ua != ub) violation("batch evaluator restored", d + " used " + str(ua) + " and " + str(ub));
        // never constant: the log with wall times etc. must not matter
    }
    evaluated("algorithm " + d, true);
}
static void algorithms(Rng &r)
{
    srg::Opt o;
    int which = static_cast<int>(r.u(0, 4));
    o.mo = which == 2 || which == 3;
    o.eph = which == 4 ? static_cast<int>(r.u(1, 3)) : static_cast<int>(r.u(0, 3));
    o.max_points = 4;
    auto c = srg::conf(r, o);
    while (!c.printable()) c = srg::conf(r, o); // verbose algorithms print formulas
    c.par = 0;
    auto seed = static_cast<unsigned>(r.u64());
    pagmo::population pop(srg::make(c), r.u(2, 6), seed);
    auto g = [&] { return r.u(0, 5); };
    auto mm = [&] { return r.u(1, 8); };
    auto tol = [&] { return r.coin() ? 0. : std::pow(10., r.real(-3., 1.)); };
    auto sd = [&] { return static_cast<unsigned>(r.u64()); };
    switch (which) {
        case 0: {
            dcgp::es4cgp a(g(), mm(), tol(), r.coin(), sd()), b(g(), mm(), tol(), r.coin(), sd());
            if (r.coin(0.4)) a.set_bfe(pagmo::bfe(CountingBfe{}));
            if (r.coin(0.2)) b.set_bfe(pagmo::bfe(CountingBfe{}));
            algorithm(r, "es4cgp", a, b, pop, c.descr(), true);
            break;
        }
        case 1: algorithm(r, "mes4cgp", dcgp::mes4cgp(g(), mm(), tol(), sd()), dcgp::mes4cgp(g(), mm(), tol(), sd()), pop, c.descr(), false); break;
        case 2: {
            dcgp::moes4cgp a(g(), mm(), tol(), r.coin(), sd()), b(g(), mm(), tol(), r.coin(), sd());
            if (r.coin(0.4)) a.set_bfe(pagmo::bfe(CountingBfe{}));
            if (r.coin(0.2)) b.set_bfe(pagmo::bfe(CountingBfe{}));
            algorithm(r, "moes4cgp", a, b, pop, c.descr(), true);
            break;
        }
        case 3: algorithm(r, "momes4cgp", dcgp::momes4cgp(g(), mm(), tol(), sd()), dcgp::momes4cgp(g(), mm(), tol(), sd()), pop, c.descr(), false); break;
        default: {
            auto mk = [&] {
                dcgp::gd4cgp a(r.u(0, 20), r.real(0.05, 1.), std::pow(10., r.real(-6., -2.)));
                static const std::vector<std::string> pol{"best", "worst", "random"};
                if (r.coin()) a.set_selection(r.pick(pol));
                else if (r.coin()) a.set_selection(static_cast<pagmo::population::size_type>(r.u(0, 1)));
                if (r.coin()) a.set_replacement(r.pick(pol));
                else if (r.coin()) a.set_replacement(static_cast<pagmo::population::size_type>(r.u(0, 1)));
                a.set_random_sr_seed(sd());
                return a;
            };
            algorithm(r, "gd4cgp", mk(), mk(), pop, c.descr(), false);
        }
    }
}
int main(int argc, char **argv)
{
    Mute mute;
    return run(argc, argv, [](Rng &r, long c) {
        c % 3 == 0 ? problems(r) : algorithms(r);
    });
}
