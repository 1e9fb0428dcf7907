// C04: invalid requests on symbolic regression problems and evolutionary algorithms.
#include "srg.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/problems/rosenbrock.hpp>
#include <pagmo/problems/zdt.hpp>
using namespace vh;

template <typename F>
static void must_throw(const std::string &key, const std::string &what, F &&f)
{
    try {
        f();
    } catch (const std::exception &) {
        count("rejected " + key);
        return;
    }
    violation("accepted " + key, what);
}
static void sr_ctor(Rng &r)
{
    srg::Opt o;
    auto c = srg::conf(r, o);
    auto ks = gen::kernels<double>(c.p);
    unsigned arity = c.p.arity[0];
    std::string bad;
    switch (r.u(0, 13)) {
        case 0: c.X.clear(); c.Y.clear(); bad = "no data"; break;
        case 1: c.X.clear(); bad = "no points"; break;
        case 2: c.Y.clear(); bad = "no labels"; break;
        case 3: c.Y.push_back(c.Y[0]); bad = "too many labels"; break;
        case 4: c.X.push_back(c.X[0]); bad = "too many points"; break;
        case 5: {
            c.X.push_back(c.X[0]);
            c.Y.push_back(c.Y[0]);
            auto &q = r.pick(c.X);
            if (r.coin()) q.push_back(0.);
            else q.pop_back();
            bad = "ragged points";
            break;
        }
        case 6: {
            c.X.push_back(c.X[0]);
            c.Y.push_back(c.Y[0]);
            auto &q = r.pick(c.Y);
            if (r.coin()) q.push_back(0.);
            else q.pop_back();
            bad = "ragged labels";
            break;
        }
        case 7: c.p.r = 0; bad = "r"; break;
        case 8: c.p.c = 0; bad = "c"; break;
        case 9: c.p.l = 0; bad = "l"; break;
        case 10: arity = r.u(0, 1); bad = "arity"; break;
        case 11: ks.clear(); bad = "kernels"; break;
        case 12: {
            static const std::vector<std::string> j{"", "mse", "ce", "MSE ", "RMSE", "CrossEntropy"};
            c.loss = r.pick(j);
            bad = "loss";
            break;
        }
        default:
            if (r.coin()) {
                for (auto &q : c.X) q.clear();
                c.n_eph = 0;
                bad = "empty points";
            } else {
                for (auto &q : c.Y) q.clear();
                bad = "empty labels";
            }
    }
    auto d = "symbolic_regression with bad " + bad + " " + c.descr();
    must_throw("symbolic_regression(" + bad + ")", d,
               [&] { dcgp::symbolic_regression(c.X, c.Y, c.p.r, c.p.c, c.p.l, arity, ks, c.n_eph, c.mo, c.par, c.loss, c.seed); });
    evaluated(d, true);
}
static void sr_use(Rng &r)
{
    srg::Opt o;
    auto c = srg::conf(r, o);
    c.par = std::min(c.par, 1u); // the order of a longer parallel sum is not determined
    auto s = srg::make(c);
    auto x = srg::dv(r, c);
    auto before = srg::observe(s, x, c);
    for (unsigned k = 0; k < 3u; ++k) {
        std::vector<double> pt(c.nin() + (r.coin() ? 1u : 0u), 0.5);
        if (pt.size() == c.nin()) pt.pop_back();
        must_throw("predict(point)", c.descr(), [&] { s.predict(pt, x); });
        std::vector<std::vector<double>> pts(3, std::vector<double>(c.nin(), 0.1));
        r.pick(pts) = pt;
        must_throw("predict(points)", c.descr(), [&] { s.predict(pts, x); });
        // a chromosome out of bounds or too long
        auto y = srg::dv(r, c);
        auto b = s.get_bounds();
        auto i = r.u(c.n_eph, static_cast<unsigned>(y.size()) - 1u);
        std::string how;
        switch (r.u(0, 2)) {
            case 0: y[i] = b.second[i] + 1.; how = "above"; break;
            case 1: y[i] = b.first[i] - 1.; how = "below"; break;
            default: y.push_back(0.); how = "long";
        }
        must_throw("fitness(" + how + ")", c.descr() + vs(y), [&] { s.fitness(y); });
        must_throw("gradient(" + how + ")", c.descr() + vs(y), [&] { s.gradient(y); });
        must_throw("hessians(" + how + ")", c.descr() + vs(y), [&] { s.hessians(y); });
        must_throw("pretty(" + how + ")", c.descr() + vs(y), [&] { s.pretty(y); });
        must_throw("predict(" + how + ")", c.descr() + vs(y), [&] { s.predict(c.X[0], y); });
    }
    auto after = srg::observe(s, x, c);
    if (before != after) violation("problem changed by rejected call", c.descr() + "\n" + before + "\nbecame\n" + after);
    evaluated("use " + c.descr(), true);
}
template <typename A>
static void bad_evolve(const std::string &name, A a, const pagmo::population &pop, const std::string &why, const std::string &d)
{
    auto state = [&pop] {
        std::ostringstream o;
        o.precision(17);
        for (auto &q : pop.get_x()) o << vs(q);
        for (auto &q : pop.get_f()) o << vs(q);
        o << vs(pop.get_ID()) << pop.get_problem().get_fevals();
        return o.str();
    };
    const auto s0 = state();
    auto log0 = a.get_log().size();
    auto info = a.get_extra_info();
    must_throw(name + " evolve(" + why + ")", d, [&] { a.evolve(pop); });
    pagmo::algorithm alg(a);
    must_throw(name + " evolve(" + why + ")", d, [&] { alg.evolve(pop); });
    if (s0 != state())
        violation(name + " population changed by rejected evolve", d);
    if (a.get_log().size() != log0 || a.get_extra_info() != info) violation(name + " changed by rejected evolve", d);
}
static void algos(Rng &r)
{
    static const std::vector<double> badtol{-1e-300, -1., -std::numeric_limits<double>::infinity(), -1e-12};
    auto t = r.pick(badtol);
    unsigned g = r.u(0, 3);
    auto s = static_cast<unsigned>(r.u64());
    bool lc = r.coin();
    unsigned mm = r.u(1, 9);
    must_throw("es4cgp(max_mut)", "", [&] { dcgp::es4cgp(g, 0u, 0., lc, s); });
    must_throw("es4cgp(ftol)", str(t), [&] { dcgp::es4cgp(g, mm, t, lc, s); });
    must_throw("moes4cgp(max_mut)", "", [&] { dcgp::moes4cgp(g, 0u, 0., lc, s); });
    must_throw("moes4cgp(ftol)", str(t), [&] { dcgp::moes4cgp(g, mm, t, lc, s); });
    must_throw("mes4cgp(max_mut)", "", [&] { dcgp::mes4cgp(g, 0u, 0., s); });
    must_throw("mes4cgp(ftol)", str(t), [&] { dcgp::mes4cgp(g, mm, t, s); });
    must_throw("momes4cgp(max_mut)", "", [&] { dcgp::momes4cgp(g, 0u, 0., s); });
    must_throw("momes4cgp(ftol)", str(t), [&] { dcgp::momes4cgp(g, mm, t, s); });
    double lr = r.real(0.001, 1.);
    must_throw("gd4cgp(lr_min=0)", str(lr), [&] { dcgp::gd4cgp(g, lr, 0.); });
    must_throw("gd4cgp(lr_min<0)", str(lr), [&] { dcgp::gd4cgp(g, lr, t); });
    must_throw("gd4cgp(lr_min=lr)", str(lr), [&] { dcgp::gd4cgp(g, lr, lr); });
    must_throw("gd4cgp(lr_min>lr)", str(lr), [&] { dcgp::gd4cgp(g, lr, lr * r.real(1.01, 9.)); });
    must_throw("gd4cgp(lr<0)", str(lr), [&] { dcgp::gd4cgp(g, -lr, 1e-3); });
    // zero generations do not excuse misuse
    dcgp::es4cgp es(g, mm, 0., lc, s);
    dcgp::mes4cgp mes(g, mm, 0., s);
    dcgp::moes4cgp moes(g, mm, 0., lc, s);
    dcgp::momes4cgp momes(g, mm, 0., s);
    dcgp::gd4cgp gd(g, 0.1, 1e-3);
    es.set_verbosity(1u), mes.set_verbosity(1u), moes.set_verbosity(1u), momes.set_verbosity(1u), gd.set_verbosity(1u);
    srg::Opt o;
    o.mo = 0;
    o.eph = static_cast<int>(r.u(1, 3));
    auto so = srg::conf(r, o);
    o.mo = 1;
    auto mo = srg::conf(r, o);
    o.mo = 0;
    o.eph = 0;
    auto noeph = srg::conf(r, o);
    auto d = "gen " + str(g) + " " + so.descr() + " / " + mo.descr();
    pagmo::population pso(srg::make(so), 5u, s), pmo(srg::make(mo), 5u, s), pne(srg::make(noeph), 4u, s), p1(srg::make(so), r.u(0, 1), s),
        pm1(srg::make(mo), r.u(0, 1), s), pr(pagmo::rosenbrock(4u), 5u, s), pz(pagmo::zdt(1, 5u), 5u, s);
    bad_evolve("es4cgp", es, pmo, "multi objective", d);
    bad_evolve("es4cgp", es, pr, "other problem", d);
    bad_evolve("es4cgp", es, p1, "small population", d);
    bad_evolve("mes4cgp", mes, pmo, "multi objective", d);
    bad_evolve("mes4cgp", mes, pr, "other problem", d);
    bad_evolve("mes4cgp", mes, p1, "small population", d);
    bad_evolve("moes4cgp", moes, pso, "single objective", d);
    bad_evolve("moes4cgp", moes, pz, "other problem", d);
    bad_evolve("moes4cgp", moes, pm1, "small population", d);
    bad_evolve("momes4cgp", momes, pso, "single objective", d);
    bad_evolve("momes4cgp", momes, pz, "other problem", d);
    bad_evolve("momes4cgp", momes, pm1, "small population", d);
    bad_evolve("gd4cgp", gd, pmo, "multi objective", d);
    bad_evolve("gd4cgp", gd, pr, "other problem", d);
    bad_evolve("gd4cgp", gd, pne, "no constants", d);
    evaluated("algorithms " + d, true);
}
int main(int argc, char **argv)
{
    Mute mute;
    return run(argc, argv, [](Rng &r, long c) {
        switch (c % 4) {
            case 0: return algos(r);
            case 1: return sr_use(r);
            default: return sr_ctor(r);
        }
    });
}
