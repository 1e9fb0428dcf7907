// C24: hostile sequences of calls on symbolic regression problems and evolutionary algorithms. The deciding oracles are the
// sanitizers, valgrind, the library assertions and the watchdog; a call may only return or throw a std::exception.
#include "srg.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/gym.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/batch_evaluators/default_bfe.hpp>
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/batch_evaluators/member_bfe.hpp>
#include <pagmo/problems/rosenbrock.hpp>
#include <pagmo/problems/zdt.hpp>
using namespace vh;
using V = std::vector<double>;
static const double NASTY[] = {0., -0., 1., -1., 5e-324, 1e-300, 1e300, -1e300, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 0.5, 4294967295., 4294967296., -2147483649., 1e16};
static double num(Rng &r, double calm = 0.6)
{
    return r.coin(calm) ? r.real(-3., 3.) : NASTY[r.u(0, sizeof NASTY / sizeof *NASTY - 1u)];
}
static std::map<std::string, unsigned long long> calls;
static unsigned long long looked[2];
static void use(double v) { ++looked[v > 0.25]; }
static void use(const std::string &v)
{
    for (char c : v) ++looked[c & 1];
}
template <typename T>
static void use(const std::vector<T> &v)
{
    for (const auto &x : v) use(x);
}
template <typename F>
static void call(const std::string &what, F &&f)
{
    try {
        f();
        ++calls["returned: " + what];
    } catch (const std::exception &e) {
        ++calls["threw: " + what];
    }
}
struct Made {
    srg::Conf c;
    dcgp::symbolic_regression s;
};
static bool make(Rng &r, std::vector<Made> &out, bool modest, int mo)
{
    srg::Opt o;
    o.mo = mo;
    o.max_eph = r.coin(0.1) && !modest ? 12 : 3;
    o.max_points = r.coin(0.1) ? 40 : 6;
    o.g.max_k = 8;
    if (modest) o.g.max_arity = 2, o.g.max_c = 5;
    else if (r.coin(0.3)) {
        switch (r.u(0, 3)) {
            case 0: o.g.max_c = 30, o.g.max_r = 1; break;
            case 1: o.g.max_r = 20, o.g.max_c = 1; break;
            case 2: o.g.max_arity = 12, o.g.max_c = 3; break;
            default: o.g.max_m = 12;
        }
    }
    o.g.kernels = ref::all_kernels();
    auto c = srg::conf(r, o);
    if (r.coin(0.05)) c.p.l = r.coin() ? 4294967295u : 2147483648u;
    if (r.coin(0.25)) // data that no model fits
        for (auto *d : {&c.X, &c.Y})
            for (auto &p : *d)
                for (auto &v : p)
                    if (r.coin(0.2)) v = num(r, 0.3);
    if (r.coin(0.1)) // repeated or constant data
        for (auto &p : c.X) p = c.X[0];
    if (r.coin(0.1)) c.par = r.u(0, 50);
    if (r.coin(0.02)) {
        if (r.coin()) dcgp::gym::generate_misra1b(c.X, c.Y);
        else dcgp::gym::generate_koza_quintic(c.X, c.Y);
        c.p.n = 1u + c.n_eph, c.p.m = 1, c.loss = "MSE", c.par = 0;
    }
    if (r.coin(0.05)) { // broken arguments
        switch (r.u(0, 5)) {
            case 0: c.X.clear(); break;
            case 1: r.pick(c.Y).clear(); break;
            case 2: c.Y.push_back({}); break;
            case 3: c.p.r = 0; break;
            case 4: c.p.arity[0] = r.u(0, 1); break;
            default: c.loss = "";
        }
    }
    try {
        out.push_back(Made{c, srg::make(c)});
        ++calls["returned: construct"];
        return true;
    } catch (const std::exception &) {
        ++calls["threw: construct"];
        return false;
    }
}
static V point(Rng &r, const srg::Conf &c, bool hostile)
{
    V x = srg::dv(r, c, r.coin(0.1) ? 100. : 3.);
    if (!hostile) return x;
    if (r.coin(0.2))
        for (unsigned i = 0; i < c.n_eph; ++i) x[i] = num(r, 0.4);
    if (r.coin(0.15)) x[r.u(0, unsigned(x.size()) - 1u)] = num(r, 0.2);
    if (r.coin(0.1)) x.resize(r.u(0, unsigned(x.size()) + 3u), 0.);
    return x;
}
static bool printable(const dcgp::symbolic_regression &s) { return gen::formula_size(s.get_cgp()) < 400.; }
static void problem(Rng &r)
{
    std::vector<Made> m;
    for (unsigned i = 0; i < 20 && m.size() < 2u; ++i) make(r, m, false, -1);
    if (m.size() < 2u) return;
    auto &c = m[0].c;
    auto &s = m[0].s;
    std::string d = c.descr();
    unsigned bad = 0;
    for (unsigned k = r.u(3, 20); k--;) {
        auto x = point(r, c, true);
        auto nin = c.nin();
        switch (r.u(0, 17)) {
            case 0:
            case 1: call("fitness", [&] { use(s.fitness(x)); }); break;
            case 2:
            case 3: call("gradient", [&] { use(s.gradient(x)); }); break;
            case 4:
            case 5: call("hessians", [&] { use(s.hessians(x)); }); break;
            case 6: call("predict", [&] {
                    V p(r.coin(0.8) ? nin : r.u(0, nin + 2u));
                    for (auto &v : p) v = num(r);
                    use(s.predict(p, x));
                });
                break;
            case 7: call("predict many", [&] {
                    std::vector<V> p(r.u(0, 4), V(nin, num(r)));
                    if (r.coin(0.2)) p.push_back(V(r.u(0, nin + 2u)));
                    use(s.predict(p, x));
                });
                break;
            case 8: call("pretty", [&] {
                    s.set_cgp(x);
                    if (printable(s)) use(s.pretty(x));
                });
                break;
            case 9: call("prettier", [&] {
                    s.set_cgp(x);
                    if (printable(s)) use(s.prettier(x));
                });
                break;
            case 10: call("sparsity and bounds", [&] {
                    for (auto &q : s.gradient_sparsity()) use(double(q.second));
                    for (auto &h : s.hessians_sparsity())
                        for (auto &q : h) use(double(q.second));
                    use(s.get_bounds().first), use(s.get_bounds().second), use(double(s.get_nix() + s.get_nobj())), use(s.get_extra_info() + s.get_name());
                });
                break;
            case 11: call("set cgp", [&] {
                    s.set_cgp(x);
                    use(V(s.get_cgp().get().begin(), s.get_cgp().get().end()));
                });
                break;
            case 12: call("copies", [&] {
                    switch (r.u(0, 4)) {
                        case 0: { auto t = s; s = t; break; }
                        case 1: { auto t = std::move(s); s = std::move(t); break; }
                        case 2: { auto &t = s; s = t; break; }
                        case 3: std::swap(m[0], m[1]); break;
                        default: m[1] = m[0];
                    }
                });
                break;
            case 13: call("phenotype correction", [&] {
                    if (r.coin(0.3)) return s.unset_phenotype_correction();
                    unsigned how = r.u(0, 2);
                    s.set_phenotype_correction(
                        [how](const V &q, std::function<V(const V &)> f) {
                            auto y = f(q);
                            if (how == 1) throw std::runtime_error("no");
                            for (auto &v : y) v = v * 2. + q[0];
                            if (how == 2) y.pop_back();
                            return y;
                        },
                        [how](const std::vector<audi::gdual_v> &q, std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v> &)> f) {
                            auto y = f(q);
                            if (how == 1) throw std::runtime_error("no");
                            for (auto &v : y) v = v * 2. + q[0];
                            if (how == 2) y.pop_back();
                            return y;
                        });
                });
                break;
            case 14: call("batch", [&] {
                    pagmo::problem p(s);
                    V xs;
                    for (unsigned i = r.u(1, 4); i--;) {
                        auto y = point(r, c, false);
                        xs.insert(xs.end(), y.begin(), y.end());
                    }
                    if (r.coin(0.1)) xs.pop_back();
                    pagmo::bfe b = r.coin() ? pagmo::bfe(pagmo::default_bfe{}) : r.coin() ? pagmo::bfe(pagmo::thread_bfe{}) : pagmo::bfe(pagmo::member_bfe{});
                    use(b(p, xs));
                });
                break;
            case 15: call("through pagmo", [&] {
                    pagmo::problem p(s), q(p);
                    use(q.fitness(x)), use(q.gradient(x)), use(q.hessians(x));
                    std::ostringstream o;
                    o << q;
                    use(o.str());
                });
                break;
            case 16: call("default constructed", [&] {
                    dcgp::symbolic_regression t;
                    pagmo::problem p(t);
                    use(p.get_lb());
                    t = s;
                    use(t.fitness(x));
                });
                break;
            default: call("rejected then used", [&] {
                    try {
                        V y(x.size() + 1u, 0.);
                        s.hessians(y);
                    } catch (const std::exception &) {
                        ++bad;
                    }
                    use(s.fitness(x));
                });
        }
    }
    evaluated(d, true);
}
static pagmo::population population(Rng &r, const Made &m)
{
    pagmo::problem p(m.s);
    unsigned np = r.coin(0.15) ? r.u(0, 3) : r.u(4, 7);
    pagmo::population pop(p, 0u, unsigned(r.u64()));
    for (unsigned i = 0; i < np; ++i) {
        auto x = point(r, m.c, false);
        if (r.coin(0.1))
            for (unsigned j = 0; j < m.c.n_eph; ++j) x[j] = num(r, 0.4);
        if (i && r.coin(0.3)) x = pop.get_x()[r.u(0, i - 1u)];
        if (r.coin(0.05)) {
            V f(m.c.mo ? 2u : 1u, num(r, 0.2)); // a fitness the problem did not give
            pop.push_back(x, f);
        } else
            pop.push_back(x);
    }
    return pop;
}
template <typename A, typename F>
static void evolve(Rng &r, const std::string &name, F &&construct, bool mo)
{
    std::vector<Made> m;
    bool wrong = r.coin(0.08);
    for (unsigned i = 0; i < 20 && m.empty(); ++i) make(r, m, true, wrong ? !mo : mo);
    if (m.empty()) return;
    auto d = name + " " + m[0].c.descr();
    Mute mute;
    bool evolved = false;
    call(name, [&] {
        A a = construct();
        a.set_verbosity(r.coin(0.4) || !m[0].c.printable() ? 0u : r.u(1, 3));
        auto pop = population(r, m[0]);
        for (unsigned k = r.u(1, 4); k--;) {
            switch (r.u(0, 7)) {
                case 0: {
                    A b(a);
                    a = b;
                    break;
                }
                case 1: {
                    pagmo::algorithm q(a);
                    call(name + " through pagmo", [&] { pop = q.evolve(pop); });
                    std::ostringstream o;
                    o << q;
                    break;
                }
                case 2:
                    call(name + " on another problem", [&] {
                        pagmo::population w(r.coin() ? pagmo::problem(pagmo::rosenbrock(r.u(2, 6))) : r.coin() ? pagmo::problem(pagmo::zdt(1, 3)) : pagmo::problem(), r.u(0, 8));
                        a.evolve(w);
                    });
                    break;
                case 3:
                    if (pop.size()) call(name + " set x", [&] { pop.set_x(r.u(0, unsigned(pop.size()) - 1u), point(r, m[0].c, false)); });
                    break;
                default:
                    call(name + " evolve", [&] {
                        pop = a.evolve(pop);
                        evolved = true;
                    });
            }
            for (auto &l : a.get_log()) use(double(std::get<0>(l)));
            use(a.get_extra_info() + a.get_name());
        }
        for (auto &f : pop.get_f()) use(f);
        for (auto &x : pop.get_x()) use(x);
    });
    evaluated(d, evolved);
}
int main(int argc, char **argv)
{
    int rc = vh::run(argc, argv, [](Rng &r, long) {
        unsigned which = r.u(0, 9);
        unsigned gen = r.coin(0.05) ? 0u : r.u(1, 8), mm = r.coin(0.05) ? 0u : r.coin(0.1) ? 60u : r.u(1, 5), seed = unsigned(r.u64());
        double ftol = r.coin(0.7) ? 0. : num(r);
        bool learn = r.coin();
        switch (which) {
            case 0: return evolve<dcgp::es4cgp>(r, "es", [&] {
                    dcgp::es4cgp a(gen, mm, ftol, learn, seed);
                    if (r.coin(0.3)) a.set_bfe(r.coin() ? pagmo::bfe(pagmo::default_bfe{}) : pagmo::bfe(pagmo::thread_bfe{}));
                    return a;
                }, false);
            case 1: return evolve<dcgp::mes4cgp>(r, "mes", [&] { return dcgp::mes4cgp(gen, mm, ftol, seed); }, false);
            case 2: return evolve<dcgp::moes4cgp>(r, "moes", [&] {
                    dcgp::moes4cgp a(gen, mm, ftol, learn, seed);
                    if (r.coin(0.3)) a.set_bfe(r.coin() ? pagmo::bfe(pagmo::default_bfe{}) : pagmo::bfe(pagmo::thread_bfe{}));
                    return a;
                }, true);
            case 3: return evolve<dcgp::momes4cgp>(r, "momes", [&] { return dcgp::momes4cgp(gen, mm, ftol, seed); }, true);
            case 4: return evolve<dcgp::gd4cgp>(r, "gd", [&] {
                    double lr = r.coin(0.9) ? r.real(0.01, 2.) : num(r), lo = r.coin(0.9) ? lr * r.real(0., 0.9) : num(r);
                    dcgp::gd4cgp a(gen * 3u, lr, lo);
                    if (r.coin(0.2)) a.set_selection(r.coin() ? "worst" : "random"), a.set_replacement("random");
                    if (r.coin(0.1)) a.set_selection(r.u(0, 9)), a.set_replacement(r.u(0, 9));
                    return a;
                }, false);
            default: problem(r);
        }
    });
    for (auto &c : calls) count(c.first, c.second);
    count("results looked at", looked[0] + looked[1]);
    if (!st().out.empty()) write_out();
    return rc;
}
