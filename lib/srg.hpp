// Random symbolic regression problems, their reference fitness, and a recording wrapper.
#ifndef SRG_HPP
#define SRG_HPP
#include "gen.hpp"
#include <dcgp/problems/symbolic_regression.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>

namespace srg
{
using vh::Rng;
struct Conf {
    ref::Prog p; // p.n includes the constants; uniform arity
    unsigned n_eph = 0;
    bool mo = false;
    unsigned par = 0;
    std::string loss = "MSE";
    std::vector<std::vector<double>> X, Y;
    unsigned seed = 0;
    unsigned nin() const { return p.n - n_eph; }
    std::size_t dim() const { return n_eph + p.size(); }
    // no model has a formula too long to be printed (the algorithms print formulas when verbose)
    bool printable() const
    {
        double s = p.m;
        for (auto a : p.arity) s *= a;
        return s < 2e6;
    }
    std::string descr() const
    {
        std::ostringstream s;
        s << "n_eph=" << n_eph << " mo=" << mo << " par=" << par << " loss=" << loss << " points=" << X.size() << " ";
        return s.str() + p.descr();
    }
};
struct Opt {
    gen::Opt g;
    unsigned max_eph = 4, max_points = 8;
    int mo = -1, eph = -1, ce = -1;
    bool parallel = true;
    double many = 0.02; // probability of a large data set
    Opt()
    {
        g.max_m = 3;
        g.max_n = 3;
        g.max_r = 3;
        g.max_c = 5;
        g.min_arity = 2;
        g.max_arity = 3;
        g.uniform_arity = true;
        g.max_k = 5;
    }
};
inline const std::vector<std::string> &smooth_kernels()
{
    static const std::vector<std::string> k{"sum", "diff", "mul", "sig", "tanh", "ISRU", "sin", "cos", "exp", "gaussian", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum"};
    return k;
}
inline Conf conf(Rng &r, const Opt &o)
{
    Conf c;
    c.n_eph = o.eph >= 0 ? static_cast<unsigned>(o.eph) : r.coin(0.2) ? 0u : r.u(1, o.max_eph);
    c.p = gen::prog(r, o.g, c.n_eph);
    c.mo = o.mo >= 0 ? o.mo != 0 : r.coin(0.4);
    c.loss = (o.ce >= 0 ? o.ce != 0 : r.coin(0.3)) ? "CE" : "MSE";
    unsigned np = r.coin(o.many) ? r.u(o.max_points, 140u) : r.u(1, o.max_points);
    for (unsigned i = 0; i < np; ++i) {
        std::vector<double> x(c.nin()), y(c.p.m);
        for (auto &v : x) v = r.real(-2., 2.);
        if (i && r.coin(0.1)) x[0] = c.X[r.u(0, i - 1u)][0]; // repeated coordinates and points
        if (i && r.coin(0.04)) x = c.X.back();
        if (c.loss == "CE") {
            if (r.coin()) y[r.u(0, c.p.m - 1u)] = 1.;
            else {
                double s = 0.;
                for (auto &v : y) s += v = r.real(0.05, 1.);
                for (auto &v : y) v /= s;
            }
        } else
            for (auto &v : y) v = r.real(-3., 3.);
        c.X.push_back(x);
        c.Y.push_back(y);
    }
    if (o.parallel && r.coin(0.4)) {
        std::vector<unsigned> d;
        for (unsigned q = 1; q <= np; ++q)
            if (np % q == 0u) d.push_back(q);
        c.par = r.pick(d);
    }
    c.seed = static_cast<unsigned>(r.u64());
    return c;
}
inline dcgp::symbolic_regression make(const Conf &c)
{
    return dcgp::symbolic_regression(c.X, c.Y, c.p.r, c.p.c, c.p.l, c.p.arity[0], gen::kernels<double>(c.p), c.n_eph, c.mo, c.par, c.loss, c.seed);
}
inline std::vector<double> dv(Rng &r, const Conf &c, double span = 3.)
{
    std::vector<double> x;
    for (unsigned i = 0; i < c.n_eph; ++i) x.push_back(r.coin(0.1) ? static_cast<double>(r.u(0, 4)) - 2. : r.real(-span, span));
    for (auto g : gen::chromosome(r, c.p)) x.push_back(g);
    return x;
}
// prog with the chromosome of the decision vector
inline ref::Prog prog_of(const Conf &c, const std::vector<double> &x)
{
    auto p = c.p;
    p.x.clear();
    for (std::size_t i = c.n_eph; i < x.size(); ++i) p.x.push_back(static_cast<unsigned>(x[i]));
    return p;
}
template <typename S>
S point_loss(const std::string &loss, const std::vector<S> &o, const std::vector<double> &y)
{
    S t(0.);
    if (loss == "MSE") {
        for (std::size_t i = 0; i < o.size(); ++i) {
            S d = o[i] - S(y[i]);
            t = t + d * d;
        }
        return t / S(static_cast<double>(o.size()));
    }
    double mx = val(o[0]);
    for (auto &q : o) mx = std::max(mx, val(q));
    S s(0.);
    for (auto &q : o) s = s + exp(q - S(mx));
    S ls = log(s);
    for (std::size_t i = 0; i < o.size(); ++i) t = t - (o[i] - S(mx) - ls) * S(y[i]);
    return t;
}
// loss of the model x with constants cst (of number type S)
template <typename S>
S model_loss(const Conf &c, const ref::Prog &p, const std::vector<S> &cst)
{
    S t(0.);
    for (std::size_t i = 0; i < c.X.size(); ++i) {
        std::vector<S> in(c.X[i].begin(), c.X[i].end());
        in.insert(in.end(), cst.begin(), cst.end());
        t = t + point_loss<S>(c.loss, p.template eval<S>(in), c.Y[i]);
    }
    return t / S(static_cast<double>(c.X.size()));
}
inline ref::Cond loss(const Conf &c, const std::vector<double> &x)
{
    auto p = prog_of(c, x);
    return ref::conditioned([&] {
        std::vector<ref::N> cst(x.begin(), x.begin() + c.n_eph);
        return model_loss<ref::N>(c, p, cst).v;
    });
}
inline std::vector<ref::Cond> prediction(const Conf &c, const std::vector<double> &x, const std::vector<double> &pt)
{
    auto p = prog_of(c, x);
    return ref::conditioned_v([&] {
        std::vector<ref::N> in(pt.begin(), pt.end());
        in.insert(in.end(), x.begin(), x.begin() + c.n_eph);
        std::vector<double> v;
        for (auto &q : p.eval<ref::N>(in)) v.push_back(q.v);
        return v;
    });
}
// everything observable of a symbolic regression object that is not random (x: a decision vector)
inline std::string observe(const dcgp::symbolic_regression &s, const std::vector<double> &x, const Conf &c)
{
    std::ostringstream o;
    o.precision(17);
    auto b = s.get_bounds();
    o << "nobj" << s.get_nobj() << " nix" << s.get_nix() << " lb" << vh::vs(b.first) << " ub" << vh::vs(b.second) << " f" << vh::vs(s.fitness(x))
      << " ts" << static_cast<int>(s.get_thread_safety()) << " info" << s.get_extra_info() << " name" << s.get_name() << " pretty"
      << (prog_of(c, x).formula_size() < 2000. ? s.pretty(x) : "");
    if (c.n_eph) {
        for (auto &h : s.hessians_sparsity()) {
            o << " hs";
            for (auto &q : h) o << q.first << "," << q.second << ";";
        }
        o << " gs";
        for (auto &q : s.gradient_sparsity()) o << q.first << "," << q.second << ";";
    }
    return o.str();
}
} // namespace srg
#endif
