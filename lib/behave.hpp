// What an object does: everything observable of expressions, problems, populations and logs, as text.
#ifndef BEHAVE_HPP
#define BEHAVE_HPP
#include "gen.hpp"
using namespace vh;
template <typename T>
using PcFun = std::function<std::vector<T>(const std::vector<T> &)>;
// phenotype corrections with a state of their own
template <typename T>
struct Corr {
    double k = 1.;
    std::vector<T> operator()(const std::vector<T> &x, PcFun<T> g) const
    {
        auto v = g(x);
        for (auto &q : v) q = q * k + x[0];
        return v;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned) { ar &k; }
};
using CorrD = Corr<double>;
using CorrV = Corr<audi::gdual_v>;
using FunD = std::function<std::vector<double>(const std::vector<double> &)>;
using FunV = std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v> &)>;
using VecD = std::vector<double>;
using VecV = std::vector<audi::gdual_v>;
// ---------------------------------------------------------------- expressions
template <typename E>
inline std::string behaviour(const E &e)
{
    std::string s = gen::observe(e);
    std::vector<double> pt(gen::n_in(e), 0.3), lab(e.get_m(), 0.25);
    s += str(e.loss(pt, lab, gen::plain_t::loss_type::MSE)) + " " + str(e.loss(pt, lab, gen::plain_t::loss_type::CE));
    std::ostringstream os;
    os << e;
    s += os.str();
    if constexpr (gen::is_ann<E>::value) {
        E c(e);
        double v = 0.;
        std::vector<double> gw(c.get_weights().size(), 0.), gb(c.get_biases().size(), 0.);
        c.d_loss(v, gw, gb, pt, lab, gen::plain_t::loss_type::MSE);
        s += str(v) + vs(gw) + vs(gb) + str(c.n_active_weights()) + str(c.n_active_weights(true));
        std::vector<std::vector<double>> X{pt, std::vector<double>(pt.size(), -0.4), pt}, Y{lab, lab, std::vector<double>(lab.size(), -1.)};
        s += str(c.sgd(X, Y, 0.01, 2u, "MSE", 0u, false)) + vs(c.get_weights()) + vs(c.get_biases());
    }
    return s + gen::future(e);
}
inline const std::vector<std::string> &outf()
{
    static const std::vector<std::string> v{"sig", "tanh", "ReLu", "ELU", "ISRU", "sum"};
    return v;
}
template <typename E>
void use(E &e, Rng &r, const ref::Prog &p)
{
    for (unsigned i = r.u(0, 5); i--;) gen::random_op(e, r, p);
    if constexpr (gen::is_ann<E>::value) {
        if (r.coin(0.3)) e.randomise_weights(0., 1., static_cast<unsigned>(r.u64()));
        if (r.coin(0.3)) e.randomise_biases(0., 1., static_cast<unsigned>(r.u64()));
        if (r.coin(0.3)) {
            try {
                e.set_output_f(r.pick(p.f));
            } catch (const std::exception &) { // an output connected to an input
            }
        }
    }
    if constexpr (std::is_same<E, gen::plain_t>::value) {
        if (r.coin(0.4)) e.set_phenotype_correction(CorrD{r.real(-2., 2.)});
        if (r.coin(0.1)) e.unset_phenotype_correction();
    }
    if constexpr (gen::is_weighted<E>::value) {
        if (r.coin(0.3)) e.set_weights(gen::smooth_values(r, e.get_weights().size()));
    }
}
#endif
