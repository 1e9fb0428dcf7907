// What problems and algorithms do, as text.
#ifndef BEHAVE_P_HPP
#define BEHAVE_P_HPP
#include "behave.hpp"
#include "srg.hpp"
#include <pagmo/population.hpp>
inline std::string show_problem(const dcgp::symbolic_regression &s, const srg::Conf &c, const std::vector<std::vector<double>> &xs, bool der)
{
    std::string o;
    for (auto &x : xs) {
        o += srg::observe(s, x, c) + vs(s.predict(c.X[0], x));
        if (der) o += vs(s.gradient(x));
        for (auto &h : s.hessians_sparsity()) o += str(h.size());
        if (der)
            for (auto &h : s.hessians(x)) o += vs(h);
        o += vs(s.fitness(x));
        if (srg::prog_of(c, x).formula_size() < 2000.) o += s.prettier(x);
        o += gen::observe(s.get_cgp());
    }
    return o + gen::future(s.get_cgp());
}
inline std::string pop_str(const pagmo::population &p)
{
    std::ostringstream s;
    s.precision(17);
    for (auto &q : p.get_x()) s << vs(q);
    for (auto &q : p.get_f()) s << vs(q);
    s << vs(p.get_ID()) << " " << p.get_problem().get_fevals() << " " << p.get_problem().get_gevals();
    return s.str();
}
template <typename T>
inline std::string show(const T &v) { return str(v); }
inline std::string show(const std::vector<double> &v) { return vs(v); }
inline bool is_fin(double v) { return std::isfinite(v); }
inline bool is_fin(const std::vector<double> &v)
{
    return std::all_of(v.begin(), v.end(), [](double q) { return std::isfinite(q); });
}
template <typename T>
inline bool is_fin(const T &) { return true; }
template <typename A>
inline std::string log_str(const A &a, bool &fin)
{
    std::string s;
    for (auto &l : a.get_log()) {
        std::apply([&](const auto &...q) { ((s += show(q) + " "), ...); ((fin = fin && is_fin(q)), ...); }, l);
        s += "|";
    }
    return s;
}
#endif
