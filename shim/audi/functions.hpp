// Stand-in for AuDi's elementary functions.
#ifndef AUDI_FUNCTIONS_HPP
#define AUDI_FUNCTIONS_HPP
#include <cmath>
#include <type_traits>
#include <vector>

#include <audi/gdual.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
#define AUDI_SHIM_F1(f)                                                                                                \
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>                                     \
    inline double f(T x)                                                                                               \
    {                                                                                                                  \
        return std::f(static_cast<double>(x));                                                                         \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    inline vectorized<T> f(const vectorized<T> &x)                                                                     \
    {                                                                                                                  \
        return x.map([](T a) { return std::f(a); });                                                                   \
    }
AUDI_SHIM_F1(exp)
AUDI_SHIM_F1(log)
AUDI_SHIM_F1(sin)
AUDI_SHIM_F1(cos)
AUDI_SHIM_F1(tan)
AUDI_SHIM_F1(sinh)
AUDI_SHIM_F1(cosh)
AUDI_SHIM_F1(tanh)
AUDI_SHIM_F1(sqrt)
AUDI_SHIM_F1(cbrt)
AUDI_SHIM_F1(abs)
AUDI_SHIM_F1(asin)
AUDI_SHIM_F1(acos)
AUDI_SHIM_F1(atan)
AUDI_SHIM_F1(erf)
#undef AUDI_SHIM_F1

template <typename T, typename U, std::enable_if_t<std::is_arithmetic<T>::value && std::is_arithmetic<U>::value, int> = 0>
inline double pow(T x, U y)
{
    return std::pow(static_cast<double>(x), static_cast<double>(y));
}
template <typename T>
inline vectorized<T> pow(const vectorized<T> &x, double y)
{
    return x.map([y](T a) { return std::pow(a, y); });
}

template <typename C>
inline gdual<C> exp(const gdual<C> &d)
{
    std::vector<C> c;
    C v = audi::exp(d.constant_cf());
    for (unsigned k = 0; k <= d.get_order(); ++k) {
        c.push_back(v);
        v = v / static_cast<double>(k + 1u);
    }
    return d.compose(c);
}
template <typename C>
inline gdual<C> log(const gdual<C> &d)
{
    const C x = d.constant_cf();
    std::vector<C> c{audi::log(x)};
    C v = C(1.) / x;
    for (unsigned k = 1; k <= d.get_order(); ++k) {
        c.push_back(v / static_cast<double>(k));
        v = -v / x;
    }
    return d.compose(c);
}
template <typename C>
inline gdual<C> sincos_impl(const gdual<C> &d, int phase)
{
    const C s = audi::sin(d.constant_cf()), q = audi::cos(d.constant_cf());
    std::vector<C> c;
    double f = 1.;
    for (unsigned k = 0; k <= d.get_order(); ++k) {
        if (k) f *= k;
        switch ((k + static_cast<unsigned>(phase)) % 4u) {
            case 0:
                c.push_back(s / f);
                break;
            case 1:
                c.push_back(q / f);
                break;
            case 2:
                c.push_back(-s / f);
                break;
            default:
                c.push_back(-q / f);
        }
    }
    return d.compose(c);
}
template <typename C>
inline gdual<C> sin(const gdual<C> &d)
{
    return sincos_impl(d, 0);
}
template <typename C>
inline gdual<C> cos(const gdual<C> &d)
{
    return sincos_impl(d, 1);
}
template <typename C>
inline gdual<C> tan(const gdual<C> &d)
{
    return sin(d) / cos(d);
}
template <typename C>
inline gdual<C> sinh(const gdual<C> &d)
{
    return (exp(d) - exp(-d)) / 2.;
}
template <typename C>
inline gdual<C> cosh(const gdual<C> &d)
{
    return (exp(d) + exp(-d)) / 2.;
}
template <typename C>
inline gdual<C> tanh(const gdual<C> &d)
{
    // t' = 1 - t^2
    std::vector<C> c{audi::tanh(d.constant_cf())};
    for (unsigned k = 0; k < d.get_order(); ++k) {
        C v(k == 0u ? 1. : 0.);
        for (unsigned i = 0; i <= k; ++i) v = v - c[i] * c[k - i];
        c.push_back(v / static_cast<double>(k + 1u));
    }
    return d.compose(c);
}
template <typename C>
inline gdual<C> pow(const gdual<C> &d, double alpha)
{
    const C x = d.constant_cf();
    std::vector<C> c;
    double b = 1.;
    for (unsigned k = 0; k <= d.get_order(); ++k) {
        c.push_back(b == 0. ? C(0.) : audi::pow(x, alpha - k) * b);
        b = b * (alpha - k) / (k + 1.);
    }
    return d.compose(c);
}
template <typename C>
inline gdual<C> sqrt(const gdual<C> &d)
{
    const C x = d.constant_cf();
    std::vector<C> c{audi::sqrt(x)};
    double b = .5;
    for (unsigned k = 1; k <= d.get_order(); ++k) {
        c.push_back(C(1.) / audi::sqrt(x) * b / audi::pow(x, static_cast<double>(k - 1u)));
        b = b * (.5 - k) / (k + 1.);
    }
    return d.compose(c);
}
inline gdual<double> abs(const gdual<double> &d)
{
    return d.constant_cf() < 0. ? -d : d;
}
inline gdual<vectorized<double>> abs(const gdual<vectorized<double>> &d)
{
    // Elementwise: every component follows the sign of its own constant coefficient.
    const auto x = d.constant_cf();
    auto sign = x.map([](double a) { return a < 0. ? -1. : 1.; });
    auto r(d);
    r.for_each_cf([&sign](vectorized<double> &c) { c *= sign; });
    return r;
}
} // namespace audi
#endif
