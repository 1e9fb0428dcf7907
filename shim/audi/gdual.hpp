// Stand-in for audi::gdual: truncated multivariate Taylor polynomials over double or vectorized<double>.
// Symbol sets are kept in lexicographic order and prefixed with "d", as AuDi does.
#ifndef AUDI_GDUAL_HPP
#define AUDI_GDUAL_HPP
#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <map>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <boost/lexical_cast.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <audi/io.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
template <typename Cf>
class gdual
{
public:
    using cf_type = Cf;
    using key_type = std::vector<unsigned>;
    using SymbolSet = std::vector<std::string>;

    gdual() : m_order(0u)
    {
        m_p.emplace(key_type{}, Cf(0.));
    }
    gdual(const gdual &) = default;
    gdual(gdual &&) = default;
    gdual &operator=(const gdual &) = default;
    gdual &operator=(gdual &&) = default;

    // Constant. Explicit, as in AuDi.
    template <typename U, std::enable_if_t<std::is_constructible<Cf, const U &>::value
                                               && !std::is_same<std::decay_t<U>, gdual>::value, int> = 0>
    explicit gdual(const U &value) : m_order(0u)
    {
        m_p.emplace(key_type{}, Cf(value));
    }
    explicit gdual(std::initializer_list<double> value) : m_order(0u)
    {
        m_p.emplace(key_type{}, Cf(value));
    }
    // Variable: value + d<symbol>
    template <typename U, std::enable_if_t<std::is_constructible<Cf, const U &>::value, int> = 0>
    explicit gdual(const U &value, const std::string &symbol, unsigned order) : m_order(order)
    {
        check_name(symbol);
        if (order == 0u) {
            m_p.emplace(key_type{}, Cf(value));
        } else {
            m_ss.push_back("d" + symbol);
            m_p.emplace(key_type{0u}, Cf(value));
            m_p.emplace(key_type{1u}, Cf(1.));
        }
    }
    explicit gdual(std::initializer_list<double> value, const std::string &symbol, unsigned order)
        : gdual(Cf(value), symbol, order)
    {
    }

    unsigned get_order() const
    {
        return m_order;
    }
    unsigned degree() const
    {
        unsigned d = 0;
        for (const auto &t : m_p) d = std::max(d, deg(t.first));
        return d;
    }
    SymbolSet get_symbol_set() const
    {
        SymbolSet r;
        for (const auto &s : m_ss) r.push_back(s.substr(1));
        return r;
    }
    auto get_symbol_set_size() const
    {
        return m_ss.size();
    }
    void extend_symbol_set(const std::vector<std::string> &ss)
    {
        auto merged = merge_symbols(m_ss, sorted(ss));
        if (merged != m_ss) remap(merged);
    }
    Cf constant_cf() const
    {
        auto it = m_p.find(key_type(m_ss.size(), 0u));
        return it == m_p.end() ? Cf(0.) : it->second;
    }
    Cf find_cf(const key_type &c) const
    {
        if (deg(c) > m_order)
            throw std::invalid_argument("requested coefficient is beyond the truncation order");
        if (c.size() != m_ss.size())
            throw std::invalid_argument("exponent vector size does not match the symbol set");
        auto it = m_p.find(c);
        return it == m_p.end() ? Cf(0.) : it->second;
    }
    Cf find_cf(std::initializer_list<unsigned> c) const
    {
        return find_cf(key_type(c));
    }
    Cf get_derivative(const key_type &c) const
    {
        double f = 1.;
        for (auto e : c)
            for (unsigned k = 2; k <= e; ++k) f *= k;
        return find_cf(c) * f;
    }
    Cf get_derivative(std::initializer_list<unsigned> c) const
    {
        return get_derivative(key_type(c));
    }
    Cf get_derivative(const std::unordered_map<std::string, unsigned> &d) const
    {
        unsigned tot = 0;
        for (const auto &e : d) tot += e.second;
        if (tot > m_order) throw std::invalid_argument("requested derivative is beyond the truncation order");
        key_type c(m_ss.size(), 0u);
        for (const auto &e : d) {
            auto it = std::find(m_ss.begin(), m_ss.end(), e.first);
            if (it == m_ss.end()) {
                if (e.second) return Cf(0.);
                continue;
            }
            c[static_cast<std::size_t>(it - m_ss.begin())] = e.second;
        }
        return get_derivative(c);
    }
    template <typename V>
    auto evaluate(const std::unordered_map<std::string, V> &d) const
    {
        Cf r(0.);
        for (const auto &t : m_p) {
            Cf term(t.second);
            for (std::size_t i = 0; i < m_ss.size(); ++i)
                for (unsigned k = 0; k < t.first[i]; ++k) term *= d.at(m_ss[i]);
            r += term;
        }
        return r;
    }
    // Terms of a given degree removed / derived gduals
    gdual trim(double eps) const
    {
        gdual r(*this);
        for (auto it = r.m_p.begin(); it != r.m_p.end();) {
            if (small(it->second, eps))
                it = r.m_p.erase(it);
            else
                ++it;
        }
        return r;
    }
    bool is_zero(double tol) const
    {
        for (const auto &t : m_p)
            if (!small(t.second, tol)) return false;
        return true;
    }

    gdual &operator+=(const gdual &o)
    {
        return add(o, 1.);
    }
    gdual &operator-=(const gdual &o)
    {
        return add(o, -1.);
    }
    gdual &operator*=(const gdual &o)
    {
        return *this = mul(*this, o);
    }
    gdual &operator/=(const gdual &o)
    {
        return *this = div(*this, o);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator+=(const U &u)
    {
        add_constant(Cf(u));
        return *this;
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator-=(const U &u)
    {
        add_constant(-Cf(u));
        return *this;
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator*=(const U &u)
    {
        for (auto &t : m_p) t.second *= Cf(u);
        return *this;
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator/=(const U &u)
    {
        for (auto &t : m_p) t.second /= Cf(u);
        return *this;
    }
    gdual operator-() const
    {
        gdual r(*this);
        for (auto &t : r.m_p) t.second = -t.second;
        return r;
    }
    gdual operator+() const
    {
        return *this;
    }
    friend gdual operator+(gdual a, const gdual &b)
    {
        a += b;
        return a;
    }
    friend gdual operator-(gdual a, const gdual &b)
    {
        a -= b;
        return a;
    }
    friend gdual operator*(const gdual &a, const gdual &b)
    {
        return mul(a, b);
    }
    friend gdual operator/(const gdual &a, const gdual &b)
    {
        return div(a, b);
    }
#define AUDI_SHIM_MIX(OP)                                                                                              \
    template <typename U,                                                                                              \
              std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>                   \
    friend gdual operator OP(const gdual &a, const U &b)                                                               \
    {                                                                                                                  \
        return a OP gdual(b);                                                                                          \
    }                                                                                                                  \
    template <typename U,                                                                                              \
              std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>                   \
    friend gdual operator OP(const U &a, const gdual &b)                                                               \
    {                                                                                                                  \
        return gdual(a) OP b;                                                                                          \
    }
    AUDI_SHIM_MIX(+)
    AUDI_SHIM_MIX(-)
    AUDI_SHIM_MIX(*)
    AUDI_SHIM_MIX(/)
#undef AUDI_SHIM_MIX
    friend bool operator==(const gdual &a, const gdual &b)
    {
        gdual d(a);
        d -= b;
        for (const auto &t : d.m_p)
            if (!(t.second == Cf(0.))) return false;
        return true;
    }
    friend bool operator!=(const gdual &a, const gdual &b)
    {
        return !(a == b);
    }
    friend bool operator<(const gdual &a, const gdual &b)
    {
        return a.constant_cf() < b.constant_cf();
    }
    friend bool operator>(const gdual &a, const gdual &b)
    {
        return a.constant_cf() > b.constant_cf();
    }
    friend std::ostream &operator<<(std::ostream &os, const gdual &d)
    {
        bool first = true;
        for (const auto &t : d.m_p) {
            os << (first ? "" : "+") << t.second;
            for (std::size_t i = 0; i < d.m_ss.size(); ++i)
                if (t.first[i]) {
                    os << "*" << d.m_ss[i];
                    if (t.first[i] > 1u) os << "**" << t.first[i];
                }
            first = false;
        }
        if (first) os << "0";
        return os;
    }

    // f(x) from its Taylor coefficients at the constant coefficient of x.
    gdual compose(const std::vector<Cf> &c) const
    {
        gdual p(*this);
        p.m_p.erase(key_type(m_ss.size(), 0u));
        gdual r(c.back());
        r.m_order = m_order;
        for (std::size_t k = c.size() - 1u; k-- > 0u;) {
            r = mul(r, p);
            r.add_constant(c[k]);
        }
        r.m_order = m_order;
        return r;
    }
    // Applies f to every coefficient (used by the elementwise abs).
    template <typename F>
    void for_each_cf(F f)
    {
        for (auto &t : m_p) f(t.second);
    }

private:
    static unsigned deg(const key_type &k)
    {
        return std::accumulate(k.begin(), k.end(), 0u);
    }
    static bool small(double x, double eps)
    {
        return std::abs(x) <= eps;
    }
    static bool small(const vectorized<double> &v, double eps)
    {
        return std::all_of(v.begin(), v.end(), [eps](double x) { return std::abs(x) <= eps; });
    }
    static void check_name(const std::string &s)
    {
        if (!s.empty() && s[0] == 'd')
            throw std::invalid_argument("symbol names cannot start with the letter d");
    }
    static SymbolSet sorted(SymbolSet s)
    {
        std::sort(s.begin(), s.end());
        s.erase(std::unique(s.begin(), s.end()), s.end());
        return s;
    }
    static SymbolSet merge_symbols(const SymbolSet &a, const SymbolSet &b)
    {
        SymbolSet r;
        std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
        return r;
    }
    void remap(const SymbolSet &ss)
    {
        std::vector<std::size_t> pos;
        for (const auto &s : m_ss)
            pos.push_back(static_cast<std::size_t>(std::lower_bound(ss.begin(), ss.end(), s) - ss.begin()));
        std::map<key_type, Cf> p;
        for (auto &t : m_p) {
            key_type k(ss.size(), 0u);
            for (std::size_t i = 0; i < pos.size(); ++i) k[pos[i]] = t.first[i];
            p.emplace(std::move(k), t.second);
        }
        m_p = std::move(p);
        m_ss = ss;
    }
    void add_constant(const Cf &c)
    {
        key_type k(m_ss.size(), 0u);
        auto it = m_p.find(k);
        if (it == m_p.end())
            m_p.emplace(std::move(k), c);
        else
            it->second += c;
    }
    gdual &add(const gdual &o, double sign)
    {
        if (&o == this) return add(gdual(o), sign);
        const gdual *po = &o;
        gdual tmp;
        if (m_ss != o.m_ss) {
            auto ss = merge_symbols(m_ss, o.m_ss);
            if (ss != m_ss) remap(ss);
            if (ss != o.m_ss) {
                tmp = o;
                tmp.remap(ss);
                po = &tmp;
            }
        }
        for (const auto &t : po->m_p) {
            auto it = m_p.find(t.first);
            if (it == m_p.end())
                m_p.emplace(t.first, sign > 0 ? t.second : -t.second);
            else if (sign > 0)
                it->second += t.second;
            else
                it->second -= t.second;
        }
        m_order = std::max(m_order, po->m_order);
        return *this;
    }
    static gdual mul(const gdual &a, const gdual &b)
    {
        if (a.m_ss != b.m_ss) {
            auto ss = merge_symbols(a.m_ss, b.m_ss);
            gdual x(a), y(b);
            if (ss != x.m_ss) x.remap(ss);
            if (ss != y.m_ss) y.remap(ss);
            return mul(x, y);
        }
        gdual r;
        r.m_p.clear();
        r.m_ss = a.m_ss;
        r.m_order = std::max(a.m_order, b.m_order);
        key_type k(a.m_ss.size());
        for (const auto &s : a.m_p) {
            const auto ds = deg(s.first);
            for (const auto &t : b.m_p) {
                if (ds + deg(t.first) > r.m_order) continue;
                for (std::size_t i = 0; i < k.size(); ++i) k[i] = s.first[i] + t.first[i];
                auto it = r.m_p.find(k);
                if (it == r.m_p.end())
                    r.m_p.emplace(k, s.second * t.second);
                else
                    it->second += s.second * t.second;
            }
        }
        return r;
    }
    static gdual div(const gdual &a, const gdual &b)
    {
        // a / b: constant denominators divide coefficientwise, others through the geometric series.
        const auto b0 = b.constant_cf();
        if (b.m_p.size() == 1u && deg(b.m_p.begin()->first) == 0u) {
            gdual r(a);
            if (r.m_ss != b.m_ss) r.remap(merge_symbols(r.m_ss, b.m_ss));
            for (auto &t : r.m_p) t.second /= b0;
            r.m_order = std::max(a.m_order, b.m_order);
            return r;
        }
        const auto order = std::max(a.m_order, b.m_order);
        std::vector<Cf> c;
        Cf v = Cf(1.) / b0;
        for (unsigned k = 0; k <= order; ++k) {
            c.push_back(v);
            v = -v / b0;
        }
        gdual bb(b);
        bb.m_order = order;
        return mul(a, bb.compose(c));
    }
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_p;
        ar &m_ss;
        ar &m_order;
    }
    std::map<key_type, Cf> m_p;
    SymbolSet m_ss;
    unsigned m_order;
};

using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;
} // namespace audi
#endif
