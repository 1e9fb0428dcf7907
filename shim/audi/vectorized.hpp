// Stand-in for AuDi's vectorized coefficient (AuDi is not installable offline).
// Elementwise arithmetic with broadcasting of size-one vectors, as in AuDi.
#ifndef AUDI_VECTORIZED_HPP
#define AUDI_VECTORIZED_HPP
#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

#include <boost/serialization/access.hpp>
#include <boost/serialization/vector.hpp>

namespace audi
{
template <typename T>
class vectorized
{
public:
    using v_type = T;
    using value_type = T;
    using size_type = typename std::vector<T>::size_type;

    vectorized() : m_c({T(0)}) {}
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    explicit vectorized(U v) : m_c({static_cast<T>(v)})
    {
    }
    explicit vectorized(const std::vector<T> &c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (initializer list)");
    }
    explicit vectorized(std::vector<T> &&c) : m_c(std::move(c))
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (initializer list)");
    }
    explicit vectorized(std::initializer_list<T> c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (initializer list)");
    }

    size_type size() const
    {
        return m_c.size();
    }
    void resize(size_type n, const T &v = T())
    {
        m_c.resize(n, v);
    }
    T &operator[](size_type i)
    {
        return m_c[m_c.size() == 1u ? 0u : i];
    }
    const T &operator[](size_type i) const
    {
        return m_c[m_c.size() == 1u ? 0u : i];
    }
    auto begin()
    {
        return m_c.begin();
    }
    auto end()
    {
        return m_c.end();
    }
    auto begin() const
    {
        return m_c.begin();
    }
    auto end() const
    {
        return m_c.end();
    }
    const std::vector<T> &get_v() const
    {
        return m_c;
    }
    void set_value(size_type i, const T &v)
    {
        m_c[i] = v;
    }

    template <typename F>
    vectorized map(F f) const
    {
        vectorized r(*this);
        for (auto &x : r.m_c) x = f(x);
        return r;
    }
    template <typename F>
    static vectorized zip(const vectorized &a, const vectorized &b, F f)
    {
        const auto n = common_size(a, b);
        std::vector<T> r(n);
        for (size_type i = 0; i < n; ++i) r[i] = f(a[i], b[i]);
        return vectorized(std::move(r));
    }
    vectorized &operator+=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T x, T y) { return x + y; });
    }
    vectorized &operator-=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T x, T y) { return x - y; });
    }
    vectorized &operator*=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T x, T y) { return x * y; });
    }
    vectorized &operator/=(const vectorized &o)
    {
        return *this = zip(*this, o, [](T x, T y) { return x / y; });
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    vectorized &operator+=(U o)
    {
        return *this += vectorized(o);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    vectorized &operator-=(U o)
    {
        return *this -= vectorized(o);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    vectorized &operator*=(U o)
    {
        return *this *= vectorized(o);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    vectorized &operator/=(U o)
    {
        return *this /= vectorized(o);
    }
    vectorized operator-() const
    {
        return map([](T x) { return -x; });
    }
    vectorized operator+() const
    {
        return *this;
    }
    friend vectorized operator+(vectorized a, const vectorized &b)
    {
        a += b;
        return a;
    }
    friend vectorized operator-(vectorized a, const vectorized &b)
    {
        a -= b;
        return a;
    }
    friend vectorized operator*(vectorized a, const vectorized &b)
    {
        a *= b;
        return a;
    }
    friend vectorized operator/(vectorized a, const vectorized &b)
    {
        a /= b;
        return a;
    }
#define AUDI_SHIM_MIX(OP)                                                                                              \
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>                                     \
    friend vectorized operator OP(const vectorized &a, U b)                                                            \
    {                                                                                                                  \
        return a OP vectorized(b);                                                                                     \
    }                                                                                                                  \
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>                                     \
    friend vectorized operator OP(U a, const vectorized &b)                                                            \
    {                                                                                                                  \
        return vectorized(a) OP b;                                                                                     \
    }
    AUDI_SHIM_MIX(+)
    AUDI_SHIM_MIX(-)
    AUDI_SHIM_MIX(*)
    AUDI_SHIM_MIX(/)
#undef AUDI_SHIM_MIX
    // Comparisons: as in AuDi, equal sizes compare as std::vector, a size-one operand compares with all elements.
    friend bool operator==(const vectorized &a, const vectorized &b)
    {
        if (a.size() == b.size()) return a.m_c == b.m_c;
        if (a.size() == 1u) return std::all_of(b.begin(), b.end(), [&](const T &x) { return a.m_c[0] == x; });
        if (b.size() == 1u) return std::all_of(a.begin(), a.end(), [&](const T &x) { return x == b.m_c[0]; });
        return false;
    }
    friend bool operator!=(const vectorized &a, const vectorized &b)
    {
        return !(a == b);
    }
    friend bool operator<(const vectorized &a, const vectorized &b)
    {
        if (a.size() == b.size()) return a.m_c < b.m_c;
        if (a.size() == 1u) return std::all_of(b.begin(), b.end(), [&](const T &x) { return a.m_c[0] < x; });
        if (b.size() == 1u) return std::all_of(a.begin(), a.end(), [&](const T &x) { return x < b.m_c[0]; });
        throw std::invalid_argument("Coefficients of different sizes cannot be compared");
    }
    friend bool operator>(const vectorized &a, const vectorized &b)
    {
        return b < a;
    }
    friend bool operator<=(const vectorized &a, const vectorized &b)
    {
        return a < b || a == b;
    }
    friend bool operator>=(const vectorized &a, const vectorized &b)
    {
        return b < a || a == b;
    }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &v)
    {
        os << "[";
        for (size_type i = 0; i < v.size(); ++i) os << (i ? ", " : "") << v.m_c[i];
        return os << "]";
    }

private:
    static size_type common_size(const vectorized &a, const vectorized &b)
    {
        if (a.size() == b.size() || b.size() == 1u) return a.size();
        if (a.size() == 1u) return b.size();
        throw std::invalid_argument("Coefficients of different sizes in arithmetic operation");
    }
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
    }
    std::vector<T> m_c;
};
} // namespace audi
#endif
