// Stand-in for AuDi's printing helpers (same output conventions).
#ifndef AUDI_IO_HPP
#define AUDI_IO_HPP
#include <algorithm>
#include <iostream>
#include <ostream>
#include <sstream>
#include <string>
#include <map>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace audi
{
template <typename... Args>
inline void stream(std::ostream &, const Args &...);

namespace detail
{
template <typename T>
inline void stream_impl(std::ostream &os, const T &x)
{
    os << x;
}
inline void stream_impl(std::ostream &os, const bool &b)
{
    os << (b ? "true" : "false");
}
template <typename T>
inline void stream_impl(std::ostream &os, const std::vector<T> &v)
{
    const typename std::vector<T>::size_type max_len = 5u;
    if (v.empty()) {
        os << "[]";
        return;
    }
    const auto n = std::min(v.size(), max_len);
    os << "[";
    for (typename std::vector<T>::size_type i = 0; i < n; ++i) {
        if (i) os << ", ";
        audi::stream(os, v[i]);
    }
    if (v.size() > n) os << ", ... ";
    os << "]";
}
template <typename T, typename U>
inline void stream_impl(std::ostream &os, const std::pair<T, U> &p)
{
    audi::stream(os, '(', p.first, ',', p.second, ')');
}
} // namespace detail
template <typename... Args>
inline void stream(std::ostream &os, const Args &... args)
{
    (detail::stream_impl(os, args), ...);
}
template <typename... Args>
inline void print(const Args &... args)
{
    stream(std::cout, args...);
}
} // namespace audi
#endif
