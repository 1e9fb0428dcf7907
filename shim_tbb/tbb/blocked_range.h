#ifndef VSHIM_BLOCKED_RANGE_H
#define VSHIM_BLOCKED_RANGE_H
#include <cstddef>
namespace tbb
{
template <typename V>
class blocked_range
{
public:
    using const_iterator = V;
    using size_type = std::size_t;
    blocked_range(V b, V e, size_type g = 1) : m_b(b), m_e(e), m_g(g) {}
    V begin() const { return m_b; }
    V end() const { return m_e; }
    size_type size() const { return static_cast<size_type>(m_e - m_b); }
    size_type grainsize() const { return m_g; }
    bool empty() const { return !(m_b < m_e); }

private:
    V m_b, m_e;
    size_type m_g;
};
} // namespace tbb
#endif
