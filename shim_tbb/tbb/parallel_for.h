#ifndef VSHIM_PARALLEL_FOR_H
#define VSHIM_PARALLEL_FOR_H
#include "blocked_range.h"
#include "vsched.h"
namespace tbb
{
template <typename I, typename J, typename K, typename F>
void parallel_for(I first, J last, K step, const F &f)
{
    if (!(first < static_cast<I>(last))) return;
    std::size_t n = (static_cast<std::size_t>(last - first) + static_cast<std::size_t>(step) - 1u) / static_cast<std::size_t>(step);
    vsched::run(n, [&](std::size_t k) { f(static_cast<I>(first + static_cast<I>(k) * static_cast<I>(step))); });
}
template <typename I, typename F, typename = decltype(std::declval<const F &>()(std::declval<I>()))>
void parallel_for(I first, I last, const F &f)
{
    parallel_for(first, last, I(1), f);
}
template <typename V, typename F>
void parallel_for(const blocked_range<V> &r, const F &f)
{
    std::size_t g = r.grainsize() ? r.grainsize() : 1u, n = (r.size() + g - 1u) / g;
    vsched::run(n, [&](std::size_t k) {
        auto b = r.begin() + static_cast<V>(k * g);
        auto e = (k + 1u) * g >= r.size() ? r.end() : b + static_cast<V>(g);
        f(blocked_range<V>(b, e, g));
    });
}
} // namespace tbb
#endif
