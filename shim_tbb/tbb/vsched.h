// Stand-in for the part of TBB dcgp uses, for builds under ThreadSanitizer only (the system's libtbb is not
// instrumented). Every chunk of a parallel loop runs in its own thread, started in a shuffled order, with injected
// delays at the start of a chunk and around the lock. The order in which chunks finish is recorded.
#ifndef VSCHED_H
#define VSCHED_H
#include <atomic>
#include <chrono>
#include <cstdint>
#include <exception>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
namespace vsched
{
inline std::atomic<std::uint64_t> &state()
{
    static std::atomic<std::uint64_t> s{12345};
    return s;
}
inline std::uint64_t next()
{
    std::uint64_t z = state().fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline void delay()
{
    switch (next() % 4u) {
        case 0: break;
        case 1: std::this_thread::yield(); break;
        default: std::this_thread::sleep_for(std::chrono::microseconds(next() % 60u));
    }
}
struct Log {
    std::mutex mx;
    std::set<std::vector<unsigned>> orders;
    unsigned long long loops = 0, chunks = 0;
};
inline Log &log()
{
    static Log l;
    return l;
}
// body(k) for k in [0, n)
template <typename F>
void run(std::size_t n, const F &body)
{
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; ++i) order[i] = i;
    for (std::size_t i = n; i > 1u; --i) std::swap(order[i - 1u], order[next() % i]);
    std::vector<unsigned> finished;
    std::mutex fm;
    std::vector<std::exception_ptr> err(n);
    std::vector<std::thread> th;
    for (auto k : order)
        th.emplace_back([&, k] {
            delay();
            try {
                body(k);
            } catch (...) {
                err[k] = std::current_exception();
            }
            // try_lock only: the bookkeeping must not order the chunks
            if (fm.try_lock()) {
                finished.push_back(static_cast<unsigned>(k));
                fm.unlock();
            }
        });
    for (auto &t : th) t.join();
    {
        std::lock_guard<std::mutex> l(log().mx);
        ++log().loops;
        log().chunks += n;
        if (log().orders.size() < 100000u) log().orders.insert(finished);
    }
    for (auto &e : err)
        if (e) std::rethrow_exception(e);
}
} // namespace vsched
#endif
