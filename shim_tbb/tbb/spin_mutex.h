#ifndef VSHIM_SPIN_MUTEX_H
#define VSHIM_SPIN_MUTEX_H
#include "vsched.h"
namespace tbb
{
class spin_mutex
{
public:
    class scoped_lock
    {
    public:
        scoped_lock() : m_m(nullptr) {}
        explicit scoped_lock(spin_mutex &m) : m_m(nullptr) { acquire(m); }
        scoped_lock(const scoped_lock &) = delete;
        scoped_lock &operator=(const scoped_lock &) = delete;
        ~scoped_lock()
        {
            if (m_m) release();
        }
        void acquire(spin_mutex &m)
        {
            vsched::delay();
            m.lock();
            m_m = &m;
        }
        bool try_acquire(spin_mutex &m)
        {
            if (!m.try_lock()) return false;
            m_m = &m;
            return true;
        }
        void release()
        {
            m_m->unlock();
            m_m = nullptr;
        }

    private:
        spin_mutex *m_m;
    };
    spin_mutex() = default;
    spin_mutex(const spin_mutex &) = delete;
    void lock() { m_m.lock(); }
    bool try_lock() { return m_m.try_lock(); }
    void unlock() { m_m.unlock(); }

private:
    std::mutex m_m;
};
} // namespace tbb
#endif
