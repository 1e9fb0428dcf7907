// C10: the global random device. Offline checker over recorded concurrent histories: every number drawn is placed in the
// sequence of the seeding it belongs to; positions must be used exactly once, without gaps, in the order of each thread
// and in real time order.
#include "gen.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/rng.hpp>
#include <chrono>
#include <thread>
using namespace vh;
using dcgp::random_device;
unsigned other_unit_next();
void other_unit_seed(unsigned);

struct Ev {
    int kind; // 0 draw, 1 seed
    unsigned value;
    std::uint64_t t0, t1; // real time interval
};
static std::vector<unsigned> serial(unsigned seed, std::size_t n)
{
    random_device::set_seed(seed);
    std::vector<unsigned> v(n);
    for (auto &x : v) x = random_device::next();
    return v;
}
static unsigned draw(int how)
{
    switch (how) {
        case 0: return random_device::next();
        case 1: return other_unit_next();
        // objects built without a seed take theirs from the device
        case 2: return dcgp::es4cgp().get_seed();
        case 3: return dcgp::mes4cgp().get_seed();
        case 4: return dcgp::moes4cgp().get_seed();
        default: return dcgp::momes4cgp().get_seed();
    }
}
static void reproducible(Rng &r)
{
    static const std::vector<unsigned> special{0u, 1u, 2u, 5489u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    unsigned s = r.coin(0.3) ? r.pick(special) : static_cast<unsigned>(r.u64());
    unsigned s2 = s ^ (1u << r.u(0, 31));
    std::size_t n = r.coin(0.2) ? r.u(600, 2000) : r.u(1, 60);
    auto a = serial(s, n);
    if (r.coin()) for (unsigned k = r.u(0, 700); k--;) random_device::next();
    if (r.coin()) std::thread([&] { random_device::set_seed(s2); random_device::next(); }).join();
    std::vector<unsigned> b;
    // seeded by one thread or translation unit, drawn by others
    int mode = static_cast<int>(r.u(0, 3));
    if (mode == 0) random_device::set_seed(s);
    else if (mode == 1) other_unit_seed(s);
    else std::thread([&] { random_device::set_seed(s); }).join();
    while (b.size() < n) {
        int how = static_cast<int>(r.u(0, 9));
        if (how > 5) how = 0;
        if (mode == 3 && r.coin(0.1)) {
            unsigned v = 0;
            std::thread([&] { v = draw(how); }).join();
            b.push_back(v);
        } else
            b.push_back(draw(how));
    }
    auto d = "seed " + str(s) + " numbers " + str(n) + " mode " + str(mode);
    if (a != b) violation("sequence not reproducible", d);
    auto c = serial(s2, std::min<std::size_t>(n, 8u));
    if (n >= 8u && std::equal(c.begin(), c.end(), a.begin())) violation("seeds give equal sequences", d + " and " + str(s2));
    count("numbers compared serially", n);
    // expressions built without a seed
    dcgp::kernel_set<double> ks({"sum", "diff", "mul", "sig"}), ka({"sig", "tanh", "sum"});
    random_device::set_seed(s);
    dcgp::expression<double> e0(2, 2, 2, 3, 2, 2, ks()), e1(2, 2, 2, 3, 2, std::vector<unsigned>{2, 1, 3}, ks(), 0u);
    dcgp::expression_weighted<double> w0(2, 2, 2, 3, 2, 2, ks()), w1(2, 2, 2, 3, 2, std::vector<unsigned>{2, 1, 3}, ks());
    dcgp::expression_ann n0(2, 2, 2, 3, 2, 2, ka()), n1(2, 2, 2, 3, 2, std::vector<unsigned>{2, 1, 3}, ka());
    dcgp::symbolic_regression s0({{1.}}, {{2.}}, 1, 3, 2, 2, ks(), 0);
    auto q = serial(s, 8);
    auto eq = [&](const char *what, auto &x, auto y) {
        if (gen::observe(x) != gen::observe(y) || gen::future(x) != gen::future(y)) violation(std::string("default seed of ") + what, d);
    };
    eq("expression", e0, dcgp::expression<double>(2, 2, 2, 3, 2, 2, ks(), 0u, q[0]));
    eq("expression", e1, dcgp::expression<double>(2, 2, 2, 3, 2, std::vector<unsigned>{2, 1, 3}, ks(), 0u, q[1]));
    eq("expression_weighted", w0, dcgp::expression_weighted<double>(2, 2, 2, 3, 2, 2, ks(), q[2]));
    eq("expression_weighted", w1, dcgp::expression_weighted<double>(2, 2, 2, 3, 2, std::vector<unsigned>{2, 1, 3}, ks(), q[3]));
    eq("expression_ann", n0, dcgp::expression_ann(2, 2, 2, 3, 2, 2, ka(), q[4]));
    eq("expression_ann", n1, dcgp::expression_ann(2, 2, 2, 3, 2, std::vector<unsigned>{2, 1, 3}, ka(), q[5]));
    dcgp::symbolic_regression s1({{1.}}, {{2.}}, 1, 3, 2, 2, ks(), 0, false, 0u, "MSE", q[6]);
    if (gen::observe(s0.get_cgp()) != gen::observe(s1.get_cgp()) || gen::future(s0.get_cgp()) != gen::future(s1.get_cgp()))
        violation("default seed of symbolic_regression", d);
    count("objects built with a default seed", 7);
    evaluated("serial " + d, n > 1u);
}
static void concurrent(Rng &r, bool reseeding)
{
    unsigned nt = r.u(2, 6), per = r.u(20, 400);
    auto seed0 = static_cast<unsigned>(r.u64());
    std::vector<unsigned> seeds{seed0};
    unsigned nseed = reseeding ? r.u(1, 6) : 0u, seeders = nseed ? r.u(1, 2) : 0u;
    for (unsigned i = 0; i < nseed * seeders; ++i) seeds.push_back(seed0 + 77u * (i + 1u));
    std::atomic<std::uint64_t> clock{1};
    auto tick = [&clock] { return clock.fetch_add(1, std::memory_order_relaxed); };
    std::vector<std::vector<Ev>> ev(nt + seeders);
    std::vector<std::uint64_t> salt(nt + seeders);
    for (auto &s : salt) s = r.u64();
    random_device::set_seed(seed0);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    auto pause = [](Rng &q) {
        switch (q.u(0, 15)) {
            case 0: std::this_thread::yield(); break;
            case 1: std::this_thread::sleep_for(std::chrono::microseconds(q.u(1, 30))); break;
            default: break;
        }
    };
    for (unsigned t = 0; t < nt + seeders; ++t)
        th.emplace_back([&, t] {
            Rng q(salt[t]);
            auto &out = ev[t];
            out.reserve(per + nseed);
            ready.fetch_add(1u, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt + seeders) std::this_thread::yield();
            if (t < nt) {
                for (unsigned i = 0; i < per; ++i) {
                    pause(q);
                    Ev e{0, 0u, tick(), 0};
                    int how = static_cast<int>(q.u(0, 20));
                    e.value = draw(how > 5 ? 0 : how);
                    e.t1 = tick();
                    out.push_back(e);
                }
            } else {
                for (unsigned i = 0; i < nseed; ++i) {
                    std::this_thread::sleep_for(std::chrono::microseconds(q.u(1, 60)));
                    Ev e{1, seeds[1u + (t - nt) * nseed + i], tick(), 0};
                    q.coin() ? random_device::set_seed(e.value) : other_unit_seed(e.value);
                    e.t1 = tick();
                    out.push_back(e);
                }
            }
        });
    for (auto &t : th) t.join();
    // one more draw: belongs to the last seeding
    ev.push_back({});
    {
        Ev e{0, 0u, tick(), 0};
        e.value = random_device::next();
        e.t1 = tick();
        ev.back().push_back(e);
    }
    // sequences
    auto d = str(nt) + " threads, " + str(per) + " draws each, " + str(nseed * seeders) + " reseedings, seed " + str(seed0);
    std::size_t total = static_cast<std::size_t>(nt) * per + 1u;
    std::map<unsigned, std::vector<std::pair<unsigned, unsigned>>> where;
    for (unsigned k = 0; k < seeds.size(); ++k) {
        auto v = serial(seeds[k], total);
        for (unsigned i = 0; i < total; ++i) where[v[i]].push_back({k, i});
    }
    // placement; ambiguous numbers (present twice) make the history undecided
    struct Placed {
        unsigned epoch, pos;
        std::uint64_t t0, t1;
    };
    std::vector<std::vector<Placed>> byep(seeds.size());
    unsigned switches = 0;
    std::uint64_t orderhash = 7u;
    for (auto &h : ev) {
        bool first = true;
        Placed last{};
        std::set<unsigned> left;
        for (auto &e : h) {
            if (e.kind) continue;
            auto it = where.find(e.value);
            if (it == where.end()) {
                violation("number not in any sequence", d + ": " + str(e.value));
                return;
            }
            if (it->second.size() > 1u) {
                count("undecided histories");
                return;
            }
            Placed p{it->second[0].first, it->second[0].second, e.t0, e.t1};
            if (!first) {
                if (p.epoch == last.epoch && p.pos <= last.pos) violation("sequence seen out of order", d);
                if (p.epoch != last.epoch) {
                    left.insert(last.epoch);
                    if (left.count(p.epoch)) violation("sequence resumed after a reseeding", d);
                }
            }
            first = false;
            last = p;
            byep[p.epoch].push_back(p);
        }
    }
    std::size_t seen = 0;
    unsigned used = 0;
    for (auto &v : byep) {
        seen += v.size();
        used += v.empty() ? 0u : 1u;
        std::sort(v.begin(), v.end(), [](const Placed &a, const Placed &b) { return a.pos < b.pos; });
        for (unsigned i = 0; i < v.size(); ++i)
            if (v[i].pos != i) {
                violation(i && v[i].pos == v[i - 1u].pos ? "number drawn twice" : "number lost", d + " position " + str(i) + " found " + str(v[i].pos));
                return;
            }
        // real time: a draw that ended before another began comes first
        std::uint64_t maxt0 = 0;
        for (unsigned i = 0; i < v.size(); ++i) {
            if (v[i].t1 < maxt0) {
                violation("not in real time order", d);
                return;
            }
            maxt0 = std::max(maxt0, v[i].t0);
        }
        if (v.size() > 1u)
            for (unsigned i = 1; i < v.size(); ++i) orderhash = mix(orderhash ^ v[i].t0);
    }
    // draws of a seeding happen after it began; epochs whose seeding was over before another began precede it
    std::map<unsigned, std::pair<std::uint64_t, std::uint64_t>> st_;
    st_[0] = {0, 0};
    for (auto &h : ev)
        for (auto &e : h)
            if (e.kind)
                for (unsigned k = 1; k < seeds.size(); ++k)
                    if (seeds[k] == e.value) st_[k] = {e.t0, e.t1};
    for (unsigned k = 0; k < seeds.size(); ++k)
        for (auto &p : byep[k]) {
            if (p.t1 < st_[k].first) violation("number drawn before its seeding", d);
            for (unsigned j = 0; j < seeds.size(); ++j)
                if (j != k && st_[j].first > st_[k].second && p.t0 > st_[j].second)
                    violation("reseeding without effect", d + " a draw still belongs to seeding " + str(k) + " after " + str(j));
        }
    if (seen != total) violation("number of draws", d);
    // how interleaved was it
    {
        std::vector<std::pair<std::uint64_t, unsigned>> all;
        for (unsigned t = 0; t < ev.size(); ++t)
            for (auto &e : ev[t]) all.push_back({e.t0, t});
        std::sort(all.begin(), all.end());
        for (std::size_t i = 1; i < all.size(); ++i) switches += all[i].second != all[i - 1u].second ? 1u : 0u;
    }
    count("numbers placed in a sequence", total);
    count("switches between threads", switches);
    count("seedings whose numbers were seen", used);
    evaluated((reseeding ? "reseeding " : "concurrent ") + d + " order " + str(orderhash), switches > nt);
}
int main(int argc, char **argv)
{
    Mute mute;
    return run(argc, argv, [](Rng &r, long c) {
        switch (c % 4) {
            case 0: return reproducible(r);
            case 1: return concurrent(r, false);
            default: return concurrent(r, true);
        }
    });
}
