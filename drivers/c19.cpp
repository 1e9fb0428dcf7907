// C19: evolution is reproducible from seeds and independent of observation.
#include "s11n_common.hpp"
#include "alg.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/algorithm.hpp>
#include <pagmo/island.hpp>
#include <pagmo/islands/thread_island.hpp>
#include <pagmo/s11n.hpp>
#include <thread>
PAGMO_S11N_BFE_EXPORT(alg::OneByOne)
PAGMO_S11N_PROBLEM_IMPLEMENT(dcgp::symbolic_regression)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::es4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::moes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::mes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::momes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::gd4cgp)
using alg::V;

static std::string text(const pagmo::population &p) { return alg::show(p) + " fevals " + vh::str(p.get_problem().get_fevals()) + " gevals " + vh::str(p.get_problem().get_gevals()); }
template <typename A>
static std::string text_log(const A &a)
{
    std::ostringstream s;
    s.precision(17);
    for (auto &l : a.get_log()) {
        std::apply([&](const auto &...q) {
            auto one = [&](const auto &v) {
                if constexpr (std::is_same<std::decay_t<decltype(v)>, V>::value) s << vs(v) << " ";
                else s << v << " ";
            };
            (one(q), ...);
        }, l);
        s << "|";
    }
    return s.str();
}
template <typename A>
struct has_bfe : std::bool_constant<std::is_same<A, dcgp::es4cgp>::value || std::is_same<A, dcgp::moes4cgp>::value> {};
template <typename A>
struct has_seed : std::bool_constant<!std::is_same<A, dcgp::gd4cgp>::value> {};

// make(seed): a fresh algorithm
template <typename A, typename Make>
static void run(Rng &r, const std::string &name, Make make, const alg::Setup &s, const std::string &conf)
{
    const unsigned seed = static_cast<unsigned>(r.u64()), pseed = static_cast<unsigned>(r.u64());
    auto population = [&] {
        Rng q(pseed);
        return alg::population(q, s, pagmo::problem(srg::make(s.c)));
    };
    const auto p0 = population();
    unsigned times = r.u(1, 3), verb = r.u(1, 3);
    auto d = name + conf + " seed=" + str(seed) + " times=" + str(times) + " " + s.descr();
    bool judged = false;
    // several evolutions in a row; the text of all populations, then the log of the last one
    auto history = [&](A &a, pagmo::population p) {
        Mute m;
        std::string o;
        for (unsigned i = 0; i < times; ++i) p = a.evolve(p), o += text(p) + "\n";
        return o;
    };
    A base = make(seed);
    const auto want = history(base, p0);
    judged = want.find(text(p0)) == std::string::npos;
    A vb = make(seed);
    vb.set_verbosity(verb);
    auto wv = history(vb, p0);
    const auto wlog = text_log(vb);
    auto cmp = [&](const std::string &how, const std::string &got) {
        count("compared: " + how);
        if (got != want) violation("evolution " + how + " differs", d + "\n" + want.substr(0, 1500) + "\n" + how + "\n" + got.substr(0, 1500));
    };
    auto cmp_log = [&](const std::string &how, const A &a) {
        if (a.get_verbosity() == verb && text_log(a) != wlog) violation("log " + how + " differs", d + "\n" + wlog.substr(0, 1000) + "\n" + text_log(a).substr(0, 1000));
    };
    cmp("with logs", wv);
    for (unsigned k = r.u(2, 5); k--;) {
        A a = make(seed);
        bool verbose = r.coin();
        a.set_verbosity(verbose ? verb : r.coin() ? 0u : r.u(1, 4));
        auto p = r.coin() ? p0 : population(); // a copy, or built anew from the same seeds
        switch (r.u(0, 8)) {
            case 0: {
                A b(a);
                if (r.coin()) {
                    Mute m;
                    a.evolve(p);
                }
                cmp("by a copy", history(b, p));
                cmp_log("of a copy", b);
                break;
            }
            case 1: {
                pagmo::algorithm b(a);
                auto c = b;
                history(*b.extract<A>(), p);
                cmp("by a type erased copy", history(*c.extract<A>(), p));
                cmp_log("of a type erased copy", *c.extract<A>());
                break;
            }
            case 2: {
                std::stringstream ss;
                A b = make(seed + 1u);
                if (r.coin()) history(b, p);
                {
                    boost::archive::binary_oarchive o(ss);
                    o << a;
                }
                {
                    boost::archive::binary_iarchive i(ss);
                    i >> b;
                }
                cmp("by a restored algorithm", history(b, p));
                cmp_log("of a restored algorithm", b);
                break;
            }
            case 3: {
                if constexpr (has_seed<A>::value) {
                    A b = make(seed + 77u);
                    b.set_verbosity(a.get_verbosity());
                    for (unsigned i = r.u(0, 2); i--;) history(b, p);
                    b.set_seed(seed);
                    if (b.get_seed() != seed) violation("seed", d);
                    cmp("after setting the seed of a used algorithm", history(b, p));
                    cmp_log("after setting the seed of a used algorithm", b);
                    if (r.coin()) {
                        pagmo::algorithm q(b);
                        q.set_seed(seed);
                        cmp("after setting the seed through pagmo", history(*q.extract<A>(), p));
                    }
                    if (r.coin()) {
                        b.set_seed(seed);
                        cmp("after setting the seed again", history(b, p));
                    }
                }
                break;
            }
            case 4: {
                if constexpr (has_bfe<A>::value) {
                    std::string how;
                    switch (r.u(0, 3)) {
                        case 0: a.set_bfe(pagmo::bfe(pagmo::default_bfe{})), how = "default"; break;
                        case 1: a.set_bfe(pagmo::bfe(pagmo::thread_bfe{})), how = "threads"; break;
                        case 2: a.set_bfe(pagmo::bfe(alg::OneByOne{})), how = "in order"; break;
                        default: a.set_bfe(pagmo::bfe(alg::OneByOne{true})), how = "in reverse order";
                    }
                    cmp("with a batch evaluator (" + how + ")", history(a, p));
                    cmp_log("with a batch evaluator (" + how + ")", a);
                }
                break;
            }
            case 5: {
                // in other threads, several at once
                std::vector<std::string> got(3);
                std::vector<A> as(3, a);
                std::vector<pagmo::population> ps(3, p);
                Mute m;
                for (auto &q : as) q.set_verbosity(0u);
                std::vector<std::thread> th;
                for (unsigned i = 0; i < 3u; ++i)
                    th.emplace_back([&, i] {
                        auto q = ps[i];
                        for (unsigned j = 0; j < times; ++j) q = as[i].evolve(q), got[i] += text(q) + "\n";
                    });
                for (auto &t : th) t.join();
                for (auto &g : got) cmp("in other threads", g);
                break;
            }
            case 6: {
                a.set_verbosity(0u);
                pagmo::island isl(pagmo::thread_island{}, a, p);
                std::string o;
                for (unsigned i = 0; i < times; ++i) {
                    isl.evolve();
                    isl.wait_check();
                    o += text(isl.get_population()) + "\n";
                }
                cmp("in an island", o);
                break;
            }
            case 7: {
                // the verbosity changed on the way
                std::string o;
                {
                    Mute m;
                    for (unsigned i = 0; i < times; ++i) {
                        a.set_verbosity(r.u(0, 3));
                        p = a.evolve(p), o += text(p) + "\n";
                        a.get_log(), a.get_extra_info(), a.get_name();
                    }
                }
                cmp("with another verbosity each time", o);
                break;
            }
            default: {
                // a random seed, told by the algorithm
                if constexpr (has_seed<A>::value) {
                    A b = make(seed + 5u);
                    b.set_seed(base.get_seed());
                    cmp("with the seed reported", history(b, p));
                }
            }
        }
    }
    evaluated(d, judged);
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [](Rng &r, long) {
        unsigned which = r.u(0, 4);
        alg::SOpt so;
        so.mo = which == 2u || which == 3u;
        so.par = r.coin(0.3);
        if (which == 4u) so.eph = static_cast<int>(r.u(1, 4));
        auto s = alg::setup(r, so);
        while (s.c.p.c > 5u) s = alg::setup(r, so);
        unsigned gen = r.coin(0.03) ? 0u : r.u(1, 6), mm = r.u(1, 4);
        if (r.coin(0.04)) gen = r.u(60, 160);
        double ftol = r.coin(0.8) ? 0. : std::pow(10., r.real(-6., 2.));
        bool learn = r.coin();
        auto conf = " gen=" + str(gen) + " max_mut=" + str(mm) + " ftol=" + str(ftol) + " learn=" + str(learn);
        switch (which) {
            case 0: return run<dcgp::es4cgp>(r, "es", [&](unsigned q) { return dcgp::es4cgp(gen, mm, ftol, learn, q); }, s, conf);
            case 1: return run<dcgp::mes4cgp>(r, "mes", [&](unsigned q) { return dcgp::mes4cgp(gen, mm, ftol, q); }, s, conf);
            case 2: return run<dcgp::moes4cgp>(r, "moes", [&](unsigned q) { return dcgp::moes4cgp(gen, mm, ftol, learn, q); }, s, conf);
            case 3: return run<dcgp::momes4cgp>(r, "momes", [&](unsigned q) { return dcgp::momes4cgp(gen, mm, ftol, q); }, s, conf);
            default: return run<dcgp::gd4cgp>(r, "gd", [&](unsigned) { return dcgp::gd4cgp(gen, 1., 1e-3); }, s, conf);
        }
    });
}
