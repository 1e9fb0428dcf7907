// C09: concurrent use. Built with ThreadSanitizer (TBB replaced by instrumented threads with injected delays) and, for the
// values alone, with the real TBB.
#include "srg.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/algorithm.hpp>
#include <thread>
using namespace vh;
using Mat = std::vector<std::vector<double>>;
#ifdef VSCHED_H
static void schedules()
{
    auto &l = vsched::log();
    st().counters["parallel loops"] = l.loops;
    st().counters["parallel chunks"] = l.chunks;
    st().counters["distinct completion orders"] = l.orders.size();
}
static void seed_delays(std::uint64_t s)
{
    vsched::state() = s;
}
static void delay()
{
    vsched::delay();
}
#else
static void schedules() {}
static void seed_delays(std::uint64_t) {}
static void delay()
{
    std::this_thread::yield();
}
#endif
// runs work(t) in nt threads started together; returns what each produced
static std::vector<std::string> concurrently(unsigned nt, const std::function<std::string(unsigned)> &work)
{
    std::vector<std::string> out(nt);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            ready.fetch_add(1u, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
            delay();
            try {
                out[t] = work(t);
            } catch (const std::exception &e) {
                out[t] = std::string("exception ") + e.what();
            }
        });
    for (auto &t : th) t.join();
    count("threads", nt);
    return out;
}
static void same_as_alone(const std::string &key, const std::string &d, unsigned nt, const std::function<std::string(unsigned)> &work, std::vector<std::string> *keep = nullptr)
{
    std::vector<std::string> alone;
    auto together = concurrently(nt, work);
    for (unsigned t = 0; t < nt; ++t) alone.push_back(work(t));
    for (unsigned t = 0; t < nt; ++t)
        if (together[t] != alone[t]) violation(key, d + " thread " + str(t) + ":\n" + together[t].substr(0, 700) + "\nalone:\n" + alone[t].substr(0, 700));
    count("results compared with those obtained alone", nt);
    if (keep) *keep = together;
}
// ------------------------------------------------------------------ data split among threads
static void data_parallel(Rng &r)
{
    gen::Opt o;
    o.max_c = 4, o.max_r = 3, o.max_m = 3;
    gen::with_expr(
        r, o,
        [&](auto &e, ref::Prog &p) {
            using E = std::decay_t<decltype(e)>;
            static const std::vector<unsigned> sizes{4, 6, 8, 12, 16};
            unsigned np = r.pick(sizes);
            bool ce = r.coin();
            std::string l = ce ? "CE" : "MSE";
            Mat X, Y;
            for (unsigned i = 0; i < np; ++i) {
                X.push_back(gen::smooth_values(r, gen::n_in(e)));
                std::vector<double> y(p.m, 0.);
                if (ce) y[r.u(0, p.m - 1u)] = 1.;
                else y = gen::smooth_values(r, p.m);
                Y.push_back(y);
            }
            std::vector<unsigned> pars;
            for (unsigned q = 2; q <= np; ++q)
                if (np % q == 0u) pars.push_back(q);
            auto d = std::string(gen::kind_name<E>()) + " " + p.descr() + " " + l + " points " + str(np);
            // scale of the rounding errors
            double s = 0.;
            auto lt = ce ? gen::plain_t::loss_type::CE : gen::plain_t::loss_type::MSE;
            for (unsigned i = 0; i < np; ++i) s += std::abs(e.loss(X[i], Y[i], lt));
            double serial = e.loss(X, Y, l, 0u);
            auto cl = [](double a, double b, double scale) {
                if (!std::isfinite(scale)) return true;
                return std::abs(a - b) <= 1e-10 * scale + 1e-14;
            };
            auto before = gen::observe(e);
            for (auto q : pars) {
                double v = e.loss(X, Y, l, q);
                if (!cl(v, serial, s)) violation("parallel loss", d + " in " + str(q) + " parts: " + str(v) + " serially: " + str(serial));
                count("parallel losses");
            }
            if (before != gen::observe(e)) violation("parallel loss changed the expression", d);
            if constexpr (gen::is_ann<E>::value) {
                auto ser = e.d_loss(X, Y, lt, 0u);
                std::vector<double> aw(e.get_weights().size(), 0.), ab(e.get_biases().size(), 0.);
                for (unsigned i = 0; i < np; ++i) {
                    double v1 = 0.;
                    std::vector<double> w1(aw.size(), 0.), b1(ab.size(), 0.);
                    e.d_loss(v1, w1, b1, X[i], Y[i], lt);
                    for (std::size_t k = 0; k < w1.size(); ++k) aw[k] += std::abs(w1[k]);
                    for (std::size_t k = 0; k < b1.size(); ++k) ab[k] += std::abs(b1[k]);
                }
                for (auto q : pars) {
                    auto v = e.d_loss(X, Y, lt, q);
                    bool ok = cl(std::get<0>(v), std::get<0>(ser), s);
                    for (std::size_t k = 0; k < aw.size(); ++k) ok = ok && cl(std::get<1>(v)[k], std::get<1>(ser)[k], aw[k]);
                    for (std::size_t k = 0; k < ab.size(); ++k) ok = ok && cl(std::get<2>(v)[k], std::get<2>(ser)[k], ab[k]);
                    if (!ok) violation("parallel gradient", d + " in " + str(q) + " parts");
                    count("parallel gradients");
                }
                // training
                auto q = r.pick(pars);
                unsigned bs = r.coin() ? np : q;
                if (np % bs == 0u && bs % q == 0u) {
                    E a(e), b(e);
                    auto x1 = X, y1 = Y, x2 = X, y2 = Y;
                    double ra = a.sgd(x1, y1, 1e-2, bs, l, 0u, false), rb = b.sgd(x2, y2, 1e-2, bs, l, q, false);
                    bool ok = true, sane = std::isfinite(ra) && ra < 1e3;
                    for (auto v : a.get_weights()) sane = sane && std::abs(v) < 20.;
                    if (bs != np) sane = false; // several steps amplify rounding errors: races only
                    ok = cl(ra, rb, s + 1e-3);
                    for (std::size_t k = 0; k < aw.size(); ++k) ok = ok && cl(a.get_weights()[k], b.get_weights()[k], aw[k] + std::abs(a.get_weights()[k]) + 1e-3);
                    for (std::size_t k = 0; k < ab.size(); ++k) ok = ok && cl(a.get_biases()[k], b.get_biases()[k], ab[k] + std::abs(a.get_biases()[k]) + 1e-3);
                    if (sane && !ok) violation("parallel training", d + " in " + str(q) + " parts");
                    count("parallel trainings");
                }
            }
            evaluated("data parallel " + d, std::isfinite(s));
        },
        static_cast<int>(r.u(0, 3)) % 3);
}
static void gdual_parallel(Rng &r)
{
    gen::Opt o;
    o.max_c = 4;
    o.kernels = srg::smooth_kernels();
    auto p = gen::prog(r, o, 1u);
    p.x = gen::chromosome(r, p);
    using G = audi::gdual_d;
    dcgp::expression<G> e(p.n - 1u, p.m, p.r, p.c, p.l, p.arity, gen::kernels<G>(p), 1u, 3u);
    e.set(p.x);
    e.set_eph_val({G(0.7, "c1", 1u)});
    std::vector<std::vector<G>> X, Y;
    double s = 0.;
    for (unsigned i = 0; i < 8u; ++i) {
        std::vector<G> x, y;
        for (unsigned j = 0; j + 1u < p.n; ++j) x.push_back(G(r.real(-1., 1.)));
        for (unsigned j = 0; j < p.m; ++j) y.push_back(G(r.real(-1., 1.)));
        X.push_back(x), Y.push_back(y);
        s += std::abs(e.loss(x, y, dcgp::expression<G>::loss_type::MSE).constant_cf());
    }
    double ser = e.loss(X, Y, "MSE", 0u).constant_cf();
    for (unsigned q : {2u, 4u, 8u}) {
        double v = e.loss(X, Y, "MSE", q).constant_cf();
        if (std::isfinite(s) && std::abs(v - ser) > 1e-10 * s + 1e-14) violation("parallel loss (gdual)", p.descr() + " in " + str(q) + " parts: " + str(v) + " serially: " + str(ser));
        count("parallel losses");
    }
    evaluated("gdual data parallel " + p.descr(), std::isfinite(s));
}
// ------------------------------------------------------------------ own copies in distinct threads
static void expressions(Rng &r, unsigned nt)
{
    gen::Opt o;
    o.max_c = 4, o.max_r = 3, o.max_m = 3;
    gen::with_expr(r, o, [&](auto &e, ref::Prog &p) {
        using E = std::decay_t<decltype(e)>;
        auto pt = gen::smooth_values(r, gen::n_in(e));
        auto seed = r.u64();
        bool copy_inside = r.coin();
        const E &shared = e;
        auto script = [&](E mine, unsigned t) {
            Rng q(seed + t % 2u);
            std::string s;
            for (unsigned i = 0; i < 12u; ++i) {
                s += gen::random_op(mine, q, p) + " ";
                s += vs(mine(pt)) + vs(mine.get());
                if (i % 4u == 3u) s += gen::observe(mine);
            }
            return s;
        };
        std::vector<E> copies(nt, e);
        auto d = std::string(gen::kind_name<E>()) + " " + p.descr();
        same_as_alone("expression", d, nt, [&](unsigned t) { return copy_inside ? script(E(shared), t) : script(copies[t], t); });
        // one constant object evaluated and asked by all, right after it changed
        E cold(e);
        cold.set(gen::chromosome(r, p));
        const E &fresh = cold;
        same_as_alone("fresh constant expression", d, nt, [&](unsigned) {
            std::string s;
            for (unsigned i = 0; i < fresh.get().size(); ++i) s += fresh.is_active_gene(i) ? "1" : "0";
            for (unsigned i = 0; i < fresh.get_n() + fresh.get_r() * fresh.get_c(); ++i) s += fresh.is_active_node(i) ? "1" : "0";
            if constexpr (gen::is_ann<E>::value) s += str(fresh.n_active_weights(true)) + str(fresh.n_active_weights());
            std::vector<std::vector<double>> X(2, pt), Y(2, std::vector<double>(fresh.get_m(), 0.25));
            s += str(fresh.loss(X, Y, "MSE", 2u));
            E copy(fresh);
            std::ostringstream o;
            o << fresh;
            return s + gen::observe(fresh) + gen::observe(copy) + o.str();
        });
        // one constant object evaluated by all
        std::vector<std::string> nm(gen::n_in(e), "v");
        same_as_alone("shared constant expression", d, nt, [&](unsigned) {
            std::string s;
            for (unsigned i = 0; i < 5u; ++i) s += vs(shared(pt));
            if (gen::formula_size(shared) < 2000.) s += shared(nm)[0];
            return s + vs(shared.get_active_genes()) + str(shared.loss(pt, std::vector<double>(shared.get_m(), 0.5), gen::plain_t::loss_type::MSE));
        });
        evaluated("expressions " + d, true);
    });
}
static void kernels(Rng &r, unsigned nt)
{
    auto ks = ref::all_kernels();
    auto x = gen::smooth_values(r, r.u(1, 4));
    std::vector<std::string> nm(x.size(), "a");
    dcgp::kernel_set<double> shared(ks);
    same_as_alone("kernels", "", nt, [&](unsigned) {
        dcgp::kernel_set<double> mine(ks), copy(shared);
        std::string s;
        for (std::size_t i = 0; i < ks.size(); ++i) {
            s += str(mine()[i](x)) + str(copy[i](x)) + str(shared[i](x)) + mine[i].get_name();
            if (ks[i] != "pdiv") s += copy[i](nm);
        }
        return s;
    });
    evaluated("kernels arity " + str(x.size()) + vs(x), true);
}
static std::string pop_str(const pagmo::population &p)
{
    std::ostringstream s;
    s.precision(17);
    for (auto &q : p.get_x()) s << vs(q);
    for (auto &q : p.get_f()) s << vs(q);
    s << p.get_problem().get_fevals();
    return s.str();
}
static void problems(Rng &r, unsigned nt)
{
    srg::Opt o;
    auto c = srg::conf(r, o);
    if (c.par > 2u) c.par = 1u; // the order of a longer parallel sum is not determined
    const auto s = srg::make(c);
    std::vector<dcgp::symbolic_regression> copies(nt, s);
    std::vector<std::vector<double>> xs;
    for (unsigned i = 0; i < 4u; ++i) xs.push_back(srg::dv(r, c));
    bool inside = r.coin(), kinds = r.coin();
    same_as_alone("symbolic regression", c.descr(), nt, [&](unsigned t) {
        dcgp::symbolic_regression mine(copies[t]);
        if (inside) mine = s; // all copy the same constant object
        std::string o2;
        for (unsigned i = 0; i < 4u; ++i) {
            auto &x = xs[(i + (kinds ? t : 0u)) % 4u];
            o2 += vs(mine.fitness(x)) + vs(mine.predict(c.X[0], x));
            if (c.n_eph) o2 += vs(mine.gradient(x));
            if (c.n_eph) o2 += vs(mine.hessians(x)[0]);
            if (srg::prog_of(c, x).formula_size() < 1000.) o2 += mine.pretty(x);
        }
        return o2;
    });
    evaluated("problem " + c.descr(), true);
}
static void algorithms(Rng &r, unsigned nt)
{
    srg::Opt o;
    int which = static_cast<int>(r.u(0, 4));
    o.mo = which == 2 || which == 3;
    o.eph = which == 4 ? static_cast<int>(r.u(1, 2)) : static_cast<int>(r.u(0, 2));
    o.max_points = 4;
    auto c = srg::conf(r, o);
    c.par = 0;
    auto seed = static_cast<unsigned>(r.u64());
    pagmo::population pop(srg::make(c), 4u, seed);
    const dcgp::es4cgp es(3u, 3u, 0., true, seed);
    const dcgp::mes4cgp mes(3u, 3u, 0., seed);
    const dcgp::moes4cgp moes(3u, 3u, 0., true, seed);
    const dcgp::momes4cgp momes(3u, 3u, 0., seed);
    const dcgp::gd4cgp gd(3u, 0.1, 1e-3);
    static const char *nm[] = {"es4cgp", "mes4cgp", "moes4cgp", "momes4cgp", "gd4cgp"};
    std::vector<pagmo::population> pops(nt, pop);
    same_as_alone(nm[which], c.descr(), nt, [&](unsigned t) {
        switch (which) {
            case 0: return pop_str(dcgp::es4cgp(es).evolve(pops[t]));
            case 1: return pop_str(dcgp::mes4cgp(mes).evolve(pops[t]));
            case 2: return pop_str(dcgp::moes4cgp(moes).evolve(pops[t]));
            case 3: return pop_str(dcgp::momes4cgp(momes).evolve(pops[t]));
            default: return pop_str(dcgp::gd4cgp(gd).evolve(pops[t]));
        }
    });
    evaluated(std::string(nm[which]) + " " + c.descr(), true);
}
// ------------------------------------------------------------------ advertised thread safety
template <pagmo::thread_safety TS>
struct Ker {
    pagmo::thread_safety get_thread_safety() const { return TS; }
    double operator()(const std::vector<double> &x) const { return x[0]; }
};
template <pagmo::thread_safety TS>
struct Pri {
    pagmo::thread_safety get_thread_safety() const { return TS; }
    std::string operator()(const std::vector<std::string> &x) const { return x[0]; }
};
struct PlainKer {
    double operator()(const std::vector<double> &x) const { return x[0]; }
};
struct PlainPri {
    std::string operator()(const std::vector<std::string> &x) const { return x[0]; }
};
template <typename T, pagmo::thread_safety TS>
struct Cor {
    using V = std::vector<T>;
    pagmo::thread_safety get_thread_safety() const { return TS; }
    V operator()(const V &x, std::function<V(const V &)> g) const { return g(x); }
};
static void advertised(Rng &r)
{
    using TS = pagmo::thread_safety;
    auto level = [&] { return static_cast<int>(r.u(0, 2)); };
    auto mk = [&](int f, int p, const std::string &name) {
        using K = dcgp::kernel<double>;
        typename K::my_fun_type F;
        typename K::my_print_fun_type P;
        switch (f) {
            case 0: F = Ker<TS::none>{}; break;
            case 1: r.coin() ? F = Ker<TS::basic>{} : F = PlainKer{}; break;
            default: F = Ker<TS::constant>{};
        }
        switch (p) {
            case 0: P = Pri<TS::none>{}; break;
            case 1: r.coin() ? P = Pri<TS::basic>{} : P = PlainPri{}; break;
            default: P = Pri<TS::constant>{};
        }
        if (static_cast<int>(F.get_thread_safety()) != f || static_cast<int>(P.get_thread_safety()) != p) violation("thread safety of a function", str(f) + " " + str(p));
        // as functions, or wrapped as plain callables
        return dcgp::kernel<double>(F, P, name);
    };
    std::vector<dcgp::kernel<double>> ks;
    unsigned n = r.u(1, 4);
    int lo = 2;
    std::string d;
    static const std::vector<std::string> names{"sum", "diff", "mul", "div", "sin"};
    for (unsigned i = 0; i < n; ++i) {
        if (r.coin(0.3)) {
            dcgp::kernel_set<double> s(std::vector<std::string>{r.pick(names)});
            ks.push_back(s[0]);
            lo = std::min(lo, 1);
            d += "library ";
            continue;
        }
        int f = level(), p = level();
        auto k = mk(f, p, r.pick(names));
        d += str(f) + "/" + str(p) + " ";
        auto c(k);
        dcgp::kernel<double> a;
        a = k;
        auto b(std::move(c));
        for (auto *q : {&k, &a, &b})
            if (static_cast<int>(q->get_thread_safety()) != std::min(f, p)) violation("thread safety of a kernel", d + " reported " + str(static_cast<int>(q->get_thread_safety())));
        lo = std::min({lo, f, p});
        ks.push_back(k);
    }
    dcgp::symbolic_regression s({{1.}, {2.}}, {{1.}, {2.}}, 1, 2, 3, 2, ks, r.u(0, 1), r.coin(), 0u, "MSE", 1u);
    auto got = static_cast<int>(s.get_thread_safety());
    // fitness modifies the object, hence never constant
    if (got != std::min(lo, 1)) violation("thread safety of a problem", d + " reported " + str(got));
    pagmo::problem pp(s);
    if (static_cast<int>(pp.get_thread_safety()) != std::min(lo, 1)) violation("thread safety of a problem", d + " reported by pagmo " + str(static_cast<int>(pp.get_thread_safety())));
    // phenotype corrections are parts too
    auto q = s;
    auto fd = level(), fv = level();
    auto set = [&](auto type, int l) {
        using T = decltype(type);
        typename dcgp::expression<T>::pc_fun_type pc;
        switch (l) {
            case 0: pc = Cor<T, TS::none>{}; break;
            case 1: pc = Cor<T, TS::basic>{}; break;
            default: pc = Cor<T, TS::constant>{};
        }
        return pc;
    };
    q.set_phenotype_correction(set(double{}, fd), set(audi::gdual_v{}, fv));
    d += "corrections " + str(fd) + "/" + str(fv);
    auto want = std::min({lo, 1, fd, fv});
    dcgp::symbolic_regression q2(q), q3(s);
    q3 = q;
    for (auto *z : {&q, &q2, &q3})
        if (static_cast<int>(z->get_thread_safety()) != want) violation("thread safety of a problem", d + " reported " + str(static_cast<int>(z->get_thread_safety())));
    q.unset_phenotype_correction();
    if (static_cast<int>(q.get_thread_safety()) != std::min(lo, 1) || static_cast<int>(s.get_thread_safety()) != std::min(lo, 1)) violation("thread safety of a problem", d + " after unsetting");
    count("phenotype corrections of a level other than the default", fd != 1 || fv != 1);
    evaluated("advertised " + d, lo != 1);
}
int main(int argc, char **argv)
{
    Mute mute;
    std::vector<std::string> a(argv, argv + argc);
    bool tsan = false;
    for (auto &q : a) tsan = tsan || q == "tsan";
    return run(argc, argv, [tsan](Rng &r, long c) {
        seed_delays(r.u64());
        unsigned nt = r.u(2, 4);
        switch (c % 8) {
            case 0:
            case 1: data_parallel(r); break;
            case 2: expressions(r, nt); break;
            case 3: problems(r, nt); break;
            case 4: algorithms(r, nt); break;
            case 5: kernels(r, nt); break;
            case 6: advertised(r); break;
            default: gdual_parallel(r);
        }
        schedules();
    });
}
