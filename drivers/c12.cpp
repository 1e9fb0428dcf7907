// C12: value semantics and determinism from seeds.
#include "behave_p.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/algorithm.hpp>

static std::string diff(const std::string &a, const std::string &b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    i = i > 80u ? i - 80u : 0u;
    return "\n..." + a.substr(i, 400) + "\nother\n..." + b.substr(i, 400);
}
// Obtains an object from `src` (copy/move, construction/assignment over `over`), runs `f` on it.
template <typename T, typename F>
static void by_every_route(Rng &r, const T &src, const T &over, F &&f)
{
    switch (r.u(0, 7)) {
        case 0: {
            T t(src);
            f(t, "copy construction");
            break;
        }
        case 1: {
            T t(over);
            t = src;
            f(t, "copy assignment");
            break;
        }
        case 2: {
            T tmp(src), t(std::move(tmp));
            f(t, "move construction");
            break;
        }
        case 3: {
            T tmp(src), t(over);
            t = std::move(tmp);
            f(t, "move assignment");
            break;
        }
        case 4: {
            T t(src);
            T &alias = t;
            t = alias;
            f(t, "self assignment");
            break;
        }
        case 5: {
            T tmp(src), t(over);
            std::swap(tmp, t);
            f(t, "swap");
            break;
        }
        case 6: { // a moved-from object is assigned again
            T gone(over), t(std::move(gone));
            gone = src;
            f(gone, "assignment to a moved-from object");
            break;
        }
        default: {
            std::vector<T> v;
            v.push_back(over);
            v.push_back(src);
            v.insert(v.begin(), over);
            v.erase(v.begin());
            f(v[1], "elements of a vector");
        }
    }
}
static void expressions(Rng &r)
{
    gen::Opt o, o2;
    int kind = static_cast<int>(r.u(0, 2));
    gen::with_expr(
        r, o,
        [&](auto &e, ref::Prog &p) {
            using E = std::decay_t<decltype(e)>;
            use(e, r, p);
            gen::with_expr(
                r, o2,
                [&](auto &e2, ref::Prog &p2) {
                    if constexpr (std::is_same<std::decay_t<decltype(e2)>, E>::value) {
                        use(e2, r, p2);
                        auto a = behaviour(e);
                        auto o_before = behaviour(e2);
                        by_every_route(r, e, e2, [&](E &t, const std::string &how) {
                            auto d = std::string(gen::kind_name<E>()) + " " + how + " of " + p.descr() + " over " + p2.descr();
                            auto b = behaviour(t);
                            if (a != b) violation("copied expression", d + diff(a, b));
                            // independence
                            auto ops = gen::random_op(t, r, p);
                            use(t, r, p);
                            if (behaviour(e) != a) violation("changing a copy changed the source", d + " " + ops + diff(a, behaviour(e)));
                            E snap(t);
                            auto c = behaviour(t);
                            E src2(e);
                            gen::random_op(e, r, p);
                            use(e, r, p);
                            if (behaviour(t) != c) violation("changing the source changed a copy", d + diff(c, behaviour(t)));
                            e = src2;
                            if (behaviour(e) != a) violation("copied expression", d + " (and back)" + diff(a, behaviour(e)));
                            // driven by the same calls
                            E x(snap), y(t);
                            Rng q1(r.u64()), q2(q1);
                            for (unsigned i = 0; i < 6u; ++i) {
                                auto op = gen::random_op(x, q1, p);
                                gen::random_op(y, q2, p);
                                if (gen::observe(x) != gen::observe(y)) {
                                    violation("copies diverge under the same calls", d + " " + op + diff(gen::observe(x), gen::observe(y)));
                                    break;
                                }
                            }
                            count("expressions obtained by " + how);
                            evaluated("expression " + d, true);
                        });
                        if (behaviour(e2) != o_before) violation("an unrelated expression changed", p.descr());
                    }
                },
                kind);
        },
        kind);
}
// two objects from the same arguments and seed, with other objects used meanwhile
static void equal_seeds(Rng &r)
{
    gen::Opt o;
    int kind = static_cast<int>(r.u(0, 2));
    bool uni = r.coin();
    o.uniform_arity = uni;
    if (kind == 2) o.kernels = ref::ann_kernels();
    unsigned ne = kind == 0 && r.coin() ? r.u(1, 3) : 0u;
    auto p = gen::prog(r, o, ne);
    auto seed = r.coin(0.2) ? r.u(0, 2) : static_cast<unsigned>(r.u64());
    auto ks = gen::kernels<double>(p);
    auto go = [&](auto mk) {
        auto a = mk(seed);
        auto noise = mk(seed + 1u);
        noise.mutate_random(3u);
        dcgp::random_device::next();
        auto b = mk(seed);
        using E = decltype(a);
        auto d = std::string(gen::kind_name<E>()) + " seed " + str(seed) + " " + p.descr();
        if (behaviour(a) != behaviour(b)) violation("equal seeds", d + diff(behaviour(a), behaviour(b)));
        Rng q1(r.u64()), q2(q1);
        for (unsigned i = 0; i < 10u; ++i) {
            auto op = gen::random_op(a, q1, p);
            noise.mutate_random(2u);
            std::vector<double> pt(gen::n_in(b), 0.1 * i);
            b(pt); // evaluation draws no random numbers
            b.get_active_genes();
            gen::random_op(b, q2, p);
            if (gen::observe(a) != gen::observe(b)) {
                violation("equal seeds diverge", d + " after " + op + diff(gen::observe(a), gen::observe(b)));
                break;
            }
        }
        if (behaviour(a) != behaviour(b)) violation("equal seeds diverge", d + diff(behaviour(a), behaviour(b)));
        // reseeding: the past of the random engine is forgotten
        auto x = gen::chromosome(r, p);
        noise.set(x), b.set(x);
        if constexpr (!std::is_same<E, gen::plain_t>::value) noise.set_weights(b.get_weights());
        if constexpr (gen::is_ann<E>::value) noise.set_biases(b.get_biases());
        if constexpr (std::is_same<E, gen::plain_t>::value)
            if (ne) noise.set_eph_val(b.get_eph_val());
        long s2 = r.coin(0.2) ? 0 : static_cast<long>(r.u(0, 1000000));
        noise.seed(s2), b.seed(s2);
        if (behaviour(noise) != behaviour(b)) violation("reseeding", d + " " + str(s2) + diff(behaviour(noise), behaviour(b)));
        // randomised parameters with a given seed
        if constexpr (gen::is_ann<E>::value) {
            unsigned ws = static_cast<unsigned>(r.u64());
            noise.mutate_random(1u);
            noise.randomise_weights(0.1, 0.7, ws), b.randomise_weights(0.1, 0.7, ws);
            noise.randomise_biases(0.1, 0.7, ws), b.randomise_biases(0.1, 0.7, ws);
            if (noise.get_weights() != b.get_weights() || noise.get_biases() != b.get_biases()) violation("randomised parameters with equal seeds", d);
        }
        evaluated("equal seeds " + d, true);
    };
    if (kind == 0)
        go([&](unsigned s) { return uni ? gen::plain_t(p.n - ne, p.m, p.r, p.c, p.l, p.arity[0], ks, ne, s) : gen::plain_t(p.n - ne, p.m, p.r, p.c, p.l, p.arity, ks, ne, s); });
    else if (kind == 1)
        go([&](unsigned s) { return uni ? gen::weighted_t(p.n, p.m, p.r, p.c, p.l, p.arity[0], ks, s) : gen::weighted_t(p.n, p.m, p.r, p.c, p.l, p.arity, ks, s); });
    else
        go([&](unsigned s) { return uni ? gen::ann_t(p.n, p.m, p.r, p.c, p.l, p.arity[0], ks, s) : gen::ann_t(p.n, p.m, p.r, p.c, p.l, p.arity, ks, s); });
}
template <typename G>
static void gdual_expression(Rng &r)
{
    gen::Opt o;
    o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv"));
    unsigned ne = r.u(0, 2);
    auto mk = [&](ref::Prog &p) {
        p = gen::prog(r, o, ne);
        p.x = gen::chromosome(r, p);
        dcgp::expression<G> e(p.n - ne, p.m, p.r, p.c, p.l, p.arity, gen::kernels<G>(p), ne, static_cast<unsigned>(r.u64()));
        e.set(p.x);
        std::vector<G> c;
        for (unsigned i = 0; i < ne; ++i) c.push_back(G(r.real(-2., 2.), e.get_eph_symb()[i], r.u(1, 2)));
        if (ne) e.set_eph_val(c);
        return e;
    };
    ref::Prog p, p2;
    auto e = mk(p), over = mk(p2);
    auto show = [&](dcgp::expression<G> c) {
        std::ostringstream s;
        s.precision(17);
        s << vs(c.get()) << vs(c.get_lb()) << vs(c.get_ub()) << vs(c.get_active_genes()) << vs(c.get_arity()) << c.get_l() << " " << c.get_r();
        for (auto &q : c.get_eph_symb()) s << q << " ";
        for (auto &q : c.get_eph_val()) s << q << " ";
        std::vector<G> x;
        for (unsigned i = 0; i + ne < c.get_n(); ++i) x.push_back(G(0.3 + 0.2 * i, "x" + str(i), 2u));
        for (auto &q : c(x)) s << q << "; ";
        for (int i = 0; i < 3; ++i) {
            c.mutate_random(3u);
            s << vs(c.get());
        }
        return s.str();
    };
    auto a = show(e);
    by_every_route(r, e, over, [&](dcgp::expression<G> &t, const std::string &how) {
        auto d = "gdual expression " + how + " of " + p.descr();
        if (show(t) != a) violation("copied gdual expression", d + diff(a, show(t)));
        t.mutate_random(5u);
        if (ne) t.set_eph_val(std::vector<G>(ne, G(9.)));
        if (show(e) != a) violation("changing a copy changed the source", d + diff(a, show(e)));
        evaluated(d, true);
    });
}
static std::string kstr(const dcgp::kernel<double> &k)
{
    return k.get_name() + " ts" + str(static_cast<int>(k.get_thread_safety())) + k(std::vector<std::string>{"a", "b"}) + str(k(std::vector<double>{0.4, -1.5}));
}
struct Stateful {
    double k;
    pagmo::thread_safety t;
    pagmo::thread_safety get_thread_safety() const { return t; }
    double operator()(const std::vector<double> &x) const { return k * x[0]; }
};
struct StatefulS {
    int k;
    pagmo::thread_safety t;
    pagmo::thread_safety get_thread_safety() const { return t; }
    std::string operator()(const std::vector<std::string> &x) const { return std::to_string(k) + x[0]; }
};
static void kernels(Rng &r)
{
    auto any = [&] {
        auto all = ref::all_kernels();
        if (r.coin()) return dcgp::kernel_set<double>({r.pick(all)})[0];
        auto ts = [&] { return static_cast<pagmo::thread_safety>(r.u(0, 2)); };
        return dcgp::kernel<double>(Stateful{r.real(-3., 3.), ts()}, StatefulS{static_cast<int>(r.u(0, 9)), ts()}, "k" + str(r.u(0, 9)));
    };
    for (unsigned i = 0; i < 6u; ++i) {
        auto k = any(), over = any();
        auto a = kstr(k), b = kstr(over);
        by_every_route(r, k, over, [&](dcgp::kernel<double> &t, const std::string &how) {
            if (kstr(t) != a) violation("copied kernel", how + " " + a + " gave " + kstr(t));
            t = over;
            if (kstr(t) != b) violation("copied kernel", how + " " + b + " gave " + kstr(t));
            if (kstr(k) != a || kstr(over) != b) violation("changing a copy changed the source", how + " " + a);
            count("kernels obtained by " + how);
        });
        evaluated("kernel " + a + " over " + b, true);
    }
    // sets
    std::vector<dcgp::kernel<double>> v{any(), any()};
    dcgp::kernel_set<double> s, over({"sum", "sin", "cos"});
    for (auto &k : v) s.push_back(k);
    by_every_route(r, s, over, [&](dcgp::kernel_set<double> &t, const std::string &how) {
        if (t().size() != 2u || kstr(t[0]) != kstr(v[0]) || kstr(t[1]) != kstr(v[1])) violation("copied kernel set", how);
        t.push_back("exp");
        t.clear();
        if (s().size() != 2u || over().size() != 3u) violation("changing a copy changed the source", "kernel set " + how);
    });
}
static void problems(Rng &r)
{
    srg::Opt o;
    auto c = srg::conf(r, o), c2 = srg::conf(r, o);
    if (c.par > 2u) c.par = 1u;
    if (c2.par > 2u) c2.par = 1u;
    auto s = srg::make(c), over = r.coin(0.8) ? srg::make(c2) : dcgp::symbolic_regression();
    bool der = c.n_eph > 0u;
    std::vector<std::vector<double>> xs;
    for (unsigned i = 0; i < 3u; ++i) xs.push_back(srg::dv(r, c));
    auto history = [&](dcgp::symbolic_regression &q, const std::vector<std::vector<double>> &zs) {
        for (unsigned i = r.u(0, 4); i--;) {
            auto &x = zs[r.u(0, static_cast<unsigned>(zs.size()) - 1u)];
            switch (r.u(0, 3)) {
                case 0: q.fitness(x); break;
                case 1: if (der) q.gradient(x); break;
                case 2: if (der) q.hessians(x); break;
                default: if (srg::prog_of(c, x).formula_size() < 2000.) q.pretty(x);
            }
        }
    };
    if (r.coin(0.3)) s.set_phenotype_correction(CorrD{1.5}, CorrV{1.5});
    if (r.coin(0.3)) over.set_phenotype_correction(CorrD{-1.5}, CorrV{-1.5});
    history(s, xs);
    // equal arguments
    {
        auto t = srg::make(c), u = srg::make(c);
        auto a = show_problem(t, c, xs, der), b = show_problem(u, c, xs, der);
        if (a != b) violation("equal problems", c.descr() + diff(a, b));
    }
    dcgp::symbolic_regression keep(s);
    auto a = show_problem(keep, c, xs, der);
    by_every_route(r, s, over, [&](dcgp::symbolic_regression &t, const std::string &how) {
        auto d = how + " of " + c.descr() + " over " + c2.descr();
        // the values first asked for are those of the source
        auto f = s.fitness(xs[0]);
        dcgp::symbolic_regression tt(t);
        if (!same(tt.fitness(xs[0]), f)) violation("copied problem", d + " fitness");
        auto b = show_problem(t, c, xs, der);
        if (a != b) violation("copied problem", d + diff(a, b));
        // independence
        t.set_phenotype_correction(CorrD{7.}, CorrV{7.});
        std::vector<std::vector<double>> ys;
        for (unsigned i = 0; i < 3u; ++i) ys.push_back(srg::dv(r, c));
        history(t, ys);
        dcgp::symbolic_regression s2(s);
        auto z = show_problem(s2, c, xs, der);
        if (z != a) violation("changing a copy changed the source", d + diff(a, z));
        // (on copies: printing them leaves a history)
        auto before = show_problem(dcgp::symbolic_regression(t), c, ys, der);
        s.unset_phenotype_correction();
        history(s, xs);
        if (show_problem(dcgp::symbolic_regression(t), c, ys, der) != before) violation("changing the source changed a copy", d);
        count("problems obtained by " + how);
        evaluated("problem " + d, true);
    });
}
template <typename A>
static void algorithm(Rng &r, const std::string &name, A a, A over, const std::function<A()> &mk, const pagmo::population &p0, const std::string &conf)
{
    bool fin = true;
    a.set_verbosity(r.u(0, 2));
    if (r.coin()) over.evolve(p0);
    // equal arguments and seed, same calls
    {
        A x = mk(), y = mk();
        over.evolve(p0);
        auto p = x.evolve(p0), q = y.evolve(p0);
        if (pop_str(p) != pop_str(q)) violation("equal algorithms", name + " " + conf + diff(pop_str(p), pop_str(q)));
        p = x.evolve(p), q = y.evolve(q);
        if (pop_str(p) != pop_str(q)) violation("equal algorithms diverge", name + " " + conf + diff(pop_str(p), pop_str(q)));
    }
    for (unsigned i = r.u(0, 2); i--;) a.evolve(p0);
    auto state = [&](const A &x) {
        bool f = true;
        A y(x);
        std::string s = x.get_extra_info() + x.get_name() + log_str(x, f);
        auto p = y.evolve(p0);
        return s + pop_str(p) + log_str(y, f) + pop_str(y.evolve(p));
    };
    auto s0 = state(a);
    by_every_route(r, a, over, [&](A &t, const std::string &how) {
        auto d = name + " " + how + " " + conf;
        auto s1 = state(t);
        if (s0 != s1) violation("copied algorithm", d + diff(s0, s1));
        t.evolve(p0);
        t.set_verbosity(5u);
        if (state(a) != s0) violation("changing a copy changed the source", d + diff(s0, state(a)));
        auto st1 = state(t);
        a.evolve(p0);
        if (state(t) != st1) violation("changing the source changed a copy", d);
        count("algorithms obtained by " + how);
        evaluated("algorithm " + d, true);
    });
    (void)fin;
}
static void algorithms(Rng &r)
{
    srg::Opt o;
    int which = static_cast<int>(r.u(0, 4));
    o.mo = which == 2 || which == 3;
    o.eph = which == 4 ? static_cast<int>(r.u(1, 3)) : static_cast<int>(r.u(0, 3));
    o.max_points = 4;
    auto c = srg::conf(r, o);
    while (!c.printable()) c = srg::conf(r, o); // verbose algorithms print formulas
    c.par = 0;
    auto seed = static_cast<unsigned>(r.u64());
    pagmo::population pop(srg::make(c), r.u(2, 5), seed);
    auto two = [&](const std::string &nm, auto mk) {
        using A = decltype(mk(seed));
        auto s = static_cast<unsigned>(r.u64());
        algorithm<A>(r, nm, mk(s), mk(s + 1u), [&] { return mk(s); }, pop, c.descr());
    };
    unsigned g = r.u(0, 5), mm = r.u(1, 8);
    double tol = r.coin() ? 0. : std::pow(10., r.real(-3., 1.));
    bool lc = r.coin();
    switch (which) {
        case 0: two("es4cgp", [&](unsigned s) { return dcgp::es4cgp(g, mm, tol, lc, s); }); break;
        case 1: two("mes4cgp", [&](unsigned s) { return dcgp::mes4cgp(g, mm, tol, s); }); break;
        case 2: two("moes4cgp", [&](unsigned s) { return dcgp::moes4cgp(g, mm, tol, lc, s); }); break;
        case 3: two("momes4cgp", [&](unsigned s) { return dcgp::momes4cgp(g, mm, tol, s); }); break;
        default: {
            bool rnd = r.coin();
            two("gd4cgp", [&](unsigned s) {
                dcgp::gd4cgp a(g, 0.3, 1e-3);
                if (rnd) a.set_selection("random"), a.set_replacement("random");
                a.set_random_sr_seed(s);
                return a;
            });
        }
    }
}
int main(int argc, char **argv)
{
    Mute mute;
    return run(argc, argv, [](Rng &r, long c) {
        switch (c % 8) {
            case 0:
            case 1: expressions(r); break;
            case 2:
            case 3: equal_seeds(r); break;
            case 4: r.coin() ? gdual_expression<audi::gdual_d>(r) : gdual_expression<audi::gdual_v>(r); break;
            case 5: kernels(r); break;
            case 6: problems(r); break;
            default: algorithms(r);
        }
    });
}
