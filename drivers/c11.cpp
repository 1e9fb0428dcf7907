// C11: an expression, kernel or function restored from an archive behaves as the original.
#include "s11n_common.hpp"
// user kernels
template <pagmo::thread_safety TS>
struct Ker {
    double k = 2.;
    pagmo::thread_safety get_thread_safety() const { return TS; }
    double operator()(const std::vector<double> &x) const { return k * x[0] - x.back(); }
    template <typename Archive>
    void serialize(Archive &ar, unsigned) { ar &k; }
};
template <pagmo::thread_safety TS>
struct Pri {
    int k = 2;
    pagmo::thread_safety get_thread_safety() const { return TS; }
    std::string operator()(const std::vector<std::string> &x) const { return "(" + std::to_string(k) + "*" + x[0] + "-" + x.back() + ")"; }
    template <typename Archive>
    void serialize(Archive &ar, unsigned) { ar &k; }
};
using Kn = Ker<pagmo::thread_safety::none>;
using Kb = Ker<pagmo::thread_safety::basic>;
using Kc = Ker<pagmo::thread_safety::constant>;
using Pn = Pri<pagmo::thread_safety::none>;
using Pc = Pri<pagmo::thread_safety::constant>;
using VecS = std::vector<std::string>;
DCGP_S11N_FUNCTION_EXPORT(vker_n, Kn, double, const VecD &)
DCGP_S11N_FUNCTION_EXPORT(vker_b, Kb, double, const VecD &)
DCGP_S11N_FUNCTION_EXPORT(vker_c, Kc, double, const VecD &)
DCGP_S11N_FUNCTION_EXPORT(vpri_n, Pn, std::string, const VecS &)
DCGP_S11N_FUNCTION_EXPORT(vpri_c, Pc, std::string, const VecS &)
// ---------------------------------------------------------------- expressions
static void expressions(Rng &r)
{
    gen::Opt o;
    o.max_m = 5;
    int kind = static_cast<int>(r.u(0, 2));
    gen::with_expr(
        r, o,
        [&](auto &e, ref::Prog &p) {
            using E = std::decay_t<decltype(e)>;
            use(e, r, p);
            auto run_one = [&](E &into, const std::string &where) {
                bool text = r.coin();
                auto d = std::string(gen::kind_name<E>()) + " " + p.descr() + (text ? " text into " : " binary into ") + where;
                restore(e, into, text);
                auto a = behaviour(e), b = behaviour(into);
                if (a != b) violation("expression restored", d + "\n" + a + "\nrestored\n" + b);
                // the same operations
                E x(e), y(into);
                Rng q1(r.u64()), q2(q1);
                for (unsigned i = 0; i < 5u; ++i) {
                    auto op = gen::random_op(x, q1, p);
                    gen::random_op(y, q2, p);
                    auto s = gen::observe(x), t = gen::observe(y);
                    if (s != t) {
                        violation("expression used after restoring", d + " " + op + "\n" + s + "\nrestored\n" + t);
                        break;
                    }
                }
                // independent of the original
                gen::random_op(into, r, p);
                if (behaviour(e) != a) violation("restoring changed the original", d);
                evaluated("expression " + d, true);
            };
            gen::Opt o2;
            if (r.coin()) {
                // an object that holds another state
                gen::with_expr(
                    r, o2,
                    [&](auto &e2, ref::Prog &p2) {
                        if constexpr (std::is_same<std::decay_t<decltype(e2)>, E>::value) {
                            use(e2, r, p2);
                            run_one(e2, "another object " + p2.descr());
                        }
                    },
                    kind);
            } else {
                E d(e);
                use(d, r, p);
                if (r.coin()) run_one(d, "a changed copy");
                else if constexpr (std::is_same<E, gen::plain_t>::value) {
                    E def;
                    run_one(def, "a default constructed object");
                } else
                    run_one(d, "a changed copy");
            }
        },
        kind);
}
template <typename G>
static void gdual_expression(Rng &r)
{
    gen::Opt o;
    o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv"));
    unsigned ne = r.u(0, 2);
    auto mk = [&](ref::Prog &p) {
        p = gen::prog(r, o, ne);
        p.x = gen::chromosome(r, p);
        dcgp::expression<G> e(p.n - ne, p.m, p.r, p.c, p.l, p.arity, gen::kernels<G>(p), ne, static_cast<unsigned>(r.u64()));
        e.set(p.x);
        std::vector<G> c;
        for (unsigned i = 0; i < ne; ++i) c.push_back(G(r.real(-2., 2.), e.get_eph_symb()[i], r.u(1, 2)));
        if (ne) e.set_eph_val(c);
        if (ne && r.coin(0.3)) {
            std::vector<std::string> s;
            for (unsigned i = 0; i < ne; ++i) s.push_back("k" + str(i));
            e.set_eph_symb(s);
        }
        return e;
    };
    ref::Prog p, p2;
    auto e = mk(p), into = mk(p2);
    bool text = r.coin();
    auto show = [&](dcgp::expression<G> c) {
        std::ostringstream s;
        s.precision(17);
        s << vs(c.get()) << vs(c.get_lb()) << vs(c.get_ub()) << vs(c.get_active_genes()) << vs(c.get_arity()) << c.get_l() << " " << c.get_r();
        for (auto &q : c.get_eph_symb()) s << q << " ";
        for (auto &q : c.get_eph_val()) s << q << " ";
        std::vector<G> x;
        for (unsigned i = 0; i + ne < c.get_n(); ++i) x.push_back(G(0.3 + 0.2 * i, "x" + str(i), 2u));
        for (auto &q : c(x)) s << q << "; ";
        for (int i = 0; i < 3; ++i) {
            c.mutate_random(3u);
            s << vs(c.get());
        }
        return s.str();
    };
    auto d = std::string("gdual expression ") + p.descr() + (text ? " text" : " binary");
    auto a = show(e);
    if (text) {
        // text archives cannot hold infinities
        for (auto &q : e.get_eph_val()) (void)q;
    }
    restore(e, into, text);
    auto b = show(into);
    if (a != b) violation("gdual expression restored", d + "\n" + a + "\nrestored\n" + b);
    evaluated(d, true);
}
// ---------------------------------------------------------------- kernels and functions
static dcgp::kernel<double> user_kernel(Rng &r)
{
    using K = dcgp::kernel<double>;
    typename K::my_fun_type f;
    typename K::my_print_fun_type p;
    switch (r.u(0, 2)) {
        case 0: f = Kn{r.real(-3., 3.)}; break;
        case 1: f = Kb{r.real(-3., 3.)}; break;
        default: f = Kc{r.real(-3., 3.)};
    }
    if (r.coin()) p = Pn{static_cast<int>(r.u(0, 99))};
    else p = Pc{static_cast<int>(r.u(0, 99))};
    static const std::vector<std::string> nm{"mine", "", "a name with spaces", "sum", "0"};
    return K(f, p, r.pick(nm));
}
template <typename K>
static std::string show_kernel(const K &k)
{
    std::vector<std::string> n{"a", "b"};
    return k.get_name() + " ts" + str(static_cast<int>(k.get_thread_safety())) + " " + k(n) + k(std::vector<std::string>{"z"});
}
static std::string show_kernel_d(const dcgp::kernel<double> &k)
{
    return show_kernel(k) + str(k(std::vector<double>{0.3, 1.7})) + str(k(std::vector<double>{-0.7, 0.2, 3.})) + str(k(std::vector<double>{0.}));
}
static void kernels(Rng &r)
{
    bool text = r.coin();
    // library and user kernels over doubles, into kernels holding something else
    auto any = [&] {
        auto all = ref::all_kernels();
        return r.coin() ? user_kernel(r) : dcgp::kernel_set<double>({r.pick(all)})[0];
    };
    for (unsigned i = 0; i < 4u; ++i) {
        auto k = any(), into = any();
        auto a = show_kernel_d(k);
        if (r.coin(0.3)) {
            dcgp::kernel<double> def;
            restore(k, def, text);
            if (show_kernel_d(def) != a) violation("kernel restored", a + " became " + show_kernel_d(def));
        }
        restore(k, into, text);
        if (show_kernel_d(into) != a) violation("kernel restored", a + " became " + show_kernel_d(into));
        if (show_kernel_d(k) != a) violation("saving changed a kernel", a);
        evaluated("kernel " + a, true);
    }
    // every library kernel, as a set
    auto all = ref::all_kernels();
    r.shuffle(all);
    dcgp::kernel_set<double> s(all), t(std::vector<std::string>(r.u(0, 3), "sin"));
    restore(s, t, text);
    if (t().size() != all.size()) violation("kernel set restored", "size " + str(t().size()));
    else
        for (std::size_t i = 0; i < all.size(); ++i)
            if (show_kernel_d(s[i]) != show_kernel_d(t[i])) violation("kernel set restored", show_kernel_d(s[i]) + " became " + show_kernel_d(t[i]));
    all.erase(std::find(all.begin(), all.end(), "pdiv"));
    dcgp::kernel_set<audi::gdual_d> sg(all), tg;
    dcgp::kernel_set<audi::gdual_v> sv(all), tv;
    restore(sg, tg, text);
    restore(sv, tv, text);
    for (std::size_t i = 0; i < all.size(); ++i) {
        std::ostringstream x, y;
        x.precision(17), y.precision(17);
        std::vector<audi::gdual_d> g{audi::gdual_d(0.7, "a", 2u), audi::gdual_d(0.2, "b", 2u)};
        std::vector<audi::gdual_v> v{audi::gdual_v(std::vector<double>{0.7, -0.1}, "a", 1u), audi::gdual_v(std::vector<double>{0.2, 0.9}, "b", 1u)};
        x << sg[i](g) << sv[i](v) << show_kernel(sg[i]) << show_kernel(sv[i]);
        y << tg[i](g) << tv[i](v) << show_kernel(tg[i]) << show_kernel(tv[i]);
        if (x.str() != y.str()) violation("gdual kernel restored", x.str() + " became " + y.str());
    }
    // type erased functions
    using F = dcgp::function<double(const VecD &)>;
    for (unsigned i = 0; i < 4u; ++i) {
        double c = r.real(-4., 4.);
        F f, g;
        int ts = static_cast<int>(r.u(0, 2));
        if (ts == 0) f = Kn{c};
        else if (ts == 1) f = Kb{c};
        else f = Kc{c};
        if (r.coin()) g = Kn{c + 1.};
        else if (r.coin()) g = Kc{c - 1.};
        if (r.coin(0.2)) { F h(std::move(g)); } // a moved-from target
        restore(f, g, text);
        bool right = g.is_valid() && g(VecD{1., 0.5}) == c - 0.5 && static_cast<int>(g.get_thread_safety()) == ts && g.is<Kn>() == (ts == 0) && g.is<Kb>() == (ts == 1) && g.is<Kc>() == (ts == 2);
        if (right) {
            auto *q = ts == 0 ? &g.extract<Kn>()->k : ts == 1 ? &g.extract<Kb>()->k : &g.extract<Kc>()->k;
            right = *q == c;
            *q = 100.;
            right = right && f(VecD{1., 0.5}) == c - 0.5;
        }
        if (!right) violation("function restored", "thread safety " + str(ts) + " k " + str(c));
    }
    evaluated(std::string("kernel sets and functions ") + (text ? "text " : "binary ") + vs(std::vector<double>{r.unit()}), true);
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        switch (c % 5) {
            case 0:
            case 1:
            case 2: expressions(r); break;
            case 3: r.coin() ? gdual_expression<audi::gdual_d>(r) : gdual_expression<audi::gdual_v>(r); break;
            default: kernels(r);
        }
    });
}
