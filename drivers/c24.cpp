// C24: hostile sequences of calls on expressions of extreme shapes. The deciding oracles are the sanitizers (memory, undefined
// behaviour, leaks), valgrind (uninitialised values), the library assertions and the watchdog; a call may only return or throw
// an exception derived from std::exception.
#include "s11n_common.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>
#include <thread>
using namespace vh;
using V = std::vector<double>;
using VU = std::vector<unsigned>;
using G = audi::gdual_d;
using GV = audi::gdual_v;

static const double NASTY[] = {0., -0., 1., -1., 5e-324, -5e-324, 1e-300, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, INFINITY, -INFINITY, NAN, 0.5, 4294967295., 1e16, 709.8, -745.2};
static double num(Rng &r)
{
    return r.coin(0.6) ? r.real(-3., 3.) : NASTY[r.u(0, sizeof NASTY / sizeof *NASTY - 1u)];
}
static V nums(Rng &r, std::size_t n)
{
    V v(n);
    bool calm = r.coin();
    for (auto &x : v) x = calm ? r.real(-2., 2.) : num(r);
    return v;
}
// values of the type of the expression
template <typename T>
static std::vector<T> vals(Rng &r, std::size_t n)
{
    std::vector<T> v;
    const unsigned order = r.u(0, 2), pts = r.coin(0.8) ? 3u : r.u(1, 5);
    for (std::size_t i = 0; i < n; ++i) {
        if constexpr (std::is_same<T, double>::value) v.push_back(num(r));
        else if constexpr (std::is_same<T, G>::value) {
            if (order && i < 3u && r.coin(0.8)) v.push_back(G(num(r), "d" + str(i), order));
            else v.push_back(G(num(r)));
        } else {
            if (order && i < 3u && r.coin(0.8)) v.push_back(GV(nums(r, pts), "d" + str(i), order));
            else v.push_back(r.coin() ? GV(num(r)) : GV(nums(r, pts)));
        }
    }
    return v;
}
// an index which is often out of the range [0, n)
static unsigned idx(Rng &r, std::size_t n)
{
    switch (r.u(0, 7)) {
        case 0: return static_cast<unsigned>(n);
        case 1: return static_cast<unsigned>(n + r.u(0, 3));
        case 2: return r.coin() ? 4294967295u : 2147483648u;
        case 3: return static_cast<unsigned>(r.u64());
        default: return n ? r.u(0, static_cast<unsigned>(n) - 1u) : 0u;
    }
}
static std::size_t len(Rng &r, std::size_t n)
{
    switch (r.u(0, 9)) {
        case 0: return 0;
        case 1: return n ? n - 1u : 1u;
        case 2: return n + 1u;
        case 3: return r.u(0, 40);
        default: return n;
    }
}
struct Shape {
    unsigned n, m, r, c, l;
    VU arity;
    unsigned n_eph;
};
static Shape shape(Rng &r, bool heavy)
{
    Shape s;
    s.n = r.u(1, 4), s.m = r.u(1, 4), s.r = r.u(1, 4), s.c = r.u(1, 6);
    unsigned a = r.u(1, 3);
    switch (r.u(0, 11)) {
        case 0: s.n = s.m = s.r = s.c = a = 1; break;
        case 1: s.c = r.u(30, heavy ? 40 : 300), s.r = 1; break;
        case 2: s.r = r.u(20, heavy ? 30 : 150), s.c = 1; break;
        case 3: s.r = r.u(10, heavy ? 4 : 30), s.c = r.u(10, heavy ? 4 : 30); break;
        case 4: a = r.u(8, heavy ? 8 : 60); break;
        case 5: s.n = r.u(20, 60); break;
        case 6: s.m = r.u(20, 60); break;
        case 7: s.m = r.u(30, 60), s.r = s.c = 1; break;
        default: break;
    }
    if (heavy) s.r = std::min(s.r, 30u), s.c = std::min(s.c, 40u), a = std::min(a, 8u);
    switch (r.u(0, 4)) {
        case 0: s.l = 1; break;
        case 1: s.l = s.c + r.u(0, 2); break;
        case 2: s.l = r.coin() ? 4294967295u : 2147483648u; break;
        default: s.l = r.u(1, s.c);
    }
    for (unsigned i = 0; i < s.c; ++i) s.arity.push_back(r.coin(0.7) ? a : r.u(1, a));
    s.n_eph = r.coin(0.6) ? r.u(0, 3) : r.coin() ? 0u : r.u(4, 20);
    // sometimes not admissible
    if (r.coin(0.08)) {
        switch (r.u(0, 9)) {
            case 0: s.n = 0; break;
            case 1: s.m = 0; break;
            case 2: s.r = 0; break;
            case 3: s.c = 0; break;
            case 4: s.l = 0; break;
            case 5: s.arity.pop_back(); break;
            case 6: s.arity.push_back(1); break;
            case 7: s.arity[r.u(0, s.c - 1u)] = 0; break;
            case 8: s.r = 2147483648u, s.c = 2, s.arity.assign(2, 2); break; // as many nodes as do not fit
            default: s.n = 4294967295u;
        }
    }
    return s;
}
static const std::vector<std::string> &names(bool ann)
{
    static const std::vector<std::string> all{"sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
    static const std::vector<std::string> a{"sum", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin", "cos", "gaussian", "inv_sum", "abs", "step"};
    return ann ? a : all;
}
template <typename T>
static std::vector<dcgp::kernel<T>> kernels(Rng &r, bool ann)
{
    std::vector<std::string> l;
    for (unsigned k = r.coin(0.03) ? 0u : r.u(1, 8); k--;) {
        auto n = names(ann && !r.coin(0.03));
        auto q = r.pick(n);
        if (q == "pdiv" && !std::is_same<T, double>::value) q = "div";
        l.push_back(q);
    }
    dcgp::kernel_set<T> ks(l);
    auto v = ks();
    if (!ann && r.coin(0.1)) v.push_back(dcgp::kernel<T>([](const std::vector<T> &x) { return x.back() + x.front(); }, [](const std::vector<std::string> &x) { return "(" + x.back() + "+" + x.front() + ")"; }, "mine"));
    if (r.coin(0.05) && v.size() < 100u) v.insert(v.end(), 60, v.empty() ? dcgp::kernel_set<T>({"sum"})()[0] : v[0]);
    return v;
}
template <typename E>
struct value_type {
    using type = double;
};
template <typename T>
struct value_type<dcgp::expression<T>> {
    using type = T;
};
template <typename T>
struct value_type<dcgp::expression_weighted<T>> {
    using type = T;
};
template <typename E>
constexpr bool ann = std::is_same<E, dcgp::expression_ann>::value;
template <typename E>
constexpr bool weighted = std::is_same<E, dcgp::expression_weighted<typename value_type<E>::type>>::value;

template <typename E>
static E construct(Rng &r)
{
    using T = typename value_type<E>::type;
    auto s = shape(r, !std::is_same<T, double>::value);
    auto ks = kernels<T>(r, ann<E>);
    auto seed = static_cast<unsigned>(r.u64());
    const bool uni = r.coin(0.4) && s.arity.size();
    const unsigned a0 = uni ? s.arity[0] : 0u;
    if constexpr (ann<E> || weighted<E>) {
        if (uni) return E(s.n, s.m, s.r, s.c, s.l, a0, ks, seed);
        return E(s.n, s.m, s.r, s.c, s.l, s.arity, ks, seed);
    } else {
        if (uni) return E(s.n, s.m, s.r, s.c, s.l, a0, ks, s.n_eph, seed);
        return E(s.n, s.m, s.r, s.c, s.l, s.arity, ks, s.n_eph, seed);
    }
}
// number of terms of the formulas (they can grow exponentially with the number of columns)
template <typename E>
static double terms(const E &e)
{
    std::vector<double> t(e.get_n() + e.get_r() * e.get_c(), 1.);
    double s = 0.;
    const auto &x = e.get();
    for (unsigned k : e.get_active_nodes()) {
        if (k < e.get_n()) continue;
        double q = 1.;
        for (unsigned i = 1; i <= e.get_arity(k); ++i) q += t[x[e.get_gene_idx()[k] + i]];
        t[k] = q * 2.;
    }
    for (unsigned i = 0; i < e.get_m(); ++i) s += t[x[x.size() - e.get_m() + i]];
    return s;
}
static std::map<std::string, unsigned long long> calls;
// results are looked at, so that a result which was never computed is noticed (valgrind)
static unsigned long long looked[2];
static void use(double v) { ++looked[v > 0.25]; }
static void use(unsigned v) { ++looked[v & 1u]; }
static void use(bool v) { ++looked[v]; }
static void use(const G &v) { use(v.constant_cf()); }
static void use(const GV &v)
{
    for (unsigned i = 0; i < v.constant_cf().size(); ++i) use(v.constant_cf()[i]);
}
static void use(const std::string &v)
{
    for (char c : v) ++looked[c & 1];
}
template <typename T>
static void use(const std::vector<T> &v)
{
    for (const auto &x : v) use(static_cast<const T &>(x));
}
static const char *LOSS[] = {"MSE", "CE", "", "mse", "MSE\0", "X"};

template <typename E>
static void act(Rng &r, E &e, E &other, std::string &what)
{
    using T = typename value_type<E>::type;
    const std::size_t nin = e.get_n() - e.get_eph_val().size(), m = e.get_m(), nodes = e.get_n() + std::size_t(e.get_r()) * e.get_c(), genes = e.get().size();
    const bool small = nodes * m < 600u;
    auto data = [&](std::vector<std::vector<T>> &X, std::vector<std::vector<T>> &Y) {
        unsigned np = r.coin(0.1) ? 0u : r.u(1, small ? 9 : 3);
        for (unsigned i = 0; i < np; ++i) X.push_back(vals<T>(r, nin)), Y.push_back(vals<T>(r, m));
        if (r.coin(0.1)) Y.push_back(vals<T>(r, m));
        if (r.coin(0.1) && np) Y.pop_back();
        if (r.coin(0.1) && np) r.pick(X) = vals<T>(r, len(r, nin));
        if (r.coin(0.1) && Y.size()) r.pick(Y) = vals<T>(r, len(r, m));
    };
    unsigned k = r.coin(0.05) ? 100u : r.u(0, ann<E> ? 39 : weighted<E> ? 30 : 27);
    auto is = [&](const char *s) { what = s; };
    switch (k) {
        case 0: is("call"), use(e(vals<T>(r, len(r, nin)))); break;
        case 1: {
            is("print");
            if (terms(e) > 3000.) break;
            std::vector<std::string> nm(len(r, nin));
            for (auto &q : nm) q = r.coin(0.1) ? "" : "x" + str(r.u(0, 9));
            use(e(nm));
            break;
        }
        case 2: {
            is("loss of a point");
            use(e.loss(vals<T>(r, len(r, nin)), vals<T>(r, len(r, m)), r.coin() ? E::loss_type::MSE : E::loss_type::CE));
            break;
        }
        case 3:
        case 4: {
            is("loss");
            std::vector<std::vector<T>> X, Y;
            data(X, Y);
            use(e.loss(X, Y, LOSS[r.coin(0.9) ? r.u(0, 1) : r.u(2, 5)], r.coin(0.4) ? 0u : idx(r, X.size() + 1u)));
            break;
        }
        case 5: {
            is("set");
            VU x = e.get();
            x.resize(len(r, genes), 0u);
            for (unsigned i = r.u(0, 4); i-- && x.size();) {
                auto j = r.u(0, unsigned(x.size()) - 1u);
                x[j] = r.coin(0.9) && j < genes ? r.u(e.get_lb()[j], e.get_ub()[j]) : idx(r, nodes);
            }
            e.set(x);
            break;
        }
        case 6: {
            is("set to bounds");
            e.set(r.coin() ? e.get_lb() : e.get_ub());
            break;
        }
        case 7: {
            is("set from range");
            V x(e.get().begin(), e.get().end());
            x.resize(len(r, genes), 0.);
            for (unsigned i = r.u(0, 4); i-- && x.size();) {
                auto j = r.u(0, unsigned(x.size()) - 1u);
                x[j] = r.coin(0.7) && j < genes ? r.real(e.get_lb()[j], e.get_ub()[j]) : num(r);
            }
            e.set_from_range(x.begin(), x.end());
            break;
        }
        case 8: {
            is("set from signed range");
            std::vector<int> x(e.get().begin(), e.get().end());
            if (r.coin()) r.pick(x) = r.coin() ? -1 : -2147483647 - 1;
            e.set_from_range(x.begin(), x.end());
            break;
        }
        case 9: is("set f gene"), e.set_f_gene(idx(r, nodes), idx(r, e.get_f().size())); break;
        case 10: {
            if constexpr (!ann<E> && !weighted<E>) is("set eph val"), e.set_eph_val(vals<T>(r, len(r, e.get_eph_val().size())));
            break;
        }
        case 11: {
            if constexpr (!ann<E> && !weighted<E>) {
                is("set eph symb");
                std::vector<std::string> nm(len(r, e.get_eph_symb().size()));
                for (auto &q : nm) q = r.coin(0.2) ? "" : "k" + str(r.u(0, 3));
                e.set_eph_symb(nm);
            }
            break;
        }
        case 12: is("get arity"), use(e.get_arity(idx(r, nodes))); break;
        case 13: is("is active"), use(e.is_active_node(idx(r, nodes))), use(e.is_active_gene(idx(r, genes))); break;
        case 14: is("mutate"), e.mutate(idx(r, genes)); break;
        case 15: {
            is("mutate many");
            VU x(r.u(0, 6));
            for (auto &q : x) q = r.coin(0.97) ? r.u(0, unsigned(genes) - 1u) : idx(r, genes);
            e.mutate(x);
            break;
        }
        case 16: is("mutate random"), e.mutate_random(r.u(0, 20)); break;
        case 17: is("mutate inactive"), e.mutate_inactive(r.u(0, 20)); break;
        case 18: is("mutate active"), e.mutate_active(r.u(0, 20)); break;
        case 19: is("mutate active fgene"), e.mutate_active_fgene(r.u(0, 10)); break;
        case 20: is("mutate active cgene"), e.mutate_active_cgene(r.u(0, 10)); break;
        case 21: is("mutate ogene"), e.mutate_ogene(r.u(0, 10)); break;
        case 22: is("seed"), e.seed(r.coin() ? long(r.u64()) : -1); break;
        case 23: {
            is("copies");
            switch (r.u(0, 6)) {
                case 0: other = e; break;
                case 1: e = other; break;
                case 2: std::swap(e, other); break;
                case 3: { E t(std::move(e)); e = std::move(t); break; }
                case 4: { E t(e); e = t; break; }
                case 5: { E &a = e; e = a; break; }
                default: { E t(e); t.mutate_active(3); E u(std::move(t)); t = u; std::swap(t, e); }
            }
            break;
        }
        case 24: {
            is("stream");
            std::ostringstream o;
            o << e;
            use(o.str());
            break;
        }
        case 25: {
            is("archive");
            std::stringstream s;
            {
                boost::archive::binary_oarchive o(s);
                o << e;
            }
            boost::archive::binary_iarchive i(s);
            i >> (r.coin() ? e : other);
            break;
        }
        case 26: {
            if constexpr (!ann<E> && !weighted<E>) {
                is("phenotype correction");
                if (r.coin(0.3)) e.unset_phenotype_correction();
                else {
                    auto how = r.u(0, 3);
                    auto state = std::make_shared<int>(3);
                    e.set_phenotype_correction([how, state](const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> f) {
                        auto y = f(x);
                        if (how == 1) throw std::runtime_error("no");
                        if (how == 2) y.push_back(y[0]);
                        if (how == 3) y.clear();
                        for (auto &q : y) q = q + double(*state);
                        return y;
                    });
                }
            }
            break;
        }
        case 27: {
            is("in two threads");
            auto f = [](E t, std::uint64_t s) {
                Rng q(s);
                try {
                    t.mutate_active(4);
                    t(vals<T>(q, t.get_n() - t.get_eph_val().size()));
                } catch (const std::exception &) {
                }
            };
            std::thread a(f, e, r.u64()), b(f, e, r.u64());
            a.join(), b.join();
            break;
        }
        case 100: // the arguments are parts of the object itself
            switch (r.u(0, 9)) {
                case 0:
                case 1:
                case 2: is("mutate its active genes"), e.mutate(e.get_active_genes()); break;
                case 3: is("set to itself"), e.set(e.get()); break;
                case 4: is("set from its own range"), e.set_from_range(e.get().begin(), e.get().end()); break;
                case 5: is("mutate the indexes of its nodes"), e.mutate(e.get_gene_idx()); break;
                case 6:
                    if constexpr (!ann<E> && !weighted<E>) is("own constants"), e.set_eph_val(e.get_eph_val()), e.set_eph_symb(e.get_eph_symb());
                    break;
                case 7:
                    if constexpr (ann<E> || weighted<E>) is("own weights"), e.set_weights(e.get_weights());
                    break;
                case 8:
                    if constexpr (ann<E>) is("own biases"), e.set_biases(e.get_biases());
                    break;
                default:
                    if constexpr (ann<E>) {
                        is("sgd on itself");
                        std::vector<V> X;
                        for (unsigned i = r.u(1, 20); i--;) X.push_back(vals<T>(r, nin));
                        use(e.sgd(X, X, 0.01, r.u(1, 5), "MSE", 0u, r.coin()));
                    }
            }
            break;
        // with weights
        case 28:
            if constexpr (ann<E> || weighted<E>) {
                is("set weight");
                T w = vals<T>(r, 1)[0];
                e.set_weight(idx(r, nodes), idx(r, 2), w);
            }
            break;
        case 29:
            if constexpr (ann<E> || weighted<E>) is("get weight"), use(e.get_weight(idx(r, nodes), idx(r, 2)));
            break;
        case 30:
            if constexpr (ann<E> || weighted<E>) is("set weights"), e.set_weights(vals<T>(r, len(r, e.get_weights().size())));
            break;
        // networks
        case 31:
        case 32:
        case 33:
            if constexpr (ann<E>) {
                std::size_t nw = e.get_weights().size(), nb = e.get_biases().size();
                switch (r.u(0, 7)) {
                    case 0: is("set weight by index"), e.set_weight(std::size_t(r.coin(0.1) ? r.u64() : idx(r, nw)), num(r)); break;
                    case 1: is("get weight by index"), use(e.get_weight(std::size_t(idx(r, nw)))); break;
                    case 2: is("set bias"), e.set_bias(std::size_t(r.coin(0.1) ? r.u64() : idx(r, nb)), num(r)); break;
                    case 3: is("get bias"), use(e.get_bias(std::size_t(idx(r, nb)))); break;
                    case 4: is("set biases"), e.set_biases(nums(r, len(r, nb))); break;
                    case 5: is("randomise weights"), e.randomise_weights(r.real(-1, 1), r.real(0.01, 2.), unsigned(r.u64())); break;
                    case 6: is("randomise biases"), e.randomise_biases(r.real(-1, 1), r.real(0.01, 2.), unsigned(r.u64())); break;
                    default: is("active weights"), use(e.n_active_weights(r.coin()));
                }
            }
            break;
        case 34:
            if constexpr (ann<E>) {
                is("set output f");
                auto n = names(true);
                e.set_output_f(r.coin(0.9) ? r.pick(n) : r.coin() ? "" : "div");
            }
            break;
        case 35:
        case 36:
            if constexpr (ann<E>) {
                is("gradient of a point");
                double v = 0.;
                V gw(len(r, e.get_weights().size())), gb(len(r, e.get_biases().size()));
                e.d_loss(v, gw, gb, nums(r, len(r, nin)), nums(r, len(r, m)), r.coin() ? E::loss_type::MSE : E::loss_type::CE);
                use(v), use(gw), use(gb);
            }
            break;
        case 37:
            if constexpr (ann<E>) {
                is("gradient");
                std::vector<V> X, Y;
                data(X, Y);
                auto g = e.d_loss(X, Y, r.coin() ? E::loss_type::MSE : E::loss_type::CE, r.coin(0.4) ? 0u : idx(r, X.size() + 1u));
                use(std::get<0>(g)), use(std::get<1>(g)), use(std::get<2>(g));
            }
            break;
        default:
            if constexpr (ann<E>) {
                is("sgd");
                std::vector<V> X, Y;
                data(X, Y);
                use(e.sgd(X, Y, r.coin(0.8) ? r.real(0.001, 0.5) : num(r), r.coin(0.9) ? r.u(0, 12) : idx(r, X.size()), LOSS[r.coin(0.9) ? r.u(0, 1) : r.u(2, 5)], r.coin(0.5) ? 0u : idx(r, X.size() + 1u), r.coin()));
            }
    }
}
template <typename E>
static void history(Rng &r, const char *kind)
{
    std::vector<E> es;
    bool thrown = false;
    std::string d = kind;
    for (unsigned tries = 0; es.size() < 2u && tries < 50u; ++tries) {
        try {
            es.push_back(construct<E>(r));
        } catch (const std::exception &) {
            thrown = true;
        }
    }
    if (es.size() < 2u) return evaluated(d, false);
    if (r.coin(0.05)) es[1] = E();
    unsigned ops = r.u(3, 25);
    for (unsigned i = 0; i < ops; ++i) {
        std::string what = "none";
        try {
            act(r, es[0], es[1], what);
            calls["returned: " + what]++;
        } catch (const std::exception &) {
            calls["threw: " + what]++;
            thrown = true;
        }
        d += what.substr(0, 4) + ",";
    }
    // still whole
    for (auto &e : es) {
        try {
            using T = typename value_type<E>::type;
            e.unset_phenotype_correction();
            e.set(e.get());
            use(e.get()), use(e.get_lb()), use(e.get_ub()), use(e.get_active_nodes()), use(e.get_active_genes()), use(e.get_gene_idx());
            use(e.get_n()), use(e.get_m()), use(e.get_l()), use(e.get_r()), use(e.get_c()), use(e.get_arity()), use(e.get_eph_val()), use(e.get_eph_symb());
            if constexpr (ann<E> || weighted<E>) use(e.get_weights());
            if constexpr (ann<E>) use(e.get_biases());
            use(e(std::vector<T>(e.get_n() - e.get_eph_val().size(), T(0.25))));
        } catch (const std::exception &x) {
            violation("unusable", std::string(kind) + " after a sequence of calls: " + x.what());
        }
    }
    count(thrown ? "histories with rejected calls" : "histories without rejected calls");
    evaluated(d + str(es[0].get_n()) + "," + str(es[0].get_r()) + "," + str(es[0].get_c()) + "," + str(es[0].get().size()), true);
}
int main(int argc, char **argv)
{
    int rc = vh::run(argc, argv, [](Rng &r, long) {
        switch (r.u(0, 8)) {
            case 0:
            case 1: return history<dcgp::expression<double>>(r, "plain ");
            case 2: return history<dcgp::expression_weighted<double>>(r, "weighted ");
            case 3:
            case 4: return history<dcgp::expression_ann>(r, "ann ");
            case 5: return history<dcgp::expression<G>>(r, "plain gdual ");
            case 6: return history<dcgp::expression<GV>>(r, "plain vgdual ");
            case 7: return history<dcgp::expression_weighted<G>>(r, "weighted gdual ");
            default: return history<dcgp::expression_weighted<GV>>(r, "weighted vgdual ");
        }
    });
    for (auto &c : calls) count(c.first, c.second);
    count("results looked at", looked[0] + looked[1]);
    if (!st().out.empty()) write_out();
    return rc;
}
