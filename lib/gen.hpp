// Random CGP configurations and API histories on the real dcgp classes.
#ifndef GEN_HPP
#define GEN_HPP
#include "ref.hpp"
#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>

namespace gen
{
using vh::Rng;
struct Opt {
    unsigned max_n = 4, max_m = 4, max_r = 4, max_c = 6, max_arity = 3, min_arity = 1, max_k = 6;
    std::vector<std::string> kernels = ref::all_kernels();
    bool uniform_arity = false;
    double big = 0.015; // probability of one extreme dimension
};
// n: number of inputs (constants excluded; caller adds)
inline ref::Prog prog(Rng &r, const Opt &o, unsigned n_eph = 0u)
{
    ref::Prog p;
    p.n = r.u(1, o.max_n) + n_eph;
    p.m = r.u(1, o.max_m);
    p.r = r.u(1, o.max_r);
    p.c = r.u(1, o.max_c);
    auto max_arity = o.max_arity;
    auto max_k = o.max_k;
    if (o.big > 0. && r.coin(o.big)) {
        switch (r.u(0, 6)) {
            case 0: p.r = r.coin(0.3) ? r.u(250, 310) : r.u(17, 70), p.c = r.u(1, 3); break;
            case 1: p.c = r.u(20, 90), p.r = r.u(1, 2);
                if (r.coin(0.3)) p.c = r.u(250, 310), p.r = 1, max_arity = std::min(2u, max_arity);
                break;
            case 2: max_arity = r.u(9, 24), p.c = std::min(p.c, 3u); break;
            case 3: p.n = r.u(9, 70) + n_eph; break;
            case 4: p.m = r.u(6, 40); break;
            case 5: p.r = r.u(15, 20), p.c = r.u(15, 20), max_arity = std::min(2u, max_arity); break;
            default: max_k = 40u;
        }
    }
    switch (r.u(0, 3)) {
        case 0: p.l = 1; break;
        case 1: p.l = p.c + 1; break;
        case 2: p.l = r.coin(0.2) ? 1000000u : p.c; break;
        default: p.l = r.u(1, p.c + 1);
    }
    if (max_arity < o.min_arity) max_arity = o.min_arity;
    unsigned a = r.u(o.min_arity, max_arity);
    for (unsigned i = 0; i < p.c; ++i) p.arity.push_back(o.uniform_arity ? a : r.u(o.min_arity, max_arity));
    auto ks = o.kernels;
    r.shuffle(ks);
    unsigned nk = r.u(1, std::min<unsigned>(max_k, static_cast<unsigned>(ks.size())));
    p.f.assign(ks.begin(), ks.begin() + nk);
    return p;
}
// a valid chromosome; biased towards deep active graphs half of the times
inline std::vector<unsigned> chromosome(Rng &r, const ref::Prog &p)
{
    auto lb = p.lb(), ub = p.ub();
    std::vector<unsigned> x(lb.size());
    int mode = static_cast<int>(r.u(0, 3));
    for (std::size_t i = 0; i < x.size(); ++i) {
        x[i] = r.u(lb[i], ub[i]);
        if (mode == 1 || (mode == 2 && r.coin())) { // prefer high (recent) nodes
            unsigned w = std::min(ub[i] - lb[i], p.r - 1u + (r.coin(0.3) ? 1u : 0u));
            bool fgene = false;
            if (ub[i] == p.f.size() - 1u && lb[i] == 0u) fgene = true; // approximate; harmless
            if (!fgene) x[i] = r.u(ub[i] - w, ub[i]);
        }
    }
    return x;
}
// Kernels that compute what the library ones do, but meanwhile evaluate another expression (as functions made of evolved
// programs do) and can be told to throw at a given call.
struct kernel_failure : std::runtime_error {
    using std::runtime_error::runtime_error;
};
inline bool &reentrant()
{
    static thread_local bool b = false;
    return b;
}
inline long &fail_in() // number of kernel calls left before one throws (negative: never)
{
    static thread_local long n = -1;
    return n;
}
template <typename T>
struct busy_kernel {
    dcgp::kernel<T> k;
    std::shared_ptr<dcgp::expression<T>> inner;
    T operator()(const std::vector<T> &in) const
    {
        if (fail_in() >= 0 && fail_in()-- == 0) throw kernel_failure("a kernel failed");
        auto first = k(in);
        (*inner)(std::vector<T>(inner->get_n(), in[0]));
        return k(in);
    }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
template <typename T>
struct busy_print {
    dcgp::kernel<T> k;
    std::string operator()(const std::vector<std::string> &in) const { return k(in); }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
template <typename T>
std::vector<dcgp::kernel<T>> kernels(const ref::Prog &p)
{
    auto ks = dcgp::kernel_set<T>(p.f)();
    if (!reentrant()) return ks;
    // the inner expression is as large as the outer one, or larger
    auto inner = std::make_shared<dcgp::expression<T>>(p.n, p.m + 1u, p.r, p.c + 1u, p.c + 2u, 2u, dcgp::kernel_set<T>({"sum", "diff"})(), 0u, 7u);
    std::vector<dcgp::kernel<T>> out;
    for (auto &k : ks) out.push_back(dcgp::kernel<T>(busy_kernel<T>{k, inner}, busy_print<T>{k}, k.get_name()));
    return out;
}
inline double value(Rng &r)
{
    switch (r.u(0, 9)) {
        case 0: return 0.;
        case 1: return 1.;
        case 2: return -1.;
        case 3: return r.real(-100., 100.);
        case 4: return r.real(-1e-3, 1e-3);
        case 5: return static_cast<double>(static_cast<int>(r.u(0, 8))) - 4.;
        default: return r.real(-3., 3.);
    }
}
inline std::vector<double> values(Rng &r, std::size_t n)
{
    std::vector<double> v(n);
    for (auto &x : v) x = value(r);
    return v;
}
// Some entries replaced by values that code is tempted to treat apart: 0, 1, -1, small, or equal to another one.
inline std::vector<double> special(Rng &r, std::vector<double> v, double prob = 0.25)
{
    for (auto &x : v)
        if (r.coin(prob)) switch (r.u(0, 6)) {
                case 0:
                case 1: x = 0.; break;
                case 2: x = 1.; break;
                case 3: x = -1.; break;
                case 4: x = r.real(-1e-9, 1e-9); break;
                case 5: x = 0.5; break;
                default: x = r.pick(v);
            }
    return v;
}
inline std::vector<double> smooth_values(Rng &r, std::size_t n, double a = -2., double b = 2.)
{
    std::vector<double> v(n);
    for (auto &x : v) x = r.real(a, b);
    return v;
}
// number of random API operations that change the encoded program; returns a description
template <typename E>
std::string random_op(E &e, Rng &r, const ref::Prog &shape)
{
    auto N = static_cast<unsigned>(e.get().size());
    unsigned k = r.u(0, 12);
    std::ostringstream d;
    switch (k) {
        case 0: {
            auto i = r.u(0, N - 1);
            d << "mutate(" << i << ")";
            e.mutate(i);
            break;
        }
        case 1: {
            std::vector<unsigned> v(r.u(0, 6));
            for (auto &i : v) i = r.u(0, N - 1);
            d << "mutate(" << vh::vs(v) << ")";
            e.mutate(v);
            break;
        }
        case 2: {
            auto i = r.u(0, 5);
            d << "mutate_random(" << i << ")";
            e.mutate_random(i);
            break;
        }
        case 3: {
            auto i = r.u(0, 8);
            d << "mutate_inactive(" << i << ")";
            e.mutate_inactive(i);
            break;
        }
        case 4: {
            auto i = r.u(0, 5);
            d << "mutate_active(" << i << ")";
            e.mutate_active(i);
            break;
        }
        case 5: {
            auto i = r.u(0, 4);
            d << "mutate_active_fgene(" << i << ")";
            e.mutate_active_fgene(i);
            break;
        }
        case 6: {
            auto i = r.u(0, 4);
            d << "mutate_active_cgene(" << i << ")";
            e.mutate_active_cgene(i);
            break;
        }
        case 7: {
            auto i = r.u(1, 4);
            d << "mutate_ogene(" << i << ")";
            e.mutate_ogene(i);
            break;
        }
        case 8: {
            auto x = chromosome(r, shape);
            d << "set(" << vh::vs(x) << ")";
            e.set(x);
            break;
        }
        case 9: {
            auto x = chromosome(r, shape);
            std::vector<double> xd(x.begin(), x.end());
            d << "set_from_range(" << vh::vs(x) << ")";
            e.set_from_range(xd.begin(), xd.end());
            break;
        }
        case 10: {
            auto node = r.u(shape.n, shape.n + shape.r * shape.c - 1u);
            auto f = r.u(0, static_cast<unsigned>(shape.f.size()) - 1u);
            d << "set_f_gene(" << node << "," << f << ")";
            e.set_f_gene(node, f);
            break;
        }
        case 11: {
            E c(e);
            c.mutate_random(3u);
            E b(std::move(c));
            if (r.coin()) {
                d << "assign-mutated-copy";
                e = b;
            } else {
                d << "move-assign-mutated-copy";
                e = std::move(b);
            }
            break;
        }
        default: {
            auto s = static_cast<long>(r.u(0, 100000));
            d << "seed(" << s << ")";
            e.seed(s);
        }
    }
    return d.str();
}

// ---------------------------------------------------------------- uniform access to the three expression classes
using plain_t = dcgp::expression<double>;
using weighted_t = dcgp::expression_weighted<double>;
using ann_t = dcgp::expression_ann;
template <typename E>
struct is_ann : std::is_base_of<ann_t, E> {
};
template <typename E>
struct is_weighted : std::is_base_of<weighted_t, E> {
};
template <typename E>
std::vector<double> weights(const E &e)
{
    if constexpr (is_ann<E>::value || is_weighted<E>::value) return e.get_weights();
    else return {};
}
template <typename E>
std::vector<double> biases(const E &e)
{
    if constexpr (is_ann<E>::value) return e.get_biases();
    else return {};
}
template <typename E>
const char *kind_name()
{
    return is_ann<E>::value ? "ann" : is_weighted<E>::value ? "weighted" : "plain";
}
// full input vector of the reference for a plain expression with constants
template <typename E>
std::vector<double> full_point(const E &e, std::vector<double> pt)
{
    pt.insert(pt.end(), e.get_eph_val().begin(), e.get_eph_val().end());
    return pt;
}
template <typename E>
std::size_t n_in(const E &e)
{
    return e.get_n() - e.get_eph_val().size();
}
template <typename E>
ref::Prog shape_of(const E &e)
{
    ref::Prog p;
    p.n = e.get_n();
    p.m = e.get_m();
    p.r = e.get_r();
    p.c = e.get_c();
    p.l = e.get_l();
    p.arity = e.get_arity();
    for (auto &k : e.get_f()) p.f.push_back(k.get_name());
    p.x = e.get();
    return p;
}
template <typename E>
double formula_size(const E &e)
{
    return shape_of(e).formula_size();
}
// everything observable about an expression that is not random
template <typename E>
std::string observe(const E &e)
{
    std::ostringstream s;
    s.precision(17);
    s << kind_name<E>() << " n" << e.get_n() << " m" << e.get_m() << " r" << e.get_r() << " c" << e.get_c() << " l" << e.get_l()
      << " a" << vh::vs(e.get_arity()) << " f";
    for (auto &k : e.get_f()) s << k.get_name() << "/" << static_cast<int>(k.get_thread_safety()) << ",";
    s << " x" << vh::vs(e.get()) << " lb" << vh::vs(e.get_lb()) << " ub" << vh::vs(e.get_ub()) << " an" << vh::vs(e.get_active_nodes())
      << " ag" << vh::vs(e.get_active_genes()) << " gi" << vh::vs(e.get_gene_idx()) << " cv" << vh::vs(e.get_eph_val()) << " cs";
    for (auto &k : e.get_eph_symb()) s << k << ",";
    s << " w" << vh::vs(weights(e)) << " b" << vh::vs(biases(e));
    std::vector<double> pt(n_in(e));
    std::vector<std::string> nm(n_in(e));
    for (std::size_t i = 0; i < pt.size(); ++i) {
        pt[i] = 0.37 * static_cast<double>(i + 1u) - 0.9;
        nm[i] = "v" + std::to_string(i);
    }
    s << " y" << vh::vs(e(pt)) << " s";
    if (formula_size(e) < 3000.)
        for (auto &k : e(nm)) s << k << ";";
    return s.str();
}
// what the next random operations will do (on a copy)
template <typename E>
std::string future(const E &e)
{
    E c(e);
    std::string s;
    for (int i = 0; i < 3; ++i) {
        c.mutate_random(4u);
        c.mutate_active(2u);
        s += vh::vs(c.get());
    }
    return s;
}
// calls f(e, p) with a random plain, weighted or ANN expression over doubles holding a random state
template <typename F>
void with_expr(Rng &r, Opt o, F &&f, int kind = -1)
{
    if (kind < 0) kind = static_cast<int>(r.u(0, 2));
    bool uni = r.coin();
    o.uniform_arity = uni;
    auto seed = static_cast<unsigned>(r.u64());
    if (kind == 0) {
        unsigned ne = r.coin(0.5) ? r.u(1, 3) : 0u;
        auto p = prog(r, o, ne);
        auto e = uni ? plain_t(p.n - ne, p.m, p.r, p.c, p.l, p.arity[0], kernels<double>(p), ne, seed)
                     : plain_t(p.n - ne, p.m, p.r, p.c, p.l, p.arity, kernels<double>(p), ne, seed);
        if (r.coin(0.8)) e.set(chromosome(r, p));
        p.x = e.get();
        if (ne && r.coin(0.7)) e.set_eph_val(values(r, ne));
        f(e, p);
    } else if (kind == 1) {
        auto p = prog(r, o);
        auto e = uni ? weighted_t(p.n, p.m, p.r, p.c, p.l, p.arity[0], kernels<double>(p), seed)
                     : weighted_t(p.n, p.m, p.r, p.c, p.l, p.arity, kernels<double>(p), seed);
        if (r.coin(0.8)) e.set(chromosome(r, p));
        p.x = e.get();
        if (r.coin(0.8)) e.set_weights(smooth_values(r, p.n_weights()));
        f(e, p);
    } else {
        auto ks = ref::ann_kernels();
        o.kernels = ks;
        auto p = prog(r, o);
        auto e = uni ? ann_t(p.n, p.m, p.r, p.c, p.l, p.arity[0], kernels<double>(p), seed)
                     : ann_t(p.n, p.m, p.r, p.c, p.l, p.arity, kernels<double>(p), seed);
        if (r.coin(0.8)) e.set(chromosome(r, p));
        p.x = e.get();
        if (r.coin(0.8)) e.set_weights(smooth_values(r, p.n_weights()));
        if (r.coin(0.8)) e.set_biases(smooth_values(r, p.r * p.c));
        f(e, p);
    }
}
// A grid, input or output list so large that no narrow integer can count it: f(e, p, description)
template <typename F>
void with_huge(Rng &r, F &&f)
{
    ref::Prog p;
    unsigned a = r.u(1, 2);
    switch (r.u(0, 3)) {
        case 0: p.c = r.u(66000, 70000); break;
        case 1: p.r = r.u(258, 280), p.c = r.u(256, 270), a = 2; break;
        case 2: p.n = r.u(66000, 70000), p.c = r.u(1, 9), p.r = r.u(1, 3), a = 2; break;
        default: p.m = r.u(66000, 70000), p.c = r.u(1, 9), p.r = r.u(1, 3);
    }
    p.l = r.coin() ? p.c : r.coin() ? p.c + 1u : std::max(1u, p.c - r.u(0, 100) % p.c);
    p.arity.assign(p.c, a);
    std::string d = "n=" + std::to_string(p.n) + " m=" + std::to_string(p.m) + " r=" + std::to_string(p.r) + " c=" + std::to_string(p.c) + " l=" + std::to_string(p.l) + " arity=" + std::to_string(a);
    auto seed = static_cast<unsigned>(r.u64());
    auto fill = [&](auto &e) {
        auto lb = p.lb(), ub = p.ub();
        p.x.resize(lb.size());
        for (std::size_t i = 0; i < lb.size(); ++i) p.x[i] = r.u(lb[i], ub[i]);
        // the first output reads one of the last nodes
        p.x[p.x.size() - p.m] = ub.back() - r.u(0, std::min(ub.back() - lb.back(), 50u));
        e.set(p.x);
    };
    p.f = {"sin", "sum", "diff"};
    switch (r.u(0, 2)) {
        case 0: {
            plain_t e(p.n, p.m, p.r, p.c, p.l, a, kernels<double>(p), 0u, seed);
            fill(e);
            return f(e, p, "plain " + d);
        }
        case 1: {
            weighted_t e(p.n, p.m, p.r, p.c, p.l, a, kernels<double>(p), seed);
            fill(e);
            e.set_weights(smooth_values(r, static_cast<unsigned>(p.n_weights())));
            return f(e, p, "weighted " + d);
        }
        default: {
            p.f = {"tanh", "sum", "sig"};
            ann_t e(p.n, p.m, p.r, p.c, p.l, a, kernels<double>(p), seed);
            fill(e);
            e.set_weights(smooth_values(r, static_cast<unsigned>(p.n_weights())));
            e.set_biases(smooth_values(r, p.r * p.c));
            return f(e, p, "ANN " + d);
        }
    }
}
// reference value of the current state of e
template <typename E>
std::vector<ref::Cond> expected(const E &e, ref::Prog p, const std::vector<double> &pt)
{
    p.x = e.get();
    auto in = full_point(e, pt);
    auto w = weights(e), b = biases(e);
    return ref::conditioned_v([&] {
        auto o = p.template eval<ref::N>(std::vector<ref::N>(in.begin(), in.end()), std::vector<ref::N>(w.begin(), w.end()),
                                std::vector<ref::N>(b.begin(), b.end()));
        std::vector<double> v;
        for (auto &q : o) v.push_back(q.v);
        return v;
    });
}
// A call that must be rejected. Returns its description, sets `threw`.
template <typename E>
std::string bad_op(E &e, Rng &r, const ref::Prog &p, bool &threw)
{
    auto N = static_cast<unsigned>(e.get().size());
    unsigned nodes = p.n + p.r * p.c;
    std::ostringstream d;
    std::function<void()> call;
    unsigned k = r.u(0, 13);
    if (!is_ann<E>::value && k >= 12) k -= 12;
    if (!is_ann<E>::value && !is_weighted<E>::value && (k >= 9 && k <= 11)) k -= 9;
    auto out_of = [&](unsigned lim) {
        switch (r.u(0, 3)) {
            case 0: return lim;
            case 1: return lim + r.u(0, 5);
            case 2: return ~0u;
            default: return ~0u - r.u(0, 3);
        }
    };
    switch (k) {
        case 0: {
            auto i = out_of(N);
            d << "mutate(" << i << ")";
            call = [&e, i] { e.mutate(i); };
            break;
        }
        case 1: {
            std::vector<unsigned> v(r.u(0, 6));
            for (auto &i : v) i = r.u(0, N - 1);
            v.insert(v.begin() + r.u(0, static_cast<unsigned>(v.size())), out_of(N));
            d << "mutate(" << vh::vs(v) << ")";
            call = [&e, v] { e.mutate(v); };
            break;
        }
        case 2:
        case 3: { // wrong length
            auto x = chromosome(r, p);
            switch (r.u(0, 2)) {
                case 0: x.pop_back(); break;
                case 1: x.push_back(p.lb().back()); break;
                default: x.clear();
            }
            if (k == 2) {
                d << "set(" << vh::vs(x) << ")";
                call = [&e, x] { e.set(x); };
            } else {
                std::vector<double> xd(x.begin(), x.end());
                d << "set_from_range(" << vh::vs(x) << ")";
                call = [&e, xd] { e.set_from_range(xd.begin(), xd.end()); };
            }
            break;
        }
        case 4:
        case 5: { // out of bounds
            auto x = chromosome(r, p);
            auto lb = p.lb(), ub = p.ub();
            auto i = r.u(0, N - 1);
            x[i] = (lb[i] > 0 && r.coin()) ? (r.coin() ? lb[i] - 1u : 0u) : ub[i] + (r.coin() ? 1u : r.u(1, 100));
            if (k == 4) {
                d << "set(" << vh::vs(x) << ")";
                call = [&e, x] { e.set(x); };
            } else {
                std::vector<double> xd(x.begin(), x.end());
                if (r.coin(0.2)) xd[i] = lb[i] > 0 ? lb[i] - 0.5 : -0.5;
                else if (r.coin(0.2)) xd[i] = ub[i] + 0.5;
                d << "set_from_range(" << vh::vs(xd) << ")";
                call = [&e, xd] { e.set_from_range(xd.begin(), xd.end()); };
            }
            break;
        }
        case 6: {
            bool badnode = r.coin();
            unsigned node = badnode ? (r.coin() ? r.u(0, p.n - 1u) : out_of(nodes)) : r.u(p.n, nodes - 1u);
            unsigned f = badnode ? 0u : out_of(static_cast<unsigned>(p.f.size()));
            d << "set_f_gene(" << node << "," << f << ")";
            call = [&e, node, f] { e.set_f_gene(node, f); };
            break;
        }
        case 7: {
            if constexpr (std::is_same<E, plain_t>::value) {
                auto n = e.get_eph_val().size();
                std::vector<double> v(r.coin() || n == 0u ? n + 1u : n - 1u, 1.5);
                if (r.coin()) {
                    d << "set_eph_val(size " << v.size() << ")";
                    call = [&e, v] { e.set_eph_val(v); };
                } else {
                    std::vector<std::string> s(v.size(), "q");
                    d << "set_eph_symb(size " << v.size() << ")";
                    call = [&e, s] { e.set_eph_symb(s); };
                }
            } else {
                unsigned id = r.coin() ? r.u(0, p.n - 1u) : out_of(nodes);
                d << "get_arity(" << id << ")";
                call = [&e, id] { (void)e.get_arity(id); };
            }
            break;
        }
        case 8: {
            std::vector<std::vector<double>> X(r.u(1, 4), std::vector<double>(n_in(e), 0.5)),
                Y(X.size(), std::vector<double>(e.get_m(), 0.5));
            std::string l = r.coin() ? "MSE" : "CE";
            unsigned par = 0;
            switch (r.u(0, 5)) {
                case 0: X.clear(); Y.clear(); break;
                case 1: Y.pop_back(); break;
                case 2: X.back().push_back(1.); break;
                case 3: Y.back().pop_back(); break;
                case 4: l = r.coin() ? "" : "mse"; break;
                default: par = static_cast<unsigned>(X.size()) + 1u;
            }
            d << "loss(" << X.size() << " points, " << Y.size() << " labels, " << l << ", " << par << ")";
            call = [&e, X, Y, l, par] { e.loss(X, Y, l, par); };
            break;
        }
        case 9:
        case 10: {
            if constexpr (is_ann<E>::value || is_weighted<E>::value) {
                bool badnode = r.coin();
                unsigned node = badnode ? (r.coin() ? r.u(0, p.n - 1u) : out_of(nodes)) : r.u(p.n, nodes - 1u);
                unsigned in = badnode ? 0u : out_of(p.ar(node));
                bool get = k == 10;
                d << (get ? "get" : "set") << "_weight(" << node << "," << in << ")";
                call = [&e, node, in, get] {
                    if (get) (void)e.get_weight(node, in);
                    else e.set_weight(node, in, 2.5);
                };
            }
            break;
        }
        case 11: {
            if constexpr (is_ann<E>::value || is_weighted<E>::value) {
                std::vector<double> v(r.coin() ? p.n_weights() + 1u : p.n_weights() - 1u, 1.5);
                bool bias = false;
                if constexpr (is_ann<E>::value) {
                    if (r.coin()) {
                        bias = true;
                        v.assign(r.coin() ? p.r * p.c + 1u : p.r * p.c - 1u, 1.5);
                    }
                    d << (bias ? "set_biases" : "set_weights") << "(size " << v.size() << ")";
                    call = [&e, v, bias] {
                        if (bias) e.set_biases(v);
                        else e.set_weights(v);
                    };
                } else {
                    d << "set_weights(size " << v.size() << ")";
                    call = [&e, v] { e.set_weights(v); };
                }
            }
            break;
        }
        case 12: {
            if constexpr (is_ann<E>::value) {
                std::vector<std::string> bad{"", "foo", "sin", "cos", "exp", "mul", "Sig"};
                for (auto &q : ref::ann_kernels())
                    if (std::find(p.f.begin(), p.f.end(), q) == p.f.end()) bad.push_back(q);
                auto nm = r.pick(bad);
                d << "set_output_f(" << nm << ")";
                call = [&e, nm] { e.set_output_f(nm); };
            }
            break;
        }
        default: {
            if constexpr (is_ann<E>::value) {
                unsigned np = r.u(1, 4);
                std::vector<std::vector<double>> X(np, std::vector<double>(e.get_n(), 0.5)), Y(np, std::vector<double>(e.get_m(), 0.5));
                double lr = 0.1;
                unsigned bs = 1;
                std::string l = r.coin() ? "MSE" : "CE";
                bool sgd = r.coin(0.7);
                unsigned par = 0;
                switch (r.u(0, 7)) {
                    case 0: X.clear(); Y.clear(); break;
                    case 1: Y.pop_back(); break;
                    case 2: r.pick(X).push_back(1.); break;
                    case 3: r.pick(Y).pop_back(); break;
                    case 4: l = "mse"; sgd = true; break;
                    case 5: lr = r.coin() ? 0. : -0.1; sgd = true; break;
                    case 6: bs = 0; sgd = true; break;
                    default:
                        if (sgd && r.coin()) { // only the last mini-batch is unsuitable
                            X.resize(5, X[0]);
                            Y.resize(5, Y[0]);
                            bs = 4;
                            par = r.coin() ? 2u : 4u;
                        } else
                            par = sgd ? 2 : np + 1u;
                }
                d << (sgd ? "sgd(" : "d_loss(") << X.size() << " points, " << Y.size() << " labels, lr " << lr << ", batch " << bs << ", " << l
                  << ", parallel " << par << ")";
                call = [&e, X, Y, lr, bs, l, sgd, par] {
                    auto x = X;
                    auto y = Y;
                    if (sgd) e.sgd(x, y, lr, bs, l, par, X.size() % 2u == 0u);
                    else e.d_loss(x, y, l == "MSE" ? plain_t::loss_type::MSE : plain_t::loss_type::CE, par);
                };
            }
        }
    }
    if (!call) { // not applicable to this class
        auto i = out_of(N);
        d << "mutate(" << i << ")";
        call = [&e, i] { e.mutate(i); };
    }
    threw = false;
    try {
        call();
    } catch (const std::exception &) {
        threw = true;
    }
    return d.str();
}
// A few objects of the same shape whose kernels, chromosome, constants, weights and biases are taken from small pools, so that the
// states they go through differ from one another by one thing at a time, observed again and again at a few points: whatever an
// implementation remembers between calls has to depend on all of them. f(object, state) is called for each observation.
struct TwinState {
    ref::Prog p;                    // kernels and chromosome set; p.n includes the constants
    std::vector<double> pt, eph, w, b;
    std::string where;
};
template <typename E, typename T, typename F>
std::string twins(Rng &r, F f, const std::vector<std::string> *kernels = nullptr)
{
    constexpr bool plain = std::is_same<E, dcgp::expression<T>>::value, ann = is_ann<E>::value;
    Opt o;
    o.max_c = 4, o.max_r = 3, o.max_n = 3, o.max_m = 2, o.big = 0.;
    if (kernels) o.kernels = *kernels;
    else if (ann) o.kernels = ref::ann_kernels();
    else o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv"));
    const unsigned ne = plain && r.coin(0.6) ? r.u(1, 2) : 0u;
    auto p = prog(r, o, ne);
    const unsigned n = p.n - ne;
    if (p.f.size() == 1u) p.f.push_back(p.f[0] == "sum" ? "sig" : "sum");
    std::vector<std::vector<std::string>> fs{p.f, p.f};
    std::rotate(fs[1].begin(), fs[1].begin() + 1, fs[1].end());
    auto pool = [&](auto make) {
        std::vector<decltype(make())> v{make(), make()};
        return v;
    };
    // the second of the two differs from the first by one entry, or by all of them
    auto near = [&](std::vector<std::vector<double>> v) {
        if (!v[0].empty() && r.coin()) {
            auto i = r.u(0, static_cast<unsigned>(v[0].size()) - 1u);
            auto q = v[1][i];
            v[1] = v[0];
            v[1][i] = q;
        }
        return v;
    };
    auto xs = pool([&] { return chromosome(r, p); });
    xs.push_back(xs[0]); // differs from the first by one gene
    {
        auto &x = xs.back();
        auto i = r.u(0, static_cast<unsigned>(x.size()) - 1u);
        auto other = chromosome(r, p);
        x[i] = other[i];
    }
    auto es = near(pool([&] { return values(r, ne); }));
    auto ws = near(pool([&] { return values(r, p.n_weights()); }));
    auto bs = near(pool([&] { return values(r, p.r * p.c); }));
    auto pts = pool([&] { return values(r, n); });
    pts.push_back(pts[0]);
    pts.back()[r.u(0, n - 1u)] += 0.5;
    struct State {
        std::size_t f = 0, x = 0, e = 0, w = 0, b = 0;
    };
    auto conv = [](const std::vector<double> &v) { return std::vector<T>(v.begin(), v.end()); };
    auto fresh = [&](const State &s) {
        auto q = p;
        q.f = fs[s.f];
        auto e = [&] {
            if constexpr (plain) return E(n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<T>(q), ne, 1u);
            else return E(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<T>(q), 1u);
        }();
        e.set(xs[s.x]);
        if constexpr (plain) e.set_eph_val(conv(es[s.e]));
        else e.set_weights(conv(ws[s.w]));
        if constexpr (ann) e.set_biases(bs[s.b]);
        return e;
    };
    auto pick = [&] {
        State s;
        s.f = r.u(0, 1), s.x = r.u(0, 2), s.e = r.u(0, 1), s.w = r.u(0, 1), s.b = r.u(0, 1);
        return s;
    };
    std::vector<State> st{pick(), pick()};
    if (r.coin()) { // the two differ by one thing
        st[1] = st[0];
        const unsigned what = r.u(0, 4);
        auto &s = st[1];
        if (what == 1) s.x = s.x ? 0u : 2u;
        else (what == 0 ? s.f : what == 2 ? s.e : what == 3 ? s.w : s.b) ^= 1u;
    }
    std::vector<E> obj;
    obj.reserve(2u);
    for (auto &s : st) obj.push_back(fresh(s));
    std::string hist;
    const unsigned steps = r.u(6, 24);
    std::size_t at = 0;
    unsigned i = 0;
    for (unsigned k = 0; k < steps; ++k) {
        if (r.coin(0.4)) i = r.u(0, 1);
        auto &s = st[i];
        auto &e = obj[i];
        switch (r.u(0, 7)) {
            case 0: { // one thing changes, everything is assigned
                const unsigned what = r.u(0, 4);
                (what == 0 ? s.f : what == 1 ? s.x : what == 2 ? s.e : what == 3 ? s.w : s.b) ^= 1u;
                if (s.x > 2u) s.x = 0;
                e = fresh(s);
                hist += vh::str(i) + "=new;";
                break;
            }
            case 1:
                s.x = r.u(0, 2);
                e.set(xs[s.x]);
                hist += vh::str(i) + ".set;";
                break;
            case 2:
                if constexpr (plain) {
                    s.e = r.u(0, 1);
                    e.set_eph_val(conv(es[s.e]));
                } else {
                    s.w = r.u(0, 1);
                    e.set_weights(conv(ws[s.w]));
                }
                hist += vh::str(i) + ".constants or weights;";
                break;
            case 3:
                if constexpr (ann) {
                    s.b = r.u(0, 1);
                    e.set_biases(bs[s.b]);
                    hist += vh::str(i) + ".biases;";
                }
                break;
            case 4: // exchange
                std::swap(obj[0], obj[1]);
                std::swap(st[0], st[1]);
                hist += "swap;";
                break;
            case 5: // the object is destroyed and another one takes its place
                obj.pop_back();
                st[1].f ^= 1u;
                obj.push_back(fresh(st[1]));
                hist += "1 built again;";
                break;
            default: at = r.u(0, 2);
        }
        // often the same object is observed several times in a row
        const unsigned which = r.coin(0.3) ? 2u : i;
        for (unsigned j = 0; j < 2u; ++j) {
            if (which != 2u && j != which) continue;
            TwinState q{p, pts[at], es[st[j].e], ws[st[j].w], bs[st[j].b], hist + " object " + vh::str(j)};
            q.p.f = fs[st[j].f];
            q.p.x = xs[st[j].x];
            f(obj[j], static_cast<const TwinState &>(q));
        }
    }
    return p.descr() + hist;
}
} // namespace gen
#endif
