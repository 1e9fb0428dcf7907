// C28: weights and biases are those of the connections and nodes they name; random ones follow what was asked.
#include "gen.hpp"
#include <audi/audi.hpp>
using namespace vh;
using V = std::vector<double>;

template <typename E>
struct number {
    using type = double;
};
template <>
struct number<dcgp::expression_weighted<audi::gdual_d>> {
    using type = audi::gdual_d;
};
static double val(double x) { return x; }
static double val(const audi::gdual_d &x) { return x.constant_cf(); }
template <typename T>
static V vals(const std::vector<T> &v)
{
    V r;
    for (auto &q : v) r.push_back(val(q));
    return r;
}
// position of the weight of input j of a node in the list of all weights
static std::size_t flat(const ref::Prog &p, unsigned node, unsigned j)
{
    std::size_t at = 0;
    for (unsigned id = p.n; id < node; ++id) at += p.ar(id);
    return at + j;
}
template <typename E>
static void judge(const E &e, const ref::Prog &p, const V &w, const V &b, const std::string &d)
{
    constexpr bool ann = gen::is_ann<E>::value;
    if (!same(vals(e.get_weights()), w)) violation("weights", d + " holds " + vs(vals(e.get_weights())) + " expected " + vs(w));
    for (unsigned id = p.n; id < p.n + p.r * p.c; ++id)
        for (unsigned j = 0; j < p.ar(id); ++j)
            if (!same(val(e.get_weight(id, j)), w[flat(p, id, j)])) violation("weight of a connection", d + " node " + str(id) + " input " + str(j) + " is " + str(val(e.get_weight(id, j))) + " expected " + str(w[flat(p, id, j)]));
    if constexpr (ann) {
        for (std::size_t i = 0; i < w.size(); ++i)
            if (!same(e.get_weight(i), w[i])) violation("weight by index", d + " index " + str(i));
        if (!same(e.get_biases(), b)) violation("biases", d + " holds " + vs(e.get_biases()) + " expected " + vs(b));
        for (std::size_t i = 0; i < b.size(); ++i)
            if (!same(e.get_bias(i), b[i])) violation("bias by index", d + " index " + str(i));
    }
    if (e.get() != p.x) violation("chromosome", d + " became " + vs(e.get()));
    count("states_judged");
}
// the value is that of the program with these weights and biases
template <typename E>
static bool evaluate(const E &e, const ref::Prog &p, const V &w, const V &b, const V &pt, const std::string &d)
{
    using T = typename number<E>::type;
    auto got = vals(e(std::vector<T>(pt.begin(), pt.end())));
    auto want = ref::conditioned_v([&] {
        V v;
        for (auto &q : p.template eval<ref::N>(std::vector<ref::N>(pt.begin(), pt.end()), std::vector<ref::N>(w.begin(), w.end()), std::vector<ref::N>(b.begin(), b.end())))
            v.push_back(q.v);
        return v;
    });
    bool judged = false;
    for (std::size_t i = 0; i < got.size(); ++i) {
        int v = ref::judge(want[i], got[i]);
        if (v == 0) violation("value", d + " at " + vs(pt) + " output " + str(i) + " is " + str(got[i]) + " expected " + str(want[i].v));
        if (v > 0) judged = true;
    }
    return judged;
}
// n numbers that should be normal, independent, with that mean and deviation (limits at seven standard errors)
static void normal(const V &x, double mean, double std, const std::string &d)
{
    if (std::set<double>(x.begin(), x.end()).size() + x.size() / 100u + 1u < x.size()) violation("random values repeated", d);
    const double n = static_cast<double>(x.size());
    double s = 0., q = 0., in = 0., lag = 0.;
    for (std::size_t i = 0; i < x.size(); ++i) {
        double z = (x[i] - mean) / std;
        s += z;
        q += z * z;
        in += std::abs(z) < 1.;
        if (i) lag += z * (x[i - 1u] - mean) / std;
        if (std::abs(z) > 9.) violation("random value out of any range", d + " " + str(x[i]));
    }
    if (n < 150.) return;
    auto far = [&](const char *what, double v, double want, double sd) {
        if (std::abs(v - want) > 7. * sd) violation(std::string("distribution: ") + what, d + " is " + str(v) + " expected " + str(want) + " from " + str(n) + " values");
    };
    far("mean", s / n, 0., 1. / std::sqrt(n));
    far("variance", q / n, 1., std::sqrt(2. / n) * 1.3);
    far("share within a deviation", in / n, 0.6826895, std::sqrt(0.2166 / n));
    far("correlation of neighbours", lag / n, 0., 1. / std::sqrt(n));
    count("distributions_judged");
}
template <typename E>
static std::string history(Rng &r, bool big)
{
    using T = typename number<E>::type;
    constexpr bool ann = gen::is_ann<E>::value;
    gen::Opt o;
    o.kernels = ann ? ref::ann_kernels() : std::vector<std::string>{"sum", "diff", "mul", "sig", "tanh", "ISRU", "sin", "cos", "exp", "gaussian", "sin_nu"};
    auto p = gen::prog(r, o);
    if (big) {
        p.r = r.u(3, 8), p.c = r.u(3, 12), p.l = r.u(1, p.c + 1u);
        p.arity.clear();
        for (unsigned i = 0; i < p.c; ++i) p.arity.push_back(r.u(1, 12));
    }
    const auto seed = static_cast<unsigned>(r.u64());
    E e(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<T>(p), seed);
    p.x = gen::chromosome(r, p);
    e.set(p.x);
    V w(p.n_weights(), 1.), b(ann ? p.r * p.c : 0u, 0.);
    std::string hist = std::string(ann ? "ann" : std::is_same<T, double>::value ? "weighted" : "weighted gdual") + " " + p.descr();
    judge(e, p, w, b, hist + " just built");
    bool any = false;
    auto node = [&] { return r.u(p.n, p.n + p.r * p.c - 1u); };
    auto active_node = [&] {
        auto an = p.active();
        std::vector<unsigned> v;
        for (auto i : an)
            if (i >= p.n) v.push_back(i);
        return v.empty() || r.coin(0.3) ? node() : r.pick(v);
    };
    E other(e);
    auto wo = w, bo = b;
    for (unsigned k = r.u(2, 9); k > 0u; --k) {
        const auto before = e;
        switch (r.u(0, ann ? 10 : 5)) {
            case 0:
            case 1: {
                auto id = active_node();
                auto j = r.u(0, p.ar(id) - 1u);
                auto v = w[flat(p, id, j)] = gen::value(r);
                e.set_weight(id, j, T(v));
                hist += "; weight " + str(id) + "," + str(j) + "=" + str(v);
                break;
            }
            case 2:
                w = gen::special(r, gen::smooth_values(r, w.size()), 0.1);
                e.set_weights(std::vector<T>(w.begin(), w.end()));
                hist += "; all weights";
                break;
            case 3:
                p.x = gen::chromosome(r, p);
                e.set(p.x);
                hist += "; set";
                break;
            case 4:
                e.mutate_random(3u);
                p.x = e.get();
                hist += "; mutated";
                break;
            case 5:
                std::swap(e, other), std::swap(w, wo), std::swap(b, bo);
                p.x = e.get();
                hist += "; swapped";
                break;
            case 6:
                if constexpr (ann) {
                    auto i = r.u(0, static_cast<unsigned>(w.size()) - 1u);
                    e.set_weight(std::size_t(i), w[i] = gen::value(r));
                    hist += "; weight " + str(i);
                }
                break;
            case 7:
                if constexpr (ann) {
                    auto i = active_node() - p.n;
                    e.set_bias(i, b[i] = gen::value(r));
                    hist += "; bias " + str(i) + "=" + str(b[i]);
                }
                break;
            case 8:
                if constexpr (ann) {
                    b = gen::special(r, gen::smooth_values(r, b.size()), 0.1);
                    e.set_biases(b);
                    hist += "; all biases";
                }
                break;
            default:
                if constexpr (ann) {
                    const double mean = r.coin(0.3) ? 0. : r.real(-5., 5.), std = r.coin(0.2) ? 0.1 : std::pow(10., r.real(-3., 2.));
                    const auto s = static_cast<unsigned>(r.u64());
                    const bool bias = r.coin(0.4);
                    auto d = hist + "; randomised " + (bias ? "biases " : "weights ") + str(mean) + " " + str(std) + " seed " + str(s);
                    E f(e), g(e);
                    const auto s2 = s + r.u(1, 4000000000u);
                    bias ? e.randomise_biases(mean, std, s) : e.randomise_weights(mean, std, s);
                    bias ? f.randomise_biases(mean, std, s) : f.randomise_weights(mean, std, s);
                    bias ? g.randomise_biases(mean, std, s2) : g.randomise_weights(mean, std, s2);
                    auto of = [bias](const E &q) { return bias ? q.get_biases() : q.get_weights(); };
                    if (!same(of(e), of(f))) violation("equal seeds give other values", d);
                    if (of(e) == of(g)) violation("another seed gives the same values", d);
                    if (r.coin(0.1)) { // the seed left to chance
                        E h(e), i(e);
                        bias ? h.randomise_biases(mean, std) : h.randomise_weights(mean, std);
                        bias ? i.randomise_biases(mean, std) : i.randomise_weights(mean, std);
                        if (of(h) == of(i) || of(h) == of(e)) violation("chance seeds give the same values", d);
                        normal(of(h), mean, std, d + " by chance");
                    }
                    (bias ? b : w) = of(e);
                    normal(of(e), mean, std, d);
                    hist = d;
                }
        }
        judge(e, p, w, b, hist);
        auto q = p;
        q.x = other.get();
        judge(other, q, wo, bo, "the other one of " + hist);
        any = evaluate(e, p, w, b, gen::smooth_values(r, p.n), hist) || any;
    }
    evaluated(hist, any);
    return hist;
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long) {
        const bool big = r.coin(0.15);
        switch (r.u(0, 5)) {
            case 0: history<gen::weighted_t>(r, big); break;
            case 1: history<dcgp::expression_weighted<audi::gdual_d>>(r, false); break;
            default: history<gen::ann_t>(r, big);
        }
    });
}
