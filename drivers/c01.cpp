// C01: evaluation computes exactly the encoded program (plain, weighted, ANN; double, gdual, vectorized gdual).
#include "gen.hpp"
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
using namespace vh;
using audi::gdual_d;
using audi::gdual_v;
using ref::N;

static std::vector<N> toN(const std::vector<double> &v) { return std::vector<N>(v.begin(), v.end()); }
static std::vector<ref::Cond> expect(const ref::Prog &p, const std::vector<double> &in, const std::vector<double> &w = {},
                                     const std::vector<double> &b = {})
{
    return ref::conditioned_v([&] {
        auto o = p.eval<N>(toN(in), toN(w), toN(b));
        std::vector<double> r;
        for (auto &v : o) r.push_back(v.v);
        return r;
    });
}
static bool g_nontriv;
static void compare(const char *key, const std::vector<ref::Cond> &want, const std::vector<double> &got, const std::string &what)
{
    if (want.size() != got.size()) {
        violation(std::string(key) + "-size", what + " output size " + str(got.size()));
        return;
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
        int j = ref::judge(want[i], got[i]);
        if (j == 0)
            violation(key, what + " output " + str(i) + " is " + str(got[i]) + " instead of " + str(want[i].v) + " (tol "
                               + str(want[i].tol) + ")");
        if (j < 0) count("outputs_not_judged");
        else count("outputs_judged");
        if (j == 1 && std::isfinite(got[i])) g_nontriv = true;
    }
}
template <typename E, typename V>
static void wrong_length(const char *key, const E &e, std::vector<V> in, std::size_t right)
{
    for (std::size_t len : {right - 1u, right + 1u, std::size_t(0)}) {
        auto v = in;
        v.resize(len, V(0.5));
        if (len == right) continue;
        try {
            e(v);
            violation(std::string(key) + "-wrong-length", "a point of size " + str(len) + " was accepted, expected size " + str(right));
        } catch (const std::invalid_argument &) {
            count("wrong_length_rejected");
        }
    }
}
// An evaluation a kernel interrupts with an exception leaves nothing behind.
template <typename E, typename V>
static void interrupt(Rng &r, const char *key, const E &e, const std::vector<V> &in)
{
    if (!gen::reentrant()) return;
    gen::fail_in() = r.u(0, 5);
    try {
        e(in);
    } catch (const gen::kernel_failure &) {
        count("interrupted_evaluations");
    } catch (const std::exception &x) {
        violation(std::string(key) + "-exception", std::string("the exception of a kernel became: ") + x.what());
    }
    gen::fail_in() = -1;
}
static std::vector<double> cfs(const std::vector<gdual_d> &v)
{
    std::vector<double> r;
    for (auto &x : v) r.push_back(x.constant_cf());
    return r;
}

// objects that differ from one another by one thing at a time (see gen::twins)
template <typename E, typename T>
static void twins(Rng &r)
{
    constexpr bool ann = gen::is_ann<E>::value, plain = std::is_same<E, dcgp::expression<T>>::value;
    auto d = gen::twins<E, T>(r, [&](const E &e, const gen::TwinState &s) {
        auto in = s.pt;
        if (plain) in.insert(in.end(), s.eph.begin(), s.eph.end());
        std::vector<double> got;
        if constexpr (std::is_same<T, double>::value) got = e(s.pt);
        else got = cfs(e(std::vector<T>(s.pt.begin(), s.pt.end())));
        count("twin_evaluations");
        compare("eval-twin", expect(s.p, in, plain ? std::vector<double>{} : s.w, ann ? s.b : std::vector<double>{}), got, s.where + " " + s.p.descr() + " in=" + vs(in));
    });
    evaluated("twins " + d, g_nontriv);
}
// numbers of genes, nodes, inputs and outputs past 65536
static void huge(Rng &r)
{
    gen::with_huge(r, [&](auto &e, ref::Prog &p, const std::string &d) {
        for (unsigned k = 0; k < 3u; ++k) {
            auto q = p;
            q.x = e.get();
            auto pt = gen::smooth_values(r, p.n);
            compare("eval-huge", expect(q, pt, gen::weights(e), gen::biases(e)), e(pt), d);
            auto c(e);
            compare("eval-huge", expect(q, pt, gen::weights(e), gen::biases(e)), c(pt), d + " copied");
            e.mutate_random(500u);
            e.mutate_active(2u);
        }
        count("huge_chromosomes");
        evaluated("huge " + d, true);
    });
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        g_nontriv = false;
        if (c % 1000 == 501) {
            gen::reentrant() = false;
            gen::fail_in() = -1;
            return huge(r);
        }
        gen::reentrant() = c % 8 == 5;
        gen::fail_in() = -1;
        if (gen::reentrant()) count("cases_with_nested_evaluations");
        if (c % 10 == 7) {
            switch (r.u(0, 4)) {
                case 0: return twins<gen::plain_t, double>(r);
                case 1: return twins<gen::weighted_t, double>(r);
                case 2: return twins<gen::ann_t, double>(r);
                case 3: return twins<dcgp::expression<gdual_d>, gdual_d>(r);
                default: return twins<dcgp::expression_weighted<gdual_d>, gdual_d>(r);
            }
        }
        unsigned kind = r.u(0, 9);
        gen::Opt o;
        std::string d;
        if (kind <= 4) { // plain
            unsigned n_eph = r.coin(0.4) ? r.u(1, 4) : 0u;
            bool with_gdual = kind == 3, with_v = kind == 4;
            if (with_gdual || with_v) o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv"));
            bool uni = r.coin();
            o.uniform_arity = uni;
            auto p = gen::prog(r, o, n_eph);
            unsigned n = p.n - n_eph;
            unsigned seed = static_cast<unsigned>(r.u64());
            auto point = gen::values(r, n), eph = gen::values(r, n_eph);
            auto full = [&](const std::vector<double> &pt) {
                auto f = pt;
                f.insert(f.end(), eph.begin(), eph.end());
                return f;
            };
            d = "plain n_eph=" + str(n_eph) + " ";
            if (!with_gdual && !with_v) {
                dcgp::expression<double> e = uni ? dcgp::expression<double>(n, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<double>(p), n_eph, seed)
                                                 : dcgp::expression<double>(n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<double>(p), n_eph, seed);
                // as constructed: own random chromosome and own constants
                p.x = e.get();
                if (p.x.size() != p.size()) {
                    violation("chromosome-size", p.descr());
                    return;
                }
                {
                    auto f = point;
                    f.insert(f.end(), e.get_eph_val().begin(), e.get_eph_val().end());
                    compare("eval-plain", expect(p, f), e(point), "fresh " + p.descr() + " in=" + vs(f));
                }
                if (n_eph) e.set_eph_val(eph);
                p.x = gen::chromosome(r, p);
                e.set(p.x);
                d += p.descr();
                compare("eval-plain", expect(p, full(point)), e(point), d + " in=" + vs(full(point)));
                wrong_length("eval-plain", e, point, n);
                std::string hist;
                unsigned steps = r.u(0, 6);
                for (unsigned s = 0; s < steps; ++s) {
                    hist += gen::random_op(e, r, p) + ";";
                    p.x = e.get();
                    point = gen::values(r, n);
                    if (n_eph && r.coin()) {
                        eph = gen::values(r, n_eph);
                        e.set_eph_val(eph);
                    }
                    count("history_steps");
                    interrupt(r, "eval-plain", e, point);
                    compare("eval-after-history", expect(p, full(point)), e(point), hist + " " + p.descr() + " in=" + vs(full(point)));
                }
                if (n == 2u) compare("eval-initlist", expect(p, full(point)), e({point[0], point[1]}), d);
                // phenotype correction: y = pc(x, g)
                double A = r.real(-2, 2), B = r.real(-2, 2), C = r.real(-1, 1);
                using V = std::vector<double>;
                e.set_phenotype_correction([A, B, C](const V &x, std::function<V(const V &)> g) {
                    auto y = g(x);
                    auto x2 = x;
                    for (auto &v : x2) v = C * v + 0.25;
                    auto z = g(x2);
                    for (std::size_t i = 0; i < y.size(); ++i) y[i] = A * y[i] + B * x[0] + z[i];
                    return y;
                });
                if (r.coin(0.3)) { // corrections survive copies
                    auto e2(e);
                    e = e2;
                }
                auto want = ref::conditioned_v([&] {
                    auto pt2 = point;
                    for (auto &v : pt2) v = C * v + 0.25;
                    auto y = p.eval<N>(toN(full(point))), z = p.eval<N>(toN(full(pt2)));
                    V o2;
                    for (std::size_t i = 0; i < y.size(); ++i) o2.push_back((N(A) * y[i] + N(B) * N(point[0]) + z[i]).v);
                    return o2;
                });
                compare("eval-corrected", want, e(point), "corrected " + p.descr() + " in=" + vs(full(point)));
                count("phenotype_corrections");
                e.mutate_random(2);
                p.x = e.get();
                compare("eval-corrected", ref::conditioned_v([&] {
                    auto pt2 = point;
                    for (auto &v : pt2) v = C * v + 0.25;
                    auto y = p.eval<N>(toN(full(point))), z = p.eval<N>(toN(full(pt2)));
                    V o2;
                    for (std::size_t i = 0; i < y.size(); ++i) o2.push_back((N(A) * y[i] + N(B) * N(point[0]) + z[i]).v);
                    return o2;
                }), e(point), "corrected, mutated " + p.descr() + " in=" + vs(full(point)));
                e.unset_phenotype_correction();
                compare("eval-uncorrected", expect(p, full(point)), e(point), "after unset " + p.descr() + " in=" + vs(full(point)));
            } else if (with_gdual) {
                dcgp::expression<gdual_d> e(n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_d>(p), n_eph, seed);
                p.x = gen::chromosome(r, p);
                e.set(p.x);
                d += "gdual " + p.descr();
                unsigned order = r.u(0, 2);
                std::vector<gdual_d> in, ec;
                for (unsigned i = 0; i < n; ++i)
                    in.push_back(r.coin(0.3) ? gdual_d(point[i]) : gdual_d(point[i], "x" + str(i), order));
                for (unsigned i = 0; i < n_eph; ++i) ec.push_back(gdual_d(eph[i]));
                if (n_eph) e.set_eph_val(ec);
                compare("eval-gdual", expect(p, full(point)), cfs(e(in)), d + " in=" + vs(full(point)));
                wrong_length("eval-gdual", e, in, n);
                auto h = gen::random_op(e, r, p);
                p.x = e.get();
                interrupt(r, "eval-gdual", e, in);
                compare("eval-gdual", expect(p, full(point)), cfs(e(in)), h + " " + d + " in=" + vs(full(point)));
                using V = std::vector<gdual_d>;
                e.set_phenotype_correction([](const V &x, std::function<V(const V &)> g) {
                    auto y = g(x);
                    for (auto &v : y) v = v * 2. + x[0];
                    return y;
                });
                auto want = ref::conditioned_v([&] {
                    auto y = p.eval<N>(toN(full(point)));
                    std::vector<double> o2;
                    for (auto &v : y) o2.push_back((v * N(2.) + N(point[0])).v);
                    return o2;
                });
                compare("eval-gdual-corrected", want, cfs(e(in)), "corrected " + d);
                e.unset_phenotype_correction();
                compare("eval-gdual", expect(p, full(point)), cfs(e(in)), "after unset " + d);
            } else {
                dcgp::expression<gdual_v> e(n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_v>(p), n_eph, seed);
                p.x = gen::chromosome(r, p);
                e.set(p.x);
                unsigned B = r.u(1, 5);
                d += "gdual_v batch " + str(B) + " " + p.descr();
                std::vector<std::vector<double>> pts(B);
                for (auto &q : pts) q = gen::values(r, n);
                std::vector<gdual_v> in, ec;
                for (unsigned i = 0; i < n; ++i) {
                    std::vector<double> col;
                    for (auto &q : pts) col.push_back(q[i]);
                    in.push_back(gdual_v(audi::vectorized<double>(col)));
                }
                unsigned order = r.u(0, 1);
                for (unsigned i = 0; i < n_eph; ++i) ec.push_back(gdual_v(eph[i], "c" + str(i + 1), order));
                if (n_eph) e.set_eph_val(ec);
                auto out = e(in);
                for (unsigned b = 0; b < B; ++b) {
                    std::vector<double> got;
                    for (auto &v : out) {
                        auto c = v.constant_cf();
                        if (c.size() != 1u && c.size() != B) {
                            violation("eval-gdual_v-batch", d + " batch of size " + str(c.size()));
                            return;
                        }
                        got.push_back(c.size() == 1u ? *c.begin() : *(c.begin() + b));
                    }
                    ref::nonfinite_node() = false;
                    auto want = expect(p, full(pts[b]));
                    if (ref::nonfinite_node()) { // inf * 0 in truncated polynomial arithmetic: not claimed
                        count("gdual_v_points_not_judged");
                        continue;
                    }
                    compare("eval-gdual_v", want, got, d + " point " + str(b) + " in=" + vs(full(pts[b])));
                }
            }
        } else if (kind <= 7) { // weighted
            bool gd = kind == 7;
            if (gd) o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv"));
            bool uni = r.coin();
            o.uniform_arity = uni;
            auto p = gen::prog(r, o);
            unsigned seed = static_cast<unsigned>(r.u64());
            auto point = gen::values(r, p.n);
            auto body = [&](auto &e, auto conv_in, auto conv_w, auto conv_out, const char *key) {
                std::vector<double> w(p.n_weights(), 1.);
                p.x = e.get();
                compare(key, expect(p, point, w), conv_out(e(conv_in(point))), "fresh weighted " + p.descr());
                p.x = gen::chromosome(r, p);
                e.set(p.x);
                if (r.coin()) {
                    w = gen::values(r, w.size());
                    auto wc = e.get_weights();
                    for (std::size_t i = 0; i < w.size(); ++i) wc[i] = conv_w(w[i]);
                    e.set_weights(wc);
                }
                unsigned ns = r.u(0, 5);
                for (unsigned s = 0; s < ns; ++s) {
                    auto id = r.u(p.n, p.n + p.r * p.c - 1u);
                    auto a = r.u(0, p.ar(id) - 1u);
                    double v = gen::value(r);
                    w[p.wpos(id) + a] = v;
                    e.set_weight(id, a, conv_w(v));
                }
                d = std::string(key) + " " + p.descr() + " w=" + vs(w);
                compare(key, expect(p, point, w), conv_out(e(conv_in(point))), d + " in=" + vs(point));
                auto pin = conv_in(point);
                wrong_length(key, e, pin, p.n);
                std::string hist;
                unsigned steps = r.u(0, 4);
                for (unsigned s = 0; s < steps; ++s) {
                    hist += gen::random_op(e, r, p) + ";";
                    p.x = e.get();
                    point = gen::values(r, p.n);
                    count("history_steps");
                    interrupt(r, key, e, conv_in(point));
                    compare(key, expect(p, point, w), conv_out(e(conv_in(point))), hist + " " + p.descr() + " w=" + vs(w) + " in=" + vs(point));
                }
            };
            auto id = [](const auto &v) { return v; };
            auto dd = [](double v) { return v; };
            if (!gd) {
                auto e = uni ? dcgp::expression_weighted<double>(p.n, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<double>(p), seed)
                             : dcgp::expression_weighted<double>(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<double>(p), seed);
                body(e, id, dd, id, "eval-weighted");
            } else {
                auto e = uni ? dcgp::expression_weighted<gdual_d>(p.n, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<gdual_d>(p), seed)
                             : dcgp::expression_weighted<gdual_d>(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_d>(p), seed);
                body(
                    e,
                    [](const std::vector<double> &v) {
                        std::vector<gdual_d> o2;
                        for (std::size_t i = 0; i < v.size(); ++i) o2.push_back(gdual_d(v[i], "x" + str(i), 1u));
                        return o2;
                    },
                    [](double v) { return gdual_d(v); }, cfs, "eval-weighted-gdual");
            }
        } else { // ANN
            o.kernels = ref::ann_kernels();
            bool uni = r.coin();
            o.uniform_arity = uni;
            auto p = gen::prog(r, o);
            unsigned seed = static_cast<unsigned>(r.u64());
            auto e = uni ? dcgp::expression_ann(p.n, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<double>(p), seed)
                         : dcgp::expression_ann(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<double>(p), seed);
            std::vector<double> w(p.n_weights(), 1.), b(p.r * p.c, 0.);
            auto point = gen::values(r, p.n);
            p.x = e.get();
            compare("eval-ann", expect(p, point, w, b), e(point), "fresh ann " + p.descr());
            p.x = gen::chromosome(r, p);
            e.set(p.x);
            if (r.coin(0.8)) {
                w = gen::values(r, w.size());
                e.set_weights(w);
            }
            if (r.coin(0.8)) {
                b = gen::values(r, b.size());
                e.set_biases(b);
            }
            unsigned ns = r.u(0, 6);
            for (unsigned s = 0; s < ns; ++s) {
                auto id = r.u(p.n, p.n + p.r * p.c - 1u);
                auto a = r.u(0, p.ar(id) - 1u);
                double v = gen::value(r);
                switch (r.u(0, 2)) {
                    case 0:
                        w[p.wpos(id) + a] = v;
                        e.set_weight(id, a, v);
                        break;
                    case 1: {
                        auto i = r.u(0, static_cast<unsigned>(w.size()) - 1u);
                        w[i] = v;
                        e.set_weight(i, v);
                        break;
                    }
                    default: {
                        auto i = r.u(0, static_cast<unsigned>(b.size()) - 1u);
                        b[i] = v;
                        e.set_bias(i, v);
                    }
                }
            }
            d = "ann " + p.descr() + " w=" + vs(w) + " b=" + vs(b);
            compare("eval-ann", expect(p, point, w, b), e(point), d + " in=" + vs(point));
            if (!vh::same(e.get_weights(), w) || !vh::same(e.get_biases(), b)) violation("ann-parameters", d);
            wrong_length("eval-ann", e, point, p.n);
            std::string hist;
            unsigned steps = r.u(0, 5);
            for (unsigned s = 0; s < steps; ++s) {
                if (r.coin(0.2)) {
                    auto i = r.u(0, static_cast<unsigned>(p.f.size()) - 1u);
                    bool ok = true; // outputs fed directly by inputs have no function
                    for (unsigned k = 0; k < p.m; ++k) ok = ok && p.out(k) >= p.n;
                    if (ok) {
                        e.set_output_f(p.f[i]);
                        for (unsigned k = 0; k < p.m; ++k) p.x[p.pos(p.out(k))] = i;
                        hist += "set_output_f(" + p.f[i] + ");";
                        if (e.get() != p.x) violation("set_output_f", hist + " gave " + vs(e.get()) + " expected " + vs(p.x));
                    }
                } else {
                    hist += gen::random_op(e, r, p) + ";";
                    p.x = e.get();
                }
                point = gen::values(r, p.n);
                count("history_steps");
                interrupt(r, "eval-ann", e, point);
                compare("eval-ann", expect(p, point, w, b), e(point), hist + " " + p.descr() + " w=" + vs(w) + " b=" + vs(b) + " in=" + vs(point));
            }
        }
        evaluated(d, g_nontriv);
    });
}
