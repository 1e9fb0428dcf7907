// C05: Taylor expansions through an expression are the true derivatives (scalar and vectorized duals).
#include "gen.hpp"
#include <audi/audi.hpp>
using namespace vh;
using audi::gdual_d;
using audi::gdual_v;

// What is differentiated: inputs, constants, weights, all in one list of values
struct Setup {
    ref::Prog p;
    unsigned n = 0, n_eph = 0;
    bool weighted = false;
    std::vector<double> val;         // n inputs, n_eph constants, weights
    std::vector<std::string> names;
    std::vector<unsigned> vars;      // indexes into val which are dual variables
    unsigned order = 1;
    std::string descr() const
    {
        std::string s = weighted ? "weighted " : "plain ";
        s += p.descr() + " order " + str(order) + " at " + vs(val) + " variables";
        for (auto v : vars) s += " " + names[v];
        return s;
    }
};
template <typename S>
static double mixed(const Setup &q, const std::vector<double> &val, const std::vector<unsigned> &dir, unsigned out)
{
    std::vector<S> in, w;
    for (std::size_t i = 0; i < val.size(); ++i) {
        bool bits[4] = {false, false, false, false};
        for (std::size_t k = 0; k < dir.size(); ++k) bits[k] = dir[k] == i;
        auto s = ref::Seed<S>::make(val[i], bits);
        if (i < q.n + q.n_eph) in.push_back(s);
        else w.push_back(s);
    }
    return ref::top(q.p.eval<S>(in, w)[out]);
}
using D1 = ref::Dual<ref::N>;
using D2 = ref::Dual<D1>;
using D3 = ref::Dual<D2>;
static ref::Cond truth(const Setup &q, const std::vector<double> &val, const std::vector<unsigned> &dir, unsigned out)
{
    ref::nonfinite_node() = false;
    auto c = ref::conditioned([&] {
        switch (dir.size()) {
            case 0: return mixed<ref::N>(q, val, dir, out);
            case 1: return mixed<D1>(q, val, dir, out);
            case 2: return mixed<D2>(q, val, dir, out);
            default: return mixed<D3>(q, val, dir, out);
        }
    });
    c.nonfinite = false; // singular points are not judged
    if (!dir.empty() && ref::kink() < 1e-6) c.ok = false;
    if (ref::nonfinite_node()) c.ok = false;
    c.tol += dir.empty() ? 0. : 1e-10 * (1. + ref::biggest());
    return c;
}
static double coord(Rng &r) { return r.coin(0.12) ? static_cast<double>(static_cast<int>(r.u(0, 4)) - 2) : r.real(-1.8, 1.8); }
static Setup setup(Rng &r, bool batch)
{
    Setup q;
    gen::Opt o;
    o.max_m = 3, o.max_c = 5, o.max_r = 3;
    o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv")); // defined on doubles only
    q.weighted = r.coin(0.4);
    q.n_eph = !q.weighted && r.coin(0.6) ? r.u(1, 3) : 0u;
    q.p = gen::prog(r, o, q.n_eph);
    q.n = q.p.n - q.n_eph;
    (void)batch;
    q.order = r.u(1, 3);
    for (unsigned i = 0; i < q.n; ++i) {
        q.val.push_back(coord(r));
        q.names.push_back("x" + str(i));
    }
    for (unsigned i = 0; i < q.n_eph; ++i) {
        q.val.push_back(coord(r));
        q.names.push_back("c" + str(i + 1u));
    }
    if (q.weighted)
        for (std::size_t i = 0; i < q.p.n_weights(); ++i) {
            q.val.push_back(coord(r));
            q.names.push_back("w" + str(i));
        }
    // variables: inputs, constants and some of the weights (preferably of active nodes)
    std::vector<unsigned> cand;
    for (unsigned i = 0; i < q.val.size(); ++i) cand.push_back(i);
    r.shuffle(cand);
    auto nv = r.u(1, std::min<unsigned>(q.order == 3u ? 3u : 4u, static_cast<unsigned>(cand.size())));
    q.vars.assign(cand.begin(), cand.begin() + nv);
    return q;
}
static std::vector<std::vector<unsigned>> directions(Rng &r, const Setup &q)
{
    std::vector<std::vector<unsigned>> d;
    d.push_back({});
    for (auto v : q.vars) d.push_back({v});
    for (unsigned k = 0; k < 6u; ++k) {
        std::vector<unsigned> t(r.u(1, q.order));
        for (auto &i : t) i = r.pick(q.vars);
        d.push_back(t);
    }
    return d;
}
template <typename G>
static auto derivative(const G &g, const Setup &q, const std::vector<unsigned> &dir) -> decltype(g.constant_cf())
{
    using Cf = decltype(g.constant_cf());
    if (dir.empty()) return g.constant_cf();
    if (dir.size() > g.get_order()) return Cf(0.); // a constant
    std::unordered_map<std::string, unsigned> m;
    for (auto v : dir) m["d" + q.names[v]] += 1u;
    return g.get_derivative(m);
}
static void verdict(const char *key, const Setup &q, const std::vector<double> &val, const std::vector<unsigned> &dir, unsigned out, double got, bool &nontriv)
{
    auto c = truth(q, val, dir, out);
    int j = ref::judge(c, got);
    if (j < 0) {
        count("not_judged");
        return;
    }
    count("compared order " + str(dir.size()));
    if (c.ok && !dir.empty() && c.v != 0.) {
        nontriv = true;
        count("nonzero derivatives compared");
    }
    if (j == 0) {
        std::string d;
        for (auto v : dir) d += " d" + q.names[v];
        violation(key, q.descr() + " values " + vs(val) + " output " + str(out) + " derivative" + d + " is " + str(got) + ", should be " + str(c.v) + " +- " + str(c.tol));
    }
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        bool batch = c % 3 == 2;
        auto q = setup(r, batch);
        auto &p = q.p;
        auto seed = static_cast<unsigned>(r.u64());
        p.x = gen::chromosome(r, p);
        auto is_var = [&](unsigned i) { return std::find(q.vars.begin(), q.vars.end(), i) != q.vars.end(); };
        bool nontriv = false;
        auto scalar = [&](unsigned i) { return is_var(i) ? gdual_d(q.val[i], q.names[i], q.order) : gdual_d(q.val[i]); };
        if (!batch) {
            auto work = [&](auto &e) {
                using E = std::decay_t<decltype(e)>;
                e.set(p.x);
                std::vector<gdual_d> in, ec;
                for (unsigned i = 0; i < q.n; ++i) in.push_back(scalar(i));
                for (unsigned i = 0; i < q.n_eph; ++i) ec.push_back(scalar(q.n + i));
                if constexpr (std::is_same<E, dcgp::expression<gdual_d>>::value || std::is_same<E, dcgp::expression<gdual_v>>::value)
                    if (q.n_eph) e.set_eph_val(ec);
                if constexpr (std::is_base_of<dcgp::expression_weighted<gdual_d>, E>::value) {
                    std::vector<gdual_d> w;
                    for (unsigned i = q.n; i < q.val.size(); ++i) w.push_back(scalar(i));
                    if (r.coin()) e.set_weights(w);
                    else { // one by one
                        std::size_t k = 0;
                        for (unsigned id = p.n; id < p.n + p.r * p.c; ++id)
                            for (unsigned a = 0; a < p.ar(id); ++a) e.set_weight(id, a, w[k++]);
                    }
                }
                unsigned reps = r.u(1, 2);
                for (unsigned t = 0; t < reps; ++t) {
                    if (t) {
                        e.mutate_active(r.u(1, 3));
                        p.x = e.get();
                    }
                    auto o = e(in);
                    for (unsigned i = 0; i < p.m; ++i)
                        for (auto &d : directions(r, q)) verdict(q.weighted ? "derivative weighted" : "derivative plain", q, q.val, d, i, derivative(o[i], q, d), nontriv);
                }
            };
            if (q.weighted) {
                dcgp::expression_weighted<gdual_d> e(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_d>(p), seed);
                work(e);
            } else {
                dcgp::expression<gdual_d> e(q.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_d>(p), q.n_eph, seed);
                work(e);
            }
        } else {
            unsigned B = r.u(1, 5);
            std::vector<std::vector<double>> pts(B, q.val);
            for (auto &v : pts)
                for (unsigned i = 0; i < q.n; ++i) v[i] = coord(r);
            auto vec = [&](unsigned i) {
                std::vector<double> col;
                for (auto &v : pts) col.push_back(v[i]);
                bool same_ = i >= q.n && r.coin();
                if (same_) return is_var(i) ? gdual_v(q.val[i], q.names[i], q.order) : gdual_v(q.val[i]);
                return is_var(i) ? gdual_v(col, q.names[i], q.order) : gdual_v(col);
            };
            auto work = [&](auto &e) {
                using E = std::decay_t<decltype(e)>;
                e.set(p.x);
                std::vector<gdual_v> in, ec;
                for (unsigned i = 0; i < q.n; ++i) in.push_back(vec(i));
                for (unsigned i = 0; i < q.n_eph; ++i) ec.push_back(vec(q.n + i));
                if constexpr (std::is_same<E, dcgp::expression<gdual_d>>::value || std::is_same<E, dcgp::expression<gdual_v>>::value)
                    if (q.n_eph) e.set_eph_val(ec);
                if constexpr (std::is_base_of<dcgp::expression_weighted<gdual_v>, E>::value) {
                    std::vector<gdual_v> w;
                    for (unsigned i = q.n; i < q.val.size(); ++i) w.push_back(vec(i));
                    e.set_weights(w);
                }
                auto o = e(in);
                // a single bad element may spoil a whole batch: judge only when every point is regular
                for (auto &v : pts)
                    for (unsigned i = 0; i < p.m; ++i) {
                        auto t = truth(q, v, {}, i);
                        if (!t.ok) {
                            count("batches_not_judged");
                            return;
                        }
                    }
                for (unsigned i = 0; i < p.m; ++i)
                    for (auto &d : directions(r, q)) {
                        auto got = derivative(o[i], q, d);
                        for (unsigned b = 0; b < B; ++b) {
                            double g = got.size() == 1u ? got[0] : b < got.size() ? got[b] : std::nan("");
                            verdict(q.weighted ? "derivative weighted vectorized" : "derivative plain vectorized", q, pts[b], d, i, g, nontriv);
                        }
                    }
            };
            if (q.weighted) {
                dcgp::expression_weighted<gdual_v> e(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_v>(p), seed);
                work(e);
            } else {
                dcgp::expression<gdual_v> e(q.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_v>(p), q.n_eph, seed);
                work(e);
            }
        }
        evaluated((batch ? "batch " : "") + q.descr(), nontriv);
    });
}
