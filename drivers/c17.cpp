// C17: gradients and hessians of symbolic regression problems against dual numbers, over histories of calls.
#include "srref.hpp"
using namespace vh;
using V = std::vector<double>;

static void twins(Rng &r)
{
    srg::Opt o;
    o.many = 0.;
    o.max_points = 4;
    o.max_eph = 3;
    o.g.max_c = 4;
    o.eph = static_cast<int>(r.u(1, 3));
    o.g.kernels = srg::smooth_kernels();
    bool judged = false;
    auto d = srg::twins(r, o, [&](dcgp::symbolic_regression &s, const srg::Conf &c, const V &x, const srg::Pc &pc, const std::string &where) {
        if (r.coin(0.3)) s.fitness(x);
        std::vector<std::vector<unsigned>> dirs;
        V got;
        if (r.coin(0.6)) {
            got = s.gradient(x);
            for (auto &q : s.gradient_sparsity()) dirs.push_back({static_cast<unsigned>(q.second)});
        } else {
            got = s.hessians(x)[0];
            const auto sp = s.hessians_sparsity();
            for (auto &q : sp[0]) dirs.push_back({static_cast<unsigned>(q.first), static_cast<unsigned>(q.second)});
        }
        if (got.size() != dirs.size()) return violation("number of derivatives", where);
        const auto i = r.u(0, static_cast<unsigned>(dirs.size()) - 1u);
        auto t = srg::ref_partial(c, x, dirs[i], pc);
        int v = ref::judge(t, got[i]);
        if (v == 0)
            violation("derivatives of another problem", where + " " + c.descr() + " " + pc.descr() + " x " + vs(x) + " component " + str(i) + " expected " + str(t.v) + " +- " + str(t.tol) + " got "
                                                            + str(got[i]));
        if (v > 0) judged = judged || t.v != 0., count("twin derivatives compared");
    });
    count("histories of two problems");
    evaluated(d, judged);
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [](Rng &r, long no) {
        if (no % 10 == 6) return twins(r);
        srg::Opt o;
        o.max_points = 6;
        o.g.max_c = 4;
        if (r.coin(0.12)) o.max_eph = 12;
        if (r.coin(0.6)) o.g.kernels = srg::smooth_kernels();
        o.eph = r.coin(0.05) ? 0 : static_cast<int>(r.u(1, o.max_eph));
        auto c = srg::conf(r, o);
        srg::Pc pc;
        std::string d = c.descr();
        auto s = srg::make(c);
        const unsigned n = c.n_eph;
        // advertised layout
        pagmo::sparsity_pattern gs, hs;
        for (unsigned i = 0; i < n; ++i) {
            gs.push_back({0u, i});
            for (unsigned j = 0; j <= i; ++j) hs.push_back({i, j});
        }
        auto S = s.gradient_sparsity();
        auto H = s.hessians_sparsity();
        if (S != gs) violation("gradient sparsity", d);
        if (H.size() != s.get_nobj() || H[0] != hs) violation("hessians sparsity", d);
        bool judged = false;
        std::vector<V> xs{srg::dv(r, c)};
        for (unsigned i = r.u(0, 2); i > 0u; --i) xs.push_back(r.coin(0.6) ? srg::neighbour(r, c, r.pick(xs)) : srg::dv(r, c));
        // more of the constants in the model
        for (auto &x : xs)
            for (int k = 0; k < 4 && n; ++k) {
                auto p = srg::prog_of(c, x);
                auto lb = p.lb(), ub = p.ub();
                auto id = r.u(p.n, p.n + p.r * p.c - 1u);
                auto g = p.pos(id) + 1u + r.u(0, p.ar(id) - 1u);
                unsigned want = c.nin() + r.u(0, n - 1u);
                if (want >= lb[g] && want <= ub[g]) x[n + g] = want;
            }
        auto grad = [&](const V &x, const V &g, const std::string &how) {
            if (g.size() != S.size()) {
                violation("size of the gradient", d);
                return;
            }
            for (std::size_t i = 0; i < g.size(); ++i) {
                auto t = srg::ref_partial(c, x, {static_cast<unsigned>(S[i].second)}, pc);
                int v = ref::judge(t, g[i]);
                if (v == 0) violation("gradient", d + " " + how + " x " + vs(x) + " component " + str(i) + " expected " + str(t.v) + " +- " + str(t.tol) + " got " + str(g[i]));
                if (v > 0) {
                    count("gradient components compared");
                    if (t.v != 0.) judged = true, count("non-zero gradient components");
                }
            }
        };
        auto hess = [&](const V &x, const std::vector<V> &h, const std::string &how) {
            if (h.size() != H.size()) {
                violation("number of hessians", d);
                return;
            }
            for (std::size_t q = 0; q < h.size(); ++q)
                if (h[q].size() != H[q].size()) {
                    violation("size of a hessian", d);
                    return;
                }
            if (h.size() > 1u)
                for (double v : h[1])
                    if (v != 0.) violation("hessian of the complexity", d + " " + str(v));
            for (std::size_t i = 0; i < h[0].size(); ++i) {
                auto t = srg::ref_partial(c, x, {static_cast<unsigned>(H[0][i].first), static_cast<unsigned>(H[0][i].second)}, pc);
                int v = ref::judge(t, h[0][i]);
                if (v == 0)
                    violation("hessian", d + " " + how + " x " + vs(x) + " entry " + str(H[0][i].first) + "," + str(H[0][i].second) + " expected " + str(t.v) + " +- "
                                             + str(t.tol) + " got " + str(h[0][i]));
                if (v > 0) {
                    count("hessian entries compared");
                    if (t.v != 0.) judged = true, count(H[0][i].first == H[0][i].second ? "non-zero diagonal entries" : "non-zero mixed entries");
                }
            }
        };
        for (unsigned step = r.u(2, 8); step > 0u; --step) {
            auto x = r.pick(xs);
            switch (r.u(0, 9)) {
                case 0:
                case 1:
                case 2:
                    d += " gradient";
                    grad(x, s.gradient(x), "directly");
                    break;
                case 3:
                case 4: {
                    d += " hessians";
                    auto h = s.hessians(x);
                    hess(x, h, "directly");
                    if (r.coin()) grad(x, s.gradient(x), "after hessians");
                    if (r.coin()) {
                        auto h2 = s.hessians(x);
                        for (std::size_t q = 0; q < h.size(); ++q)
                            if (!same(h[q], h2[q])) violation("two hessians in a row differ", d);
                    }
                    break;
                }
                case 5: {
                    d += " fitness";
                    auto fresh = srg::make(c);
                    if (pc.kind) fresh.set_phenotype_correction(srg::pc_fun<double>(pc), srg::pc_fun<audi::gdual_v>(pc));
                    auto g = fresh.gradient(x);
                    s.fitness(x);
                    auto g2 = s.gradient(x);
                    if (!same(g, g2)) violation("the gradient depends on the history", d + " x " + vs(x) + " " + vs(g) + " " + vs(g2));
                    break;
                }
                case 6: {
                    d += " problem";
                    pagmo::problem p(s);
                    if (!p.has_gradient() || !p.has_hessians() || !p.has_gradient_sparsity() || !p.has_hessians_sparsity()) violation("derivatives are not advertised", d);
                    if (n) {
                        if (r.coin()) grad(x, p.gradient(x), "through pagmo");
                        else hess(x, p.hessians(x), "through pagmo");
                    }
                    break;
                }
                case 7: {
                    if (r.coin(0.4)) {
                        pc = srg::Pc{};
                        d += " no correction";
                        s.unset_phenotype_correction();
                    } else {
                        pc.kind = static_cast<int>(r.u(1, 2));
                        pc.k = r.real(-2., 2.);
                        d += " " + pc.descr();
                        s.set_phenotype_correction(srg::pc_fun<double>(pc), srg::pc_fun<audi::gdual_v>(pc));
                    }
                    grad(x, s.gradient(x), "after a change of the correction");
                    break;
                }
                case 8: {
                    d += " copy";
                    dcgp::symbolic_regression t(s);
                    t.gradient(r.pick(xs));
                    if (r.coin()) s = t;
                    grad(x, (r.coin() ? s : t).gradient(x), "after a copy");
                    break;
                }
                default: {
                    d += " fitness around";
                    auto f = s.fitness(x);
                    s.gradient(r.pick(xs));
                    s.hessians(r.pick(xs));
                    auto f2 = s.fitness(x);
                    bool nf = false;
                    auto t = srg::ref_loss(c, x, pc, nf);
                    if (t.ok && std::abs(f[0] - f2[0]) > t.tol) violation("derivatives change the fitness", d + " " + str(f[0]) + " " + str(f2[0]));
                }
            }
        }
        evaluated(d + vs(xs[0]), judged);
    });
}
