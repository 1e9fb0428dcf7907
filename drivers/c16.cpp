// C16: fitness and predictions of symbolic regression problems against a reference, over histories of calls.
#include "srref.hpp"
#include <pagmo/bfe.hpp>
using namespace vh;
using V = std::vector<double>;

static void twins(Rng &r)
{
    srg::Opt o;
    o.many = 0.;
    o.max_points = 5;
    o.g.max_c = 4;
    if (r.coin(0.5)) o.g.kernels = srg::smooth_kernels();
    bool judged = false;
    auto d = srg::twins(r, o, [&](dcgp::symbolic_regression &s, const srg::Conf &c, const V &x, const srg::Pc &pc, const std::string &where) {
        const bool pd = std::find(c.p.f.begin(), c.p.f.end(), "pdiv") != c.p.f.end();
        switch (r.u(0, 9)) { // the derivatives fill the cache as well
            case 0: if (!pd) s.gradient(x); break;
            case 1: if (!pd) s.hessians(x); break;
            case 2: {
                auto p = srg::prog_of(c, x);
                auto w = ref::conditioned_v([&] {
                    V v;
                    for (auto &q : srg::outputs<ref::N>(c, p, std::vector<ref::N>(x.begin(), x.begin() + c.n_eph), c.X[0], pc)) v.push_back(q.v);
                    return v;
                });
                auto y = s.predict(c.X[0], x);
                for (unsigned i = 0; i < c.p.m; ++i) {
                    if (ref::judge(w[i], y[i]) == 0) violation("prediction of another problem", where + " x " + vs(x) + " expected " + str(w[i].v) + " got " + str(y[i]));
                    count("twin predictions compared");
                }
                break;
            }
            default: break;
        }
        auto f = s.fitness(x);
        if (f.size() != (c.mo ? 2u : 1u)) return violation("size of the fitness", where);
        if (c.mo && f[1] != static_cast<double>(srg::prog_of(c, x).active_genes().size())) violation("complexity of another problem", where + " " + str(f[1]));
        bool nf = false;
        auto t = srg::ref_loss(c, x, pc, nf);
        int v = ref::judge(t, f[0]);
        if (v == 0) violation("fitness of another problem", where + " " + c.descr() + " " + pc.descr() + " x " + vs(x) + " expected " + str(t.v) + " +- " + str(t.tol) + " got " + str(f[0]));
        if (v > 0 && t.ok) judged = true, count("twin fitness compared");
    });
    count("histories of two problems");
    evaluated(d, judged);
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [](Rng &r, long n) {
        if (n % 10 == 6) return twins(r);
        srg::Opt o;
        if (r.coin(0.1)) o.max_eph = 12;
        if (r.coin(0.2)) o.g.max_c = 12, o.g.max_r = 1;
        if (r.coin(0.2)) o.max_points = 30;
        if (r.coin(0.5)) o.g.kernels = srg::smooth_kernels();
        auto c = srg::conf(r, o);
        srg::Pc pc;
        std::string d = c.descr();
        dcgp::symbolic_regression s = srg::make(c);
        std::vector<V> xs;
        xs.push_back(srg::dv(r, c));
        for (unsigned i = r.u(1, 4); i > 0u; --i) xs.push_back(r.coin(0.6) ? srg::neighbour(r, c, r.pick(xs)) : srg::dv(r, c));
        // static description
        {
            auto lb = c.p.lb(), ub = c.p.ub();
            V wl(c.n_eph, -10.), wu(c.n_eph, 10.);
            wl.insert(wl.end(), lb.begin(), lb.end());
            wu.insert(wu.end(), ub.begin(), ub.end());
            auto b = s.get_bounds();
            if (b.first != wl || b.second != wu) violation("bounds", d + " " + vs(b.first) + " " + vs(b.second));
            if (s.get_nobj() != (c.mo ? 2u : 1u)) violation("number of objectives", d);
            if (s.get_nix() != c.p.size()) violation("number of integer variables", d + " " + str(s.get_nix()));
            pagmo::problem p(s);
            if (p.get_nx() != c.dim() || p.get_ncx() != c.n_eph || p.get_nix() != c.p.size() || p.get_nec() + p.get_nic() != 0u || p.is_stochastic())
                violation("problem dimensions", d);
            // any vector within the bounds is a model
            for (auto *e : {&wl, &wu}) {
                auto f = p.fitness(*e);
                if (f.size() != s.get_nobj()) violation("size of the fitness", d);
            }
        }
        bool judged = false;
        auto check_fitness = [&](const V &x, const V &f, const std::string &how) {
            if (f.size() != (c.mo ? 2u : 1u)) {
                violation("size of the fitness", d);
                return;
            }
            if (c.mo) {
                auto want = static_cast<double>(srg::prog_of(c, x).active_genes().size());
                if (f[1] != want) violation("complexity", d + " " + how + " x " + vs(x) + " expected " + str(want) + " got " + str(f[1]));
            }
            bool nf = false;
            auto t = srg::ref_loss(c, x, pc, nf);
            int v = ref::judge(t, f[0]);
            if (v == 0) violation("fitness", d + " " + how + " x " + vs(x) + " expected " + str(t.v) + " +- " + str(t.tol) + " got " + str(f[0]));
            if (v > 0 && t.ok) judged = true, count("fitness compared " + how);
            if (t.ok && nf) count("fitness compared with protected divisions");
        };
        for (unsigned step = r.u(3, 14); step > 0u; --step) {
            auto x = r.pick(xs);
            switch (r.u(0, 13)) {
                case 0:
                case 1:
                case 2: {
                    auto f = s.fitness(x);
                    d += " fitness";
                    check_fitness(x, f, "directly");
                    auto g = s.fitness(x);
                    if (c.par <= 2u && !same(f, g)) violation("two fitness calls in a row differ", d + " x " + vs(x));
                    break;
                }
                case 3:
                    d += " gradient";
                    s.gradient(x);
                    if (r.coin()) check_fitness(x, s.fitness(x), "after a gradient");
                    break;
                case 4:
                    d += " hessians";
                    s.hessians(x);
                    if (r.coin()) check_fitness(x, s.fitness(x), "after hessians");
                    break;
                case 5: {
                    d += " predict";
                    auto pt = gen::smooth_values(r, c.nin());
                    auto y = s.predict(pt, x);
                    auto p = srg::prog_of(c, x);
                    auto w = ref::conditioned_v([&] {
                        std::vector<ref::N> cst(x.begin(), x.begin() + c.n_eph);
                        V v;
                        for (auto &q : srg::outputs<ref::N>(c, p, cst, pt, pc)) v.push_back(q.v);
                        return v;
                    });
                    if (y.size() != c.p.m) violation("size of a prediction", d);
                    else
                        for (unsigned i = 0; i < c.p.m; ++i) {
                            int v = ref::judge(w[i], y[i]);
                            if (v == 0) violation("prediction", d + " x " + vs(x) + " at " + vs(pt) + " expected " + str(w[i].v) + " got " + str(y[i]));
                            if (v > 0) judged = true, count("predictions compared");
                        }
                    break;
                }
                case 6: {
                    d += " predict-all";
                    auto Y = s.predict(c.X, x);
                    if (Y.size() != c.X.size()) violation("number of predictions", d);
                    else
                        for (std::size_t i = 0; i < Y.size(); ++i)
                            if (!same(Y[i], s.predict(c.X[i], x))) violation("predictions of one and of several points differ", d);
                    break;
                }
                case 7:
                    d += " pretty";
                    if (srg::prog_of(c, x).formula_size() < 500.) s.pretty(x), s.prettier(x);
                    break;
                case 8: {
                    d += " copy";
                    dcgp::symbolic_regression t(s);
                    t.fitness(r.pick(xs));
                    if (r.coin()) t.gradient(r.pick(xs));
                    if (r.coin()) {
                        auto u = srg::make(c);
                        u.fitness(r.pick(xs));
                        if (pc.kind) u.set_phenotype_correction(srg::pc_fun<double>(pc), srg::pc_fun<audi::gdual_v>(pc));
                        s = r.coin() ? t : u;
                    } else
                        s = std::move(t);
                    break;
                }
                case 9: {
                    d += " problem";
                    pagmo::problem p(s);
                    p.fitness(r.pick(xs));
                    if (c.n_eph && r.coin()) p.gradient(r.pick(xs));
                    check_fitness(x, p.fitness(x), "through pagmo");
                    if (r.coin()) {
                        // a batch of decision vectors
                        V dvs;
                        for (auto &q : xs) dvs.insert(dvs.end(), q.begin(), q.end());
                        auto fs = pagmo::bfe{}(p, dvs);
                        for (std::size_t i = 0; i < xs.size(); ++i)
                            check_fitness(xs[i], V(fs.begin() + static_cast<long>(i * s.get_nobj()), fs.begin() + static_cast<long>((i + 1u) * s.get_nobj())), "in a batch");
                    }
                    if (r.coin()) {
                        pagmo::population pop(p, 3u, static_cast<unsigned>(r.u64()));
                        for (unsigned i = 0; i < 3u; ++i) check_fitness(pop.get_x()[i], pop.get_f()[i], "in a new population");
                    }
                    if (r.coin()) s = *p.extract<dcgp::symbolic_regression>();
                    break;
                }
                case 10: {
                    pc.kind = static_cast<int>(r.u(1, 2));
                    pc.k = r.real(-2., 2.);
                    d += " " + pc.descr();
                    s.set_phenotype_correction(srg::pc_fun<double>(pc), srg::pc_fun<audi::gdual_v>(pc));
                    if (r.coin()) check_fitness(x, s.fitness(x), "after a new correction");
                    break;
                }
                case 11:
                    pc = srg::Pc{};
                    d += " no correction";
                    s.unset_phenotype_correction();
                    if (r.coin()) check_fitness(x, s.fitness(x), "after dropping the correction");
                    break;
                case 12: {
                    d += " rejected";
                    auto bad = x;
                    if (r.coin()) bad.pop_back();
                    else bad[c.n_eph + r.u(0, static_cast<unsigned>(c.p.size()) - 1u)] = 1e6;
                    try {
                        if (r.coin()) s.fitness(bad);
                        else s.gradient(bad);
                        violation("an invalid model is accepted", d + " " + vs(bad));
                    } catch (const std::exception &) {
                    }
                    check_fitness(x, s.fitness(x), "after a rejected vector");
                    break;
                }
                default:
                    d += " mutated copy of the inner expression";
                    auto e = s.get_cgp();
                    e.mutate_active(3u);
                    if (r.coin()) xs.push_back(srg::neighbour(r, c, x));
            }
        }
        // the final state does not show the history
        auto fresh = srg::make(c);
        if (pc.kind) fresh.set_phenotype_correction(srg::pc_fun<double>(pc), srg::pc_fun<audi::gdual_v>(pc));
        for (auto &x : xs) {
            auto a = s.fitness(x), b = fresh.fitness(x);
            check_fitness(x, a, "at the end");
            bool nf = false;
            auto t = srg::ref_loss(c, x, pc, nf);
            if (!t.ok) continue;
            if (std::abs(a[0] - b[0]) > t.tol + 1e-9 * std::abs(b[0])) violation("fitness depends on the history", d + " x " + vs(x) + " " + str(a[0]) + " " + str(b[0]));
        }
        count("histories");
        evaluated(d, judged);
    });
}
