// C06: backpropagation returns the true gradient of the loss.
#include "gen.hpp"
using namespace vh;
using D1 = ref::Dual<ref::N>;
using LT = gen::plain_t::loss_type;

template <typename S>
static S ploss(bool ce, const std::vector<S> &o, const std::vector<double> &y)
{
    S t(0.);
    if (!ce) {
        for (std::size_t i = 0; i < o.size(); ++i) {
            S d = o[i] - S(y[i]);
            t = t + d * d;
        }
        return t / S(static_cast<double>(o.size()));
    }
    double mx = ref::val(o[0]);
    for (auto &q : o) mx = std::max(mx, ref::val(q));
    S s(0.);
    for (auto &q : o) s = s + exp(q - S(mx));
    S ls = log(s);
    for (std::size_t i = 0; i < o.size(); ++i) t = t - (o[i] - S(mx) - ls) * S(y[i]);
    return t;
}
using Mat = std::vector<std::vector<double>>;
// which: -1 loss itself, else index of the parameter (weights, then biases)
static ref::Cond truth(const ref::Prog &p, const std::vector<double> &w, const std::vector<double> &b, const Mat &X, const Mat &Y, bool ce, long which)
{
    auto c = ref::conditioned([&]() -> double {
        auto run = [&](auto zero) {
            using S = decltype(zero);
            std::vector<S> ws(w.begin(), w.end()), bs(b.begin(), b.end());
            if constexpr (!std::is_same<S, ref::N>::value) {
                auto &q = which < static_cast<long>(w.size()) ? ws[static_cast<std::size_t>(which)] : bs[static_cast<std::size_t>(which) - w.size()];
                q.b = ref::N(1.);
            }
            S t(0.);
            for (std::size_t i = 0; i < X.size(); ++i) t = t + ploss<S>(ce, p.eval<S>(std::vector<S>(X[i].begin(), X[i].end()), ws, bs), Y[i]);
            return t / S(static_cast<double>(X.size()));
        };
        if (which < 0) return run(ref::N(0.)).v;
        return ref::top(run(D1(0.)));
    });
    if (which >= 0 && ref::kink() < 1e-6) c.ok = false;
    c.nonfinite = false;
    c.tol += 1e-11 * (1. + ref::biggest());
    return c;
}
// networks that differ by one thing at a time, asked for the gradient at the same few points again and again
static void persistent(Rng &r)
{
    using E = gen::ann_t;
    bool judged = false;
    std::map<std::vector<double>, std::vector<double>> labels; // the label of each point
    auto d = gen::twins<E, double>(r, [&](E &e, const gen::TwinState &s) {
        auto &y = labels[s.pt];
        if (y.empty() || r.coin(0.15)) {
            y.assign(s.p.m, 0.);
            for (auto &q : y) q = r.real(0., 1.);
        }
        const bool ce = r.coin(0.3);
        const auto lt = ce ? LT::CE : LT::MSE;
        const Mat X{s.pt}, Y{y};
        double v = 0.;
        std::vector<double> gw(s.w.size(), 0.), gb(s.b.size(), 0.);
        if (r.coin()) e.d_loss(v, gw, gb, s.pt, y, lt);
        else std::tie(v, gw, gb) = e.d_loss(X, Y, lt, 0u);
        const auto w = s.where + " " + s.p.descr() + " w=" + vs(s.w) + " b=" + vs(s.b) + (ce ? " CE " : " MSE ") + vs(s.pt) + " label " + vs(y);
        auto l = truth(s.p, s.w, s.b, X, Y, ce, -1);
        if (l.ok && !ref::judge(l, v)) violation("loss of d_loss, same points again", w + " returned " + str(v) + " should be " + str(l.v));
        std::vector<long> which;
        for (auto id : s.p.active())
            if (id >= s.p.n) {
                for (unsigned a = 0; a < s.p.ar(id); ++a) which.push_back(static_cast<long>(s.p.wpos(id) + a));
                which.push_back(static_cast<long>(s.w.size() + id - s.p.n));
            }
        r.shuffle(which);
        if (which.size() > 5u) which.resize(5u);
        for (auto k : which) {
            auto t = truth(s.p, s.w, s.b, X, Y, ce, k);
            if (!t.ok) continue;
            const double got = k < static_cast<long>(s.w.size()) ? gw[static_cast<std::size_t>(k)] : gb[static_cast<std::size_t>(k) - s.w.size()];
            if (!ref::judge(t, got)) violation("gradient, same points again", w + " parameter " + str(k) + " has " + str(got) + " should be " + str(t.v));
            count("twin entries compared");
            judged = true;
        }
    });
    evaluated("persistent " + d, judged);
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        if (c % 12 == 7) return persistent(r);
        gen::Opt o;
        o.max_c = 5, o.max_r = 4, o.max_m = 4;
        if (c % 10 == 9) o.max_c = 9, o.max_r = 6, o.max_arity = 5;
        gen::with_expr(
            r, o,
            [&](auto &e, ref::Prog &p) {
                using E = std::decay_t<decltype(e)>;
                if constexpr (gen::is_ann<E>::value) {
                    std::string hist;
                    unsigned ops = r.u(0, 4);
                    for (unsigned i = 0; i < ops; ++i) hist += gen::random_op(e, r, p) + ";";
                    if (r.coin(0.2)) {
                        auto nm = r.pick(p.f);
                        try {
                            e.set_output_f(nm);
                            hist += "set_output_f(" + nm + ");";
                        } catch (const std::exception &) {
                        }
                    }
                    if (r.coin(0.3)) {
                        e.randomise_weights(0., 1., static_cast<unsigned>(r.u64()));
                        e.randomise_biases(0., 1., static_cast<unsigned>(r.u64()));
                        hist += "randomise;";
                    }
                    if (r.coin(0.2)) { // through a copy
                        E copy(e);
                        e.mutate_random(4u);
                        e.set_weights(std::vector<double>(e.get_weights().size(), 0.5));
                        e = copy;
                        hist += "copy;";
                    }
                    const bool sp = r.coin(0.4);
                    if (sp) {
                        e.set_weights(gen::special(r, e.get_weights()));
                        e.set_biases(gen::special(r, e.get_biases()));
                        hist += "special;";
                    }
                    p.x = e.get();
                    auto w = e.get_weights(), b = e.get_biases();
                    bool ce = r.coin();
                    auto lt = ce ? LT::CE : LT::MSE;
                    unsigned np = r.coin(0.4) ? 1u : r.coin(0.03) ? r.u(7, 130) : r.u(2, 6);
                    Mat X, Y;
                    for (unsigned i = 0; i < np; ++i) {
                        X.push_back(gen::smooth_values(r, p.n));
                        if (sp) X.back() = gen::special(r, X.back());
                        std::vector<double> y(p.m, 0.);
                        if (ce) {
                            if (r.coin(0.2)) y = gen::special(r, gen::smooth_values(r, p.m)); // any numbers
                            else if (r.coin()) y[r.u(0, p.m - 1u)] = 1.;
                            else {
                                double s = 0.;
                                for (auto &q : y) s += q = r.real(0.05, 1.);
                                for (auto &q : y) q /= s;
                            }
                        } else
                            y = gen::special(r, gen::smooth_values(r, p.m), sp ? 0.25 : 0.);
                        Y.push_back(y);
                    }
                    auto descr = p.descr() + " w=" + vs(w) + " b=" + vs(b) + " loss " + (ce ? "CE" : "MSE") + " points " + str(np) + " first " + vs(X[0]) + " label " + vs(Y[0]) + " after " + hist;
                    auto before = gen::observe(e);
                    unsigned par = 0;
                    if (r.coin(0.6)) {
                        std::vector<unsigned> d;
                        for (unsigned q = 1; q <= np; ++q)
                            if (np % q == 0u) d.push_back(q);
                        par = r.pick(d);
                    }
                    auto res = e.d_loss(X, Y, lt, par);
                    auto &gw = std::get<1>(res);
                    auto &gb = std::get<2>(res);
                    if (gw.size() != w.size() || gb.size() != b.size()) {
                        violation("gradient size", descr);
                        return;
                    }
                    auto l = truth(p, w, b, X, Y, ce, -1);
                    bool nontriv = false;
                    if (l.ok) {
                        if (!ref::judge(l, std::get<0>(res))) violation("loss of d_loss", descr + " returned " + str(std::get<0>(res)) + " should be " + str(l.v));
                        double own = e.loss(X, Y, ce ? "CE" : "MSE", par);
                        if (!ref::judge(l, own)) violation("loss", descr + " returned " + str(own) + " should be " + str(l.v));
                    }
                    auto act = p.active();
                    for (unsigned id = p.n; id < p.n + p.r * p.c; ++id)
                        if (!act.count(id)) {
                            for (unsigned a = 0; a < p.ar(id); ++a)
                                if (gw[p.wpos(id) + a] != 0.) violation("gradient of an inactive weight", descr + " node " + str(id) + " has " + str(gw[p.wpos(id) + a]));
                            if (gb[id - p.n] != 0.) violation("gradient of an inactive bias", descr + " node " + str(id) + " has " + str(gb[id - p.n]));
                        }
                    std::vector<long> which;
                    for (auto id : act)
                        if (id >= p.n) {
                            for (unsigned a = 0; a < p.ar(id); ++a) which.push_back(static_cast<long>(p.wpos(id) + a));
                            which.push_back(static_cast<long>(w.size() + id - p.n));
                        }
                    r.shuffle(which);
                    if (which.size() > 24u) which.resize(24u);
                    for (auto k : which) {
                        auto t = truth(p, w, b, X, Y, ce, k);
                        double got = k < static_cast<long>(w.size()) ? gw[static_cast<std::size_t>(k)] : gb[static_cast<std::size_t>(k) - w.size()];
                        if (!t.ok) {
                            count("entries_not_judged");
                            continue;
                        }
                        count("entries_compared");
                        if (t.v != 0.) nontriv = true;
                        if (!ref::judge(t, got))
                            violation(k < static_cast<long>(w.size()) ? "weight gradient" : "bias gradient",
                                      descr + " parameter " + str(k) + " has " + str(got) + " should be " + str(t.v) + " +- " + str(t.tol) + " parallel " + str(par));
                    }
                    // single points: added to what is there, and their average is the result on the set
                    double v = 0.25;
                    std::vector<double> sw(w.size(), 0.), sb(b.size(), 0.);
                    auto off = r.coin() ? r.real(-1., 1.) : 0.;
                    for (auto &q : sw) q = off;
                    for (auto &q : sb) q = off;
                    for (unsigned i = 0; i < np; ++i) e.d_loss(v, sw, sb, X[i], Y[i], lt);
                    // scale of the rounding errors: sum of the absolute contributions
                    double sv = 0.;
                    std::vector<double> aw(w.size(), 0.), ab(b.size(), 0.);
                    for (unsigned i = 0; i < np; ++i) {
                        double v1 = 0.;
                        std::vector<double> w1(w.size(), 0.), b1(b.size(), 0.);
                        e.d_loss(v1, w1, b1, X[i], Y[i], lt);
                        sv += std::abs(v1);
                        for (std::size_t k = 0; k < w1.size(); ++k) aw[k] += std::abs(w1[k]);
                        for (std::size_t k = 0; k < b1.size(); ++k) ab[k] += std::abs(b1[k]);
                    }
                    auto differ = [&](double a, double z, double scale) {
                        if (!std::isfinite(a) || !std::isfinite(z) || !std::isfinite(scale)) return false;
                        return std::abs(a - z) > 1e-10 * scale + 1e-14;
                    };
                    auto avg = [&](double s, double o0, double g, double scale, const char *what) {
                        if (differ((s - o0) / np, g, scale + std::abs(o0)))
                            violation("average over the points", descr + " " + what + " " + str((s - o0) / np) + " against " + str(g));
                    };
                    avg(v, 0.25, std::get<0>(res), sv, "loss");
                    for (std::size_t i = 0; i < sw.size(); ++i) avg(sw[i], off, gw[i], aw[i], "weight gradient");
                    for (std::size_t i = 0; i < sb.size(); ++i) avg(sb[i], off, gb[i], ab[i], "bias gradient");
                    // the degree of parallelism does not matter
                    for (unsigned q = 0; q <= np; ++q)
                        if (q == 0u || np % q == 0u) {
                            auto o2 = e.d_loss(X, Y, lt, q);
                            auto cl = [&](double a, double z, double scale) {
                                if (differ(a, z, scale)) violation("parallel", descr + " parallel " + str(q) + ": " + str(a) + " against " + str(z));
                            };
                            cl(std::get<0>(o2), std::get<0>(res), sv);
                            for (std::size_t i = 0; i < gw.size(); ++i) cl(std::get<1>(o2)[i], gw[i], aw[i]);
                            for (std::size_t i = 0; i < gb.size(); ++i) cl(std::get<2>(o2)[i], gb[i], ab[i]);
                            count("parallel_comparisons");
                        }
                    if (before != gen::observe(e)) violation("d_loss changed the expression", descr);
                    // unique weights: parallel connections between the same two nodes count once
                    std::set<std::pair<unsigned, unsigned>> uq;
                    unsigned tot = 0;
                    for (auto id : act)
                        if (id >= p.n)
                            for (unsigned a = 0; a < p.ar(id); ++a) {
                                ++tot;
                                uq.insert({p.x[p.pos(id) + 1u + a], id});
                            }
                    (void)uq;
                    if (e.n_active_weights(false) != tot) violation("n_active_weights", descr + " reports " + str(e.n_active_weights(false)) + " instead of " + str(tot));
                    evaluated(descr, nontriv);
                }
            },
            2);
    });
}
