// C07: one call to sgd is one epoch of mini-batch gradient descent over the data.
#include "gen.hpp"
using namespace vh;
using LT = gen::plain_t::loss_type;
using Mat = std::vector<std::vector<double>>;

struct Track {
    std::vector<double> w, b, sw, sb; // parameters and the scale of what was summed into them
    double ret = 0., sret = 0.;
    bool finite = true;
};
// the documented epoch, from the gradients at single points
static Track epoch(gen::ann_t e, const Mat &X, const Mat &Y, double lr, unsigned bs, LT lt)
{
    Track t;
    t.w = e.get_weights();
    t.b = e.get_biases();
    t.sw.resize(t.w.size());
    t.sb.resize(t.b.size());
    for (std::size_t i = 0; i < t.w.size(); ++i) t.sw[i] = std::abs(t.w[i]);
    for (std::size_t i = 0; i < t.b.size(); ++i) t.sb[i] = std::abs(t.b[i]);
    unsigned batches = 0;
    for (std::size_t i = 0; i < X.size(); ++batches) {
        auto n = std::min<std::size_t>(bs, X.size() - i);
        double v = 0.;
        std::vector<double> gw(t.w.size(), 0.), gb(t.b.size(), 0.);
        for (std::size_t j = i; j < i + n; ++j) {
            double v1 = 0.;
            std::vector<double> w1(t.w.size(), 0.), b1(t.b.size(), 0.);
            e.d_loss(v1, w1, b1, X[j], Y[j], lt);
            v += v1;
            t.sret += std::abs(v1) / static_cast<double>(n);
            for (std::size_t k = 0; k < gw.size(); ++k) {
                gw[k] += w1[k];
                t.sw[k] += lr * std::abs(w1[k]) / static_cast<double>(n);
            }
            for (std::size_t k = 0; k < gb.size(); ++k) {
                gb[k] += b1[k];
                t.sb[k] += lr * std::abs(b1[k]) / static_cast<double>(n);
            }
        }
        t.ret += v / static_cast<double>(n);
        for (std::size_t k = 0; k < gw.size(); ++k) {
            t.w[k] -= lr * gw[k] / static_cast<double>(n);
            t.finite = t.finite && std::isfinite(t.w[k]) && std::abs(t.w[k]) < 1e6;
        }
        for (std::size_t k = 0; k < gb.size(); ++k) {
            t.b[k] -= lr * gb[k] / static_cast<double>(n);
            t.finite = t.finite && std::isfinite(t.b[k]) && std::abs(t.b[k]) < 1e6;
        }
        e.set_weights(t.w);
        e.set_biases(t.b);
        i += n;
    }
    t.ret /= batches;
    t.finite = t.finite && std::isfinite(t.ret);
    return t;
}
// how much the outcome moves when the starting point is disturbed by rounding errors
static Track sensitivity(const gen::ann_t &e, const Mat &X, const Mat &Y, double lr, unsigned bs, LT lt, const Track &t)
{
    gen::ann_t d(e);
    auto w = d.get_weights(), b = d.get_biases();
    for (std::size_t i = 0; i < w.size(); ++i) w[i] *= 1. + (i % 2 ? 1e-10 : -1e-10);
    for (std::size_t i = 0; i < b.size(); ++i) b[i] *= 1. + (i % 3 ? 1e-10 : -1e-10);
    d.set_weights(w);
    d.set_biases(b);
    auto q = epoch(d, X, Y, lr, bs, lt);
    for (std::size_t i = 0; i < w.size(); ++i) q.w[i] = std::abs(q.w[i] - t.w[i]);
    for (std::size_t i = 0; i < b.size(); ++i) q.b[i] = std::abs(q.b[i] - t.b[i]);
    q.ret = std::abs(q.ret - t.ret);
    return q;
}
static std::multiset<std::pair<std::vector<double>, std::vector<double>>> pairs(const Mat &X, const Mat &Y)
{
    std::multiset<std::pair<std::vector<double>, std::vector<double>>> s;
    for (std::size_t i = 0; i < X.size() && i < Y.size(); ++i) s.insert({X[i], Y[i]});
    return s;
}
static void shuffling(gen::ann_t &e, const ref::Prog &p, Rng &r)
{
    Mat X, Y;
    unsigned n = r.coin(0.2) ? r.u(17, 24) : r.u(2, 6);
    for (unsigned i = 0; i < n; ++i) {
        X.push_back(gen::smooth_values(r, p.n));
        X.back()[0] = i;
        Y.push_back(std::vector<double>(p.m, i));
    }
    std::set<std::pair<unsigned, unsigned>> seen;
    unsigned T = 60u * n;
    for (unsigned t = 0; t < T; ++t) {
        auto x = X;
        auto y = Y;
        e.sgd(x, y, 1e-12, n, "MSE");
        for (unsigned i = 0; i < n; ++i) {
            seen.insert({i, static_cast<unsigned>(x[i][0])});
            if (x[i][0] != y[i][0]) violation("labels separated from their points", p.descr());
        }
    }
    count("shuffling_campaigns");
    if (seen.size() != n * n) violation("shuffling", p.descr() + ": in " + str(T) + " epochs over " + str(n) + " points only " + str(seen.size()) + " (position, point) pairs occurred");
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        gen::Opt o;
        o.max_c = 4, o.max_r = 3, o.max_m = 3;
        gen::with_expr(
            r, o,
            [&](auto &e, ref::Prog &p) {
                using E = std::decay_t<decltype(e)>;
                if constexpr (gen::is_ann<E>::value) {
                    unsigned ops = r.u(0, 3);
                    std::string hist;
                    for (unsigned i = 0; i < ops; ++i) hist += gen::random_op(e, r, p) + ";";
                    if (r.coin(0.3)) {
                        e.set_weights(gen::special(r, e.get_weights()));
                        e.set_biases(gen::special(r, e.get_biases()));
                    }
                    p.x = e.get();
                    if (c % 50 == 0) {
                        E s(e);
                        shuffling(s, p, r);
                    }
                    bool ce = r.coin();
                    unsigned np = r.coin(0.03) ? r.u(13, 150) : r.u(1, 12);
                    Mat X, Y;
                    for (unsigned i = 0; i < np; ++i) {
                        X.push_back(gen::smooth_values(r, p.n));
                        std::vector<double> y(p.m, 0.);
                        if (ce && r.coin(0.8)) y[r.u(0, p.m - 1u)] = 1.;
                        else y = gen::special(r, gen::smooth_values(r, p.m), 0.1);
                        Y.push_back(y);
                    }
                    if (np > 2u && r.coin(0.2)) { // duplicated points with different labels
                        X[1] = X[0];
                    }
                    unsigned epochs = r.u(1, 3);
                    for (unsigned ep = 0; ep < epochs; ++ep) {
                        unsigned bs = r.coin(0.1) ? np + r.u(0, 5) : r.u(1, np);
                        bool shuffle = r.coin();
                        double lr = r.coin(0.2) ? r.real(0.5, 2.) : r.real(1e-3, 0.3);
                        std::vector<unsigned> d{0u};
                        for (unsigned q = 1; q <= np; ++q)
                            if (np % bs % q == 0u && (np < bs || bs % q == 0u)) d.push_back(q);
                        unsigned par = r.coin() ? 0u : r.pick(d);
                        E before(e);
                        auto x = X;
                        auto y = Y;
                        auto lt = ce ? LT::CE : LT::MSE;
                        double ret = e.sgd(x, y, lr, bs, ce ? "CE" : "MSE", par, shuffle);
                        auto descr = p.descr() + " w=" + vs(before.get_weights()) + " b=" + vs(before.get_biases()) + (ce ? " CE" : " MSE") + " points " + str(np) + " batch " + str(bs)
                                     + " lr " + str(lr) + " parallel " + str(par) + (shuffle ? " shuffled" : "") + " epoch " + str(ep) + " after " + hist;
                        if (!shuffle && (x != X || y != Y)) violation("data reordered", descr);
                        if (pairs(X, Y) != pairs(x, y) || x.size() != y.size() || x.size() != X.size()) {
                            violation("data changed", descr);
                            return;
                        }
                        if (e.get() != before.get()) violation("chromosome changed", descr);
                        auto w = e.get_weights(), b = e.get_biases();
                        auto act = p.active();
                        for (unsigned id = p.n; id < p.n + p.r * p.c; ++id)
                            if (!act.count(id)) {
                                for (unsigned a = 0; a < p.ar(id); ++a)
                                    if (w[p.wpos(id) + a] != before.get_weights()[p.wpos(id) + a]) violation("inactive weight changed", descr + " node " + str(id));
                                if (b[id - p.n] != before.get_biases()[id - p.n]) violation("inactive bias changed", descr + " node " + str(id));
                            }
                        auto t = epoch(before, x, y, lr, bs, lt);
                        auto s = sensitivity(before, x, y, lr, bs, lt, t);
                        bool moved = false;
                        if (!t.finite || !s.finite) count("epochs_not_judged");
                        else {
                            auto bad = [&](double got, double want, double scale, double sens) {
                                if (sens > 1e-4 * (1. + std::abs(want))) return false; // chaotic
                                return !(std::abs(got - want) <= 1e-10 * scale + 50. * sens + 1e-14);
                            };
                            count("epochs_judged");
                            count("batches", (np + bs - 1u) / bs);
                            for (std::size_t i = 0; i < w.size(); ++i) {
                                if (w[i] != before.get_weights()[i]) moved = true;
                                if (bad(w[i], t.w[i], t.sw[i], s.w[i])) {
                                    violation("weights after the epoch", descr + " weight " + str(i) + " is " + str(w[i]) + " should be " + str(t.w[i]));
                                    break;
                                }
                            }
                            for (std::size_t i = 0; i < b.size(); ++i) {
                                if (b[i] != before.get_biases()[i]) moved = true;
                                if (bad(b[i], t.b[i], t.sb[i], s.b[i])) {
                                    violation("biases after the epoch", descr + " bias " + str(i) + " is " + str(b[i]) + " should be " + str(t.b[i]));
                                    break;
                                }
                            }
                            if (bad(ret, t.ret, t.sret, s.ret)) violation("returned loss", descr + " returned " + str(ret) + " should be " + str(t.ret));
                        }
                        evaluated(descr, moved);
                        X = x;
                        Y = y;
                        if (!t.finite) break;
                    }
                    // rejections leave everything alone
                    auto ob = gen::observe(e);
                    auto x = X, y = Y;
                    bool threw = false;
                    auto what = r.u(0, 5);
                    try {
                        switch (what) {
                            case 0: e.sgd(x, y, 0.1, 0u, "MSE", 0u, true); break;
                            case 1: y.pop_back(); e.sgd(x, y, 0.1, 1u, "MSE", 0u, true); break;
                            case 2: e.sgd(x, y, 0., 1u, "MSE", 0u, true); break;
                            case 3: e.sgd(x, y, 0.1, 1u, "mse", 0u, true); break;
                            case 4: x.back().push_back(1.); e.sgd(x, y, 0.1, 1u, "MSE", 0u, false); break;
                            default: y.back().clear(); e.sgd(x, y, 0.1, 1u, "CE", 0u, false);
                        }
                    } catch (const std::exception &) {
                        threw = true;
                    }
                    if (!threw) violation("accepted", "misuse " + str(what) + " " + p.descr());
                    if (ob != gen::observe(e)) violation("changed by a rejected call", "misuse " + str(what) + " " + p.descr());
                    if (what != 4 && x != X) violation("data changed by a rejected call", "misuse " + str(what) + " " + p.descr());
                    if ((what == 0 || what == 2 || what == 3 || what == 4) && y != Y) violation("data changed by a rejected call", "misuse " + str(what) + " " + p.descr());
                }
            },
            2);
    });
}
