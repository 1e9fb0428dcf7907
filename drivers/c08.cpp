// C08: the loss of an expression is the documented average.
#include "srg.hpp"
#include <audi/audi.hpp>
using namespace vh;
using audi::gdual_d;
using audi::gdual_v;
using Mat = std::vector<std::vector<double>>;

static std::vector<double> label(Rng &r, unsigned m, bool ce)
{
    std::vector<double> y(m, 0.);
    if (!ce) return gen::values(r, m);
    if (r.coin()) y[r.u(0, m - 1u)] = 1.;
    else if (r.coin(0.7)) {
        double s = 0.;
        for (auto &q : y) s += q = r.real(0., 1.);
        for (auto &q : y) q /= s;
    } else
        for (auto &q : y) q = r.real(0., 2.); // not normalised: the formula still applies
    return y;
}
// average loss over points of the reference; p.x set
static ref::Cond truth(const ref::Prog &p, const std::vector<double> &cst, const std::vector<double> &w, const std::vector<double> &b, const Mat &X, const Mat &Y, const std::string &l)
{
    ref::nonfinite_node() = false;
    return ref::conditioned([&] {
        ref::N t(0.);
        for (std::size_t i = 0; i < X.size(); ++i) {
            std::vector<ref::N> in(X[i].begin(), X[i].end());
            in.insert(in.end(), cst.begin(), cst.end());
            t = t + srg::point_loss<ref::N>(l, p.eval<ref::N>(in, std::vector<ref::N>(w.begin(), w.end()), std::vector<ref::N>(b.begin(), b.end())), Y[i]);
        }
        return (t / ref::N(static_cast<double>(X.size()))).v;
    });
}
// outputs wired straight to the inputs: any vector of outputs can be asked for
static void direct(Rng &r)
{
    unsigned m = r.u(1, 6);
    bool ce = r.coin(0.8);
    double mag = std::pow(10., r.real(-3., ce ? 150. : 100.));
    if (r.coin(0.5)) mag = std::pow(10., r.real(-1., 4.));
    std::vector<double> a(m);
    for (auto &q : a) q = r.coin(0.2) ? 0. : r.coin() ? mag * r.real(-1., 1.) : r.real(-800., 800.);
    if (r.coin(0.2)) std::fill(a.begin(), a.end(), a[0]);
    auto y = label(r, m, ce);
    std::string l = ce ? "CE" : "MSE";
    long double want = 0.L, scale = 0.L;
    if (ce) {
        long double mx = *std::max_element(a.begin(), a.end()), s = 0.L;
        for (auto q : a) s += expl(static_cast<long double>(q) - mx);
        for (unsigned i = 0; i < m; ++i) {
            auto t = -(static_cast<long double>(a[i]) - mx - logl(s)) * y[i];
            want += t;
            scale += fabsl(t) + fabsl(a[i] * static_cast<long double>(y[i]) * 1e-5L) + 1e-5L * fabsl(mx) * y[i];
        }
    } else {
        for (unsigned i = 0; i < m; ++i) want += (static_cast<long double>(a[i]) - y[i]) * (static_cast<long double>(a[i]) - y[i]);
        want /= m;
        scale = want;
    }
    auto d = "outputs " + vs(a) + " label " + vs(y) + " " + l;
    auto judge = [&](const char *key, double got) {
        if (!std::isfinite(got) || std::abs(got - static_cast<double>(want)) > 1e-9 * static_cast<double>(scale) + 1e-12)
            violation(key, d + " gave " + str(got) + " should be " + str(static_cast<double>(want)));
        count("extreme outputs judged");
    };
    auto chrom = [&](auto &e) {
        auto x = e.get();
        for (unsigned i = 0; i < m; ++i) x[x.size() - m + i] = i;
        e.set(x);
    };
    auto lt = ce ? gen::plain_t::loss_type::CE : gen::plain_t::loss_type::MSE;
    dcgp::kernel_set<double> ks({"sum", "sig"});
    gen::plain_t e(m, m, 1, 2, 3, 2u, ks(), 0u, 1u);
    gen::weighted_t ew(m, m, 1, 2, 3, 2u, ks(), 1u);
    gen::ann_t ea(m, m, 1, 2, 3, 2u, ks(), 1u);
    chrom(e), chrom(ew), chrom(ea);
    judge("loss of extreme outputs", e.loss(a, y, lt));
    judge("loss of extreme outputs", ew.loss(a, y, lt));
    judge("loss of extreme outputs", ea.loss(a, y, lt));
    judge("loss of extreme outputs", e.loss(Mat{a}, Mat{y}, l));
    judge("loss of extreme outputs parallel", e.loss(Mat(4, a), Mat(4, y), l, 2u));
    double v = 0.;
    std::vector<double> gw(4, 0.), gb(2, 0.);
    ea.d_loss(v, gw, gb, a, y, lt);
    judge("loss of extreme outputs (d_loss)", v);
    dcgp::kernel_set<gdual_d> kg({"sum", "sig"});
    dcgp::expression<gdual_d> eg(m, m, 1, 2, 3, 2u, kg(), 0u, 1u);
    chrom(eg);
    std::vector<gdual_d> ga, gy;
    for (unsigned i = 0; i < m; ++i) ga.push_back(gdual_d(a[i], "x" + str(i), 1u));
    for (auto q : y) gy.push_back(gdual_d(q));
    auto g = eg.loss(ga, gy, ce ? dcgp::expression<gdual_d>::loss_type::CE : dcgp::expression<gdual_d>::loss_type::MSE);
    judge("loss of extreme outputs (gdual)", g.constant_cf());
    // derivative of the loss with respect to each output
    long double mx = *std::max_element(a.begin(), a.end()), s = 0.L, sy = 0.L;
    for (auto q : a) s += expl(static_cast<long double>(q) - mx);
    for (auto q : y) sy += q;
    unsigned ties = static_cast<unsigned>(std::count(a.begin(), a.end(), static_cast<double>(mx)));
    if (ties >= 1u && mag < 1e50)
        for (unsigned i = 0; i < m; ++i) {
            double w = ce ? static_cast<double>(sy * expl(a[i] - mx) / s - y[i]) : 2. * (a[i] - y[i]) / m;
            double got = g.get_order() ? g.get_derivative(std::unordered_map<std::string, unsigned>{{"dx" + str(i), 1u}}) : 0.;
            if (std::abs(got - w) > 1e-8 * (1. + std::abs(w))) violation("derivative of the loss (gdual)", d + " output " + str(i) + " gave " + str(got) + " should be " + str(w));
        }
    evaluated("direct " + d, true);
}
// objects that differ by one thing at a time, asked for the loss on a data set that lives as long as they do and is edited in place
template <typename E, typename T>
static void persistent(Rng &r)
{
    constexpr bool plain = std::is_same<E, dcgp::expression<T>>::value, ann = gen::is_ann<E>::value;
    std::vector<std::vector<T>> X, Y;
    Mat x, y;
    std::vector<std::vector<std::vector<double>>> pool; // points to choose from
    bool judged = false;
    unsigned np = r.u(1, 8);
    std::string edits;
    const bool one_type = r.coin(0.6), ce0 = r.coin();
    auto d = gen::twins<E, T>(r, [&](const E &e, const gen::TwinState &s) {
        auto conv = [](const std::vector<double> &v) { return std::vector<T>(v.begin(), v.end()); };
        if (x.empty())
            for (unsigned i = 0; i < np; ++i) {
                x.push_back(gen::smooth_values(r, s.pt.size()));
                y.push_back(label(r, s.p.m, true));
                X.push_back(conv(x.back()));
                Y.push_back(conv(y.back()));
            }
        if (r.coin(0.5)) { // in place, the vectors keep their addresses
            auto i = r.u(0, np - 1u);
            if (r.coin()) {
                auto j = r.u(0, static_cast<unsigned>(s.pt.size()) - 1u);
                x[i][j] = r.real(-1.5, 1.5);
                X[i][j] = T(x[i][j]);
                edits += "X" + str(i) + "," + str(j) + ";";
            } else {
                auto j = r.u(0, s.p.m - 1u);
                y[i][j] = r.real(0., 1.);
                Y[i][j] = T(y[i][j]);
                edits += "Y" + str(i) + "," + str(j) + ";";
            }
        }
        if (np > 1u && r.coin(0.1)) { // points exchanged
            auto i = r.u(1, np - 1u);
            std::swap(x[0], x[i]), std::swap(X[0], X[i]);
            edits += "swap" + str(i) + ";";
        }
        const bool ce = one_type ? ce0 : r.coin();
        const std::string l = ce ? "CE" : "MSE";
        auto t = truth(s.p, s.eph, plain ? std::vector<double>{} : s.w, ann ? s.b : std::vector<double>{}, x, y, l);
        if (!t.ok) return count("not_judged");
        unsigned par = 0;
        if (r.coin(0.3)) {
            par = r.u(1, np);
            while (np % par) --par;
        }
        auto val = [](const T &v) {
            if constexpr (std::is_same<T, double>::value) return v;
            else return v.constant_cf();
        };
        const auto w = s.where + " edits " + edits + " " + s.p.descr() + " " + l + " parallel " + str(par);
        const double g = val(e.loss(X, Y, l, par));
        if (ref::judge(t, g) == 0) violation("loss of a data set edited in place", w + " gave " + str(g) + " should be " + str(t.v));
        const auto k = r.u(0, np - 1u);
        auto tp = truth(s.p, s.eph, plain ? std::vector<double>{} : s.w, ann ? s.b : std::vector<double>{}, {x[k]}, {y[k]}, l);
        const double g1 = val(e.loss(X[k], Y[k], ce ? E::loss_type::CE : E::loss_type::MSE));
        if (tp.ok && ref::judge(tp, g1) == 0) violation("loss of a point edited in place", w + " gave " + str(g1) + " should be " + str(tp.v));
        count("losses of edited data judged");
        judged = true;
    });
    evaluated("persistent " + d + edits, judged);
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        if (c % 4 == 3) return direct(r);
        if (c % 12 == 4) {
            switch (r.u(0, 4)) {
                case 0: return persistent<gen::weighted_t, double>(r);
                case 1: return persistent<gen::ann_t, double>(r);
                case 2: return persistent<dcgp::expression<gdual_d>, gdual_d>(r);
                default: return persistent<gen::plain_t, double>(r);
            }
        }
        gen::Opt o;
        o.max_c = 5, o.max_r = 3;
        unsigned np = r.coin(0.04) ? r.u(13, 300) : r.u(1, 12);
        if (c % 3 == 2) { // gduals
            unsigned ne = r.u(0, 2);
            o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv"));
            auto p = gen::prog(r, o, ne);
            p.x = gen::chromosome(r, p);
            bool ce = r.coin();
            std::string l = ce ? "CE" : "MSE";
            Mat X, Y;
            for (unsigned i = 0; i < np; ++i) {
                X.push_back(gen::smooth_values(r, p.n - ne));
                Y.push_back(label(r, p.m, ce));
            }
            auto cst = gen::smooth_values(r, ne);
            auto t = truth(p, cst, {}, {}, X, Y, l);
            auto d = "gdual " + p.descr() + " constants " + vs(cst) + " " + l + " points " + str(np) + " first " + vs(X[0]);
            if (!t.ok || ref::nonfinite_node()) {
                count("not_judged");
                return;
            }
            dcgp::expression<gdual_d> e(p.n - ne, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_d>(p), ne, 3u);
            e.set(p.x);
            std::vector<gdual_d> ec;
            for (unsigned i = 0; i < ne; ++i) ec.push_back(gdual_d(cst[i], "c" + str(i + 1u), r.u(0, 2)));
            e.set_eph_val(ec);
            std::vector<std::vector<gdual_d>> GX, GY;
            for (auto &x : X) GX.emplace_back(x.begin(), x.end());
            for (auto &y : Y) GY.emplace_back(y.begin(), y.end());
            for (unsigned par = 0; par <= np; ++par)
                if (par == 0u || np % par == 0u) {
                    auto g = e.loss(GX, GY, l, par);
                    if (!ref::judge(t, g.constant_cf())) violation("gdual loss", d + " parallel " + str(par) + " gave " + str(g.constant_cf()) + " should be " + str(t.v));
                    count("gdual losses judged");
                }
            { // all the points at once
                dcgp::expression<gdual_v> ev(p.n - ne, p.m, p.r, p.c, p.l, p.arity, gen::kernels<gdual_v>(p), ne, 3u);
                ev.set(p.x);
                std::vector<gdual_v> vc, vx, vy;
                for (unsigned i = 0; i < ne; ++i) vc.push_back(gdual_v(cst[i], "c" + str(i + 1u), 1u));
                ev.set_eph_val(vc);
                auto col = [](const Mat &M, unsigned j) {
                    std::vector<double> q;
                    for (auto &row : M) q.push_back(row[j]);
                    return q;
                };
                for (unsigned j = 0; j < p.n - ne; ++j) vx.push_back(gdual_v(col(X, j)));
                for (unsigned j = 0; j < p.m; ++j) vy.push_back(gdual_v(col(Y, j)));
                {
                    auto g = ev.loss(vx, vy, ce ? dcgp::expression<gdual_v>::loss_type::CE : dcgp::expression<gdual_v>::loss_type::MSE).constant_cf();
                    double s = 0.;
                    for (unsigned i = 0; i < np; ++i) s += g.size() == 1u ? g[0] : g[i];
                    s /= np;
                    if (!ref::judge(t, s)) violation("vectorized gdual loss", d + " gave " + str(s) + " should be " + str(t.v));
                    count("vectorized losses judged");
                }
            }
            evaluated(d, true);
            return;
        }
        gen::with_expr(r, o, [&](auto &e, ref::Prog &p) {
            using E = std::decay_t<decltype(e)>;
            std::string hist;
            unsigned ops = r.u(0, 3);
            for (unsigned i = 0; i < ops; ++i) hist += gen::random_op(e, r, p) + ";";
            p.x = e.get();
            bool ce = r.coin();
            std::string l = ce ? "CE" : "MSE";
            Mat X, Y;
            for (unsigned i = 0; i < np; ++i) {
                X.push_back(gen::smooth_values(r, gen::n_in(e)));
                Y.push_back(label(r, p.m, ce));
            }
            auto d = std::string(gen::kind_name<E>()) + " " + p.descr() + " constants " + vs(e.get_eph_val()) + " w " + vs(gen::weights(e)) + " b " + vs(gen::biases(e)) + " " + l + " points "
                     + str(np) + " first " + vs(X[0]) + " after " + hist;
            auto before = gen::observe(e) + gen::future(e);
            auto t = truth(p, e.get_eph_val(), gen::weights(e), gen::biases(e), X, Y, l);
            if (!t.ok) count("not_judged");
            for (unsigned par = 0; par <= np; ++par)
                if (par == 0u || np % par == 0u) {
                    double g = e.loss(X, Y, l, par);
                    if (ref::judge(t, g) == 0) violation("loss", d + " parallel " + str(par) + " gave " + str(g) + " should be " + str(t.v));
                    count("losses judged", t.ok);
                }
            auto k = r.u(0, np - 1u);
            auto tp = truth(p, e.get_eph_val(), gen::weights(e), gen::biases(e), {X[k]}, {Y[k]}, l);
            double g = e.loss(X[k], Y[k], ce ? gen::plain_t::loss_type::CE : gen::plain_t::loss_type::MSE);
            if (ref::judge(tp, g) == 0) violation("loss of a point", d + " point " + str(k) + " gave " + str(g) + " should be " + str(tp.v));
            if (before != gen::observe(e) + gen::future(e)) violation("loss changed the expression", d);
            evaluated(d, t.ok);
        });
    });
}
