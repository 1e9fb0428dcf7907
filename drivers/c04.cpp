// C04: invalid requests on expressions and kernel sets are rejected and leave the object as it was.
#include "gen.hpp"
using namespace vh;

template <typename F>
static void must_throw(const std::string &key, const std::string &what, F &&f)
{
    try {
        f();
    } catch (const std::exception &) {
        count("rejected " + key);
        return;
    }
    violation("accepted " + key, what);
}
// after the rejected calls the object still does what it should
template <typename E>
static void usable(E &e, ref::Prog &p, Rng &r, const std::string &hist)
{
    auto d = gen::random_op(e, r, p);
    p.x = e.get();
    std::vector<double> pt = gen::smooth_values(r, gen::n_in(e));
    auto want = gen::expected(e, p, pt);
    auto got = e(pt);
    for (std::size_t i = 0; i < got.size(); ++i)
        if (ref::judge(want[i], got[i]) == 0) violation("unusable after rejection", p.descr() + " after " + hist + d + " gives " + str(got[i]) + " instead of " + str(want[i].v));
    auto an = p.active();
    if (std::vector<unsigned>(an.begin(), an.end()) != e.get_active_nodes()) violation("unusable after rejection", p.descr() + " after " + hist + d + " active nodes");
}
static void constructors(Rng &r)
{
    gen::Opt o;
    int kind = static_cast<int>(r.u(0, 2));
    o.uniform_arity = true;
    o.kernels = ref::ann_kernels();
    auto p = gen::prog(r, o);
    auto ks = gen::kernels<double>(p);
    std::string bad;
    bool vec = r.coin();
    unsigned a = p.arity[0], ne = kind == 0 ? r.u(0, 3) : 0u;
    auto av = p.arity;
    for (auto &q : av) q = r.u(1, 4);
    switch (r.u(0, kind == 2 ? 8 : 7)) {
        case 0: p.n = 0; ne = 0; bad = "n=0"; break;
        case 1: p.m = 0; bad = "m=0"; break;
        case 2: p.r = 0; bad = "r=0"; break;
        case 3:
            p.c = 0;
            av.clear();
            bad = "c=0";
            break;
        case 4: p.l = 0; bad = "l=0"; break;
        case 5:
            vec = true;
            if (r.coin()) av.push_back(1u);
            else av.pop_back();
            bad = "arity size";
            break;
        case 6:
            a = 0;
            r.pick(av) = 0;
            bad = "arity 0";
            break;
        case 7: ks.clear(); bad = "no kernels"; break;
        default: {
            std::vector<std::string> no;
            for (auto &q : ref::all_kernels())
                if (std::find(o.kernels.begin(), o.kernels.end(), q) == o.kernels.end()) no.push_back(q);
            auto nm = r.pick(no);
            dcgp::kernel_set<double> s(std::vector<std::string>{nm});
            ks.insert(ks.begin() + r.u(0, static_cast<unsigned>(ks.size())), s[0]);
            bad = "kernel " + nm;
        }
    }
    auto seed = static_cast<unsigned>(r.u64());
    auto d = std::string(kind == 0 ? "expression " : kind == 1 ? "weighted " : "ann ") + (vec ? "vector arity " : "") + bad + " " + p.descr();
    must_throw("constructor " + bad.substr(0, 6), d, [&] {
        if (kind == 0) {
            if (vec) gen::plain_t(p.n, p.m, p.r, p.c, p.l, av, ks, ne, seed);
            else gen::plain_t(p.n, p.m, p.r, p.c, p.l, a, ks, ne, seed);
        } else if (kind == 1) {
            if (vec) gen::weighted_t(p.n, p.m, p.r, p.c, p.l, av, ks, seed);
            else gen::weighted_t(p.n, p.m, p.r, p.c, p.l, a, ks, seed);
        } else {
            if (vec) gen::ann_t(p.n, p.m, p.r, p.c, p.l, av, ks, seed);
            else gen::ann_t(p.n, p.m, p.r, p.c, p.l, a, ks, seed);
        }
    });
    evaluated(d, true);
}
static void sets(Rng &r)
{
    auto ks = ref::all_kernels();
    r.shuffle(ks);
    ks.resize(r.u(0, 6));
    dcgp::kernel_set<double> s(ks);
    static const std::vector<std::string> junk{"", "foo", "SUM", "sum ", " sum", "relu", "Sum", "pow", "sin_", "nu", "tanh_nu", "sigmoid", "1", "max"};
    auto j = r.pick(junk);
    auto all = ks;
    all.insert(all.begin() + r.u(0, static_cast<unsigned>(all.size())), j);
    must_throw("kernel_set(names)", vs(all), [&] { dcgp::kernel_set<double> x(all); });
    must_throw("kernel_set.push_back", j, [&] { s.push_back(j); });
    auto v = s();
    bool ok = v.size() == ks.size();
    for (std::size_t i = 0; ok && i < ks.size(); ++i) ok = v[i].get_name() == ks[i];
    if (!ok) violation("kernel_set changed by rejected push_back", vs(ks) + " + " + j);
    evaluated("kernel_set " + vs(ks) + " + '" + j + "'", true);
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        if (c % 10 == 8) return constructors(r);
        if (c % 10 == 9) return sets(r);
        gen::Opt o;
        o.max_m = 3;
        gen::with_expr(r, o, [&](auto &e, ref::Prog &p) {
            using E = std::decay_t<decltype(e)>;
            std::string hist;
            unsigned steps = r.u(1, 10);
            for (unsigned s = 0; s < steps; ++s) {
                if (r.coin(0.2)) {
                    hist += gen::random_op(e, r, p) + ";";
                    p.x = e.get();
                }
                auto before = gen::observe(e);
                bool threw = false;
                auto d = gen::bad_op(e, r, p, threw);
                auto name = d.substr(0, d.find('('));
                count("rejected " + name);
                if (!threw) violation("accepted " + name, std::string(gen::kind_name<E>()) + " " + p.descr() + " accepted " + d);
                auto after = gen::observe(e);
                if (before != after)
                    violation("changed by rejected " + name, std::string(gen::kind_name<E>()) + " " + p.descr() + " after " + d + ":\n" + before + "\nbecame\n" + after);
                hist += d + ";";
                if (!threw) return;
            }
            // evaluation and loss on points of the wrong size
            std::vector<double> pt = gen::smooth_values(r, gen::n_in(e) + 1u), lab(e.get_m(), 0.3);
            if (r.coin()) {
                pt.pop_back();
                pt.pop_back();
            }
            must_throw("operator()", p.descr(), [&] { e(pt); });
            must_throw("operator()(names)", p.descr(), [&] { e(std::vector<std::string>(pt.size(), "x")); });
            must_throw("loss(point)", p.descr(), [&] { e.loss(pt, lab, gen::plain_t::loss_type::MSE); });
            pt.resize(gen::n_in(e), 0.2);
            lab.push_back(1.);
            must_throw("loss(label)", p.descr(), [&] { e.loss(pt, lab, gen::plain_t::loss_type::CE); });
            if constexpr (gen::is_ann<E>::value) {
                lab.pop_back();
                std::vector<double> gw(p.n_weights(), 0.), gb(p.r * p.c, 0.);
                double v = 0.;
                auto w1 = gw;
                auto b1 = gb;
                if (r.coin()) w1.push_back(0.);
                else b1.pop_back();
                must_throw("d_loss(sizes)", p.descr(), [&] { e.d_loss(v, w1, b1, pt, lab, gen::plain_t::loss_type::MSE); });
                // data is not touched by a rejected training call
                std::vector<std::vector<double>> X(3, std::vector<double>(e.get_n(), 0.)), Y(2, std::vector<double>(e.get_m(), 0.));
                for (auto &q : X) q = gen::values(r, e.get_n());
                for (auto &q : Y) q = gen::values(r, e.get_m());
                if (r.coin()) {
                    Y.push_back(Y[0]);
                    auto X0 = X;
                    auto Y0 = Y;
                    int which = static_cast<int>(r.u(0, 2));
                    must_throw("sgd", p.descr() + " case " + str(which), [&] { e.sgd(X, Y, which == 0 ? -1. : 0.1, which == 1 ? 0u : 2u, which == 2 ? "XX" : "MSE", 0u, true); });
                    if (X != X0 || Y != Y0) violation("data changed by rejected sgd", p.descr());
                } else {
                    auto X0 = X;
                    auto Y0 = Y;
                    must_throw("sgd", p.descr() + " sizes", [&] { e.sgd(X, Y, 0.1, 2u, "MSE", 0u, true); });
                    if (X != X0 || Y != Y0) violation("data changed by rejected sgd", p.descr());
                }
            }
            usable(e, p, r, hist);
            evaluated(std::string(gen::kind_name<E>()) + " " + p.descr() + " " + hist, true);
        });
    });
}
