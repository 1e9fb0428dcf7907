// Reference loss of a symbolic regression model, phenotype correction included, over any number type.
#ifndef SRREF_HPP
#define SRREF_HPP
#include "srg.hpp"
namespace srg
{
// outputs -> k * outputs + x0 (kind 1), outputs at a shifted point (kind 2)
struct Pc {
    int kind = 0;
    double k = 1.;
    std::string descr() const { return kind ? "correction " + std::to_string(kind) + " k=" + vh::str(k) : "no correction"; }
};
template <typename S>
std::vector<S> outputs(const Conf &c, const ref::Prog &p, const std::vector<S> &cst, const std::vector<double> &pt, const Pc &pc)
{
    (void)c;
    std::vector<S> in(pt.begin(), pt.end());
    if (pc.kind == 2)
        for (auto &q : in) q = q * S(pc.k);
    in.insert(in.end(), cst.begin(), cst.end());
    auto o = p.template eval<S>(in);
    if (pc.kind == 1)
        for (auto &q : o) q = q * S(pc.k) + S(pt[0]);
    return o;
}
template <typename S>
S loss_of(const Conf &c, const ref::Prog &p, const std::vector<S> &cst, const Pc &pc)
{
    S t(0.);
    for (std::size_t i = 0; i < c.X.size(); ++i) t = t + point_loss<S>(c.loss, outputs<S>(c, p, cst, c.X[i], pc), c.Y[i]);
    return t / S(static_cast<double>(c.X.size()));
}
// also tells whether some node was not finite (protected divisions differ from divisions there)
inline ref::Cond ref_loss(const Conf &c, const std::vector<double> &x, const Pc &pc, bool &nonfinite_node)
{
    auto p = prog_of(c, x);
    ref::nonfinite_node() = false;
    auto r = ref::conditioned([&] {
        std::vector<ref::N> cst(x.begin(), x.begin() + c.n_eph);
        return loss_of<ref::N>(c, p, cst, pc).v;
    });
    nonfinite_node = ref::nonfinite_node();
    return r;
}
// partial derivative along the directions of dir (one or two indexes of constants)
template <typename S>
double partial(const Conf &c, const ref::Prog &p, const std::vector<double> &x, const std::vector<unsigned> &dir, const Pc &pc)
{
    std::vector<S> cst;
    for (unsigned i = 0; i < c.n_eph; ++i) {
        bool b[3] = {false, false, false};
        for (std::size_t k = 0; k < dir.size(); ++k) b[k] = dir[k] == i;
        cst.push_back(ref::Seed<S>::make(x[i], b));
    }
    return ref::top(loss_of<S>(c, p, cst, pc));
}
inline ref::Cond ref_partial(const Conf &c, const std::vector<double> &x, const std::vector<unsigned> &dir, const Pc &pc)
{
    using D1 = ref::Dual<ref::N>;
    using D2 = ref::Dual<D1>;
    auto p = prog_of(c, x);
    ref::nonfinite_node() = false;
    auto r = ref::conditioned([&] { return dir.size() == 1u ? partial<D1>(c, p, x, dir, pc) : partial<D2>(c, p, x, dir, pc); });
    r.nonfinite = false;
    if (ref::kink() < 1e-6 || ref::nonfinite_node() || ref::biggest() > 1e60) r.ok = false;
    r.tol += 1e-10 * (1. + ref::biggest());
    return r;
}
template <typename T>
std::function<std::vector<T>(const std::vector<T> &, std::function<std::vector<T>(const std::vector<T> &)>)> pc_fun(const Pc &pc)
{
    const double k = pc.k;
    if (pc.kind == 1)
        return [k](const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) {
            auto v = g(x);
            for (auto &q : v) q = q * k + x[0];
            return v;
        };
    return [k](const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) {
        auto y = x;
        for (auto &q : y) q = q * k;
        return g(y);
    };
}
// decision vectors that a careless cache or comparison may confuse with x
inline std::vector<double> neighbour(Rng &r, const Conf &c, std::vector<double> x)
{
    auto p = prog_of(c, x);
    auto ag = p.active_genes();
    switch (r.u(0, 4)) {
        case 0: // one constant
            if (c.n_eph) {
                auto &v = x[r.u(0, c.n_eph - 1u)];
                v = r.coin(0.3) ? std::nextafter(v, 10.) : r.coin(0.3) ? v + 1e-6 : r.real(-3., 3.);
                break;
            }
            // fall through
        case 1: { // one gene
            auto lb = p.lb(), ub = p.ub();
            auto i = r.u(0, static_cast<unsigned>(lb.size()) - 1u);
            x[c.n_eph + i] = r.u(lb[i], ub[i]);
            break;
        }
        case 2: { // an active gene
            auto lb = p.lb(), ub = p.ub();
            std::vector<unsigned> g(ag.begin(), ag.end());
            auto i = r.pick(g);
            x[c.n_eph + i] = r.u(lb[i], ub[i]);
            break;
        }
        case 3: // all constants
            for (unsigned i = 0; i < c.n_eph; ++i) x[i] = r.real(-3., 3.);
            break;
        default: { // two constants exchanged
            if (c.n_eph >= 2u) std::swap(x[0], x[c.n_eph - 1u]);
        }
    }
    return x;
}
// Two problems alive in one thread, taken from two configurations that differ by one thing (a label, a point, the loss, the kernels,
// the number of objectives, the parallelism), observed in turns at a few decision vectors, reassigned, swapped, corrected and built
// again: whatever the implementation remembers belongs to one problem. f(problem, configuration, decision vector, correction, history)
template <typename F>
std::string twins(Rng &r, const Opt &o, F f)
{
    std::vector<Conf> cs{conf(r, o)};
    if (cs[0].p.f.size() == 1u) cs[0].p.f.push_back(cs[0].p.f[0] == "sum" ? "sig" : "sum");
    cs.push_back(cs[0]);
    auto &b = cs[1];
    auto i = r.u(0, static_cast<unsigned>(b.X.size()) - 1u);
    std::string d;
    switch (r.u(0, 5)) {
        case 0: b.Y[i][r.u(0, b.p.m - 1u)] = r.real(0., 1.), d = "label;"; break;
        case 1: b.X[i][r.u(0, b.nin() - 1u)] = r.real(-2., 2.), d = "point;"; break;
        case 2: b.loss = b.loss == "CE" ? "MSE" : "CE", d = "loss;"; break;
        case 3: std::rotate(b.p.f.begin(), b.p.f.begin() + 1, b.p.f.end()), d = "kernels;"; break;
        case 4: b.mo = !b.mo, d = "objectives;"; break;
        default: b.par = b.par ? 0u : 1u, d = "parallel;";
    }
    std::vector<std::vector<double>> xs{dv(r, cs[0]), dv(r, cs[0])};
    xs.push_back(neighbour(r, cs[0], xs[0]));
    struct State {
        std::size_t c;
        Pc pc;
    };
    auto fresh = [&](const State &s) {
        auto p = make(cs[s.c]);
        if (s.pc.kind) p.set_phenotype_correction(pc_fun<double>(s.pc), pc_fun<audi::gdual_v>(s.pc));
        return p;
    };
    std::vector<State> st{{0u, Pc{}}, {1u, Pc{}}};
    std::vector<dcgp::symbolic_regression> obj;
    obj.reserve(2u);
    for (auto &s : st) obj.push_back(fresh(s));
    std::size_t at = 0;
    unsigned k = 0;
    for (unsigned step = r.u(6, 20); step > 0u; --step) {
        if (r.coin(0.6)) k ^= 1u;
        auto &s = st[k];
        switch (r.u(0, 9)) {
            case 0:
                s.c ^= 1u;
                obj[k] = fresh(s);
                d += vh::str(k) + "=new;";
                break;
            case 1:
                std::swap(obj[0], obj[1]);
                std::swap(st[0], st[1]);
                d += "swap;";
                break;
            case 2:
                st[k ^ 1u] = s;
                obj[k ^ 1u] = obj[k];
                d += vh::str(k ^ 1u) + "=other;";
                break;
            case 3:
                obj.pop_back();
                st[1].c ^= 1u;
                obj.push_back(fresh(st[1]));
                d += "1 built again;";
                break;
            case 4:
                if (r.coin()) {
                    s.pc.kind = static_cast<int>(r.u(1, 2));
                    s.pc.k = r.real(-2., 2.);
                    obj[k].set_phenotype_correction(pc_fun<double>(s.pc), pc_fun<audi::gdual_v>(s.pc));
                } else {
                    s.pc = Pc{};
                    obj[k].unset_phenotype_correction();
                }
                d += vh::str(k) + " " + s.pc.descr() + ";";
                break;
            case 5:
            case 6: at = r.u(0, 2); break;
            default: break;
        }
        d += vh::str(k) + "@" + vh::str(at) + ";";
        f(obj[k], cs[st[k].c], xs[at], st[k].pc, "twins, " + d);
    }
    return d + cs[0].descr() + vh::vs(xs[0]);
}
} // namespace srg
#endif
