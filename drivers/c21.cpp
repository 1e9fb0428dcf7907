// C21: gradient descent on the constants, from the record of the calls it made.
#include "alg.hpp"
#include <dcgp/algorithms/gd4cgp.hpp>
#include <pagmo/problems/rosenbrock.hpp>
using namespace vh;
using alg::V;

static void misuse(Rng &r)
{
    alg::SOpt so;
    unsigned k = r.u(0, 2);
    so.mo = k == 0u;
    so.eph = k == 1u ? 0 : 2;
    auto s = alg::setup(r, so);
    pagmo::problem prob{alg::Rec(s.sr)};
    auto log = prob.extract<alg::Rec>()->log;
    if (k == 2u) prob = pagmo::problem(pagmo::rosenbrock(3u));
    pagmo::population p0(prob, s.np, 3u);
    alg::take(log);
    auto p1 = p0;
    bool threw = false;
    try {
        p1 = dcgp::gd4cgp(r.u(0, 4), 1., 1e-3).evolve(p1);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    if (!threw) violation("unsuitable problem accepted", str(k));
    if (!alg::same_pop(p0, p1) || !alg::take(log).empty()) violation("a rejected descent changes the population", str(k));
    count("rejections");
}
int main(int argc, char **argv)
{
    alg::hook();
    return vh::run(argc, argv, [](Rng &r, long) {
        if (r.coin(0.05)) return misuse(r);
        alg::SOpt so;
        so.eph = static_cast<int>(r.u(1, 6));
        so.par = r.coin(0.3);
        auto s = alg::setup(r, so);
        s.np = r.u(1, 6);
        const unsigned n = s.c.n_eph;
        pagmo::problem prob{alg::Rec(s.sr)};
        auto log = prob.extract<alg::Rec>()->log;
        auto p0 = alg::population(r, s, prob);
        unsigned iter = r.coin(0.05) ? 0u : r.coin(0.1) ? r.u(50, 200) : r.u(1, 20);
        double lr = r.coin() ? 1. : std::pow(10., r.real(-3., 2.)), lr_min = lr * std::pow(10., r.real(-6., -0.01));
        dcgp::gd4cgp a(iter, lr, lr_min);
        // which individual is selected and which one is replaced: the same one
        int pol = static_cast<int>(r.u(0, 3));
        std::size_t pos = 0;
        if (pol == 1) a.set_selection("worst"), a.set_replacement("worst");
        if (pol == 2) {
            pos = r.u(0, s.np - 1u);
            a.set_selection(pos), a.set_replacement(pos);
        }
        if (pol == 3) a.set_selection("random"), a.set_replacement("best"), a.set_random_sr_seed(static_cast<unsigned>(r.u64()));
        a.set_verbosity(r.coin(0.2) ? r.u(1, 3) : 0u);
        auto d = "gd iter=" + str(iter) + " lr=" + str(lr) + " lr_min=" + str(lr_min) + " policy=" + str(pol) + " " + s.descr();
        bool judged = false;
        for (unsigned times = r.coin(0.8) ? 1u : 3u; times--;) {
            alg::take(log);
            pagmo::population p1(p0);
            {
                Mute m;
                p1 = a.evolve(p0);
            }
            auto ev = alg::take(log);
            std::vector<alg::Event> G, F;
            for (auto &e : ev) (e.kind == 'F' ? F : G).push_back(e);
            alg::check_members(d, s, p0, p1, ev);
            if (F.size() > iter || G.size() > iter) violation("more steps than the budget", d + " " + str(F.size()) + " " + str(G.size()));
            if (p1.get_problem().get_fevals() - p0.get_problem().get_fevals() != F.size() || p1.get_problem().get_gevals() - p0.get_problem().get_gevals() != G.size())
                violation("number of evaluations", d);
            if (iter == 0u && (!alg::same_pop(p0, p1) || !ev.empty())) violation("zero iterations change the population", d);
            std::vector<std::size_t> changed;
            for (std::size_t i = 0; i < p0.size(); ++i)
                if (!same(p0.get_x()[i], p1.get_x()[i]) || !same(p0.get_f()[i], p1.get_f()[i])) changed.push_back(i);
            if (changed.size() > 1u) violation("more than one individual replaced", d);
            auto best = [](const pagmo::population &p) {
                double b = p.get_f()[0][0];
                for (auto &f : p.get_f())
                    if (alg::less(f[0], b)) b = f[0];
                return b;
            };
            if (pol != 3) {
                for (auto i : changed) {
                    if (!alg::noworse(p1.get_f()[i][0], p0.get_f()[i][0])) violation("replaced by a worse individual", d + " " + str(p0.get_f()[i][0]) + " by " + str(p1.get_f()[i][0]));
                    if (alg::distance(p0.get_x()[i], p1.get_x()[i], n)) violation("the model was changed", d);
                    if (pol == 2 && i != pos) violation("another individual than the requested one was replaced", d);
                }
                if (!alg::noworse(best(p1), best(p0))) violation("the best fitness got worse", d);
            }
            if (G.empty()) {
                // nothing done: no iterations, or not a finite start
                if (iter && pol == 2 && std::isfinite(p0.get_f()[pos][0])) violation("no step made", d);
                if (iter && pol < 2 && std::all_of(p0.get_f().begin(), p0.get_f().end(), [](const V &f) { return std::isfinite(f[0]); })) violation("no step made", d);
                if (!changed.empty()) violation("changed without a step", d);
                p0 = p1;
                continue;
            }
            // replay
            std::size_t start = p0.size();
            for (std::size_t i = 0; i < p0.size(); ++i)
                if (same(p0.get_x()[i], G[0].x)) {
                    if (pol == 2 && i != pos) continue;
                    if (pol == 0 && p0.get_f()[i][0] != best(p0)) continue;
                    if (pol == 1 && std::any_of(p0.get_f().begin(), p0.get_f().end(), [&](const V &f) { return f[0] > p0.get_f()[i][0]; })) continue;
                    start = i;
                }
            if (start == p0.size()) {
                violation("the descent does not start from the selected individual", d + " " + vs(G[0].x) + "\n" + alg::show(p0));
                break;
            }
            V x = p0.get_x()[start];
            double f = p0.get_f()[start][0], rate = lr;
            std::size_t fi = 0, gi = 0;
            unsigned it = 0;
            std::string end = "budget";
            bool bad = false;
            V g;
            for (it = 1; it <= iter && !bad; ++it) {
                // the gradient may be known from a previous failed step, or asked again
                if (gi < G.size() && same(G[gi].x, x)) g = G[gi++].f;
                else if (g.empty() || it == 1u) {
                    violation("no gradient asked at the current point", d + " iteration " + str(it) + " x " + vs(x));
                    bad = true;
                    break;
                }
                double nrm = 0.;
                for (auto q : g) nrm += q * q;
                nrm = std::sqrt(nrm);
                if (nrm < 1e-13 || !std::isfinite(nrm)) {
                    end = "gradient";
                    break;
                }
                if (fi == F.size()) {
                    violation("the descent stops early", d + " iteration " + str(it) + " rate " + str(rate) + " norm " + str(nrm));
                    bad = true;
                    break;
                }
                auto &e = F[fi++];
                for (unsigned i = 0; i < n; ++i) {
                    double want = x[i] - g[i] / nrm * rate;
                    if (!(std::abs(e.x[i] - want) <= 1e-12 * (std::abs(x[i]) + rate))) {
                        violation("step not along the negative gradient with the current rate", d + " iteration " + str(it) + " constant " + str(i) + " from " + str(x[i]) + " expected " + str(want) + " got " + str(e.x[i]) + " rate " + str(rate));
                        bad = true;
                        break;
                    }
                }
                if (alg::distance(e.x, x, n)) violation("the model was changed by a step", d), bad = true;
                count("steps");
                judged = true;
                if (alg::less(e.f[0], f)) {
                    if (g.empty()) bad = true;
                    x = e.x, f = e.f[0], rate *= 1.5;
                    g.clear();
                    count("successful steps");
                } else {
                    rate /= 4.;
                    if (rate < lr_min) {
                        end = "rate";
                        break;
                    }
                }
            }
            if (bad) break;
            if (fi != F.size()) violation("the descent goes on after its end", d + " ended by the " + end + " after " + str(fi) + " evaluations of " + str(F.size()));
            if (it > iter) end = "budget";
            count("ended by the " + end);
            if (pol != 3) {
                if (!same(p1.get_x()[start], x) || !same(p1.get_f()[start][0], f)) {
                    // several individuals may be the selected one
                    bool other = false;
                    for (std::size_t i = 0; i < p1.size(); ++i) other = other || (same(p1.get_x()[i], x) && same(p1.get_f()[i][0], f));
                    if (!other) violation("the result of the descent is not in the population", d + " " + vs(x) + " " + str(f) + "\n" + alg::show(p1));
                }
            } else {
                bool in = false;
                for (std::size_t i = 0; i < p1.size(); ++i) in = in || (same(p1.get_x()[i], x) && same(p1.get_f()[i][0], f));
                if (!in) violation("the result of the descent is not in the population", d);
            }
            p0 = p1;
            count("descents");
        }
        evaluated(d, judged);
    });
}
