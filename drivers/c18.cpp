// C18: single objective evolution, from the record of the evaluations it made.
#include "alg.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <pagmo/problems/rosenbrock.hpp>
using namespace vh;
using alg::V;

struct Par {
    unsigned gen, mm;
    double ftol;
    bool learn, memetic;
    unsigned seed;
    std::string descr() const
    {
        return (memetic ? "mes" : "es") + std::string(" gen=") + str(gen) + " max_mut=" + str(mm) + " ftol=" + str(ftol) + " learn=" + str(learn) + " seed=" + str(seed) + " ";
    }
};
template <typename A>
static void run(Rng &r, const Par &q, A &a, const alg::Setup &s)
{
    alg::Rec rec(s.sr);
    pagmo::problem prob(rec);
    auto log = prob.extract<alg::Rec>()->log;
    auto p0 = alg::population(r, s, prob);
    auto d = q.descr() + s.descr();
    bool improved = false, stopped = false;
    std::size_t gens = 0;
    // used again and again on its own results
    for (unsigned times = r.coin(0.7) ? 1u : 3u; times--;) {
        alg::take(log);
        auto fe0 = p0.get_problem().get_fevals();
        pagmo::population p1(p0);
        {
            Mute m;
            p1 = a.evolve(p0);
        }
        auto ev = alg::take(log);
        alg::check_members(d, s, p0, p1, ev);
        if (p1.get_ID() != p0.get_ID() && q.gen == 0u) violation("zero generations change the population", d);
        std::vector<alg::Event> F;
        for (auto &e : ev)
            if (e.kind == 'F') F.push_back(e);
        if (p1.get_problem().get_fevals() - fe0 != F.size()) violation("number of evaluations", d + " counted " + str(p1.get_problem().get_fevals() - fe0) + " made " + str(F.size()));
        if (q.gen == 0u && (!alg::same_pop(p0, p1) || !ev.empty())) violation("zero generations change the population", d);
        auto NP = p0.size();
        if (F.size() % NP) violation("incomplete generation", d + " evaluations " + str(F.size()));
        gens = F.size() / NP;
        if (gens > q.gen) violation("more generations than requested", d + " " + str(gens));
        // replay
        auto best_of = [](const pagmo::population &p) {
            double b = p.get_f()[0][0];
            for (auto &f : p.get_f())
                if (alg::less(f[0], b)) b = f[0];
            return b;
        };
        double best = best_of(p0);
        const double best0 = best;
        std::vector<V> bests;
        for (std::size_t i = 0; i < NP; ++i)
            if (same(p0.get_f()[i][0], best)) bests.push_back(p0.get_x()[i]);
        for (std::size_t g = 0; g < gens; ++g) {
            for (std::size_t i = 0; i < NP; ++i) {
                auto &x = F[g * NP + i].x;
                unsigned dist = 1u << 30;
                for (auto &b : bests) dist = std::min(dist, alg::distance(x, b, s.c.n_eph));
                if (dist > q.mm)
                    violation("evaluated model is not a mutation of the best", d + " generation " + str(g) + " genes changed " + str(dist) + " x " + vs(x));
                count(dist ? "mutants with changed genes" : "mutants with unchanged genes");
            }
            for (std::size_t i = 0; i < NP; ++i) {
                auto &e = F[g * NP + i];
                if (alg::less(e.f[0], best)) best = e.f[0], bests.clear(), improved = true;
                if (same(e.f[0], best)) bests.push_back(e.x);
            }
            bool below = best < q.ftol;
            if (below && g + 1u < gens) violation("evolution goes on although the tolerance is reached", d + " best " + str(best) + " at generation " + str(g + 1u) + " of " + str(gens));
            if (!below && g + 1u == gens && gens < q.gen)
                violation("evolution stops although the tolerance is not reached", d + " best " + str(best) + " after " + str(gens) + " generations");
            if (below && gens < q.gen) stopped = true;
        }
        if (q.gen && !gens) violation("no generation made", d);
        double fin = best_of(p1);
        if (!alg::noworse(fin, best0)) violation("the best fitness got worse", d + " from " + str(best0) + " to " + str(fin));
        if (!same(fin, best)) violation("the best model found is lost", d + " best evaluated " + str(best) + " best of the population " + str(fin));
        for (std::size_t i = 0; i < NP; ++i)
            if (alg::less(p0.get_f()[i][0], p1.get_f()[i][0]) && q.memetic)
                violation("a better individual was replaced", d);
        p0 = p1;
        count("evolutions");
        count("evaluations", F.size());
    }
    if (improved) count("evolutions that improved");
    if (stopped) count("evolutions stopped by the tolerance");
    evaluated(d, improved || stopped);
}
// misuse: rejected, and nothing is evaluated
static void misuse(Rng &r)
{
    alg::SOpt so;
    so.mo = r.coin() ? 1 : 0;
    auto s = alg::setup(r, so);
    pagmo::problem prob{alg::Rec(s.sr)};
    auto log = prob.extract<alg::Rec>()->log;
    std::string what = "multi objective problem";
    if (!s.c.mo) {
        what = "population of one";
        s.np = r.u(0, 1);
        if (r.coin()) what = "another problem", prob = pagmo::problem(pagmo::rosenbrock(3u)), s.np = 4;
    }
    pagmo::population p0(prob, s.np, 3u);
    alg::take(log);
    auto fe = p0.get_problem().get_fevals();
    pagmo::population p1(p0);
    bool threw = false;
    try {
        if (r.coin()) {
            dcgp::es4cgp a(r.u(1, 4), 2u, 0., true, 1u);
            p1 = a.evolve(p1);
        } else {
            dcgp::mes4cgp a(r.u(1, 4), 2u, 0., 1u);
            p1 = a.evolve(p1);
        }
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    if (!threw) violation("unsuitable problem accepted", what);
    if (!alg::same_pop(p0, p1) || !alg::take(log).empty() || p1.get_problem().get_fevals() != fe) violation("a rejected evolution changes the population", what);
    count("rejections");
}
int main(int argc, char **argv)
{
    alg::hook();
    return vh::run(argc, argv, [](Rng &r, long) {
        if (r.coin(0.1)) return misuse(r);
        alg::SOpt so;
        so.par = r.coin();
        auto s = alg::setup(r, so);
        static const std::vector<double> tols{0., 0., 1e-12, 1e-3, 0.5, 2., 100., std::numeric_limits<double>::infinity()};
        Par q{r.coin(0.1) ? 0u : r.u(1, r.coin(0.1) ? 60 : 12), r.u(1, 5), r.coin(0.5) ? 0. : r.pick(tols), r.coin(), r.coin(), static_cast<unsigned>(r.u64())};
        if (r.coin(0.1)) q.mm = 20;
        if (q.memetic) {
            dcgp::mes4cgp a(q.gen, q.mm, q.ftol, q.seed);
            a.set_verbosity(r.coin(0.2) && s.c.printable() ? r.u(1, 3) : 0u);
            run(r, q, a, s);
        } else {
            dcgp::es4cgp a(q.gen, q.mm, q.ftol, q.learn, q.seed);
            a.set_verbosity(r.coin(0.2) && s.c.printable() ? r.u(1, 3) : 0u);
            if (r.coin(0.2)) a.set_bfe(pagmo::bfe(alg::OneByOne{}));
            run(r, q, a, s);
        }
    });
}
