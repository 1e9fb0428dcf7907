// C20: multi objective evolution, from the record of the evaluations it made.
#include "alg.hpp"
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/problems/zdt.hpp>
using namespace vh;
using alg::V;

static bool dominates(const V &a, const V &b)
{
    bool strict = false;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (alg::less(b[i], a[i])) return false;
        strict = strict || alg::less(a[i], b[i]);
    }
    return strict;
}
static std::vector<unsigned> ranks(const std::vector<V> &f)
{
    std::vector<unsigned> rk(f.size(), ~0u);
    std::size_t done = 0;
    for (unsigned k = 0; done < f.size(); ++k) {
        std::vector<std::size_t> front;
        for (std::size_t i = 0; i < f.size(); ++i) {
            if (rk[i] != ~0u) continue;
            bool nd = true;
            for (std::size_t j = 0; j < f.size() && nd; ++j) nd = !(rk[j] == ~0u && dominates(f[j], f[i]));
            if (nd) front.push_back(i);
        }
        for (auto i : front) rk[i] = k;
        done += front.size();
    }
    return rk;
}
static double best(const std::vector<V> &f, unsigned k)
{
    double b = f[0][k];
    for (auto &q : f)
        if (alg::less(q[k], b)) b = q[k];
    return b;
}
// models without a finite loss are the worst
static std::vector<V> eligible(std::vector<V> f)
{
    for (auto &q : f)
        if (!std::isfinite(q[0])) q.assign(q.size(), std::numeric_limits<double>::infinity());
    return f;
}
// one generation: p -> q with the evaluated mutants F
static bool generation(const std::string &d, const pagmo::population &p, const pagmo::population &q, const std::vector<alg::Event> &F, bool memetic)
{
    auto NP = p.size();
    std::vector<V> ux(p.get_x()), uf(p.get_f());
    for (auto &e : F) {
        if (memetic && (!std::isfinite(e.f[0]) || std::find_if(uf.begin(), uf.end(), [&](const V &f) { return f == e.f; }) != uf.end())) continue;
        ux.push_back(e.x);
        uf.push_back(e.f);
    }
    auto w = d + "\nfrom " + alg::show(p).substr(0, 1500) + "\nto " + alg::show(q).substr(0, 1500);
    auto rf = eligible(uf);
    auto rk = ranks(rf);
    // which of the candidates are in the new population (equal fitness: any of the best rank)
    std::vector<char> used(ux.size(), 0);
    for (std::size_t i = 0; i < q.size(); ++i) {
        bool found = false;
        for (std::size_t j = 0; j < ux.size() && !found; ++j)
            if (!used[j] && same(ux[j], q.get_x()[i]) && same(uf[j], q.get_f()[i])) used[j] = 1, found = true;
        if (!found) violation("individual that is not a candidate, or selected twice", w + "\nindividual " + str(i));
    }
    unsigned worst_in = 0, best_out = ~0u;
    for (std::size_t j = 0; j < ux.size(); ++j) {
        if (used[j]) worst_in = std::max(worst_in, rk[j]);
        else best_out = std::min(best_out, rk[j]);
    }
    if (worst_in > best_out) violation("an individual of a worse front was kept instead of one of a better front", w + " fronts " + str(worst_in) + " " + str(best_out));
    // extremes
    bool dup = false;
    for (std::size_t i = 0; i < uf.size(); ++i)
        for (std::size_t j = 0; j < i; ++j) dup = dup || same(rf[i], rf[j]);
    if (NP >= 4u || !dup)
        for (unsigned k = 0; k < 2u; ++k) {
            auto was = best(rf, k), is = best(eligible(q.get_f()), k);
            if (was != is) violation(k ? "the best complexity is lost" : "the best loss is lost", w + " " + str(was) + " became " + str(is));
        }
    // within the last front the most isolated are kept
    if (worst_in == best_out) {
        count("generations with a front that does not fit");
        std::vector<std::size_t> fr;
        bool fin = true;
        for (std::size_t j = 0; j < ux.size(); ++j)
            if (rk[j] == worst_in) fr.push_back(j), fin = fin && std::isfinite(rf[j][0]);
        bool fdup = false;
        for (auto i : fr)
            for (auto j : fr) fdup = fdup || (i != j && same(uf[i], uf[j]));
        if (fin && !fdup && fr.size() > 2u) {
            std::sort(fr.begin(), fr.end(), [&](std::size_t a, std::size_t b) { return uf[a][0] < uf[b][0]; });
            auto d0 = uf[fr.back()][0] - uf[fr[0]][0], d1 = uf[fr[0]][1] - uf[fr.back()][1];
            double in = std::numeric_limits<double>::infinity(), out = 0.;
            for (std::size_t k = 0; k < fr.size(); ++k) {
                double cd = std::numeric_limits<double>::infinity();
                if (k && k + 1u < fr.size()) cd = (uf[fr[k + 1u]][0] - uf[fr[k - 1u]][0]) / d0 + (uf[fr[k - 1u]][1] - uf[fr[k + 1u]][1]) / d1;
                if (used[fr[k]]) in = std::min(in, cd);
                else out = std::max(out, cd);
            }
            if (in < out - 1e-9) violation("a crowded individual was kept instead of an isolated one", w + " " + str(in) + " " + str(out));
            count("crowding of a front compared");
        }
    }
    if (memetic)
        for (auto &f : q.get_f()) {
            auto nq = std::count_if(q.get_f().begin(), q.get_f().end(), [&](const V &g) { return same(f, g); });
            auto np = std::count_if(p.get_f().begin(), p.get_f().end(), [&](const V &g) { return same(f, g); });
            if (nq > std::max<long>(np, 1)) violation("duplicated fitness added", w);
        }
    return best_out != ~0u && !F.empty();
}
static std::vector<alg::Event> fitness_calls(const std::shared_ptr<alg::Log> &l)
{
    std::vector<alg::Event> F;
    for (auto &e : alg::take(l))
        if (e.kind == 'F') F.push_back(e);
    return F;
}
template <typename Make>
static void run(Rng &r, Make make, const alg::Setup &s, std::string d, unsigned gen, double ftol, bool memetic, unsigned mm)
{
    pagmo::problem prob{alg::Rec(s.sr)};
    auto log = prob.extract<alg::Rec>()->log;
    const auto p0 = alg::population(r, s, prob);
    alg::take(log);
    bool judged = false;
    Mute mute;
    // at once
    auto a = make(gen);
    a.set_verbosity(r.coin(0.2) ? r.u(1, 4) : 0u);
    auto q = a.evolve(p0);
    auto all = fitness_calls(log);
    alg::check_members(d, s, p0, q, all);
    if (q.get_problem().get_fevals() - p0.get_problem().get_fevals() != all.size()) violation("number of evaluations", d);
    if (gen == 0u && (!alg::same_pop(p0, q) || !all.empty())) violation("zero generations change the population", d);
    if (all.size() % p0.size()) violation("incomplete generation", d + " evaluations " + str(all.size()));
    if (all.size() > gen * p0.size()) violation("more generations than requested", d);
    // one by one
    auto b = make(1u);
    auto p = p0;
    std::vector<alg::Event> steps;
    for (unsigned g = 0; g < gen; ++g) {
        auto n = b.evolve(p);
        auto F = fitness_calls(log);
        bool below = best(p.get_f(), 0) < ftol;
        if (below && (!F.empty() || !alg::same_pop(p, n))) violation("evolution goes on although the tolerance is reached", d + " best loss " + str(best(p.get_f(), 0)));
        if (!below && F.size() != p.size()) violation("evaluations in a generation", d + " " + str(F.size()) + " best loss " + str(best(p.get_f(), 0)));
        if (below) count("stops at the tolerance");
        for (std::size_t i = 0; i < F.size() && i < p.size(); ++i) {
            if (alg::distance(p.get_x()[i], F[i].x, s.c.n_eph) > mm) violation("mutant of another individual, or with too many changed genes", d);
        }
        if (!F.empty() && generation(d, p, n, F, memetic)) judged = true;
        if (!below) count("generations");
        steps.insert(steps.end(), F.begin(), F.end());
        p = n;
    }
    // as long as the non dominated models fit in the population, none is lost
    {
        auto seen = eligible(p0.get_f());
        auto nd = [](const std::vector<V> &f) {
            std::vector<V> o;
            auto rk = ranks(f);
            for (std::size_t i = 0; i < f.size(); ++i)
                if (rk[i] == 0u) o.push_back(f[i]);
            return o;
        };
        seen = nd(seen);
        bool fits = true;
        for (std::size_t g = 0; fits && (g + 1u) * p0.size() <= all.size(); ++g) {
            for (std::size_t i = 0; i < p0.size(); ++i) {
                auto f = eligible({all[g * p0.size() + i].f})[0];
                if (!std::isfinite(f[0]) || (memetic && std::find(seen.begin(), seen.end(), f) != seen.end())) continue;
                seen.push_back(f);
            }
            seen = nd(seen);
            fits = seen.size() <= p0.size();
        }
        if (fits) {
            for (auto &f : seen)
                if (std::isfinite(f[0]) && std::find(q.get_f().begin(), q.get_f().end(), f) == q.get_f().end())
                    violation("a non dominated model was lost", d + " " + vs(f) + "\n" + alg::show(q).substr(0, 1500));
            count("runs in which all non dominated models fit");
        }
    }
    // as a whole
    if (p0.size() >= 4u)
        for (unsigned k = 0; k < 2u; ++k)
            if (best(eligible(p0.get_f()), k) < best(eligible(q.get_f()), k)) violation("the best of an objective got worse", d + " objective " + str(k));
    evaluated(d, judged);
}
static void misuse(Rng &r)
{
    alg::SOpt so;
    so.mo = r.coin() ? 1 : 0;
    auto s = alg::setup(r, so);
    pagmo::problem prob{alg::Rec(s.sr)};
    auto log = prob.extract<alg::Rec>()->log;
    std::string what = "single objective problem";
    if (s.c.mo) {
        what = "population of one";
        s.np = r.u(0, 1);
        if (r.coin()) what = "another problem", prob = pagmo::problem(pagmo::zdt(1u)), s.np = 4;
    }
    pagmo::population p0(prob, s.np, 3u);
    alg::take(log);
    auto p1 = p0;
    bool threw = false;
    try {
        if (r.coin()) p1 = dcgp::moes4cgp(r.u(1, 4), 2u, 0., true, 1u).evolve(p1);
        else p1 = dcgp::momes4cgp(r.u(1, 4), 2u, 0., 1u).evolve(p1);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    if (!threw) violation("unsuitable problem accepted", what);
    if (!alg::same_pop(p0, p1) || !alg::take(log).empty()) violation("a rejected evolution changes the population", what);
    count("rejections");
}
int main(int argc, char **argv)
{
    alg::hook();
    return vh::run(argc, argv, [](Rng &r, long) {
        if (r.coin(0.05)) return misuse(r);
        alg::SOpt so;
        so.mo = 1;
        so.par = r.coin(0.3);
        so.max_np = r.coin(0.2) ? 16 : 8;
        auto s = alg::setup(r, so);
        static const std::vector<double> tols{1e-12, 1e-3, 0.5, 2., 100., std::numeric_limits<double>::infinity()};
        unsigned gen = r.coin(0.05) ? 0u : r.u(1, 10), mm = r.u(1, 5), seed = static_cast<unsigned>(r.u64());
        double ftol = r.coin(0.7) ? 0. : r.pick(tols);
        bool learn = r.coin(), bfe = r.coin(0.3);
        auto d = " gen=" + str(gen) + " max_mut=" + str(mm) + " ftol=" + str(ftol) + " learn=" + str(learn) + " bfe=" + str(bfe) + " seed=" + str(seed) + " " + s.descr();
        if (r.coin()) {
            run(r, [&](unsigned g) {
                dcgp::moes4cgp a(g, mm, ftol, learn, seed);
                if (bfe) a.set_bfe(pagmo::bfe(alg::OneByOne{}));
                return a;
            }, s, "moes" + d, gen, ftol, false, mm);
        } else
            run(r, [&](unsigned g) { return dcgp::momes4cgp(g, mm, ftol, seed); }, s, "momes" + d, gen, ftol, true, mm);
    });
}
