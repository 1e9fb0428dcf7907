// C22: logs and prints against the record of the run.
#include "alg.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <unistd.h>
using namespace vh;
using alg::V;

// what is written to the standard descriptors while alive
struct Fds {
    int old[2];
    std::FILE *f[2];
    Fds()
    {
        std::fflush(stdout), std::fflush(stderr);
        for (int i = 0; i < 2; ++i) {
            f[i] = std::tmpfile();
            old[i] = dup(i + 1);
            if (f[i]) dup2(fileno(f[i]), i + 1);
        }
    }
    long written = -1;
    void stop()
    {
        std::fflush(stdout), std::fflush(stderr);
        written = 0;
        for (int i = 0; i < 2; ++i) {
            if (f[i]) {
                std::fseek(f[i], 0, SEEK_END);
                written += std::ftell(f[i]);
                std::fclose(f[i]);
            }
            dup2(old[i], i + 1);
            close(old[i]);
        }
    }
};
// lines of numbers printed: the first two fields
static std::vector<std::pair<std::string, std::string>> data_lines(const std::string &s)
{
    std::vector<std::pair<std::string, std::string>> r;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) {
        std::istringstream w(l);
        std::string a, b;
        if (!(w >> a >> b) || a.find_first_not_of("0123456789") != std::string::npos) continue;
        r.emplace_back(a, b);
    }
    return r;
}
// the generations that must have a line
static std::vector<unsigned> expected_gens(unsigned verb, unsigned executed, bool final_line)
{
    std::vector<unsigned> g;
    for (unsigned i = 0; i < executed; i += verb) g.push_back(i);
    if (final_line) g.push_back(executed);
    return g;
}
template <typename L>
static bool frequency(const std::string &d, const L &log, const std::vector<unsigned> &want)
{
    std::vector<unsigned> got;
    for (auto &l : log) got.push_back(std::get<0>(l));
    if (got != want) violation("lines of the log", d + " logged at " + vs(got) + " expected " + vs(want));
    for (std::size_t i = 1; i < log.size(); ++i)
        if (std::get<1>(log[i]) < std::get<1>(log[i - 1u])) violation("evaluation counts decrease", d);
    return got == want;
}
template <typename L>
static void printed(const std::string &d, const L &log, const std::string &out)
{
    auto p = data_lines(out);
    bool ok = p.size() == log.size();
    for (std::size_t i = 0; ok && i < p.size(); ++i) ok = p[i].first == str(std::get<0>(log[i])) && p[i].second == str(std::get<1>(log[i]));
    if (!ok) violation("printed lines differ from the log", d + "\n" + out.substr(0, 2000));
    if (!log.empty() && out.find("vals:") == std::string::npos) violation("no header printed", d);
}
template <typename A>
static pagmo::population evolve(const std::string &d, Rng &r, const A &a, const pagmo::population &p, unsigned verb)
{
    pagmo::population q(p);
    Mute m;
    if (verb == 0u && r.coin(0.15)) {
        Fds f;
        q = a.evolve(p);
        f.stop();
        if (f.written) violation("something is printed with verbosity zero", d + " bytes " + str(f.written));
        count("runs with the descriptors watched");
    } else
        q = a.evolve(p);
    if (verb == 0u) {
        if (!m.sink.str().empty()) violation("something is printed with verbosity zero", d + " " + m.sink.str().substr(0, 300));
        if (!a.get_log().empty()) violation("something is logged with verbosity zero", d);
        count("silent runs");
    } else
        printed(d, a.get_log(), m.sink.str());
    if (a.get_verbosity() != verb) violation("verbosity", d);
    return q;
}
struct Params {
    unsigned gen, mm, seed, verb;
    double ftol;
    bool learn, bfe;
};
template <typename A>
static bool single(const std::string &d, Rng &r, const A &a, const alg::Setup &s, pagmo::population p0, const std::shared_ptr<alg::Log> &log, const Params &q)
{
    bool lines = false;
    const unsigned n = s.c.n_eph;
    for (unsigned times = r.coin(0.7) ? 1u : 2u; times--;) {
        if (r.coin(0.3)) p0.get_problem().fitness(p0.get_x()[0]); // evaluations made by others
        alg::take(log);
        auto p1 = evolve(d, r, a, p0, q.verb);
        std::vector<alg::Event> F;
        for (auto &e : alg::take(log))
            if (e.kind == 'F') F.push_back(e);
        if (q.gen == 0u) return lines;
        auto NP = p0.size();
        auto executed = static_cast<unsigned>(F.size() / NP);
        if (q.verb) {
            auto &lg = a.get_log();
            if (!frequency(d, lg, expected_gens(q.verb, executed, true))) return false;
            double best = std::numeric_limits<double>::quiet_NaN();
            std::vector<V> bests;
            auto see = [&](const V &x, double f) {
                if (alg::less(f, best)) best = f, bests.clear();
                if (same(f, best)) bests.push_back(x);
            };
            for (std::size_t i = 0; i < NP; ++i) see(p0.get_x()[i], p0.get_f()[i][0]);
            auto sr = s.sr;
            std::size_t seen = 0;
            for (auto &l : lg) {
                for (; seen < std::get<0>(l) * NP; ++seen) see(F[seen].x, F[seen].f[0]);
                auto w = d + " line of generation " + str(std::get<0>(l));
                if (std::get<1>(l) != seen) violation("evaluations logged", w + " logged " + str(std::get<1>(l)) + " made " + str(seen));
                if (!same(std::get<2>(l), best)) violation("best fitness logged", w + " logged " + str(std::get<2>(l)) + " is " + str(best));
                bool ok = false, cst = false;
                for (auto &x : bests) {
                    if (!same(std::get<3>(l), V(x.begin(), x.begin() + n))) continue;
                    cst = true;
                    if (sr.prettier(x) == std::get<4>(l)) {
                        ok = true;
                        break;
                    }
                }
                if (!cst) violation("constants logged", w + " " + vs(std::get<3>(l)));
                else if (!ok) violation("model logged", w + " " + std::get<4>(l).substr(0, 300));
                lines = true;
                count("lines compared");
            }
        }
        p0 = p1;
    }
    return lines;
}
template <typename Make>
static bool multi(const std::string &d, Rng &r, Make make, pagmo::population p0, const std::shared_ptr<alg::Log> &log, const Params &q)
{
    bool lines = false;
    if (r.coin(0.3)) p0.get_problem().fitness(p0.get_x()[0]);
    auto a = make(q.gen);
    a.set_verbosity(q.verb);
    if (r.coin(0.3)) { // a log of another run
        Mute m;
        auto b = p0;
        a.evolve(b);
        a.set_seed(q.seed);
    }
    alg::take(log);
    evolve(d, r, a, p0, q.verb);
    unsigned long nf = 0;
    for (auto &e : alg::take(log)) nf += e.kind == 'F';
    if (q.gen == 0u || q.verb == 0u) return false;
    auto NP = p0.size();
    auto executed = static_cast<unsigned>(nf / NP);
    auto &lg = a.get_log();
    bool stopped = executed < q.gen;
    std::vector<unsigned> want;
    if (stopped) { // the generation in which it stops may have its line
        want = expected_gens(q.verb, executed, false);
        if (executed % q.verb == 0u) want.push_back(executed);
    } else
        want = expected_gens(q.verb, executed, true);
    if (!frequency(d, lg, want)) return false;
    for (auto &l : lg) {
        auto g = std::get<0>(l);
        auto w = d + " line of generation " + str(g);
        if (std::get<1>(l) != g * NP) violation("evaluations logged", w + " logged " + str(std::get<1>(l)) + " made " + str(g * NP));
        // the population at that moment
        auto b = make(g);
        auto p = b.evolve(p0);
        bool fin = std::all_of(p.get_f().begin(), p.get_f().end(), [](const V &f) { return std::isfinite(f[0]); });
        double best = std::numeric_limits<double>::quiet_NaN(), compl_ = 0.;
        for (auto &f : p.get_f())
            if (alg::less(f[0], best)) best = f[0];
        if (!close(std::get<2>(l), best, 1e-9) ) violation("best fitness logged", w + " logged " + str(std::get<2>(l)) + " is " + str(best));
        if (!fin) continue;
        compl_ = 1e300;
        for (auto &f : p.get_f())
            if (f[0] == best) compl_ = std::min(compl_, f[1]);
        if (std::get<4>(l) != compl_) violation("complexity logged", w + " logged " + str(std::get<4>(l)) + " is " + str(compl_));
        std::set<V> front;
        unsigned all = 0;
        for (auto &f : p.get_f()) {
            bool nd = true;
            for (auto &g2 : p.get_f()) nd = nd && !(g2[0] <= f[0] && g2[1] <= f[1] && (g2[0] < f[0] || g2[1] < f[1]));
            if (nd) front.insert(f), ++all;
        }
        if (std::get<3>(l) < front.size() || std::get<3>(l) > all) violation("size of the front logged", w + " logged " + str(std::get<3>(l)) + " is " + str(front.size()) + " (" + str(all) + " with duplicates)");
        lines = true;
        count("lines compared");
    }
    alg::take(log);
    return lines;
}
static bool descent(const std::string &d, Rng &r, const dcgp::gd4cgp &a, const alg::Setup &s, pagmo::population p0, const std::shared_ptr<alg::Log> &log, unsigned iter, double lr, double lr_min, unsigned verb)
{
    bool lines = false;
    for (unsigned times = r.coin(0.7) ? 1u : 2u; times--;) {
        if (r.coin(0.3)) p0.get_problem().gradient(p0.get_x()[0]), p0.get_problem().fitness(p0.get_x()[0]);
        alg::take(log);
        auto p1 = evolve(d, r, a, p0, verb);
        auto ev = alg::take(log);
        if (iter == 0u || verb == 0u) return false;
        auto &lg = a.get_log();
        if (ev.empty()) {
            // the run ended at once: whatever the log held is of another run
            if (!lg.empty() && std::none_of(p0.get_f().begin(), p0.get_f().end(), [](const V &q) { return std::isfinite(q[0]); })) violation("log of another run", d + " lines " + str(lg.size()));
            return lines;
        }
        // states: before each iteration, and at the end
        struct St {
            unsigned it;
            unsigned long long fe, ge;
            double nrm, lr, best;
        };
        double f = std::numeric_limits<double>::quiet_NaN();
        for (std::size_t i = 0; i < p0.size(); ++i)
            if (same(p0.get_x()[i], ev[0].x)) f = p0.get_f()[i][0];
        std::vector<St> st{{0u, 0u, 0u, 0., lr, f}};
        unsigned long long fe = 0, ge = 0;
        double nrm = 0., rate = lr;
        unsigned it = 0;
        for (auto &e : ev) {
            if (e.kind == 'G') {
                ++ge;
                ++it;
                nrm = 0.;
                for (auto q : e.f) nrm += q * q;
                nrm = std::sqrt(nrm);
                if (&e == &ev.back()) st.push_back({it, fe, ge, nrm, rate, f});
            } else if (e.kind == 'F') {
                ++fe;
                if (alg::less(e.f[0], f)) f = e.f[0], rate *= 1.5;
                else rate /= 4.;
                st.push_back({it, fe, ge, nrm, rate, f});
            }
        }
        std::vector<unsigned> want;
        for (unsigned i = 0; i < it; i += verb) want.push_back(i);
        want.push_back(it);
        if (!frequency(d, lg, want)) return false;
        for (auto &l : lg) {
            auto &q = st[std::get<0>(l)];
            auto w = d + " line of iteration " + str(q.it);
            if (std::get<1>(l) != q.fe || std::get<2>(l) != q.ge) violation("evaluations logged", w + " logged " + str(std::get<1>(l)) + "," + str(std::get<2>(l)) + " made " + str(q.fe) + "," + str(q.ge));
            if (!close(std::get<3>(l), q.nrm, 1e-12, 0.)) violation("norm of the gradient logged", w + " logged " + str(std::get<3>(l)) + " is " + str(q.nrm));
            if (!close(std::get<4>(l), q.lr, 1e-12, 0.)) violation("learning rate logged", w + " logged " + str(std::get<4>(l)) + " is " + str(q.lr));
            if (!same(std::get<5>(l), q.best)) violation("best fitness logged", w + " logged " + str(std::get<5>(l)) + " is " + str(q.best));
            lines = true;
            count("lines compared");
        }
        (void)lr_min;
        (void)s;
        p0 = p1;
        if (times && r.coin()) { // then on a population without a finite member
            for (std::size_t i = 0; i < p0.size(); ++i) p0.set_xf(i, p0.get_x()[i], {std::numeric_limits<double>::quiet_NaN()});
            count("runs ending at once after a logged one");
        }
    }
    return lines;
}
int main(int argc, char **argv)
{
    alg::hook();
    return vh::run(argc, argv, [](Rng &r, long) {
        unsigned which = r.u(0, 4);
        alg::SOpt so;
        so.mo = which == 2u || which == 3u;
        so.par = r.coin(0.3);
        if (which == 4u) so.eph = static_cast<int>(r.u(1, 4));
        auto s = alg::setup(r, so);
        while (s.c.p.c > 5u) s = alg::setup(r, so); // formulas grow exponentially
        pagmo::problem prob{alg::Rec(s.sr)};
        auto log = prob.extract<alg::Rec>()->log;
        auto p0 = alg::population(r, s, prob);
        static const std::vector<double> tols{1e-12, 1e-3, 0.5, 2., 100., std::numeric_limits<double>::infinity()};
        Params q{r.coin(0.05) ? 0u : r.u(1, 9), r.u(1, 4), static_cast<unsigned>(r.u64()), r.coin(0.2) ? 0u : r.coin(0.1) ? 100u : r.u(1, 4), r.coin(0.7) ? 0. : r.pick(tols), r.coin(), r.coin(0.2)};
        if (r.coin(0.03) && which < 2u) q.gen = 120, q.verb = 1;
        static const char *names[] = {"es", "mes", "moes", "momes", "gd"};
        auto d = std::string(names[which]) + " gen=" + str(q.gen) + " max_mut=" + str(q.mm) + " ftol=" + str(q.ftol) + " learn=" + str(q.learn) + " bfe=" + str(q.bfe) + " verbosity=" + str(q.verb) + " seed=" + str(q.seed) + " " + s.descr();
        bool j = false;
        if (which == 0u) {
            dcgp::es4cgp a(q.gen, q.mm, q.ftol, q.learn, q.seed);
            if (q.bfe) a.set_bfe(pagmo::bfe(alg::OneByOne{}));
            a.set_verbosity(q.verb);
            j = single(d, r, a, s, p0, log, q);
        } else if (which == 1u) {
            dcgp::mes4cgp a(q.gen, q.mm, q.ftol, q.seed);
            a.set_verbosity(q.verb);
            j = single(d, r, a, s, p0, log, q);
        } else if (which == 2u) {
            j = multi(d, r, [&](unsigned g) {
                dcgp::moes4cgp a(g, q.mm, q.ftol, q.learn, q.seed);
                if (q.bfe) a.set_bfe(pagmo::bfe(alg::OneByOne{}));
                return a;
            }, p0, log, q);
        } else if (which == 3u) {
            j = multi(d, r, [&](unsigned g) { return dcgp::momes4cgp(g, q.mm, q.ftol, q.seed); }, p0, log, q);
        } else {
            double lr = r.coin() ? 1. : std::pow(10., r.real(-3., 2.)), lr_min = lr * std::pow(10., r.real(-6., -0.01));
            dcgp::gd4cgp a(q.gen, lr, lr_min);
            a.set_verbosity(q.verb);
            j = descent(d + " lr=" + str(lr) + " lr_min=" + str(lr_min), r, a, s, p0, log, q.gen, lr, lr_min, q.verb);
        }
        evaluated(d, j);
    });
}
