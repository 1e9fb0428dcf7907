// C02: active nodes and genes are exactly what the outputs depend on.
#include "gen.hpp"
using namespace vh;

template <typename E>
static void check(const E &e, ref::Prog p, const std::string &hist)
{
    p.x = e.get();
    auto an = p.active();
    auto ag = p.active_genes();
    const std::vector<unsigned> want_n(an.begin(), an.end());
    auto where = [&] { return std::string(gen::kind_name<E>()) + " " + p.descr() + " after " + hist; };
    if (e.get_active_nodes() != want_n) violation("active-nodes", where() + " reported " + vs(e.get_active_nodes()) + " instead of " + vs(want_n));
    auto g = e.get_active_genes();
    std::sort(g.begin(), g.end());
    if (g != std::vector<unsigned>(ag.begin(), ag.end())) violation("active-genes", where() + " reported " + vs(e.get_active_genes()));
    unsigned nodes = p.n + p.r * p.c;
    for (unsigned i = 0; i < nodes + 2u; ++i)
        if (e.is_active_node(i) != (an.count(i) == 1u)) violation("is_active_node", where() + " node " + str(i));
    for (unsigned i = 0; i < p.x.size() + 2u; ++i)
        if (e.is_active_gene(i) != (ag.count(i) == 1u)) violation("is_active_gene", where() + " gene " + str(i));
    if constexpr (gen::is_ann<E>::value) {
        unsigned tot = 0, uniq = 0;
        for (auto id : an)
            if (id >= p.n) {
                std::set<unsigned> s;
                for (unsigned a = 0; a < p.ar(id); ++a) s.insert(p.x[p.pos(id) + 1u + a]);
                tot += p.ar(id);
                uniq += static_cast<unsigned>(s.size());
            }
        if (e.n_active_weights() != tot || e.n_active_weights(false) != tot) violation("n_active_weights", where() + " reported " + str(e.n_active_weights()) + " instead of " + str(tot));
        if (e.n_active_weights(true) != uniq) violation("n_active_weights-unique", where() + " reported " + str(e.n_active_weights(true)) + " instead of " + str(uniq));
    }
    count("states_checked");
    count("inactive_nodes_seen", nodes - an.size());
}
// numbers of genes, nodes, inputs and outputs past 65536
static void huge(Rng &r)
{
    gen::with_huge(r, [&](auto &e, ref::Prog &p, const std::string &d) {
        using E = std::decay_t<decltype(e)>;
        for (unsigned k = 0; k < 3u; ++k) {
            auto q = p;
            q.x = e.get();
            auto an = q.active();
            auto ag = q.active_genes();
            if (e.get_active_nodes() != std::vector<unsigned>(an.begin(), an.end())) violation("active-nodes", d + " reported " + str(e.get_active_nodes().size()) + " instead of " + str(an.size()));
            auto g = e.get_active_genes();
            std::sort(g.begin(), g.end());
            if (g != std::vector<unsigned>(ag.begin(), ag.end())) violation("active-genes", d + " reported " + str(g.size()) + " instead of " + str(ag.size()));
            const auto nodes = p.n + p.r * p.c, S = static_cast<unsigned>(q.x.size());
            auto ask = [&](unsigned node, unsigned gene) {
                if (e.is_active_node(node) != (an.count(node) == 1u)) violation("is_active_node", d + " node " + str(node));
                if (e.is_active_gene(gene) != (ag.count(gene) == 1u)) violation("is_active_gene", d + " gene " + str(gene));
            };
            for (unsigned i = 0; i < 200u; ++i) ask(r.u(0, nodes + 1u), r.u(0, S + 1u)), ask(nodes - i % nodes, S - i % S);
            unsigned asked = 0;
            for (auto i : an)
                if (++asked < 100u) ask(i, *ag.begin());
            if constexpr (gen::is_ann<E>::value) {
                unsigned tot = 0;
                for (auto id : an)
                    if (id >= p.n) tot += p.ar(id);
                if (e.n_active_weights() != tot) violation("n_active_weights", d);
            }
            // inactive genes do not matter
            auto pt = gen::smooth_values(r, p.n);
            auto v0 = e(pt);
            E c(e);
            auto lb = q.lb(), ub = q.ub();
            auto x = q.x;
            for (unsigned i = 0; i < S; ++i)
                if (!ag.count(i)) x[i] = r.u(lb[i], ub[i]);
            c.set(x);
            if (!same(c(pt), v0)) violation("inactive-changes-value", d);
            e.mutate_random(500u);
        }
        count("huge_chromosomes");
        evaluated("huge " + d, true);
    });
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long cs) {
        if (cs % 1000 == 501) return huge(r);
        gen::Opt o;
        if (r.coin(0.2)) {
            o.max_c = 14;
            o.max_r = 6;
        }
        gen::with_expr(r, o, [&](auto &e, ref::Prog &p) {
            using E = std::decay_t<decltype(e)>;
            std::string hist = "construction";
            check(e, p, hist);
            unsigned steps = r.u(1, 10);
            bool inactive_seen = false;
            for (unsigned s = 0; s < steps; ++s) {
                if (r.coin(0.25)) {
                    bool threw;
                    hist += "; rejected " + gen::bad_op(e, r, p, threw);
                } else if (gen::is_ann<E>::value && r.coin(0.15)) {
                    if constexpr (gen::is_ann<E>::value) {
                        try {
                            e.set_output_f(r.pick(p.f));
                        } catch (const std::invalid_argument &) {
                        }
                        hist += "; set_output_f";
                    }
                } else
                    hist += "; " + gen::random_op(e, r, p);
                check(e, p, hist);
                // inactive genes, weights and biases do not matter
                auto q = p;
                q.x = e.get();
                auto ag = q.active_genes();
                auto an = q.active();
                if (ag.size() == q.x.size()) continue;
                inactive_seen = true;
                auto pt = gen::values(r, gen::n_in(e));
                std::vector<std::string> names;
                for (std::size_t i = 0; i < pt.size(); ++i) names.push_back("a" + str(i));
                const auto v0 = e(pt);
                const bool sym = q.formula_size() < 3000.;
                const auto s0 = sym ? e(names) : names;
                E c(e);
                auto lb = q.lb(), ub = q.ub();
                auto x = q.x;
                for (unsigned i = 0; i < x.size(); ++i)
                    if (!ag.count(i)) x[i] = r.u(lb[i], ub[i]);
                c.set(x);
                if constexpr (gen::is_ann<E>::value || gen::is_weighted<E>::value) {
                    for (unsigned id = q.n; id < q.n + q.r * q.c; ++id)
                        if (!an.count(id)) {
                            c.set_weight(id, r.u(0, q.ar(id) - 1u), r.coin(0.2) ? std::nan("") : 77.);
                            if constexpr (gen::is_ann<E>::value) c.set_bias(id - q.n, r.coin(0.2) ? std::nan("") : -55.);
                        }
                }
                auto where = [&] { return std::string(gen::kind_name<E>()) + " " + q.descr() + " with inactive genes changed to " + vs(x) + " after " + hist; };
                if (!same(c(pt), v0)) violation("inactive-changes-value", where());
                if (sym && c(names) != s0) violation("inactive-changes-formula", where());
                check(c, q, "inactive change");
                // by function gene, one at a time
                E c2(e);
                for (unsigned id = q.n; id < q.n + q.r * q.c; ++id)
                    if (!an.count(id)) c2.set_f_gene(id, r.u(0, static_cast<unsigned>(q.f.size()) - 1u));
                if (!same(c2(pt), v0)) violation("inactive-changes-value", where());
                E c3(e);
                c3.mutate_inactive(static_cast<unsigned>(x.size()) * 3u);
                if (!same(c3(pt), v0) || (sym && c3(names) != s0)) violation("mutate_inactive-changes-value", where() + " now " + vs(c3.get()));
                count("inactive_perturbations");
            }
            evaluated(std::string(gen::kind_name<E>()) + " " + p.descr() + " history: " + hist, inactive_seen);
        });
    });
}
