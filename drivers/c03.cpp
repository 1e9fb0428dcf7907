// C03: bounds, validity of chromosomes, and what each mutation operator may change.
#include "gen.hpp"
using namespace vh;

struct Kinds {
    std::vector<char> kind; // 'f' function, 'c' connection, 'o' output
    std::vector<bool> active;
};
static Kinds kinds(const ref::Prog &p)
{
    Kinds k;
    for (unsigned id = p.n; id < p.n + p.r * p.c; ++id) {
        k.kind.push_back('f');
        for (unsigned a = 0; a < p.ar(id); ++a) k.kind.push_back('c');
    }
    for (unsigned i = 0; i < p.m; ++i) k.kind.push_back('o');
    auto ag = p.active_genes();
    k.active.resize(k.kind.size());
    for (auto g : ag) k.active[g] = true;
    return k;
}
static const char *names[] = {"mutate(idx)", "mutate(idxs)", "mutate_random", "mutate_inactive", "mutate_active", "mutate_active_fgene",
                              "mutate_active_cgene", "mutate_ogene"};
template <typename E>
static std::string apply(E &e, int op, unsigned N, const std::vector<unsigned> &idx)
{
    switch (op) {
        case 0: e.mutate(idx[0]); break;
        case 1:
            if (idx == e.get_active_genes()) e.mutate(e.get_active_genes()); // the argument belongs to the expression
            else e.mutate(idx);
            break;
        case 2: e.mutate_random(N); break;
        case 3: e.mutate_inactive(N); break;
        case 4: e.mutate_active(N); break;
        case 5: e.mutate_active_fgene(N); break;
        case 6: e.mutate_active_cgene(N); break;
        default: e.mutate_ogene(N);
    }
    return std::string(names[op]) + "(" + (op == 0 ? str(idx[0]) : op == 1 ? vs(idx) : str(N)) + ")";
}
// may a single mutation by this operator touch gene g?
static bool admissible(int op, const Kinds &k, unsigned g, const std::vector<unsigned> &idx)
{
    switch (op) {
        case 0: return g == idx[0];
        case 1: return std::find(idx.begin(), idx.end(), g) != idx.end();
        case 2: return true;
        case 3: return !k.active[g];
        case 4: return k.active[g];
        case 5: return k.active[g] && k.kind[g] == 'f';
        case 6: return k.active[g] && k.kind[g] == 'c';
        default: return k.kind[g] == 'o';
    }
}
template <typename E>
static void one(E &e, const ref::Prog &shape, Rng &r, std::string &hist)
{
    auto p = shape;
    p.x = e.get();
    const auto lb = p.lb(), ub = p.ub();
    const auto k = kinds(p);
    int op = static_cast<int>(r.u(0, 7));
    unsigned N = r.coin(0.15) ? 0u : r.coin() ? 1u : r.u(2, 9);
    std::vector<unsigned> idx;
    auto S = static_cast<unsigned>(p.x.size());
    unsigned ni = op == 0 ? 1u : r.u(0, 7);
    for (unsigned i = 0; i < ni; ++i) idx.push_back(r.u(0, S - 1u));
    if (op == 1 && r.coin(0.2)) idx = e.get_active_genes();
    bool dup = false;
    {
        auto t = idx;
        std::sort(t.begin(), t.end());
        dup = std::unique(t.begin(), t.end()) != t.end();
    }
    const auto w = gen::weights(e), b = gen::biases(e);
    const auto cv = e.get_eph_val();
    const auto d = apply(e, op, N, idx);
    hist += d + ";";
    count(std::string("calls ") + names[op]);
    const auto &x = e.get();
    auto where = [&] { return std::string(gen::kind_name<E>()) + " " + p.descr() + " " + d + " gave " + vs(e.get()); };
    const std::string key = names[op];
    if (x.size() != S) {
        violation(key + " size", where());
        return;
    }
    unsigned changed = 0;
    for (unsigned g = 0; g < S; ++g) {
        if (x[g] < lb[g] || x[g] > ub[g]) violation(key + " bounds", where() + " gene " + str(g));
        if (x[g] == p.x[g]) continue;
        ++changed;
        count("genes_changed");
        // after several connection changes other connection genes may have become active
        bool ok = op == 6 && N > 1u ? k.kind[g] == 'c' : admissible(op, k, g, idx);
        if (!ok) violation(key + " wrong gene", where() + " gene " + str(g) + " kind " + std::string(1, k.kind[g]) + (k.active[g] ? " active" : " inactive"));
    }
    if (op >= 2 && changed > N) violation(key + " too many", where() + " changed " + str(changed));
    if (op == 6 && N > 1u && changed) {
        bool any = false;
        for (unsigned g = 0; g < S; ++g) any = any || (x[g] != p.x[g] && k.active[g]);
        (void)any;
    }
    auto mutable_kind = [&](unsigned g) { return lb[g] < ub[g]; };
    // exactness where the request determines it
    if (op == 0 && mutable_kind(idx[0]) != (changed == 1u)) violation(key + " not changed", where());
    if (op == 1 && !dup)
        for (auto g : idx)
            if (mutable_kind(g) != (x[g] != p.x[g])) violation(key + " not changed", where() + " gene " + str(g));
    if (N == 1u && op >= 2) {
        // does every gene that may be chosen admit a change? then exactly one must have changed
        bool all = true, any = false;
        for (unsigned g = 0; g < S; ++g)
            if (admissible(op, k, g, idx)) {
                any = true;
                all = all && mutable_kind(g);
            }
        if (op != 3 && any && all && changed != 1u) violation(key + " not changed", where());
        if (!any && changed) violation(key + " changed", where());
    }
    if (!same(w, gen::weights(e)) || !same(b, gen::biases(e)) || !same(cv, e.get_eph_val())) violation(key + " parameters touched", where());
}
// every admissible (gene, value) occurs
template <typename E>
static void reach(const E &e0, const ref::Prog &shape, Rng &r)
{
    auto p = shape;
    p.x = e0.get();
    const auto lb = p.lb(), ub = p.ub();
    const auto k = kinds(p);
    auto S = static_cast<unsigned>(p.x.size());
    int op = static_cast<int>(r.u(0, 7));
    std::vector<unsigned> idx;
    if (op <= 1) {
        unsigned ni = op == 0 ? 1u : r.u(1, 3);
        while (idx.size() < ni) {
            auto g = r.u(0, S - 1u);
            if (std::find(idx.begin(), idx.end(), g) == idx.end()) idx.push_back(g);
            if (idx.size() >= S) break;
        }
    }
    std::set<std::pair<unsigned, unsigned>> todo;
    unsigned genes = 0, alts = 1;
    for (unsigned g = 0; g < S; ++g)
        if (admissible(op, k, g, idx)) {
            ++genes;
            alts = std::max(alts, ub[g] - lb[g]);
            for (unsigned v = lb[g]; v <= ub[g]; ++v)
                if (v != p.x[g]) todo.insert({g, v});
        }
    if (todo.empty()) return;
    if (op == 3) genes = S; // an attempt may hit an active gene and do nothing
    if (op == 6) { // node first, then connection: the smallest probability is 1 / (nodes * max arity)
        unsigned ma = 1;
        for (auto a : p.arity) ma = std::max(ma, a);
        unsigned na = 0;
        for (auto id : p.active()) na += id >= p.n;
        genes = na * ma;
    }
    const double K = static_cast<double>(genes) * alts;
    if (K > 300.) return;
    const long T = static_cast<long>(2. * K * (std::log(K + 1.) + 32.));
    const auto total = todo.size();
    E e(e0);
    e.seed(static_cast<long>(r.u(1, 1000000000u)));
    for (long t = 0; t < T && !todo.empty(); ++t) {
        if (t) e.set(p.x);
        apply(e, op, 1u, idx);
        for (unsigned g = 0; g < S; ++g)
            if (e.get()[g] != p.x[g]) todo.erase({g, e.get()[g]});
    }
    count("reachability_pairs", total);
    count("reachability_campaigns");
    if (!todo.empty())
        violation(std::string(names[op]) + " unreachable value", std::string(gen::kind_name<E>()) + " " + p.descr() + ": in " + str(T) + " calls gene "
                                                                     + str(todo.begin()->first) + " never became " + str(todo.begin()->second) + " (" + str(todo.size())
                                                                     + " such pairs)" + (op <= 1 ? " idx " + vs(idx) : ""));
}
// numbers of genes, nodes, inputs and outputs past 65536
static void huge(Rng &r)
{
    gen::with_huge(r, [&](auto &e, ref::Prog &p, const std::string &d) {
        auto lb = p.lb(), ub = p.ub();
        if (e.get_lb() != lb) violation("lower bounds", d);
        if (e.get_ub() != ub) violation("upper bounds", d);
        const auto S = static_cast<unsigned>(p.x.size());
        auto in_bounds = [&](const std::vector<unsigned> &x) {
            if (x.size() != S) return false;
            for (unsigned g = 0; g < S; ++g)
                if (x[g] < lb[g] || x[g] > ub[g]) return false;
            return true;
        };
        {
            dcgp::expression<double> fresh(p.n, p.m, p.r, p.c, p.l, p.arity, gen::kernels<double>(p), 0u, static_cast<unsigned>(r.u64()));
            if (!in_bounds(fresh.get())) violation("construction bounds", d);
        }
        // every quarter of the chromosome and of the range of each long gene is reached by random mutations
        for (unsigned k = 0; k < 2u; ++k) {
            auto before = e.get();
            const unsigned N = 2000u;
            e.mutate_random(N);
            const auto &x = e.get();
            if (!in_bounds(x)) violation("mutate_random bounds", d);
            unsigned changed = 0;
            std::vector<unsigned> q(4), v(4), cand(4), vc(4);
            for (unsigned g = 0; g < S; ++g) {
                auto w = static_cast<unsigned>(4ull * g / S);
                if (lb[g] < ub[g]) ++cand[w];
                if (x[g] == before[g]) continue;
                ++changed;
                ++q[w];
                if (ub[g] - lb[g] > 1000u) ++v[static_cast<unsigned>(4ull * (x[g] - lb[g]) / (ub[g] - lb[g] + 1ull))];
            }
            if (changed > N) violation("mutate_random changed too many", d);
            unsigned longs = v[0] + v[1] + v[2] + v[3];
            for (unsigned w = 0; w < 4u; ++w) {
                if (S > 60000u && q[w] == 0u && cand[w] > S / 16u) violation("mutate_random never reaches a part of the chromosome", d + " quarter " + str(w) + " of " + str(S));
                if (v[w] == 0u && longs > 250u) violation("mutate_random never gives some values", d + " quarter " + str(w));
            }
        }
        // one gene at a time, also the last ones
        for (unsigned k = 0; k < 6u; ++k) {
            auto before = e.get();
            auto g = k < 3u ? S - 1u - r.u(0, std::min(30u, S - 1u)) : r.u(0, S - 1u);
            if (k % 2u) e.mutate(g);
            else e.mutate(std::vector<unsigned>{g});
            unsigned n = 0;
            for (unsigned i = 0; i < S; ++i) n += e.get()[i] != before[i];
            bool can = lb[g] < ub[g];
            if (n != (can ? 1u : 0u) || (can && e.get()[g] == before[g]) || !in_bounds(e.get())) violation("mutate of one gene", d + " gene " + str(g) + " changed " + str(n));
        }
        for (int op = 3; op <= 7; ++op) {
            auto q = p;
            q.x = e.get();
            const auto ag = q.active_genes();
            auto before = e.get();
            apply(e, op, 1u, {});
            if (!in_bounds(e.get())) violation(std::string(names[op]) + " bounds", d);
            unsigned n = 0;
            for (unsigned i = 0; i < S; ++i)
                if (e.get()[i] != before[i]) {
                    ++n;
                    const bool out = i >= S - p.m, act = ag.count(i) == 1u;
                    const bool fg = !out && i % (p.arity[0] + 1u) == 0u;
                    bool ok = op == 3 ? !act : act && (op == 4 || (op == 5 && fg) || (op == 6 && !fg && !out) || (op == 7 && out));
                    if (!ok) violation(std::string(names[op]) + " wrong kind of gene", d + " gene " + str(i));
                }
            if (n > 1u) violation(std::string(names[op]) + " changed too many", d);
        }
        count("huge_chromosomes");
        evaluated("huge " + d, true);
    });
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) {
        if (c % 1000 == 501) return huge(r);
        gen::Opt o;
        if (c % 8 == 0) {
            o.max_n = 3, o.max_m = 3, o.max_r = 2, o.max_c = 3, o.max_k = 3;
            // few genes with many values
            if (r.coin(0.3)) o.max_r = 1, o.max_c = 2, o.max_m = 1, o.max_k = 30, o.max_n = r.coin() ? 3u : 25u;
        } else if (r.coin(0.2)) {
            o.max_c = 12;
            o.max_r = 6;
        }
        gen::with_expr(r, o, [&](auto &e, ref::Prog &p) {
            using E = std::decay_t<decltype(e)>;
            auto lb = p.lb(), ub = p.ub();
            if (e.get_lb() != lb) violation("lower bounds", p.descr() + " reported " + vs(e.get_lb()) + " instead of " + vs(lb));
            if (e.get_ub() != ub) violation("upper bounds", p.descr() + " reported " + vs(e.get_ub()) + " instead of " + vs(ub));
            { // as constructed
                auto f = gen::kernels<double>(p);
                dcgp::expression<double> fresh(p.n, p.m, p.r, p.c, p.l, p.arity, f, 0u, static_cast<unsigned>(r.u64()));
                const auto &x = fresh.get();
                if (x.size() != lb.size()) violation("construction size", p.descr());
                else
                    for (std::size_t g = 0; g < x.size(); ++g)
                        if (x[g] < lb[g] || x[g] > ub[g]) violation("construction bounds", p.descr() + " constructed with " + vs(x));
            }
            std::string hist;
            unsigned steps = r.u(1, 12);
            for (unsigned s = 0; s < steps; ++s) {
                if (r.coin(0.1)) hist += gen::random_op(e, r, p) + ";";
                one(e, p, r, hist);
            }
            if (c % 8 == 0) reach(e, p, r);
            // seeding makes the sequence reproducible
            E a(e), b(e);
            b.mutate_random(3u);
            b.set(a.get());
            long sd = static_cast<long>(r.u(0, 1000000000u));
            a.seed(sd);
            b.seed(sd);
            for (unsigned s = 0; s < 6u; ++s) {
                int op = static_cast<int>(r.u(2, 7));
                unsigned N = r.u(1, 5);
                apply(a, op, N, {});
                apply(b, op, N, {});
                if (a.get() != b.get()) {
                    violation("seed", p.descr() + " seed " + str(sd) + " " + names[op] + " gave " + vs(a.get()) + " and " + vs(b.get()));
                    break;
                }
            }
            evaluated(std::string(gen::kind_name<E>()) + " " + p.descr() + " ops " + hist, steps > 0u);
        });
    });
}
