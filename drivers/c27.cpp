// C27: what an object says about itself (printed descriptions, extra information, inspection methods) is true.
#include "alg.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/algorithm.hpp>
using namespace vh;
using alg::V;

static std::string trim(std::string s)
{
    auto a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1u);
}
template <typename T>
static std::string print(const T &x)
{
    std::ostringstream s;
    s << x;
    return s.str();
}
// The lines "label: value" of a description. A label that is not there is not judged.
struct Said {
    std::string text, where;
    std::multimap<std::string, std::string> line;
    bool any = false;
    Said(const std::string &t, const std::string &w) : text(t), where(w)
    {
        std::istringstream in(t);
        std::string l;
        while (std::getline(in, l)) {
            auto c = l.find(": ");
            if (c == std::string::npos) c = l.find(":\t");
            if (c == std::string::npos) continue;
            line.emplace(trim(l.substr(0, c)), trim(l.substr(c + 1u)));
        }
    }
    bool number(const std::string &s, double want) const
    {
        char *end;
        double v = std::strtod(s.c_str(), &end);
        if (s.empty() || *end) return false;
        return close(v, want, 2e-5, 1e-300);
    }
    bool one(const std::string &s, double want) const { return number(s, want); }
    bool one(const std::string &s, unsigned want) const { return number(s, want); }
    bool one(const std::string &s, std::size_t want) const { return number(s, static_cast<double>(want)); }
    bool one(const std::string &s, const std::string &want) const { return s == want; }
    template <typename T>
    bool one(const std::string &s, const std::vector<T> &want) const
    {
        if (s.size() < 2u || s.front() != '[' || s.back() != ']') return false;
        std::vector<std::string> it;
        std::istringstream in(s.substr(1u, s.size() - 2u));
        std::string q;
        while (std::getline(in, q, ',')) it.push_back(trim(q));
        while (!it.empty() && it.back().empty()) it.pop_back();
        bool cut = !it.empty() && it.back() == "...";
        if (cut) it.pop_back();
        if (cut ? (it.size() > want.size() || it.empty()) : it.size() != want.size()) return false;
        for (std::size_t i = 0; i < it.size(); ++i)
            if (!one(it[i], want[i])) return false;
        return true;
    }
    bool one(const std::string &s, bool want) const
    {
        return want ? s == "true" || s == "yes" || s == "1" : s == "false" || s == "no" || s == "0";
    }
    template <typename T>
    void says(const std::vector<std::string> &labels, const T &want)
    {
        for (auto &l : labels) {
            auto q = line.equal_range(l);
            for (auto i = q.first; i != q.second; ++i) {
                any = true;
                count("statements_judged");
                if (!one(i->second, want)) {
                    std::string w;
                    if constexpr (std::is_same<T, std::string>::value || std::is_arithmetic<T>::value) w = str(want);
                    else w = vs(want);
                    violation("description: " + l, where + " says " + i->second + " instead of " + w);
                }
            }
        }
    }
};
template <typename E>
static bool judge(const E &e, const ref::Prog &shape, const V &eph, const std::vector<std::string> &symb, const V &w, const V &b, const std::string &d)
{
    auto p = shape;
    p.x = e.get();
    auto check = [&](const char *what, bool ok) {
        if (!ok) violation(std::string("inspection: ") + what, d);
        count("statements_judged");
    };
    check("n", e.get_n() == p.n);
    check("m", e.get_m() == p.m);
    check("r", e.get_r() == p.r);
    check("c", e.get_c() == p.c);
    check("l", e.get_l() == p.l);
    check("arity", e.get_arity() == p.arity);
    for (unsigned id = p.n; id < p.n + p.r * p.c; ++id) check("arity of a node", e.get_arity(id) == p.ar(id));
    check("lb", e.get_lb() == p.lb());
    check("ub", e.get_ub() == p.ub());
    std::vector<std::string> f;
    for (auto &k : e.get_f()) f.push_back(k.get_name());
    check("f", f == p.f);
    for (std::size_t i = 0; i < f.size(); ++i) check("kernel", print(e.get_f()[i]) == p.f[i]);
    check("weights", same(gen::weights(e), w));
    check("biases", same(gen::biases(e), b));
    check("constants", same(e.get_eph_val(), eph));
    check("constants' names", e.get_eph_symb() == symb);
    std::vector<unsigned> gi;
    for (unsigned id = p.n; id < p.n + p.r * p.c; ++id) gi.push_back(p.pos(id));
    if (!e.get_gene_idx().empty()) {
        // one entry for each node, those of the inputs are not meaningful
        auto g = e.get_gene_idx();
        if (g.size() == p.n + gi.size()) check("start of the genes", std::equal(gi.begin(), gi.end(), g.begin() + p.n));
    }
    const auto before = gen::observe(e);
    const auto text = print(e);
    check("printing twice", print(e) == text);
    check("printing a copy", print(E(e)) == text);
    check("printing does not change the object", gen::observe(e) == before);
    Said s(text, d);
    s.says({"Number of inputs"}, p.n);
    s.says({"Number of outputs"}, p.m);
    s.says({"Number of rows"}, p.r);
    s.says({"Number of columns"}, p.c);
    s.says({"Number of levels-back allowed"}, p.l);
    s.says({"Basis function arity"}, p.arity);
    s.says({"Resulting lower bounds"}, p.lb());
    s.says({"Resulting upper bounds"}, p.ub());
    s.says({"Current expression (encoded)"}, p.x);
    auto an = p.active();
    auto ag = p.active_genes();
    s.says({"Active nodes"}, std::vector<unsigned>(an.begin(), an.end()));
    s.says({"Active genes"}, e.get_active_genes()); // the order is not documented
    check("active genes", std::set<unsigned>(e.get_active_genes().begin(), e.get_active_genes().end()) == std::set<unsigned>(ag.begin(), ag.end()));
    s.says({"Function set"}, p.f);
    s.says({"Number of ephemeral constants"}, eph.size());
    s.says({"Ephemeral constants names"}, symb);
    s.says({"Ephemeral constants values"}, eph);
    s.says({"Weights"}, w);
    s.says({"Biases"}, b);
    return s.any;
}
static void expressions(Rng &r)
{
    gen::Opt o;
    gen::with_expr(r, o, [&](auto &e, ref::Prog &p) {
        using E = std::decay_t<decltype(e)>;
        V eph = e.get_eph_val(), w = gen::weights(e), b = gen::biases(e);
        std::vector<std::string> symb = e.get_eph_symb();
        std::string hist = std::string(gen::kind_name<E>()) + " " + p.descr();
        bool any = judge(e, p, eph, symb, w, b, hist);
        for (unsigned k = r.u(1, 6); k > 0u; --k) {
            unsigned what = r.u(0, 5);
            if constexpr (std::is_same<E, gen::plain_t>::value) {
                if (what == 0u) {
                    eph = gen::special(r, gen::values(r, eph.size()));
                    e.set_eph_val(eph);
                    hist += "; constants " + vs(eph);
                } else if (what == 1u) {
                    for (auto &q : symb) q = "k" + str(r.u(0, 50));
                    e.set_eph_symb(symb);
                    hist += "; names " + vs(symb);
                }
            } else if (what == 0u) {
                w = gen::special(r, gen::values(r, w.size()));
                e.set_weights(w);
                hist += "; weights";
            } else if (what == 1u) {
                auto node = r.u(p.n, p.n + p.r * p.c - 1u);
                unsigned at = 0, in = r.u(0, p.ar(node) - 1u);
                for (unsigned id = p.n; id < node; ++id) at += p.ar(id);
                e.set_weight(node, in, w[at + in] = r.real(-9., 9.));
                hist += "; weight " + str(node) + "," + str(in);
            } else if constexpr (gen::is_ann<E>::value) {
                if (what == 2u) {
                    b = gen::special(r, gen::values(r, b.size()));
                    e.set_biases(b);
                    hist += "; biases";
                } else if (what == 3u) {
                    auto i = r.u(0, static_cast<unsigned>(b.size()) - 1u);
                    e.set_bias(i, b[i] = r.real(-9., 9.));
                    hist += "; bias " + str(i);
                }
            }
            if (what >= 4u) {
                bool threw;
                hist += what == 4u ? "; " + gen::random_op(e, r, p) : "; rejected " + gen::bad_op(e, r, p, threw);
            }
            if (r.coin(0.2)) {
                V pt(gen::n_in(e), 0.5);
                (void)e(pt);
                hist += "; evaluated";
            }
            any = judge(e, p, eph, symb, w, b, hist) || any;
        }
        evaluated(hist, any);
    });
}
static void kernels(Rng &r)
{
    // an own kernel, and sets of library kernels grown in several ways
    auto nm = "own" + str(r.u(0, 1000));
    dcgp::kernel<double> k([](const V &v) { return v[0]; }, [](const std::vector<std::string> &v) { return v[0]; }, nm);
    auto k2 = k;
    dcgp::kernel<double> k3(std::move(k2));
    for (auto *q : {&k, &k3})
        if (print(*q) != nm || q->get_name() != nm) violation("kernel name", "kernel " + nm + " prints as " + print(*q) + ", name " + q->get_name());
    auto all = ref::all_kernels();
    std::vector<std::string> want;
    dcgp::kernel_set<double> s;
    for (unsigned i = r.u(0, 9); i > 0u; --i) {
        if (r.coin(0.2)) {
            s.push_back(k);
            want.push_back(nm);
        } else {
            want.push_back(r.pick(all));
            s.push_back(want.back());
        }
    }
    if (r.coin(0.2)) {
        s.clear();
        want.clear();
    }
    auto d = "kernel set " + vs(want);
    Said said("set: " + print(s), d);
    said.says({"set"}, want);
    for (std::size_t i = 0; i < want.size(); ++i)
        if (s[i].get_name() != want[i] || print(s[i]) != want[i]) violation("kernel set element", d + " element " + str(i) + " is " + s[i].get_name());
    if (s().size() != want.size()) violation("kernel set size", d + " has " + str(s().size()));
    evaluated(d, true);
}
static bool judge(const dcgp::symbolic_regression &s, const srg::Conf &c, const std::string &d)
{
    auto check = [&](const char *what, bool ok) {
        if (!ok) violation(std::string("problem: ") + what, d);
        count("statements_judged");
    };
    check("number of objectives", s.get_nobj() == (c.mo ? 2u : 1u));
    check("integer part", s.get_nix() == c.p.size());
    auto bd = s.get_bounds();
    auto lb = c.p.lb(), ub = c.p.ub();
    check("size of the bounds", bd.first.size() == c.dim() && bd.second.size() == c.dim());
    if (bd.first.size() == c.dim() && bd.second.size() == c.dim())
        for (std::size_t i = 0; i < lb.size(); ++i)
            check("bounds", bd.first[c.n_eph + i] == lb[i] && bd.second[c.n_eph + i] == ub[i]);
    check("name", !s.get_name().empty());
    Said q(s.get_extra_info(), d);
    q.says({"Data dimension (points)"}, std::size_t(c.nin()));
    q.says({"Data dimension (labels)"}, std::size_t(c.p.m));
    q.says({"Data size"}, c.X.size());
    q.says({"Kernels"}, c.p.f);
    q.says({"Loss"}, c.loss);
    return q.any;
}
static void problems(Rng &r)
{
    srg::Opt o;
    auto c = srg::conf(r, o), c2 = srg::conf(r, o);
    auto s = srg::make(c), s2 = srg::make(c2);
    std::string hist = c.descr();
    bool any = judge(s, c, hist);
    for (unsigned k = r.u(1, 6); k > 0u; --k) {
        auto x = srg::dv(r, c);
        switch (r.u(0, 8)) {
            case 0: (void)s.fitness(x), hist += "; fitness"; break;
            case 1:
                if (c.n_eph) (void)s.gradient(x), hist += "; gradient";
                break;
            case 2:
                if (c.n_eph) (void)s.hessians(x), hist += "; hessians";
                break;
            case 3: (void)s.predict(V(c.nin(), 0.5), x), hist += "; predict"; break;
            case 4: {
                srg::Pc pc;
                pc.kind = 1, pc.k = 2.;
                s.set_phenotype_correction(srg::pc_fun<double>(pc), srg::pc_fun<audi::gdual_v>(pc));
                hist += "; corrected";
                break;
            }
            case 5: std::swap(s, s2), std::swap(c, c2), hist += "; swapped with " + c.descr(); break;
            case 6: s2 = s, c2 = c, hist += "; copied"; break;
            case 7: {
                s.set_cgp(x);
                auto &e = s.get_cgp();
                std::vector<unsigned> g;
                for (std::size_t i = c.n_eph; i < x.size(); ++i) g.push_back(static_cast<unsigned>(x[i]));
                if (e.get() != g || !same(e.get_eph_val(), V(x.begin(), x.begin() + c.n_eph))) violation("problem: model set", hist + " set to " + vs(x) + " holds " + vs(e.get()) + vs(e.get_eph_val()));
                hist += "; set_cgp";
                judge(e, c.p, V(x.begin(), x.begin() + c.n_eph), e.get_eph_symb(), {}, {}, "model of " + hist);
                break;
            }
            default: {
                pagmo::problem p(s);
                auto d = hist + " as a pagmo::problem";
                if (p.get_name() != s.get_name() || p.get_extra_info() != s.get_extra_info() || p.get_nobj() != s.get_nobj() || p.get_nx() != c.dim() || p.get_nix() != s.get_nix()
                    || p.get_nec() != 0u || p.get_nic() != 0u || p.is_stochastic())
                    violation("problem: through pagmo", d);
            }
        }
        any = judge(s, c, hist) || any;
        judge(s2, c2, "the other problem of " + hist);
    }
    evaluated(hist, any);
}
struct Settings {
    unsigned gen = 1, mut = 4, seed = 0, verb = 0;
    double a = 0., b = 0.;
    bool learn = true, bfe = false;
};
template <typename A>
constexpr bool is_gd = std::is_same<A, dcgp::gd4cgp>::value;
template <typename A>
constexpr bool has_bfe = std::is_same<A, dcgp::es4cgp>::value || std::is_same<A, dcgp::moes4cgp>::value;
template <typename A>
static bool judge(const A &a, const Settings &s, const std::string &d)
{
    auto check = [&](const char *what, bool ok) {
        if (!ok) violation(std::string("algorithm: ") + what, d);
        count("statements_judged");
    };
    check("verbosity", a.get_verbosity() == s.verb);
    if constexpr (!is_gd<A>) check("seed", a.get_seed() == s.seed);
    check("name", !a.get_name().empty() && a.get_name() == A(a).get_name());
    Said q(a.get_extra_info(), d);
    if constexpr (is_gd<A>) {
        q.says({"Maximum number of iterations"}, s.gen);
        q.says({"Initial learning rate"}, s.a);
        q.says({"Minimum learning rate"}, s.b);
    } else {
        q.says({"Maximum number of generations", "Number of generations"}, s.gen);
        q.says({"Maximum number of active mutations", "Number of active mutations"}, s.mut);
        q.says({"Exit condition of the final loss (ftol)"}, s.a);
        q.says({"Seed"}, s.seed);
        if constexpr (has_bfe<A>) {
            q.says({"Learn constants?"}, s.learn);
            q.says({"Using bfe"}, s.bfe);
        }
    }
    q.says({"Verbosity"}, s.verb);
    return q.any;
}
template <typename A, typename Make>
static void algorithm(Rng &r, const std::string &name, Make make, int mo, int eph)
{
    alg::SOpt so;
    so.mo = mo, so.eph = eph;
    so.wild = 0.;
    auto st = alg::setup(r, so);
    const bool may_print = st.c.printable();
    auto settings = [&] {
        Settings s;
        s.gen = r.coin(0.1) ? 0u : r.coin(0.1) ? r.u(1000, 4000000000u) : r.u(1, 5);
        s.mut = r.coin(0.1) ? r.u(100, 4000000000u) : r.u(1, 6);
        s.seed = static_cast<unsigned>(r.u64());
        s.a = is_gd<A> ? r.real(0.01, 2.) : r.coin() ? 0. : std::pow(10., r.real(-12., 1.));
        s.b = s.a * r.real(0.01, 0.99);
        s.learn = r.coin();
        return s;
    };
    Settings s = settings(), s2 = settings();
    A a = make(s), a2 = make(s2);
    std::string hist = name;
    bool any = judge(a, s, hist);
    const pagmo::problem prob(st.sr);
    Mute m;
    for (unsigned k = r.u(1, 7); k > 0u; --k) {
        switch (r.u(0, 6)) {
            case 0:
                s.verb = r.coin(0.2) ? r.u(0, 4000000000u) : r.u(0, 3);
                a.set_verbosity(s.verb);
                hist += "; verbosity " + str(s.verb);
                break;
            case 1:
                if constexpr (!is_gd<A>) {
                    s.seed = static_cast<unsigned>(r.u64());
                    a.set_seed(s.seed);
                    hist += "; seed " + str(s.seed);
                }
                break;
            case 2:
                if constexpr (has_bfe<A>) {
                    a.set_bfe(pagmo::bfe(alg::OneByOne{}));
                    s.bfe = true;
                    hist += "; bfe";
                }
                break;
            case 3: std::swap(a, a2), std::swap(s, s2), hist += "; swapped"; break;
            case 4: a2 = a, s2 = s, hist += "; copied"; break;
            case 5: {
                if (s.gen > 5u || s.mut > 6u || (s.verb && !may_print)) break;
                (void)a.evolve(alg::population(r, st, prob));
                hist += "; evolved";
                break;
            }
            default: {
                pagmo::algorithm p(a);
                hist += "; held by pagmo::algorithm";
                if (p.get_name() != a.get_name() || p.get_extra_info() != a.get_extra_info()) violation("algorithm: through pagmo", hist);
                const unsigned v = r.u(0, 2);
                p.set_verbosity(v);
                auto t = s;
                t.verb = v;
                if constexpr (!is_gd<A>) {
                    t.seed = static_cast<unsigned>(r.u64());
                    p.set_seed(t.seed);
                }
                judge(*p.extract<A>(), t, hist);
            }
        }
        any = judge(a, s, hist) || any;
        judge(a2, s2, "the other one of " + hist);
    }
    evaluated(hist + " on " + st.descr() + " ftol " + str(s.a) + " gen " + str(s.gen), any);
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long) {
        switch (r.u(0, 11)) {
            case 0: kernels(r); break;
            case 1:
            case 2: problems(r); break;
            case 3: algorithm<dcgp::es4cgp>(r, "es4cgp", [](const Settings &s) { return dcgp::es4cgp(s.gen, s.mut, s.a, s.learn, s.seed); }, 0, -1); break;
            case 4: algorithm<dcgp::moes4cgp>(r, "moes4cgp", [](const Settings &s) { return dcgp::moes4cgp(s.gen, s.mut, s.a, s.learn, s.seed); }, 1, -1); break;
            case 5: algorithm<dcgp::mes4cgp>(r, "mes4cgp", [](const Settings &s) { return dcgp::mes4cgp(s.gen, s.mut, s.a, s.seed); }, 0, 2); break;
            case 6: algorithm<dcgp::momes4cgp>(r, "momes4cgp", [](const Settings &s) { return dcgp::momes4cgp(s.gen, s.mut, s.a, s.seed); }, 1, 2); break;
            case 7: algorithm<dcgp::gd4cgp>(r, "gd4cgp", [](const Settings &s) { return dcgp::gd4cgp(s.gen, s.a, s.b); }, 0, 2); break;
            default: expressions(r);
        }
    });
}
