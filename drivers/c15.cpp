// C15: printed formulas, parsed independently, denote what is evaluated.
#include "srg.hpp"
#include "sym.hpp"
using namespace vh;
using V = std::vector<double>;
using Env = std::map<std::string, double>;

// formula f under env against the actual value. 1 compared, 0 wrong, -1 not judged
static int compare(const std::string &f, const sym::Formula &fo, const Env &env, double actual, std::string &why)
{
    std::map<std::string, ref::N> e;
    for (auto &q : env) e.emplace(q.first, ref::N(q.second));
    ref::nonfinite_node() = false;
    ref::Cond c = ref::conditioned([&] { return fo.eval<ref::N>(e).v; });
    if (ref::nonfinite_node()) return -1;
    int v = ref::judge(c, actual);
    if (v == 0) why = f.substr(0, 1500) + " is " + str(c.v) + " +- " + str(c.tol) + " while the value is " + str(actual);
    return v;
}
static std::vector<std::string> var_names(Rng &r, std::size_t n)
{
    static const std::vector<std::vector<std::string>> pools{{"x", "y", "z", "t", "u", "v"}, {"x0", "x1", "x2", "x3", "x4", "x5"}, {"alpha", "beta_1", "T", "e", "exp_", "sinx"}};
    std::vector<std::string> v;
    auto &p = pools[r.u(0, 2)];
    for (std::size_t i = 0; i < n; ++i) v.push_back(i < p.size() ? p[i] : "q" + str(i));
    if (r.coin()) r.shuffle(v);
    return v;
}
// names that the formulas of e may mention, and their values
template <typename E>
static Env environment(const E &e, const ref::Prog &p, const std::vector<std::string> &names, const V &pt)
{
    Env env;
    auto act = p.active();
    for (auto id : act) {
        if (id < pt.size()) env[names[id]] = pt[id];
        else if (id < p.n) env[e.get_eph_symb()[id - pt.size()]] = e.get_eph_val()[id - pt.size()];
        else {
            if constexpr (gen::is_ann<E>::value || gen::is_weighted<E>::value)
                for (unsigned a = 0; a < p.ar(id); ++a) env["w" + str(id) + "_" + str(a)] = e.get_weight(id, a);
            if constexpr (gen::is_ann<E>::value) env["b" + str(id)] = e.get_bias(id - p.n);
        }
    }
    return env;
}
template <typename E>
static void check(const E &e, Rng &r, const std::string &d, bool &judged)
{
    auto p = gen::shape_of(e);
    if (p.formula_size() > 1500.) {
        count("formulas too long");
        return;
    }
    const auto n = gen::n_in(e);
    auto names = var_names(r, n);
    auto before = gen::observe(e);
    auto s = e(names);
    if (s.size() != p.m) {
        violation("number of formulas", d + " " + str(s.size()));
        return;
    }
    if (s != e(names)) violation("the formula changes between calls", d);
    // the wrong number of names
    for (int k = 0; k < 2; ++k) {
        auto bad = names;
        if (k == 0) bad.pop_back();
        else bad.push_back("extra");
        bool threw = false;
        try {
            e(bad);
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        if (!threw) violation("the wrong number of names is accepted", d + " " + str(bad.size()) + " names");
    }
    if (e.get_eph_val().size()) { // names of inputs and constants together
        auto bad = names;
        bad.insert(bad.end(), e.get_eph_symb().begin(), e.get_eph_symb().end());
        bool threw = false;
        try {
            e(bad);
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        if (!threw) violation("the wrong number of names is accepted", d + " " + str(bad.size()) + " names");
    }
    if (gen::observe(e) != before) violation("asking for formulas changes the expression", d);
    for (unsigned o = 0; o < p.m; ++o) {
        std::unique_ptr<sym::Formula> f;
        try {
            f.reset(new sym::Formula(s[o]));
        } catch (const sym::Error &x) {
            violation("formula does not parse", d + " output " + str(o) + ": " + x.what());
            return;
        }
        for (int k = 0; k < 3; ++k) {
            V pt = k == 0 ? gen::values(r, n) : gen::smooth_values(r, n, -1.7, 1.7);
            auto env = environment(e, p, names, pt);
            for (auto &v : f->vars)
                if (!env.count(v)) {
                    violation("the formula mentions something inactive", d + " output " + str(o) + " mentions " + v + ": " + s[o].substr(0, 800));
                    return;
                }
            std::string why;
            int v = 0;
            try {
                v = compare(s[o], *f, env, e(pt)[o], why);
            } catch (const sym::Error &x) {
                violation("formula cannot be evaluated", d + " " + x.what());
                return;
            }
            if (v == 0) {
                violation("formula and value differ", d + " output " + str(o) + " at " + vs(pt) + ": " + why);
                return;
            }
            if (v > 0) {
                judged = true;
                count(std::string("compared formulas of ") + gen::kind_name<E>());
            }
        }
        if (s[o].size() > 100u) count("formulas longer than 100 characters");
    }
}
static void expressions(Rng &r)
{
    gen::Opt o;
    o.max_c = 5, o.max_r = 3;
    gen::with_expr(r, o, [&](auto &e, const ref::Prog &p) {
        bool judged = false;
        std::string d = std::string(gen::kind_name<std::decay_t<decltype(e)>>()) + " " + p.descr();
        check(e, r, d, judged);
        for (unsigned i = r.u(0, 3); i > 0u; --i) {
            d += " " + gen::random_op(e, r, p);
            if constexpr (std::is_same<std::decay_t<decltype(e)>, gen::plain_t>::value) {
                if (!e.get_eph_val().empty() && r.coin(0.3)) {
                    std::vector<std::string> nm;
                    for (std::size_t j = 0; j < e.get_eph_val().size(); ++j) nm.push_back((r.coin() ? "k" : "const_") + str(j));
                    e.set_eph_symb(nm);
                    d += " set_eph_symb";
                    count("constants renamed");
                }
                if (!e.get_eph_val().empty() && r.coin(0.3)) {
                    e.set_eph_val(gen::smooth_values(r, e.get_eph_val().size()));
                    d += " set_eph_val";
                }
            } else {
                if (r.coin(0.3)) {
                    unsigned id = r.u(p.n, p.n + p.r * p.c - 1u);
                    e.set_weight(id, r.u(0, p.ar(id) - 1u), r.real(-2., 2.));
                    d += " set_weight";
                }
            }
            check(e, r, d, judged);
        }
        evaluated(d + " " + vs(e.get()), judged);
    });
}
// the same program over duals prints the same formula
template <typename T>
static void twins(Rng &r, const char *type)
{
    gen::Opt o;
    o.max_c = 4, o.max_r = 3;
    o.uniform_arity = true;
    o.kernels.erase(std::find(o.kernels.begin(), o.kernels.end(), "pdiv"));
    bool weighted = r.coin();
    unsigned ne = weighted ? 0u : r.u(0, 2);
    auto p = gen::prog(r, o, ne);
    p.x = gen::chromosome(r, p);
    if (p.formula_size() > 1000.) return;
    auto names = var_names(r, p.n - ne);
    std::string d = std::string(type) + (weighted ? " weighted " : " ") + p.descr();
    if (weighted) {
        gen::weighted_t a(p.n, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<double>(p), 1u);
        dcgp::expression_weighted<T> b(p.n, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<T>(p), 2u);
        a.set(p.x), b.set(p.x);
        if (a(names) != b(names)) violation("formulas over doubles and duals differ", d);
    } else {
        gen::plain_t a(p.n - ne, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<double>(p), ne, 1u);
        dcgp::expression<T> b(p.n - ne, p.m, p.r, p.c, p.l, p.arity[0], gen::kernels<T>(p), ne, 2u);
        a.set(p.x), b.set(p.x);
        if (a(names) != b(names)) violation("formulas over doubles and duals differ", d);
    }
    count(std::string("formulas over ") + type);
    evaluated(d, true);
}
static std::string printer(const std::string &k, const std::vector<std::string> &a)
{
#define F(n, f)                                                                                                        \
    if (k == n) return dcgp::print_##f(a);
    F("sum", my_sum) F("diff", my_diff) F("mul", my_mul) F("div", my_div) F("pdiv", my_pdiv) F("sig", my_sig)
    F("tanh", my_tanh) F("ReLu", my_relu) F("ELU", my_elu) F("ISRU", my_isru) F("sin", my_sin) F("cos", my_cos)
    F("log", my_log) F("exp", my_exp) F("gaussian", my_gaussian) F("sqrt", my_sqrt) F("psqrt", my_psqrt)
    F("sin_nu", my_sin_nu) F("cos_nu", my_cos_nu) F("gaussian_nu", my_gaussian_nu) F("inv_sum", my_inv_sum)
    F("abs", my_abs) F("step", my_step)
#undef F
    return "?";
}
static void kernels(Rng &r)
{
    auto &ks = ref::all_kernels();
    const auto k = ks[r.u(0, static_cast<unsigned>(ks.size()) - 1u)];
    auto ker = dcgp::kernel_set<double>(std::vector<std::string>{k})()[0];
    const unsigned n = r.u(1, 6);
    auto names = var_names(r, n);
    // arguments are themselves results of kernels, as inside an expression
    std::vector<std::string> args = names;
    V pt = r.coin() ? gen::values(r, n) : gen::smooth_values(r, n), av = pt;
    std::string inner;
    if (r.coin()) {
        for (unsigned i = 0; i < n; ++i) {
            auto q = ks[r.u(0, static_cast<unsigned>(ks.size()) - 1u)];
            auto kk = dcgp::kernel_set<double>(std::vector<std::string>{q})()[0];
            auto j = r.u(0, n - 1u);
            args[i] = kk(std::vector<std::string>{names[i], names[j]});
            av[i] = kk(V{pt[i], pt[j]});
            inner += " " + q;
        }
    }
    std::string d = k + " of" + inner + " " + vs(pt);
    auto s = ker(args);
    if (s != printer(k, args)) violation("the functor and the kernel differ", d);
    bool judged = false;
    try {
        sym::Formula f(s);
        Env env;
        for (unsigned i = 0; i < n; ++i) env[names[i]] = pt[i];
        std::string why;
        int v = compare(s, f, env, ker(av), why);
        if (v == 0) violation("formula and value differ", d + ": " + why);
        if (v > 0) judged = true;
    } catch (const sym::Error &x) {
        violation("formula does not parse", d + ": " + x.what());
    }
    count("kernel formulas");
    evaluated(d, judged);
}
static void problems(Rng &r)
{
    srg::Opt o;
    o.g.max_c = 4;
    auto c = srg::conf(r, o);
    auto s = srg::make(c);
    std::string d = c.descr();
    bool judged = false;
    std::vector<V> xs;
    for (unsigned i = r.u(1, 3); i > 0u; --i) xs.push_back(srg::dv(r, c));
    for (unsigned step = r.u(1, 5); step > 0u; --step) {
        auto &x = r.pick(xs);
        if (r.coin(0.2)) s.fitness(r.pick(xs)), d += " fitness";
        bool pd = std::find(c.p.f.begin(), c.p.f.end(), "pdiv") != c.p.f.end();
        if (r.coin(0.2) && !pd) s.gradient(r.pick(xs)), d += " gradient";
        auto p = srg::prog_of(c, x);
        if (p.formula_size() > 800.) continue;
        auto act = p.active();
        for (int k = 0; k < 2; ++k) {
            std::string txt = k ? s.prettier(x) : s.pretty(x);
            d += k ? " prettier" : " pretty";
            if (c.p.m > 5u) continue; // pagmo::stream prints no more than five formulas
            try {
                auto parts = sym::split_list(txt);
                if (parts.size() != c.p.m) {
                    violation("number of formulas", d + ": " + txt.substr(0, 500));
                    return;
                }
                for (unsigned out = 0; out < c.p.m; ++out) {
                    sym::Formula f(parts[out]);
                    V pt = gen::smooth_values(r, c.nin());
                    Env env;
                    for (auto id : act) {
                        if (id < c.nin()) env["x" + str(id)] = pt[id];
                        else if (id < c.p.n) env["c" + str(id - c.nin() + 1u)] = x[id - c.nin()];
                    }
                    for (auto &v : f.vars)
                        if (!env.count(v)) {
                            violation("the formula mentions something inactive", d + " " + v + " in " + parts[out].substr(0, 800));
                            return;
                        }
                    std::string why;
                    int v = compare(parts[out], f, env, s.predict(pt, x)[out], why);
                    if (v == 0) violation(k ? "prettier formula and prediction differ" : "pretty formula and prediction differ", d + " at " + vs(pt) + " x " + vs(x) + ": " + why);
                    if (v > 0) judged = true, count(k ? "prettier compared" : "pretty compared");
                }
            } catch (const sym::Error &q) {
                violation("formula does not parse", d + ": " + q.what());
                return;
            }
        }
    }
    evaluated(d + vs(xs[0]), judged);
}
// objects that differ by one thing at a time, printed with one of two lists of names
template <typename E, typename T>
static void persistent(Rng &r)
{
    bool judged = false;
    std::map<std::size_t, std::vector<std::vector<std::string>>> lists;
    auto d = gen::twins<E, T>(
        r,
        [&](const E &e, const gen::TwinState &s) {
            if (s.p.formula_size() > 800.) return;
            auto &l = lists[s.pt.size()];
            while (l.size() < 2u) l.push_back(var_names(r, s.pt.size()));
            const auto &names = r.coin(0.8) ? l[0] : l[1];
            auto f = e(names);
            if (f.size() != s.p.m) return violation("number of formulas", s.where);
            for (unsigned o = 0; o < s.p.m; ++o) {
                Env env;
                for (auto id : s.p.active()) {
                    if (id < s.pt.size()) env[names[id]] = s.pt[id];
                    else if (id < s.p.n) env[e.get_eph_symb()[id - s.pt.size()]] = s.eph[id - s.pt.size()];
                    else if constexpr (gen::is_ann<E>::value || !std::is_same<E, dcgp::expression<T>>::value) {
                        for (unsigned a = 0; a < s.p.ar(id); ++a) env["w" + str(id) + "_" + str(a)] = s.w[s.p.wpos(id) + a];
                        if constexpr (gen::is_ann<E>::value) env["b" + str(id)] = s.b[id - s.p.n];
                    }
                }
                auto in = s.pt;
                in.insert(in.end(), s.eph.begin(), s.eph.end());
                constexpr bool plain = std::is_same<E, dcgp::expression<T>>::value;
                try {
                    sym::Formula fo(f[o]);
                    for (auto &v : fo.vars)
                        if (!env.count(v)) return violation("the formula mentions something inactive", s.where + " " + v + ": " + f[o].substr(0, 800));
                    // the value of the program, from the reference
                    ref::nonfinite_node() = false;
                    auto t = ref::conditioned([&] {
                        return s.p.eval<ref::N>(std::vector<ref::N>(in.begin(), in.end()), plain ? std::vector<ref::N>{} : std::vector<ref::N>(s.w.begin(), s.w.end()),
                                                gen::is_ann<E>::value ? std::vector<ref::N>(s.b.begin(), s.b.end()) : std::vector<ref::N>{})[o]
                            .v;
                    });
                    if (ref::nonfinite_node() || !t.ok || !std::isfinite(t.v)) continue;
                    std::map<std::string, ref::N> ne;
                    for (auto &q : env) ne.emplace(q.first, ref::N(q.second));
                    auto c = ref::conditioned([&] { return fo.eval<ref::N>(ne).v; });
                    if (ref::nonfinite_node() || !c.ok) continue;
                    if (std::abs(c.v - t.v) > c.tol + t.tol)
                        violation("formula of another program", s.where + " " + s.p.descr() + " output " + str(o) + " at " + vs(in) + ": " + f[o].substr(0, 1000) + " is " + str(c.v)
                                                                    + " while the value is " + str(t.v));
                    judged = true;
                    count("twin formulas compared");
                } catch (const sym::Error &x) {
                    return violation("formula does not parse", s.where + " " + x.what());
                }
            }
        });
    evaluated("persistent " + d, judged);
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [](Rng &r, long) {
        switch (r.u(0, 10)) {
            case 10:
                switch (r.u(0, 3)) {
                    case 0: persistent<gen::weighted_t, double>(r); break;
                    case 1: persistent<gen::ann_t, double>(r); break;
                    case 2: persistent<dcgp::expression<audi::gdual_d>, audi::gdual_d>(r); break;
                    default: persistent<gen::plain_t, double>(r);
                }
                break;
            case 0: kernels(r); break;
            case 1:
            case 2: problems(r); break;
            case 3: r.coin() ? twins<audi::gdual_d>(r, "gdual_d") : twins<audi::gdual_v>(r, "gdual_v"); break;
            default: expressions(r);
        }
    });
}
