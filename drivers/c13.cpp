// C13: type-erased functions against a model of what each variable holds, over random histories.
#include "vh.hpp"
#include <array>
#include <cassert>
#include <dcgp/function.hpp>
#include <dcgp/kernel.hpp>
#include <thread>
using namespace vh;
using TS = pagmo::thread_safety;

static std::atomic<long> live{0};
struct Counted {
    Counted() { ++live; }
    Counted(const Counted &) { ++live; }
    Counted(Counted &&) noexcept { ++live; }
    Counted &operator=(const Counted &) = default;
    Counted &operator=(Counted &&) = default;
    ~Counted() { --live; }
};
// an argument with an identity
struct Probe {
    std::string s;
    int copies = 0, moves = 0;
    explicit Probe(std::string q = "") : s(std::move(q)) {}
    Probe(const Probe &o) : s(o.s), copies(o.copies + 1), moves(o.moves) {}
    Probe(Probe &&o) noexcept : s(std::move(o.s)), copies(o.copies), moves(o.moves + 1) { o.s = "gone"; }
    Probe &operator=(const Probe &) = default;
    Probe &operator=(Probe &&) = default;
};
struct Seen {
    const void *ref, *cref, *rref;
    int x, value_copies;
    std::string value, stolen;
    int calls = 0;
};
static thread_local Seen seen;
using Sig = int(int, Probe &, const Probe &, Probe &&, Probe);
struct Boom : std::runtime_error {
    int k;
    explicit Boom(int q) : std::runtime_error("boom"), k(q) {}
};
static int body(int k, int x, Probe &a, const Probe &b, Probe &&c, Probe d)
{
    ++seen.calls;
    seen.x = x;
    seen.ref = &a, seen.cref = &b, seen.rref = &c;
    a.s += std::to_string(k);
    Probe t(std::move(c));
    seen.stolen = t.s;
    seen.value = d.s;
    seen.value_copies = d.copies;
    return 1000 * k + x;
}
static int fa(int x, Probe &a, const Probe &b, Probe &&c, Probe d) { return body(1, x, a, b, std::move(c), std::move(d)); }
static int fb(int x, Probe &a, const Probe &b, Probe &&c, Probe d) { return body(2, x, a, b, std::move(c), std::move(d)); }
template <TS T>
struct Fun : Counted {
    int k;
    explicit Fun(int q = 0) : k(q) {}
    TS get_thread_safety() const { return T; }
    int operator()(int x, Probe &a, const Probe &b, Probe &&c, Probe d) const { return body(k, x, a, b, std::move(c), std::move(d)); }
};
struct Undeclared : Counted {
    int k;
    explicit Undeclared(int q = 0) : k(q) {}
    int operator()(int x, Probe &a, const Probe &b, Probe &&c, Probe d) const { return body(k, x, a, b, std::move(c), std::move(d)); }
};
struct Dynamic : Counted { // declares a level chosen at run time
    int k;
    TS t;
    Dynamic(int q = 0, TS u = TS::basic) : k(q), t(u) {}
    TS get_thread_safety() const { return t; }
    int operator()(int x, Probe &a, const Probe &b, Probe &&c, Probe d) const { return body(k, x, a, b, std::move(c), std::move(d)); }
};
struct Large : Counted {
    std::array<int, 100> pad;
    std::string text = "a string too long for the small string optimisation of the library";
    int k;
    explicit Large(int q = 0) : k(q) { pad.fill(q); }
    int operator()(int x, Probe &a, const Probe &b, Probe &&c, Probe d) const
    {
        if (pad[99] != pad[0] || text.size() != 66u) return -1;
        return body(k, x, a, b, std::move(c), std::move(d));
    }
};
struct Thrower : Counted {
    int k;
    explicit Thrower(int q = 0) : k(q) {}
    int operator()(int, Probe &, const Probe &, Probe &&, Probe) const { throw Boom(k); }
};
struct Fragile : Counted { // cannot be copied at times
    static bool &broken()
    {
        static thread_local bool b = false;
        return b;
    }
    int k;
    explicit Fragile(int q = 0) : k(q) {}
    Fragile(const Fragile &o) : Counted(o), k(o.k)
    {
        if (broken()) throw Boom(k);
    }
    Fragile(Fragile &&) = default;
    int operator()(int x, Probe &a, const Probe &b, Probe &&c, Probe d) const { return body(k, x, a, b, std::move(c), std::move(d)); }
};
struct DerivedCallable : Undeclared {
    using Undeclared::Undeclared;
};
using Std = std::function<Sig>;
using Ptr = int (*)(int, Probe &, const Probe &, Probe &&, Probe);
using F = dcgp::function<Sig>;
enum Kind { Null, PtrA, PtrB, FNone, FBasic, FConst, Undecl, Dyn, Big, Throw, StdF, Frag, KINDS, Gone };
struct Model {
    int kind = Null, k = 0;
    TS ts = TS::basic;
};
static F make(Rng &r, Model &m)
{
    m.kind = static_cast<int>(r.u(0, KINDS - 1));
    m.k = static_cast<int>(r.u(3, 99));
    m.ts = TS::basic;
    switch (m.kind) {
        case Null: m.k = 0; return r.coin() ? F() : F(static_cast<Ptr>(nullptr));
        case PtrA: m.k = 1; return r.coin() ? F(fa) : F(&fa);
        case PtrB: {
            m.k = 2;
            Ptr p = fb;
            const Ptr cp = fb;
            return r.coin() ? F(p) : F(cp);
        }
        case FNone: m.ts = TS::none; return F(Fun<TS::none>(m.k));
        case FBasic: {
            const Fun<TS::basic> f(m.k);
            return F(f);
        }
        case FConst: m.ts = TS::constant; return F(Fun<TS::constant>(m.k));
        case Undecl: {
            Undeclared u(m.k);
            return r.coin() ? F(u) : F(std::move(u));
        }
        case Dyn: m.ts = static_cast<TS>(r.u(0, 2)); return F(Dynamic(m.k, m.ts));
        case Big: return F(Large(m.k));
        case Throw: return F(Thrower(m.k));
        case Frag: return F(Fragile(m.k));
        default: {
            int k = m.k;
            return F(Std([k](int x, Probe &a, const Probe &b, Probe &&c, Probe d) { return body(k, x, a, b, std::move(c), std::move(d)); }));
        }
    }
}
template <typename T>
static void check_is(const F &f, bool expected, const std::string &d)
{
    F &g = const_cast<F &>(f);
    if (f.is<T>() != expected || (f.extract<T>() != nullptr) != expected || (g.extract<T>() != nullptr) != expected) violation("contained type", d + " asked for " + typeid(T).name());
    if (expected && static_cast<const void *>(f.extract<T>()) != static_cast<const void *>(g.extract<T>())) violation("contained type", d + " two addresses");
}
static void check(const F &f, const Model &m, const std::string &d)
{
    if (f.is_valid() != (m.kind != Gone)) {
        violation("validity", d);
        return;
    }
    if (m.kind == Gone) return;
    if (f.get_thread_safety() != m.ts) violation("thread safety", d + " reports " + str(static_cast<int>(f.get_thread_safety())) + " instead of " + str(static_cast<int>(m.ts)));
    check_is<Ptr>(f, m.kind == Null || m.kind == PtrA || m.kind == PtrB, d);
    check_is<Fun<TS::none>>(f, m.kind == FNone, d);
    check_is<Fun<TS::basic>>(f, m.kind == FBasic, d);
    check_is<Fun<TS::constant>>(f, m.kind == FConst, d);
    check_is<Undeclared>(f, m.kind == Undecl, d);
    check_is<Dynamic>(f, m.kind == Dyn, d);
    check_is<Large>(f, m.kind == Big, d);
    check_is<Thrower>(f, m.kind == Throw, d);
    check_is<Std>(f, m.kind == StdF, d);
    check_is<Fragile>(f, m.kind == Frag, d);
    check_is<DerivedCallable>(f, false, d);
    check_is<F>(f, false, d);
    // call it
    Probe a("ref"), b("cref"), c("rref"), v("value");
    int x = 37 + m.k, calls = seen.calls;
    bool lvalue = m.k % 2 == 0;
    try {
        int res = lvalue ? f(x, a, b, std::move(c), v) : f(x, a, b, std::move(c), Probe("value"));
        if (m.kind == Null || m.kind == Throw) violation("no exception", d);
        else if (res != 1000 * m.k + x) violation("return value", d + " returned " + str(res));
        else if (seen.calls != calls + 1) violation("number of calls", d + " " + str(seen.calls - calls));
        else {
            if (seen.ref != &a || seen.cref != &b || seen.rref != &c) violation("identity of reference arguments", d);
            if (seen.x != x || seen.value != "value" || seen.stolen != "rref") violation("value of arguments", d + " " + seen.value + " " + seen.stolen);
            if (a.s != "ref" + std::to_string(m.k) || b.s != "cref" || c.s != "gone" || v.s != "value") violation("effects on arguments", d + " " + a.s + " " + b.s + " " + c.s + " " + v.s);
        }
    } catch (const Boom &e) {
        if (m.kind != Throw || e.k != m.k) violation("exception", d + " boom " + str(e.k));
    } catch (const std::runtime_error &) {
        if (m.kind != Null) violation("exception", d + " runtime_error");
        else if (a.s != "ref" || c.s != "rref") violation("effects on arguments", d + " of a null function");
    }
}
static void history(Rng &r)
{
    const long live0 = live;
    {
        std::vector<F> f(4);
        std::vector<Model> m(4);
        std::string d;
        unsigned steps = r.u(4, 30);
        for (unsigned s = 0; s < steps; ++s) {
            auto i = r.u(0, 3), j = r.u(0, 3);
            std::string op;
            switch (r.u(0, 10)) {
                case 0:
                case 1: f[i] = make(r, m[i]); op = "assign"; break;
                case 2:
                    if (m[j].kind == Gone) continue; // copying a moved-from function is not allowed
                    f[i] = f[j];
                    m[i] = m[j];
                    op = "copy";
                    break;
                case 3:
                    f[i] = std::move(f[j]);
                    if (i != j) {
                        m[i] = m[j];
                        m[j].kind = Gone;
                    }
                    op = "move";
                    break;
                case 4: {
                    if (m[j].kind == Gone) continue;
                    F t(f[j]);
                    check(t, m[j], d + " copy constructed");
                    F u(std::move(t));
                    if (t.is_valid()) violation("validity", d + " moved-from is valid");
                    f[i] = std::move(u);
                    m[i] = m[j];
                    op = "through temporaries";
                    break;
                }
                case 5: {
                    std::swap(f[i], f[j]);
                    std::swap(m[i], m[j]);
                    op = "swap";
                    break;
                }
                case 6: { // changing what is held, through the extracted pointer, changes this function only
                    int k = static_cast<int>(r.u(100, 199));
                    if (m[i].kind == FNone) f[i].extract<Fun<TS::none>>()->k = m[i].k = k;
                    else if (m[i].kind == Undecl) f[i].extract<Undeclared>()->k = m[i].k = k;
                    else if (m[i].kind == Big) f[i].extract<Large>()->k = m[i].k = k;
                    else if (m[i].kind == PtrA) *f[i].extract<Ptr>() = fb, m[i].kind = PtrB, m[i].k = 2;
                    else if (m[i].kind == PtrB && r.coin()) *f[i].extract<Ptr>() = nullptr, m[i].kind = Null, m[i].k = 0;
                    else continue;
                    op = "through extract";
                    break;
                }
                case 7: { // directly from a callable
                    m[i] = Model{Undecl, static_cast<int>(r.u(3, 99)), TS::basic};
                    f[i] = Undeclared(m[i].k);
                    op = "assign callable";
                    break;
                }
                case 8: {
                    m[i] = Model{PtrA, 1, TS::basic};
                    f[i] = fa;
                    op = "assign function";
                    break;
                }
                case 9: { // a copy that fails changes nothing
                    if (m[j].kind != Frag) f[j] = Fragile(m[j].k = static_cast<int>(r.u(3, 99))), m[j].kind = Frag, m[j].ts = TS::basic;
                    const long before = live;
                    bool threw = false;
                    Fragile::broken() = true;
                    try {
                        switch (r.u(0, 2)) {
                            case 0: f[i] = f[j]; break;
                            case 1: {
                                F t(f[j]);
                                break;
                            }
                            default: {
                                std::vector<F> t(2, f[j]);
                            }
                        }
                    } catch (const Boom &e) {
                        threw = e.k == m[j].k;
                    }
                    Fragile::broken() = false;
                    if (!threw && i != j) violation("exception while copying lost", d);
                    if (live != before) violation("callables leaked or destroyed twice", d + " failed copy " + str(live - before));
                    count("copies that failed");
                    op = "failed copy";
                    break;
                }
                default: {
                    if (m[i].kind == Gone) continue;
                    F &alias = f[i];
                    if (r.coin()) f[i] = alias;
                    else f[i] = std::move(alias);
                    op = "self";
                }
            }
            d += op + "(" + str(i) + "," + str(j) + ":" + str(m[i].kind) + ") ";
            for (unsigned q = 0; q < 4u; ++q) check(f[q], m[q], d + "variable " + str(q) + " kind " + str(m[q].kind));
            count("calls checked", 4);
        }
        // by value through a container and a thread
        for (unsigned q = 0; q < 4u; ++q)
            if (m[q].kind != Gone) {
                std::vector<F> w(3, f[q]);
                for (auto &x : w) check(x, m[q], d + "in a container");
                if (r.coin(0.05)) std::thread([x = f[q], mm = m[q]] { check(x, mm, "in another thread"); }).join();
            }
        evaluated(d, true);
    }
    if (live != live0) violation("callables leaked or destroyed twice", str(live - live0));
}
// ---------------------------------------------------------------- other signatures
static int counter = 0;
static void vf() { ++counter; }
static int &ref_id(int &x) { return x; }
static const std::string &cref_id(const std::string &x) { return x; }
static std::string &&rref_id(std::string &&x) { return std::move(x); }
static std::unique_ptr<int> up(std::unique_ptr<int> p)
{
    ++*p;
    return p;
}
struct Base {
    virtual int v() const { return 1; }
    virtual ~Base() = default;
};
struct Derived : Base {
    int v() const override { return 2; }
};
template <typename T>
static T sum3(T a, T b, T c) { return static_cast<T>(a + b + c); }
static void signatures(Rng &r)
{
    auto bad = [](const char *w) { violation("signature", w); };
    // void
    {
        dcgp::function<void()> f(vf), g;
        counter = 0;
        f();
        g = f;
        g();
        if (counter != 2) bad("void()");
        int local = 0;
        dcgp::function<void(int)> h([&local](int q) { local += q; });
        int v = static_cast<int>(r.u(1, 1000));
        h(v);
        auto h2(h);
        h2(v);
        if (local != 2 * v) bad("void(int) with captured reference");
        try {
            dcgp::function<void()>()();
            bad("null void()");
        } catch (const std::runtime_error &) {
        }
    }
    // references returned keep their identity
    {
        int x = 3;
        dcgp::function<int &(int &)> f(ref_id);
        if (&f(x) != &x) bad("int&(int&)");
        f(x) = 9;
        if (x != 9) bad("int&(int&) assigned");
        std::string s("some text");
        dcgp::function<const std::string &(const std::string &)> g(cref_id);
        if (&g(s) != &s) bad("const string&");
        dcgp::function<std::string && (std::string &&)> h(rref_id);
        std::string &&q = h(std::move(s));
        if (&q != &s || s != "some text") bad("string&&");
    }
    // move only
    {
        dcgp::function<std::unique_ptr<int>(std::unique_ptr<int>)> f(up);
        int v = static_cast<int>(r.u(0, 1000));
        auto p = std::make_unique<int>(v);
        auto *raw = p.get();
        auto q = f(std::move(p));
        if (p || q.get() != raw || *q != v + 1) bad("unique_ptr");
    }
    // polymorphic arguments are not sliced
    {
        dcgp::function<int(const Base &)> f([](const Base &b) { return b.v(); });
        if (f(Derived{}) != 2 || f(Base{}) != 1) bad("const Base&");
        dcgp::function<int(Base &)> g([](Base &b) { return b.v(); });
        Derived d;
        if (g(d) != 2) bad("Base&");
    }
    // conversions are those of the declared signature
    {
        dcgp::function<double(double, double, double)> f(sum3<double>);
        if (f(1, 2.5f, 3u) != 6.5) bad("double(double...)");
        dcgp::function<double(int)> g([](double x) { return x / 2; });
        if (g(3.9) != 1.5) bad("double(int)");
        dcgp::function<bool(std::string)> h([](const std::string &s) { return s.size() > 3u; });
        if (!h("four") || h("abc")) bad("bool(string)");
    }
    // a callable is stored, not referred to
    {
        std::vector<int> data{1, 2, 3};
        auto l = [data](std::size_t i) { return data.at(i); };
        dcgp::function<int(std::size_t)> f(l), g;
        data.clear();
        g = f;
        f = dcgp::function<int(std::size_t)>([](std::size_t) { return 7; });
        if (g(2) != 3 || f(0) != 7) bad("captured state");
        bool threw = false;
        try {
            g(5);
        } catch (const std::out_of_range &) {
            threw = true;
        }
        if (!threw) bad("exception of the callable");
    }
    // an empty std::function is a callable that throws
    {
        dcgp::function<int()> f(std::function<int()>{});
        bool threw = false;
        try {
            f();
        } catch (const std::bad_function_call &) {
            threw = true;
        }
        if (!threw || !f.is_valid()) bad("empty std::function");
    }
    // a function may hold another function
    {
        dcgp::function<int(int)> f([](int x) { return x + 1; });
        dcgp::function<long(short)> g(f);
        if (!g.is<dcgp::function<int(int)>>() || g(4) != 5) bad("nested function");
    }
    // kernels built from functions
    {
        double c = r.real(-3., 3.);
        dcgp::kernel<double> k([c](const std::vector<double> &v) { return c * v[0]; }, [](const std::vector<std::string> &v) { return "c*" + v[0]; }, "k");
        if (k({2.}) != c * 2. || k(std::vector<std::string>{"q"}) != "c*q") bad("kernel");
    }
    count("signatures", 8);
    evaluated("signatures " + str(r.u64()), true);
}
int main(int argc, char **argv)
{
    return run(argc, argv, [](Rng &r, long c) { c % 5 ? history(r) : signatures(r); });
}
