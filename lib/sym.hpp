// Independent parser and evaluator for the formulas dcgp prints, under ordinary precedence
// (** binds tighter than a leading minus; both bind tighter than * and /).
#ifndef SYM_HPP
#define SYM_HPP
#include "ref.hpp"
#include <memory>

namespace sym
{
struct Error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Node {
    char op = 0; // n number, v variable, f function, + - * / ^ and ~ (minus)
    double num = 0.;
    std::string name;
    std::vector<std::unique_ptr<Node>> k;
};
using P = std::unique_ptr<Node>;
struct Formula {
    P root;
    std::set<std::string> vars, funs;
    explicit Formula(const std::string &s) : m_s(s), m_i(0)
    {
        root = sum();
        ws();
        if (m_i != s.size()) fail("text after the end");
    }
    template <typename S>
    S eval(const std::map<std::string, S> &env) const
    {
        return ev<S>(*root, env);
    }

private:
    std::string m_s;
    std::size_t m_i;
    unsigned m_depth = 0;
    [[noreturn]] void fail(const std::string &w) const { throw Error(w + " at " + std::to_string(m_i) + " of " + m_s.substr(0, 2000)); }
    void ws()
    {
        while (m_i < m_s.size() && m_s[m_i] == ' ') ++m_i;
    }
    bool is(const char *t)
    {
        ws();
        std::string q(t);
        if (m_s.compare(m_i, q.size(), q) != 0) return false;
        if (q == "*" && m_s.compare(m_i, 2, "**") == 0) return false;
        m_i += q.size();
        return true;
    }
    static P mk(char op, P a, P b = nullptr)
    {
        P n(new Node);
        n->op = op;
        n->k.push_back(std::move(a));
        if (b) n->k.push_back(std::move(b));
        return n;
    }
    P sum()
    {
        P a = prod();
        for (;;) {
            if (is("+")) a = mk('+', std::move(a), prod());
            else if (is("-")) a = mk('-', std::move(a), prod());
            else return a;
        }
    }
    P prod()
    {
        P a = neg();
        for (;;) {
            if (is("*")) a = mk('*', std::move(a), neg());
            else if (is("/")) a = mk('/', std::move(a), neg());
            else return a;
        }
    }
    P neg()
    {
        if (is("-")) return mk('~', neg());
        if (is("+")) return neg();
        P a = atom();
        if (is("**")) return mk('^', std::move(a), neg());
        return a;
    }
    P atom()
    {
        if (++m_depth > 20000u) fail("too deep");
        struct D {
            unsigned &d;
            ~D() { --d; }
        } dd{m_depth};
        ws();
        if (is("(")) {
            P a = sum();
            if (!is(")")) fail("missing )");
            return a;
        }
        if (m_i >= m_s.size()) fail("unexpected end");
        char c = m_s[m_i];
        if (std::isdigit(static_cast<unsigned char>(c)) || c == '.') {
            char *e = nullptr;
            double v = std::strtod(m_s.c_str() + m_i, &e);
            m_i = static_cast<std::size_t>(e - m_s.c_str());
            P n(new Node);
            n->op = 'n';
            n->num = v;
            return n;
        }
        std::size_t b = m_i;
        while (m_i < m_s.size() && (std::isalnum(static_cast<unsigned char>(m_s[m_i])) || m_s[m_i] == '_')) ++m_i;
        if (b == m_i) fail("unexpected character");
        P n(new Node);
        n->name = m_s.substr(b, m_i - b);
        if (is("(")) {
            n->op = 'f';
            n->k.push_back(sum());
            if (!is(")")) fail("missing )");
            funs.insert(n->name);
        } else {
            n->op = 'v';
            vars.insert(n->name);
        }
        return n;
    }
    template <typename S>
    static S ev(const Node &n, const std::map<std::string, S> &env)
    {
        auto fin = [](S v) {
            double m = std::abs(val(v));
            if (!std::isfinite(m)) ref::nonfinite_node() = true;
            else if (m > ref::biggest()) ref::biggest() = m;
            return v;
        };
        switch (n.op) {
            case 'n': return S(n.num);
            case 'v': {
                auto it = env.find(n.name);
                if (it == env.end()) throw Error("unknown name " + n.name);
                return it->second;
            }
            case '~': return -ev<S>(*n.k[0], env);
            case '+': return fin(ev<S>(*n.k[0], env) + ev<S>(*n.k[1], env));
            case '-': return fin(ev<S>(*n.k[0], env) - ev<S>(*n.k[1], env));
            case '*': return fin(ev<S>(*n.k[0], env) * ev<S>(*n.k[1], env));
            case '/': return fin(ev<S>(*n.k[0], env) / ev<S>(*n.k[1], env));
            case '^': {
                S a = ev<S>(*n.k[0], env);
                double e = val(ev<S>(*n.k[1], env));
                if (e != std::floor(e) || std::abs(e) > 64.) throw Error("power with an unexpected exponent");
                S p(1.);
                for (int i = 0; i < std::abs(e); ++i) p = p * a;
                return fin(e < 0. ? S(1.) / p : p);
            }
            default: break;
        }
        S a = ev<S>(*n.k[0], env);
        const auto &f = n.name;
        std::vector<S> v{a};
        if (f == "sin" || f == "cos" || f == "exp" || f == "log" || f == "sqrt" || f == "tanh" || f == "abs" || f == "sig" || f == "ReLu"
            || f == "ELU" || f == "ISRU" || f == "step")
            return fin(ref::kernel<S>(f, v));
        throw Error("unknown function " + f);
    }
};
// splits the "[a, b, c]" form
inline std::vector<std::string> split_list(const std::string &s)
{
    if (s.size() < 2u || s.front() != '[' || s.back() != ']') throw Error("not a list: " + s);
    std::vector<std::string> v;
    std::string cur;
    int depth = 0;
    for (std::size_t i = 1; i + 1 < s.size(); ++i) {
        if (s[i] == '(') ++depth;
        if (s[i] == ')') --depth;
        if (s[i] == ',' && depth == 0) {
            v.push_back(cur);
            cur.clear();
        } else
            cur += s[i];
    }
    v.push_back(cur);
    return v;
}
} // namespace sym
#endif
