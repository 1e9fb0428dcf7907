// Stand-in for SymEngine::Expression: parses the infix text dcgp produces, keeps its meaning, prints it
// fully parenthesised. No simplification.
#ifndef SYMENGINE_EXPRESSION_H
#define SYMENGINE_EXPRESSION_H
#include <cctype>
#include <cstddef>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace SymEngine
{
struct ParseError : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
class Expression
{
public:
    Expression() : m_s("0") {}
    Expression(int n) : m_s(n < 0 ? "(-" + std::to_string(-n) + ")" : std::to_string(n)) {}
    Expression(const char *s) : Expression(std::string(s)) {}
    Expression(const std::string &s)
    {
        parser p{s, 0};
        m_s = p.sum();
        p.ws();
        if (p.i != s.size()) throw ParseError("Parsing Unsuccessful: " + s);
    }
    friend std::ostream &operator<<(std::ostream &os, const Expression &e)
    {
        return os << e.m_s;
    }
    friend bool operator==(const Expression &a, const Expression &b)
    {
        return a.m_s == b.m_s;
    }
    const std::string &text() const
    {
        return m_s;
    }

private:
    struct parser {
        const std::string &s;
        std::size_t i;
        void ws()
        {
            while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) ++i;
        }
        bool eat(const char *t)
        {
            ws();
            const std::string tok(t);
            if (s.compare(i, tok.size(), tok) == 0) {
                i += tok.size();
                return true;
            }
            return false;
        }
        bool star()
        {
            ws();
            if (i < s.size() && s[i] == '*' && !(i + 1 < s.size() && s[i + 1] == '*')) {
                ++i;
                return true;
            }
            return false;
        }
        std::string sum()
        {
            auto a = prod();
            for (;;) {
                if (eat("+"))
                    a = "(" + a + "+" + prod() + ")";
                else if (eat("-"))
                    a = "(" + a + "-" + prod() + ")";
                else
                    return a;
            }
        }
        std::string prod()
        {
            auto a = unary();
            for (;;) {
                if (star())
                    a = "(" + a + "*" + unary() + ")";
                else if (eat("/"))
                    a = "(" + a + "/" + unary() + ")";
                else
                    return a;
            }
        }
        std::string unary()
        {
            if (eat("-")) return "(-" + unary() + ")";
            if (eat("+")) return unary();
            return power();
        }
        std::string power()
        {
            auto a = atom();
            if (eat("**") || eat("^")) return "(" + a + "**" + unary() + ")";
            return a;
        }
        std::string atom()
        {
            ws();
            if (eat("(")) {
                auto a = sum();
                if (!eat(")")) throw ParseError("Parsing Unsuccessful: " + s);
                return a;
            }
            const auto b = i;
            if (i < s.size() && (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.')) {
                while (i < s.size()
                       && (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.' || s[i] == 'e' || s[i] == 'E'
                           || ((s[i] == '-' || s[i] == '+') && (s[i - 1] == 'e' || s[i - 1] == 'E'))))
                    ++i;
                return s.substr(b, i - b);
            }
            while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) ++i;
            if (i == b) throw ParseError("Parsing Unsuccessful: " + s);
            auto name = s.substr(b, i - b);
            if (eat("(")) {
                auto a = sum();
                while (eat(",")) a += "," + sum();
                if (!eat(")")) throw ParseError("Parsing Unsuccessful: " + s);
                return name + "(" + a + ")";
            }
            return name;
        }
    };
    std::string m_s;
};
inline Expression expand(const Expression &e)
{
    return e;
}
} // namespace SymEngine
#endif
