// Reference grammar for Plato::ExpressionEvaluator, written from its documentation and operator table, as a plain recursive
// descent parser over tokens (the implementation is a precedence-climbing tree builder).
//
//   expr    := term (('+'|'-') term)*              left associative
//   term    := power (('*'|'/') power | group)*    left associative; ')' directly followed by '(' multiplies
//   power   := unary ('^' power)?                  right associative
//   unary   := ('+'|'-') postfix | postfix         a sign binds tighter than '^'; two signs in a row are an error
//   postfix := primary '!'*
//   primary := number | variable | PI | '(' expr ')' | '|' expr '|' | fn group | pow '(' expr ',' expr ')'
//   group   := '(' expr ')' | '|' expr '|'
//
// A bar closes if the innermost open group is a bar group and opens a new one otherwise. x/0 is 0.
#pragma once
#include <algorithm>
#include "vp.hpp"

namespace ref
{
enum Kind { NUM, VAR, PLUS, MINUS, MUL, DIV, CARET, BANG, LP, RP, BAR, FUNC, POWF, COMMA, JUNK };
struct Tok { Kind k; double v; std::string s; };

enum Status { OK, BAD, UNSPEC };
struct Result { Status st; double v; };

inline double apply_fn(const std::string& f, double a)
{
    if(f == "sin") return std::sin(a);
    if(f == "cos") return std::cos(a);
    if(f == "tan") return std::tan(a);
    if(f == "exp") return std::exp(a);
    if(f == "log") return std::log(a);
    if(f == "sqrt") return std::sqrt(a);
    if(f == "abs") return std::fabs(a);
    throw std::logic_error("fn " + f);
}

class Parser
{
    const std::vector<Tok>& t; size_t p = 0; const std::map<std::string, double>& vars;
    std::vector<char> groups; bool unspec_value = false;
    struct Bad {}; struct Unspec {};
    bool at(Kind k) const { return p < t.size() && t[p].k == k; }
    bool in_bar() const { return !groups.empty() && groups.back() == 'B'; }

    double group()
    {
        if(at(LP))
        {
            p++; groups.push_back('P'); double v = expr(); if(!at(RP)) throw Bad(); groups.pop_back(); p++; last_rp = p; return v;
        }
        if(at(BAR) && !in_bar())
        {
            p++; groups.push_back('B'); double v = expr(); if(!at(BAR)) throw Bad(); groups.pop_back(); p++; return std::fabs(v);
        }
        throw Bad();
    }
    size_t last_rp = 0; // position just after the most recent ')'

    double primary()
    {
        if(p >= t.size()) throw Bad();
        switch(t[p].k)
        {
            case NUM: return t[p++].v;
            case VAR: { auto i = vars.find(t[p].s); p++; if(i == vars.end()) { unbound = true; return 0; } return i->second; }
            case LP: case BAR: return group();
            case FUNC:
            {
                std::string f = t[p++].s;
                if(at(PLUS) || at(MINUS) || at(POWF)) throw Unspec();
                double a = group();
                return apply_fn(f, a);
            }
            case POWF:
            {
                p++; if(!at(LP)) throw Unspec();
                p++; groups.push_back('P'); double a = expr(); if(!at(COMMA)) throw Unspec(); p++;
                double b = expr(); if(!at(RP)) throw Unspec(); groups.pop_back(); p++; last_rp = p;
                return std::pow(a, b);
            }
            default: throw Bad();
        }
    }
    double postfix()
    {
        double v = primary();
        while(at(BANG))
        {
            p++;
            if(!(v >= 0 && v <= 170 && v == std::floor(v))) { unspec_value = true; if(!(std::fabs(v) < 1e4)) too_big = true; v = 1; }
            else { double r = 1; for(int i = 2; i <= (int)v; i++) r *= i; v = r; }
        }
        return v;
    }
    double unary()
    {
        if(at(PLUS) || at(MINUS))
        {
            bool neg = at(MINUS); p++;
            if(at(PLUS) || at(MINUS)) throw Bad();
            double v = postfix(); return neg ? -v : v;
        }
        return postfix();
    }
    double power()
    {
        double v = unary();
        if(at(CARET)) { p++; double e = power(); return std::pow(v, e); }
        return v;
    }
    double term()
    {
        double v = power();
        for(;;)
        {
            if(at(MUL)) { p++; v = v * power(); }
            else if(at(DIV)) { p++; double d = power(); v = d == 0 ? 0 : v / d; }
            else if(at(LP) && p > 0 && last_rp == p) v = v * power();
            else if(at(POWF) && p > 0 && last_rp == p) throw Unspec();
            else return v;
        }
    }
    double expr()
    {
        double v = term();
        for(;;)
        {
            if(at(PLUS)) { p++; v += term(); }
            else if(at(MINUS)) { p++; v -= term(); }
            else return v;
        }
    }
public:
    bool too_big = false, unbound = false;
    Parser(const std::vector<Tok>& a, const std::map<std::string, double>& b) : t(a), vars(b) {}
    Result run()
    {
        size_t pows = 0, commas = 0;
        for(auto& x : t) { if(x.k == JUNK) return {BAD, 0}; pows += x.k == POWF; commas += x.k == COMMA; }
        if(commas != pows) return {BAD, 0};
        try
        {
            double v = expr();
            if(p != t.size()) return {pows ? UNSPEC : BAD, 0};
            if(unbound) return {BAD, 0};
            if(unspec_value) return {UNSPEC, v};
            return {OK, v};
        }
        catch(Bad&) { return {pows ? UNSPEC : BAD, 0}; }
        catch(Unspec&) { return {UNSPEC, 0}; }
    }
};
inline bool reserved_prefix(const std::string& s)
{
    for(const char* f : {"sin", "cos", "tan", "exp", "log", "sqrt", "abs", "pow", "PI"}) if(s.compare(0, strlen(f), f) == 0) return true;
    return false;
}
// Lexer for character-level exploration. unspec is set where an identifier only starts with a reserved name.
inline std::vector<Tok> lex(const std::string& s, bool& unspec)
{
    std::vector<Tok> r; size_t i = 0; unspec = false;
    auto digit = [&](size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
    while(i < s.size())
    {
        char c = s[i];
        if(c == ' ' || c == '\t' || c == '\r' || c == '\n') { i++; continue; }
        static const std::string ops = "+-*/^!()|,"; static const Kind ks[] = {PLUS, MINUS, MUL, DIV, CARET, BANG, LP, RP, BAR, COMMA};
        size_t o = ops.find(c);
        if(o != std::string::npos) { r.push_back({ks[o], 0, ""}); i++; continue; }
        if(digit(i))
        {
            size_t b = i, n = 0; while(digit(i)) i++;
            bool bad = false;
            if(i < s.size() && s[i] == '.') { i++; while(digit(i)) i++; }
            if(i < s.size() && s[i] == 'e') { i++; if(i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if(!digit(i)) bad = true; while(digit(i)) i++; }
            if(i < s.size() && (s[i] == '.' || s[i] == 'e')) bad = true;
            n = i - b;
            if(bad || n > 120) { r.push_back({JUNK, 0, ""}); return r; }
            r.push_back({NUM, strtod(s.substr(b, n).c_str(), 0), ""}); continue;
        }
        if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')
        {
            size_t b = i;
            while(i < s.size() && ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= '0' && s[i] <= '9') || s[i] == '_')) i++;
            std::string id = s.substr(b, i - b);
            if(id == "PI") r.push_back({NUM, M_PI, ""});
            else if(id == "pow") r.push_back({POWF, 0, id});
            else if(id == "sin" || id == "cos" || id == "tan" || id == "exp" || id == "log" || id == "sqrt" || id == "abs") r.push_back({FUNC, 0, id});
            else { if(reserved_prefix(id)) unspec = true; r.push_back({VAR, 0, id}); }
            continue;
        }
        r.push_back({JUNK, 0, ""}); return r;
    }
    return r;
}
} // namespace ref
