// P01 (value of accepted expressions) and P02 (rejection of malformed strings, robustness, object reuse).
#include "expr_ref.hpp"
#include "vpk.hpp"
#include "ExpressionEvaluator.hpp"
#include <memory>
using namespace ref;
typedef Plato::ExpressionEvaluator EE;

static Teuchos::ParameterList the_params()
{
    Teuchos::ParameterList p; p.set<double>("x", 1.5); p.set<double>("y_2", -4.0); p.set<double>("E", 7.0); p.set<double>("_z", 0.0);
    p.set<int>("n", 3); // wrong type: must be rejected, not reinterpreted
    return p;
}
static const std::map<std::string, double> VARS = {{"x", 1.5}, {"y_2", -4.0}, {"E", 7.0}, {"_z", 0.0}};

// text in a heap block of exactly its own size, so that any read past the terminator is caught
struct Tight { char* p; explicit Tight(const std::string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~Tight() { free(p); } };

struct Got { bool rejected; double v; };
static Got eval_with(EE& e, const std::string& s)
{
    vp::calls(3);
    try
    {
        Tight t(s);
        e.parse_expression(t.p);
        if(e.validate_expression() != 0) return {true, 0};
        return {false, e.evaluate_expression()};
    }
    catch(const std::exception&) { return {true, 0}; }
}
static Got eval(const std::string& s) { static Teuchos::ParameterList pl = the_params(); EE e(pl); return eval_with(e, s); }

static void judge(const std::string& s, const std::vector<Tok>& t, bool lex_unspec, bool want_bad, bool want_ok)
{
    vp::input(s);
    Parser P(t, VARS); Result r = P.run();
    if(P.too_big) { vp::skip(); return; } // factorial of an astronomically large number
    if(r.st == OK && !want_ok) return;
    if(r.st == BAD && !want_bad) return;
    Got g = eval(s);
    if(lex_unspec || r.st == UNSPEC) { vp::skip(); return; } // ran without crashing: nothing more is defined
    if(r.st == BAD) { vp::check(g.rejected, "malformed expression accepted with value %.17g", g.v); vp::obs("bad"); return; }
    vp::check(!g.rejected, "well-formed expression rejected (reference value %.17g)", r.v);
    vp::eq(g.v, r.v, "value", 1e-9, 1e-12);
}

static const double PRIMES[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29};
static const char* PTXT[] = {"2", "3", "5", "7", "11", "13", "17", "19", "23", "29"};
static const Kind ALPHA[] = {NUM, VAR, PLUS, MINUS, MUL, DIV, CARET, BANG, LP, RP, BAR, FUNC, POWF, COMMA};
static const char* ATXT[] = {"", "x", "+", "-", "*", "/", "^", "!", "(", ")", "|", "sin", "pow", ","};
static const int NA = 14;

// The k-th number of the string is the k-th prime, so that swapped or regrouped operands change the value.
static std::string render(const std::vector<int>& w, std::vector<Tok>& t, const char* fn = "sin", const char* sep = "")
{
    std::string s; int k = 0; t.clear();
    for(size_t i = 0; i < w.size(); i++)
    {
        Kind q = ALPHA[w[i]];
        if(i) s += sep;
        if(q == NUM) { if(i && ALPHA[w[i - 1]] == NUM && !*sep) s += " "; s += PTXT[k]; t.push_back({NUM, PRIMES[k], ""}); k++; }
        else
        {
            std::string x = q == FUNC ? fn : ATXT[w[i]];
            // keep neighbouring words apart: they are separate tokens
            if(!s.empty() && (isalnum(s.back()) || s.back() == '_') && isalpha(x[0])) s += " ";
            if(!s.empty() && isalpha(s.back()) && isdigit(x[0])) s += " ";
            s += x; t.push_back({q, 0, x});
        }
        // a digit right after a word would extend it
        if(i + 1 < w.size() && ALPHA[w[i + 1]] == NUM && !s.empty() && isalpha(s.back())) s += " ";
    }
    return s;
}

// all well-formed token strings of exactly n tokens (grammar-directed, so long strings stay affordable)
struct Gen
{
    size_t n; std::vector<std::vector<int>>& out; std::vector<int> w; std::vector<char> st; bool with_pow, with_fn;
    Gen(size_t a, std::vector<std::vector<int>>& o, bool p, bool f) : n(a), out(o), with_pow(p), with_fn(f) { operand(true); }
    size_t need() const { size_t k = 0; for(char c : st) k += c == 'F' ? 3 : 1; return k; } // tokens needed to close everything
    void push(int a) { w.push_back(a); }
    void operand(bool sign_ok)
    {
        if(w.size() + 1 + need() > n) return;
        for(int a : {0, 1}) { push(a); after(a); w.pop_back(); }
        if(sign_ok) for(int a : {2, 3}) { push(a); operand(false); w.pop_back(); }
        push(8); st.push_back('P'); operand(true); st.pop_back(); w.pop_back();
        if(st.empty() || st.back() != 'B') { push(10); st.push_back('B'); operand(true); st.pop_back(); w.pop_back(); }
        if(with_fn)
        {
            push(11);
            push(8); st.push_back('P'); operand(true); st.pop_back(); w.pop_back();
            if(st.empty() || st.back() != 'B') { push(10); st.push_back('B'); operand(true); st.pop_back(); w.pop_back(); }
            w.pop_back();
        }
        if(with_pow) { push(12); push(8); st.push_back('F'); operand(true); st.pop_back(); w.pop_back(); w.pop_back(); }
    }
    void after(int last)
    {
        if(w.size() + need() > n) return;
        if(w.size() == n) { if(st.empty()) out.push_back(w); return; }
        for(int a : {2, 3, 4, 5, 6}) { push(a); operand(true); w.pop_back(); }
        push(7); after(7); w.pop_back();
        if(last == 9) { push(8); st.push_back('P'); operand(true); st.pop_back(); w.pop_back(); }
        if(!st.empty())
        {
            char c = st.back(); st.pop_back();
            if(c == 'P' || c == 'G') { push(9); after(9); w.pop_back(); }
            if(c == 'B') { push(10); after(10); w.pop_back(); }
            if(c == 'F') { st.push_back('G'); push(13); operand(true); w.pop_back(); st.pop_back(); }
            st.push_back(c);
        }
    }
};

void vp::explore()
{
    const bool T = vp::thorough();
    std::vector<Tok> t;
#if VP_PROP == 1
    {
        // every well-formed token string, function names and pow included
        std::vector<std::vector<int>> all;
        for(size_t n = 1; n <= (T ? 8u : 7u); n++) Gen(n, all, true, true);
        section("wellformed", all.size(), [&](u64 i) { std::vector<Tok> t; std::string s = render(all[i], t); judge(s, t, false, false, true); });
        std::vector<std::vector<int>> s2; for(size_t n = 1; n <= 5; n++) Gen(n, s2, true, true);
        section("wellformed_spaced", s2.size() * 4, [&](u64 i) {
            static const char* sep[] = {" ", "\t", "\n", " \r\n"}; std::vector<Tok> t; std::string s = render(s2[i / 4], t, "sin", sep[i % 4]); judge(s, t, false, false, true); });
        // longer strings over operators and parentheses only
        std::vector<std::vector<int>> lo; for(size_t n = (T ? 9 : 8); n <= (T ? 9u : 8u); n++) Gen(n, lo, false, false);
        section("wellformed_long", lo.size(), [&](u64 i) { std::vector<Tok> t; std::string s = render(lo[i], t); judge(s, t, false, false, true); });
    }
    {
        // binary operator chains: every sequence of 5 (6) operators with optional signs
        static const int ops[] = {2, 3, 4, 5, 6}; const unsigned K = T ? 6 : 5;
        section("operator_chains", ipow(5, K) * 3, [&](u64 i) {
            Dec d(i); int sg = d.take(3); std::vector<int> w; std::vector<Tok> t;
            if(sg == 1) w.push_back(3);
            w.push_back(0);
            for(unsigned k = 0; k < K; k++) { w.push_back(ops[d.take(5)]); if(sg == 2) w.push_back(3); w.push_back(0); }
            std::string s = render(w, t); judge(s, t, false, false, true); });
    }
    {
        // pow with every argument pair of up to 4 tokens each, in every context
        std::vector<std::vector<int>> a; for(size_t n = 1; n <= (T ? 4u : 3u); n++) Gen(n, a, false, true);
        static const char* pre[] = {"", "-", "2*", "2^", "1-", "sin(", "|", "(3)*", "pow(2,"}; static const char* post[] = {"", "", "", "^2", "-1", ")", "|", "!", ")"};
        section("pow_arguments", (u64)a.size() * a.size() * 9, [&](u64 i) {
            Dec d(i); int c = d.take(9); auto& l = a[d.take(a.size())]; auto& r = a[d.take(a.size())]; std::vector<Tok> t;
            std::string s = std::string(pre[c]) + "pow(" + render(l, t) + "," + render(r, t) + ")" + post[c];
            bool u; auto tk = lex(s, u); judge(s, tk, u, false, true); });
    }
    {
        // every function, every argument value, in every context
        static const char* fns[] = {"sin", "cos", "tan", "exp", "log", "sqrt", "abs", "+", "-", ""};
        static const char* args[] = {"0", "1", "2", "0.5", "3.25", "x", "E", "y_2", "_z", "PI", "PI/4", "-1", "-PI", "1e2", "2.5e-1", "1e+1", "4!", "2^-1", "1/3", "0.0", "123456789", "1.", "00012"};
        static const char* ctx[] = {"%s(%s)", "|%s(%s)|", "-%s(%s)", "2*%s(%s)+1", "%s(%s)^2", "(%s(%s))(3)", "1/%s(%s)", "sqrt(%s(%s))", "pow(%s(%s),2)", "%s|%s|", "(2)%s(%s)"};
        section("functions", 10 * 23 * 11, [&](u64 i) {
            Dec d(i); const char* f = fns[d.take(10)]; const char* a = args[d.take(23)]; std::string s = fmt(ctx[d.take(11)], f, a);
            bool u; auto tk = lex(s, u); judge(s, tk, u, false, true); });
    }
    {
        // number literals: every mantissa/fraction/exponent combination
        static const char* m[] = {"0", "1", "9", "10", "007", "99999999999999999999", "4503599627370497"}; static const char* f[] = {"", ".", ".0", ".5", ".125", ".000001", ".99999999999999999"};
        static const char* e[] = {"", "e0", "e5", "e+3", "e-3", "e10", "e-10", "e+100", "e-300", "e007"}; static const char* c[] = {"%s", "-%s", "2+%s", "(%s)", "%s*2", "%s-1", "x+%s", "%s+x"};
        section("literals", 7 * 7 * 10 * 8, [&](u64 i) {
            Dec d(i); std::string n = std::string(d.pick(m)) + d.pick(f) + d.pick(e); std::string s = fmt(d.pick(c), n.c_str());
            bool u; auto tk = lex(s, u); judge(s, tk, u, false, true); });
        // literals and names up to the documented 127 character limit
        section("long_tokens", 118, [&](u64 i) { std::string n(i + 1, '1'); n[0] = '7'; std::string s = n + "+1"; bool u; auto tk = lex(s, u); judge(s, tk, u, false, true); });
        section("factorials", 171, [&](u64 i) { std::string s = fmt("%d!", (int)i); bool u; auto tk = lex(s, u); judge(s, tk, u, false, true); });
        section("factorials_signed", 30, [&](u64 i) { std::string s = fmt("2-%d!*3", (int)i); bool u; auto tk = lex(s, u); judge(s, tk, u, false, true); });
    }
    {
        // every depth of nesting and every length of a chain up to a bound, for every repeating construct
        struct Rep { const char *open, *core, *close; }; static const Rep R[] = {{"(", "x", ")"}, {"-(", "x", ")"}, {"2-(", "3", ")"}, {"sqrt(", "16", ")"}, {"abs(x-", "1", ")"}, {"x+2*(", "x", ")"}, {"", "1", "-1"}, {"", "1", "+x"}, {"", "2", "/2"}, {"", "1", "*1.5"}, {"1.01^", "1.01", ""}, {"pow(", "2", ",1)"}, {"pow(1,", "2", ")"},
            {"(|", "-x", "|)"}, {"3*x-", "1", ""}, {"", "x", "+2*3"}, {"", "2", "-x/4*2"}, {"2+cos(", "0", ")*3"}, {"(1)(", "2", ")"}, {"", "(1", ")", }, {"", "1", " + 1 - 2"}, {"\t", "1", "  "}, {"", "0", "+2^2"}, {"", "3", "-|2-3|"}, {"", "1", "+2!"}, {"(2*", "y_2", "+1)/3"}};
        const int NR = sizeof R / sizeof *R, DEPTH = T ? 400 : 100;
        section("nesting", (u64)NR * DEPTH, [&](u64 i) {
            const Rep& r = R[i % NR]; int n = i / NR; std::string s; for(int k = 0; k < n; k++) s += r.open; s += r.core; for(int k = 0; k < n; k++) s += r.close;
            bool u; auto tk = lex(s, u); judge(s, tk, u, false, true); });
        // variable values: the value bound in the parameter list of *this* evaluator is the one used
        static const double vals[] = {-2, -1, -0.5, 0, 0.5, 1, 2, 1e6};
        static const char* ex[] = {"x", "-x", "x+y_2", "x-y_2", "x*y_2", "x/y_2", "x^2", "x*x-y_2*y_2", "|x|*y_2", "(x)(y_2)", "pow(x,2)-pow(y_2,3)", "X+x", "x1-x"};
        section("variables", 64 * 13, [&](u64 i) {
            Dec d(i); double x = d.pick(vals), y = d.pick(vals); std::string s = d.pick(ex); vp::input(fmt("x=%g y_2=%g: ", x, y) + s);
            std::map<std::string, double> v = {{"x", x}, {"y_2", y}, {"X", x + 10}, {"x1", y - 3}};
            Teuchos::ParameterList p; for(auto& q : v) p.set<double>(q.first, q.second);
            bool u; auto tk = lex(s, u); Parser P(tk, v); Result r = P.run(); EE e(p); Got g = eval_with(e, s);
            vp::check(!g.rejected, "rejected"); vp::eq(g.v, r.v, "value");
            p.set<double>("x", 99); // the evaluator keeps the values it was created with
            vp::calls(); vp::eq(e.evaluate_expression(), r.v, "value on re-evaluation"); });
    }
#else
    {
        // every token string up to the bound: the malformed ones must be rejected
        for(unsigned n = 0; n <= (T ? 6u : 5u); n++)
            section(fmt("all_strings_%u", n), ipow(NA, n), [&, n](u64 i) {
                Dec d(i); std::vector<int> w(n); for(auto& x : w) x = d.take(NA); std::vector<Tok> t; std::string s = render(w, t); judge(s, t, false, true, false); });
    }
    {
        // one token deleted from, inserted into or replaced in every well-formed string
        std::vector<std::vector<int>> all; for(size_t n = 5; n <= (T ? 7u : 6u); n++) Gen(n, all, true, true);
        std::vector<u64> start(all.size() + 1, 0); for(size_t k = 0; k < all.size(); k++) start[k + 1] = start[k] + all[k].size() + (2 * all[k].size() + 1) * NA;
        section("one_edit", start.back(), [&](u64 i) {
            size_t k = std::upper_bound(start.begin(), start.end(), i) - start.begin() - 1; u64 j = i - start[k]; std::vector<int> w = all[k]; size_t n = w.size();
            if(j < n) w.erase(w.begin() + j);
            else if((j -= n) < n * NA) w[j / NA] = j % NA;
            else { j -= n * NA; w.insert(w.begin() + j / NA, j % NA); }
            std::vector<Tok> t; std::string s = render(w, t); judge(s, t, false, true, true); });
    }
    {
        // character level: numbers, names and operators run together in every way
        static const std::string A = "17.e+-xsqrtPI(_) |,^!"; // every character class the lexer distinguishes
        const unsigned L = T ? 5 : 4;
        for(unsigned n = 1; n <= L; n++)
            section(fmt("characters_%u", n), ipow(A.size(), n), [&, n](u64 i) {
                Dec d(i); std::string s; for(unsigned k = 0; k < n; k++) s += A[d.take(A.size())]; bool u; auto tk = lex(s, u); judge(s, tk, u, true, true); });
        // reserved names: every prefix, every single-character variation and a tail
        static const char* names[] = {"sin", "cos", "tan", "exp", "log", "sqrt", "abs", "pow", "PI", "sqr", "E", "x", "y_2", "n"};
        static const char* tails[] = {"", "(4)", "|4|", "4", " 4", "x", "+1", "t(4)", "(4", ")", "*", "(4)(2)", "(2,3)", "!"};
        section("names", 14 * 5 * 28 * 14, [&](u64 i) {
            Dec d(i); std::string s = names[d.take(14)]; int pos = d.take(5), how = d.take(28); const char* tail = tails[d.take(14)];
            if(pos < (int)s.size()) { if(how < 26) s[pos] = 'a' + how; else if(how == 26) s.erase(pos); }
            else if(how == 27) s += "_";
            s += tail; bool u; auto tk = lex(s, u); judge(s, tk, u, true, true); });
        // every byte value, alone and inside an expression
        static const char* bctx[] = {"%c", "2%c", "%c2", "2+%c", "(%c)", "2%c3", "sin%c(2)"};
        section("bytes", 255 * 7, [&](u64 i) {
            Dec d(i); int c = 1 + d.take(255); std::string s = fmt(bctx[d.take(7)], c); bool u; auto tk = lex(s, u); judge(s, tk, u, true, true); });
        // over-long literals and names must be rejected, not truncated
        section("over_long", 2 * 62, [&](u64 i) {
            std::string s(127 + i / 2, i % 2 ? '1' : 'a'); vp::input(fmt("%zu characters of '%c'", s.size(), s[0])); Teuchos::ParameterList p; p.set<double>(s, 1.0); p.set<double>(s.substr(0, 126), 2.0);
            EE e(p); Got g = eval_with(e, s); vp::check(g.rejected, "over-long token accepted"); });
        section("exponent_at_limit", 20, [&](u64 i) {
            std::string s(115 + i, '0'); s[0] = '1'; s += "e+5"; vp::input(s); Got g = eval(s); if(s.size() <= 120) vp::check(!g.rejected, "rejected"); });
        section("null", 1, [&](u64) { Teuchos::ParameterList p; EE e(p); vp::calls(2); e.parse_expression(nullptr); e.print_expression(std::cout); vp::check(true, ""); });
    }
    {
        // object reuse: every history of parse / validate+evaluate / delete on one object behaves as on a fresh one
        static const char* in[] = {"2+3*x", "(1", "sin()", "pow(2,", "|x-4|", "1e", "2*", "q+1", "", "(2)(3)!", "1)(2", "|(1|)", "pow(1+2,2)", "2 3"};
        const unsigned NI = 14, K = T ? 4 : 3;
        section("histories", ipow(NI + 2, K), [&](u64 i) {
            Dec d(i); Teuchos::ParameterList pl = the_params(); std::string h; double last = 0; int have = 0; // 0 nothing, 1 value, 2 unspecified
            {
                EE e(pl);
                for(unsigned k = 0; k < K; k++)
                {
                    unsigned o = d.take(NI + 2);
                    if(o < NI)
                    {
                        bool u; auto tk = lex(in[o], u); Parser P(tk, VARS); Result r = P.run(); h += std::string("parse '") + in[o] + "'; "; vp::input(h);
                        Got g = eval_with(e, in[o]);
                        if(r.st == BAD) { vp::check(g.rejected, "malformed '%s' accepted", in[o]); have = 2; }
                        else if(r.st == UNSPEC) have = 2;
                        else { vp::check(!g.rejected, "well-formed '%s' rejected", in[o]); vp::eq(g.v, r.v, "value"); last = r.v; have = 1; }
                    }
                    else if(o == NI) { h += "evaluate; "; vp::input(h); vp::calls(); if(have == 1) vp::eq(e.evaluate_expression(), last, "re-evaluation"); else throws([&] { e.evaluate_expression(); }); std::ostringstream os; e.print_expression(os); }
                    else { h += "delete; "; vp::input(h); vp::calls(); e.delete_expression(); have = 2; }
                }
            } });
    }
#endif
}
