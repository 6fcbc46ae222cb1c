// C33: infix to postfix and evaluation against an independent precedence-climbing parser over the same tokens.
#include "vm.h"
#include <math.h>
#include <memory>
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/structure/math/modulo.h"

namespace sy = altruct::parser::shunting_yard;
namespace altruct { namespace parser { namespace shunting_yard {
inline std::string str(const postfix_token& t) { return (t.type == postfix_token::type_t::OPERAND ? "x" : "f") + std::to_string(t.id) + "/" + std::to_string(t.num_args); }
} } }

namespace {
typedef sy::infix_token::type_t IT; typedef sy::postfix_token::type_t PT; typedef sy::operator_desc::assoc_t AS; typedef sy::operator_desc::arity_t AR;
typedef std::vector<sy::infix_token> Toks;
struct node { bool leaf; int id; std::vector<std::shared_ptr<node>> kids; };
typedef std::shared_ptr<node> NP;

// random expression text: prefixes, a primary (operand, group, call), postfixes, then maybe a binary operator and more
struct gen {
    vm::Rng& r; int operands; std::vector<int> prefix, postfix, binary; std::map<int, std::vector<int>> calls; // function id -> argument counts
    int budget; Toks t; int depth_seen = 0, pre = 0, bin = 0, fun = 0, zero = 0;
    void primary(int d) {
        depth_seen = std::max(depth_seen, d); int k = budget <= 0 || d > 12 ? 0 : (int)r.below(6);
        if (k == 5 && !calls.empty()) { auto it = calls.begin(); std::advance(it, r.below(calls.size())); int n = r.pick(it->second); fun++; zero += n == 0; t.push_back({ IT::FUNCTION, it->first }); t.push_back({ IT::LEFT_PARENTHESIS, 0 }); for (int i = 0; i < n; i++) { if (i) t.push_back({ IT::SEPARATOR, 0 }); expr(d + 1); } t.push_back({ IT::RIGHT_PARENTHESIS, 0 }); }
        else if (k == 4) { int m = r.coin(1, 5) ? 2 : 1; for (int i = 0; i < m; i++) t.push_back({ IT::LEFT_PARENTHESIS, 0 }); expr(d + 1); for (int i = 0; i < m; i++) t.push_back({ IT::RIGHT_PARENTHESIS, 0 }); }
        else t.push_back({ IT::OPERAND, (int)r.below(operands) });
    }
    void expr(int d) {
        int more = (int)r.below(r.pick({1, 3, 6})); 
        for (;;) {
            budget--; while (!prefix.empty() && r.coin(1, 4)) { t.push_back({ IT::OPERATOR, r.pick(prefix) }); pre++; }
            primary(d); while (!postfix.empty() && r.coin(1, 6)) t.push_back({ IT::OPERATOR, r.pick(postfix) });
            if (more-- <= 0 || budget <= 0 || binary.empty()) return; t.push_back({ IT::OPERATOR, r.pick(binary) }); bin++;
        }
    }
};
// precedence climbing
struct pratt {
    const Toks& t; const std::vector<sy::operator_desc>& ops; size_t p = 0;
    bool at(IT k) const { return p < t.size() && t[p].type == k; }
    NP prim() {
        if (at(IT::OPERATOR)) { int id = t[p++].id; NP a = climb(id); return NP(new node{ false, id, { a } }); } // a prefix operator takes everything that binds tighter
        if (at(IT::LEFT_PARENTHESIS)) { p++; NP a = climb(-1); p++; return a; }
        if (at(IT::FUNCTION)) { NP f(new node{ false, t[p].id, {} }); p += 2; while (!at(IT::RIGHT_PARENTHESIS)) { f->kids.push_back(climb(-1)); if (at(IT::SEPARATOR)) p++; } p++; return f; }
        return NP(new node{ true, t[p++].id, {} });
    }
    bool binds(int next, int left) const { if (left < 0) return true; int a = ops[next].precedence, b = ops[left].precedence; return a > b || (a == b && ops[next].associativity == AS::RIGHT); }
    NP climb(int left) {
        NP a = prim();
        while (at(IT::OPERATOR) && binds(t[p].id, left)) { int id = t[p++].id; if (ops[id].arity == AR::UNARY) a = NP(new node{ false, id, { a } }); else { NP b = climb(id); a = NP(new node{ false, id, { a, b } }); } }
        return a;
    }
};
std::string render(const node& n) { if (n.leaf) return "x" + std::to_string(n.id); std::string s = "f" + std::to_string(n.id) + "("; for (size_t i = 0; i < n.kids.size(); i++) s += (i ? "," : "") + render(*n.kids[i]); return s + ")"; }
void postorder(const node& n, std::vector<sy::postfix_token>& o) { for (auto& k : n.kids) postorder(*k, o); o.push_back({ n.leaf ? PT::OPERAND : PT::FUNCTION, n.id, (int)n.kids.size() }); }
std::string text(const Toks& t) { std::string s; for (auto& x : t) switch (x.type) { case IT::OPERAND: s += "x" + std::to_string(x.id) + " "; break; case IT::OPERATOR: s += "op" + std::to_string(x.id) + " "; break; case IT::LEFT_PARENTHESIS: s += "( "; break; case IT::RIGHT_PARENTHESIS: s += ") "; break; case IT::FUNCTION: s += "f" + std::to_string(x.id); break; default: s += ", "; } return s; }
// a comma separated list of expressions, sometimes within one pair of parentheses
std::vector<NP> list_of(gen& g, const std::vector<sy::operator_desc>& ops, int n) {
    bool paren = g.r.coin(1, 5); std::vector<NP> res; std::vector<Toks> parts; Toks all; int b = g.budget;
    for (int i = 0; i < n; i++) { g.t.clear(); g.budget = b; g.expr(0); pratt p{ g.t, ops }; res.push_back(p.climb(-1)); if (p.p != g.t.size()) abort(); parts.push_back(g.t); }
    if (paren) all.push_back({ IT::LEFT_PARENTHESIS, 0 }); for (int i = 0; i < n; i++) { if (i) all.push_back({ IT::SEPARATOR, 0 }); all.insert(all.end(), parts[i].begin(), parts[i].end()); } if (paren) all.push_back({ IT::RIGHT_PARENTHESIS, 0 });
    g.t = all; return res;
}
std::vector<sy::postfix_token> convert(vm::Ctx& c, Toks& t, const std::vector<sy::operator_desc>& ops, const std::vector<NP>& trees) {
    auto t0 = text(t); auto res = sy::infix_to_postfix<>(t, ops); c.eq(text(t), t0, "infix tokens unchanged");
    std::vector<sy::postfix_token> want; for (auto& k : trees) postorder(*k, want); c.checks();
    if (!(res == want)) { std::string a, b; for (auto& x : res) a += str(x) + " "; for (auto& x : want) b += str(x) + " "; c.fail("postfix", "postfix: got " + a + ", want " + b); }
    c.event("tokens", t.size()); return res;
}
}

UNIT(symbolic, 30000, 1500000, "a random operator table (precedences, associativities, prefix, postfix and binary operators, functions of 0..4 arguments) and a random well-formed list of expressions, evaluated over strings that render the tree") {
    auto& r = c.rng; int nop = 1 + (int)r.below(9), nf = (int)r.below(4); std::vector<sy::operator_desc> ops; int levels = 1 + (int)r.below(6); std::vector<AS> la; for (int i = 0; i < levels; i++) la.push_back(r.coin() ? AS::LEFT : AS::RIGHT); int neg = (int)r.range(-5, 5);
    gen g{ r, 1 + (int)r.below(6), {}, {}, {}, {}, 1 + (int)r.below(r.pick({5, 20, 80})) }; std::string desc;
    for (int i = 0; i < nop; i++) { int k = (int)r.below(6), l = (int)r.below(levels); bool un = k <= 1, post = k == 1 && r.coin(); // a postfix operator binds tighter than anything else
        int prec = post ? neg + levels * 3 + 7 : neg + 3 * l; ops.push_back({ prec, post ? AS::LEFT : la[l], un ? AR::UNARY : AR::BINARY }); (un ? post ? g.postfix : g.prefix : g.binary).push_back(i); desc += (post ? "post" : un ? "pre" : "bin") + std::to_string(i) + ":" + std::to_string(prec) + (ops.back().associativity == AS::LEFT ? "L " : "R "); }
    for (int i = 0; i < nf; i++) { std::vector<int> n; for (int k = 1 + (int)r.below(3); k; k--) n.push_back((int)r.below(5)); g.calls[nop + i] = n; }
    auto trees = list_of(g, ops, r.coin(1, 3) ? 1 + (int)r.below(4) : 1); c.input("%s| %s", desc.c_str(), text(g.t).c_str());
    auto res = convert(c, g.t, ops, trees);
    std::vector<std::string> vals; for (int i = 0; i < g.operands; i++) vals.push_back("x" + std::to_string(i));
    // evaluators learn the number of arguments from the token: one evaluator set per arity met would hide a wrong count, so the arity is part of the comparison above
    std::map<std::pair<int, int>, int> uses; for (auto& t : res) if (t.type == PT::FUNCTION) uses[{ t.id, t.num_args }]++;
    auto res2 = res; std::vector<std::function<std::string(std::string*)>> ev; std::map<std::pair<int, int>, int> ids; for (auto& u : uses) { auto key = u.first; ids[key] = (int)ev.size(); ev.push_back([key](std::string* a) { std::string s = "f" + std::to_string(key.first) + "("; for (int i = 0; i < key.second; i++) s += (i ? "," : "") + a[i]; return s + ")"; }); } for (auto& t : res2) if (t.type == PT::FUNCTION) t.id = ids[{ t.id, t.num_args }];
    auto out = sy::evaluate_postfix(res2, vals, ev); std::vector<std::string> want; for (auto& k : trees) want.push_back(render(*k)); c.eq(out, want, "evaluated");
    c.event("binary operators", g.bin); c.event("prefix operators", g.pre); c.event("calls", g.fun); c.event("calls without arguments", g.zero); if (trees.size() > 1) c.event("lists"); if (g.bin + g.pre > 1) c.nontrivial_input();
}
namespace {
typedef vm::i128 i128;
// value of an integer_math tree, or not representable / not defined
template<typename T> bool value(const node& n, const std::vector<T>& v, T& out) {
    typedef sy::integer_math<T> M; if (n.leaf) { out = v[n.id]; return true; }
    T a[2] = { 0, 0 }; for (size_t i = 0; i < n.kids.size(); i++) if (!value(*n.kids[i], v, a[i])) return false;
    i128 x = a[0], y = a[1], z; int L = 8 * sizeof(T);
    switch (n.id) {
    case M::NEG: z = -x; break; case M::MUL: z = x * y; break; case M::DIV: if (!y) return false; z = x / y; break; case M::MOD: if (!y || (y == -1 && x == std::numeric_limits<T>::min())) return false; z = x - (x / y) * y; break; case M::ADD: z = x + y; break; case M::SUB: z = x - y; break;
    case M::SHL: if (x < 0 || y < 0 || y >= L - 1) return false; z = x << (int)y; break; case M::SHR: if (y < 0 || y >= L) return false; z = x >= 0 ? x >> (int)y : ~((~x) >> (int)y); break;
    case M::LTE: z = x <= y; break; case M::GTE: z = x >= y; break; case M::LT: z = x < y; break; case M::GT: z = x > y; break; case M::EQ: z = x == y; break; case M::NEQ: z = x != y; break;
    case M::BIT_NOT: z = -x - 1; break; case M::BIT_AND: z = (T)(a[0] & a[1]); break; case M::BIT_XOR: z = (T)(a[0] | a[1]) - (T)(a[0] & a[1]); break; case M::BIT_OR: z = x + y - (T)(a[0] & a[1]); break;
    case M::LOG_NOT: z = x == 0; break; case M::LOG_AND: z = x != 0 && y != 0; break; case M::LOG_XOR: z = (x != 0) != (y != 0); break; case M::LOG_OR: z = x != 0 || y != 0; break;
    case M::SQRT: { if (x < 0) return false; z = 0; for (i128 b = (i128)1 << 32; b; b >>= 1) if ((z + b) * (z + b) <= x) z += b; break; }
    case M::POW: { if (y < 0 || y > 70) return false; z = 1; i128 lim = (i128)1 << 62; for (int i = 0; i < y; i++) { z *= x; if (z > lim || z < -lim) return false; } i128 b = x; for (i128 e = y; e; e >>= 1) { if (b > ((i128)1 << 62) || b < -((i128)1 << 62)) return false; if (b * b > std::numeric_limits<T>::max()) { if (e > 0) return false; } b *= b; } break; } // (squares the base once more than needed: those cases are skipped)
    default: return false; }
    if (z < std::numeric_limits<T>::min() || z > std::numeric_limits<T>::max()) return false; out = (T)z; return true;
}
template<typename T> void integer_case(vm::Ctx& c) {
    typedef sy::integer_math<T> M; auto& r = c.rng; auto& ops = M::operators(); auto& ev = M::evaluators();
    gen g{ r, 1 + (int)r.below(6), { M::NEG, M::BIT_NOT, M::LOG_NOT }, {}, {}, {}, 1 + (int)r.below(r.pick({3, 6, 15})) }; int mode = (int)r.below(3);
    for (int i = M::MUL; i <= M::LOG_OR; i++) if (i != M::ROL && i != M::ROR && i != M::BIT_NOT && i != M::LOG_NOT && (mode || r.coin(1, 3))) g.binary.push_back(i); if (g.binary.empty()) g.binary = { M::ADD, M::MUL };
    g.calls[M::SQRT] = { 1 }; g.calls[M::POW] = { 2 }; std::vector<T> v; for (int i = 0; i < g.operands; i++) v.push_back(mode == 2 ? (T)r.edgy(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()) : (T)r.range(-3, 12));
    auto trees = list_of(g, ops, r.coin(1, 4) ? 2 : 1); c.input("%s | %s", text(g.t).c_str(), vm::str(v).c_str()); auto res = convert(c, g.t, ops, trees);
    std::vector<T> want(trees.size()); for (size_t i = 0; i < trees.size(); i++) if (!value(*trees[i], v, want[i])) { c.event("undefined values skipped"); return; }
    c.eq(sy::evaluate_postfix(res, v, ev), want, "integer value"); c.event("integer values", want.size()); if (g.bin > 1) c.nontrivial_input();
}
double fvalue(const node& n, const std::vector<double>& v) {
    typedef sy::floating_point_math<double> M; if (n.leaf) return v[n.id]; double a[2] = { 0, 0 }; for (size_t i = 0; i < n.kids.size(); i++) a[i] = fvalue(*n.kids[i], v);
    switch (n.id) { case M::NEG: return -a[0]; case M::MUL: return a[0] * a[1]; case M::DIV: return a[0] / a[1]; case M::ADD: return a[0] + a[1]; case M::SUB: return a[0] - a[1]; case M::SQRT: return sqrt(a[0]); case M::POW: return pow(a[0], a[1]); case M::EXP: return exp(a[0]); case M::LOG: return log(a[0]); case M::SIN: return sin(a[0]); case M::COS: return cos(a[0]); case M::TAN: return tan(a[0]); case M::SINH: return sinh(a[0]); case M::COSH: return cosh(a[0]); case M::TANH: return tanh(a[0]); case M::ASIN: return asin(a[0]); case M::ACOS: return acos(a[0]); case M::ATAN: return atan(a[0]); case M::ATAN2: return atan2(a[0], a[1]); case M::ASINH: return asinh(a[0]); case M::ACOSH: return acosh(a[0]); case M::ATANH: return atanh(a[0]); } abort();
}
}
UNIT(integers, 50000, 2000000, "a random expression over the integer operators and functions, evaluated in exact arithmetic; undefined and overflowing values are skipped") { if (c.rng.coin()) integer_case<int>(c); else integer_case<int64_t>(c); }
UNIT(reals, 12000, 500000, "a random expression over the floating-point operators and functions, bit-equal to the same operations done natively") {
    typedef sy::floating_point_math<double> M; auto& r = c.rng; gen g{ r, 1 + (int)r.below(6), { M::NEG }, {}, { M::MUL, M::DIV, M::ADD, M::SUB }, {}, 1 + (int)r.below(r.pick({3, 8, 20})) }; for (int f = M::SQRT; f <= M::ATANH; f++) g.calls[f] = { f == M::POW || f == M::ATAN2 ? 2 : 1 };
    std::vector<double> v; for (int i = 0; i < g.operands; i++) v.push_back(r.coin() ? (double)r.range(-20, 20) / 8 : ldexp((double)r.range(-1000, 1000), (int)r.range(-20, 20)));
    auto trees = list_of(g, M::operators(), r.coin(1, 4) ? 2 : 1); c.input("%s | %s", text(g.t).c_str(), vm::str(v).c_str()); auto res = convert(c, g.t, M::operators(), trees); auto out = sy::evaluate_postfix(res, v, M::evaluators()); c.eq(out.size(), trees.size(), "number of values");
    for (size_t i = 0; i < trees.size(); i++) { double w = fvalue(*trees[i], v); if (w != w) { c.ok(out[i] != out[i], "real value:nan"); c.event("nan"); } else { c.ok(out[i] == w || fabs(out[i] - w) <= 1e-9 * fabs(w), "real value", vm::str(out[i]) + " vs " + vm::str(w)); c.event("real values"); } } if (g.bin + g.fun > 1) c.nontrivial_input();
}
UNIT(field, 12000, 500000, "a random expression over the basic operators in a prime field") {
    typedef altruct::math::modulo<int, 1000000007, altruct::math::modulo_storage::CONSTANT> mod; typedef sy::basic_math<mod> M; auto& r = c.rng; const int64_t P = 1000000007; gen g{ r, 1 + (int)r.below(6), { M::NEG }, {}, { M::MUL, M::DIV, M::ADD, M::SUB }, {}, 1 + (int)r.below(r.pick({3, 8, 20})) };
    std::vector<mod> v; std::vector<int64_t> w; for (int i = 0; i < g.operands; i++) { int64_t x = r.coin() ? r.range(0, P - 1) : (int64_t)r.below(4); w.push_back(x); v.push_back(mod((int)x)); } auto trees = list_of(g, M::operators(), r.coin(1, 4) ? 3 : 1); c.input("%s | %s", text(g.t).c_str(), vm::str(w).c_str());
    bool bad = false; std::function<int64_t(const node&)> val = [&](const node& n) -> int64_t { if (n.leaf) return w[n.id]; int64_t a = val(*n.kids[0]), b = n.kids.size() > 1 ? val(*n.kids[1]) : 0; switch (n.id) { case M::NEG: return (P - a) % P; case M::MUL: return a * b % P; case M::ADD: return (a + b) % P; case M::SUB: return (a - b + P) % P; default: { if (!b) { bad = true; return 0; } int64_t i = 1, e = P - 2; for (int64_t q = b; e; e >>= 1, q = q * q % P) if (e & 1) i = i * q % P; return a * i % P; } } };
    auto res = convert(c, g.t, M::operators(), trees); std::vector<int64_t> want; for (auto& t : trees) want.push_back(val(*t)); if (bad) { c.event("division by zero skipped"); return; }
    auto out = sy::evaluate_postfix(res, v, M::evaluators()); std::vector<int64_t> got; for (auto& x : out) got.push_back(x.v); c.eq(got, want, "field value"); c.event("field values", got.size()); if (g.bin > 1) c.nontrivial_input();
}
UNIT(long_expressions, 100, 2000, "an expression of thousands of tokens: deep nesting, long operator chains of one associativity, long prefixes") {
    auto& r = c.rng; std::vector<sy::operator_desc> ops{ { 1, AS::LEFT, AR::BINARY }, { 2, AS::RIGHT, AR::BINARY }, { 3, AS::RIGHT, AR::UNARY }, { 2, AS::RIGHT, AR::BINARY } }; int n = 200 + (int)r.below(2500), mode = (int)r.below(5); Toks t; c.input("mode %d n %d", mode, n);
    switch (mode) { case 0: for (int i = 0; i < n; i++) { if (i) t.push_back({ IT::OPERATOR, 0 }); t.push_back({ IT::OPERAND, i % 3 }); } break; case 1: for (int i = 0; i < n; i++) { if (i) t.push_back({ IT::OPERATOR, 1 + 2 * (int)r.below(2) }); t.push_back({ IT::OPERAND, i % 3 }); } break; case 2: for (int i = 0; i < n; i++) t.push_back({ IT::OPERATOR, 2 }); t.push_back({ IT::OPERAND, 0 }); break; case 3: for (int i = 0; i < n; i++) { t.push_back({ IT::OPERAND, 1 }); t.push_back({ IT::OPERATOR, (int)r.below(2) }); t.push_back({ IT::LEFT_PARENTHESIS, 0 }); } t.push_back({ IT::OPERAND, 2 }); for (int i = 0; i < n; i++) t.push_back({ IT::RIGHT_PARENTHESIS, 0 }); break; default: for (int i = 0; i < n; i++) { t.push_back({ IT::FUNCTION, 4 }); t.push_back({ IT::LEFT_PARENTHESIS, 0 }); t.push_back({ IT::OPERAND, 1 }); t.push_back({ IT::SEPARATOR, 0 }); } t.push_back({ IT::OPERAND, 2 }); for (int i = 0; i < n; i++) t.push_back({ IT::RIGHT_PARENTHESIS, 0 }); }
    pratt p{ t, ops }; std::vector<NP> trees{ p.climb(-1) }; auto res = convert(c, t, ops, trees); std::vector<uint64_t> v{ r.u64(), r.u64(), r.u64() }; std::vector<std::function<uint64_t(uint64_t*)>> ev{ [](uint64_t* a) { return a[0] * 3 - a[1]; }, [](uint64_t* a) { return a[0] * 5 + (a[1] ^ 77); }, [](uint64_t* a) { return ~a[0] * 7; }, [](uint64_t* a) { return a[0] * 11 ^ a[1]; }, [](uint64_t* a) { return a[0] + 13 * a[1]; } };
    std::function<uint64_t(const node&)> val = [&](const node& x) -> uint64_t { if (x.leaf) return v[x.id]; uint64_t a[2]; for (size_t i = 0; i < x.kids.size(); i++) a[i] = val(*x.kids[i]); return ev[x.id](a); };
    c.eq(sy::evaluate_postfix(res, v, ev), std::vector<uint64_t>{ val(*trees[0]) }, "long value"); c.nontrivial_input();
}
UNIT(operator_tables, 1, 1, "the predefined operator tables bind in the usual order: prefix operators, then * / %, + -, shifts, comparisons, equalities, & ^ |, && ^^ ||; equal within a group, all grouped from the left") {
    auto check = [&](const std::vector<sy::operator_desc>& ops, const std::vector<std::vector<int>>& groups, const char* tag) { std::map<int, int> rank; for (size_t g = 0; g < groups.size(); g++) for (int i : groups[g]) rank[i] = (int)g; c.eq(ops.size(), rank.size(), tag);
        for (auto& a : rank) { bool un = a.second == 0; c.ok(ops[a.first].arity == (un ? AR::UNARY : AR::BINARY), tag, "arity"); c.ok(un || ops[a.first].associativity == AS::LEFT, tag, "associativity"); for (auto& b : rank) c.ok((ops[a.first].precedence > ops[b.first].precedence) == (a.second < b.second), tag, "precedence of " + vm::str(a.first) + " and " + vm::str(b.first)); } };
    typedef sy::basic_math<int> B; typedef sy::integer_math<int> M; typedef sy::floating_point_math<double> F; c.input("tables");
    check(B::operators(), {{B::NEG}, {B::MUL, B::DIV}, {B::ADD, B::SUB}}, "basic"); check(F::operators(), {{F::NEG}, {F::MUL, F::DIV}, {F::ADD, F::SUB}}, "floating");
    check(M::operators(), {{M::NEG, M::BIT_NOT, M::LOG_NOT}, {M::MUL, M::DIV, M::MOD}, {M::ADD, M::SUB}, {M::SHL, M::SHR, M::ROL, M::ROR}, {M::LTE, M::GTE, M::LT, M::GT}, {M::EQ, M::NEQ}, {M::BIT_AND}, {M::BIT_XOR}, {M::BIT_OR}, {M::LOG_AND}, {M::LOG_XOR}, {M::LOG_OR}}, "integer"); c.nontrivial(1);
}
