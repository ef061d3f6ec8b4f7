// Regular-expression trees with a direct semantics (oracle), their text form, and construction through the NFA operations.
#ifndef VERIF_RE_H
#define VERIF_RE_H
#include "common.h"
#include <pdaaal/NFA.h>
using namespace vf; using namespace pdaaal;
// ---- reference: regular expression trees with a direct (position set) semantics ----
struct Re; using ReP = std::shared_ptr<Re>;
struct Re { enum K { SET, EPS, CAT, OR, STAR, PLUS, OPT, VOID } k; bool neg = false; std::set<int> s; ReP a, b; };
inline ReP mk(Re::K k, ReP a = nullptr, ReP b = nullptr) { auto r = std::make_shared<Re>(); r->k = k; r->a = a; r->b = b; return r; }
inline std::set<int> ends(const ReP& r, const std::vector<int>& w, const std::set<int>& from) {
    std::set<int> out;
    switch (r->k) {
        case Re::VOID: break;
        case Re::EPS: return from;
        case Re::SET: for (int i : from) if (i < (int)w.size() && (r->s.count(w[i]) > 0) != r->neg) out.insert(i + 1); break;
        case Re::CAT: return ends(r->b, w, ends(r->a, w, from));
        case Re::OR: { out = ends(r->a, w, from); auto o2 = ends(r->b, w, from); out.insert(o2.begin(), o2.end()); break; }
        case Re::OPT: { out = ends(r->a, w, from); out.insert(from.begin(), from.end()); break; }
        case Re::STAR: case Re::PLUS: {
            std::set<int> cur = r->k == Re::STAR ? from : ends(r->a, w, from); out = cur;
            while (true) { auto nx = ends(r->a, w, out); size_t n = out.size(); out.insert(nx.begin(), nx.end()); if (out.size() == n) break; }
            break; }
    }
    return out;
}
inline bool matches(const ReP& r, const std::vector<int>& w) { return ends(r, w, {0}).count((int)w.size()) > 0; }
inline std::string ws(Rng& g, bool fancy) { if (!fancy) return ""; switch (g.below(9)) { case 0: return " "; case 1: return "\t"; case 2: return "\n"; case 3: return " # note | ( * [\n"; case 4: return "  "; default: return ""; } }
inline std::string name(int l) { static const char* n[] = {"a", "b1", "_x", "long_label_7", "0", "A", "zz", "q9"}; return l < 8 ? n[l] : "l" + std::to_string(l); }
// prec: 0 = alternation allowed, 1 = sequence, 2 = atom
inline std::string show(const ReP& r, Rng& g, bool fancy, int prec = 0) {
    auto par = [&](const std::string& s) { return "(" + ws(g, fancy) + s + ws(g, fancy) + ")"; };
    switch (r->k) {
        case Re::SET: { if (r->neg && r->s.empty()) return "."; std::string s = r->neg ? "[^" : "["; bool f = true; std::vector<int> v(r->s.begin(), r->s.end()); if (fancy) for (size_t i = 1; i < v.size(); ++i) std::swap(v[i], v[g.below((int)i + 1)]); for (int x : v) { s += (f ? "" : "," + ws(g, fancy)) + name(x); f = false; if (fancy && g.chance(15)) s += "," + name(x); } return s + "]"; }
        case Re::CAT: { auto s = show(r->a, g, fancy, 1) + (g.chance(60) ? " " : "") + ws(g, fancy) + show(r->b, g, fancy, 1); return prec > 1 ? par(s) : s; }
        case Re::OR: { auto s = show(r->a, g, fancy, 0) + ws(g, fancy) + "|" + ws(g, fancy) + show(r->b, g, fancy, 0); return prec > 0 ? par(s) : s; }
        case Re::STAR: case Re::PLUS: case Re::OPT: { auto in = show(r->a, g, fancy, 2); bool atom = r->a->k == Re::SET || (r->a->k == Re::CAT || r->a->k == Re::OR); return (atom ? in : par(in)) + (r->k == Re::STAR ? "*" : r->k == Re::PLUS ? "+" : "?"); }
        default: return "";
    }
}
inline std::string plain(const ReP& r) { Rng g(1); if (r->k == Re::EPS) return "eps"; if (r->k == Re::VOID) return "void"; 
    switch (r->k) { case Re::CAT: return "(" + plain(r->a) + " " + plain(r->b) + ")"; case Re::OR: return "(" + plain(r->a) + "|" + plain(r->b) + ")"; case Re::STAR: return plain(r->a) + "*"; case Re::PLUS: return plain(r->a) + "+"; case Re::OPT: return plain(r->a) + "?"; default: return show(r, g, false); } }
inline ReP gen(Rng& g, int m, int depth, bool parsable) {
    int z = g.below(100);
    if (depth == 0 || z < 22) { auto r = mk(Re::SET); if (!parsable && g.chance(4)) return mk(g.chance(50) ? Re::EPS : Re::VOID); r->neg = g.chance(30); int c = r->neg ? g.below(m) : g.in(1, std::max(1, m - 1)); if (!r->neg && g.chance(60)) c = 1; for (int i = 0; i < c; ++i) r->s.insert(g.below(m)); return r; }
    if (z < 48) return mk(Re::CAT, gen(g, m, depth - 1, parsable), gen(g, m, depth - 1, parsable));
    if (z < 66) return mk(Re::OR, gen(g, m, depth - 1, parsable), gen(g, m, depth - 1, parsable));
    if (z < 78) return mk(Re::STAR, gen(g, m, depth - 1, parsable));
    if (z < 89) return mk(Re::PLUS, gen(g, m, depth - 1, parsable));
    return mk(Re::OPT, gen(g, m, depth - 1, parsable));
}
template<typename T> T sym(int x); 
template<> inline char sym<char>(int x) { return (char)('a' + x); }
template<> inline size_t sym<size_t>(int x) { return (size_t)(97 * x + 3); }
template<> inline int sym<int>(int x) { return 5 - 3 * x; }
template<> inline std::string sym<std::string>(int x) { return name(x); }
template<typename T> NFA<T> build(const ReP& r, Rng& g) {
    switch (r->k) {
        case Re::EPS: return NFA<T>(true);
        case Re::VOID: return g.chance(50) ? NFA<T>(false) : NFA<T>(std::unordered_set<T>(), false);
        case Re::SET: { std::unordered_set<T> s; for (int x : r->s) s.insert(sym<T>(x)); return NFA<T>(std::move(s), r->neg); }
        case Re::CAT: { auto a = build<T>(r->a, g); if (g.chance(25)) a.concat(NFA<T>(build<T>(r->b, g))); else { auto b = build<T>(r->b, g); if (g.chance(20)) { NFA<T> c(b); a.concat(std::move(c)); } else a.concat(std::move(b)); } return a; }
        case Re::OR: { auto a = build<T>(r->a, g); auto b = build<T>(r->b, g); a.or_extend(std::move(b)); return a; }
        case Re::STAR: { auto a = build<T>(r->a, g); a.star_extend(); return a; }
        case Re::PLUS: { auto a = build<T>(r->a, g); a.plus_extend(); return a; }
        case Re::OPT: { auto a = build<T>(r->a, g); a.question_extend(); return a; }
    }
    return NFA<T>(false);
}
// every word over m letters up to length len
template<typename F> inline void words(int m, int len, F&& f) {
    std::vector<std::vector<int>> cur{{}};
    f(cur[0]);
    for (int l = 0; l < len; ++l) { std::vector<std::vector<int>> nx; for (auto& w : cur) for (int x = 0; x < m; ++x) { auto v = w; v.push_back(x); f(v); nx.push_back(std::move(v)); } cur.swap(nx); }
}
#ifdef VERIF_REF_H
// Thompson construction of the reference expression, turned into an epsilon-free reference P-automaton: accepts <p,w> iff p is in roots and w matches.
struct Thompson { std::vector<std::vector<int>> eps; std::vector<std::tuple<int,std::set<int>,int>> let; int m; int add() { eps.emplace_back(); return (int)eps.size() - 1; }
    std::pair<int,int> go(const ReP& r) { int s = add(), t = add(); switch (r->k) {
        case Re::EPS: eps[s].push_back(t); break; case Re::VOID: break;
        case Re::SET: { std::set<int> c; for (int x = 0; x < m; ++x) if ((r->s.count(x) > 0) != r->neg) c.insert(x); let.push_back({s, c, t}); break; }
        case Re::CAT: { auto a = go(r->a), b = go(r->b); eps[s].push_back(a.first); eps[a.second].push_back(b.first); eps[b.second].push_back(t); break; }
        case Re::OR: { auto a = go(r->a), b = go(r->b); eps[s].push_back(a.first); eps[s].push_back(b.first); eps[a.second].push_back(t); eps[b.second].push_back(t); break; }
        default: { auto a = go(r->a); eps[s].push_back(a.first); eps[a.second].push_back(t); if (r->k != Re::PLUS) eps[s].push_back(t); if (r->k != Re::OPT) eps[a.second].push_back(a.first); } }
        return {s, t}; }
    std::set<int> close(int q) { std::set<int> c{q}; std::vector<int> wl{q}; while (!wl.empty()) { int x = wl.back(); wl.pop_back(); for (int y : eps[x]) if (c.insert(y).second) wl.push_back(y); } return c; } };
inline RAut re_aut(const RPda& p, const ReP& r, const std::set<int>& roots) {
    Thompson t; t.m = p.m; auto [s, f] = t.go(r); RAut a; int N = (int)t.eps.size();
    for (int i = 0; i < p.n; ++i) a.add(roots.count(i) && t.close(s).count(f)); for (int q = 0; q < N; ++q) a.add(t.close(q).count(f) > 0);
    auto out = [&](int from, int q) { auto c = t.close(q); for (auto& [x, set, y] : t.let) if (c.count(x)) for (int l : set) a.edges.insert({from, l, p.n + y}); };
    for (int i : roots) out(i, s); for (int q = 0; q < N; ++q) out(p.n + q, q);
    return a;
}
#endif
#endif
