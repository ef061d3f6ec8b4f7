// NFA algebra, NFA queries and the regular-expression parser against a naive reference matcher.
#include "common.h"
#include "re.h"
#include "dot.h"
#include <pdaaal/parsing/NfaParser.h>
using namespace vf; using namespace pdaaal;
template<typename T> static bool run(const NFA<T>& n, const std::vector<int>& w, const std::function<T(int)>& sy) {
    if (w.empty()) return n.empty_accept();
    std::vector<const typename NFA<T>::state_t*> cur(n.initial().begin(), n.initial().end());
    for (int x : w) cur = NFA<T>::successor(cur, sy(x));
    for (auto s : cur) if (s->_accepting) return true;
    return false;
}
// second opinion: simulate the raw edges ourselves (also checks that the accepting list agrees with the flags)
template<typename T> static bool simulate(const NFA<T>& n, const std::vector<int>& w, const std::function<T(int)>& sy) {
    using S = typename NFA<T>::state_t;
    std::set<const S*> cur(n.initial().begin(), n.initial().end());
    auto close = [&] { std::vector<const S*> wl(cur.begin(), cur.end()); while (!wl.empty()) { auto s = wl.back(); wl.pop_back(); for (auto& e : s->_edges) if (e._epsilon && cur.insert(e._destination).second) wl.push_back(e._destination); } };
    close();
    for (int x : w) { std::set<const S*> nx; T v = sy(x); for (auto s : cur) for (auto& e : s->_edges) if (!(e._epsilon && !e._negated && e._symbols.empty())) { bool in = std::find(e._symbols.begin(), e._symbols.end(), v) != e._symbols.end(); if (in != e._negated) nx.insert(e._destination); } cur.swap(nx); close(); }
    for (auto s : cur) if (s->_accepting) return true;
    return false;
}
static std::string wstr(const std::vector<int>& w) { std::string s; for (int x : w) s += name(x) + " "; return "\"" + s + "\""; }
template<typename T> static void compare(const char* what, const NFA<T>& n, const ReP& r, int m, int len, const std::function<T(int)>& sy) {
    uint64_t acc = 0, rej = 0;
    words(m, len, [&](const std::vector<int>& w) {
        bool want = matches(r, w); bool got = run<T>(n, w, sy);
        (want ? acc : rej)++;
        if (got != want) fail(std::string("nfa-language-") + what, std::string(what) + (got ? " accepts " : " rejects ") + wstr(w) + ", the expression does the opposite");
        if (simulate<T>(n, w, sy) != want) fail(std::string("nfa-language-") + what, std::string(what) + ": the automaton graph disagrees on " + wstr(w));
    });
    stats().inc("words_accepted", acc); stats().inc("words_rejected", rej);
    if (acc && rej) stats().inc("nontrivial_languages");
    for (auto s : n.accepting()) if (!s->_accepting) fail("nfa-accepting-list", "a state of the accepting list is not accepting");
}
template<typename T> static void algebra(Rng& g, uint64_t) {
    int m = g.in(1, 3); auto r = gen(g, m, g.in(1, 4), false);
    describe("build " + plain(r)); stats().sig(hash_str(current()));
    int len = m == 3 ? 4 : 5; std::function<T(int)> sy = sym<T>;
    auto n = build<T>(r, g);
    NFA<T> before(n);
    n.compile();
    compare<T>("constructed", n, r, m + 1, len, sy);       // letter m occurs in no set
    { NFA<T> c(n); compare<T>("copied", c, r, m + 1, len - 1, sy); c.compile(); compare<T>("copied+compiled", c, r, m + 1, len - 1, sy); }
    { before.compile(); compare<T>("copied-before-compile", before, r, m + 1, len - 1, sy); }
    { auto r2 = gen(g, m, 2, false); auto c = build<T>(r2, g); c.compile(); c = n; compare<T>("copy-assigned", c, r, m + 1, len - 1, sy); auto& self = c; c = self; compare<T>("self-assigned", c, r, m + 1, 3, sy);
      NFA<T> d(false); d = std::move(c); compare<T>("move-assigned", d, r, m + 1, len - 1, sy);
      NFA<T> e(std::move(d)); compare<T>("move-constructed", e, r, m + 1, len - 1, sy);
      // the copy is independent of the original
      NFA<T> f(n); f.concat(build<T>(r2, g)); compare<T>("original-after-copy-changed", n, r, m + 1, 3, sy); }
    n.compile(); compare<T>("compiled-twice", n, r, m + 1, 3, sy);
    // queries used when reconstructing concrete runs
    using S = typename NFA<T>::state_t; auto& states = n.states();
    std::vector<T> labels; for (int x = 0; x <= m; ++x) if (g.chance(80)) labels.push_back(sy(x)); std::sort(labels.begin(), labels.end());
    auto closure = [&](const S* s) { std::set<const S*> c{s}; std::vector<const S*> wl{s}; while (!wl.empty()) { auto q = wl.back(); wl.pop_back(); for (auto& e : q->_edges) if (e._epsilon && c.insert(e._destination).second) wl.push_back(e._destination); } return c; };
    auto in_edge = [&](const typename NFA<T>::edge_t& e, const T& v) { if (e._epsilon && !e._negated && e._symbols.empty()) return false; bool in = std::find(e._symbols.begin(), e._symbols.end(), v) != e._symbols.end(); return in != e._negated; };
    for (int k = 0; k < 6 && !states.empty(); ++k) {
        std::vector<const S*> from; int c = g.in(1, 3); for (int j = 0; j < c; ++j) from.push_back(states[g.below((int)states.size())].get());
        std::sort(from.begin(), from.end()); from.erase(std::unique(from.begin(), from.end()), from.end());
        const S* to = states[g.below((int)states.size())].get();
        if (!(to->_accepting || to->has_non_epsilon())) continue;
        std::set<T> want; for (auto& v : labels) for (auto f : from) for (auto& e : f->_edges) if (in_edge(e, v) && closure(e._destination).count(to)) want.insert(v);
        auto got = NFA<T>::intersect_edge_labels(from, to, labels);
        if (std::vector<T>(want.begin(), want.end()) != got) fail("nfa-edge-labels", "labels between NFA states: expected " + std::to_string(want.size()) + " labels, got " + std::to_string(got.size()));
        for (auto& v : labels) if (NFA<T>::has_as_successor(from, v, to) != (want.count(v) > 0)) fail("nfa-successor", "has_as_successor disagrees with the edges");
        if (NFA<T>::leads_to_by_epsilon(from[0], to) != (closure(from[0]).count(to) > 0)) fail("nfa-epsilon", "leads_to_by_epsilon disagrees with the epsilon edges");
        stats().inc("edge_queries"); if (!want.empty()) stats().inc("edge_queries_nonempty");
        // every label that can be read last on a path into `to` is among its pre-labels
        std::unordered_set<T> all; for (int x = 0; x <= m; ++x) all.insert(sy(x));
        auto pl = to->prelabels(all);
        if (!std::is_sorted(pl.begin(), pl.end()) || std::adjacent_find(pl.begin(), pl.end()) != pl.end()) fail("nfa-prelabels", "not a sorted set");
        for (auto& s : states) for (auto& e : s->_edges) if (closure(e._destination).count(to)) for (auto& v : all) if (in_edge(e, v) && !std::binary_search(pl.begin(), pl.end(), v)) fail("nfa-prelabels", "missing a label that can precede the state");
    }
    for (auto& s : states) for (auto& e : s->_edges) {
        size_t nall = (size_t)m + 1; std::set<T> sset; for (int x = 0; x <= m; ++x) if (in_edge(e, sy(x))) sset.insert(sy(x));
        if (e.empty(nall) != sset.empty()) fail("nfa-edge", "empty() disagrees with the symbols of the edge");
        if (e.wildcard(nall) != (sset.size() == nall)) fail("nfa-edge", "wildcard() disagrees with the symbols of the edge");
        for (int x = 0; x <= m; ++x) if (e.contains(sy(x)) != (sset.count(sy(x)) > 0)) fail("nfa-edge", "contains() disagrees with the symbols of the edge");
        auto fe = e.follow_epsilon(); std::set<const S*> f2(fe.begin(), fe.end()), cl; for (auto q : closure(e._destination)) if (q->_accepting || q->has_non_epsilon()) cl.insert(q);
        if (f2 != cl || f2.size() != fe.size()) fail("nfa-epsilon", "follow_epsilon is not the epsilon closure");
    }
    { // the printed graph shows exactly the states, edges and labels
        auto nm = [](const void* p) { std::stringstream o; o << p; return o.str(); }; std::map<T,int> num; for (int x = 0; x <= m; ++x) num[sy(x)] = x; auto lab = [&](const T& t) { auto it = num.find(t); return it == num.end() ? std::string("?") : "y" + std::to_string(it->second); };
        std::stringstream o; n.to_dot(o, [&](std::ostream& s, const T& t) { s << lab(t); }); Dot got = read_dot(o.str()), want; size_t k = 0;
        for (auto& s : states) { want.nodes.insert(nm(s.get())); if (s->_accepting) want.accepting.insert(nm(s.get())); for (auto& e : s->_edges) { DotLabel l; l.eps = e._epsilon; for (auto& x : e._symbols) l.sym[lab(x)] = ""; l.neg = e._negated && !e._symbols.empty(); l.all = e._negated && e._symbols.empty(); want.edges.emplace(nm(s.get()), nm(e._destination), l); ++k; } } for (auto i : n.initial()) want.initial.insert(nm(i));
        if (got.nodes != want.nodes || got.accepting != want.accepting || got.initial != want.initial) fail("nfa-dot", "the graph does not list exactly the states"); if (got.edges != want.edges) fail("nfa-dot", "the edges of the graph are not those of the automaton: " + o.str()); stats().inc("graph_edges", k); std::stringstream o2; n.to_dot(o2); read_dot(o2.str()); }
    { bool thrown = false; NFA<T> x(n), y(n); try { x.and_extend(std::move(y)); } catch (const std::logic_error&) { thrown = true; } if (!thrown) fail("nfa-conjunction", "unsupported conjunction did not report an error"); }
}
struct Labels { std::map<std::string,size_t> ids; std::function<size_t(const std::string&)> fn() { return [this](const std::string& s) { auto it = ids.emplace(s, 1000 + 7 * ids.size()); return it.first->second; }; } };
static void parser(Rng& g, uint64_t idx) {
    int m = g.in(1, 4); auto r = gen(g, m, g.in(0, 4), true); bool fancy = g.chance(60);
    std::string text = ws(g, fancy) + show(r, g, fancy) + ws(g, fancy) + (fancy && g.chance(20) ? "# end" : "");
    describe("regex " + text); stats().sig(hash_str(text));
    Labels L; for (int x = 0; x <= m; ++x) L.fn()(name(x)); // a fixed numbering for every letter
    std::function<size_t(int)> sy = [&](int x) { return L.ids.at(name(x)); };
    auto parse = [&] { if (idx % 8 == 0) { char f[] = "/tmp/vreXXXXXX"; int fd = mkstemp(f); write_all(fd, text); ::close(fd); try { auto n = NfaParser::parse_file(f, L.fn()); unlink(f); return n; } catch (...) { unlink(f); throw; } } return NfaParser::parse_string(text, L.fn()); };
    std::optional<NFA<size_t>> n;
    try { n.emplace(parse()); } catch (const std::exception& e) { fail("regex-rejected", std::string("a well-formed expression is rejected: ") + e.what()); }
    if (L.ids.size() > (size_t)m + 1) fail("regex-labels", "the parser asked for a label that does not occur in the text");
    n->compile();
    compare<size_t>("parsed", *n, r, m + 1, m >= 3 ? 3 : 5, sy);
    stats().inc("regex_parsed");
}
// ---- syntax acceptance: an independent recogniser of the documented grammar ----
struct Rec { const std::string& s; size_t p = 0;
    bool eof() { return p >= s.size(); } 
    void skip() { while (!eof()) { char c = s[p]; if (c == ' ' || (c >= '\t' && c <= '\r')) ++p; else if (c == '#') { while (!eof() && s[p] != '\n') ++p; if (!eof()) ++p; } else break; } }
    bool lab() { size_t b = p; while (!eof() && (isalnum((unsigned char)s[p]) || s[p] == '_')) ++p; return p > b; }
    bool atom() { if (eof()) return false; if (s[p] == '.') { ++p; return true; } if (s[p] == '(') { ++p; skip(); if (!expr()) throw 1; skip(); if (eof() || s[p] != ')') throw 1; ++p; return true; }
        if (s[p] == '[') { ++p; if (!eof() && s[p] == '^') ++p; if (!lab()) throw 1; while (true) { size_t b = p; skip(); if (!eof() && s[p] == ',') { ++p; skip(); if (!lab()) throw 1; } else { p = b; break; } } if (eof() || s[p] != ']') throw 1; ++p; return true; } return false; }
    bool unary() { if (!atom()) return false; if (!eof() && (s[p] == '*' || s[p] == '+' || s[p] == '?')) ++p; return true; }
    bool seq() { if (!unary()) return false; while (true) { size_t b = p; skip(); if (!unary()) { p = b; break; } } return true; }
    bool expr() { if (!seq()) return false; while (true) { size_t b = p; skip(); if (!eof() && s[p] == '|') { ++p; skip(); if (!seq()) { p = b; break; } } else { p = b; break; } } return true; }
    bool file() { try { skip(); expr(); skip(); return eof(); } catch (int) { return false; } }
};
static void syntax(Rng& g, uint64_t) {
    std::string text;
    if (g.chance(70)) { int m = g.in(1, 4); auto r = gen(g, m, g.in(0, 3), true); text = show(r, g, g.chance(50)); int k = g.in(0, 3); static const char* cs = "[](),.^|*+?# \nab_1"; for (int i = 0; i < k; ++i) { int pos = g.below((int)text.size() + 1); switch (g.below(3)) { case 0: text.insert(text.begin() + pos, cs[g.below(18)]); break; case 1: if (pos < (int)text.size()) text.erase(text.begin() + pos); break; default: if (pos < (int)text.size()) text[pos] = cs[g.below(18)]; } } }
    else { int n = g.below(14); static const char* cs = "[[]](),.^|*+?# \nab_1[]a"; for (int i = 0; i < n; ++i) text += cs[g.below(23)]; if (g.chance(10)) text += (char)g.below(256); }
    describe("text " + text); stats().sig(hash_str(text));
    Rec rec{text}; bool want = rec.file(); bool got; Labels L; std::string err;
    try { auto n = NfaParser::parse_string(text, L.fn()); n.compile(); got = true; } catch (const std::runtime_error& e) { got = false; err = e.what(); }
    stats().inc(want ? "syntax_valid" : "syntax_invalid");
    if (got != want) fail("regex-syntax", got ? "text outside the grammar is accepted" : "well-formed text is rejected: " + err);
    if (!got && err.empty()) fail("regex-error", "rejected without a message");
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, {
        {"algebra_char", algebra<char>, 3}, {"algebra_id", algebra<size_t>, 1}, {"algebra_int", algebra<int>, 1}, {"algebra_string", algebra<std::string>, 1}, {"parser", parser, 4}, {"syntax", syntax, 6},
    });
}
