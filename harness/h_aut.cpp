// P-automata: construction from configurations and NFAs, union, queries, copies, printing; factories and solver instances built from NFAs.
#include "build_inst.h"
#include "re.h"
#include "dot.h"
#include <pdaaal/PDAFactory.h>
using namespace vf;
template<typename W> using Aut = pdaaal::PAutomaton<int,W,size_t,true>;
using Word = std::vector<int>;
static std::string wstr(const Word& w) { std::string s; for (int x : w) s += std::to_string(x) + " "; return s; }
template<typename W> static PDA<int,W> alphabet(Rng& g, int n, int m) { // states and labels only; labels known up front or inserted one by one
    if (g.chance(50)) { std::unordered_set<int> l; for (int x = 0; x < m; ++x) l.insert(sym<int>(x)); PDA<int,W> p(l); p.insert_state((size_t)(n - 1)); return p; }
    PDA<int,W> p; std::vector<int> o(m); std::iota(o.begin(), o.end(), 0); for (int i = m - 1; i > 0; --i) std::swap(o[i], o[g.below(i + 1)]); for (int x : o) p.insert_label(sym<int>(x)); p.insert_state((size_t)(n - 1)); return p;
}
static std::vector<size_t> subset(Rng& g, int n) { std::vector<size_t> s; for (int i = 0; i < n; ++i) if (g.chance(45)) s.push_back((size_t)i); return s; }
template<typename W, typename P> static void check_lang(const char* what, Rng& g, const internal::PAutomaton<W>& a, const P& pda, int n, int m, int len, const std::function<bool(int,const Word&)>& want) {
    uint64_t acc = 0, rej = 0;
    for (int s = 0; s < n; ++s) words(m, len, [&](const Word& w) {
        std::vector<uint32_t> st; for (int x : w) st.push_back((uint32_t)pda.exists_label(sym<int>(x)).second);
        bool b = want(s, w); (b ? acc : rej)++;
        if (a.accepts((size_t)s, st) != b) fail(std::string("paut-accepts-") + what, std::string(what) + ": <" + std::to_string(s) + "," + wstr(w) + "> is " + (b ? "rejected" : "accepted"));
        std::vector<size_t> path; if constexpr (W::is_weight) { auto r = a.template accept_path<Trace_Type::Shortest>((size_t)s, st); path = r.first; if (b && (long)r.second != 0) fail("paut-weight", "an automaton without weights yields weight " + std::to_string((long)r.second)); if (path != std::vector<size_t>() || b) { auto q = a.accept_path((size_t)s, st); if (q.empty() != path.empty()) fail("paut-path", "plain and shortest path disagree"); } } else path = a.accept_path((size_t)s, st);
        if (path.empty() == b) fail(std::string("paut-path-") + what, "accept_path " + std::string(b ? "misses an accepted" : "returns a path for a rejected") + " stack");
        if (b) { if (path.size() != w.size() + 1 || path[0] != (size_t)s || !a.states()[path.back()]->_accepting) fail("paut-path", "the path does not start at the state and end in an accepting state"); for (size_t i = 0; i < w.size(); ++i) { auto e = a.states()[path[i]]->_edges.get(path[i + 1], st[i]); if (e == nullptr) fail("paut-path", "the path uses an edge that does not exist"); } }
    });
    stats().inc("configurations_accepted", acc); stats().inc("configurations_rejected", rej); if (acc && rej) stats().inc("nontrivial_automata");
    // emptiness and a witness
    auto p = a.find_path(); size_t total_acc = acc;
    if (!p.is_null()) { auto [states, labels] = p.get_path_and_stack(); if (states.size() != labels.size() + 1 || states[0] >= (size_t)n || !a.states()[states.back()]->_accepting) fail("paut-find", "find_path does not describe an accepting path"); for (size_t i = 0; i < labels.size(); ++i) if (a.states()[states[i]]->_edges.get(states[i + 1], labels[i]) == nullptr) fail("paut-find", "find_path uses an edge that does not exist"); stats().inc("witnesses"); }
    else if (total_acc) fail("paut-find", "find_path calls a non-empty automaton empty");
    if (a.has_accepting_state() != std::any_of(a.states().begin(), a.states().end(), [](auto& s) { return s->_accepting; })) fail("paut-accepting", "has_accepting_state disagrees with the states");
    for (size_t i = 0; i < a.states().size(); ++i) if (a.states()[i]->_id != i) fail("paut-ids", "state ids are not consecutive");
}
template<typename W, Trace_Type tt, typename A> static void check_dot(const A& a, size_t labels) { // the printed graph has exactly the states, edges, labels and weights of the automaton
    std::stringstream ss; a.template to_dot<tt>(ss, [](std::ostream& o, const uint32_t& l) { o << "L" << l; }, [](std::ostream& o, const size_t& i) { o << "s" << i; }); Dot got = read_dot(ss.str()), want; size_t n = 0; auto nm = [](size_t i) { return "s" + std::to_string(i); };
    auto wstr = [](const auto& x) -> std::string { if constexpr (W::is_weight) { using T = typename W::type; using L = std::numeric_limits<T>; T v = x.second; if (v == (tt == Trace_Type::Longest ? L::min() : L::max())) return "-"; if (tt == Trace_Type::Longest && v == L::max()) return "\u221e"; if (tt != Trace_Type::None && tt != Trace_Type::Longest && W::is_signed && v == L::min()) return "-\u221e"; return std::to_string((long long)v); } else return ""; };
    for (auto& s : a.states()) { want.nodes.insert(nm(s->_id)); if (s->_accepting) want.accepting.insert(nm(s->_id)); for (auto& [to, ls] : s->_edges) { DotLabel l; for (auto& [x, t] : ls) { if (x == internal::PAutomaton<W>::epsilon) { l.eps = true; if constexpr (W::is_weight) l.epsw = std::to_string((long long)t.second); } else if constexpr (W::is_weight) l.sym["L" + std::to_string(x)] = wstr(t); else l.sym["L" + std::to_string(x)] = ""; } if (!W::is_weight && l.sym.size() == labels) { l.all = true; l.sym.clear(); } want.edges.emplace(nm(s->_id), nm(to), l); ++n; } }
    for (auto& s : got.initial) want.initial.insert(s); if (got.nodes != want.nodes) fail("paut-dot", "the graph does not list exactly the states"); if (got.accepting != want.accepting) fail("paut-dot", "accepting states differ in the graph"); if (got.edges != want.edges) fail("paut-dot", "the edges of the graph are not those of the automaton: " + ss.str());
    std::set<std::string> init; for (size_t i = 0; i < a.pda().states().size(); ++i) init.insert(nm(i)); if (got.initial != init) fail("paut-dot", "initial states differ in the graph"); stats().inc("graphs"); stats().inc("graph_edges", n);
}
template<typename W> static void dot_json(const Aut<W>& a, const PDA<int,W>& pda, int n) {
    std::set<std::tuple<size_t,uint32_t,size_t>> edges; std::set<size_t> acc; for (auto& s : a.states()) { if (s->_accepting) acc.insert(s->_id); for (auto& [to, ls] : s->_edges) for (auto& [l, x] : ls) edges.insert({s->_id, l, to}); }
    nlohmann::json j = a.to_json("A")["A"]; std::set<std::tuple<size_t,uint32_t,size_t>> je; for (auto& e : j["edges"]) je.insert({e[0].get<size_t>(), (uint32_t)pda.exists_label(std::stoi(e[1].get<std::string>())).second, e[2].get<size_t>()});
    if (je != edges) fail("paut-json", "the JSON lists " + std::to_string(je.size()) + " edges, the automaton has " + std::to_string(edges.size()));
    std::set<size_t> ja; if (j.contains("accepting")) for (auto& x : j["accepting"]) ja.insert(x.get<size_t>()); if (ja != acc) fail("paut-json", "accepting states differ in the JSON");
    std::set<size_t> ji; if (j.contains("initial")) for (auto& x : j["initial"]) ji.insert(x.get<size_t>()); if (ji.size() != (size_t)n || (n && *ji.rbegin() != (size_t)n - 1)) fail("paut-json", "initial states differ in the JSON");
    check_dot<W,Trace_Type::None>(a, pda.number_of_labels());
    stats().inc("printed");
}
template<typename W> static void construct(Rng& g, uint64_t) {
    int n = g.in(1, 4), m = g.in(1, 4); auto pda = alphabet<W>(g, n, m); int len = m >= 3 ? 3 : 4;
    auto r1 = gen(g, m, g.in(0, 3), false), r2 = gen(g, m, g.in(0, 3), false); auto s1 = subset(g, n), s2 = subset(g, n);
    auto show = [](const std::vector<size_t>& s) { std::string o; for (auto x : s) o += std::to_string(x) + ","; return o; };
    describe("states=" + std::to_string(n) + " labels=" + std::to_string(m) + " A1={" + show(s1) + "}x" + plain(r1) + " A2={" + show(s2) + "}x" + plain(r2)); stats().sig(hash_str(current()));
    auto n1 = build<int>(r1, g); n1.compile(); auto n2 = build<int>(r2, g); n2.compile();
    auto in1 = [&](int s, const Word& w) { return std::binary_search(s1.begin(), s1.end(), (size_t)s) && matches(r1, w); };
    auto in2 = [&](int s, const Word& w) { return std::binary_search(s2.begin(), s2.end(), (size_t)s) && matches(r2, w); };
    Aut<W> a1(pda, n1, s1); check_lang<W>("nfa", g, a1, pda, n, m, len, in1); dot_json<W>(a1, pda, n);
    // the same language given over label ids
    { std::function<NFA<uint32_t>(const ReP&)> bi = [&](const ReP& r) -> NFA<uint32_t> { switch (r->k) { case Re::EPS: return NFA<uint32_t>(true); case Re::VOID: return NFA<uint32_t>(false); case Re::SET: { std::unordered_set<uint32_t> s; for (int x : r->s) s.insert((uint32_t)pda.exists_label(sym<int>(x)).second); return NFA<uint32_t>(std::move(s), r->neg); }
        case Re::CAT: { auto a = bi(r->a); a.concat(bi(r->b)); return a; } case Re::OR: { auto a = bi(r->a); a.or_extend(bi(r->b)); return a; } case Re::STAR: { auto a = bi(r->a); a.star_extend(); return a; } case Re::PLUS: { auto a = bi(r->a); a.plus_extend(); return a; } default: { auto a = bi(r->a); a.question_extend(); return a; } } };
      auto ni = bi(r1); ni.compile(); Aut<W> ai(pda, ni, s1); check_lang<W>("id-nfa", g, ai, pda, n, m, len - 1, in1); }
    Aut<W> a2(pda, n2, s2);
    { internal::PAutomaton<W> c(static_cast<const internal::PAutomaton<W>&>(a1)); check_lang<W>("copy", g, c, pda, n, m, len - 1, in1);
      if (g.chance(50)) { c.add_state(false, true); if (!c.states().empty()) c.set_state_accepting(0); for (int x = 0; x < m; ++x) c.add_edge(0, c.states().size() - 1, (uint32_t)x); check_lang<W>("original-after-copy-changed", g, a1, pda, n, m, len - 1, in1); }
      internal::PAutomaton<W> mv(std::move(static_cast<internal::PAutomaton<W>&>(a2))); check_lang<W>("moved", g, mv, pda, n, m, len - 1, in2);
      internal::PAutomaton<W> u(static_cast<const internal::PAutomaton<W>&>(a1)); internal::PAutomaton<W> v(mv); u.or_extend(std::move(v));
      // a union is only meaningful on the original states, whose edges are merged
      check_lang<W>("union", g, u, pda, n, m, len, [&](int s, const Word& w) { return in1(s, w) || in2(s, w); }); stats().inc("unions");
      u.or_extend(std::move(mv)); check_lang<W>("union-twice", g, u, pda, n, m, len - 1, [&](int s, const Word& w) { return in1(s, w) || in2(s, w); }); }
    { Word w; int l = g.below(5); for (int i = 0; i < l; ++i) w.push_back(g.below(m)); int s = g.below(n); std::vector<int> st; for (int x : w) st.push_back(sym<int>(x)); Aut<W> c(pda, (size_t)s, st); check_lang<W>("single", g, c, pda, n, m, std::min(len, 4), [&](int t, const Word& v) { return t == s && v == w; }); 
      auto pda2 = alphabet<W>(g, n, m); Aut<W> c2(std::move(c), pda2); if (&c2.pda() != &pda2) fail("paut-move", "the moved automaton refers to the old system"); }
    // edges by label sets
    { Aut<W> c(pda, subset(g, n), g.chance(50)); std::map<int,bool> racc; for (int i = 0; i < n; ++i) racc[i] = c.states()[i]->_accepting; auto t = c.add_state(false, true); bool neg = g.chance(60); std::set<uint32_t> ls; int k = g.below(m + 1); for (int i = 0; i < k; ++i) ls.insert((uint32_t)g.below(m)); std::vector<uint32_t> lv(ls.begin(), ls.end()); int f = g.below(n); auto fs = subset(g, n);
      bool multi = g.chance(50); if (multi) c.add_edges(fs, t, neg, lv); else c.add_edges((size_t)f, t, neg, lv);
      for (int s = 0; s < n; ++s) for (int x = 0; x < m; ++x) { uint32_t id = (uint32_t)pda.exists_label(sym<int>(x)).second; bool root = multi ? std::binary_search(fs.begin(), fs.end(), (size_t)s) : s == f; bool want = root && ((ls.count(id) > 0) != neg); if (c.accepts((size_t)s, {id}) != want) fail("paut-edges", "label-set edges: label id " + std::to_string(id) + " from " + std::to_string(s) + (want ? " missing" : " superfluous")); } 
      for (int s = 0; s < n; ++s) if (c.accepts((size_t)s, {}) != racc[s]) fail("paut-edges", "adding edges changed the empty stack"); }
}
template<typename W> static void shortest(Rng& g, uint64_t) { // weighted automaton: cheapest accepting path overall and per stack
    int n = g.in(1, 3), m = g.in(1, 3), ex = g.in(1, 4); auto pda = alphabet<W>(g, n, m); Aut<W> a(pda, g.chance(25) ? subset(g, n) : std::vector<size_t>{}, true);
    for (int i = 0; i < ex; ++i) a.add_state(false, i == ex - 1 || g.chance(20));
    std::map<std::tuple<int,int,int>,long> e; int k = g.in(1, 12); for (int i = 0; i < k; ++i) e[{g.below(n + ex), g.below(m), n + g.below(ex)}] = g.below(9);
    std::string d; for (auto& [key, w] : e) { auto [f, l, t] = key; a.add_edge(f, t, (uint32_t)l, std::make_pair(internal::trace_t(), (typename W::type)w)); d += std::to_string(f) + "-" + std::to_string(l) + "/" + std::to_string(w) + "->" + std::to_string(t) + " "; }
    describe("weighted automaton " + d); stats().sig(hash_str(d));
    if (g.chance(40)) { internal::PAutomaton<W> c(static_cast<const internal::PAutomaton<W>&>(a)); using T = typename W::type; auto some = [&]() -> T { int z = g.below(8); return z == 0 ? std::numeric_limits<T>::max() : z == 1 ? std::numeric_limits<T>::min() : (T)g.below(100); }; for (int i = g.below(4); i > 0; --i) c.add_edge((size_t)g.below(n + ex), (size_t)(n + g.below(ex)), (uint32_t)g.below(m), std::make_pair(internal::trace_t(), some())); for (int i = g.below(4); i > 0; --i) c.add_epsilon_edge((size_t)g.below(n + ex), (size_t)(n + g.below(ex)), std::make_pair(internal::trace_t(), (T)g.below(9)));
        check_dot<W,Trace_Type::None>(c, (size_t)m); check_dot<W,Trace_Type::Shortest>(c, (size_t)m); if constexpr (W::is_signed) check_dot<W,Trace_Type::Longest>(c, (size_t)m); }
    // Bellman-Ford over states
    std::vector<long> dist(n + ex, RINF); for (int i = 0; i < n; ++i) dist[i] = 0; for (int r = 0; r < n + ex; ++r) for (auto& [key, w] : e) { auto [f, l, t] = key; if (dist[f] < RINF) dist[t] = std::min(dist[t], dist[f] + w); }
    long best = RINF; for (int i = 0; i < n + ex; ++i) if (a.states()[i]->_accepting) best = std::min(best, dist[i]);
    auto [p, w] = a.find_path_shortest();
    if (p.is_null() != (best >= RINF)) fail("paut-shortest", "existence of a path is wrong");
    if (!p.is_null()) { if ((long)w != best) fail("paut-shortest", "cheapest path has weight " + std::to_string((long)w) + ", optimum " + std::to_string(best)); auto [st, ls] = p.get_path_and_stack(); long c = 0; for (size_t i = 0; i < ls.size(); ++i) { auto it = e.find({(int)st[i], (int)ls[i], (int)st[i + 1]}); if (it == e.end()) fail("paut-shortest", "the path uses an edge that does not exist"); c += it->second; } if (c != best || st[0] >= (size_t)n || !a.states()[st.back()]->_accepting) fail("paut-shortest", "the returned path is not a cheapest accepting path"); stats().inc("cheapest_paths"); }
    for (int s = 0; s < n; ++s) words(m, 4, [&](const Word& wd) { std::map<int,long> cur{{s, 0}}; for (int x : wd) { std::map<int,long> nx; for (auto& [q, c] : cur) for (auto& [key, w2] : e) if (std::get<0>(key) == q && std::get<1>(key) == x) { auto it = nx.emplace(std::get<2>(key), RINF).first; it->second = std::min(it->second, c + w2); } cur.swap(nx); }
        long b = RINF; for (auto& [q, c] : cur) if (a.states()[q]->_accepting) b = std::min(b, c); std::vector<uint32_t> st(wd.begin(), wd.end()); auto r = a.template accept_path<Trace_Type::Shortest>((size_t)s, st);
        if (r.first.empty() != (b >= RINF)) fail("paut-accept-shortest", "acceptance of " + wstr(wd) + " is wrong"); if (b < RINF && (long)r.second != b) fail("paut-accept-shortest", "weight of " + wstr(wd) + " is " + std::to_string((long)r.second) + ", optimum " + std::to_string(b));
        if (a.accepts((size_t)s, st) != (b < RINF)) fail("paut-accepts", "accepts disagrees"); });
}
// ---- whole instances through the factories ----
template<typename W> struct Fac : PDAFactory<int,W> { using P = PDAFactory<int,W>; const RPda& p; std::vector<size_t> i, f; Fac(const std::unordered_set<int>& l, const RPda& p, std::vector<size_t> i, std::vector<size_t> f) : P(l), p(p), i(i), f(f) {}
    void build_pda() override { for (auto& r : p.rules) { typename P::rule_t x; x._from = r.from; x._to = r.to; x._op = real_op(r.op); x._op_label = r.op == oPUSH || r.op == oSWAP ? LSHIFT + r.lab : LSHIFT; if constexpr (W::is_weight) x._weight = (typename W::type)r.w; if (r.wild) { x._pre = LSHIFT; this->add_wildcard_rule(x); } else for (int l : r.pre) { x._pre = LSHIFT + l; this->add_rule(x); } } }
    const std::vector<size_t>& initial() override { return i; } const std::vector<size_t>& accepting() override { return f; } };
template<typename W> struct DFac : DFS_PDAFactory<int,W> { using P = DFS_PDAFactory<int,W>; const RPda& p; std::vector<size_t> i, f; std::map<size_t,int> asked; DFac(const std::unordered_set<int>& l, const RPda& p, std::vector<size_t> i, std::vector<size_t> f) : P(l, -1), p(p), i(i), f(f) {}
    const std::vector<size_t>& initial() override { return i; } bool accepting(size_t s) override { return std::find(f.begin(), f.end(), s) != f.end(); }
    std::vector<typename P::rule_t> rules(size_t s) override { ++asked[s]; std::vector<typename P::rule_t> o; for (auto& r : p.rules) if (r.from == (int)s) { typename P::rule_t x; x._from = s; x._to = r.to; x._op = real_op(r.op); x._op_label = r.op == oPUSH || r.op == oSWAP ? LSHIFT + r.lab : LSHIFT; if constexpr (W::is_weight) x._weight = (typename W::type)r.w; if (r.wild) { x._pre = -1; o.push_back(x); } else for (int l : r.pre) { x._pre = LSHIFT + l; o.push_back(x); } } return o; } };
static NFA<int> build_l(const ReP& r) { switch (r->k) { case Re::EPS: return NFA<int>(true); case Re::VOID: return NFA<int>(false); case Re::SET: { std::unordered_set<int> s; for (int x : r->s) s.insert(LSHIFT + x); return NFA<int>(std::move(s), r->neg); }
    case Re::CAT: { auto a = build_l(r->a); a.concat(build_l(r->b)); return a; } case Re::OR: { auto a = build_l(r->a); a.or_extend(build_l(r->b)); return a; } case Re::STAR: { auto a = build_l(r->a); a.star_extend(); return a; } case Re::PLUS: { auto a = build_l(r->a); a.plus_extend(); return a; } default: { auto a = build_l(r->a); a.question_extend(); return a; } } }
template<typename W, bool dfs> static void factory(Rng& g, uint64_t) {
    GenOpts o; if (W::is_weight) { o.wmax = 6; } auto p = gen_pda(g, o); auto r1 = gen(g, p.m, g.in(0, 2), false), r2 = gen(g, p.m, g.in(0, 2), false);
    std::set<int> si, sf; for (int i = 0; i < p.n; ++i) { if (g.chance(35)) si.insert(i); if (g.chance(35)) sf.insert(i); } if (si.empty() && g.chance(90)) si.insert(g.below(p.n)); if (sf.empty() && g.chance(90)) sf.insert(g.below(p.n));
    if (g.chance(15)) { p.n += 2; if (g.chance(50)) sf.insert(p.n - 1 - g.below(2)); if (g.chance(50)) si.insert(p.n - 1 - g.below(2)); } // states without rules
    if (g.chance(4)) { auto id = grow(g, p, {}, true, true); for (auto* s : {&si, &sf}) { std::set<int> t; for (int x : *s) t.insert(id[(size_t)x]); *s = t; } }
    std::unordered_set<int> labels; for (int i = 0; i < p.m; ++i) labels.insert(LSHIFT + i);
    auto lst = [](const std::set<int>& s) { std::string o; for (int x : s) o += std::to_string(x) + ","; return o; };
    describe(std::string(dfs ? "DFS " : "") + "factory " + str(p) + " initial={" + lst(si) + "}x" + plain(r1) + " final={" + lst(sf) + "}x" + plain(r2)); stats().sig(hash_str(current()));
    RAut ia = re_aut(p, r1, si), fa = re_aut(p, r2, sf); auto ref = ref_solve(p, ia, fa);
    std::vector<size_t> vi(si.begin(), si.end()), vf_(sf.begin(), sf.end()); auto n1 = build_l(r1), n2 = build_l(r2); n1.compile(); n2.compile();
    std::conditional_t<dfs, DFac<W>, Fac<W>> fac(labels, p, vi, vf_); auto in = fac.compile(n1, n2);
    if constexpr (dfs) for (auto& [s, c] : fac.asked) if (c != 1) fail("factory-dfs", "state " + std::to_string(s) + " was expanded " + std::to_string(c) + " times");
    int eng = g.below(3); bool r; std::vector<Conf> t; long w = 0;
    if constexpr (W::is_weight) { r = eng == 0 ? Solver::post_star_accepts<Trace_Type::Shortest>(*in) : eng == 1 ? Solver::pre_star_accepts<Trace_Type::Shortest>(*in) : Solver::dual_search_accepts<Trace_Type::Shortest>(*in); if (r) { auto x = eng == 2 ? Solver::get_trace_dual_search<Trace_Type::Shortest>(*in) : Solver::get_trace<Trace_Type::Shortest>(*in); t = conv_trace(x.first); w = (long)x.second; } }
    else { r = eng == 0 ? Solver::post_star_accepts<Trace_Type::Any>(*in) : eng == 1 ? Solver::pre_star_accepts<Trace_Type::Any>(*in) : Solver::dual_search_accepts<Trace_Type::Any>(*in); if (r) t = conv_trace(eng == 2 ? Solver::get_trace_dual_search<Trace_Type::Any>(*in) : Solver::get_trace<Trace_Type::Any>(*in)); }
    stats().inc(ref.reach ? "factory_reachable" : "factory_unreachable");
    if (r != ref.reach) fail("factory-verdict", std::string("the instance is ") + (ref.reach ? "reachable" : "unreachable") + ", the solver says the opposite (engine " + std::to_string(eng) + ")");
    if (r) { long mw = 0; auto e = check_trace(p, ia, fa, t, mw); if (!e.empty()) fail("factory-trace", e); if (W::is_weight && (w != ref.best || mw != w)) fail("factory-weight", "weight " + std::to_string(w) + ", optimum " + std::to_string(ref.best)); }
}
int main(int argc, char** argv) {
    using U = weight<void>; using WU = weight<uint32_t>;
    return main_driver(argc, argv, { {"construct_u", construct<U>, 2}, {"construct_w", construct<WU>, 1}, {"cheapest", shortest<WU>, 1}, {"cheapest_signed", shortest<weight<int32_t>>, 1}, {"factory_u", factory<U,false>, 2}, {"factory_w", factory<WU,false>, 1}, {"dfs_u", factory<U,true>, 2}, {"dfs_w", factory<WU,true>, 1} });
}
