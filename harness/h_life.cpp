// Life cycle of problem instances: copies, moves and repeated solving must not change any answer, nor solving the system it works on.
#include "build_inst.h"
#include <pdaaal/NFA.h>
using namespace vf;
struct Ans { bool reach = false; long w = 0; bool unbounded = false; std::vector<Conf> tr; };
template<typename W, TraceInfoType tit> using Inst = SolverInstance<int,W,size_t,true,tit>;
// everything a user can see of a system
template<typename P> static std::string dump(const P& pda) { std::stringstream s; for (auto& st : pda.states()) { s << "S" << st._pre_states.size() << ":"; for (auto p : st._pre_states) s << p << ","; for (auto& [r, l] : st._rules) { s << "(" << r._to << "," << (int)r._operation << "," << r._op_label; if constexpr (P::has_weight) s << "," << r._weight; s << "|" << (l.wildcard() ? "*" : ""); if (!l.wildcard()) for (auto x : l.labels()) s << x << ","; s << ")"; } } s << pda.number_of_labels(); return s.str(); }
template<typename A> static std::string dump_aut(const A& a) { std::stringstream s; for (auto& st : a.states()) { s << (st->_accepting ? "A" : "s") << st->_id << ":"; std::set<std::pair<size_t,uint32_t>> es; for (auto& [to, ls] : st->_edges) for (auto& [l, x] : ls) es.insert({to, l}); for (auto& [t, l] : es) s << l << ">" << t << ","; } return s.str(); }
template<typename W, TraceInfoType tit, Trace_Type tt> struct Engine {
    using P = typename Inst<W,tit>::product_t;
    static constexpr int sign = tt == Trace_Type::Longest ? -1 : 1;
    static bool accepts(P& p, int e) { if constexpr (tit == TraceInfoType::Pair) return e == 1 ? Solver::post_star_fixed_point_accepts<tt>(p) : Solver::pre_star_fixed_point_accepts<tt>(p); else return e == 1 ? Solver::post_star_accepts<tt>(p) : e == 2 ? Solver::pre_star_accepts<tt>(p) : Solver::dual_search_accepts<tt>(p); }
    static void trace(P& p, int e, Ans& a) {
        if constexpr (W::is_weight && (tt == Trace_Type::Shortest || tit == TraceInfoType::Pair)) {
            if constexpr (tit == TraceInfoType::Single) if (e == 3) { auto [t, w] = Solver::get_trace_dual_search<tt>(p); a.tr = conv_trace(t); a.w = (long)w; return; }
            auto [t, w] = Solver::get_trace<tt>(p); a.w = (long)w; if constexpr (tit == TraceInfoType::Pair) a.unbounded = (tt == Trace_Type::Longest || W::is_signed) && w == internal::solver_weight<W,tt>::bottom(); if (!a.unbounded) a.tr = conv_trace(t);
        } else a.tr = conv_trace(e == 3 ? Solver::get_trace_dual_search(p) : Solver::get_trace(p));
    }
};
template<typename W, TraceInfoType tit, Trace_Type tt> static void life(Rng& g, int wmin, int wmax) {
    using E = Engine<W,tit,tt>; GenOpts o; o.wmin = wmin; o.wmax = wmax; o.max_states = 4; o.max_labels = 3; o.max_rules = 9; o.scale = false;
    struct Problem { RPda p; RAut i, f; RResult ref; std::string text; }; std::vector<Problem> ps; int k = g.in(1, 3);
    std::vector<Inst<W,tit>> pool; std::vector<int> which; std::vector<std::string> sys, auts; std::string ops;
    for (int j = 0; j < k; ++j) { Problem q; std::tie(q.p, q.i, q.f) = gen_problem(g, o); q.ref = ref_solve(q.p, q.i, q.f, E::sign); q.text = str(q.p) + " init=" + str(q.i) + " final=" + str(q.f); ps.push_back(q); }
    std::string all; for (auto& q : ps) all += q.text + " ;; "; describe(all); stats().sig(hash_str(all));
    auto judge = [&](const char* what, const Problem& q, const Ans& a) {
        stats().inc("answers"); stats().inc(q.ref.reach ? "oracle_reachable" : "oracle_unreachable");
        if (a.reach != q.ref.reach) fail("life-verdict", std::string(what) + " answers " + (a.reach ? "reachable" : "unreachable") + " after:" + ops + " problem " + q.text);
        if (!a.reach) return; bool unb = q.ref.best <= RNEG;
        if constexpr (W::is_weight && tt != Trace_Type::Any) { if (a.unbounded != unb) fail("life-weight", std::string(what) + ": unboundedness is wrong after:" + ops); if (unb) { stats().inc("unbounded"); return; } if (a.w != E::sign * q.ref.best) fail("life-weight", std::string(what) + " reports weight " + std::to_string(a.w) + ", optimum " + std::to_string(E::sign * q.ref.best) + " after:" + ops); }
        long mw = 0; auto e = check_trace(q.p, q.i, q.f, a.tr, mw, E::sign); if (!e.empty()) fail("life-trace", std::string(what) + ": " + e + " trace=" + str(a.tr) + " after:" + ops); stats().inc("traces");
    };
    auto engine = [&] { return tit == TraceInfoType::Pair ? g.in(1, 2) : g.in(1, 3); };
    auto check_same = [&](const char* what, size_t x) { if (dump(pool[x]->pda()) != sys[x]) fail("life-system", std::string(what) + " changed the pushdown system after:" + ops); if (dump_aut(pool[x]->initial_automaton()) + dump_aut(pool[x]->final_automaton()) != auts[x]) fail("life-automata", std::string(what) + " changed the automata of another instance after:" + ops); };
    auto add = [&](int j) { pool.push_back(make_instance<W,tit>(ps[(size_t)j].p, ps[(size_t)j].i, ps[(size_t)j].f)); which.push_back(j); sys.push_back(dump(pool.back()->pda())); auts.push_back(dump_aut(pool.back()->initial_automaton()) + dump_aut(pool.back()->final_automaton())); };
    for (int j = 0; j < k; ++j) add(j); // growing the vector moves the earlier instances
    int n = g.in(2, 7);
    for (int s = 0; s < n; ++s) {
        size_t x = (size_t)g.below((int)pool.size()); auto& q = ps[(size_t)which[x]]; auto tag = " " + std::to_string(x);
        switch (g.below(7)) {
            case 0: case 1: { int e = engine(); ops += " solve a copy of" + tag + " with " + std::to_string(e) + ";"; auto c = pool[x]->copy(); Ans a; a.reach = E::accepts(c, e); if (a.reach) E::trace(c, e, a); judge("a copy", q, a); check_same("solving a copy", x); stats().inc("copies_solved"); break; }
            case 2: { int e1 = engine(), e2 = engine(); ops += " two copies of" + tag + ";"; auto c = pool[x]->copy(); auto d = pool[x]->copy(); Ans a, b; a.reach = E::accepts(c, e1); b.reach = E::accepts(d, e2); if (b.reach) E::trace(d, e2, b); if (a.reach) E::trace(c, e1, a); judge("the first copy", q, a); judge("the second copy", q, b); check_same("solving two copies", x); stats().inc("copies_solved", 2); break; }
            case 3: { ops += " move" + tag + " away and back;"; Inst<W,tit> t(std::move(pool[x])); size_t last = pool.size() - 1; std::vector<Inst<W,tit>> np; for (size_t y = 0; y < pool.size(); ++y) if (y == x) np.emplace_back(std::move(t)); else np.emplace_back(std::move(pool[y])); (void)last; pool.swap(np); for (size_t y = 0; y < pool.size(); ++y) check_same("moving", y); stats().inc("moves"); break; }
            case 4: { int e = engine(); ops += " solve" + tag + " in a new place, then move it;"; auto t = std::make_unique<Inst<W,tit>>(make_instance<W,tit>(q.p, q.i, q.f)); Ans a; a.reach = E::accepts(**t, e); auto u = std::make_unique<Inst<W,tit>>(std::move(*t)); t.reset(); if (a.reach) E::trace(**u, e, a); judge("a moved solved instance", q, a); if (dump((*u)->pda()) != sys[x]) fail("life-system", "moving a solved instance changed the system"); stats().inc("moved_after_solving"); break; }
            case 5: { ops += " add;"; add(which[x]); for (size_t y = 0; y < pool.size(); ++y) check_same("adding an instance", y); break; }
            default: { int e = engine(); ops += " build and solve" + tag + " again with " + std::to_string(e) + ";"; Ans a, b; { auto t = make_instance<W,tit>(q.p, q.i, q.f); a.reach = E::accepts(*t, e); if (a.reach) { E::trace(*t, e, a); E::trace(*t, e, b); b.reach = true; judge("asking for the trace again", q, b); if (dump(t->pda()) != sys[x]) fail("life-system", "solving changed the system"); } } judge("a fresh instance", q, a); stats().inc("repeated"); }
        }
    }
    for (size_t x = 0; x < pool.size(); ++x) { int e = engine(); Ans a; a.reach = E::accepts(*pool[x], e); if (a.reach) E::trace(*pool[x], e, a); judge("the instance itself", ps[(size_t)which[x]], a); if (dump(pool[x]->pda()) != sys[x]) fail("life-system", "solving changed the system after:" + ops); for (size_t y = x + 1; y < pool.size(); ++y) check_same("solving another instance", y); }
}
int main(int argc, char** argv) {
    constexpr auto S = TraceInfoType::Single, P = TraceInfoType::Pair;
    return main_driver(argc, argv, {
        {"any", [](Rng& g, uint64_t) { life<weight<void>,S,Trace_Type::Any>(g, 0, 0); }, 3}, {"any_weighted", [](Rng& g, uint64_t) { life<weight<int32_t>,S,Trace_Type::Any>(g, -3, 5); }, 1},
        {"shortest", [](Rng& g, uint64_t) { life<weight<uint32_t>,S,Trace_Type::Shortest>(g, 0, 6); }, 3},
        {"longest", [](Rng& g, uint64_t) { life<weight<uint32_t>,P,Trace_Type::Longest>(g, 0, 4); }, 1}, {"fixed", [](Rng& g, uint64_t) { life<weight<int32_t>,P,Trace_Type::ShortestFixedPoint>(g, -2, 6); }, 2},
    });
}
