// Traces: configuration traces and rule traces (with the accompanying stacks and automaton paths) of every engine are
// replayed step by step by a monitor that knows only the rules of the PDA and the two automata.
#include "build_inst.h"
using namespace vf;
template<typename W> struct Ctx { const RPda& p; const RAut& i; const RAut& f; };
static void check_path(const char* what, const RAut& a, int state, const std::vector<int>& stack, const std::vector<size_t>& path) {
    if (path.size() != stack.size() + 1) fail(std::string("paths-") + what, "path has " + std::to_string(path.size()) + " states for a stack of " + std::to_string(stack.size()));
    if ((int)path[0] != state) fail(std::string("paths-") + what, "path does not start in the control state");
    for (size_t k = 0; k < stack.size(); ++k) if (!a.edges.count({(int)path[k], stack[k], (int)path[k+1]})) fail(std::string("paths-") + what, "edge " + std::to_string(k) + " of the path is not in the automaton");
    if ((int)path.back() >= a.n || !a.acc[path.back()]) fail(std::string("paths-") + what, "path does not end in an accepting state");
}
template<typename W, typename Pda, typename Tup>
static void check_rules(const char* eng, const RPda& p, const RAut& i, const RAut& f, const Pda& pda, const Tup& t, const RResult& ref, bool want_best) {
    auto& [state, rules, istack, fstack, ipath, fpath] = t;
    auto dec = [&](const std::vector<uint32_t>& s) { std::vector<int> o; for (auto x : s) { if (x >= pda.number_of_labels()) fail(std::string("ruletrace-") + eng, "stack contains a label that does not exist"); o.push_back(pda.get_symbol(x) - LSHIFT); } return o; };
    Conf c{(int)state, dec(istack)}; auto fs = dec(fstack);
    if (state >= (size_t)p.n) fail(std::string("ruletrace-") + eng, "no initial state reported for a reachable instance");
    check_path("initial", i, c.first, c.second, ipath);
    long total = 0;
    for (size_t k = 0; k < rules.size(); ++k) {
        auto& r = rules[k];
        size_t from = r._from, to = r._to; uint32_t pre = r._pre; op_t op = r._op; uint32_t ol = r._op_label;
        auto bad = [&](const std::string& why) { fail(std::string("ruletrace-") + eng, "rule " + std::to_string(k) + ": " + why + " at " + str(c)); };
        if ((int)from != c.first) bad("starts in state " + std::to_string(from));
        if (c.second.empty()) bad("empty stack");
        if (pre >= pda.number_of_labels() || pda.get_symbol(pre) - LSHIFT != c.second[0]) bad("wrong top of stack");
        int lab = (op == PUSH || op == SWAP) ? (ol < pda.number_of_labels() ? pda.get_symbol(ol) - LSHIFT : -1) : 0;
        bool found = false;
        for (auto& x : p.rules) if (x.from == c.first && x.to == (int)to && real_op(x.op) == op && (op == POP || op == NOOP || x.lab == lab) && pre_has(x, c.second[0])) {
            if constexpr (W::is_weight) { if (ref_w(r._weight) != x.w) continue; }
            found = true;
        }
        if (!found) bad("is not a rule of the PDA (with this weight)");
        { typename Pda::rule_t u(pda, r); bool same = u._from == from && u._to == to && u._op == op && u._pre - LSHIFT == c.second[0] && (op == PUSH || op == SWAP ? u._op_label - LSHIFT == lab : u._op_label == int{}); if constexpr (W::is_weight) same = same && u._weight == r._weight; if (!same) bad("the rule shown with labels differs from the encoded rule");
          auto im = r.to_impl_rule(); bool there = false; for (auto& [x, ls] : pda.states()[from]._rules) if (x._to == im._to && x._operation == im._operation && (op == POP || op == NOOP || x._op_label == im._op_label) && ls.contains(pre)) { if constexpr (W::is_weight) { if (x._weight != im._weight) continue; } there = true;
              typename Pda::rule_t v(pda, from, pre, x); bool eq = v._from == u._from && v._to == u._to && v._op == u._op && v._pre == u._pre && v._op_label == u._op_label; if constexpr (W::is_weight) eq = eq && v._weight == u._weight; if (!eq) bad("the rule of the system shown with labels differs from the one of the trace"); if (!(std::decay_t<decltype(r)>(from, pre, x) == r)) bad("the rule of the system does not compare equal to the one of the trace"); }
          if (!there) bad("the internal form is not a rule of the state"); }
        if constexpr (W::is_weight) total += ref_w(r._weight);
        c.first = (int)to;
        switch (op) { case PUSH: c.second.insert(c.second.begin(), lab); break; case POP: c.second.erase(c.second.begin()); break; case SWAP: c.second[0] = lab; break; default: break; }
        stats().inc("rule_steps");
    }
    if (c.second != fs) fail(std::string("ruletrace-") + eng, "final stack differs from the one the rules produce");
    check_path("final", f, c.first, fs, fpath);
    if (want_best && total != ref.best) fail(std::string("ruletrace-weight-") + eng, "rules cost " + std::to_string(total) + ", optimum is " + std::to_string(ref.best));
    stats().inc(std::string("ruletraces_") + eng); if (!rules.empty()) stats().inc("nontrivial_ruletraces");
}
template<typename W> static void any(Rng& rng, uint64_t) {
    GenOpts o; o.pairs = pair_weights<W>(); if (W::is_weight) { o.wmin = W::is_signed ? -3 : 0; o.wmax = 5; }
    auto [p, i, f] = gen_problem(rng, o);
    describe(str(p) + " init=" + str(i) + " final=" + str(f)); stats().sig(hash_str(current()));
    RPda p0 = p; for (auto& x : p0.rules) x.w = 0; RResult ref = ref_solve(p0, i, f);
    stats().inc(ref.reach ? "oracle_reachable" : "oracle_unreachable");
    auto verdict = [&](const char* e, bool r) { if (r != ref.reach) fail(std::string("verdict-") + e, "wrong verdict"); return r; };
    auto confs = [&](const char* e, const std::vector<Conf>& t) { long w; auto s = check_trace(p, i, f, t, w); if (!s.empty()) fail(std::string("trace-") + e, s + " trace=" + str(t)); stats().inc("conf_traces"); stats().inc("trace_steps", t.size()); };
    auto none = [&](const char* e, auto&& t) { if (std::get<0>(t) != std::numeric_limits<size_t>::max() || !std::get<1>(t).empty()) fail(std::string("ruletrace-") + e, "rule trace for an unreachable instance"); };
    { auto in = make_instance<W>(p, i, f); bool r = verdict("post", Solver::post_star_accepts<Trace_Type::Any>(*in)); auto t = Solver::get_rule_trace_and_paths(*in); if (r) { check_rules<W>("post", p, i, f, in->pda(), t, ref, false); confs("post", conv_trace(Solver::get_trace(*in))); } else { none("post", t); if (!Solver::get_trace(*in).empty()) fail("trace-post", "trace for an unreachable instance"); } }
    { auto in = make_instance<W>(p, i, f); bool r = verdict("pre", Solver::pre_star_accepts<Trace_Type::Any>(*in)); auto t = Solver::get_rule_trace_and_paths(*in); if (r) { check_rules<W>("pre", p, i, f, in->pda(), t, ref, false); confs("pre", conv_trace(Solver::get_trace(*in))); } else { none("pre", t); if (!Solver::get_trace(*in).empty()) fail("trace-pre", "trace for an unreachable instance"); } }
    { auto in = make_instance<W>(p, i, f); bool r = verdict("dual", Solver::dual_search_accepts<Trace_Type::Any>(*in)); auto t = Solver::get_rule_trace_and_paths<Trace_Type::Any,true>(*in); if (r) { check_rules<W>("dual", p, i, f, in->pda(), t, ref, false); confs("dual", conv_trace(Solver::get_trace_dual_search(*in))); } else { none("dual", t); if (!Solver::get_trace_dual_search(*in).empty()) fail("trace-dual", "trace for an unreachable instance"); } }
}
template<typename W> static void shortest(Rng& rng, uint64_t) {
    GenOpts o; o.pairs = pair_weights<W>(); o.wmax = rng.chance(50) ? 1 : 7;
    auto [p, i, f] = gen_problem(rng, o);
    describe(str(p) + " init=" + str(i) + " final=" + str(f)); stats().sig(hash_str(current()));
    RResult ref = ref_solve(p, i, f);
    { auto in = make_instance<W>(p, i, f); if (Solver::post_star_accepts<Trace_Type::Shortest>(*in)) { auto [t, w] = Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(*in); check_rules<W>("post_shortest", p, i, f, in->pda(), t, ref, true); if (ref_w(w) != ref.best) fail("ruletrace-weight-post", "reported weight differs from the optimum"); } }
    { auto in = make_instance<W>(p, i, f); if (Solver::pre_star_accepts<Trace_Type::Shortest>(*in)) { auto [t, w] = Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(*in); check_rules<W>("pre_shortest", p, i, f, in->pda(), t, ref, true); if (ref_w(w) != ref.best) fail("ruletrace-weight-pre", "reported weight differs from the optimum"); } }
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, {
        {"any_void", any<weight<void>>, 3}, {"any_uint", any<weight<uint32_t>>, 1}, {"any_int", any<weight<int32_t>>, 1}, {"shortest_uint", shortest<weight<uint32_t>>, 2}, {"shortest_tuples", shortest<weight<std::vector<int32_t>>>, 1},
    });
}
