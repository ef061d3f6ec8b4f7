// The rule reducer must not remove anything a successful run needs.
#include "build_inst.h"
#include <pdaaal/internal/Reducer.h>
using namespace vf;
// The protected-bottom view used for the two-level approximations: label m stands for whatever lies below the first push.
static RPda protect(const RPda& p, int init, int term) {
    RPda q = p; q.m = p.m + 1; q.rules.clear();
    for (auto r : p.rules) {
        if (!r.wild && r.pre.empty()) continue;
        if (r.wild) { r.wild = false; r.pre.resize(p.m); std::iota(r.pre.begin(), r.pre.end(), 0); }
        if (r.from == init || r.to == term) r.pre.push_back(p.m);
        q.rules.push_back(r);
    }
    return q;
}
template<typename W> static RPda extract(const PDA<int,W>& pda, int n, int m) {
    RPda q; q.n = n; q.m = m; size_t i = 0;
    for (auto& s : pda.states()) { for (auto& [r,l] : s._rules) {
        RRule x; x.from = (int)i; x.to = (int)r._to; x.op = r._operation == PUSH ? oPUSH : r._operation == POP ? oPOP : r._operation == SWAP ? oSWAP : oNOOP; x.lab = (x.op == oPUSH || x.op == oSWAP) ? (int)r._op_label : 0; x.wild = l.wildcard(); for (auto y : l.labels()) x.pre.push_back((int)y); x.w = 0; if constexpr (W::is_weight) x.w = (long)r._weight; q.rules.push_back(x); } ++i; }
    return q;
}
static std::multiset<std::tuple<int,int,int,int,int,long>> flat(const RPda& p) { std::multiset<std::tuple<int,int,int,int,int,long>> s; for (auto& r : p.rules) { if (r.wild) for (int l = 0; l < p.m; ++l) s.insert({r.from,l,r.to,(int)r.op,r.lab,r.w}); else for (int l : r.pre) s.insert({r.from,l,r.to,(int)r.op,r.lab,r.w}); } return s; }
static RResult solve(const RPda& p, int init, int term, bool prot) {
    RAut a, b; for (int i = 0; i < p.n; ++i) { a.add(false); b.add(i == term); } int x = a.add(true), y = b.add(true);
    if (prot) a.edges.insert({init, p.m - 1, x}); else for (int l = 0; l < p.m; ++l) a.edges.insert({init, l, x});
    for (int l = 0; l < p.m; ++l) { b.edges.insert({term, l, y}); b.edges.insert({y, l, y}); }
    return ref_solve(p, a, b);
}
// A sparse system around one run from the initial to the terminal state, so that nearly every rule is needed.
static RPda run_shaped(Rng& rng, int& init, int& term, bool weighted) {
    RPda p; p.n = rng.in(4, 10); p.m = rng.chance(60) ? 2 : rng.in(1, 4); std::vector<int> ids(p.n); std::iota(ids.begin(), ids.end(), 0); for (int i = p.n - 1; i > 0; --i) std::swap(ids[i], ids[rng.below(i + 1)]);
    init = ids[0]; term = ids[1]; int used = 2; auto w = [&] { return weighted ? (long)rng.in(0, 5) : 0L; };
    auto state = [&] { if (used < p.n && rng.chance(65)) return ids[used++]; return used > 2 ? ids[2 + rng.below(used - 2)] : ids[used++]; };
    auto pre = [&](RRule& r, int top) { r.wild = rng.chance(12); if (!r.wild) { r.pre = {top}; for (int l = 0; l < p.m; ++l) if (l != top && rng.chance(12)) r.pre.push_back(l); std::sort(r.pre.begin(), r.pre.end()); } };
    std::vector<int> st; int cur = state(); { RRule r; r.from = init; r.wild = rng.chance(50); if (!r.wild) r.pre = {rng.below(p.m)}; r.to = cur; r.op = oPUSH; r.lab = rng.below(p.m); r.w = w(); p.rules.push_back(r); st.push_back(r.lab); }
    int steps = rng.in(2, 16);
    for (int k = 0; k < steps && !st.empty(); ++k) {
        int nx = state(); RRule r; r.from = cur; r.to = nx; pre(r, st.back()); r.w = w(); r.lab = 0; int z = rng.below(100);
        if (z < 35 && st.size() < 6) { r.op = oPUSH; r.lab = rng.below(p.m); st.push_back(r.lab); } else if (z < 68 && st.size() > 1) { r.op = oPOP; st.pop_back(); } else if (z < 88) { r.op = oSWAP; r.lab = rng.below(p.m); st.back() = r.lab; } else r.op = oNOOP;
        p.rules.push_back(r); cur = nx; }
    { RRule r; r.from = cur; r.to = term; pre(r, st.back()); r.w = w(); r.op = rng.chance(40) ? oPOP : rng.chance(50) ? oSWAP : oNOOP; r.lab = r.op == oSWAP ? rng.below(p.m) : 0; p.rules.push_back(r); }
    for (int k = rng.below(4); k > 0; --k) { RRule r; r.from = rng.below(p.n); r.to = rng.below(p.n); if (r.from == init) continue; pre(r, rng.below(p.m)); r.w = w(); r.op = (Op)rng.below(4); r.lab = r.op == oSWAP || r.op == oPUSH ? rng.below(p.m) : 0; p.rules.push_back(r); }
    return p;
}
template<typename W> static void one(Rng& rng) {
    GenOpts o; o.wmin = 0; o.wmax = W::is_weight ? 5 : 0; o.max_states = 6;
    int init = 0, term = 0; bool shaped = rng.chance(40); RPda p = shaped ? run_shaped(rng, init, term, W::is_weight) : gen_pda(rng, o); if (shaped) stats().inc("run_shaped"); else { if (p.n < 2) p.n = 2; init = rng.below(p.n), term = rng.below(p.n - 1); if (term >= init) ++term; }
    bool quiet_term = shaped || rng.chance(40); // often the terminal state has no rules, as in a typical query
    if (!shaped) { std::vector<RRule> rs; for (auto r : p.rules) { if (r.from == init) { if (rng.chance(50)) continue; r.op = oPUSH; r.lab = rng.below(p.m); } if (quiet_term && r.from == term) continue; rs.push_back(r); } p.rules = rs; }
    bool any = false; for (auto& r : p.rules) any |= r.from == init;
    if (!any) { RRule r; r.from = init; r.wild = rng.chance(50); if (!r.wild) r.pre = {rng.below(p.m)}; r.to = rng.below(p.n); r.op = oPUSH; r.lab = rng.below(p.m); r.w = 0; p.rules.push_back(r); }
    if (rng.chance(2)) { auto id = grow(rng, p, {}, true, true); init = id[(size_t)init]; term = id[(size_t)term]; for (auto& r : p.rules) if (r.from == init && r.op != oPUSH) r.op = oPUSH, r.lab = rng.below(p.m); }
    int level = rng.below(5);
    describe("reduce level=" + std::to_string(level) + " initial=" + std::to_string(init) + " terminal=" + std::to_string(term) + " " + str(p)); stats().sig(hash_str(current()));
    auto pda = make_pda<W>(p); auto p0 = extract<W>(pda, p.n, p.m);
    auto [before, after] = internal::Reducer::reduce(pda, level, (size_t)init, (size_t)term);
    if ((int)pda.states().size() != p.n) fail("reduce-states", "the number of states changed");
    auto p1 = extract<W>(pda, p.n, p.m);
    stats().inc("reduced"); auto f0 = flat(p0), f1 = flat(p1);
    if (!std::includes(f0.begin(), f0.end(), f1.begin(), f1.end())) fail("reduce-added", "the reduced system has a rule that the original does not have");
    if (level == 0 && f0 != f1) fail("reduce-level0", "level 0 must not change the rules");
    if (f1.size() < f0.size()) stats().inc("rules_removed", f0.size() - f1.size());
    if (after > before) fail("reduce-count", "reported size grew from " + std::to_string(before) + " to " + std::to_string(after));
    bool prot = level == 2 || level == 4;
    auto r0 = prot ? solve(protect(p0, init, term), init, term, true) : solve(p0, init, term, false);
    auto r1 = prot ? solve(protect(p1, init, term), init, term, true) : solve(p1, init, term, false);
    stats().inc(r0.reach ? "terminal_reachable" : "terminal_unreachable"); if (r0.reach && f1.size() < f0.size()) stats().inc("reachable_and_reduced");
    if (r0.reach != r1.reach) fail("reduce-reachability", std::string("terminal is ") + (r0.reach ? "reachable before but not after" : "reachable only after") + " the reduction; remaining: " + str(p1));
    if (r0.reach && r0.best != r1.best) fail("reduce-weight", "cheapest run costs " + std::to_string(r0.best) + " before and " + std::to_string(r1.best) + " after; remaining: " + str(p1));
    for (auto& s : pda.states()) for (size_t i = 0; i + 1 < s._rules.size(); ++i) if (!(s._rules[i].first < s._rules[i + 1].first)) fail("reduce-order", "the rules of a state are no longer an ordered set");
    for (size_t i = 0; i < pda.states().size(); ++i) for (auto& [r,l] : pda.states()[i]._rules) { auto& ps = pda.states()[r._to]._pre_states; if (std::find(ps.begin(), ps.end(), i) == ps.end()) fail("reduce-prestates", "a remaining rule is missing from the predecessor index"); }
}
int main(int argc, char** argv) { return main_driver(argc, argv, { {"unweighted", [](Rng& r, uint64_t) { one<weight<void>>(r); }}, {"weighted", [](Rng& r, uint64_t) { one<weight<int32_t>>(r); }} }); }
