// Saturated automata accept exactly the predecessor / successor configurations; single-configuration queries,
// their weights and their traces, against the reference semantics.
#include "build_inst.h"
using namespace vf;
static RAut single(const RPda& p, const Conf& c) {
    RAut a; for (int i = 0; i < p.n; ++i) a.add(c.second.empty() && i == c.first);
    int cur = c.first;
    for (size_t i = 0; i < c.second.size(); ++i) { int s = a.add(i + 1 == c.second.size()); a.edges.insert({cur, c.second[i], s}); cur = s; }
    return a;
}
// configurations accepted by a (random walks through the automaton)
static std::vector<Conf> sample_accepted(Rng& r, const RPda& p, const RAut& a, int want) {
    std::vector<Conf> out;
    for (int t = 0; t < want * 6 && (int)out.size() < want; ++t) {
        Conf c{r.below(p.n), {}}; int s = c.first;
        for (int d = 0; d < 6; ++d) {
            if (a.acc[s] && r.chance(50)) break;
            std::vector<std::pair<int,int>> nx; for (auto& [f,l,to] : a.edges) if (f == s) nx.push_back({l,to});
            if (nx.empty()) break;
            auto [l,to] = nx[r.below(nx.size())]; c.second.push_back(l); s = to;
        }
        if (a.acc[s]) out.push_back(c);
    }
    return out;
}
static std::vector<Conf> queries(Rng& r, const RPda& p, const RAut& a, bool forward) {
    std::vector<Conf> q;
    for (int i = 0; i < p.n && i < 3; ++i) q.push_back({i, {}});
    for (int i = 0; i < 6; ++i) { Conf c{r.below(p.n), {}}; int len = r.in(1, 4); for (int j = 0; j < len; ++j) c.second.push_back(r.below(p.m)); q.push_back(c); }
    for (auto c : sample_accepted(r, p, a, 3)) {
        q.push_back(c);
        for (int step = 0; step < 8; ++step) { // walk the transition relation so that many queries are members
            std::vector<Conf> nx;
            if (forward) { for (auto& [d,w] : succ(p, c)) nx.push_back(d); }
            else for (auto& ru : p.rules) if (ru.to == c.first) { // predecessors by reversing one rule
                std::vector<int> pre = ru.pre; if (ru.wild) { pre.resize(p.m); std::iota(pre.begin(), pre.end(), 0); }
                for (int g : pre) { Conf d{ru.from, c.second};
                    if (ru.op == oPOP) d.second.insert(d.second.begin(), g);
                    else if (ru.op == oNOOP) { if (d.second.empty() || d.second[0] != g) continue; }
                    else if (ru.op == oSWAP) { if (d.second.empty() || d.second[0] != ru.lab) continue; d.second[0] = g; }
                    else { if (d.second.size() < 2 || d.second[0] != ru.lab || d.second[1] != g) continue; d.second.erase(d.second.begin()); }
                    nx.push_back(d); } }
            if (nx.empty()) break;
            c = nx[r.below(nx.size())]; if (c.second.size() > 6) break;
            if (r.chance(60)) q.push_back(c);
        }
    }
    return q;
}
template<typename Pda> std::vector<uint32_t> enc(const Pda& pda, const std::vector<int>& w) { std::vector<uint32_t> o; for (int x : w) o.push_back(pda.exists_label(LSHIFT + x).second); return o; }
template<typename W, bool forward, bool shortest> static void run(Rng& rng, uint64_t) {
    constexpr auto TT = shortest ? Trace_Type::Shortest : Trace_Type::Any;
    GenOpts o; o.max_labels = 3; o.max_states = 4; o.max_rules = 12; o.scale = rng.chance(20); if (W::is_weight) { o.wmax = rng.chance(50) ? 1 : 6; o.pairs = pair_weights<W>(); }
    RPda p; RAut a; if (rng.chance(25)) { RAut b; std::tie(p, a, b) = gen_runs(rng, o); if (rng.chance(50)) a = b; } else { p = gen_pda(rng, o); a = gen_aut(rng, p); }
    if (rng.chance(3)) grow(rng, p, {&a}, true);
    describe(str(p) + " aut=" + str(a)); stats().sig(hash_str(current()));
    auto pda = make_pda<W>(p); auto aut = make_aut<W>(pda, p, a);
    if constexpr (forward) Solver::post_star<TT>(aut); else Solver::pre_star<TT, W>(aut);
    const char* dir = forward ? "post" : "pre";
    std::string base = current();
    for (auto& c : queries(rng, p, a, forward)) {
        describe(base + " query=" + str(c));
        auto ref = forward ? ref_solve(p, a, single(p, c)) : ref_solve(p, single(p, c), a);
        auto st = enc(pda, c.second);
        bool acc = aut.accepts(c.first, st);
        stats().inc(ref.reach ? "member_queries" : "nonmember_queries");
        if (acc != ref.reach) fail(std::string("language-") + dir, std::string(dir) + "* automaton " + (acc ? "accepts" : "rejects") + " " + str(c) + ", reference says the opposite");
        std::vector<Conf> tr; long w = 0;
        if constexpr (shortest) {
            auto [path, rwt] = aut.template accept_path<TT>(c.first, st);
            if (path.empty() == ref.reach) fail(std::string("path-") + dir, "accept_path disagrees with membership of " + str(c));
            auto [t, w2] = Solver::get_trace<TT>(pda, aut, (size_t)c.first, st);
            tr = conv_trace(t); w = ref_w(w2); long wt = ref_w(rwt);
            if (ref.reach && (wt != ref.best || w != ref.best)) fail(std::string("pathweight-") + dir, "reported weight " + std::to_string(wt) + "/" + std::to_string(w) + " of " + str(c) + ", reference " + std::to_string(ref.best));
            stats().inc("weights_checked");
        } else {
            if (aut.accept_path(c.first, st).empty() == ref.reach) fail(std::string("path-") + dir, "accept_path disagrees with membership of " + str(c));
            tr = conv_trace(Solver::get_trace(pda, aut, (size_t)c.first, st));
        }
        if (!ref.reach) { if (!tr.empty()) fail(std::string("trace-") + dir, "a trace for an unreachable configuration"); continue; }
        long mw; auto e = forward ? check_trace(p, a, single(p, c), tr, mw) : check_trace(p, single(p, c), a, tr, mw);
        if (!e.empty()) fail(std::string("trace-") + dir, e + " trace=" + str(tr));
        if (shortest && mw != ref.best) fail(std::string("traceweight-") + dir, "trace costs " + std::to_string(mw) + ", optimum is " + std::to_string(ref.best) + " trace=" + str(tr));
        stats().inc("traces_checked"); if (tr.size() > 1) stats().inc("nontrivial_traces");
    }
    // one-shot predecessor query with its own early termination
    if constexpr (!forward) for (int k = 0; k < 3; ++k) {
        auto qs = queries(rng, p, a, false); auto c = qs[rng.below(qs.size())]; auto ref = ref_solve(p, single(p, c), a);
        describe(base + " one-shot query=" + str(c));
        auto fresh = make_aut<W>(pda, p, a); auto st = enc(pda, c.second);
        bool r = Solver::pre_star_accepts<TT, W>(fresh, (size_t)c.first, st);
        stats().inc("oneshot_queries");
        if (r != ref.reach) fail("oneshot-pre", std::string("one-shot query answered ") + (r ? "true" : "false"));
        if (r) { std::vector<Conf> tr;
            if constexpr (shortest) { auto [t, rw] = Solver::get_trace<TT>(pda, fresh, (size_t)c.first, st); long w = ref_w(rw); tr = conv_trace(t); if (w != ref.best) fail("oneshot-weight", "weight " + std::to_string(w) + ", reference " + std::to_string(ref.best)); }
            else tr = conv_trace(Solver::get_trace(pda, fresh, (size_t)c.first, st));
            long mw; auto e = check_trace(p, single(p, c), a, tr, mw); if (!e.empty()) fail("oneshot-trace", e + " trace=" + str(tr)); }
    }
    describe(base);
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, {
        {"pre_void", run<weight<void>, false, false>, 2}, {"post_void", run<weight<void>, true, false>, 2},
        {"pre_any_weighted", run<weight<int32_t>, false, false>, 1}, {"post_any_weighted", run<weight<int32_t>, true, false>, 1},
        {"pre_shortest", run<weight<uint32_t>, false, true>, 2}, {"post_shortest", run<weight<uint32_t>, true, true>, 2},
        {"pre_tuples", run<weight<std::array<int32_t,3>>, false, true>, 1}, {"post_tuples", run<weight<std::vector<uint32_t>>, true, true>, 1},
    });
}
