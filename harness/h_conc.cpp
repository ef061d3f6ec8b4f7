// Several threads at once: separate problems, copies of one instance over a shared system, concurrent queries of one finished automaton,
// expressions, texts and reductions. Watched by ThreadSanitizer; every answer is compared with the reference afterwards.
#include "build_inst.h"
#include "re.h"
#include <pdaaal/NFA.h>
#include <pdaaal/parsing/NfaParser.h>
#include <pdaaal/internal/Reducer.h>
#include <pdaaal/PDAFactory.h>
#include <atomic>
#include <thread>
using namespace vf;
struct Out { bool set = false, reach = false, unbounded = false, has_w = false, has_tr = false; long w = 0; std::vector<Conf> tr; std::string err; };
struct Prob { RPda p; RAut i, f; RResult any, low, high; };
static Prob make_prob(Rng& g, int wmin, int wmax) { GenOpts o; o.wmin = wmin; o.wmax = wmax; o.max_states = 5; o.max_labels = 3; o.max_rules = 12; o.scale = false; Prob q; q.p = gen_pda(g, o); std::tie(q.i, q.f) = gen_pair(g, q.p); RPda p0 = q.p; for (auto& r : p0.rules) r.w = 0; q.any = ref_solve(p0, q.i, q.f, 1); q.low = ref_solve(q.p, q.i, q.f, 1); q.high = ref_solve(q.p, q.i, q.f, -1); return q; }
using U = weight<uint32_t>;
template<typename Pr> static void solve_single(Pr& pr, int e, Out& a) {
    switch (e) {
        case 0: a.reach = Solver::post_star_accepts<Trace_Type::Any>(pr); if (a.reach) a.tr = conv_trace(Solver::get_trace(pr)); break;
        case 1: a.reach = Solver::pre_star_accepts<Trace_Type::Any>(pr); if (a.reach) a.tr = conv_trace(Solver::get_trace(pr)); break;
        case 2: a.reach = Solver::dual_search_accepts<Trace_Type::Any>(pr); if (a.reach) a.tr = conv_trace(Solver::get_trace_dual_search(pr)); break;
        case 3: a.reach = Solver::post_star_accepts<Trace_Type::Shortest>(pr); if (a.reach) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(pr); a.tr = conv_trace(t); a.w = w; a.has_w = true; } break;
        case 4: a.reach = Solver::pre_star_accepts<Trace_Type::Shortest>(pr); if (a.reach) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(pr); a.tr = conv_trace(t); a.w = w; a.has_w = true; } break;
        default: a.reach = Solver::dual_search_accepts<Trace_Type::Shortest>(pr); if (a.reach) { auto [t, w] = Solver::get_trace_dual_search<Trace_Type::Shortest>(pr); a.tr = conv_trace(t); a.w = w; a.has_w = true; } break;
    }
    a.has_tr = a.reach; a.set = true;
}
template<typename Pr> static void solve_longest(Pr& pr, int e, Out& a) {
    a.reach = e ? Solver::post_star_fixed_point_accepts<Trace_Type::Longest>(pr) : Solver::pre_star_fixed_point_accepts<Trace_Type::Longest>(pr); a.set = true; if (!a.reach) return;
    auto [t, w] = Solver::get_trace<Trace_Type::Longest>(pr); a.has_w = true; a.w = w; a.unbounded = w == internal::solver_weight<U,Trace_Type::Longest>::bottom(); if (!a.unbounded) { a.tr = conv_trace(t); a.has_tr = true; }
}
static void judge(const char* what, const Prob& q, const Out& a, bool longest) {
    if (!a.err.empty()) fail("conc-exception", std::string(what) + ": " + a.err); if (!a.set) fail("conc-lost", std::string(what) + ": no answer"); stats().inc("answers_compared"); stats().inc(q.any.reach ? "oracle_reachable" : "oracle_unreachable");
    if (a.reach != q.any.reach) fail("conc-verdict", std::string(what) + " answers " + (a.reach ? "reachable" : "unreachable")); if (!a.reach) return;
    long best = longest ? -q.high.best : q.low.best; bool unb = longest && q.high.best <= RNEG;
    if (a.has_w && a.unbounded != unb) fail("conc-weight", std::string(what) + ": unboundedness is wrong"); if (a.has_w && !unb && a.w != best) fail("conc-weight", std::string(what) + " reports " + std::to_string(a.w) + ", optimum " + std::to_string(best));
    if (a.has_tr) { long mw = 0; auto e = check_trace(q.p, q.i, q.f, a.tr, mw, longest ? -1 : 1); if (!e.empty()) fail("conc-trace", std::string(what) + ": " + e); stats().inc("traces_replayed"); }
}
// start together, with small seeded delays between the steps of each worker
struct Team { std::atomic<int> ready{0}, inside{0}, peak{0}; std::atomic<bool> go{false}; std::vector<std::function<void()>> work; std::vector<int> delay;
    void run() { std::vector<std::thread> ts; for (size_t k = 0; k < work.size(); ++k) ts.emplace_back([this, k] { ready.fetch_add(1); while (!go.load()) std::this_thread::yield(); for (volatile int d = delay[k]; d > 0; d = d - 1) {} int in = inside.fetch_add(1, std::memory_order_relaxed) + 1; int pk = peak.load(std::memory_order_relaxed); while (in > pk && !peak.compare_exchange_weak(pk, in, std::memory_order_relaxed)) {} work[k](); inside.fetch_sub(1, std::memory_order_relaxed); });
        while (ready.load() < (int)work.size()) std::this_thread::yield(); go.store(true); for (auto& t : ts) t.join(); stats().inc("threads_run", work.size()); if (peak.load() > 1) stats().inc("rounds_overlapping"); stats().inc("rounds"); } };
template<typename F> static std::function<void()> guarded(Out& o, F f) { return [&o, f] { try { f(o); } catch (const std::exception& e) { o.err = e.what(); } }; }
static void separate(Rng& g, uint64_t) { // every thread builds, reduces, solves its own problem
    int n = g.in(2, 4); std::vector<Prob> ps; std::string d; for (int k = 0; k < n; ++k) { ps.push_back(make_prob(g, 0, 4)); d += str(ps.back().p) + " init=" + str(ps.back().i) + " final=" + str(ps.back().f) + " ;; "; }
    describe("separate " + d); stats().sig(hash_str(current())); std::vector<Out> out((size_t)n); std::vector<int> eng; for (int k = 0; k < n; ++k) eng.push_back(g.below(8)); Team t;
    for (int k = 0; k < n; ++k) { auto& q = ps[(size_t)k]; int e = eng[(size_t)k]; t.delay.push_back(g.chance(50) ? 0 : g.below(20000)); t.work.push_back(guarded(out[(size_t)k], [&q, e](Out& o) { if (e >= 6) { auto in = make_instance<U,TraceInfoType::Pair>(q.p, q.i, q.f); solve_longest(*in, e - 6, o); } else { auto in = make_instance<U>(q.p, q.i, q.f); solve_single(*in, e, o); } })); }
    t.run(); for (int k = 0; k < n; ++k) { judge("a separate problem", ps[(size_t)k], out[(size_t)k], eng[(size_t)k] >= 6); stats().inc("separate_problems"); }
}
static void shared(Rng& g, uint64_t) { // copies of one instance: they share the system
    auto q = make_prob(g, 0, 4); describe("shared " + str(q.p) + " init=" + str(q.i) + " final=" + str(q.f)); stats().sig(hash_str(current())); int n = g.in(2, 4); std::vector<Out> out((size_t)n); Team t; bool pair = g.chance(30);
    for (int k = 0; k < n; ++k) t.delay.push_back(g.chance(50) ? 0 : g.below(20000));
    if (pair) { auto in = make_instance<U,TraceInfoType::Pair>(q.p, q.i, q.f); std::vector<std::decay_t<decltype(in->copy())>> cs; cs.reserve((size_t)n); for (int k = 0; k < n; ++k) cs.push_back(in->copy()); for (int k = 0; k < n; ++k) { auto& c = cs[(size_t)k]; int e = g.below(2); t.work.push_back(guarded(out[(size_t)k], [&c, e](Out& o) { solve_longest(c, e, o); })); } t.run(); }
    else { auto in = make_instance<U>(q.p, q.i, q.f); std::vector<std::decay_t<decltype(in->copy())>> cs; cs.reserve((size_t)n); for (int k = 0; k < n; ++k) cs.push_back(in->copy());
        for (int k = 0; k < n; ++k) { int e = g.below(6); auto& c = cs[(size_t)k]; t.work.push_back(guarded(out[(size_t)k], [&c, e](Out& o) { solve_single(c, e, o); })); }
        t.run(); }
    for (auto& o : out) { judge("a copy sharing the system", q, o, pair); stats().inc("shared_systems"); }
}
static void queries(Rng& g, uint64_t) { // one saturated automaton, read by many
    auto q = make_prob(g, 0, 0); describe("queries " + str(q.p) + " init=" + str(q.i) + " final=" + str(q.f)); stats().sig(hash_str(current())); int n = g.in(2, 4);
    auto pda = make_pda<weight<void>>(q.p); bool pre = g.chance(50); auto aut = make_aut<weight<void>>(pda, q.p, pre ? q.f : q.i); if (pre) Solver::pre_star<Trace_Type::Any>(aut); else Solver::post_star<Trace_Type::Any>(aut); const auto& ca = aut; const auto& cp = pda;
    std::vector<std::pair<size_t,std::vector<uint32_t>>> confs; for (int s = 0; s < q.p.n; ++s) { confs.push_back({(size_t)s, {}}); for (int l = 0; l < q.p.m; ++l) { uint32_t x = cp.exists_label(LSHIFT + l).second; confs.push_back({(size_t)s, {x}}); for (int m = 0; m < q.p.m; ++m) confs.push_back({(size_t)s, {x, (uint32_t)cp.exists_label(LSHIFT + m).second}}); } }
    auto ask = [&ca, &confs] { std::string r; for (auto& [s, st] : confs) { bool a = ca.accepts(s, st); auto [p, ok] = [&] { auto x = ca.accept_path(s, st); return std::make_pair(x, true); }(); (void)ok; r += a ? '1' : '0'; (void)p; } std::stringstream d; ca.to_dot(d); r += d.str(); return r; };
    auto alone = ask(); std::vector<std::string> res((size_t)n); Team t; for (int k = 0; k < n; ++k) { t.delay.push_back(g.below(2000)); t.work.push_back([&res, k, &ask] { res[(size_t)k] = ask(); }); } t.run();
    for (auto& r : res) { if (r != alone) fail("conc-query", "a concurrent reader of one automaton saw a different answer"); stats().inc("concurrent_readers"); }
}
static void texts(Rng& g, uint64_t) { // expressions built and parsed, systems compiled from a shared language
    int n = g.in(2, 4); std::vector<std::string> tx; std::string d; const char* pool[] = {"[a,b]* [c]", ".+ [a]?", "([a] | [^b])+ [c]*", "[a] [b] [c] | .*", "[^a,c]? ([b] [b])*", "."}; for (int k = 0; k < n; ++k) { tx.push_back(pool[g.below(5)]); d += tx.back() + " ;; "; }
    describe("texts " + d); stats().sig(hash_str(current())); auto words = [] { std::vector<std::vector<char>> w{{}}; for (size_t k = 0; k < w.size() && w.size() < 85; ++k) if (w[k].size() < 3) for (char c : {'a','b','c','d'}) { auto x = w[k]; x.push_back(c); w.push_back(x); } return w; }();
    auto run = [&words](const NFA<size_t>& m) { std::string r; for (auto& w : words) { std::vector<const NFA<size_t>::state_t*> cur(m.initial().begin(), m.initial().end()); for (char c : w) cur = NFA<size_t>::successor(cur, (size_t)(unsigned char)c); bool acc = w.empty() ? m.empty_accept() : false; for (auto s : cur) acc |= s->_accepting; r += acc ? '1' : '0'; } return r; };
    auto parse = [](const std::string& s) { return NfaParser::parse_string(s, [](const std::string& x) { return (size_t)(unsigned char)x[0]; }); };
    std::vector<std::string> alone; for (auto& s : tx) { auto m = parse(s); m.compile(); alone.push_back(run(m)); }
    auto sharedm = parse(tx[0]); sharedm.compile(); const auto& cs = sharedm;
    std::vector<std::string> res((size_t)n), res2((size_t)n); Team t; for (int k = 0; k < n; ++k) { t.delay.push_back(g.below(2000)); t.work.push_back([&, k] { auto m = parse(tx[(size_t)k]); m.compile(); res[(size_t)k] = run(m); auto c = cs; res2[(size_t)k] = run(cs); if (run(c) != res2[(size_t)k]) res2[(size_t)k] = "copy differs"; }); } t.run();
    for (int k = 0; k < n; ++k) { if (res[(size_t)k] != alone[(size_t)k]) fail("conc-parse", "parsing '" + tx[(size_t)k] + "' while other threads parse gives another language"); if (res2[(size_t)k] != alone[0]) fail("conc-nfa", "reading one expression automaton from several threads gives " + res2[(size_t)k]); stats().inc("concurrent_texts"); }
}
static void reductions(Rng& g, uint64_t) { // each thread reduces its own copy of one system
    auto q = make_prob(g, 0, 4); int n = g.in(2, 4); int level = g.in(1, 4); if (q.p.n < 2) q.p.n = 2; size_t init = (size_t)g.below(q.p.n), term = (init + 1 + (size_t)g.below(q.p.n - 1)) % (size_t)q.p.n; for (auto& r : q.p.rules) if (r.from == (int)init) { r.op = oPUSH; r.lab = g.below(q.p.m); } /* a query starts with pushes */ describe("reductions level=" + std::to_string(level) + " initial=" + std::to_string(init) + " terminal=" + std::to_string(term) + " " + str(q.p)); stats().sig(hash_str(current()));
    auto pda = make_pda<U>(q.p); auto dump = [](const auto& pda) { std::stringstream s; for (auto& st : pda.states()) { s << "S:"; for (auto& [r, l] : st._rules) { s << "(" << r._to << "," << (int)r._operation << "," << r._op_label << "," << r._weight << "|" << (l.wildcard() ? "*" : ""); if (!l.wildcard()) for (auto x : l.labels()) s << x << ","; s << ")"; } } return s.str(); };
    std::string before = dump(pda); auto one = [&] { auto mine = pda; internal::Reducer::reduce(mine, level, init, term); return dump(mine); }; auto alone = one(); std::vector<std::string> res((size_t)n); Team t; for (int k = 0; k < n; ++k) { t.delay.push_back(g.below(2000)); t.work.push_back([&res, k, &one] { res[(size_t)k] = one(); }); } t.run();
    for (auto& r : res) { if (r != alone) fail("conc-reduce", "reducing a copy while other threads do the same gives other rules"); stats().inc("concurrent_reductions"); } if (dump(pda) != before) fail("conc-reduce", "reducing a copy changed the original");
}
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:report_signal_unsafe=0:exitcode=66:second_deadlock_stack=1"; }
int main(int argc, char** argv) { return main_driver(argc, argv, {{"separate", separate, 3}, {"shared", shared, 3}, {"queries", queries, 1}, {"texts", texts, 1}, {"reductions", reductions, 1}}); }
