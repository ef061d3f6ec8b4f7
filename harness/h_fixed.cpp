// Fixed-point engines (longest trace; shortest with arbitrary, also negative, weights).
#include "build_inst.h"
using namespace vf;
template<typename W, Trace_Type tt> static void one(Rng& rng, int which, int wmin, int wmax) {
    GenOpts o; o.wmin = wmin; o.wmax = wmax; o.max_states = 4; o.max_labels = 3; o.max_rules = 9; o.scale = rng.chance(12);
    o.pairs = pair_weights<W>(); auto [p, i, f] = gen_problem(rng, o);
    describe(str(p) + " init=" + str(i) + " final=" + str(f));
    constexpr int sign = tt == Trace_Type::Longest ? -1 : 1;
    auto ref = ref_solve(p, i, f, sign);
    stats().sig(hash_str(current()));
    stats().inc(ref.reach ? "oracle_reachable" : "oracle_unreachable");
    if (ref.best <= RNEG) stats().inc("oracle_unbounded");
    using SW = internal::solver_weight<W,tt>;
    auto go = [&](const char* eng, bool r, auto get) {
        stats().inc(std::string("verdict_") + eng);
        if (r != ref.reach) fail(std::string("verdict-") + eng, std::string(eng) + " answered " + (r ? "reachable" : "unreachable") + ", reference says the opposite");
        if (!r) return;
        auto [tr, rw] = get(); long w = ref_w(rw);
        bool inf = (tt == Trace_Type::Longest || W::is_signed) && rw == SW::bottom();
        if (inf != (ref.best <= RNEG)) fail(std::string("weight-") + eng, std::string(eng) + (inf ? " reports unbounded, optimum is " + std::to_string(sign * ref.best) : " reports " + std::to_string(w) + ", optimum is unbounded"));
        if (inf) { stats().inc("unbounded_reported"); return; }
        auto t = conv_trace(tr); long mw = 0;
        auto e = check_trace(p, i, f, t, mw, sign);
        stats().inc(std::string("trace_") + eng);
        if (w != sign * ref.best) fail(std::string("weight-") + eng, std::string(eng) + " reports weight " + std::to_string(w) + ", optimum is " + std::to_string(sign * ref.best) + " trace=" + str(t));
        if (!e.empty()) fail(std::string("trace-") + eng, std::string(eng) + ": " + e + " trace=" + str(t));
        if (mw != ref.best) fail(std::string("traceweight-") + eng, std::string(eng) + " trace costs " + std::to_string(mw) + ", optimal " + std::to_string(ref.best) + " trace=" + str(t));
    };
    constexpr auto P = TraceInfoType::Pair;
    if (which & 1) { auto in = make_instance<W,P>(p, i, f); bool r = Solver::post_star_fixed_point_accepts<tt>(*in); go("post", r, [&]{ return Solver::get_trace<tt>(*in); }); }
    if (which & 2) { auto in = make_instance<W,P>(p, i, f); bool r = Solver::pre_star_fixed_point_accepts<tt>(*in); go("pre", r, [&]{ return Solver::get_trace<tt>(*in); }); }
    if (which & 4) { auto in = make_instance<W,P>(p, i, f); auto cp = in->copy(); auto [r, used_pre] = Solver::interleaving_fixed_point_accepts<tt>(*in, cp); go("interleaved", r, [&,u=used_pre]{ return Solver::get_trace<tt>(u ? cp : *in); }); }
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, {
        {"longest_post", [](Rng& r, uint64_t) { one<weight<uint32_t>,Trace_Type::Longest>(r, 1, 0, 5); }},
        {"longest_pre", [](Rng& r, uint64_t) { one<weight<uint32_t>,Trace_Type::Longest>(r, 2, 0, 5); }},
        {"longest_int", [](Rng& r, uint64_t) { one<weight<uint32_t>,Trace_Type::Longest>(r, 4, 0, 5); }},
        {"shortu_post", [](Rng& r, uint64_t) { one<weight<uint32_t>,Trace_Type::ShortestFixedPoint>(r, 1, 0, 5); }},
        {"shortu_pre", [](Rng& r, uint64_t) { one<weight<uint32_t>,Trace_Type::ShortestFixedPoint>(r, 2, 0, 5); }},
        {"shortu_int", [](Rng& r, uint64_t) { one<weight<uint32_t>,Trace_Type::ShortestFixedPoint>(r, 4, 0, 5); }},
        {"shorti_post", [](Rng& r, uint64_t) { one<weight<int32_t>,Trace_Type::ShortestFixedPoint>(r, 1, -2, 7); }},
        {"shorti_pre", [](Rng& r, uint64_t) { one<weight<int32_t>,Trace_Type::ShortestFixedPoint>(r, 2, -2, 7); }},
        {"shorti_int", [](Rng& r, uint64_t) { one<weight<int32_t>,Trace_Type::ShortestFixedPoint>(r, 4, -2, 7); }},
        {"longi_post", [](Rng& r, uint64_t) { one<weight<int32_t>,Trace_Type::Longest>(r, 1, -7, 2); }},
        {"longi_pre", [](Rng& r, uint64_t) { one<weight<int32_t>,Trace_Type::Longest>(r, 2, -7, 2); }},
        {"wide", [](Rng& r, uint64_t) { int e = 1 << r.below(3); if (r.chance(50)) one<weight<int64_t>,Trace_Type::ShortestFixedPoint>(r, e, -2, 7); else one<weight<uint64_t>,Trace_Type::Longest>(r, e, 0, 5); }},
        {"array", [](Rng& r, uint64_t) { int e = 1 << r.below(3); if (r.chance(50)) one<weight<std::array<int32_t,3>>,Trace_Type::ShortestFixedPoint>(r, e, -2, 7); else one<weight<std::array<uint32_t,2>>,Trace_Type::Longest>(r, e, 0, 5); }},
        {"vector", [](Rng& r, uint64_t) { int e = 1 << r.below(3); if (r.chance(50)) one<weight<std::vector<int32_t>>,Trace_Type::ShortestFixedPoint>(r, e, -2, 7); else one<weight<std::vector<uint32_t>>,Trace_Type::Longest>(r, e, 0, 5); }},
    });
}
