// Shortest-trace engines against the reference optimum.
#include "build_inst.h"
using namespace vf;
template<typename W> static void one(Rng& rng, int which) {
    GenOpts o; o.wmin = 0; o.wmax = rng.chance(30) ? 1 : rng.chance(50) ? 7 : 40;
    o.pairs = pair_weights<W>(); auto [p, i, f] = gen_problem(rng, o);
    describe(str(p) + " init=" + str(i) + " final=" + str(f));
    auto ref = ref_solve(p, i, f);
    stats().sig(hash_str(current()));
    stats().inc(ref.reach ? "oracle_reachable" : "oracle_unreachable");
    auto go = [&](const char* eng, bool r, auto get) {
        stats().inc(std::string("verdict_") + eng);
        if (r != ref.reach) fail(std::string("verdict-") + eng, std::string(eng) + " answered " + (r ? "reachable" : "unreachable") + ", reference says the opposite");
        if (!r) return;
        auto [tr, rw] = get(); long w = ref_w(rw);
        auto t = conv_trace(tr); long mw = 0;
        auto e = check_trace(p, i, f, t, mw);
        stats().inc(std::string("trace_") + eng); if (ref.best > 0) stats().inc("nonzero_optimum");
        if (w != ref.best) fail(std::string("weight-") + eng, std::string(eng) + " reports weight " + std::to_string(w) + ", optimum is " + std::to_string(ref.best) + " trace=" + str(t));
        if (!e.empty()) fail(std::string("trace-") + eng, std::string(eng) + ": " + e + " trace=" + str(t));
        if (mw != ref.best) fail(std::string("traceweight-") + eng, std::string(eng) + " trace costs " + std::to_string(mw) + ", reported/optimal " + std::to_string(ref.best) + " trace=" + str(t));
    };
    if (which & 1) { auto in = make_instance<W>(p, i, f); bool r = Solver::post_star_accepts<Trace_Type::Shortest>(*in); go("post", r, [&]{ return Solver::get_trace<Trace_Type::Shortest>(*in); }); }
    if (which & 2) { auto in = make_instance<W>(p, i, f); bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(*in); go("pre", r, [&]{ return Solver::get_trace<Trace_Type::Shortest>(*in); }); }
    if (which & 4) { auto in = make_instance<W>(p, i, f); bool r = Solver::dual_search_accepts<Trace_Type::Shortest>(*in); go("dual", r, [&]{ return Solver::get_trace_dual_search<Trace_Type::Shortest>(*in); }); }
    if (which & 8) { auto in = make_instance<W>(p, i, f); bool r = Solver::post_star_accepts_no_ET<Trace_Type::Shortest>(*in); go("post_no_early_stop", r, [&]{ return Solver::get_trace<Trace_Type::Shortest>(*in); }); }
    if (which & 16) { auto in = make_instance<W>(p, i, f); bool r = Solver::pre_star_accepts_no_ET<Trace_Type::Shortest>(*in); go("pre_no_early_stop", r, [&]{ return Solver::get_trace<Trace_Type::Shortest>(*in); }); }
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, {
        {"post_u", [](Rng& r, uint64_t) { one<weight<uint32_t>>(r, 1); }},
        {"pre_u", [](Rng& r, uint64_t) { one<weight<uint32_t>>(r, 2); }},
        {"dual_u", [](Rng& r, uint64_t) { one<weight<uint32_t>>(r, 4); }},
        {"post_i", [](Rng& r, uint64_t) { one<weight<int32_t>>(r, 1); }},
        {"pre_i", [](Rng& r, uint64_t) { one<weight<int32_t>>(r, 2); }},
        {"full_u", [](Rng& r, uint64_t) { one<weight<uint32_t>>(r, 24); }},
        {"dual_i", [](Rng& r, uint64_t) { one<weight<int32_t>>(r, 4); }},
        {"wide", [](Rng& r, uint64_t) { int e = 1 << r.below(3); if (r.chance(50)) one<weight<uint64_t>>(r, e); else one<weight<double>>(r, e); }},
        {"array", [](Rng& r, uint64_t) { one<weight<std::array<int32_t,3>>>(r, 1 << r.below(3)); }},
        {"vector", [](Rng& r, uint64_t) { one<weight<std::vector<uint32_t>>>(r, 1 << r.below(3)); }},
    });
}
