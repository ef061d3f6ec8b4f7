// Reachability verdicts and unweighted traces of the three engines against the reference semantics.
#include "build_inst.h"
using namespace vf;
template<typename W> static void one(Rng& rng, bool weighted) {
    GenOpts o; if (weighted) { o.wmin = W::is_signed ? -4 : 0; o.wmax = 5; o.pairs = pair_weights<W>(); }
    auto [p, i, f] = gen_problem(rng, o);
    describe(str(p) + " init=" + str(i) + " final=" + str(f));
    RPda p0 = p; for (auto& x : p0.rules) x.w = 0; auto ref = ref_solve(p0, i, f);
    stats().sig(hash_str(current()));
    stats().inc(ref.reach ? "oracle_reachable" : "oracle_unreachable");
    auto check = [&](const char* eng, bool res) {
        stats().inc(std::string("verdict_") + eng);
        if (res != ref.reach) fail(std::string("verdict-") + eng, std::string(eng) + " answered " + (res ? "reachable" : "unreachable") + ", reference says the opposite");
    };
    auto tracecheck = [&](const char* eng, const std::vector<Conf>& t) {
        long w; auto e = check_trace(p, i, f, t, w);
        stats().inc("trace_steps", t.size()); stats().inc(std::string("trace_") + eng); if (t.size() > 1) stats().inc("nontrivial_traces");
        if (!e.empty()) fail(std::string("trace-") + eng, std::string(eng) + ": " + e + " trace=" + str(t));
    };
    { auto in = make_instance<W>(p, i, f); bool r = Solver::post_star_accepts<Trace_Type::None>(*in); check("post", r); }
    { auto in = make_instance<W>(p, i, f); bool r = Solver::pre_star_accepts<Trace_Type::None>(*in); check("pre", r); }
    { auto in = make_instance<W>(p, i, f); bool r = Solver::dual_search_accepts<Trace_Type::None>(*in); check("dual", r); }
    { auto in = make_instance<W>(p, i, f); bool r = Solver::post_star_accepts<Trace_Type::Any>(*in); check("post_any", r); if (r) tracecheck("post", conv_trace(Solver::get_trace<Trace_Type::Any>(*in))); }
    { auto in = make_instance<W>(p, i, f); bool r = Solver::pre_star_accepts<Trace_Type::Any>(*in); check("pre_any", r); if (r) tracecheck("pre", conv_trace(Solver::get_trace(*in))); }
    { auto in = make_instance<W>(p, i, f); bool r = Solver::dual_search_accepts<Trace_Type::Any>(*in); check("dual_any", r); if (r) tracecheck("dual", conv_trace(Solver::get_trace_dual_search(*in))); }
    { auto in = make_instance<W>(p, i, f); bool r = Solver::post_star_accepts_no_ET(*in); check("post_no_early_stop", r); if (r) tracecheck("post_no_early_stop", conv_trace(Solver::get_trace<Trace_Type::Any>(*in))); }
    { auto in = make_instance<W>(p, i, f); bool r = Solver::pre_star_accepts_no_ET(*in); check("pre_no_early_stop", r); if (r) tracecheck("pre_no_early_stop", conv_trace(Solver::get_trace<Trace_Type::Any>(*in))); }
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, {
        {"unweighted", [](Rng& r, uint64_t) { one<weight<void>>(r, false); }, 2},
        {"weighted", [](Rng& r, uint64_t) { one<weight<uint32_t>>(r, true); }, 1},
        {"signed", [](Rng& r, uint64_t) { one<weight<int32_t>>(r, true); }, 1},
        {"tuples", [](Rng& r, uint64_t) { one<weight<std::array<double,2>>>(r, true); }, 1},
    });
}
