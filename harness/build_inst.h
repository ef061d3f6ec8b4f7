// Build real PDAAAL objects from reference-model descriptions.
#ifndef VERIF_BUILD_INST_H
#define VERIF_BUILD_INST_H
#include "ref.h"
#include <pdaaal/SolverInstance.h>
#include <pdaaal/Solver.h>
namespace vf {
    using namespace pdaaal;
    inline op_t real_op(Op o) { switch (o) { case oPUSH: return PUSH; case oPOP: return POP; case oSWAP: return SWAP; default: return NOOP; } }
    // labels are the ints 0..m-1, shifted so that label value != label id
    constexpr int LSHIFT = 100;
    // weights of the reference model as weights of the type under test, and back
    template<typename T> struct WConv { static_assert(std::is_arithmetic_v<T>); static constexpr bool pairs = false; static constexpr long K = std::is_floating_point_v<T> ? 4 : sizeof(T) > 4 ? (1L << 33) + 5 : 1;
        static T to(long w) { if constexpr (std::is_floating_point_v<T>) return (T)w / (T)K; else return (T)(w * K); }
        static long from(T v) { if constexpr (std::is_floating_point_v<T>) return (long)(v * (T)K); else return (long)v % K ? RINF / 2 : (long)v / K; } };
    inline std::pair<long,long> split_w(long w) { long hi = (w + WB / 2) >> 20; return {hi, w - hi * WB}; }
    template<typename T, size_t N> struct WConv<std::array<T,N>> { static_assert(N >= 2); static constexpr bool pairs = true; // the components in the middle are zero
        static std::array<T,N> to(long w) { std::array<T,N> a{}; auto [h, l] = split_w(w); a[0] = (T)h; a[N-1] = (T)l; return a; }
        static long from(const std::array<T,N>& a) { for (size_t k = 1; k + 1 < N; ++k) if (a[k] != T{}) return RINF / 2; return (long)a[0] * WB + (long)a[N-1]; } };
    template<typename T> struct WConv<std::vector<T>> { static constexpr bool pairs = true;
        static std::vector<T> to(long w) { auto [h, l] = split_w(w); if (l == 0 && h == 0) return {}; if (l == 0 && h % 2) return {(T)h}; if (h % 3 == 2) return {(T)h, (T)l, T{}}; return {(T)h, (T)l}; }
        static long from(const std::vector<T>& a) { for (size_t k = 2; k < a.size(); ++k) if (a[k] != T{}) return RINF / 2; return (a.size() > 0 ? (long)a[0] * WB : 0) + (a.size() > 1 ? (long)a[1] : 0); } };
    template<typename T> long ref_w(const T& v) { return WConv<T>::from(v); }
    template<typename W> constexpr bool pair_weights() { if constexpr (W::is_weight) return WConv<typename W::type>::pairs; else return false; }
    template<typename W> PDA<int,W> make_pda(const RPda& p) {
        std::unordered_set<int> labels; for (int i = 0; i < p.m; ++i) labels.insert(LSHIFT + i);
        PDA<int,W> pda(labels);
        for (auto& r : p.rules) {
            std::vector<int> pre; if (!r.wild) for (int x : r.pre) pre.push_back(LSHIFT + x);
            int ol = (r.op == oPUSH || r.op == oSWAP) ? LSHIFT + r.lab : LSHIFT;
            if constexpr (W::is_weight) pda.add_rule((size_t)r.from, (size_t)r.to, real_op(r.op), ol, r.wild, pre, WConv<typename W::type>::to(r.w));
            else pda.add_rule((size_t)r.from, (size_t)r.to, real_op(r.op), ol, r.wild, pre);
        }
        if (p.n > 0) pda.insert_state((size_t)(p.n - 1));
        return pda;
    }
    template<typename W, TraceInfoType tit = TraceInfoType::Single, typename pda_t>
    auto make_aut(const pda_t& pda, const RPda& p, const RAut& a) {
        std::vector<size_t> accs; for (int i = 0; i < p.n; ++i) if (a.acc[i]) accs.push_back(i);
        pdaaal::PAutomaton<int,W,size_t,true,tit> r(pda, accs, true);
        for (int i = p.n; i < a.n; ++i) r.add_state(false, a.acc[i]);
        for (auto& [f,l,t] : a.edges) r.add_edge(f, t, pda.exists_label(LSHIFT + l).second);
        return r;
    }
    template<typename W, TraceInfoType tit = TraceInfoType::Single>
    auto make_instance(const RPda& p, const RAut& i, const RAut& f) {
        auto pda = make_pda<W>(p);
        auto ia = make_aut<W,tit>(pda, p, i); auto fa = make_aut<W,tit>(pda, p, f);
        return SolverInstance<int,W,size_t,true,tit>(std::move(pda), std::move(ia), std::move(fa));
    }
    template<typename Tr> std::vector<Conf> conv_trace(const Tr& tr) {
        std::vector<Conf> out;
        for (auto& s : tr) { Conf c; c.first = (int)s._pdastate; for (auto x : s._stack) c.second.push_back(x - LSHIFT); out.push_back(c); }
        return out;
    }
    inline std::string str(const std::vector<Conf>& t) { std::string s; for (auto& c : t) s += str(c) + " "; return s; }
}
#endif
