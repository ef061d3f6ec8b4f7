// Independent reference semantics for pushdown systems (the oracle). Deliberately naive: explicit
// transition tables and Kleene iteration, no data structure or algorithm shared with PDAAAL.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include "common.h"
namespace vf {
    enum Op { oPUSH, oPOP, oSWAP, oNOOP };
    struct RRule { int from; std::vector<int> pre; bool wild; int to; Op op; int lab; long w; };
    struct RCore;
    struct RPda { int n = 0, m = 0; std::vector<RRule> rules; std::shared_ptr<const RCore> core; }; // core: an equivalent smaller problem (see enlarge)
    struct RAut { // P-automaton: states 0..n-1 are the PDA states, then extra; epsilon free
        int n = 0; std::set<std::tuple<int,int,int>> edges; std::vector<char> acc;
        int add(bool a) { acc.push_back(a); return n++; }
    };
    struct RCore { RPda p; RAut i, f; };
    using Conf = std::pair<int, std::vector<int>>;
    inline const char* op_name(Op o) { static const char* n[] = {"push","pop","swap","noop"}; return n[o]; }
    inline std::string str(const RPda& p) {
        std::stringstream s; s << "pda(states=" << p.n << ",labels=" << p.m << "){";
        for (auto& r : p.rules) {
            s << r.from << "<"; if (r.wild) s << "*"; else for (size_t i = 0; i < r.pre.size(); ++i) s << (i ? "," : "") << r.pre[i];
            s << ">->" << r.to << ":" << op_name(r.op); if (r.op == oPUSH || r.op == oSWAP) s << " " << r.lab; if (r.w) s << " w=" << r.w; s << "; ";
        }
        s << "}"; return s.str();
    }
    inline std::string str(const RAut& a) {
        std::stringstream s; s << "aut{"; for (auto& [f,l,t] : a.edges) s << f << "-" << l << "->" << t << " "; s << "acc:"; for (int i = 0; i < a.n; ++i) if (a.acc[i]) s << i << ","; s << "}"; return s.str();
    }
    inline std::string str(const Conf& c) { std::stringstream s; s << "<" << c.first << ","; for (auto x : c.second) s << x << " "; s << ">"; return s.str(); }

    inline bool accepts(const RAut& a, const Conf& c) {
        std::set<int> cur{c.first};
        for (int l : c.second) { std::set<int> nx; for (auto& [f,x,t] : a.edges) if (x == l && cur.count(f)) nx.insert(t); cur.swap(nx); }
        for (int s : cur) if (a.acc[s]) return true;
        return false;
    }
    inline bool pre_has(const RRule& r, int l) { return r.wild || std::find(r.pre.begin(), r.pre.end(), l) != r.pre.end(); }
    // successors of a configuration with rule weights
    inline std::vector<std::pair<Conf,long>> succ(const RPda& p, const Conf& c) {
        std::vector<std::pair<Conf,long>> out;
        if (c.second.empty()) return out;
        for (auto& r : p.rules) if (r.from == c.first && pre_has(r, c.second[0])) {
            Conf d{r.to, c.second};
            switch (r.op) {
                case oPUSH: d.second.insert(d.second.begin(), r.lab); break;
                case oPOP: d.second.erase(d.second.begin()); break;
                case oSWAP: d.second[0] = r.lab; break;
                case oNOOP: break;
            }
            out.emplace_back(d, r.w);
        }
        return out;
    }
    constexpr long RINF = std::numeric_limits<long>::max() / 4;     // unreachable
    constexpr long RNEG = -RINF;                                   // unbounded
    inline long radd(long a, long b) { if (a >= RINF || b >= RINF) return RINF; if (a <= RNEG || b <= RNEG) return RNEG; return a + b; }
    using Trans = std::map<std::tuple<int,int,int>, long>;
    // Weighted pre* (min-plus): weight of (p,g,q) = infimum over rewriting sequences from <p,g> to the automaton path into q.
    // Values that can still decrease after |transitions| Kleene rounds are unbounded (derivation-tree pumping).
    inline Trans ref_pre_star(const RPda& p, const RAut& a, int sign = 1) {
        Trans t;
        for (auto& e : a.edges) t[e] = 0;
        auto bucket = [&](const Trans& tr) { std::map<std::pair<int,int>, std::vector<std::pair<int,long>>> b; for (auto& [k,w] : tr) b[{std::get<0>(k),std::get<1>(k)}].push_back({std::get<2>(k),w}); return b; };
        size_t round = 0; bool stable_support = false; size_t rounds_since = 0;
        while (true) {
            auto b = bucket(t); Trans nt = t; bool changed = false, grew = false;
            bool bottom = stable_support && rounds_since > t.size() + 1;
            auto upd = [&](int f, int l, int to, long w) {
                auto k = std::make_tuple(f,l,to); auto it = nt.find(k);
                if (it == nt.end()) { nt[k] = w; changed = grew = true; }
                else if (w < it->second) { it->second = bottom ? RNEG : w; changed = true; }
            };
            for (auto& r : p.rules) {
                std::vector<int> pre = r.pre; if (r.wild) { pre.resize(p.m); std::iota(pre.begin(), pre.end(), 0); }
                for (int g : pre) {
                    long w = sign * r.w;
                    switch (r.op) {
                        case oPOP: upd(r.from, g, r.to, w); break;
                        case oSWAP: case oNOOP: { auto it = b.find({r.to, r.op == oSWAP ? r.lab : g}); if (it != b.end()) for (auto& [q,x] : it->second) upd(r.from, g, q, radd(w, x)); break; }
                        case oPUSH: { auto it = b.find({r.to, r.lab}); if (it != b.end()) for (auto& [q1,x] : it->second) { auto it2 = b.find({q1, g}); if (it2 != b.end()) for (auto& [q2,y] : it2->second) upd(r.from, g, q2, radd(radd(w, x), y)); } break; }
                    }
                }
            }
            t.swap(nt); ++round;
            if (!changed) break;
            if (grew) { stable_support = false; rounds_since = 0; } else { stable_support = true; ++rounds_since; }
            if (round > 100000) { std::fprintf(stderr, "oracle did not converge\n"); std::_Exit(3); }
        }
        return t;
    }
    struct RResult { bool reach; long best; }; // best in the (possibly negated) min-plus domain; RNEG = unbounded
    // Is some configuration of `init` able to reach `fin`; and the best total rule weight.
    inline RResult ref_solve(const RPda& p, const RAut& init, const RAut& fin, int sign = 1) {
        if (p.core) { // solved where it is small; without weights if the caller took them away
            RPda q = p.core->p; bool weights = false; for (auto& x : p.rules) weights |= x.w != 0; if (!weights) for (auto& x : q.rules) x.w = 0; return ref_solve(q, p.core->i, p.core->f, sign); }
        auto t = ref_pre_star(p, fin, sign);
        std::map<std::pair<int,int>, long> d;
        for (int i = 0; i < p.n; ++i) d[{i,i}] = 0;
        // reachable product nodes first
        std::map<int, std::vector<std::pair<int,int>>> ie; for (auto& [f,l,to] : init.edges) ie[f].push_back({l,to});
        std::map<std::pair<int,int>, std::vector<std::pair<int,long>>> b; for (auto& [k,w] : t) b[{std::get<0>(k),std::get<1>(k)}].push_back({std::get<2>(k),w});
        std::set<std::pair<int,int>> nodes; for (int i = 0; i < p.n; ++i) nodes.insert({i,i});
        std::vector<std::pair<int,int>> wl(nodes.begin(), nodes.end());
        while (!wl.empty()) { auto [x,y] = wl.back(); wl.pop_back(); for (auto& [l,x2] : ie[x]) { auto it = b.find({y,l}); if (it != b.end()) for (auto& [y2,w] : it->second) if (nodes.insert({x2,y2}).second) wl.push_back({x2,y2}); } }
        size_t rounds = 0;
        while (true) {
            bool ch = false; auto nd = d; bool bottom = rounds > nodes.size() + 1;
            for (auto& [xy, w0] : d) for (auto& [l,x2] : ie[xy.first]) { auto it = b.find({xy.second,l}); if (it != b.end()) for (auto& [y2,w] : it->second) {
                long nw = radd(w0, w); auto k = std::make_pair(x2,y2); auto f = nd.find(k);
                if (f == nd.end()) { nd[k] = nw; ch = true; } else if (nw < f->second) { f->second = bottom ? RNEG : nw; ch = true; } } }
            d.swap(nd); ++rounds; if (!ch) break;
            if (rounds > 100000) { std::fprintf(stderr, "oracle did not converge\n"); std::_Exit(3); }
        }
        RResult r{false, RINF};
        for (auto& [xy, w] : d) if (init.acc[xy.first] && fin.acc[xy.second]) { r.reach = true; r.best = std::min(r.best, w); }
        return r;
    }
    // Trace monitor. Returns empty string if the trace is a legal run, else the reason; min_w = cheapest total weight of rules matching the steps.
    inline std::string check_trace(const RPda& p, const RAut& init, const RAut& fin, const std::vector<Conf>& tr, long& min_w, int sign = 1) {
        if (tr.empty()) return "empty trace";
        if (!accepts(init, tr.front())) return "first configuration " + str(tr.front()) + " is not accepted by the initial automaton";
        if (!accepts(fin, tr.back())) return "last configuration " + str(tr.back()) + " is not accepted by the final automaton";
        min_w = 0;
        for (size_t i = 0; i + 1 < tr.size(); ++i) {
            long best = RINF;
            for (auto& [c,w] : succ(p, tr[i])) if (c == tr[i+1]) best = std::min(best, sign * w);
            if (best >= RINF) return "step " + std::to_string(i) + " from " + str(tr[i]) + " to " + str(tr[i+1]) + " is not justified by any rule";
            min_w += best;
        }
        return "";
    }
    // ---- generators ----
    struct GenOpts { int max_states = 5, max_labels = 4, max_rules = 14, wmin = 0, wmax = 0; bool scale = true, pairs = false, grow = true; }; // pairs: weights of two components, WB apart
    constexpr long WB = 1L << 20;
    inline RPda gen_pda(Rng& r, GenOpts o) {
        int z0 = r.below(100); bool proc = false;
        if (o.scale) { // size profile: mostly small (dense coverage), some medium, few large; some shaped like recursive programs
            if (z0 >= 96) { o.max_states = 14; o.max_labels = 12; o.max_rules = 45; }
            else if (z0 >= 84) { o.max_states = 8; o.max_labels = 6; o.max_rules = 25; }
            else if (z0 >= 76) { o.max_states = 2; o.max_labels = 10; o.max_rules = 22; proc = true; }
        }
        RPda p; p.n = r.in(1, o.max_states); p.m = r.in(1, o.max_labels);
        int k = r.chance(40) ? r.in(1, o.max_rules) : r.in(o.max_rules / 2, o.max_rules * 3 / 2); int style = r.below(4);
        auto w = [&]() -> long { if (o.wmax <= o.wmin) return 0; long x = r.in(o.wmin, o.wmax); return o.pairs ? x * WB + r.in(o.wmin, o.wmax) : x; };
        if (proc) { // labels are program points: straight-line code, calls (swap the return point below, push the callee), returns
            p.m = std::max(p.m, 4); p.n = r.in(1, 3);
            for (int l = 0; l < p.m; ++l) { int c = r.chance(25) ? 2 : 1; for (int j = 0; j < c; ++j) {
                int s = r.below(p.n), t = r.below(p.n); int z = r.below(100);
                if (z < 35) p.rules.push_back({s, {l}, false, t, oSWAP, r.below(p.m), w()});
                else if (z < 65) p.rules.push_back({s, {l}, false, t, oPUSH, r.below(p.m), w()});
                else if (z < 92) p.rules.push_back({s, {l}, false, t, oPOP, 0, w()});
                else p.rules.push_back({s, {l}, false, t, oNOOP, 0, w()}); } }
            return p;
        }
        for (int i = 0; i < k; ++i) {
            RRule x; x.from = r.below(p.n); x.to = style == 3 ? std::min(p.n - 1, x.from + r.below(2)) : r.below(p.n);
            int z = r.below(100);
            if (style == 0) x.op = z < 25 ? oPUSH : z < 50 ? oPOP : z < 75 ? oSWAP : oNOOP;
            else if (style == 1) x.op = z < 45 ? oPUSH : z < 90 ? oPOP : z < 95 ? oSWAP : oNOOP;
            else if (style == 2) x.op = z < 40 ? oPUSH : z < 60 ? oPOP : z < 90 ? oSWAP : oNOOP;
            else x.op = z < 30 ? oPUSH : z < 70 ? oPOP : z < 80 ? oSWAP : oNOOP;
            x.lab = (x.op == oPUSH || x.op == oSWAP) ? r.below(p.m) : 0;
            x.wild = r.chance(12);
            if (!x.wild) { int c = r.chance(70) ? 1 : r.in(1, p.m); std::set<int> s; for (int j = 0; j < c; ++j) s.insert(r.below(p.m)); x.pre.assign(s.begin(), s.end()); }
            x.w = w();
            p.rules.push_back(x);
            if (i + 1 < k && r.chance(6)) { // the same step again, with another label set or weight
                RRule y = x; y.w = w(); if (r.chance(50)) { y.wild = false; y.pre = {r.below(p.m)}; } p.rules.push_back(y); ++i;
            }
        }
        return p;
    }
    // P-automaton without edges into PDA states and without epsilon.
    inline RAut gen_aut(Rng& r, const RPda& p, int max_extra = 3) {
        if (r.chance(10)) max_extra += 4;
        RAut a; bool eps_acc = r.chance(15);
        for (int i = 0; i < p.n; ++i) a.add(eps_acc && r.chance(40));
        int extra = r.in(eps_acc ? 0 : 1, max_extra);
        for (int i = 0; i < extra; ++i) a.add(i == extra - 1 || r.chance(25));
        if (extra) {
            int roots = r.chance(60) ? 1 : r.in(1, p.n);
            for (int i = 0; i < roots; ++i) { int f = r.below(p.n); int c = r.chance(70) ? 1 : 2; for (int j = 0; j < c; ++j) a.edges.insert({f, r.below(p.m), p.n + r.below(extra)}); }
            int e = r.below(extra * 2 + 1);
            for (int i = 0; i < e; ++i) a.edges.insert({p.n + r.below(extra), r.below(p.m), p.n + r.below(extra)});
            for (int i = 0; i + 1 < extra; ++i) if (r.chance(60)) a.edges.insert({p.n + i, r.below(p.m), p.n + i + 1});
        }
        return a;
    }
    // Some configuration accepted by the automaton (random walk), if one is found.
    inline bool sample_conf(Rng& r, const RPda& p, const RAut& a, Conf& c, int max_len = 6) {
        for (int tries = 0; tries < 12; ++tries) {
            int s = r.below(p.n); c = {s, {}};
            for (int k = 0; k <= max_len; ++k) {
                if (a.acc[s] && (k == max_len || r.chance(50))) return true;
                std::vector<std::pair<int,int>> out; for (auto& [f,l,t] : a.edges) if (f == s) out.push_back({l,t});
                if (out.empty()) { if (a.acc[s]) return true; break; }
                auto [l,t] = out[r.below((int)out.size())]; c.second.push_back(l); s = t;
            }
        }
        return false;
    }
    // Initial and final automata. Half of the time the final set is built around a configuration found by running the
    // system from an initial one, so that deep reachable targets are common.
    inline std::pair<RAut,RAut> gen_pair(Rng& r, const RPda& p) {
        RAut i = gen_aut(r, p), f = gen_aut(r, p); Conf c;
        if (r.chance(50) && sample_conf(r, p, i, c)) {
            Conf best = c; int steps = r.in(2, 14);
            for (int k = 0; k < steps; ++k) { auto n = succ(p, c); if (n.empty()) break; c = n[r.below((int)n.size())].first; if (c.second.size() > 7) break; if (!c.second.empty() || r.chance(20)) best = c; }
            RAut g; for (int k = 0; k < p.n; ++k) g.add(false);
            int cur = best.first; size_t len = best.second.size(); size_t cut = r.chance(30) ? r.below((int)len + 1) : len; // possibly only a prefix, then anything
            for (size_t k = 0; k < cut; ++k) { int n = g.add(false); g.edges.insert({cur, best.second[k], n}); cur = n; }
            if (cut < len || r.chance(15)) { int n = cur; if (n < p.n) { n = g.add(false); for (int l = 0; l < p.m; ++l) g.edges.insert({cur, l, n}); } for (int l = 0; l < p.m; ++l) g.edges.insert({n, l, n}); g.acc[n] = 1; if (cut == 0 && r.chance(50)) g.acc[cur] = 1; }
            else g.acc[cur] = 1;
            f = g;
        }
        return {i, f};
    }
    // A sparse system grown along one to three runs: nearly every rule is needed for the verdict, and the runs are long.
    inline std::tuple<RPda,RAut,RAut> gen_runs(Rng& r, const GenOpts& o) {
        RPda p; p.n = r.in(2, 11); p.m = r.chance(50) ? 2 : r.in(1, 5); RAut i, f; for (int k = 0; k < p.n; ++k) { i.add(false); f.add(false); }
        auto w = [&]() -> long { if (o.wmax <= o.wmin) return 0; long x = r.in(o.wmin, o.wmax); return o.pairs ? x * WB + r.in(o.wmin, o.wmax) : x; };
        auto path = [&](RAut& a, const Conf& c, bool open) { int cur = c.first; for (int l : c.second) { int nx = -1; if (r.chance(60)) for (auto& [x,y,z] : a.edges) if (x == cur && y == l) nx = z; if (nx < 0) { nx = a.add(false); a.edges.insert({cur, l, nx}); } cur = nx; } a.acc[cur] = true; if (open && cur >= p.n) for (int l = 0; l < p.m; ++l) a.edges.insert({cur, l, cur}); };
        int used = 0, runs = r.chance(60) ? 1 : r.in(1, 3); auto state = [&] { return used == 0 || (used < p.n && r.chance(65)) ? used++ : r.below(used); };
        Conf start; start.first = state(); for (int k = r.chance(80) ? r.in(1, 4) : r.in(0, 8); k > 0; --k) start.second.push_back(r.below(p.m)); path(i, start, r.chance(10));
        for (int q = 0; q < runs; ++q) {
            Conf c = start; int steps = r.chance(85) ? r.in(1, 14) : r.in(10, 40), bias = r.below(3);
            for (int k = 0; k < steps && !c.second.empty(); ++k) {
                if (r.chance(q ? 35 : 15)) { auto s = succ(p, c); if (!s.empty()) { c = s[r.below((int)s.size())].first; continue; } } // along rules that are there already
                RRule x; x.from = c.first; x.to = state(); int top = c.second[0]; x.wild = r.chance(8); if (!x.wild) { x.pre = {top}; for (int l = 0; l < p.m; ++l) if (l != top && r.chance(8)) x.pre.push_back(l); std::sort(x.pre.begin(), x.pre.end()); }
                x.w = w(); x.lab = 0; int z = r.below(100), pu = bias == 0 ? 35 : bias == 1 ? 20 : 45, po = bias == 0 ? 65 : bias == 1 ? 60 : 65;
                x.op = z < pu && c.second.size() < 9 ? oPUSH : z < po ? oPOP : z < 88 ? oSWAP : oNOOP; if (x.op == oPUSH || x.op == oSWAP) x.lab = r.below(p.m);
                if (x.op == oPOP && c.second.size() == 1 && k + 1 < steps && r.chance(80)) { x.op = oSWAP; x.lab = r.below(p.m); }
                p.rules.push_back(x); c.first = x.to; if (x.op == oPUSH) c.second.insert(c.second.begin(), x.lab); else if (x.op == oPOP) c.second.erase(c.second.begin()); else if (x.op == oSWAP) c.second[0] = x.lab; }
            if (r.chance(10) && !c.second.empty()) c.second[r.below((int)c.second.size())] = r.below(p.m); // sometimes just miss
            path(f, c, r.chance(20)); }
        for (int k = r.below(4); k > 0; --k) { RRule x; x.from = r.below(p.n); x.to = r.below(p.n); x.wild = r.chance(10); if (!x.wild) x.pre = {r.below(p.m)}; x.op = (Op)r.below(4); x.lab = x.op == oPUSH || x.op == oSWAP ? r.below(p.m) : 0; x.w = w(); p.rules.push_back(x); }
        if (p.rules.empty()) p.rules.push_back({0, {0}, false, 0, oNOOP, 0, w()});
        for (int k = (int)p.rules.size() - 1; k > 0; --k) std::swap(p.rules[k], p.rules[r.below(k + 1)]); // the order of the rules tells nothing
        std::vector<int> ids(p.n); std::iota(ids.begin(), ids.end(), 0); for (int k = p.n - 1; k > 0; --k) std::swap(ids[k], ids[r.below(k + 1)]); auto id = [&](int s) { return s < p.n ? ids[s] : s; };
        for (auto& x : p.rules) { x.from = id(x.from); x.to = id(x.to); }
        for (RAut* a : {&i, &f}) { auto e = a->edges; a->edges.clear(); for (auto& [x,y,z] : e) a->edges.insert({id(x), y, id(z)}); auto acc = a->acc; for (int s = 0; s < p.n; ++s) a->acc[ids[s]] = acc[s]; }
        return {p, i, f};
    }
    // The same problem in a bigger world: rules drawn out into chains, unused states and labels in between, a common
    // rest at the bottom of every stack. Every run has exactly one counterpart of the same weight.
    // `only_ids`: labels keep their ids and nothing is added below the stacks. Returns the new ids of the states.
    inline std::vector<int> grow(Rng& r, RPda& p, std::vector<RAut*> auts, bool gentle, bool only_ids = false) {
        int n0 = p.n, m0 = p.m; auto size = [&]() { int z = r.below(100); return z < 40 ? r.in(1, 30) : z < 70 ? r.in(30, gentle ? 70 : 140) : gentle ? r.in(30, 70) : r.in(140, 400); };
        int extra = r.chance(60) ? size() : 0, labels = r.chance(50) ? size() : 0, bottom = !only_ids && r.chance(40) ? (r.chance(70) ? r.in(1, 12) : r.in(12, gentle ? 20 : 90)) : 0, chain = r.chance(60) ? r.in(1, gentle ? 15 : 60) : 0; if (!extra && !labels && !bottom && !chain) extra = 70;
        if (bottom) for (auto& x : p.rules) if (x.wild) { x.wild = false; x.pre.clear(); for (int l = 0; l < m0; ++l) x.pre.push_back(l); }
        std::vector<RRule> rules; for (auto& x : p.rules) { if (!chain || !r.chance(30)) { rules.push_back(x); continue; } // the weight moves to some step of the chain
            int len = r.in(1, chain), at = r.in(0, len), cur = x.from; for (int k = 0; k < len; ++k) { rules.push_back({cur, x.pre, x.wild, p.n, oNOOP, 0, k == at ? x.w : 0}); cur = p.n++; } auto y = x; y.from = cur; if (at < len) y.w = 0; rules.push_back(y); if (p.n > (gentle ? 100 : 600)) chain = 0; }
        p.rules = rules; p.n += extra; p.m += labels; int bl = -1; if (bottom) bl = p.m++;
        std::vector<int> sid(p.n), lid(p.m); std::iota(sid.begin(), sid.end(), 0); std::iota(lid.begin(), lid.end(), 0); for (int k = p.n - 1; k > 0; --k) std::swap(sid[k], sid[r.below(k + 1)]); if (!only_ids) for (int k = p.m - 1; k > 0; --k) std::swap(lid[k], lid[r.below(k + 1)]); // ids from the whole range
        for (auto& x : p.rules) { x.from = sid[x.from]; x.to = sid[x.to]; for (auto& l : x.pre) l = lid[l]; std::sort(x.pre.begin(), x.pre.end()); if (x.op == oPUSH || x.op == oSWAP) x.lab = lid[x.lab]; }
        for (RAut* a : auts) { RAut b; b.n = a->n - n0 + p.n; b.acc.assign((size_t)b.n, 0); auto id = [&](int s) { return s < n0 ? sid[s] : s - n0 + p.n; }; for (auto& [x, l, y] : a->edges) b.edges.insert({id(x), lid[l], id(y)}); for (int s = 0; s < a->n; ++s) b.acc[(size_t)id(s)] = a->acc[(size_t)s];
            if (bottom) { std::vector<int> ends; for (int s = 0; s < b.n; ++s) if (b.acc[(size_t)s]) { ends.push_back(s); b.acc[(size_t)s] = 0; } int nx = b.add(false); for (int s : ends) b.edges.insert({s, lid[bl], nx}); for (int k = 1; k < bottom; ++k) { int y = b.add(false); b.edges.insert({nx, lid[bl], y}); nx = y; } b.acc[(size_t)nx] = 1; } *a = b; }
        stats().inc("enlarged"); if (p.n > 64) stats().inc("over_64_states"); if (p.n > 256) stats().inc("over_256_states"); if (p.m > 64) stats().inc("over_64_labels"); if (p.m > 256) stats().inc("over_256_labels"); if (bottom > 12) stats().inc("deep_stacks"); return sid;
    }
    inline std::tuple<RPda,RAut,RAut> enlarge(Rng& r, const std::tuple<RPda,RAut,RAut>& small, bool gentle) {
        auto [p, i, f] = small; auto core = std::make_shared<RCore>(RCore{p, i, f}); grow(r, p, {&i, &f}, gentle); p.core = core; return {p, i, f};
    }
    inline std::tuple<RPda,RAut,RAut> gen_problem(Rng& r, const GenOpts& o) {
        bool big = o.grow && r.chance(o.scale ? 6 : 2);
        if (o.scale && r.chance(30)) { auto t = gen_runs(r, o); return big ? enlarge(r, t, false) : t; }
        auto p = gen_pda(r, o); auto [i, f] = gen_pair(r, p); std::tuple<RPda,RAut,RAut> t{p, i, f}; return big ? enlarge(r, t, p.rules.size() > 12) : t;
    }
}
#endif
