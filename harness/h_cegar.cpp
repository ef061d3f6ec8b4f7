// Abstraction refinement: partitions, mappings and the CEGAR loop, driven by a client that implements the concretisation interface.
#include "build_inst.h"
#include "re.h"
#include <pdaaal/cegar/CegarPdaFactory.h>
using namespace vf;
// ---------------------------------------------------------------- refinements
using PairV = std::vector<std::pair<int,int>>;
static std::string pv(const PairV& v) { std::string s; for (auto& [a, b] : v) s += "(" + std::to_string(a) + "," + std::to_string(b) + ")"; return s; }
template<typename T> static std::string lv(const std::vector<T>& v) { std::string s = "{"; for (auto& x : v) { std::ostringstream o; o << x; s += o.str() + " "; } return s + "}"; }
template<typename T> static std::string parts(const Refinement<T>& r) { std::string s; for (auto& p : r.partitions()) s += lv(p); return s; }
// class of each element; every element in at most one class
template<typename T> static std::map<T,int> classes(const Refinement<T>& r, const char* what) {
    std::map<T,int> m; int i = 0;
    for (auto& p : r.partitions()) { for (auto& x : p) if (!m.emplace(x, i).second) fail("refinement-partition", std::string(what) + ": an element is in two classes or twice in one: " + parts(r)); ++i; }
    return m;
}
template<typename A, typename B, typename MA, typename MB> static void pair_case(Rng& g, MA ma, MB mb) {
    int na = g.in(1, 6), nb = g.in(1, 6); std::set<std::pair<A,B>> all; std::map<std::pair<A,B>,int> side; std::set<A> wild;
    if (g.chance(35)) for (int a = 0; a < na; ++a) if (g.chance(30)) wild.insert(ma(a));
    std::vector<std::pair<A,B>> X, Y; int px = g.in(10, 60);
    for (int a = 0; a < na; ++a) for (int b = 0; b < nb; ++b) { if (wild.count(ma(a))) continue; int z = g.below(100); if (z < px) X.push_back({ma(a), mb(b)}); else if (z < px + 30) Y.push_back({ma(a), mb(b)}); }
    if (X.empty() || (Y.empty() && wild.empty())) return;
    auto shuffle = [&](auto& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t)g.below((int)i)]); if (g.chance(30)) v.push_back(v[(size_t)g.below((int)v.size())]); };
    shuffle(X); if (!Y.empty()) shuffle(Y); std::vector<A> W(wild.begin(), wild.end());
    std::ostringstream d; d << "X="; for (auto& [a, b] : X) d << "(" << a << "," << b << ")"; d << " Y="; for (auto& [a, b] : Y) d << "(" << a << "," << b << ")"; d << " Y*="; for (auto& a : W) d << a << " ";
    describe(d.str()); stats().sig(hash_str(d.str())); bool best = g.chance(70); size_t ia = (size_t)g.below(9), ib = (size_t)g.below(9);
    auto x = X; auto y = Y; auto w = W;
    auto [ra, rb] = best ? make_refinement<refinement_option_t::best_refinement>(std::move(x), std::move(y), ia, ib, std::move(w)) : make_refinement<refinement_option_t::fast_refinement>(std::move(x), std::move(y), ia, ib, std::move(w));
    if (ra.abstract_id != ia || rb.abstract_id != ib) fail("refinement-id", "the refinement is for another abstract value");
    auto ca = classes(ra, "first component"); auto cb = classes(rb, "second component"); size_t separated = 0, pairs = 0;
    std::set<A> as; std::set<B> bs; for (auto& [a, b] : X) { as.insert(a); bs.insert(b); } for (auto& [a, b] : Y) { as.insert(a); bs.insert(b); } as.insert(W.begin(), W.end());
    for (auto& [a, c] : ca) if (!as.count(a)) fail("refinement-partition", "a class contains a value that was not given"); for (auto& [b, c] : cb) if (!bs.count(b)) fail("refinement-partition", "a class contains a value that was not given");
    for (auto& p : ra.partitions()) if (p.empty()) fail("refinement-partition", "empty class"); for (auto& p : rb.partitions()) if (p.empty()) fail("refinement-partition", "empty class");
    if (best) for (auto& a : as) if (!ca.count(a)) fail("refinement-partition", "a value belongs to no class");
    auto sep = [](auto& m, auto& p, auto& q) { auto i = m.find(p), j = m.find(q); return i != m.end() && j != m.end() && i->second != j->second; };
    for (auto& [a, b] : X) { for (auto& [a2, b2] : Y) { ++pairs; if (sep(ca, a, a2) || sep(cb, b, b2)) ++separated; else if (best) { std::ostringstream o; o << "(" << a << "," << b << ") and (" << a2 << "," << b2 << ") are not separated: " << parts(ra) << " x " << parts(rb); fail("refinement-separation", o.str()); } }
        for (auto& a2 : W) { ++pairs; if (sep(ca, a, a2)) ++separated; else if (best) { std::ostringstream o; o << a << " and wildcard " << a2 << " are not separated: " << parts(ra); fail("refinement-separation", o.str()); } } }
    if (!separated) fail("refinement-separation", "nothing is separated: " + parts(ra) + " x " + parts(rb));
    stats().inc("pairs_separated", separated); stats().inc(best ? "best_refinements" : "fast_refinements"); if (ra.partitions().size() > 2 || rb.partitions().size() > 2) stats().inc("refinements_many_classes");
}
static void combine(Rng& g) {
    int n = g.in(2, 9); std::vector<std::pair<std::set<int>,std::set<int>>> splits; std::optional<Refinement<int>> r; HeaderRefinement<int> h; std::map<size_t,std::vector<std::pair<std::set<int>,std::set<int>>>> per; std::string d; int k = g.in(1, 6); bool header = g.chance(50);
    if (!h.empty()) fail("refinement-header", "a new header refinement is not empty");
    for (int i = 0; i < k; ++i) {
        std::set<int> a, b; int dens = g.in(15, 50); for (int x = 0; x < n; ++x) { int z = g.below(100); if (z < dens) a.insert(x); else if (z < 2 * dens) b.insert(x); } if (a.empty() || b.empty()) continue;
        size_t id = header ? (size_t)g.below(3) : 4; std::vector<int> va(a.begin(), a.end()), vb(b.begin(), b.end()); if (g.chance(50)) { std::reverse(va.begin(), va.end()); std::reverse(vb.begin(), vb.end()); }
        d += std::to_string(id) + ":" + lv(va) + "/" + lv(vb) + " "; describe("combine " + d); per[id].push_back({a, b});
        Refinement<int> x(std::move(va), std::move(vb), id);
        if (header) h.combine(std::move(x)); else if (!r) r.emplace(std::move(x)); else r->combine(std::move(x));
        auto check = [&](const Refinement<int>& q) { auto c = classes(q, "combined"); std::set<int> all; for (auto& p : q.partitions()) { if (p.empty()) fail("refinement-partition", "empty class"); if (!std::is_sorted(p.begin(), p.end())) fail("refinement-partition", "a class is not sorted"); }
            for (auto& [s, t] : per[q.abstract_id]) { all.insert(s.begin(), s.end()); all.insert(t.begin(), t.end()); for (int e : s) for (int f : t) { if (!c.count(e) || !c.count(f)) fail("refinement-partition", "a value was lost: " + parts(q)); if (c[e] == c[f]) fail("refinement-separation", "after combining, " + std::to_string(e) + " and " + std::to_string(f) + " share a class: " + parts(q)); stats().inc("pairs_separated"); } }
            if (c.size() != all.size()) fail("refinement-partition", "a class contains a value that was not given"); };
        if (header) { if (h.refinements().size() != per.size() || h.empty()) fail("refinement-header", "wrong number of refinements"); std::set<size_t> ids; for (auto& q : h.refinements()) { if (!ids.insert(q.abstract_id).second) fail("refinement-header", "two refinements of one abstract value"); check(q); } } else if (r) check(*r);
        stats().inc("combinations");
    }
    stats().sig(hash_str(d));
}
static void refinements(Rng& g, uint64_t) {
    for (int i = 0; i < 6; ++i) { pair_case<int,int>(g, [](int a) { return 10 - a; }, [](int b) { return b * 3 % 7; }); pair_case<size_t,std::string>(g, [](int a) { return (size_t)a * 5; }, [](int b) { return name(b); }); combine(g); }
}
// ---------------------------------------------------------------- abstraction mappings
template<typename C> static void mapping(Rng& g, const std::function<C(int)>& mkc) {
    int mod = g.in(1, 5); auto cls = [mod](int i) { return (i * 7 + 3) % mod; }; int range = g.in(1, 14); std::map<C,int> cl; for (int i = 0; i < range; ++i) cl[mkc(i)] = cls(i);
    AbstractionMapping<C,int> m(std::function<int(const C&)>([cl](const C& c) { return cl.at(c); })); std::map<C,size_t> ref; std::map<int,size_t> aid; std::string d = "mapping of " + std::to_string(range) + " values to " + std::to_string(mod) + ": ";
    for (int i = 0; i < 25; ++i) { int k = g.below(range); C c = mkc(k); auto ex = m.exists(c); if (ex.first != (ref.count(c) > 0) || (ex.first && ex.second != ref[c])) fail("mapping-exists", d); if (g.chance(70)) { d += std::to_string(k) + " "; auto [fresh, id] = m.insert(c); bool f = !aid.count(cl[c]); if (fresh != f) fail("mapping-insert", d + "freshness is wrong"); if (f) { if (id != aid.size()) fail("mapping-insert", d + "ids are not consecutive"); aid[cl[c]] = id; } if (id != aid[cl[c]]) fail("mapping-insert", d + "wrong abstract id"); ref[c] = id; }
        if (m.map(c) != cl[c]) fail("mapping-map", d); if (m.size() != aid.size()) fail("mapping-size", d); stats().inc("mapping_operations"); }
    for (auto& [a, id] : aid) { if (m.get_abstract_value(id) != a) fail("mapping-abstract", d); std::set<C> want; for (auto& [c, i] : ref) if (i == id) want.insert(c); auto v = m.get_concrete_values(a); if (std::set<C>(v.begin(), v.end()) != want || v.size() != want.size()) fail("mapping-concrete", d); std::set<C> got; for (const auto& c : m.get_concrete_values_range(a)) got.insert(c); if (got != want) fail("mapping-concrete", d + " (range)"); }
    if (!m.get_concrete_values(99).empty()) fail("mapping-concrete", "values for an unknown abstract value"); { bool any = false; for (const auto& c : m.get_concrete_values_range(99)) any = true; if (any) fail("mapping-concrete", "values for an unknown abstract value (range)"); }
    describe(d); stats().sig(hash_str(d)); if (ref.empty()) return;
    RefinementMapping<C> r(std::move(m)); size_t cnt = aid.size();
    auto check = [&]() { if (r.size() != cnt) fail("mapping-size", "after refinement"); std::map<size_t,std::set<C>> inv; for (auto& [c, i] : ref) { inv[i].insert(c); auto e = r.exists(c); if (!e.first || e.second != i || !r.maps_to(c, i) || r.maps_to(c, i + 1)) fail("mapping-refined", "a value maps to a wrong class"); }
        for (size_t i = 0; i < cnt; ++i) { auto v = r.get_concrete_values(i); if (std::set<C>(v.begin(), v.end()) != inv[i] || v.size() != inv[i].size()) fail("mapping-refined", "the members of a class are wrong"); std::set<C> got; for (const auto& c : r.get_concrete_values_range(i)) got.insert(c); if (got != inv[i]) fail("mapping-refined", "the members of a class are wrong (range)"); }
        std::vector<C> q; std::set<size_t> w; for (auto& [c, i] : ref) if (g.chance(40)) { q.push_back(c); w.insert(i); } if (r.encode_many(q) != std::vector<size_t>(w.begin(), w.end())) fail("mapping-encode", "encode_many"); if (r.exists(mkc(1000)).first) fail("mapping-refined", "an unknown value exists"); };
    check();
    for (int i = 0; i < 4; ++i) { size_t id = (size_t)g.below((int)cnt); std::vector<C> v; for (auto& [c, j] : ref) if (j == id) v.push_back(c); int k = g.in(1, 3); std::vector<std::vector<C>> ps((size_t)k); for (auto& c : v) { if (g.chance(15)) continue; ps[(size_t)g.below(k)].push_back(c); } Refinement<C> rf(id); for (auto& p : ps) if (!p.empty()) rf.partitions().push_back(p);
        // members of no class stay with one of them; every class but one gets a new id
        r.refine(rf); std::map<C,int> pc; int j = 0; for (auto& p : rf.partitions()) { for (auto& c : p) pc[c] = j; ++j; } auto old = ref; for (auto& c : v) ref[c] = r.exists(c).second; std::map<int,size_t> ids; size_t keep = 0; std::set<size_t> used;
        for (auto& c : v) { if (!pc.count(c)) { if (ref[c] != id) fail("mapping-refined", "a value outside the refinement moved"); continue; } auto [it, f] = ids.emplace(pc[c], ref[c]); if (it->second != ref[c]) fail("mapping-refined", "a class was torn apart"); if (f && !used.insert(ref[c]).second) fail("mapping-refined", "two classes share an id"); if (f && ref[c] == id) ++keep; if (f && ref[c] != id && (ref[c] < cnt || ref[c] >= cnt + rf.partitions().size())) fail("mapping-refined", "a new class does not get a new id"); }
        if (rf.partitions().size() > 1) { if (keep != 1) fail("mapping-refined", "not exactly one class keeps the id"); cnt += rf.partitions().size() - 1; } check(); stats().inc("mapping_refinements"); }
}
static void mappings(Rng& g, uint64_t) { mapping<int>(g, [](int i) { return 5 - 3 * i; }); mapping<size_t>(g, [](int i) { return (size_t)i * 97; }); mapping<std::string>(g, [](int i) { return name(i); }); }
// ---------------------------------------------------------------- the CEGAR loop
struct Concrete { RPda p; std::vector<size_t> init, acc; std::function<int(int)> lab_abs, st_abs; bool fast = false; mutable int rounds = 0; mutable std::vector<RRule> extra; /* abstract rules without a concrete counterpart */ };
struct Recon;
struct Fac : CegarPdaFactory<int> {
    using label_t = int; using base = CegarPdaFactory<int>;
    const Concrete& c; RefinementMapping<size_t> sm; std::vector<size_t> ai, aa;
    static std::unordered_set<int> labels(const Concrete& c) { std::unordered_set<int> l; for (int i = 0; i < c.p.m; ++i) l.insert(sym<int>(i)); return l; }
    explicit Fac(const Concrete& c) : base(labels(c), std::function<int(const int&)>([&c](const int& l) { return c.lab_abs(l); })), c(c) {
        AbstractionMapping<size_t,int> m(std::function<int(const size_t&)>([&c](const size_t& s) { return c.st_abs((int)s); })); for (int i = 0; i < c.p.n; ++i) m.insert((size_t)i); sm = RefinementMapping<size_t>(std::move(m)); }
    void build_pda() override {
        ai = sm.encode_many(c.init); aa = sm.encode_many(c.acc);
        std::vector<const RRule*> all; for (auto& r : c.p.rules) all.push_back(&r); for (auto& r : c.extra) all.push_back(&r);
        for (auto* q : all) { auto& r = *q; abstract_rule_t a; a._from = sm.exists((size_t)r.from).second; a._to = sm.exists((size_t)r.to).second; a._op = real_op(r.op); a._op_label = r.op == oPUSH || r.op == oSWAP ? (uint32_t)this->abstract_label(sym<int>(r.lab)).second : std::numeric_limits<uint32_t>::max();
            if (r.wild) { a._pre = 0; this->add_wildcard_rule(a); } else for (int x : r.pre) { a._pre = (uint32_t)this->abstract_label(sym<int>(x)).second; this->add_rule(a); } } }
    const std::vector<size_t>& initial() override { return ai; }
    const std::vector<size_t>& accepting() override { return aa; }
    template<typename R> void refine(R&& r) { if (++c.rounds > c.p.n + c.p.m + 3) fail("cegar-progress", "more refinement rounds than there are values to separate"); if constexpr (!std::is_same_v<std::decay_t<R>,HeaderRefinement<int>>) { if (r.index() == 1) { if (c.extra.empty()) fail("cegar-progress", "a rule is excluded twice"); c.extra.clear(); stats().inc("rules_excluded"); } else sm.refine(std::get<0>(r).first); } stats().inc("refinement_rounds"); }
};
struct Step { const RRule* r; int pre; Header<int> h; };
using Range = const std::vector<Step>&;
using CTrace = std::vector<typename PDA<int>::tracestate_t>;
struct Recon : CegarPdaReconstruction<int,size_t,Range,CTrace> {
    using label_t = int; using concrete_trace_t = CTrace; using base = CegarPdaReconstruction<int,size_t,Range,CTrace>; using refinement_t = typename base::refinement_t; using header_refinement_t = typename base::header_refinement_t;
    const Fac& f; std::deque<std::vector<Step>> store;
    Recon(const Fac& f, const product_t& inst, const NFA<int>& i, const NFA<int>& e) : base(inst, i, e), f(f) {}
    bool match(const RRule& r, const abstract_rule_t& a) const { if (real_op(r.op) != a._op || !f.sm.maps_to((size_t)r.from, a._from) || !f.sm.maps_to((size_t)r.to, a._to)) return false; return !(r.op == oPUSH || r.op == oSWAP) || this->label_maps_to(sym<int>(r.lab), a._op_label); }
    void steps(std::vector<Step>& out, const abstract_rule_t& a, size_t from, const Header<int>& h) {
        for (auto& r : f.c.p.rules) if ((size_t)r.from == from && match(r, a)) {
            if (r.wild) { bool pops = r.op == oPOP || r.op == oSWAP; std::vector<int> post; if (r.op == oPUSH || r.op == oSWAP) post = {sym<int>(r.lab)}; if (h.top_is_concrete() && !this->label_maps_to(h.concrete_part.back(), a._pre)) continue; auto [h2, pl] = this->update_header_wildcard_pre(h, post, pops ? 1 : 0); int pre = INT32_MAX; if (pops) { if (pl.size() != (h.top_is_concrete() ? 0u : 1u)) fail("cegar-header", "wrong number of labels chosen for popped wildcards"); pre = pl.empty() ? h.concrete_part.back() : pl[0]; } out.push_back({&r, pre, h2}); stats().inc("wildcard_steps"); }
            else for (int x : r.pre) { int l = sym<int>(x); if (!this->label_maps_to(l, a._pre)) continue; std::vector<int> post; if (r.op == oPUSH) post = {l, sym<int>(r.lab)}; else if (r.op == oSWAP) post = {sym<int>(r.lab)}; else if (r.op == oNOOP) post = {l};
                if (auto u = this->update_header(h, l, post)) out.push_back({&r, l, u->first}); }
        } }
    Range initial_concrete_rules(const abstract_rule_t& a) override { store.emplace_back(); for (auto s : f.c.init) if (f.sm.maps_to(s, a._from)) steps(store.back(), a, s, this->initial_header()); return store.back(); }
    Range search_concrete_rules(const abstract_rule_t& a, const Step& c) override { store.emplace_back(); steps(store.back(), a, (size_t)c.r->to, c.h); return store.back(); }
    refinement_t refinement(const abstract_rule_t& a, const std::vector<std::pair<size_t,Header<int>>>& at) {
        std::vector<std::pair<size_t,int>> X, Y; std::set<size_t> W;
        for (auto& [s, h] : at) if (f.sm.maps_to(s, a._from)) for (int l : this->pre_labels(h)) if (this->label_maps_to(l, a._pre)) X.emplace_back(s, l);
        for (auto& r : f.c.p.rules) if (match(r, a) && r.wild) W.insert((size_t)r.from);
        for (auto& r : f.c.p.rules) if (match(r, a) && !r.wild && !W.count((size_t)r.from)) for (int x : r.pre) if (this->label_maps_to(sym<int>(x), a._pre)) Y.emplace_back((size_t)r.from, sym<int>(x));
        if (X.empty()) fail("cegar-header", "no label is possible where the abstract run applies a rule"); if (Y.empty() && W.empty() && !f.c.extra.empty()) return refinement_t(a); if (Y.empty() && W.empty()) fail("cegar-spurious", "an abstract rule without concrete rule");
        std::vector<size_t> w(W.begin(), W.end()); stats().inc("pair_refinements");
        if (f.c.fast) return make_refinement<refinement_option_t::fast_refinement>(std::move(X), std::move(Y), a._from, a._pre, std::move(w)); return make_refinement<refinement_option_t::best_refinement>(std::move(X), std::move(Y), a._from, a._pre, std::move(w)); }
    refinement_t find_initial_refinement(const abstract_rule_t& a) override { std::vector<std::pair<size_t,Header<int>>> at; for (auto s : f.c.init) at.push_back({s, this->initial_header()}); return refinement(a, at); }
    refinement_t find_refinement(const abstract_rule_t& a, const std::vector<Step>& cs) override { std::vector<std::pair<size_t,Header<int>>> at; for (auto& c : cs) at.push_back({(size_t)c.r->to, c.h}); return refinement(a, at); }
    Header<int> get_header(const Step& c) override { return c.h; }
    CTrace get_concrete_trace(std::vector<Step>&& cs, std::vector<int>&& stack, size_t abs) override { // stack: bottom to top
        CTrace t; for (size_t i = cs.size(); i-- > 0;) { t.emplace_back(); t.back()._pdastate = (size_t)cs[i].r->to; t.back()._stack.assign(stack.rbegin(), stack.rend()); if (stack.empty() && cs[i].r->op != oPOP) fail("cegar-header", "the final header is too short for the run");
            switch (cs[i].r->op) { case oPOP: stack.push_back(cs[i].pre); break; case oSWAP: stack.back() = cs[i].pre; break; case oPUSH: stack.pop_back(); break; default: break; } }
        t.emplace_back(); if (cs.empty()) { for (auto s : f.c.init) if (f.sm.maps_to(s, abs)) t.back()._pdastate = s; } else t.back()._pdastate = (size_t)cs[0].r->from; t.back()._stack.assign(stack.rbegin(), stack.rend()); std::reverse(t.begin(), t.end()); return t; }
};
// A configuration accepted by an automaton, found by a random walk.
static std::optional<Conf> some_conf(Rng& g, const RAut& a, int n) { for (int t = 0; t < 60; ++t) { Conf c{g.below(n), {}}; int q = c.first; while (c.second.size() < 9) { if (a.acc[(size_t)q] && g.chance(60)) return c; std::vector<std::pair<int,int>> o; for (auto& [x, l, y] : a.edges) if (x == q) o.push_back({l, y}); if (o.empty()) break; auto [l, y] = o[(size_t)g.below((int)o.size())]; c.second.push_back(l); q = y; } if (a.acc[(size_t)q]) return c; } return std::nullopt; }
static ReP word_re(Rng& g, const Conf& c, int m) { auto r = mk(Re::EPS); bool any = true; for (int l : c.second) { auto s = mk(Re::SET); s->s.insert(l); if (g.chance(12)) s->s.insert(g.below(m)); r = any ? s : mk(Re::CAT, r, s); any = false; } return r; }
template<bool pre, bool dual> static void cegar(Rng& g, uint64_t) {
    GenOpts o; o.max_states = 5; o.max_labels = 5; o.max_rules = 12; o.scale = g.chance(15); Concrete c; c.p = gen_pda(g, o); auto& p = c.p;
    std::set<int> in, fi; for (int i = 0; i < p.n; ++i) { if (g.chance(35)) in.insert(i); if (g.chance(35)) fi.insert(i); } if (in.empty()) in.insert(g.below(p.n)); if (fi.empty()) fi.insert(g.below(p.n));
    std::optional<Conf> from, to; if (g.chance(45)) { auto [q, qi, qf] = gen_runs(g, o); from = some_conf(g, qi, q.n); to = some_conf(g, qf, q.n); if (from && to) { p = q; in = {from->first}; fi = {to->first}; if (g.chance(30)) in.insert(g.below(p.n)); if (g.chance(30)) fi.insert(g.below(p.n)); stats().inc("run_shaped"); } }
    c.init.assign(in.begin(), in.end()); c.acc.assign(fi.begin(), fi.end()); int ms = g.in(1, 4), ml = g.in(1, 4), sa = g.below(7), sb = g.below(7); c.fast = g.chance(30);
    c.lab_abs = [=](int l) { return (((5 - l) / 3) * 5 + sa) % 11 % ml; }; c.st_abs = [=](int s) { return ((s * 3 + sb) % 11 % ms) * 4 + (in.count(s) ? 2 : 0) + (fi.count(s) ? 1 : 0); };
    auto r1 = gen(g, p.m, g.in(0, 3), false), r2 = gen(g, p.m, g.in(0, 3), false); if (g.chance(50)) { auto any = mk(Re::SET); any->neg = true; r2 = mk(Re::CAT, r2, mk(Re::STAR, any)); }
    if (from && to) { r1 = word_re(g, *from, p.m); r2 = word_re(g, *to, p.m); if (g.chance(20)) { auto any = mk(Re::SET); any->neg = true; auto st = mk(Re::STAR, any); r1 = mk(Re::CAT, r1, st); r2 = mk(Re::CAT, r2, st); } }
    if (g.chance(30)) { GenOpts e = o; e.max_rules = 3; e.scale = false; auto q = gen_pda(g, e); for (auto r : q.rules) { r.from %= p.n; r.to %= p.n; r.lab %= p.m; std::set<int> pr; for (int x : r.pre) pr.insert(x % p.m); r.pre.assign(pr.begin(), pr.end()); c.extra.push_back(r); } }
    auto show = [](const std::set<int>& s) { std::string o; for (int x : s) o += std::to_string(x) + ","; return o; };
    std::string ex; if (!c.extra.empty()) { RPda q = p; q.rules = c.extra; ex = " plus abstract " + str(q); }
    describe(str(p) + ex + " init={" + show(in) + "}x" + plain(r1) + " final={" + show(fi) + "}x" + plain(r2) + " label classes " + std::to_string(ml) + "/" + std::to_string(sa) + " state classes " + std::to_string(ms) + "/" + std::to_string(sb) + (c.fast ? " fast" : " best")); stats().sig(hash_str(current()));
    auto i = re_aut(p, r1, in), f = re_aut(p, r2, fi); RPda p0 = p; for (auto& x : p0.rules) x.w = 0; auto ref = ref_solve(p0, i, f);
    auto n1 = build<int>(r1, g); n1.compile(); auto n2 = build<int>(r2, g); n2.compile();
    CEGAR<Fac,Recon> solver; auto res = solver.template cegar_solve<pre,dual>(Fac(c), n1, n2);
    stats().inc(ref.reach ? "oracle_reachable" : "oracle_unreachable"); if (c.rounds) stats().inc(ref.reach ? "refined_reachable" : "refined_unreachable");
    if (res.has_value() != ref.reach) fail("cegar-verdict", std::string("CEGAR answered ") + (res ? "reachable" : "unreachable") + " after " + std::to_string(c.rounds) + " rounds, reference says the opposite");
    if (res) { std::vector<Conf> t; for (auto& s : *res) { Conf k{(int)s._pdastate, {}}; for (int l : s._stack) { if (l > 5 || (5 - l) % 3) fail("cegar-trace", "a label that does not exist"); k.second.push_back((5 - l) / 3); } t.push_back(k); } long w; auto e = check_trace(p, i, f, t, w); if (!e.empty()) fail("cegar-trace", e + " trace=" + str(t)); stats().inc("concrete_traces"); if (t.size() > 1) stats().inc("nontrivial_traces"); }
}
int main(int argc, char** argv) { return main_driver(argc, argv, { {"refinements", refinements, 1}, {"mappings", mappings, 1}, {"cegar_post", cegar<false,false>, 2}, {"cegar_pre", cegar<true,false>, 2}, {"cegar_dual", cegar<false,true>, 2} }); }
