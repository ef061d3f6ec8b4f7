// Random problem instances as documents in the textual formats of the README, written by an independent serialiser.
#ifndef VERIF_JSON_DOC_H
#define VERIF_JSON_DOC_H
#include "ref.h"
namespace vf {
    enum WT { wNone, wUint, wInt, wVecUint, wVecInt };
    inline const char* wt_name(WT w) { static const char* n[] = {"none","uint","int","vector of uint","vector of int"}; return n[w]; }
    struct Doc {
        bool names = true; WT wt = wNone; RPda p; std::vector<std::vector<long>> vw; // vw[i]: vector weight of rule i
        std::vector<std::string> state, label; RAut init, fin; std::vector<std::string> xi, xf; // JSON token of every extra automaton state
        std::vector<std::tuple<int,int>> ei, ef; // epsilon edges
        int declared = 0; // states listed in the document
    };
    inline std::string jstr(const std::string& s, Rng* r = nullptr) {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
            else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
            else if (c < 0x20 || (r && c < 0x7f && r->chance(4))) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else if (c == '/' && r && r->chance(50)) o += "\\/";
            else o += (char)c;
        }
        return o + "\"";
    }
    struct Writer { // random insignificant whitespace and key order
        Rng& r; bool extras; explicit Writer(Rng& r, bool extras = true) : r(r), extras(extras) {}
        std::string ws() { if (!r.chance(15)) return ""; std::string s; int n = r.in(1, 3); for (int i = 0; i < n; ++i) s += " \n\t\r"[r.below(4)]; return s; }
        std::string obj(std::vector<std::pair<std::string,std::string>> kv, bool shuffle = true) {
            if (shuffle) for (size_t i = kv.size(); i > 1; --i) if (r.chance(60)) std::swap(kv[i-1], kv[(size_t)r.below((int)i)]);
            std::string s = "{" + ws(); bool f = true; for (auto& [k,v] : kv) { if (!f) s += "," + ws(); f = false; s += jstr(k, &r) + ws() + ":" + ws() + v + ws(); } return s + "}"; }
        std::string arr(const std::vector<std::string>& v) { std::string s = "[" + ws(); bool f = true; for (auto& x : v) { if (!f) s += "," + ws(); f = false; s += x + ws(); } return s + "]"; }
        std::string any(int d = 2) { // an arbitrary value for an unknown key
            switch (r.below(d ? 9 : 7)) { case 0: return "null"; case 1: return "true"; case 2: return std::to_string(r.below(100)); case 3: return "-" + std::to_string(r.in(1, 9)); case 4: return "1.5e3"; case 5: return "\"to\""; case 6: return "\"\"";
                case 7: { std::vector<std::string> v; int n = r.below(4); for (int i = 0; i < n; ++i) v.push_back(any(d - 1)); return arr(v); }
                default: { std::vector<std::pair<std::string,std::string>> v; int n = r.below(4); const char* k[] = {"to", "states", "x", "weight", "pda", "edges"}; for (int i = 0; i < n; ++i) v.emplace_back(k[r.below(6)] + std::string(i ? std::to_string(i) : ""), any(d - 1)); return obj(v); } } }
        void add_extra(std::vector<std::pair<std::string,std::string>>& kv) { if (extras && r.chance(20)) { int n = r.in(1, 2); for (int i = 0; i < n; ++i) kv.emplace_back("x-meta" + std::to_string(i), any()); } }
    };
    inline std::vector<std::string> pick_names(Rng& r, std::vector<std::string> pool, int n, const char* prefix) {
        std::vector<std::string> v; if (r.chance(60)) { for (int i = 0; i < n; ++i) v.push_back(prefix + std::to_string(i)); return v; }
        for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i-1], pool[(size_t)r.below((int)i)]);
        for (int i = 0; i < n; ++i) v.push_back(i < (int)pool.size() ? pool[(size_t)i] : prefix + std::to_string(i)); return v;
    }
    inline Doc gen_doc(Rng& r, WT wt, bool names, bool eps = false) {
        Doc d; d.wt = wt; d.names = names; GenOpts o; o.max_states = 4; o.max_labels = 3; o.max_rules = 8; o.scale = false;
        if (wt == wUint || wt == wVecUint) o.wmax = 5; if (wt == wInt || wt == wVecInt) { o.wmin = -3; o.wmax = 5; }
        bool runs = r.chance(30); RAut ri, rf; if (runs) std::tie(d.p, ri, rf) = gen_runs(r, o); else d.p = gen_pda(r, o);
        if (!runs && r.chance(25)) { d.p.n += 1; } // a state in no rule
        d.state = pick_names(r, {"p", "q0", "a b", "\xc3\xa9t\xc3\xa9", "\"q\"", "back\\slash", "1", "*", "", "to", "states", "\n", "[", "p,q", "s/t"}, d.p.n, "p");
        d.label = pick_names(r, {"A", "B", "to", "pop", "swap", "push", "\xc3\xa9", "x\ty", "\"", "\\", " ", "0", "-1", "accepting", "L/R", "a.b", "**", "very long label with spaces in it"}, d.p.m, "L");
        std::vector<RRule> rs; for (auto& x : d.p.rules) { if (x.wild) rs.push_back(x); else for (int l : x.pre) { RRule y = x; y.pre = {l}; rs.push_back(y); } } // documents have one label (or the wildcard) per rule
        for (auto& x : rs) if (x.op == oNOOP && !x.wild) { x.op = oSWAP; x.lab = x.pre[0]; }
        if ((wt == wUint || wt == wInt) && r.chance(20)) for (auto& x : rs) if (r.chance(30)) x.w = wt == wUint ? 4294967294LL - r.below(3) : r.chance(50) ? 2147483646L - r.below(3) : -2147483647L + r.below(3);
        d.p.rules = rs; for (auto& x : rs) { std::vector<long> v; int n = r.below(4); for (int i = 0; i < n; ++i) v.push_back(i ? r.in(o.wmin, o.wmax) : x.w); if (n == 0) {} d.vw.push_back(v); }
        auto pr = runs ? std::make_pair(ri, rf) : gen_pair(r, d.p); d.init = pr.first; d.fin = pr.second;
        int used = 0; for (auto& x : d.p.rules) used = std::max(used, std::max(x.from, x.to) + 1);
        d.declared = d.p.n; (void)used;
        auto xs = [&](const RAut& a, std::vector<std::string>& out) { int base = r.chance(70) ? d.p.n : d.p.n + r.below(40); bool str = names && r.chance(40), mix = names && r.chance(25); for (int i = d.p.n; i < a.n; ++i) out.push_back((mix ? r.chance(50) : str) ? jstr("x" + std::to_string(i)) : std::to_string(base + (i - d.p.n) * (base == d.p.n ? 1 : 3))); };
        xs(d.init, d.xi); xs(d.fin, d.xf);
        if (eps) for (auto [a, e] : {std::make_pair(&d.init, &d.ei), std::make_pair(&d.fin, &d.ef)}) if (a->n > d.p.n) { int k = r.below(3); for (int i = 0; i < k; ++i) { int f = r.below(a->n), t = d.p.n + r.below(a->n - d.p.n); e->emplace_back(f, t); } }
        return d;
    }
    inline std::string num(long x) { return std::to_string(x); }
    inline std::string states_json(const Doc& d, Writer& w) {
        auto rule = [&](size_t i) { auto& x = d.p.rules[i]; std::vector<std::pair<std::string,std::string>> kv; kv.emplace_back("to", d.names ? jstr(d.state[(size_t)x.to], &w.r) : num(x.to));
            if (x.op == oPOP) kv.emplace_back("pop", "\"\""); else if (x.op == oPUSH) kv.emplace_back("push", jstr(d.label[(size_t)x.lab], &w.r)); else kv.emplace_back("swap", x.op == oNOOP ? "\"*\"" : jstr(d.label[(size_t)x.lab], &w.r));
            if (d.wt == wUint || d.wt == wInt) kv.emplace_back("weight", num(x.w)); else if (d.wt != wNone) { std::vector<std::string> v; for (long y : d.vw[i]) v.push_back(num(y)); kv.emplace_back("weight", w.arr(v)); }
            return w.obj(kv); };
        std::vector<std::string> st; for (int s = 0; s < d.declared; ++s) { std::vector<std::pair<std::string,std::string>> kv; std::map<int,std::vector<size_t>> by; for (size_t i = 0; i < d.p.rules.size(); ++i) if (d.p.rules[i].from == s) by[d.p.rules[i].wild ? -1 : d.p.rules[i].pre[0]].push_back(i);
            for (auto& [l, is] : by) { std::vector<std::string> rs; for (auto i : is) rs.push_back(rule(i)); kv.emplace_back(l < 0 ? "*" : d.label[(size_t)l], rs.size() == 1 && w.r.chance(80) ? rs[0] : w.arr(rs)); }
            st.push_back(w.obj(kv)); }
        if (!d.names) return w.arr(st);
        std::vector<std::pair<std::string,std::string>> kv; for (int s = 0; s < d.declared; ++s) kv.emplace_back(d.state[(size_t)s], st[(size_t)s]); return w.obj(kv);
    }
    inline std::string pda_body(const Doc& d, Writer& w) { std::vector<std::pair<std::string,std::string>> kv{{"states", states_json(d, w)}}; w.add_extra(kv); return w.obj(kv); }
    inline std::string pda_json(const Doc& d, Writer& w) { std::vector<std::pair<std::string,std::string>> kv{{"pda", pda_body(d, w)}}; w.add_extra(kv); return w.obj(kv); }
    inline std::string aut_body(const Doc& d, bool fin, Writer& w, bool initial) {
        const RAut& a = fin ? d.fin : d.init; const auto& x = fin ? d.xf : d.xi; auto tok = [&](int s) { return s < d.p.n ? (d.names ? jstr(d.state[(size_t)s], &w.r) : num(s)) : x[(size_t)(s - d.p.n)]; };
        std::vector<std::string> acc, ed, ini; for (int i = 0; i < a.n; ++i) if (a.acc[(size_t)i]) acc.push_back(tok(i)); for (auto& [f,l,t] : a.edges) ed.push_back(w.arr({tok(f), jstr(d.label[(size_t)l], &w.r), tok(t)})); for (auto& [f,t] : fin ? d.ef : d.ei) ed.push_back(w.arr({tok(f), "\"\"", tok(t)})); for (int i = 0; i < d.p.n; ++i) ini.push_back(tok(i));
        for (size_t i = ed.size(); i > 1; --i) if (w.r.chance(50)) std::swap(ed[i-1], ed[(size_t)w.r.below((int)i)]);
        std::vector<std::pair<std::string,std::string>> kv{{"accepting", w.arr(acc)}, {"edges", w.arr(ed)}}; if (initial) kv.emplace_back("initial", w.arr(ini)); return w.obj(kv);
    }
    inline std::string aut_json(const Doc& d, bool fin, Writer& w) { return w.obj({{"P-automaton", aut_body(d, fin, w, true)}}); }
    inline std::string type_json(const Doc& d, Writer& w) { const char* n = d.wt == wNone ? "none" : d.wt == wUint || d.wt == wVecUint ? "uint" : "int"; std::string t = jstr(n); if (d.wt >= wVecUint) t = w.r.chance(30) ? w.arr({t, "2"}) : w.arr({t}); return w.obj({{"state-names", d.names ? "true" : "false"}, {"weight-type", t}}); }
    inline std::string inst_json(const Doc& d, Writer& w) { return w.obj({{"instance", w.arr({type_json(d, w), pda_body(d, w), aut_body(d, false, w, w.r.chance(30)), aut_body(d, true, w, w.r.chance(30))})}}); }
    // what the documents mean
    using JRule = std::tuple<std::string,std::string,std::string,int,std::string,std::vector<long>>;
    inline std::set<int> pda_labels(const Doc& d) { std::set<int> s; for (auto& x : d.p.rules) { if (!x.wild) s.insert(x.pre[0]); if (x.op == oPUSH || x.op == oSWAP) s.insert(x.lab); } return s; }
    inline std::set<int> aut_labels(const RAut& a) { std::set<int> s; for (auto& [f,l,t] : a.edges) s.insert(l); return s; }
    inline std::set<int> printed_labels(const Doc& d) { // a rule covered by the same rule with a wildcard is not printed separately
        std::set<int> s; for (size_t i = 0; i < d.p.rules.size(); ++i) { auto& x = d.p.rules[i]; bool covered = false; for (size_t k = 0; k < d.p.rules.size(); ++k) { auto& y = d.p.rules[k]; if (y.wild && y.from == x.from && y.to == x.to && y.op == x.op && (x.op == oPOP || y.lab == x.lab) && (d.wt == wNone || (d.wt >= wVecUint ? d.vw[i] == d.vw[k] : y.w == x.w))) covered = true; }
            if (!x.wild && !covered) s.insert(x.pre[0]); if (x.op == oPUSH || x.op == oSWAP) s.insert(x.lab); } return s; }
    inline std::string srepr(const Doc& d, int s) { return d.names ? d.state[(size_t)s] : std::to_string(s); }
    inline std::set<JRule> flat(const Doc& d, const std::set<int>& labels) {
        std::set<JRule> f; for (size_t i = 0; i < d.p.rules.size(); ++i) { auto& x = d.p.rules[i]; std::vector<int> pre; if (x.wild) pre.assign(labels.begin(), labels.end()); else pre = x.pre;
            std::vector<long> w; if (d.wt == wUint || d.wt == wInt) w = {x.w}; else if (d.wt != wNone) w = d.vw[i];
            for (int l : pre) if (labels.count(l)) { bool sw = x.op == oSWAP || x.op == oNOOP; f.insert({srepr(d, x.from), d.label[(size_t)l], srepr(d, x.to), sw ? 2 : x.op == oPUSH ? 0 : 1, sw ? d.label[(size_t)(x.op == oNOOP ? l : x.lab)] : x.op == oPUSH ? d.label[(size_t)x.lab] : "", w}); } }
        return f;
    }
    inline bool accepts_eps(const RAut& a, const std::vector<std::tuple<int,int>>& eps, const Conf& c) {
        auto close = [&](std::set<int> s) { bool ch = true; while (ch) { ch = false; for (auto& [f,t] : eps) if (s.count(f) && s.insert(t).second) ch = true; } return s; };
        std::set<int> cur = close({c.first}); for (int l : c.second) { std::set<int> nx; for (auto& [f,x,t] : a.edges) if (x == l && cur.count(f)) nx.insert(t); cur = close(nx); }
        for (int s : cur) if (a.acc[(size_t)s]) return true; return false;
    }
    inline RAut remove_eps(const RAut& a, const std::vector<std::tuple<int,int>>& eps) { // equivalent automaton without epsilon edges
        RAut b; b.n = a.n; b.acc = a.acc; for (int s = 0; s < a.n; ++s) { std::set<int> c{s}; bool ch = true; while (ch) { ch = false; for (auto& [f,t] : eps) if (c.count(f) && c.insert(t).second) ch = true; } for (int x : c) { if (a.acc[(size_t)x]) b.acc[(size_t)s] = 1; for (auto& [f,l,t] : a.edges) if (f == x) b.edges.insert({s, l, t}); } } return b;
    }
}
#endif
