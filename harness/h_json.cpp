// JSON documents: what is parsed is what was written, printing and parsing again gives the same, malformed documents are refused.
#include "json_doc.h"
#include "parsing/SolverInstanceJsonParser.h"
#include <pdaaal/Solver.h>
using namespace vf; using namespace pdaaal; using namespace pdaaal::parsing; using nlohmann::json;
template<typename P> static std::string rs(const P& p, size_t s) { std::stringstream x; x << p.get_state(s); return x.str(); }
template<typename P> static void check_pda(const P& p, const Doc& d, const std::set<int>& labels, const char* w) {
    std::set<JRule> f; size_t i = 0; std::vector<std::string> ln; for (size_t l = 0; l < p.number_of_labels(); ++l) ln.push_back(p.get_symbol(l));
    std::set<std::string> a(ln.begin(), ln.end()), b; for (int l : labels) b.insert(d.label[(size_t)l]); if (a != b || a.size() != ln.size()) fail("labels", std::string(w) + ": the set of labels differs from the document");
    for (auto& s : p.states()) { for (auto& [r, ls] : s._rules) { std::vector<uint32_t> pre; if (ls.wildcard()) for (size_t l = 0; l < ln.size(); ++l) pre.push_back((uint32_t)l); else pre.assign(ls.labels().begin(), ls.labels().end());
        std::vector<long> wt; if constexpr (P::has_weight) { if constexpr (P::weight::is_vector) for (auto x : r._weight) wt.push_back((long)x); else wt = {(long)r._weight}; }
        for (auto l : pre) { bool sw = r._operation == SWAP || r._operation == NOOP; f.insert({rs(p, i), ln.at(l), rs(p, r._to), sw ? 2 : r._operation == PUSH ? 0 : 1, sw ? ln.at(r._operation == NOOP ? l : r._op_label) : r._operation == PUSH ? ln.at(r._op_label) : "", wt}); } } ++i; }
    if (f != flat(d, labels)) fail("rules", std::string(w) + ": the rules differ from the document (" + std::to_string(f.size()) + " parsed, " + std::to_string(flat(d, labels).size()) + " written)"); stats().inc("rules_compared", f.size());
    if (p.states().size() != (size_t)d.declared) fail("states", std::string(w) + ": " + std::to_string(p.states().size()) + " states, the document lists " + std::to_string(d.declared));
    if constexpr (!P::expose_skip_state_mapping) for (auto& s : d.state) if (!p.exists_state(s).first) fail("states", std::string(w) + ": state " + s + " is missing");
}
template<typename P> static size_t sid(const P& p, const Doc& d, int s) { if constexpr (P::expose_skip_state_mapping) return (size_t)s; else return p.exists_state(d.state[(size_t)s]).second; }
template<typename P, typename A> static void check_aut(const P& p, const A& a, const Doc& d, bool fin, const char* w) {
    const RAut& m = fin ? d.fin : d.init; auto& e = fin ? d.ef : d.ei; auto ls = aut_labels(m); std::vector<int> lv(ls.begin(), ls.end()); size_t edges = 0; for (auto& s : a.states()) for (auto& [t, l] : s->_edges) edges += l.size();
    std::set<std::tuple<int,int>> ue(e.begin(), e.end()); if (edges != m.edges.size() + ue.size()) fail("automaton", std::string(w) + ": " + std::to_string(edges) + " edges, " + std::to_string(m.edges.size() + ue.size()) + " written");
    size_t eps = 0; for (auto& s : a.states()) for (auto& [t, l] : s->_edges) if (l.contains(A::epsilon)) ++eps; if (eps != ue.size()) fail("automaton", std::string(w) + ": epsilon edges differ"); if (eps) { stats().inc("epsilon_automata"); return; } // such automata can be stored, not queried
    std::vector<std::vector<int>> words{{}}; for (size_t i = 0; i < words.size() && words[i].size() < 3; ++i) for (int l : lv) { auto x = words[i]; x.push_back(l); words.push_back(x); }
    for (int s = 0; s < d.p.n; ++s) for (auto& wd : words) { std::vector<uint32_t> st; for (int l : wd) { auto x = p.exists_label(d.label[(size_t)l]); if (!x.first) fail("automaton", "label lost"); st.push_back((uint32_t)x.second); } bool want = accepts_eps(m, e, {s, wd}); if (a.accepts(sid(p, d, s), st) != want) fail("automaton", std::string(w) + ": <" + srepr(d, s) + "," + str(Conf{s, wd}) + "> should " + (want ? "" : "not ") + "be accepted"); stats().inc(want ? "memberships_true" : "memberships_false"); }
}
static std::string pack(const std::string& t) { auto v = json::to_msgpack(json::parse(t)); return std::string(v.begin(), v.end()); }
using oj = nlohmann::ordered_json;
// A MessagePack encoder of its own: every value may use any of the formats that can hold it. Signed formats for non-negative numbers are used only for weights of a signed type; blob: this string is written as binary data.
struct Packer { Rng& r; bool sgn; std::string out; const oj* blob = nullptr; bool junk = false;
    void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) out.push_back((char)(v >> (8 * i))); }
    void head(size_t n, int fix, size_t fixmax, int b8, int b16, int b32) { int k = r.chance(70) ? 0 : r.below(4); if (k <= 0 && n <= fixmax) out.push_back((char)(fix | (int)n)); else if (k <= 1 && b8 && n < 256) { out.push_back((char)b8); be(n, 1); } else if (k <= 2 && n < 65536) { out.push_back((char)b16); be(n, 2); } else { out.push_back((char)b32); be(n, 4); } }
    void str(const std::string& t) { head(t.size(), 0xa0, 31, 0xd9, 0xda, 0xdb); out += t; }
    void put(const oj& j, bool weight) {
        if (&j == blob || (junk && j.is_string() && r.chance(50) && j.get_ref<const std::string&>().size() < 200)) { auto& t = j.get_ref<const std::string&>(); out.push_back((char)0xc4); be(t.size(), 1); out += t; return; }
        switch (j.type()) { case oj::value_t::null: out.push_back((char)0xc0); break; case oj::value_t::boolean: out.push_back((char)(j.get<bool>() ? 0xc3 : 0xc2)); break; case oj::value_t::string: str(j.get<std::string>()); break;
            case oj::value_t::array: head(j.size(), 0x90, 15, 0, 0xdc, 0xdd); for (auto& x : j) put(x, weight); break;
            case oj::value_t::object: head(j.size(), 0x80, 15, 0, 0xde, 0xdf); for (auto& [k, x] : j.items()) { str(k); bool was = junk; junk |= k.rfind("x-meta", 0) == 0; put(x, k == "weight" || junk); junk = was; } break;
            case oj::value_t::number_float: { double d = j.get<double>(); uint64_t b; std::memcpy(&b, &d, 8); out.push_back((char)0xcb); be(b, 8); break; }
            case oj::value_t::number_unsigned: { uint64_t v = j.get<uint64_t>(); if (((weight && sgn) || junk) && v < (1ull << 62) && r.chance(50)) { sig((int64_t)v); break; } int k = r.below(6); if (k <= 1 && v < 128) out.push_back((char)v); else if (k <= 2 && v < 256) { out.push_back((char)0xcc); be(v, 1); } else if (k <= 3 && v < 65536) { out.push_back((char)0xcd); be(v, 2); } else if (k <= 4 && v < (1ull << 32)) { out.push_back((char)0xce); be(v, 4); } else { out.push_back((char)0xcf); be(v, 8); } break; }
            default: sig(j.get<int64_t>()); } }
    void sig(int64_t v) { int k = r.below(6); if (k <= 1 && v < 0 && v >= -32) out.push_back((char)v); else if (k <= 2 && v >= -128 && v < 128) { out.push_back((char)0xd0); be((uint64_t)v, 1); } else if (k <= 3 && v >= -32768 && v < 32768) { out.push_back((char)0xd1); be((uint64_t)v, 2); } else if (k <= 4 && v >= INT32_MIN && v <= INT32_MAX) { out.push_back((char)0xd2); be((uint64_t)v, 4); } else { out.push_back((char)0xd3); be((uint64_t)v, 8); } }
};
static std::string pack(Rng& r, const std::string& t, bool sgn) { oj j = oj::parse(t); Packer p{r, sgn, {}}; p.put(j, false); return p.out; }
template<WT wt, bool names> struct Types { using base = std::conditional_t<wt == wUint || wt == wVecUint, uint32_t, int32_t>; using T = std::conditional_t<wt == wNone, void, std::conditional_t<(wt >= wVecUint), std::vector<base>, base>>; using W = weight<T>; using P = typename PdaSaxHandler<W,names>::pda_t; };
template<typename W, bool names> static auto parse_pda(const std::string& t, bool mp = false) { std::stringstream in(t); std::stringstream err; return PdaJsonParser::parse<W,names>(in, err, mp ? json::input_format_t::msgpack : json::input_format_t::json); }
template<typename P> static auto parse_aut(const std::string& t, P& p, bool mp = false) { std::stringstream in(t); return PAutomatonJsonParser::parse(in, p, mp ? json::input_format_t::msgpack : json::input_format_t::json); }
static auto parse_inst(const std::string& t, bool mp = false) { std::stringstream in(t); return SolverInstanceJsonParser::parse(in, mp ? json::input_format_t::msgpack : json::input_format_t::json); }
template<WT wt, bool names> static void round_trip(Rng& r, uint64_t) {
    using W = typename Types<wt,names>::W; Doc d = gen_doc(r, wt, names, r.chance(30)); Writer w(r);
    auto pl = pda_labels(d), prl = printed_labels(d); auto al = pl; for (auto* a : {&d.init, &d.fin}) for (int l : aut_labels(*a)) { al.insert(l); prl.insert(l); } stats().inc(std::string("documents_") + (names ? "named_" : "indexed_") + (wt == wNone ? "none" : wt == wUint ? "uint" : wt == wInt ? "int" : wt == wVecUint ? "uints" : "ints"));
    if (r.chance(40)) { // separate documents
        std::string tp = pda_json(d, w), ti = aut_json(d, false, w), tf = aut_json(d, true, w); describe(std::string("weights ") + wt_name(wt) + " " + tp + "\n" + ti + "\n" + tf); stats().sig(hash_str(current()));
        bool mp = r.chance(20); auto p = parse_pda<W,names>(mp ? pack(r, tp, d.wt == wInt || d.wt == wVecInt) : tp, mp); check_pda(p, d, pl, "pda document");
        { auto again = parse_pda<W,names>(p.to_json().dump()); check_pda(again, d, printed_labels(d), "printed pda"); stats().inc("printed_pdas"); }
        auto i = parse_aut(mp ? pack(r, ti, false) : ti, p, mp); auto f = parse_aut(tf, p); check_aut(p, i, d, false, "initial automaton"); check_aut(p, f, d, true, "final automaton"); check_pda(p, d, al, "pda after automata");
        { auto i2 = parse_aut(i.to_json().dump(), p); check_aut(p, i2, d, false, "printed initial automaton"); auto f2 = parse_aut(f.to_json().dump(), p); check_aut(p, f2, d, true, "printed final automaton"); stats().inc("printed_automata", 2); }
    } else {
        std::string t = inst_json(d, w); describe(t); stats().sig(hash_str(t)); bool mp = r.chance(30); auto v = parse_inst(mp ? r.chance(30) ? pack(t) : pack(r, t, d.wt == wInt || d.wt == wVecInt) : t, mp); if (mp) stats().inc("binary_documents");
        auto chk = [&](auto& var, const char* what, const std::set<int>& al) { std::visit([&](auto& in) { using P = std::decay_t<decltype(in->pda())>;
            if constexpr (std::is_same_v<P, typename Types<wt,names>::P>) { check_pda(in->pda(), d, al, what); check_aut(in->pda(), in->initial_automaton(), d, false, what); check_aut(in->pda(), in->final_automaton(), d, true, what); } else fail("type", std::string(what) + ": parsed as another kind of pushdown system"); }, var); };
        chk(v, "instance", al); std::string out = std::visit([](auto& in) { return in->to_json().dump(); }, v); auto v2 = parse_inst(out); chk(v2, "printed instance", prl); stats().inc("printed_instances");
        auto v3 = std::move(v2); chk(v3, "moved instance", prl);
        if constexpr (wt == wNone) if (d.ei.empty() && d.ef.empty()) { auto ref = ref_solve(d.p, d.init, d.fin); std::visit([&](auto& in) { using P = std::decay_t<decltype(in->pda())>; if constexpr (std::is_same_v<P, typename Types<wt,names>::P>) { bool got = r.chance(50) ? Solver::post_star_accepts<Trace_Type::None>(*in) : Solver::pre_star_accepts<Trace_Type::None>(*in); if (got != ref.reach) fail("verdict", got ? "reachable, the reference says unreachable" : "unreachable, the reference says reachable"); stats().inc(got ? "solved_reachable" : "solved_unreachable"); } }, v3); }
    }
}
// ---- malformed documents ----
struct Mutant { std::string text, why; };
static oj wrong(Rng& r, std::vector<const char*> kinds) { std::string k = kinds[(size_t)r.below((int)kinds.size())]; if (k == "null") return nullptr; if (k == "bool") return r.chance(50); if (k == "float") return 1.5; if (k == "neg") return -1 - r.below(4); if (k == "num") return r.below(3); if (k == "str") return "A"; if (k == "obj") return oj::object(); if (k == "objk") return oj{{"to", 0}}; if (k == "arr") return oj::array(); if (k == "arrarr") return oj::array({oj::array()}); return oj::array({1}); }
static bool mutate_aut(Rng& r, oj& a, const Doc& d, bool need_initial, std::string& why) {
    switch (r.below(9)) {
        case 0: { const char* k = r.chance(50) ? "accepting" : need_initial && r.chance(50) ? "initial" : "edges"; a.erase(k); why = std::string("automaton without ") + k; return true; }
        case 1: { a[std::string(r.chance(50) ? "edge" : "Accepting")] = oj::array(); why = "unexpected key in automaton"; return true; }
        case 2: { const char* k = r.chance(50) ? "accepting" : "edges"; a[k] = wrong(r, {"null", "bool", "float", "neg", "num", "str", "obj"}); why = std::string(k) + " of a wrong type"; return true; }
        case 3: { a["accepting"].push_back(wrong(r, {"null", "bool", "float", "neg", "obj", "arr"})); why = "accepting state of a wrong type"; return true; }
        case 4: { a["edges"].push_back(wrong(r, {"null", "bool", "float", "neg", "num", "str", "obj", "arrarr"})); why = "edge of a wrong type"; return true; }
        case 5: { oj e = oj::array(); oj s = d.names ? oj(d.state[0]) : oj(0); int n = r.chance(70) ? r.below(3) : 4 + r.below(2); for (int i = 0; i < n; ++i) e.push_back(i == 1 ? oj("A") : s); a["edges"].insert(a["edges"].begin() + r.below((int)a["edges"].size() + 1), e); why = "edge with " + std::to_string(n) + " elements"; return true; }
        case 6: { oj s = d.names ? oj(d.state[0]) : oj(0); oj e = oj::array({s, "A", s}); int i = r.below(3); e[(size_t)i] = i == 1 ? wrong(r, {"null", "bool", "float", "neg", "num", "obj", "arr"}) : wrong(r, {"null", "bool", "float", "neg", "obj", "arr"}); a["edges"].push_back(e); why = "edge element of a wrong type"; return true; }
        case 7: { if (d.names) { if (!need_initial) return false; a["initial"].push_back("no such state"); why = "unknown initial state"; return true; } if (r.chance(50)) a["accepting"].push_back("p0"); else a["edges"].push_back(oj::array({0, "A", "p0"})); why = "named state where states are numbered"; return true; }
        default: { if (!need_initial) return false; if (r.chance(50)) a["initial"].push_back(wrong(r, {"null", "bool", "float", "neg", "obj", "arr"})); else a["initial"].push_back(d.names ? oj(0) : oj(d.p.n + 50)); why = "bad initial state"; return true; }
    }
}
static bool mutate_pda(Rng& r, oj& b, const Doc& d, std::string& why) { // b: {"states": ...}
    std::vector<oj*> rules; std::vector<oj*> states; for (auto& s : b["states"]) { states.push_back(&s); for (auto& x : s) { if (x.is_array()) for (auto& y : x) rules.push_back(&y); else rules.push_back(&x); } }
    int c = r.below(14); if (c >= 3 && rules.empty()) return false; oj& ru = rules.empty() ? b : *rules[(size_t)r.below((int)rules.size())];
    auto erase_op = [&]() { ru.erase("pop"); ru.erase("swap"); ru.erase("push"); };
    switch (c) {
        case 0: b.erase("states"); why = "no states"; return true;
        case 1: b["states"] = wrong(r, {"null", "bool", "float", "num", "str", d.names ? "arr" : "obj"}); why = "states of a wrong type"; return true;
        case 2: if (states.empty()) return false; *states[(size_t)r.below((int)states.size())] = wrong(r, {"null", "bool", "float", "num", "neg", "str", "arr"}); why = "state of a wrong type"; return true;
        case 3: ru.erase("to"); why = "rule without destination"; return true;
        case 4: erase_op(); why = "rule without operation"; return true;
        case 5: { std::string has = ru.contains("pop") ? "pop" : ru.contains("swap") ? "swap" : "push"; std::string o = has == "pop" ? "push" : "pop"; ru[o] = o == "pop" ? "" : "A"; why = "rule with two operations"; return true; }
        case 6: ru["to"] = wrong(r, {"null", "bool", "float", "neg", "obj", "arr", d.names ? "num" : "str"}); why = "destination of a wrong type"; return true;
        case 7: { erase_op(); const char* o[] = {"pop", "swap", "push"}; ru[o[r.below(3)]] = wrong(r, {"null", "bool", "float", "neg", "num", "obj", "arr"}); why = "operand of a wrong type"; return true; }
        case 8: erase_op(); ru["pop"] = "A"; why = "pop of a named label"; return true;
        case 9: ru[r.chance(50) ? "from" : "labels"] = r.below(2); why = "unexpected key in a rule"; return true;
        case 10: if (d.wt == wNone) ru["weight"] = 1; else ru.erase("weight"); why = d.wt == wNone ? "weight in an unweighted system" : "rule without weight"; return true;
        case 11: if (d.wt == wNone) return false; if (d.wt >= wVecUint) { ru["weight"] = wrong(r, {"null", "bool", "float", "neg", "num", "str", "obj"}); if (d.wt == wVecUint && r.chance(30)) ru["weight"] = oj::array({1, -1}); } else ru["weight"] = wrong(r, {"null", "bool", "float", "str", "obj", "arr", "arr1", d.wt == wUint ? "neg" : "float"}); why = "weight of a wrong type"; return true;
        case 12: if (d.wt == wNone) return false; { oj big = d.wt == wUint || d.wt == wVecUint ? oj(4294967295ULL + (uint64_t)r.below(3)) : r.chance(50) ? oj(2147483647LL + r.below(3)) : oj(-2147483648LL - r.below(3)); if (r.chance(20)) big = 9223372036854775808ULL; if (d.wt >= wVecUint) ru["weight"] = oj::array({1, big}); else ru["weight"] = big; } why = "weight out of range"; return true;
        default: ru = wrong(r, {"null", "bool", "float", "num", "neg", "str"}); why = "rule of a wrong type"; return true;
    }
}
template<typename F> static void must_refuse(const std::string& t, const std::string& why, F&& parse) {
    describe(why + ": " + t); stats().sig(hash_str(t)); bool ok = false; try { parse(t); } catch (const std::exception& e) { ok = true; if (!*e.what()) fail("message", "refused without a message"); } if (!ok) fail("accepted", "a malformed document was accepted (" + why + ")"); stats().inc("malformed_refused"); stats().inc("refused: " + why.substr(0, why.find(" with "))); }
template<typename F> static void must_refuse_binary(const std::string& b, const std::string& t, const std::string& why, F&& parse) {
    describe("MessagePack, " + why + ": " + t); bool ok = false; try { parse(b); } catch (const std::exception& e) { ok = true; if (!*e.what()) fail("message", "refused without a message"); } if (!ok) fail("accepted", "a malformed MessagePack document was accepted (" + why + ")"); stats().inc("malformed_binary_refused"); }
template<typename F> static void survive(const std::string& t, F&& parse) { describe("mutated: " + t); stats().sig(hash_str(t)); try { parse(t); stats().inc("mutated_accepted"); } catch (const std::exception& e) { stats().inc("mutated_refused"); } }
static std::string bytes(Rng& r, std::string s, bool bin) {
    int n = r.in(1, 3); const char* tok[] = {"{", "}", "[", "]", ",", ":", "\"", "null", "true", "\"to\"", "\"pop\"", "\"A\"", "\"edges\"", "\"*\"", "1", "-1", "\"\"", "{}", "[]", "\"P-automaton\":", "\"states\":"};
    for (int i = 0; i < n && !s.empty(); ++i) { size_t p = (size_t)r.below((int)s.size()); switch (r.below(6)) { case 0: s.erase(p, 1 + (size_t)r.below(6)); break; case 1: s.insert(p, tok[r.below(21)]); break; case 2: s[p] = bin ? (char)r.below(256) : "{}[],:\"0a \n\\"[r.below(12)]; break; case 3: s.resize(p); break; case 4: { size_t q = (size_t)r.below((int)s.size()), l = (size_t)r.below(12); s.insert(p, s.substr(q, l)); break; } default: { size_t q = (size_t)r.below((int)s.size()); std::swap(s[p], s[q]); } } }
    if (!bin) for (size_t i = 0, c = 0; i < s.size();) { c = isdigit((unsigned char)s[i]) ? c + 1 : 0; if (c > 3) s.erase(i, 1), --c; else ++i; } // keep state numbers small
    return s;
}
template<WT wt, bool names> static void malformed(Rng& r, uint64_t) {
    using W = typename Types<wt,names>::W; Doc d = gen_doc(r, wt, names); Writer w(r); std::string why; int kind = r.below(3); std::string text = kind == 0 ? pda_json(d, w) : kind == 1 ? aut_json(d, r.chance(50), w) : inst_json(d, w);
    bool mp = false;
    auto run = [&](const std::string& t) { if (mp) { if (kind == 0) parse_pda<W,names>(t, true); else if (kind == 1) { auto p = parse_pda<W,names>(pda_json(d, w)); parse_aut(t, p, true); } else parse_inst(t, true); return; } if (kind == 0) { auto p = parse_pda<W,names>(t); (void)p.to_json(); } else if (kind == 1) { auto p = parse_pda<W,names>(pda_json(d, w)); auto a = parse_aut(t, p); (void)a.to_json(); } else { auto v = parse_inst(t); std::visit([](auto& in) { (void)in->to_json(); }, v); } };
    int z = r.below(100);
    if (z < 60) { oj j = oj::parse(text); bool ok;
        if (kind == 0) { if (r.chance(8)) { j.erase("pda"); why = "no pda"; ok = true; } else if (r.chance(8)) { j["pda"] = wrong(r, {"null", "bool", "float", "num", "neg", "str", "arr"}); why = "pda of a wrong type"; ok = true; } else ok = mutate_pda(r, j["pda"], d, why); }
        else if (kind == 1) { if (r.chance(8)) { j["P-automaton"] = wrong(r, {"null", "bool", "float", "num", "neg", "str", "arr"}); why = "automaton of a wrong type"; ok = true; } else if (r.chance(8)) { j["other"] = 1; why = "unexpected key beside the automaton"; ok = true; } else ok = mutate_aut(r, j["P-automaton"], d, true, why); }
        else { oj& a = j["instance"]; switch (r.below(6)) { case 0: { size_t n = (size_t)r.below(6); if (n == 4) n = 6; while (a.size() > n) a.erase(a.size() - 1); while (a.size() < n) a.push_back(r.chance(50) ? a[3] : oj(r.below(3))); why = "instance with " + std::to_string(n) + " parts"; ok = true; break; }
            case 1: { int k = r.below(4); if (k == 0) a[0].erase(r.chance(50) ? "state-names" : "weight-type"); else if (k == 1) a[0]["extra"] = 1; else if (k == 2) a[0]["state-names"] = wrong(r, {"null", "num", "str", "float", "arr", "obj"}); else a[0]["weight-type"] = wrong(r, {"null", "bool", "num", "float", "obj", "arr1", "neg"}); why = "bad description of the instance"; ok = true; break; }
            case 2: { a[(size_t)r.below(4)] = wrong(r, {"null", "bool", "num", "float", "str", "arr", "neg"}); why = "part of an instance of a wrong type"; ok = true; break; }
            case 3: if (r.chance(30)) { j["instance"] = wrong(r, {"null", "bool", "num", "float", "str", "obj"}); why = "instance of a wrong type"; ok = true; break; } if (r.chance(30)) { j["more"] = 1; why = "unexpected key beside the instance"; ok = true; break; } ok = mutate_aut(r, a[2], d, false, why); break;
            case 4: ok = mutate_aut(r, a[3], d, false, why); break; default: ok = mutate_pda(r, a[1], d, why); } }
        if (!ok) { stats().inc("no_mutation"); return; }
        std::string t = j.dump(); must_refuse(t, why, run);
        if (r.chance(30)) { mp = true; bool sgn = d.wt == wInt || d.wt == wVecInt; describe("binary, " + why + ": " + t); must_refuse_binary(pack(r, t, sgn), t, why, run); }
    } else if (z < 63) { // binary data where a string belongs
        oj j = oj::parse(text); std::vector<const oj*> strs; std::function<void(const oj&)> walk = [&](const oj& x) { if (x.is_string()) strs.push_back(&x); else if (x.is_structured()) for (auto& [k, y] : x.items()) if (k.rfind("x-meta", 0) != 0) walk(y); }; walk(kind == 0 ? j["pda"]["states"] : j); if (strs.empty()) { stats().inc("no_mutation"); return; }
        mp = true; Packer p{r, false, {}}; p.blob = strs[(size_t)r.below((int)strs.size())]; p.put(j, false); stats().sig(hash_str(p.out)); must_refuse_binary(p.out, text, "binary data in the place of " + p.blob->dump(), run);
    } else if (z < 72) { // syntax: truncated, trailing text, wrong top level, duplicate keys
        size_t e = text.find_last_of('}'); switch (r.below(4)) { case 0: must_refuse(text.substr(0, (size_t)r.below((int)e + 1)), "truncated", run); break; case 1: must_refuse(text + (r.chance(50) ? "}" : " x"), "trailing text", run); break; case 2: { const char* t[] = {"5", "-5", "null", "true", "1.5", "\"s\"", "[]", "[{}]", "{}", "[5]", "[[]]", "[null]"}; must_refuse(t[r.below(12)], "wrong top level", run); break; }
            default: { std::string k = kind == 0 ? "\"pda\"" : kind == 1 ? "\"P-automaton\"" : "\"instance\""; std::string in = kind == 0 ? pda_body(d, w) : kind == 1 ? aut_body(d, false, w, true) : "[" + type_json(d, w) + "," + pda_body(d, w) + "," + aut_body(d, false, w, false) + "," + aut_body(d, true, w, false) + "]"; must_refuse("{" + k + ":" + in + "," + k + ":" + in + "}", "duplicate key", run); } }
    } else survive(bytes(r, text, false), run);
}
static void binary_noise(Rng& r, uint64_t) { WT wt = (WT)r.below(5); bool names = true; Doc d = gen_doc(r, wt, names); Writer w(r); std::string t = bytes(r, pack(inst_json(d, w)), true); std::string hex; for (unsigned char c : t) { char b[3]; std::snprintf(b, 3, "%02x", c); hex += b; } describe("binary " + hex); stats().sig(hash_str(hex)); try { auto v = parse_inst(t, true); stats().inc("mutated_accepted"); } catch (const std::exception&) { stats().inc("mutated_refused"); } stats().inc("binary_documents"); }
#define FAM(f, n, k) {#n "_named_none", f<wNone,true>, k}, {#n "_indexed_none", f<wNone,false>, k}, {#n "_named_uint", f<wUint,true>, k}, {#n "_indexed_uint", f<wUint,false>, k}, {#n "_named_int", f<wInt,true>, k}, {#n "_indexed_int", f<wInt,false>, k}, {#n "_named_uints", f<wVecUint,true>, k}, {#n "_indexed_uints", f<wVecUint,false>, k}, {#n "_named_ints", f<wVecInt,true>, k}, {#n "_indexed_ints", f<wVecInt,false>, k}
int main(int argc, char** argv) { return main_driver(argc, argv, { FAM(round_trip, rt, 2), FAM(malformed, bad, 2), {"binary_noise", binary_noise, 2} }); }
