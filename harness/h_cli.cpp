// The command line tool, end to end: its real main() is run in process on generated files; what it prints is compared with the reference model.
#undef main
#include "build_inst.h"
#include "re.h"
#include "json_doc.h"
#include <nlohmann/json.hpp>
#include <fcntl.h>
int pdaaal_main(int argc, const char** argv);
using namespace vf; using nlohmann::json;
struct Out { int rc = -1; std::string out, err; bool threw = false; };
static Out tool(std::vector<std::string> args, const std::string& input = "") {
    Out o; std::vector<const char*> av{"pdaaal"}; for (auto& a : args) av.push_back(a.c_str());
    std::stringstream so, se, si(input); auto *b0 = std::cout.rdbuf(so.rdbuf()), *b1 = std::cerr.rdbuf(se.rdbuf()), *b2 = std::cin.rdbuf(si.rdbuf()); std::cin.clear();
    try { o.rc = pdaaal_main((int)av.size(), av.data()); } catch (const std::exception& e) { o.threw = true; o.err = e.what(); }
    std::cout.rdbuf(b0); std::cerr.rdbuf(b1); std::cin.rdbuf(b2); std::cout.clear(); o.out = so.str(); o.err += se.str(); return o;
}
struct Dir { std::string d; std::vector<std::string> files; Dir() { char t[] = "/tmp/vcliXXXXXX"; d = mkdtemp(t); } ~Dir() { for (auto& f : files) unlink(f.c_str()); rmdir(d.c_str()); }
    std::string path(const std::string& n) { files.push_back(d + "/" + n); return files.back(); }
    std::string put(const std::string& n, const std::string& s) { auto p = path(n); std::ofstream f(p, std::ios::binary); f << s; return p; } 
    static std::string get(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); } };
constexpr long B = 100000; // vector weights are encoded component by component
static long enc(const std::vector<long>& v) { long x = 0; for (size_t i = 0; i < 3; ++i) x = x * B + (i < v.size() ? v[i] : 0); return x; }
struct Atom { std::set<int> states; ReP re; };
static void letters(const ReP& r, std::set<int>& out, bool& neg) { if (!r) return; if (r->k == Re::SET) { out.insert(r->s.begin(), r->s.end()); neg |= r->neg; } letters(r->a, out, neg); letters(r->b, out, neg); }
static RAut unite(const RPda& p, const RAut& a, const RAut& b) { RAut u = a; int off = a.n - p.n; for (int i = 0; i < p.n; ++i) u.acc[(size_t)i] = a.acc[(size_t)i] || b.acc[(size_t)i]; for (int i = p.n; i < b.n; ++i) u.add(b.acc[(size_t)i]); for (auto& [f, l, t] : b.edges) u.edges.insert({f < p.n ? f : f + off, l, t < p.n ? t : t + off}); return u; }
static std::string quote(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
// A random automaton in the textual format together with its meaning.
static std::string text_aut(Rng& g, Doc& d, RAut& out, bool all_known) {
    int k = g.in(1, 2); std::string text; bool first = true;
    for (int i = 0; i < k; ++i) { Atom a; int c = g.in(1, d.p.n); for (int j = 0; j < c; ++j) a.states.insert(g.below(d.p.n)); bool neg = true; std::set<int> used; 
        for (int tries = 0; tries < 20 && neg; ++tries) { a.re = g.chance(8) ? mk(Re::EPS) : gen(g, d.p.m, g.in(0, 3), true); neg = false; letters(a.re, used, neg); if (all_known) break; } if (neg && !all_known) { a.re = mk(Re::SET); a.re->s = {g.below(d.p.m)}; }
        auto m = re_aut(d.p, a.re, a.states); out = first ? m : unite(d.p, out, m);
        text += first ? "" : " | "; first = false; std::string ss; for (int s : a.states) ss += (ss.empty() ? "" : ", ") + (d.names ? quote(d.state[(size_t)s]) : std::to_string(s)); text += "< [" + ss + "] , " + (a.re->k == Re::EPS ? "" : show(a.re, g, g.chance(30))) + " >"; }
    return text;
}
// Named states are numbered in the trace (see the README): in the order in which the document first mentions them.
template<typename J> static std::vector<std::string> mention_order(const J& doc) {
    const J* st = nullptr; if (doc.contains("instance")) st = &doc["instance"][1]["states"]; else st = &doc["pda"]["states"];
    std::vector<std::string> o; if (!st->is_object()) return o; auto see = [&](const std::string& n) { if (std::find(o.begin(), o.end(), n) == o.end()) o.push_back(n); };
    for (auto it = st->begin(); it != st->end(); ++it) { see(it.key()); for (auto& r : it.value()) { if (r.is_array()) for (auto& x : r) see(x["to"].template get<std::string>()); else see(r["to"].template get<std::string>()); } }
    return o;
}
static void judge(const std::vector<std::string>& order, const Doc& d, const RPda& p, const RAut& init, const RAut& fin, int engine, int t, bool silent, const Out& o, const char* what) {
    auto bad = [&](const std::string& k, const std::string& m) { fail("cli-" + k, std::string(what) + ": " + m + " output: " + o.out + " " + o.err); };
    if (o.threw || o.rc != 0) bad("failed", "a well-formed problem ends with an error");
    if (engine == 0) { if (o.out.find("result") != std::string::npos) bad("output", "a result although no engine was selected"); return; }
    json j; try { j = json::parse(o.out); } catch (const std::exception& e) { bad("output", std::string("the output is not JSON: ") + e.what()); }
    static const char* en[] = {"", "post*", "pre*", "dual*"};
    if (!j.contains("engine") || j["engine"] != en[engine]) bad("engine", "wrong engine reported");
    if (j.contains("parsing-duration") == silent) bad("output", "parsing time does not follow the silent option");
    if (!j.contains("rtime") || !j["rtime"].is_number() || !j.contains("result") || !j["result"].is_boolean() || !j.contains("trace")) bad("output", "missing entries");
    int sign = t == 3 ? -1 : 1; auto ref = ref_solve(p, init, fin, sign); stats().inc(ref.reach ? "oracle_reachable" : "oracle_unreachable");
    if (j["result"].get<bool>() != ref.reach) bad("verdict", std::string("the reference says ") + (ref.reach ? "reachable" : "unreachable"));
    stats().inc(std::string("answers_") + en[engine] + "_t" + std::to_string(t));
    if (!ref.reach || t == 0) { if (!j["trace"].is_null() && !j["trace"].empty()) bad("trace", "a trace that was not asked for or cannot exist"); if (j.contains("weight")) bad("weight", "a weight without trace"); return; }
    bool unbounded = t >= 3 && ref.best <= RNEG;
    if (t >= 2) { if (!j.contains("weight")) bad("weight", "no weight");
        if (unbounded) { if (j["weight"] != (t == 3 ? "infinity" : "negative infinity")) bad("weight", "the optimum is unbounded"); stats().inc("unbounded"); return; }
        long w = 0; try { w = d.wt >= wVecUint ? enc(j["weight"].get<std::vector<long>>()) : j["weight"].get<long>(); } catch (const std::exception&) { bad("weight", "the weight has a wrong form"); }
        if (w != sign * ref.best) bad("weight", "the optimum is " + std::to_string(sign * ref.best)); if (w) stats().inc("nonzero_optimum"); }
    else if (j.contains("weight")) bad("weight", "a weight for an unweighted search");
    std::vector<Conf> tr; if (!j["trace"].is_array() || j["trace"].empty()) bad("trace", "no trace");
    for (auto& s : j["trace"]) { Conf c; if (d.names) { if (s["state"].is_number_unsigned() && s["state"].get<size_t>() < order.size()) s["state"] = order[s["state"].get<size_t>()]; auto it = std::find(d.state.begin(), d.state.end(), s["state"].is_string() ? s["state"].get<std::string>() : std::string("?!")); if (it == d.state.end()) bad("trace", "unknown state"); c.first = (int)(it - d.state.begin()); } else { if (!s["state"].is_number_unsigned() || s["state"].get<size_t>() >= (size_t)p.n) bad("trace", "unknown state"); c.first = s["state"].get<int>(); }
        for (auto& l : s["stack"]) { auto it = std::find(d.label.begin(), d.label.end(), l.get<std::string>()); if (it == d.label.end()) bad("trace", "unknown label"); c.second.push_back((int)(it - d.label.begin())); } tr.push_back(c); }
    long mw = 0; auto e = check_trace(p, init, fin, tr, mw, sign); if (!e.empty()) bad("trace", e); if (t >= 2 && mw != ref.best) bad("trace", "the trace costs " + std::to_string(sign * mw) + ", the optimum is " + std::to_string(sign * ref.best));
    stats().inc("traces_replayed"); if (tr.size() > 2) stats().inc("long_traces");
}
static Doc make_doc(Rng& g, bool plain_labels, WT wt, bool names) {
    Doc d = gen_doc(g, wt, names); for (auto& x : d.p.rules) if (x.w > 100000 || x.w < -100000) x.w = wt == wUint ? x.w % 7 : x.w % 4; // sums stay representable
    if (plain_labels) { for (int i = 0; i < d.p.m; ++i) d.label[(size_t)i] = name(i); for (int i = 0; i < d.p.n; ++i) if (d.state[(size_t)i] == "\n") d.state[(size_t)i] = "nl"; }
    return d;
}
static RPda scalar(const Doc& d) { RPda p = d.p; if (d.wt >= wVecUint) for (size_t i = 0; i < p.rules.size(); ++i) p.rules[i].w = enc(d.vw[i]); if (d.wt == wNone) for (auto& x : p.rules) x.w = 0; return p; }
static void run(Rng& g, bool separate, bool text) {
    WT wt = (WT)g.below(separate ? 3 : 5); bool names = g.chance(50); Doc d = make_doc(g, text, wt, names); Writer w(g); Dir dir; RAut init = d.init, fin = d.fin;
    int engine = g.chance(4) ? 0 : g.in(1, 3), t = wt == wNone ? g.below(2) : wt == wUint ? g.below(5) : wt == wInt ? (const int[]){0, 1, 3, 4}[g.below(4)] : wt == wVecUint ? g.below(5) : (const int[]){0, 1, 3, 4}[g.below(4)];
    bool nonneg = true; for (auto& x : d.p.rules) nonneg &= x.w >= 0; if (wt == wInt && nonneg && g.chance(50)) t = 2;
    bool silent = g.chance(40); std::vector<std::string> args; std::string input; auto opt = [&](const std::string& l, const std::string& s, const std::string& v) { switch (g.below(s.empty() ? 2 : 4)) { case 0: args.push_back("--" + l + "=" + v); break; case 1: args.push_back("--" + l); args.push_back(v); break; case 2: args.push_back("-" + s); args.push_back(v); break; default: args.push_back("-" + s + v); } };
    std::string docs; std::vector<std::string> order; auto in_order = [&](const std::string& t) { if (names) order = mention_order(nlohmann::ordered_json::parse(t)); };
    if (separate) {
        auto pda = pda_json(d, w); in_order(pda); std::string ia, fa;
        if (text) { auto kl = printed_labels(d); for (int x : std::set<int>(kl)) if (!pda_labels(d).count(x)) kl.erase(x); bool all = (int)kl.size() == d.p.m; ia = text_aut(g, d, init, all); fa = text_aut(g, d, fin, all); } else { ia = aut_json(d, false, w); fa = aut_json(d, true, w); args.push_back("--json-automata"); }
        docs = pda + " || " + ia + " || " + fa; if (g.chance(15)) { input = pda; opt("pda", "p", "-"); } else opt("pda", "p", dir.put("pda.json", pda)); opt("initial-automaton", "i", dir.put("init", ia)); opt("final-automaton", "f", dir.put("final", fa));
        if (wt != wNone || g.chance(30)) { std::string n = wt == wNone ? "none" : wt == wUint ? "uint" : "int"; if (g.chance(20)) for (auto& c : n) if (g.chance(50)) c = (char)toupper(c); opt("weight", "", n); } if (names) args.push_back("--state-names"); if (g.chance(15)) opt("format", "", g.chance(50) ? "pdaaal" : "PDAAAL");
        stats().inc(text ? "text_automata" : "json_automata");
    } else {
        docs = inst_json(d, w); in_order(docs);
        if (g.chance(25)) { auto sorted = json::parse(docs); if (names) order = mention_order(sorted); auto v = json::to_msgpack(sorted); std::string b(v.begin(), v.end()); args.push_back("--msgpack"); if (g.chance(50)) opt("input", "", dir.put("i.msgpack", b)); else input = b; stats().inc("msgpack"); }
        else if (g.chance(30)) { input = docs; if (g.chance(50)) opt("input", "", "-"); stats().inc("stdin"); } else opt("input", "", dir.put("i.json", docs));
    }
    if (engine || g.chance(50)) opt("engine", "e", std::to_string(engine)); if (t || g.chance(50)) opt("trace", "t", std::to_string(t)); if (silent) args.push_back(g.chance(50) ? "-s" : "--silent");
    std::string pj, ij; if (g.chance(30)) { pj = dir.path("out.pda"); opt("print-pda-json", "", pj); } if (g.chance(40)) { ij = dir.path("out.inst"); opt("print-solver-instance", "", ij); }
    std::string as; for (auto& a : args) as += a + " "; describe("pdaaal " + as + " documents: " + docs); stats().sig(hash_str(docs + std::to_string(engine) + std::to_string(t)));
    auto p = scalar(d); judge(order, d, p, init, fin, engine, t, silent, tool(args, input), "run"); stats().inc("runs");
    if (!ij.empty()) { auto s = Dir::get(ij); try { (void)json::parse(s); } catch (const std::exception& e) { fail("cli-printed-instance", std::string("not JSON: ") + e.what()); }
        in_order(s); int e2 = g.in(1, 3); judge(order, d, p, init, fin, e2, t, true, tool({"--input", ij, "-e", std::to_string(e2), "-t", std::to_string(t), "-s"}), "printed instance"); stats().inc("printed_instances"); }
    if (!pj.empty() && separate) { auto a2 = args; for (auto& x : a2) { if (x == pj || x == "--print-pda-json=" + pj) x = x.substr(0, x.size() - pj.size()) + dir.path("out2.pda"); if (x.find("pda.json") != std::string::npos) x = x.substr(0, x.find(dir.d)) + pj; if (x == "-p-" || x == "--pda=-") x = "--pda=" + pj; } for (size_t i = 1; i < a2.size(); ++i) if (a2[i] == "-" && (a2[i-1] == "-p" || a2[i-1] == "--pda")) a2[i] = pj;
        in_order(Dir::get(pj)); judge(order, d, p, init, fin, engine, t, silent, tool(a2), "printed system"); stats().inc("printed_systems"); }
}
// The tool in a process of its own: main() may also end the process.
static Out tool_process(const std::vector<std::string>& args, Dir& dir) {
    auto f = dir.path("stdout"); Out o; fflush(stdout); pid_t c = fork();
    if (c == 0) { int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), nul = ::open("/dev/null", O_RDWR); dup2(nul, 0); dup2(fd, 1); dup2(nul, 2); std::vector<const char*> a{"pdaaal"}; for (auto& x : args) a.push_back(x.c_str()); a.push_back(nullptr); int rc = 99; try { rc = pdaaal_main((int)a.size() - 1, a.data()); std::cout.flush(); } catch (const std::exception&) { std::cout.flush(); rc = 98; } _exit(rc); }
    int st = 0; waitpid(c, &st, 0); o.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); o.threw = false; o.out = Dir::get(f); return o;
}
static void errors(Rng& g, uint64_t) { // a run that cannot be answered ends with an error and prints no verdict
    WT wt = (WT)g.below(3); bool names = g.chance(50); Doc d = make_doc(g, false, wt, names); Writer w(g); Dir dir; auto inst = inst_json(d, w); std::string what; std::vector<std::string> args; int e = g.in(1, 3); std::string input;
    bool own = false;
    switch (g.below(11)) {
        case 0: what = "missing input file"; args = {"--input", dir.d + "/nothing"}; break;
        case 1: what = "truncated input"; while (!inst.empty() && isspace((unsigned char)inst.back())) inst.pop_back(); args = {"--input", dir.put("i", inst.substr(0, (size_t)g.below((int)inst.size())))}; break;
        case 2: what = "unknown engine"; e = g.in(4, 20); args = {"--input", dir.put("i", inst)}; break;
        case 3: what = "unknown trace type"; args = {"--input", dir.put("i", inst), "-t", g.chance(50) ? "5" : "x"}; break;
        case 4: what = "missing system"; args = {"--pda", dir.d + "/nothing", "-i", dir.put("i", aut_json(d, false, w)), "-f", dir.put("f", aut_json(d, true, w)), "--json-automata"}; break;
        case 5: what = "missing automaton"; args = {"--pda", dir.put("p", pda_json(d, w)), "-i", dir.d + "/nothing", "-f", dir.put("f", aut_json(d, true, w)), "--json-automata", "--weight", wt == wNone ? "none" : wt == wUint ? "uint" : "int"}; if (names) args.push_back("--state-names"); break;
        case 6: what = "unknown weight type"; args = {"--pda", dir.put("p", pda_json(d, w)), "-i", dir.put("i", aut_json(d, false, w)), "-f", dir.put("f", aut_json(d, true, w)), "--json-automata", "--weight", "uints"}; if (names) args.push_back("--state-names"); break;
        case 7: what = "unknown option"; args = {"--input", dir.put("i", inst), "--no-such-option"}; break;
        case 8: own = true; what = "unwritable output"; args = {"--input", dir.put("i", inst), g.chance(50) ? "--print-pda-json" : "--print-solver-instance", dir.d + "/no/such/directory"}; if (g.chance(50)) { args.push_back("-t"); args.push_back("1"); } break;
        case 9: own = true; if (wt != wNone) { d = make_doc(g, false, wNone, names); inst = inst_json(d, w); } what = "weighted search without weights"; args = {"--input", dir.put("i", inst), "-t", std::to_string(g.in(2, 4))}; break;
        default: what = "unsupported format"; args = {"--pda", dir.put("p", pda_json(d, w)), "-i", dir.put("i", aut_json(d, false, w)), "-f", dir.put("f", aut_json(d, true, w)), "--json-automata", "--format", g.chance(50) ? "moped" : "json"}; if (names) args.push_back("--state-names"); break;
    }
    args.push_back("-e"); args.push_back(std::to_string(e)); std::string as; for (auto& a : args) as += a + " "; describe(what + ": pdaaal " + as + inst); stats().sig(hash_str(current()));
    auto o = own ? tool_process(args, dir) : tool(args, input); stats().inc("error: " + what);
    if (!o.threw && o.rc == 0) fail("cli-error", what + " is not reported as an error"); if (o.out.find("\"result\"") != std::string::npos) fail("cli-error", what + ": a verdict is printed"); stats().inc("errors_reported");
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, { {"instance", [](Rng& g, uint64_t) { run(g, false, false); }, 4}, {"files", [](Rng& g, uint64_t) { run(g, true, false); }, 3}, {"text", [](Rng& g, uint64_t) { run(g, true, true); }, 3}, {"errors", errors, 1} });
}
