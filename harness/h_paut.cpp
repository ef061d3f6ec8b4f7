// The textual P-automaton format: every generated text has a known set of accepted configurations; an independent recogniser decides which texts are well formed.
#include "build_inst.h"
#include "re.h"
#include <parsing/PAutomatonParser.h>
using namespace vf;
using Word = std::vector<int>;
template<typename W, typename S> using Sys = PDA<std::string,W,fut::type::vector,S>;
static const std::vector<std::string>& pool() { static std::vector<std::string> p{"p", "q0", "_s", "Long_State_Name_42", "7", "007", "12", "a b", "\"q\"", "back\\slash", "", "x,y", "]", ">", "# no comment", "\xc3\xa9t\xc3\xa9", "|", "\\", "<p,[a]>", "p1"}; return p; }
static bool bare(const std::string& s) { if (s.empty()) return false; if (std::all_of(s.begin(), s.end(), [](unsigned char c) { return isdigit(c); })) return true; if (!isalpha((unsigned char)s[0]) && s[0] != '_') return false; return std::all_of(s.begin(), s.end(), [](unsigned char c) { return isalnum(c) || c == '_'; }); }
static std::string quote(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
template<typename S> static S to_state(const std::vector<std::string>& names, int i) { if constexpr (std::is_same_v<S,std::string>) return names[(size_t)i]; else return (size_t)i; }
struct Setup { int n, m, known; std::vector<std::string> names; };
template<typename S> static Setup setup(Rng& g) {
    Setup s; s.n = g.in(1, 4); s.m = g.in(1, 4); s.known = g.chance(60) ? s.m : g.below(s.m + 1);
    if constexpr (std::is_same_v<S,std::string>) { auto p = pool(); for (size_t i = p.size(); i > 1; --i) std::swap(p[i-1], p[(size_t)g.below((int)i)]); for (int i = 0; i < s.n; ++i) s.names.push_back(g.chance(40) ? "s" + std::to_string(i) : p[(size_t)i]); }
    else for (int i = 0; i < s.n; ++i) s.names.push_back(std::to_string(i));
    return s;
}
template<typename W, typename S> static Sys<W,S> make(Rng& g, const Setup& s) {
    Sys<W,S> pda; std::vector<int> order((size_t)s.known); std::iota(order.begin(), order.end(), 0); for (size_t i = order.size(); i > 1; --i) std::swap(order[i-1], order[(size_t)g.below((int)i)]);
    for (int x : order) pda.insert_label(name(x));
    for (int i = 0; i < s.n; ++i) pda.insert_state(to_state<S>(s.names, i));
    return pda;
}
struct Atom { std::set<int> states; ReP re; };
static void letters(const ReP& r, std::set<int>& out, bool& neg) { if (!r) return; if (r->k == Re::SET) { out.insert(r->s.begin(), r->s.end()); neg |= r->neg; } letters(r->a, out, neg); letters(r->b, out, neg); }
static std::string show_atom(Rng& g, const Setup& s, const Atom& a, bool fancy) {
    auto tok = [&](int i) { auto& n = s.names[(size_t)i]; return bare(n) && g.chance(80) ? n : quote(n); };
    std::vector<int> v(a.states.begin(), a.states.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[(size_t)g.below((int)i)]); if (g.chance(20)) v.push_back(v[0]);
    std::string o = "<" + ws(g, fancy); if (v.size() == 1 && g.chance(60)) o += tok(v[0]); else { o += "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? ws(g, fancy) + "," + ws(g, fancy) : "") + tok(v[i]); o += "]"; }
    return o + ws(g, fancy) + "," + ws(g, fancy) + (g.chance(50) ? " " : "") + (a.re->k == Re::EPS ? "" : show(a.re, g, fancy)) + ws(g, fancy) + ">";
}
template<TraceInfoType tit, typename P> static auto parse_it(const std::string& text, P& pda, bool file) {
    if (!file) return parsing::PAutomatonParser::parse_string<tit>(text, pda);
    char f[] = "/tmp/vpaXXXXXX"; int fd = mkstemp(f); write_all(fd, text); ::close(fd);
    try { auto r = parsing::PAutomatonParser::parse_file<tit>(f, pda); unlink(f); return r; } catch (...) { unlink(f); throw; }
}
template<typename W, typename S, TraceInfoType tit> static void meaning(Rng& g, uint64_t idx) {
    auto s = setup<S>(g); auto pda = make<W,S>(g, s); std::vector<Atom> atoms; bool neg = false; std::set<int> used;
    int k = g.in(1, 3); for (int i = 0; i < k; ++i) { Atom a; int c = g.in(1, s.n); for (int j = 0; j < c; ++j) a.states.insert(g.below(s.n)); a.re = g.chance(8) ? mk(Re::EPS) : gen(g, s.m, g.in(0, 3), true); letters(a.re, used, neg); atoms.push_back(a); }
    if (neg) for (int x = 0; x < s.m; ++x) pda.insert_label(name(x)); // negated sets range over the labels of the system
    bool fancy = g.chance(60); std::string text = ws(g, fancy); for (size_t i = 0; i < atoms.size(); ++i) text += (i ? ws(g, fancy) + "|" + ws(g, fancy) : "") + show_atom(g, s, atoms[i], fancy); text += ws(g, fancy) + (fancy && g.chance(20) ? "# end" : "");
    std::string st; for (auto& n : s.names) st += quote(n) + " "; describe("states " + st + "text " + text); stats().sig(hash_str(current()));
    auto states_before = pda.states().size();
    using A = decltype(parse_it<tit>(text, pda, false)); std::optional<A> a;
    try { a.emplace(parse_it<tit>(text, pda, idx % 8 == 0)); } catch (const std::exception& e) { fail("paut-text-rejected", std::string("a well-formed text is rejected: ") + e.what()); }
    if (pda.states().size() != states_before) fail("paut-text-states", "parsing an automaton changed the states of the system");
    for (int x : used) if (!pda.exists_label(name(x)).first) fail("paut-text-labels", "label " + name(x) + " of the text is unknown afterwards");
    if (pda.number_of_labels() > (size_t)s.m) fail("paut-text-labels", "labels that do not occur anywhere were invented");
    uint64_t acc = 0, rej = 0;
    for (int p = 0; p < s.n; ++p) { size_t id = pda.exists_state(to_state<S>(s.names, p)).second; words(s.m, s.m >= 3 ? 3 : 4, [&](const Word& w) {
        std::vector<uint32_t> st; for (int x : w) { auto e = pda.exists_label(name(x)); if (!e.first) return; st.push_back(e.second); }
        bool want = false; for (auto& at : atoms) want |= at.states.count(p) && matches(at.re, w); (want ? acc : rej)++;
        if (a->accepts(id, st) != want) { std::string ww; for (int x : w) ww += name(x) + " "; fail("paut-text-language", "<" + quote(s.names[(size_t)p]) + ", " + ww + "> is " + (want ? "rejected" : "accepted")); } }); }
    stats().inc("configurations_accepted", acc); stats().inc("configurations_rejected", rej); if (acc && rej) stats().inc("nontrivial_texts"); if (atoms.size() > 1) stats().inc("unions"); stats().inc("texts_parsed");
}
// ---- syntax ----
struct Rec { const std::string& s; std::function<bool(const std::string&, bool)> known; size_t p = 0;
    bool eof() { return p >= s.size(); } bool at(char c) { return !eof() && s[p] == c; }
    void skip() { while (!eof()) { char c = s[p]; if (c == ' ' || (c >= '\t' && c <= '\r')) ++p; else if (c == '#') { while (!eof() && s[p] != '\n') ++p; if (!eof()) ++p; } else break; } }
    bool lab() { size_t b = p; while (!eof() && (isalnum((unsigned char)s[p]) || s[p] == '_')) ++p; return p > b; }
    bool atom() { if (eof()) return false; if (at('.')) { ++p; return true; } if (at('(')) { ++p; skip(); if (!expr()) throw 1; skip(); if (!at(')')) throw 1; ++p; return true; }
        if (at('[')) { ++p; if (at('^')) ++p; if (!lab()) throw 1; while (true) { size_t b = p; skip(); if (at(',')) { ++p; skip(); if (!lab()) throw 1; } else { p = b; break; } } if (!at(']')) throw 1; ++p; return true; } return false; }
    bool unary() { if (!atom()) return false; if (at('*') || at('+') || at('?')) ++p; return true; }
    bool seq() { if (!unary()) return false; while (true) { size_t b = p; skip(); if (!unary()) { p = b; break; } } return true; }
    bool expr() { if (!seq()) return false; while (true) { size_t b = p; skip(); if (at('|')) { ++p; skip(); if (!seq()) throw 1; } else { p = b; break; } } return true; }
    bool state() { if (eof()) return false; size_t b = p;
        if (isdigit((unsigned char)s[p])) { while (!eof() && isdigit((unsigned char)s[p])) ++p; if (!known(s.substr(b, p - b), false)) throw 1; return true; }
        if (isalpha((unsigned char)s[p]) || at('_')) { while (!eof() && (isalnum((unsigned char)s[p]) || s[p] == '_')) ++p; if (!known(s.substr(b, p - b), false)) throw 1; return true; }
        if (!at('"')) return false; ++p; std::string v;
        while (true) { if (eof()) throw 1; if (at('"')) { ++p; break; } if (at('\\')) { ++p; if (!at('"') && !at('\\')) throw 1; v += s[p++]; continue; } unsigned char c = (unsigned char)s[p]; if (c < 0x20) throw 1; v += s[p++]; }
        if (!known(v, true)) throw 1; return true; }
    bool patom() { if (!at('<')) return false; ++p; skip(); if (at('[')) { ++p; if (!state()) throw 1; while (true) { size_t b = p; skip(); if (at(',')) { ++p; skip(); if (!state()) throw 1; } else { p = b; break; } } if (!at(']')) throw 1; ++p; } else if (!state()) return false;
        skip(); if (!at(',')) return false; ++p; skip(); expr(); skip(); if (!at('>')) return false; ++p; return true; }
    bool file() { try { skip(); if (!patom()) return false; while (true) { skip(); if (at('|')) { ++p; skip(); if (!patom()) return false; } else break; } return eof(); } catch (int) { return false; } }
};
template<typename S> static void syntax(Rng& g, uint64_t) {
    using W = weight<void>; auto s = setup<S>(g); auto pda = make<W,S>(g, s); std::string text;
    int k = g.in(1, 2); bool fancy = g.chance(50); for (int i = 0; i < k; ++i) { Atom a; int c = g.in(1, s.n); for (int j = 0; j < c; ++j) a.states.insert(g.below(s.n)); a.re = g.chance(15) ? mk(Re::EPS) : gen(g, s.m, g.in(0, 2), true); text += (i ? ws(g, fancy) + "|" + ws(g, fancy) : "") + show_atom(g, s, a, fancy); }
    static const char cs[] = "<<>>,,|[](),.^*+?# \n\"\\\"ab_1p0"; int e = g.in(0, 3);
    for (int i = 0; i < e; ++i) { size_t pos = (size_t)g.below((int)text.size() + 1); if (g.chance(15)) { static const char* un[] = {"nosuch", "\"nosuch\"", "99", "\"a\\nb\"", "\"99\""}; text.insert(pos, un[g.below(5)]); continue; } switch (g.below(3)) { case 0: text.insert(text.begin() + (long)pos, cs[g.below((int)sizeof(cs) - 1)]); break; case 1: if (pos < text.size()) text.erase(text.begin() + (long)pos); break; default: if (pos < text.size()) text[pos] = cs[g.below((int)sizeof(cs) - 1)]; } }
    for (unsigned char c : text) if (c >= 0x80) { text.erase(std::remove_if(text.begin(), text.end(), [](unsigned char c) { return c >= 0x80; }), text.end()); break; } // edits may have cut a character in two
    bool unclear = false; Rec rec{text, [&](const std::string& v, bool) {
        if constexpr (std::is_same_v<S,std::string>) return std::find(s.names.begin(), s.names.end(), v) != s.names.end();
        else { if (v.empty() || !std::all_of(v.begin(), v.end(), [](unsigned char c) { return isdigit(c); })) { if (!v.empty() && (isdigit((unsigned char)v[0]) || isspace((unsigned char)v[0]) || v[0] == '+' || v[0] == '-')) unclear = true; return false; } return v.size() < 12 && std::stoul(v) < (unsigned long)s.n; } }};
    std::string st; for (auto& n : s.names) st += quote(n) + " "; describe("states " + st + "text " + text); stats().sig(hash_str(current()));
    bool want = rec.file(), got = false; std::string err;
    try { auto a = parsing::PAutomatonParser::parse_string(text, pda); got = true; } catch (const std::exception& e) { err = e.what(); }
    if (unclear) { stats().inc("numbers_with_decoration"); return; }
    stats().inc(want ? "syntax_valid" : "syntax_invalid");
    if (got != want) fail("paut-text-syntax", got ? "text outside the grammar or naming an unknown state is accepted" : "well-formed text is rejected: " + err);
    if (!got && err.empty()) fail("paut-text-error", "rejected without a message");
}
template<typename S> static void noise(Rng& g, uint64_t) { // arbitrary bytes: refused or accepted, never a crash
    auto s = setup<S>(g); auto pda = make<weight<uint32_t>,S>(g, s); std::string text; int n = g.below(30); static const char cs[] = "<p0,[a]*|>\"\\. #\n"; for (int i = 0; i < n; ++i) text += g.chance(80) ? cs[g.below((int)sizeof(cs) - 1)] : (char)g.below(256); if (g.chance(60)) text = "<\"" + text; 
    describe("bytes " + one_line(text)); stats().sig(hash_str(text));
    try { auto a = parsing::PAutomatonParser::parse_string(text, pda); stats().inc("noise_accepted"); } catch (const std::exception& e) { stats().inc("noise_refused"); }
}
int main(int argc, char** argv) {
    return main_driver(argc, argv, {
        {"text_named", meaning<weight<void>,std::string,TraceInfoType::Single>, 3}, {"text_indexed", meaning<weight<void>,size_t,TraceInfoType::Single>, 2}, {"text_weighted", meaning<weight<int32_t>,std::string,TraceInfoType::Pair>, 2},
        {"syntax_named", syntax<std::string>, 4}, {"syntax_indexed", syntax<size_t>, 3}, {"noise_named", noise<std::string>, 1}, {"noise_indexed", noise<size_t>, 1} });
}
