// Reads a printed graph back: nodes, accepting nodes, initial nodes and labelled edges.
#pragma once
#include "common.h"
#include <map>
#include <set>
#include <sstream>
namespace vf {
struct DotLabel { bool neg = false, all = false, eps = false; std::map<std::string,std::string> sym; std::string epsw; bool operator<(const DotLabel& o) const { return std::tie(neg, all, eps, sym, epsw) < std::tie(o.neg, o.all, o.eps, o.sym, o.epsw); } bool operator==(const DotLabel& o) const { return !(*this < o) && !(o < *this); } };
struct Dot { std::set<std::string> nodes, accepting, initial; std::multiset<std::tuple<std::string,std::string,DotLabel>> edges; };
inline std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return s.substr(i); }
inline std::pair<std::string,std::string> sym_weight(const std::string& t) { auto o = t.find('('); if (o == std::string::npos) return {trim(t), ""}; return {trim(t.substr(0, o)), t.substr(o + 1, t.rfind(')') - o - 1)}; }
inline DotLabel dot_label(std::string s) { DotLabel l; s = trim(s);
    if (auto p = s.find("\xF0\x9D\x9C\x80"); p != std::string::npos) { l.eps = true; l.epsw = sym_weight(s.substr(p)).second; s = trim(s.substr(0, p)); }
    if (!s.empty() && s[0] == '^') { l.neg = true; s = s.substr(1); } if (s == "*") { l.all = true; return l; } if (s.empty()) return l;
    if (s.rfind("\\[", 0) != 0 || s.size() < 4 || s.substr(s.size() - 2) != "\\]") fail("graph", "cannot read the edge label '" + s + "'"); s = s.substr(2, s.size() - 4);
    size_t depth = 0; std::string cur; auto put = [&] { auto [a, w] = sym_weight(cur); if (!l.sym.emplace(a, w).second) fail("graph", "label " + a + " is listed twice on an edge"); cur.clear(); };
    for (char c : s) { if (c == '(' || c == '[') ++depth; if (c == ')' || c == ']') --depth; if (c == ',' && !depth) put(); else cur.push_back(c); } put(); return l; }
inline Dot read_dot(const std::string& text) { Dot d; std::stringstream in(text); std::string line; bool open = false, closed = false;
    auto quoted = [&](size_t& p) -> std::string { auto a = line.find('"', p); auto b = a == std::string::npos ? a : line.find('"', a + 1); if (b == std::string::npos) fail("graph", "cannot read the line '" + line + "'"); p = b + 1; return line.substr(a + 1, b - a - 1); };
    while (std::getline(in, line)) { auto t = trim(line); if (t.empty()) continue; if (t.rfind("digraph", 0) == 0) { open = true; continue; } if (t == "}") { closed = true; continue; } if (!open || closed) fail("graph", "text outside the graph");
        size_t p = 0; auto from = quoted(p); auto arrow = line.find("->", p); if (arrow == std::string::npos || line.find('[') < arrow) { if (line.find("invisible") != std::string::npos) continue; if (!d.nodes.insert(from).second) fail("graph", "state " + from + " is listed twice"); if (line.find("doublecircle") != std::string::npos) d.accepting.insert(from); else if (line.find("circle") == std::string::npos) fail("graph", "a state without a shape"); continue; }
        p = arrow; auto to = quoted(p); auto lab = line.find("label=", p); if (lab == std::string::npos) { if (from != "I" + to) fail("graph", "an arrow without a label that marks no initial state"); if (!d.initial.insert(to).second) fail("graph", "initial state listed twice"); continue; }
        p = lab; d.edges.emplace(from, to, dot_label(quoted(p))); }
    if (!open || !closed) fail("graph", "the graph is not closed"); return d; }
}
