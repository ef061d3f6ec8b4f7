// Weight domains, containers, paths, dictionaries and the rule store against plain models.
#include "build_inst.h"
#include <pdaaal/Weight.h>
#include <pdaaal/AutomatonPath.h>
#include <pdaaal/utils/fut_set.h>
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/flags.h>
#include <pdaaal/utils/vector_printer.h>
#include <pdaaal/utils/ptrie_interface.h>
using namespace vf;
using I = __int128;
// ---------------------------------------------------------------- weights
template<typename T, bool mx> struct Dom {
    using M = std::conditional_t<mx, max_weight<T>, min_weight<T>>; static constexpr bool sg = std::numeric_limits<T>::is_signed; static constexpr bool fl = std::is_floating_point_v<T>;
    static T worst() { return mx && sg ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max(); }
    static T best() { return mx ? (sg ? std::numeric_limits<T>::max() : std::numeric_limits<T>::max() - 1) : std::numeric_limits<T>::lowest(); }
    static constexpr bool has_best = mx || sg; // for unsigned minimisation the best value is the ordinary zero
    static I wide(T v) { return fl ? (I)(v * 4) : (I)v; }
    static T pick(Rng& g) { switch (g.below(8)) { case 0: return worst(); case 1: return best(); case 2: return 0; case 3: return (T)1; case 4: if constexpr (!fl) { T v = std::numeric_limits<T>::max(); return (T)(v - (T)g.below(5)); } [[fallthrough]]; case 5: if constexpr (!fl) { T v = std::numeric_limits<T>::lowest(); return (T)(v + (T)g.below(5)); } [[fallthrough]]; case 6: if constexpr (!fl) return (T)g.next(); [[fallthrough]]; default: if constexpr (fl) return (T)((g.below(2000001) - 1000000) / 4.0); else return (T)(sg ? g.below(41) - 20 : g.below(21)); } }
    static T small(Rng& g) { return g.chance(12) ? worst() : g.chance(8) ? best() : (T)(sg ? g.below(21) - 10 : g.below(11)); }
    static int rank(T v) { return v == worst() ? 2 : has_best && v == best() ? 0 : 1; }
    static bool less(T a, T b) { int ra = rank(a), rb = rank(b); if (ra != rb) return ra < rb; if (ra != 1) return false; return mx ? wide(a) > wide(b) : wide(a) < wide(b); }
    static std::optional<T> add(T a, T b) { // nothing: the exact sum lies beyond the worst value, which the domain cannot represent
        if (rank(a) == 2 || rank(b) == 2) return worst(); if (rank(a) == 0 || rank(b) == 0) return best();
        I s = wide(a) + wide(b); if (fl) return a + b; if (has_best && (mx ? s >= wide(best()) : s <= wide(best()))) return best();
        if (mx ? s <= wide(worst()) && sg : s >= wide(worst())) return std::nullopt; return (T)s; }
};
template<typename T> static std::string sv(T v) { std::ostringstream o; o << +v; return o.str(); }
template<typename T, bool mx> static void scalar(Rng& g) {
    using D = Dom<T,mx>; using M = typename D::M; T a = D::pick(g), b = D::pick(g), c = D::pick(g);
    describe(std::string(mx ? "max" : "min") + " weights of " + std::to_string(sizeof(T)) + (D::fl ? " bytes, floating" : D::sg ? " bytes, signed" : " bytes, unsigned") + ": " + sv(a) + " " + sv(b) + " " + sv(c)); stats().sig(hash_str(current()));
    if (M::zero() != 0 || M::max() != D::worst() || M::bottom() != D::best()) fail("weight-constants", "zero, max or bottom is wrong");
    auto ls = [&](T x, T y) { bool r = M::less(x, y); if (r != D::less(x, y)) fail("weight-less", "less(" + sv(x) + "," + sv(y) + ") is " + (r ? "true" : "false")); stats().inc("weight_comparisons"); return r; };
    for (T x : {a, b, c, (T)M::max(), (T)M::bottom(), (T)0}) for (T y : {a, b, c, (T)M::max(), (T)M::bottom(), (T)0}) ls(x, y);
    auto ad = [&](T x, T y) -> std::optional<T> { auto w = D::add(x, y); if (!w) { stats().inc("weight_sums_beyond_range"); return w; } T r = M::add(x, y); stats().inc(D::rank(*w) == 1 ? "weight_sums" : "weight_sums_infinite"); if (r != *w) fail("weight-add", sv(x) + " + " + sv(y) + " = " + sv(r) + ", expected " + sv(*w)); return r; };
    for (T x : {a, b, c, (T)M::max(), (T)M::bottom(), (T)0}) for (T y : {a, b, c}) { ad(x, y); ad(y, x); }
    if (auto x = ad(a, b)) if (auto y = ad(b, c)) { if (auto l = ad(*x, c)) if (auto r = ad(a, *y)) if (D::rank(*x) != 0 && D::rank(*y) != 0 && *l != *r) fail("weight-assoc", "addition is not associative"); }
    if (ls(a, b)) if (auto x = D::add(a, c)) if (auto y = D::add(b, c)) if (M::less(*y, *x)) fail("weight-monotone", "adding the same weight reversed an order");
    std::ostringstream o; weight<T>::print(o, a); std::ostringstream e; e << a; if (o.str() != e.str()) fail("weight-print", "printed " + o.str());
}
template<typename T, bool mx, size_t N> static void arr(Rng& g) {
    using D = Dom<T,mx>; using A = std::array<T,N>; using M = std::conditional_t<mx, max_weight<A>, min_weight<A>>; A v[3]; for (auto& x : v) for (auto& y : x) y = D::small(g); if (g.chance(50)) for (size_t i = 0; i + 1 < N; ++i) v[1][i] = v[0][i];
    std::string d = std::string(mx ? "max" : "min") + " array weights " + (D::sg ? "signed" : "unsigned"); for (auto& x : v) { d += " ["; for (auto y : x) d += sv(y) + " "; d += "]"; } describe(d); stats().sig(hash_str(d));
    for (auto& e : M::zero()) if (e != 0) fail("weight-constants", "array zero"); for (auto& e : M::max()) if (e != D::worst()) fail("weight-constants", "array max"); for (auto& e : M::bottom()) if (e != D::best()) fail("weight-constants", "array bottom");
    for (auto& x : v) for (auto& y : v) { bool w = false; for (size_t i = 0; i < N; ++i) { if (D::less(x[i], y[i])) { w = true; break; } if (D::less(y[i], x[i])) break; } if (M::less(x, y) != w) fail("weight-less", "array comparison is not lexicographic"); auto fin = [](const A& a) { for (auto& e : a) if (D::rank(e) != 1) return false; return true; }; A s = M::add(x, y); if (fin(x) && fin(y)) { for (size_t i = 0; i < N; ++i) if (s[i] != *D::add(x[i], y[i])) fail("weight-add", "array addition is not element-wise"); } else if (fin(x)) stats().inc("weight_array_partly_infinite");
        if (fin(x)) { if (M::add(x, M::max()) != M::max() || M::add(M::max(), x) != M::max()) fail("weight-add", "the infinite array weight is not absorbing"); if ((mx || D::sg) && (M::add(x, M::bottom()) != M::bottom() || M::add(M::bottom(), x) != M::bottom())) fail("weight-add", "the unbounded array weight is not absorbing"); }
        stats().inc("weight_array_ops"); }
}
template<typename T, bool mx> static void vec(Rng& g) {
    using D = Dom<T,mx>; using A = std::vector<T>; using M = std::conditional_t<mx, max_weight<A>, min_weight<A>>; A v[3]; for (auto& x : v) { int n = g.below(4); for (int i = 0; i < n; ++i) x.push_back((T)(D::sg ? g.below(7) - 3 : g.below(4))); } if (g.chance(50)) { v[1] = v[0]; v[1].push_back((T)(D::sg ? g.below(3) - 1 : g.below(2))); if (g.chance(40)) v[1].push_back((T)g.below(2)); }
    std::string d = std::string(mx ? "max" : "min") + " vector weights " + (D::sg ? "signed" : "unsigned"); for (auto& x : v) { d += " ["; for (auto y : x) d += sv(y) + " "; d += "]"; } describe(d); stats().sig(hash_str(d));
    if (M::max() != A{D::worst()} || M::bottom() != A{D::best()} || !M::zero().empty()) fail("weight-constants", "vector constants");
    for (auto& x : v) for (auto& y : v) { int c = 0; size_t n = std::max(x.size(), y.size()); for (size_t i = 0; i < n && !c; ++i) { T p = i < x.size() ? x[i] : 0, q = i < y.size() ? y[i] : 0; c = D::less(p, q) ? -1 : D::less(q, p) ? 1 : 0; }
        bool l = M::less(x, y); if (c < 0 && !l) fail("weight-less", "vector comparison misses an order (missing elements count as zero)"); if (c > 0 && l) fail("weight-less", "vector comparison reverses an order (missing elements count as zero)"); if (c == 0 && l && M::less(y, x)) fail("weight-less", "comparison is not antisymmetric"); if (x == y && l) fail("weight-less", "a weight is less than itself");
        A s = M::add(x, y); if (s.size() != n) fail("weight-add", "vector sum has the wrong length"); for (size_t i = 0; i < n; ++i) if (s[i] != *D::add(i < x.size() ? x[i] : 0, i < y.size() ? y[i] : 0)) fail("weight-add", "vector addition is not element-wise"); for (auto& z : v) { if (M::less(x, y) && M::less(y, z) && !M::less(x, z)) fail("weight-less", "comparison is not transitive"); A s1 = M::add(x, z), s2 = M::add(y, z); if (c < 0 && M::less(s2, s1)) fail("weight-monotone", "adding the same weight reversed an order"); if (M::add(M::add(x, y), z) != M::add(x, M::add(y, z))) fail("weight-assoc", "addition is not associative"); }
        if (M::add(x, M::max()) != M::max() || M::add(M::max(), x) != M::max()) fail("weight-add", "the infinite vector weight is not absorbing"); if ((mx || D::sg) && (M::add(x, M::bottom()) != M::bottom() || M::add(M::bottom(), x) != M::bottom())) fail("weight-add", "the unbounded vector weight is not absorbing");
        stats().inc("weight_vector_ops"); }
    std::ostringstream o; weight<A>::print(o, v[0]); std::string e = "["; for (size_t i = 0; i < v[0].size(); ++i) e += (i ? "," : "") + sv(v[0][i]); e += "]"; if (o.str() != e) fail("weight-print", "printed " + o.str()); std::ostringstream q; q << vector_printer() << v[0]; if (q.str() != e) fail("weight-print", "vector_printer gives " + q.str());
    { std::ostringstream q2; q2 << vector_printer("<", "; ", ">") << v[0]; std::string e2 = "<"; for (size_t i = 0; i < v[0].size(); ++i) e2 += (i ? "; " : "") + sv(v[0][i]); if (q2.str() != e2 + ">") fail("weight-print", "vector_printer gives " + q2.str()); }
}
template<typename W> static void linear(Rng& g) {
    using L = linear_weight_function<W,int,int>; std::string d; int scale = std::is_floating_point_v<W> ? 4 : 1; long big = sizeof(W) >= 8 && !std::is_floating_point_v<W> ? 1000000007L : 1;
    std::function<std::pair<L,std::function<long double(int,int)>>(int)> mk = [&](int dep) -> std::pair<L,std::function<long double(int,int)>> {
        if (dep == 0 || g.chance(30)) { long p = g.below(9) * big, q = g.below(9) * big, r = g.below(5); bool neg = std::is_signed_v<W> && g.chance(40); if (neg) p = -p; d += "(" + std::to_string(p) + "x+" + std::to_string(q) + "y+" + std::to_string(r) + ")/" + std::to_string(scale);
            return { L(std::function<W(int,int)>([=](int x, int y) { return (W)((W)(p * x + q * y + r) / (W)scale); })), [=](int x, int y) { return (long double)(p * x + q * y + r) / scale; } }; }
        int n = g.below(4); std::vector<std::pair<W,L>> fs; std::vector<std::pair<long double,std::function<long double(int,int)>>> ms; d += "{";
        for (int i = 0; i < n; ++i) { long k = g.below(6) + (std::is_signed_v<W> && g.chance(30) ? -5 : 0); d += std::to_string(k) + "/" + std::to_string(scale) + "*"; auto f = mk(dep - 1); fs.emplace_back((W)((W)k / (W)scale), f.first); ms.emplace_back((long double)k / scale, f.second); d += " "; } d += "}";
        return { L(fs), [ms](int x, int y) { long double s = 0; for (auto& [k, f] : ms) s += k * f(x, y); return s; } }; };
    std::vector<L> fs; std::vector<std::function<long double(int,int)>> ms; int n = g.in(1, 3); for (int i = 0; i < n; ++i) { auto f = mk(2); fs.push_back(f.first); ms.push_back(f.second); d += "; "; }
    describe("weight functions over " + std::to_string(sizeof(W)) + " bytes: " + d); stats().sig(hash_str(d)); ordered_weight_function<W,int,int> o(fs);
    for (int t = 0; t < 4; ++t) { int x = g.below(7), y = g.below(7); auto r = o(x, y); if (r.size() != (size_t)n) fail("weight-function", "number of components"); for (int i = 0; i < n; ++i) { W s = fs[i](x, y); if (s != r[i]) fail("weight-function", "component differs from its function"); if ((long double)s != ms[i](x, y)) fail("weight-function", "value " + sv(s) + " at (" + std::to_string(x) + "," + std::to_string(y) + "), expected " + sv(ms[i](x, y))); stats().inc("weight_functions"); } }
}
template<typename T> static void scalars(Rng& g) { for (int i = 0; i < 10; ++i) { scalar<T,false>(g); scalar<T,true>(g); } }
static void weights(Rng& g, uint64_t) {
    scalars<int32_t>(g); scalars<uint32_t>(g); scalars<int64_t>(g); scalars<uint64_t>(g); scalars<uint16_t>(g); scalars<int16_t>(g); scalars<uint8_t>(g); scalars<int8_t>(g); scalars<double>(g);
    for (int i = 0; i < 8; ++i) { arr<int,false,2>(g); arr<int,true,2>(g); arr<uint32_t,false,3>(g); arr<uint32_t,true,3>(g); arr<int64_t,false,1>(g); vec<int,false>(g); vec<int,true>(g); vec<uint32_t,false>(g); vec<uint32_t,true>(g); vec<uint64_t,false>(g); }
    for (int i = 0; i < 3; ++i) { linear<int>(g); linear<int64_t>(g); linear<uint64_t>(g); linear<double>(g); linear<uint32_t>(g); }
}
// ---------------------------------------------------------------- containers
template<typename V, typename K> static void vmap(Rng& g, const std::function<K(int)>& key, const char* what) {
    fut::vector_map<K,V> m; std::map<K,V> r; std::string d = what; int n = g.in(5, 60), range = g.in(1, 20);
    auto V_ = [&]() { V v{}; if constexpr (std::is_same_v<V,std::string>) v = "v" + std::to_string(g.below(1000)); else v = (V)g.below(1000); return v; };
    for (int i = 0; i < n; ++i) { K k = key(g.below(range)); V v = V_(); switch (g.below(8)) {
        case 0: { auto [it, b] = m.emplace(k, v); bool e = r.emplace(k, v).second; if (b != e || it->first != k || it->second != r[k]) fail("map-emplace", d); break; }
        case 1: { K kk = k; auto [it, b] = m.emplace(std::move(kk), v); bool e = r.emplace(k, v).second; if (b != e || it->first != k || it->second != r[k]) fail("map-emplace", d + " (moved key)"); break; }
        case 2: { auto [it, b] = m.try_emplace(k, v); bool e = r.try_emplace(k, v).second; if (b != e || it->first != k || it->second != r[k]) fail("map-try_emplace", d); break; }
        case 3: { auto [it, b] = m.insert_or_assign(k, v); bool e = r.insert_or_assign(k, v).second; if (b != e || it->first != k || it->second != v) fail("map-insert_or_assign", d); break; }
        case 4: { K kk = k; auto [it, b] = m.insert_or_assign(std::move(kk), V(v)); bool e = r.insert_or_assign(k, v).second; if (b != e || it->first != k || it->second != v) fail("map-insert_or_assign", d + " (moved key)"); break; }
        case 5: if (g.chance(20)) { if (g.chance(50)) { m.clear(); r.clear(); } else { size_t c = g.below((int)m.size() + 1); m.resize(c); auto it = r.begin(); std::advance(it, (long)c); r.erase(it, r.end()); } } break;
        default: { auto f = r.find(k); auto h = m.find(k); const auto& cm = m; auto ch = cm.find(k); if ((f == r.end()) != (h == m.end()) || (f == r.end()) != (ch == cm.end()) || m.contains(k) != (f != r.end())) fail("map-find", d); if (f != r.end() && (h->second != f->second || ch->first != k)) fail("map-find", d + " value"); auto lb = m.lower_bound(k); auto rl = r.lower_bound(k); if ((lb == m.cend()) != (rl == r.end()) || (rl != r.end() && lb->first != rl->first)) fail("map-lower_bound", d); } }
        stats().inc("container_operations"); if (m.size() != r.size() || m.empty() != r.empty()) fail("map-size", d); size_t j = 0; auto it = r.begin(); for (auto& e : m) { if (e.first != it->first || e.second != it->second || m[j].first != e.first) fail("map-order", d + " iteration differs from an ordered map"); ++it; ++j; } }
    std::unordered_map<K,V> u(r.begin(), r.end()); fut::vector_map<K,V> c1(u), c2(std::move(u)); for (auto* c : {&c1, &c2}) { auto it = r.begin(); if (c->size() != r.size()) fail("map-convert", d); for (auto& e : *c) { if (e.first != it->first || e.second != it->second) fail("map-convert", d); ++it; } }
}
template<typename K> static void vset(Rng& g, const std::function<K(int)>& key, const char* d) {
    fut::vector_set<K> m; std::set<K> r; int n = g.in(5, 60), range = g.in(1, 20);
    for (int i = 0; i < n; ++i) { K k = key(g.below(range)); if (g.chance(60)) { auto [it, b] = m.emplace(k); if (b != r.insert(k).second || *it != k) fail("set-emplace", d); } else if (g.chance(10)) { size_t c = g.below((int)m.size() + 1); m.resize(c); auto it = r.begin(); std::advance(it, (long)c); r.erase(it, r.end()); } else { const auto& cm = m; if (m.contains(k) != (r.count(k) > 0) || (m.find(k) != m.end()) != (r.count(k) > 0) || (cm.find(k) != cm.end()) != (r.count(k) > 0)) fail("set-find", d); auto lb = m.lower_bound(k); auto rl = r.lower_bound(k); if ((lb == m.cend()) != (rl == r.end()) || (rl != r.end() && *lb != *rl)) fail("set-lower_bound", d); }
        stats().inc("container_operations"); if (!std::equal(m.begin(), m.end(), r.begin(), r.end()) || m.size() != r.size()) fail("set-order", d); }
    std::unordered_set<K> u(r.begin(), r.end()); fut::vector_set<K> c1(u), c2(std::move(u)); if (!std::equal(c1.begin(), c1.end(), r.begin(), r.end()) || !std::equal(c2.begin(), c2.end(), r.begin(), r.end())) fail("set-convert", d);
}
template<fut::type... C> static void fut2(Rng& g, const char* d) { // (a,b) -> value
    fut::set<std::tuple<int,int,std::string>,C...> m; std::map<std::pair<int,int>,std::string> r; int n = g.in(5, 60), ra = g.in(1, 6), rb = g.in(1, 6); std::set<int> heads;
    for (int i = 0; i < n; ++i) { int a = g.below(ra) * 7 - 9, b = g.below(rb); std::string v = "v" + std::to_string(g.below(100)); switch (g.below(5)) {
        case 0: { auto x = m.emplace(a, b, v); bool e = r.emplace(std::make_pair(a, b), v).second; heads.insert(a); if (x.second != e || x.first->first != b || x.first->second != r[{a, b}]) fail("fut-emplace", d); break; }
        case 1: { auto x = m.insert_or_assign(a, b, v); bool e = r.insert_or_assign({a, b}, v).second; heads.insert(a); if (x.second != e || x.first->second != v) fail("fut-insert_or_assign", d); break; }
        case 2: { auto it = r.find({a, b}); if (m.contains(a, b) != (it != r.end())) fail("fut-contains", d); break; }
        case 3: { auto it = r.find({a, b}); auto* p = m.get(a, b); const auto& cm = m; auto* q = cm.get(a, b); if ((p != nullptr) != (it != r.end()) || p != q || (p && *p != it->second)) fail("fut-get", d); if (p && g.chance(40)) { *p = v; it->second = v; } break; }
        default: if (g.chance(8)) { m.clear(); r.clear(); heads.clear(); } else { if ((m.find(a) != m.end()) != (heads.count(a) > 0)) fail("fut-find", d); } }
        stats().inc("container_operations"); std::map<std::pair<int,int>,std::string> got; size_t cnt = 0; for (auto& [a2, in] : m) for (auto& [b2, v2] : in) { got[{a2, b2}] = v2; ++cnt; } if (got != r || cnt != r.size() || m.size() != heads.size() || m.empty() != heads.empty()) fail("fut-content", d); }
    auto copy = m; copy.insert_or_assign(0, 0, std::string("changed")); std::map<std::pair<int,int>,std::string> got; for (auto& [a2, in] : m) for (auto& [b2, v2] : in) got[{a2, b2}] = v2; if (got != r) fail("fut-copy", std::string(d) + ": changing a copy changed the original");
}
template<fut::type... C> static void fut3(Rng& g, const char* d) { // set of (a,b)
    fut::set<std::tuple<int,int>,C...> m; if constexpr (sizeof...(C) == 2) { std::set<std::pair<int,int>> r; for (int i = 0; i < 40; ++i) { int a = g.below(6), b = g.below(6); if (g.chance(60)) { auto x = m.emplace(a, b); if (x.second != r.insert({a, b}).second || *x.first != b) fail("fut-emplace", d); } else if (m.contains(a, b) != (r.count({a, b}) > 0)) fail("fut-contains", d); std::set<std::pair<int,int>> got; for (auto& [a2, in] : m) for (auto& b2 : in) got.insert({a2, b2}); if (got != r) fail("fut-content", d); stats().inc("container_operations"); } }
    else { std::map<int,int> r; for (int i = 0; i < 40; ++i) { int a = g.below(8), b = g.below(50); if (g.chance(40)) { auto x = m.emplace(a, b); if (x.second != r.emplace(a, b).second || x.first->second != r[a]) fail("fut-emplace", d); } else if (g.chance(40)) { m.insert_or_assign(a, b); r[a] = b; } else { auto* p = m.get(a); if ((p != nullptr) != (r.count(a) > 0) || (p && *p != r[a]) || m.contains(a) != (r.count(a) > 0)) fail("fut-get", d); } std::map<int,int> got; for (auto& e : m) got[e.first] = e.second; if (got != r) fail("fut-content", d); stats().inc("container_operations"); }
        fut::set<std::tuple<int,int>,fut::type::vector> v(m); std::vector<std::pair<int,int>> seq; for (auto& e : v) seq.emplace_back(e.first, e.second); if (seq != std::vector<std::pair<int,int>>(r.begin(), r.end())) fail("fut-convert", std::string(d) + ": conversion to a vector"); fut::set<std::tuple<int,int>,fut::type::vector> w(std::move(m)); if (w.size() != r.size()) fail("fut-convert", std::string(d) + ": moving conversion"); for (auto& [k, x] : r) { auto* p = w.get(k); if (!p || *p != x) fail("fut-convert", std::string(d) + ": moving conversion loses an element"); } }
}
template<fut::type... C> static void fut4(Rng& g, const char* d) { // text keys, handed over as temporaries or by reference; (a,b) -> value and set of (a,b)
    fut::set<std::tuple<std::string,std::string,std::string>,C...> m; fut::set<std::tuple<std::string,std::string>,C...> s; std::map<std::pair<std::string,std::string>,std::string> r; std::set<std::pair<std::string,std::string>> rs; auto key = [&]() { return std::string((size_t)g.below(3) * 12, 'k') + std::to_string(g.below(3)); };
    for (int i = 0; i < 40; ++i) { std::string a = key(), b = key(), v = key(), a0 = a, b0 = b, v0 = v; bool fresh = !r.count({a0, b0}), f2 = !rs.count({a0, b0}); bool tmp = g.chance(50), assign = g.chance(50), did; std::string at;
        auto take = [&](auto&& x) { did = x.second; at = x.first->second; if (x.first->first != b0) fail("fut-emplace", std::string(d) + ": not at the key"); };
        if (assign) { if (tmp) take(m.insert_or_assign(std::move(a), std::move(b), std::move(v))); else take(m.insert_or_assign(a, b, v)); r[{a0, b0}] = v0; } else { if (tmp) take(m.emplace(std::move(a), std::move(b), std::move(v))); else take(m.emplace(a, b, v)); r.emplace(std::make_pair(a0, b0), v0); }
        if (did != fresh || at != r[{a0, b0}]) fail("fut-text", std::string(d) + ": wrong result of an insertion"); if (!tmp && (a != a0 || b != b0 || v != v0)) fail("fut-text", std::string(d) + ": an argument was changed"); a = a0; b = b0;
        std::string e; bool k; auto take2 = [&](auto&& x) { k = x.second; e = *x.first; }; if (assign) { if (tmp) take2(s.insert_or_assign(std::move(a), std::move(b))); else take2(s.insert_or_assign(a, b)); } else { if (tmp) take2(s.emplace(std::move(a), std::move(b))); else take2(s.emplace(a, b)); } rs.insert({a0, b0}); if (k != f2 || e != b0) fail("fut-text", std::string(d) + ": wrong result of a set insertion");
        auto* x = m.get(a0, b0); if (!x || *x != r[{a0, b0}] || !m.contains(a0, b0) || !s.contains(a0, b0)) fail("fut-text", std::string(d) + ": what was inserted is not there");
        std::map<std::pair<std::string,std::string>,std::string> got; size_t cnt = 0; for (auto& [x2, in] : m) for (auto& [y2, v2] : in) { got[{x2, y2}] = v2; ++cnt; } std::set<std::pair<std::string,std::string>> gs; for (auto& [x2, in] : s) for (auto& y2 : in) { gs.insert({x2, y2}); ++cnt; } if (got != r || gs != rs || cnt != r.size() + rs.size()) fail("fut-text", std::string(d) + ": content differs"); stats().inc("container_operations"); stats().inc(tmp ? "keys_moved_in" : "keys_copied_in"); }
}
static void queues(Rng& g) {
    { priority_set<int,int,CompSwapArgs<int>> q; std::map<int,int> best; std::set<int> done; int last = -1; for (int i = 0; i < 60; ++i) { if (g.chance(55) || q.empty()) { int e = g.below(25); if (done.count(e)) continue; int w = std::max(last, 0) + g.below(10); if (g.chance(50)) q.emplace(w, e); else { const int cw = w; q.emplace(cw, e); } auto it = best.emplace(e, w).first; it->second = std::min(it->second, w); }
            else { auto [w, e] = q.top(); int mn = INT32_MAX; for (auto& [x, y] : best) mn = std::min(mn, y); if (!best.count(e) || best[e] != w || w != mn || q.back() != e) fail("queue", "the queue does not yield an unprocessed element of least weight"); if (g.chance(50)) q.pop(); else q.pop_back(); best.erase(e); done.insert(e); last = w; stats().inc("queue_pops"); }
            if (q.empty() != best.empty()) fail("queue", "emptiness is wrong"); } }
    { auto sorted = [&](int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(g.below(20)); std::sort(v.begin(), v.end()); return v; }; auto a = sorted(g.below(7)), b = sorted(g.below(7)); bool dis = true; for (int x : a) for (int y : b) dis &= x != y; if (is_disjoint(a, b) != dis) fail("disjoint", "is_disjoint is wrong"); std::vector<std::pair<int,char>> p; for (int x : a) p.emplace_back(x, (char)('a' + g.below(26))); if (is_disjoint(p, b, CompFirst<int,char>()) != dis || is_disjoint(b, p, CompFirst<int,char>()) != dis) fail("disjoint", "is_disjoint with a comparator is wrong"); stats().inc(dis ? "disjoint_sets" : "overlapping_sets"); EqFirst<int,char> eq; if (p.size() > 1 && (eq(p[0], p[1]) != (p[0].first == p[1].first) || eq(p[0], p[0].first) != true)) fail("disjoint", "EqFirst"); }
}
template<size_t N> static void flag(Rng& g) {
    using F = utils::flags<N>; using T = typename F::flag_t; std::set<int> s; T m = F::no_flags; if (sizeof(T) * 8 < N) fail("flags", "flag type too small");
    for (int i = 0; i < 12; ++i) { int k = g.below((int)N); T f = F::flag((size_t)k + 1); if (f != (T)((T)1 << k)) fail("flags", "flag"); if (g.chance(60)) { F::add(m, f); s.insert(k); } else { F::remove(m, f); s.erase(k); } uint64_t w = 0; for (int x : s) w |= 1ULL << x; if ((uint64_t)m != w) fail("flags", "mask"); if (F::contains(m, f) != (s.count(k) > 0) || F::is_single_flag(m) != (s.size() == 1)) fail("flags", "contains or is_single_flag"); auto sp = F::split_to_single_flags(m); if (sp.size() != s.size()) fail("flags", "split"); T u = 0; for (auto x : sp) { if (!F::is_single_flag(x)) fail("flags", "split"); F::add(u, x); } if (u != m) fail("flags", "split");
        T both = m | f; if (F::contains(m, both) != (both == m)) fail("flags", "contains needs every flag"); stats().inc("flag_operations"); }
    size_t n = g.below((int)N + 1); T fl = F::fill(n); uint64_t w = n == 64 ? ~0ULL : (1ULL << n) - 1; if ((uint64_t)fl != w) fail("flags", "fill(" + std::to_string(n) + ") of " + std::to_string(N)); if (F::flag(0) != 0 || (uint64_t)F::template fill<N>() != (N == 64 ? ~0ULL : (1ULL << N) - 1)) fail("flags", "fill<N>"); if constexpr (N > 1) if ((uint64_t)F::template fill<N-1>() != (1ULL << (N - 1)) - 1) fail("flags", "fill<N-1>");
    utils::flag_mask<N> k(fl); std::set<int> need; for (size_t i = 0; i < n; ++i) need.insert((int)i); for (int i = 0; i < 6; ++i) { int x = g.below((int)N); T f = F::flag((size_t)x + 1); if (k.needs_flag(f) != (need.count(x) > 0)) fail("flags", "needs_flag"); k.got_flag(f); need.erase(x); if (k.has_missing_flags() == need.empty() || k.get_missing_flags().size() != need.size()) fail("flags", "missing flags"); }
}
static void containers(Rng& g, uint64_t idx) {
    describe("containers#" + std::to_string(idx) + " state " + std::to_string(g.s)); stats().sig(g.s); std::function<int(int)> ik = [](int i) { return i * 13 % 37 - 11; }; std::function<std::string(int)> sk = [](int i) { return std::string((size_t)(i % 3), 'x') + std::to_string(i * 7 % 23); };
    vmap<int,int>(g, ik, "vector_map<int,int>"); vmap<std::string,std::string>(g, sk, "vector_map<string,string>"); vset<int>(g, ik, "vector_set<int>"); vset<std::string>(g, sk, "vector_set<string>");
    using fut::type; fut2<type::hash,type::hash>(g, "hash/hash"); fut2<type::vector,type::vector>(g, "vector/vector"); fut2<type::hash,type::vector>(g, "hash/vector"); fut2<type::vector,type::hash>(g, "vector/hash");
    fut3<type::hash,type::hash>(g, "set hash/hash"); fut3<type::vector,type::vector>(g, "set vector/vector"); fut3<type::hash,type::vector>(g, "set hash/vector"); fut4<type::hash,type::hash>(g, "text hash/hash"); fut4<type::vector,type::vector>(g, "text vector/vector"); fut4<type::hash,type::vector>(g, "text hash/vector"); fut4<type::vector,type::hash>(g, "text vector/hash"); fut3<type::hash>(g, "map hash"); fut3<type::vector>(g, "map vector");
    for (int i = 0; i < 6; ++i) queues(g); flag<1>(g); flag<3>(g); flag<7>(g); flag<8>(g); flag<9>(g); flag<16>(g); flag<17>(g); flag<32>(g); flag<33>(g); flag<63>(g); flag<64>(g);
}
// ---------------------------------------------------------------- automaton paths
template<bool pair> static void path1(Rng& g) {
    using P = AutomatonPath<pair>; using S = std::conditional_t<pair, std::pair<size_t,size_t>, size_t>; auto st = [&]() -> S { if constexpr (pair) return {(size_t)g.below(5), (size_t)g.below(5)}; else return (size_t)g.below(5); }; constexpr uint32_t EPS = std::numeric_limits<uint32_t>::max();
    std::vector<S> s; std::vector<uint32_t> l; S e = st(); s.push_back(e); int n = g.below(8); for (int i = 0; i < n; ++i) { s.push_back(st()); l.push_back((uint32_t)g.below(4)); } // front to back order is reversed below
    std::reverse(s.begin(), s.end()); P p = [&]() { if (g.chance(50)) return P(s, l); P q(s.back()); for (size_t i = l.size(); i-- > 0;) q.emplace(s[i], l[i]); return q; }();
    auto check = [&]() { if (p.is_null() || p.empty() != l.empty() || p.edges_size() != l.size() || p.front_state() != s[0] || p.stack() != l) fail("path", "states or labels differ"); if (!l.empty()) { auto [a, x, b] = p.front_edge(); if (a != s[0] || x != l[0] || b != s[1]) fail("path", "front edge"); }
        std::vector<S> ps; std::vector<uint32_t> pl; for (size_t i = 0; i < l.size(); ++i) if (l[i] != EPS) { ps.push_back(s[i]); pl.push_back(l[i]); } ps.push_back(s.back()); auto [a, b] = p.get_path_and_stack(); if (a != ps || b != pl) fail("path", "get_path_and_stack"); 
        if constexpr (pair) { auto [x, y] = p.split(); if (x.stack() != l || y.stack() != l || x.edges_size() != l.size()) fail("path", "split labels"); auto xx = x, yy = y; for (size_t i = 0; i <= l.size(); ++i) { if (xx.front_state() != s[i].first || yy.front_state() != s[i].second) fail("path", "split states"); if (i < l.size()) { xx.pop(); yy.pop(); } } }
        P q(s, l); if (!(q == p) || q != p || absl::Hash<P>()(q) != absl::Hash<P>()(p)) fail("path", "equal paths differ"); auto s2 = s; auto l2 = l; if (g.chance(50) && !l2.empty()) l2[(size_t)g.below((int)l2.size())] ^= 1; else { auto& x = s2[(size_t)g.below((int)s2.size())]; if constexpr (pair) x.second ^= 1; else x ^= 1; } if (P(s2, l2) == p) fail("path", "different paths are equal"); stats().inc("path_checks"); };
    describe("path with " + std::to_string(n) + " edges, state " + std::to_string(g.s)); stats().sig(g.s); if (!P().is_null()) fail("path", "the default path is not null"); check();
    { auto whole = AutomatonPath(s, l); auto one = AutomatonPath(s.back()); if constexpr (!std::is_same_v<decltype(whole), P> || !std::is_same_v<decltype(one), P>) fail("path", "the kind of states is not taken from the arguments"); else if (!(whole == p) || one.front_state() != s.back() || !one.empty()) fail("path", "a path built without naming its type differs"); }
    int ops = g.below(12);
    for (int i = 0; i < ops; ++i) { int o = g.below(10); if (o < 5) { S x = st(); uint32_t lab = (uint32_t)g.below(4); p.emplace(x, lab); s.insert(s.begin(), x); l.insert(l.begin(), lab); } else if (o < 8) { if (!l.empty()) { p.pop(); s.erase(s.begin()); l.erase(l.begin()); } } else if (o == 8) { S x = s[0]; p.emplace(x, EPS); s.insert(s.begin(), x); l.insert(l.begin(), EPS); } else { p.remove_epsilon(); if (!l.empty() && l[0] == EPS) { s.erase(s.begin()); l.erase(l.begin()); } stats().inc("epsilon_removals"); } check(); }
}
static void paths(Rng& g, uint64_t) { for (int i = 0; i < 5; ++i) { path1<false>(g); path1<true>(g); } }
// ---------------------------------------------------------------- dictionaries
template<typename K> static void dict(Rng& g, const std::function<K()>& mk, const char* d) {
    utils::ptrie_set<K> s; utils::ptrie_map<K,size_t> m; std::vector<K> ids; std::map<K,size_t> r; std::map<K,size_t> data; int n = g.in(3, 30);
    for (int i = 0; i < n; ++i) { K k = g.chance(30) && !ids.empty() ? ids[(size_t)g.below((int)ids.size())] : mk(); auto ex = s.exists(k); auto f = r.find(k); if (ex.first != (f != r.end()) || (ex.first && ex.second != f->second)) fail("dict-exists", d); auto in = s.insert(k); if (f == r.end()) { r[k] = ids.size(); ids.push_back(k); } if (in.first == (f != r.end()) || in.second != r[k]) fail("dict-insert", std::string(d) + ": a key got a wrong id"); if (s.size() != ids.size()) fail("dict-size", d);
        m[k] = (size_t)i; data[k] = (size_t)i; auto me = m.exists(k); if (!me.first || m.get_data(me.second) != (size_t)i) fail("dict-map", d); stats().inc("dictionary_operations"); K other = mk(); if (m.exists(other).first != (data.count(other) > 0)) fail("dict-map", std::string(d) + ": membership of another key"); }
    for (size_t i = 0; i < ids.size(); ++i) if (!(s.at(i) == ids[i])) fail("dict-at", std::string(d) + ": the key read back differs from the key stored"); for (auto& [k, v] : data) { if (m[k] != v) fail("dict-map", d); auto e = m.exists(k); if (!(m.at(e.second) == k)) fail("dict-at", d); }
    std::vector<size_t> sel; for (int i = 0; i < 5; ++i) sel.push_back((size_t)g.below((int)ids.size())); utils::ptrie_access_iterator it(sel.cbegin(), &s), end(sel.cend(), &s); if (end - it != (long)sel.size() || !(it < end) || it == end || !(it[2] == ids[sel[2]]) || !(*(it + 3) == ids[sel[3]]) || !(*(end - 1) == ids[sel[4]])) fail("dict-iterator", d); size_t j = 0; for (; it != end; ++it, ++j) if (!(*it == ids[sel[j]])) fail("dict-iterator", d); if (j != sel.size()) fail("dict-iterator", d);
}
static void dicts(Rng& g, uint64_t) {
    describe("dictionaries, state " + std::to_string(g.s)); stats().sig(g.s); auto len = [&](int small) { return g.chance(2) ? g.in(250, 600) : g.chance(1) && g.chance(20) ? 66000 : g.below(small); }; auto str = [&]() { std::string s; int n = len(6); for (int i = 0; i < n; ++i) s += g.chance(15) ? (char)g.below(256) : (char)('a' + g.below(3)); return s; }; auto vi = [&]() { std::vector<int> v; int n = len(4); for (int i = 0; i < n; ++i) v.push_back(g.below(300) - 150); return v; };
    dict<int>(g, [&] { return g.below(2000) - 1000; }, "int"); dict<size_t>(g, [&] { return (size_t)(g.next() >> g.below(64)); }, "size_t"); dict<char>(g, [&] { return (char)g.below(256); }, "char"); dict<std::string>(g, str, "string"); dict<std::vector<int>>(g, vi, "vector<int>");
    using T1 = std::tuple<int,std::vector<int>,char>; dict<T1>(g, [&] { return T1{g.below(5), vi(), (char)g.below(4)}; }, "tuple"); using T2 = std::tuple<std::vector<char>,std::vector<char>>; auto vc = [&]() { std::vector<char> v; int n = len(4); for (int i = 0; i < n; ++i) v.push_back((char)g.below(3)); return v; }; dict<T2>(g, [&] { return T2{vc(), vc()}; }, "tuple of vectors");
    using T3 = std::variant<int,std::tuple<int,char>,std::vector<int>>; dict<T3>(g, [&]() -> T3 { switch (g.below(3)) { case 0: return g.below(6); case 1: return std::tuple<int,char>(g.below(6), (char)g.below(2)); default: return vi(); } }, "variant"); using T4 = std::vector<std::tuple<int,char>>; dict<T4>(g, [&] { T4 v; int n = len(4); for (int i = 0; i < n; ++i) v.emplace_back(g.below(3), (char)g.below(3)); return v; }, "vector of tuples"); using T5 = std::tuple<bool,std::variant<char,std::vector<uint16_t>>,size_t>; dict<T5>(g, [&] { std::variant<char,std::vector<uint16_t>> x; if (g.chance(50)) x = (char)g.below(4); else { std::vector<uint16_t> v; int n = g.below(3); for (int i = 0; i < n; ++i) v.push_back((uint16_t)g.below(3)); x = v; } return T5{g.chance(50), x, (size_t)g.below(3)}; }, "nested");
    using T6 = std::variant<std::vector<int>>; dict<T6>(g, [&] { return T6(vi()); }, "variant with one alternative");
}
// ---------------------------------------------------------------- rule store
static void labelsets(Rng& g) {
    int m = g.in(1, 7); internal::labels_t l; std::set<uint32_t> r; std::set<uint32_t> all; for (int i = 0; i < m; ++i) all.insert((uint32_t)i); auto sub = [&]() { std::set<uint32_t> s; int pc = g.in(0, 100); for (int i = 0; i < m; ++i) if (g.chance(pc)) s.insert((uint32_t)i); return s; };
    auto check = [&](const char* w) { std::set<uint32_t> got; if (l.wildcard()) got = all; else got.insert(l.labels().begin(), l.labels().end()); if (got != r) fail("labels", std::string(w) + ": label set differs"); if (!l.wildcard() && (!std::is_sorted(l.labels().begin(), l.labels().end()) || l.labels().size() != r.size())) fail("labels", std::string(w) + ": labels not sorted or repeated"); if (l.empty() != r.empty()) fail("labels", std::string(w) + ": empty"); for (uint32_t x = 0; x < (uint32_t)m; ++x) if (l.contains(x) != (r.count(x) > 0)) fail("labels", std::string(w) + ": contains"); stats().inc("label_set_operations"); };
    int n = g.in(1, 10); for (int i = 0; i < n; ++i) { auto s = sub(); std::vector<uint32_t> v(s.begin(), s.end()); switch (g.below(4)) { case 0: case 1: { bool w = g.chance(12); l.merge(w, v); if (w) r = all; else r.insert(s.begin(), s.end()); check("merge"); break; }
        case 2: { bool b = l.intersect(v, (size_t)m); std::set<uint32_t> x; std::set_intersection(r.begin(), r.end(), s.begin(), s.end(), std::inserter(x, x.end())); r = x; if (b == r.empty()) fail("labels", "intersect reports the wrong emptiness"); check("intersect"); break; }
        default: if (g.chance(15)) { l.clear(); r.clear(); check("clear"); } else { bool w = l.wildcard(); bool ch = l.noop_pre_filter(s); std::set<uint32_t> x; std::set_intersection(r.begin(), r.end(), s.begin(), s.end(), std::inserter(x, x.end())); if (!w && ch != (x != r)) fail("labels", "noop_pre_filter reports the wrong change"); r = x; check("noop_pre_filter"); } } }
}
using Flat = std::set<std::tuple<size_t,int,size_t,int,int,long>>; // from, pre, to, op, label, weight
template<typename P> static Flat flat_pda(const P& p, bool weighted, int lshift) { Flat f; size_t n = 0; for (auto& r : p.all_rules()) { long w = 0; if constexpr (requires { r._weight; }) w = (long)r._weight; bool lab = r._op == PUSH || r._op == SWAP; if (!f.insert({r._from, (int)r._pre - lshift, r._to, (int)r._op, lab ? (int)r._op_label - lshift : -1, w}).second) fail("rules", "all_rules lists a rule twice"); ++n; } return f; }
template<typename W> static void store(Rng& g) {
    int n = g.in(1, 5), m = g.in(1, 5); std::vector<int> order(m); std::iota(order.begin(), order.end(), 0); for (int i = m - 1; i > 0; --i) std::swap(order[i], order[g.below(i + 1)]); bool upfront = g.chance(40);
    auto fill = [&](auto& p, Flat& f, std::string& d, Rng h) { if (!upfront) for (int x : order) p.insert_label(LSHIFT + x); int k = h.in(1, 14); for (int i = 0; i < k; ++i) { size_t a = (size_t)h.below(n), b = (size_t)h.below(n); op_t op = (op_t[]){PUSH, POP, SWAP, NOOP}[h.below(4)]; int lab = h.below(m); bool wild = h.chance(15); std::vector<int> pre; int q = h.in(1, 3); for (int j = 0; j < q; ++j) pre.push_back(h.below(m)); long w = 0; if constexpr (W::is_weight) w = h.below(4); bool hl = op == PUSH || op == SWAP; auto put = [&](int x) { f.insert({a, x, b, (int)op, hl ? lab : -1, w}); };
            std::vector<int> pl; for (int x : pre) pl.push_back(LSHIFT + x); int how = h.below(3); using PD = std::remove_reference_t<decltype(p)>; d += std::to_string(a) + (wild ? "<*>" : "<...>") + "->" + std::to_string(b) + " ";
            if (how == 0 || wild) { if constexpr (W::is_weight) p.add_rule(a, b, op, LSHIFT + lab, wild, pl, (typename W::type)w); else p.add_rule(a, b, op, LSHIFT + lab, wild, pl); if (wild) for (int x = 0; x < m; ++x) put(x); else for (int x : pre) put(x); }
            else if (how == 1) { if constexpr (W::is_weight) p.add_rule(a, b, op, LSHIFT + lab, LSHIFT + pre[0], (typename W::type)w); else p.add_rule(a, b, op, LSHIFT + lab, LSHIFT + pre[0]); put(pre[0]); }
            else { typename PD::rule_t r; r._from = a; r._to = b; r._op = op; r._pre = LSHIFT + pre[0]; r._op_label = LSHIFT + lab; if constexpr (W::is_weight) r._weight = (typename W::type)w; if (h.chance(20)) { p.add_wildcard_rule(r); for (int x = 0; x < m; ++x) put(x); } else { p.add_rule(std::as_const(r)); put(pre[0]); } } } };
    std::unordered_set<int> ls; if (upfront) for (int i = 0; i < m; ++i) ls.insert(LSHIFT + i); Flat f, f2; std::string d = "labels=" + std::to_string(m) + " ", d2; Rng h(g.next());
    PDA<int,W> p(ls); fill(p, f, d, h); describe("rule store " + d + std::to_string(h.s)); stats().sig(hash_str(current()));
    auto check = [&](auto& q, const Flat& w, const char* what) { if (flat_pda(q, W::is_weight, LSHIFT) != w) fail("rules", std::string(what) + ": the rules differ from those added"); for (auto& [a, x, b, op, l, wt] : w) { if (a >= q.states().size() || b >= q.states().size()) fail("rules", "missing state"); auto& ps = q.states()[b]._pre_states; if (!ps.contains(a)) fail("rules", std::string(what) + ": predecessor index misses a rule"); } stats().inc("rule_stores"); stats().inc("rules_stored", w.size()); };
    check(p, f, "adding"); if ((int)p.number_of_labels() != m) fail("rules", "number of labels"); for (int i = 0; i < m; ++i) { auto e = p.exists_label(LSHIFT + i); if (!e.first || p.get_symbol(e.second) != LSHIFT + i) fail("rules", "label dictionary"); } if (p.exists_label(LSHIFT + m).first) fail("rules", "an unknown label exists");
    PDA<int,W,fut::type::hash> hp(ls); fill(hp, f2, d2, h); if (f != f2) fail("rules", "harness"); check(hp, f, "hash container"); PDA<int,W> conv(std::move(hp)); check(conv, f, "conversion from hash to vector"); for (auto& s : conv.states()) for (size_t i = 0; i + 1 < s._rules.size(); ++i) if (!(s._rules[i].first < s._rules[i + 1].first)) fail("rules", "converted rules are not ordered");
    PDA<int,W> cp(p); for (int t = 0; t < 2 && !p.states().empty(); ++t) { size_t s = (size_t)g.below((int)p.states().size()); p.clear_state(s); Flat k; for (auto& x : f) if (std::get<0>(x) != s && std::get<2>(x) != s) k.insert(x); f = k; check(p, f, "clear_state"); stats().inc("states_cleared"); } check(cp, f2, "a copy after the original changed");
    if constexpr (W::is_weight) { bool neg = false; (void)neg; if (cp.has_negative_weight(std::less<>())) fail("rules", "negative weight reported"); }
    // state names
    PDA<int,W,fut::type::vector,std::string> sp; std::vector<std::string> names; std::map<std::string,size_t> idx; for (int i = 0; i < 6; ++i) { std::string s = "s" + std::to_string(g.below(5)); auto e = sp.exists_state(s); if (e.first != (idx.count(s) > 0)) fail("rules", "exists_state"); size_t id = sp.insert_state(s); if (!idx.count(s)) { idx[s] = names.size(); names.push_back(s); } if (id != idx[s] || sp.get_state(id) != s || sp.states().size() < names.size()) fail("rules", "state names are not stable"); }
    try { if constexpr (W::is_weight) p.add_rule(0, 0, PUSH, LSHIFT + m + 3, true, std::vector<int>{}, (typename W::type)0); else p.add_rule(0, 0, PUSH, LSHIFT + m + 3, true, std::vector<int>{}); fail("rules", "a rule pushing an unknown label was accepted"); } catch (const std::logic_error&) { stats().inc("unknown_labels_refused"); }
}
static void rules(Rng& g, uint64_t) { for (int i = 0; i < 4; ++i) labelsets(g); store<weight<void>>(g); store<weight<uint32_t>>(g); }
int main(int argc, char** argv) { return main_driver(argc, argv, { {"weights", weights}, {"containers", containers}, {"paths", paths}, {"dictionaries", dicts}, {"rules", rules} }); }
