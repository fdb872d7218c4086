// Renaming, walks, graph utilities, components, tailing off, statistics files, logging levels, knapsack.
#include "small.hh"
#include "pctsp/algorithms.hh"
#include "pctsp/data_structures.hh"
#include "pctsp/knapsack.hh"
#include "pctsp/logger.hh"
#include "pctsp/renaming.hh"
#include "pctsp/sciputils.hh"
#include "pctsp/separation.hh"
#include "pctsp/solution.hh"
#include "pctsp/stats.hh"
#include "pctsp/subtour_elimination.hh"
#include "pctsp/walk.hh"
#include <boost/log/attributes/named_scope.hpp>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <yaml-cpp/yaml.h>

using vh::Case; using vh::Out;
typedef std::vector<int> V;
typedef std::pair<int, int> P2;
static std::string TOP, SCRATCH;
#define WANT(cond, kind, msg) do { if (!(cond)) { o.fail(kind, msg); } } while (0)
template <class C> static std::string show(const C& c) { std::string s = "["; for (auto& x : c) s += std::to_string(x) + " "; return s + "]"; }
template <class F> static std::string thrown(F f) { // class of the exception f throws
    try { f(); } catch (VertexNotFoundException&) { return "VertexNotFound"; } catch (EdgeNotFoundException&) { return "EdgeNotFound"; } catch (TargetVertexFound&) { return "TargetFound"; }
    catch (std::exception& e) { return std::string("std: ") + e.what(); } catch (...) { return "not a std::exception"; }
    return "";
}

// ---------------------------------------------------------------- renaming
static std::vector<long> many(int k, long step, long mod, long from) { std::vector<long> r; for (int i = 0; i < k; i++) r.push_back((i + 1) * step % mod + from); return r; }
static const std::vector<std::vector<long>> LABELS = {{7, 0, 3, -2}, {0, 1, 2, 3}, {3, 2, 1, 0}, {1000000, 5, -1, 2}, many(13, 37, 101, -20), many(40, 1, 97, 0), many(40, 96, 97, 1), many(90, 7919, 1000003, -500000)};
// group 0: 0 labelset width | ops: kind (0 vertices, 1 edges) k items...
// many vertices: a path, its edges in one of several orders, renamed at once or in pieces, with all vertices before, after or in the middle
template <class Old> static void rename_many(int n, int mode, int pieces, int turn, Out& o) {
    auto label = [&](int i) -> Old { return mode == 0 ? i : mode == 1 ? 3 * (n - i) - 50 : (Old)(((long long)i * 7919) % 1000003) * 5 - 11; };
    boost::bimap<PCTSPvertex, Old> bm; std::unordered_map<Old, size_t> number; std::vector<Old> order;
    auto see = [&](Old x) { auto r = number.insert({x, order.size()}); if (r.second) order.push_back(x); return r.first->second; };
    std::vector<std::pair<Old, Old>> es; for (int i = 0; i + 1 < n; i++) es.push_back(i % 3 ? std::make_pair(label(i), label(i + 1)) : std::make_pair(label(i + 1), label(i)));
    if (mode == 2) std::reverse(es.begin(), es.end());
    std::vector<Old> vs; for (int i = 0; i < n; i++) vs.push_back(label((int)((long long)i * 17 % n)));
    auto vertices = [&] { if (n % 17 == 0) return; renameVertices<std::vector<Old>, Old, PCTSPvertex>(bm, vs); for (auto x : vs) see(x); };
    if (turn == 0) vertices();
    std::vector<std::pair<PCTSPvertex, PCTSPvertex>> all; size_t step = es.size() / pieces + 1;
    for (size_t i = 0; i < es.size(); i += step) {
        std::vector<std::pair<Old, Old>> part(es.begin() + i, es.begin() + std::min(es.size(), i + step)); auto got = renameEdges<std::vector<std::pair<Old, Old>>, Old, PCTSPvertex>(bm, part); o.transitions++;
        WANT(got.size() == part.size(), "edges-size", "renameEdges returned " + std::to_string(got.size()) + " edges for " + std::to_string(part.size()));
        for (size_t j = 0; j < part.size() && j < got.size(); j++) { auto a = see(part[j].first), b = see(part[j].second); WANT(got[j].first == a && got[j].second == b, "edge", "edge " + std::to_string(i + j) + " of " + std::to_string(es.size()) + " became " + std::to_string(got[j].first) + "-" + std::to_string(got[j].second) + " instead of " + std::to_string(a) + "-" + std::to_string(b)); if (!o.viol.empty()) return; }
        all.insert(all.end(), got.begin(), got.end()); if (turn == 1 && i == 0) vertices();
    }
    if (turn == 2) vertices();
    WANT(bm.size() == order.size(), "size", std::to_string(bm.size()) + " names for " + std::to_string(order.size()) + " vertices"); if (!o.viol.empty()) return;
    for (size_t i = 0; i < order.size() && o.viol.empty(); i++) { auto it = bm.left.find(i); WANT(it != bm.left.end() && it->second == order[i], "order", "number " + std::to_string(i) + " of " + std::to_string(order.size()) + " is not the vertex seen then"); }
    std::vector<PCTSPvertex> ids; for (size_t i = 0; i < order.size(); i++) ids.push_back(i);
    if (o.viol.empty()) { WANT(getOldVertices(bm, ids) == order, "old-vertices", "getOldVertices"); WANT(getNewVertices(bm, order) == ids, "new-vertices", "getNewVertices"); WANT(getOldEdges(bm, all) == es, "old-edges", "getOldEdges"); WANT(getNewEdges(bm, es) == all, "new-edges", "getNewEdges"); }
    PCTSPgraph G(order.size()); auto pm = boost::get(vertex_distance, G); std::map<Old, int> prize; for (size_t i = 0; i < order.size(); i++) { prize[order[i]] = 3 + (int)i; pm[i] = -1; }
    fillRenamedVertexMap(pm, prize, bm); for (size_t i = 0; i < order.size() && o.viol.empty(); i++) WANT(pm[i] == 3 + (int)i, "prize", "the prize of vertex " + std::to_string(order[i]) + " is " + std::to_string(pm[i]));
    std::map<std::pair<Old, Old>, int> cost; for (size_t i = 0; i < all.size(); i++) { boost::add_edge(all[i].first, all[i].second, G); cost[es[i]] = 100 + (int)i; }
    auto cm = boost::get(edge_weight, G); fillCostMapFromRenamedMap(G, cm, cost, bm);
    for (size_t i = 0; i < all.size() && o.viol.empty(); i++) WANT(cm[boost::edge(all[i].first, all[i].second, G).first] == 100 + (int)i, "cost", "the cost of renamed edge " + std::to_string(i) + " is wrong");
    o.states = order.size(); o.nontrivial = true; o.traces = 1; o.outcome = vh::mix(vh::mix(n, mode), vh::mix(pieces, turn));
}

template <class Old> static void rename_run(const Case& c, Out& o) {
    if (c[1] < 0) return rename_many<Old>(-c[1], c[3], c[4], c[5], o);
    auto& L = LABELS[c[1]]; boost::bimap<PCTSPvertex, Old> bm; std::vector<Old> order; // order[id] = label, in order of first appearance
    auto see = [&](Old x) { auto it = std::find(order.begin(), order.end(), x); if (it != order.end()) return (PCTSPvertex)(it - order.begin()); order.push_back(x); return (PCTSPvertex)order.size() - 1; };
    auto same = [&](const char* when) {
        WANT(bm.size() == order.size(), "size", std::string(when) + ": " + std::to_string(bm.size()) + " names for " + std::to_string(order.size()) + " vertices");
        for (size_t i = 0; i < order.size() && o.viol.empty(); i++) {
            auto it = bm.left.find(i); WANT(it != bm.left.end(), "not-dense", std::string(when) + ": number " + std::to_string(i) + " is not used");
            if (it != bm.left.end()) WANT(it->second == order[i], "order", std::string(when) + ": number " + std::to_string(i) + " is vertex " + std::to_string(it->second) + " instead of " + std::to_string(order[i]));
        }
    };
    std::vector<std::pair<Old, Old>> all_edges;
    for (size_t i = 3; i < c.size() && o.viol.empty();) {
        int kind = c[i++], k = c[i++]; o.transitions++; o.states++;
        if (kind == 0) {
            std::vector<Old> vs; for (int j = 0; j < k; j++) vs.push_back((Old)L[c[i++]]);
            std::list<Old> ls(vs.begin(), vs.end()); if (k % 2) renameVertices<std::vector<Old>, Old, PCTSPvertex>(bm, vs); else renameVertices<std::list<Old>, Old, PCTSPvertex>(bm, ls);
            for (auto x : vs) see(x); same("renameVertices");
        } else {
            std::vector<std::pair<Old, Old>> es; for (int j = 0; j < k; j++) { Old a = (Old)L[c[i++]], b = (Old)L[c[i++]]; es.push_back({a, b}); all_edges.push_back({a, b}); }
            auto got = renameEdges<std::vector<std::pair<Old, Old>>, Old, PCTSPvertex>(bm, es);
            WANT(got.size() == es.size(), "edges-size", "renameEdges returned another number of edges");
            for (size_t j = 0; j < es.size() && j < got.size(); j++) { auto a = see(es[j].first), b = see(es[j].second); WANT(got[j].first == a && got[j].second == b, "edge", "edge " + std::to_string(j) + " became " + std::to_string(got[j].first) + "-" + std::to_string(got[j].second) + " instead of " + std::to_string(a) + "-" + std::to_string(b)); }
            same("renameEdges");
        }
    }
    if (!o.viol.empty()) return;
    // look-ups, both ways, of vertices, edges and lists of them
    int n = order.size(); std::vector<PCTSPvertex> ids; std::vector<Old> olds;
    for (int i = 0; i < n; i++) { ids.push_back(n - 1 - i); olds.push_back(order[n - 1 - i]); }
    WANT(getOldVertices(bm, ids) == olds, "old-vertices", "getOldVertices"); WANT(getNewVertices(bm, olds) == ids, "new-vertices", "getNewVertices");
    for (auto x : L) { Old l = (Old)x; auto it = std::find(order.begin(), order.end(), l); std::string t = thrown([&] { auto got = getNewVertex(bm, l); WANT(it != order.end() && got == (PCTSPvertex)(it - order.begin()), "new-vertex", "getNewVertex of " + std::to_string(x) + " is " + std::to_string(got)); });
        WANT(t == (it == order.end() ? "VertexNotFound" : ""), "missing-vertex", "getNewVertex of " + std::to_string(x) + " threw '" + t + "'"); }
    for (PCTSPvertex i = 0; i < (PCTSPvertex)n + 2; i++) { std::string t = thrown([&] { auto got = getOldVertex(bm, i); WANT(i < (PCTSPvertex)n && got == order[i], "old-vertex", "getOldVertex of " + std::to_string(i) + " is " + std::to_string(got)); });
        WANT(t == (i >= (PCTSPvertex)n ? "VertexNotFound" : ""), "missing-vertex", "getOldVertex of " + std::to_string(i) + " threw '" + t + "'"); }
    std::vector<std::pair<PCTSPvertex, PCTSPvertex>> ne; std::vector<std::pair<Old, Old>> oe;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ne.push_back({i, j}); oe.push_back({order[i], order[j]}); }
    WANT(getOldEdges(bm, ne) == oe, "old-edges", "getOldEdges"); WANT(getNewEdges(bm, oe) == ne, "new-edges", "getNewEdges");
    for (size_t i = 0; i < ne.size(); i++) { WANT(getOldEdge(bm, ne[i]) == oe[i], "old-edge", "getOldEdge"); WANT(getNewEdge(bm, oe[i]) == ne[i], "new-edge", "getNewEdge"); }
    // maps over the renamed graph
    std::map<Old, int> prize; for (size_t i = 0; i < L.size(); i++) prize[(Old)L[i]] = i == c.size() % L.size() ? 0 : 10 + i;
    PCTSPgraph G(n); auto pm = boost::get(vertex_distance, G); for (int i = 0; i < n; i++) pm[i] = -1;
    auto nes = renameEdges<std::vector<std::pair<Old, Old>>, Old, PCTSPvertex>(bm, all_edges); same("renaming known edges again");
    fillRenamedVertexMap(pm, prize, bm);
    for (int i = 0; i < n; i++) WANT(pm[i] == prize[order[i]], "prize", "the prize of vertex " + std::to_string(order[i]) + " is " + std::to_string(pm[i]));
    std::set<std::pair<PCTSPvertex, PCTSPvertex>> seen; std::map<std::pair<Old, Old>, int> cost; std::map<std::pair<PCTSPvertex, PCTSPvertex>, int> want;
    for (size_t i = 0; i < all_edges.size(); i++) { auto e = nes[i]; auto k = std::minmax(e.first, e.second); if (!seen.insert(k).second) continue; boost::add_edge(e.first, e.second, G); int w = i == c.size() % 3 ? 0 : 100 + i; cost[all_edges[i]] = w; want[k] = w; }
    auto cm = boost::get(edge_weight, G); for (auto e : boost::make_iterator_range(boost::edges(G))) cm[e] = -7; fillCostMapFromRenamedMap(G, cm, cost, bm);
    for (auto e : boost::make_iterator_range(boost::edges(G))) WANT(cm[e] == want[std::minmax((PCTSPvertex)boost::source(e, G), (PCTSPvertex)boost::target(e, G))], "cost", "the cost of a renamed edge is wrong");
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (!seen.count({i, j})) { std::map<std::pair<Old, Old>, int> bad{{{order[i], order[j]}, 1}}; std::string t = thrown([&] { fillCostMapFromRenamedMap(G, cm, bad, bm); }); WANT(t == "EdgeNotFound", "missing-edge", "a cost for a missing edge threw '" + t + "'"); }
    o.nontrivial = n > 0; o.traces = 1; for (auto x : order) o.outcome = vh::mix(o.outcome, x + 77); for (auto& e : nes) o.outcome = vh::mix(vh::mix(o.outcome, e.first), e.second);
}

// ---------------------------------------------------------------- walks and graph utilities
// larger graphs come from a parametric family: topology and salt say everything
static unsigned scramble(unsigned a, unsigned b, unsigned c) { uint64_t h = vh::mix(vh::mix(vh::mix(7, a), b), c); return (unsigned)(h >> 17) & 0xfffffff; }
static const int TOPOLOGIES = 7;
static bool joined(int n, int topo, int salt, int u, int v) {
    int w = std::max(2, (int)std::sqrt((double)n)), k = 3 + salt % 3; unsigned h = scramble(u, v, salt);
    switch (topo) {
    case 0: return v - u <= 2; // ladder
    case 1: return v - u <= 12 && (h % 3 || v - u == 1);
    case 2: return h % (3 * n) < 6; // often in several parts
    case 3: return v - u == 1 || h % (2 * n) == 0; // long path with shortcuts
    case 4: return (v - u == 1 && v % w) || v - u == w; // grid
    case 5: return (v % 5 == 0 ? u == v - 5 : u == v - 1 - (int)(h % 2)) || h % (3 * n) == 0; // tree with chords
    default: return v < n - 2 && ((v - u == 1 && u % k != k - 1) || (v - u == k - 1 && u % k == 0)); // separate rings and lone vertices
    }
}
// wide and deep graphs with large prizes and costs: 1 -1 arms length rev scale: a star of arms, or a single long path
static void wide_run(const Case& c, Out& o) {
    int arms = c[2], len = c[3], rev = c[4], scale = c[5], n = 1 + arms * len; auto at = [&](int a, int d) { return d == 0 ? 0 : rev ? 1 + a * len + d - 1 : 1 + (d - 1) * arms + a; };
    PCTSPgraph G(n); PCTSPvertex root = 0; auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G); std::vector<int> pr(n), co(n); V depth(n), up(n);
    for (int v = 0; v < n; v++) prize[v] = pr[v] = scale + v % 7;
    for (int a = 0; a < arms; a++) for (int d = 1; d <= len; d++) { int v = at(a, d); depth[v] = d; up[v] = at(a, d - 1); co[v] = scale + 1 + v % 5; auto e = rev ? boost::add_edge(v, up[v], G).first : boost::add_edge(up[v], v, G).first; cost[e] = co[v]; }
    std::set<int> limits; for (int x : {0, 1, 2, 3, len - 1, len, len + 1, 127, 128, 254, 255, 256, 257, 258, 300, n}) if (x >= 0 && (x <= len + 1 || x == n)) limits.insert(x);
    for (int lim : limits) for (int what : {0, 1}) {
        std::vector<bool> in(n, false); std::vector<PCTSPvertex> par(n, n + 9); breadthFirstSearch(G, root, in, par, lim);
        std::vector<bool> dm(n, false); std::vector<PCTSPvertex> dp(n, n + 9); if (what == 0) depthFirstSearch(G, root, dm, dp, lim);
        for (int v = 1; v < n && o.viol.empty(); v++) {
            bool reach = depth[v] <= lim; WANT(in[v] == reach, "bfs-marks", "breadthFirstSearch with limit " + std::to_string(lim) + " marks a vertex at depth " + std::to_string(depth[v]) + " of a star of " + std::to_string(arms) + " arms wrongly"); if (reach) WANT((int)par[v] == up[v], "bfs-parent", "the parent of " + std::to_string(v) + " in the breadth first tree is wrong"); else WANT((int)par[v] == n + 9, "bfs-parent", "an unreached vertex has a parent");
            if (what == 0 && lim >= 1) { WANT(!dm[v] || (int)dp[v] == up[v], "dfs-depth", "depthFirstSearch reached vertex " + std::to_string(v) + " by a wrong path"); if (depth[v] == 1) WANT(dm[v], "dfs-marks", "depthFirstSearch misses a neighbour of the source"); if (lim >= n - 1) WANT(dm[v], "dfs-marks", "depthFirstSearch without a limit misses vertex " + std::to_string(v)); }
        }
        o.transitions++;
    }
    // along an arm to its end and over to the end of another one
    std::vector<bool> in(n, false); std::vector<PCTSPvertex> par(n, n + 9); breadthFirstSearch(G, root, in, par, n);
    for (int a : std::set<int>{0, 1 % arms, arms / 2, arms - 1}) {
        PCTSPvertex s = 0, t = at(a, len); auto path = pathInTreeFromParents(par, s, t); std::vector<PCTSPvertex> want; for (int d = 0; d <= len; d++) want.push_back(at(a, d)); WANT(std::vector<PCTSPvertex>(path.begin(), path.end()) == want, "tree-path", "pathInTreeFromParents of an arm of length " + std::to_string(len));
        std::vector<PCTSPvertex> w(want.rbegin(), want.rend()); int b = (a + 1) % arms; if (arms > 1) for (int d = 1; d <= len; d++) w.push_back(at(b, d));
        long long p = 0, k = 0; for (auto v : w) p += pr[v]; for (auto v : w) k += v ? co[v] : 0; if (p > INT_MAX || k > INT_MAX) continue;
        std::list<PCTSPvertex> l(w.begin(), w.end()); auto f = w.begin(), e = w.end(); auto ge = getEdgesInWalk(G, f, e); std::list<PCTSPedge> le(ge.begin(), ge.end());
        WANT(ge.size() + 1 == w.size(), "walk-edges", "getEdgesInWalk of a long walk");
        WANT(totalCost(G, w, cost) == k && totalCost(G, l, cost) == k && totalCost(ge, cost) == k && totalCost(le, cost) == k, "total-cost", "totalCost of a walk of cost " + std::to_string(k));
        WANT(totalPrize(prize, w) == p && totalPrize(prize, l) == p, "total-prize", "totalPrize of a walk of prize " + std::to_string(p)); WANT(totalPrizeOfTour(prize, l) == p - pr[w.back()], "tour-prize", "totalPrizeOfTour of a walk of prize " + std::to_string(p));
        for (int q : {-1, 0, 1}) { int quota = (int)p + q; WANT(isPrizeFeasible(prize, quota, w) == (q <= 0), "prize-feasible", "isPrizeFeasible of a walk of prize " + std::to_string(p) + " and that quota plus " + std::to_string(q)); }
        o.states++; o.outcome = vh::mix(o.outcome, p);
    }
    o.nontrivial = true; o.traces = 1; o.outcome = vh::mix(o.outcome, n * 31 + len);
}
// group 1: 1 n mask rev loops pattern, or, with 8 vertices and more, 1 n topology rev loops pattern salt
static void walk_run(const Case& c, Out& o) {
    if (c[1] < 0) return wide_run(c, o);
    int n = c[1]; unsigned mask = c[2]; int rev = c[3], loops = c[4], pat = c[5]; const bool large = n >= 8;
    SmallGraph g; g.init(n); std::vector<P2> es; int bit = 0;
    for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, bit++) if (large ? joined(n, mask, c[6], u, v) : mask >> bit & 1) { g.set(u, v, pat == 0 ? 1 + (u * 3 + v * 5) % (large ? 101 : 7) : pat == 1 ? (u + v) % 3 : large ? 1 + (int)(scramble(u, v, 3) % 1000000) : 1); es.push_back({u, v}); }
    for (int v = 0; v < n; v++) g.prize[v] = (v * 5 + pat + 1) % 4;
    if (rev) { std::reverse(es.begin(), es.end()); for (auto& e : es) std::swap(e.first, e.second); }
    PCTSPgraph G(n); auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    for (int v = 0; v < n; v++) prize[v] = g.prize[v];
    std::vector<std::pair<PCTSPvertex, PCTSPvertex>> pairs(es.begin(), es.end());
    addEdgesToGraph(G, pairs);
    if (rev) for (auto& e : pairs) std::swap(e.first, e.second);
    for (auto e : boost::make_iterator_range(boost::edges(G))) cost[e] = g.cost[boost::source(e, G)][boost::target(e, G)];
    auto name = [&](PCTSPedge e) { return std::make_pair((int)std::min(boost::source(e, G), boost::target(e, G)), (int)std::max(boost::source(e, G), boost::target(e, G))); };
    auto adjacent = [&](int u, int v) { return u == v ? (loops & 1) != 0 : g.has(u, v); };
    WANT((int)boost::num_edges(G) == (int)es.size(), "add-edges", "addEdgesToGraph added another number of edges");
    { // the edges in the order in which they were added
        auto ev = getEdgeVectorOfGraph(G); auto pv = getVertexPairVectorFromGraph(G); WANT(ev.size() == es.size() && pv.size() == es.size(), "edge-vector", "getEdgeVectorOfGraph has another number of edges");
        for (size_t i = 0; i < ev.size() && i < es.size(); i++) { auto k = std::make_pair(std::min(es[i].first, es[i].second), std::max(es[i].first, es[i].second)); WANT(name(ev[i]) == k, "edge-vector", "getEdgeVectorOfGraph is not in order"); WANT(std::make_pair((int)std::min(pv[i].first, pv[i].second), (int)std::max(pv[i].first, pv[i].second)) == k, "edge-pairs", "getVertexPairVectorFromGraph is wrong"); }
    }
    // self loops
    WANT(n == 0 || !hasSelfLoopsOnAllVertices(G), "has-loops", "hasSelfLoopsOnAllVertices is true without loops");
    if (loops) {
        if (loops & 2) { for (int v = 0; v < n; v++) { WANT(!hasSelfLoopsOnAllVertices(G), "has-loops", "hasSelfLoopsOnAllVertices is true too early"); boost::add_edge(v, v, G); } }
        else addSelfLoopsToGraph(G);
        loops = 1;
        WANT(hasSelfLoopsOnAllVertices(G), "has-loops", "hasSelfLoopsOnAllVertices is false"); WANT((int)boost::num_edges(G) == (int)es.size() + n, "add-loops", "addSelfLoopsToGraph added another number of loops");
        for (auto e : boost::make_iterator_range(boost::edges(G))) if (boost::source(e, G) == boost::target(e, G)) cost[e] = 55;
        assignZeroCostToSelfLoops(G, cost);
        for (auto e : boost::make_iterator_range(boost::edges(G))) { int u = boost::source(e, G), v = boost::target(e, G); WANT(cost[e] == (u == v ? 0 : g.cost[u][v]), "zero-cost", "assignZeroCostToSelfLoops left a wrong cost"); }
        std::map<PCTSPedge, int> w; putPrizeOntoEdgeWeights(G, prize, w);
        WANT(w.size() == boost::num_edges(G), "prize-weights", "putPrizeOntoEdgeWeights misses an edge");
        for (auto& [e, x] : w) WANT(x == (boost::source(e, G) == boost::target(e, G) ? g.prize[boost::source(e, G)] : 0), "prize-weights", "putPrizeOntoEdgeWeights is wrong");
    }
    // every walk of at most four (five on three vertices) steps
    int maxlen = n <= 3 ? 5 : 4; std::vector<PCTSPvertex> w; int total = 0;
    auto check_walk = [&] {
        o.states++;
        { // edges, cost and prize of the walk
            bool ok = true; int k = 0, p = 0; std::vector<P2> want; for (size_t i = 0; i + 1 < w.size(); i++) { int u = w[i], v = w[i + 1]; if (!adjacent(u, v)) { ok = false; break; } want.push_back({std::min(u, v), std::max(u, v)}); k += u == v ? 0 : g.cost[u][v]; }
            for (auto v : w) p += g.prize[v];
            std::list<PCTSPvertex> l(w.begin(), w.end()); std::vector<P2> got; std::vector<PCTSPedge> ge; int c1 = -1, c2 = -1, c3 = -1, c4 = -1;
            std::string t = thrown([&] { auto f = w.begin(), e = w.end(); ge = getEdgesInWalk(G, f, e); for (auto x : ge) got.push_back(name(x)); c1 = totalCost(G, w, cost); c2 = totalCost(G, l, cost); c3 = totalCost(ge, cost); std::list<PCTSPedge> le(ge.begin(), ge.end()); c4 = totalCost(le, cost); });
            WANT(t == (ok ? "" : "EdgeNotFound"), "walk-error", "getEdgesInWalk " + show(w) + " threw '" + t + "'");
            if (ok) { WANT(got == want, "walk-edges", "getEdgesInWalk " + show(w)); WANT(c1 == k && c2 == k && c3 == k && c4 == k, "total-cost", "totalCost of " + show(w) + " is " + std::to_string(c1) + " instead of " + std::to_string(k)); }
            WANT(totalPrize(prize, w) == p && totalPrize(prize, l) == p, "total-prize", "totalPrize of " + show(w));
            if (!l.empty()) WANT(totalPrizeOfTour(prize, l) == p - g.prize[w.back()], "tour-prize", "totalPrizeOfTour of " + show(w));
            std::string s; for (auto v : w) s += std::to_string(v) + ", "; WANT(walkToString(l) == s, "walk-string", "walkToString of " + show(w));
            for (int q = p - 1; q <= p + 1; q++) WANT(isPrizeFeasible(prize, q, w) == (p >= q), "prize-feasible", "isPrizeFeasible of " + show(w));
            if (w.size() >= 2) for (PCTSPvertex v = 0; v < (PCTSPvertex)n; v++) WANT(isInternalVertexOfWalk(w, v) == (std::find(w.begin() + 1, w.end() - 1, v) != w.end() - 1), "internal", "isInternalVertexOfWalk of " + show(w) + " and " + std::to_string(v));
            total += ok;
        }
        { // as a closed tour: every rotation and every subpath
            std::set<PCTSPvertex> d(w.begin(), w.end());
            if (d.size() == w.size() && w.size() >= 2) {
                std::vector<PCTSPvertex> t(w); t.push_back(w[0]); std::list<PCTSPvertex> l(t.begin(), t.end()); int k = w.size();
                for (int r = 0; r < k; r++) { std::list<PCTSPvertex> want; for (int i = 0; i <= k; i++) want.push_back(w[(r + i) % k]); auto got = ReorderTourFromRoot(l, w[r]); WANT(got == want, "reorder", "ReorderTourFromRoot of " + show(l) + " from " + std::to_string(w[r]) + " is " + show(got)); }
                std::list<int> li(t.begin(), t.end()); for (int r = 0; r < k; r++) { auto got = ReorderTourFromRoot(li, (int)w[r]); WANT((int)got.size() == k + 1 && got.front() == (int)w[r] && got.back() == (int)w[r], "reorder", "ReorderTourFromRoot of integers"); }
                for (int a = 0; a <= k; a++) for (int b = 0; b < k; b++) { if (a == k && b == 0) continue; std::vector<PCTSPvertex> want; for (int i = a;; i++) { want.push_back(w[i % k]); if (i % k == b) break; } auto got = getSubpathOfCycle(l, a, b); WANT(got == want, "subpath", "getSubpathOfCycle of " + show(l) + " from " + std::to_string(a) + " to " + std::to_string(b) + " is " + show(got)); }
            }
        }
    };
    std::function<void()> walk = [&] {
        if (!o.viol.empty()) return;
        check_walk();
        if ((int)w.size() == maxlen) return;
        for (int v = 0; v < n; v++) { w.push_back(v); walk(); w.pop_back(); }
    };
    // in a larger graph: along the numbers, by strides, depth first there and back, every path of a search tree, every cycle such a path closes
    V top(n, -2), deep(n); std::vector<std::set<P2>> rings;
    if (large) {
        auto go = [&](const V& x) { if (o.viol.empty()) { w.assign(x.begin(), x.end()); check_walk(); } };
        for (int len : {0, 1, 2, n / 2, n - 1, n}) for (int stride : {1, 2, 3, n - 1}) for (int a : {0, 1, n / 2}) { V x; for (int i = 0; i < len; i++) x.push_back((a + i * stride) % n); go(x); x.push_back(x.empty() ? a : x[0]); go(x); }
        { V x, up(n); std::vector<bool> in(n); std::function<void(int)> tour = [&](int u) { in[u] = true; x.push_back(u); for (int v = 0; v < n; v++) if (g.has(u, v) && !in[v]) { tour(v); x.push_back(u); } }; tour(0); go(x); std::reverse(x.begin(), x.end()); go(x); x.push_back(n - 1); go(x); }
        for (int r = 0; r < n; r++) if (top[r] == -2) { top[r] = -1; V q{r}; for (size_t i = 0; i < q.size(); i++) for (int v = 0; v < n; v++) if (g.has(q[i], v) && top[v] == -2) { top[v] = q[i]; deep[v] = deep[q[i]] + 1; q.push_back(v); } }
        auto upward = [&](int v) { V x; for (; v >= 0; v = top[v]) x.push_back(v); return x; };
        for (int v = 0; v < n; v++) { V x = upward(v); go(x); std::reverse(x.begin(), x.end()); go(x); if (loops) { x.insert(x.begin() + x.size() / 2, x[x.size() / 2]); go(x); } }
        for (auto& e : es) if (top[e.first] != e.second && top[e.second] != e.first) {
            V a = upward(e.first), b = upward(e.second); while (a.size() > 1 && b.size() > 1 && a[a.size() - 2] == b[b.size() - 2]) a.pop_back(), b.pop_back();
            V x(a); for (int i = (int)b.size() - 2; i >= 0; i--) x.push_back(b[i]);
            if (rings.size() < 12) { go(x); x.push_back(x[0]); go(x); } else x.push_back(x[0]);
            std::set<P2> ring; for (size_t i = 0; i + 1 < x.size(); i++) ring.insert({std::min(x[i], x[i + 1]), std::max(x[i], x[i + 1])}); rings.push_back(ring);
        }
    } else walk();
    if (!o.viol.empty()) return;
    // every subset of the edges
    std::vector<PCTSPedge> ge; for (auto e : boost::make_iterator_range(boost::edges(G))) if (boost::source(e, G) != boost::target(e, G)) ge.push_back(e);
    auto is_ring = [&](const std::set<P2>& s) { std::map<int, V> nb; for (auto& e : s) { nb[e.first].push_back(e.second); nb[e.second].push_back(e.first); } if (s.empty()) return false; for (auto& [v, x] : nb) if (x.size() != 2) return false; int at = nb.begin()->first, from = -1; size_t k = 0; do { int next = nb[at][0] == from ? nb[at][1] : nb[at][0]; from = at; at = next; k++; } while (at != nb.begin()->first); return k == nb.size(); };
    std::set<std::set<P2>> cycles; if (!large) for (int r = 0; r < n; r++) all_cycles(g, r, [&](const V& t) { std::set<P2> s; for (size_t i = 0; i < t.size(); i++) { int u = t[i], v = t[(i + 1) % t.size()]; s.insert({std::min(u, v), std::max(u, v)}); } cycles.insert(s); });
    auto check_edges = [&](const std::function<bool(size_t)>& take) {
        std::vector<PCTSPedge> sub; std::set<P2> key; std::set<int> vs; for (size_t i = 0; i < ge.size(); i++) if (take(i)) { sub.push_back(ge[i]); auto k = name(ge[i]); key.insert(k); vs.insert(k.first); vs.insert(k.second); }
        bool cyc = is_ring(key);
        if (!large && cyc != (bool)cycles.count(key)) { fprintf(stderr, "the two references disagree\n"); abort(); }
        if (large) cycles.insert(key);
        for (int turn = 0; turn < 2; turn++) { WANT(isSimpleCycle(G, sub) == cyc, "simple-cycle", "isSimpleCycle of a set of " + std::to_string(sub.size()) + " edges should be " + std::to_string(cyc)); std::reverse(sub.begin(), sub.end()); }
        auto f = sub.begin(), l = sub.end(); auto got = getVerticesOfEdges(G, f, l); WANT(V(got.begin(), got.end()) == V(vs.begin(), vs.end()), "vertices-of-edges", "getVerticesOfEdges is " + show(got));
        auto pv = getVertexPairVectorFromEdgeSubset(G, sub); WANT(pv.size() == sub.size(), "pairs", "getVertexPairVectorFromEdgeSubset"); for (size_t i = 0; i < pv.size(); i++) WANT(pv[i].first == boost::source(sub[i], G) && pv[i].second == boost::target(sub[i], G), "pairs", "getVertexPairVectorFromEdgeSubset");
        auto back = edgesFromVertexPairs(G, pv); WANT(back == sub, "pairs-back", "edgesFromVertexPairs does not give the edges back");
        PCTSPgraph H(n); for (auto& k : key) boost::add_edge(k.first, k.second, H); std::vector<int> comp(n); WANT(isGraphSimpleCycle(H, comp) == (cyc && (int)vs.size() == n), "graph-simple-cycle", "isGraphSimpleCycle is wrong");
        o.states++;
    };
    if (!large) for (unsigned z = 0; z < 1u << ge.size() && o.viol.empty(); z++) check_edges([&](size_t i) { return z >> i & 1; });
    else { // every edge, every ring, each ring without one edge or with one more, two rings together and their difference, and regular patterns
        for (size_t k = 0; k <= ge.size() && o.viol.empty(); k++) { check_edges([&](size_t i) { return i == k; }); check_edges([&](size_t i) { return i < k; }); check_edges([&](size_t i) { return i != k; }); }
        for (int m = 2; m < 6; m++) for (int a = 0; a < m && o.viol.empty(); a++) check_edges([&](size_t i) { return (int)i % m == a; });
        auto of = [&](const std::set<P2>& s) { check_edges([&](size_t i) { return s.count(name(ge[i])) > 0; }); };
        for (size_t a = 0; a < rings.size() && a < 10 && o.viol.empty(); a++) {
            of(rings[a]);
            for (auto& e : rings[a]) { auto s = rings[a]; s.erase(e); of(s); }
            for (auto& e : es) { auto s = rings[a]; s.insert({std::min(e.first, e.second), std::max(e.first, e.second)}); of(s); }
            for (size_t b = 0; b < a; b++) { auto s = rings[a]; s.insert(rings[b].begin(), rings[b].end()); of(s); std::set<P2> d; std::set_symmetric_difference(rings[a].begin(), rings[a].end(), rings[b].begin(), rings[b].end(), std::inserter(d, d.end())); of(d); }
        }
    }
    for (PCTSPvertex u = 0; u < (PCTSPvertex)n; u++) for (PCTSPvertex v = 0; v < (PCTSPvertex)n; v++) { std::vector<std::pair<PCTSPvertex, PCTSPvertex>> p{{u, v}}; std::string t = thrown([&] { edgesFromVertexPairs(G, p); }); WANT(t == (adjacent(u, v) ? "" : "EdgeNotFound"), "pairs-error", "edgesFromVertexPairs threw '" + t + "'"); }
    // every subset of the vertices
    V limits, roots; for (int i = 0; i <= n; i++) if (!large || i < 4 || i == n / 4 || i == n / 2 || i >= n - 1) limits.push_back(i);
    for (int i = 0; i < n; i++) if (!large || i == 0 || i == 1 || i == n / 2 || i == n - 1) roots.push_back(i);
    auto check_vertices = [&](const std::vector<bool>& in) {
        if (!o.viol.empty()) return;
        std::vector<PCTSPvertex> s; for (int v = 0; v < n; v++) if (in[v]) s.push_back(v);
        if (rev) std::reverse(s.begin(), s.end());
        auto got = getEdgesInducedByVertices(G, s); std::multiset<P2> a, b; for (auto e : got) a.insert(name(e)); for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (in[u] && in[v] && g.has(u, v)) b.insert({u, v});
        WANT(a == b, "induced", "getEdgesInducedByVertices of " + show(s));
        std::vector<PCTSPedge> sl; std::string t = thrown([&] { sl = getSelfLoops(G, s); });
        WANT(t == (loops || s.empty() ? "" : "EdgeNotFound"), "self-loops-error", "getSelfLoops of " + show(s) + " threw '" + t + "'");
        if (loops) { bool ok = sl.size() == s.size(); for (size_t i = 0; ok && i < s.size(); i++) ok = boost::source(sl[i], G) == s[i] && boost::target(sl[i], G) == s[i]; WANT(ok, "self-loops", "getSelfLoops of " + show(s)); }
        std::vector<bool> mark(in);
        auto fg = filterMarkedVertices(G, mark); std::set<P2> fe, we; std::set<int> fv; for (auto v : boost::make_iterator_range(boost::vertices(fg))) fv.insert(v); for (auto e : boost::make_iterator_range(boost::edges(fg))) fe.insert(name(e));
        for (int u = 0; u < n; u++) for (int v = u; v < n; v++) if (mark[u] && mark[v] && adjacent(u, v)) we.insert({u, v});
        std::set<int> wv; for (int v = 0; v < n; v++) if (mark[v]) wv.insert(v);
        WANT(fv == wv && fe == we, "filter", "filterMarkedVertices is not the induced subgraph");
        // searches that avoid the marked vertices
        for (PCTSPvertex src : roots) {
            V dist(n, -1); dist[src] = 0; V q{(int)src}; for (size_t i = 0; i < q.size(); i++) for (int v = 0; v < n; v++) if (g.has(q[i], v) && dist[v] < 0 && !mark[v]) { dist[v] = dist[q[i]] + 1; q.push_back(v); }
            for (int lim : limits) {
                std::vector<bool> m(mark); std::vector<PCTSPvertex> par(n, 99); breadthFirstSearch(G, src, m, par, lim);
                for (int v = 0; v < n; v++) {
                    bool reach = dist[v] >= 0 && dist[v] <= lim;
                    WANT(m[v] == (mark[v] || reach), "bfs-marks", "breadthFirstSearch from " + std::to_string(src) + " with limit " + std::to_string(lim) + " marks vertex " + std::to_string(v) + " wrongly");
                    if (reach && v != (int)src) WANT(par[v] < (PCTSPvertex)n && g.has(par[v], v) && dist[par[v]] == dist[v] - 1, "bfs-parent", "the parent of " + std::to_string(v) + " in the breadth first tree is wrong");
                    if (reach) { PCTSPvertex tv = v, sv = src; if (par[src] != src) { o.fail("bfs-parent", "the source is not its own parent"); continue; } auto path = pathInTreeFromParents(par, sv, tv); bool ok = (int)path.size() == dist[v] + 1 && path.front() == src && path.back() == (PCTSPvertex)v; int prev = -1; for (auto x : path) { if (prev >= 0) ok &= g.has(prev, x); prev = x; } WANT(ok, "tree-path", "pathInTreeFromParents from " + std::to_string(src) + " to " + std::to_string(v) + " is " + show(path)); }
                    else if (!mark[v] || v == (int)src) WANT(par[v] == 99 || v == (int)src, "bfs-parent", "an unreached vertex has a parent");
                }
                std::vector<bool> dm(mark); std::vector<PCTSPvertex> dp(n, 99); depthFirstSearch(G, src, dm, dp, lim);
                for (int v = 0; v < n; v++) {
                    bool fresh = dm[v] && !mark[v] && v != (int)src;
                    if (fresh) { int x = v, steps = 0; while (x != (int)src && steps <= n) { int y = dp[x]; if (y < 0 || y >= n || !g.has(y, x)) { steps = n + 1; break; } x = y; steps++; } WANT(steps <= lim, "dfs-depth", "depthFirstSearch reached vertex " + std::to_string(v) + " by a wrong path or too deep"); }
                    if (lim >= n - 1) WANT(dm[v] == (mark[v] || dist[v] >= 0), "dfs-marks", "depthFirstSearch without a limit misses vertex " + std::to_string(v));
                    WANT(!mark[v] || dm[v], "dfs-marks", "depthFirstSearch removed a mark"); if (!dm[v]) WANT(dp[v] == 99, "dfs-parent", "an unreached vertex has a parent");
                    if (lim >= 1 && g.has(src, v)) WANT(dm[v], "dfs-marks", "depthFirstSearch misses a neighbour of the source");
                }
            }
            // shortest paths that avoid the marked vertices, up to a target
            std::vector<long> sd(n, 1 << 28); sd[src] = 0; for (int r = 0; r < n; r++) for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (g.has(u, v) && !mark[v] && sd[u] + g.cost[u][v] < sd[v]) sd[v] = sd[u] + g.cost[u][v];
            for (PCTSPvertex t = 0; t < (PCTSPvertex)n; t++) {
                std::vector<PCTSPvertex> pm(n); std::vector<int> dm(n); std::vector<boost::default_color_type> cm(n);
                auto m = mark; std::string th = thrown([&] { dijkstraShortestPathBlacklist(G, src, t, pm, dm, cost, cm, m); });
                bool found = sd[t] < 1 << 28; WANT(th == (found ? "TargetFound" : ""), "dijkstra-found", "the search from " + std::to_string(src) + " to " + std::to_string(t) + " ended with '" + th + "'");
                if (found) { WANT(dm[t] == sd[t], "dijkstra-distance", "the distance from " + std::to_string(src) + " to " + std::to_string(t) + " is " + std::to_string(dm[t]) + " instead of " + std::to_string(sd[t])); long k = 0; int x = t, steps = 0; while (x != (int)src && steps <= n) { int y = pm[x]; if (!g.has(y, x) || (mark[x])) { steps = n + 9; break; } k += g.cost[y][x]; x = y; steps++; } WANT(steps <= n && k == sd[t], "dijkstra-path", "the path from " + std::to_string(src) + " to " + std::to_string(t) + " is wrong"); }
                o.transitions++;
            }
            // reachable by edges of positive weight; the subset marks say which edges have weight zero
            std::map<PCTSPedge, long> pw; boost::associative_property_map<std::map<PCTSPedge, long>> wm(pw); auto zero = [&](int u, int v) { return mark[u] != mark[v]; };
            for (auto e : boost::make_iterator_range(boost::edges(G))) pw[e] = zero(boost::source(e, G), boost::target(e, G)) ? 0 : 3;
            std::set<int> rs{(int)src}; V st{(int)src}; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v = 0; v < n; v++) if (g.has(u, v) && !zero(u, v) && rs.insert(v).second) st.push_back(v); }
            auto re = getReachableVertices(G, src, wm); auto un = getUnreachableVertices(G, src, wm);
            std::set<int> gs(re.begin(), re.end()), us(un.begin(), un.end()); std::set<int> wu; for (int v = 0; v < n; v++) if (!rs.count(v)) wu.insert(v);
            WANT(gs == rs && re.size() == rs.size(), "reachable", "getReachableVertices from " + std::to_string(src) + " is " + show(re)); WANT(us == wu && un.size() == wu.size(), "unreachable", "getUnreachableVertices from " + std::to_string(src) + " is " + show(un));
        }
        std::map<PCTSPvertex, bool> par; for (int v = 0; v < n; v++) par[v] = in[v]; boost::associative_property_map<std::map<PCTSPvertex, bool>> pmap(par);
        auto cut = getEdgesFromCut(G, pmap); std::set<P2> cs, wc; for (auto e : cut) cs.insert(name(e)); for (auto& e : es) if (in[e.first] != in[e.second]) wc.insert({std::min(e.first, e.second), std::max(e.first, e.second)});
        WANT(cs == wc && cut.size() == wc.size(), "cut", "getEdgesFromCut is wrong");
    };
    std::vector<bool> in(n);
    if (!large) for (unsigned z = 0; z < 1u << n; z++) { for (int v = 0; v < n; v++) in[v] = z >> v & 1; check_vertices(in); }
    else for (int what = 0; what < 22; what++) {
        for (int v = 0; v < n; v++) in[v] = what == 0 ? false : what == 1 ? true : what < 6 ? v % (what + 1) == 1 : what < 9 ? v % (what - 3) != 0 : what < 13 ? v == (what - 9) * (n - 1) / 3 : what < 16 ? (v < n / 4) != (what == 14) : what < 18 ? std::abs(v - n / 2) <= what - 16 : scramble(v, what, c[6]) % 4 == 0;
        check_vertices(in);
    }
    o.nontrivial = !es.empty(); o.traces = 1; o.outcome = vh::mix(vh::mix(mask, total), cycles.size() * 8 + loops);
}

// ---------------------------------------------------------------- components
// group 2: 2 k ids...
static Case pattern(int k, int n, int pat) { Case c{2, k}; for (int i = 0; i < n; i++) c.push_back(pat == 0 ? i % k : pat == 1 ? std::min<long>(k - 1, (long)i * k / n) : pat == 2 ? k - 1 - i % k : pat == 3 ? (i < n / 2 ? i % k : 0) : pat == 4 ? std::max(0, k - 1 - i) : scramble(i, pat, k) % k); return c; }
static void comp_run(Case c, Out& o) {
    if (c.size() > 2 && c[2] < 0) c = pattern(c[1], -c[2], c[3]);
    int k = c[1]; V ids(c.begin() + 2, c.end()); int n = ids.size();
    PCTSPgraph G(n); std::vector<std::vector<PCTSPvertex>> want(k), big; for (int v = 0; v < n; v++) want[ids[v]].push_back(v);
    for (auto& w : want) if (w.size() > 1) big.push_back(w);
    int nc = k; auto got = getConnectedComponentsVectors(G, nc, ids); WANT(got == want, "components", "getConnectedComponentsVectors is wrong");
    auto ns = getNonSingularConnectedComponentVectors(got); WANT(ns == big, "non-singular", "getNonSingularConnectedComponentVectors of the components is wrong: " + std::to_string(ns.size()) + " instead of " + std::to_string(big.size()));
    WANT(got == want, "changed", "the components were changed");
    auto ns2 = getNonSingularConnectedComponentVectors(G, nc, ids); WANT(ns2 == big, "non-singular-graph", "getNonSingularConnectedComponentVectors of the graph is wrong");
    o.nontrivial = n > 0; o.states = 1; o.outcome = vh::mix(big.size(), vh::mix(k, n)); for (auto& b : big) for (auto v : b) o.outcome = vh::mix(o.outcome, v);
}

// ---------------------------------------------------------------- tailing off
static const double GAPS[] = {0.5, 0.3, 0.25, 0.05, 0.0}; static const double THRESH[] = {0.0, 0.01, 0.2, 0.1 + 0.15, 1.0};
// group 3: 3 iterations threshold gaps...
static void tail_run(const Case& c, Out& o) {
    int k = c[1]; double th = THRESH[c[2]]; std::list<double> roll; std::vector<double> hist; uint64_t h = 0;
    for (size_t i = 3; i < c.size(); i++) {
        double gap = GAPS[c[i]]; pushIntoRollingLpGapList(roll, gap, k); hist.push_back(gap); o.states++; o.transitions++;
        std::vector<double> want; if (k >= 1) want.assign(hist.end() - std::min<size_t>(k, hist.size()), hist.end());
        WANT(std::vector<double>(roll.begin(), roll.end()) == want, "rolling", "after " + std::to_string(hist.size()) + " gaps the list holds " + std::to_string(roll.size()) + " instead of the last " + std::to_string(want.size()));
        bool tail = k >= 2 && (int)hist.size() >= k && hist[hist.size() - k] - hist.back() < th;
        bool got = isNodeTailingOff(roll, th, k); WANT(got == tail, "tailing", "after " + std::to_string(hist.size()) + " gaps tailing off is " + std::to_string(got));
        h = h * 2 + got + 1;
    }
    o.nontrivial = hist.size() > 1; o.traces = 1; o.outcome = vh::mix(h, roll.size());
}

// ---------------------------------------------------------------- statistics files
// group 4: 4 what args...
static void stats_run(const Case& c, Out& o) {
    std::filesystem::path f = SCRATCH + "/stats.txt"; std::filesystem::remove(f); o.nontrivial = true; o.states = 1;
    static const double D[] = {0, 1, 12.5, 0.1, 1.0 / 3, 1e-9, 123456789.25, -7, 1e20, 1e308};
    if (c[1] == 0) { // summary round trip: which fields differ, and how
        SummaryStats s{(SCIP_Status)c[2], D[c[3]], D[c[4]], 1, 2, 3, 4, 5, 6, 7, 8};
        unsigned* u[] = {&s.num_cost_cover_disjoint_paths, &s.num_cost_cover_shortest_paths, &s.nconss_presolve_disjoint_paths, &s.nconss_presolve_shortest_paths, &s.num_cycle_cover, &s.num_sec_disjoint_tour, &s.num_sec_maxflow_mincut};
        if (c[5] < 7) *u[c[5]] = (unsigned)c[6]; else s.num_nodes = c[6] < 0 ? 5000000000ll : c[6];
        writeSummaryStatsToYaml(s, f); SummaryStats r = readSummaryStatsFromYaml(f);
        WANT(r.status == s.status && r.lower_bound == s.lower_bound && r.upper_bound == s.upper_bound, "summary-head", "status or bounds changed: " + std::to_string(r.lower_bound) + " " + std::to_string(r.upper_bound));
        WANT(r.num_cost_cover_disjoint_paths == s.num_cost_cover_disjoint_paths && r.num_cost_cover_shortest_paths == s.num_cost_cover_shortest_paths && r.nconss_presolve_disjoint_paths == s.nconss_presolve_disjoint_paths && r.nconss_presolve_shortest_paths == s.nconss_presolve_shortest_paths && r.num_cycle_cover == s.num_cycle_cover && r.num_sec_disjoint_tour == s.num_sec_disjoint_tour && r.num_sec_maxflow_mincut == s.num_sec_maxflow_mincut && r.num_nodes == s.num_nodes, "summary-counters", "a counter changed on its way through the file");
        YAML::Node y = YAML::LoadFile(f.string()); const char* names[] = {"num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths", "nconss_presolve_shortest_paths", "num_cycle_cover", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"};
        for (int i = 0; i < 7; i++) WANT(y[names[i]] && y[names[i]].as<unsigned>() == *u[i], "summary-names", std::string("the file has the wrong value under ") + names[i]);
        WANT(y.size() == 11, "summary-names", "the file has another number of entries");
        WANT(y["status"].as<int>() == (int)s.status && y["num_nodes"].as<long long>() == s.num_nodes && y["lower_bound"].as<double>() == s.lower_bound && y["upper_bound"].as<double>() == s.upper_bound, "summary-names", "the file has the wrong status, nodes or bounds");
        o.outcome = vh::mix(vh::mix(c[2], c[3] * 16 + c[4]), vh::mix(c[5], c[6]));
    } else if (c[1] == 1) { // a missing folder is left alone, a missing file is an error, an old file is replaced
        SummaryStats s{SCIP_STATUS_OPTIMAL, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}; std::filesystem::path m = SCRATCH + "/missing/stats.yaml";
        writeSummaryStatsToYaml(s, m); WANT(!std::filesystem::exists(m.parent_path()), "missing-folder", "a missing folder was created");
        std::vector<NodeStats> ns; writeNodeStatsToCSV(ns, m); std::vector<Bounds> bs; writeBoundsToCSV(bs, m); WANT(!std::filesystem::exists(m.parent_path()), "missing-folder", "a missing folder was created");
        std::string t = thrown([&] { readSummaryStatsFromYaml(f); }); WANT(t.find("does not exist") != t.npos && t.find("stats.txt") != t.npos, "missing-file", "reading a missing file threw '" + t + "'");
        { std::ofstream junk(f); for (int i = 0; i < 1000; i++) junk << "junk: " << i << "\n"; }
        writeSummaryStatsToYaml(s, f); WANT(readSummaryStatsFromYaml(f).num_sec_maxflow_mincut == 10, "replace", "an old file is not replaced");
        o.outcome = 3;
    } else if (c[1] == 2) { // time stamps: seconds, milliseconds and time zone
        static const char* TZS[] = {"UTC", "America/New_York", "Asia/Kolkata", "XYZ-5:45"}; setenv("TZ", TZS[c[2]], 1); tzset();
        static const long long S[] = {0, 1, 59, 86399, 951782400, 951868799, 1709164800, 1709251199, 1711846799, 1711846800, 1711846801, 1729994400, 4102444799ll, 1640995199, 1640995200};
        long long s = S[c[3]]; int ms = c[4]; TimePointUTC tp{std::chrono::milliseconds(s * 1000 + ms)}; std::string got = timePointToString(tp);
        long long days = s / 86400, z = days + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
        int d = doy - (153 * mp + 2) / 5 + 1, mo = mp < 10 ? mp + 3 : mp - 9; long long y = yoe + era * 400 + (mo <= 2), r = s % 86400; char b[80];
        snprintf(b, sizeof b, "%04lld-%02d-%02dT%02lld:%02lld:%02lld.%03dZ", y, mo, d, r / 3600, r / 60 % 60, r % 60, ms); WANT(got == b, "timestamp", "the time stamp is " + got + " instead of " + b);
        setenv("TZ", "UTC", 1); tzset(); o.outcome = vh::mix(s, ms);
    } else { // tables: one row per record, each value under its column
        int rows = c[2], bit = c[3]; unsigned big = c.size() > 4 ? c[4] : 900; std::vector<NodeStats> ns; std::vector<Bounds> bs; std::vector<std::map<std::string, std::string>> wn, wb; auto num = [](auto x) { std::stringstream s; s << x; return s.str(); };
        for (int i = 0; i < rows; i++) {
            NodeStats x{1.5 + i, 10u + i, 20u + i, 30u + i, 40u + i, 50u + i, 60u + i, 70u + i, 80.25 + i}; unsigned* u[] = {&x.node_id, &x.num_sec_disjoint_tour, &x.num_sec_maxflow_mincut, &x.num_cost_cover_disjoint_paths, &x.num_cost_cover_shortest_paths, &x.num_cost_cover_steiner_tree, &x.parent_id}; if (bit < 7) *u[bit] = i % 2 ? 0 : big;
            ns.push_back(x); wn.push_back({{"lower_bound", num(x.lower_bound)}, {"node_id", num(x.node_id)}, {"num_sec_disjoint_tour", num(x.num_sec_disjoint_tour)}, {"num_sec_maxflow_mincut", num(x.num_sec_maxflow_mincut)}, {"num_cost_cover_disjoint_paths", num(x.num_cost_cover_disjoint_paths)}, {"num_cost_cover_shortest_paths", num(x.num_cost_cover_shortest_paths)}, {"num_cost_cover_steiner_tree", num(x.num_cost_cover_steiner_tree)}, {"parent_id", num(x.parent_id)}, {"upper_bound", num(x.upper_bound)}});
            Bounds b{TimePointUTC{std::chrono::milliseconds(1000 * i + 5)}, TimePointUTC{std::chrono::milliseconds(2000 * i + 17)}, 3.5 + i, 9.25 - i, 4u + i}; bs.push_back(b);
            wb.push_back({{"start_timestamp", timePointToString(b.start_timestamp)}, {"end_timestamp", timePointToString(b.end_timestamp)}, {"lower_bound", num(b.lower_bound)}, {"upper_bound", num(b.upper_bound)}, {"node_id", num(b.node_id)}});
        }
        unsigned td = 0, tm = 0; for (auto& x : ns) td += x.num_sec_disjoint_tour, tm += x.num_sec_maxflow_mincut;
        WANT(numDisjointTourSECs(ns) == td && numMaxflowMincutSECs(ns) == tm, "sums", "the sums over the nodes are wrong");
        auto table = [&](const std::vector<std::map<std::string, std::string>>& want, const char* what) {
            std::ifstream in(f); std::string line; auto split = [](std::string s) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) r.push_back(t); return r; };
            if (!std::getline(in, line)) { o.fail("table", std::string(what) + " has no header"); return; } auto head = split(line); size_t i = 0;
            while (std::getline(in, line)) { auto cells = split(line); if (i >= want.size() || cells.size() != head.size() || head.size() != want[i].size()) { o.fail("table", std::string(what) + ": row " + std::to_string(i) + " is " + line); return; } for (size_t j = 0; j < head.size(); j++) { auto it = want[i].find(head[j]); WANT(it != want[i].end() && it->second == cells[j], "table", std::string(what) + ": row " + std::to_string(i) + " has " + cells[j] + " under " + head[j]); } i++; }
            WANT(i == want.size(), "table", std::string(what) + " has " + std::to_string(i) + " rows instead of " + std::to_string(want.size()));
        };
        writeNodeStatsToCSV(ns, f); table(wn, "node statistics"); writeBoundsToCSV(bs, f); table(wb, "bounds"); o.outcome = vh::mix(rows, bit);
    }
}

// ---------------------------------------------------------------- logging levels
// group 5: 5 what args...
static void level_run(const Case& c, Out& o) {
    o.nontrivial = true; static const std::map<int, int> LV = {{0, 0}, {10, 1}, {20, 2}, {30, 3}, {40, 4}, {50, 5}};
    if (c[1] == 0) { // the level of boost with the same meaning; levels without a name mean info
        auto it = LV.find(c[2]); int want = it == LV.end() ? 2 : it->second, got = getBoostLevelFromPyLevel(c[2]); o.states = 1;
        WANT(got == want, "level", "level " + std::to_string(c[2]) + " became " + std::to_string(got) + " instead of " + std::to_string(want)); o.outcome = got * 100 + want;
    } else { // after any sequence of settings, exactly the messages at or above the last level are logged
        auto& lg = logging::trivial::logger::get();
        for (size_t i = 2; i < c.size(); i++) {
            int py = c[i], want = LV.count(py) ? LV.at(py) : 2; PCTSPinitLogging(getBoostLevelFromPyLevel(py)); o.states++; o.transitions++;
            for (int s = 0; s <= 5; s++) { bool on = (bool)lg.open_record(boost::log::keywords::severity = (logging::trivial::severity_level)s); WANT(on == (s >= want), "filter", "after level " + std::to_string(py) + " a message of severity " + std::to_string(s) + " is " + (on ? "logged" : "dropped")); o.outcome = o.outcome * 2 + on; }
        }
        o.traces = 1;
    }
}

// ---------------------------------------------------------------- knapsack
static int NSOLVED; static double BEST; static bool WATCH = false;
extern "C" SCIP_RETCODE SCIPfree(SCIP** scip) {
    if (WATCH) { NSOLVED++; BEST = SCIPgetPrimalbound(*scip); if (SCIPgetStatus(*scip) != SCIP_STATUS_OPTIMAL) BEST = -1; }
    return ((SCIP_RETCODE(*)(SCIP**))dlsym(RTLD_NEXT, "SCIPfree"))(scip);
}
// group 6: 6 k capacity | costs | weights
static void knapsack_run(const Case& c, Out& o) {
    int k = c[1], cap = c[2]; std::vector<int> cost(c.begin() + 3, c.begin() + 3 + k), weight(c.begin() + 3 + k, c.end()); long best = 0;
    if (k > 3) { std::vector<long> dp(cap + 1); for (int i = 0; i < k; i++) for (int x = cap; x >= weight[i]; x--) { dp[x] = std::max(dp[x], dp[x - weight[i]] + cost[i]); o.states++; } best = *std::max_element(dp.begin(), dp.end()); }
    else for (int z = 0; z < 1 << k; z++) { long a = 0, b = 0; for (int i = 0; i < k; i++) if (z >> i & 1) { a += cost[i]; b += weight[i]; } if (b <= cap) best = std::max(best, a); o.states++; }
    WATCH = true; NSOLVED = 0; SCIP_RETCODE rc = knapsack(cost, weight, cap); WATCH = false;
    WANT(rc == SCIP_OKAY, "knapsack-error", "knapsack returned an error"); WANT(NSOLVED == 1, "knapsack-model", "the model was not freed once");
    WANT(std::fabs(BEST - best) < 1e-6, "knapsack", "the best value is " + std::to_string(BEST) + " instead of " + std::to_string(best)); o.nontrivial = best > 0; o.outcome = vh::mix(best, k); o.traces = 1;
}

// ---------------------------------------------------------------- solutions of the solver
static const double VAL[] = {0, 1, 0.5, 1e-12, -1e-12, 1e-7, 1 - 1e-12, 1 - 1e-7};
// group 7: 7 0 n mask nvals rev loops | values of the first variables; 7 1 npos nneg
static void solution_run(const Case& c, Out& o) {
    SCIP* scip = NULL; SCIPcreate(&scip); SCIPcreateProbBasic(scip, "p");
    auto variable = [&](const std::string& name) { SCIP_VAR* v; SCIPcreateVarBasic(scip, &v, name.c_str(), -1, 2, 0, SCIP_VARTYPE_CONTINUOUS); SCIPaddVar(scip, v); return v; };
    if (c[1] == 0) {
        int n = c[2], nv = c[4], rev = c[5], loops = c[6]; unsigned mask = c[3]; V pre(c.begin() + 7, c.end());
        PCTSPgraph G(n); PCTSPedgeVariableMap vm; std::vector<PCTSPedge> ed; std::vector<P2> ps; int b = 0;
        for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, b++) if (n >= 8 ? joined(n, mask, 1, u, v) : mask >> b & 1) ps.push_back({u, v});
        if (loops) for (int v = 0; v < n; v++) ps.push_back({v, v});
        if (rev) std::reverse(ps.begin(), ps.end());
        for (auto& p : ps) { auto e = rev ? boost::add_edge(p.second, p.first, G).first : boost::add_edge(p.first, p.second, G).first; vm[e] = variable("x" + std::to_string(p.first) + (n < 8 ? "" : ",") + std::to_string(p.second)); ed.push_back(e); }
        int m = ps.size(); V val(m); SCIP_SOL* sol; SCIPcreateSol(scip, &sol, NULL); auto name = [&](PCTSPedge e) { return std::make_pair((int)std::min(boost::source(e, G), boost::target(e, G)), (int)std::max(boost::source(e, G), boost::target(e, G))); };
        std::function<void(int)> rec = [&](int i) {
            if (!o.viol.empty()) return;
            if (i < m) { bool fix = i < (int)pre.size(); for (int x = fix ? pre[i] : 0; x < (fix ? pre[i] + 1 : nv); x++) { val[i] = x; SCIPsetSolVal(scip, sol, vm[ed[i]], VAL[x]); rec(i + 1); } return; }
            o.states++; std::set<P2> we, wa; std::vector<PCTSPvertex> wv; bool integral = true;
            for (int k = 0; k < m; k++) { bool pos = VAL[val[k]] > 1e-9; if (pos) wa.insert(ps[k]); if (pos && ps[k].first != ps[k].second) we.insert(ps[k]); integral &= std::fabs(VAL[val[k]] - std::round(VAL[val[k]])) <= 1e-9; WANT(isVarPositive(scip, sol, vm[ed[k]]) == pos, "positive", "isVarPositive of " + std::to_string(VAL[val[k]])); }
            auto ge = getSolutionEdges(scip, G, sol, vm); std::set<P2> got; for (auto e : ge) got.insert(name(e)); WANT(got == we && ge.size() == we.size(), "solution-edges", "getSolutionEdges returns " + std::to_string(ge.size()) + " of " + std::to_string(we.size()) + " edges");
            WANT(isSolutionIntegral(scip, sol) == integral, "integral", "isSolutionIntegral is " + std::to_string(!integral));
            PCTSPgraph S; getSolutionGraph(scip, G, S, sol, vm); std::set<P2> gs; for (auto e : boost::make_iterator_range(boost::edges(S))) gs.insert({(int)std::min(boost::source(e, S), boost::target(e, S)), (int)std::max(boost::source(e, S), boost::target(e, S))}); WANT(gs == we && boost::num_edges(S) == we.size(), "solution-graph", "getSolutionGraph is wrong");
            auto fg = filterGraphByPositiveEdgeVars(scip, G, sol, vm); std::set<P2> gf; for (auto e : boost::make_iterator_range(boost::edges(fg))) gf.insert(name(e)); WANT(gf == wa && numEdgesInFilteredGraph(fg) == (int)wa.size(), "filtered", "filterGraphByPositiveEdgeVars is wrong");
            if (loops) { for (int v = 0; v < n; v++) if (wa.count({v, v})) wv.push_back(v); auto gv = getSolutionVertices(scip, G, sol, vm); WANT(gv == wv, "solution-vertices", "getSolutionVertices is " + show(gv)); }
            else if (n) WANT(thrown([&] { getSolutionVertices(scip, G, sol, vm); }) == "EdgeNotFound", "solution-vertices", "getSolutionVertices without self loops");
            logSolutionEdges(scip, G, sol, vm);
            o.outcome = vh::mix(vh::mix(o.outcome, wa.size()), integral);
        };
        rec(0); SCIPfreeSol(scip, &sol); o.nontrivial = m > 0;
        // variables of edges and their names
        if (pre.empty() || n >= 8) for (unsigned z = 0; z < 1u << std::min(m, 8) && o.viol.empty(); z++) {
            std::vector<PCTSPedge> sub; std::vector<SCIP_VAR*> want; std::string names; for (int k = 0; k < m; k++) if (z >> k & 1) { sub.push_back(ed[k]); want.push_back(vm[ed[k]]); names += std::string(names.empty() ? "" : "_") + SCIPvarGetName(vm[ed[k]]); }
            WANT(getEdgeVariables(scip, G, vm, sub) == want, "edge-variables", "getEdgeVariables is wrong"); WANT(joinVariableNames(want) == names, "names", "joinVariableNames is " + joinVariableNames(want));
            if (!want.empty()) { auto bad = want; bad[z % bad.size()] = NULL; WANT(thrown([&] { joinVariableNames(bad); }).find("NULL") != std::string::npos, "null-name", "joinVariableNames with NULL threw something else"); auto part = vm; part.erase(sub[z % sub.size()]); WANT(thrown([&] { getEdgeVariables(scip, G, part, sub); }).find("NULL") != std::string::npos, "null-variable", "getEdgeVariables of an edge without a variable"); }
        }
        for (auto& [e, v] : vm) { SCIP_VAR* w = v; SCIPreleaseVar(scip, &w); }
    } else {
        int np = c[2], nn = c[3]; VarVector pos, neg; for (int i = 0; i < np; i++) pos.push_back(variable("p" + std::to_string(i))); for (int i = 0; i < nn; i++) neg.push_back(variable("n" + std::to_string(i)));
        VarVector all(np + nn); std::vector<double> co(np + nn, 77); fillPositiveNegativeVars(pos, neg, all, co); std::map<SCIP_VAR*, double> got; for (size_t i = 0; i < all.size(); i++) got[all[i]] += co[i];
        WANT(got.size() == all.size(), "coefficients", "fillPositiveNegativeVars repeats a variable"); for (auto v : pos) WANT(got[v] == 1, "coefficients", "a positive variable has coefficient " + std::to_string(got[v])); for (auto v : neg) WANT(got[v] == -1, "coefficients", "a negative variable has coefficient " + std::to_string(got[v]));
        for (int way = 0; way < 3; way++) { // the names of the variables in several orders
            VarVector vs = all; if (way == 1) std::reverse(vs.begin(), vs.end()); if (way == 2 && vs.size() > 1) std::rotate(vs.begin(), vs.begin() + vs.size() / 2, vs.end());
            std::string names; for (size_t i = 0; i < vs.size(); i++) names += std::string(i ? "_" : "") + SCIPvarGetName(vs[i]);
            WANT(joinVariableNames(vs) == names, "names", "joinVariableNames of " + std::to_string(vs.size()) + " variables is wrong");
        }
        for (auto v : all) SCIPreleaseVar(scip, &v);
        o.nontrivial = np + nn > 0; o.states = 1; o.outcome = np * 100 + nn;
    }
    SCIPfree(&scip); o.traces = 1;
}

struct Util : vh::Harness {
    int group; explicit Util(int g) : group(g) {}
    void worker_init() override {
        SCRATCH = TOP + "/" + std::to_string(getpid()); mkdir(SCRATCH.c_str(), 0700); if (chdir(SCRATCH.c_str())) _exit(3); mkdir(".logs", 0700); if (!freopen("/dev/null", "w", stderr)) {}
        if (group >= 6) { FILE* f = fopen("/dev/null", "w"); if (f) dup2(fileno(f), 1); }
    }
    int nshards(bool) override { return 64; }
    void gen(int shard, bool th, const std::function<bool(const Case&)>& emit) override {
        size_t k = 0; bool go = true; auto put = [&](const Case& c) { if (go && (int)(k % 64) == shard) go = emit(c); k++; };
        if (group == 0) {
            std::vector<V> small, ops; // an operation: kind, k, items
            for (int a = 0; a < 4; a++) small.push_back({0, 1, a});
            for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) small.push_back({1, 1, a, b});
            ops = small; ops.push_back({0, 0}); ops.push_back({1, 0});
            for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { ops.push_back({0, 2, a, b}); for (int x = 0; x < 4; x++) { ops.push_back({0, 3, a, b, x}); for (int y = 0; y < 4; y++) ops.push_back({1, 2, a, b, x, y}); } }
            auto cat = [&](int ls, std::vector<const V*> v) { Case c{0, ls, ls % 2}; for (auto p : v) c.insert(c.end(), p->begin(), p->end()); put(c); };
            for (int ls = 0; ls < 4 && go; ls++) {
                put(Case{0, ls, ls % 2});
                for (auto& a : ops) { cat(ls, {&a}); for (auto& b : ops) if (th || ls < 1 || &b < &ops[40]) cat(ls, {&a, &b}); }
                for (auto& a : small) for (auto& b : small) for (auto& d : small) { cat(ls, {&a, &b, &d}); if (th) for (auto& e : small) cat(ls, {&a, &b, &d, &e}); }
            }
            for (int n : {200, 255, 256, 257, 258, 300, 513, 32767, 32768, 32770, 65535, 65536, 65537, 65540, 70001}) for (int mode = 0; mode < 3; mode++) for (int pieces : {1, 2, 5}) for (int turn = 0; turn < 4; turn++) { if (!th && n > 1000 && (mode + pieces + turn + n) % 4) continue; put(Case{0, -n, (mode + turn) % 2, mode, pieces, turn}); }
            // more labels: the edges of a graph of the family in chunks, in several orders, with vertices before, between or after
            for (int ls = 4; ls < (int)LABELS.size(); ls++) { int n = LABELS[ls].size(); for (int topo = 0; topo < TOPOLOGIES; topo++) for (int salt = 0; salt < (th ? 6 : 2); salt++) for (int order = 0; order < 4; order++) for (int chunk : {1, 7, 100000}) for (int turn = 0; turn < 3; turn++) for (int wide : {0, 1}) {
                if (!th && n > 13 && (topo + salt + order + chunk + turn + wide) % 4) continue;
                V es; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (joined(n, topo, salt, u, v)) { bool flip = order == 1 || (order == 3 && (u + v) % 2); es.push_back(flip ? v : u); es.push_back(flip ? u : v); }
                if (order == 1) { V x; for (size_t i = es.size(); i >= 2; i -= 2) { x.push_back(es[i - 2]); x.push_back(es[i - 1]); } es = x; }
                if (order == 2) { V x; int m = es.size() / 2, st = m % 5 ? 5 : m % 7 ? 7 : 1; for (int i = 0; i < m; i++) { int j = (long)i * st % m; x.push_back(es[2 * j]); x.push_back(es[2 * j + 1]); } es = x; }
                V some; for (int v = salt; v < n; v += 3) some.push_back((v * 5) % n); V all; for (int v = 0; v < n; v++) all.push_back(n - 1 - v);
                Case c{0, ls, wide}; auto vs = [&](const V& x) { c.push_back(0); c.push_back(x.size()); c.insert(c.end(), x.begin(), x.end()); };
                if (turn == 0) vs(some);
                for (size_t i = 0; i < es.size(); i += 2 * (size_t)chunk) { size_t k = std::min(es.size() - i, 2 * (size_t)chunk); c.push_back(1); c.push_back(k / 2); c.insert(c.end(), es.begin() + i, es.begin() + i + k); if (turn == 1 && i / 2 / chunk % 3 == 1) vs({es[i], es[i + 1], (int)(i + ls) % n}); }
                if (turn == 2) vs(all);
                put(c);
            } }
        } else if (group == 1) {
            for (int n = 0; n <= (th ? 6 : 5); n++) for (unsigned mask = 0; mask < 1u << n * (n - 1) / 2 && go; mask++) for (int rev : {0, 1}) for (int loops : {0, 1, 3}) for (int pat : {0, 1, 2}) {
                if (n >= 5 && (int)(mask % 3) != pat) continue;
                if (n >= 5 && !th && (mask * 2654435761u >> 18) % 4 != (unsigned)(loops + rev) % 4) continue;
                if (n == 6 && ((mask * 2654435761u >> 17) % 64 || (int)(mask / 3 % 3) != loops % 3 || __builtin_popcount(mask) > 11)) continue;
                put(Case{1, n, (int)mask, rev, loops, pat});
            }
            for (int n : {8, 11, 16, 25, 40, 100}) for (int topo = 0; topo < TOPOLOGIES; topo++) for (int rev : {0, 1}) for (int loops : {0, 1, 3}) for (int pat : {0, 1, 2}) for (int salt = 0; salt < (n > 40 ? 1 : th ? 12 : 4); salt++) {
                if (!th && (n + topo + rev + loops + pat + salt) % (n > 20 ? 4 : 2)) continue;
                put(Case{1, n, topo, rev, loops, pat, salt});
            }
            for (int arms : {1, 2, 3, 17, 255, 256, 257, 300, 600}) for (int len : {1, 2, 3, 4, 127, 128, 129, 255, 256, 257, 300, 600}) { if (arms * len > 3000) continue; for (int rev : {0, 1}) for (int scale : {1, 100, 1000, 20000, 70000, 1000000, 100000000}) put(Case{1, -1, arms, len, rev, scale}); }
        } else if (group == 2) {
            for (int n = 0; n <= (th ? 8 : 7); n++) { Case c{2, 0}; std::function<void(int, int)> rec = [&](int i, int mx) { if (i == n) { for (int extra = 0; extra < 2; extra++) { Case d(c); d[1] = mx + extra; put(d); if (n <= 6) { Case e(d); for (size_t j = 2; j < e.size(); j++) e[j] = mx + extra - 1 - e[j]; put(e); } } return; } for (int x = 0; x <= mx; x++) { c.push_back(x); rec(i + 1, std::max(mx, x + 1)); c.pop_back(); } }; rec(0, 0); }
            for (int n : {9, 12, 20, 33, 64, 200, 300, 70000}) for (int k : n > 1000 ? std::set<int>{1, 2, 257, n} : std::set<int>{1, 2, 3, 5, n / 2, n - 1, n, n + 3}) for (int pat = 0; pat < (n > 1000 ? 2 : 12); pat++) put(n > 100 ? Case{2, k, -n, pat} : pattern(k, n, pat));
        } else if (group == 3) {
            for (int it = -2; it <= 5; it++) for (int t = 0; t < 5; t++) for (int len = 0; len <= (th ? 7 : 6); len++) { Case c{3, it, t}; std::function<void()> rec = [&] { if ((int)c.size() == len + 3) { put(c); return; } for (int g = 0; g < 5 && go; g++) { c.push_back(g); rec(); c.pop_back(); } }; rec(); }
            for (int it : {2, 3, 6, 7, 8, 10, 15, 20, 50, 100}) for (int t = 0; t < 5; t++) for (int len : {9, 20, 33, 60, 120}) for (int pat = 0; pat < (th ? 200 : 40); pat++) { // longer histories: steps of every length down, up and down, mixed
                Case c{3, it, t}; int w = 1 + pat % 20; for (int i = 0; i < len; i++) c.push_back(pat < 20 ? std::min(4, i / w) : pat < 30 ? i / w % 5 : pat < 40 ? (i % w == 0 ? 4 - i / w % 5 : 2) : scramble(i / (1 + pat % 4), pat, it) % 5); put(c); }
        } else if (group == 4) {
            for (int st : {0, 1, 5, 10, 11, 12}) for (int a = 0; a < 10; a++) for (int b = 0; b < 10; b++) for (int fld = 0; fld < 8; fld++) for (int v : {0, 9, 77, 2147483647}) { if (!th && st > 0 && (a + b + fld) % 4) continue; put(Case{4, 0, st, a, b, fld, v}); if (fld == 7) put(Case{4, 0, st, a, b, fld, -1}); }
            put(Case{4, 1});
            for (int tz = 0; tz < 4; tz++) for (int s = 0; s < 15; s++) for (int ms = 0; ms < 1000; ms += th ? 1 : 3) put(Case{4, 2, tz, s, ms});
            for (int rows = 0; rows <= 4; rows++) for (int bit = 0; bit < 8; bit++) put(Case{4, 3, rows, bit});
            for (int rows : {1, 3, 20, 300, 1200}) for (int bit = 1; bit < 8; bit++) for (int big : {0, 1, 200, 5000, 70000, 2000000}) put(Case{4, 3, rows, bit, big});
        } else if (group == 5) {
            for (int l = -5; l <= 70; l++) put(Case{5, 0, l});
            for (int l : {100, 1000, -100, 2147483647, -2147483647}) put(Case{5, 0, l});
            std::vector<int> A{0, 10, 20, 30, 40, 50, 35};
            for (int a : A) { put(Case{5, 1, a}); for (int b : A) { put(Case{5, 1, a, b}); for (int d : A) put(Case{5, 1, a, b, d}); } }
        } else if (group == 7) {
            for (int np = 0; np <= 12; np++) for (int nn = 0; nn <= 12; nn++) put(Case{7, 1, np, nn});
            for (int np : {0, 1, 60, 255, 257, 1000, 5000}) for (int nn : {0, 3, 100, 256, 300, 1100, 4000}) put(Case{7, 1, np, nn});
            for (int n = 0; n <= 5; n++) for (unsigned mask = 0; mask < 1u << n * (n - 1) / 2; mask++) for (int rev : {0, 1}) for (int loops : {0, 1}) {
                int m = __builtin_popcount(mask) + (loops ? n : 0), nv = m <= (th ? 6 : 4) ? 8 : m <= (th ? 9 : 7) ? 3 : 2;
                if (m > (th ? 13 : 11)) continue;
                if (n == 5 && !th && (mask + rev) % 4) continue;
                put(Case{7, 0, n, (int)mask, nv, rev, loops});
            }
            for (int n : {8, 13, 20, 30}) for (int topo = 0; topo < TOPOLOGIES; topo++) for (int rev : {0, 1}) for (int loops : {0, 1}) for (int pat = 0; pat < (th ? 60 : 12); pat++) { // one assignment of values each
                int m = loops * n; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) m += joined(n, topo, 1, u, v);
                Case c{7, 0, n, topo, 8, rev, loops}; for (int i = 0; i < m; i++) c.push_back(pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i % 8 : pat == 3 ? (i == m - 1 ? 2 : i % 2) : pat == 4 ? (i == m - 1 ? 7 : i % 2) : pat == 5 ? (i % 3 ? 3 : 6) : pat == 6 ? i % 7 == 0 : pat < 10 ? scramble(i, pat, topo) % 2 : scramble(i, pat, n) % 8);
                put(c);
            }
        } else {
            for (int n = 1; n <= 3; n++) for (int cap = 0; cap <= 5; cap++) { Case c{6, n, cap}; std::function<void()> rec = [&] { if ((int)c.size() == 3 + 2 * n) { put(c); return; } for (int x = 0; x <= (n == 3 && !th ? 2 : 3) && go; x++) { c.push_back(x); rec(); c.pop_back(); } }; if (n < 3 || th || cap % 2) rec(); }
            for (int W : {32767, 32768, 65535, 65536, 70000, 1 << 24, (1 << 24) + 1, 1 << 30, 2147483647}) for (int n : {2, 3}) for (int cd : {-70000, -1, 0, 1}) for (int pat = 0; pat < 12; pat++) { // values and weights of any size
                long cap = (long)W + cd; if (cap < 0 || cap > 2147483647) continue;
                Case c{6, n, (int)cap}; for (int i = 0; i < n; i++) c.push_back(pat % 3 == 0 ? 3 - i : pat % 3 == 1 ? 2 + i : W / 4 - 5 * i); for (int i = 0; i < n; i++) c.push_back(pat / 3 == 0 ? W - i : pat / 3 == 1 ? W / 2 + i : pat / 3 == 2 ? W / (i + 2) + 1 : W - 2 + i % 3); put(c); }
            for (int n : {4, 5, 8, 12, 20}) for (int cap : {0, 1, 7, 20, 55, 1000}) for (int pat = 0; pat < (th ? 40 : 8); pat++) { Case c{6, n, cap}; for (int i = 0; i < 2 * n; i++) { int m = pat % 4 == 0 ? 10 : pat % 4 == 1 ? 3 : pat % 4 == 2 ? 40 : 1000; c.push_back((i < n || pat % 8 == 3 ? 0 : 1) + (pat % 8 > 4 && i >= n ? c[i - n + 3] : scramble(i, pat, n) % m)); } put(c); }
        }
    }
    void run(const Case& c, Out& o) override {
        try { switch (c[0]) { case 0: return c[2] ? rename_run<long>(c, o) : rename_run<int>(c, o); case 1: return walk_run(c, o); case 2: return comp_run(c, o); case 3: return tail_run(c, o); case 4: return stats_run(c, o); case 5: return level_run(c, o); case 7: return solution_run(c, o); default: return knapsack_run(c, o); } }
        catch (std::exception& e) { o.fail("exception", std::string("threw ") + e.what()); }
        catch (...) { o.fail("exception", "threw something that is not a std::exception"); }
    }
    std::string describe(const Case& c) override {
        std::string s; auto at = [&](size_t i) { return std::to_string(c[i]); };
        switch (c[0]) {
            case 0: if (c[1] < 0) return std::to_string(-c[1]) + " vertices on a path, labels in way " + at(3) + ", edges in " + at(4) + " pieces, vertices at turn " + at(5);
                s = "labels " + show(LABELS[c[1]]); for (size_t i = 3; i < c.size();) { int kind = c[i++], k = c[i++]; s += kind ? " renameEdges(" : " renameVertices("; for (int j = 0; j < k; j++) { s += std::to_string(LABELS[c[1]][c[i++]]); if (kind) s += "-" + std::to_string(LABELS[c[1]][c[i++]]); s += " "; } s += ")"; } return s;
            case 1: { if (c[1] >= 8) return "n=" + at(1) + " topology " + at(2) + " reversed=" + at(3) + " loops=" + at(4) + " costs=" + at(5) + " salt=" + at(6); s = "n=" + at(1) + " edges {"; int b = 0; for (int u = 0; u < c[1]; u++) for (int v = u + 1; v < c[1]; v++, b++) if (c[2] >> b & 1) s += std::to_string(u) + "-" + std::to_string(v) + " "; return s + "} reversed=" + at(3) + " loops=" + at(4) + " costs=" + at(5); }
            case 2: if (c.size() > 2 && c[2] < 0) return at(1) + " components of " + std::to_string(-c[2]) + " vertices, pattern " + at(3); return at(1) + " components, of the vertices: " + show(V(c.begin() + 2, c.end()));
            case 3: s = at(1) + " iterations, threshold " + std::to_string(THRESH[c[2]]) + ", gaps"; for (size_t i = 3; i < c.size(); i++) s += " " + std::to_string(GAPS[c[i]]); return s;
            case 5: return std::string(c[1] ? "levels set: " : "level ") + show(V(c.begin() + 2, c.end()));
            case 7: return c[1] ? at(2) + " positive and " + at(3) + " negative variables" : "n=" + at(2) + " edge mask " + at(3) + " values " + at(4) + " reversed=" + at(5) + " loops=" + at(6);
            case 6: return "knapsack capacity " + at(2) + " values and weights " + show(V(c.begin() + 3, c.end()));
        }
        return "statistics case " + vh::join(c);
    }
};
int main(int argc, char** argv) {
    int group = 0; std::vector<char*> rest{argv[0]}; const char* names[] = {"rename", "walk", "components", "tailing", "stats", "levels", "knapsack", "solution"};
    for (int i = 1; i < argc; i++) { bool hit = false; for (int k = 0; k < 8; k++) if (!strcmp(argv[i], names[k])) { group = k; hit = true; } if (!hit) rest.push_back(argv[i]); }
    char t[] = "/tmp/utilXXXXXX"; TOP = mkdtemp(t);
    Util h(group); int rc = vh::drive(h, rest.size(), rest.data());
    std::error_code ec; std::filesystem::remove_all(TOP, ec);
    return rc;
}
