// Small weighted graphs with brute-force oracles (independent of the code under test).
#pragma once
#include "vh.hh"
#include <algorithm>
#include <cmath>
#include <functional>

struct SmallGraph {
    int n = 0; std::vector<int> prize; std::vector<std::vector<int>> cost; // -1: no edge
    bool has(int u, int v) const { return u != v && cost[u][v] >= 0; }
    void init(int n_) { n = n_; prize.assign(n, 0); cost.assign(n, std::vector<int>(n, -1)); }
    void set(int u, int v, int c) { cost[u][v] = cost[v][u] = c; }
    std::string str() const {
        std::string s = "n=" + std::to_string(n) + " prizes=[";
        for (int p : prize) s += std::to_string(p) + " ";
        s += "] edges={";
        for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (has(u, v)) s += std::to_string(u) + "-" + std::to_string(v) + ":" + std::to_string(cost[u][v]) + " ";
        return s + "}";
    }
};
inline std::string tstr(const std::vector<int>& t) { std::string s = "["; for (int v : t) s += std::to_string(v) + " "; return s + "]"; }

// all simple cycles through root with at least 3 vertices, each once (second vertex < last vertex); without repeated root
inline void all_cycles(const SmallGraph& g, int root, const std::function<void(const std::vector<int>&)>& f) {
    std::vector<int> path{root}; std::vector<bool> used(g.n); used[root] = true;
    std::function<void()> rec = [&] {
        int u = path.back();
        if (path.size() >= 3 && g.has(u, root) && path[1] < u) f(path);
        for (int v = 0; v < g.n; v++) if (!used[v] && g.has(u, v)) { used[v] = true; path.push_back(v); rec(); path.pop_back(); used[v] = false; }
    };
    rec();
}
inline int cyc_cost(const SmallGraph& g, const std::vector<int>& c) { int s = 0; for (size_t i = 0; i < c.size(); i++) s += g.cost[c[i]][c[(i + 1) % c.size()]]; return s; }
inline int set_prize(const SmallGraph& g, const std::vector<int>& c) { int s = 0; for (int v : c) s += g.prize[v]; return s; }

// is t (closed: first == last) a simple closed tour of g with >= 3 distinct vertices that starts at root?
inline std::string closed_tour_error(const SmallGraph& g, const std::vector<int>& t, int root) {
    if (t.size() < 4) return "tour has fewer than three distinct vertices";
    if (t.front() != t.back()) return "tour is not closed";
    if (t.front() != root) return "tour does not start and end at the root";
    std::set<int> seen;
    for (size_t i = 0; i + 1 < t.size(); i++) {
        if (t[i] < 0 || t[i] >= g.n) return "vertex outside the graph";
        if (!seen.insert(t[i]).second) return "vertex visited twice";
        if (!g.has(t[i], t[i + 1])) return "consecutive vertices are not adjacent";
    }
    return "";
}
