// Heuristics of include/pctsp/heuristic.hh: the real templates are run on every small weighted
// graph / starting tour / quota of the bounds; a reference transition system decides the result.
#include "small.hh"
#include "pctsp/graph.hh"
#include "pctsp/heuristic.hh"
#include <boost/log/core.hpp>

using vh::Case; using vh::Out;
typedef std::vector<int> V;
static const double EPS = 1e-5;

enum Mode { GAIN = 0, GAIN_UNTIL = 1, PEXT = 2, PEXT_UNTIL = 3, COLLAPSE = 4, PEC = 5 };

struct Inst { int mode, n, k, quota, step, depth, sp, perm, ord; SmallGraph g; V tour; };

// Larger graphs come from a parametric family: topology, cost pattern, prize pattern and salt say everything.
static unsigned scramble(unsigned a, unsigned b, unsigned c) { uint64_t h = vh::mix(vh::mix(vh::mix(7, a), b), c); return (unsigned)(h >> 17) & 0xfffffff; }
static void family(SmallGraph& g, int k, int topo, int cp, int pp, int salt) {
    int n = g.n;
    for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) {
        unsigned h = scramble(u, v, salt); bool on;
        switch (topo) {
        case 0: on = true; break;
        case 1: on = (u * v + u + v + salt) % 3 != 0; break;
        case 2: on = (u + v) % 2 == 1 || v - u <= 2; break;
        case 3: on = v - u <= 3 || n - v + u <= 2; break;
        case 4: on = h % 4 == 0; break;
        case 6: on = true; break; // a poor tour on costly edges: many replacements, one after another
        default: on = v - u == 1 ? v < k || (v - k) % 3 != 0 : v >= k && u < k && ((v - k) % 3 == 0 ? u == (v * 5 + salt) % k : (v - k) % 3 == 2 && u == ((v - 2) * 5 + salt + 2 + h % 2) % k); // ears of three vertices
        }
        on = on || (v == u + 1 && v < k) || (u == 0 && v == k - 1);
        if (!on) continue;
        int a = u % 7 - v % 7, b = u / 7 - v / 7, c;
        switch (cp) {
        case 0: c = 1 + (h >> 4) % 97; break;
        case 1: c = 1 + (h >> 4) % 4; break;
        case 2: c = 100000 + (h >> 4) % 899999; break;
        case 3: c = (int)std::ceil(100 * std::sqrt((double)(a * a + b * b)) + (h >> 4) % 10); break;
        case 5: c = v < k ? 50 : 50 + (h >> 4) % 3; break;
        case 6: c = v < k ? 500000 : 400000 + (h >> 4) % 99999; break;
        default: c = (u * 3 + v * 5 + salt) % 11 ? 10 + (h >> 4) % 50 : 0;
        }
        g.set(u, v, c);
    }
    for (int v = 0; v < n; v++) { unsigned h = scramble(v, 99, salt) >> 3; g.prize[v] = pp == 0 ? h % 10 : pp == 1 ? 1 + h % 2 : pp == 2 ? h % 1000000 : pp == 4 ? (v < k ? 1 : 2 + h % 40) : pp == 5 ? (v < k ? 1 : 2 + h % 5000) : h % 3 ? 0 : 5 + h % 7; }
}
// case: mode n k quota step depth sp perm ord | prizes | upper-triangular costs, or, with 8 vertices and more, | topology cost prize salt
static Inst decode(const Case& c) {
    Inst I; int i = 0;
    I.mode = c[i++]; I.n = c[i++]; I.k = c[i++]; I.quota = c[i++]; I.step = c[i++]; I.depth = c[i++]; I.sp = c[i++]; I.perm = c[i++]; I.ord = c[i++];
    I.g.init(I.n);
    if (I.n >= 8) {
        SmallGraph f; f.init(I.n); family(f, I.k, c[i], c[i + 1], c[i + 2], c[i + 3]);
        auto q = [&](int v) { return I.perm == 0 ? v : I.perm == 1 ? I.n - 1 - v : (v * (I.n % 2 ? 2 : I.n - 1) + 3) % I.n; };
        for (int v = 0; v < I.n; v++) { I.g.prize[q(v)] = f.prize[v]; for (int u = 0; u < v; u++) if (f.has(u, v)) I.g.set(q(u), q(v), f.cost[u][v]); }
        for (int v = 0; v < I.k; v++) I.tour.push_back(q(v));
        I.tour.push_back(q(0)); return I;
    }
    auto p = [&](int v) { return I.perm ? I.n - 1 - v : v; };
    for (int v = 0; v < I.n; v++) I.g.prize[p(v)] = c[i++];
    for (int u = 0; u < I.n; u++) for (int v = u + 1; v < I.n; v++) { int w = c[i++]; if (w >= 0) I.g.set(p(u), p(v), w); }
    for (int v = 0; v < I.k; v++) I.tour.push_back(p(v));
    I.tour.push_back(p(0));
    return I;
}
static PCTSPgraph build(const Inst& I) {
    PCTSPgraph G(I.n);
    auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    for (int v = 0; v < I.n; v++) prize[v] = I.g.prize[v];
    std::vector<std::pair<int, int>> es;
    for (int u = 0; u < I.n; u++) for (int v = u + 1; v < I.n; v++) if (I.g.has(u, v)) es.push_back({u, v});
    if (I.ord) { std::reverse(es.begin(), es.end()); for (auto& e : es) std::swap(e.first, e.second); }
    for (auto& e : es) { auto ed = boost::add_edge(e.first, e.second, G).first; cost[ed] = I.g.cost[e.first][e.second]; }
    return G;
}
static V tov(const std::list<PCTSPvertex>& l) { V v; for (auto x : l) v.push_back((int)x); return v; }
static int tprize(const SmallGraph& g, const V& t) { int s = 0; for (size_t i = 0; i + 1 < t.size(); i++) s += g.prize[t[i]]; return s; }
static int tcost(const SmallGraph& g, const V& t) { int s = 0; for (size_t i = 0; i + 1 < t.size(); i++) s += g.cost[t[i]][t[i + 1]]; return s; }

// ---------------------------------------------------------------- unitary gain reference
struct GainRef {
    const SmallGraph& g; bool until; int quota; std::set<V> finals; std::set<V> visited; uint64_t trans = 0;
    struct Opt { int v, pos; double gain; };
    void options(const V& t, std::vector<Opt>& opts, double& best, double& sum, int& cnt) {
        best = 0; sum = 0; cnt = 0; std::vector<bool> in(g.n); for (int v : t) in[v] = true;
        for (int v = 0; v < g.n; v++) if (!in[v]) {
            double mx = 0;
            for (size_t i = 0; i + 1 < t.size(); i++) if (g.has(t[i], v) && g.has(v, t[i + 1]) && g.prize[v] > 0) {
                int d = g.cost[t[i]][v] + g.cost[v][t[i + 1]] - g.cost[t[i]][t[i + 1]];
                if (d < 0) continue;
                double gn = d == 0 ? INFINITY : (double)g.prize[v] / d;
                opts.push_back({v, (int)i, gn}); mx = std::max(mx, gn);
            }
            sum += mx; cnt++; best = std::max(best, mx);
        }
    }
    static bool near(double a, double b) { if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= EPS * std::max(1.0, std::fabs(b)); }
    // For unbounded unitary gain (free insertion) the comparison with the average is left to the implementation.
    bool gave_up = false;
    void go(const V& t, double avg, bool first) {
        if (gave_up || !visited.insert(t).second) return;
        if (g.n >= 8 && visited.size() > 400) { gave_up = true; return; } // too many ties on a large graph: not decided
        if (until && tprize(g, t) >= quota) { finals.insert(t); return; }
        std::vector<Opt> o; double best, sum; int cnt; options(t, o, best, sum, cnt);
        if (!(best > 0)) { finals.insert(t); return; }
        if (first) avg = sum / cnt;
        if (!until) {
            if (std::isinf(best)) finals.insert(t);
            else if (near(best, avg)) finals.insert(t);
            else if (best < avg) { finals.insert(t); return; }
        }
        for (auto& x : o) if (near(x.gain, best)) { V u(t); u.insert(u.begin() + x.pos + 1, x.v); trans++; go(u, avg, false); }
    }
};

// ---------------------------------------------------------------- path extension reference
struct PathRef {
    const SmallGraph& g; int root, step, depth; bool until; int quota; std::set<V> finals; std::set<std::pair<V, int>> visited; uint64_t trans = 0; bool exact = true;
    struct Cand { V path; double loss; bool sure; };
    bool unique_choice = true;
    // candidate external paths for replacing tour[i..j]; hop-shortest ones for depth > 2
    std::vector<std::vector<Cand>> cands(const V& t) {
        int k = t.size() - 1; std::vector<std::vector<Cand>> R(k); std::vector<bool> in(g.n); for (int v : t) in[v] = true;
        for (int i = 0; i < k; i++) {
            V internal; for (int s = 0; s <= step; s++) internal.push_back(t[(i + s) % k]);
            int vi = internal.front(), vj = internal.back();
            bool rootin = false; for (size_t s = 1; s + 1 < internal.size(); s++) if (internal[s] == root) rootin = true;
            int ip = set_prize(g, internal), ic = 0; for (size_t s = 0; s + 1 < internal.size(); s++) ic += g.cost[internal[s]][internal[s + 1]];
            std::vector<V> paths; std::vector<int> group; // paths of one group are alternatives: the search finds one of them
            if (depth == 2) {
                for (int u = 0; u < g.n; u++) {
                    bool ok = rootin ? (u == root) : !in[u];
                    if (ok && g.has(vi, u) && g.has(u, vj)) { group.push_back(paths.size()); paths.push_back({vi, u, vj}); }
                }
            } else if (depth > 2 && !rootin) {
                // hop distances from vi through unused vertices
                std::vector<int> d(g.n, 99); d[vi] = 0; V q{vi};
                for (size_t h = 0; h < q.size(); h++) for (int w = 0; w < g.n; w++) if (g.has(q[h], w) && !in[w] && d[w] == 99) { d[w] = d[q[h]] + 1; q.push_back(w); }
                for (int w = 0; w < g.n; w++) if (!in[w] && d[w] <= depth - 1 && g.has(w, vj)) {
                    int cnt = 0;
                    std::function<void(V)> back = [&](V p) { // p reversed: starts with vj, w, ...
                        int x = p.back(); if (g.n >= 8 && (gave_up || ++found > 20000)) { gave_up = true; return; } if (x == vi) { V f(p.rbegin(), p.rend()); paths.push_back(f); group.push_back(w); cnt++; return; }
                        for (int y = 0; y < g.n; y++) if (g.has(x, y) && d[y] == d[x] - 1 && (y == vi || !in[y])) { V q2(p); q2.push_back(y); back(q2); }
                    };
                    back(V{vj, w});
                    if (cnt > 1) unique_choice = false;
                }
            }
            std::map<int, bool> all; // does every alternative of the group have more prize than the internal path?
            for (size_t h = 0; h < paths.size(); h++) all[group[h]] = (!all.count(group[h]) || all[group[h]]) && set_prize(g, paths[h]) > ip;
            for (size_t h = 0; h < paths.size(); h++) {
                const V& p = paths[h];
                int ep = set_prize(g, p), ec = 0; for (size_t s = 0; s + 1 < p.size(); s++) ec += g.cost[p[s]][p[s + 1]];
                if (ep > ip) R[i].push_back({p, (double)(ec - ic) / (ep - ip), all[group[h]]});
            }
        }
        return R;
    }
    V apply(const V& t, int i, const V& p) {
        int k = t.size() - 1; V cyc(p); // p covers vi..vj; then the rest of the cycle from after j back to before i
        for (int s = step + 1; s < k; s++) cyc.push_back(t[(i + s) % k]);
        auto it = std::find(cyc.begin(), cyc.end(), root); std::rotate(cyc.begin(), it, cyc.end()); cyc.push_back(root); return cyc;
    }
    bool gave_up = false; long found = 0;
    void go(const V& t, double avg, bool haveavg, int it) {
        if (gave_up || !visited.insert({t, it}).second) return;
        if (g.n >= 8 && visited.size() > 150) { gave_up = true; return; }
        if (until && tprize(g, t) >= quota) { finals.insert(t); return; }
        if (!(step < (int)t.size() - 1)) { finals.insert(t); return; }
        if (it >= g.n) finals.insert(t);          // iteration cap (may stop here)
        if (it > 2 * g.n) return;
        auto R = cands(t); int feas = 0; double sum = 0, best = 1e18;
        for (auto& r : R) if (!r.empty()) { feas++; double m = 1e18; for (auto& c : r) m = std::min(m, c.loss); sum += m; best = std::min(best, m); }
        if (!feas) { finals.insert(t); return; }
        if (!unique_choice) { weak(t, it); return; }
        if (!haveavg) { avg = sum / feas; haveavg = true; }
        auto near = [](double a, double b) { return std::fabs(a - b) <= EPS * std::max(1.0, std::fabs(b)); };
        if (!until && !(feas == 1 && it == 0)) {
            if (near(best, avg)) finals.insert(t);
            else if (best > avg) { finals.insert(t); return; }
        }
        for (size_t i = 0; i < R.size(); i++) for (auto& c : R[i]) if (near(c.loss, best)) { trans++; go(apply(t, i, c.path), avg, true, it + 1); }
    }
    // several hop-shortest external paths: the implementation picks one of them, accept every reachable tour
    void weak(const V& t, int it) {
        exact = false; std::set<V> seen; std::vector<V> q{t}; seen.insert(t);
        for (size_t h = 0; h < q.size(); h++) {
            V cur = q[h];
            if (gave_up || (g.n >= 8 && h > 40)) { gave_up = true; return; }
            if (until && tprize(g, cur) >= quota) { finals.insert(cur); continue; }
            auto R = cands(cur); bool any = false;
            for (size_t i = 0; i < R.size(); i++) for (auto& c : R[i]) { any = any || c.sure; trans++; V u = apply(cur, i, c.path); if (seen.insert(u).second) q.push_back(u); }
            if (!until || !any || !(step < (int)cur.size() - 1)) finals.insert(cur);
        }
    }
};

// ---------------------------------------------------------------- collapse reference
struct CollapseRef {
    const SmallGraph& g; int root, quota; bool sp; std::set<int> costs; int sure = 1 << 30; uint64_t trans = 0;
    void go(const V& t) {
        int k = t.size() - 1;
        for (int s = 0; s < k; s++) {
            V path{t[s]}; int pr = g.prize[t[s]]; bool feas = false; bool rs = t[s] == root;
            for (int l = 1; l < k && pr < quota; l++) {
                int v = t[(s + l) % k];
                if (pr + g.prize[v] >= quota) { feas = true; break; }
                pr += g.prize[v]; path.push_back(v); if (v == root) rs = true;
            }
            if (!rs || !feas || path.size() < 2) continue;
            int ic = 0; for (size_t i = 0; i + 1 < path.size(); i++) ic += g.cost[path[i]][path[i + 1]];
            int a = path.back(), b = path.front(); std::vector<bool> in(g.n); for (int v : path) in[v] = true;
            for (int c = 0; c < g.n; c++) if (!in[c] && g.has(a, c) && g.has(c, b) && pr + g.prize[c] >= quota) { trans++; int x = ic + g.cost[a][c] + g.cost[c][b]; costs.insert(x); sure = std::min(sure, x); }
            if (sp) {
                int best = 1 << 30; std::vector<std::pair<int, int>> found; // cost, prize of the interior
                std::vector<bool> u(in); u[a] = u[b] = true;
                std::function<void(int, int, int)> rec = [&](int x, int c, int p) {
                    if (g.has(x, b) && !(x == a && b == a)) { int cc = c + g.cost[x][b]; found.push_back({cc, p}); best = std::min(best, cc); }
                    for (int y = 0; y < g.n; y++) if (!u[y] && g.has(x, y)) { u[y] = true; rec(y, c + g.cost[x][y], p + g.prize[y]); u[y] = false; }
                };
                bool all = true, any = false;
                if (g.n >= 8) { // shortest paths, and the least and largest prize on them
                    const int INF = 1 << 29; std::vector<int> d(g.n, INF), lo(g.n, INF), hi(g.n, -1); std::vector<bool> done(g.n); d[a] = lo[a] = hi[a] = 0;
                    for (;;) {
                        int x = -1; for (int y = 0; y < g.n; y++) if (!done[y] && d[y] < INF && (x < 0 || d[y] < d[x])) x = y;
                        if (x < 0) break;
                        done[x] = true; if (x == b) continue;
                        for (int y = 0; y < g.n; y++) if (g.has(x, y) && (y == b || !u[y])) {
                            int nd = d[x] + g.cost[x][y], pz = y == b ? 0 : g.prize[y];
                            if (nd < d[y]) { d[y] = nd; lo[y] = lo[x] + pz; hi[y] = hi[x] + pz; }
                            else if (nd == d[y] && (!done[y] || y == b)) { lo[y] = std::min(lo[y], lo[x] + pz); hi[y] = std::max(hi[y], hi[x] + pz); }
                        }
                    }
                    best = d[b]; if (best < INF) { any = pr + hi[b] >= quota; all = pr + lo[b] >= quota; }
                } else rec(a, 0, 0);
                for (auto& f : found) if (f.first == best) { if (pr + f.second >= quota) { any = true; } else all = false; }
                if (any) { trans++; costs.insert(ic + best); if (all) sure = std::min(sure, ic + best); }
            }
        }
    }
};

static void run_inst(const Inst& I, Out& o) {
    const SmallGraph& g = I.g; int root = I.tour[0];
    PCTSPgraph G = build(I);
    auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    std::list<PCTSPvertex> T(I.tour.begin(), I.tour.end()); PCTSPvertex r = root;
    V res; int p0 = tprize(g, I.tour), c0 = tcost(g, I.tour);
    int quota = I.quota, step = I.step, depth = I.depth;
    auto base = [&](const V& t, const char* who) -> bool {
        std::string e = closed_tour_error(g, t, root);
        if (!e.empty()) { o.fail("not-a-tour", std::string(who) + " returned " + tstr(t) + ": " + e); return false; }
        return true;
    };
    switch (I.mode) {
    case GAIN: case GAIN_UNTIL: {
        if (I.mode == GAIN) extensionUnitaryGain(G, T, cost, prize); else extensionUntilPrizeFeasible(G, T, cost, prize, quota);
        res = tov(T);
        if (!base(res, "extension")) return;
        if (tprize(g, res) < p0) o.fail("prize-decreased", "prize decreased: " + tstr(res));
        std::set<int> rs(res.begin(), res.end()); for (int v : I.tour) if (!rs.count(v)) o.fail("lost-vertex", "vertex of the starting tour lost: " + tstr(res));
        GainRef R{g, I.mode == GAIN_UNTIL, quota}; R.go(I.tour, 0, true);
        o.states += R.visited.size(); o.transitions += R.trans; o.traces++;
        if (!R.gave_up && !R.finals.count(res)) o.fail("not-greedy", "result " + tstr(res) + " is not reachable by repeatedly inserting a vertex of largest unitary gain under the stopping rule");
        o.nontrivial = res != I.tour && !R.gave_up; break;
    }
    case PEXT: case PEXT_UNTIL: {
        if (I.mode == PEXT) pathExtension(G, T, cost, prize, r, step, depth); else pathExtensionUntilPrizeFeasible(G, T, cost, prize, r, quota, step, depth);
        res = tov(T);
        if (!base(res, "path extension")) return;
        if (tprize(g, res) < p0) o.fail("prize-decreased", "prize decreased: " + tstr(res));
        PathRef R{g, root, step, depth, I.mode == PEXT_UNTIL, quota}; R.go(I.tour, 0, false, 0);
        o.states += R.visited.size(); o.transitions += R.trans; o.traces++;
        if (!R.gave_up && !R.finals.count(res)) o.fail("not-greedy", "result " + tstr(res) + " is not reachable by the path-extension rule (smallest unitary loss, stopping rule)");
        o.nontrivial = res != I.tour && !R.gave_up; break;
    }
    case COLLAPSE: {
        auto L = collapse(G, T, cost, prize, quota, r, (bool)I.sp); res = tov(L);
        if (!base(res, "collapse")) return;
        if (tcost(g, res) > c0) o.fail("cost-increased", "cost increased to " + std::to_string(tcost(g, res)) + ": " + tstr(res));
        if (p0 >= quota && tprize(g, res) < quota) o.fail("infeasible", "prize fell below the quota: " + tstr(res));
        CollapseRef R{g, root, quota, (bool)I.sp}; R.go(I.tour); o.states += R.costs.size() + 1; o.transitions += R.trans; o.traces++;
        int c = tcost(g, res);
        if (c > R.sure) o.fail("missed-collapse", "cost " + std::to_string(c) + " but a collapse of cost " + std::to_string(R.sure) + " exists");
        if (c != c0 && !R.costs.count(c)) o.fail("unexplained-tour", "result " + tstr(res) + " is not a collapse of the input tour");
        o.nontrivial = c < c0; break;
    }
    case PEC: {
        auto L = pathExtensionCollapse(G, T, cost, prize, quota, r, (bool)I.sp, depth, step); res = tov(L);
        bool feas = p0 >= quota; std::list<PCTSPvertex> start(I.tour.begin(), I.tour.end());
        if (!feas) for (int s = 1; s <= step && !feas; s++) { int st = s; pathExtensionUntilPrizeFeasible(G, start, cost, prize, r, quota, st, depth); feas = tprize(g, tov(start)) >= quota; }
        if (res.empty()) { if (feas) o.fail("gave-up", "no tour returned although a prize-feasible tour was found"); o.nontrivial = !feas; break; }
        if (!base(res, "path extension & collapse")) return;
        if (tprize(g, res) < quota) o.fail("infeasible", "returned a tour below the quota: " + tstr(res));
        // the composition, with the two phases taken as atomic steps of a model: collapse once, then for
        // every step size extend the best tour so far, collapse it, and keep it only if it is cheaper
        auto first = collapse(G, start, cost, prize, quota, r, (bool)I.sp);
        int c1 = tcost(g, tov(first)), best = c1; auto cur = ReorderTourFromRoot(first, r); o.states += 2;
        for (int s = 1; s <= step; s++) {
            auto x = cur; int st = s; pathExtension(G, x, cost, prize, r, st, depth);
            x = collapse(G, x, cost, prize, quota, r, (bool)I.sp); o.transitions += 2; o.states += 2;
            if (tcost(g, tov(x)) < best) { best = tcost(g, tov(x)); cur = ReorderTourFromRoot(x, r); o.nontrivial = true; }
        }
        if (tcost(g, res) > c1) o.fail("worse-than-collapse", "result costs more than the first collapse: " + tstr(res));
        else if (p0 >= quota && tcost(g, res) > c0) o.fail("cost-increased", "costs more than the feasible input tour: " + tstr(res));
        else if (tcost(g, res) != best) o.fail("not-the-best", "result " + tstr(res) + " costs " + std::to_string(tcost(g, res)) + ", the best of the steps costs " + std::to_string(best) + ": " + tstr(tov(cur)));
        o.traces++; o.nontrivial = o.nontrivial || res != I.tour; break;
    }
    }
    uint64_t h = I.mode; for (int v : res) h = vh::mix(h, v + 1); o.outcome = vh::mix(h, tcost(g, res.empty() ? V{root} : res) * 64 + tprize(g, res.empty() ? V{root} : res));
}

struct HeurHarness : vh::Harness {
    std::string group; std::vector<int> modes;
    struct Sh { int n, k, first; };
    std::vector<Sh> shards(bool th) {
        std::vector<Sh> s;
        for (int n : {150, 70, 33, 20, 14, 11, 9, 8}) for (int f = 0; f < 7; f++) if (n < 100 || th) s.push_back({n, 0, f});
        for (int n = 3; n <= 6; n++) for (int k = 3; k <= n; k++) for (int f = 0; f < 64; f++) s.push_back({n, k, f});
        return s;
    }
    int nshards(bool th) override { return shards(th).size(); }
    int hang_seconds() override { return 30; }
    void worker_init() override { boost::log::core::get()->set_logging_enabled(false); }
    std::string describe(const Case& c) override {
        Inst I = decode(c); static const char* nm[] = {"extensionUnitaryGain", "extensionUntilPrizeFeasible", "pathExtension", "pathExtensionUntilPrizeFeasible", "collapse", "pathExtensionCollapse"};
        return std::string(nm[I.mode]) + " " + I.g.str() + " tour=" + tstr(I.tour) + " quota=" + std::to_string(I.quota) + " step=" + std::to_string(I.step) + " depth=" + std::to_string(I.depth) + " shortest_paths=" + std::to_string(I.sp);
    }
    void run(const Case& c, Out& o) override { Inst I = decode(c); run_inst(I, o); }
    // every topology, cost pattern, prize pattern, tour length and salt of the family, with parameters that take turns
    void gen_large(int n, int topo, bool th, const std::function<bool(const Case&)>& emit) {
        int turn = n + topo;
        for (int cp = topo == 6 ? 5 : 0; cp < (topo == 6 ? 7 : 5); cp++) for (int pp = topo == 6 ? 4 : 0; pp < (topo == 6 ? 6 : 4); pp++) for (int k : std::set<int>{3, 4, 6, n / 2, n - 2, n}) for (int salt = 0; salt < (th ? 12 : n < 12 || topo == 6 ? 3 : 1); salt++) {
            if (cp == 4 && topo == 0) continue;
            turn++;
            SmallGraph g; g.init(n); family(g, k, topo, cp, pp, salt); int pt = 0, pa = 0; for (int v = 0; v < n; v++) { pa += g.prize[v]; if (v < k) pt += g.prize[v]; }
            auto mk = [&](int mode, int quota, int step, int depth, int sp) { return emit(Case{mode, n, k, quota, step, depth, sp, turn % 3, turn / 3 % 2, topo, cp, pp, salt}); };
            for (int mode : modes) {
                if (mode == GAIN && !mk(mode, 0, 1, 2, 0)) return;
                if (mode == GAIN_UNTIL) for (int q : std::set<int>{pt + 1, (pt + pa) / 2, pa}) if (q > pt && !mk(mode, q, 1, 2, 0)) return;
                if (mode == PEXT) for (int st : std::set<int>{1, topo == 6 ? 2 : 1, 1 + turn % 3, 1 + turn % 12}) if (st < k && !mk(mode, 0, st, n > 30 ? 2 + turn % 3 : 2 + turn % 6, 0)) return;
                if (mode == PEXT_UNTIL) for (int q : std::set<int>{pt + 1, (pt + pa) / 2, pa}) { int st = 1 + (turn + q) % 3; if (q > pt && st < k && !mk(mode, q, st, n > 30 ? 2 + turn % 3 : 2 + turn % 6, 0)) return; }
                if (mode == COLLAPSE) for (int q : std::set<int>{1, pt / 4, pt / 2, pt * 4 / 5, pt, pt + 1}) for (int sp = 0; sp < (cp == 4 ? 1 : 2); sp++) if (q > 0 && !mk(mode, q, 1, 2, sp)) return; // zero costs would need every simple path
                if (mode == PEC && (n < 30 || turn % 4 == 0 || th)) for (int q : std::set<int>{pt / 2, pt * 4 / 5, pt, (pt + pa) / 2}) if (q > 0 && !mk(mode, q, 1 + (turn + q) % (th ? 10 : n < 30 ? 4 : 2), 2 + (turn + q) % 3, q % 2)) return;
            }
        }
    }
    void gen(int shard, bool th, const std::function<bool(const Case&)>& emit) override {
        Sh s = shards(th)[shard]; int n = s.n, k = s.k;
        if (n >= 8) return gen_large(n, s.first, th, emit);
        std::vector<std::pair<int, int>> E; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) E.push_back({u, v});
        int m = E.size();
        // alphabets: tour edges have a cost, other edges may be absent
        static const int TA5[] = {1, 3}, OA5[] = {-1, 1, 4}, TA6[] = {2}, OA6[] = {-1, 1};
        bool small = n == 5 && group == "pec" && !th;
        const int *TA = n == 6 || small ? TA6 : TA5, *OA = n == 6 ? OA6 : OA5; int nT = n == 6 || small ? 1 : 2, nO = n == 6 ? 2 : 3;
        std::vector<std::vector<int>> prizes;
        { // prizes in {0?,1,3}: every vector over the alphabet
            std::vector<int> P = n >= 6 ? std::vector<int>{1, 2} : (th ? std::vector<int>{0, 1, 3} : (n == 5 ? std::vector<int>{1, 3} : std::vector<int>{0, 1, 3}));
            std::vector<int> d(n, 0);
            for (;;) { std::vector<int> p; for (int x : d) p.push_back(P[x]); if (n < 6 || th || (p[0] == 1 && p[1] == 1)) prizes.push_back(p); int i = 0; while (i < n && ++d[i] == (int)P.size()) d[i++] = 0; if (i == n) break; }
        }
        std::vector<bool> istour(m); for (int e = 0; e < m; e++) { int u = E[e].first, v = E[e].second; istour[e] = (v == u + 1 && v < k) || (u == 0 && v == k - 1); }
        static const std::vector<std::array<int, 2>> STEPS = {{1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 2}, {4, 3}, {5, 4}}, QUICK = {{1, 3}, {2, 2}, {3, 2}, {4, 3}};
        std::vector<int> d(m, 0); uint64_t idx = 0;
        for (;;) {
            if ((int)(idx % 64) == s.first) {
                for (auto& p : prizes) {
                    int pt = 0, pa = 0; for (int v = 0; v < n; v++) { pa += p[v]; if (v < k) pt += p[v]; }
                    auto mk = [&](int mode, int quota, int step, int depth, int sp, int perm, int ord) {
                        Case c{mode, n, k, quota, step, depth, sp, perm, ord}; for (int x : p) c.push_back(x);
                        for (int e = 0; e < m; e++) c.push_back(istour[e] ? TA[d[e]] : OA[d[e]]);
                        return emit(c);
                    };
                    int perm = idx & 1, ord = (idx >> 1) & 1;
                    for (int mode : modes) {
                        if (mode == GAIN) { if (!mk(mode, 0, 1, 2, 0, perm, ord)) return; }
                        else if (mode == GAIN_UNTIL) { for (int q : {pt + 1, pt + 3, pa}) if (q > pt) if (!mk(mode, q, 1, 2, 0, perm, ord)) return; }
                        else if (mode == PEXT) { for (int st = 1; st <= std::min(3, k - 1); st++) for (int de : {2, 3, 4, 5}) if (de <= n - 1 && !mk(mode, 0, st, de, 0, perm, ord)) return; }
                        else if (mode == PEXT_UNTIL) { for (int q : {pt + 1, pa}) if (q > pt) for (int st = 1; st <= std::min(2, k - 1); st++) for (int de : {2, 3, 4, 5}) if (de <= n - 1 && !mk(mode, q, st, de, 0, perm, ord)) return; }
                        else if (mode == COLLAPSE) { for (int q = 1; q <= pt + 1; q++) for (int sp = 0; sp < 2; sp++) if (!mk(mode, q, 1, 2, sp, perm, ord)) return; }
                        else if (mode == PEC) { int turn = idx >> 2; for (int x : p) turn += x; std::set<int> Q{1, pt / 2 + 1, pt - 1, pt, pt + 1, pa}; if (k == 3) for (int q = pt + 2; q < pa; q++) Q.insert(q); for (int q : Q) if (q > 0) for (int sp = 0; sp < 2; sp++, turn++) for (size_t i = 0; i < (th ? STEPS : QUICK).size(); i++) {
                            // quick: the step sizes and depths take turns, every one of them on a quarter of the cases
                            if (!th && i != turn % QUICK.size()) continue;
                            auto& sd = (th ? STEPS : QUICK)[i]; if (!mk(mode, q, sd[0], sd[1], sp, perm, ord)) return; } }
                    }
                }
            }
            idx++;
            int i = 0; while (i < m && ++d[i] == (istour[i] ? nT : nO)) d[i++] = 0; if (i == m) break;
        }
    }
};

int main(int argc, char** argv) {
    HeurHarness h; h.group = argc > 1 ? argv[1] : "";
    if (h.group == "gain") h.modes = {GAIN, GAIN_UNTIL};
    else if (h.group == "path") h.modes = {PEXT, PEXT_UNTIL};
    else if (h.group == "collapse") h.modes = {COLLAPSE};
    else if (h.group == "pec") h.modes = {PEC};
    else return 3;
    return vh::drive(h, argc - 1, argv + 1);
}
