// The exact solver: the integer model, the separators, the covers and branch-and-cut, on the real SCIP.
#include "small.hh"
#include "pctsp/algorithms.hh"
#include "pctsp/separation.hh"
#include "pctsp/event_handlers.hh"
#include "pctsp/node_selection.hh"
#include <boost/log/core.hpp>
#include <dlfcn.h>
#include <fstream>
#include <sys/stat.h>
#include <yaml-cpp/yaml.h>

using vh::Case; using vh::Out;
typedef std::vector<int> V;

// ---------------------------------------------------------------- what the code under test hands to SCIP
enum Kind { OTHER, SEC, CYCLE, COVER };
struct Lin { std::string name; Kind kind = OTHER; std::map<std::pair<int, int>, double> coef; double lhs, rhs; bool row; int ub; bool stranger = false; };
static std::vector<Lin> REC;       // rows and constraints that were added
static std::map<Kind, int> MADE;   // rows that were created
static bool RECORD = false;
static SCIP* MAIN = NULL;          // the solver whose rows are recorded (not those that SCIP makes for its heuristics)
static bool DROP = false;          // record rows but do not add them
template <class F> static F real(const char* name) { static std::map<std::string, void*> m; void*& p = m[name]; if (!p) p = dlsym(RTLD_NEXT, name); return (F)p; }
static std::map<SCIP_VAR*, std::pair<int, int>> var_names(SCIP* scip) {
    std::map<SCIP_VAR*, std::pair<int, int>> m;
    auto pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip));
    auto& g = *pd->getInputGraph();
    for (auto& [e, var] : *pd->getEdgeVariableMap()) {
        int u = boost::source(e, g), v = boost::target(e, g); std::pair<int, int> k(std::min(u, v), std::max(u, v));
        m[var] = k;
        if (SCIPgetStage(scip) >= SCIP_STAGE_TRANSFORMED) { SCIP_VAR* t = NULL; SCIPgetTransformedVar(scip, var, &t); if (t) m[t] = k; }
    }
    return m;
}
// a row is known by the constraint handler it belongs to, or else by its name
static Kind kind_of(SCIP_CONSHDLR* h, const std::string& name) {
    std::string hn = h ? SCIPconshdlrGetName(h) : "";
    if (hn == SEC_CONSHDLR_NAME) return SEC;
    if (hn == CYCLE_COVER_NAME) return CYCLE;
    return name.compare(0, 7, "Subtour") == 0 ? SEC : name.compare(0, 10, "CycleCover") == 0 ? CYCLE : OTHER;
}
static void made(SCIP_CONSHDLR* h, const char* name) { if (RECORD) MADE[kind_of(h, name)]++; }
extern "C" SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* h, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool mod, SCIP_Bool rem) {
    made(h, name); return real<decltype(&SCIPcreateEmptyRowConshdlr)>("SCIPcreateEmptyRowConshdlr")(scip, row, h, name, lhs, rhs, local, mod, rem);
}
// the other ways to make a row, should the code come to use them
extern "C" SCIP_RETCODE SCIPcreateEmptyRowCons(SCIP* scip, SCIP_ROW** row, SCIP_CONS* c, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool mod, SCIP_Bool rem) {
    made(SCIPconsGetHdlr(c), name); return real<decltype(&SCIPcreateEmptyRowCons)>("SCIPcreateEmptyRowCons")(scip, row, c, name, lhs, rhs, local, mod, rem);
}
extern "C" SCIP_RETCODE SCIPcreateEmptyRowUnspec(SCIP* scip, SCIP_ROW** row, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool mod, SCIP_Bool rem) {
    made(NULL, name); return real<decltype(&SCIPcreateEmptyRowUnspec)>("SCIPcreateEmptyRowUnspec")(scip, row, name, lhs, rhs, local, mod, rem);
}
extern "C" SCIP_RETCODE SCIPcreateRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* h, const char* name, int len, SCIP_COL** cols, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool mod, SCIP_Bool rem) {
    made(h, name); return real<decltype(&SCIPcreateRowConshdlr)>("SCIPcreateRowConshdlr")(scip, row, h, name, len, cols, vals, lhs, rhs, local, mod, rem);
}
extern "C" SCIP_RETCODE SCIPaddRow(SCIP* scip, SCIP_ROW* row, SCIP_Bool force, SCIP_Bool* infeasible) {
    if (RECORD && scip == MAIN) {
        auto names = var_names(scip); Lin l; l.row = true; l.name = SCIProwGetName(row); l.kind = kind_of(SCIProwGetOriginConshdlr(row), l.name); l.ub = 0;
        double k = SCIProwGetConstant(row); l.lhs = SCIProwGetLhs(row) - k; l.rhs = SCIProwGetRhs(row) - k;
        SCIP_COL** cols = SCIProwGetCols(row); SCIP_Real* vals = SCIProwGetVals(row);
        for (int i = 0; i < SCIProwGetNNonz(row); i++) { auto it = names.find(SCIPcolGetVar(cols[i])); if (it == names.end()) l.stranger = true; else l.coef[it->second] += vals[i]; }
        REC.push_back(l);
    }
    if (RECORD && DROP) { *infeasible = FALSE; return SCIP_OKAY; }
    return real<decltype(&SCIPaddRow)>("SCIPaddRow")(scip, row, force, infeasible);
}
static std::map<SCIP_CONS*, size_t> COVERS; // where each recorded cover is
static void read_cover(SCIP* scip, SCIP_CONS* cons, Lin& l) {
    auto names = var_names(scip); l.coef.clear(); l.stranger = false; l.lhs = SCIPgetLhsLinear(scip, cons); l.rhs = SCIPgetRhsLinear(scip, cons);
    SCIP_VAR** vs = SCIPgetVarsLinear(scip, cons); SCIP_Real* cs = SCIPgetValsLinear(scip, cons);
    for (int i = 0; i < SCIPgetNVarsLinear(scip, cons); i++) { auto it = names.find(vs[i]); if (it == names.end()) l.stranger = true; else l.coef[it->second] += cs[i]; }
}
// a cover is a linear constraint with that name, or one of the form y(S) <= b
static bool is_cover(SCIP* scip, SCIP_CONS* cons) {
    if (std::string(SCIPconshdlrGetName(SCIPconsGetHdlr(cons))) != "linear") return false;
    if (std::string(SCIPconsGetName(cons)).compare(0, COST_COVER_CONS_PREFIX.size(), COST_COVER_CONS_PREFIX) == 0) return true;
    if (!SCIPisInfinity(scip, -SCIPgetLhsLinear(scip, cons)) || SCIPgetNVarsLinear(scip, cons) == 0) return false;
    Lin l; read_cover(scip, cons, l);
    for (auto& [k, c] : l.coef) if (k.first != k.second || c <= 0) return false;
    return true;
}
extern "C" SCIP_RETCODE SCIPaddCons(SCIP* scip, SCIP_CONS* cons) {
    COVERS.erase(cons);
    if (RECORD && scip == MAIN && is_cover(scip, cons)) {
        Lin l; l.kind = COVER; l.row = false; l.name = SCIPconsGetName(cons); l.ub = -1;
        if (SCIPgetStage(scip) == SCIP_STAGE_SOLVING && SCIPgetNSols(scip) > 0) l.ub = (int)std::lround(SCIPgetPrimalbound(scip));
        read_cover(scip, cons, l);
        COVERS[cons] = REC.size(); REC.push_back(l);
    }
    return real<decltype(&SCIPaddCons)>("SCIPaddCons")(scip, cons);
}
extern "C" SCIP_RETCODE SCIPcreateConsLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int n, SCIP_VAR** vs, SCIP_Real* cs, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool a, SCIP_Bool b, SCIP_Bool c, SCIP_Bool d, SCIP_Bool e, SCIP_Bool f, SCIP_Bool g, SCIP_Bool h, SCIP_Bool i, SCIP_Bool j) {
    auto r = real<decltype(&SCIPcreateConsLinear)>("SCIPcreateConsLinear")(scip, cons, name, n, vs, cs, lhs, rhs, a, b, c, d, e, f, g, h, i, j);
    if (r == SCIP_OKAY) COVERS.erase(*cons); // the address may have been another's
    return r;
}
extern "C" SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int n, SCIP_VAR** vs, SCIP_Real* cs, SCIP_Real lhs, SCIP_Real rhs) {
    auto r = real<decltype(&SCIPcreateConsBasicLinear)>("SCIPcreateConsBasicLinear")(scip, cons, name, n, vs, cs, lhs, rhs);
    if (r == SCIP_OKAY) COVERS.erase(*cons);
    return r;
}
// a cover that is completed or changed after it was added
static void changed(SCIP* scip, SCIP_CONS* cons) { if (scip != MAIN) return; auto it = COVERS.find(cons); if (RECORD && it != COVERS.end() && it->second < REC.size()) read_cover(scip, cons, REC[it->second]); }
extern "C" SCIP_RETCODE SCIPaddCoefLinear(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real val) { auto r = real<decltype(&SCIPaddCoefLinear)>("SCIPaddCoefLinear")(scip, cons, var, val); changed(scip, cons); return r; }
extern "C" SCIP_RETCODE SCIPchgRhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real rhs) { auto r = real<decltype(&SCIPchgRhsLinear)>("SCIPchgRhsLinear")(scip, cons, rhs); changed(scip, cons); return r; }
extern "C" SCIP_RETCODE SCIPchgLhsLinear(SCIP* scip, SCIP_CONS* cons, SCIP_Real lhs) { auto r = real<decltype(&SCIPchgLhsLinear)>("SCIPchgLhsLinear")(scip, cons, lhs); changed(scip, cons); return r; }

// ---------------------------------------------------------------- how the library decides to branch instead of cutting
struct Gap { long long node; double gap; bool lp, integral, branched; };
static std::vector<Gap> GAPS; // one for every gap that the library computes
extern "C" char __executable_start, etext;
static bool ours(void* p) { return p >= (void*)&__executable_start && p < (void*)&etext; }
extern "C" SCIP_Real SCIPcomputeGap(SCIP_Real eps, SCIP_Real inf, SCIP_Real primal, SCIP_Real dual) {
    double g = real<decltype(&SCIPcomputeGap)>("SCIPcomputeGap")(eps, inf, primal, dual);
    if (RECORD && MAIN && ours(__builtin_return_address(0)) && SCIPgetStage(MAIN) == SCIP_STAGE_SOLVING)
        GAPS.push_back({SCIPnodeGetNumber(SCIPgetCurrentNode(MAIN)), g, SCIPgetLPSolstat(MAIN) == SCIP_LPSOLSTAT_OPTIMAL || SCIPgetLPSolstat(MAIN) == SCIP_LPSOLSTAT_UNBOUNDEDRAY, SCIPgetNLPBranchCands(MAIN) == 0, false});
    return g;
}
extern "C" SCIP_RETCODE SCIPbranchLP(SCIP* scip, SCIP_RESULT* result) {
    if (RECORD && scip == MAIN && ours(__builtin_return_address(0)) && !GAPS.empty()) GAPS.back().branched = true;
    return real<decltype(&SCIPbranchLP)>("SCIPbranchLP")(scip, result);
}

// ---------------------------------------------------------------- oracles
static std::map<std::pair<int, int>, double> incidence(const V& cyc) {
    std::map<std::pair<int, int>, double> m;
    for (size_t i = 0; i < cyc.size(); i++) { int u = cyc[i], v = cyc[(i + 1) % cyc.size()]; m[{std::min(u, v), std::max(u, v)}] = 1; m[{u, u}] = 1; }
    return m;
}
static double activity(const Lin& l, const std::map<std::pair<int, int>, double>& x) { double a = 0; for (auto& [k, c] : l.coef) { auto it = x.find(k); if (it != x.end()) a += c * it->second; } return a; }
static bool holds(const Lin& l, const std::map<std::pair<int, int>, double>& x) { double a = activity(l, x); return a <= l.rhs + 1e-6 && a >= l.lhs - 1e-6; }
static std::string lstr(const Lin& l) { std::string s; for (auto& [k, c] : l.coef) s += (c < 0 ? " - " : " + ") + (std::fabs(c) == 1 ? "" : std::to_string(c) + " ") + (k.first == k.second ? "y" + std::to_string(k.first) : "x" + std::to_string(k.first) + std::to_string(k.second)); return s + " <= " + std::to_string(l.rhs); }

// The library keeps its edges in maps ordered by the address of the edge, so the order in which it sees them depends on the heap.
// Here the edges come from an arena, and that order is the order of insertion: given, reversed, or (order 2, 3, ...) permuted.
#ifndef __SANITIZE_ADDRESS__
static char ARENA[1 << 18]; static size_t ARENA_AT = 0; static long ARENA_LIVE = 0; static bool ARENA_ON = false;
static bool in_arena(void* p) { return (char*)p >= ARENA && (char*)p < ARENA + sizeof ARENA; }
void* operator new(size_t n) {
    if (ARENA_ON) { if (!ARENA_LIVE) ARENA_AT = 0; size_t m = (n + 15) / 16 * 16; if (ARENA_AT + m <= sizeof ARENA) { void* p = ARENA + ARENA_AT; ARENA_AT += m; ARENA_LIVE++; return p; } }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void operator delete(void* p) noexcept { if (!p) return; if (in_arena(p)) ARENA_LIVE--; else free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
struct Arena { Arena() { ARENA_ON = true; } ~Arena() { ARENA_ON = false; } };
#else
struct Arena { Arena() {} };
#endif
static PCTSPgraph build(const SmallGraph& s, int rev = 0) {
    PCTSPgraph G(s.n);
    auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    for (int v = 0; v < s.n; v++) prize[v] = s.prize[v];
    std::vector<std::pair<int, int>> es;
    for (int u = 0; u < s.n; u++) for (int v = u + 1; v < s.n; v++) if (s.has(u, v)) es.push_back({u, v});
    if (rev == 1) { std::reverse(es.begin(), es.end()); for (auto& e : es) std::swap(e.first, e.second); }
    if (rev > 1) { unsigned z = rev * 7919u; for (size_t k = es.size(); k > 1; k--) { z = z * 1664525u + 1013904223u; std::swap(es[k - 1], es[(z >> 16) % k]); } }
    { Arena a; for (auto& e : es) boost::add_edge(e.first, e.second, G); }
    for (auto e : boost::make_iterator_range(boost::edges(G))) cost[e] = s.cost[boost::source(e, G)][boost::target(e, G)];
    return G;
}
// the edges the solver returned: are they one simple cycle through the root with enough prize? -1 and why if not, else the cost
static long tour_cost(const SmallGraph& s, int root, int quota, const std::vector<std::pair<PCTSPvertex, PCTSPvertex>>& es, std::string& why) {
    std::map<int, V> adj; std::set<std::pair<int, int>> seen; long cost = 0;
    for (auto& e : es) {
        int u = e.first, v = e.second;
        if (u >= s.n || v >= s.n || !s.has(u, v)) { why = "an edge that is not in the graph"; return -1; }
        if (!seen.insert({std::min(u, v), std::max(u, v)}).second) { why = "an edge twice"; return -1; }
        adj[u].push_back(v); adj[v].push_back(u); cost += s.cost[u][v];
    }
    for (auto& [v, a] : adj) if (a.size() != 2) { why = "a vertex without degree two"; return -1; }
    if (!adj.count(root)) { why = "not visiting the root"; return -1; }
    std::set<int> reach{root}; V st{root};
    while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : adj[u]) if (reach.insert(w).second) st.push_back(w); }
    if (reach.size() != adj.size()) { why = "more than one cycle"; return -1; }
    int p = 0; for (int v : reach) p += s.prize[v];
    if (p < quota) { why = "prize " + std::to_string(p) + " below the quota"; return -1; }
    return cost;
}
static V dijkstra(const SmallGraph& s, int root) {
    V d(s.n, 1 << 29); d[root] = 0; std::vector<bool> done(s.n);
    for (int k = 0; k < s.n; k++) { int b = -1; for (int v = 0; v < s.n; v++) if (!done[v] && (b < 0 || d[v] < d[b])) b = v; done[b] = true; for (int w = 0; w < s.n; w++) if (s.has(b, w)) d[w] = std::min(d[w], d[b] + s.cost[b][w]); }
    return d;
}
// cost of the cheapest cycle through root and v (a lower bound for every tour that visits v)
static V cheapest_through(const SmallGraph& s, int root) {
    V d(s.n, 1 << 29); d[root] = 0;
    all_cycles(s, root, [&](const V& c) { int k = cyc_cost(s, c); for (int v : c) if (v != root) d[v] = std::min(d[v], k); });
    return d;
}

static std::string TOP, SCRATCH;
static void quiet(SCIP* scip) { SCIPsetMessagehdlrQuiet(scip, TRUE); }

// What NodeEventhdlr counts today: an event of the newest node starts its counters again (recorded as a known finding).
class Resets : public scip::ObjEventhdlr {
public:
    V cnt; int seen = 0;
    Resets(SCIP* s) : ObjEventhdlr(s, "resets", "resets") {}
    int fresh() { int k = MADE[SEC] - seen; seen = MADE[SEC]; return k; }
    void settle(int id) { int k = fresh(); if (id >= 1 && id <= (int)cnt.size()) cnt[id - 1] += k; }
    int last = 1;
    SCIP_DECL_EVENTINITSOL(scip_initsol) override { SCIP_CALL(SCIPcatchEvent(scip, SCIP_EVENTTYPE_NODEEVENT, eventhdlr, NULL, NULL)); return SCIP_OKAY; }
    SCIP_DECL_EVENTEXITSOL(scip_exitsol) override { SCIP_CALL(SCIPdropEvent(scip, SCIP_EVENTTYPE_NODEEVENT, eventhdlr, NULL, -1)); return SCIP_OKAY; }
    SCIP_DECL_EVENTEXEC(scip_exec) override {
        settle(last); int id = SCIPnodeGetNumber(SCIPgetCurrentNode(scip)); last = id;
        if (id >= (int)cnt.size()) { if ((int)cnt.size() < id) cnt.resize(id); cnt[id - 1] = 0; }
        return SCIP_OKAY;
    }
    int total() { settle(last); int t = 0; for (int k : cnt) t += k; return t; }
};
static bool REPORT_RESET = false;

// the best solutions that the solver announces
class Best : public scip::ObjEventhdlr {
public:
    double ub = -1;
    Best(SCIP* s) : ObjEventhdlr(s, "best", "best") {}
    SCIP_DECL_EVENTINITSOL(scip_initsol) override { SCIP_CALL(SCIPcatchEvent(scip, SCIP_EVENTTYPE_BESTSOLFOUND, eventhdlr, NULL, NULL)); return SCIP_OKAY; }
    SCIP_DECL_EVENTEXITSOL(scip_exitsol) override { SCIP_CALL(SCIPdropEvent(scip, SCIP_EVENTTYPE_BESTSOLFOUND, eventhdlr, NULL, -1)); return SCIP_OKAY; }
    SCIP_DECL_EVENTEXEC(scip_exec) override { if (!SCIPisInfinity(scip, SCIPgetPrimalbound(scip))) ub = SCIPgetPrimalbound(scip); return SCIP_OKAY; }
};

// ---------------------------------------------------------------- branch and cut
// group 0: n root quota rev heur bs depth ccd ccs cyc dt gap mf tail freq simple api | prizes | upper triangular costs (-1: no edge)
struct Bac {
    SmallGraph g; int root, quota, rev, heur, bs, depth, ccd, ccs, cyc, dt, gap, mf, tail, freq, simple, api;
    static Bac decode(const Case& c) {
        Bac b; int i = 1; b.g.init(c[i++]); b.root = c[i++]; b.quota = c[i++]; b.rev = c[i++]; b.heur = c[i++]; b.bs = c[i++]; b.depth = c[i++]; b.ccd = c[i++]; b.ccs = c[i++]; b.cyc = c[i++];
        b.dt = c[i++]; b.gap = c[i++]; b.mf = c[i++]; b.tail = c[i++]; b.freq = c[i++]; b.simple = c[i++]; b.api = c[i++];
        for (int v = 0; v < b.g.n; v++) b.g.prize[v] = c[i++];
        for (int u = 0; u < b.g.n; u++) for (int v = u + 1; v < b.g.n; v++) { int w = c[i++]; if (w >= 0) b.g.set(u, v, w); }
        return b;
    }
    std::string str() const {
        char t[400]; snprintf(t, sizeof t, " root=%d quota=%d heuristic=%d branching=%d depth=%d cost_cover(disjoint=%d shortest=%d) cycle_cover=%d sec(disjoint=%d maxflow=%d gap=%d/100 tail=%d freq=%d) simple=%d overload=%d", root, quota, heur, bs, depth, ccd, ccs, cyc, dt, mf, gap, tail, freq, simple, api);
        return g.str() + t;
    }
};
// the options of the call, as the solver and its plug-ins were set
static void options_of(SCIP* scip, const Bac& b, double threshold, Out& o) {
    double t = -1; SCIPgetRealParam(scip, "limits/time", &t);
    if (t != (b.api == 3 ? 0.0 : 60.0)) o.fail("option-time", "the time limit of the solver is " + std::to_string(t));
    SCIP_CONSHDLR* sec = SCIPfindConshdlr(scip, SEC_CONSHDLR_NAME.c_str());
    if (!sec || SCIPconshdlrGetSepaFreq(sec) != b.freq) o.fail("option-frequency", "subtours are separated with frequency " + (sec ? std::to_string(SCIPconshdlrGetSepaFreq(sec)) : "none") + " instead of " + std::to_string(b.freq));
    auto there = [&](const char* what, bool is, bool want) { if (is != want) o.fail("option-plugin", std::string(what) + (is ? " is there although it is switched off" : " is missing although it is switched on")); };
    there("the disjoint paths cost cover", SCIPfindObjEventhdlr(scip, DISJOINT_PATHS_COST_COVER_NAME.c_str()), b.ccd);
    there("the shortest path cost cover", SCIPfindObjEventhdlr(scip, SHORTEST_PATH_COST_COVER_NAME.c_str()), b.ccs);
    there("the cycle cover", SCIPfindConshdlr(scip, CYCLE_COVER_NAME.c_str()), b.cyc);
    std::map<std::string, int> pr; int most = -1 << 30; SCIP_BRANCHRULE** rules = SCIPgetBranchrules(scip);
    for (int i = 0; i < SCIPgetNBranchrules(scip); i++) { pr[SCIPbranchruleGetName(rules[i])] = SCIPbranchruleGetPriority(rules[i]); most = std::max(most, SCIPbranchruleGetPriority(rules[i])); }
    const char* lead = b.bs == 0 ? "relpscost" : b.bs == 1 || b.bs == 2 ? "fullstrong" : NULL;
    if (lead && pr[lead] != most) o.fail("option-branching", std::string("strategy ") + std::to_string(b.bs) + " but rule " + lead + " has priority " + std::to_string(pr[lead]) + " of " + std::to_string(most));
    if (!lead && pr["fullstrong"] == most) o.fail("option-branching", "strategy " + std::to_string(b.bs) + " but strong branching comes first");
    SCIP_BRANCHRULE* strong = SCIPfindBranchrule(scip, "fullstrong"); int depth = strong ? SCIPbranchruleGetMaxdepth(strong) : -9;
    if (depth != (b.bs == 2 ? b.depth : -1)) o.fail("option-branching", "strategy " + std::to_string(b.bs) + " with depth " + std::to_string(b.depth) + " but strong branching has maximum depth " + std::to_string(depth));
    // the solver branches in place of cutting exactly when the last gaps of the node say so
    std::map<long long, std::vector<double>> last;
    std::map<long long, size_t> end; for (size_t i = 0; i < GAPS.size(); i++) end[GAPS[i].node] = i;
    for (size_t i = 0; i < GAPS.size(); i++) {
        auto& g = GAPS[i]; auto& h = last[g.node]; h.push_back(g.gap);
        if (end[g.node] == i && g.integral && !g.branched) continue; // perhaps a tour: then there is nothing to decide
        bool tail = b.tail >= 2 && (int)h.size() >= b.tail && h[h.size() - b.tail] - h.back() < threshold;
        if ((tail && g.lp) != g.branched) { std::string t; for (double x : h) t += " " + std::to_string(x); o.fail("tailing-live", "node " + std::to_string(g.node) + " with gaps" + t + ", limit " + std::to_string(b.tail) + " and threshold " + std::to_string(threshold) + (g.branched ? " branched" : " did not branch")); break; }
    }
}
static long prop_mode = 12; // which property is being decided: 12 optimum, 14 covers, 18 statistics
static void run_bac(const Case& c, Out& o) {
    Bac b = Bac::decode(c);
    struct Tour { V t; int prize, cost; std::map<std::pair<int, int>, double> x; };
    std::vector<V> feas; std::vector<Tour> tours; long opt = -1;
    all_cycles(b.g, b.root, [&](const V& t) { tours.push_back({t, set_prize(b.g, t), cyc_cost(b.g, t), incidence(t)}); if (set_prize(b.g, t) >= b.quota) { feas.push_back(t); int k = cyc_cost(b.g, t); if (opt < 0 || k < opt) opt = k; } });
    if (b.heur >= 0 && (size_t)b.heur >= feas.size()) b.heur = -1;
    o.nontrivial = !feas.empty();
    PCTSPgraph G = build(b.g, b.rev);
    auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    std::vector<PCTSPedge> heur; std::vector<std::pair<PCTSPvertex, PCTSPvertex>> hpairs; int hcost = 0;
    if (b.heur >= 0) {
        const V& t = feas[b.heur]; hcost = cyc_cost(b.g, t);
        unsigned flips = 0; for (int z : c) flips = vh::mix(flips, z); // the edges of the tour point either way
        for (size_t i = 0; i < t.size(); i++) { int u = t[i], v = t[(i + 1) % t.size()]; if (flips >> i & 1) std::swap(u, v); heur.push_back(boost::edge(u, v, G).first); hpairs.push_back({u, v}); }
    }
    V bound = cheapest_through(b.g, b.root);
    std::vector<int> dist(bound); for (int v = 0; v < b.g.n; v++) if (v == b.root) dist[v] = (b.api == 0 && b.heur % 2 == 0) ? 0 : 1 << 29; // the root's entry is not a bound
    int quota = b.quota; PCTSPvertex root = b.root; std::string name = "t";
    SCIP* scip = NULL; SCIPcreate(&scip); quiet(scip);
    Resets* resets = new Resets(scip); SCIPincludeObjEventhdlr(scip, resets, TRUE);
    Best* best = new Best(scip); SCIPincludeObjEventhdlr(scip, best, TRUE);
    REC.clear(); COVERS.clear(); MADE.clear(); GAPS.clear(); RECORD = true; MAIN = scip; DROP = false;
    std::vector<std::pair<PCTSPvertex, PCTSPvertex>> sol;
    std::string thrown;
    const double gaps[] = {0.0, 0.001, 0.5, 5.0};
    try {
        if (b.api == 0 || b.api == 3) {
            sol = solvePrizeCollectingTSP(scip, G, heur, cost, prize, quota, root, b.depth, b.bs, b.ccd, b.ccs, b.cyc, dist, "t", b.dt, gaps[b.gap], b.mf, b.tail, b.freq, b.simple, SCRATCH, b.api == 3 ? 0.0 : 60.0);
        } else if (b.api == 1) {
            sol = solvePrizeCollectingTSP(scip, G, heur, cost, prize, quota, root, name);
        } else {
            PCTSPgraph H; std::vector<std::pair<PCTSPvertex, PCTSPvertex>> el; std::map<std::pair<PCTSPvertex, PCTSPvertex>, int> cd; std::map<PCTSPvertex, int> pd;
            for (int u = 0; u < b.g.n; u++) for (int v = u + 1; v < b.g.n; v++) if (b.g.has(u, v)) { auto e = b.rev ? std::make_pair((PCTSPvertex)v, (PCTSPvertex)u) : std::make_pair((PCTSPvertex)u, (PCTSPvertex)v); el.push_back(e); cd[e] = b.g.cost[u][v]; }
            for (int v = 0; v < b.g.n; v++) pd[v] = b.g.prize[v];
            sol = solvePrizeCollectingTSP(scip, H, el, hpairs, cd, pd, quota, root, name);
        }
    } catch (std::exception& e) { thrown = e.what(); }
    RECORD = false;
    if (!thrown.empty()) { o.fail("exception", "the solver threw: " + thrown); return; }
    bool limited = b.api == 3; // no time at all: whatever is returned must still be right
    int status = SCIPgetStatus(scip); long long nodes = SCIPgetNNodes(scip);
    o.states = nodes; o.transitions = REC.size(); o.traces = 1;
    o.outcome = vh::mix(vh::mix(status, opt + 1), vh::mix(nodes, sol.size()));
    if (b.api == 0 || b.api == 3) options_of(scip, b, gaps[b.gap], o);
    // C12
    std::string why;
    if (limited && status == SCIP_STATUS_TIMELIMIT) {
        if (sol.empty() && SCIPgetNSols(scip) > 0) o.fail("best-not-returned", "stopped at the time limit with a tour of cost " + std::to_string(std::lround(SCIPgetPrimalbound(scip))) + " known, nothing is returned");
        if (!sol.empty()) { if (SCIPgetNSols(scip) == 0) o.fail("not-a-tour", "edges are returned although no tour is known"); long k = feas.empty() ? -2 : tour_cost(b.g, b.root, b.quota, sol, why); if (k < 0) o.fail("not-a-tour", "stopped at the time limit, the returned edges are no tour: " + why); else if (k < opt) o.fail("not-optimal", "a tour cheaper than the optimum"); else if (SCIPgetNSols(scip) > 0 && k != std::lround(SCIPgetPrimalbound(scip))) o.fail("best-not-returned", "stopped at the time limit, a tour of cost " + std::to_string(k) + " is returned but one of cost " + std::to_string(std::lround(SCIPgetPrimalbound(scip))) + " is known"); o.nontrivial = true; }
    } else if (feas.empty()) {
        if (status != SCIP_STATUS_INFEASIBLE) o.fail("infeasible-not-proved", "no tour meets the quota but the status is " + std::to_string(status));
        else if (!sol.empty()) o.fail("edges-of-infeasible", "an infeasible instance returned " + std::to_string(sol.size()) + " edges");
    } else {
        if (status != SCIP_STATUS_OPTIMAL) o.fail("status", "the optimum costs " + std::to_string(opt) + " but the status is " + std::to_string(status));
        else {
            long k = tour_cost(b.g, b.root, b.quota, sol, why);
            std::string t; for (auto& e : sol) t += std::to_string(e.first) + "-" + std::to_string(e.second) + " ";
            if (k < 0) o.fail("not-a-tour", "the returned edges " + t + "have " + why);
            else if (k != opt) o.fail("not-optimal", "the returned edges " + t + "cost " + std::to_string(k) + " but the optimum is " + std::to_string(opt));
        }
    }
    // every inequality handed to SCIP keeps an optimal tour, and each kind keeps what it promises to keep
    V sd = dijkstra(b.g, b.root); V cov(b.g.n, 0);
    int ncov = 0;
    for (auto& l : REC) {
        if (l.stranger) o.fail("stranger", "an inequality has a variable that is not of the graph: " + l.name.substr(0, 60));
        bool sec = l.kind == SEC, cc = l.kind == COVER, cyc = l.kind == CYCLE;
        ncov += cc;
        for (auto& [t, prize, k, x] : tours) {
            bool f = prize >= b.quota;
            bool must = sec ? true : cyc ? f : (f && k <= (l.ub >= 0 ? l.ub : hcost));
            if (must && !holds(l, x)) o.fail(sec ? "sec-invalid" : cyc ? "cycle-cover-invalid" : "cost-cover-invalid", "the tour " + tstr(t) + " of cost " + std::to_string(k) + " violates " + l.name.substr(0, 20) + ": " + lstr(l));
        }
    }
    if (b.api == 0 || b.api == 3) {
        // once a tour is known, every vertex that no better tour can visit is covered
        long U = hcost > 0 ? hcost : -1; if (best->ub >= 0) { long k = std::lround(best->ub); if (U < 0 || k < U) U = k; }
        if (U >= 0) for (int v = 0; v < b.g.n; v++) if (v != b.root && ((b.ccd && bound[v] > U) || (b.ccs && sd[v] < 1 << 28 && 2L * sd[v] > U))) {
            bool covered = false; std::map<std::pair<int, int>, double> both{{{b.root, b.root}, 1}, {{v, v}, 1}};
            for (auto& l : REC) covered |= l.kind == COVER && !holds(l, both);
            if (!covered) o.fail("not-covered", "a tour of cost " + std::to_string(U) + " is known, but no cover forbids vertex " + std::to_string(v) + " although every tour through it costs at least " + std::to_string(b.ccd ? bound[v] : 2 * sd[v]));
        }
        // C14/C18: the statistics file
        std::filesystem::path f = SCRATCH + "/" + PCTSP_SUMMARY_STATS_YAML;
        try {
            YAML::Node y = YAML::LoadFile(f.string());
            auto num = [&](const char* k) { return y[k].as<long long>(); };
            if (num("status") != status) o.fail("stat-status", "the file says status " + std::to_string(num("status")));
            if (num("num_nodes") != nodes) o.fail("stat-nodes", "the file says " + std::to_string(num("num_nodes")) + " nodes, the solver " + std::to_string(nodes));
            int cd = num("num_cost_cover_disjoint_paths"), cs = num("num_cost_cover_shortest_paths"), pd = num("nconss_presolve_disjoint_paths"), ps = num("nconss_presolve_shortest_paths");
            if (cd + cs != ncov) o.fail("stat-cost-cover", "the file counts " + std::to_string(cd) + " + " + std::to_string(cs) + " cost covers but " + std::to_string(ncov) + " were added");
            if ((!b.ccd && (cd || pd)) || (!b.ccs && (cs || ps))) o.fail("stat-cost-cover-off", "covers are counted although they are switched off");
            int wd = 0, ws = 0, un = 0; // covers of the starting solution (a vertex that cannot be reached may have one)
            if (hcost > 0) for (int v = 0; v < b.g.n; v++) if (v != b.root) { wd += b.ccd && bound[v] > hcost; if (sd[v] >= 1 << 28) un++; else ws += b.ccs && 2L * sd[v] > hcost; }
            if (pd != wd || ps < ws || ps > ws + un) o.fail("stat-presolve-cover", "covers of the starting tour: disjoint " + std::to_string(pd) + " shortest " + std::to_string(ps) + ", expected " + std::to_string(wd) + " and " + std::to_string(ws));
            int secs = num("num_sec_disjoint_tour") + num("num_sec_maxflow_mincut");
            if (secs != MADE[SEC] && (secs != resets->total() || REPORT_RESET)) o.fail(secs == resets->total() ? "stat-sec-reset" : "stat-sec", "the file counts " + std::to_string(secs) + " subtour constraints but " + std::to_string(MADE[SEC]) + " were generated");
            if (!b.dt && num("num_sec_disjoint_tour")) o.fail("stat-sec-off", "disjoint tour constraints are counted although switched off");
            if (!b.mf && num("num_sec_maxflow_mincut")) o.fail("stat-sec-off", "max flow constraints are counted although switched off");
            int cyc = 0; for (auto& l : REC) cyc += l.kind == CYCLE;
            if (num("num_cycle_cover") != cyc) o.fail("stat-cycle-cover", "the file counts " + std::to_string(num("num_cycle_cover")) + " cycle covers but " + std::to_string(cyc) + " were added");
            if (opt >= 0 && status == SCIP_STATUS_OPTIMAL) {
                double lb = y["lower_bound"].as<double>(), ub = y["upper_bound"].as<double>();
                if (std::fabs(lb - opt) > 1e-6 || std::fabs(ub - opt) > 1e-6) o.fail("stat-bounds", "the file says bounds " + std::to_string(lb) + " and " + std::to_string(ub) + " but the optimum is " + std::to_string(opt));
            }
        } catch (std::exception& e) { o.fail("stat-file", std::string("the statistics file cannot be read: ") + e.what()); }
        std::error_code ec; std::filesystem::remove(f, ec);
    }
    SCIPfree(&scip);
}


// ---------------------------------------------------------------- the integer model
// group 1: 1 n root quota rev heur simple api | prizes | costs
static void run_model(const Case& c, Out& o) {
    int i = 1; SmallGraph g; g.init(c[i++]); int root = c[i++], quota = c[i++], rev = c[i++], heur = c[i++], simple = c[i++], api = c[i++];
    for (int v = 0; v < g.n; v++) g.prize[v] = c[i++];
    for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++) { int w = c[i++]; if (w >= 0) g.set(u, v, w); }
    int loops = rev >> 1; rev &= 1; // the vertices that have a loop from the start
    std::map<std::map<std::pair<int, int>, double>, long> want; std::vector<V> feas;
    all_cycles(g, root, [&](const V& t) { if (set_prize(g, t) >= quota) { want[incidence(t)] = cyc_cost(g, t); feas.push_back(t); } });
    PCTSPgraph G; if (api == 0) G = build(g, rev);
    auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    std::vector<PCTSPedge> hs; std::vector<std::pair<PCTSPvertex, PCTSPvertex>> hp, el; std::map<std::pair<PCTSPvertex, PCTSPvertex>, int> cd; std::map<PCTSPvertex, int> pd;
    unsigned flips = 0; for (int z : c) flips = vh::mix(flips, z); // the edges of the tour and of the graph point either way
    if (heur >= 0 && (size_t)heur < feas.size()) { const V& t = feas[heur]; for (size_t k = 0; k < t.size(); k++) { int a = t[k], b = t[(k + 1) % t.size()]; if (flips >> k & 1) std::swap(a, b); hp.push_back({a, b}); if (api == 0) hs.push_back(boost::edge(a, b, G).first); } }
    for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++) if (g.has(u, v)) { auto e = (rev ^ (flips >> (u + v) % 7 & flips >> 8 & 1)) ? std::make_pair((PCTSPvertex)v, (PCTSPvertex)u) : std::make_pair((PCTSPvertex)u, (PCTSPvertex)v); el.push_back(e); cd[e] = g.cost[u][v]; }
    for (int v = 0; v < g.n; v++) pd[v] = g.prize[v];
    for (int v = 0; v < g.n; v++) if (loops >> v & 1) { if (api == 0) cost[boost::add_edge(v, v, G).first] = 0; else { el.push_back({v, v}); cd[{v, v}] = 0; } }
    PCTSPvertex r = root; std::string name = "m"; RECORD = false;
    SCIP* scip = NULL; SCIPcreate(&scip); quiet(scip);
    try {
        auto vars = api == 0 ? modelPrizeCollectingTSP(scip, G, hs, cost, prize, quota, r, name, true, 0.01, true, -1, 1, (bool)simple)
                             : modelPrizeCollectingTSP(scip, G, el, hp, cd, pd, quota, r, name, true, 0.01, true, -1, 1, (bool)simple);
        std::map<std::pair<int, int>, SCIP_VAR*> x; std::map<SCIP_VAR*, int> idx; std::vector<std::pair<int, int>> keys; std::vector<PCTSPedge> ed;
        for (auto& [e, var] : vars) { int u = boost::source(e, G), v = boost::target(e, G); std::pair<int, int> k(std::min(u, v), std::max(u, v)); if (x.count(k)) o.fail("two-variables", "two variables for one edge"); x[k] = var; idx[var] = keys.size(); keys.push_back(k); ed.push_back(e); }
        for (int u = 0; u < g.n; u++) for (int v = u; v < g.n; v++) if (u == v || g.has(u, v)) { if (!x.count({u, v})) o.fail("no-variable", "no variable for " + std::to_string(u) + "-" + std::to_string(v)); } else if (x.count({u, v})) o.fail("extra-variable", "a variable for a missing edge");
        if (SCIPgetNVars(scip) != (int)keys.size()) o.fail("stray-variable", "the model has " + std::to_string(SCIPgetNVars(scip)) + " variables for " + std::to_string(keys.size()) + " edges and loops");
        for (auto var : std::vector<SCIP_VAR*>(SCIPgetVars(scip), SCIPgetVars(scip) + SCIPgetNVars(scip))) if (!SCIPvarIsBinary(var)) o.fail("not-binary", "a variable is not binary");
        if (!hp.empty()) { // the starting tour is stored as it is
            const V& t = feas[heur]; auto want1 = incidence(t);
            if (SCIPgetNSols(scip) != 1) o.fail("start-lost", "the starting tour " + tstr(t) + " is not stored, the solver has " + std::to_string(SCIPgetNSols(scip)) + " solutions");
            else for (auto& [k, var] : x) { double w = SCIPgetSolVal(scip, SCIPgetSols(scip)[0], var); if (std::fabs(w - (want1.count(k) ? 1 : 0)) > 1e-9) o.fail("start-changed", "the starting tour " + tstr(t) + " is stored with value " + std::to_string(w) + " for " + std::to_string(k.first) + "-" + std::to_string(k.second)); }
        } else if (SCIPgetNSols(scip)) o.fail("start-invented", "the solver has a starting solution although none was given");
        if (SCIPgetObjsense(scip) != SCIP_OBJSENSE_MINIMIZE) o.fail("sense", "the model is not a minimisation");
        struct L { std::vector<std::pair<int, double>> t; double lhs, rhs; }; std::vector<L> rows;
        int other = 0;
        for (int k = 0; k < SCIPgetNConss(scip); k++) {
            SCIP_CONS* cons = SCIPgetConss(scip)[k]; std::string h = SCIPconshdlrGetName(SCIPconsGetHdlr(cons));
            if (h != "linear") { other++; if (h != SEC_CONSHDLR_NAME) o.fail("constraint-kind", "an unexpected constraint of kind " + h); continue; }
            L l; l.lhs = SCIPgetLhsLinear(scip, cons); l.rhs = SCIPgetRhsLinear(scip, cons);
            for (int j = 0; j < SCIPgetNVarsLinear(scip, cons); j++) l.t.push_back({idx.at(SCIPgetVarsLinear(scip, cons)[j]), SCIPgetValsLinear(scip, cons)[j]});
            rows.push_back(l);
        }
        if (other != 1) o.fail("no-subtour-constraint", std::to_string(other) + " subtour constraints in the model");
        int m = keys.size(); size_t got = 0; std::vector<double> lb(m), ub(m), ob(m);
        for (int k = 0; k < m; k++) { auto var = x[keys[k]]; lb[k] = SCIPvarGetLbOriginal(var); ub[k] = SCIPvarGetUbOriginal(var); ob[k] = SCIPvarGetObj(var); }
        // every assignment of the edges; a loop's value follows from the degree of its vertex, so a loop is free only when no model can fix it
        std::vector<int> eidx, lidx; for (int k = 0; k < m; k++) (keys[k].first == keys[k].second ? lidx : eidx).push_back(k);
        const bool large = g.n >= 8; bool full = m <= 11; unsigned long total = large ? 0 : 1ul << (full ? m : eidx.size());
        std::vector<char> a(m);
        auto judge = [&](long z) { // the bits of z, or the values already in a
            std::vector<int> deg(g.n, 0); if (z < 0) {} else
            if (full) for (int k = 0; k < m; k++) a[k] = z >> k & 1;
            else {
                for (size_t k = 0; k < eidx.size(); k++) { a[eidx[k]] = z >> k & 1; if (a[eidx[k]]) { deg[keys[eidx[k]].first]++; deg[keys[eidx[k]].second]++; } }
                for (int k : lidx) a[k] = deg[keys[k].first] > 0;
            }
            o.states++;
            bool ok = true; double obj = 0;
            for (int k = 0; k < m && ok; k++) { ok = a[k] >= lb[k] - 1e-9 && a[k] <= ub[k] + 1e-9; obj += a[k] * ob[k]; }
            for (auto& l : rows) { if (!ok) break; double act = 0; for (auto& [k, cf] : l.t) act += a[k] * cf; ok = act <= l.rhs + 1e-9 && act >= l.lhs - 1e-9; }
            if (ok) { std::vector<PCTSPedge> sel; for (int k : eidx) if (a[k]) sel.push_back(ed[k]); ok = isSimpleCycle(G, sel); }
            std::map<std::pair<int, int>, double> pt; for (int k = 0; k < m; k++) if (a[k]) pt[keys[k]] = 1;
            auto it = want.find(pt);
            std::string d = "the point"; for (auto& [k, w] : pt) d += " " + std::to_string(k.first) + "-" + std::to_string(k.second);
            if (ok && it == want.end()) o.fail("admits", d + " satisfies the model but is not a tour that meets the quota");
            if (!ok && it != want.end()) o.fail("excludes", d + " is a tour that meets the quota but violates the model");
            if (ok && it != want.end()) { got++; if (std::fabs(obj - it->second) > 1e-9) o.fail("objective", d + " costs " + std::to_string(it->second) + " but its objective is " + std::to_string(obj)); }
            return ok;
        };
        for (unsigned long z = 0; z < total && o.viol.empty(); z++) judge(z);
        if (large) { // every cycle, every tour with one edge or loop more or less, and every tour (of some) together with a cycle apart from it
            std::vector<V> other; for (int r = 0; r < g.n; r++) if (r != root) all_cycles(g, r, [&](const V& t) { if (*std::min_element(t.begin(), t.end()) == r && std::find(t.begin(), t.end(), root) == t.end()) other.push_back(t); });
            auto set = [&](const V& t) { for (auto& [k, w] : incidence(t)) { for (int z = 0; z < m; z++) if (keys[z] == k) a[z] = 1; } };
            auto clear = [&] { std::fill(a.begin(), a.end(), 0); };
            clear(); judge(-1); for (auto& t : other) { clear(); set(t); if (o.viol.empty()) judge(-1); }
            all_cycles(g, root, [&](const V& t) { if (set_prize(g, t) < quota) { clear(); set(t); if (o.viol.empty()) judge(-1); } });
            size_t every = feas.size() / 40 + 1;
            for (size_t z = 0; z < feas.size() && o.viol.empty(); z++) {
                clear(); set(feas[z]); judge(-1); size_t before = got; if (z % every) continue;
                for (int k = 0; k < m && o.viol.empty(); k++) { a[k] ^= 1; judge(-1); a[k] ^= 1; }
                std::set<int> in(feas[z].begin(), feas[z].end()); int n = 0; for (auto& d : other) { bool apart = n < 20; for (int v : d) apart &= !in.count(v); if (apart) { n++; clear(); set(feas[z]); set(d); judge(-1); } }
                got = before; // a tour met again is not another one
            }
        }
        if (o.viol.empty() && got != want.size()) o.fail("excludes", "only " + std::to_string(got) + " of " + std::to_string(want.size()) + " tours satisfy the model");
    } catch (std::exception& e) { o.fail("exception", std::string("modelling threw ") + e.what()); }
    o.nontrivial = !want.empty(); o.outcome = vh::mix(want.size(), quota); o.traces = 1; o.transitions = want.size();
    for (auto& w : want) o.outcome = vh::mix(o.outcome, w.second);
    SCIPfree(&scip);
}

// larger graphs with few enough cycles to list them all: a parametric family
static const int BIG = 9;
static int big_size(int topo, int salt) { static const int N[BIG] = {12, 10, 8, 12, 9, 12, 16, 14, 10}; return N[topo] + (topo == 2 || topo == 8 ? 0 : salt % 3 - 1) - (topo == 6 ? 1 : 0); }
static bool big_edge(int n, int topo, int salt, int u, int v) {
    unsigned h = vh::mix(vh::mix(vh::mix(7, u), v), salt) >> 17 & 0xfffffff;
    switch (topo) {
    case 0: return v - u <= 2; // ladder
    case 1: { int half = n / 2; return v < 2 * half && (u / half == v / half ? v - u == 1 || v - u == half - 1 : v - u == half); } // prism
    case 2: return u / 4 == v / 4 || v - u == 4 && (v + salt) % 4 != 3; // two cliques of four joined by three edges
    case 3: return u / 3 == v / 3 || (v - u == 3 && h % 3) || (u == 0 && v == n - 1) || v - u == 1; // triangles in a row
    case 4: return h % 5 < 3; // middling density
    case 5: return v - u == 1 || v - u == n - 1 || (v - u == n / 2 && u % 2 == salt % 2) || h % 11 == 0; // ring with long chords
    case 6: return (v - u == 1 && v % 4) || v - u == 4; // grid
    case 7: return u == 0 ? v % 3 == 1 || v == n - 1 : v - u == 1; // wheel, a third of the spokes
    default: return (v < 5 && (v - u == 1 || v - u == 4)) || (u >= 5 && ((v - u) % 5 == 2 || (v - u) % 5 == 3)) || v - u == 5; // Petersen
    }
}
static int big_cost(int n, int pat, int salt, int u, int v) {
    unsigned h = vh::mix(vh::mix(vh::mix(11, u), v), salt) >> 17 & 0xfffffff;
    switch (pat) { case 0: return 1 + h % 20; case 1: return 1; case 2: return u * 3 / n == v * 3 / n ? 1 + h % 2 : 20 + h % 9; case 3: return 2 * (h % 5); case 4: return 1000 + h % 100000; default: return std::abs(u - v) + h % 3; }
}

// ---------------------------------------------------------------- separation at every point
class Probe : public scip::ObjEventhdlr {
public:
    std::function<void(SCIP*)> f; bool fired = false;
    Probe(SCIP* s, std::function<void(SCIP*)> f) : ObjEventhdlr(s, "probe", "probe"), f(f) {}
    SCIP_DECL_EVENTINITSOL(scip_initsol) override { SCIP_CALL(SCIPcatchEvent(scip, SCIP_EVENTTYPE_NODEFOCUSED, eventhdlr, NULL, NULL)); return SCIP_OKAY; }
    SCIP_DECL_EVENTEXITSOL(scip_exitsol) override { SCIP_CALL(SCIPdropEvent(scip, SCIP_EVENTTYPE_NODEFOCUSED, eventhdlr, NULL, -1)); return SCIP_OKAY; }
    SCIP_DECL_EVENTEXEC(scip_exec) override { if (!fired) { fired = true; f(scip); SCIPinterruptSolve(scip); } return SCIP_OKAY; }
};
// group 2 (subtours) and 3 (cycle covers): kind n root quota rev den mode | prizes | mask
static long EVERY = 0;
static void run_points(const Case& c, Out& o) {
    int i = 1; SmallGraph g; g.init(c[i++]); int root = c[i++], quota = c[i++], order = c[i++], den = c[i++], mode = c[i++]; // mode: 1 disjoint tours, 2 max flow, 3 both
    for (int v = 0; v < g.n; v++) g.prize[v] = c[i++];
    unsigned mask = c[i++]; const bool large = g.n >= 8; int salt = large ? c[i++] : 0, bit = 0;
    for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++, bit++) if (large ? big_edge(g.n, mask, salt, u, v) : mask >> bit & 1) g.set(u, v, 1 + u + v);
    std::vector<std::pair<int, int>> es; for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++) if (g.has(u, v)) es.push_back({u, v});
    std::vector<V> cycles; all_cycles(g, root, [&](const V& t) { cycles.push_back(t); });
    std::vector<std::map<std::pair<int, int>, double>> inc; std::vector<bool> pf; for (auto& t : cycles) { inc.push_back(incidence(t)); pf.push_back(set_prize(g, t) >= quota); }
    PCTSPgraph G = build(g, order); auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    std::vector<PCTSPedge> none; PCTSPvertex r = root; std::string name = "p";
    SCIP* scip = NULL; SCIPcreate(&scip); quiet(scip); RECORD = false;
    bool cover = c[0] == 3; int pquota = 0; // the model itself must not be infeasible
    auto vars = modelPrizeCollectingTSP(scip, G, none, cost, prize, cover ? quota : pquota, r, name, false, 0.01, false, -1, -1, true);
    NodeEventhdlr* counter = new NodeEventhdlr(scip); SCIPincludeObjEventhdlr(scip, counter, TRUE);
    Probe* probe = NULL;
    probe = new Probe(scip, [&](SCIP* scip) {
        SCIP_CONSHDLR* h = SCIPfindConshdlr(scip, SEC_CONSHDLR_NAME.c_str());
        std::map<std::pair<int, int>, SCIP_VAR*> x; for (auto& [e, var] : vars) { int u = boost::source(e, G), v = boost::target(e, G); x[{std::min(u, v), std::max(u, v)}] = var; }
        SCIP_SOL* sol; SCIPcreateSol(scip, &sol, NULL);
        V val(es.size(), 0), deg(g.n, 0);
        auto check = [&]() {
            o.states++;
            std::map<std::pair<int, int>, double> pt; std::string d;
            for (size_t k = 0; k < es.size(); k++) { double w = (double)val[k] / den; SCIPsetSolVal(scip, sol, x[es[k]], w); if (val[k]) { pt[es[k]] = w; d += " x" + std::to_string(es[k].first) + std::to_string(es[k].second) + "=" + std::to_string(val[k]) + "/" + std::to_string(den); } }
            for (int v = 0; v < g.n; v++) { double w = deg[v] / (2.0 * den); SCIPsetSolVal(scip, sol, x[{v, v}], w); if (w) pt[{v, v}] = w; }
            counter->addCurrentNode(scip);
            REC.clear(); COVERS.clear(); MADE.clear(); RECORD = true; MAIN = scip; DROP = true; SCIP_RESULT res = SCIP_DIDNOTFIND;
            try {
                if (cover) separateCycleCover(scip, h, sol, &res);
                else PCTSPseparateSubtour(scip, h, NULL, 0, 0, sol, &res, mode & 1, mode >> 1 & 1);
            } catch (std::exception& e) { o.fail("exception", "separating" + d + " threw " + e.what()); }
            RECORD = false; DROP = false;
            o.transitions += REC.size();
            int nd = counter->getNodeStats(scip).num_sec_disjoint_tour, nm = counter->getNodeStats(scip).num_sec_maxflow_mincut;
            if (nd + nm != (cover ? 0 : MADE[SEC]) || (nd && !(mode & 1)) || (nm && !(mode & 2))) o.fail("node-count", "at" + d + " " + std::to_string(MADE[SEC]) + " subtour constraints were generated but " + std::to_string(nd) + " disjoint tour and " + std::to_string(nm) + " max flow ones are counted");
            bool stranger = false; for (auto& l : REC) stranger |= l.stranger; if (stranger) o.fail("stranger", "a row has a variable that is not of the graph");
            if ((res == SCIP_SEPARATED) != !REC.empty() || (res != SCIP_SEPARATED && res != SCIP_DIDNOTFIND)) o.fail("result", "at" + d + " the result is " + std::to_string(res) + " with " + std::to_string(REC.size()) + " rows added");
            for (auto& l : REC) {
                if (holds(l, pt)) o.fail("not-violated", "at" + d + " a row was added that the point satisfies: " + lstr(l));
                for (size_t k = 0; k < cycles.size(); k++) if ((!cover || pf[k]) && !holds(l, inc[k])) o.fail("invalid", "at" + d + " the row " + lstr(l) + " cuts off the tour " + tstr(cycles[k]));
            }
            // components of the support
            V comp(g.n); for (int v = 0; v < g.n; v++) comp[v] = v;
            for (bool ch = true; ch;) { ch = false; for (size_t k = 0; k < es.size(); k++) if (val[k]) { int a = std::min(comp[es[k].first], comp[es[k].second]); if (comp[es[k].first] != a || comp[es[k].second] != a) { comp[es[k].first] = comp[es[k].second] = a; ch = true; } } }
            if (cover) {
                int p = 0; for (int v = 0; v < g.n; v++) if (comp[v] == comp[root]) p += g.prize[v];
                if (isCycleCoverViolated(scip, sol, dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip))) != (p < quota)) o.fail("cover-test", "at" + d + " the prize of the root's component is " + std::to_string(p) + " of " + std::to_string(quota) + " but the violation test says otherwise");
                if ((p < quota) != (REC.size() == 1)) o.fail("cover-count", "at" + d + " the prize of the root's component is " + std::to_string(p) + " of " + std::to_string(quota) + " but " + std::to_string(REC.size()) + " covers were added");
                return;
            }
            if (mode & 1) {
                std::set<int> need; for (int v = 0; v < g.n; v++) if (comp[v] != comp[root] && deg[v] > 0) need.insert(comp[v]);
                for (int k : need) { bool cut = false; for (auto& l : REC) { bool in = true; for (auto& [kk, cf] : l.coef) in &= comp[kk.first] == k && comp[kk.second] == k; cut |= in; } if (!cut) o.fail("subtour-kept", "at" + d + " the subtour on the component of vertex " + std::to_string(k) + " is not cut off"); }
            }
            if (mode & 2) {
                // a vertex of the root's component that is surely visited and that less than two paths' worth of flow can enter must be cut off
                for (int v = 0; v < g.n; v++) if (v != root && comp[v] == comp[root] && deg[v] == 2 * den) {
                    int best = 2 * den; unsigned arg = 0, flow_set = 0, flow = 0;
                    { // the smallest cut, by augmenting paths
                        std::map<std::pair<int, int>, int> left; for (size_t k = 0; k < es.size(); k++) if (val[k]) { left[{es[k].first, es[k].second}] = left[{es[k].second, es[k].first}] = val[k]; }
                        for (;;) {
                            V from(g.n, -1), q{root}; from[root] = root; for (size_t h = 0; h < q.size(); h++) for (int w = 0; w < g.n; w++) if (from[w] < 0) { auto it = left.find({q[h], w}); if (it != left.end() && it->second > 0) { from[w] = q[h]; q.push_back(w); } }
                            if (from[v] < 0) { for (int w = 0; w < g.n; w++) if (from[w] < 0) flow_set |= 1u << w; break; }
                            int f = 1 << 20; for (int w = v; w != root; w = from[w]) f = std::min(f, left[{from[w], w}]);
                            for (int w = v; w != root; w = from[w]) { left[{from[w], w}] -= f; left[{w, from[w]}] += f; } flow += f;
                        }
                    }
                    if (large) { best = flow; if (best < 2 * den) arg = flow_set; }
                    else for (unsigned S = 1; S < 1u << g.n; S++) if (!(S >> root & 1) && (S >> v & 1)) {
                        int cut = 0; for (size_t k = 0; k < es.size(); k++) if ((S >> es[k].first & 1) != (S >> es[k].second & 1)) cut += val[k];
                        if (cut < best) { best = cut; arg = S; }
                    }
                    if (!large && best != (int)flow) { fprintf(stderr, "the two references disagree\n"); abort(); }
                    if (!arg) continue;
                    o.traces++;
                    bool cut = false;
                    for (auto& l : REC) {
                        bool on = false; for (auto& [k, cf] : l.coef) on |= k.first != k.second && (k.first == v || k.second == v);
                        auto it = l.coef.find({v, v}); cut |= it == l.coef.end() ? on : it->second > 0.5;
                    }
                    if (!cut) o.fail("cut-missed", "at" + d + " only " + std::to_string(best) + "/" + std::to_string(den) + " of flow reaches vertex " + std::to_string(v) + " (set " + std::to_string(arg) + ") but no inequality for it is separated");
                }
            }
        };
        std::function<void(size_t)> rec = [&](size_t k) {
            if (!o.viol.empty()) return;
            if (k == es.size()) { if (deg[root] == 2 * den) check(); return; }
            auto [u, v] = es[k];
            for (int w = 0; w <= den; w++) { if (deg[u] + w > 2 * den || deg[v] + w > 2 * den) break; val[k] = w; deg[u] += w; deg[v] += w; rec(k + 1); deg[u] -= w; deg[v] -= w; val[k] = 0; }
        };
        if (!large) rec(0);
        else { // every combination of two (three) of the chosen pieces: a cycle through the root, perhaps with a cycle that avoids it
            std::vector<std::vector<int>> pieces; std::vector<std::set<std::pair<int, int>>> own; std::vector<std::set<int>> at;
            auto edges_of = [&](const V& t) { std::set<std::pair<int, int>> s; for (size_t k = 0; k < t.size(); k++) { int a = t[k], b = t[(k + 1) % t.size()]; s.insert({std::min(a, b), std::max(a, b)}); } return s; };
            std::vector<V> other; for (int r = 0; r < g.n; r++) if (r != root) all_cycles(g, r, [&](const V& t) { if (*std::min_element(t.begin(), t.end()) == r) if (std::find(t.begin(), t.end(), root) == t.end()) other.push_back(t); });
            auto piece = [&](const V& t, const V* d) { auto s = edges_of(t); if (d) { auto s2 = edges_of(*d); s.insert(s2.begin(), s2.end()); } V x; for (auto& e : es) x.push_back(s.count(e)); pieces.push_back(x); };
            size_t every = cycles.size() / 12 + 1;
            for (size_t a = salt % every; a < cycles.size(); a += every) {
                piece(cycles[a], NULL); std::set<int> in(cycles[a].begin(), cycles[a].end()); int k = 0;
                for (auto& d : other) { bool apart = true; for (int v : d) apart &= !in.count(v); if (apart && (k++ % 3 == (int)(a % 3) || k < 3) && k < 12) piece(cycles[a], &d); }
            }
            size_t turn = salt;
            auto put = [&](const V& weight) { // the sum of pieces, each with its share
                for (size_t k = 0; k < es.size(); k++) { val[k] = 0; for (size_t w = 0; w + 1 < weight.size(); w += 2) val[k] += weight[w + 1] * pieces[weight[w]][k]; }
                std::fill(deg.begin(), deg.end(), 0); for (size_t k = 0; k < es.size(); k++) { deg[es[k].first] += val[k]; deg[es[k].second] += val[k]; }
                if (!o.viol.empty()) return;
                check();
                // and the same with an edge hanging off a vertex that is half on the tour
                int hung = 0; for (size_t h = 0; h < es.size() && hung < 2 && o.viol.empty(); h++) {
                    size_t k = (h + turn) % es.size(); auto [u, v] = es[k]; if (deg[u] > deg[v]) std::swap(u, v);
                    if (deg[u] || !deg[v] || deg[v] > den || u == root || v == root) continue;
                    hung++; val[k] = den; deg[u] += den; deg[v] += den; check(); val[k] = 0; deg[u] -= den; deg[v] -= den;
                }
                turn += 5;
            };
            size_t P = pieces.size();
            for (size_t a = 0; a < P; a++) { put({(int)a, den}); for (size_t b = 0; b < a; b++) { for (int w = 1; w < den; w++) put({(int)a, w, (int)b, den - w}); if (den >= 3 && (a + b) % 4 == 0) { size_t e = (a * 7 + b) % P; put({(int)a, 1, (int)b, 1, (int)e, den - 2}); } } }
        }
        SCIPfreeSol(scip, &sol);
    });
    SCIPincludeObjEventhdlr(scip, probe, TRUE);
    SCIPsolve(scip);
    o.nontrivial = probe->fired && o.transitions > 0; o.outcome = vh::mix(o.states, o.transitions);
    SCIPfree(&scip);
}

// ---------------------------------------------------------------- many covers
// case 7: n root pattern unit bound...   separate cost covers for one bound after the other
static int far_of(int v, int n, int pattern) { return pattern == 0 ? v : pattern == 1 ? n - v : pattern == 2 ? 1000 : (int)((v * 2654435761u >> 12) % (unsigned)n); }
static void run_many(const Case& c, Out& o) {
    int n = c[1], root = c[2], pattern = c[3], unit = c[4]; PCTSPgraph G(n); auto cost = boost::get(edge_weight, G); auto prize = boost::get(vertex_distance, G);
    for (int v = 0; v < n; v++) { prize[v] = 1; auto e = boost::add_edge(v, (v + 1) % n, G).first; cost[e] = 1; }
    SCIP* scip = NULL; SCIPcreate(&scip); quiet(scip); std::vector<PCTSPedge> none; PCTSPvertex r = root; int q = 3; std::string name = "p";
    auto vars = modelPrizeCollectingTSP(scip, G, none, cost, prize, q, r, name, false, 0.01, false, -1, -1, true);
    std::vector<int> dist(n); for (int v = 0; v < n; v++) dist[v] = far_of(v, n, pattern) * unit;
    for (size_t i = 5; i < c.size(); i++) {
        int bound = c[i]; REC.clear(); COVERS.clear(); RECORD = true; MAIN = scip; unsigned k = 0;
        try { k = separateThenAddCostCoverInequalities(scip, dist, bound); } catch (std::exception& e) { o.fail("not-covered", std::string("separating covers threw ") + e.what()); }
        RECORD = false; o.states++; o.transitions += REC.size(); int want = 0;
        std::map<int, int> by; for (auto& l : REC) if (l.kind == COVER) for (auto& [p, x] : l.coef) if (p.first == p.second && p.first != root) by[p.first]++;
        for (int v = 0; v < n && o.viol.empty(); v++) if (v != root) {
            std::map<std::pair<int, int>, double> both{{{root, root}, 1}, {{v, v}, 1}}; bool covered = false;
            if (by.count(v)) for (auto& l : REC) if (l.kind == COVER && l.coef.count({v, v})) covered |= !holds(l, both);
            bool far = dist[v] > bound; want += far;
            if (far && !covered) o.fail("not-covered", "no cover forbids vertex " + std::to_string(v) + " at distance " + std::to_string(dist[v]) + " for the bound " + std::to_string(bound));
            if (dist[v] < bound && covered) o.fail("cost-cover-invalid", "a cover forbids vertex " + std::to_string(v) + " at distance " + std::to_string(dist[v]) + " for the bound " + std::to_string(bound));
        }
        int ncov = 0; for (auto& l : REC) ncov += l.kind == COVER;
        if (o.viol.empty() && (int)k != ncov) o.fail("stat-cost-cover", std::to_string(ncov) + " covers were added but " + std::to_string(k) + " are counted");
        o.nontrivial |= want > 0; o.outcome = vh::mix(o.outcome, want);
    }
    REC.clear(); COVERS.clear(); SCIPfree(&scip); o.traces = 1;
}

// ---------------------------------------------------------------- branching settings
// group 4: 4 plugins(0 simple, 1 default) bump depth strategy...   bump: a rule whose priority is raised first
static void run_branch(const Case& c, Out& o) {
    SCIP* scip = NULL; SCIPcreate(&scip); quiet(scip);
    if (c[1]) SCIPincludeDefaultPlugins(scip); else includeBranchRules(scip);
    int n = SCIPgetNBranchrules(scip); auto rules = [&] { return std::vector<SCIP_BRANCHRULE*>(SCIPgetBranchrules(scip), SCIPgetBranchrules(scip) + SCIPgetNBranchrules(scip)); };
    if (c[2] >= 0) SCIPsetBranchrulePriority(scip, rules()[c[2] % n], c[3]);
    typedef std::map<std::string, std::vector<double>> M;
    auto snap = [&] { M m; for (auto b : rules()) m[SCIPbranchruleGetName(b)] = {(double)SCIPbranchruleGetPriority(b), (double)SCIPbranchruleGetMaxdepth(b), SCIPbranchruleGetMaxbounddist(b)}; return m; };
    for (size_t i = 4; i + 1 < c.size(); i += 2) {
        M before = snap(); unsigned st = c[i]; int depth = c[i + 1];
        if (depth == -2) setBranchingStrategy(scip, st); else setBranchingStrategy(scip, st, depth);
        int d = depth == -2 ? -1 : depth;
        M after = snap(); o.states++; o.transitions++;
        auto top = [&](const std::string& name, std::set<std::string> below) { for (auto& [k, v] : after) if (k != name && !below.count(k) && v[0] >= after[name][0]) o.fail("priority", "strategy " + std::to_string(st) + ": rule " + k + " (" + std::to_string((int)v[0]) + ") is not below " + name + " (" + std::to_string((int)after[name][0]) + ")"); };
        if (st == 0) top("relpscost", {});
        else if (st == 1 || st == 2) { top("fullstrong", {}); top("relpscost", {"fullstrong"}); }
        else if (before != after) o.fail("changed", "strategy " + std::to_string(st) + " changed the settings of the branching rules");
        for (auto& [k, v] : after) {
            if (st == 2 && k == "fullstrong") { if (v[1] != d) o.fail("maxdepth", "strong branching has maximum depth " + std::to_string((int)v[1]) + " instead of " + std::to_string(d)); }
            else if (v[1] != before[k][1]) o.fail("maxdepth-changed", "the maximum depth of " + k + " changed");
            if (v[2] != before[k][2]) o.fail("bounddist-changed", "the bound distance of " + k + " changed");
            o.outcome = vh::mix(o.outcome, (uint64_t)(v[0] * 131 + v[1]));
        }
    }
    o.nontrivial = true; o.traces = 1; SCIPfree(&scip);
}

static std::vector<V> configs() {
    std::vector<V> r; // bs depth ccd ccs cyc dt gap mf tail freq simple
    for (int simple : {1, 0}) for (int bs : {0, 1, 2, 3, 4}) for (int depth : {-1, 0, 2}) for (int ccd : {0, 1}) for (int ccs : {0, 1}) for (int cyc : {0, 1})
        for (int sep : {3, 2, 1, 0}) for (int gap : {1, 0, 2, 3}) for (int tail : {-1, 1, 2, 4}) for (int freq : {1, 2, 0, -1})
            r.push_back({bs, depth, ccd, ccs, cyc, sep & 1, gap, sep >> 1, tail, freq, simple});
    return r;
}
struct Fam { int n; std::vector<std::pair<int, int>> e; V cost, prize; int scale; };
static const std::vector<V> PRIZES = {{1, 1, 1, 1, 1, 1, 1}, {0, 2, 1, 3, 0, 1, 2}, {2, 1, 0, 0, 4, 1, 3}};
static int wcost(int pat, int u, int v, int n) {
    switch (pat) {
        case 0: return 1;
        case 1: return 1 + (u * 3 + v * 5) % 7;
        case 2: return (u * v + u + v) % 4;              // zero costs
        case 3: return 6 + 2 * ((u + 2 * v) % 5);        // every cost is even: SCIP scales the objective
        case 4: return (u < (n + 1) / 2) == (v < (n + 1) / 2) ? 1 : 9;  // two cheap clusters: subtours
        case 5: return 10 + ((u * 7 + v * 11) % 13) * 3;
        case 6: return (u + v) % 2 ? 2 : 5;
        default: return 1 + (u * u + 3 * v * v + u * v) % 11;
    }
}
static const V HARD = { // masks of graphs with six vertices in the order 01 02 03 04 05 12 13 14 15 23 24 25 34 35 45
    0x7fff, 0x6f7b, 0x3bdd, 0x5e6d, 0x7a9e, 0x0f0f, 0x719d, 0x6b5a };
struct Mip : vh::Harness {
    int group; explicit Mip(int g) : group(g) {}
    int hang_seconds() override { return 90; }
    void worker_init() override { SCRATCH = TOP + "/" + std::to_string(getpid()); mkdir(SCRATCH.c_str(), 0700); if (!freopen("/dev/null", "w", stderr)) {} boost::log::core::get()->set_logging_enabled(false); }
    int nshards(bool th) override { return th ? 512 : 64; }
    static Case inst(int n, unsigned mask, int root, int quota, int rev, int heur, const V& cfg, int api, int pat, const V& prize) {
        Case c{0, n, root, quota, rev, heur}; c.insert(c.end(), cfg.begin(), cfg.end()); c.push_back(api);
        for (int v = 0; v < n; v++) c.push_back(prize[v]);
        int b = 0; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, b++) c.push_back(mask >> b & 1 ? wcost(pat, u, v, n) : -1);
        return c;
    }
    void gen_big(bool th, const std::vector<V>& cf, const std::function<void(const Case&)>& put) {
        size_t turn = 0;
        for (int topo = 0; topo < BIG; topo++) for (int pat = 0; pat < 6; pat++) for (int salt = 0; salt < (th ? 6 : 1); salt++) for (int pp = 0; pp < 4; pp++) for (int qi = 0; qi < (th ? 6 : 5); qi++) for (int r = 0; r < (th ? 3 : 1); r++) {
            turn++; int sa = th ? salt : (pat + pp) % 3, n = big_size(topo, sa), total = 0; size_t x = vh::mix(turn, 17) >> 9;
            V pr(n); for (int v = 0; v < n; v++) { unsigned h = vh::mix(vh::mix(v, 99), sa) >> 20 & 0xfffff; pr[v] = pp == 0 ? 1 : pp == 1 ? h % 8 : pp == 2 ? (h % 3 ? 0 : 5 + h % 4) : 1 + h % 1000; total += pr[v]; }
            int which = th ? qi : (turn + qi) % 6, q = which == 0 ? total * 2 / 5 : which == 1 ? total * 3 / 5 : which == 2 ? total * 4 / 5 : which == 3 ? total : which == 4 ? total - 1 : pr[0] + 1;
            const V& cfg = cf[x % (turn % 12 ? cf.size() / 2 : cf.size())];
            Case c{0, n, (int)((x >> 20) % n), q, (int)((x >> 8) % 4), (int)((x >> 30) % 6) - 2}; c.insert(c.end(), cfg.begin(), cfg.end()); c.push_back(x % 17 == 0 ? 1 : 0); c.insert(c.end(), pr.begin(), pr.end());
            for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) c.push_back(big_edge(n, topo, sa, u, v) ? big_cost(n, pat, sa, u, v) : -1);
            put(c);
        }
    }
    void gen_model(bool th, const std::function<void(const Case&)>& put) {
        for (int n = 3; n <= (th ? 6 : 5); n++) {
            int m = n * (n - 1) / 2;
            for (unsigned mask = 0; mask < 1u << m; mask++) {
                if (n == 5 && !th && (mask * 2654435761u >> 19) % 4) continue;
                if (n == 6 && (mask * 2654435761u >> 16) % 64) continue;
                for (size_t pi = 0; pi < PRIZES.size(); pi++) {
                    const V& pr = PRIZES[pi]; int total = 0; for (int v = 0; v < n; v++) total += pr[v];
                    for (int q = n < 5 ? -1 : (int)(mask % 2); q <= total + 1; q += n < 5 ? 1 : 2 + n % 2) for (int root = 0; root < n; root++) {
                        if (n >= 5 && root != (int)((mask + q) % n)) continue;
                        for (int api = 0; api < 2; api++) {
                            if (n >= 5 && api != (int)((mask >> 1) & 1)) continue;
                            bool last = false; int bb = 0; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, bb++) last |= v == n - 1 && (mask >> bb & 1);
                            if (api == 1 && !last) continue;
                            unsigned loops = (mask * 2654435761u >> 20) % 3 ? 0 : (mask * 40503u + (q + 2) * 977u + pi * 31u + root) % (1u << n); // some graphs bring loops
                            Case c{1, n, root, q, ((int)(mask + q) & 1) | (int)loops << 1, (int)((mask + q) % 4) - 2, (mask % 16) ? 1 : 0, api};
                            for (int v = 0; v < n; v++) c.push_back(pr[v]);
                            int b = 0; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, b++) c.push_back(mask >> b & 1 ? wcost((mask + pi) % 8, u, v, n) : -1);
                            put(c);
                        }
                    }
                }
            }
        }
        for (int topo = 0; topo < BIG; topo++) for (int salt = 0; salt < (th ? 6 : 3); salt++) for (int pat = 0; pat < 6; pat++) for (int pp = 0; pp < 3; pp++) for (int q = 0; q < 5; q++) {
            int n = big_size(topo, salt), turn = topo + salt * 3 + pat * 7 + pp * 11 + q * 5, total = 0; if (!th && turn % 3) continue;
            V pr; for (int v = 0; v < n; v++) { pr.push_back(pp == 0 ? 1 : pp == 1 ? (v * 7 + salt) % 5 : v % 4 ? 0 : 1000 + v); total += pr[v]; }
            bool last = false; for (int u = 0; u < n - 1; u++) last |= big_edge(n, topo, salt, u, n - 1);
            Case c{1, n, turn % n, total * q / 4 + (q == 4 ? turn / 2 % 2 : 0), turn / 3 % 2 | (turn % 5 ? 0 : (turn * 40503) % (1 << n)) << 1, turn / 3 % 6 - 2, turn % 15 ? 1 : 0, last ? turn / 6 % 2 : 0};
            c.insert(c.end(), pr.begin(), pr.end()); for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) c.push_back(big_edge(n, topo, salt, u, v) ? big_cost(n, pat, salt, u, v) : -1);
            put(c);
        }
    }
    void gen_points(bool th, const std::function<void(const Case&)>& put) {
        int order = -1;
        auto one = [&](int n, unsigned mask, int root, int q, int den, int mode, const V& pr) {
            Case c{group, n, root, q, order < 0 ? (int)(mask & 1) : order, den, mode}; for (int v = 0; v < n; v++) c.push_back(pr[v]); c.push_back(mask); put(c);
        };
        auto modes = [&](int n, unsigned mask, int root, int den, bool all) {
            if (group == 2) { for (int mode = 1; mode <= 3; mode++) if (all || mode == 3) one(n, mask, root, 0, den, mode, PRIZES[0]); return; }
            for (auto& pr : PRIZES) { int total = 0; for (int v = 0; v < n; v++) total += pr[v]; for (int q = 1; q <= total + 1; q += all ? 1 : 3) one(n, mask, root, q, den, 0, pr); }
        };
        for (int n = 3; n <= 5; n++) for (unsigned mask = 1; mask < 1u << n * (n - 1) / 2; mask++) {
            if (n == 5 && !th && group == 3 && (mask * 2654435761u >> 19) % 8) continue;
            int roots = n < 5 || th ? n : 1;
            for (int root = 0; root < roots; root++) modes(n, mask, n < 5 || th ? root : (int)(mask % n), 2, n < 5 || th);
        }
        for (int den : {3, 4}) for (unsigned mask : {63u}) for (int root = 0; root < 4; root++) modes(4, mask, root, den, true);
        if (group == 2) {
            // two triangles that may meet, the complete graph on five vertices with finer values, and sparse graphs with six vertices
            modes(5, 0x3ff, 0, 3, th); modes(5, 0x3ff, 4, 2, true);
            // values that are not exact after the capacities are cut off to integers: fifths, on K4 and on a prism with two edges at some vertices
            for (int root = 0; root < 4; root++) modes(4, 63, root, 5, th);
            order = 0;
            auto bits = [](int n, std::vector<std::pair<int, int>> es) { unsigned m = 0; int b = 0; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, b++) for (auto& e : es) if (e == std::make_pair(u, v)) m |= 1u << b; return m; };
            unsigned prism = bits(6, {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 4}, {3, 4}, {3, 5}, {4, 5}}), ladder = bits(5, {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 4}, {3, 4}});
            for (; order < (th ? 12 : 3); order++) for (int root = 0; root < (th ? 6 : 1); root++) for (int den : {3, 5}) modes(6, prism, root, den, th);
            for (order = 0; order < (th ? 12 : 3); order++) for (int root = 0; root < (th ? 5 : 2); root++) for (int den : {3, 5}) modes(5, ladder, root, den, th);
            if (th) for (int root = 0; root < 2; root++) for (int den : {6, 7}) modes(6, prism, root, den, true);
            order = -1;
            for (size_t h = 0; h < HARD.size(); h++) modes(6, HARD[h] & (th ? 0x7fff : 0x7fff), h % 6, th && __builtin_popcount(HARD[h]) < 11 ? 3 : 2, false);
            if (th) for (unsigned mask = 0; mask < 1u << 15; mask += 37) if (__builtin_popcount(mask) >= 7 && __builtin_popcount(mask) <= 12) modes(6, mask, mask % 6, 2, true);
            if (th) modes(6, 0x7fff, 2, 2, false);
        }
        for (int topo = 0; topo < BIG; topo++) for (int salt = 0; salt < (th ? 6 : 2); salt++) for (int at = 0; at < (th ? 4 : 2); at++) for (int den : {2, 3, 5}) {
            int n = big_size(topo, salt), root = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : (salt * 5 + 2) % n;
            if (!th && (topo + salt + at + den) % 2) continue;
            if (group == 2) { Case c{group, n, root, 0, (topo + salt + at) % 4, den, 1 + (topo + den + at) % 3}; c.insert(c.end(), n, 1); c.push_back(topo); c.push_back(salt); put(c); if (c[6] != 3) { c[6] = 3; put(c); } }
            else for (int pp = 0; pp < 2; pp++) for (int q = 0; q < 4; q++) { V pr; int total = 0; for (int v = 0; v < n; v++) { pr.push_back(pp ? (v * 7 + salt) % 5 : 1); total += pr[v]; } Case c{group, n, root, q == 3 ? total : 1 + (total - 1) * (q + 1) / 4, (topo + salt + at) % 4, den, 0}; c.insert(c.end(), pr.begin(), pr.end()); c.push_back(topo); c.push_back(salt); put(c); }
        }
    }
    void gen_branch(bool th, const std::function<void(const Case&)>& put) {
        for (int plug : {0, 1}) for (int bump = -1; bump < (plug ? 9 : 3); bump++) for (int pr : {2999, 3000, 5000, 200000, -20000}) {
            if (bump < 0 && pr != 2999) continue;
            for (int a = 0; a < 7; a++) for (int da : {-2, -1, 0, 1, 7}) {
                put(Case{4, plug, bump, pr, a, da});
                for (int b = 0; b < 6; b++) for (int db : {-2, 0, 3}) if (th || (!plug && pr != 3000) || ((a + b + da + bump) % 11 == 0)) put(Case{4, plug, bump, pr, a, da, b, db});
            }
        }
    }
    void gen(int shard, bool th, const std::function<bool(const Case&)>& emit) override {
        auto cf = configs(); size_t N = cf.size(), k = 0; int ns = nshards(th); bool go = true;
        auto put = [&](const Case& c) { if (go && (int)(k % ns) == shard) go = emit(c); k++; };
        if (group == 1) return gen_model(th, put);
        if (group == 2 || group == 3) return gen_points(th, put);
        if (group == 4) return gen_branch(th, put);
        if (group == 5) { put(inst(6, HARD[0], 0, 6, 0, -1, {0, -1, 0, 0, 0, 1, 0, 1, -1, 1, 1}, 0, 4, PRIZES[0])); return; }
        if (group == 6) { // every option in turn on graphs that need cuts and branching
            size_t turn = 0; const int combos = 5 * 3 * 4 * 5 * 3;
            for (size_t hi = 0; hi < HARD.size(); hi++) for (int x = (int)hi; x < combos; x += th ? 1 : 3) {
                int y = x, bs = y % 5, depth = (y /= 5) % 3 * 2 - 1, gap = (y /= 3) % 4, tail = (y /= 4) % 5, freq = (y /= 5) % 3; turn++;
                V cfg{bs, depth, (int)(turn & 1), (int)(turn >> 1 & 1), (int)(turn % 5 == 0), 1, gap, (int)(turn % 3 > 0), tail == 0 ? -1 : tail + 1, freq == 2 ? 10 : freq, (int)(turn % 40 > 0)};
                int pi = x % 3; const V& pr = PRIZES[pi]; int total = 0; for (int v = 0; v < 6; v++) total += pr[v];
                put(inst(6, HARD[hi], x % 6, total - (int)(turn % 4), turn / 2 % 2, (int)(turn % 3) - 1, cfg, turn % 31 == 0 ? 3 : 0, (int)V{4, 5, 7, 1, 3}[turn % 5], pr));
            }
            gen_big(th, cf, put);
            return;
        }
        // every graph with three or four vertices; five vertices in thorough, a stride of them in quick
        for (int n : {3, 4, 5}) {
            int m = n * (n - 1) / 2;
            for (unsigned mask = 0; mask < 1u << m && go; mask++) {
                if (n == 5 && !th && (mask * 2654435761u >> 20) % 2) continue;
                for (int pat = 0; pat < 8; pat++) {
                    if (n == 5 && !th && pat % 2 != (int)((mask >> 3) % 2)) continue;
                    for (size_t pi = 0; pi < PRIZES.size(); pi++) {
                        const V& pr = PRIZES[pi]; int total = 0; for (int v = 0; v < n; v++) total += pr[v];
                        for (int q = 0; q <= total + 1; q++) {
                            if (n >= 4 && !th && (q + mask + pat) % (n == 4 ? 2 : 4)) continue;
                            size_t x = mask * 7919u + pat * 104729u + q * 1299709u + pi * 15485863u;
                            for (int r = 0; r < (n == 4 && th ? 6 : 1); r++) {
                                x = x * 6364136223846793005ull + 1442695040888963407ull;
                                size_t ci = (x >> 33) % N; if (!th) ci = (x >> 33) % (ci % 16 ? N / 2 : N); // the default plug-ins are slow to load
                                int api = (x >> 20) % 8; api = api == 6 ? 1 : api == 7 ? 2 : x % 11 == 0 ? 3 : 0;
                                if (api == 2) { bool last = false; int bb = 0; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++, bb++) last |= v == n - 1 && (mask >> bb & 1); if (!last) api = 1; }
                                put(inst(n, mask, (x >> 25) % n, q, (x >> 24) & 1, (int)((x >> 28) % 5) - 2, cf[ci], api, pat, pr));
                            }
                        }
                    }
                }
            }
        }
        // graphs with six and seven vertices that make the solver cut and branch, under a stride of all configurations
        for (size_t hi = 0; hi < HARD.size() && go; hi++) for (int pat : {1, 3, 4, 5, 7}) for (int pi : {0, 1, 2}) {
            const V& pr = PRIZES[pi]; int total = 0; for (int v = 0; v < 6; v++) total += pr[v];
            size_t step = th ? 31 : 499;
            for (size_t ci = (hi * 97 + pat * 31 + pi * 13) % step; ci < N && go; ci += step) {
                int q = (int)((ci / step) % (total + 1));
                put(inst(6, HARD[hi], (ci / step / 3) % 6, q, ci & 1, (int)(ci / step % 4) - 2, cf[ci], 0, pat, pr));
            }
        }
        gen_big(th, cf, put);
        for (int n : {20, 99, 100, 101, 102, 130, 257, 300, 520}) for (int root : {0, n / 2, n - 1}) for (int pattern = 0; pattern < 4; pattern++) for (int unit : {1, 7, 1000003}) for (int turn = 0; turn < (th ? 6 : 2); turn++) {
            if (!th && (n + root + pattern + unit + turn) % 3) continue;
            Case c{7, n, root, pattern, unit}; for (int b : turn % 3 == 0 ? V{n / 2, 10} : turn % 3 == 1 ? V{n - 2, 99, 3} : V{0, n}) c.push_back(b * unit - (turn > 2)); put(c);
        }
    }
    void run(const Case& c, Out& o) override { switch (c[0]) { case 0: return run_bac(c, o); case 1: return run_model(c, o); case 2: case 3: return run_points(c, o); case 7: return run_many(c, o); default: return run_branch(c, o); } }
    std::string describe(const Case& c) override {
        if (c[0] == 0) return Bac::decode(c).str();
        char t[300];
        if (c[0] == 1) {
            SmallGraph g; g.init(c[1]); int i = 8; for (int v = 0; v < g.n; v++) g.prize[v] = c[i++];
            for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++) { int w = c[i++]; if (w >= 0) g.set(u, v, w); }
            snprintf(t, sizeof t, " root=%d quota=%d reversed=%d heuristic=%d simple=%d overload=%d", c[2], c[3], c[4], c[5], c[6], c[7]); return g.str() + t;
        }
        if (c[0] == 7) { snprintf(t, sizeof t, "%d vertices, root %d, distances in pattern %d times %d, bounds", c[1], c[2], c[3], c[4]); std::string b = t; for (size_t i = 5; i < c.size(); i++) b += " " + std::to_string(c[i]); return b; }
        if (c[0] == 4) { snprintf(t, sizeof t, "%s plug-ins, rule %d at priority %d,", c[1] ? "default" : "own", c[2], c[3]); std::string s = t; for (size_t i = 4; i + 1 < c.size(); i += 2) s += " strategy " + std::to_string(c[i]) + " depth " + std::to_string(c[i + 1]); return s; }
        SmallGraph g; g.init(c[1]); for (int v = 0; v < g.n; v++) g.prize[v] = c[7 + v];
        unsigned mask = c[7 + g.n]; int bit = 0; for (int u = 0; u < g.n; u++) for (int v = u + 1; v < g.n; v++, bit++) if (g.n >= 8 ? big_edge(g.n, mask, c[8 + g.n], u, v) : mask >> bit & 1) g.set(u, v, 1 + u + v);
        snprintf(t, sizeof t, " root=%d quota=%d order=%d values in 1/%d, %s", c[2], c[3], c[4], c[5], c[0] == 3 ? "cycle cover" : c[6] == 1 ? "disjoint tours" : c[6] == 2 ? "max flow" : "disjoint tours and max flow"); return g.str() + t;
    }
    ~Mip() override {}
};
int main(int argc, char** argv) {
    int group = 0; std::vector<char*> rest{argv[0]};
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "bac") group = 0; else if (a == "model") group = 1; else if (a == "sec") group = 2; else if (a == "cover") group = 3; else if (a == "branch") group = 4; else if (a == "reset") group = 5; else if (a == "options") group = 6; else rest.push_back(argv[i]); }
    char t[] = "/tmp/mipXXXXXX"; TOP = mkdtemp(t);
    REPORT_RESET = group == 5;
    Mip h(group); int rc = vh::drive(h, rest.size(), rest.data());
    std::error_code ec; std::filesystem::remove_all(TOP, ec);
    return rc;
}
