// The C++ heuristics called directly on vertices 0..n-1 (no renaming, no Python wrappers): the
// reference for what the Python functions must return.
#include "pctsp/graph.hh"
#include "pctsp/heuristic.hh"
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
namespace py = pybind11;
typedef std::vector<std::pair<PCTSPvertex, PCTSPvertex>> Edges;

std::vector<PCTSPvertex> direct(int kind, int n, Edges& edges, std::vector<int>& costs, std::vector<int>& prizes, std::list<PCTSPvertex>& tour,
                                PCTSPvertex& root, PrizeNumberType& quota, int step, int depth, bool sp) {
    PCTSPgraph g(n);
    EdgeCostMap cost = boost::get(edge_weight, g);
    VertexPrizeMap prize = boost::get(vertex_distance, g);
    for (size_t i = 0; i < edges.size(); i++) { auto e = boost::add_edge(edges[i].first, edges[i].second, g); cost[e.first] = costs[i]; }
    for (int v = 0; v < n; v++) prize[v] = prizes[v];
    std::list<PCTSPvertex> t = tour;
    switch (kind) {
        case 0: t = collapse(g, t, cost, prize, quota, root, sp); break;
        case 1: extensionUnitaryGain(g, t, cost, prize); break;
        case 2: extensionUntilPrizeFeasible(g, t, cost, prize, quota); break;
        case 3: pathExtension(g, t, cost, prize, root, step, depth); break;
        case 4: pathExtensionUntilPrizeFeasible(g, t, cost, prize, root, quota, step, depth); break;
        case 5: t = pathExtensionCollapse(g, t, cost, prize, quota, root, sp, depth, step); break;
        case 6: extensionUnitaryGain(g, t, cost, prize); t = collapse(g, t, cost, prize, quota, root, sp); break;
    }
    return std::vector<PCTSPvertex>(t.begin(), t.end());
}
PYBIND11_MODULE(refheur, m) { m.def("direct", &direct, "Run one heuristic directly."); }
