"""Synthetic dataset files in the layout the program expects (nothing is downloaded)."""
import os

import yaml


def oplib(root, gen, graph, pts, prizes, depot=1):
    """OPLib-style instance: vertices 1..n, EUC_2D coordinates, scores."""
    d = os.path.join(str(root), "instances", gen)
    os.makedirs(d, exist_ok=True)
    n = len(pts)
    lines = ["NAME : %s" % (graph if n % 2 else "%s-%s" % (graph, gen)), "COMMENT : synthetic", "TYPE : OP", "DIMENSION : %d" % n, "COST_LIMIT : 100",
             "EDGE_WEIGHT_TYPE : EUC_2D", "NODE_COORD_SECTION"]
    lines += ["%d %s %s" % (i + 1, x, y) for i, (x, y) in enumerate(pts)]
    lines += ["NODE_SCORE_SECTION"] + ["%d %d" % (i + 1, p) for i, p in enumerate(prizes)]
    lines += ["DEPOT_SECTION", str(depot), "-1", "EOF"]
    p = os.path.join(d, "%s-%s-50.oplib" % (graph, gen))
    with open(p, "w", encoding="utf-8") as fh:
        fh.write("\n".join(lines) + "\n")
    return p


def londonaq(root, name, cost, prizes, depot=0, coords=None):
    """londonaq-style YAML instance with explicit weights and demands."""
    d = os.path.join(str(root), name)
    os.makedirs(d, exist_ok=True)
    adj, w = {}, {}
    for (u, v), c in cost.items():
        adj.setdefault(u, []).append(v)
        w.setdefault(u, {})[v] = c
    doc = dict(capacity=None, comment="synthetic", demands=dict(prizes), depots=[depot], dimension=len(prizes), display_data=None, display_data_type="NO_DISPLAY",
               edge_data=adj, edge_data_format="EDGE_LIST", edge_weights=w, edge_weight_format="FULL_MATRIX", edge_weight_type="EXPLICIT", fixed_edges={},
               name=name, node_coords=coords or {v: [float(v), float(v * v)] for v in prizes}, node_coord_type="TWOD_COORDS", problem_type="PCTSP", tours=None)
    p = os.path.join(d, name + ".yaml")
    with open(p, "w", encoding="utf-8") as fh:
        yaml.dump(doc, fh)
    return p
