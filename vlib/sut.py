"""Runs the code under test (the vrpy package of /repo's working tree) on a JSON case."""
import copy
import hashlib
import json
import logging
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402

logging.disable(logging.CRITICAL)

import vrpy  # noqa: E402
from vrpy import VehicleRoutingProblem  # noqa: E402

if not os.path.realpath(vrpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError("vrpy imported from %s, not from %s" % (vrpy.__file__, REPO))


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def seed_all(case):
    """The randomised parts of the code under test draw from seeded generators."""
    s = int(digest(case)[:8], 16)
    random.seed(s)
    np.random.seed(s)


def build(inst):
    G = nx.DiGraph()
    if inst.get("nodes_first", True):
        G.add_node("Source")
        for v, _ in inst["nodes"]:
            G.add_node(v)
        G.add_node("Sink")
    for u, v, c, t in inst["edges"]:
        a = {"cost": list(c) if isinstance(c, (list, tuple)) else c}
        if t is not None:
            a["time"] = t
        G.add_edge(u, v, **a)
    for v, a in inst["nodes"]:
        G.add_node(v)
        G.nodes[v].update(copy.deepcopy(a))
    for v in ("Source", "Sink"):
        G.add_node(v)
        G.nodes[v].update((inst.get("depot") or {}).get(v, {}))
    return G


def make(inst):
    return VehicleRoutingProblem(build(inst), **copy.deepcopy(inst["prob"]))


class Run:
    """Outcome of one solve; exc is None if it returned."""

    def __init__(self, case):
        self.go(case)
        if type(self.exc).__name__ == "PulpSolverError":
            self.go(case)  # the external solver may fail to start; a real defect fails again

    def go(self, case):
        seed_all(case)
        self.prob = None
        self.exc = None
        try:
            self.prob = make(case["inst"])
            self.prob.solve(**copy.deepcopy(case.get("solve") or {}))
        except Exception as e:  # the caller decides whether raising is allowed
            self.exc = e

    @property
    def exc_text(self):
        return "%s: %s" % (type(self.exc).__name__, self.exc)

    @property
    def routes(self):
        return {i: list(r) for i, r in self.prob.best_routes.items()}

    @property
    def types(self):
        return dict(self.prob.best_routes_type)

    def describe(self):
        if self.exc is not None:
            return {"exception": self.exc_text}
        p = self.prob
        out = {}
        try:
            out["best_routes"] = {str(k): v for k, v in p.best_routes.items()}
            out["types"] = {str(k): v for k, v in p.best_routes_type.items()}
            out["best_value"] = p.best_value
            if p.drop_penalty:
                out["dropped"] = list(p._dropped_nodes)
            if p._lower_bound:
                out["lower_bound"] = p._lower_bound[-1]
            if p.periodic:
                out["schedule"] = {str(k): v for k, v in (p.schedule or {}).items()}
        except Exception as e:
            out["describe_error"] = repr(e)
        return out
