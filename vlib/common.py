"""Shared pieces of the checks: cases = instance + solving options, and the judges."""
from collections import Counter

from hypothesis import strategies as st

from vlib import gen
from vlib.gen import chance
from vlib.model import Ref, best_cover
from vlib.runner import Prop, Result

TOL = 1e-6


def close(a, b, rel=1e-9):
    return abs(a - b) <= TOL + rel * max(abs(a), abs(b))


def detour_free(ref, r):
    """With time windows: no stop of r is reached earlier than by driving straight from the depot,
    nor too late to drive straight back (the solver tightens the windows that way, which is the
    usual triangle inequality assumption)."""
    if not ref.p.get("time_windows"):
        return True
    arr = ref.arrivals(r)
    for u, v in zip(r, r[1:]):
        lo = arr[u] if u == "Source" else max(
            ref.at(u, "lower"), arr["Source"] + ref.time("Source", u)
        )
        up = ref.at(v, "upper")
        if v != "Sink":
            up = min(up, ref.sink_up - ref.time(v, "Sink"))
        if lo + ref.at(u, "service_time") + ref.time(u, v) > up - 1e-6 and len(r) > 3:
            return False
    return True


def split_feasible(ref, parts):
    """Turns an ordered partition into feasible routes (falling back on round trips)."""
    out = []
    for p in parts:
        r = ["Source"] + list(p) + ["Sink"]
        if any(not ref.viol(r, k) for k in range(ref.K)) and detour_free(ref, r):
            out.append(r)
        else:
            out += [["Source", v, "Sink"] for v in p]
    return out


@st.composite
def user_routes(draw, inst, overlap=True):
    """Feasible initial routes that visit every customer at least once."""
    ref = Ref(inst)
    if inst["prob"].get("pickup_delivery"):
        return [
            ["Source", v, a["request"], "Sink"] for v, a in inst["nodes"] if "request" in a
        ]
    routes = split_feasible(ref, draw(gen.partitions(ref.cust)))
    if overlap and chance(draw, 30):
        routes += split_feasible(ref, draw(gen.partitions(ref.cust)))
    return routes


@st.composite
def locked_routes(draw, inst, most=2):
    """Complete preassigned routes: feasible, pairwise disjoint."""
    ref = Ref(inst)
    if inst["prob"].get("pickup_delivery"):
        cand = [["Source", v, a["request"], "Sink"] for v, a in inst["nodes"] if "request" in a]
        routes = draw(st.permutations(cand))
    else:
        routes = split_feasible(ref, draw(gen.partitions(ref.cust)))
    m = draw(st.integers(1, min(most, len(routes))))
    return routes[:m]


@st.composite
def cases(
    draw, need=(), maybe=(), opt=None, initial=12, locked=10, partial=0, heuristic=0, **kw
):
    inst = draw(gen.instances(need=need, maybe=maybe, **kw))
    p = inst["prob"]
    if (
        heuristic
        and not any(
            p.get(k)
            for k in (
                "time_windows", "pickup_delivery", "distribution_collection",
                "mixed_fleet", "periodic", "num_vehicles", "drop_penalty",
            )
        )
        and chance(draw, 100 if len(inst["nodes"]) > 14 else heuristic)
    ):
        solve = {"heuristic_only": True}
    else:
        solve = draw(gen.options(inst, **(opt or {})))
    if initial and not solve.get("heuristic_only") and chance(draw, initial):
        solve["initial_routes"] = draw(user_routes(inst))
    elif locked and not p.get("periodic") and not p.get("minimize_global_span") and chance(draw, locked):
        solve["preassignments"] = draw(locked_routes(inst))
        if p.get("mixed_fleet") and p.get("num_vehicles"):
            # every locked route needs a vehicle
            ref = Ref(inst)
            for r in solve["preassignments"]:
                able = [k for k in range(ref.K) if not ref.viol(r, k)]
                if able:
                    p["num_vehicles"][min(able, key=lambda k: ref.cost(r, k))] += 1
                else:
                    p["num_vehicles"] = [x + 1 for x in p["num_vehicles"]]
        elif p.get("num_vehicles"):
            p["num_vehicles"] += len(solve["preassignments"])
    elif partial and not p.get("periodic") and chance(draw, partial):
        seqs = draw(st.lists(st.permutations([v for v, _ in inst["nodes"]]), min_size=1, max_size=2))
        edges = {(e[0], e[1]) for e in inst["edges"]}
        seqs = [list(q[: draw(st.integers(2, 3))]) for q in seqs]
        seqs = [q for q in seqs if len(q) > 1 and all(e in edges for e in zip(q, q[1:]))]
        ref = Ref(inst)
        if seqs and not p.get("time_windows") and all(
            any(not ref.viol(["Source"] + q + ["Sink"], k) for k in range(ref.K)) for q in seqs
        ):
            solve["preassignments"] = seqs
    case = {"inst": inst, "solve": solve}
    return case


def labels_of(case):
    p, s = case["inst"]["prob"], case.get("solve") or {}
    n = len(case["inst"]["nodes"])
    out = ["n=%d" % n if n <= 6 else "n>6"]
    for k, v in p.items():
        if v:
            out.append(k)
    out.append("lp" if s.get("cspy") is False else "cspy")
    out.append(s.get("pricing_strategy", "BestEdges1"))
    for k in ("dive", "greedy", "elementary", "heuristic_only", "initial_routes", "preassignments",
              "max_iter", "run_exact"):
        if s.get(k):
            out.append(k)
    return out


def fleet_limited(case):
    """The final selection may be impossible with the generated routes (documented as such)."""
    p = case["inst"]["prob"]
    return bool(p.get("num_vehicles")) and not p.get("periodic") and (
        not p.get("drop_penalty") or bool(p.get("use_all_vehicles"))
    )


def judge_raise(case, run):
    """solve() returns a solution on every instance of the domain."""
    if run.exc is None:
        return []
    if fleet_limited(case) and type(run.exc) is Exception and str(run.exc).startswith("problem "):
        return []
    if fleet_limited(case) and type(run.exc).__name__ == "PulpSolverError":
        return []  # the external solver sometimes crashes on infeasible problems
    return ["solve() raised %s" % run.exc_text]


def dropped(case, run):
    """Customers left out, which is allowed if there is a penalty for it."""
    if not case["inst"]["prob"].get("drop_penalty"):
        return []
    seen = visits(run)
    return [v for v, _ in case["inst"]["nodes"] if not seen[v]]


def visits(run):
    return Counter(v for r in run.routes.values() for v in r[1:-1])


class SolveProp(Prop):
    """Solve one generated case and judge the outcome."""

    need = ()
    maybe = ()
    kw = {}

    def strategy(self):
        return cases(need=self.need, maybe=self.maybe, **self.kw)

    def judge(self, ref, run, case):
        raise NotImplementedError

    def nontrivial(self, ref, run, case):
        return True

    def check(self, case):
        from vlib.sut import Run

        run = Run(case)
        labels = labels_of(case)
        if run.exc is not None:
            bad = judge_raise(case, run)
            return Result(bad, False, labels + ["raised"], run.describe())
        ref = Ref(case["inst"])
        bad = self.judge(ref, run, case)
        nt = self.nontrivial(ref, run, case)
        return Result(bad, nt, labels, run.describe())


def route_judge(name):
    def judge(self, ref, run, case):
        out = []
        for i, r in run.routes.items():
            if ref.shape(r):
                continue  # property C01
            out += [m for _, m in getattr(ref, name)(r, run.types[i])]
        return out

    return judge


def pool(run):
    """The routes generated by the search: [(route, vehicle type)], without cycles."""
    import networkx as nx

    out = []
    for g in run.prob._routes:
        path = g.graph.get("path")
        if path and len(set(path)) != len(path):
            continue
        if any(g.in_degree(v) > 1 or g.out_degree(v) > 1 for v in g.nodes()):
            continue
        r = nx.shortest_path(g, "Source", "Sink")
        if len(r) != g.number_of_nodes() or len(r) < 3:
            continue
        out.append((r, g.graph["vehicle_type"]))
    return out


def pool_optimum(ref, run, case):
    """Value of the best combination of the generated routes, locked routes excluded."""
    if getattr(run.prob, "_routes", None) is None:
        return None
    p = ref.p
    locked = [r for r in case["solve"].get("preassignments", []) if r[0] == "Source" and r[-1] == "Sink"]
    gone = {v for r in locked for v in r[1:-1]}
    cust = [v for v in ref.cust if v not in gone]
    idx = {v: i for i, v in enumerate(cust)}
    cols = []
    for r, k in pool(run):
        if all(v in idx for v in r[1:-1]):
            cols.append((tuple(sorted(idx[v] for v in r[1:-1])), k, ref.cost(r, k)))
    per = p.get("periodic")
    need = tuple(ref.N[v].get("frequency", 1) if per else 1 for v in cust)
    limits = [None] * ref.K if per else list(ref.nv)
    if run.exc is None:
        for i, r in run.routes.items():
            if r in locked and limits[run.types[i]] is not None:
                limits[run.types[i]] -= 1
    return best_cover(
        len(cust), cols, need, tuple(limits), bool(p.get("use_all_vehicles")),
        p.get("drop_penalty") or None, bool(p.get("minimize_global_span")),
    )
