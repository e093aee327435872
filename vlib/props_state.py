"""Histories: one problem object, modified and solved several times."""
import copy

from hypothesis import strategies as st

from vlib import gen
from vlib.common import (
    close, judge_raise, labels_of, locked_routes, user_routes, visits,
)
from vlib.gen import chance, pick
from vlib.model import Ref
from vlib.props_quality import exact_relaxation, judge_pool
from vlib.runner import Prop, Result

PARAMS = (
    "num_stops", "load_capacity", "duration", "time_windows", "pickup_delivery",
    "distribution_collection", "drop_penalty", "fixed_cost", "num_vehicles", "use_all_vehicles",
    "periodic", "mixed_fleet", "minimize_global_span",
)


# ------------------------------------------------------------ the model side of an operation
def apply_model(cur, op):
    kind = op[0]
    if kind == "set":
        if op[2] is None:
            cur["prob"].pop(op[1], None)
        else:
            cur["prob"][op[1]] = op[2]
    elif kind == "node":
        for v, a in cur["nodes"]:
            if v == op[1]:
                a[op[2]] = op[3]
    elif kind == "edge":
        cur["edges"] = [e for e in cur["edges"] if (e[0], e[1]) != (op[1], op[2])]
        cur["edges"].append([op[1], op[2], op[3], op[4]])
    elif kind == "cut":
        cur["edges"] = [e for e in cur["edges"] if (e[0], e[1]) != (op[1], op[2])]
    elif kind == "add":
        cur["nodes"].append([op[1], dict(op[2])])
        cur["edges"] += [list(e) for e in op[3]]
    elif kind == "del":
        cur["nodes"] = [x for x in cur["nodes"] if x[0] != op[1]]
        cur["edges"] = [e for e in cur["edges"] if op[1] not in (e[0], e[1])]


def apply_real(prob, op):
    G = prob.G
    kind = op[0]
    if kind == "set":
        default = {
            "time_windows": False, "fixed_cost": 0, "use_all_vehicles": False, "num_vehicles": [],
        }
        value = copy.deepcopy(op[2])
        setattr(prob, op[1], default.get(op[1]) if value is None else value)
    elif kind == "node":
        G.nodes[op[1]][op[2]] = op[3]
    elif kind == "edge":
        if G.has_edge(op[1], op[2]):
            G.remove_edge(op[1], op[2])
        a = {"cost": copy.deepcopy(op[3])}
        if op[4] is not None:
            a["time"] = op[4]
        G.add_edge(op[1], op[2], **a)
    elif kind == "cut":
        G.remove_edge(op[1], op[2])
    elif kind == "add":
        G.add_node(op[1], **op[2])
        for u, v, c, t in op[3]:
            a = {"cost": copy.deepcopy(c)}
            if t is not None:
                a["time"] = t
            G.add_edge(u, v, **a)
    elif kind == "del":
        G.remove_node(op[1])


def servable(cur):
    """Every customer can be served alone (the domain of the whole suite)."""
    ref = Ref(cur)
    if cur["prob"].get("pickup_delivery"):
        return all(
            any(not ref.viol(["Source", v, a["request"], "Sink"], k) for k in range(ref.K))
            for v, a in cur["nodes"] if "request" in a
        )
    return all(
        any(not ref.viol(["Source", v, "Sink"], k) for k in range(ref.K)) for v in ref.cust
    )


@st.composite
def change(draw, cur):
    """One modification of the problem, by the attributes and the graph of the user."""
    p = cur["prob"]
    names = [v for v, _ in cur["nodes"]]
    ref = Ref(cur)
    pd = p.get("pickup_delivery")
    timed = any(e[3] is not None for e in cur["edges"])
    options = ["cost", "cost", "stops", "fixed", "cut", "edge", "node", "node"]
    if p.get("load_capacity"):
        options += ["cap", "demand"]
    if p.get("duration"):
        options += ["dur", "nodur"]
    if p.get("time_windows"):
        options += ["tw", "notw"]
    if p.get("drop_penalty"):
        options += ["drop", "nodrop"]
    if p.get("num_vehicles"):
        options += ["nv", "nonv"]
    if not pd and not p.get("time_windows") and not p.get("duration"):
        options += ["add", "del"]
    kind = pick(draw, *options)
    if kind in ("cost", "edge"):
        e = draw(st.sampled_from(cur["edges"]))
        if kind == "edge" and len(names) > 1:
            u, v = draw(st.permutations(names))[:2]
        else:
            u, v = e[0], e[1]
        c = [draw(st.integers(0, 60)) for _ in range(ref.K)]
        t = ref.E[u, v][1] if (u, v) in ref.E else draw(st.integers(0, 20))
        return ["edge", u, v, c if ref.mixed else c[0], t if timed else None]
    if kind == "cut":
        inner = [e for e in cur["edges"] if e[0] in names and e[1] in names]
        if pd or not inner:
            return ["set", "fixed_cost", None] if not ref.mixed else None
        e = draw(st.sampled_from(inner))
        return ["cut", e[0], e[1]]
    if kind == "stops":
        lo = 2 if pd else 1
        return ["set", "num_stops", pick(draw, None, draw(st.integers(lo, max(lo, len(names)))))]
    if kind == "fixed":
        f = [draw(st.integers(1, 25)) for _ in range(ref.K)]
        if ref.mixed:
            return ["set", "fixed_cost", f]
        return ["set", "fixed_cost", pick(draw, f[0], None)]
    if kind == "cap":
        need = int(max([1] + [abs(ref.at(v, "demand")) for v in names] + [ref.at(v, "collect") for v in names]) + 0.5)
        caps = [need + draw(st.integers(0, 8)) for _ in range(ref.K)]
        return ["set", "load_capacity", caps if ref.mixed else caps[0]]
    if kind in ("demand", "node"):
        v = draw(st.sampled_from(names))
        if kind == "node" and ref.p.get("periodic"):
            return ["node", v, "frequency", draw(st.integers(1, p["periodic"]))]
        if pd or not p.get("load_capacity"):
            return ["node", v, "service_time", ref.at(v, "service_time") // 2]
        return ["node", v, "demand", draw(st.integers(0, int(max(ref.cap))))]
    if kind == "dur":
        return ["set", "duration", p["duration"] + draw(st.integers(0, 15))]
    if kind == "nodur":
        return ["set", "duration", None]
    if kind == "tw":
        v = draw(st.sampled_from(names))
        return ["node", v, "upper", ref.at(v, "upper") + draw(st.integers(0, 15))]
    if kind == "notw":
        return ["set", "time_windows", None]
    if kind == "drop":
        return ["set", "drop_penalty", draw(st.integers(1, 60))]
    if kind == "nodrop":
        return ["set", "drop_penalty", None]
    if kind == "nv":
        nv = [draw(st.integers(1, len(names))) for _ in range(ref.K)]
        return ["set", "num_vehicles", nv if ref.mixed else nv[0]]
    if kind == "nonv":
        return ["set", "num_vehicles", None] if not ref.mixed else None
    if kind == "add":
        if len(names) >= 6:
            return None
        v = max([x for x in names if isinstance(x, int)] or [0]) + 1
        while v in names:
            v += 1
        a = {"demand": draw(st.integers(0, int(max(ref.cap))))} if p.get("load_capacity") else {}
        edges = []
        for u in ["Source"] + names:
            if u == "Source" or chance(draw, 70):
                c = [draw(st.integers(0, 30)) for _ in range(ref.K)]
                edges.append([u, v, c if ref.mixed else c[0], 1 if timed else None])
        for w in names + ["Sink"]:
            if w == "Sink" or chance(draw, 70):
                c = [draw(st.integers(0, 30)) for _ in range(ref.K)]
                edges.append([v, w, c if ref.mixed else c[0], 1 if timed else None])
        return ["add", v, a, edges]
    if kind == "del":
        if len(names) < 2:
            return None
        return ["del", draw(st.sampled_from(names))]
    return None


BAD = ("strategy", "route", "missing", "lock")


@st.composite
def bad_call(draw, cur):
    """A call of solve() that has to be rejected."""
    names = [v for v, _ in cur["nodes"]]
    kind = pick(draw, *BAD)
    if kind == "strategy":
        o = {"pricing_strategy": "Best"}
    elif kind == "route":
        o = {"initial_routes": [["Source"] + [v] for v in names]}
    elif kind == "missing":
        o = {"initial_routes": [["Source", v, "Sink"] for v in names[:-1]] or [["Source", "Sink"]]}
    else:
        o = {"preassignments": [["Source", "nowhere", "Sink"]]}
    if cur["prob"].get("pickup_delivery"):
        o["cspy"] = False
    return o


@st.composite
def histories(draw):
    inst = draw(
        gen.instances(
            maybe=("load", "load", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "nv", "drop", "periodic", "pd"),
            pct=25, nmin=2, nmax=4, metric_time=True,
        )
    )
    cur = copy.deepcopy(inst)
    ops = []
    solves = draw(st.integers(2, 4))
    for i in range(solves):
        if i:
            for _ in range(draw(st.integers(0, 3))):
                op = draw(change(cur))
                if op is None:
                    continue
                nxt = copy.deepcopy(cur)
                apply_model(nxt, op)
                if len(nxt["nodes"]) and servable(nxt) and edges_fit(nxt):
                    ops.append(op)
                    cur = nxt
        if chance(draw, 12):
            ops.append(["bad", draw(bad_call(cur))])
        o = draw(gen.options(cur, lp=15, dive=12))
        if not any(cur["prob"].get(k) for k in (
            "time_windows", "pickup_delivery", "distribution_collection", "mixed_fleet", "periodic",
            "num_vehicles", "drop_penalty",
        )) and chance(draw, 15):
            o = {"heuristic_only": True}
        elif chance(draw, 15):
            o["initial_routes"] = draw(user_routes(cur))
        elif not cur["prob"].get("periodic") and not cur["prob"].get("num_vehicles") and chance(draw, 20):
            o["preassignments"] = draw(locked_routes(cur))
        ops.append(["solve", o])
    return {"inst": inst, "ops": ops}


def edges_fit(cur):
    """With time windows the solver relies on the triangle inequality of travel times."""
    if not cur["prob"].get("time_windows"):
        return True
    ref = Ref(cur)
    for (u, w), (_, t1) in ref.E.items():
        for v in ref.cust + ["Sink"]:
            if (w, v) in ref.E and (u, v) in ref.E and u != v:
                if ref.E[u, v][1] > t1 + ref.E[w, v][1] + 1e-9:
                    return False
    return True


def snapshot(prob):
    G = prob.G
    return {
        "nodes": {v: copy.deepcopy(dict(a)) for v, a in G.nodes(data=True)},
        "edges": {(u, v): copy.deepcopy(dict(a)) for u, v, a in G.edges(data=True)},
        "params": {k: copy.deepcopy(getattr(prob, k)) for k in PARAMS},
    }


def same(a, b):
    """A scalar may be stored as a list of one item."""
    if isinstance(a, list) != isinstance(b, list):
        a = a if isinstance(a, list) else [a]
        b = b if isinstance(b, list) else [b]
        if a == [None] or b == [None]:
            return not any(a) and not any(b)
    return a == b


def differences(before, after):
    out = []
    for what in ("nodes", "edges"):
        if set(before[what]) != set(after[what]):
            out.append("the %s of the input graph changed" % what)
            continue
        for x, a in before[what].items():
            if a != after[what][x]:
                out.append("attributes of %r of the input graph: %r became %r" % (x, a, after[what][x]))
    for k in PARAMS:
        if not same(before["params"][k], after["params"][k]):
            out.append("parameter %s: %r became %r" % (k, before["params"][k], after["params"][k]))
    return out[:3]


class Shot:
    """Looks like sut.Run for the judges."""

    def __init__(self, prob, exc=None):
        self.prob = prob
        self.exc = exc

    @property
    def exc_text(self):
        return "%s: %s" % (type(self.exc).__name__, self.exc)

    @property
    def routes(self):
        return {i: list(r) for i, r in self.prob.best_routes.items()}

    @property
    def types(self):
        return dict(self.prob.best_routes_type)


def judge_solution(ref, run, case):
    """Everything a returned plan has to satisfy, for the current state of the problem."""
    out = []
    p = ref.p
    prob = run.prob
    ids = set(run.routes)
    if set(run.types) != ids or set(prob.best_routes_cost) != ids:
        return ["routes, types and costs have different ids"]
    total = []
    for i, r in run.routes.items():
        bad = ref.viol(r, run.types[i])
        out += [m for _, m in bad]
        if ref.shape(r):
            return out
        c = ref.cost(r, run.types[i])
        total.append(c)
        if not close(prob.best_routes_cost[i], c):
            out.append("cost of %r reported %s, is %s" % (r, prob.best_routes_cost[i], c))
    cnt = visits(run)
    gone = 0
    for v in ref.cust:
        want = ref.N[v].get("frequency", 1) if p.get("periodic") else 1
        if cnt[v] == 0 and p.get("drop_penalty"):
            gone += 1
        elif cnt[v] != want:
            out.append("customer %r visited %d times instead of %d" % (v, cnt[v], want))
    value = sum(total) + gone * (p.get("drop_penalty") or 0)
    if p.get("minimize_global_span"):
        value = max(total)
    if not close(prob.best_value, value):
        out.append("best_value reported %s, is %s" % (prob.best_value, value))
    if p.get("num_vehicles") and not p.get("periodic") and not case["solve"].get("heuristic_only"):
        for k in range(ref.K):
            m = sum(1 for i in run.routes if run.types[i] == k)
            if m > ref.nv[k]:
                out.append("%d vehicles of type %d used, %d available" % (m, k, ref.nv[k]))
    for r in case["solve"].get("preassignments") or []:
        if r[0] == "Source" and r[-1] == "Sink" and list(run.routes.values()).count(r) != 1:
            out.append("locked route %r is not in the solution" % (r,))
    if p.get("periodic"):
        sched = prob.schedule
        if sched:
            placed = sorted((i for d in sched for i in sched[d]), key=str)
            if placed != sorted(run.routes, key=str):
                out.append("scheduled routes %r, routes %r" % (placed, sorted(run.routes, key=str)))
    elif prob.schedule:
        out.append("schedule %r although the problem is not periodic" % prob.schedule)
    return out


def judge_bound(ref, run, case):
    """Column generation stopped where no feasible route of the current problem improves."""
    o, p = case["solve"], ref.p
    if (
        o.get("heuristic_only") or o.get("max_iter") or o.get("dive") or o.get("preassignments")
        or o.get("pricing_strategy") == "Hyper" or p.get("minimize_global_span")
        or p.get("use_all_vehicles") or len(ref.cust) > 5
    ):
        return []
    if p.get("time_windows") and p.get("duration") and o.get("cspy", True):
        return []
    b = getattr(run.prob, "_lower_bound", None)
    sure = Ref(case["inst"], careful=True)
    lp = exact_relaxation(sure, [sure.all_routes(k) for k in range(ref.K)])
    if not b or lp is None:
        return []
    if b[-1] > lp + 2e-3 * len(ref.cust) + 1e-6 * abs(lp):
        return ["column generation stopped at %s although feasible routes give %s" % (b[-1], lp)]
    return []


class C16(Prop):
    id = "C16"
    rule = (
        "random history of 2 to 4 solves of one problem object, with modifications of its graph "
        "and parameters and rejected calls in between; after each call the input graph, the "
        "parameters and the arguments are compared with their state before, and the plan is "
        "judged against the current state; non-trivial: two successful solves that return "
        "different plans"
    )
    cases = {"quick": 1400, "thorough": 20000}

    def strategy(self):
        return histories()

    def check(self, case):
        from vlib import sut

        sut.seed_all(case)
        cur = copy.deepcopy(case["inst"])
        prob = sut.make(cur)
        graph = prob.G
        bad, plans, labels = [], [], set()
        for step, op in enumerate(case["ops"]):
            if op[0] not in ("solve", "bad"):
                apply_model(cur, op)
                apply_real(prob, op)
                labels.add(op[0])
                continue
            args = copy.deepcopy(op[1])
            before = snapshot(prob)
            exc = None
            try:
                prob.solve(**args)
            except Exception as e:
                exc = e
                if type(e).__name__ == "PulpSolverError":
                    break  # the external solver could not be run
            here = []
            if prob.G is not graph:
                here.append("the problem refers to another graph after solve()")
            here += differences(before, snapshot(prob))
            if args != op[1]:
                here.append("the arguments of solve() were modified: %r became %r" % (op[1], args))
            if op[0] == "bad":
                labels.add("rejected")
                if exc is None:
                    here.append("an invalid call was accepted")
            else:
                sub = {"inst": cur, "solve": op[1]}
                run = Shot(prob, exc)
                labels.update(x for x in labels_of(sub) if not x.startswith("n"))
                if exc is not None:
                    here += judge_raise(sub, run)
                else:
                    ref = Ref(cur)
                    mine = judge_solution(ref, run, sub)
                    if not mine:
                        mine = judge_bound(ref, run, sub)
                    if not mine and not op[1].get("dive") and not op[1].get("heuristic_only"):
                        mine = judge_pool(ref, run, sub)
                    here += mine
                    plans.append((sorted(map(str, run.routes.values())), prob.best_value))
            if here:
                bad = ["step %d %s: %s" % (step, op, m) for m in here]
                break
        nontrivial = len(plans) >= 2 and any(x != plans[0] for x in plans)
        return Result(bad, nontrivial, sorted(labels), {"plans": plans})


PROPS = [C16()]
