"""Rejection of ill-formed problems, the savings heuristic, limits, equivalence of the options."""
import copy
import time

from hypothesis import strategies as st

from vlib import gen
from vlib.common import (
    SolveProp, cases, close, judge_raise, labels_of, user_routes, visits,
)
from vlib.gen import chance, pick
from vlib.model import Ref, inexact
from vlib.props_quality import converge, exact_relaxation, judge_pool, last_bound
from vlib.props_state import judge_solution
from vlib.runner import Prop, Result


# --------------------------------------------------------------------------------- C15
def broken(draw, inst, solve):
    """Breaks one precondition. Returns (mutation, names of the expected exceptions)."""
    p = inst["prob"]
    names = [v for v, _ in inst["nodes"]]
    ref = Ref(inst)
    mixed = ref.mixed
    pd = p.get("pickup_delivery")
    kinds = [
        "undirected", "no_source", "no_sink", "into_source", "out_of_sink", "no_cost",
        "stops", "strategy", "route_ends", "route_missing", "lock_edge", "duration",
    ]
    if p.get("load_capacity"):
        kinds += ["capacity", "demand", "demand", "demand"]
    if mixed:
        kinds += ["cost_list", "cost_length", "fleet_length", "fleet_length"]
    if pd:
        kinds += ["cspy", "no_request"]
    if not pd and not p.get("time_windows"):
        kinds += ["reach", "reach", "reach"]
    inner = [(u, v) for u in names for v in names if u != v and (u, v) not in ref.E]
    if inner and not pd:
        kinds += ["route_edge", "route_edge"]
    if any(p.get(k) for k in ("time_windows", "pickup_delivery", "distribution_collection", "mixed_fleet", "periodic")):
        kinds += ["heuristic", "heuristic"]
    kind = pick(draw, *kinds)
    v = draw(st.sampled_from(names))
    if kind == "undirected":
        return ["graph", "undirected"], ["TypeError"]
    if kind == "no_source":
        return ["graph", "no_source"], ["KeyError", "NetworkXError"]
    if kind == "no_sink":
        return ["graph", "no_sink"], ["KeyError", "NetworkXError"]
    if kind == "into_source":
        return ["graph", "edge", v, "Source"], ["NetworkXError"]
    if kind == "out_of_sink":
        return ["graph", "edge", "Sink", v], ["NetworkXError"]
    if kind == "no_cost":
        e = draw(st.sampled_from(inst["edges"]))
        return ["graph", "no_cost", e[0], e[1]], ["KeyError"]
    if kind == "stops":
        return ["prob", "num_stops", pick(draw, -1, 2.5, "3", -7, 0.5)], ["TypeError"]
    if kind == "duration":
        return ["prob", "duration", pick(draw, -1, 1e6 + 0.5, "300", -100)], ["TypeError"]
    if kind == "capacity":
        bad = pick(draw, -1, 0, 1000.5, "10") if mixed else pick(draw, -1, 1000.5, "10")
        if mixed:
            caps = list(p["load_capacity"])
            caps[draw(st.integers(0, ref.K - 1))] = bad
            bad = caps
        return ["prob", "load_capacity", bad], ["TypeError"]
    if kind == "strategy":
        return ["solve", "pricing_strategy", pick(draw, "exact", "BestEdges3", "", "hyper", "Best Paths")], ["ValueError"]
    if kind == "demand":
        # just above the largest vehicle
        q = max(ref.cap) + pick(draw, 1, 0.5, 10)
        if pd:
            v = [x for x, a in inst["nodes"] if "request" in a][0]
        return ["node", v, "demand", q], ["ValueError"]
    if kind == "cost_list":
        e = draw(st.sampled_from(inst["edges"]))
        return ["graph", "cost", e[0], e[1], 7], ["TypeError"]
    if kind == "cost_length":
        e = draw(st.sampled_from(inst["edges"]))
        return ["graph", "cost", e[0], e[1], [7] * pick(draw, ref.K + 1, ref.K + 2)], ["ValueError"]
    if kind == "fleet_length":
        lists = [k for k in ("load_capacity", "fixed_cost", "num_vehicles") if p.get(k)]
        if len(lists) < 2:
            return ["prob", lists[0], p[lists[0]] + [5]], ["ValueError"]
        k = draw(st.sampled_from(lists))
        return ["prob", k, p[k] + [5]], ["ValueError"]
    if kind == "route_ends":
        routes = [["Source", x, "Sink"] for x in names]
        i = draw(st.integers(0, len(names) - 1))
        routes[i] = routes[i][1:] if chance(draw, 50) else routes[i][:-1]
        return ["solve", "initial_routes", routes], ["ValueError"]
    if kind == "route_missing":
        if len(names) < 2:
            return ["solve", "initial_routes", [["Source", "Sink"]]], ["KeyError"]
        routes = [["Source", x, "Sink"] for x in names if x != v]
        return ["solve", "initial_routes", routes], ["KeyError"]
    if kind == "route_edge":
        u, w = draw(st.sampled_from(inner))
        routes = [["Source", x, "Sink"] for x in names if x not in (u, w)]
        routes.insert(draw(st.integers(0, len(routes))), ["Source", u, w, "Sink"])
        if chance(draw, 30):
            return ["solve", "preassignments", [["Source", u, w, "Sink"]]], ["ValueError"]
        if chance(draw, 30):
            return ["solve", "preassignments", [[u, w]]], ["ValueError"]
        return ["solve", "initial_routes", routes], ["KeyError"]
    if kind == "lock_edge":
        return ["solve", "preassignments", [["Source", v, "nowhere", "Sink"]]], ["ValueError"]
    if kind == "cspy":
        return ["solve", "cspy", True], ["NotImplementedError"]
    if kind == "no_request":
        return ["no_request"], ["KeyError"]
    if kind == "heuristic":
        return ["solve", "heuristic_only", True], ["ValueError"]
    if kind == "reach":
        # one customer cannot be reached and left in time
        d = draw(st.integers(1, 30))
        half = draw(st.integers(0, 2 * d + 1))
        return ["reach", v, d, half, 2 * d + 1 - half], ["ValueError"]
    raise AssertionError(kind)


@st.composite
def ill_formed(draw):
    inst = draw(
        gen.instances(
            maybe=("load", "load", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "nv", "drop", "periodic", "pd", "span"),
            pct=25, nmin=1, nmax=5, metric_time=True,
        )
    )
    solve = draw(gen.options(inst, lp=15))
    mut, want = broken(draw, inst, solve)
    return {"inst": inst, "solve": solve, "mutation": mut, "expect": want}


def run_broken(case):
    """Applies the mutation to the problem and solves it. Returns (exception or None, problem)."""
    import networkx as nx

    from vlib import sut

    inst, solve, m = copy.deepcopy(case["inst"]), copy.deepcopy(case["solve"]), case["mutation"]
    if m[0] == "prob":
        inst["prob"][m[1]] = m[2]
    elif m[0] == "solve":
        solve[m[1]] = copy.deepcopy(m[2])
    elif m[0] == "node":
        for v, a in inst["nodes"]:
            if v == m[1]:
                a[m[2]] = m[3]
    elif m[0] == "no_request":
        for _, a in inst["nodes"]:
            a.pop("request", None)
    elif m[0] == "reach":
        # every edge into v takes (d - half/2), out of v the rest
        for e in inst["edges"]:
            e[3] = e[3] or 0
            if e[1] == m[1]:
                e[3] = m[3] / 2.0
            elif e[0] == m[1]:
                e[3] = m[4] / 2.0
        for _, a in inst["nodes"]:
            a.pop("service_time", None)
        inst["prob"]["duration"] = m[2]
        # (2d + 1) / 2 > d
    G = sut.build(inst)
    if m[0] == "graph":
        if m[1] == "undirected":
            H = nx.Graph()
            H.add_nodes_from(G.nodes(data=True))
            H.add_edges_from(G.edges(data=True))
            G = H
        elif m[1] == "no_source":
            G.remove_node("Source")
        elif m[1] == "no_sink":
            G.remove_node("Sink")
        elif m[1] == "edge":
            G.add_edge(m[2], m[3], cost=[1] * 3 if inst["prob"].get("mixed_fleet") else 1, time=1)
        elif m[1] == "no_cost":
            del G.edges[m[2], m[3]]["cost"]
        elif m[1] == "cost":
            G.edges[m[2], m[3]]["cost"] = m[4]
    sut.seed_all(case)
    try:
        prob = sut.VehicleRoutingProblem(G, **copy.deepcopy(inst["prob"]))
        prob.solve(**solve)
    except Exception as e:
        return e, None
    return None, prob


class C15(Prop):
    id = "C15"
    rule = (
        "random valid instance (any variant) with exactly one precondition broken (23 kinds: "
        "graph, costs, fleet lists, parameters, routes, capacities, reachability, incompatible "
        "options); every case is non-trivial"
    )
    cases = {"quick": 24000, "thorough": 200000}

    def strategy(self):
        return ill_formed()

    def check(self, case):
        exc, prob = run_broken(case)
        m = case["mutation"]
        labels = [str(m[0]) + ":" + (str(m[1]) if m[0] in ("graph", "prob", "solve") else "")]
        want = case["expect"]
        if exc is None:
            try:
                got = {str(k): v for k, v in prob.best_routes.items()}
            except Exception:
                got = None
            return Result(["%r was accepted (expected %s), plan %r" % (m, " or ".join(want), got)], True, labels, got)
        if not any(c.__name__ in want for c in type(exc).__mro__):
            return Result(
                ["%r: %s: %s instead of %s" % (m, type(exc).__name__, exc, " or ".join(want))],
                True, labels, None,
            )
        return Result([], True, labels, "%s: %s" % (type(exc).__name__, exc))


# --------------------------------------------------------------------------------- C17
class C17(SolveProp):
    id = "C17"
    rule = (
        "random instance with up to 14 customers solved with the savings heuristic only (with "
        "locked routes at times); non-trivial: a route has at least 2 stops and the limits "
        "exclude a single route"
    )
    maybe = ("load", "load", "stops", "stops", "dur", "dur", "service", "service", "fixed")
    cases = {"quick": 20000, "thorough": 300000}
    kw = dict(gaps=6, far=6, pct=45, nmin=1, nmax=7, big=45, nbig=14, heuristic=100, initial=0, locked=12)

    def judge(self, ref, run, case):
        return judge_solution(ref, run, case)

    def nontrivial(self, ref, run, case):
        return any(len(r) > 3 for r in run.routes.values()) and (
            len(run.routes) > 1 or len(ref.cust) == 2
        )


# --------------------------------------------------------------------------------- C18
class Clock:
    """time.time() with jumps, from the moment it is armed."""

    def __init__(self):
        self.real = time.time
        self.on = False

    def __call__(self):
        if not self.on:
            return self.real()
        self.calls += 1
        while self.jumps and self.calls > self.jumps[0][0]:
            self.now += self.jumps.pop(0)[1]
        if not self.frozen:
            self.now += self.step
        if self.first is None:
            self.first = self.now  # the search starts
        elif self.mark is None and self.limit and self.now - self.first > self.limit:
            self.mark = self.probe()  # the time limit has just been passed
        return self.now

    def arm(self, spec, limit=None, probe=None):
        self.on = True
        self.limit, self.probe, self.mark, self.first = limit, probe, None, None
        self.calls = 0
        self.now = float(spec["start"])
        self.jumps = sorted([list(j) for j in spec["jumps"]])
        self.step = spec["step"]
        self.frozen = not spec["step"]

    def disarm(self):
        self.on = False


CLOCK = None


def install_clock():
    """Before the code under test is imported, so that every way of reading the time sees it."""
    global CLOCK
    if CLOCK is None:
        CLOCK = Clock()
        time.time = CLOCK
    return CLOCK


@st.composite
def limited(draw):
    case = draw(
        cases(
            maybe=("load", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "nv", "drop", "periodic", "pd", "span"),
            pct=22, nmin=1, nmax=5, big=15, initial=15, locked=8,
            opt=dict(limits=False, lp=20, dive=25, greedy=25),
        )
    )
    o = case["solve"]
    if chance(draw, 45):
        o["max_iter"] = draw(st.integers(1, 8))
    if chance(draw, 70):
        o["time_limit"] = draw(st.integers(1, 60))
    case["clock"] = {
        "start": pick(draw, 1e9, 0, 1.7e9),
        "step": pick(draw, 0.01, 0, 0.001, 1, 0.3),
        "jumps": draw(
            st.lists(
                st.tuples(st.one_of(st.integers(0, 6), st.integers(0, 40)), st.sampled_from([1, 5, 10, 59.9, 60, 1000])).map(list),
                max_size=3,
            )
        ),
    }
    return case


class C18(Prop):
    id = "C18"
    rule = (
        "random instance and options with an iteration limit and/or a time limit, under a "
        "simulated clock that is frozen, runs at any speed or jumps between two readings; "
        "non-trivial: the limit stopped the search (fewer columns than without it) or the clock "
        "passed the time limit during the search"
    )
    cases = {"quick": 3000, "thorough": 40000}

    def strategy(self):
        return limited()

    def check(self, case):
        clock = install_clock()
        from vlib import sut

        labels = labels_of(case)
        seen = [0]
        run = None
        for _ in range(2):
            sut.seed_all(case)
            run = _Outcome()
            out = run
            clock.arm(
                case["clock"], case["solve"].get("time_limit"),
                lambda: getattr(out.prob, "_iteration", None),
            )
            t0 = clock.now
            try:
                run.prob = sut.make(case["inst"])
                run.prob.solve(**copy.deepcopy(case["solve"]))
            except Exception as e:
                run.exc = e
            finally:
                passed = clock.now - t0
                clock.disarm()
            if type(run.exc).__name__ != "PulpSolverError":
                break
        limit = case["solve"].get("time_limit")
        expired = bool(limit) and passed > limit
        if expired:
            labels.append("expired")
        if run.exc is not None:
            return Result(judge_raise(case, run), False, labels + ["raised"], run.exc_text)
        ref = Ref(case["inst"])
        bad = judge_solution(ref, run, case)
        if not bad and not case["solve"].get("dive") and not ref.p.get("minimize_global_span"):
            if not case["inst"]["prob"].get("periodic"):
                bad = judge_pool(ref, run, case)
        if not bad:
            bad = self.not_worse(ref, run, case)
        if not bad:
            bad = self.too_long(run, case, clock.mark)
        it = getattr(run.prob, "_iteration", 0)
        stopped = case["solve"].get("max_iter") and it >= case["solve"]["max_iter"]
        if stopped:
            labels.append("stopped")
        return Result(
            bad, bool(expired or stopped) and len(ref.cust) > 1, labels,
            {"routes": {str(k): v for k, v in run.routes.items()}, "value": run.prob.best_value},
        )

    def too_long(self, run, case, mark):
        """The search is over soon after a limit is reached."""
        o = case["solve"]
        end = getattr(run.prob, "_iteration", None)
        if isinstance(end, int):
            # the iteration under way is finished; diving starts with one iteration
            extra = 1 if o.get("dive") else 0
            if isinstance(mark, int) and end > mark + 1 + extra:
                return ["%d iterations were completed after the time limit" % (end - mark)]
            if o.get("max_iter") and end > o["max_iter"] + extra:
                return ["%d iterations although max_iter is %d" % (end, o["max_iter"])]
        its = len(getattr(run.prob, "_lower_bound", None) or [])
        if o.get("max_iter") and its > o["max_iter"]:
            return ["%d iterations although max_iter is %d" % (its, o["max_iter"])]
        if o.get("time_limit"):
            late = 0
            for call, d in sorted(case["clock"]["jumps"]):
                late += d if call else 0  # before the start of the search
                if late > o["time_limit"]:
                    # the clock is read at least once per iteration
                    if its > call + 2:
                        return [
                            "%d iterations although the time limit was over after %d clock readings"
                            % (its, call)
                        ]
                    break
        return []

    def not_worse(self, ref, run, case):
        """Whenever the search is stopped, the given routes are still available."""
        p, init = ref.p, case["solve"].get("initial_routes")
        if not init or p.get("num_vehicles") or p.get("periodic") or p.get("minimize_global_span"):
            return []
        if case["solve"].get("dive"):
            return []
        flat = [v for r in init for v in r[1:-1]]
        if len(flat) != len(set(flat)):
            return []
        val = 0
        for r in init:
            k = [k for k in range(ref.K) if not ref.viol(r, k)]
            if not k:
                return []
            val += ref.cost(r, k[0])
        if run.prob.best_value > val + 1e-6 * max(1, abs(val)):
            return ["best_value %s, worse than the initial routes (%s)" % (run.prob.best_value, val)]
        return []


class _Outcome:
    prob = None
    exc = None

    @property
    def exc_text(self):
        return "%s: %s" % (type(self.exc).__name__, self.exc)

    @property
    def routes(self):
        return {i: list(r) for i, r in self.prob.best_routes.items()}

    @property
    def types(self):
        return dict(self.prob.best_routes_type)


# --------------------------------------------------------------------------------- C19
def relabel(inst, perm_names, order, scale):
    """Same problem with other names, another insertion order and scaled costs."""
    old = [v for v, _ in inst["nodes"]]
    m = dict(zip(old, (tuple(x) if isinstance(x, list) else x for x in perm_names)))
    m["Source"], m["Sink"] = "Source", "Sink"
    out = copy.deepcopy(inst)
    nodes = []
    for v, a in out["nodes"]:
        a = dict(a)
        if "request" in a:
            a["request"] = m[a["request"]]
        nodes.append([m[v], a])
    out["nodes"] = [nodes[i] for i in order]

    def s(c):
        return [x * scale for x in c] if isinstance(c, list) else c * scale

    out["edges"] = [[m[u], m[v], s(c), t] for u, v, c, t in out["edges"]][::-1]
    p = out["prob"]
    if p.get("fixed_cost"):
        p["fixed_cost"] = s(p["fixed_cost"])
    if p.get("drop_penalty"):
        p["drop_penalty"] = p["drop_penalty"] * scale
    return out


@st.composite
def twins(draw):
    inst = draw(
        gen.instances(
            maybe=("load", "load", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "nv", "drop", "periodic"),
            pct=25, nmin=2, nmax=5, big=25, nbig=8, metric_time=True,
        )
    )
    p = inst["prob"]
    if p.get("time_windows") and p.get("duration"):
        p.pop("duration")
    n = len(inst["nodes"])
    pool = pick(
        draw,
        [3 * i + 2 for i in range(n)],
        ["k%d" % i for i in range(n)],
        [["k", i] for i in range(n)],
        (gen.ODD + ["n%d" % i for i in range(n)])[: n + 3],
    )
    names = draw(st.permutations(pool))[:n]
    order = draw(st.permutations(list(range(n))))
    scale = pick(draw, 1, 2, 5)
    o = dict(lp=15, pricing=["BestEdges1", "Exact", "BestEdges2", "BestPaths"], dive=0, limits=False)
    a, b = draw(gen.options(inst, **o)), draw(gen.options(inst, **o))
    for x in (a, b):
        if x.get("cspy", True):
            x["elementary"] = True
    return {"inst": inst, "solve": a, "other": b, "names": list(names), "order": list(order), "scale": scale}


class C19(Prop):
    id = "C19"
    rule = (
        "random instance solved twice to the end, the second time with other customer names, "
        "another insertion order, costs multiplied by a constant and other solving options "
        "(pricing strategy, greedy, cspy or LP); non-trivial: at least 3 customers and a route "
        "with 2 stops"
    )
    cases = {"quick": 1600, "thorough": 30000}

    def strategy(self):
        return twins()

    def check(self, case):
        from vlib.sut import Run

        k = case["scale"]
        one = {"inst": case["inst"], "solve": case["solve"]}
        two = {
            "inst": relabel(case["inst"], case["names"], case["order"], k),
            "solve": case["other"],
        }
        a, b = Run(one), Run(two)
        labels = labels_of(one)
        bad = judge_raise(one, a) + judge_raise(two, b)
        if a.exc is not None or b.exc is not None:
            return Result(bad, False, labels + ["raised"], None)
        la, lb = last_bound(a), last_bound(b)
        n = len(case["inst"]["nodes"])
        seen = {"bounds": [la, lb], "values": [a.prob.best_value, b.prob.best_value]}
        p = case["inst"]["prob"]
        if la is None or lb is None or (
            inexact(case["inst"]) and (p.get("duration") or p.get("time_windows"))
        ):
            return Result([], False, labels, seen)
        w = 1
        if case["inst"]["prob"].get("periodic"):
            w = case["inst"]["prob"]["periodic"]
        eps = 2e-3 * n * w + 1e-6 * max(abs(la), abs(lb))
        if abs(la * k - lb) > eps * k:
            bad.append("bound %s (times %s) with %s, %s with %s" % (la, k, case["solve"], lb, case["other"]))
        if a.prob.best_value < la - eps or b.prob.best_value < lb - eps * k:
            bad.append("values %s below the bounds %s" % (seen["values"], seen["bounds"]))
        return Result(
            bad, n >= 3 and any(len(r) > 3 for r in a.routes.values()), labels, seen
        )


PROPS = [C15(), C17(), C18(), C19()]
