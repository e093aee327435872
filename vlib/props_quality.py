"""Properties about how good the returned plan is."""
import pulp

from hypothesis import strategies as st

from vlib import gen
from vlib.gen import chance, pick
from vlib.common import (
    SolveProp, cases, close, dropped, labels_of, pool_optimum, user_routes, visits,
)
from vlib.model import Ref
from vlib.runner import Result


def exact_relaxation(ref, routes, cover_only=False):
    """Linear relaxation of the choice among *all* feasible routes (enumerated), or None.
    cover_only: customers may be visited more often than needed."""
    # the roads that the solver adds (1e10) spoil the arithmetic: only used if needed
    cheap = [{key: r for key, r in routes[k].items() if r[0] < 1e9} for k in range(ref.K)]
    if any(len(a) < len(b) for a, b in zip(cheap, routes)):
        val = _relaxation(ref, cheap, cover_only)
        if val is not None:
            return val
    return _relaxation(ref, routes, cover_only)


def _relaxation(ref, routes, cover_only):
    p = ref.p
    lp = pulp.LpProblem("ref", pulp.LpMinimize)
    cover = {v: [] for v in ref.cust}
    fleet = [[] for _ in range(ref.K)]
    obj = []
    i = 0
    for k in range(ref.K):
        for key, (c, _) in routes[k].items():
            y = pulp.LpVariable("y%d" % i, lowBound=0)
            i += 1
            obj.append(c * y)
            fleet[k].append(y)
            for v in key:
                cover[v].append(y)
    for j, v in enumerate(ref.cust):
        need = ref.N[v].get("frequency", 1) if p.get("periodic") else 1
        e = pulp.lpSum(cover[v])
        if p.get("drop_penalty"):
            d = pulp.LpVariable("d%d" % j, lowBound=0, upBound=1)
            obj.append(p["drop_penalty"] * d)
            e = e + d
        lp += (e >= need) if cover_only else (e == need)
    if not p.get("periodic"):
        for k in range(ref.K):
            if ref.nv[k] is not None:
                e = pulp.lpSum(fleet[k])
                lp += (e == ref.nv[k]) if p.get("use_all_vehicles") else (e <= ref.nv[k])
    z = pulp.LpVariable("z", lowBound=0, upBound=1)
    lp += pulp.lpSum(obj) + z
    lp.solve(pulp.PULP_CBC_CMD(msg=False))
    if pulp.LpStatus[lp.status] != "Optimal":
        return None
    return pulp.value(lp.objective)


def last_bound(run):
    b = getattr(run.prob, "_lower_bound", None)
    return b[-1] if b else None


class C10(SolveProp):
    id = "C10"
    rule = (
        "random instance with at most 5 customers, all feasible routes enumerated; column "
        "generation runs to the end; non-trivial: the cheapest plan has a route with 2 stops"
    )
    maybe = ("load", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "nv", "drop", "pd")
    kw = dict(
        pct=25, nmin=2, nmax=5, locked=0, metric_time=True,
        opt=dict(lp=20, pricing=["BestEdges1", "Exact", "BestEdges2", "BestPaths"], dive=0, limits=False),
    )
    cases = {"quick": 3500, "thorough": 60000}

    def strategy(self):
        lp = dict(self.kw, nmax=4, pct=50, initial=0)
        lp["opt"] = dict(lp["opt"], lp=100, pricing=["Exact", "BestEdges1"])
        return st.one_of(
            super().strategy(),
            super().strategy(),
            super().strategy(),
            cases(need=("tw",), maybe=("service", "service", "load", "stops", "dc", "mixed"), **lp),
        ).map(converge)

    def judge(self, ref, run, case):
        out = []
        routes = [ref.all_routes(k) for k in range(ref.K)]
        exact = bool(ref.p.get("use_all_vehicles"))
        self.opt = opt = ref.optimum(routes, ref.p.get("drop_penalty") or None, exact)
        if opt == float("inf"):
            return out
        if run.prob.best_value < opt - 1e-6 * max(1, abs(opt)):
            out.append("best_value %s below the optimum %s" % (run.prob.best_value, opt))
        lb = last_bound(run)
        sure = Ref(case["inst"], careful=True)
        lp = exact_relaxation(sure, [sure.all_routes(k) for k in range(ref.K)])
        if lb is None or lp is None:
            return out
        eps = 2e-3 * len(ref.cust) + 1e-6 * abs(lp)
        if lb > lp + eps:
            out.append(
                "column generation stopped at %s although feasible routes give %s (optimum %s)"
                % (lb, lp, opt)
            )
        o = case["solve"]
        if lb < lp - eps and (o.get("elementary") or o.get("cspy") is False):
            # every route of the search visits a customer at most once
            low = exact_relaxation(ref, routes, True)
            if low is not None and lb < low - eps:
                out.append(
                    "column generation stopped at %s, below %s, the value over all feasible routes"
                    % (lb, low)
                )
        return out

    def nontrivial(self, ref, run, case):
        return self.opt < float("inf") and any(len(r) > 3 for r in run.routes.values())


def converge(case):
    """Removes the options that stop the search early."""
    case["solve"].pop("max_iter", None)
    p = case["inst"]["prob"]
    if case["solve"].get("cspy", True):
        if p.get("time_windows") and p.get("duration"):
            p.pop("duration")
    return case



def locked_of(case):
    return [r for r in case["solve"].get("preassignments", []) if r[0] == "Source" and r[-1] == "Sink"]


def judge_pool(ref, run, case):
    """The plan is the cheapest combination of the routes that were generated."""
    best = pool_optimum(ref, run, case)
    if best is None:
        return []
    locked = locked_of(case)
    base = sum(ref.cost(r, run.types[i]) for i, r in run.routes.items() if r in locked)
    if best == float("inf"):
        return []
    got = run.prob.best_value
    if ref.p.get("minimize_global_span"):
        total = max(base, best)
    else:
        total = base + best
    if got > total + 1e-6 * max(1, abs(total)):
        return ["best_value %s, but the generated routes can be combined for %s" % (got, total)]
    return []


def given_value(ref, routes):
    """Cost of a plan made of user routes, each with the first vehicle type that can run it."""
    tot = 0
    for r in routes:
        k = [k for k in range(ref.K) if not ref.viol(r, k)]
        if not k:
            return None
        tot += ref.cost(r, k[0])
    return tot


class C11(SolveProp):
    id = "C11"
    rule = (
        "random instance and options without diving; the returned value is compared with a "
        "dynamic program over the generated routes, with the initial routes of the user and with "
        "the savings heuristic; non-trivial: at least 3 customers and at least 2 columns were "
        "added or given besides the chosen ones"
    )
    maybe = ("load", "stops", "dur", "service", "tw", "dc", "mixed", "mixed", "fixed", "nv", "nv", "all", "periodic", "pd")
    kw = dict(
        pct=22, nmin=2, nmax=6, initial=30, locked=8, gaps=4, opt=dict(dive=0, lp=15),
    )
    cases = {"quick": 3000, "thorough": 60000}

    def check(self, case):
        from vlib.sut import Run

        run = Run(case)
        labels = labels_of(case)
        ref = Ref(case["inst"])
        if run.exc is not None:
            bad = []
            known = type(run.exc) is Exception and str(run.exc).startswith("problem ")
            if not known or not ref.p.get("num_vehicles"):
                bad = ["solve() raised %s" % run.exc_text]
            elif not locked_of(case) and run.prob is not None:
                best = pool_optimum(ref, run, case)
                if best is not None and best < 1e9:
                    bad = ["%s, although the generated routes can be combined for %s" % (run.exc, best)]
            return Result(bad, False, labels + ["raised"], run.describe())
        if any(ref.shape(r) for r in run.routes.values()):
            return Result([], False, labels, run.describe())  # property C01
        bad = judge_pool(ref, run, case)
        got = run.prob.best_value
        tol = 1e-6 * max(1, abs(got))
        init = case["solve"].get("initial_routes")
        p = ref.p
        plain = not p.get("num_vehicles") and not p.get("periodic")
        if init and plain:
            cut = [init]
            flat = [v for r in init for v in r[1:-1]]
            if len(flat) != len(set(flat)):
                cut = halves(init, ref)
            for part in cut:
                val = given_value(ref, part)
                if val is not None and got > val + tol:
                    bad.append("best_value %s, worse than the initial routes (%s)" % (got, val))
        heur = not any(
            p.get(k) for k in ("time_windows", "pickup_delivery", "distribution_collection", "mixed_fleet")
        )
        if heur and plain and not init:
            other = Run({"inst": case["inst"], "solve": {
                "heuristic_only": True, "preassignments": case["solve"].get("preassignments")}})
            if other.exc is None and not (case["solve"].get("preassignments") and not locked_of(case)):
                if got > other.prob.best_value + tol:
                    bad.append(
                        "best_value %s, worse than heuristic_only (%s)" % (got, other.prob.best_value)
                    )
        n_pool = len(getattr(run.prob, "_routes", None) or [])
        return Result(
            bad, len(ref.cust) >= 3 and n_pool >= len(run.routes) + 2, labels, run.describe()
        )


def halves(init, ref):
    """Two complete plans were concatenated by the generator."""
    out, cur, seen = [], [], set()
    for r in init:
        if seen & set(r[1:-1]):
            out.append(cur)
            cur, seen = [], set()
        cur.append(r)
        seen |= set(r[1:-1])
    out.append(cur)
    return [part for part in out if {v for r in part for v in r[1:-1]} == set(ref.cust)]


class C12(SolveProp):
    id = "C12"
    rule = (
        "random instance with a drop penalty; non-trivial: some customers are dropped and some "
        "are not"
    )
    need = ("drop",)
    maybe = ("load", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "fixed", "nv", "nv")
    kw = dict(pct=25, nmin=1, nmax=5, big=5, locked=8, opt=dict(lp=15, dive=8))
    cases = {"quick": 4000, "thorough": 60000}

    def judge(self, ref, run, case):
        out = []
        if any(ref.shape(r) for r in run.routes.values()):
            return out
        pen = ref.p["drop_penalty"]
        cnt = visits(run)
        gone = [v for v in ref.cust if cnt[v] == 0]
        for v in ref.cust:
            if cnt[v] > 1:
                out.append("customer %r visited %d times" % (v, cnt[v]))
        locked = {v for r in locked_of(case) for v in r[1:-1]}
        for v in gone:
            if v in locked:
                out.append("locked customer %r dropped" % v)
        base = sum(ref.cost(r, run.types[i]) for i, r in run.routes.items())
        got = run.prob.best_value
        if not close(got, base + pen * len(gone)):
            out.append(
                "best_value %s, routes cost %s and %d customers are dropped at %s each"
                % (got, base, len(gone), pen)
            )
        lock_cost = sum(ref.cost(r, run.types[i]) for i, r in run.routes.items() if r in locked_of(case))
        if got > lock_cost + pen * (len(ref.cust) - len(locked)) + 1e-6:
            out.append("best_value %s, dropping everybody costs less" % got)
        if not case["solve"].get("dive"):
            out += judge_pool(ref, run, case)
        if len(ref.cust) <= 5 and not locked:
            opt = ref.optimum(drop=pen)
            if got < opt - 1e-6 * max(1, abs(opt)):
                out.append("best_value %s below the optimum %s" % (got, opt))
        return out

    def nontrivial(self, ref, run, case):
        return 0 < len(dropped(case, run)) < len(ref.cust)


def best_balance(days, routes, limit, types):
    """Smallest (largest - smallest) number of routes per day of a valid schedule, or None."""
    ids = sorted(routes, key=lambda i: -len(routes[i]))
    best = [None]
    load = [0] * days
    on = [set() for _ in range(days)]
    fleet = [{} for _ in range(days)]

    def rec(pos):
        if pos == len(ids):
            v = max(load) - min(load)
            if best[0] is None or v < best[0]:
                best[0] = v
            return
        i = ids[pos]
        inner = set(routes[i][1:-1])
        tried = set()
        for d in range(days):
            if on[d] & inner:
                continue
            k = types[i]
            if limit and fleet[d].get(k, 0) >= limit[k]:
                continue
            key = (frozenset(on[d]), load[d], tuple(sorted(fleet[d].items())))
            if key in tried:
                continue
            tried.add(key)
            on[d] |= inner
            load[d] += 1
            fleet[d][k] = fleet[d].get(k, 0) + 1
            rec(pos + 1)
            on[d] -= inner
            load[d] -= 1
            fleet[d][k] -= 1
            if best[0] is not None and best[0] <= (1 if len(ids) % days else 0):
                return

    rec(0)
    return best[0]


class C13(SolveProp):
    id = "C13"
    rule = (
        "random periodic instance (frequencies, daily fleet limits, mixed fleet); the schedule is "
        "checked day by day and against an exhaustive search; non-trivial: several days, at least "
        "3 routes and a customer visited at least twice"
    )
    need = ("periodic",)
    maybe = ("load", "load", "stops", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "nv", "nv", "nv")
    kw = dict(pct=25, nmin=1, nmax=5, initial=10, locked=0, opt=dict(lp=10, dive=10))
    cases = {"quick": 3000, "thorough": 40000}

    def judge(self, ref, run, case):
        out = []
        days = ref.p["periodic"]
        cnt = visits(run)
        for v in ref.cust:
            f = ref.N[v].get("frequency", 1)
            if cnt[v] != f:
                out.append("customer %r visited %d times, frequency %d" % (v, cnt[v], f))
        sched = run.prob.schedule or {}
        limit = list(ref.nv) if ref.p.get("num_vehicles") else None
        routes, types = run.routes, run.types
        if any(ref.shape(r) for r in routes.values()):
            return out
        if sched:
            placed = [i for d in sched for i in sched[d]]
            if sorted(placed, key=str) != sorted(routes, key=str):
                out.append("scheduled routes %r, routes %r" % (placed, list(routes)))
                return out
            for d in sched:
                if not isinstance(d, int) or d not in range(days):
                    out.append("day %r is not in 0..%d" % (d, days - 1))
                seen = [v for i in sched[d] for v in routes[i][1:-1]]
                for v in set(seen):
                    if seen.count(v) > 1:
                        out.append("customer %r visited %d times on day %r" % (v, seen.count(v), d))
                if limit:
                    for k in range(ref.K):
                        m = sum(1 for i in sched[d] if types[i] == k)
                        if m > limit[k]:
                            out.append("%d vehicles of type %d on day %r, %d available" % (m, k, d, limit[k]))
        if len(routes) <= 10 and not out:
            best = best_balance(days, routes, limit, types)
            if not sched:
                if best is not None:
                    out.append("no schedule, although one exists")
            elif best is not None:
                loads = [len(sched.get(d, ())) for d in range(days)]
                if max(loads) - min(loads) > best:
                    out.append(
                        "schedule %r is not balanced: spread %d, possible %d"
                        % (sched, max(loads) - min(loads), best)
                    )
        return out

    def nontrivial(self, ref, run, case):
        return (
            ref.p["periodic"] > 1 and len(run.routes) >= 3
            and any(c > 1 for c in visits(run).values())
        )


class C14(SolveProp):
    id = "C14"
    rule = (
        "random instance and 1 to 3 complete preassigned routes; non-trivial: some customers are "
        "not preassigned and a locked route has at least 2 stops"
    )
    maybe = ("load", "stops", "dur", "service", "tw", "dc", "mixed", "mixed", "fixed", "nv", "drop", "pd")
    kw = dict(pct=22, nmin=2, nmax=7, big=5, initial=0, locked=100, heuristic=20, opt=dict(lp=15))
    cases = {"quick": 6000, "thorough": 60000}

    def judge(self, ref, run, case):
        out = []
        locked = locked_of(case)
        have = [r for r in run.routes.values()]
        for r in locked:
            if have.count(r) != 1:
                out.append("locked route %r appears %d times in the solution" % (r, have.count(r)))
        gone = {v for r in locked for v in r[1:-1]}
        for i, r in run.routes.items():
            if r not in locked and gone & set(r):
                out.append("route %r visits locked customers" % (r,))
            elif ref.shape(r):
                out += [m for _, m in ref.shape(r)]
            else:
                out += [m for _, m in ref.viol(r, run.types[i])]
                c = run.prob.best_routes_cost[i]
                if not close(c, ref.cost(r, run.types[i])):
                    out.append("cost of %r reported %s, is %s" % (r, c, ref.cost(r, run.types[i])))
                if r in locked and (len(locked) == 1 or not ref.p.get("num_vehicles")):
                    # no cheaper type could have been chosen
                    for k in range(ref.K):
                        if ref.nv[k] == 0 or ref.viol(r, k):
                            continue
                        if ref.cost(r, k) < c - 1e-6 * max(1, abs(c)):
                            out.append(
                                "locked route %r costs %s with type %r, %s with type %d"
                                % (r, c, run.types[i], ref.cost(r, k), k)
                            )
        cnt = visits(run)
        for v in ref.cust:
            ok = (0, 1) if ref.p.get("drop_penalty") and v not in gone else (1,)
            if cnt[v] not in ok:
                out.append("customer %r visited %d times" % (v, cnt[v]))
        if ref.p.get("num_vehicles"):
            for k in range(ref.K):
                m = sum(1 for i in run.routes if run.types[i] == k)
                if m > ref.nv[k]:
                    out.append("%d vehicles of type %d used, %d available" % (m, k, ref.nv[k]))
        if not case["solve"].get("dive") and not case["solve"].get("heuristic_only"):
            out += judge_pool(ref, run, case)
        return out

    def nontrivial(self, ref, run, case):
        locked = locked_of(case)
        return any(len(r) > 3 for r in locked) and len(run.routes) > len(locked)


class C22(SolveProp):
    id = "C22"
    rule = (
        "random instance where the longest route is minimised; non-trivial: at least 2 routes, "
        "one with 2 stops"
    )
    need = ("span",)
    maybe = ("load", "load", "stops", "dur", "service", "tw", "dc", "fixed", "nv")
    kw = dict(pct=25, nmin=2, nmax=5, initial=25, locked=0, opt=dict(dive=0, lp=15))
    cases = {"quick": 1000, "thorough": 15000}

    def strategy(self):
        @st.composite
        def crowded(draw):
            case = draw(cases(need=self.need, maybe=self.maybe, **self.kw))
            init = case["solve"].get("initial_routes")
            if init and chance(draw, 20):
                # the useful routes come after many others
                trips = [["Source", v, "Sink"] for v, _ in case["inst"]["nodes"]]
                size = pick(draw, 74, 75, 90, 30)
                if draw(st.integers(0, 999)) == 537:
                    size = 1001
                case["solve"]["initial_routes"] = trips * (-(-size // len(trips))) + init
                case["solve"]["pricing_strategy"] = "Exact"
                case["solve"]["cspy"] = True
            return case

        return crowded()

    def judge(self, ref, run, case):
        out = []
        if any(ref.shape(r) for r in run.routes.values()):
            return out
        costs = [ref.cost(r, run.types[i]) for i, r in run.routes.items()]
        got = run.prob.best_value
        if not close(got, max(costs)):
            out.append("best_value %s, the most expensive route costs %s" % (got, max(costs)))
        out += judge_pool(ref, run, case)
        for i, r in run.routes.items():
            out += [m for _, m in ref.viol(r, run.types[i])]
        cnt = visits(run)
        out += ["customer %r visited %d times" % (v, cnt[v]) for v in ref.cust if cnt[v] != 1]
        init = case["solve"].get("initial_routes")
        if init and not ref.p.get("num_vehicles"):
            flat = [v for r in init for v in r[1:-1]]
            if len(flat) == len(set(flat)):
                val = max(ref.cost(r, 0) for r in init)
                if got > val + 1e-6:
                    out.append("best_value %s, worse than the initial routes (%s)" % (got, val))
        return out

    def nontrivial(self, ref, run, case):
        return len(run.routes) > 1 and any(len(r) > 3 for r in run.routes.values())


def free_edges(case):
    """Edges of the partial preassigned routes."""
    return {
        e for r in case["solve"].get("preassignments", [])
        if not (r[0] == "Source" and r[-1] == "Sink") for e in zip(r, r[1:])
    }


class Discounted(Ref):
    """The same problem, where some edges (and the fixed cost, if they leave the depot) are free."""

    def __init__(self, inst, free, careful=False):
        super().__init__(inst, careful)
        fix = list(self.fix)
        self.fix = [0] * self.K
        for e, (c, t) in list(self.E.items()):
            c = list(c) if isinstance(c, (list, tuple)) else [c] * self.K
            c = [x + f for x, f in zip(c, fix)] if e[0] == "Source" else c
            self.E[e] = ([0] * self.K if e in free else c, t)


@st.composite
def sequences(draw, case):
    """Partial routes: chains of edges, at most one end at the depot."""
    inst = case["inst"]
    edges = {(e[0], e[1]) for e in inst["edges"]}
    taken = {v for r in locked_of(case) for v in r[1:-1]}
    left = [v for v in draw(st.permutations([v for v, _ in inst["nodes"]])) if v not in taken]
    out = []
    while left and len(out) < 3 and (not out or chance(draw, 50)):
        q = [left.pop(0)]
        if chance(draw, 40) and ("Source", q[0]) in edges:
            q = ["Source"] + q
        while left and (q[-1], left[0]) in edges and chance(draw, 65):
            q.append(left.pop(0))
        if q[0] != "Source" and chance(draw, 30) and (q[-1], "Sink") in edges:
            q.append("Sink")
        if len(q) > 1:
            out.append(q)
    return out


class C23(SolveProp):
    id = "C23"
    rule = (
        "random instance and 1 to 3 partial preassigned routes (with or without complete ones); "
        "the oracles of C08, C10 and C11 are applied with the edges of the partial routes free; "
        "non-trivial: some but not all of the given edges are in the plan, or a given "
        "sequence was extended"
    )
    maybe = ("load", "load", "stops", "dur", "service", "tw", "dc", "mixed", "mixed", "fixed", "nv", "drop", "pd")
    kw = dict(
        pct=22, nmin=2, nmax=5, initial=0, locked=25, heuristic=10, metric_time=True,
        opt=dict(lp=15, dive=8),
    )
    cases = {"quick": 4000, "thorough": 60000}

    def strategy(self):
        @st.composite
        def build(draw):
            case = draw(cases(need=self.need, maybe=self.maybe, **self.kw))
            seqs = draw(sequences(case))
            pre = list(case["solve"].get("preassignments", [])) + seqs
            if pre:
                case["solve"]["preassignments"] = draw(st.permutations(pre))
            return case

        return build()

    def judge(self, ref, run, case):
        out = []
        if any(ref.shape(r) for r in run.routes.values()):
            return ["%s" % m for r in run.routes.values() for _, m in ref.shape(r)]
        locked = locked_of(case)
        free = free_edges(case)
        o = case["solve"]
        p = ref.p
        costs = run.prob.best_routes_cost
        for i, r in run.routes.items():
            out += [m for _, m in ref.viol(r, run.types[i])]
            true = ref.cost(r, run.types[i])
            if not close(costs[i], true):
                out.append("cost of %r reported %s, is %s" % (r, costs[i], true))
        cnt = visits(run)
        gone = dropped(case, run)
        for v in ref.cust:
            if cnt[v] != 1 and v not in gone:
                out.append("customer %r visited %d times" % (v, cnt[v]))
        total = sum(ref.cost(r, run.types[i]) for i, r in run.routes.items())
        total += (p.get("drop_penalty") or 0) * len(gone)
        if not close(run.prob.best_value, total):
            out.append("best_value %s, the plan costs %s" % (run.prob.best_value, total))
        if out or o.get("heuristic_only"):
            return out
        low = Discounted(case["inst"], free)
        rest = {i: r for i, r in run.routes.items() if r not in locked}
        got = sum(low.cost(r, run.types[i]) for i, r in rest.items())
        got += (p.get("drop_penalty") or 0) * len(gone)
        if not o.get("dive"):
            best = pool_optimum(low, run, case)
            if best is not None and got > best + 1e-6 * max(1, abs(best)):
                out.append(
                    "the plan costs %s with the given edges free, but the generated routes can be "
                    "combined for %s" % (got, best)
                )
        lb = last_bound(run)
        stop = o.get("max_iter") or o.get("dive") or o.get("pricing_strategy") == "Hyper" or (
            p.get("time_windows") and p.get("duration") and o.get("cspy", True)
        )
        if lb is not None and not stop and not locked:
            sure = Discounted(case["inst"], free, careful=True)
            lp = exact_relaxation(sure, [sure.all_routes(k) for k in range(ref.K)])
            if lp is not None and lb > lp + 2e-3 * len(ref.cust) + 1e-6 * abs(lp):
                out.append(
                    "column generation stopped at %s although feasible routes give %s with the "
                    "given edges free" % (lb, lp)
                )
        return out

    def nontrivial(self, ref, run, case):
        free = free_edges(case)
        used = {e for r in run.routes.values() for e in zip(r, r[1:])} & free
        seqs = [r for r in case["solve"].get("preassignments", []) if r not in locked_of(case)]
        longer = any(
            set(zip(q, q[1:])) <= set(zip(r, r[1:])) and len(r) - 2 > len(set(q) - {"Source", "Sink"})
            for q in seqs for r in run.routes.values()
        )
        return (0 < len(used) < len(free)) or longer


PROPS = [C10(), C11(), C12(), C13(), C14(), C22(), C23()]
