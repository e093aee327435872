"""Properties of the returned plan that hold whatever the options are."""
import math

from hypothesis import strategies as st

from vlib.common import SolveProp, cases, close, dropped, pool_optimum, route_judge, visits
from vlib.model import Ref  # noqa: F401

ALL = ("load", "stops", "dur", "service", "tw", "dc", "mixed", "fixed", "nv", "drop", "periodic")


def two_in_a_route(run):
    return any(len(r) > 3 for r in run.routes.values())


class C01(SolveProp):
    id = "C01"
    rule = (
        "random instance (all documented variants mixed) and solving options; non-trivial: at "
        "least 2 customers and a route with at least 2 stops"
    )
    maybe = ALL + ("pd", "span")
    kw = dict(gaps=5, far=2, big=8, heuristic=25, pct=22, partial=8)
    cases = {"quick": 3200, "thorough": 120000}

    def judge(self, ref, run, case):
        out = []
        ids = list(run.routes)
        if len(set(ids)) != len(ids):
            out.append("duplicate route ids %r" % ids)
        if set(run.types) != set(ids):
            out.append("route ids %r but types for %r" % (ids, sorted(run.types, key=str)))
        for i, r in run.routes.items():
            out += [m for _, m in ref.shape(r)]
            if run.types.get(i) not in range(ref.K):
                out.append("vehicle type %r of route %r" % (run.types.get(i), r))
        cnt = visits(run)
        drop = set(dropped(case, run))
        per = case["inst"]["prob"].get("periodic")
        for v in ref.cust:
            want = 0 if v in drop else (ref.N[v].get("frequency", 1) if per else 1)
            if cnt[v] != want:
                out.append("customer %r visited %d times instead of %d" % (v, cnt[v], want))
        return out

    def nontrivial(self, ref, run, case):
        return len(ref.cust) >= 2 and two_in_a_route(run)


class C02(SolveProp):
    id = "C02"
    rule = (
        "random capacitated instance and solving options; non-trivial: the total demand exceeds "
        "the capacity of the largest vehicle and a route has at least 2 stops"
    )
    need = ("load",)
    maybe = ("stops", "dur", "service", "tw", "mixed", "mixed", "fixed", "nv", "drop", "periodic")
    kw = dict(gaps=4, far=2, big=8, heuristic=25, pct=22)
    cases = {"quick": 4500, "thorough": 120000}
    judge = route_judge("viol_capacity")

    def nontrivial(self, ref, run, case):
        return ref.load(ref.cust) > max(ref.cap) and two_in_a_route(run)


class C03(SolveProp):
    id = "C03"
    rule = (
        "random instance with a maximum number of stops and/or a maximum duration (with service "
        "times); non-trivial: the limit excludes a path through all the customers and a route "
        "has at least 2 stops"
    )
    maybe = ("load", "stops", "dur", "dur", "dur", "service", "service", "tw", "mixed", "fixed", "nv", "drop", "periodic", "dc")
    kw = dict(gaps=5, far=2, big=8, heuristic=25, pct=32)
    cases = {"quick": 4500, "thorough": 120000}

    def strategy(self):
        kw = dict(nmin=3, nmax=7, pct=25, opt=dict(greedy=100, lp=0, dive=0), initial=0, locked=0)
        return st.one_of(
            super().strategy(),
            super().strategy(),
            super().strategy(),
            cases(need=("dur",), maybe=("load", "service", "stops", "mixed", "fixed"), **kw),
        )

    def judge(self, ref, run, case):
        return route_judge("viol_stops")(self, ref, run, case) + route_judge("viol_duration")(
            self, ref, run, case
        )

    def nontrivial(self, ref, run, case):
        p = ref.p
        tight = p.get("num_stops") and p["num_stops"] < len(ref.cust)
        if p.get("duration"):
            r = ["Source"] + ref.cust + ["Sink"]
            tight = tight or any(e not in ref.E for e in zip(r, r[1:])) or (
                ref.duration(r) > p["duration"]
            )
        return bool(tight) and two_in_a_route(run)


class C04(SolveProp):
    id = "C04"
    rule = (
        "random instance with time windows (and service times); non-trivial: a route has at "
        "least 2 stops and some order of two customers is excluded by their windows"
    )
    need = ("tw",)
    maybe = ("load", "stops", "dur", "service", "service", "mixed", "fixed", "nv", "drop", "periodic", "dc", "pd")
    kw = dict(gaps=4, big=6, pct=25)
    cases = {"quick": 4000, "thorough": 80000}

    judge = route_judge("viol_tw")

    def nontrivial(self, ref, run, case):
        excl = any(
            u in ref.N and v in ref.N
            and ref.at(u, "lower") + ref.at(u, "service_time") + ref.time(u, v) > ref.at(v, "upper")
            for u, v in ref.E
        )
        return excl and two_in_a_route(run)


class C05(SolveProp):
    id = "C05"
    rule = (
        "random instance with simultaneous distribution and collection; non-trivial: a route has "
        "at least 2 stops and the order of the customers of some route matters for the load"
    )
    need = ("dc", "load")
    maybe = ("stops", "dur", "service", "tw", "mixed", "fixed", "nv", "drop", "periodic")
    kw = dict(big=5, pct=18, nmin=2)
    cases = {"quick": 4000, "thorough": 80000}
    judge = route_judge("viol_dc")

    def nontrivial(self, ref, run, case):
        for i, r in run.routes.items():
            if len(r) > 3:
                k = run.types[i]
                # the worst order: collect everything before delivering
                worst = max(
                    [ref.load(r)]
                    + [ref.load(r) + sum(max(0, ref.at(v, "collect") - ref.at(v, "demand")) for v in r[1:-1])]
                )
                if worst > ref.cap[k]:
                    return True
        return False


class C06(SolveProp):
    id = "C06"
    rule = (
        "random pickup and delivery instance (disjoint requests); non-trivial: a route serves at "
        "least 2 requests"
    )
    need = ("pd", "load")
    maybe = ("stops", "dur", "service", "tw", "fixed", "nv", "mixed")
    kw = dict(nmin=2, nmax=6, pct=20, initial=8, locked=8)
    cases = {"quick": 1100, "thorough": 20000}
    judge = route_judge("viol_pd")

    def strategy(self):
        # two requests, vehicles of different sizes: who carries what matters
        fleet = cases(
            need=("pd", "load", "mixed"), maybe=("fixed",), nmin=4, nmax=4, pct=20, initial=0, locked=0,
            dense=100, opt=dict(dive=0, greedy=0, limits=False),
        )
        return st.one_of(super().strategy(), super().strategy(), fleet)

    def nontrivial(self, ref, run, case):
        return any(len(r) > 4 for r in run.routes.values())


class C07(SolveProp):
    id = "C07"
    rule = (
        "random instance with a limited fleet (per vehicle type), with or without the obligation "
        "to use all of it; non-trivial: solved, and the limit is reached or must be reached"
    )
    need = ("nv",)
    maybe = ("load", "stops", "dur", "service", "tw", "mixed", "mixed", "fixed", "all", "all", "drop", "dc", "pd", "span")
    kw = dict(big=5, pct=25, locked=15)
    cases = {"quick": 3600, "thorough": 80000}

    def strategy(self):
        kw = dict(self.kw, pct=20, nmin=3, locked=100)
        return st.one_of(
            super().strategy(),
            super().strategy(),
            super().strategy(),
            cases(need=("nv", "mixed"), maybe=("load", "stops", "stops", "fixed", "dur"), **kw),
        )

    def judge(self, ref, run, case):
        out = []
        used = [sum(1 for i in run.routes if run.types[i] == k) for k in range(ref.K)]
        for k in range(ref.K):
            if used[k] > ref.nv[k]:
                out.append("%d vehicles of type %d used, %d available" % (used[k], k, ref.nv[k]))
        if ref.p.get("use_all_vehicles") and used != list(ref.nv) and self.can_use_all(ref, run, case):
            out.append("%s vehicles used (per type) instead of %s" % (used, ref.nv))
        return out

    def can_use_all(self, ref, run, case):
        """One route per vehicle exists: by counting if there is one type, else among the routes
        the search generated."""
        locked = case["solve"].get("preassignments", [])
        free = [v for v in ref.cust if not any(v in r for r in locked)]
        if ref.p.get("pickup_delivery"):
            free = [v for v in free if "request" in ref.N[v]]
        if ref.K == 1:
            return ref.nv[0] - len(locked) <= len(free)
        if locked or len(free) > 6:
            return False
        best = pool_optimum(ref, run, case)
        return best is not None and best < 1e9

    def nontrivial(self, ref, run, case):
        return any(
            sum(1 for i in run.routes if run.types[i] == k) == ref.nv[k] for k in range(ref.K)
        )


class C08(SolveProp):
    id = "C08"
    rule = (
        "random instance (fixed costs, mixed fleet, drop penalties, global span, locked routes) "
        "and solving options; non-trivial: at least one route with 2 stops or 2 routes"
    )
    maybe = ("load", "stops", "dur", "service", "tw", "dc", "mixed", "mixed", "fixed", "fixed", "fixed", "nv", "drop", "drop", "periodic", "pd", "span")
    kw = dict(gaps=5, far=3, big=5, pct=25, heuristic=25, locked=15, partial=10)
    cases = {"quick": 3200, "thorough": 120000}

    def judge(self, ref, run, case):
        out = []
        p = run.prob
        costs = p.best_routes_cost
        if set(costs) != set(run.routes):
            out.append("best_routes_cost for %r, routes %r" % (sorted(costs), sorted(run.routes)))
            return out
        want = {}
        for i, r in run.routes.items():
            if ref.shape(r):
                return out
            want[i] = ref.cost(r, run.types[i])
            if not close(costs[i], want[i]):
                out.append("cost of route %r (type %s) reported %s, is %s" % (r, run.types[i], costs[i], want[i]))
        penalty = (ref.p.get("drop_penalty") or 0) * len(dropped(case, run))
        if ref.p.get("minimize_global_span"):
            total = max(want.values()) + penalty
        else:
            total = math.fsum(want.values()) + penalty
        if not close(p.best_value, total):
            out.append("best_value reported %s, is %s" % (p.best_value, total))
        return out

    def nontrivial(self, ref, run, case):
        return len(run.routes) > 1 or two_in_a_route(run)


class C09(SolveProp):
    id = "C09"
    rule = (
        "random instance and solving options; every reported load, duration, arrival and "
        "departure time is compared with a simulation of the route; non-trivial: some route has "
        "at least 2 stops and at least one figure is reported"
    )
    maybe = ("load", "load", "load", "stops", "dur", "dur", "service", "service", "service", "tw", "tw", "dc", "pd", "mixed", "fixed", "nv", "drop", "periodic")
    kw = dict(gaps=5, far=3, big=5, pct=25, heuristic=25)
    cases = {"quick": 4500, "thorough": 100000}

    def judge(self, ref, run, case):
        out = []
        p = run.prob
        q = ref.p
        routes = run.routes
        if any(ref.shape(r) for r in routes.values()):
            return out

        def cmp(name, got, want):
            if set(got) != set(want):
                out.append("%s has keys %r, expected %r" % (name, sorted(got, key=str), sorted(want, key=str)))
                return
            for k in want:
                if isinstance(want[k], dict):
                    cmp("%s[%r]" % (name, k), got[k], want[k])
                elif not close(got[k], want[k]):
                    out.append("%s[%r] = %s, expected %s (routes %r)" % (name, k, got[k], want[k], routes))

        timed = q.get("duration") or q.get("time_windows")
        loaded = q.get("load_capacity")
        dc, pd = q.get("distribution_collection"), q.get("pickup_delivery")
        cmp("best_routes_duration", p.best_routes_duration,
            {i: ref.duration(r) for i, r in routes.items()} if timed else {})
        arr = {i: ref.arrivals(r) for i, r in routes.items()} if timed else {}
        cmp("arrival_time", p.arrival_time, arr)
        cmp("departure_time", p.departure_time,
            {i: {v: t + (ref.at(v, "service_time") if v in ref.N else 0) for v, t in a.items()} for i, a in arr.items()})
        cmp("best_routes_load", p.best_routes_load,
            {i: ref.load(r) for i, r in routes.items()} if loaded and not dc and not pd else {})
        node = {}
        if loaded:
            for i, r in routes.items():
                q0 = ref.cap[run.types[i]] if dc else 0
                node[i] = {}
                for v in r:
                    if dc:
                        q0 += (ref.at(v, "collect") - ref.at(v, "demand")) if v in ref.N else 0
                    else:
                        q0 += ref.at(v, "demand")
                    node[i][v] = q0
        cmp("node_load", p.node_load, node)
        if q.get("time_windows") and not out:
            for name in ("check_arrival_time", "check_departure_time"):
                try:
                    getattr(p, name)()
                except AssertionError:
                    late = [v for a in arr.values() for v, t in a.items() if t > ref.at(v, "upper")]
                    if set(late) <= {"Source"}:
                        out.append("%s() fails on a plan that is in time" % name)
        return out

    def nontrivial(self, ref, run, case):
        return two_in_a_route(run) and bool(
            ref.p.get("load_capacity") or ref.p.get("duration") or ref.p.get("time_windows")
        )


PROPS = [C01(), C02(), C03(), C04(), C05(), C06(), C07(), C08(), C09()]
