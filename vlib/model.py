"""Reference model: what a vehicle routing solution has to satisfy.

Written from the documentation (docs/vrp_variants.rst, docs/how_to.rst, the docstrings of the
public class), independent of vrpy's code: nothing in this file imports vrpy.

An instance is plain JSON:
  nodes : [[label, {demand, collect, service_time, lower, upper, frequency, request}], ...]
  edges : [[u, v, cost, time-or-null], ...]      cost is a number, or a list if mixed fleet
  depot : {"Source": {...}, "Sink": {...}}
  prob  : keyword arguments of the problem
"""
import math
from functools import lru_cache

EPS = 1e-6
INF = math.inf


def inexact(inst):
    """Some travel or service times are not multiples of 1/4, so sums are subject to rounding."""
    xs = [e[3] for e in inst["edges"] if e[3] is not None]
    xs += [a.get("service_time", 0) for _, a in inst["nodes"]]
    return any(x * 4 != int(x * 4) for x in xs)


class Ref:
    def __init__(self, inst, careful=False):
        """careful: with inexact times, routes that only just meet a limit are not counted."""
        self.eps = -EPS if careful and inexact(inst) else EPS
        p = inst["prob"]
        self.p = p
        self.N = {v: a for v, a in inst["nodes"]}
        self.cust = [v for v, _ in inst["nodes"]]
        self.D = inst.get("depot") or {}
        self.E = {}
        for u, v, c, t in inst["edges"]:
            self.E[u, v] = (c, 0 if t is None else t)
        self.mixed = bool(p.get("mixed_fleet"))
        lc = p.get("load_capacity")
        fc = p.get("fixed_cost")
        nv = p.get("num_vehicles")
        if self.mixed:
            self.K = len(lc or fc or nv)
            self.cap = lc or [None] * self.K
            self.fix = fc or [0] * self.K
            self.nv = nv or [None] * self.K
        else:
            self.K = 1
            self.cap = [lc]
            self.fix = [fc or 0]
            self.nv = [nv]
        # the depot edges that are missing are added with a high cost
        for v in self.cust:
            for e in (("Source", v), (v, "Sink")):
                if e not in self.E:
                    self.E[e] = (1e10, 0)
        self.succ = {}
        for u, v in self.E:
            self.succ.setdefault(u, []).append(v)
        up = self.D.get("Sink", {}).get("upper", 0)
        if up == 0:
            # no closing time at the depot
            cand = [
                self.N[u].get("upper", 0)
                + self.N[u].get("service_time", 0)
                + self.E[u, "Sink"][1]
                for u in self.cust
            ]
            up = max(cand) if cand else 0
        self.sink_up = up

    # ---- attributes
    def at(self, v, a):
        if v in self.N:
            return self.N[v].get(a, 0)
        if a == "demand":
            return 0
        if v == "Sink" and a == "upper":
            return self.sink_up
        return self.D.get(v, {}).get(a, 0)

    def time(self, u, v):
        return self.E[u, v][1]

    def edge_cost(self, u, v, k):
        c = self.E[u, v][0]
        return c[k] if isinstance(c, (list, tuple)) else c

    # ---- route quantities
    def travel_cost(self, r, k):
        return sum(self.edge_cost(u, v, k) for u, v in zip(r, r[1:]))

    def cost(self, r, k):
        return self.travel_cost(r, k) + self.fix[k]

    def load(self, r):
        return sum(self.at(v, "demand") for v in r)

    def duration(self, r):
        return sum(self.time(u, v) for u, v in zip(r, r[1:])) + sum(
            self.at(v, "service_time") for v in r
        )

    def arrivals(self, r):
        """Start of service at each node of r (waiting allowed)."""
        t = self.at("Source", "lower")
        out = {"Source": t}
        for u, v in zip(r, r[1:]):
            t = max(t + self.at(u, "service_time") + self.time(u, v), self.at(v, "lower"))
            out[v] = t
        return out

    def dc_loads(self, r):
        """Load on the truck when leaving each node, all deliveries loaded at the depot."""
        q = sum(self.at(v, "demand") for v in r)
        out = [q]
        for v in r[1:]:
            q += (self.at(v, "collect") - self.at(v, "demand")) if v in self.N else 0
            out.append(q)
        return out

    # ---- feasibility of one route; every entry is (kind, message)
    def shape(self, r):
        out = []
        if len(r) < 3 or r[0] != "Source" or r[-1] != "Sink":
            return [("shape", "route %r is not Source, customers, Sink" % (r,))]
        inner = r[1:-1]
        for v in inner:
            if v not in self.N:
                out.append(("shape", "unknown customer %r in %r" % (v, r)))
        if len(set(inner)) != len(inner):
            out.append(("shape", "customer repeated in %r" % (r,)))
        for e in zip(r, r[1:]):
            if e not in self.E:
                out.append(("shape", "edge %r of route %r is not in the graph" % (e, r)))
        return out

    def viol_capacity(self, r, k):
        cap = self.cap[k]
        if not cap or self.p.get("pickup_delivery"):
            return []
        q = self.load(r)
        if q > cap + EPS:
            return [("capacity", "load %s > capacity %s on %r (type %s)" % (q, cap, r, k))]
        return []

    def viol_stops(self, r, k):
        s = self.p.get("num_stops")
        if s and len(r) - 2 > s:
            return [("stops", "%d stops > %d on %r" % (len(r) - 2, s, r))]
        return []

    def viol_duration(self, r, k):
        d = self.p.get("duration")
        if d and self.duration(r) > d + self.eps:
            return [("duration", "duration %s > %s on %r" % (self.duration(r), d, r))]
        return []

    def viol_tw(self, r, k):
        if not self.p.get("time_windows"):
            return []
        arr = self.arrivals(r)
        return [
            ("tw", "arrival %s at %r after %s on %r" % (t, v, self.at(v, "upper"), r))
            for v, t in arr.items()
            if v != "Source" and t > self.at(v, "upper") + self.eps
        ][:1]

    def viol_dc(self, r, k):
        if not self.p.get("distribution_collection") or not self.cap[k]:
            return []
        m = max(self.dc_loads(r))
        if m > self.cap[k] + EPS:
            return [("dc", "load on truck %s > %s on %r (type %s)" % (m, self.cap[k], r, k))]
        return []

    def viol_pd(self, r, k):
        if not self.p.get("pickup_delivery"):
            return []
        out = []
        pos = {v: i for i, v in enumerate(r)}
        q = 0
        for v in r[1:-1]:
            q += self.at(v, "demand")
            if q > self.cap[k] + EPS:
                out.append(("pd", "load %s > %s leaving %r on %r" % (q, self.cap[k], v, r)))
            if q < -EPS:
                out.append(("pd", "negative load leaving %r on %r" % (v, r)))
        for v in self.cust:
            d = self.N[v].get("request")
            if d is None:
                continue
            if (v in pos) != (d in pos):
                out.append(("pd", "request %r->%r split on %r" % (v, d, r)))
            elif v in pos and pos[v] > pos[d]:
                out.append(("pd", "delivery %r before pickup %r on %r" % (d, v, r)))
        return out

    def viol(self, r, k):
        out = self.shape(r)
        if out:
            return out
        for f in (
            self.viol_capacity,
            self.viol_stops,
            self.viol_duration,
            self.viol_tw,
            self.viol_dc,
            self.viol_pd,
        ):
            out += f(r, k)
        return out

    # ---- exhaustive enumeration (small instances)
    def all_routes(self, k, banned_edges=()):
        """{frozenset(customers): (cost, route)} cheapest feasible route of each subset."""
        best = {}
        cap = self.cap[k]
        stops = self.p.get("num_stops")
        dur = self.p.get("duration")
        tw = self.p.get("time_windows")
        pd = self.p.get("pickup_delivery")
        maxdem = cap if cap and not pd else None

        def rec(path, seen, cost, load, elapsed, t):
            u = path[-1]
            for v in self.succ.get(u, ()):
                if v == "Sink":
                    if len(path) < 2:
                        continue
                    r = path + ["Sink"]
                    if self.viol(r, k):
                        continue
                    c = cost + self.edge_cost(u, v, k)
                    key = frozenset(path[1:])
                    if key not in best or c < best[key][0] - 1e-12:
                        best[key] = (c, r)
                    continue
                if v in seen or v not in self.N or (u, v) in banned_edges:
                    continue
                if stops and len(path) > stops:
                    continue
                nl = load + self.at(v, "demand")
                if maxdem is not None and nl > maxdem + EPS:
                    continue
                ne = elapsed + self.time(u, v) + self.at(v, "service_time")
                if dur and ne > dur + self.eps:
                    continue
                nt = max(t + self.at(u, "service_time") + self.time(u, v), self.at(v, "lower"))
                if tw and nt > self.at(v, "upper") + self.eps:
                    continue
                rec(path + [v], seen | {v}, cost + self.edge_cost(u, v, k), nl, ne, nt)

        rec(["Source"], frozenset(), self.fix[k], 0, 0, self.at("Source", "lower"))
        return best

    def optimum(self, routes=None, drop=None, exact_fleet=False, customers=None):
        """Minimum cost of a set of feasible routes that visits every customer exactly once."""
        routes = routes or [self.all_routes(k) for k in range(self.K)]
        cust = self.cust if customers is None else list(customers)
        n = len(cust)
        full = (1 << n) - 1
        idx = {v: i for i, v in enumerate(cust)}
        bylow = [[] for _ in range(n)]
        for k in range(self.K):
            for key, (c, _) in routes[k].items():
                if not all(v in idx for v in key):
                    continue
                m = sum(1 << idx[v] for v in key)
                bylow[(m & -m).bit_length() - 1].append((m, k, c))

        @lru_cache(None)
        def f(mask, left):
            if mask == full:
                if exact_fleet and any(x for x in left if x is not None):
                    return INF
                return 0
            low = 0
            while mask >> low & 1:
                low += 1
            b = INF
            if drop is not None:
                b = drop + f(mask | 1 << low, left)
            for m, k, c in bylow[low]:
                if m & mask:
                    continue
                nl = left
                if left[k] is not None:
                    if left[k] <= 0:
                        continue
                    nl = left[:k] + (left[k] - 1,) + left[k + 1 :]
                b = min(b, c + f(mask | m, nl))
            return b

        return f(0, tuple(self.nv))


def best_cover(n, columns, need, limits, exact, drop, minmax=False):
    """Cheapest selection of `columns` covering customer i exactly need[i] times.

    columns : list of (customers as tuple of indices, type, cost)
    need    : tuple of required visits
    limits  : tuple of number of vehicles per type (None: no limit)
    drop    : penalty or None (a customer may be dropped entirely)
    minmax  : minimise the largest cost instead of the sum
    With need all one each column is used at most once; otherwise it may be repeated.
    """
    best = {}
    for inner, k, c in columns:
        key = (tuple(sorted(inner)), k)
        if key not in best or c < best[key]:
            best[key] = c
    bylow = [[] for _ in range(n)]
    for (inner, k), c in best.items():
        bylow[inner[0]].append((inner, k, c))

    @lru_cache(None)
    def f(state, left):
        low = next((i for i in range(n) if state[i]), None)
        if low is None:
            if exact and any(x for x in left if x is not None):
                return INF
            return 0
        b = INF
        if drop is not None:
            s = list(state)
            s[low] = 0
            b = drop + f(tuple(s), left)
        # every column that contains `low`: either its first customer is low, or a smaller
        # customer already satisfied, in which case the column does not apply
        for inner, k, c in bylow[low]:
            if any(state[i] == 0 for i in inner):
                continue
            nl = left
            if left[k] is not None:
                if left[k] <= 0:
                    continue
                nl = left[:k] + (left[k] - 1,) + left[k + 1 :]
            s = list(state)
            for i in inner:
                s[i] -= 1
            x = f(tuple(s), nl)
            x = max(c, x) if minmax else c + x
            if x < b:
                b = x
        return b

    return f(tuple(need), tuple(limits))
