"""Hypothesis strategies for problem instances and solving options.

Instances are built so that they satisfy the documented preconditions by construction:
every customer can be served alone (a round trip, or Source-pickup-delivery-Sink), demands fit the
largest vehicle, lists have one entry per vehicle type, attributes have the documented types.
"""
import math
import random

from hypothesis import strategies as st

PRICING = ["BestEdges1", "Exact", "BestEdges2", "BestPaths", "Hyper"]


def chance(draw, pct):
    """True with about pct %; shrinks to False."""
    return draw(st.integers(0, 99)) >= 100 - pct


def pick(draw, *items):
    return draw(st.sampled_from(items))


LABELS = ["int", "int0", "gap", "letter", "city", "mixed", "odd"]
# Names that a solver interface may have to rewrite; they stay different when special characters
# are replaced by _ (see DESIGN.md)
ODD = ["North St", -3, "c-d", "a", "b_a", "ab_a", "a_b", "[x]", "50%", "x/y", "non", "q, r", "y_1"]


def make_labels(draw, n, styles=LABELS):
    s = pick(draw, *styles)
    if s == "int":
        return list(range(1, n + 1))
    if s == "int0":
        return list(range(n))
    if s == "gap":
        return [10 * i + 7 for i in range(n)][::-1]
    if s == "letter":
        return [chr(ord("A") + i) for i in range(n)]
    if s == "city":
        return ["node%d" % (n - i) for i in range(n)]
    if s == "odd":
        k = draw(st.integers(0, len(ODD) - 1))
        return [(ODD * 4)[k + i] if i < len(ODD) else "n%d" % i for i in range(n)]
    return [i if i % 2 else "c%d" % i for i in range(1, n + 1)]


class Net:
    """Symmetric / asymmetric / euclidean costs and travel times on a (possibly sparse) graph."""

    def __init__(self, draw, labels, K, mixed, metric_time=False, dense=None, unit=None):
        n = len(labels)
        kind = pick(draw, "asym", "sym", "plane", "asym")
        cmax = pick(draw, 10, 3, 50, 200)
        tmax = pick(draw, 10, 3, 30)
        unit = unit or pick(draw, 1, 1, 1, 0.5, 0.1)
        dense = dense if dense is not None else pick(draw, 100, 100, 60, 25)
        pts = ["Source"] + labels + ["Sink"]
        C, T = {}, {}
        if kind == "plane":
            xy = {v: (draw(st.integers(0, 12)), draw(st.integers(0, 12))) for v in labels}
            xy["Source"] = xy["Sink"] = (
                draw(st.integers(0, 12)),
                draw(st.integers(0, 12)),
            )
        speed = [1] + [pick(draw, 1, 2, 3) for _ in range(K - 1)]
        # larger networks are drawn as a whole
        rnd = random.Random(draw(st.integers(0, 10**6))) if n > 9 else None

        def base(u, v):
            if kind == "plane":
                d = abs(xy[u][0] - xy[v][0]) + abs(xy[u][1] - xy[v][1])
                return [d * s for s in speed], d
            if rnd:
                return [rnd.randint(0, cmax) for _ in range(K)], rnd.randint(0, tmax)
            return (
                [draw(st.integers(0, cmax)) for _ in range(K)],
                draw(st.integers(0, tmax)),
            )

        self.keep = set()
        for i, u in enumerate(pts[:-1]):
            for v in pts[1:]:
                if u == v or (u == "Source" and v == "Sink"):
                    continue
                mirror = (
                    "Source" if v == "Sink" else v,
                    "Sink" if u == "Source" else u,
                )
                if kind == "sym" and mirror in C:
                    C[u, v], T[u, v] = C[mirror], T[mirror]
                else:
                    C[u, v], T[u, v] = base(u, v)
                if u == "Source" or v == "Sink" or (
                    rnd.randrange(100) < dense if rnd else chance(draw, dense)
                ):
                    self.keep.add((u, v))
        if metric_time:
            inner = pts[1:-1]
            for w in inner:
                for u in pts[:-1]:
                    for v in pts[1:]:
                        if (u, w) in T and (w, v) in T and (u, v) in T:
                            T[u, v] = min(T[u, v], T[u, w] + T[w, v])
        r = (lambda x: x) if unit == 1 else (lambda x: round(x * unit, 6))
        big = pick(draw, 1, 1, 1, 1, 1, 1, 1, 1000, 40000)
        self.C = {e: [r(x) * big for x in c] for e, c in C.items()}
        if chance(draw, 5):
            # the user may also give the edge Source-Sink
            self.C["Source", "Sink"], T["Source", "Sink"] = [draw(st.integers(0, 9))] * K, 0
            self.keep.add(("Source", "Sink"))
        self.T = {e: r(t) for e, t in T.items()}
        self.mixed = mixed
        self.unit = unit
        self.kind = kind

    def edges(self, with_time, order=None):
        out = []
        for e in self.C:
            if e in self.keep:
                c = self.C[e]
                out.append(
                    [e[0], e[1], c if self.mixed else c[0], self.T[e] if with_time else None]
                )
        return out


FEATS = (
    "load", "stops", "dur", "tw", "dc", "pd", "mixed", "fixed", "nv", "all",
    "drop", "span", "periodic", "service",
)
HEURISTIC = {"load", "stops", "dur", "service", "fixed"}


@st.composite
def instances(
    draw,
    need=(),
    maybe=(),
    nmin=1,
    nmax=5,
    big=0,
    nbig=10,
    labels=LABELS,
    metric_time=False,
    dense=None,
    pct=35,
    sink_missing=True,
    depot_demand=True,
    gaps=0,
    far=0,
):
    """An instance with every feature of `need`, and some of `maybe`."""
    f = set(need)
    share = pick(draw, pct, pct, 60, 15)  # plain instances and instances with many features
    for x in maybe:
        if chance(draw, share):
            f.add(x)
    # combinations with no documented meaning
    if "pd" in f:
        f -= {"dc", "periodic", "span", "drop"}
        f.add("load")
    if "dc" in f:
        f.add("load")
    if "periodic" in f:
        f -= {"drop", "span", "all"}
    if "span" in f:
        f -= {"mixed", "drop"}
    if "all" in f:
        f.add("nv")
        f -= {"drop"}
    if "mixed" in f and not f & {"load", "fixed", "nv"}:
        f.add("load")
    n = draw(st.integers(nmin, nmax))
    if big and not f & {"pd", "periodic"} and chance(draw, big):
        # (the search is elementary with distribution and collection, hence slow)
        n = draw(st.integers(nmax + 1, max(nmax + 1, 7) if "dc" in f else nbig))
    if far and not set(need) - HEURISTIC and chance(draw, far):
        # large instances, for the savings heuristic only
        n = draw(st.integers(15, 28))
        f &= HEURISTIC
    if "pd" in f:
        n = max(2, n - n % 2)
    names = make_labels(draw, n, labels)
    mixed = "mixed" in f
    K = draw(st.integers(1, 3)) if mixed else 1
    # the windows are tightened assuming the triangle inequality, under which a delivery can
    # always be inserted
    metric_time = metric_time or {"pd", "tw"} <= f
    net = Net(draw, names, K, mixed, metric_time=metric_time, dense=dense)
    unit = net.unit
    T = net.T
    gap = gaps and n > 1 and not f & {"mixed", "nv"} and chance(draw, gaps)
    if gap and not {"pd", "tw"} <= f:  # the added roads (time 0) break the triangle inequality
        # no road between the depot and some customers (expensive ones are added by the solver)
        for v in names:
            for e in (("Source", v), (v, "Sink")):
                if chance(draw, 30):
                    net.keep.discard(e)
                    T[e] = 0
        if not any(e[0] == "Source" for e in net.keep):
            net.keep.add(("Source", names[0]))
        if not any(e[1] == "Sink" for e in net.keep):
            net.keep.add((names[-1], "Sink"))
    need_time = bool(f & {"dur", "tw"})
    with_time = need_time or chance(draw, 40)
    N = {v: {} for v in names}
    prob, depot = {}, {"Source": {}, "Sink": {}}
    partner = {}
    if "pd" in f:
        prob["pickup_delivery"] = True
        for i in range(0, n, 2):
            a, b = names[i], names[i + 1]
            if chance(draw, 50):
                a, b = b, a
            partner[a] = b
            N[a]["request"] = b
            net.keep.add((a, b))
    service = "service" in f
    if service:
        for v in names:
            if not chance(draw, 15):
                s = draw(st.integers(0, 5))
                N[v]["service_time"] = s if unit == 1 else round(s * unit, 6)

    def sv(v):
        return N[v].get("service_time", 0)

    if "load" in f:
        if "pd" in f:
            zero = chance(draw, 25)
            for a, b in partner.items():
                q = draw(st.integers(1, 6)) if not zero else pick(draw, 0, 1)
                N[a]["demand"], N[b]["demand"] = q, -q
            need_cap = max(N[a]["demand"] for a in partner)
            tot = sum(N[a]["demand"] for a in partner)
        else:
            dmax = pick(draw, 6, 3, 20, 1)
            lo = pick(draw, 1, 0)
            half = chance(draw, 10)
            for v in names:
                if lo == 0 and chance(draw, 20):
                    continue
                q = draw(st.integers(lo, dmax))
                N[v]["demand"] = q + 0.5 if half and "dc" not in f else q
            need_cap = max(N[v].get("demand", 0) for v in names)
            tot = sum(N[v].get("demand", 0) for v in names)
        if "dc" in f:
            prob["distribution_collection"] = True
            cmax = pick(draw, 6, 6, 2, 1)
            for v in names:
                if not chance(draw, 15):
                    N[v]["collect"] = draw(st.integers(0, cmax))
            need_cap = max([need_cap] + [N[v].get("collect", 0) for v in names])
            tot = max(tot, sum(N[v].get("collect", 0) for v in names))
        lo_cap = max(1, int(-(-need_cap // 1)))
        hi_cap = max(lo_cap, int(tot) + 1)
        if "dc" in f and chance(draw, 50):
            hi_cap = max(lo_cap, min(hi_cap, 2 * lo_cap))
        cap = [draw(st.integers(lo_cap, hi_cap)) for _ in range(K)]
        if mixed:
            for i in range(1, K):
                if chance(draw, 35):
                    cap[i] = draw(st.integers(1, lo_cap))
            if chance(draw, 50):
                cap = cap[::-1]
        prob["load_capacity"] = cap if mixed else cap[0]
        if depot_demand and "pd" not in f and "dc" not in f and chance(draw, 10):
            depot[pick(draw, "Source", "Sink")]["demand"] = draw(st.integers(1, 5))
    if mixed:
        prob["mixed_fleet"] = True
    if "fixed" in f:
        fc = [draw(st.integers(0, 20)) for _ in range(K)]
        if chance(draw, 10):
            fc = [x + 0.5 for x in fc]
        if mixed:
            prob["fixed_cost"] = fc
        else:
            prob["fixed_cost"] = max(1, fc[0])
    single = {}
    if "pd" in f:
        for a, b in partner.items():
            single[a, b] = ["Source", a, b, "Sink"]
    else:
        for v in names:
            single[v] = ["Source", v, "Sink"]
    if "stops" in f:
        prob["num_stops"] = draw(st.integers(2 if "pd" in f else 1, max(2, n)))
    if "dur" in f:
        base = max(
            sum(T[e] for e in zip(r, r[1:])) + sum(sv(v) for v in r[1:-1])
            for r in single.values()
        )
        tot = sum(sv(v) for v in names) + n * max(
            [T[e] for e in net.keep if e[0] != "Source"] or [0]
        )
        lo_d = max(1, int(-(-base // 1)))
        prob["duration"] = lo_d + draw(st.integers(0, max(1, min(40, int(tot)))))
    if "tw" in f:
        prob["time_windows"] = True
        start = 0
        # windows as fine as the travel times, or whole numbers
        w = unit if chance(draw, 60) else 1

        def fine(k):
            return k if w == 1 else round(k * w, 6)

        def after(t):
            k = math.ceil(round(t / w, 6))
            return k + (w not in (1, 0.5) and abs(k * w - t) < 1e-6)

        if chance(draw, 20):
            start = fine(draw(st.integers(1, 10)))
            depot["Source"]["lower"] = start
        width = pick(draw, 20, 5, 60, 0)
        horizon = pick(draw, 25, 60, 5)
        for v in names:
            N[v]["lower"] = fine(draw(st.integers(0, horizon)))
            N[v]["upper"] = 0
        ends = []
        for key, r in single.items():
            t = start
            for u, v in zip(r, r[1:]):
                t = t + (sv(u) if u in N else 0) + T[u, v]
                if v in N:
                    t = max(t, N[v]["lower"])
                    N[v]["upper"] = max(
                        N[v]["upper"], fine(after(t) + draw(st.integers(0, width)))
                    )
            ends.append(t)
        if not (sink_missing and chance(draw, 25)):
            depot["Sink"]["upper"] = fine(max(1, after(max(ends)) + draw(st.integers(0, 40))))
            if chance(draw, 12):
                # the depot does not take vehicles back before
                depot["Sink"]["lower"] = fine(
                    draw(st.integers(0, round(depot["Sink"]["upper"] / w)))
                )
    if "nv" in f:
        prob["num_vehicles"] = (
            [draw(st.integers(1, pick(draw, n, n, 1))) for _ in range(K)] if mixed else draw(st.integers(1, n))
        )
    if "all" in f:
        prob["use_all_vehicles"] = True
    if "drop" in f:
        prob["drop_penalty"] = pick(
            draw,
            draw(st.integers(1, 100)),
            draw(st.integers(1, 20)),
            draw(st.integers(1, 20)) + 0.5,
            1000,
        )
    if "span" in f:
        prob["minimize_global_span"] = True
    if "periodic" in f:
        days = draw(st.integers(1, 4))
        prob["periodic"] = days
        for v in names:
            if not chance(draw, 30):
                N[v]["frequency"] = draw(st.integers(1, days))
    edges = net.edges(with_time)
    if chance(draw, 40):
        edges = draw(st.permutations(edges))
    return {
        "nodes": [[v, N[v]] for v in names],
        "edges": [list(e) for e in edges],
        "depot": depot,
        "prob": prob,
        "nodes_first": not chance(draw, 30),
    }


def has(inst, key):
    return bool(inst["prob"].get(key))


@st.composite
def options(draw, inst, lp=25, pricing=PRICING, dive=15, greedy=20, limits=True, elementary=True):
    """Keyword arguments of solve() compatible with the instance."""
    o = {}
    pd = has(inst, "pickup_delivery")
    small = len(inst["nodes"]) <= 5
    if len(inst["nodes"]) == 5:
        lp = lp // 4  # the slowest cases
    cspy = not pd and not (small and chance(draw, lp))
    if not cspy:
        o["cspy"] = False
    s = draw(st.sampled_from(pricing))
    if s != "BestEdges1":
        o["pricing_strategy"] = s
    large = len(inst["nodes"]) > 8
    if elementary and cspy and not large and chance(draw, 25):
        o["elementary"] = True
    if dive and not large and chance(draw, dive):
        o["dive"] = True
    if greedy and chance(draw, greedy):
        o["greedy"] = True
    if limits and chance(draw, 15):
        o["max_iter"] = draw(st.integers(1, 6))
    if chance(draw, 15):
        o["run_exact"] = draw(st.integers(1, 5))
    return o


@st.composite
def partitions(draw, items):
    """A random ordered partition of items."""
    items = draw(st.permutations(items))
    out = []
    for v in items:
        if out and draw(st.booleans()):
            out[draw(st.integers(0, len(out) - 1))].append(v)
        else:
            out.append([v])
    return out
