"""Sanity checks of the environment and of the reference model (setup_cmd)."""


def main(out):
    import hypothesis
    import pulp

    from vlib.model import Ref, best_cover
    from vlib.sut import REPO, vrpy

    inst = {
        "nodes": [[1, {"demand": 2, "service_time": 1, "lower": 4, "upper": 6}], [2, {"demand": 3, "lower": 0, "upper": 9}]],
        "edges": [["Source", 1, 1, 1], ["Source", 2, 5, 2], [1, 2, 1, 1], [2, 1, 9, 9], [1, "Sink", 7, 1], [2, "Sink", 2, 1]],
        "depot": {},
        "prob": {"load_capacity": 5, "time_windows": True, "fixed_cost": 10},
    }
    ref = Ref(inst)
    r = ["Source", 1, 2, "Sink"]
    assert ref.cost(r, 0) == 14 and ref.load(r) == 5 and ref.duration(r) == 4
    assert ref.arrivals(r) == {"Source": 0, 1: 4, 2: 6, "Sink": 7}
    assert not ref.viol(r, 0) and ref.optimum() == 14
    assert [k for k, _ in ref.viol(["Source", 2, 1, "Sink"], 0)] == ["tw"]
    assert best_cover(2, [((0,), 0, 3), ((1,), 0, 4), ((0, 1), 0, 8)], (1, 1), (None,), False, None) == 7
    assert best_cover(2, [((0,), 0, 3), ((1,), 0, 4), ((0, 1), 0, 8)], (1, 1), (1,), False, None) == 8
    p = pulp.LpProblem("t", pulp.LpMinimize)
    x = pulp.LpVariable("x", lowBound=2)
    p += x
    p.solve(pulp.PULP_CBC_CMD(msg=False))
    assert pulp.value(x) == 2
    print("hypothesis %s, pulp %s, vrpy from %s: ok" % (hypothesis.__version__, pulp.__version__, REPO), file=out)
    return 0
