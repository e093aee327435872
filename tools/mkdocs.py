"""Writes properties.jsonl and MANIFEST.json (one place for the wording)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": ["vrpy/" + f for f in files],
                    "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


ANY = ("every valid instance (graph, demands, times, variants in any combination) and every "
       "combination of solving options")
SUITE = ("the suite solves a few dozen hand-written graphs (mostly one 5-node toy and 4 benchmark "
         "files) with one or two options each; ")

prop("C01", "Every plan visits each customer the required number of times",
     "The plan returned by solve() consists of routes that start at Source, end at Sink, follow "
     "edges of the graph and never repeat a customer within a route, each with an identifier and "
     "an existing vehicle type. Every customer is visited exactly once over all the routes "
     "(as often as its frequency in the periodic variant), except customers dropped for a "
     "penalty; whatever the variant and the solving options, solve() returns such a plan when "
     "every customer can be served alone and the fleet is not limited.",
     ["inputs", "configurations"], ANY,
     SUITE + "coverage depends on which columns are generated, so a lost or repeated customer "
     "only shows on particular costs, sparsity patterns and strategies.",
     ["vrp.py", "master_solve_pulp.py", "subproblem_cspy.py", "subproblem_lp.py", "clarke_wright.py", "greedy.py"],
     [("set partitioning constraints, integer solve", "vrpy/master_solve_pulp.py _add_set_covering_constraints, _solve"),
      ("non elementary routes are excluded from the final choice", "vrpy/master_solve_pulp.py _solve"),
      ("routes as node lists", "vrpy/vrp.py _best_routes_as_node_lists")])
prop("C02", "No route exceeds the capacity of its vehicle",
     "When a load capacity is given, the total demand of the customers of each returned route is "
     "at most the capacity of the vehicle type assigned to that route. This holds for one or "
     "several vehicle types, with any other constraint and any solving option, the savings "
     "heuristic alone included.",
     ["inputs", "configurations"], "all capacitated instances without pickup and delivery, all options",
     SUITE + "capacity is enforced separately in six places (savings, greedy, randomised greedy, "
     "cspy, LP, stop bound), each active for some options only.",
     ["clarke_wright.py", "greedy.py", "subproblem_greedy.py", "subproblem_cspy.py", "subproblem_lp.py", "preprocessing.py", "vrp.py"],
     [("load resource", "vrpy/subproblem_cspy.py add_max_load"), ("load constraint", "vrpy/subproblem_lp.py _add_max_load"),
      ("merge test", "vrpy/clarke_wright.py"), ("vehicle type of a route", "vrpy/vrp.py _convert_initial_routes_to_digraphs")])
prop("C03", "No route exceeds the maximum number of stops or the maximum duration",
     "When a maximum number of stops is given, no returned route visits more customers than that. "
     "When a maximum duration is given, the travel times plus the service times of each returned "
     "route add up to at most that duration. Both hold with any other constraint and any solving option.",
     ["inputs", "configurations"], "all instances with a stop limit and/or a duration limit, all options",
     SUITE + "service times, asymmetric times and missing edges matter and are not sampled; both "
     "limits are enforced separately by five algorithms.",
     ["clarke_wright.py", "greedy.py", "subproblem_greedy.py", "subproblem_cspy.py", "subproblem_lp.py"],
     [("stops resource and duration resource", "vrpy/subproblem_cspy.py add_max_stops, add_max_duration"),
      ("constraints", "vrpy/subproblem_lp.py _add_max_stops, _add_max_duration"), ("merge test", "vrpy/clarke_wright.py")])
prop("C04", "Every customer is reached within its time window",
     "With time windows, a vehicle that leaves the Source at its opening time, drives the "
     "returned route, waits whenever it is early and stays for the service time at each customer "
     "reaches every customer, and the Sink if it has a closing time, before the end of its window.",
     ["inputs", "configurations"], "all instances with time windows (service times, opening and closing times of the depot), all options",
     SUITE + "a violation needs a specific order of windows, waiting and service times.",
     ["subproblem_cspy.py", "subproblem_lp.py", "vrp.py"],
     [("resource extension", "vrpy/subproblem_cspy.py REF_fwd"), ("time constraints", "vrpy/subproblem_lp.py _add_time_windows"),
      ("window tightening and arc removal", "vrpy/vrp.py _remove_infeasible_arcs_time_windows")])
prop("C05", "With distribution and collection the load on the truck always fits",
     "With simultaneous distribution and collection, a truck that leaves the Source with all the "
     "deliveries of its route never carries more than its capacity at any point of the route.",
     ["inputs", "configurations"], "all instances with deliveries and collections, all options",
     SUITE + "only two tests cover this variant; the order of the stops decides.",
     ["subproblem_cspy.py", "subproblem_lp.py"],
     [("delivery and collection resources", "vrpy/subproblem_cspy.py REF_fwd"), ("load variables", "vrpy/subproblem_lp.py _add_distribution_collection")])
prop("C06", "Pickups and deliveries: same vehicle, right order, load fits",
     "With pickup and delivery, each request is served by a single route that visits the pickup "
     "before the delivery. Along every returned route the load on the truck never exceeds the "
     "capacity of its vehicle type.",
     ["inputs", "configurations"], "all instances with disjoint requests (with stops, durations, time windows, fleets), LP pricing",
     SUITE + "two tests with one graph cover this variant.",
     ["subproblem_lp.py", "vrp.py"],
     [("precedence and load constraints", "vrpy/subproblem_lp.py _add_pickup_delivery"), ("initial routes", "vrpy/vrp.py _get_initial_solution")])
prop("C07", "The number of vehicles of each type is respected",
     "When the number of vehicles is limited, the plan uses at most that many routes of each "
     "vehicle type, locked routes included. When all the vehicles must be used, it uses exactly "
     "that many whenever the generated routes allow it.",
     ["inputs", "configurations"], "all instances with a limited fleet (one or several types), all options except the savings heuristic alone",
     SUITE + "limits interact with artificial variables, locked routes and vehicle types.",
     ["master_solve_pulp.py", "vrp.py"],
     [("fleet constraints and artificial variables", "vrpy/master_solve_pulp.py _add_bound_vehicles"), ("locked routes", "vrpy/vrp.py _lock")])
prop("C08", "Reported costs are the true costs of the plan",
     "The cost reported for each route is the sum of the costs of its edges for its vehicle type "
     "plus the fixed cost of that type. The reported value is the sum of the route costs (the "
     "largest of them when the global span is minimised) plus the penalty of each dropped customer.",
     ["inputs", "configurations"], ANY,
     SUITE + "most tests assert the total only; fixed costs, vehicle types, partial preassignments "
     "and dropping are combined in none.",
     ["vrp.py"],
     [("route costs, value", "vrpy/vrp.py best_routes_cost, best_value"), ("fixed costs", "vrpy/vrp.py _add_fixed_costs"),
      ("copy of the graph used for reporting", "vrpy/vrp.py _update_dummy_attributes")])
prop("C09", "Reported loads, durations and times match the routes",
     "The reported loads (per route and per node), durations, arrival times and departure times "
     "are those obtained by simulating each returned route: waiting until a window opens, adding "
     "service times, accumulating demands (or collections minus deliveries from a full truck).",
     ["inputs", "configurations"], ANY,
     SUITE + "these figures are asserted on three toy graphs.",
     ["vrp.py"],
     [("reports", "vrpy/vrp.py best_routes_load, node_load, best_routes_duration, arrival_time, departure_time")])
prop("C10", "The search only stops when no feasible route can improve the relaxation",
     "When it runs to the end, column generation stops at the value of the linear relaxation over "
     "all feasible routes: never above it, and not below it when only elementary routes are "
     "used. The returned plan never costs less than the cheapest feasible plan.",
     ["inputs", "configurations"], "all instances small enough to enumerate every feasible route, all pricing strategies, cspy and LP, with or without the randomised greedy",
     SUITE + "the tests compare with one known value per graph; a pricing error that misses some "
     "routes is invisible unless the missed route matters there.",
     ["vrp.py", "subproblem.py", "subproblem_cspy.py", "subproblem_lp.py", "subproblem_greedy.py", "master_solve_pulp.py", "preprocessing.py"],
     [("column generation loop and fall back on exact pricing", "vrpy/vrp.py _find_columns"), ("reduced costs", "vrpy/subproblem.py add_reduced_cost_attribute"),
      ("edge removal of the heuristic strategies", "vrpy/subproblem.py remove_edges_1, remove_edges_2, remove_edges_3"),
      ("stop bound", "vrpy/preprocessing.py get_num_stops_upper_bound"), ("arc removal", "vrpy/vrp.py _prune_graph")])
prop("C11", "The plan is the cheapest combination of the generated routes",
     "Without diving, the returned plan is a cheapest combination of the routes available at the "
     "end of the search. In particular it never costs more than the initial routes given by the "
     "user (unlimited fleet), nor than the savings heuristic when that applies, and a plan is "
     "returned whenever the available routes can be combined into one.",
     ["inputs", "configurations"], "all instances and options (initial routes, limits, vehicle types, frequencies) without diving",
     SUITE + "optimality of the final selection depends on integrality, fleet and frequency constraints over arbitrary pools.",
     ["master_solve_pulp.py", "vrp.py", "clarke_wright.py"],
     [("integer solve", "vrpy/master_solve_pulp.py _solve"), ("initial columns", "vrpy/vrp.py _get_initial_solution, _convert_initial_routes_to_digraphs")])
prop("C12", "Customers are dropped only for the penalty, and never at a loss",
     "With a drop penalty each customer is visited once or dropped, and the value counts one "
     "penalty per dropped customer. The plan never costs more than dropping everybody, nor "
     "(without diving) than any combination of the generated routes with penalties for the rest.",
     ["inputs", "configurations"], "all instances with a drop penalty (with capacities, fleets, windows, locked routes), all options",
     SUITE + "three tests with one penalty each.",
     ["master_solve_pulp.py", "vrp.py"],
     [("drop variables", "vrpy/master_solve_pulp.py _add_drop_variables"), ("dropped customers and value", "vrpy/vrp.py _post_process, best_value")])
prop("C13", "Periodic plans meet the frequencies and have a valid balanced schedule",
     "In the periodic variant every customer is visited as often as its frequency, and the "
     "schedule assigns each route to exactly one day of the period so that no customer is "
     "visited twice on a day and the daily number of vehicles of each type is respected. A "
     "schedule is given whenever one exists for the routes, and no other one has a smaller "
     "difference between the busiest and the quietest day.",
     ["inputs", "configurations"], "all periodic instances (period up to 4 days, frequencies, daily fleets), all options",
     SUITE + "two toy graphs with one or two frequencies.",
     ["schedule.py", "master_solve_pulp.py", "vrp.py", "checks.py"],
     [("schedule", "vrpy/schedule.py _formulate, routes_per_day"), ("frequencies", "vrpy/master_solve_pulp.py _add_set_covering_constraints")])
prop("C14", "Locked routes are kept as they are and the rest is planned around them",
     "Each complete preassigned route appears exactly once, unchanged, in the plan, with the "
     "cheapest vehicle type that can carry it (among those with vehicles left) and its true cost, "
     "and it takes one of the available vehicles. Its customers are in no other route and every other customer is served as usual.",
     ["inputs", "configurations"], "all instances and all sets of disjoint feasible complete preassigned routes, all options",
     SUITE + "four tests lock one route in a toy graph.",
     ["vrp.py", "checks.py"],
     [("locking", "vrpy/vrp.py _lock, _get_locked_type"), ("merging", "vrpy/vrp.py _merge_preassigned_routes")])
prop("C15", "Ill-formed problems are rejected",
     "A problem that breaks a documented precondition raises TypeError, ValueError, KeyError, "
     "NetworkXError or NotImplementedError as appropriate instead of returning a plan: wrong graph "
     "type, missing depot nodes or costs, edges into Source or out of Sink, invalid limits, "
     "inconsistent fleet lists, unknown pricing strategy, malformed initial or preassigned "
     "routes, a customer with more demand than any vehicle or out of reach within the duration, "
     "incompatible options.",
     ["inputs", "configurations"], "every valid instance of every variant with one precondition broken anywhere",
     SUITE + "each check is tested on one graph with one wrong value.",
     ["checks.py", "vrp.py"],
     [("validation", "vrpy/checks.py")])
prop("C16", "A problem can be modified and solved again; solve() leaves its inputs alone",
     "solve() never changes the graph, the parameters or the arguments it was given, whether it "
     "succeeds or raises. After any sequence of modifications of the graph and parameters, "
     "solves with different options and rejected calls, the next solve() returns a plan (and "
     "reaches a relaxation) that is right for the current state of the problem, as if the "
     "problem were new.",
     ["histories"], "all histories of modifications, solves and rejected calls on one problem object",
     "every test builds a fresh problem and solves it once or twice with the same data.",
     ["vrp.py"],
     [("copies for pre-processing, reset", "vrpy/vrp.py solve, _reset")])
prop("C17", "The savings heuristic alone returns a feasible plan with its true cost",
     "With heuristic_only the returned plan visits every customer exactly once, respects the "
     "capacity, the number of stops and the duration (with service times) on every route, keeps "
     "the locked routes, and reports the true cost of each route and of the plan.",
     ["inputs", "configurations"], "all instances of the compatible variants (up to 14 customers, asymmetric and sparse graphs)",
     SUITE + "the heuristic is run on a 6-node graph only.",
     ["clarke_wright.py", "vrp.py"],
     [("savings and merges", "vrpy/clarke_wright.py"), ("result", "vrpy/vrp.py _solve_with_clarke_wright")])
prop("C18", "Time and iteration limits never spoil the plan",
     "Whenever the time limit or the iteration limit interrupts the search, at whatever moment "
     "the clock passes it, solve() still returns a complete feasible plan with its true cost, "
     "the cheapest combination of the routes available by then. The iteration limit is never "
     "exceeded and no new iteration starts once the time is over, except that diving always makes "
     "one iteration.",
     ["fault_sequences", "inputs", "configurations"], "all instances and options with limits, under all clocks: frozen, running at any speed, jumping between two readings",
     "real time decides where a time limit falls, so tests cannot place it; they use one limit on one benchmark.",
     ["vrp.py", "subproblem_lp.py", "subproblem_cspy.py", "hyper_heuristic.py", "schedule.py"],
     [("limits", "vrpy/vrp.py _column_generation, _get_time_remaining"), ("run times in the choice of strategy", "vrpy/hyper_heuristic.py")])
prop("C19", "Names, order, cost unit and solving strategy do not change the relaxation",
     "Renaming the customers, adding nodes and edges in another order, multiplying all the costs "
     "by a constant or choosing another pricing strategy, pricing algorithm or acceleration does not "
     "change the value (up to the constant) at which column generation over elementary routes "
     "ends, and no plan costs less than that value.",
     ["inputs", "configurations"], "all pairs of equivalent instances (up to 8 customers) and option sets that run to the end",
     SUITE + "the tests assert values on single instances, and cannot compare where the value is unknown.",
     ["vrp.py", "subproblem.py", "subproblem_cspy.py", "subproblem_lp.py", "subproblem_greedy.py"],
     [("strategies", "vrpy/vrp.py _solve_subproblem_with_heuristic"), ("dual values by node name", "vrpy/master_solve_pulp.py get_duals")])
prop("C22", "Minimising the global span minimises the most expensive route",
     "With the global span option, the plan visits every customer once on feasible routes, its "
     "value is the cost of its most expensive route, and no combination of the generated routes, "
     "nor the initial routes of the user, has a smaller most expensive route.",
     ["inputs", "configurations"], "all instances with the global span option, all options without diving",
     SUITE + "one toy graph.",
     ["master_solve_pulp.py", "vrp.py"],
     [("makespan constraints", "vrpy/master_solve_pulp.py _add_route_selection_variable_for_global_span")])

prop("C23", "Partial preassigned routes steer the search, at their true cost",
     "With partial preassigned routes (without Source or without Sink) the search treats the given "
     "edges as free, for every vehicle type: the returned plan is a cheapest combination of the "
     "generated routes when these edges cost nothing, and column generation does not stop above the "
     "value of the relaxation at these costs. The plan still serves everybody on feasible routes, "
     "and all the reported costs are the true ones.",
     ["inputs", "configurations"],
     "all instances, 1 to 3 partial preassigned routes (any chain of edges with at most one depot "
     "end), alone or next to complete ones, all options (pool optimality: without diving)",
     SUITE + "one partial route on the toy graph.",
     ["vrp.py"],
     [("free edges", "vrpy/vrp.py _lock"), ("true costs kept aside", "vrpy/vrp.py _update_dummy_attributes, best_routes_cost")])

NOTE = ("sampled: no violation in the generated cases (counts, non-trivial share and samples in the "
        "evidence file); the oracle is an independent model of the documented rules; trusts CBC, "
        "networkx and the generator's domain (every customer can be served alone)")
TECH = {
    "C10": "property-based testing against exhaustive route enumeration",
    "C23": "property-based testing against exhaustive route enumeration and a dynamic program, with free edges",
    "C11": "property-based testing against a dynamic program over the generated routes",
    "C12": "property-based testing against a dynamic program and exhaustive enumeration",
    "C13": "property-based testing against exhaustive schedule search",
    "C15": "mutation fuzzing of valid instances with expected rejections",
    "C16": "stateful property-based testing (model of the problem state)",
    "C18": "property-based testing with an injected clock",
    "C19": "differential and metamorphic property-based testing",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": TECH.get(p["id"], "property-based testing against a reference model"),
            "level": "exploration",
            "level_note": NOTE,
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --selftest",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo. VERIF_SCALE and VERIF_CAP scale the number of cases and the wall-clock budget.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")


main()
