From 13594f9aa6d20aa6e574024154a5585625370582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 01/42] fix: use the actual travel times when Clarke & Wright
 inserts a node after the Source

The duration of a merge next to the Source was computed with the times
of the reverse arcs and of the arcs to the Sink, so that with asymmetric
times routes longer than the maximum duration were returned.
---
 vrpy/clarke_wright.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..eba2804 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._extra_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,23 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _extra_time(self, existing_node, new_node, depot):
+        """Returns the time added to the route if new_node is merged next to depot."""
+        if depot == "Sink":
+            travel_time = (
+                self.G.edges[existing_node, new_node]["time"]
+                + self.G.edges[new_node, "Sink"]["time"]
+                - self.G.edges[existing_node, "Sink"]["time"]
+            )
+        else:
+            travel_time = (
+                self.G.edges["Source", new_node]["time"]
+                + self.G.edges[new_node, existing_node]["time"]
+                - self.G.edges["Source", existing_node]["time"]
+            )
+        return travel_time + self.G.nodes[new_node]["service_time"]
+
+    def _constraints_met(self, existing_node, new_node, depot):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +184,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._extra_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -201,7 +209,7 @@ class _ClarkeWright:
         merged = False
         if (
             j not in self._processed_nodes  # 1
-            and self._constraints_met(i, j)  # 2
+            and self._constraints_met(i, j, "Sink")  # 2
             and i in self._route[i].predecessors("Sink")  # 3b
         ):
             self._merge_route(i, j, "Sink")
@@ -211,7 +219,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
-- 
2.43.0


From f33783bcb90f46259a53bf7b6e51e34eb902c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 02/42] fix: account for service times in the maximum duration
 of cspy routes

The route duration is the sum of travel and service times (this is what
the LP subproblem and best_routes_duration use), but the duration resource
passed to cspy only had the travel times.
---
 vrpy/subproblem_cspy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..090bdd4 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -360,11 +360,12 @@ class _SubProblemCSPY(_SubProblemBase):
             self.sub_G.edges[i, j]["res_cost"][1] = demand_head_node
 
     def add_max_duration(self):
-        """Updates maximum travel time."""
+        """Updates maximum travel and service time."""
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From ed59619a19b9bed08fbac5c457197481c59888d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:58 +0000
Subject: [PATCH 03/42] fix: do not limit cspy routes to half of the nodes

Without a maximum number of stops, the monotone resource was bounded by
half of the number of nodes, so that longer routes were never found.
---
 vrpy/subproblem_cspy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 090bdd4..29fc90d 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,5 +1,4 @@
 import logging
-from math import floor
 
 from numpy import zeros
 from networkx import DiGraph, add_path
@@ -172,7 +171,7 @@ class _SubProblemCSPY(_SubProblemBase):
         # Add upper bounds for mono, stops, load and time, and time windows
         total_demand = sum([self.sub_G.nodes[v]["demand"] for v in self.sub_G.nodes()])
         self.max_res = [
-            floor(len(self.sub_G.nodes()) / 2),  # stop/mono
+            len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
             sum(
                 [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
-- 
2.43.0


From b3b2d6a50ae51fca3e6bf5822d646b9a78e25d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:58 +0000
Subject: [PATCH 04/42] fix: only discard a cspy route if it exists for the
 same vehicle type

With a mixed fleet, a route already found for another vehicle type was
considered as a duplicate, and the column generation stopped too early.
---
 vrpy/subproblem_cspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 29fc90d..0595bbc 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -269,7 +269,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and r.graph["vehicle_type"] == self.vehicle_type
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
-- 
2.43.0


From d90afbf9cf55a5f6bd9c55f71b2c4daaa4296f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 05/42] fix: relax the dropping variables in the restricted
 master problem

They were integer in the relaxation as well, so that the master problem
was solved as a MIP and the duals used for pricing were wrong.
---
 vrpy/master_solve_pulp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..0e954d7 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -196,6 +196,9 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.upBound = 0
                     var.lowBound = 0
                 var.cat = pulp.LpInteger
+            # Set dropping variables to integer
+            for var in self.drop.values():
+                var.cat = pulp.LpInteger
             # Force vehicle bound artificial variable to 0
             for var in self.dummy_bound.values():
                 if "artificial_bound_" in var.name:
@@ -374,7 +377,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     "drop_%s" % node,
                     lowBound=0,
                     upBound=1,
-                    cat=pulp.LpInteger,
+                    cat=pulp.LpContinuous,
                     e=(
                         self.drop_penalty * self.objective
                         + self.set_covering_constrs[node]
-- 
2.43.0


From 0ddd5b39ef1fb0b4747f153259e5a106bfea94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:31 +0000
Subject: [PATCH 06/42] fix: use the cost and the load of the vehicle type of
 initial routes

The columns of the initial routes had the cost of the first vehicle type
even if they were assigned to another one, and the type was chosen on the
sum of the demands even if collected or picked up loads exceed it.
---
 vrpy/vrp.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..c1baa78 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -955,18 +955,9 @@ class VehicleRoutingProblem:
         for route_id, r in enumerate(self._initial_routes, start=1):
             total_cost = 0
             G = DiGraph(name=route_id)
-            edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
-                    if (
-                        sum(self.G.nodes[v]["demand"] for v in r)
-                        <= self.load_capacity[k]
-                    ):
+                    if self._max_load(r) <= self.load_capacity[k]:
                         G.graph["vehicle_type"] = k
                         break
             else:
@@ -975,6 +966,12 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            edges = list(zip(r[:-1], r[1:]))
+            for (i, j) in edges:
+                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                G.add_edge(i, j, cost=edge_cost)
+                total_cost += edge_cost
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
@@ -982,6 +979,21 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _max_load(self, route):
+        """Returns the maximum load on the truck along the route."""
+        demand = sum(self._H.nodes[v]["demand"] for v in route)
+        if not self.pickup_delivery and not self.distribution_collection:
+            return demand
+        load = demand if self.distribution_collection else 0
+        max_load = load
+        for v in route:
+            if self.distribution_collection:
+                load += self._H.nodes[v]["collect"] - self._H.nodes[v]["demand"]
+            else:
+                load += self._H.nodes[v]["demand"]
+            max_load = max(max_load, load)
+        return max_load
+
     def _lock(self):
         """
         Processes preassigned routes and edges.
@@ -1146,7 +1158,7 @@ class VehicleRoutingProblem:
                 for k in range(self._vehicle_types):
                     # If different vehicles, the cheapest feasible one is accounted for
                     cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = sum(self._H.nodes[i]["demand"] for i in route)
+                    load = self._max_load(route)
                     if cost < best_cost:
                         if self.load_capacity:
                             if load <= self.load_capacity[k]:
-- 
2.43.0


From 61ae16a53bb006adc72b92dc9e9d596ee1ef90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 07/42] fix: allow a route to be used several times if nodes
 have a frequency

A route could be selected at most once, and an artificial variable took
care of the missing visits, so that nodes were visited less often than
their frequency.
---
 vrpy/master_solve_pulp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 0e954d7..5bbfd19 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -126,7 +126,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
             if val is not None and val > 0:
-                best_routes.append(r)
+                # If frequencies, the same route may be used several times
+                best_routes += [r] * (round(val) if self.periodic else 1)
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -322,7 +323,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            # If frequencies, the same route may be used several times
+            upBound=None if self.periodic else 1,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From 13d45797ddebb881100191ca3a0e34cf7f30a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 08/42] fix: at most one visit per day for nodes with no demand

The constraint was only added for nodes with a positive demand, so that
nodes could be scheduled twice the same day if demands were not given.
---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..a2eb8e2 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -84,7 +84,7 @@ class _Schedule:
         # at most one visit per day per customer
         for t in range(self.time_span):
             for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
-- 
2.43.0


From 63c8f5909da2c041740da3331af3ff68caf4e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 09/42] fix: feasibility and reduced cost of the routes of the
 greedy subproblem

- the time to go back to the depot and the service times were not part of
  the duration of the route;
- the weight of the last arc was missing when the maximum number of stops
  is reached;
- the backwards search looked for the Source among the successors of the
  Sink, so that no route was ever completed when the maximum number of stops
  is reached.
---
 vrpy/subproblem_greedy.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..66eb508 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -125,10 +125,12 @@ class _SubProblemGreedy(_SubProblemBase):
         if forward:
             self._weight += self.sub_G.edges[self._last_node, self._new_node]["weight"]
             self._time += self.sub_G.edges[self._last_node, self._new_node]["time"]
+            self._time += self._service_time(self._new_node)
             self._current_path.append(self._new_node)
             if self._stops == self.num_stops and self._new_node != "Sink":
                 # Finish path
                 if self._new_node in self.sub_G.predecessors("Sink"):
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
                     self._current_path.append("Sink")
                 else:
                     self._new_node = False
@@ -138,10 +140,14 @@ class _SubProblemGreedy(_SubProblemBase):
         else:
             self._weight += self.sub_G.edges[self._new_node, self._last_node]["weight"]
             self._time += self.sub_G.edges[self._new_node, self._last_node]["time"]
+            self._time += self._service_time(self._new_node)
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                if self._new_node in self.sub_G.successors("Source"):
+                    self._weight += self.sub_G.edges["Source", self._new_node][
+                        "weight"
+                    ]
                     self._current_path.insert(0, "Source")
                 else:
                     self._new_node = False
@@ -178,17 +184,20 @@ class _SubProblemGreedy(_SubProblemBase):
         )
 
     def _check_duration(self, v, forward):
-        """Checks time constraint."""
+        """Checks time constraint, including the time to go back to the depot."""
         if forward:
-            return (
-                self._time + self.sub_G.edges[self._last_node, v]["time"]
-                <= self.duration
-            )
+            travel_time = self.sub_G.edges[self._last_node, v]["time"]
+            depot_edge = (v, "Sink")
         else:
-            return (
-                self._time + self.sub_G.edges[v, self._last_node]["time"]
-                <= self.duration
-            )
+            travel_time = self.sub_G.edges[v, self._last_node]["time"]
+            depot_edge = ("Source", v)
+        time = self._time + travel_time + self._service_time(v)
+        if depot_edge in self.sub_G.edges():
+            time += self.sub_G.edges[depot_edge]["time"]
+        return time <= self.duration
+
+    def _service_time(self, v):
+        return self.sub_G.nodes[v].get("service_time", 0)
 
     """
     NOT IMPLEMENTED YET
-- 
2.43.0


From 15cbc857a4562f10b449c824d3c2980079315d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:17 +0000
Subject: [PATCH 10/42] fix: keep generating columns when the greedy subproblem
 found some

The column generation stopped as soon as the exact subproblem returned a
route just found by the greedy algorithm, before the master problem had
been solved again, so that the final bound was not a lower bound.
---
 vrpy/subproblem_greedy.py | 4 ++--
 vrpy/vrp.py               | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 66eb508..a858701 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -35,7 +35,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_forward()
-            if self._new_node and self._weight < 0:
+            if self._new_node and self._weight < -(10**-3):
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -43,7 +43,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_backwards()
-            if self._new_node and self._weight < 0:
+            if self._new_node and self._weight < -(10**-3):
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c1baa78..3481de1 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -563,6 +563,7 @@ class VehicleRoutingProblem:
         # TODO: parallel
         # One subproblem per vehicle type
 
+        greedy_columns = False
         for vehicle in range(self._vehicle_types):
             # Solve pricing problem with randomised greedy algorithm
             if (
@@ -582,6 +583,7 @@ class VehicleRoutingProblem:
                         if r.graph["name"] not in self.masterproblem.y
                     ):
                         self.masterproblem.update(r)
+                        greedy_columns = True
 
             # Continue searching for columns
             self._more_routes = False
@@ -606,6 +608,9 @@ class VehicleRoutingProblem:
             elif self._pricing_strategy == "Hyper":
                 self.hyper_heuristic.end_time = time()
 
+        # Columns found by the greedy algorithm may lead to other columns
+        self._more_routes = self._more_routes or greedy_columns
+
         # Keep track of convergence rate and update stopping criteria parameters
         self._iteration += 1
         if self._iteration > 1 and relaxed_cost == self._lower_bound[-1]:
-- 
2.43.0


From d35c83054ecafe9f7d4d38d86ecb6e95c2cbc914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:15 +0000
Subject: [PATCH 11/42] fix: BestPaths pricing when all the edges have the same
 reduced cost

The normalization of the weights raised a ZeroDivisionError.
---
 vrpy/subproblem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 308609e..ae00feb 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -200,10 +200,12 @@ class _SubProblemBase:
         # Normalize weights
         max_weight = max(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
         min_weight = min(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
+        # If all weights are equal, there is nothing to normalize
+        spread = max_weight - min_weight or 1
         for edge in self.G.edges(data=True):
             edge[2]["pos_weight"] = (
                 -max_weight - min_weight + 2 * edge[2]["weight"]
-            ) / (max_weight - min_weight)
+            ) / spread
             edge[2]["pos_weight"] = max(0, edge[2]["pos_weight"])
         # Compute beta shortest paths
         best_paths = list(
-- 
2.43.0


From c6ad028774ee247b30d4682497d678a8a501f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:57 +0000
Subject: [PATCH 12/42] fix: return an integer solution when the diving
 heuristic is used

The routes with a positive value in the relaxation were returned, i.e.
nodes visited several times and more vehicles than available. The master
problem is now solved as a MIP with all the columns found while diving.
The tabu list of the heuristic was also shared by all instances, variables
with no value raised a TypeError, and backtracking from the root an
AttributeError.
---
 vrpy/master_solve_pulp.py            |  3 +++
 vrpy/restricted_master_heuristics.py | 13 ++++++-------
 vrpy/vrp.py                          |  8 ++------
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 5bbfd19..93f5d6c 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -170,6 +170,9 @@ class _MasterSolvePulp(_MasterProblemBase):
     def _solve(self, relax: bool, time_limit: Optional[int]):
         # Set variable types
         if not relax:
+            # The decisions of the diving heuristic are only used to find columns
+            for const in [c for c in self.prob.constraints if c.startswith("fix_")]:
+                del self.prob.constraints[const]
             # Set partitioning constraints and artificial variables to integer
             # (for the periodic case)
             for node in self.G.nodes():
diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 1ce25ed..306cd6d 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -32,16 +32,14 @@ class _DivingHeuristic:
     def run_dive(self, prob):
         tabu_list = []
         relax = prob.deepcopy()
-        # Init current_node
-        if self.current_node.parent is None:
-            self.current_node.parent = relax
         lp_node = _LPNode(self.current_node)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
             non_integer_vars = [
                 var
                 for var in relax.variables()
-                if abs(var.varValue - round(var.varValue)) != 0
+                if var.varValue is not None
+                and abs(var.varValue - round(var.varValue)) != 0
             ]
             # All non-integer variables not already fixed in this or any
             # iteration of the diving heuristic
@@ -80,7 +78,7 @@ class _DivingHeuristic:
                 if relax.status == 1:
                     prob.extend(constrs)
                     self.current_node = lp_node
-                else:
+                elif self.current_node.parent is not None:
                     # Backtrack
                     self.current_node = self.current_node.parent
                 logger.info(
@@ -93,6 +91,7 @@ class _DivingHeuristic:
 
 
 class _LPNode:
-    def __init__(self, parent=None, tabu_list=[]):
+    def __init__(self, parent=None):
         self.parent = parent
-        self.tabu_list = tabu_list
+        # The tabu list is common to all the nodes of the tree
+        self.tabu_list = parent.tabu_list if parent is not None else []
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 3481de1..801fc56 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -507,15 +507,11 @@ class VehicleRoutingProblem:
 
     def _solve(self, dive, solver):
         self._column_generation()
-        if dive:
+        if dive and len(self.G.nodes()) > 2:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-            (
-                self._best_value,
-                self._best_routes_as_graphs,
-            ) = self.masterproblem.get_total_cost_and_routes(relax=True)
-        elif len(self.G.nodes()) > 2:
+        if len(self.G.nodes()) > 2:
             # Solve as MIP
             _, _ = self.masterproblem.solve(
                 relax=False, time_limit=self._get_time_remaining(mip=True)
-- 
2.43.0


From 9bc9e5bf049bf0bc6d9850239ce17e1106477e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:26 +0000
Subject: [PATCH 13/42] fix: make solve independent of previous calls and of
 the input graph

The documented way of using the package is to modify the problem and to
solve it again, but what a first call left changed the result of the next
one: removed arcs and locked nodes, fixed costs added to the graph once
more, num_stops overwritten by an upper bound, num_vehicles lost if
periodic, locked and initial routes of previous calls, iteration counter
(an error with the Hyper pricing strategy).
---
 vrpy/vrp.py | 64 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 801fc56..5783ba7 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -225,6 +225,7 @@ class VehicleRoutingProblem:
             float: Optimal solution of MIP based on generated columns
         """
         # set solving attributes
+        self._reset()
         self._more_routes = True
         self._solver = solver
         self._time_limit = time_limit
@@ -243,19 +244,34 @@ class VehicleRoutingProblem:
             self._preassignments = preassignments
         if initial_routes:
             self._initial_routes = initial_routes
-        # If only one type of vehicle, some formatting is done
-        if not self.mixed_fleet:
-            self._format()
-        # Pre-processing
-        self._pre_solve()
         if self._heuristic_only:
-            # return solution found with Clarke & Wright heuristic
-            self._solve_with_clarke_wright()
-        else:
-            # Initialization
-            self._initialize(solver)
-            # Column generation procedure
-            self._solve(dive, solver)
+            check_clarke_wright_compatibility(
+                self.time_windows,
+                self.pickup_delivery,
+                self.distribution_collection,
+                self.mixed_fleet,
+                self.periodic,
+            )
+        # Pre-processing modifies the graph and some parameters: use copies so
+        # that the problem may be modified and solved again
+        inputs = (self.G, self.num_stops, self.num_vehicles)
+        self.G = self.G.to_directed()
+        try:
+            # If only one type of vehicle, some formatting is done
+            if not self.mixed_fleet:
+                self._format()
+            # Pre-processing
+            self._pre_solve()
+            if self._heuristic_only:
+                # return solution found with Clarke & Wright heuristic
+                self._solve_with_clarke_wright()
+            else:
+                # Initialization
+                self._initialize(solver)
+                # Column generation procedure
+                self._solve(dive, solver)
+        finally:
+            self.G, self.num_stops, self.num_vehicles = inputs
 
     @property
     def best_routes_type(self):
@@ -383,8 +399,8 @@ class VehicleRoutingProblem:
         # Check arrival times
         for k1, v1 in self.arrival_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
-                assert v2 <= self.G.nodes[k2]["upper"]
+                assert self._H.nodes[k2]["lower"] <= v2
+                assert v2 <= self._H.nodes[k2]["upper"]
 
     @property
     def departure_time(self):
@@ -412,7 +428,7 @@ class VehicleRoutingProblem:
         # Check departure times
         for k1, v1 in self.departure_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
+                assert self._H.nodes[k2]["lower"] <= v2
                 # Upper TW should not be checked as lower + service_time > upper
                 # in many cases. Also not enforced at the subproblem level.
                 # assert v2 <= self.G.nodes[k2]["upper"]
@@ -425,6 +441,17 @@ class VehicleRoutingProblem:
             return self._schedule
         return
 
+    def _reset(self):
+        """Resets what a previous call to solve may have left."""
+        self.hyper_heuristic = None
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
+        self._initial_routes = []
+        self._preassignments = []
+        self._dropped_nodes = []
+        self._best_routes_as_graphs = []
+
     def _pre_solve(self):
         """Some pre-processing."""
         if self.mixed_fleet:
@@ -849,13 +876,6 @@ class VehicleRoutingProblem:
 
     def _solve_with_clarke_wright(self):
         # return Clarke Wright solution
-        check_clarke_wright_compatibility(
-            self.time_windows,
-            self.pickup_delivery,
-            self.distribution_collection,
-            self.mixed_fleet,
-            self.periodic,
-        )
         alg = _ClarkeWright(
             self.G,
             self.load_capacity,
-- 
2.43.0


From a6ec4acd9d2ebbcbe76a4b94aa08bcf771124e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:53 +0000
Subject: [PATCH 14/42] fix: keep the locked routes with heuristic_only

The nodes of a complete preassigned route were missing from the solution
returned by Clarke & Wright.
---
 vrpy/vrp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 5783ba7..8fdf51f 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -892,6 +892,7 @@ class VehicleRoutingProblem:
                 [0 for r in range(len(alg.best_routes))],
             )
         )
+        self._merge_preassigned_routes(len(alg.best_routes))
 
     # Preprocessing #
 
@@ -1170,7 +1171,10 @@ class VehicleRoutingProblem:
             self._best_routes[route_id] = node_list
             self._best_routes_vehicle_type[route_id] = route.graph["vehicle_type"]
             route_id += 1
-        # Merge with preassigned complete routes
+        self._merge_preassigned_routes(route_id)
+
+    def _merge_preassigned_routes(self, route_id):
+        """Adds the preassigned complete routes to the best routes."""
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-- 
2.43.0


From 3cf7c10c5fc02d0945f722ca6887e23ddf850f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:47 +0000
Subject: [PATCH 15/42] fix: count the locked routes in the number of vehicles

Complete preassigned routes came on top of the num_vehicles vehicles used
for the other nodes.
---
 vrpy/vrp.py | 52 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 8fdf51f..c37fda0 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -141,6 +141,7 @@ class VehicleRoutingProblem:
         self._vehicle_types: Union[List, int] = None
         self._initial_routes = []
         self._preassignments = []
+        self._locked_types = []  # vehicle types of complete preassigned routes
         self._dropped_nodes = []
         # Parameters for final solution
         self._best_value = None
@@ -449,6 +450,7 @@ class VehicleRoutingProblem:
         self._lower_bound = []
         self._initial_routes = []
         self._preassignments = []
+        self._locked_types = []
         self._dropped_nodes = []
         self._best_routes_as_graphs = []
 
@@ -1029,6 +1031,12 @@ class VehicleRoutingProblem:
             if route[0] == "Source" and route[-1] == "Sink":
                 logger.info("locking %s" % route)
                 self.G.remove_nodes_from(route[1:-1])
+                # The vehicle is not available anymore
+                vehicle_type = self._get_locked_type(route)
+                self._locked_types.append(vehicle_type)
+                if self.num_vehicles:
+                    self.num_vehicles = list(self.num_vehicles)
+                    self.num_vehicles[vehicle_type] -= 1
             # Otherwise, keep it and set the costs to 0
             else:
                 logger.info("locking partial route %s" % route)
@@ -1175,24 +1183,32 @@ class VehicleRoutingProblem:
 
     def _merge_preassigned_routes(self, route_id):
         """Adds the preassigned complete routes to the best routes."""
-        for route in self._preassignments:
-            if route[0] == "Source" and route[-1] == "Sink":
-                self._best_routes[route_id] = route
-                edges = list(zip(route[:-1], route[1:]))
-                best_cost = 1e10
-                for k in range(self._vehicle_types):
-                    # If different vehicles, the cheapest feasible one is accounted for
-                    cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = self._max_load(route)
-                    if cost < best_cost:
-                        if self.load_capacity:
-                            if load <= self.load_capacity[k]:
-                                best_cost = cost
-                                self._best_routes_vehicle_type[route_id] = k
-                        else:
-                            best_cost = cost
-                            self._best_routes_vehicle_type[route_id] = k
-                route_id += 1
+        locked_routes = [
+            r for r in self._preassignments if r[0] == "Source" and r[-1] == "Sink"
+        ]
+        for route, vehicle_type in zip(locked_routes, self._locked_types):
+            self._best_routes[route_id] = route
+            self._best_routes_vehicle_type[route_id] = vehicle_type
+            route_id += 1
+
+    def _get_locked_type(self, route):
+        """Returns the vehicle type of a preassigned complete route."""
+        vehicle_type = None
+        edges = list(zip(route[:-1], route[1:]))
+        best_cost = 1e10
+        for k in range(self._vehicle_types):
+            # If different vehicles, the cheapest feasible one is accounted for
+            if self.num_vehicles and self.num_vehicles[k] == 0:
+                continue
+            cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
+            load = self._max_load(route)
+            if cost < best_cost:
+                if not self.load_capacity or load <= self.load_capacity[k]:
+                    best_cost = cost
+                    vehicle_type = k
+        if vehicle_type is None:
+            raise ValueError("No vehicle can be used for locked route %s." % route)
+        return vehicle_type
 
     def _format(self):
         """Attributes are stored as singletons."""
-- 
2.43.0


From 21470c0df40e2f9addcc986ed82e9aec26941067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:39 +0000
Subject: [PATCH 16/42] fix: dropping option when all the nodes are locked

No MIP is solved in this case, and the missing list of dropped nodes raised
an AttributeError.
---
 vrpy/master_solve_pulp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 93f5d6c..9112bee 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -35,6 +35,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.vehicle_bound_constrs = {}
         self.drop_penalty_constrs = {}
         self.makespan_constr = {}
+        # dropped nodes of the solution
+        self.dropped_nodes = []
         # Restricted master heuristic
         self.diving_heuristic = _DivingHeuristic()
         # Parameter when minimizing global span
-- 
2.43.0


From dd59ce0651843bff8dfea6a40de704dc33132026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 17/42] fix: hyper-heuristic when there are no active or added
 columns

---
 vrpy/hyper_heuristic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index 7350c49..7f32bd9 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -332,11 +332,12 @@ class _HyperHeuristic:
                 norm_spread = 0
                 if sum_exp != 0:
                     norm_spread = self.exp[heuristic] / sum_exp
+                # There may be no active columns, or none produced by the heuristic
                 self.q[heuristic] = (
-                    self.weight_col_basic * active_i / active
+                    self.weight_col_basic * active_i / max(active, 1)
                     + self.weight_runtime * norm_runtime
                     + self.weight_obj * self.norm_objective_decrease[heuristic]
-                    + self.weight_col_total * active_i / total_added
+                    + self.weight_col_total * active_i / max(total_added, 1)
                 )
                 self.heuristic_points[heuristic] = self.theta * self.q[
                     heuristic
-- 
2.43.0


From ec6cccd32277ac2b221bdde29eafa078e91440a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:24 +0000
Subject: [PATCH 18/42] fix: pickup and delivery is solved with the exact
 pricing strategy

---
 vrpy/checks.py | 1 +
 vrpy/vrp.py    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index e4fbf6d..4fbba78 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -185,6 +185,7 @@ def check_consistency(
         request = any("request" in G.nodes[v] for v in G.nodes())
         if not request:
             raise KeyError("pickup_delivery option expects at least one request.")
+    return pricing_strategy
 
 
 def check_feasibility(
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c37fda0..7a3f34e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -480,7 +480,7 @@ class VehicleRoutingProblem:
         # Setup default attributes if missing
         self._update_dummy_attributes()
         # Check options consistency
-        check_consistency(
+        self._pricing_strategy = check_consistency(
             cspy=self._cspy,
             pickup_delivery=self.pickup_delivery,
             pricing_strategy=self._pricing_strategy,
-- 
2.43.0


From c93aabc003a33a39c5c00d4a89ab0656d774dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:24 +0000
Subject: [PATCH 19/42] fix: account for the service time when checking if a
 node is reachable

---
 vrpy/checks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index 4fbba78..ee9d635 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -209,7 +209,11 @@ def check_feasibility(
                 shortest_path_from = shortest_path_length(
                     G, source=v, target="Sink", weight="time"
                 )
-                shortest_trip = shortest_path_from + shortest_path_to
+                shortest_trip = (
+                    shortest_path_from
+                    + shortest_path_to
+                    + G.nodes[v].get("service_time", 0)
+                )
                 if shortest_trip > duration:
                     raise ValueError(
                         "Node %s not reachable with duration constraints" % v
-- 
2.43.0


From 419f5592be5564e03b7629928fa3c730f55f1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:23 +0000
Subject: [PATCH 20/42] fix: initial routes which cannot meet the frequencies
 of the nodes

---
 vrpy/vrp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 7a3f34e..f6b9ced 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -516,6 +516,11 @@ class VehicleRoutingProblem:
         if self._initial_routes:
             # Initial solution is given as input
             check_initial_routes(initial_routes=self._initial_routes, G=self.G)
+            if self.periodic:
+                # The given routes may not be able to meet all the frequencies
+                alg = _RoundTrip(self.G)
+                alg.run()
+                self._initial_routes = self._initial_routes + alg.round_trips
         else:
             # Initial solution is computed with Clarke & Wright (or round trips)
             self._get_initial_solution()
-- 
2.43.0


From 54569cc10afcf5720ef1aa28e2ef9d985f2bcf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:28 +0000
Subject: [PATCH 21/42] fix: relaxed cost when all the routes have no cost

---
 vrpy/master_solve_pulp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 9112bee..8911423 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -62,13 +62,14 @@ class _MasterSolvePulp(_MasterProblemBase):
         #                          (r.graph["name"], val))
         duals = self.get_duals()
         logger.debug("duals : %s" % duals)
-        return duals, self.prob.objective.value()
+        # The value is None if all the routes have no cost
+        return duals, self.prob.objective.value() or 0
 
     def solve_and_dive(self, time_limit):
         self._solve(relax=True, time_limit=time_limit)
         self.diving_heuristic.run_dive(self.prob)
         self.prob.resolve()
-        return self.get_duals(), self.prob.objective.value()
+        return self.get_duals(), self.prob.objective.value() or 0
 
     def update(self, new_route):
         """Add new column."""
-- 
2.43.0


From e460650bf610b0476c7c8da3d9b088f818ae3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:36 +0000
Subject: [PATCH 22/42] fix: rounding errors when removing edges which violate
 time windows

---
 vrpy/vrp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index f6b9ced..b5bab0e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1076,7 +1076,11 @@ class VehicleRoutingProblem:
             service_time = self.G.nodes[i]["service_time"]
             tail_inf_time_window = self.G.nodes[i]["lower"]
             head_sup_time_window = self.G.nodes[j]["upper"]
-            if tail_inf_time_window + travel_time + service_time > head_sup_time_window:
+            # Tolerance for rounding errors
+            if (
+                tail_inf_time_window + travel_time + service_time
+                > head_sup_time_window + 1e-9
+            ):
                 infeasible_arcs.append((i, j))
             # Strengthen time windows
             for v in self.G.nodes():
-- 
2.43.0


From 624133a47830f5e3c12547c317ba0b4277a6c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:51 +0000
Subject: [PATCH 23/42] fix: do not add twice the same route with the greedy
 subproblem

---
 vrpy/subproblem_greedy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index a858701..419a17f 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -35,7 +35,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_forward()
-            if self._new_node and self._weight < -(10**-3):
+            if self._new_node and self._weight < -(10**-3) and self._is_new_route():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -43,7 +43,7 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_backwards()
-            if self._new_node and self._weight < -(10**-3):
+            if self._new_node and self._weight < -(10**-3) and self._is_new_route():
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -156,6 +156,14 @@ class _SubProblemGreedy(_SubProblemBase):
                 return False
         return True
 
+    def _is_new_route(self):
+        """Checks that the current path is not already in the pool of columns."""
+        edges = set(zip(self._current_path[:-1], self._current_path[1:]))
+        return not any(
+            r.graph["vehicle_type"] == self.vehicle_type and set(r.edges()) == edges
+            for r in self.routes
+        )
+
     def _add_new_route(self):
         """Create new route as DiGraph and add to pool of columns"""
         route_id = len(self.routes) + 1
-- 
2.43.0


From 09730217aef556856040fea5d128b9cb3aa440eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:31 +0000
Subject: [PATCH 24/42] fix: time window of the Source when it only has a lower
 bound

---
 vrpy/vrp.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index b5bab0e..289626b 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1148,6 +1148,14 @@ class VehicleRoutingProblem:
                 if attribute not in self.G.edges[i, j]:
                     self.G.edges[i, j][attribute] = 0
 
+    def _readjust_source_time_windows(self):
+        """Readjusts Source time windows"""
+
+        # If no upper bound is given, vehicles leave as soon as possible
+        self.G.nodes["Source"]["upper"] = max(
+            self.G.nodes["Source"]["upper"], self.G.nodes["Source"]["lower"]
+        )
+
     def _readjust_sink_time_windows(self):
         """Readjusts Sink time windows"""
 
@@ -1172,7 +1180,8 @@ class VehicleRoutingProblem:
         # Set time = 0 if missing
         self._set_time_to_zero_if_missing()
 
-        # Readjust Sink time windows
+        # Readjust Source and Sink time windows
+        self._readjust_source_time_windows()
         self._readjust_sink_time_windows()
 
         # Keep a (deep) copy of the graph
-- 
2.43.0


From 965f8849006dc487677e16e2d9e2f5d8f19f64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:31 +0000
Subject: [PATCH 25/42] fix: big-M of the time window constraints of the LP
 subproblem

---
 vrpy/subproblem_lp.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..1eb717b 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -165,19 +165,24 @@ class _SubProblemLP(_SubProblemBase):
         )
 
     def _add_time_windows(self):
-        # Big-M definition
-        M = self.sub_G.nodes["Sink"]["upper"]
         # Add varibles
         self.t = pulp.LpVariable.dicts(
             "t", self.sub_G.nodes(), lowBound=0, cat=pulp.LpContinuous
         )
         # Add big-M constraints
         for (i, j) in self.sub_G.edges():
+            elapsed_time = (
+                self.sub_G.nodes[i]["service_time"] + self.sub_G.edges[i, j]["time"]
+            )
+            # Big-M definition
+            M = max(
+                0,
+                self.sub_G.nodes[i]["upper"]
+                + elapsed_time
+                - self.sub_G.nodes[j]["lower"],
+            )
             self.prob += (
-                self.t[i]
-                + self.sub_G.nodes[i]["service_time"]
-                + self.sub_G.edges[i, j]["time"]
-                <= self.t[j] + M * (1 - self.x[(i, j)]),
+                self.t[i] + elapsed_time <= self.t[j] + M * (1 - self.x[(i, j)]),
                 "time_window_%s_%s" % (i, j),
             )
         # Add node constraints
-- 
2.43.0


From 91f8479d1bea95046b0edbf71cdf9f3820f10bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:35 +0000
Subject: [PATCH 26/42] fix: upper bound of the cspy time resource with service
 times

---
 vrpy/subproblem_cspy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 0595bbc..b560262 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -173,8 +173,9 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res = [
             len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
-            sum(
-                [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
+            sum([self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()])
+            + sum(
+                [self.sub_G.nodes[v]["service_time"] for v in self.sub_G.nodes()]
             ),  # time
             1,  # time windows
             total_demand,  # pickup
-- 
2.43.0


From a6ab6d1620bc39540740a87769cbd9e7c386932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:49 +0000
Subject: [PATCH 27/42] fix: do not add twice the same route with the LP
 subproblem

---
 vrpy/subproblem_lp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 1eb717b..c039f21 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -44,13 +44,22 @@ class _SubProblemLP(_SubProblemBase):
             and pulp.value(self.prob.objective) < -(10**-3)
             and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
-            more_routes = True
-            self._add_new_route()
+            more_routes = self._is_new_route()
+            if more_routes:
+                self._add_new_route()
         else:
             more_routes = False
 
         return self.routes, more_routes
 
+    def _is_new_route(self):
+        """Checks that the route is not already in the pool of columns."""
+        edges = {e for e in self.sub_G.edges() if pulp.value(self.x[e]) > 0.5}
+        return not any(
+            r.graph["vehicle_type"] == self.vehicle_type and set(r.edges()) == edges
+            for r in self.routes
+        )
+
     def _add_new_route(self):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
-- 
2.43.0


From 8b4c101e98664cd65ed46e43e26edae551f8a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:57 +0000
Subject: [PATCH 28/42] fix: no upper bound on the route selection variables

---
 vrpy/master_solve_pulp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 8911423..14dfe1f 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -329,8 +329,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            # If frequencies, the same route may be used several times
-            upBound=None if self.periodic else 1,
+            # No upper bound (it would bias the duals): the visits limit the variable
+            upBound=None,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From 38eec18305d313c0cf5ae0c510c39f39542e33f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:15 +0000
Subject: [PATCH 29/42] fix: big-M of the pickup and delivery load constraints

---
 vrpy/subproblem_lp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index c039f21..9a175f6 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -302,8 +302,10 @@ class _SubProblemLP(_SubProblemBase):
         )
 
         # Load definition
-        M = self.load_capacity[self.vehicle_type]
         for (i, j) in self.sub_G.edges():
+            M = self.load_capacity[self.vehicle_type] + abs(
+                self.sub_G.nodes[j]["demand"]
+            )
             self.prob += (
                 self.load[i] + self.sub_G.nodes[j]["demand"]
                 <= self.load[j] + M * (1 - self.x[(i, j)]),
-- 
2.43.0


From 7458e59e90175cda922aca28ad16df4bb3aa77d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:49 +0000
Subject: [PATCH 30/42] fix: routes of the LP subproblem with a cycle

---
 vrpy/subproblem_lp.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 9a175f6..b3c06e3 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -35,6 +35,11 @@ class _SubProblemLP(_SubProblemBase):
             self._update_prob()
         # self.prob.writeLP("subprob.lp")
         self._solve(time_limit)
+        # Cycles are not always detected beforehand
+        if not self.elementarity and self._has_cycle():
+            self._add_elementarity()
+            self.elementarity = True
+            self._solve(time_limit)
 
         logger.debug("Solving subproblem using LP")
         logger.debug("Status: %s" % pulp.LpStatus[self.prob.status])
@@ -52,6 +57,16 @@ class _SubProblemLP(_SubProblemBase):
 
         return self.routes, more_routes
 
+    def _has_cycle(self):
+        """Checks if some edges of the solution are not on the path from Source to Sink."""
+        edges = {
+            i: j for (i, j) in self.sub_G.edges() if (pulp.value(self.x[i, j]) or 0) > 0.5
+        }
+        node = "Source"
+        while node in edges:
+            node = edges.pop(node)
+        return len(edges) > 0
+
     def _is_new_route(self):
         """Checks that the route is not already in the pool of columns."""
         edges = {e for e in self.sub_G.edges() if pulp.value(self.x[e]) > 0.5}
-- 
2.43.0


From 9c92f409b7b09ea883f5a0be733e211af6f4d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:25 +0000
Subject: [PATCH 31/42] fix: no waiting time in the cspy subproblem without
 time windows

---
 vrpy/subproblem_cspy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index b560262..9b15263 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -49,8 +49,8 @@ class _MyREFCallback(REFCallback):
         # Travel times
         travel_time_ij = self._sub_G.edges[i, j]["time"]
         # Time windows
-        # Lower
-        a_j = self._sub_G.nodes[j]["lower"]
+        # Lower (no need to wait if there are no time windows)
+        a_j = self._sub_G.nodes[j]["lower"] if self._time_windows else 0
         # Upper
         b_j = self._sub_G.nodes[j]["upper"]
 
-- 
2.43.0


From 481ea9712541e4a6d4cdc7da98242e5cbafe735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:56 +0000
Subject: [PATCH 32/42] fix: elementarity of the LP subproblem with pickup and
 delivery

---
 vrpy/subproblem_lp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index b3c06e3..2eada54 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -286,6 +286,7 @@ class _SubProblemLP(_SubProblemBase):
         if not self.elementarity:
             # rank variables are needed
             self._add_elementarity()
+            self.elementarity = True
         for v in self.sub_G.nodes():
             if "request" in self.sub_G.nodes[v]:
                 delivery_node = self.sub_G.nodes[v]["request"]
-- 
2.43.0


From ff923834cc4158a916a1cfb742bf0a785f6edac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:00 +0000
Subject: [PATCH 33/42] fix: time limit reached while solving the master
 problem

---
 vrpy/vrp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 289626b..3201f3b 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -579,13 +579,13 @@ class VehicleRoutingProblem:
         # Solve restricted relaxed master problem
         if self._dive:
             duals, relaxed_cost = self.masterproblem.solve_and_dive(
-                time_limit=self._get_time_remaining()
+                time_limit=self._get_time_remaining(mip=True)
             )
             if self.hyper_heuristic:
                 self.hyper_heuristic.init(relaxed_cost)
         else:
             duals, relaxed_cost = self.masterproblem.solve(
-                relax=True, time_limit=self._get_time_remaining()
+                relax=True, time_limit=self._get_time_remaining(mip=True)
             )
         logger.info("iteration %s, %.6s" % (self._iteration, relaxed_cost))
         pricing_strategy = self._get_next_pricing_strategy(relaxed_cost)
@@ -1270,6 +1270,6 @@ class VehicleRoutingProblem:
                 self._num_vehicles_schedule,
                 solver,
             )
-            schedule.solve(self._get_time_remaining())
+            schedule.solve(self._get_time_remaining(mip=True))
             self._schedule = schedule.routes_per_day
         self.comp_time = time() - self._start_time
-- 
2.43.0


From 8b45823b23aeac8994e4ad77c9b6e0070196f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:22 +0000
Subject: [PATCH 34/42] fix: LP subproblem stopped by the time limit

---
 vrpy/subproblem_lp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 2eada54..eea9367 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -27,7 +27,7 @@ class _SubProblemLP(_SubProblemBase):
     def solve(self, time_limit, exact=True):
         if not self.run_subsolve:
             return self.routes, False
-        if time_limit and time_limit <= 0:
+        if time_limit is not None and time_limit <= 0:
             return self.routes, False
 
         self._formulate()
@@ -47,7 +47,7 @@ class _SubProblemLP(_SubProblemBase):
         if (
             pulp.value(self.prob.objective) is not None
             and pulp.value(self.prob.objective) < -(10**-3)
-            and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
+            and pulp.LpStatus[self.prob.status] not in ["Infeasible", "Not Solved"]
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
             more_routes = self._is_new_route()
             if more_routes:
-- 
2.43.0


From 06c6e5f97e3496d0841d67f5ead9db516e63ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:53 +0000
Subject: [PATCH 35/42] fix: rounding errors in the upper bound of the cspy
 time resource

---
 vrpy/subproblem_cspy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 9b15263..86c22ad 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -173,7 +173,8 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res = [
             len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
-            sum([self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()])
+            1  # not binding, even with rounding errors
+            + sum([self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()])
             + sum(
                 [self.sub_G.nodes[v]["service_time"] for v in self.sub_G.nodes()]
             ),  # time
-- 
2.43.0


From 20aa4ffee0313810f22dd8d9459dd3993241f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:21 +0000
Subject: [PATCH 36/42] fix: customers with special characters in their name
 (KeyError in get_duals)

---
 vrpy/master_solve_pulp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 14dfe1f..dbd017b 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -94,7 +94,8 @@ class _MasterSolvePulp(_MasterProblemBase):
                 and "depot_from" not in self.G.nodes[node]
                 and "depot_to" not in self.G.nodes[node]
             ):
-                constr_name = "visit_node_%s" % node
+                # Special characters of the node have been replaced in the name
+                constr_name = self.set_covering_constrs[node].name
                 if not relax:
                     duals[node] = self.prob.constraints[constr_name].pi
                 else:
-- 
2.43.0


From af841a6378c8bbbe5b2a4ad0ddeeec0c1be68e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:21 +0000
Subject: [PATCH 37/42] fix: overlapping constraint names in the LP subproblem
 (nodes a, b_a and a_b)

---
 vrpy/subproblem_lp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index eea9367..8cde3f4 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -207,7 +207,7 @@ class _SubProblemLP(_SubProblemBase):
             )
             self.prob += (
                 self.t[i] + elapsed_time <= self.t[j] + M * (1 - self.x[(i, j)]),
-                "time_window_%s_%s" % (i, j),
+                "time_window_%s" % ((i, j),),
             )
         # Add node constraints
         for v in self.sub_G.nodes():
@@ -270,7 +270,7 @@ class _SubProblemLP(_SubProblemBase):
         for (i, j) in self.sub_G.edges():
             self.prob += (
                 self.y[i] + 1 <= self.y[j] + M * (1 - self.x[(i, j)]),
-                "elementary_%s_%s" % (i, j),
+                "elementary_%s" % ((i, j),),
             )
         # Source is first, Sink is last (optional)
         self.prob += self.y["Source"] == 0, "Source_is_first"
@@ -299,7 +299,7 @@ class _SubProblemLP(_SubProblemBase):
                             for u in self.sub_G.successors(delivery_node)
                         ]
                     ),
-                    "nodes_%s_%s_together" % (v, delivery_node),
+                    "nodes_%s_together" % ((v, delivery_node),),
                 )
 
                 # pickup before delivery
@@ -325,12 +325,12 @@ class _SubProblemLP(_SubProblemBase):
             self.prob += (
                 self.load[i] + self.sub_G.nodes[j]["demand"]
                 <= self.load[j] + M * (1 - self.x[(i, j)]),
-                "inf_load_%s_%s" % (i, j),
+                "inf_load_%s" % ((i, j),),
             )
             self.prob += (
                 self.load[i] + self.sub_G.nodes[j]["demand"]
                 >= self.load[j] - M * (1 - self.x[(i, j)]),
-                "sup_load_%s_%s" % (i, j),
+                "sup_load_%s" % ((i, j),),
             )
         # Empty load at depot
         self.prob += self.load["Source"] == 0, "source_load"
@@ -398,5 +398,5 @@ class _SubProblemLP(_SubProblemBase):
             self.prob += (
                 self.load[(u, v)] + self.unload[(u, v)]
                 <= self.load_capacity[self.vehicle_type] * self.x[(u, v)],
-                "capacity_%s_%s" % (u, v),
+                "capacity_%s" % ((u, v),),
             )
-- 
2.43.0


From 5058d5819e531312ccf457633a15ea40a3ef95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:31 +0000
Subject: [PATCH 38/42] fix: tuples as nodes (TypeError while formatting names)

---
 vrpy/checks.py            |  8 ++++----
 vrpy/master_solve_pulp.py |  6 +++---
 vrpy/subproblem_lp.py     | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index ee9d635..4efc395 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -101,10 +101,10 @@ def check_vrp(G: DiGraph = None):
     for v in G.nodes():
         if v not in ["Source", "Sink"]:
             if v not in G.successors("Source"):
-                logger.warning("Source not connected to %s" % v)
+                logger.warning("Source not connected to {}".format(v))
                 G.add_edge("Source", v, cost=1e10)
             if v not in G.predecessors("Sink"):
-                logger.warning("%s not connected to Sink" % v)
+                logger.warning("{} not connected to Sink".format(v))
                 G.add_edge(v, "Sink", cost=1e10)
     # If graph is disconnected
     if not has_path(G, "Source", "Sink"):
@@ -135,7 +135,7 @@ def check_initial_routes(initial_routes: list = None, G: DiGraph = None):
                 if v in route:
                     node_found += 1
             if node_found == 0:
-                raise KeyError("Node %s missing from initial solution." % v)
+                raise KeyError("Node {} missing from initial solution.".format(v))
     # Check if edges from initial solution exist and have cost attribute
     for route in initial_routes:
         edges = list(zip(route[:-1], route[1:]))
@@ -216,7 +216,7 @@ def check_feasibility(
                 )
                 if shortest_trip > duration:
                     raise ValueError(
-                        "Node %s not reachable with duration constraints" % v
+                        "Node {} not reachable with duration constraints".format(v)
                     )
 
 
diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index dbd017b..298ee5d 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -316,7 +316,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                 sign = pulp.LpConstraintGE  # if self.relax else pulp.LpConstraintEQ
                 # Save set covering constraints
                 self.set_covering_constrs[node] = pulp.LpConstraintVar(
-                    "visit_node_%s" % node, sign, right_hand_term
+                    "visit_node_{}".format(node), sign, right_hand_term
                 )
 
     def _add_route_selection_variable(self, route):
@@ -383,7 +383,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         for node in self.G.nodes():
             if node not in ["Source", "Sink"]:
                 self.drop[node] = pulp.LpVariable(
-                    "drop_%s" % node,
+                    "drop_{}".format(node),
                     lowBound=0,
                     upBound=1,
                     cat=pulp.LpContinuous,
@@ -398,7 +398,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         for node in self.G.nodes():
             if self.G.nodes[node]["frequency"] > 1 and node != "Source":
                 self.dummy[node] = pulp.LpVariable(
-                    "periodic_%s" % node,
+                    "periodic_{}".format(node),
                     lowBound=0,
                     upBound=None,
                     cat=pulp.LpContinuous,
diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 8cde3f4..aa8d632 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -134,7 +134,7 @@ class _SubProblemLP(_SubProblemBase):
                 out_flow = pulp.lpSum(
                     [self.x[(v, j)] for j in self.sub_G.successors(v)]
                 )
-                self.prob += in_flow == out_flow, "flow_balance_%s" % v
+                self.prob += in_flow == out_flow, "flow_balance_{}".format(v)
 
         # Start at Source and end at Sink
         self.prob += (
@@ -211,8 +211,8 @@ class _SubProblemLP(_SubProblemBase):
             )
         # Add node constraints
         for v in self.sub_G.nodes():
-            self.prob += self.t[v] <= self.sub_G.nodes[v]["upper"], "node_%s_up" % v
-            self.prob += self.t[v] >= self.sub_G.nodes[v]["lower"], "node_%s_low" % v
+            self.prob += self.t[v] <= self.sub_G.nodes[v]["upper"], "node_{}_up".format(v)
+            self.prob += self.t[v] >= self.sub_G.nodes[v]["lower"], "node_{}_low".format(v)
 
     def _add_max_stops(self):
         # Add max stop constraint
@@ -276,7 +276,7 @@ class _SubProblemLP(_SubProblemBase):
         self.prob += self.y["Source"] == 0, "Source_is_first"
         for v in self.sub_G.nodes():
             if v != "Sink":
-                self.prob += self.y[v] <= self.y["Sink"], "Sink_after_%s" % v
+                self.prob += self.y[v] <= self.y["Sink"], "Sink_after_{}".format(v)
 
     def _add_pickup_delivery(self):
         """
@@ -374,7 +374,7 @@ class _SubProblemLP(_SubProblemBase):
                 self.prob += (
                     demand_v * is_used_v
                     == distribution_load_to_v - distribution_load_from_v,
-                    "demand_%s" % v,
+                    "demand_{}".format(v),
                 )
         # load definition (collection)
         for v in self.sub_G.nodes():
@@ -391,7 +391,7 @@ class _SubProblemLP(_SubProblemBase):
                 )
                 self.prob += (
                     collect_v * is_used_v == collect_load_from_v - collect_load_to_v,
-                    "collect_%s" % v,
+                    "collect_{}".format(v),
                 )
         # Max load per edge
         for (u, v) in self.sub_G.edges():
-- 
2.43.0


From aaa5a92ef3d54fd1240175bffad0268b362cbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:15 +0000
Subject: [PATCH 39/42] fix: with the global span only the first 74 routes
 could be used

---
 vrpy/master_solve_pulp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 298ee5d..43eac32 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -420,7 +420,9 @@ class _MasterSolvePulp(_MasterProblemBase):
             cost = 0
         else:
             # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
+            constraints = [
+                self.makespan_constr[x] for x in range(1, len(self.routes) + 75)
+            ]
             cost = 1
         self.makespan = pulp.LpVariable(
             "makespan",
-- 
2.43.0


From c24ee16d8c8e9fef95dba7c152526e5f408a7bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:15 +0000
Subject: [PATCH 40/42] fix: KeyError with the global span and more than 999
 initial routes

---
 vrpy/master_solve_pulp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 43eac32..1a14436 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -40,7 +40,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         # Restricted master heuristic
         self.diving_heuristic = _DivingHeuristic()
         # Parameter when minimizing global span
-        self._n_columns = 1000
+        self._n_columns = 1000 + len(self.routes)
 
         self._formulate()
 
-- 
2.43.0


From 69dc2506daeca38bf033371bda4670a0afb75933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:05 +0000
Subject: [PATCH 41/42] fix: an expensive locked route was rejected

The edges that the depot lacks are added with a cost of 1e10; a locked route
that uses one was said to fit no vehicle.
---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 3201f3b..561d7f8 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1213,7 +1213,7 @@ class VehicleRoutingProblem:
         """Returns the vehicle type of a preassigned complete route."""
         vehicle_type = None
         edges = list(zip(route[:-1], route[1:]))
-        best_cost = 1e10
+        best_cost = float("inf")
         for k in range(self._vehicle_types):
             # If different vehicles, the cheapest feasible one is accounted for
             if self.num_vehicles and self.num_vehicles[k] == 0:
-- 
2.43.0


From b9beeb0652f353e687880152dfb3657730102455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:32 +0000
Subject: [PATCH 42/42] fix: visits of the periodic case could be skipped in
 the final plan

---
 vrpy/master_solve_pulp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 1a14436..a78142d 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -177,8 +177,8 @@ class _MasterSolvePulp(_MasterProblemBase):
             # The decisions of the diving heuristic are only used to find columns
             for const in [c for c in self.prob.constraints if c.startswith("fix_")]:
                 del self.prob.constraints[const]
-            # Set partitioning constraints and artificial variables to integer
-            # (for the periodic case)
+            # Set partitioning constraints, and force the artificial variables of
+            # the periodic case to 0 (all the visits have to be made)
             for node in self.G.nodes():
                 if (
                     node not in ["Source", "Sink"]
@@ -196,7 +196,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     and self.G.nodes[node]["frequency"] > 1
                     and node != "Source"
                 ):
-                    self.dummy[node].cat = pulp.LpInteger
+                    self.dummy[node].upBound = 0
             # Set route variables to integer
             for var in self.y.values():
                 # Disallow routes that visit multiple nodes
-- 
2.43.0

