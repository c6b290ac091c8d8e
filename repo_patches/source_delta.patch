From b3b930cd8275afec16842f36ce2cba56005ac826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 01/39] fix: log the own activity id when a processor runs
 several shifts at once

---
 src/openclsim/core/processor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..af28a07 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -51,11 +51,15 @@ class Processor(SimpyObject):
         assert self.is_at(origin)
         assert destination.is_at(origin)
 
+        # remember which activity this is: another one can set self.activity_id while
+        # this process is waiting (a processor can have several resource slots)
+        activity_id = self.activity_id
+
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.START,
             )
 
@@ -70,7 +74,7 @@ class Processor(SimpyObject):
             reserved_amount=reserved_amount,
             id_=id_,
         )
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
         # Put the amount in the destination
         yield from self.check_possible_shift(
             origin=origin,
@@ -85,7 +89,7 @@ class Processor(SimpyObject):
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.STOP,
             )
 
-- 
2.43.0


From 23a7f59ea2665f143629a47f34f9fc0bb9941692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 02/39] fix: use the total load of all containers for the multi
 container dependent speed

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..994c6f7 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -222,8 +222,8 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
         return self.compute_v(fill_degree)
 
-- 
2.43.0


From 1befc65978189cdd9584e1ba771e5aba03b7ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 03/39] fix: apply the engine order to every kind of movable

---
 src/openclsim/core/movable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 994c6f7..a887a54 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
@@ -191,7 +191,7 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
+        return self.engine_order * self.compute_v(
             self.container.get_level() / self.container.get_capacity()
         )
 
@@ -225,7 +225,7 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
             sum_level += self.container.get_level(id_)
             sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.engine_order * self.compute_v(fill_degree)
 
 
 class Routable(Movable, Locatable):
-- 
2.43.0


From e98eb86a8a7b93508005ae6d39f285521773c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 04/39] fix: sailing time over a leg of a route is distance
 over speed

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index a887a54..4a31a70 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -334,7 +334,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
@@ -354,7 +354,7 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
-- 
2.43.0


From 57b27253e7a0252e1254ffddf685137dc7716d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 05/39] fix: look up the route on the graph of the environment
 when sailing over it

---
 src/openclsim/core/movable.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 4a31a70..8ed8059 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -394,16 +394,16 @@ class Routable(Movable, Locatable):
             a list of nodes that are available on the network
         """
         a = route[0]
-        a_geometry = self.graph.nodes[a]["geometry"]
+        a_geometry = self.env.graph.nodes[a]["geometry"]
         yield from self.move_to_geometry(a_geometry)
         # move self to node + geometry
         self.node = a
         self.geometry = a_geometry
 
         for i, (a, b) in enumerate(pairwise(route)):
-            a_geometry = self.graph[a]["geometry"]
-            b_geometry = self.graph[b]["geometry"]
-            edge_geometry = self.graph[(a, b)]["geometry"]
+            a_geometry = self.env.graph.nodes[a]["geometry"]
+            b_geometry = self.env.graph.nodes[b]["geometry"]
+            edge_geometry = self.env.graph.edges[(a, b)]["geometry"]
             # make sure we are in the right order
             edge_geometry = self.order_geometry(edge_geometry, a_geometry)
             # go to a (we should already be here)
@@ -412,7 +412,7 @@ class Routable(Movable, Locatable):
             # pass over the edge
             yield from self.pass_linestring(edge_geometry)
             # call any other functions we have registered
-            for pass_edge_function in self.pass_edge_function:
+            for pass_edge_function in self.on_pass_edge_functions:
                 yield pass_edge_function(
                     movable=self, a=a, b=b, route=route, geometry=edge_geometry
                 )
-- 
2.43.0


From b3c3ca755e506d4649af08e35f2443382e649f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 06/39] fix: a weather limit that is reached but never exceeded
 does not restrict

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..455296a 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -137,7 +137,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -151,7 +151,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 278a9708c6b43111472c7f2b16eb1ac30cd9aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 07/39] fix: wait for the next weather window when the data set
 has to be repeated

---
 src/openclsim/plugins/weather.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 455296a..f0eba95 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -114,12 +114,14 @@ class WeatherPluginActivity(model.AbstractPluginClass):
 
         filter_windows = windows[windows[:, 1] >= start_time]
         i = 0
+        dt = 0
         while len(filter_windows) < 1 and i < 10:
             dt = i * (ts_stop - ts_start)
             filter_windows = windows[windows[:, 1] >= start_time - dt]
             i = i + 1
 
-        return list(filter_windows[0])
+        # windows found in a repetition of the data set start that much later
+        return list(filter_windows[0] + dt)
 
     def process_data(self, criterion) -> dict:
         col = criterion.condition
-- 
2.43.0


From 45f30412a22a0703f599117561ce4764b96b0b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 08/39] fix: accept a manual id map of ids to names for the log
 dataframe

---
 src/openclsim/plot/log_dataframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..258b8b3 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    if isinstance(id_map, dict) and not any(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
-- 
2.43.0


From 46a744c3118a702d84d922c815c208795e9054f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 09/39] fix: keep simultaneous log entries in order in the log
 dataframe

---
 src/openclsim/plot/log_dataframe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 258b8b3..280e802 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -33,10 +33,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
+    # a stable sort keeps simultaneous entries in the order they were logged in
+    df = pd.DataFrame(simulation_object.log).sort_values(
+        by=["Timestamp"], kind="stable"
     )
     return pd.concat(
         [
-- 
2.43.0


From 4aac7f72fa679fcd9e62c1f95d07d60de17f728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 10/39] fix: mark every activity on a longest path as critical,
 without unbounded recursion

---
 .../critical_path/simulation_graph.py         | 179 +++++-------------
 1 file changed, 44 insertions(+), 135 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..d9bd30d 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,9 +3,9 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
+import math
 
 import networkx as nx
 from pandas.api.types import is_numeric_dtype, is_timedelta64_dtype
@@ -277,148 +277,57 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
+        Create a list of the activity edges on a longest path in the graph.
 
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
-            )
+        An edge is on a longest path if the longest path towards it, its own
+        duration and the longest path from it onwards together have the maximum
+        duration. Only paths which have the same end time as the initial longest
+        path are considered.
+        """
+        graph = self.simulation_graph
 
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
+        # get the end time of the initial longest path
+        longest_path = nx.dag_longest_path(graph, weight="duration")
+        t_max_end = graph.nodes[longest_path[-1]]["time"]
+        logging.debug(
+            f"Max duration {round(self.max_duration, 2)}, t_max end {t_max_end}."
+        )
 
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
-            )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
+        # longest duration of the paths towards and from every node
+        nodes = list(nx.topological_sort(graph))
+        duration_to = {}
+        for node in nodes:
+            duration_to[node] = max(
+                [0]
+                + [
+                    duration_to[previous] + duration
+                    for previous, _, duration in graph.in_edges(node, data="duration")
+                ]
             )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
+        duration_from = {}
+        for node in reversed(nodes):
+            duration_from[node] = max(
+                [0 if graph.nodes[node]["time"] == t_max_end else -math.inf]
+                + [
+                    duration + duration_from[following]
+                    for _, following, duration in graph.out_edges(node, data="duration")
+                ]
             )
 
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
+        list_critical = []
+        for start, end, attributes in graph.edges(data=True):
+            if attributes["edge_type"] != self.__EDGE_TYPES[0]:
+                continue
+            duration = (
+                duration_to[start] + attributes["duration"] + duration_from[end]
             )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
-                )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
-                )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
-            ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+            if round(duration, 2) == round(self.max_duration, 2):
+                attributes[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+                list_critical.append((start, end))
+
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From 6969c1e0b29e8d58e327b1b50e291006f304a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 11/39] fix: export the direct parent of activities nested more
 than one level

---
 src/openclsim/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..d1f77b8 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,12 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            # deeper nested activities already have their own (direct) parent
+            direct = [level == depth + 1 for level in d["ParentLevel"]]
+            ParentId += [act.id if x else y for x, y in zip(direct, d["ParentId"])]
+            ParentName += [
+                act.name if x else y for x, y in zip(direct, d["ParentName"])
+            ]
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From 459939f1b9babdbd5328058190c10032ba1f18fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 12/39] fix: export an empty resource table when no activity
 has a resource

---
 src/openclsim/io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index d1f77b8..efc2fd1 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -121,16 +121,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
-- 
2.43.0


From 4eed9c34074b6c3b6b53d7a302bec57e10932972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 13/39] fix: pair every start with the stop of the same
 execution in exported ranges

---
 src/openclsim/io.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index efc2fd1..7df5cb7 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -164,11 +164,15 @@ def get_ranges_dataframe(simulation_object, id_map=None):
     li = []
 
     # do this analysis per ActivityID
-    # each intervals has START STOP
-    # at most 1 interval may be without STOP, the last one
+    # each intervals has START STOP with the same label (an activity also
+    # logs the intervals of its subprocesses, each labelled with its reference)
+    # only intervals that are cut off by the end of the log may be without STOP
 
     for ActivityID in set(log[idkey]):
         log1 = log[log[idkey] == ActivityID]
+        label = (
+            log1.reindex(columns=["type", "ref"]).astype(str).agg(" ".join, axis="columns")
+        )
 
         t0 = log1[log1["ActivityState"] == "START"].rename(
             columns={"Timestamp": "TimestampStart"}
@@ -190,19 +194,16 @@ def get_ranges_dataframe(simulation_object, id_map=None):
             t1 = t1[["TimestampStop"]]
 
         t0["trip"] = range(1, len(t0) + 1)
-        t1["trip"] = range(1, len(t1) + 1)
-
-        if len(t0) == len(t1):
-            pass
-        elif len(t0) == len(t1) + 1:
-            print("END missing")
-            dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
-            )  # will give NaT
-            t1 = pd.concat([t1, dt1], ignore_index=True)
-        else:
+        for t in [t0, t1]:
+            t["label"] = label
+            t["nr"] = t.groupby("label").cumcount()
+
+        if len(t0) > len(t1):
+            print("END missing")  # will give NaT
+        elif len(t0) < len(t1):
             raise Exception("At most 1 range may be without STOP")
-        s = t0.merge(t1, on="trip")
+        s = t0.merge(t1, on=["label", "nr"], how="left")
+        s = s.drop(columns=["label", "nr"])
 
         s[idkey] = ActivityID
         dt = s["TimestampStop"] - s["TimestampStart"]
-- 
2.43.0


From 631a2ed4bf54cc240b6939dc5a8fddd01c2d01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 14/39] fix: export no ranges instead of failing for objects
 that did not log anything

---
 src/openclsim/io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7df5cb7..6ee2d6c 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -211,6 +211,12 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if not li:
+        # nothing logged (yet)
+        return pd.DataFrame(
+            columns=["TimestampStart", "trip", "TimestampStop", idkey, "TimestampDt"]
+        )
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
-- 
2.43.0


From 8aacfd2f77181df7865a4488baa64c3c9a8ccd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 15/39] fix: plot sub-activities on vessels and sites when
 their parent is a concept too

---
 src/openclsim/plot/vessel_planning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 9ab6ee9..a88f3ba 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -87,7 +87,8 @@ def get_gantt_chart(
         id_map = {act.id: act.name for act in get_subprocesses(id_map)}
     else:
         id_map = id_map if id_map else {}
-    act_map = {ves.id: ves.name for ves in concepts}
+    # the log dataframes also resolve the sub-activities of the concepts
+    act_map = {ves.id: ves.name for ves in get_subprocesses(concepts)}
 
     if activities is None:
         activities = []
-- 
2.43.0


From c451f71e8ea5d3aee33aa83cc69cb49ec666b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 16/39] fix: accept a manual id map of ids to labels for the
 gantt chart

---
 src/openclsim/plot/vessel_planning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index a88f3ba..c75f5d7 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -80,7 +80,9 @@ def get_gantt_chart(
     if type(activities) == dict:
         activities = [*activities.values()]
 
-    if type(id_map) == dict:
+    if type(id_map) == dict and not any(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
 
     if type(id_map) == list:
-- 
2.43.0


From f8da6deab97d9cefff494df4f6d2961c4320c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 17/39] fix: extract dependencies of long simulations without
 recursion

---
 .../dependencies_from_simpy_step.py           | 61 +++++++++----------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 0e7bd76..dfc48e9 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -58,16 +58,19 @@ class DependenciesFromSimpy(BaseCP):
         """
         Hidden and protected method for the get_dependency_list.
 
-        This method recursively walks through the simpy dependencies
+        This method walks through the simpy dependencies
         (as the 'monkey-patched' step function recorded these) and keeps only those dependencies
         which are a timeout event. Then we translate the IDs of these dependencies from
         the original simpy e_id values to our openclsim cp_activity_id values.
         """
-        # Define some globals to which the recursive functions/while loop can append
+        # Define some globals to which the functions/while loop can append
         DEPENDENCIES_OPENCLSIM = []
-        SEEN = []
+        SEEN = set()
+        EFFECTS = {}
+        for cause, effect in self.__cause_effect_list:
+            EFFECTS.setdefault(cause, []).append(effect)
 
-        def __extract_openclsim_dependencies(tree_input, elem=None, last_seen=None):
+        def __extract_openclsim_dependencies(tree_input):
             """
             Extract the relevant (OpenCLSim) dependencies from the complete list
             of all Simpy dependencies.
@@ -82,38 +85,34 @@ class DependenciesFromSimpy(BaseCP):
             This function extracts such dependencies (which Timeout causes which timeout)
             from the original tree_input.
             """
-            if elem is None:
-                elem = tree_input[0][0]
-
-            # note that we have seen this one
-            SEEN.append(elem)
-
-            # get effects
-            effects_this_elem = [tup[1] for tup in tree_input if tup[0] == elem]
-            # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
-            # (because these events take time)
-            relevant_timeout = (
-                isinstance(
-                    self.step_logging_dataframe.loc[elem, "event_object"],
-                    simpy.events.Timeout,
+            # walk depth first, without recursion: the chain of events of a
+            # simulation is (much) longer than the maximum recursion depth
+            to_visit = [(tree_input[0][0], None)]
+            while to_visit:
+                elem, last_seen = to_visit.pop()
+
+                # note that we have seen this one
+                SEEN.add(elem)
+
+                # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
+                # (because these events take time)
+                event = self.step_logging_dataframe.loc[elem, "event_object"]
+                relevant_timeout = (
+                    isinstance(event, simpy.events.Timeout) and event._delay > 0
                 )
-                and self.step_logging_dataframe.loc[elem, "event_object"]._delay > 0
-            )
 
-            if relevant_timeout:
-                # relevant to SAVE
-                if last_seen is not None:
-                    DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
-                last_seen = elem
+                if relevant_timeout:
+                    # relevant to SAVE
+                    if last_seen is not None:
+                        DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
+                    last_seen = elem
 
-            for effect_this_elem in effects_this_elem:
-                logging.debug(f"Effect {effect_this_elem} from {effects_this_elem}")
-                __extract_openclsim_dependencies(
-                    tree_input, elem=effect_this_elem, last_seen=last_seen
+                effects_this_elem = EFFECTS.get(elem, [])
+                logging.debug(f"Effects {effects_this_elem} of {elem}")
+                to_visit.extend(
+                    (effect, last_seen) for effect in reversed(effects_this_elem)
                 )
 
-            return None
-
         # get all relevant dependencies from the simpy dependencies,
         # that is find how the timeouts depend on one another.
         tree = copy.deepcopy(self.__cause_effect_list)
-- 
2.43.0


From d190cb0432d09081c4929e4fac94d7ba1a9f7066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 18/39] fix: give the unloading rate function the levels before
 and after unloading

---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index af28a07..c967c0d 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -268,8 +268,8 @@ class UnloadingFunction:
             return duration, amount
         else:
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From c71be581c4963cea2e3b84bd16f934d01365059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 19/39] fix: give rate functions the levels of the container
 that is shifted

---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..58cd9e2 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -202,9 +202,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From 304b2b4f812c8b7f5f346614194389852888a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 20/39] fix: keep slots reserved that were already held when a
 shift has to wait for content

---
 src/openclsim/model/shift_amount_activity.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 58cd9e2..24cc528 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -108,6 +108,10 @@ class ShiftAmountActivity(GenericActivity):
                 ]
             )
 
+            # slots that are already held (kept by an earlier activity, or those of the
+            # destination) stay reserved, also when this attempt is aborted
+            held_resources = set(self.requested_resources)
+
             yield from self._request_resource(
                 self.requested_resources, self.processor.resource
             )
@@ -115,24 +119,15 @@ class ShiftAmountActivity(GenericActivity):
                 # someone removed / added content while we were requesting the
                 # processor, so abort and wait for available
                 # space/content again
-                self._release_resource(
-                    self.requested_resources,
-                    self.processor.resource,
-                )
+                self._release_unless_held(held_resources, self.processor.resource)
                 continue
 
             yield from self._request_resource(
                 self.requested_resources, self.origin.resource
             )
             if self.origin.container.get_level(self.id_) < amount:
-                self._release_resource(
-                    self.requested_resources,
-                    self.processor.resource,
-                )
-                self._release_resource(
-                    self.requested_resources,
-                    self.origin.resource,
-                )
+                self._release_unless_held(held_resources, self.processor.resource)
+                self._release_unless_held(held_resources, self.origin.resource)
                 continue
             all_available = True
 
@@ -179,6 +174,11 @@ class ShiftAmountActivity(GenericActivity):
                 self.requested_resources, self.processor.resource, self.keep_resources
             )
 
+    def _release_unless_held(self, held_resources, resource):
+        """Release the given resource, if it is not one of the held resources."""
+        if resource not in held_resources:
+            self._release_resource(self.requested_resources, resource)
+
     def _shift_amount(
         self,
         env,
-- 
2.43.0


From 581fe3a87b99c60fbf5aaefc3ca0f123276bc81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 21/39] fix: do not hand out a triggered container event when
 the level no longer satisfies it

---
 src/openclsim/core/events_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/events_container.py b/src/openclsim/core/events_container.py
index b748dff..d657f70 100644
--- a/src/openclsim/core/events_container.py
+++ b/src/openclsim/core/events_container.py
@@ -82,7 +82,7 @@ class EventsContainer(simpy.FilterStore):
         current_level = self.get_level(id_)
         event_status = getattr(py_opp, operator)(current_level, level)
 
-        if not event or (not event_status and event.processed):
+        if not event or (not event_status and event.triggered):
             # If event_status is still correct keep it otherwise overwrite it.
             self._container_events[(id_, level, operator)] = self._env.event()
 
-- 
2.43.0


From 60658ae32a3c1a189b30e2a6b16206fac4048c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 22/39] fix: weather data that turns bad once is not workable
 to its end

---
 src/openclsim/plugins/weather.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index f0eba95..66d8f7e 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -183,11 +183,14 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         data["ts_inter"] = np.maximum.reduce(data[columns].values, axis=1)
         data["end_inter"] = data.ts_inter.shift(-1)
 
-        if data.iloc[0]["type"] == "end":
+        # both have to be judged first: there may be one single transition
+        starts_within_window = data.iloc[0]["type"] == "end"
+        ends_within_window = data.iloc[-1]["type"] == "start"
+        if starts_within_window:
             data.iloc[0, data.columns.get_loc("type")] = "start"
             data.iloc[0, data.columns.get_loc("end_inter")] = data.iloc[0]["ts_inter"]
             data.iloc[0, data.columns.get_loc("ts_inter")] = orig_data.iloc[0]["ts"]
-        if data.iloc[-1]["type"] == "start":
+        if ends_within_window:
             data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
 
         data.rename(columns={"ts_inter": "start_inter"}, inplace=True)
-- 
2.43.0


From 1634473c7b53a71d52c8bc099ac70400f1663a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:28 +0000
Subject: [PATCH 23/39] fix: ranges of a log without any stop do not raise

---
 src/openclsim/io.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 6ee2d6c..7fcf53b 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -170,9 +170,8 @@ def get_ranges_dataframe(simulation_object, id_map=None):
 
     for ActivityID in set(log[idkey]):
         log1 = log[log[idkey] == ActivityID]
-        label = (
-            log1.reindex(columns=["type", "ref"]).astype(str).agg(" ".join, axis="columns")
-        )
+        labels = log1.reindex(columns=["type", "ref"]).astype(str)
+        log1 = log1.assign(label=labels.agg(" ".join, axis="columns"))
 
         t0 = log1[log1["ActivityState"] == "START"].rename(
             columns={"Timestamp": "TimestampStart"}
@@ -183,19 +182,18 @@ def get_ranges_dataframe(simulation_object, id_map=None):
 
         # add geometry?
         if "container level" in log1.keys():
-            t0 = t0[["TimestampStart", "container level"]].rename(
+            t0 = t0[["TimestampStart", "container level", "label"]].rename(
                 columns={"container level": "ContainerLevelStart"}
             )
-            t1 = t1[["TimestampStop", "container level"]].rename(
+            t1 = t1[["TimestampStop", "container level", "label"]].rename(
                 columns={"container level": "ContainerLevelStop"}
             )
         else:
-            t0 = t0[["TimestampStart"]]
-            t1 = t1[["TimestampStop"]]
+            t0 = t0[["TimestampStart", "label"]]
+            t1 = t1[["TimestampStop", "label"]]
 
         t0["trip"] = range(1, len(t0) + 1)
         for t in [t0, t1]:
-            t["label"] = label
             t["nr"] = t.groupby("label").cumcount()
 
         if len(t0) > len(t1):
-- 
2.43.0


From b8a0a9c28d2c03f9e25b5fe9535270ab104a7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 24/39] fix: manual id map labels activities that are plotted
 themselves too

---
 src/openclsim/plot/vessel_planning.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index c75f5d7..6b2034f 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -127,7 +127,8 @@ def get_gantt_chart(
     # prepare traces for each of the activities
     traces = []
     for i, activity in enumerate(activities):
-        activity = act_map.get(activity, activity)
+        activity_id = activity
+        activity = act_map.get(activity_id, activity_id)
         x_combined = []
         y_combined = []
         for k, df in enumerate(dataframes):
@@ -137,7 +138,7 @@ def get_gantt_chart(
             y_combined.extend(y)
         traces.append(
             go.Scatter(
-                name=id_map.get(activity, activity),
+                name=id_map.get(activity_id, activity),
                 x=x_combined,
                 y=y_combined,
                 mode="lines",
-- 
2.43.0


From b8dceccccd0e5fcaa25e5332be97718b58ca2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 25/39] fix: recorded activities of one activity and object
 pair an execution with its own end, also when a wait of no length separates
 executions

---
 src/openclsim/critical_path/base_cp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index a0c5fe8..db5b108 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -181,9 +181,13 @@ class BaseCP(ABC):
             The reformatted and reshaped log.
         """
 
-        df_log = df_log.sort_values(
-            by=["ActivityID", "Timestamp", "ActivityState"]
-        ).reset_index()
+        # starts and stops are paired by their order: within the log of one object,
+        # and (simultaneous) waiting apart from (simultaneous) execution
+        df_log = (
+            df_log.assign(waiting=df_log.ActivityState.str.contains("WAIT"))
+            .sort_values(by=["ActivityID", "SimulationObject", "waiting", "Timestamp"])
+            .reset_index()
+        )
 
         df_starts = (
             df_log[df_log.ActivityState.isin(["START", "WAIT_START"])]
-- 
2.43.0


From 34d21c03d36900edeb6d631f02b1221090acda39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 26/39] fix: refuse dependencies between activities that are a
 fraction of a second apart

---
 src/openclsim/critical_path/simulation_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index d9bd30d..ec083e8 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -250,7 +250,7 @@ class SimulationGraph:
             duration = end_time - start_time
 
             if isinstance(duration, dt.timedelta):
-                duration = int(duration.total_seconds())
+                duration = duration.total_seconds()
             if not isinstance(duration, (float, int)):
                 raise TypeError(
                     f"Duration computed as type {duration} " "is not supported!"
-- 
2.43.0


From d2a20bcbfab602894cb601aaf049d9bfe2f5f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:58 +0000
Subject: [PATCH 27/39] fix: dependencies on activities that take no time made
 the critical path fail

---
 .../critical_path/simulation_graph.py         | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index ec083e8..c914041 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -139,6 +139,11 @@ class SimulationGraph:
             )
 
         # drop activities with zero time, they mess up algorithm
+        self.zero_time_activities = set(
+            recorded_activities_df.loc[
+                recorded_activities_df.duration == 0, "cp_activity_id"
+            ]
+        )
         recorded_activities_df = recorded_activities_df.loc[
             recorded_activities_df.duration != 0, :
         ]
@@ -160,10 +165,35 @@ class SimulationGraph:
 
         dependency_list = [
             (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
-            for end, start in dependency_list
+            for end, start in self.__bypass_zero_time_activities(dependency_list)
         ]
         return dependency_list
 
+    def __bypass_zero_time_activities(self, dependency_list):
+        """
+        Replace dependencies on activities which are dropped (with zero time).
+
+        Whatever depends on an activity with zero time directly depends on
+        everything this activity depends on.
+
+        Parameters
+        ----------
+        dependency_list : list
+        """
+        dependencies = nx.DiGraph(dependency_list)
+        for activity in self.zero_time_activities & set(dependencies):
+            causes = list(dependencies.predecessors(activity))
+            effects = list(dependencies.successors(activity))
+            dependencies.remove_node(activity)
+            dependencies.add_edges_from(
+                (cause, effect)
+                for cause in causes
+                for effect in effects
+                if activity not in (cause, effect)
+            )
+
+        return list(dependencies.edges)
+
     def __construct_graph(self):
         """
         Construct and return simulation graph (self.simulation_graph),
-- 
2.43.0


From 2520978818d154266d5191b4f73e1aada42a3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 28/39] fix: activities on equally long paths were left out of
 the critical path by rounding

---
 src/openclsim/critical_path/simulation_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c914041..221c884 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -130,7 +130,7 @@ class SimulationGraph:
         if is_timedelta64_dtype(recorded_activities_df["duration"]):
             logging.debug("Converting duration to seconds (float)")
             recorded_activities_df["duration"] = round(
-                recorded_activities_df["duration"].dt.total_seconds(), 3
+                recorded_activities_df["duration"].dt.total_seconds(), 6
             )
         if not is_numeric_dtype(recorded_activities_df["duration"]):
             raise TypeError(
@@ -353,7 +353,7 @@ class SimulationGraph:
             duration = (
                 duration_to[start] + attributes["duration"] + duration_from[end]
             )
-            if round(duration, 2) == round(self.max_duration, 2):
+            if math.isclose(duration, self.max_duration, rel_tol=0, abs_tol=0.005):
                 attributes[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
                 list_critical.append((start, end))
 
-- 
2.43.0


From d407eed56666861562a8a74327816dc48d93db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 29/39] fix: dependency extraction failed when an activity also
 waits or runs for no time at all

---
 .../critical_path/dependencies_from_simpy_step.py        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index dfc48e9..4aa1c71 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -120,8 +120,13 @@ class DependenciesFromSimpy(BaseCP):
             __extract_openclsim_dependencies(tree)
             tree = [tup for tup in tree if tup[0] not in SEEN]
 
-        # get recorded activities and convert times to floats (seconds since Jan 1970)
-        recorded_activities_df = self.recorded_activities_df.copy()
+        # get recorded activities (with a duration, as the timeouts have) and convert
+        # times to floats (seconds since Jan 1970)
+        recorded_activities_df = self.recorded_activities_df.loc[
+            self.recorded_activities_df.end_time
+            > self.recorded_activities_df.start_time,
+            :,
+        ].copy()
         recorded_activities_df.start_time = round(
             recorded_activities_df.start_time.astype("int64") / 10**9, 4
         )
-- 
2.43.0


From b1ce65942521ee3ac62b99f899dd30f2244fa16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 30/39] fix: dependency extraction failed on time expressions
 that are not recorded as waiting

---
 .../dependencies_from_simpy_step.py           | 46 ++++++++++++-------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 4aa1c71..1998631 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -135,36 +135,50 @@ class DependenciesFromSimpy(BaseCP):
         )
 
         # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
-        self.dependency_list = [
-            (
-                self._find_cp_act(dependency[0], recorded_activities_df),
-                self._find_cp_act(dependency[1], recorded_activities_df),
-            )
-            for dependency in DEPENDENCIES_OPENCLSIM
-        ]
-
-    def _find_cp_act(self, e_id, recorded_activities_df):
+        self.dependency_list = []
+        for cause, effect in DEPENDENCIES_OPENCLSIM:
+            cp_cause = self._find_cp_act(cause, recorded_activities_df)
+            cp_effect = self._find_cp_act(effect, recorded_activities_df, True)
+            if cp_cause is not None and cp_effect is not None:
+                self.dependency_list.append((cp_cause, cp_effect))
+
+    def _find_cp_act(self, e_id, recorded_activities_df, match_start=False):
         """
         Get cp activity ID given a time-window and an activity ID.
 
+        The timeouts of time expressions (start events, conditions) start when the
+        expression is evaluated, and are not always recorded (as waiting). If so,
+        None is returned.
+
         Parameters
         ----------
         e_id : int
             Execution id from simpy.
         recorded_activities_df : pd.DataFrame
             From self.get_recorded_activity_df().
+        match_start : bool
+            If True the recorded activity must start with the timeout as well.
         """
-        activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
+        event = self.step_logging_dataframe.loc[e_id, "event_object"]
+        activity_id = event.value
         end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
-        matching_ids = recorded_activities_df.loc[
-            (
-                (recorded_activities_df.ActivityID == activity_id)
-                & (recorded_activities_df.end_time == end_time)
-            ),
-            "cp_activity_id",
+        start_time = round(
+            self.step_logging_dataframe.loc[e_id, "t1"] - event._delay, 4
+        )
+        matching = recorded_activities_df.loc[
+            (recorded_activities_df.ActivityID == activity_id)
+            & (recorded_activities_df.end_time == end_time),
+            :,
         ]
+        matching_exact = matching.loc[matching.start_time == start_time, :]
+        if match_start or len(matching_exact) > 0:
+            matching = matching_exact
+        matching_ids = matching.cp_activity_id
+
         if len(set(matching_ids)) == 1:
             cp_activity_id = matching_ids.iloc[0]
+        elif activity_id in set(self.recorded_activities_df.ActivityID):
+            cp_activity_id = None
         else:
             raise ValueError(
                 f"No recorded activity found for"
-- 
2.43.0


From eed729d5bc8a62a391e3e0a21bd6872540be9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 31/39] fix: dependency extraction missed executions whose end
 was rounded differently

---
 .../dependencies_from_simpy_step.py           | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 1998631..39de185 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -127,11 +127,11 @@ class DependenciesFromSimpy(BaseCP):
             > self.recorded_activities_df.start_time,
             :,
         ].copy()
-        recorded_activities_df.start_time = round(
-            recorded_activities_df.start_time.astype("int64") / 10**9, 4
+        recorded_activities_df.start_time = (
+            recorded_activities_df.start_time.astype("int64") / 10**9
         )
-        recorded_activities_df.end_time = round(
-            recorded_activities_df.end_time.astype("int64") / 10**9, 4
+        recorded_activities_df.end_time = (
+            recorded_activities_df.end_time.astype("int64") / 10**9
         )
 
         # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
@@ -161,16 +161,17 @@ class DependenciesFromSimpy(BaseCP):
         """
         event = self.step_logging_dataframe.loc[e_id, "event_object"]
         activity_id = event.value
-        end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
-        start_time = round(
-            self.step_logging_dataframe.loc[e_id, "t1"] - event._delay, 4
-        )
+        end_time = self.step_logging_dataframe.loc[e_id, "t1"]
+        start_time = end_time - event._delay
+        # compare with a tolerance, the logs are rounded (to microseconds)
         matching = recorded_activities_df.loc[
             (recorded_activities_df.ActivityID == activity_id)
-            & (recorded_activities_df.end_time == end_time),
+            & ((recorded_activities_df.end_time - end_time).abs() < 1e-4),
             :,
         ]
-        matching_exact = matching.loc[matching.start_time == start_time, :]
+        matching_exact = matching.loc[
+            (matching.start_time - start_time).abs() < 1e-4, :
+        ]
         if match_start or len(matching_exact) > 0:
             matching = matching_exact
         matching_ids = matching.cp_activity_id
-- 
2.43.0


From f5aa0d0a478ba9dc4b672b82c3b1240061ff9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 32/39] fix: the sailing distance over part of a path was a
 fraction of its length in degrees

---
 src/openclsim/core/movable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 8ed8059..a85d500 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -9,6 +9,7 @@ import numpy as np
 import pyproj
 import shapely
 import shapely.geometry
+import shapely.ops
 
 from .container import HasContainer, HasMultiContainer
 from .locatable import Locatable
@@ -286,9 +287,8 @@ class Routable(Movable, Locatable):
         if self.path is not None:
             a = self.path.line_locate_point(origin)
             b = self.path.line_locate_point(destination)
-            frac_distance = abs(a - b) / self.path.length
-            total_distance = WGS84.geometry_length(self.path)
-            return frac_distance * total_distance
+            path = shapely.ops.substring(self.path, a, b)
+            return WGS84.geometry_length(path)
         if self.route is not None:
             total_distance = 0
             a = self.route[0]
-- 
2.43.0


From addefa5289f74a15ea125e88cbc395a2706472b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 33/39] fix: resolve references by name to the activity of that
 name, also if it is the id of another

---
 src/openclsim/model/base_activities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index 6d618e3..ef63930 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -201,7 +201,10 @@ class GenericActivity(PluginActivity):
 
                 activity_from_id = self.registry.get("id", {}).get(key)
                 activity_from_name = self.registry.get("name", {}).get(key)
-                if activity_from_id is not None:
+                # an id may equal the name of another activity
+                if activity_from_id is not None and (
+                    "ID" in expr or activity_from_name is None
+                ):
                     activity_ = activity_from_id
                 elif activity_from_name is not None:
                     activity_ = activity_from_name
-- 
2.43.0


From bce67dc767fcd4237325c2d13ab0c773aa27c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 34/39] fix: drawing a vessel planning no longer changes the
 state of the shared random generator

---
 src/openclsim/plot/vessel_planning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 6b2034f..6c0e2b3 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -13,9 +13,12 @@ from .log_dataframe import get_log_dataframe
 def get_colors(n):
     """Get random colors for the activities."""
     ret = []
-    r = int(random.random() * 256)
-    g = int(random.random() * 256)
-    b = int(random.random() * 256)
+    # do not draw from the shared generator: a simulation that is still under
+    # way may take its random durations from it
+    generator = random.Random()
+    r = int(generator.random() * 256)
+    g = int(generator.random() * 256)
+    b = int(generator.random() * 256)
     step = 256 / n
     for i in range(n):
         r += step
-- 
2.43.0


From 6b812e89956d67f72d5b9dee5c8188bc1b58e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 35/39] fix: registering a finished structural activity again
 let its parts start before it

---
 src/openclsim/model/base_activities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index ef63930..3c14879 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -140,9 +140,9 @@ class GenericActivity(PluginActivity):
         # replace the events
         self.done_event = self.env.event()
         if hasattr(self, "start_sequence") and self.start_sequence.processed:
-            self.start_sequence = self.env.event()
+            self.register_subprocesses()
         if hasattr(self, "start_parallel") and self.start_parallel.processed:
-            self.start_parallel = self.env.event()
+            self.register_subprocesses()
 
         # Make container reservations
         if hasattr(self, "make_container_reservation"):
-- 
2.43.0


From 3720a0db45ad1f415a645236c5249204bcabd733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 36/39] fix: a shift that fills its destination got stuck when
 the difference of the levels is rounded

---
 src/openclsim/model/shift_amount_activity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 24cc528..5a55a22 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -99,9 +99,13 @@ class ShiftAmountActivity(GenericActivity):
                         operator="ge",
                         id_=self.id_,
                     ),
+                    # (rounding can put the difference just below the present level, for
+                    # which the amount was determined)
                     self.destination.container.get_container_event(
-                        level=self.destination.container.get_capacity(self.id_)
-                        - amount,
+                        level=max(
+                            self.destination.container.get_capacity(self.id_) - amount,
+                            self.destination.container.get_level(self.id_),
+                        ),
                         operator="le",
                         id_=self.id_,
                     ),
-- 
2.43.0


From a496dbc997d9849ea60ce58a86ae1376fb718f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 37/39] fix: ranges paired starts with stops of other
 activities that have the same label

---
 src/openclsim/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7fcf53b..d0c9fd4 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -158,19 +158,21 @@ def get_ranges_dataframe(simulation_object, id_map=None):
     """
 
     log = get_log_dataframe(simulation_object, id_map=id_map)
+    # several activities may share one label
+    log["ActivityID"] = get_log_dataframe(simulation_object)["Activity"]
 
     idkey = "Activity"  # ActivityID
 
     li = []
 
     # do this analysis per ActivityID
-    # each intervals has START STOP with the same label (an activity also
-    # logs the intervals of its subprocesses, each labelled with its reference)
+    # each intervals has START STOP of the same activity with the same label (an
+    # activity also logs the intervals of its subprocesses, labelled with a reference)
     # only intervals that are cut off by the end of the log may be without STOP
 
     for ActivityID in set(log[idkey]):
         log1 = log[log[idkey] == ActivityID]
-        labels = log1.reindex(columns=["type", "ref"]).astype(str)
+        labels = log1.reindex(columns=["ActivityID", "type", "ref"]).astype(str)
         log1 = log1.assign(label=labels.agg(" ".join, axis="columns"))
 
         t0 = log1[log1["ActivityState"] == "START"].rename(
-- 
2.43.0


From b1fa55d7f7789088fb87511d5423a0fd23c40475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 38/39] fix: the gantt chart drew the executions of other
 activities with the same name

---
 src/openclsim/plot/vessel_planning.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 6c0e2b3..68cc229 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -92,7 +92,7 @@ def get_gantt_chart(
         id_map = {act.id: act.name for act in get_subprocesses(id_map)}
     else:
         id_map = id_map if id_map else {}
-    # the log dataframes also resolve the sub-activities of the concepts
+    # the legend also resolves the sub-activities of the concepts
     act_map = {ves.id: ves.name for ves in get_subprocesses(concepts)}
 
     if activities is None:
@@ -111,7 +111,7 @@ def get_gantt_chart(
     names = []
     for vessel in concepts:
         if len(vessel.log["Timestamp"]) > 0:
-            df = get_log_dataframe(vessel, concepts).rename(
+            df = get_log_dataframe(vessel).rename(
                 columns={
                     "Activity": "log_string",
                     "ActivityState": "activity_state",
@@ -132,13 +132,18 @@ def get_gantt_chart(
     for i, activity in enumerate(activities):
         activity_id = activity
         activity = act_map.get(activity_id, activity_id)
+        # activities of the concepts can also be given by their name
+        ids = [id_ for id_, name in act_map.items() if name == activity_id]
+        if activity_id in act_map or len(ids) == 0:
+            ids = [activity_id]
         x_combined = []
         y_combined = []
         for k, df in enumerate(dataframes):
             y_val = -k if y_scale == "numbers" else names[k]
-            x, y = get_segments(df, activity=activity, y_val=y_val)
-            x_combined.extend(x)
-            y_combined.extend(y)
+            for id_ in ids:
+                x, y = get_segments(df, activity=id_, y_val=y_val)
+                x_combined.extend(x)
+                y_combined.extend(y)
         traces.append(
             go.Scatter(
                 name=id_map.get(activity_id, activity),
-- 
2.43.0


From f5398290ee5235e8f298ae38ad512950b2f6c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 39/39] fix: weather data in a column with the name of one the
 plugin adds (cur, type, ...) was misread

---
 src/openclsim/plugins/weather.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 66d8f7e..9bb4f81 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -124,8 +124,10 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         return list(filter_windows[0] + dt)
 
     def process_data(self, criterion) -> dict:
-        col = criterion.condition
-        orig_data = self.metocean_df.copy()
+        # (the name of the column may be that of one of the columns added below)
+        col = "condition"
+        orig_data = self.metocean_df[["ts", criterion.condition]].copy()
+        orig_data.columns = ["ts", col]
 
         # get start and stop date of the data set
         ts_start = min(orig_data["ts"])
-- 
2.43.0

