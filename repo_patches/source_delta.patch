From 771be6af0903b7263a2b752a754352cf6382953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 01/19] fix: check every row of an item when testing whether it
 fits

The fit check compared the item's last row only at its two corners, so an
item could be placed over a narrower one lying in that row.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21e4d08..a22e495 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -92,7 +92,7 @@ class PointGenerationMixin:
         ):
             return False
 
-        for y in range(Yo, Yo + l - 1):
+        for y in range(Yo, Yo + l):
             if any(container_coords[y][Xo : Xo + w]):
                 return False
 
-- 
2.43.0


From 24e1b184afe747be5d20fcef222ba70b46046554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 02/19] fix: measure the height of a strip solution in rows,
 not by the last row's index

The utilisation of a strip solution was computed with a height one too small,
giving values above 1.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a22e495..9a9a0bf 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -531,7 +531,7 @@ class PointGenerationMixin:
 
             for y in range(L - 1, 0, -1):
                 if any(container_coords[y]):
-                    height_of_solution = y
+                    height_of_solution = y + 1
                     break
 
             items_area = sum(
-- 
2.43.0


From 13d6af7e953268e83a5af6509ab589a27629726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 03/19] fix: report an empty strip solution instead of dividing
 by its height

log_solution raised ZeroDivisionError when no item was placed in the strip.
---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 9a9a0bf..663fc69 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -653,7 +653,9 @@ class SolutionLoggingMixin:
             total_items_area = sum(
                 [i[2] * i[3] for item_id, i in self.solution[cont_id].items()]
             )
-            log.append(f"\t[util%] : {total_items_area*100/(W*L):.4f}%")
+            # an empty strip solution has no height
+            util = total_items_area * 100 / (W * L) if L else 0
+            log.append(f"\t[util%] : {util:.4f}%")
             if self._strip_pack:
                 solution = self.solution[cont_id]
                 # height of items stack in solution
-- 
2.43.0


From b6305091afd744507885e71b96fd10e594fb1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 04/19] fix: reuse the figure's colours when a container holds
 more items than colours

create_figure raised IndexError for containers with more than 1000 items.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 663fc69..038a279 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -811,7 +811,7 @@ class SolutionFigureMixin:
         Method for returning a hexadecimal color for every item
         in the graph.
         """
-        return constants.ITEMS_COLORS[index]
+        return constants.ITEMS_COLORS[index % len(constants.ITEMS_COLORS)]
 
     def get_figure_dtick_value(self, dimension, scale=20):
         """
-- 
2.43.0


From 7a3cc919cc6d54a02046ab9566a0511c9ec80029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 05/19] fix: enumerate the strategies in the same order for
 every hash seed

The permutations were taken over a set of strings, so a search ended by its
time limit tried other strategies from one interpreter to the next.
---
 hyperpack/heuristics.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 48a9f94..392704e 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -446,13 +446,15 @@ class HyperPack(
             else self.STRATEGIES_SUFFIX
         )
         if _exhaustive:
-            points = set(self.DEFAULT_POTENTIAL_POINTS_STRATEGY)
-            points_to_permutate = points.difference(set(suffixes))
+            # a list, so that the order of the strategies doesn't depend on hashing
+            points_to_permutate = [
+                point
+                for point in self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+                if point not in suffixes
+            ]
             return [
                 x + self.STRATEGIES_SUFFIX
-                for x in list(
-                    permutations(list(points_to_permutate), len(points_to_permutate))
-                )
+                for x in list(permutations(points_to_permutate, len(points_to_permutate)))
             ]
         else:
             # for testing or customization purposes
-- 
2.43.0


From 24a2c8199fc6eb070a01a4679df81ecbdf8b7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 06/19] fix: orient items and reset solutions in steps that may
 be interrupted

An exception such as KeyboardInterrupt between the two assignments of a swap
left an item with the same width and length, and between the two resets a
solution without its utilisation.
---
 hyperpack/mixins.py     | 4 ++--
 hyperpack/structures.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 038a279..c9761a4 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1012,13 +1012,13 @@ class ItemsManipulationMixin:
             for _id in items:
                 w, l = items[_id]["w"], items[_id]["l"]
                 if l > w:
-                    items[_id]["w"], items[_id]["l"] = l, w
+                    items[_id] = {"w": l, "l": w}
 
         elif orientation == "long":
             for _id in items:
                 w, l = items[_id]["w"], items[_id]["l"]
                 if l < w:
-                    items[_id]["w"], items[_id]["l"] = l, w
+                    items[_id] = {"w": l, "l": w}
 
     def sort_items(self, sorting_by: tuple or None = ("area", True)) -> None:
         """
diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 3311975..a82b9e6 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -76,8 +76,8 @@ class Dimensions(UserDict):
             self.reset_instance_attrs()
 
     def reset_instance_attrs(self):
-        self.instance.obj_val_per_container = {}
         self.instance.solution = {}
+        self.instance.obj_val_per_container = {}
 
     def validate_data(self, key: str, item: int):
         """
@@ -191,8 +191,8 @@ class AbstractStructureSet(UserDict):
         return Dimensions(dims, self, self.instance)
 
     def reset_instance_attrs(self):
-        self.instance.obj_val_per_container = {}
         self.instance.solution = {}
+        self.instance.obj_val_per_container = {}
 
     def deepcopy(self, ids_sequence: Union[list[str], tuple[str]] = None):
         if ids_sequence is None:
-- 
2.43.0


From 90cdc2761c3258fff2add6d8a4d406f35a831ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 07/19] fix: validate |= on items, containers and their
 dimensions

The inherited operator stored anything without validation, kept the published
solution and changed even the strip's container.
---
 hyperpack/heuristics.py |  6 ++++++
 hyperpack/structures.py | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 392704e..8f3d812 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -110,6 +110,9 @@ class BasePackingProblem:
 
     @items.setter
     def items(self, value):
+        if value is self._items:
+            # assignment part of items |= {...}, already validated
+            return
         self._items = Items(value, self)
 
     @items.deleter
@@ -126,6 +129,9 @@ class BasePackingProblem:
     def containers(self, value):
         if self._strip_pack:
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
+        if value is self._containers:
+            # assignment part of containers |= {...}, already validated
+            return
         self._containers = Containers(value, self)
         self._containers_num = len(value)
 
diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index a82b9e6..94c7308 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -121,6 +121,11 @@ class Dimensions(UserDict):
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
+    def __ior__(self, other):
+        # the inherited operator changes the data without validation
+        self.update(other)
+        return self
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -170,6 +175,13 @@ class AbstractStructureSet(UserDict):
         if self.instance._strip_pack and isinstance(self, Containers):
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
 
+        if (
+            isinstance(new_dimensions, Dimensions)
+            and self.data.get(structure_id) is new_dimensions
+        ):
+            # assignment part of structure[id] |= {...}, already validated
+            return
+
         self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
 
         if self.instance is not None:
@@ -182,6 +194,11 @@ class AbstractStructureSet(UserDict):
         del self.data[key]
         self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # the inherited operator changes the data without validation
+        self.update(other)
+        return self
+
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
         # of the Dimensions class
-- 
2.43.0


From d2f74451503e87137e7a8af296c152d733527285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 08/19] fix: draw each item dimension around its own guideline
 and never below 1

generate_problem_data ignored items_length, took each deviation from the other
dimension and could return dimensions of 0 or less, which HyperPack rejects.
---
 hyperpack/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperpack/utils.py b/hyperpack/utils.py
index 147ee7e..817feb6 100644
--- a/hyperpack/utils.py
+++ b/hyperpack/utils.py
@@ -51,16 +51,16 @@ def generate_problem_data(**kwargs):
     items_length = kwargs.get("items_length", DEFAULT_MEAN_ITEM_LENGTH)
     items_width = kwargs.get("items_width", DEFAULT_MEAN_ITEM_WIDTH)
 
-    deviation_w_val = max(round(items_length * 0.6), 1)
-    deviation_h_val = max(round(items_width * 0.6), 1)
+    deviation_w_val = max(round(items_width * 0.6), 1)
+    deviation_h_val = max(round(items_length * 0.6), 1)
 
     lower_w_val, upper_w_val = (
-        items_width - deviation_w_val,
+        max(items_width - deviation_w_val, 1),
         items_width + deviation_w_val,
     )
     lower_h_val, upper_h_val = (
-        items_width - deviation_h_val,
-        items_width + deviation_h_val,
+        max(items_length - deviation_h_val, 1),
+        items_length + deviation_h_val,
     )
     items = {}
     total_items_num = items_num * containers_num
-- 
2.43.0


From e2e89e7566c28f66632eb7c75143146370bc64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 09/19] fix: keep the instance's potential points strategy in a
 single process search

hypersearch left the last strategy tried in place, so a later solve or search
of the same problem gave another result, and it labelled the solution of a
chosen strategy with the default one.
---
 hyperpack/heuristics.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 8f3d812..6b55079 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -473,28 +473,33 @@ class HyperPack(
         retain_solution = self.get_init_solution()
         best_obj_value = self.calculate_obj_value()
         optimum_obj_value = self.get_optimum_objective_val()
-        best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+        instance_strategy = self._potential_points_strategy
+        best_strategy = instance_strategy
 
-        for strategy in strategies:
-            # set the construction heuristic's potential points strategy
-            self._potential_points_strategy = strategy
+        try:
+            for strategy in strategies:
+                # set the construction heuristic's potential points strategy
+                self._potential_points_strategy = strategy
 
-            self.local_search(throttle=throttle, _hypersearch=True)
-            new_obj_val = self.calculate_obj_value()
+                self.local_search(throttle=throttle, _hypersearch=True)
+                new_obj_val = self.calculate_obj_value()
 
-            if self._check_solution(new_obj_val, best_obj_value):
-                best_obj_value = new_obj_val
-                retain_solution = self.get_solution()
-                best_strategy = [point for point in strategy]
-                hyperLogger.debug(f"\tNew best solution: {best_obj_value}\n")
+                if self._check_solution(new_obj_val, best_obj_value):
+                    best_obj_value = new_obj_val
+                    retain_solution = self.get_solution()
+                    best_strategy = [point for point in strategy]
+                    hyperLogger.debug(f"\tNew best solution: {best_obj_value}\n")
 
-                if self.global_check(new_obj_val, optimum_obj_value):
-                    hyperLogger.debug("Terminating due to max objective value obtained")
-                    break
+                    if self.global_check(new_obj_val, optimum_obj_value):
+                        hyperLogger.debug("Terminating due to max objective value obtained")
+                        break
 
-            if time.time() - self.start_time > self._max_time_in_seconds:
-                hyperLogger.debug("Terminating due to surpassed max time")
-                break
+                if time.time() - self.start_time > self._max_time_in_seconds:
+                    hyperLogger.debug("Terminating due to surpassed max time")
+                    break
+        finally:
+            # however the search ends, the instance keeps its own strategy
+            self._potential_points_strategy = instance_strategy
         return *retain_solution, best_strategy
 
     def _multi_process_hypersearch(
-- 
2.43.0


From 4a9c29cc6813c7a073003501f4d7e19f7ba7b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 10/19] fix: don't let hypersearch drop placed items from a
 strip solution

With the height lowered by an earlier strategy, the next one's first solution
may leave items out and still be denser; it replaced the complete solution.
---
 hyperpack/heuristics.py | 17 +++++++++++++++--
 hyperpack/processes.py  |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 6b55079..8510ca6 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -427,8 +427,21 @@ class HyperPack(
                 " multiprocessing depending code execution"
             )
 
-    def _check_solution(self, new_obj_val, best_obj_value):
+    def _check_solution(self, new_obj_val, best_obj_value, best_solution=None):
+        """
+        Checks if the instance's solution must replace ``best_solution``.
+
+        In strip packing, unless a minimum height is set, a denser
+        solution that leaves out items already placed is not a better one.
+        """
         if new_obj_val > best_obj_value:
+            if (
+                self._strip_pack
+                and self._container_min_height is None
+                and best_solution is not None
+            ):
+                cont_id = self.STRIP_PACK_CONT_ID
+                return len(self.solution[cont_id]) >= len(best_solution[cont_id])
             return True
         else:
             return False
@@ -484,7 +497,7 @@ class HyperPack(
                 self.local_search(throttle=throttle, _hypersearch=True)
                 new_obj_val = self.calculate_obj_value()
 
-                if self._check_solution(new_obj_val, best_obj_value):
+                if self._check_solution(new_obj_val, best_obj_value, retain_solution[0]):
                     best_obj_value = new_obj_val
                     retain_solution = self.get_solution()
                     best_strategy = [point for point in strategy]
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 9971e44..cfb78c2 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -84,7 +84,9 @@ class HyperSearchProcess(Process):
                 new_obj_value = self.instance.calculate_obj_value()
                 array_optimum = self.instance._get_array_optimum(self.shared_array)
 
-                if self.instance._check_solution(new_obj_value, best_obj_value):
+                if self.instance._check_solution(
+                    new_obj_value, best_obj_value, retain_solution[0]
+                ):
                     best_obj_value = new_obj_value
                     self.shared_array[self.index] = new_obj_value
 
-- 
2.43.0


From 1eda0e104a234a62e45450dee741d37cf9774236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 11/19] fix: collect the workers' results before joining them,
 and survive lost workers

A multi-process search never returned when a result was larger than a pipe's
buffer (the worker waits for it to be read, the parent for the worker) or when
the winning worker had been killed. A killed worker was not noticed, and a
worker that couldn't be started, or an interrupt, left the others running.
---
 hyperpack/heuristics.py | 37 +++++++++++++++++++++++++------------
 hyperpack/processes.py  | 40 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 8510ca6..62970ce 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -545,12 +545,31 @@ class HyperPack(
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
-        for p in processes:
-            p.start()
-        for p in processes:
-            p.join()
+        results = [None] * len(processes)
+        try:
+            started = []
+            for i, p in enumerate(processes):
+                try:
+                    p.start()
+                    started.append((i, p))
+                except OSError as e:
+                    hyperLogger.error(f"Process {p.name} couldn't be started: {e}")
+            for i, p in started:
+                results[i] = p.get_result()
+            for i, p in started:
+                p.join()
+        finally:
+            # no process outlives the search, whatever ended it
+            for p in processes:
+                if p.is_alive():
+                    p.kill()
+                    p.join()
+
         # at this point the processes concluded operation
-        shared_list = list(shared_Array)
+        shared_list = [
+            -1 if result is None else obj_value
+            for result, obj_value in zip(results, shared_Array)
+        ]
 
         # check if all/some processes failed
         if max(shared_list) == -1:
@@ -564,7 +583,7 @@ class HyperPack(
         shared_list_optimum = self._get_array_optimum(shared_list)
         win_process_index = shared_list.index(shared_list_optimum)
         win_process = processes[win_process_index]
-        win_metrics = win_process.queue.get()
+        win_metrics = results[win_process_index]
 
         best_solution = self._deepcopy_solution(win_metrics[1])
         best_obj_val_per_container = self._copy_objective_val_per_container(
@@ -579,12 +598,6 @@ class HyperPack(
             f"\nWinning Process {win_process.name} found max\n"
             f"\tobj_val = {win_metrics[0]}\n\tsequence = {win_metrics[3]}"
         )
-        win_process.queue.close()
-
-        # Log rest of the processes
-        # UNCOMMENT FOR EXTRA DEBUGGING ON PROCESSES
-        for p in processes:
-            p.queue.close()
 
         return (best_solution, best_obj_val_per_container, best_strategy)
 
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index cfb78c2..66ef63f 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -1,5 +1,6 @@
 from time import time
-from multiprocessing import Process, Queue
+from multiprocessing import Pipe, Process
+from pickle import UnpicklingError
 from .exceptions import MultiProcessError
 from .loggers import hyperLogger
 from copy import deepcopy
@@ -16,6 +17,9 @@ class HyperSearchProcess(Process):
     maximum value, the process stops and returns.
 
     Another criterion for stopping is the max available time.
+
+    The result is handed over through a pipe. The process itself holds the
+    only sending end, so if it dies the parent doesn't wait for its result.
     """
 
     def __init__(
@@ -41,7 +45,8 @@ class HyperSearchProcess(Process):
         self._force_raise_error_index = _force_raise_error_index
         self.index = index
         self.shared_array = shared_array
-        self.queue = Queue()
+        self._receiver = None
+        self._sender = None
         self.strategies_chunk = strategies_chunk
 
         settings = deepcopy(settings)
@@ -60,6 +65,30 @@ class HyperSearchProcess(Process):
         # it is the processe's name
         self.name = name
 
+    def start(self):
+        self._receiver, self._sender = Pipe(duplex=False)
+        try:
+            super().start()
+        except BaseException:
+            self._receiver.close()
+            raise
+        finally:
+            self._sender.close()
+
+    def get_result(self):
+        """
+        Waits for the process's result and returns it, or ``None`` if the
+        process failed. Must be called before ``join``: a process
+        doesn't end until a big result is read.
+        """
+        try:
+            return self._receiver.recv()
+        except (EOFError, OSError, UnpicklingError):
+            hyperLogger.error(f"Process {self.name} ended without a result")
+            return None
+        finally:
+            self._receiver.close()
+
     def run(self):
         try:
             if self._force_raise_error_index in (self.index, "all"):
@@ -122,7 +151,6 @@ class HyperSearchProcess(Process):
                     break
 
             output = (best_obj_value, *retain_solution, best_strategy)
-            self.queue.put(output)
 
         # % ------------ Exception case -----------
         except Exception as e:
@@ -130,4 +158,8 @@ class HyperSearchProcess(Process):
                 f"Process {self.name} failed with error: \n\t{str(e)}\n"
             )
             self.shared_array[self.index] = -1
-            self.queue.put((-1, {}, {}, None))
+            output = None
+
+        if self._sender is not None:
+            self._sender.send(output)
+            self._sender.close()
-- 
2.43.0


From 86e887eacc639fd46c00760584ac642b28780732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 12/19] fix: share the objective values without a lock

A worker killed while holding the array's lock blocked the other workers and
the parent for ever.
---
 hyperpack/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 62970ce..0e9c57f 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -526,7 +526,9 @@ class HyperPack(
 
         processes = []
         min_val = 0
-        shared_Array = Array("d", [min_val] * len(strategies_chunks))
+        # without lock: every process writes its own element only, and
+        # a process dying with the lock would block all the others
+        shared_Array = Array("d", [min_val] * len(strategies_chunks), lock=False)
         container_min_height = getattr(self, "container_min_height", None)
         for i, strategies_chunk in enumerate(strategies_chunks):
             processes.append(
-- 
2.43.0


From 70294ae2c7a2b28001b31f28de8cf0c0d508e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 13/19] fix: hand the configured strip height over to the
 search processes

Workers packed up to the default height, above a lower container_height.
---
 hyperpack/heuristics.py | 1 +
 hyperpack/processes.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 0e9c57f..df55b8e 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -544,6 +544,7 @@ class HyperPack(
                     shared_array=shared_Array,
                     throttle=throttle,
                     container_min_height=container_min_height,
+                    container_height=self._container_height,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 66ef63f..2afd9e8 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -36,6 +36,7 @@ class HyperSearchProcess(Process):
         *,
         strip_pack=False,
         container_min_height=None,
+        container_height=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -61,6 +62,8 @@ class HyperSearchProcess(Process):
 
         self.instance = HyperPack(**params)
         self.instance._container_min_height = container_min_height
+        if container_height is not None:
+            self.instance._container_height = container_height
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 1aa81fd6d0fa5ef67d0bd9e730078bec1ed09cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 14/19] fix: search in the workers with the settings in force
 in the parent

Workers applied the raw settings anew with HyperPack's own defaults, so
defaults of a subclass, and values not yet validated, differed.
---
 hyperpack/heuristics.py | 2 ++
 hyperpack/processes.py  | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index df55b8e..4e7ab21 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -545,6 +545,8 @@ class HyperPack(
                     throttle=throttle,
                     container_min_height=container_min_height,
                     container_height=self._container_height,
+                    rotation=self._rotation,
+                    max_time_in_seconds=self._max_time_in_seconds,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 2afd9e8..b5acef1 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -37,6 +37,8 @@ class HyperSearchProcess(Process):
         strip_pack=False,
         container_min_height=None,
         container_height=None,
+        rotation=None,
+        max_time_in_seconds=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -64,6 +66,12 @@ class HyperSearchProcess(Process):
         self.instance._container_min_height = container_min_height
         if container_height is not None:
             self.instance._container_height = container_height
+        # the values in force in the parent, which may differ from `settings`
+        # (subclass defaults, settings changed but not applied)
+        if rotation is not None:
+            self.instance._rotation = rotation
+        if max_time_in_seconds is not None:
+            self.instance._max_time_in_seconds = max_time_in_seconds
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 34b69a0b0f700bfb4bb4aa4db4070ae050c34f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 15/19] fix: stop searching once the maximum utilization is
 reached

---
 hyperpack/abstract.py   |  3 ++-
 hyperpack/heuristics.py |  4 ++++
 hyperpack/mixins.py     | 18 ++++++++++++++++++
 hyperpack/processes.py  |  8 +++++++-
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/hyperpack/abstract.py b/hyperpack/abstract.py
index cfe7808..d3a7754 100644
--- a/hyperpack/abstract.py
+++ b/hyperpack/abstract.py
@@ -118,7 +118,8 @@ class AbstractLocalSearch(ABC):
         if hasattr(self, "init_operations"):
             self.init_operations()
 
-        continue_criterion = True
+        # an optimum initial solution can't be improved
+        continue_criterion = not self.global_check(best_obj_value, optimum_obj_value)
 
         # START of local search
         while continue_criterion:
diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 4e7ab21..132d0c7 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -489,6 +489,10 @@ class HyperPack(
         instance_strategy = self._potential_points_strategy
         best_strategy = instance_strategy
 
+        if self.global_check(best_obj_value, optimum_obj_value):
+            # can't be improved
+            strategies = ()
+
         try:
             for strategy in strategies:
                 # set the construction heuristic's potential points strategy
diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index c9761a4..7b69193 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1096,6 +1096,9 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
     Mixin implementing the Local Search.
     """
 
+    # for comparing objective values to the optimum one
+    OPTIMUM_TOLERANCE = 1e-9
+
     def evaluate_node(self, sequence):
         self.solve(sequence=sequence, debug=False)
 
@@ -1124,6 +1127,21 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
                 sum([u for u in containers_obj_vals[:-1]]) + 0.7 * containers_obj_vals[-1]
             )
 
+    def get_optimum_objective_val(self):
+        """
+        Returns the objective value of completely filled containers. In
+        strip-packing mode the utilization alone doesn't determine the
+        optimum, so it has no upper bound.
+        """
+        if self._strip_pack:
+            return super().get_optimum_objective_val()
+
+        optimum = self.max_obj_value
+        if self._containers_num > 1:
+            optimum *= self._containers_num - 1 + 0.7
+        # the utilizations are sums of floats
+        return optimum - self.OPTIMUM_TOLERANCE
+
     def get_init_solution(self):
         self.solve(debug=False)
         # deepcopying solution
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index b5acef1..62e954f 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -116,7 +116,13 @@ class HyperSearchProcess(Process):
             start_time = self.instance.start_time
             max_time_in_seconds = self.instance._max_time_in_seconds
 
-            for strategy in self.strategies_chunk:
+            strategies_chunk = self.strategies_chunk
+            if is_global(best_obj_value, optimum_obj_value):
+                # can't be improved: the other processes learn of it and stop
+                self.shared_array[self.index] = best_obj_value
+                strategies_chunk = ()
+
+            for strategy in strategies_chunk:
                 # set the construction's heuristic potential points strategy
                 self.instance._potential_points_strategy = strategy
 
-- 
2.43.0


From 6266729d6eb27a59d45d64b0f15d0b042631bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 16/19] fix: don't count the containers of a replaced structure

---
 hyperpack/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 94c7308..251ba66 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -246,7 +246,8 @@ class Containers(AbstractStructureSet):
 
     def reset_instance_attrs(self):
         super().reset_instance_attrs()
-        self.instance._containers_num = len(self.data)
+        # self may be a replaced object, that isn't the instance's containers anymore
+        self.instance._containers_num = len(self.instance._containers)
 
     def _get_height(self, cont_id="strip-pack-container"):
         """
-- 
2.43.0


From 705e1764e5bc8e4da482f62bcf948c2043e89d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 17/19] fix: reject invalid settings as a whole, keeping those
 in force

---
 hyperpack/heuristics.py | 29 +++++++++++++++++++++++++++--
 hyperpack/mixins.py     |  5 +++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 132d0c7..c4bca6d 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -2,6 +2,7 @@ import math
 import platform
 import sys
 import time
+from contextlib import contextmanager
 from itertools import permutations
 from multiprocessing import Array, cpu_count, current_process
 
@@ -197,6 +198,9 @@ class PointGenerationSolver(
     # settings defaults
     ROTATION_DEFAULT_VALUE = True
 
+    # attributes holding the settings in force
+    SETTINGS_ATTRIBUTES = ("_rotation",)
+
     def __init__(
         self, containers=None, items=None, settings=None, *, strip_pack_width=None
     ):
@@ -261,8 +265,22 @@ class PointGenerationSolver(
         else:
             self._rotation = self.ROTATION_DEFAULT_VALUE
 
+    @contextmanager
+    def _rejecting_settings_as_a_whole(self):
+        """
+        Settings that fail the validation are not partly applied.
+        """
+        in_force = [(name, getattr(self, name)) for name in self.SETTINGS_ATTRIBUTES]
+        try:
+            yield
+        except BaseException:
+            for name, value in in_force:
+                setattr(self, name, value)
+            raise
+
     def validate_settings(self) -> None:
-        self._validate_settings()
+        with self._rejecting_settings_as_a_whole():
+            self._validate_settings()
 
     # % -----------------------------
 
@@ -283,8 +301,13 @@ class PointGenerationSolver(
 
     @settings.setter
     def settings(self, value):
+        previous_settings = self._settings
         self._settings = value
-        self.validate_settings()
+        try:
+            self.validate_settings()
+        except BaseException:
+            self._settings = previous_settings
+            raise
 
     @settings.deleter
     def settings(self):
@@ -352,6 +375,8 @@ class HyperPack(
     MAX_TIME_IN_SECONDS_DEFAULT_VALUE = 60
     WORKERS_NUM_DEFAULT_VALUE = 1
 
+    SETTINGS_ATTRIBUTES = ("_rotation", "_max_time_in_seconds", "_workers_num")
+
     # hypersearch/localsearch parameters
     # max neighbors parsing
     # before accepting node as optimum
diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 7b69193..0704ec3 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -965,8 +965,9 @@ class SolutionFigureMixin:
                 fig.show(config={"responsive": False})
 
     def validate_settings(self) -> None:
-        self._validate_settings()
-        self._validate_figure_settings()
+        with self._rejecting_settings_as_a_whole():
+            self._validate_settings()
+            self._validate_figure_settings()
 
 
 class ItemsManipulationMixin:
-- 
2.43.0


From 5a24cb3866a522ce085b7246e80c2e938b2f88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 18/19] fix: search in the workers with the validated settings
 only

---
 hyperpack/processes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 62e954f..5dc6403 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -52,6 +52,10 @@ class HyperSearchProcess(Process):
         self._sender = None
         self.strategies_chunk = strategies_chunk
 
+        if rotation is not None and max_time_in_seconds is not None:
+            # those in force are given: `settings` may have been changed, or
+            # become invalid, since the parent validated them
+            settings = {}
         settings = deepcopy(settings)
         if "workers_num" in settings:
             settings["workers_num"] = 1
-- 
2.43.0


From 237a7f4c06182659d6acf25a9ea6b7d9306eb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:48 +0000
Subject: [PATCH 19/19] fix: let the workers end when the parent process has
 died

---
 hyperpack/processes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 5dc6403..baf9867 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -105,6 +105,11 @@ class HyperSearchProcess(Process):
             self._receiver.close()
 
     def run(self):
+        if self._receiver is not None:
+            # the parent's end: as long as it's open here, the process would wait
+            # forever to hand its result over to a parent that has died
+            self._receiver.close()
+
         try:
             if self._force_raise_error_index in (self.index, "all"):
                 raise MultiProcessError("testing error")
-- 
2.43.0

