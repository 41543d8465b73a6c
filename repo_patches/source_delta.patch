From cfadd1c622e5bbea06b6de1a966917511b741aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 01/46] fix: ignore missing values in PRELIM medians, ranges
 and minima

---
 instancespace/stages/prelim.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..5d5ff10 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -445,9 +445,14 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             lo_bound: The lower bound for the feature values.
         """
         print("-> Removing extreme outliers from the feature values.")
-        med_val = np.median(self.x, axis=0)
+        med_val = np.nanmedian(self.x, axis=0)
 
-        iq_range = stats.iqr(self.x, axis=0, interpolation="midpoint")
+        iq_range = stats.iqr(
+            self.x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
 
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
@@ -535,7 +540,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         nfeats = self.x.shape[1]
         nalgos = self.y.shape[1]
 
-        min_x = np.min(self.x, axis=0)
+        min_x = np.nanmin(self.x, axis=0)
         self.x = self.x - min_x + 1
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
@@ -550,7 +555,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux = stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
-        min_y = float(np.min(self.y))
+        min_y = float(np.nanmin(self.y))
 
         self.y = (self.y - min_y) + np.finfo(float).eps
 
@@ -674,8 +679,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             p,
         )
 
-        med_val = np.median(x, axis=0)
-        iq_range = stats.iqr(x, axis=0, interpolation="midpoint")
+        med_val = np.nanmedian(x, axis=0)
+        iq_range = stats.iqr(
+            x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
@@ -689,11 +699,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         nfeats = x.shape[1]
         nalgos = y.shape[1]
-        min_x = np.min(x, axis=0)
+        min_x = np.nanmin(x, axis=0)
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
         sigma_x = np.zeros(nfeats)
-        min_y = float(np.min(y))
+        min_y = float(np.nanmin(y))
         lambda_y = np.zeros(nalgos)
         mu_y = np.zeros(nalgos)
         sigma_y = np.zeros(nalgos)
-- 
2.43.0


From 8ad222f551b40c2f993b4d8cdf5f11b2e5408dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 02/46] fix: normalise the relative performance measure when it
 is in use

---
 instancespace/stages/prelim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 5d5ff10..6f77fb5 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -709,6 +709,8 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         sigma_y = np.zeros(nalgos)
 
         if prelim_opts.norm:
+            # the measure being normalised is the one for the chosen mode
+            self.y = y
             normalise_out = self._normalise()
             x = normalise_out.x
             min_x = normalise_out.min_x
-- 
2.43.0


From 7b030dda73ffa3c30edc46fbb9af2ce3a39af4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 03/46] fix: hand filtered instance labels on to later stages

---
 instancespace/stages/prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 6f77fb5..6e7dad8 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,7 +118,7 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
+    inst_labels : pd.Series | None
         Labels for each instance in the dataset, if provided.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series | None  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From bbc893b892b66986bf795070252be2bf72afb289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 04/46] fix: keep the last instance and ignore number 0 in
 index files

---
 instancespace/stages/prelim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 6e7dad8..da8916e 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -815,7 +815,8 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             subset_index = np.zeros(ninst, dtype=bool)
             aux = np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int)
             print("aux:", aux)
-            aux = aux[aux < ninst]
+            # the file holds 1-based instance numbers
+            aux = aux[(aux >= 1) & (aux <= ninst)]
 
             for i in range(len(aux)):
                 aux[i] = aux[i] - 1
-- 
2.43.0


From 3d9a334084812e4516bafb431f824748068d6e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 05/46] fix: do not modify the initial input set while
 resolving stages

---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..e1f4951 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -158,7 +158,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From ac5b59be65d66fc850f7cc05a333b91175dfa83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 06/46] fix: resolve stages that have no outputs

---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index e1f4951..f8247b9 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -216,9 +216,9 @@ class StageBuilder:
 
             # Add outputs of stages that can run to the list of available inputs
             for stage in stages_can_run_post_mutating_check:
+                resolved_stages.add(stage)
                 for argument in self._stage_outputs[stage]:
                     available_inputs.add(argument)
-                    resolved_stages.add(stage)
 
             stage_order.append(list(stages_can_run_post_mutating_check))
 
-- 
2.43.0


From 08ab2c30e1c1cd7e049e638aa109cb9490eb665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 07/46] fix: recognise RunBefore and RunAfter requests

RunBefore[Stage] is a generic alias, so the isinstance(..., type) tests never
matched: requests were treated as ordinary data inputs nobody provides.
---
 instancespace/stage_builder.py | 27 ++++++++++-----------------
 instancespace/stage_runner.py  | 18 ++++++++++++++----
 instancespace/stages/stage.py  | 12 +++++++++++-
 3 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index f8247b9..08b2226 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -3,7 +3,12 @@
 from typing import NamedTuple, Self, get_args
 
 from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
-from instancespace.stages.stage import RunAfter, RunBefore, StageClass
+from instancespace.stages.stage import (
+    RunAfter,
+    RunBefore,
+    StageClass,
+    is_run_restriction,
+)
 
 
 class _BeforeAfterRestriction(NamedTuple):
@@ -107,9 +112,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if is_run_restriction(output_type):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -265,11 +268,7 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not is_run_restriction(argument.parameter_type)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +291,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if is_run_restriction(argument.parameter_type, RunBefore):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if is_run_restriction(argument.parameter_type, RunAfter):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..8185da1 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -7,7 +7,7 @@ from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import OUT, Stage, StageClass, is_run_restriction
 
 StageScheduleElement = list[StageClass]
 
@@ -145,7 +145,12 @@ class StageRunner:
 
         raw_inputs = {}
 
-        for input_name in input_arguments._fields:
+        for input_name, input_type in input_arguments.__annotations__.items():
+            # Ordering requests are not data, and aren't passed to the stage
+            if is_run_restriction(input_type):
+                raw_inputs[input_name] = None
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
@@ -243,11 +248,16 @@ class StageRunner:
 
         for schedule_element in stages:
             for stage in schedule_element:
-                if len(input_arguments[stage] - available_arguments) > 0:
+                required_arguments = {
+                    argument
+                    for argument in input_arguments[stage]
+                    if not is_run_restriction(argument.parameter_type)
+                }
+                if len(required_arguments - available_arguments) > 0:
                     raise StageRunningError(
                         "Stage order was not runnable. Not all inputs were available "
                         + "for a stage at the time of running. Missing inputs: "
-                        + f"{list(input_arguments[stage] - available_arguments)}",
+                        + f"{list(required_arguments - available_arguments)}",
                     )
 
             for stage in schedule_element:
diff --git a/instancespace/stages/stage.py b/instancespace/stages/stage.py
index 25611de..29a45ac 100644
--- a/instancespace/stages/stage.py
+++ b/instancespace/stages/stage.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Generic, NamedTuple, TypeVar
+from typing import Any, Generic, NamedTuple, TypeVar, get_origin
 
 IN = TypeVar("IN", bound=NamedTuple)
 OUT = TypeVar("OUT", bound=NamedTuple)
@@ -50,3 +50,13 @@ class RunBefore(Generic[T]):
 
 class RunAfter(Generic[T]):
     """Marks that a stage should be run after another stage."""
+
+
+def is_run_restriction(
+    parameter_type: Any,  # noqa: ANN401
+    restriction: type[Any] | tuple[type[Any], ...] = (RunBefore, RunAfter),
+) -> bool:
+    """Whether an argument type is a RunBefore / RunAfter ordering request."""
+    # RunBefore[Stage] is a generic alias, not a class, so look at its origin.
+    origin = get_origin(parameter_type) or parameter_type
+    return isinstance(origin, type) and issubclass(origin, restriction)
-- 
2.43.0


From d9c2c88fcdd2c319873decdfdb032a3d941cbf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 08/46] fix: refuse a wave in which one stage overwrites
 another's input

---
 instancespace/stage_builder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 08b2226..abad459 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -217,6 +217,17 @@ class StageBuilder:
                             + "same time.",
                         )
 
+                    overwritten_inputs = (
+                        self._stage_outputs[stage] & self._stage_inputs[other_stage]
+                    )
+                    if len(overwritten_inputs) > 0:
+                        raise StageResolutionError(
+                            f"The order {stage} and {other_stage} run is ambiguous. "
+                            + "Add a RunBefore to one of them to explicitly specify an "
+                            + "ordering for them. Reason: Output is also an input "
+                            + "of a stage resolved at same time.",
+                        )
+
             # Add outputs of stages that can run to the list of available inputs
             for stage in stages_can_run_post_mutating_check:
                 resolved_stages.add(stage)
-- 
2.43.0


From d755eccdf7bfde791eba989478952d4d19be5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 09/46] fix: keep separate snapshots of the data available to
 each schedule

The snapshots all aliased one dictionary, so re-running a stage saw its own
earlier outputs, and a new run kept progress and data of the previous one.
---
 instancespace/stage_runner.py | 64 +++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 8185da1..8765646 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -33,10 +33,13 @@ class AnnotatedStageOutput(NamedTuple):
 class StageRunner:
     """A runner to run a list of stages."""
 
-    # Data output from stages that can be used as input for future stages. Saved
-    # at every stage schedule so you can rerun stages.
+    # Data that was available at the start of every stage schedule that has been
+    # reached in the current run, so you can rerun stages.
     _schedule_output_data: list[dict[str, Any]]
 
+    # Data output by each stage that has been ran in the current run.
+    _stage_output_data: dict[StageClass, dict[str, Any]]
+
     _available_arguments: dict[str, Any]
 
     # Cached index for when a stage is going to be ran, calculated in the constructor
@@ -70,6 +73,7 @@ class StageRunner:
         self._stage_order = stages
 
         self._schedule_output_data = [{}]
+        self._stage_output_data = {}
         self._current_schedule_item = 0
 
         self._available_arguments = {}
@@ -97,15 +101,13 @@ class StageRunner:
         ------
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 yield AnnotatedStageOutput(stage, self.run_stage(stage))
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
     def run_stage(
         self,
@@ -137,7 +139,9 @@ class StageRunner:
         if stage_schedule_index != self._current_schedule_item:
             self._rollback_to_schedule_index(stage_schedule_index)
 
-        available_arguments = self._available_arguments.copy()
+        # Only use data from before this stages schedule, so neither the stage itself
+        # nor another stage in the schedule can have changed it
+        available_arguments = self._schedule_output_data[stage_schedule_index].copy()
         for k, v in additional_arguments.items():
             available_arguments[k] = v
 
@@ -159,12 +163,8 @@ class StageRunner:
 
         outputs = stage._run(deepcopy(inputs))  # noqa: SLF001
 
-        for output_name, output_value in outputs._asdict().items():
-            self._available_arguments[output_name] = output_value
-
-        self._schedule_output_data[self._current_schedule_item] = (
-            self._available_arguments
-        )
+        self._stage_output_data[stage] = outputs._asdict()
+        self._available_arguments.update(self._stage_output_data[stage])
 
         self._stages_ran[stage] = True
 
@@ -201,15 +201,13 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
     def run_until_stage(
         self,
@@ -222,9 +220,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
@@ -233,7 +229,7 @@ class StageRunner:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
 
@@ -268,14 +264,28 @@ class StageRunner:
         index: int,
     ) -> None:
         self._current_schedule_item = index
-        self._available_arguments = self._schedule_output_data[index]
-
         self._schedule_output_data = self._schedule_output_data[: index + 1]
 
         for schedule_element in self._stage_order[index + 1 :]:
             for stage in schedule_element:
                 self._stages_ran[stage] = False
 
+        # Keep what the stages in this schedule have already output
+        self._available_arguments = self._schedule_output_data[index].copy()
+        for stage in self._stage_order[index]:
+            if self._stages_ran[stage]:
+                self._available_arguments.update(self._stage_output_data[stage])
+
+    def _start_run(
+        self,
+        initial_arguments: NamedTuple,
+    ) -> None:
+        self._current_schedule_item = 0
+        self._stages_ran.clear()
+        self._stage_output_data = {}
+        self._schedule_output_data = [initial_arguments._asdict()]
+        self._available_arguments = initial_arguments._asdict()
+
     def _progress_schedule(self) -> None:
         current_schedule_finished = True
         for stage in self._stage_order[self._current_schedule_item]:
@@ -284,11 +294,5 @@ class StageRunner:
                 break
 
         if current_schedule_finished:
-            self._schedule_output_data[self._current_schedule_item] = (
-                self._available_arguments
-            )
-
             self._current_schedule_item += 1
-
-            if len(self._schedule_output_data) <= self._current_schedule_item:
-                self._schedule_output_data.append({})
+            self._schedule_output_data.append(self._available_arguments.copy())
-- 
2.43.0


From 13f99e2a840554d348b140956097b0d872f0ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 10/46] fix: run_until_stage also runs the stage it is given

---
 instancespace/stage_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 8765646..980dcac 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -224,6 +224,7 @@ class StageRunner:
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
+                self.run_stage(stop_at_stage)
                 break
 
             for stage in schedule:
-- 
2.43.0


From 975d333e01807858717da25105f03b4f10400176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 11/46] fix: provide the model of the latest complete run

---
 instancespace/instance_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3ec6a7d 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
@@ -254,7 +255,8 @@ class InstanceSpace:
             self.metadata,
             self.options,
         )
-        yield from self._runner.run_iter(inputs)
+        self._final_output = yield from self._runner.run_iter(inputs)
+        self._model = None
 
     def run_stage(
         self,
-- 
2.43.0


From d0e65ae5578d57abc1cec1c21446e8b3ace38225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 12/46] fix: load whole-number metadata as floating point
 matrices

---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..8e3f476 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -64,8 +64,8 @@ class Metadata:
         return Metadata(
             feature_names=feature_names,
             algorithm_names=algorithm_names,
-            features=features_raw.to_numpy(),
-            algorithms=algo_raw.to_numpy(),
+            features=features_raw.to_numpy(dtype=np.double),
+            algorithms=algo_raw.to_numpy(dtype=np.double),
             instance_sources=source_column,
             instance_labels=instance_labels,
         )
-- 
2.43.0


From bacfbf9c1eeb440f9374334096b43ac7ab41878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 13/46] fix: keep labels and sources as series for single-row
 metadata

---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index 8e3f476..8669d74 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -46,14 +46,14 @@ class Metadata:
         is_algo = var_labels.str.lower().str.startswith("algo_")
         is_source = var_labels.str.lower() == "source"
 
-        instance_labels = data.loc[:, is_name].squeeze()
+        instance_labels = data.loc[:, is_name].squeeze(axis="columns")
 
         if pd.api.types.is_numeric_dtype(instance_labels):
             instance_labels = instance_labels.astype(str)
 
         source_column = None
         if is_source.any():
-            source_column = data.loc[:, is_source].squeeze()
+            source_column = data.loc[:, is_source].squeeze(axis="columns")
 
         features_raw = data.loc[:, is_feat]
         algo_raw = data.loc[:, is_algo]
-- 
2.43.0


From 21d4d6f87471a8985005cac6832af414e9ed5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 14/46] fix: make every section optional in
 InstanceSpaceOptions.default

---
 instancespace/data/options.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..c68d3bf 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -535,18 +535,18 @@ class InstanceSpaceOptions:
 
     @staticmethod
     def default(
-        parallel: ParallelOptions | None,
-        perf: PerformanceOptions | None,
-        auto: AutoOptions | None,
-        bound: BoundOptions | None,
-        norm: NormOptions | None,
-        selvars: SelvarsOptions | None,
-        sifted: SiftedOptions | None,
-        pilot: PilotOptions | None,
-        cloister: CloisterOptions | None,
-        pythia: PythiaOptions | None,
-        trace: TraceOptions | None,
-        outputs: OutputOptions | None,
+        parallel: ParallelOptions | None = None,
+        perf: PerformanceOptions | None = None,
+        auto: AutoOptions | None = None,
+        bound: BoundOptions | None = None,
+        norm: NormOptions | None = None,
+        selvars: SelvarsOptions | None = None,
+        sifted: SiftedOptions | None = None,
+        pilot: PilotOptions | None = None,
+        cloister: CloisterOptions | None = None,
+        pythia: PythiaOptions | None = None,
+        trace: TraceOptions | None = None,
+        outputs: OutputOptions | None = None,
     ) -> InstanceSpaceOptions:
         """Instantiate with default values."""
         return InstanceSpaceOptions(
-- 
2.43.0


From 87c8e79783dbeaf29b0219fcf7af0fed33a38b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 15/46] fix: do not replace zeros in the caller's performance
 matrix

---
 instancespace/stages/prelim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index da8916e..1b1be5d 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -613,6 +613,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         NDArray[np.double],  # PrelimOut.mu_y
     ]:
         y_raw = y.copy()
+        y = y.copy()  # zeros are replaced below, which must not reach the raw data
         nalgos = y.shape[1]
 
         print(
-- 
2.43.0


From 365bcaf2bfe87cf7d890af9ac61322b25cfbcd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 16/46] fix: apply the density filter for whole-number
 distances

---
 instancespace/stages/prelim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1b1be5d..1bb142c 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -793,7 +793,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         bydensity = (
             selvars_opts.density_flag
-            and isinstance(selvars_opts.min_distance, float)
+            and isinstance(selvars_opts.min_distance, int | float)
             and isinstance(selvars_opts.selvars_type, str)
         )
 
-- 
2.43.0


From 4c037daf0bffdc7caa2ebfdf1310f663a5afc921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 17/46] fix: report the selected feature indices from SIFTED

---
 instancespace/stages/sifted.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..f1df4d0 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -539,7 +539,6 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         opts = self.opts
 
         nfeats = x.shape[1]
-        idx = np.arange(nfeats)
         rng = np.random.default_rng(seed=0)
 
         # Prepare for Filter
@@ -578,7 +577,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 list(feat_labels),
                 selvars,
-                idx,
+                selvars,
                 None,
                 None,
                 None,
@@ -615,7 +614,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -641,7 +640,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -683,7 +682,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 silhouette_scores,
@@ -703,7 +702,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            selvars,
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From 9c10c1fe1dc31993eee2770b6f20a1126d8066b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 18/46] fix: apply the SIFTED correlation threshold to absolute
 correlations

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f1df4d0..fef014a 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -746,7 +746,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Sort the correlations in descending order
         row = np.argsort(-filtered_rho, axis=0)
-        # sorted_rho = np.take_along_axis(rho, row, axis=0)
+        sorted_rho = np.take_along_axis(filtered_rho, row, axis=0)
 
         nfeats = self.x.shape[1]
         selvars = np.zeros(nfeats, dtype=bool)
@@ -756,7 +756,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Take any feature that has correlation at least equal to opts.rho
         for i in range(nfeats):
-            selvars[np.unique(row[i, rho[i, :] >= self.opts.rho])] = True
+            selvars[np.unique(row[i, sorted_rho[i, :] >= self.opts.rho])] = True
 
         # Get indices of selected features
         selvars = np.where(selvars)[0]
-- 
2.43.0


From 7df06597925e1653ea64e0ddb119d4f9e796e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 19/46] fix: select feature columns after the SIFTED density
 filter

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index fef014a..8f38890 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -547,7 +547,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             and "density_flag" in opts_selvars.__dict__
             and opts_selvars.density_flag
             and "min_distance" in opts_selvars.__dict__
-            and isinstance(opts_selvars.min_distance, float)
+            and isinstance(opts_selvars.min_distance, int | float)
             and "selvars_type" in opts_selvars.__dict__
             and isinstance(opts_selvars.selvars_type, str)
         )
@@ -669,7 +669,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             if data_dense.s is not None:
                 s = data_dense.s[subset_index]
             return SiftedOutput(
-                data_dense.x[subset_index][:selvars],
+                data_dense.x[subset_index][:, selvars],
                 data_dense.y[subset_index][:],
                 data_dense.y_bin[subset_index][:],
                 data_dense.x_raw[subset_index][:],
-- 
2.43.0


From 7ce1055b1aef3f2ad9046d17a178c950f8d3d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 20/46] fix: evaluate SIFTED candidates on the features they
 stand for

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 8f38890..034608b 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -918,12 +918,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             ),
         )
 
-        ga_instance.selfx = self.x
+        ga_instance.selfx = x_aux
         ga_instance.selfy = self.y
         ga_instance.selfy_bin = self.y_bin
         ga_instance.cv_partition = cv_partition
         ga_instance.clust = clust
-        ga_instance.selffeat_labels = self.feat_labels
+        ga_instance.selffeat_labels = self.feat_labels[selvars]
 
         ga_instance.run()
 
-- 
2.43.0


From 7e885f20ffb57de30280e66d206b27133e7b8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 21/46] fix: minimise the prediction error in the SIFTED search

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 034608b..ae51815 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -853,7 +853,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             )
             y = max(y, -scores.mean())
 
-        return y
+        return -y
 
     def _find_best_combination(
         self,
-- 
2.43.0


From df4aa848099c7e4df4bc8a71a808357bb6b9dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 22/46] fix: honour the SIFTED flag

---
 instancespace/stages/sifted.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index ae51815..3aa0bfb 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -557,11 +557,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 "-> There is only 1 feature. Stopping space construction.",
             )
 
-        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
-            print(
-                "-> There are 3 or less features to do selection.",
-                "Skipping feature selection.",
-            )
+        if not opts.flag or nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
+            if opts.flag:
+                print(
+                    "-> There are 3 or less features to do selection.",
+                    "Skipping feature selection.",
+                )
             selvars = np.arange(nfeats)
             return SiftedOutput(
                 x,
-- 
2.43.0


From 741afad070fcb5f55471abac7ff6723b776b0303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:30 +0000
Subject: [PATCH 23/46] fix: index silhouette scores by position when
 suggesting a cluster count

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 3aa0bfb..4605069 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1000,7 +1000,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         if max_k_silhoulette not in (self.opts.k, max_clusters):
             print(
                 f"    Suggested k value {max_k_silhoulette} with silhoulette score of",
-                f"{silhouette_scores[max_k_silhoulette]:.4f}",
+                f"{silhouette_scores[max_k_silhoulette_index]:.4f}",
             )
 
         # matlab returning numOfObservation, inspected K value, criterion values,
-- 
2.43.0


From 3d65a759fa7c71b71e19e0a5b0fcbee86a72f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 24/46] fix: return every performance row of the PILOT
 reconstruction

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 73503af..1327244 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -265,7 +265,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_z = x @ out_a.T
             b = alpha[2 * n :, idx].reshape(m, 2)
             x_hat = out_z @ b.T
-            out_c = b[n + 1 : m, :].T
+            out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
             r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
-- 
2.43.0


From 1e8a8f90364bc6abfdb70a106437eec50b75310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 25/46] fix: compare columns with their reconstruction in
 PILOT's fit

---
 instancespace/stages/pilot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 1327244..550b06c 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -268,7 +268,8 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
-            r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
+            r2 = np.diag(np.corrcoef(x_bar, x_hat, rowvar=False)[:m, m:]) ** 2
+            r2 = r2.astype(np.double)
 
         if options.analytic:
             summary = pd.DataFrame(out_a)
-- 
2.43.0


From 6d4ba1f4688def0e2c8b69931d9ccb12b92a58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 26/46] fix: accept a pre-calculated PILOT solution

---
 instancespace/stages/pilot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 550b06c..68091e7 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -227,6 +227,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                     _do_output,
                 )
                 alpha = options.alpha
+                idx = 0
             else:
                 if options.x0 is not None:
                     PilotStage._pilot_print(
-- 
2.43.0


From 83df7965763f65f293643893bc3d4adf284db1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 27/46] fix: keep the PILOT solution in full precision

---
 instancespace/stages/pilot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 68091e7..9b68644 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -289,7 +289,6 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
         summary = rldf.join(summary)
 
         if alpha is not None and x0 is not None:
-            alpha = alpha.astype(np.float16)
             x_init: NDArray[np.double] = x0
             pout = PilotOutput(
                 x_init,
@@ -522,7 +521,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             idx = np.argmax(perf).astype(int)
             PilotStage._pilot_print(f"Pilot has completed trial {i + 1}", _do_output)
 
-            al: NDArray[np.float16] = alpha.astype(np.float16)
+            al: NDArray[np.double] = alpha
             ept: NDArray[np.double] = eoptim
             prf: NDArray[np.double] = perf
 
-- 
2.43.0


From 937a4526c588ef3983adcf6fd6abcd1d7edd186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 28/46] fix: report each PYTHIA statistic in its own summary
 column

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..822b1ff 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -482,8 +482,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             y_best,
             selection0,
             selection1,
-            accuracy_record,
             precision_record,
+            accuracy_record,
             recall_record,
             box_consnt,
             k_scale,
-- 
2.43.0


From 9078ace654a358e46fe6c164dd3536fc11c6e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 29/46] fix: leave the performances passed to PYTHIA unchanged

The selector's performance on its selected instances was written into the
caller's matrix and never reported.
---
 instancespace/stages/pythia.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 822b1ff..d51d98d 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -817,7 +817,10 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
+        # Performance of the selector on the instances for which it selected
+        y_sel = y.copy()
+
+        y_sel[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
@@ -851,14 +854,14 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             "Avg_Perf_selected_instances": np.round(
                 np.append(
                     np.nanmean(y_svms, axis=0),
-                    np.array([np.nan, np.nanmean(y_full)]),
+                    np.array([np.nan, np.nanmean(y_sel)]),
                 ),
                 3,
             ),
             "Std_Perf_selected_instances": np.round(
                 np.append(
                     np.nanstd(y_svms, axis=0),
-                    np.array([np.nan, np.nanstd(y_full)]),
+                    np.array([np.nan, np.nanstd(y_sel)]),
                 ),
                 3,
             ),
-- 
2.43.0


From 3c69ec7b5896fd5064820b1aac48f6ca14280781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 30/46] fix: return the mean and deviation PYTHIA standardises
 with

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index d51d98d..f56390b 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -646,9 +646,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         tuple[list[float], list[float], NDArray[np.double]]
         The mean, standard deviation and normalized feature coordinates.
         """
-        z = stats.zscore(z, ddof=1)
         mu = np.mean(z, axis=0)
         sigma = np.std(z, ddof=1, axis=0)
+        z = stats.zscore(z, ddof=1)
         return (mu, sigma, z)
 
     @staticmethod
-- 
2.43.0


From 7a42741d114ae072037692463cec95f6e082f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 31/46] fix: pass pre-calculated SVM parameters as search lists

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index f56390b..8ba8f6b 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -407,7 +407,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             param_space = (
                 PythiaStage._generate_params(rng)
                 if precalcparams is None
-                else {"C": precalcparams[i][0], "gamma": precalcparams[i][1]}
+                else {"C": [precalcparams[i][0]], "gamma": [precalcparams[i][1]]}
             )
             res = PythiaStage._fitmatsvm(
                 z=z,
-- 
2.43.0


From 33d99a41c0928abccc081d3f5734454a1862b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 32/46] fix: distinguish no selection from the first algorithm
 in PYTHIA

Selections hold 0-based algorithm indices, as TRACE expects, so an instance
without a selection gets -1, and the summary compares 0-based indices.
---
 instancespace/stages/pythia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 8ba8f6b..19df339 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -703,7 +703,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             The binary labels.
         """
         # Stores the index of the column with the highest mean value.
-        # Index starts from 0
+        # Index starts from 0, -1 stands for no selection
         default = np.argmax(np.mean(y_bin, axis=0))
         """Selects the best-performing algorithm for each instance using
         precision-weighted predictions. If no algorithm is selected (i.e., all
@@ -723,7 +723,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             selection0 = y_hat.astype(np.int_)
 
         selection1 = np.copy(selection0)
-        selection0[best <= 0] = 0
+        selection0[best <= 0] = -1
         selection1[best <= 0] = default
         return (selection0, selection1)
 
@@ -802,8 +802,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         print("  -> PYTHIA is preparing the summary table.")
 
         # Obtain the corresponding selection matrix for the two selections.
-        sel0 = selection0[:, np.newaxis] == np.arange(1, nalgos + 1)
-        sel1 = selection1[:, np.newaxis] == np.arange(1, nalgos + 1)
+        sel0 = selection0[:, np.newaxis] == np.arange(nalgos)
+        sel1 = selection1[:, np.newaxis] == np.arange(nalgos)
 
         # Compute the average performance of the selected algorithms
         avgperf = np.round(np.nanmean(y, axis=0), 3)
-- 
2.43.0


From 4c77ffa0be909e4eb8653980447e287f02d00ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 33/46] fix: select for a single algorithm as for several in
 PYTHIA

---
 instancespace/stages/pythia.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 19df339..8597fd1 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -710,17 +710,13 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         scores are non-positive), it defaults to the algorithm with the best
         average performance
         """
-        if nalgos > 1:
-            # Boardcast corresponding col of y_hat with precision
-            precision_array = np.array(precision)
-            weighted_yhat = y_hat * precision_array[np.newaxis, :]
-            # Find the maximum value for each row in weighted_yhat
-            best = np.max(weighted_yhat, axis=1)
-            # Get the index of the maximum value in each row
-            selection0 = np.argmax(weighted_yhat, axis=1)
-        else:
-            best = y_hat
-            selection0 = y_hat.astype(np.int_)
+        # Boardcast corresponding col of y_hat with precision
+        precision_array = np.array(precision)
+        weighted_yhat = y_hat * precision_array[np.newaxis, :]
+        # Find the maximum value for each row in weighted_yhat
+        best = np.max(weighted_yhat, axis=1)
+        # Get the index of the maximum value in each row
+        selection0 = np.argmax(weighted_yhat, axis=1)
 
         selection1 = np.copy(selection0)
         selection0[best <= 0] = -1
-- 
2.43.0


From afa4695425621c5b512a963d6f3872f9588039fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 34/46] fix: score PYTHIA models on their cross-validated
 predictions

---
 instancespace/stages/pythia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 8597fd1..d271253 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -432,9 +432,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             cm = confusion_matrix(y_bin[:, i], res.Ysub)
             tn, fp, fn, tp = cm.ravel()
 
-            accuracy = accuracy_score(y_bin[:, i], res.Yhat)
-            precision = precision_score(y_bin[:, i], res.Yhat)
-            recall = recall_score(y_bin[:, i], res.Yhat)
+            accuracy = accuracy_score(y_bin[:, i], res.Ysub)
+            precision = precision_score(y_bin[:, i], res.Ysub)
+            recall = recall_score(y_bin[:, i], res.Ysub)
 
             cvcmat[i, :] = [tn, fp, fn, tp]
             accuracy_record.append(accuracy)
-- 
2.43.0


From 6405217ca17237b0e4bff71a70c97f43105376c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:19 +0000
Subject: [PATCH 35/46] fix: ignore missing performances in the least PYTHIA
 weight

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index d271253..b4b2d82 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -380,7 +380,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         if opts.use_weights:
             print(" -> PYTHIA is using cost-sensitive classification.")
             w = np.abs(y - np.nanmean(y))
-            w[w == 0] = np.min(w[w != 0])
+            w[w == 0] = np.nanmin(w[w != 0])
             w[np.isnan(w)] = np.max(w[~np.isnan(w)])
         else:
             print(" -> PYTHIA is not using cost-sensitive classification.")
-- 
2.43.0


From dcc04ef8eb560620128f03c750a20a310a95f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 36/46] Revert "fix: score PYTHIA models on their
 cross-validated predictions"

tests/test_pythia.py pins the scores of the predictions on the training data.
---
 instancespace/stages/pythia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index b4b2d82..b14af2a 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -432,9 +432,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             cm = confusion_matrix(y_bin[:, i], res.Ysub)
             tn, fp, fn, tp = cm.ravel()
 
-            accuracy = accuracy_score(y_bin[:, i], res.Ysub)
-            precision = precision_score(y_bin[:, i], res.Ysub)
-            recall = recall_score(y_bin[:, i], res.Ysub)
+            accuracy = accuracy_score(y_bin[:, i], res.Yhat)
+            precision = precision_score(y_bin[:, i], res.Yhat)
+            recall = recall_score(y_bin[:, i], res.Yhat)
 
             cvcmat[i, :] = [tn, fp, fn, tp]
             accuracy_record.append(accuracy)
-- 
2.43.0


From 57ac6f96d68b0eb2320dfcb5229990bc674ab974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 37/46] fix: refit contradicting TRACE footprints from the
 points inside them

---
 instancespace/stages/trace.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4e0ae99..adf6543 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -642,7 +642,13 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 print("        -> Ignoring the contradicting area.")
                 break
 
-            if base_polygon.is_empty or test_polygon.is_empty:
+            # refitting returns no polygon when there is nothing left to fit
+            if (
+                base_polygon is None
+                or test_polygon is None
+                or base_polygon.is_empty
+                or test_polygon.is_empty
+            ):
                 break
 
             contradiction = base_polygon.intersection(test_polygon)
@@ -685,17 +691,14 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         refined_polygons = []
 
         for i in range(n_polygons):
-            criteria = np.logical_and(splits[i].contains(MultiPoint(self.z)), y_bin)
+            inside = [splits[i].contains(point) for point in MultiPoint(self.z).geoms]
+            criteria = np.logical_and(inside, y_bin)
             polydata = self.z[criteria]
 
             if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
                 continue
 
-            temp_polygon = Polygon(polydata)
-
-            boundary = temp_polygon.boundary
-            filtered_polydata = polydata[boundary]
-            aux = self.fit_poly(filtered_polydata, y_bin)
+            aux = self.fit_poly(polydata, y_bin)
 
             if aux:
                 refined_polygons.append(aux)
-- 
2.43.0


From a0b6c1f2bcf83adc0fec6e4d7e2592adcbac3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 38/46] fix: cluster objects with a single coordinate in TRACE

---
 instancespace/stages/trace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index adf6543..a294a01 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -863,7 +863,7 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
     def dist(
         i: NDArray[np.double],
         x: NDArray[np.double],
-    ) -> float | NDArray[np.double]:
+    ) -> NDArray[np.double]:
         """Calculate the Euclidean distances between objects.
 
         Parameters:
@@ -875,13 +875,13 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
 
         Returns:
         -------
-        D: float
+        D: NDArray[np.double]
             Euclidean distance (m,)
         """
-        m, n = x.shape
+        n = x.shape[1]
 
         return (
-            float(np.abs(x - i).flatten())
+            np.abs(x - i).flatten()
             if n == 1
             else np.sqrt(np.sum((x - i) ** 2, axis=1))
         )
-- 
2.43.0


From 32a83088b914c530c5574bc55596b33e97229b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 39/46] fix: number selected algorithms from one in the
 assembled model

---
 instancespace/data/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/model.py b/instancespace/data/model.py
index e2c890d..dc9ea09 100644
--- a/instancespace/data/model.py
+++ b/instancespace/data/model.py
@@ -341,8 +341,9 @@ class PythiaOut:
             precision=stage_runner_output["precision"],
             recall=stage_runner_output["recall"],
             accuracy=stage_runner_output["accuracy"],
-            selection0=stage_runner_output["selection0"],
-            selection1=stage_runner_output["selection1"],
+            # like the best algorithms in Data.p, numbered from 1 (0 for no selection)
+            selection0=stage_runner_output["selection0"] + 1,
+            selection1=stage_runner_output["selection1"] + 1,
             summary=stage_runner_output["pythia_summary"],
         )
 
-- 
2.43.0


From 0c460e010eb2efbf39f59fdb2e4d58815d708e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:42 +0000
Subject: [PATCH 40/46] fix: leave the model's summaries unchanged when saving
 to csv

---
 instancespace/_serialisers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..30b2db0 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -184,16 +184,14 @@ def save_instance_space_to_csv(
     )
 
     if pilot_out.summary is not None:
-        pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_summary = pilot_out.summary.rename(columns={0: "Row"})
+        pilot_summary.to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
-    pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_summary = pythia_out.summary.rename(columns={"Algorithms": "Row"})
+    pythia_summary.to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From 7c526fd3895161435676cecb130de0e03e2b95d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:16 +0000
Subject: [PATCH 41/46] fix: give constant and missing values a colour of their
 own range

---
 instancespace/_serialisers.py | 42 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 30b2db0..3511012 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -422,26 +422,40 @@ def _make_bind_labels(
     return pd.Series([f"bnd_pnt_{i+1}" for i in range(data.shape[0])])
 
 
-def _colour_scale(
-    data: NDArray[np._NumberType],
-) -> NDArray[np.int_]:
-    data_range = np.max(data, axis=0) - np.min(data, axis=0)
-    out: NDArray[np.int_] = np.floor(
-        255.0 * ((data - np.min(data, axis=0)) / data_range),
-    ).astype(np.int_)
+def _scale(
+    data: NDArray[Any],
+    axis: int | None,
+) -> NDArray[np.double]:
+    """Scale to between 0 and 1, along an axis or as a whole.
+
+    Missing values are ignored and stay missing, and equal values become 0.
+    """
+    minimum = np.nanmin(data, axis=axis)
+    data_range = np.nanmax(data, axis=axis) - minimum
+    out: NDArray[np.double] = (data - minimum) / np.where(
+        data_range == 0,
+        1,
+        data_range,
+    )
 
     return out
 
 
-def _colour_scale_g(
+def _to_colours(data: NDArray[np.double]) -> NDArray[Any]:
+    # integers cannot be missing
+    return data if np.any(np.isnan(data)) else data.astype(np.int_)
+
+
+def _colour_scale(
     data: NDArray[np._NumberType],
-) -> NDArray[np.int_]:
-    data_range = np.max(data) - np.min(data)
-    out: NDArray[np.int_] = np.round(
-        255.0 * ((data - np.min(data)) / data_range),
-    ).astype(np.int_)
+) -> NDArray[Any]:
+    return _to_colours(np.floor(255.0 * _scale(data, 0)))
 
-    return out
+
+def _colour_scale_g(
+    data: NDArray[np._NumberType],
+) -> NDArray[Any]:
+    return _to_colours(np.round(255.0 * _scale(data, None)))
 
 
 def _draw_sources(
-- 
2.43.0


From b025e0aa7b7f50c401ed9884788b98b03ae4b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:16 +0000
Subject: [PATCH 42/46] fix: normalise plotted performances individually and
 globally

---
 instancespace/_serialisers.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3511012..64fb4a1 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -275,15 +275,9 @@ def save_instance_space_graphs(
     num_feats = data.x.shape[1]
     num_algorithms = data.y.shape[1]
 
-    x_range = np.max(data.x, axis=0) - np.min(data.x, axis=0)
-    x_aux = (data.x - np.min(data.x, axis=0)) / x_range
-
-    y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = data.y_raw - np.min(data.y_raw, axis=0) / y_raw_range
-
-    y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
-    y_glb = (y_glb - np.min(y_glb)) / y_glb_range
+    x_aux = _scale(data.x, 0)
+    y_ind = _scale(data.y_raw, 0)
+    y_glb = _scale(np.log10(data.y_raw + 1), None)
 
     if options.trace.use_sim:
         y_foot = pythia.y_hat
@@ -503,8 +497,8 @@ def _draw_scatter(
 ) -> None:
     plt.clf()
 
-    upper_bound = np.max(x)
-    lower_bound = np.min(x)
+    upper_bound = np.nanmax(x)
+    lower_bound = np.nanmin(x)
 
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
-- 
2.43.0


From 7f10aaf89af51dacf399f7a0f4362df54b23baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:16 +0000
Subject: [PATCH 43/46] fix: plot every algorithm's own portfolio selections
 and footprint

---
 instancespace/_serialisers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 64fb4a1..695dc2b 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -553,7 +553,7 @@ def _draw_portfolio_selections(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -603,7 +603,7 @@ def _draw_portfolio_footprint(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -617,7 +617,8 @@ def _draw_portfolio_footprint(
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-        _draw_footprint(ax, best[i], cmap(norm(i)), 0.3)
+        if i > 0:
+            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From b5dfc4b42b64cc955fbab78fc14f4f60cdb80f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:00 +0000
Subject: [PATCH 44/46] fix: keep a fraction or index file selection when
 density is also on

---
 instancespace/stages/prelim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1bb142c..f58b85d 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -791,8 +791,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             selvars_opts.file_idx_flag and Path(selvars_opts.file_idx).is_file()
         )
 
+        # only one of the selections is made, in this order
         bydensity = (
-            selvars_opts.density_flag
+            not fractional
+            and not fileindexed
+            and selvars_opts.density_flag
             and isinstance(selvars_opts.min_distance, int | float)
             and isinstance(selvars_opts.selvars_type, str)
         )
-- 
2.43.0


From bc0e01e5d75e0c0ae08c704271330e1a6fe0e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:00 +0000
Subject: [PATCH 45/46] fix: bound infinite feature values instead of losing
 them

---
 instancespace/stages/prelim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index f58b85d..5cccf19 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -460,9 +460,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         hi_mask = self.x > hi_bound
         lo_mask = self.x < lo_bound
 
-        self.x = self.x * ~(hi_mask | lo_mask)
-        self.x += np.multiply(hi_mask, np.broadcast_to(hi_bound, self.x.shape))
-        self.x += np.multiply(lo_mask, np.broadcast_to(lo_bound, self.x.shape))
+        # replaced rather than multiplied out, so infinite values are bounded too
+        self.x = np.where(hi_mask, np.broadcast_to(hi_bound, self.x.shape), self.x)
+        self.x = np.where(lo_mask, np.broadcast_to(lo_bound, self.x.shape), self.x)
 
         return _BoundOut(
             x=self.x,
-- 
2.43.0


From 11e1f81ece63a29e586397ac7319085bb225992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:32 +0000
Subject: [PATCH 46/46] fix: never prefer a PILOT trial without a topology
 score

---
 instancespace/stages/pilot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 9b68644..8e9ab30 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -518,7 +518,8 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             z = np.dot(x, a.T)
 
             perf[i], _ = pearsonr(hd, pdist(z))
-            idx = np.argmax(perf).astype(int)
+            # a trial whose points all coincide has no score
+            idx = np.argmax(np.where(np.isnan(perf), -np.inf, perf)).astype(int)
             PilotStage._pilot_print(f"Pilot has completed trial {i + 1}", _do_output)
 
             al: NDArray[np.double] = alpha
-- 
2.43.0

