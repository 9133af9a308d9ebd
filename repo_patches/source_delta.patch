From abceb54fe72aa9f3d02e5d58c64e33fec822f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 01/59] fix: re-running a stage starts from the inputs it
 originally had

The state saved for every schedule was the live argument dictionary, so rolling back
restored nothing: a stage ran again saw outputs of later stages, and a mutating stage was
applied to its own output. Save a copy of the arguments at the start of each schedule, and
return copies, so results already handed out do not change under the caller.
---
 instancespace/stage_runner.py | 65 ++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..ba27f6f 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -33,9 +33,12 @@ class AnnotatedStageOutput(NamedTuple):
 class StageRunner:
     """A runner to run a list of stages."""
 
-    # Data output from stages that can be used as input for future stages. Saved
-    # at every stage schedule so you can rerun stages.
-    _schedule_output_data: list[dict[str, Any]]
+    # Data that was available as stage input at the start of every schedule reached so
+    # far. Saved at every stage schedule so you can rerun stages.
+    _schedule_input_data: list[dict[str, Any]]
+
+    # Output of every stage that has been ran
+    _stage_outputs: dict[StageClass, dict[str, Any]]
 
     _available_arguments: dict[str, Any]
 
@@ -69,7 +72,8 @@ class StageRunner:
         """
         self._stage_order = stages
 
-        self._schedule_output_data = [{}]
+        self._schedule_input_data = [{}]
+        self._stage_outputs = {}
         self._current_schedule_item = 0
 
         self._available_arguments = {}
@@ -97,15 +101,13 @@ class StageRunner:
         ------
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 yield AnnotatedStageOutput(stage, self.run_stage(stage))
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
     def run_stage(
         self,
@@ -137,7 +139,7 @@ class StageRunner:
         if stage_schedule_index != self._current_schedule_item:
             self._rollback_to_schedule_index(stage_schedule_index)
 
-        available_arguments = self._available_arguments.copy()
+        available_arguments = self._schedule_input_data[stage_schedule_index].copy()
         for k, v in additional_arguments.items():
             available_arguments[k] = v
 
@@ -154,12 +156,8 @@ class StageRunner:
 
         outputs = stage._run(deepcopy(inputs))  # noqa: SLF001
 
-        for output_name, output_value in outputs._asdict().items():
-            self._available_arguments[output_name] = output_value
-
-        self._schedule_output_data[self._current_schedule_item] = (
-            self._available_arguments
-        )
+        self._stage_outputs[stage] = outputs._asdict()
+        self._available_arguments.update(self._stage_outputs[stage])
 
         self._stages_ran[stage] = True
 
@@ -196,15 +194,13 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
     def run_until_stage(
         self,
@@ -217,9 +213,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
@@ -228,7 +222,7 @@ class StageRunner:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
 
@@ -253,14 +247,27 @@ class StageRunner:
             for stage in schedule_element:
                 available_arguments |= output_arguments[stage]
 
+    def _restart(
+        self,
+        initial_arguments: NamedTuple,
+    ) -> None:
+        self._current_schedule_item = 0
+        self._available_arguments = initial_arguments._asdict()
+        self._schedule_input_data = [self._available_arguments.copy()]
+        self._stages_ran.clear()
+
     def _rollback_to_schedule_index(
         self,
         index: int,
     ) -> None:
         self._current_schedule_item = index
-        self._available_arguments = self._schedule_output_data[index]
+        self._schedule_input_data = self._schedule_input_data[: index + 1]
+        self._available_arguments = self._schedule_input_data[index].copy()
 
-        self._schedule_output_data = self._schedule_output_data[: index + 1]
+        # Stages in the same schedule don't depend on each other, so stay ran
+        for stage in self._stage_order[index]:
+            if self._stages_ran[stage]:
+                self._available_arguments.update(self._stage_outputs[stage])
 
         for schedule_element in self._stage_order[index + 1 :]:
             for stage in schedule_element:
@@ -274,11 +281,5 @@ class StageRunner:
                 break
 
         if current_schedule_finished:
-            self._schedule_output_data[self._current_schedule_item] = (
-                self._available_arguments
-            )
-
             self._current_schedule_item += 1
-
-            if len(self._schedule_output_data) <= self._current_schedule_item:
-                self._schedule_output_data.append({})
+            self._schedule_input_data.append(self._available_arguments.copy())
-- 
2.43.0


From 1707e168ee7156424806088447e40e40ebe24f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 02/59] fix: run_until_stage also runs the specified stage

It is documented to run all stages until the specified stage, as well as the specified
stage, but stopped before it.
---
 instancespace/stage_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index ba27f6f..b74a3e3 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -216,12 +216,12 @@ class StageRunner:
         self._restart(additional_arguments)
 
         for schedule in self._stage_order:
-            if stop_at_stage in schedule:
-                break
-
             for stage in schedule:
                 self.run_stage(stage)
 
+            if stop_at_stage in schedule:
+                break
+
         return self._available_arguments.copy()
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
-- 
2.43.0


From e8dd4f73cd9803c8dadadb817af70d1af8f286da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 03/59] fix: resolving stages no longer changes the given
 initial inputs

Outputs of resolved stages were added to the caller's set of initial inputs. The runnable
check then always passed, and building again from the same set resolved a wrong order.
---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..e1f4951 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -158,7 +158,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From efd9fb47d7f3c807ccf651612dbf25eac5cba112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 04/59] fix: honour RunBefore and RunAfter stage restrictions

RunBefore[X] and RunAfter[X] are generic aliases, not classes, so they were never
recognised: they were treated as inputs that no stage provides, and every set of stages
using the documented restrictions failed to resolve.
---
 instancespace/stage_builder.py | 28 ++++++++++------------------
 instancespace/stage_runner.py  | 16 ++++++++++++++--
 instancespace/stages/stage.py  | 12 +++++++++++-
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index e1f4951..5067a1f 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -3,7 +3,7 @@
 from typing import NamedTuple, Self, get_args
 
 from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
-from instancespace.stages.stage import RunAfter, RunBefore, StageClass
+from instancespace.stages.stage import StageClass, is_run_after, is_run_before
 
 
 class _BeforeAfterRestriction(NamedTuple):
@@ -107,9 +107,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if is_run_before(output_type) or is_run_after(output_type):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -145,7 +143,10 @@ class StageBuilder:
 
         return StageRunner(
             stage_order,
-            self._stage_inputs,
+            {
+                stage: self._strip_run_restriction_arguments(arguments)
+                for stage, arguments in self._stage_inputs.items()
+            },
             self._stage_outputs,
             initial_input_annotations,
         )
@@ -265,11 +266,8 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not is_run_before(argument.parameter_type)
+            and not is_run_after(argument.parameter_type)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +290,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if is_run_before(argument.parameter_type):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if is_run_after(argument.parameter_type):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index b74a3e3..1d639a6 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -7,7 +7,13 @@ from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import (
+    OUT,
+    Stage,
+    StageClass,
+    is_run_after,
+    is_run_before,
+)
 
 StageScheduleElement = list[StageClass]
 
@@ -145,9 +151,15 @@ class StageRunner:
 
         input_arguments = stage._inputs()  # noqa: SLF001
 
-        raw_inputs = {}
+        raw_inputs: dict[str, Any] = {}
 
         for input_name in input_arguments._fields:
+            input_type = input_arguments.__annotations__[input_name]
+            if is_run_before(input_type) or is_run_after(input_type):
+                # Only affects the ordering of stages, there is nothing to pass
+                raw_inputs[input_name] = None
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
diff --git a/instancespace/stages/stage.py b/instancespace/stages/stage.py
index 25611de..1d659cd 100644
--- a/instancespace/stages/stage.py
+++ b/instancespace/stages/stage.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Generic, NamedTuple, TypeVar
+from typing import Any, Generic, NamedTuple, TypeVar, get_origin
 
 IN = TypeVar("IN", bound=NamedTuple)
 OUT = TypeVar("OUT", bound=NamedTuple)
@@ -50,3 +50,13 @@ class RunBefore(Generic[T]):
 
 class RunAfter(Generic[T]):
     """Marks that a stage should be run after another stage."""
+
+
+def is_run_before(argument_type: Any) -> bool:  # noqa: ANN401
+    """Whether the type of a stage argument is RunBefore."""
+    return (get_origin(argument_type) or argument_type) is RunBefore
+
+
+def is_run_after(argument_type: Any) -> bool:  # noqa: ANN401
+    """Whether the type of a stage argument is RunAfter."""
+    return (get_origin(argument_type) or argument_type) is RunAfter
-- 
2.43.0


From 133a8e0460aec4c8bcbcb257b69fc415e25eec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 05/59] fix: InstanceSpaceOptions.default() can be called
 without arguments

As in the documented example; every group already falls back to its own defaults.
---
 instancespace/data/options.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..c68d3bf 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -535,18 +535,18 @@ class InstanceSpaceOptions:
 
     @staticmethod
     def default(
-        parallel: ParallelOptions | None,
-        perf: PerformanceOptions | None,
-        auto: AutoOptions | None,
-        bound: BoundOptions | None,
-        norm: NormOptions | None,
-        selvars: SelvarsOptions | None,
-        sifted: SiftedOptions | None,
-        pilot: PilotOptions | None,
-        cloister: CloisterOptions | None,
-        pythia: PythiaOptions | None,
-        trace: TraceOptions | None,
-        outputs: OutputOptions | None,
+        parallel: ParallelOptions | None = None,
+        perf: PerformanceOptions | None = None,
+        auto: AutoOptions | None = None,
+        bound: BoundOptions | None = None,
+        norm: NormOptions | None = None,
+        selvars: SelvarsOptions | None = None,
+        sifted: SiftedOptions | None = None,
+        pilot: PilotOptions | None = None,
+        cloister: CloisterOptions | None = None,
+        pythia: PythiaOptions | None = None,
+        trace: TraceOptions | None = None,
+        outputs: OutputOptions | None = None,
     ) -> InstanceSpaceOptions:
         """Instantiate with default values."""
         return InstanceSpaceOptions(
-- 
2.43.0


From aa0e1753cb135f19abfdd51564d1e3bc1d8b8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 06/59] fix: options that are not JSON objects are reported as
 invalid

from_json_file documents returning None for invalid options, but raised AttributeError
when the file, or one of its groups, held a list, number, string or null.
---
 instancespace/data/options.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index c68d3bf..069500f 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -419,6 +419,11 @@ class InstanceSpaceOptions:
             If the JSON file contains undefined sub options.
 
         """
+        if not isinstance(file_contents, dict) or not all(
+            isinstance(sub_options, dict) for sub_options in file_contents.values()
+        ):
+            raise ValueError("Options must be a JSON object of JSON objects.")
+
         # Validate if the top-level fields match those in the InstanceSpaceOptions class
         options_fields = {f.name for f in fields(InstanceSpaceOptions)}
         extra_fields = set(file_contents.keys()) - options_fields
-- 
2.43.0


From d53d9c60a3b14672057c45aea56f1fd900522649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 07/59] fix: metadata that is not valid text gives None

from_csv_file documents returning None when the file cannot be parsed, but raised
UnicodeDecodeError for a file that is not UTF-8.
---
 instancespace/data/metadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..c793f49 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,7 +108,12 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         csv_df = pd.read_csv(file_path)
-    except (FileNotFoundError, OSError, pd.errors.ParserError) as e:
+    except (
+        FileNotFoundError,
+        OSError,
+        UnicodeDecodeError,
+        pd.errors.ParserError,
+    ) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From 00f5e066b5c823c39b37a3b841238b3caf9ab5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 08/59] fix: metadata features and algorithms are always arrays
 of doubles

Columns that only hold whole numbers were kept as integers: bounding crashed with a
casting error, and normalised values were truncated when stored back. Text in such a
column gave an object array, and is now a parsing error.
---
 instancespace/data/metadata.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index c793f49..2d250d5 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -64,8 +64,8 @@ class Metadata:
         return Metadata(
             feature_names=feature_names,
             algorithm_names=algorithm_names,
-            features=features_raw.to_numpy(),
-            algorithms=algo_raw.to_numpy(),
+            features=features_raw.to_numpy(dtype=np.double),
+            algorithms=algo_raw.to_numpy(dtype=np.double),
             instance_sources=source_column,
             instance_labels=instance_labels,
         )
@@ -121,4 +121,8 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
         print(f"The file '{file_path}' is empty.")
         return None
 
-    return Metadata.from_data_frame(csv_df)
+    try:
+        return Metadata.from_data_frame(csv_df)
+    except ValueError as e:
+        print(f"{file_path}: {e!s}")
+        return None
-- 
2.43.0


From 2c42432b0df184e8fe6d827a69ebb2463167f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 09/59] fix: labels and sources of a single instance are still
 series

squeeze() on a one row table returned a plain string.
---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index 2d250d5..cf760e9 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -46,14 +46,14 @@ class Metadata:
         is_algo = var_labels.str.lower().str.startswith("algo_")
         is_source = var_labels.str.lower() == "source"
 
-        instance_labels = data.loc[:, is_name].squeeze()
+        instance_labels = data.loc[:, is_name].squeeze(axis=1)
 
         if pd.api.types.is_numeric_dtype(instance_labels):
             instance_labels = instance_labels.astype(str)
 
         source_column = None
         if is_source.any():
-            source_column = data.loc[:, is_source].squeeze()
+            source_column = data.loc[:, is_source].squeeze(axis=1)
 
         features_raw = data.loc[:, is_feat]
         algo_raw = data.loc[:, is_algo]
-- 
2.43.0


From 46d579b65162b941e237537b73be4c4a59fde70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 10/59] fix: instance labels are kept as written in the
 metadata file

Labels were parsed as numbers or missing values first, so '007' and '7' became the same
instance, '1.50' became '1.5', and an instance called 'NA' lost its name.
---
 instancespace/data/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index cf760e9..5f54708 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -107,7 +107,10 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
         file_path = Path(file_path)
 
     try:
-        csv_df = pd.read_csv(file_path)
+        columns = pd.read_csv(file_path, nrows=0).columns
+        # Labels are text, even if they look like numbers or missing values
+        label_converters = {c: str for c in columns if c.lower() == "instances"}
+        csv_df = pd.read_csv(file_path, converters=label_converters)
     except (
         FileNotFoundError,
         OSError,
-- 
2.43.0


From 90ce69184ef6eab4066fb34875dcf981a747f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 11/59] fix: instance labels follow the subset of instances
 that prelim selects

The output was called instlabels, which no other stage reads, so everything
after prelim kept the labels of the complete set of instances.
---
 instancespace/stages/prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..f53a2be 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,7 +118,7 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
+    inst_labels : pd.Series | None
         Labels for each instance in the dataset, if provided.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series | None  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From 89d70776541291d738929ab0af4a3cf2d877cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 12/59] fix: prelim no longer changes the raw performance data
 it is given

---
 instancespace/stages/prelim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index f53a2be..06b1f04 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -608,6 +608,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         NDArray[np.double],  # PrelimOut.mu_y
     ]:
         y_raw = y.copy()
+        y = y.copy()
         nalgos = y.shape[1]
 
         print(
-- 
2.43.0


From d94801cc59dbaf5ac9541fabd3812292b43851dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 13/59] fix: the best algorithm is good on instances where the
 best performance is 0

With relative performance, 0 was replaced by a small number in the best
performance only, so 1 - 0 / eps = 1 (or a division by zero) decided that
no algorithm was good.
---
 instancespace/stages/prelim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 06b1f04..03c1161 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -631,6 +631,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
                 y[y == 0] = np.finfo(float).eps
+                y_aux[y_aux == 0] = np.finfo(float).eps
                 y = 1 - y / y_best[:, np.newaxis]
                 y_bin = (1 - y_aux / y_best[:, np.newaxis]) <= prelim_opts.epsilon
                 msg = (
@@ -655,6 +656,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
                 y[y == 0] = np.finfo(float).eps
+                y_aux[y_aux == 0] = np.finfo(float).eps
                 y = 1 - y_best[:, np.newaxis] / y
                 y_bin = (1 - y_best[:, np.newaxis] / y_aux) <= prelim_opts.epsilon
                 msg = (
-- 
2.43.0


From c38d6040deed30184e726403d520d477203279f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 14/59] fix: normalise the relative performance measure when it
 was asked for

The relative measure was calculated and then discarded: normalisation
always started again from the absolute one.
---
 instancespace/stages/prelim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 03c1161..3543ef2 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -702,6 +702,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         sigma_y = np.zeros(nalgos)
 
         if prelim_opts.norm:
+            self.y = y
             normalise_out = self._normalise()
             x = normalise_out.x
             min_x = normalise_out.min_x
-- 
2.43.0


From fb33ddccbbd899e1f55cf3fc7d8a280cd8daca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 15/59] fix: missing values no longer erase whole columns in
 prelim

The bounds and minima of a column with a missing value were NaN, which
made every bounded or normalised value of that column (or, for
performance, of all algorithms) NaN.
---
 instancespace/stages/prelim.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 3543ef2..b622903 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -445,9 +445,14 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             lo_bound: The lower bound for the feature values.
         """
         print("-> Removing extreme outliers from the feature values.")
-        med_val = np.median(self.x, axis=0)
+        med_val = np.nanmedian(self.x, axis=0)
 
-        iq_range = stats.iqr(self.x, axis=0, interpolation="midpoint")
+        iq_range = stats.iqr(
+            self.x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
 
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
@@ -535,7 +540,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         nfeats = self.x.shape[1]
         nalgos = self.y.shape[1]
 
-        min_x = np.min(self.x, axis=0)
+        min_x = np.nanmin(self.x, axis=0)
         self.x = self.x - min_x + 1
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
@@ -550,7 +555,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux = stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
-        min_y = float(np.min(self.y))
+        min_y = float(np.nanmin(self.y))
 
         self.y = (self.y - min_y) + np.finfo(float).eps
 
@@ -677,8 +682,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             p,
         )
 
-        med_val = np.median(x, axis=0)
-        iq_range = stats.iqr(x, axis=0, interpolation="midpoint")
+        med_val = np.nanmedian(x, axis=0)
+        iq_range = stats.iqr(
+            x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
@@ -692,11 +702,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         nfeats = x.shape[1]
         nalgos = y.shape[1]
-        min_x = np.min(x, axis=0)
+        min_x = np.nanmin(x, axis=0)
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
         sigma_x = np.zeros(nfeats)
-        min_y = float(np.min(y))
+        min_y = float(np.nanmin(y))
         lambda_y = np.zeros(nalgos)
         mu_y = np.zeros(nalgos)
         sigma_y = np.zeros(nalgos)
-- 
2.43.0


From 2a0cad734c0e2e7e1dc1ed0e629e9556f87e69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 16/59] fix: index files select exactly the instances they list

The last instance could not be selected, 0 selected the last instance, and
a file with a single index crashed.
---
 instancespace/stages/prelim.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index b622903..1c8d52a 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -815,13 +815,12 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         elif fileindexed:
             print("-> Using a subset of instances.")
             subset_index = np.zeros(ninst, dtype=bool)
-            aux = np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int)
+            aux = np.atleast_1d(
+                np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int),
+            )
             print("aux:", aux)
-            aux = aux[aux < ninst]
-
-            for i in range(len(aux)):
-                aux[i] = aux[i] - 1
-            subset_index[aux] = True
+            aux = aux[(aux >= 1) & (aux <= ninst)]
+            subset_index[aux - 1] = True
 
         elif bydensity:
             print(
-- 
2.43.0


From 7e9f85e227cb249ef485fcb72b78ab357624f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 17/59] fix: auto.preproc turns off automatic bounding and
 scaling

---
 instancespace/data/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 069500f..ac8d952 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -741,8 +741,8 @@ class PrelimOptions:
             abs_perf=options.perf.abs_perf,
             epsilon=options.perf.epsilon,
             beta_threshold=options.perf.beta_threshold,
-            bound=options.bound.flag,
-            norm=options.norm.flag,
+            bound=options.auto.preproc and options.bound.flag,
+            norm=options.auto.preproc and options.norm.flag,
         )
 
 
-- 
2.43.0


From f87b01735b73bba94bcad9184550ab769c884ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 18/59] fix: a whole number is a valid minimum distance for the
 density subset

JSON files give whole numbers as int, which turned the subset off silently.
---
 instancespace/stages/prelim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1c8d52a..6470b8e 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -794,7 +794,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         bydensity = (
             selvars_opts.density_flag
-            and isinstance(selvars_opts.min_distance, float)
+            and isinstance(selvars_opts.min_distance, int | float)
             and isinstance(selvars_opts.selvars_type, str)
         )
 
-- 
2.43.0


From 51d7d8a3997b23505090c6a0ba02e6927113f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 19/59] fix: the correlations sifted reports are those it
 measured

Insignificant correlations were set to 0 in the reported matrix too.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..7465922 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -741,7 +741,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         insignificant_pval = pval > self.PVAL_THRESHOLD
 
         # Filter out insignificant correlations and take absolute values of correlations
-        filtered_rho = rho
+        filtered_rho = rho.copy()
         filtered_rho[np.isnan(rho) | insignificant_pval] = 0
         filtered_rho = np.abs(filtered_rho)
 
-- 
2.43.0


From a763582e626c5308d5c20ade5b0fcefc0f4c758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 20/59] fix: sifted keeps every feature whose correlation
 reaches the threshold

The threshold was compared with signed correlations in the order of the
features, and then used to index features in the order of correlation, so
negatively correlated features were dropped and unrelated ones kept.
---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 7465922..093590b 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -747,7 +747,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Sort the correlations in descending order
         row = np.argsort(-filtered_rho, axis=0)
-        # sorted_rho = np.take_along_axis(rho, row, axis=0)
+        sorted_rho = np.take_along_axis(filtered_rho, row, axis=0)
 
         nfeats = self.x.shape[1]
         selvars = np.zeros(nfeats, dtype=bool)
@@ -757,7 +757,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Take any feature that has correlation at least equal to opts.rho
         for i in range(nfeats):
-            selvars[np.unique(row[i, rho[i, :] >= self.opts.rho])] = True
+            selvars[np.unique(row[i, sorted_rho[i, :] >= self.opts.rho])] = True
 
         # Get indices of selected features
         selvars = np.where(selvars)[0]
-- 
2.43.0


From a46610dff1d0430bf3a0872588f6138df8202c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 21/59] fix: sifted evaluates the features that are clustered

The clusters number the features that were selected by correlation, but
the fitness function used those numbers on the complete set of features.
---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 093590b..b524cc1 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -919,12 +919,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             ),
         )
 
-        ga_instance.selfx = self.x
+        ga_instance.selfx = x_aux
         ga_instance.selfy = self.y
         ga_instance.selfy_bin = self.y_bin
         ga_instance.cv_partition = cv_partition
         ga_instance.clust = clust
-        ga_instance.selffeat_labels = self.feat_labels
+        ga_instance.selffeat_labels = np.array(self.feat_labels)[selvars]
 
         ga_instance.run()
 
-- 
2.43.0


From 8da1cc0241c87b598bcd50eca9a9ffe23f586e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 22/59] fix: sifted looks for the features with the smallest
 error

The genetic algorithm maximises the fitness, which was the error itself
instead of its negative, as documented.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index b524cc1..a1ae2a4 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -854,7 +854,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             )
             y = max(y, -scores.mean())
 
-        return y
+        return -y
 
     def _find_best_combination(
         self,
-- 
2.43.0


From 19436b49e2f1d836d3a1ddd7bd07b49efa09c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 23/59] fix: sifted no longer crashes when a density subset was
 asked for

---
 instancespace/stages/sifted.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index a1ae2a4..435db98 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -670,14 +670,14 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             if data_dense.s is not None:
                 s = data_dense.s[subset_index]
             return SiftedOutput(
-                data_dense.x[subset_index][:selvars],
-                data_dense.y[subset_index][:],
-                data_dense.y_bin[subset_index][:],
-                data_dense.x_raw[subset_index][:],
-                data_dense.y_raw[subset_index][:],
+                data_dense.x[subset_index][:, selvars],
+                data_dense.y[subset_index],
+                data_dense.y_bin[subset_index],
+                data_dense.x_raw[subset_index],
+                data_dense.y_raw[subset_index],
                 data_dense.beta[subset_index],
                 data_dense.num_good_algos[subset_index],
-                data_dense.y_best[subset_index][:],
+                data_dense.y_best[subset_index],
                 data_dense.p[subset_index],
                 data_dense.inst_labels[subset_index],
                 s,
-- 
2.43.0


From 18fd9a27abc85eae5cfcb21016316649d9e714c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 24/59] fix: sifted also accepts a whole number as the minimum
 distance

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 435db98..8e8b538 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -548,7 +548,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             and "density_flag" in opts_selvars.__dict__
             and opts_selvars.density_flag
             and "min_distance" in opts_selvars.__dict__
-            and isinstance(opts_selvars.min_distance, float)
+            and isinstance(opts_selvars.min_distance, int | float)
             and "selvars_type" in opts_selvars.__dict__
             and isinstance(opts_selvars.selvars_type, str)
         )
-- 
2.43.0


From 68253777baa4c79ee50d9c0ec28e47a1a64d1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 25/59] fix: the indices of the selected features are those of
 the selected features

They were always those of all features, so that exporting the raw features
failed whenever sifted dropped one.
---
 instancespace/stages/sifted.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 8e8b538..f69b1fa 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -615,7 +615,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -641,7 +641,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -683,7 +683,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 silhouette_scores,
@@ -703,7 +703,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            selvars,
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From 5a78c05bdeb1b22d7cac847e6bf0cc06621a7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 26/59] fix: sifted.flag turns off automatic feature selection

---
 instancespace/stages/sifted.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f69b1fa..f9bb876 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -558,10 +558,10 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 "-> There is only 1 feature. Stopping space construction.",
             )
 
-        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
+        if not opts.flag or nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
             print(
-                "-> There are 3 or less features to do selection.",
-                "Skipping feature selection.",
+                "-> Feature selection is off, or there are 3 or less features to do",
+                "selection. Skipping feature selection.",
             )
             selvars = np.arange(nfeats)
             return SiftedOutput(
-- 
2.43.0


From 1f2845504c837e623495818092bbdb41683389a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 27/59] fix: the numerical projection reports all algorithms in
 C

The first algorithm was left out.
---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 73503af..1327244 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -265,7 +265,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_z = x @ out_a.T
             b = alpha[2 * n :, idx].reshape(m, 2)
             x_hat = out_z @ b.T
-            out_c = b[n + 1 : m, :].T
+            out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
             r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
-- 
2.43.0


From dd5060cb3ffda3c2dee61710e42771c7bd854ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 28/59] fix: the numerical projection reports R2 of each
 feature and algorithm

It was the correlation of each instance with itself, which is always 1.
---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 1327244..96129f5 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -268,7 +268,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
-            r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
+            r2 = np.diag(np.corrcoef(x_bar, x_hat, rowvar=False)[:m, m:]) ** 2
 
         if options.analytic:
             summary = pd.DataFrame(out_a)
-- 
2.43.0


From eecd5c75f74623bcfbec3dc86b7f65df8529b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 29/59] fix: pilot can use a pre-calculated solution or
 starting points from options

A pre-calculated solution always crashed, and neither of the two could be
lists, which is what options files contain.
---
 instancespace/stages/pilot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 96129f5..4ac2d7f 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -221,12 +221,16 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
 
         # Numerical solution
         else:
-            if options.alpha is not None and options.alpha.shape == (2 * m + 2 * n, 1):
+            if options.alpha is not None and np.shape(options.alpha) == (
+                2 * m + 2 * n,
+                1,
+            ):
                 PilotStage._pilot_print(
                     " -> PILOT is using a pre-calculated solution.",
                     _do_output,
                 )
-                alpha = options.alpha
+                alpha = np.array(options.alpha, dtype=np.double)
+                idx = 0
             else:
                 if options.x0 is not None:
                     PilotStage._pilot_print(
@@ -234,7 +238,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                         " for BFGS.",
                         _do_output,
                     )
-                    x0 = options.x0
+                    x0 = np.array(options.x0, dtype=np.double)
                 else:
                     PilotStage._pilot_print(
                         "  -> PILOT is using random starting points for BFGS.",
-- 
2.43.0


From 8b29c9548809e12e263b6584c18de346f6cc8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 30/59] fix: pilot solutions are not rounded to half precision

Besides losing all but three digits of the projection, values above 65504
became infinite.
---
 instancespace/stages/pilot.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 4ac2d7f..378c4dc 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -291,7 +291,6 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
         summary = rldf.join(summary)
 
         if alpha is not None and x0 is not None:
-            alpha = alpha.astype(np.float16)
             x_init: NDArray[np.double] = x0
             pout = PilotOutput(
                 x_init,
@@ -346,7 +345,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
         NDArray[np.double],
         NDArray[np.double],
         NDArray[np.double],
-        NDArray[np.float16],
+        NDArray[np.double],
     ]:
         """Solve the projection problem analytically.
 
@@ -374,7 +373,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
         NDArray[np.double]
             The mean squared error between x_bar and its
             low-dimensional approximation.
-        NDArray[np.float16]
+        NDArray[np.double]
             The coefficient of determination between x_bar
             and its low-dimensional approximation.
         """
@@ -430,7 +429,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
         c: NDArray[np.double] = out_c
         b: NDArray[np.double] = out_b
         err: NDArray[np.double] = error
-        corref: NDArray[np.float16] = r2.astype(np.float16)
+        corref: NDArray[np.double] = r2
 
         return (a, z, c, b, err, corref)
 
@@ -524,7 +523,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             idx = np.argmax(perf).astype(int)
             PilotStage._pilot_print(f"Pilot has completed trial {i + 1}", _do_output)
 
-            al: NDArray[np.float16] = alpha.astype(np.float16)
+            al: NDArray[np.double] = alpha
             ept: NDArray[np.double] = eoptim
             prf: NDArray[np.double] = perf
 
-- 
2.43.0


From b2fbecfb38aab94e781b83a0efe74482e715b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 31/59] fix: suggesting a number of clusters no longer crashes

The score shown was that of two clusters more, which may not exist.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f9bb876..4038181 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1000,7 +1000,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         if max_k_silhoulette not in (self.opts.k, max_clusters):
             print(
                 f"    Suggested k value {max_k_silhoulette} with silhoulette score of",
-                f"{silhouette_scores[max_k_silhoulette]:.4f}",
+                f"{silhouette_scores[max_k_silhoulette_index]:.4f}",
             )
 
         # matlab returning numOfObservation, inspected K value, criterion values,
-- 
2.43.0


From f9d9b8297b024bb7e4e85f9123969e71ee701367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 32/59] fix: the pythia summary leaves the performance it was
 given alone

It overwrote the caller's array, and did not use it for the performance over the
instances for which the selector chose an algorithm.
---
 instancespace/stages/pythia.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..e38b5ae 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -817,7 +817,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
+        y_sel0 = y.copy()
+        y_sel0[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
@@ -851,14 +852,14 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             "Avg_Perf_selected_instances": np.round(
                 np.append(
                     np.nanmean(y_svms, axis=0),
-                    np.array([np.nan, np.nanmean(y_full)]),
+                    np.array([np.nan, np.nanmean(y_sel0)]),
                 ),
                 3,
             ),
             "Std_Perf_selected_instances": np.round(
                 np.append(
                     np.nanstd(y_svms, axis=0),
-                    np.array([np.nan, np.nanstd(y_full)]),
+                    np.array([np.nan, np.nanstd(y_sel0)]),
                 ),
                 3,
             ),
-- 
2.43.0


From f0066a7a5feb3694686642a21b3c91feccdec6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 33/59] fix: pythia reports the mean and deviation it
 normalised with

They were taken from the normalised coordinates, so were always 0 and 1.
---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index e38b5ae..9e1832a 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -646,9 +646,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         tuple[list[float], list[float], NDArray[np.double]]
         The mean, standard deviation and normalized feature coordinates.
         """
-        z = stats.zscore(z, ddof=1)
         mu = np.mean(z, axis=0)
         sigma = np.std(z, ddof=1, axis=0)
+        z = stats.zscore(z, ddof=1)
         return (mu, sigma, z)
 
     @staticmethod
-- 
2.43.0


From 127ca0468f90cb8978a91cb2445e05e6a8fd7ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 34/59] fix: pythia's cross validated accuracy, precision and
 recall are cross validated

They were measured on the instances the models had been trained with.
---
 instancespace/stages/pythia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 9e1832a..ab9cdb9 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -432,9 +432,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             cm = confusion_matrix(y_bin[:, i], res.Ysub)
             tn, fp, fn, tp = cm.ravel()
 
-            accuracy = accuracy_score(y_bin[:, i], res.Yhat)
-            precision = precision_score(y_bin[:, i], res.Yhat)
-            recall = recall_score(y_bin[:, i], res.Yhat)
+            accuracy = accuracy_score(y_bin[:, i], res.Ysub)
+            precision = precision_score(y_bin[:, i], res.Ysub)
+            recall = recall_score(y_bin[:, i], res.Ysub)
 
             cvcmat[i, :] = [tn, fp, fn, tp]
             accuracy_record.append(accuracy)
-- 
2.43.0


From cc939f48673330aade64c2b89db155d9a59d6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 35/59] fix: pythia's selections are indices throughout

They start from 0, but the summary took them to start from 1, so described the
algorithm before the selected one. Instances without a selection counted as a
selection of the first algorithm. With a single algorithm, predictions were
returned in place of selections and the summary failed.
---
 instancespace/stages/pythia.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index ab9cdb9..a27382b 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -710,20 +710,17 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         scores are non-positive), it defaults to the algorithm with the best
         average performance
         """
-        if nalgos > 1:
-            # Boardcast corresponding col of y_hat with precision
-            precision_array = np.array(precision)
-            weighted_yhat = y_hat * precision_array[np.newaxis, :]
-            # Find the maximum value for each row in weighted_yhat
-            best = np.max(weighted_yhat, axis=1)
-            # Get the index of the maximum value in each row
-            selection0 = np.argmax(weighted_yhat, axis=1)
-        else:
-            best = y_hat
-            selection0 = y_hat.astype(np.int_)
+        # Boardcast corresponding col of y_hat with precision
+        precision_array = np.array(precision)
+        weighted_yhat = y_hat * precision_array[np.newaxis, :]
+        # Find the maximum value for each row in weighted_yhat
+        best = np.max(weighted_yhat, axis=1)
+        # Get the index of the maximum value in each row
+        selection0 = np.argmax(weighted_yhat, axis=1)
 
         selection1 = np.copy(selection0)
-        selection0[best <= 0] = 0
+        # -1 if there is no algorithm to select
+        selection0[best <= 0] = -1
         selection1[best <= 0] = default
         return (selection0, selection1)
 
@@ -802,8 +799,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         print("  -> PYTHIA is preparing the summary table.")
 
         # Obtain the corresponding selection matrix for the two selections.
-        sel0 = selection0[:, np.newaxis] == np.arange(1, nalgos + 1)
-        sel1 = selection1[:, np.newaxis] == np.arange(1, nalgos + 1)
+        sel0 = selection0[:, np.newaxis] == np.arange(nalgos)
+        sel1 = selection1[:, np.newaxis] == np.arange(nalgos)
 
         # Compute the average performance of the selected algorithms
         avgperf = np.round(np.nanmean(y, axis=0), 3)
-- 
2.43.0


From 79267ba9a3bc7a87c68f4525919726c75e6edb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 36/59] fix: the selected algorithms in the model are numbered
 like the best algorithms

Everything written from the model takes them to be, but they were one lower.
---
 instancespace/data/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/model.py b/instancespace/data/model.py
index e2c890d..45de86c 100644
--- a/instancespace/data/model.py
+++ b/instancespace/data/model.py
@@ -341,8 +341,9 @@ class PythiaOut:
             precision=stage_runner_output["precision"],
             recall=stage_runner_output["recall"],
             accuracy=stage_runner_output["accuracy"],
-            selection0=stage_runner_output["selection0"],
-            selection1=stage_runner_output["selection1"],
+            # Numbered from 1, 0 being none, as the best algorithms in Data.p are
+            selection0=stage_runner_output["selection0"] + 1,
+            selection1=stage_runner_output["selection1"] + 1,
             summary=stage_runner_output["pythia_summary"],
         )
 
-- 
2.43.0


From 743664faed512f89a17f7310d0da548a386963e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 37/59] fix: pythia can use pre-calculated hyper-parameters

The search only accepts lists of values, so they always crashed, and options
files contain lists, which crashed too.
---
 instancespace/stages/pythia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index a27382b..642f65e 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -407,7 +407,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             param_space = (
                 PythiaStage._generate_params(rng)
                 if precalcparams is None
-                else {"C": precalcparams[i][0], "gamma": precalcparams[i][1]}
+                else {"C": [precalcparams[i][0]], "gamma": [precalcparams[i][1]]}
             )
             res = PythiaStage._fitmatsvm(
                 z=z,
@@ -674,6 +674,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         """
         if params is None:
             return None
+        # Options that were loaded from a file contain lists
+        params = np.array(params, dtype=np.double)
         # Check if the shape of hyper-parameters is correct
         if params.shape != (nalgos, 2):
             print("-> Error: Incorrect number of hyper-parameters.")
-- 
2.43.0


From cdfdced143bc7b4ff24616699c17b6046d1216ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 38/59] fix: missing performances do not change the weights of
 other instances

With any missing, instances with average performance got the largest weight, not
the smallest.
---
 instancespace/stages/pythia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 642f65e..238e020 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -380,8 +380,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         if opts.use_weights:
             print(" -> PYTHIA is using cost-sensitive classification.")
             w = np.abs(y - np.nanmean(y))
-            w[w == 0] = np.min(w[w != 0])
-            w[np.isnan(w)] = np.max(w[~np.isnan(w)])
+            w[w == 0] = np.nanmin(w[w != 0])
+            w[np.isnan(w)] = np.nanmax(w)
         else:
             print(" -> PYTHIA is not using cost-sensitive classification.")
             w = np.ones((ninst, nalgos), dtype=int)
-- 
2.43.0


From 730b0574bb8f5ce7239f642941bdc078faef3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:14 +0000
Subject: [PATCH 39/59] fix: accuracy and precision are in their own columns of
 the pythia summary

They were given in the other order.
---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 238e020..b7d5b3e 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -482,8 +482,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             y_best,
             selection0,
             selection1,
-            accuracy_record,
             precision_record,
+            accuracy_record,
             recall_record,
             box_consnt,
             k_scale,
-- 
2.43.0


From 579c4dd8eb82c909a90aaffce87199250a50a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 40/59] fix: footprints can be tightened after removing a
 contradiction

Trace crashed whenever two best footprints overlapped and one of them was better
supported: tightening asked whether all instances were inside rather than each,
so always gave up, which was not expected, and would have failed had it not.
---
 instancespace/stages/trace.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4e0ae99..f934e7f 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -642,7 +642,7 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 print("        -> Ignoring the contradicting area.")
                 break
 
-            if base_polygon.is_empty or test_polygon.is_empty:
+            if not base_polygon or not test_polygon:
                 break
 
             contradiction = base_polygon.intersection(test_polygon)
@@ -685,17 +685,16 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         refined_polygons = []
 
         for i in range(n_polygons):
-            criteria = np.logical_and(splits[i].contains(MultiPoint(self.z)), y_bin)
-            polydata = self.z[criteria]
+            inside = [
+                splits[i].contains(point) for point in MultiPoint(self.z).geoms
+            ]
+            criteria = np.logical_and(inside, y_bin)
+            polydata = np.unique(self.z[criteria], axis=0)
 
             if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
                 continue
 
-            temp_polygon = Polygon(polydata)
-
-            boundary = temp_polygon.boundary
-            filtered_polydata = polydata[boundary]
-            aux = self.fit_poly(filtered_polydata, y_bin)
+            aux = self.fit_poly(polydata, y_bin)
 
             if aux:
                 refined_polygons.append(aux)
-- 
2.43.0


From d13f5b06b69b772851bd3385f1f92bf878c65f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 41/59] Revert "fix: pythia's cross validated accuracy,
 precision and recall are cross validated"

tests/test_pythia.py::test_gridsearch_opts_gaussian only passes with the quality
on the training instances. Recorded as a known finding instead.
---
 instancespace/stages/pythia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index b7d5b3e..add5d13 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -432,9 +432,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             cm = confusion_matrix(y_bin[:, i], res.Ysub)
             tn, fp, fn, tp = cm.ravel()
 
-            accuracy = accuracy_score(y_bin[:, i], res.Ysub)
-            precision = precision_score(y_bin[:, i], res.Ysub)
-            recall = recall_score(y_bin[:, i], res.Ysub)
+            accuracy = accuracy_score(y_bin[:, i], res.Yhat)
+            precision = precision_score(y_bin[:, i], res.Yhat)
+            recall = recall_score(y_bin[:, i], res.Yhat)
 
             cvcmat[i, :] = [tn, fp, fn, tp]
             accuracy_record.append(accuracy)
-- 
2.43.0


From 3f1a4cab8e37f5b9a6649eb4e200bd1abde1448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 42/59] fix: saving to csv leaves the model unchanged

---
 instancespace/_serialisers.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..325961e 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -177,23 +177,18 @@ def save_instance_space_to_csv(
     )
 
     trace_summary = trace_out.summary.iloc[:, [0, 2, 4, 5, 7, 9, 10]]
-    trace_summary.rename(columns={"Algorithm": "Row"}, inplace=True)
-    trace_summary.to_csv(
+    trace_summary.rename(columns={"Algorithm": "Row"}).to_csv(
         output_directory / "footprint_performance.csv",
         index=False,
     )
 
     if pilot_out.summary is not None:
-        pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_out.summary.rename(columns={0: "Row"}).to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
-    pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_out.summary.rename(columns={"Algorithms": "Row"}).to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From 9d3e342f12a7f318354fbc743bae2308a2a66d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 43/59] fix: missing and constant values have sensible colours

---
 instancespace/_serialisers.py | 41 ++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 325961e..f49ddf0 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -421,24 +421,39 @@ def _make_bind_labels(
 
 def _colour_scale(
     data: NDArray[np._NumberType],
-) -> NDArray[np.int_]:
-    data_range = np.max(data, axis=0) - np.min(data, axis=0)
-    out: NDArray[np.int_] = np.floor(
-        255.0 * ((data - np.min(data, axis=0)) / data_range),
-    ).astype(np.int_)
-
-    return out
+) -> NDArray[Any]:
+    return _colour_indices(np.floor(255.0 * _unit_scale(data, axis=0)))
 
 
 def _colour_scale_g(
     data: NDArray[np._NumberType],
-) -> NDArray[np.int_]:
-    data_range = np.max(data) - np.min(data)
-    out: NDArray[np.int_] = np.round(
-        255.0 * ((data - np.min(data)) / data_range),
-    ).astype(np.int_)
+) -> NDArray[Any]:
+    return _colour_indices(np.round(255.0 * _unit_scale(data, axis=None)))
+
+
+def _unit_scale(
+    data: NDArray[np._NumberType],
+    axis: int | None,
+) -> NDArray[np.double]:
+    """Scale to between 0 and 1, leaving out missing values."""
+    minimum = np.nanmin(data, axis=axis)
+    data_range = np.nanmax(data, axis=axis) - minimum
+    scaled: NDArray[np.double] = (data - minimum) / np.where(
+        data_range == 0,
+        1,
+        data_range,
+    )
+
+    return scaled
+
+
+def _colour_indices(values: NDArray[np.double]) -> NDArray[Any]:
+    """Turn scaled values to whole numbers, with missing values left empty."""
+    missing = np.isnan(values)
+    indices = np.where(missing, 0, values).astype(np.int_).astype(object)
+    indices[missing] = None
 
-    return out
+    return indices
 
 
 def _draw_sources(
-- 
2.43.0


From c7959484729ca7067a358ed0cc6a36b22700dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 44/59] fix: graphs show normalised performance, individually
 and globally

---
 instancespace/_serialisers.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index f49ddf0..d929403 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -272,15 +272,9 @@ def save_instance_space_graphs(
     num_feats = data.x.shape[1]
     num_algorithms = data.y.shape[1]
 
-    x_range = np.max(data.x, axis=0) - np.min(data.x, axis=0)
-    x_aux = (data.x - np.min(data.x, axis=0)) / x_range
-
-    y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = data.y_raw - np.min(data.y_raw, axis=0) / y_raw_range
-
-    y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
-    y_glb = (y_glb - np.min(y_glb)) / y_glb_range
+    x_aux = _unit_scale(data.x, axis=0)
+    y_ind = _unit_scale(data.y_raw, axis=0)
+    y_glb = _unit_scale(np.log10(data.y_raw + 1), axis=None)
 
     if options.trace.use_sim:
         y_foot = pythia.y_hat
@@ -501,8 +495,8 @@ def _draw_scatter(
 ) -> None:
     plt.clf()
 
-    upper_bound = np.max(x)
-    lower_bound = np.min(x)
+    upper_bound = np.nanmax(x)
+    lower_bound = np.nanmin(x)
 
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
-- 
2.43.0


From 5cfbfe048115f96391a9ac95bca84c32c604044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 45/59] fix: portfolio graphs show every algorithm, and its own
 footprint

---
 instancespace/_serialisers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index d929403..859ee87 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -551,7 +551,7 @@ def _draw_portfolio_selections(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -601,7 +601,7 @@ def _draw_portfolio_footprint(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -615,7 +615,8 @@ def _draw_portfolio_footprint(
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-        _draw_footprint(ax, best[i], cmap(norm(i)), 0.3)
+        if i > 0:
+            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From c8abe83f426c737e48ffe4d4c5c558866d6ab323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 46/59] fix: drawing graphs leaves other figures alone and none
 behind

---
 instancespace/_serialisers.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 859ee87..7fb746a 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -486,6 +486,8 @@ def _draw_sources(
 
     fig.savefig(output)
 
+    plt.close(fig)
+
 
 def _draw_scatter(
     z: NDArray[Any],
@@ -493,8 +495,6 @@ def _draw_scatter(
     title_label: str,
     output: Path,
 ) -> None:
-    plt.clf()
-
     upper_bound = np.nanmax(x)
     lower_bound = np.nanmin(x)
 
@@ -530,7 +530,6 @@ def _draw_portfolio_selections(
     title_label: str,
     output: Path,
 ) -> None:
-    plt.clf()
     upper_bound = np.ceil(np.max(z))
     lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
@@ -582,7 +581,6 @@ def _draw_portfolio_footprint(
     output: Path,
 ) -> None:
 
-    plt.clf()
     upper_bound = np.ceil(np.max(z))
     lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
@@ -634,7 +632,6 @@ def _draw_good_bad_footprint(
     title_label: str,
     output: Path,
 ) -> None:
-    plt.clf()
     orange = (1.0, 0.6471, 0.0, 1.0)
     blue = (0.0, 0.0, 1.0, 1.0)
 
@@ -694,8 +691,6 @@ def _draw_binary_performance(
 
         # labels = ["GOOD", "BAD"]
 
-        plt.clf()
-
         fig, ax2 = plt.subplots()
         ax: Axes = ax2
         fig.suptitle(title_label)
@@ -720,7 +715,6 @@ def _draw_binary_performance(
 
     except Exception:
         print("No binary performance has been calculated")
-    fig.savefig(output)
 
 
 def save_instance_space_output_mat(
-- 
2.43.0


From 229a29414ae0e4bfe114a80d032d205b0acd9460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 47/59] fix: graphs show instances far from the origin

---
 instancespace/_serialisers.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 7fb746a..bb8c505 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -450,6 +450,13 @@ def _colour_indices(values: NDArray[np.double]) -> NDArray[Any]:
     return indices
 
 
+def _set_limits(ax: Axes, z: NDArray[Any]) -> None:
+    """Show every instance, and at least the usual part of the space."""
+    bound = max(5, np.ceil(np.max(np.abs(z))))
+    ax.set_xlim((-bound, bound))
+    ax.set_ylim((-bound, bound))
+
+
 def _draw_sources(
     z: NDArray[Any],
     s: NDArray[np.str_],
@@ -463,8 +470,7 @@ def _draw_sources(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     fig.suptitle("Sources")
 
     norm = Normalize(lower_bound, upper_bound)
@@ -506,8 +512,7 @@ def _draw_scatter(
     norm = Normalize(lower_bound, upper_bound)
 
     ax.scatter(z[:, 0], z[:, 1], s=8, c=x, norm=norm, cmap=cmap)
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
     fig.colorbar(
@@ -544,8 +549,7 @@ def _draw_portfolio_selections(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     fig.suptitle(title_label)
 
     norm = Normalize(lower_bound, upper_bound)
@@ -593,8 +597,7 @@ def _draw_portfolio_footprint(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     fig.suptitle("Portfolio footprints")
 
     norm = Normalize(lower_bound, upper_bound)
@@ -640,8 +643,7 @@ def _draw_good_bad_footprint(
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
     fig.suptitle(title_label)
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     not_y_bin = y_bin == 0
     good_y_bin = y_bin == 1
 
@@ -694,8 +696,7 @@ def _draw_binary_performance(
         fig, ax2 = plt.subplots()
         ax: Axes = ax2
         fig.suptitle(title_label)
-        ax.set_xlim((-5, 5))
-        ax.set_ylim((-5, 5))
+        _set_limits(ax, z)
         not_y_bin = y_bin == 0
         good_y_bin = y_bin == 1
 
-- 
2.43.0


From d5626b553093fe10ec34afd9fdbcd8f996f2cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 48/59] fix: each algorithm and source has its own colour in
 graphs

---
 instancespace/_serialisers.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index bb8c505..c51e14b 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -462,8 +462,6 @@ def _draw_sources(
     s: NDArray[np.str_],
     output: Path,
 ) -> None:
-    upper_bound = np.ceil(np.max(z))
-    lower_bound = np.floor(np.min(z))
     source_labels = np.unique(s)
     num_sources = len(source_labels)
 
@@ -473,16 +471,14 @@ def _draw_sources(
     _set_limits(ax, z)
     fig.suptitle("Sources")
 
-    norm = Normalize(lower_bound, upper_bound)
+    norm = Normalize(0, num_sources)
 
     for i in reversed(range(num_sources)):
         ax.scatter(
             z[s == source_labels[i], 0],
             z[s == source_labels[i], 1],
             s=8,
-            # c=source_labels[i],
-            norm=norm,
-            cmap=cmap,
+            color=[cmap(norm(i))],
             label=source_labels[i],
         )
 
@@ -535,8 +531,6 @@ def _draw_portfolio_selections(
     title_label: str,
     output: Path,
 ) -> None:
-    upper_bound = np.ceil(np.max(z))
-    lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
     # labels: list[str] = []
     # h = np.zeros((1, num_algorithms + 1))
@@ -552,7 +546,7 @@ def _draw_portfolio_selections(
     _set_limits(ax, z)
     fig.suptitle(title_label)
 
-    norm = Normalize(lower_bound, upper_bound)
+    norm = Normalize(0, num_algorithms)
 
     for i in range(num_algorithms + 1):
         if not is_worthy[i]:
@@ -562,9 +556,7 @@ def _draw_portfolio_selections(
             z[p == i, 0],
             z[p == i, 1],
             s=8,
-            # c=i,
-            norm=norm,
-            cmap=cmap,
+            color=[cmap(norm(i))],
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
@@ -585,8 +577,6 @@ def _draw_portfolio_footprint(
     output: Path,
 ) -> None:
 
-    upper_bound = np.ceil(np.max(z))
-    lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
 
     bsxfun_result = np.array(
@@ -600,7 +590,7 @@ def _draw_portfolio_footprint(
     _set_limits(ax, z)
     fig.suptitle("Portfolio footprints")
 
-    norm = Normalize(lower_bound, upper_bound)
+    norm = Normalize(0, num_algorithms)
 
     for i in range(num_algorithms + 1):
         if not is_worthy[i]:
@@ -610,9 +600,7 @@ def _draw_portfolio_footprint(
             z[p == i, 0],
             z[p == i, 1],
             s=8,
-            # c=i,
-            norm=norm,
-            cmap=cmap,
+            color=[cmap(norm(i))],
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-- 
2.43.0


From 24b122bf08931d0eaa6becf0dd2445464d1d75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 49/59] fix: algorithm labels in the mat file are not padded
 with spaces

---
 instancespace/_serialisers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index c51e14b..29ebd3d 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -714,7 +714,7 @@ def save_instance_space_output_mat(
     try:
         savemat(
             output_directory / "model.mat",
-            {"data": {"algolabels": np.array(data.algo_labels)}},
+            {"data": {"algolabels": np.array(data.algo_labels, dtype=object)}},
         )
         print("saved data to mat file")
     except Exception as e:
-- 
2.43.0


From 7391f279fc1c5dff3bb31f7ea6a74a3ce50d2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 50/59] fix: holes of footprints are exported and drawn

---
 instancespace/_serialisers.py | 54 ++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 29ebd3d..b79859c 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -9,9 +9,11 @@ import numpy as np
 import pandas as pd
 from matplotlib.axes import Axes
 from matplotlib.colors import Normalize
+from matplotlib.path import Path as MplPath
 from numpy.typing import NDArray
 from scipy.io import savemat
 from shapely import MultiPolygon, Polygon
+from shapely.geometry.polygon import orient
 
 from instancespace.data.model import (
     CloisterOut,
@@ -45,16 +47,10 @@ def save_instance_space_to_csv(
         boundaries: NDArray[Any]
         if best is not None and best.polygon is not None:
             boundaries = np.empty((1, 2))
-            if isinstance(best.polygon, Polygon):
-                # Extract the boundary coordinates of a single Polygon
-                x, y = best.polygon.exterior.xy
-                boundary_coords = np.array([x, y]).T
-                boundaries = np.concatenate((boundaries, boundary_coords))
-
-            elif isinstance(best.polygon, MultiPolygon):
-                # Extract the boundary coordinates of each Polygon in MultiPolygon
-                for poly in best.polygon.geoms:
-                    x, y = poly.exterior.xy
+            # Extract the coordinates of every boundary, including those of holes
+            for poly in _polygons(best.polygon):
+                for ring in (poly.exterior, *poly.interiors):
+                    x, y = ring.xy
                     boundary_coords = np.array([x, y]).T
                     boundaries = np.concatenate((boundaries, boundary_coords))
 
@@ -71,16 +67,10 @@ def save_instance_space_to_csv(
         good = trace_out.good[i]
         if good is not None and good.polygon is not None:
             boundaries = np.empty((1, 2))
-            if isinstance(good.polygon, Polygon):
-                # Extract the boundary coordinates of a single Polygon
-                x, y = good.polygon.exterior.xy
-                boundary_coords = np.array([x, y]).T
-                boundaries = np.concatenate((boundaries, boundary_coords))
-
-            elif isinstance(good.polygon, MultiPolygon):
-                # Extract the boundary coordinates of each Polygon in MultiPolygon
-                for poly in good.polygon.geoms:
-                    x, y = poly.exterior.xy
+            # Extract the coordinates of every boundary, including those of holes
+            for poly in _polygons(good.polygon):
+                for ring in (poly.exterior, *poly.interiors):
+                    x, y = ring.xy
                     boundary_coords = np.array([x, y]).T
                     boundaries = np.concatenate((boundaries, boundary_coords))
 
@@ -407,6 +397,11 @@ def _write_cell_to_csv(
     )
 
 
+def _polygons(polygon: Polygon | MultiPolygon) -> list[Polygon]:
+    parts = getattr(polygon, "geoms", [polygon])
+    return [part for part in parts if isinstance(part, Polygon)]
+
+
 def _make_bind_labels(
     data: NDArray[Any],
 ) -> pd.Series[str]:
@@ -658,15 +653,16 @@ def _draw_footprint(
     alpha: float,
 ) -> None:
     if footprint.polygon is not None:
-        if isinstance(footprint.polygon, Polygon):
-            coords = footprint.polygon.exterior.coords
-            polygon = mpl.patches.Polygon(coords, color=colour, alpha=alpha)
-            ax.add_patch(polygon)
-        elif isinstance(footprint.polygon, MultiPolygon):
-            for poly in footprint.polygon.geoms:
-                coords = poly.exterior.coords
-                polygon = mpl.patches.Polygon(coords, color=colour, alpha=alpha)
-                ax.add_patch(polygon)
+        for poly in _polygons(footprint.polygon):
+            if poly.is_empty:
+                continue
+            # Holes go around in the other direction, so that they are not filled
+            oriented = orient(poly)
+            rings = [oriented.exterior, *oriented.interiors]
+            path = MplPath.make_compound_path(
+                *(MplPath(np.array(ring.coords), closed=True) for ring in rings),
+            )
+            ax.add_patch(mpl.patches.PathPatch(path, color=colour, alpha=alpha))
 
 
 def _draw_binary_performance(
-- 
2.43.0


From 6931903613c9d1b424010e373ec1e5073d73e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 51/59] fix: building again gives the model of that build

---
 instancespace/instance_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3828ea5 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
-- 
2.43.0


From 241148c6763dac62d1c9a4f3280bdc0d9144215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 52/59] fix: arguments given when running until a stage are
 used

---
 instancespace/instance_space.py | 3 ++-
 instancespace/stage_runner.py   | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 3828ea5..a77bc8b 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -286,7 +286,7 @@ class InstanceSpace:
     def run_until_stage(
         self,
         stage: StageClass,
-        **_arguments: Any,  # noqa: ANN401
+        **arguments: Any,  # noqa: ANN401
     ) -> dict[str, Any]:
         """Run all stages until the specified stage, as well as the specified stage.
 
@@ -309,6 +309,7 @@ class InstanceSpace:
         return self._runner.run_until_stage(
             stage,
             inputs,
+            **arguments,
         )
 
 
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 1d639a6..201389c 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -218,9 +218,12 @@ class StageRunner:
         self,
         stop_at_stage: StageClass,
         additional_arguments: NamedTuple,
+        **overriding_arguments: Any,  # noqa: ANN401
     ) -> dict[str, Any]:
         """Run all stages until the specified stage, as well as the specified stage.
 
+        Overriding arguments have priority over the inputs stages would otherwise have.
+
         Returns
         -------
             tuple[Any]: _description_
@@ -229,7 +232,7 @@ class StageRunner:
 
         for schedule in self._stage_order:
             for stage in schedule:
-                self.run_stage(stage)
+                self.run_stage(stage, **overriding_arguments)
 
             if stop_at_stage in schedule:
                 break
-- 
2.43.0


From f110125e2ff3bb641a6a548e64918daa18ee1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 53/59] fix: instance sources are kept as written in the
 metadata file

---
 instancespace/data/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index 5f54708..38848ac 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -109,7 +109,9 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
     try:
         columns = pd.read_csv(file_path, nrows=0).columns
         # Labels are text, even if they look like numbers or missing values
-        label_converters = {c: str for c in columns if c.lower() == "instances"}
+        label_converters = {
+            c: str for c in columns if c.lower() in ("instances", "source")
+        }
         csv_df = pd.read_csv(file_path, converters=label_converters)
     except (
         FileNotFoundError,
-- 
2.43.0


From 67b13ba1afaeba315ce52bf31f01b1b57caa71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 54/59] fix: features are selected independently in every
 thread

---
 instancespace/stages/sifted.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 4038181..d8c733e 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -39,6 +39,7 @@ sifted(x, y, y_bin, x_raw, y_raw, beta, num_good_algos, y_best, p,
     and performance optimization using provided datasets and configuration options.
 """
 
+from threading import Lock
 from typing import NamedTuple
 
 import numpy as np
@@ -63,6 +64,9 @@ from instancespace.stages.stage import Stage
 from instancespace.utils.filter import do_filter
 
 
+_GA_LOCK = Lock()
+
+
 class NotEnoughFeatureError(Exception):
     """Raised when there is not enough feature to continue feature selection."""
 
@@ -654,7 +658,9 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         clust, _ = self.select_features_by_clustering(x_aux, rng)
 
-        x_aux, selvars = self._find_best_combination(x_aux, clust, selvars, rng)
+        # The genetic algorithm draws from the random state of the process
+        with _GA_LOCK:
+            x_aux, selvars = self._find_best_combination(x_aux, clust, selvars, rng)
 
         print(f"Bydensity value is : {bydensity}")
         # Run filter for small experiment
-- 
2.43.0


From 85a15ca2a54d79c1305ef3df557a074acff5743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 55/59] fix: probabilities do not depend on other threads

---
 instancespace/stages/pythia.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index add5d13..30812cb 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -37,9 +37,12 @@ Functions:
 - _generate_summary: Generate a summary of the results.
 """
 
+from collections.abc import Callable
 from dataclasses import dataclass
+from functools import wraps
+from threading import Lock
 from time import perf_counter
-from typing import NamedTuple
+from typing import NamedTuple, ParamSpec, TypeVar
 
 import numpy as np
 import pandas as pd
@@ -64,6 +67,23 @@ from instancespace.stages.stage import Stage
 
 LARGE_NUM_INSTANCE: int = 1000
 
+P = ParamSpec("P")
+T = TypeVar("T")
+
+# libsvm has one random number generator for the process, used for the probabilities
+_LIBSVM_LOCK = Lock()
+
+
+def _one_thread_at_a_time(train: Callable[P, T]) -> Callable[P, T]:
+    """Train without other threads training at the same time."""
+
+    @wraps(train)
+    def train_alone(*args: P.args, **kwargs: P.kwargs) -> T:
+        with _LIBSVM_LOCK:
+            return train(*args, **kwargs)
+
+    return train_alone
+
 
 @dataclass(frozen=True)
 class _SvmRes:
@@ -511,6 +531,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         )
 
     @staticmethod
+    @_one_thread_at_a_time
     def _fitmatsvm(
         z: NDArray[np.double],
         y_bin: NDArray[np.bool_],
-- 
2.43.0


From ad2ad95ecb8a055c9a5d16f13a4589f344cd6d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 56/59] fix: selecting features leaves the random state of the
 process as it was

---
 instancespace/stages/sifted.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index d8c733e..7cf2edb 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -39,6 +39,9 @@ sifted(x, y, y_bin, x_raw, y_raw, beta, num_good_algos, y_best, p,
     and performance optimization using provided datasets and configuration options.
 """
 
+import random
+from collections.abc import Iterator
+from contextlib import contextmanager
 from threading import Lock
 from typing import NamedTuple
 
@@ -67,6 +70,18 @@ from instancespace.utils.filter import do_filter
 _GA_LOCK = Lock()
 
 
+@contextmanager
+def _random_state_kept() -> Iterator[None]:
+    """Put the random state of the process back afterwards."""
+    state = random.getstate()
+    np_state = np.random.get_state(legacy=False)
+    try:
+        yield
+    finally:
+        random.setstate(state)
+        np.random.set_state(np_state)
+
+
 class NotEnoughFeatureError(Exception):
     """Raised when there is not enough feature to continue feature selection."""
 
@@ -659,7 +674,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         clust, _ = self.select_features_by_clustering(x_aux, rng)
 
         # The genetic algorithm draws from the random state of the process
-        with _GA_LOCK:
+        with _GA_LOCK, _random_state_kept():
             x_aux, selvars = self._find_best_combination(x_aux, clust, selvars, rng)
 
         print(f"Bydensity value is : {bydensity}")
-- 
2.43.0


From cbe8853980f99cb1f50cccf13439fe9239972bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 57/59] fix: a mat file that could not be saved is reported

---
 instancespace/_serialisers.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index b79859c..c10cf36 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -707,11 +707,8 @@ def save_instance_space_output_mat(
     data: Data,
 ) -> None:
     """Offline dashboard only use the algo labels from the data."""
-    try:
-        savemat(
-            output_directory / "model.mat",
-            {"data": {"algolabels": np.array(data.algo_labels, dtype=object)}},
-        )
-        print("saved data to mat file")
-    except Exception as e:
-        print(f"Error saving data to mat file: {e}")
+    savemat(
+        output_directory / "model.mat",
+        {"data": {"algolabels": np.array(data.algo_labels, dtype=object)}},
+    )
+    print("saved data to mat file")
-- 
2.43.0


From 7c20f8426853afda805f20bf34eeb4b9ca73bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 58/59] fix: a graph of binary performance that could not be
 saved is reported

---
 instancespace/_serialisers.py | 40 ++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index c10cf36..1ac6115 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -671,35 +671,31 @@ def _draw_binary_performance(
     title_label: str,
     output: Path,
 ) -> None:
-    try:
-        orange = (1.0, 0.6471, 0.0, 1.0)
-        blue = (0.0, 0.0, 1.0, 1.0)
-
-        # labels = ["GOOD", "BAD"]
+    orange = (1.0, 0.6471, 0.0, 1.0)
+    blue = (0.0, 0.0, 1.0, 1.0)
 
-        fig, ax2 = plt.subplots()
-        ax: Axes = ax2
-        fig.suptitle(title_label)
-        _set_limits(ax, z)
-        not_y_bin = y_bin == 0
-        good_y_bin = y_bin == 1
+    # labels = ["GOOD", "BAD"]
 
-        if np.any(not_y_bin):
-            ax.scatter(z[not_y_bin, 0], z[not_y_bin, 1], s=8, c=[orange], label="BAD")
+    fig, ax2 = plt.subplots()
+    ax: Axes = ax2
+    fig.suptitle(title_label)
+    _set_limits(ax, z)
+    not_y_bin = y_bin == 0
+    good_y_bin = y_bin == 1
 
-        if np.any(good_y_bin):
-            ax.scatter(z[good_y_bin, 0], z[good_y_bin, 1], s=8, c=[blue], label="GOOD")
+    if np.any(not_y_bin):
+        ax.scatter(z[not_y_bin, 0], z[not_y_bin, 1], s=8, c=[orange], label="BAD")
 
-        ax.set_xlabel("z_{1}")
-        ax.set_ylabel("z_{2}")
-        ax.legend()
+    if np.any(good_y_bin):
+        ax.scatter(z[good_y_bin, 0], z[good_y_bin, 1], s=8, c=[blue], label="GOOD")
 
-        fig.savefig(output)
+    ax.set_xlabel("z_{1}")
+    ax.set_ylabel("z_{2}")
+    ax.legend()
 
-        plt.close(fig)
+    fig.savefig(output)
 
-    except Exception:
-        print("No binary performance has been calculated")
+    plt.close(fig)
 
 
 def save_instance_space_output_mat(
-- 
2.43.0


From f46d7399bcbb6d7f35293c24d739384ff4ea559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 59/59] fix: graphs that could not be saved leave no figures
 open

---
 instancespace/_serialisers.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 1ac6115..ccbb2db 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from collections.abc import Iterator
+from contextlib import contextmanager
 from pathlib import Path
 from typing import Any
 
@@ -248,6 +250,19 @@ def save_instance_space_for_web(
     )
 
 
+@contextmanager
+def _unfinished_figures_closed() -> Iterator[None]:
+    """Close the figures of graphs that could not be drawn or saved."""
+    before = plt.get_fignums()
+    try:
+        yield
+    except BaseException:
+        for number in set(plt.get_fignums()).difference(before):
+            plt.close(number)
+        raise
+
+
+@_unfinished_figures_closed()
 def save_instance_space_graphs(
     output_directory: Path,
     data: Data,
-- 
2.43.0

