From 9967c28afda790d963a98b92e0a662908dcc146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:27 +0000
Subject: [PATCH 01/70] fix: preserve int, bool and str values when
 TaskMetadata is validated

The null-to-NaN before-validator converted every value it could to float, so
deserialized metadata turned integers, booleans and numeric strings into
floats.
---
 python/lsst/pipe/base/_task_metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index da201ac..a14536a 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -124,10 +124,12 @@ class GetSetDictMetadata(SetDictMetadata, GetDictMetadata, Protocol):
 # constant "inf" or "nan", since the Pydantic model_config ser_json_inf_nan
 # doesn't automatically get picked up by parent models. This before-validator
 # turns those nulls back into NaNs, making the metadata readable again.
-def _convert_null_to_nan(value: Any) -> float:
+# Everything else is passed through unchanged, since converting it here would
+# turn integers, booleans, and numeric strings into floats.
+def _convert_null_to_nan(value: Any) -> Any:
     if value is None:
         return float("nan")
-    return float(value)
+    return value
 
 
 type _NullToNanFloat = Annotated[StrictFloat, BeforeValidator(_convert_null_to_nan)]
-- 
2.43.0


From 506a4bfa04b134c2716942f8bc383ad6237ae1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:42 +0000
Subject: [PATCH 02/70] fix: make TaskMetadata updates atomic and its dict
 views copies

add() failed with IndexError when an empty list was involved, a rejected add()
or hierarchical assignment still changed the object (leaving a key in two
slots), and get_dict() shared lists with the object it promised to copy.
---
 python/lsst/pipe/base/_task_metadata.py | 32 +++++++++++++------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index a14536a..810b6a2 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -232,7 +232,8 @@ class TaskMetadata(BaseModel):
         """
         d: dict[str, Any] = {}
         d.update(self.scalars)
-        d.update(self.arrays)
+        for k, array in self.arrays.items():
+            d[k] = list(array)
         for k, v in self.metadata.items():
             d[k] = v.to_dict()
         return d
@@ -264,19 +265,19 @@ class TaskMetadata(BaseModel):
                 raise ValueError(f"Can not add() to key '{name}' since that is a TaskMetadata")
 
             if key0 in self.scalars:
-                # Convert scalar to array.
-                # MyPy should be able to figure out that List[Union[T1, T2]] is
-                # compatible with  Union[List[T1], List[T2]] if the list has
-                # only one element, but it can't.
-                self.arrays[key0] = [self.scalars.pop(key0)]  # type: ignore
+                current = [self.scalars[key0]]
+            else:
+                current = self.arrays.get(key0, [])  # type: ignore
 
-            if key0 in self.arrays:
-                # Check that the type is not changing.
-                if (curtype := type(self.arrays[key0][0])) is not (newtype := type(value[0])):
+            # Check that the type is not changing (empty lists match anything).
+            if current and value:
+                if (curtype := type(current[0])) is not (newtype := type(value[0])):
                     raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
-                self.arrays[key0].extend(value)
-            else:
-                self.arrays[key0] = value
+
+            # Convert scalar to array if needed, and append.
+            self.scalars.pop(key0, None)
+            self.arrays[key0] = current  # type: ignore
+            current.extend(value)
 
             return
 
@@ -520,9 +521,10 @@ class TaskMetadata(BaseModel):
             return
 
         # This must be hierarchical so forward to the child TaskMetadata.
-        if key0 not in self.metadata:
-            self.metadata[key0] = TaskMetadata()
-        self.metadata[key0][".".join(keys)] = item
+        # Do not modify anything here until the item is known to be valid.
+        nested = self.metadata[key0] if key0 in self.metadata else TaskMetadata()
+        nested[".".join(keys)] = item
+        self.metadata[key0] = nested
 
         # Ensure we have cleared out anything with the same name elsewhere.
         self.scalars.pop(key0, None)
-- 
2.43.0


From ece7f06a845a7f786d69a5adcb6b001e69aec766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:48 +0000
Subject: [PATCH 03/70] fix: find the first row of an address page adjacent to
 the previous page

The page bound is one past the last UUID, so an ID equal to it is on a later
page; the binary search reported it as missing.
---
 python/lsst/pipe/base/quantum_graph/_multiblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index c66501f..acd8dab 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -538,7 +538,7 @@ class AddressReader:
             bounds = self.page_bounds[mid]
             if key.int < bounds.uuid_int_begin:
                 right = mid - 1
-            elif key.int > bounds.uuid_int_end:
+            elif key.int >= bounds.uuid_int_end:
                 left = mid + 1
             else:
                 # Should have been on this page, but it wasn't.
-- 
2.43.0


From 4912646ee1f23f15f5a52dce1b68575c240218d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:55 +0000
Subject: [PATCH 04/70] fix: do not yield graph nodes that were finished before
 their predecessors

GraphWalker.finish may be called before a node has been yielded; finishing a
predecessor afterwards made the walker yield the already-finished node.
---
 python/lsst/pipe/base/graph_walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph_walker.py b/python/lsst/pipe/base/graph_walker.py
index d73a297..1d0bf2d 100644
--- a/python/lsst/pipe/base/graph_walker.py
+++ b/python/lsst/pipe/base/graph_walker.py
@@ -90,7 +90,7 @@ class GraphWalker[T]:
             assert successor not in self._active, (
                 "A node downstream of an active one should not have been yielded yet."
             )
-            if all(
+            if successor in self._incomplete and all(
                 predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
             ):
                 self._ready.add(successor)
-- 
2.43.0


From 9da0e8eb1b86803aba7172075ae9eb9193849b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:48 +0000
Subject: [PATCH 05/70] fix: write and compare the steps section of pipelines

---
 python/lsst/pipe/base/pipelineIR.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 76cc9ce..0b22a64 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -578,6 +578,10 @@ class StepIR:
     dimensions: list[str]
     """The dimensions to use when sharding this step."""
 
+    def to_primitives(self) -> dict[str, Any]:
+        """Convert to a representation used in yaml serialization."""
+        return {"label": self.label, "dimensions": self.dimensions}
+
 
 class PipelineIR:
     """Intermediate representation of a pipeline definition.
@@ -1098,6 +1102,8 @@ class PipelineIR:
             accumulate["contracts"] = contracts_list
         if self.labeled_subsets:
             accumulate["subsets"] = {k: v.to_primitives() for k, v in self.labeled_subsets.items()}
+        if self.steps:
+            accumulate["steps"] = [s.to_primitives() for s in self.steps]
         return accumulate
 
     def __str__(self) -> str:
@@ -1116,7 +1122,7 @@ class PipelineIR:
         return (
             all(
                 getattr(self, attr) == getattr(other, attr)
-                for attr in ("tasks", "instrument", "labeled_subsets", "parameters")
+                for attr in ("tasks", "instrument", "labeled_subsets", "parameters", "steps")
             )
             and len(self.contracts) == len(other.contracts)
             and all(c in self.contracts for c in other.contracts)
-- 
2.43.0


From 473aef13e69351639e847c32d44818e4c6c6e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:28 +0000
Subject: [PATCH 06/70] fix: apply import renames and subset selections to
 every mention of a label

---
 python/lsst/pipe/base/pipelineIR.py | 104 +++++++++++++++++-----------
 1 file changed, 63 insertions(+), 41 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 0b22a64..166935f 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -45,7 +45,7 @@ import warnings
 from collections import Counter
 from collections.abc import Generator, Hashable, Iterable, MutableMapping
 from dataclasses import dataclass, field
-from typing import Any, Literal, cast
+from typing import Any, Literal
 
 import yaml
 
@@ -506,48 +506,24 @@ class ImportIR:
         if self.instrument is not _Tags.KeepInstrument:
             tmp_pipeline.instrument = self.instrument
 
-        included_labels = set()
-        renamed_tasks = {}
-        for label in tmp_pipeline.tasks:
-            is_included = self.include and label in self.include
-            if (
-                is_included
-                or (self.exclude and label not in self.exclude)
-                or (self.include is None and self.exclude is None)
-            ):
-                if (label_new := self.rename.get(label)) is not None:
-                    renamed_tasks[label] = label_new
-                    if is_included:
-                        self.include = [
-                            label_new if (x == label) else label for x in cast(list[str], self.include)
-                        ]
-                else:
-                    label_new = label
-                included_labels.add(label_new)
-
-        rename_errors = []
-        for label, label_new in renamed_tasks.items():
-            if label_new in tmp_pipeline.tasks:
-                rename_errors.append(f"Can't rename {label=} to existing {label_new=}")
-            else:
-                task = tmp_pipeline.tasks.pop(label)
-                task.label = label_new
-                tmp_pipeline.tasks[label_new] = task
-
-        if rename_errors:
-            raise ValueError("; ".join(rename_errors))
-
-        # Handle labeled subsets being specified in the include or exclude
-        # list, adding or removing labels.
+        # Labeled subsets in the include or exclude list stand for the labels
+        # they contain.
+        included_labels = set(tmp_pipeline.tasks)
         if self.include is not None:
-            subsets_in_include = tmp_pipeline.labeled_subsets.keys() & self.include
-            for label in subsets_in_include:
-                included_labels.update(tmp_pipeline.labeled_subsets[label].subset)
-
+            included_labels &= tmp_pipeline._expand_subset_labels(self.include)
         elif self.exclude is not None:
-            subsets_in_exclude = tmp_pipeline.labeled_subsets.keys() & self.exclude
-            for label in subsets_in_exclude:
-                included_labels.difference_update(tmp_pipeline.labeled_subsets[label].subset)
+            included_labels -= tmp_pipeline._expand_subset_labels(self.exclude)
+
+        renamed_tasks = {
+            label: label_new for label, label_new in self.rename.items() if label in included_labels
+        }
+        rename_errors = [
+            f"Can't rename {label=} to existing {label_new=}"
+            for label, label_new in renamed_tasks.items()
+            if label_new in tmp_pipeline.tasks
+        ]
+        if rename_errors:
+            raise ValueError("; ".join(rename_errors))
 
         if not self.importSteps:
             tmp_pipeline.steps = []
@@ -557,6 +533,9 @@ class ImportIR:
         if not self.importContracts:
             tmp_pipeline.contracts = []
 
+        for label, label_new in renamed_tasks.items():
+            tmp_pipeline._rename_task(label, label_new)
+
         return tmp_pipeline
 
     def __eq__(self, other: object) -> bool:
@@ -925,6 +904,49 @@ class PipelineIR:
                     )
             self.tasks[label] = TaskIR(label, definition["class"], task_config_ir)
 
+    def _expand_subset_labels(self, labels: Iterable[str]) -> set[str]:
+        """Replace the names of labeled subsets with the labels they contain.
+
+        Parameters
+        ----------
+        labels : `~collections.abc.Iterable` [ `str` ]
+            Labels of tasks or labeled subsets.
+
+        Returns
+        -------
+        expanded : `set` [ `str` ]
+            Labels of tasks only.
+        """
+        expanded: set[str] = set()
+        for label in labels:
+            if (labeled_subset := self.labeled_subsets.get(label)) is not None:
+                expanded.update(labeled_subset.subset)
+            else:
+                expanded.add(label)
+        return expanded
+
+    def _rename_task(self, label: str, label_new: str) -> None:
+        """Rename a task, everywhere its label is used.
+
+        Parameters
+        ----------
+        label : `str`
+            Current label of the task.
+        label_new : `str`
+            New label of the task.
+        """
+        task = self.tasks.pop(label)
+        task.label = label_new
+        self.tasks[label_new] = task
+        for labeled_subset in self.labeled_subsets.values():
+            if label in labeled_subset.subset:
+                labeled_subset.subset.remove(label)
+                labeled_subset.subset.add(label_new)
+        for contract in self.contracts:
+            contract.contract = re.sub(
+                rf"(?<![A-Za-z0-9_.]){re.escape(label)}(?=[.])", label_new, contract.contract
+            )
+
     def _remove_contracts(self, label: str) -> None:
         """Remove any contracts that contain the given label
 
-- 
2.43.0


From dc9fdbf449ec8469318f7e82214465323fec3d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:28 +0000
Subject: [PATCH 07/70] fix: find the removed task in contracts that span
 several lines

---
 python/lsst/pipe/base/pipelineIR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 166935f..77e6ca6 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -958,7 +958,7 @@ class PipelineIR:
         for contract in self.contracts:
             # match a label that is not preceded by an ASCII identifier, or
             # is the start of a line and is followed by a dot
-            if re.match(f".*([^A-Za-z0-9_]|^){label}[.]", contract.contract):
+            if re.search(rf"(?<![A-Za-z0-9_]){re.escape(label)}[.]", contract.contract):
                 continue
             new_contracts.append(contract)
         self.contracts = new_contracts
-- 
2.43.0


From 777df5e931394168e3c230b149d1baa8a5f781d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:51 +0000
Subject: [PATCH 08/70] fix: do not change the label set passed to
 subset_from_labels

---
 python/lsst/pipe/base/pipelineIR.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 77e6ca6..495f67b 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -1001,14 +1001,7 @@ class PipelineIR:
         pipeline = copy.deepcopy(self)
 
         # update the label specifier to expand any named subsets
-        toRemove = set()
-        toAdd = set()
-        for label in labelSpecifier:
-            if label in pipeline.labeled_subsets:
-                toRemove.add(label)
-                toAdd.update(pipeline.labeled_subsets[label].subset)
-        labelSpecifier.difference_update(toRemove)
-        labelSpecifier.update(toAdd)
+        labelSpecifier = pipeline._expand_subset_labels(labelSpecifier)
         # verify all the labels are in the pipeline
         if not labelSpecifier.issubset(pipeline.tasks.keys() | pipeline.labeled_subsets):
             difference = labelSpecifier.difference(pipeline.tasks.keys())
-- 
2.43.0


From 9cea6d0c47601cdd7d2ce7eae0a401f0201ae8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:51 +0000
Subject: [PATCH 09/70] fix: keep labeled subsets and steps consistent when a
 Pipeline is edited

---
 python/lsst/pipe/base/pipeline.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline.py b/python/lsst/pipe/base/pipeline.py
index 6417e6b..70ee1bc 100644
--- a/python/lsst/pipe/base/pipeline.py
+++ b/python/lsst/pipe/base/pipeline.py
@@ -633,9 +633,13 @@ class Pipeline:
         """
         if label in self._pipelineIR.labeled_subsets.keys():
             raise ValueError(f"Subset label {label} is already found within the Pipeline")
+        if label in self._pipelineIR.tasks:
+            raise ValueError(f"Subset label {label} is already the label of a task within the Pipeline")
         if extra := (taskLabels - self._pipelineIR.tasks.keys()):
             raise ValueError(f"Task labels {extra} were not found within the Pipeline")
-        self._pipelineIR.labeled_subsets[label] = pipelineIR.LabeledSubset(label, taskLabels, description)
+        self._pipelineIR.labeled_subsets[label] = pipelineIR.LabeledSubset(
+            label, set(taskLabels), description
+        )
 
     def removeLabeledSubset(self, label: str) -> None:
         """Remove a labeled subset from the `Pipeline`.
@@ -653,6 +657,7 @@ class Pipeline:
         if label not in self._pipelineIR.labeled_subsets.keys():
             raise ValueError(f"Subset label {label} was not found in the pipeline")
         self._pipelineIR.labeled_subsets.pop(label)
+        self._pipelineIR.steps = [step for step in self._pipelineIR.steps if step.label != label]
 
     def addInstrument(self, instrument: Instrument | str) -> None:
         """Add an instrument to the pipeline, or replace an instrument that is
@@ -734,6 +739,8 @@ class Pipeline:
             if isinstance(task, str):
                 task_class = cast(PipelineTask, doImportType(task))
                 label = task_class._DefaultName
+        if label in self._pipelineIR.labeled_subsets:
+            raise ValueError(f"Task label {label} is already the label of a subset within the Pipeline")
         self._pipelineIR.tasks[label] = pipelineIR.TaskIR(label, taskName)
 
     def removeTask(self, label: str) -> None:
-- 
2.43.0


From 0de475362cea7fe1272257e255c624715524eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:51 +0000
Subject: [PATCH 10/70] fix: merge pipelines without sharing state and only if
 the result is valid

---
 python/lsst/pipe/base/pipeline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline.py b/python/lsst/pipe/base/pipeline.py
index 70ee1bc..54deb94 100644
--- a/python/lsst/pipe/base/pipeline.py
+++ b/python/lsst/pipe/base/pipeline.py
@@ -514,7 +514,13 @@ class Pipeline:
         pipeline : `Pipeline`
             The `Pipeline` object that is to be merged into this object.
         """
-        self._pipelineIR.merge_pipelines((pipeline._pipelineIR,))
+        # Work on copies, so nothing is shared with the other pipeline, and this
+        # one does not change if they cannot be merged.
+        merged = copy.deepcopy(self._pipelineIR)
+        merged.merge_pipelines((copy.deepcopy(pipeline._pipelineIR),))
+        merged._verify_labeled_subsets()
+        merged._verify_steps()
+        self._pipelineIR = merged
 
     def addLabelToSubset(self, subset: str, label: str) -> None:
         """Add a task label from the specified subset.
-- 
2.43.0


From 23cb26032a27e7b7cab70b83fb8a5c820f5e6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:20 +0000
Subject: [PATCH 11/70] fix: export the is_init state of pipeline graph edges
 as a value

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index e893982..1a569a6 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -259,7 +259,7 @@ class Edge(ABC):
             "connection_name": self.connection_name,
             "parent_dataset_type_name": self.parent_dataset_type_name,
             "storage_class_name": self.storage_class_name,
-            "is_init": bool,
+            "is_init": self.is_init,
         }
 
     @classmethod
-- 
2.43.0


From d21a7694f7bbdf9df5e566d73b0cece264b91e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 12/70] fix: take init inputs and outputs into account when
 checking the order of steps

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 1222a8b..61255fb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2400,11 +2400,11 @@ class PipelineGraph:
             # graph keys for the step so we can make and sort a step sub-graph.
             new_step_keys: set[NodeKey] = set()
             for task_label in task_subset:
-                for input_name in self.inputs_of(task_label):
+                for input_name in {**self.inputs_of(task_label), **self.inputs_of(task_label, init=True)}:
                     step_inputs.setdefault(input_name, set()).add(task_label)
                 # Check that none of the outputs of the tasks in this step were
                 # expected as inputs of a previous step's tasks.
-                task_outputs = self.outputs_of(task_label)
+                task_outputs = {**self.outputs_of(task_label), **self.outputs_of(task_label, init=True)}
                 if not inputs_so_far.keys().isdisjoint(task_outputs.keys()):
                     msg: list[str] = []
                     for input_name in inputs_so_far.keys() & task_outputs.keys():
-- 
2.43.0


From f96b3f2cdded0040b198fccd236f1d4cd7253f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 13/70] fix: resolve dataset type nodes from the edges of the
 graph they are in

---
 .../pipe/base/pipeline_graph/_dataset_types.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
index 72f2ead..fd32984 100644
--- a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
+++ b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
@@ -128,12 +128,6 @@ class DatasetTypeNode:
         """
         dataset_type = get_registered(key.name) if get_registered is not None else None
         is_registered = dataset_type is not None
-        if previous is not None and previous.dataset_type == dataset_type:
-            # This node was already resolved (with exactly the same edges
-            # contributing, since we clear resolutions when edges are added or
-            # removed).  The only thing that might have changed was the
-            # definition in the registry, and it didn't.
-            return previous
         is_initial_query_constraint = True
         is_prerequisite: bool | None = None
         producer: str | None = None
@@ -177,6 +171,18 @@ class DatasetTypeNode:
             consumers.append(consuming_edge.task_label)
         assert dataset_type is not None, "Graph structure guarantees at least one edge."
         assert is_prerequisite is not None, "Having at least one edge guarantees is_prerequisite is known."
+        if (
+            previous is not None
+            and previous.dataset_type == dataset_type
+            and previous.is_initial_query_constraint == is_initial_query_constraint
+            and previous.is_prerequisite == is_prerequisite
+            and previous.producing_edge is producing_edge
+            and list(previous.consuming_edges) == consuming_edges
+        ):
+            # Nothing has changed since this node was last resolved.  We can't
+            # assume this just because the registry definition is the same: a
+            # node copied from a parent graph may have had other edges there.
+            return previous
         return DatasetTypeNode(
             dataset_type=dataset_type,
             is_initial_query_constraint=is_initial_query_constraint,
-- 
2.43.0


From e74e257363e112ff72580d7b61dccab5c73fd632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 14/70] fix: resolve 'skypix' placeholders independently of the
 order of tasks

---
 .../lsst/pipe/base/pipeline_graph/_dataset_types.py   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
index fd32984..331af4a 100644
--- a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
+++ b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
@@ -155,8 +155,15 @@ class DatasetTypeNode:
         consuming_edges = list(
             consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
         )
-        # Put edges that are not component datasets before any edges that are.
-        consuming_edges.sort(key=lambda consuming_edge: consuming_edge.component is not None)
+        # Put edges that are not component datasets before any edges that are,
+        # and those that know their dimensions before those with the 'skypix'
+        # placeholder.
+        consuming_edges.sort(
+            key=lambda consuming_edge: (
+                consuming_edge.component is not None,
+                "skypix" in consuming_edge.raw_dimensions,
+            )
+        )
         for consuming_edge in consuming_edges:
             dataset_type, is_initial_query_constraint, is_prerequisite = consuming_edge._resolve_dataset_type(
                 current=dataset_type,
-- 
2.43.0


From 39f5939bd8929112f6f95ffdac990162797fc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:35 +0000
Subject: [PATCH 15/70] fix: detect duplicate producers in
 PipelineGraph.producing_edge_of

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 61255fb..f37c290 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -400,6 +400,7 @@ class PipelineGraph:
                     f"Dataset type {dataset_type_name!r} is produced by both {producing_edge.task_label!r} "
                     f"and {producer!r}."
                 )
+            producer = producing_edge.task_label
         return producing_edge
 
     def consuming_edges_of(self, dataset_type_name: str) -> list[ReadEdge]:
-- 
2.43.0


From 9338ff365c69a51ec0b0cea1d62ff06fdbb82113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:49 +0000
Subject: [PATCH 16/70] fix: leave the pipeline graph unchanged when tasks
 cannot be added, and reject labels in use

---
 .../base/pipeline_graph/_pipeline_graph.py    | 58 ++++++++-----------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index f37c290..27f5ee7 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -801,6 +801,8 @@ class PipelineGraph:
 
         Raises
         ------
+        PipelineGraphError
+            Raised if a task label is already in use.
         PipelineDataCycleError
             Raised if the graph is cyclic after this addition.
 
@@ -817,7 +819,11 @@ class PipelineGraph:
         """
         node_data: list[tuple[NodeKey, dict[str, Any]]] = []
         edge_data: list[tuple[NodeKey, NodeKey, str, dict[str, Any]]] = []
+        new_labels: set[str] = set()
         for task_node in nodes:
+            if task_node.key in self._xgraph or task_node.label in new_labels:
+                raise PipelineGraphError(f"Task label {task_node.label!r} is already in use.")
+            new_labels.add(task_node.label)
             task_node = task_node._resolved(self._universe)
             node_data.append(
                 (task_node.key, {"instance": task_node, "bipartite": task_node.key.node_type.bipartite})
@@ -842,30 +848,19 @@ class PipelineGraph:
             edge_data.append((task_node.init.key, task_node.key, Edge.INIT_TO_TASK_NAME, {"instance": None}))
         if not node_data and not edge_data:
             return
+        # Look for cycles in a copy, so a failure leaves this graph unchanged.
+        new_xgraph = self._xgraph.copy()
+        new_xgraph.add_nodes_from(node_data)
+        new_xgraph.add_edges_from(edge_data)
+        if not networkx.algorithms.dag.is_directed_acyclic_graph(new_xgraph):
+            cycle = networkx.find_cycle(new_xgraph)
+            raise PipelineDataCycleError(f"Cycle detected while adding tasks: {cycle}.")
         # Checks and preparation complete; time to start the actual
         # modification, during which it's hard to provide strong exception
         # safety.  Start by resetting the sort ordering, if there is one.
         self._reset()
-        try:
-            self._xgraph.add_nodes_from(node_data)
-            self._xgraph.add_edges_from(edge_data)
-            if not networkx.algorithms.dag.is_directed_acyclic_graph(self._xgraph):
-                cycle = networkx.find_cycle(self._xgraph)
-                raise PipelineDataCycleError(f"Cycle detected while adding tasks: {cycle}.")
-        except Exception:
-            # First try to roll back our changes.
-            try:
-                self._xgraph.remove_edges_from(edge_data)
-                self._xgraph.remove_nodes_from(key for key, _ in node_data)
-            except Exception as err:  # pragma: no cover
-                # There's no known way to get here, but we want to make it
-                # clear it's a big problem if we do.
-                raise PipelineGraphExceptionSafetyError(
-                    "Error while attempting to revert PipelineGraph modification has left the graph in "
-                    "an inconsistent state."
-                ) from err
-            # Successfully rolled back; raise the original exception.
-            raise
+        self._xgraph.add_nodes_from(node_data)
+        self._xgraph.add_edges_from(edge_data)
 
     def reconfigure_tasks(
         self,
@@ -2314,8 +2309,8 @@ class PipelineGraph:
         Parameters
         ----------
         node_data : `list`
-            List of node keys and state dictionaries.  A node is appended if
-            one does not already exist for this dataset type.
+            List of node keys and state dictionaries, to which the node for
+            this dataset type is appended.
         edge_data : `list`
             List of node key pairs, connection names, and state dictionaries
             for edges.
@@ -2328,18 +2323,15 @@ class PipelineGraph:
         new_dataset_type_node = None
         if parent is not None:
             new_dataset_type_node = parent._xgraph.nodes[edge.dataset_type_key].get("instance")
-        if (existing_dataset_type_state := self._xgraph.nodes.get(edge.dataset_type_key)) is not None:
-            existing_dataset_type_state["instance"] = new_dataset_type_node
-        else:
-            node_data.append(
-                (
-                    edge.dataset_type_key,
-                    {
-                        "instance": new_dataset_type_node,
-                        "bipartite": NodeType.DATASET_TYPE.bipartite,
-                    },
-                )
+        node_data.append(
+            (
+                edge.dataset_type_key,
+                {
+                    "instance": new_dataset_type_node,
+                    "bipartite": NodeType.DATASET_TYPE.bipartite,
+                },
             )
+        )
         edge_data.append(
             edge.nodes
             + (
-- 
2.43.0


From e6593f46b2ebea9876222e386b893ad4b53cef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 17/70] fix: check the members of new task subsets, and remove
 subsets atomically

---
 .../base/pipeline_graph/_pipeline_graph.py    | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 27f5ee7..e483582 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1030,9 +1030,21 @@ class PipelineGraph:
             included in the graph.
         description : `str`, optional
             String description to associate with this label.
+
+        Raises
+        ------
+        PipelineGraphError
+            Raised if a label does not correspond to a task in the graph.
         """
-        subset = TaskSubset(self._xgraph, subset_label, set(task_labels), description, self._step_definitions)
-        self._task_subsets[subset_label] = subset
+        members = set(task_labels)
+        if not members <= self.tasks.keys():
+            raise PipelineGraphError(
+                f"Subset {subset_label!r} has members that are not tasks in the pipeline: "
+                f"{members - self.tasks.keys()}."
+            )
+        subset = TaskSubset(self._xgraph, subset_label, members, description, self._step_definitions)
+        with self._step_definitions._unverified_on_success():
+            self._task_subsets[subset_label] = subset
 
     def remove_task_subset(self, subset_label: str) -> None:
         """Remove a labeled set of tasks.
@@ -1046,11 +1058,9 @@ class PipelineGraph:
         -----
         If this subset is a step, it is also removed from the step definitions.
         """
-        try:
-            self._step_definitions.remove(subset_label)
-        except KeyError:
-            pass
         del self._task_subsets[subset_label]
+        if subset_label in self._step_definitions:
+            self._step_definitions.remove(subset_label)
 
     ###########################################################################
     #
-- 
2.43.0


From 4eab3f44cfa28c58aa87450d0ff641a04284e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 18/70] fix: compare init-inputs when looking for changed edges

---
 python/lsst/pipe/base/pipeline_graph/_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_tasks.py b/python/lsst/pipe/base/pipeline_graph/_tasks.py
index 0428300..4175ecb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_tasks.py
+++ b/python/lsst/pipe/base/pipeline_graph/_tasks.py
@@ -430,7 +430,7 @@ class TaskInitNode:
             ``other``.
         """
         result = []
-        result += _diff_edge_mapping(self.inputs, self.inputs, self.label, "init input")
+        result += _diff_edge_mapping(self.inputs, other.inputs, self.label, "init input")
         result += _diff_edge_mapping(self.outputs, other.outputs, self.label, "init output")
         result += self.config_output.diff(other.config_output, "config init output")
         return result
-- 
2.43.0


From fb84ee8fa5b346231fa9e015d6d41cb4181e8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 19/70] fix: leave the pipeline graph unchanged when
 reconfiguring tasks would make it cyclic

---
 .../pipe/base/pipeline_graph/_pipeline_graph.py  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index e483582..24de58c 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -902,6 +902,8 @@ class PipelineGraph:
         EdgesChangedError
             Raised if ``check_edges_unchanged=True`` and the edges of a task do
             change.
+        PipelineDataCycleError
+            Raised if the graph would be cyclic with the new configuration.
 
         Notes
         -----
@@ -2287,6 +2289,20 @@ class PipelineGraph:
                         deep[task_label] = new_task_node
                 else:
                     shallow[task_label] = new_task_node
+        if deep:
+            # Look for cycles in a copy, so a failure leaves this graph
+            # unchanged.
+            new_xgraph = self._xgraph.copy()
+            for task_node in deep.values():
+                new_xgraph.remove_nodes_from([task_node.key, task_node.init.key])
+            for task_node in deep.values():
+                new_xgraph.add_edge(task_node.init.key, task_node.key)
+                for node in (task_node.init, task_node):
+                    new_xgraph.add_edges_from(edge.nodes for edge in node.iter_all_inputs())
+                    new_xgraph.add_edges_from(edge.nodes for edge in node.iter_all_outputs())
+            if not networkx.algorithms.dag.is_directed_acyclic_graph(new_xgraph):
+                cycle = networkx.find_cycle(new_xgraph)
+                raise PipelineDataCycleError(f"Cycle detected while replacing tasks: {cycle}.")
         try:
             if deep:
                 removed = self.remove_tasks(deep.keys(), drop_from_subsets=True)
-- 
2.43.0


From 669f6995bd3a3250b2b0158778f45df3091bddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:26 +0000
Subject: [PATCH 20/70] fix: restore the consuming edges of dataset types when
 reading a pipeline graph

---
 python/lsst/pipe/base/pipeline_graph/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 06b87db..6cb1145 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -570,7 +570,7 @@ class SerializedDatasetTypeNode(pydantic.BaseModel):
                     )
                 producer = producing_edge.task_label
             consuming_edges = tuple(
-                consuming_edge for _, _, consuming_edge in xgraph.in_edges(key, data="instance")
+                consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
             )
             return DatasetTypeNode(
                 dataset_type=dataset_type,
-- 
2.43.0


From 35f7935d412426a9796b268ee0f218aa09992474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 21/70] fix: restore the step of each task when reading a
 pipeline graph

---
 python/lsst/pipe/base/pipeline_graph/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 6cb1145..6d0f6da 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -816,6 +816,11 @@ class SerializedPipelineGraph(pydantic.BaseModel):
             dimensions_by_label=dict.fromkeys(self.step_labels, frozenset()),
             verified=self.steps_verified,
         )
+        if self.steps_verified:
+            for step_label in self.step_labels:
+                for task_label in self.task_subsets[step_label].tasks:
+                    xgraph.nodes[NodeKey(NodeType.TASK_INIT, task_label)]["step"] = step_label
+                    xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"] = step_label
         result = PipelineGraph.__new__(PipelineGraph)
         result._init_from_args(
             xgraph,
-- 
2.43.0


From 03bdba81b622bfab5c3c53b69508efe32385c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 22/70] fix: keep the dimension universe of a pipeline graph
 whose step dimensions are invalid

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 24de58c..b2f3e50 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -686,6 +686,9 @@ class PipelineGraph:
                 "Error during dataset type resolution has left the graph in an inconsistent state."
             ) from err
 
+        # The nodes now refer to this universe, whatever happens below.
+        self._universe = dimensions
+
         # If we get an error here, many graph nodes will have been resolved but
         # the steps will still be marked as unverified and unsorted.  That's
         # still an acceptable state for the pipeline to be in.
@@ -696,7 +699,6 @@ class PipelineGraph:
             self._reorder(sort_keys_from_steps)
         else:
             self.sort()
-        self._universe = dimensions
 
     ###########################################################################
     #
-- 
2.43.0


From f89ac181ff2a9d3fe036cb48239b7c4773490f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:36 +0000
Subject: [PATCH 23/70] fix: look up the step of a task in the step definitions

Node attributes are not restored when a pipeline graph is read, so get_task_step failed on graphs that
were read back.  This replaces the previous fix of this, which an existing test rejects.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 5 ++++-
 python/lsst/pipe/base/pipeline_graph/io.py              | 5 -----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index b2f3e50..aa071f0 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -241,7 +241,10 @@ class PipelineGraph:
         if not self._step_definitions:
             raise InvalidStepsError("No steps have been defined for this pipeline.")
         elif self._step_definitions.verified:
-            return self._xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"]
+            for step_label in self._step_definitions:
+                if task_label in self._task_subsets[step_label]:
+                    return step_label
+            raise KeyError(task_label)
         raise UnresolvedGraphError("Steps have not been verified since the last modification.")
 
     @property
diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 6d0f6da..6cb1145 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -816,11 +816,6 @@ class SerializedPipelineGraph(pydantic.BaseModel):
             dimensions_by_label=dict.fromkeys(self.step_labels, frozenset()),
             verified=self.steps_verified,
         )
-        if self.steps_verified:
-            for step_label in self.step_labels:
-                for task_label in self.task_subsets[step_label].tasks:
-                    xgraph.nodes[NodeKey(NodeType.TASK_INIT, task_label)]["step"] = step_label
-                    xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"] = step_label
         result = PipelineGraph.__new__(PipelineGraph)
         result._init_from_args(
             xgraph,
-- 
2.43.0


From b47a90586025497e219c1d572cddf0907590906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:00 +0000
Subject: [PATCH 24/70] fix: use temporal bounds connections when looking up
 calibrations

---
 python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
index 4ab15bd..aba19ca 100644
--- a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
+++ b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
@@ -395,7 +395,7 @@ class AllDimensionsQuantumGraphBuilder(QuantumGraphBuilder):
                                 )
                                 continue
                         if finder.dataset_has_timespan:
-                            if task_prerequisite_info.bounds.spatial_connections:
+                            if task_prerequisite_info.bounds.temporal_connections:
                                 self.log.verbose(
                                     "Deferring prerequisite input %r of task %r to per-quantum processing "
                                     "(for temporal-bounds-connections handling).",
-- 
2.43.0


From 0ea7b77295ac2cfc053e325cd6fce7fbbe45bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:42 +0000
Subject: [PATCH 25/70] fix: do not generate quanta whose outputs were all
 removed by adjustQuantum

---
 python/lsst/pipe/base/quantum_graph_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index 88b792f..a6fa2c2 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -712,8 +712,10 @@ class QuantumGraphBuilder(ABC):
                 no_work_quanta.append(quantum_key)
                 continue
             if helper.outputs_adjusted:
-                if not any(adjusted_refs for adjusted_refs in helper.outputs.values()):
-                    # No outputs also means we don't generate this quantum.
+                if not any(helper.outputs[edge.dataset_type_name] for edge in task_node.outputs.values()):
+                    # No outputs (other than the metadata and log datasets,
+                    # which adjustQuantum never sees) also means we don't
+                    # generate this quantum.
                     self.log.debug(
                         "No outputs predicted for quantum %s of task %s.",
                         quantum_key.data_id_values,
-- 
2.43.0


From 65fa0e3404af49c46ae375c54253ccbd4877d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:50 +0000
Subject: [PATCH 26/70] fix: allow adjustQuantum to remove the dataset of a
 single-valued output

---
 python/lsst/pipe/base/connections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/connections.py b/python/lsst/pipe/base/connections.py
index 348232b..9faf00a 100644
--- a/python/lsst/pipe/base/connections.py
+++ b/python/lsst/pipe/base/connections.py
@@ -821,7 +821,9 @@ class PipelineTaskConnections(metaclass=PipelineTaskConnectionsMetaclass):
             # Unpack arguments that are not marked multiples (list of
             # length one)
             if not attribute.multiple:
-                setattr(outputDatasetRefs, attributeName, value[0])
+                # The dataset may have been removed by adjustQuantum.
+                if value:
+                    setattr(outputDatasetRefs, attributeName, value[0])
             else:
                 setattr(outputDatasetRefs, attributeName, value)
 
-- 
2.43.0


From acf04b0b6ef8918daa1d69e632040a4e373a9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:21 +0000
Subject: [PATCH 27/70] fix: report the original exception when a task cannot
 be constructed

---
 python/lsst/pipe/base/single_quantum_executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index cdec3e9..c86c4fe 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -304,10 +304,11 @@ class SingleQuantumExecutor(QuantumExecutor):
                 task_node.label,
                 quantum.dataId,
             )
+            task: PipelineTask | None = None
+            outputs_put: list[uuid.UUID] = []
             try:
                 task = self._task_factory.makeTask(task_node, limited_butler, init_input_refs)
                 logInfo(None, "start", metadata=quantumMetadata)  # type: ignore[arg-type]
-                outputs_put: list[uuid.UUID] = []
                 with limited_butler.record_metrics() as butler_metrics, GcMetrics() as gc_metrics:
                     caveats = self._run_quantum(
                         task, quantum, task_node, limited_butler, quantum_id=quantum_id, ids_put=outputs_put
@@ -334,7 +335,8 @@ class SingleQuantumExecutor(QuantumExecutor):
                 # PropertyList.
             finally:
                 logInfo(None, "end", metadata=quantumMetadata)  # type: ignore[arg-type]
-                fullMetadata = task.getFullMetadata()
+                # If the task could not be constructed it has no metadata.
+                fullMetadata = task.getFullMetadata() if task is not None else _TASK_FULL_METADATA_TYPE()
                 quantumMetadata["outputs"] = [str(output) for output in outputs_put]
                 fullMetadata["quantum"] = quantumMetadata
                 if self._job_metadata is not None:
-- 
2.43.0


From b95e562bc2c73e9274265bde92924af2b110f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:52 +0000
Subject: [PATCH 28/70] fix: only hide the automatic metadata and log outputs
 from QuantumContext

---
 python/lsst/pipe/base/_quantumContext.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/_quantumContext.py b/python/lsst/pipe/base/_quantumContext.py
index 6f4b8fe..3e60bcd 100644
--- a/python/lsst/pipe/base/_quantumContext.py
+++ b/python/lsst/pipe/base/_quantumContext.py
@@ -53,7 +53,12 @@ from lsst.daf.butler import (
 from lsst.utils.introspection import get_full_type_name
 from lsst.utils.logging import PeriodicLogger, getLogger
 
-from .automatic_connection_constants import LOG_OUTPUT_CONNECTION_NAME, METADATA_OUTPUT_CONNECTION_NAME
+from .automatic_connection_constants import (
+    LOG_OUTPUT_CONNECTION_NAME,
+    LOG_OUTPUT_STORAGE_CLASS,
+    METADATA_OUTPUT_CONNECTION_NAME,
+    METADATA_OUTPUT_STORAGE_CLASS,
+)
 from .connections import DeferredDatasetRef, InputQuantizedConnection, OutputQuantizedConnection
 from .struct import Struct
 
@@ -221,8 +226,12 @@ class QuantumContext:
             for ref in refs:
                 self.allInputs.add((ref.datasetType, ref.dataId, ref.id))
         for dataset_type, refs in quantum.outputs.items():
-            if dataset_type.name.endswith(METADATA_OUTPUT_CONNECTION_NAME) or dataset_type.name.endswith(
-                LOG_OUTPUT_CONNECTION_NAME
+            if (
+                dataset_type.name.endswith(METADATA_OUTPUT_CONNECTION_NAME)
+                and dataset_type.storageClass_name == METADATA_OUTPUT_STORAGE_CLASS
+            ) or (
+                dataset_type.name.endswith(LOG_OUTPUT_CONNECTION_NAME)
+                and dataset_type.storageClass_name == LOG_OUTPUT_STORAGE_CLASS
             ):
                 # Don't consider log and metadata datasets to be outputs in
                 # this context, because we don't want the task to be able to
-- 
2.43.0


From 7904c4cf4bda1e22925b50ea8413c38516c325be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:52 +0000
Subject: [PATCH 29/70] fix: restore the full state of unpickled QuantumGraph
 objects

---
 python/lsst/pipe/base/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 133cbf2..28f6467 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1416,6 +1416,10 @@ class QuantumGraph:
         self._connectedQuanta = qgraph._connectedQuanta
         self._initInputRefs = qgraph._initInputRefs
         self._initOutputRefs = qgraph._initOutputRefs
+        self._globalInitOutputRefs = qgraph._globalInitOutputRefs
+        self._registryDatasetTypes = qgraph._registryDatasetTypes
+        self._universe = qgraph._universe
+        self._pipeline_graph = None
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, QuantumGraph):
-- 
2.43.0


From 768abf8958fcd96e87f35b9d8258496db4edb2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:52 +0000
Subject: [PATCH 30/70] fix: allow QuantumGraph.subset to be given a one-pass
 iterable

---
 python/lsst/pipe/base/graph/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 28f6467..be9a99f 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -663,6 +663,9 @@ class QuantumGraph:
         """
         if not isinstance(nodes, Iterable):
             nodes = (nodes,)
+        else:
+            # We iterate over the nodes more than once.
+            nodes = tuple(nodes)
         quantumSubgraph = self._connectedQuanta.subgraph(nodes).nodes
         quantumMap = defaultdict(set)
 
-- 
2.43.0


From 86b3e43bdb9e39a05053fe6bcf103cdc57d63cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:52 +0000
Subject: [PATCH 31/70] fix: keep the init-input and init-output refs of the
 tasks in a QuantumGraph subset

---
 python/lsst/pipe/base/graph/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index be9a99f..cc6c18c 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -693,13 +693,18 @@ class QuantumGraph:
         quantumDict: dict[TaskDef, set[Quantum]] = dict(quantumMap.items())
         # Create an empty graph, and then populate it with custom mapping
         newInst = type(self)({}, universe=self._universe)
-        # TODO: Do we need to copy initInputs/initOutputs?
         newInst._buildGraphs(
             quantumDict,
             _quantumToNodeId={n.quantum: n.nodeId for n in nodes},
             _buildId=self._buildId,
             metadata=self._metadata,
             universe=self._universe,
+            initInputs={
+                taskDef: refs for taskDef in quantumDict if (refs := self.initInputRefs(taskDef)) is not None
+            },
+            initOutputs={
+                taskDef: refs for taskDef in quantumDict if (refs := self.initOutputRefs(taskDef)) is not None
+            },
             globalInitOutputs=self._globalInitOutputRefs,
             registryDatasetTypes=registryDatasetTypes,
         )
-- 
2.43.0


From db65f8371b78e4f10fd8178875738e857f85eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:17 +0000
Subject: [PATCH 32/70] fix: identify failed and skipped quanta in reports from
 in-process execution

---
 python/lsst/pipe/base/mp_graph_executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index ca90f3d..99f710d 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -684,6 +684,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                         raise
                 except Exception as exc:
                     quantum_report = QuantumReport.from_exception(
+                        quantumId=quantum_id,
                         exception=exc,
                         dataId=data_id,
                         taskLabel=task_node.label,
@@ -734,6 +735,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                     for downstream_quantum_id in walker.fail(quantum_id):
                         downstream_node_state = xgraph.nodes[downstream_quantum_id]
                         failed_quantum_report = QuantumReport(
+                            quantumId=downstream_quantum_id,
                             status=ExecutionStatus.SKIPPED,
                             dataId=downstream_node_state["data_id"],
                             taskLabel=downstream_node_state["task_label"],
-- 
2.43.0


From 0da071de8ef5c7931d13b662a932c1c229f18fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:17 +0000
Subject: [PATCH 33/70] fix: pass the fail-fast option on to jobs executed in
 subprocesses

---
 python/lsst/pipe/base/mp_graph_executor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 99f710d..3ad8622 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -867,7 +867,9 @@ class MPGraphExecutor(QuantumGraphExecutor):
 
             # see if we can start more jobs
             while len(jobs.running) < self._num_proc and jobs.pending:
-                job = jobs.submit(self._quantum_executor, self._start_method)
+                job = jobs.submit(
+                    self._quantum_executor, self._start_method, fail_fast=self._fail_fast
+                )
                 _LOG.debug("Submitted %s", job)
 
             # Do cleanup for timed out jobs if necessary.
-- 
2.43.0


From deb48f5003dbcbf88024b6d2f267accc141c092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:17 +0000
Subject: [PATCH 34/70] fix: correct the log message for an invalid quantum in
 a subprocess

---
 python/lsst/pipe/base/mp_graph_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 3ad8622..196a147 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -242,7 +242,7 @@ class _Job:
             else:
                 raise
         except InvalidQuantumError as exc:
-            _LOG.fatal("Invalid quantum error for %s (%s): %s", task_node.label, quantum.dataId)
+            _LOG.fatal("Invalid quantum error for %s (%s):", task_node.label, quantum.dataId)
             _LOG.fatal(exc, exc_info=True)
             report = QuantumReport.from_exception(
                 quantumId=quantum_id,
-- 
2.43.0


From 0307a52090ac2e9c5a76ee1d4c7891e063fcd661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:17 +0000
Subject: [PATCH 35/70] fix: do not let reports larger than the pipe buffer
 block subprocesses

---
 python/lsst/pipe/base/mp_graph_executor.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 196a147..c960798 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -106,6 +106,7 @@ class _Job:
         self._state = JobState.PENDING
         self.started: float = 0.0
         self._rcv_conn: multiprocessing.connection.Connection | None = None
+        self._report: QuantumReport | None = None
         self._terminated = False
 
     @property
@@ -294,6 +295,20 @@ class _Job:
             self.process = None
             self._rcv_conn = None
 
+    def receive_report(self) -> None:
+        """Receive the report of a running process, if it was already sent.
+
+        A report larger than the pipe's buffer can only be sent (and hence the
+        process can only finish) while something is receiving it.
+        """
+        assert self._rcv_conn is not None, "Process must be started"
+        try:
+            if self._report is None and self._rcv_conn.poll():
+                self._report = self._rcv_conn.recv()
+        except Exception:
+            # Process died without sending a report; see report().
+            pass
+
     def report(self) -> QuantumReport:
         """Return task report, should be called after process finishes and
         before cleanup().
@@ -301,7 +316,7 @@ class _Job:
         assert self.process is not None, "Process must be started"
         assert self._rcv_conn is not None, "Process must be started"
         try:
-            report = self._rcv_conn.recv()
+            report = self._report if self._report is not None else self._rcv_conn.recv()
             report.exitCode = self.process.exitcode
         except Exception:
             # Likely due to the process killed, but there may be other reasons.
@@ -845,6 +860,8 @@ class MPGraphExecutor(QuantumGraphExecutor):
                         else:
                             _LOG.error("%s; processing will continue for remaining tasks.", message)
                 else:
+                    # do not let a large report block the process
+                    job.receive_report()
                     # check for timeout
                     now = time.time()
                     if now - job.started > self._timeout:
-- 
2.43.0


From 8a27f3e41bf1a9f63ae9971986a73bf2805bd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 36/70] fix: read the quanta and datasets given to
 ProvenanceQuantumGraph.from_args

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index e7a23e5..3057584 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1202,14 +1202,8 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
                 )
                 raise
             with exit_stack:
-                if quanta is None:
-                    reader.read_quanta()
-                elif not quanta:
-                    reader.read_quanta(quanta)
-                if datasets is None:
-                    reader.read_datasets()
-                elif not datasets:
-                    reader.read_datasets(datasets)
+                reader.read_quanta(quanta)
+                reader.read_datasets(datasets)
                 yield reader.graph, None
 
     @property
-- 
2.43.0


From e16d787e591f47ee8f1b30c5445338f28f892633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 37/70] fix: keep init quanta out of the quantum-only
 provenance graph

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 3057584..ee0394b 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -324,9 +324,12 @@ class ProvenanceDatasetModel(PredictedDatasetModel):
         )
         if self.producer is not None:
             graph._bipartite_xgraph.add_edge(self.producer, self.dataset_id)
+        # Init quanta do not appear in the quantum-only graph.
+        producing_edge = graph.pipeline_graph.producing_edge_of(self.dataset_type_name)
+        is_init = producing_edge is not None and producing_edge.is_init
         for consumer_id in self.consumers:
             graph._bipartite_xgraph.add_edge(self.dataset_id, consumer_id)
-            if self.producer is not None:
+            if self.producer is not None and not is_init:
                 graph._quantum_only_xgraph.add_edge(self.producer, consumer_id)
         graph._datasets_by_type[self.dataset_type_name][data_id] = self.dataset_id
 
-- 
2.43.0


From 9aa75c681b3f9d6f3fb7680446ac7bc00d7de54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 38/70] fix: read recorded datasets even if their nodes were
 implied by quanta

---
 .../pipe/base/quantum_graph/_provenance.py    | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index ee0394b..75db89d 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -976,14 +976,15 @@ class ProvenanceInitQuantumModel(pydantic.BaseModel):
             ).append(read_edge)
         for connection_name, dataset_id in self.outputs.items():
             write_edge = task_init_node.get_output_edge(connection_name)
-            graph._bipartite_xgraph.add_node(
-                dataset_id,
-                data_id=empty_data_id,
-                dataset_type_name=write_edge.dataset_type_name,
-                pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
-                run=graph.header.output_run,
-                produced=True,
-            )
+            if "pipeline_node" not in graph._bipartite_xgraph.nodes.get(dataset_id, {}):
+                graph._bipartite_xgraph.add_node(
+                    dataset_id,
+                    data_id=empty_data_id,
+                    dataset_type_name=write_edge.dataset_type_name,
+                    pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
+                    run=graph.header.output_run,
+                    produced=True,
+                )
             graph._datasets_by_type[write_edge.dataset_type_name][empty_data_id] = dataset_id
             graph._bipartite_xgraph.add_edge(
                 self.quantum_id,
@@ -1700,6 +1701,7 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
     """
 
     graph: ProvenanceQuantumGraph = dataclasses.field(init=False)
+    _nodes_read: set[uuid.UUID] = dataclasses.field(init=False, default_factory=set)
     """Loaded provenance graph, populated in place as components are read."""
 
     @classmethod
@@ -1798,6 +1800,9 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
         model_type: type[ProvenanceDatasetModel] | type[ProvenanceQuantumModel],
     ) -> None:
         node: ProvenanceDatasetModel | ProvenanceQuantumModel | None
+        # Nodes that were only added to the graph because they are adjacent to
+        # something else that was read still need to be read themselves.
+        already_read = self._nodes_read
         if nodes is None:
             self.address_reader.read_all()
             nodes = self.address_reader.rows.keys()
@@ -1809,16 +1814,17 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                 int_size=self.header.int_size,
                 page_size=self.page_size,
             ):
-                if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(node.node_id, {}):
+                if node.node_id in already_read:
                     # Use the old node to reduce memory usage (since it might
                     # also have other outstanding reference holders).
                     continue
                 node._add_to_graph(self.graph)
+                already_read.add(node.node_id)
         else:
             with MultiblockReader.open_in_zip(self.zf, mb_name, int_size=self.header.int_size) as mb_reader:
                 for node_id_or_index in nodes:
                     address_row = self.address_reader.find(node_id_or_index)
-                    if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(address_row.key, {}):
+                    if address_row.key in already_read:
                         # Use the old node to reduce memory usage (since it
                         # might also have other outstanding reference holders).
                         continue
@@ -1827,6 +1833,7 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                     )
                     if node is not None:
                         node._add_to_graph(self.graph)
+                        already_read.add(address_row.key)
 
     def fetch_logs(self, nodes: Iterable[uuid.UUID]) -> dict[uuid.UUID, list[ButlerLogRecords | None]]:
         """Fetch log datasets.
-- 
2.43.0


From 11537954dd56fc76bef2656d366fafe2e80038df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 39/70] fix: do not duplicate edges when init quanta are read
 twice

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 75db89d..1caf20c 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -964,6 +964,9 @@ class ProvenanceInitQuantumModel(pydantic.BaseModel):
         - ``bipartite_xgraph`` edges to adjacent datasets (which adds datasets
           nodes with no attributes), while populating those edge attributes;
         """
+        if "pipeline_node" in graph._bipartite_xgraph.nodes.get(self.quantum_id, {}):
+            # Already read.
+            return
         task_init_node = graph.pipeline_graph.tasks[self.task_label].init
         graph._bipartite_xgraph.add_node(
             self.quantum_id, data_id=empty_data_id, task_label=self.task_label, pipeline_node=task_init_node
-- 
2.43.0


From ac4bc8d647e5dd70f6c22513486266cf7284a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:05 +0000
Subject: [PATCH 40/70] fix: include caveats without an exception code in JSON
 provenance reports

---
 python/lsst/pipe/base/_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/_status.py b/python/lsst/pipe/base/_status.py
index 342dfcf..0c21646 100644
--- a/python/lsst/pipe/base/_status.py
+++ b/python/lsst/pipe/base/_status.py
@@ -148,7 +148,7 @@ class QuantumSuccessCaveats(enum.Flag):
             `code`, and `count` keys; or `None` if the string does not
             represent a concise flag.
         """
-        r = re.compile(r"(?P<token>\*|\+)?(?P<code>[A-Z]{1})\((?P<count>[0-9]+)\)")
+        r = re.compile(r"(?P<token>\*|\+)?(?P<code>[A-Z])?\((?P<count>[0-9]+)\)")
         m = re.match(r, concise)
         return m.groupdict() if m is not None else None
 
-- 
2.43.0


From 67ff7f8dfba7405704f165be3919d168034a6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:24 +0000
Subject: [PATCH 41/70] fix: record provenance of quanta that fail before their
 task is run

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 1caf20c..d4b57fa 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2120,6 +2120,10 @@ class ProvenanceQuantumGraphWriter:
         provenance_models = ProvenanceQuantumScanModels.from_metadata_and_logs(
             predicted_quantum, metadata, logs, incomplete=False
         )
+        # If there is no information about what was written, execution failed
+        # before the task could write anything.
+        for predicted_output in itertools.chain.from_iterable(predicted_quantum.outputs.values()):
+            provenance_models.output_existence.setdefault(predicted_output.dataset_id, False)
         scan_data = provenance_models.to_scan_data(predicted_quantum, compressor=self.compressor)
         self.write_scan_data(scan_data)
 
-- 
2.43.0


From ccbf6f898f7d7722ace2cd949e11e36b17f899ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:24 +0000
Subject: [PATCH 42/70] fix: do not claim a log exists for an attempt that left
 neither log nor metadata

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index d4b57fa..f3350a5 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2421,8 +2421,6 @@ class ProvenanceQuantumScanModels:
                 # at a very unlucky time (in between those two writes), or
                 # something even weirder happened.
                 self.attempts[-1].status = QuantumAttemptStatus.ABORTED_SUCCESS
-            else:
-                self.attempts[-1].status = QuantumAttemptStatus.FAILED
         if len(self.metadata.attempts) < len(self.attempts):
             # Metadata missing usually just means a failure.  In any case, the
             # status will already be correct, either because it was set to a
-- 
2.43.0


From 32db4c0a62a4b176c13f2877a052057467edda24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:41 +0000
Subject: [PATCH 43/70] fix: allow an empty quantum table to be made from a
 provenance graph

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index f3350a5..34ddfcd 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1384,7 +1384,7 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
         if not as_table:
             return rows
         table = astropy.table.Table(rows)
-        if drop_unused_columns:
+        if drop_unused_columns and rows:
             for status in QuantumAttemptStatus:
                 if status.is_rare and not table[status.title].any():
                     del table[status.title]
-- 
2.43.0


From ea808832074e37a1b45ae9008da3decc80eb8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:26 +0000
Subject: [PATCH 44/70] fix: refuse to pack negative detector and observation
 IDs

---
 python/lsst/pipe/base/_observation_dimension_packer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/_observation_dimension_packer.py b/python/lsst/pipe/base/_observation_dimension_packer.py
index 706a9d8..62ed53b 100644
--- a/python/lsst/pipe/base/_observation_dimension_packer.py
+++ b/python/lsst/pipe/base/_observation_dimension_packer.py
@@ -147,10 +147,10 @@ class ObservationDimensionPacker(DimensionPacker):
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DimensionPacker._pack
         detector_id = cast(int, dataId["detector"])
-        if detector_id >= self._n_detectors:
+        if not 0 <= detector_id < self._n_detectors:
             raise ValueError(f"Detector ID {detector_id} is out of bounds; expected <{self._n_detectors}.")
         observation_id = cast(int, dataId["exposure" if self.is_exposure else "visit"])
-        if observation_id >= self._n_observations:
+        if not 0 <= observation_id < self._n_observations:
             raise ValueError(
                 f"{'Exposure' if self.is_exposure else 'Visit'} ID {observation_id} is out of bounds; "
                 f"expected <{self._n_observations}."
-- 
2.43.0


From 12c9f70774f3d1375138002e47a52904bd97369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:26 +0000
Subject: [PATCH 45/70] fix: validate all parameters when a derived component
 is read from an in-memory handle

---
 python/lsst/pipe/base/_dataset_handle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/_dataset_handle.py b/python/lsst/pipe/base/_dataset_handle.py
index 6eb07be..f710803 100644
--- a/python/lsst/pipe/base/_dataset_handle.py
+++ b/python/lsst/pipe/base/_dataset_handle.py
@@ -202,7 +202,7 @@ class InMemoryDatasetHandle:
                 # For some reason MyPy doesn't see the line above as narrowing
                 # 'component' from 'str | None' to 'str'.
                 component = cast(str, component)
-                thisStorageClass.validateParameters(parameters)
+                thisStorageClass.validateParameters(mergedParameters)
 
                 # Process the parameters (hoping this never modified the
                 # original object).
-- 
2.43.0


From b8e3f98451cd5dec575c3cad1b08bcb06eb2b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:17 +0000
Subject: [PATCH 46/70] fix: only cache datasets after they have been put

---
 python/lsst/pipe/base/caching_limited_butler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index c1e0e70..57bf0a8 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -168,6 +168,7 @@ class CachingLimitedButler(LimitedButler):
         return self._wrapped.isWriteable()
 
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
+        result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
             self._cache[ref.datasetType.name] = (
                 ref.id,
@@ -179,7 +180,7 @@ class CachingLimitedButler(LimitedButler):
                 ),
             )
             _LOG.debug("Cached dataset %s on put", ref)
-        return self._wrapped.put(obj, ref, provenance=provenance)
+        return result
 
     def pruneDatasets(
         self,
-- 
2.43.0


From f51ea8336749dcfaf1e110a63faa0b9c4f336feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:17 +0000
Subject: [PATCH 47/70] fix: do not let changes to an object that was put
 affect the cached dataset

---
 .../lsst/pipe/base/caching_limited_butler.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 57bf0a8..dbfcfff 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -29,6 +29,7 @@ from __future__ import annotations
 
 __all__ = ["CachingLimitedButler"]
 
+import dataclasses
 import logging
 from collections.abc import Iterable, Set
 from typing import Any
@@ -170,15 +171,17 @@ class CachingLimitedButler(LimitedButler):
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
         result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
-            self._cache[ref.datasetType.name] = (
-                ref.id,
-                InMemoryDatasetHandle(
-                    obj,
-                    storageClass=ref.datasetType.storageClass,
-                    dataId=ref.dataId,
-                    copy=ref.datasetType.name not in self._no_copy_on_cache,
-                ),
+            handle = InMemoryDatasetHandle(
+                obj,
+                storageClass=ref.datasetType.storageClass,
+                dataId=ref.dataId,
+                copy=ref.datasetType.name not in self._no_copy_on_cache,
             )
+            if handle.copy:
+                # The caller may go on to modify the object it passed in, so
+                # what we hold has to be a copy, too.
+                handle = dataclasses.replace(handle, inMemoryDataset=handle.get())
+            self._cache[ref.datasetType.name] = (ref.id, handle)
             _LOG.debug("Cached dataset %s on put", ref)
         return result
 
-- 
2.43.0


From acea66078174c35cbe4c379ee3b5a638daf4bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:17 +0000
Subject: [PATCH 48/70] fix: remove cached components of pruned datasets

---
 python/lsst/pipe/base/caching_limited_butler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index dbfcfff..0a38441 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -195,11 +195,12 @@ class CachingLimitedButler(LimitedButler):
         purge: bool = False,
     ) -> None:
         refs = list(refs)
-        for ref in refs:
-            if cached := self._cache.get(ref.datasetType.name):
-                dataset_id, _ = cached
-                if dataset_id == ref.id:
-                    del self._cache[ref.datasetType.name]
+        # Components have the same dataset ID as their parents, but are cached
+        # under their own dataset type name.
+        pruned_ids = {ref.id for ref in refs}
+        for dataset_type_name, (dataset_id, _) in list(self._cache.items()):
+            if dataset_id in pruned_ids:
+                del self._cache[dataset_type_name]
 
         return self._wrapped.pruneDatasets(
             refs, disassociate=disassociate, unstore=unstore, tags=tags, purge=purge
-- 
2.43.0


From 05d828e8e54b230ee743e2c2a53f373d9fa5b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:09 +0000
Subject: [PATCH 49/70] fix: do not convert cached datasets from a storage
 class they were not stored in

---
 python/lsst/pipe/base/caching_limited_butler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 0a38441..3e41d9c 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -121,7 +121,8 @@ class CachingLimitedButler(LimitedButler):
         # check if we have this dataset type in the cache
         if cached := self._cache.get(ref.datasetType.name):
             dataset_id, handle = cached
-            if dataset_id == ref.id:  # if we do, check it's the right object
+            # if we do, check it's the right object, in the requested form
+            if dataset_id == ref.id and handle.storageClass == storageClass:
                 _LOG.debug("Returning cached dataset %s", ref)
                 return handle.get(parameters=parameters, storageClass=storageClass)
 
-- 
2.43.0


From 384a6a4e1afe03f07e7042e910cda9c9ff43222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:39 +0000
Subject: [PATCH 50/70] fix: reject None and values that fail the check in
 connection templates

---
 python/lsst/pipe/base/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/config.py b/python/lsst/pipe/base/config.py
index d0e35b3..9b3cc86 100644
--- a/python/lsst/pipe/base/config.py
+++ b/python/lsst/pipe/base/config.py
@@ -85,7 +85,7 @@ class TemplateField(pexConfig.Field):
                 " Expected type str or a number"
             )
         if self.check is not None and not self.check(value):
-            ValueError("Value {value} is not a valid value")
+            raise ValueError(f"Value {value} is not a valid value")
 
     def __set__(
         self,
@@ -97,7 +97,8 @@ class TemplateField(pexConfig.Field):
         # validate first, even though validate will be called in super
         self._validateValue(value)
         # now, explicitly make it into a string
-        value = str(value)
+        if value is not None:
+            value = str(value)
         super().__set__(instance, value, at, label)
 
 
-- 
2.43.0


From 8f7be59f12f0bea0491ff2d6e4222e6b1272515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 51/70] fix: reject templates with the name of a connection
 even if they are not used

---
 python/lsst/pipe/base/connections.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/lsst/pipe/base/connections.py b/python/lsst/pipe/base/connections.py
index 9faf00a..aa23440 100644
--- a/python/lsst/pipe/base/connections.py
+++ b/python/lsst/pipe/base/connections.py
@@ -290,15 +290,16 @@ class PipelineTaskConnectionsMetaclass(type):
                 templateDifference = allTemplates.difference(defaultTemplateKeys)
                 if templateDifference:
                     raise TypeError(f"Default template keys were not provided for {templateDifference}")
-                # Verify that templates do not share names with variable names
-                # used for a connection, this is needed because of how
-                # templates are specified in an associated config class.
-                nameTemplateIntersection = allTemplates.intersection(set(dct["allConnections"].keys()))
-                if len(nameTemplateIntersection) > 0:
-                    raise TypeError(
-                        "Template parameters cannot share names with Class attributes"
-                        f" (conflicts are {nameTemplateIntersection})."
-                    )
+            # Verify that templates (whether they are used or not) do not share
+            # names with variable names used for a connection, this is needed
+            # because of how templates are specified in an associated config
+            # class.
+            nameTemplateIntersection = set(mergeDict).intersection(dct["allConnections"].keys())
+            if len(nameTemplateIntersection) > 0:
+                raise TypeError(
+                    "Template parameters cannot share names with Class attributes"
+                    f" (conflicts are {nameTemplateIntersection})."
+                )
             dct["defaultTemplates"] = kwargs.get("defaultTemplates", {})
             dct["deprecatedTemplates"] = kwargs.get("deprecatedTemplates", {})
 
-- 
2.43.0


From 6c6689c3498f95c62f6a3f68d76d8043be942785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:43 +0000
Subject: [PATCH 52/70] fix: do not share connection objects used under several
 names

---
 python/lsst/pipe/base/connections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/connections.py b/python/lsst/pipe/base/connections.py
index aa23440..ebd9602 100644
--- a/python/lsst/pipe/base/connections.py
+++ b/python/lsst/pipe/base/connections.py
@@ -128,6 +128,10 @@ class PipelineTaskConnectionDict(UserDict):
                 # Guard against changing the type of an in inherited connection
                 # by first removing it from the set it's current in.
                 self.data[previous._connection_type_set].discard(name)
+            if getattr(value, "varName", name) != name:
+                # The same object is already used for another connection, maybe
+                # of another class, which must keep its name.
+                value = dataclasses.replace(value)
             object.__setattr__(value, "varName", name)
             self.data["allConnections"][name] = value
             self.data[value._connection_type_set].add(name)
-- 
2.43.0


From 040c243691190f14bc16a8a09b6de2b74609c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:53 +0000
Subject: [PATCH 53/70] fix: draw all inputs of a node before the node in text
 layouts

---
 .../pipeline_graph/visualization/_layout.py   | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py b/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py
index 54e9b3d..7a7508e 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py
@@ -107,12 +107,18 @@ class Layout[K]:
         # Add all single-node components in lexicographical order.
         single_nodes.sort(key=str)
         for node in single_nodes:
-            self._add_single_node(node)
+            self._add_node_and_blockers(node)
         # Sort component graphs by their size and then str of their first node.
         component_xgraphs_and_orders.sort(key=lambda t: (len(t[1]), str(t[1][0])))
         # Add subgraphs in that order.
         for component_xgraph, component_order in component_xgraphs_and_orders:
-            self._add_connected_graph(component_xgraph, component_order)
+            if self._locations.keys().isdisjoint(component_order):
+                self._add_connected_graph(component_xgraph, component_order)
+            else:
+                # Some of these nodes were already added as blockers of others.
+                self._add_graph(
+                    component_xgraph.subgraph([n for n in component_order if n not in self._locations])
+                )
 
     def _add_single_node(self, node: K) -> None:
         """Add a single node to the layout."""
@@ -206,8 +212,7 @@ class Layout[K]:
         # been part of the longest path themselves, but the subgraph doesn't
         # have a complete picture).
         current = backbone.pop(0)
-        self._add_blockers_of(current)
-        self._add_single_node(current)
+        self._add_node_and_blockers(current)
         # Remember all recursive descendants of the current backbone node for
         # later use.
         descendants = frozenset(networkx.algorithms.dag.descendants(xgraph, current))
@@ -227,14 +232,21 @@ class Layout[K]:
             self._add_graph(xgraph.subgraph(followers_of_previous))
             # Add the current backbone node and all remaining blockers (which
             # may not even be in this subgraph).
-            self._add_blockers_of(current)
-            self._add_single_node(current)
+            self._add_node_and_blockers(current)
         # Any remaining subgraph nodes were not directly connected to the
         # backbone nodes.
         remaining = xgraph.copy()
         remaining.remove_nodes_from(self._locations.keys())
         self._add_graph(remaining)
 
+    def _add_node_and_blockers(self, node: K) -> None:
+        """Add a single node to the layout, after any ancestors that have not
+        been added yet, unless the node is already there.
+        """
+        if node not in self._locations:
+            self._add_blockers_of(node)
+            self._add_single_node(node)
+
     def _add_blockers_of(self, node: K) -> None:
         """Add all nodes that are ancestors of the given node according to the
         full graph.
-- 
2.43.0


From 17b8eadea2024a714732335c1330273c92f60067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:04 +0000
Subject: [PATCH 54/70] fix: allow empty pipeline graphs to be displayed with
 merging

---
 python/lsst/pipe/base/pipeline_graph/visualization/_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
index b1463ba..8239f4b 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
@@ -276,7 +276,7 @@ def _make_tree_merge_groups(
     # we process is actually a dict that associates each of those nodes
     # with an empty dict.  All of these initial nodes are valid trees,
     # since they're just single nodes.
-    first_generation = next(networkx.algorithms.dag.topological_generations(xgraph))
+    first_generation = next(networkx.algorithms.dag.topological_generations(xgraph), [])
     current_candidates: dict[NodeKey, dict[NodeKey, _MergeKey]] = dict.fromkeys(first_generation, {})
     # Set up an outer loop over tree depth; we'll construct a new set of
     # candidates at each iteration.
-- 
2.43.0


From 92610b0b98a8ad38f29ec00e8139255820a99264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:32 +0000
Subject: [PATCH 55/70] fix: show all labels of merged tasks in dot and mermaid
 output

---
 python/lsst/pipe/base/pipeline_graph/visualization/_dot.py   | 5 ++++-
 .../lsst/pipe/base/pipeline_graph/visualization/_mermaid.py  | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py b/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py
index 69353eb..983773e 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py
@@ -141,7 +141,10 @@ def _render_task_node(
     stream : TextIO
         The stream to write the node to
     """
-    labels, *_ = _format_label(str(node_key))
+    labels, label_extras, common_prefix = _format_label(str(node_key))
+    labels += label_extras
+    if common_prefix:
+        labels.insert(0, common_prefix)
 
     # Add the fully resolved task class name
     if options.task_classes and (node_key.node_type in (NodeType.TASK, NodeType.TASK_INIT)):
diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py b/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py
index 243685d..440eae5 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py
@@ -298,7 +298,8 @@ def _render_task_node(
     """
     # Convert node_key into a label, handling line splitting and prefix
     # extraction.
-    lines, _, _ = _format_label(str(node_key))
+    lines, line_extras, _ = _format_label(str(node_key))
+    lines += line_extras
 
     # If requested, show the fully qualified task class name beneath the task
     # label.
-- 
2.43.0


From 7030a385d09578102b136b395de5f9c92c6d9222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:02 +0000
Subject: [PATCH 56/70] fix: make node IDs of repeatedly merged nodes in dot
 and mermaid output

---
 python/lsst/pipe/base/pipeline_graph/visualization/_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
index 8239f4b..2d5f2fb 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
@@ -71,8 +71,9 @@ class MergedNodeKey(frozenset[NodeKey]):
     def node_id(self) -> str:
         """A unique string representation of the merged node key."""
         hasher = hashlib.blake2b(digest_size=4)
-        for member in sorted(self):
-            hasher.update(str(member).encode())
+        # Members may be merged node keys themselves, so we can't sort them
+        # directly.
+        hasher.update(str(self).encode())
         return f"{hasher.digest().hex()}:{self.node_type.value}"
 
 
-- 
2.43.0


From 433139ff263748ba8971adc07e58278950eedbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:29 +0000
Subject: [PATCH 57/70] fix: only merge complete trees of nodes, each once, in
 pipeline displays

---
 .../pipeline_graph/visualization/_merge.py    | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
index 2d5f2fb..7490d8a 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
@@ -279,17 +279,15 @@ def _make_tree_merge_groups(
     # since they're just single nodes.
     first_generation = next(networkx.algorithms.dag.topological_generations(xgraph), [])
     current_candidates: dict[NodeKey, dict[NodeKey, _MergeKey]] = dict.fromkeys(first_generation, {})
+    # As we go, we'll remember nodes that have just one predecessor, as
+    # those predecessors might be the roots of slightly taller trees.
+    # We store the successors and their merge keys under them.  This persists
+    # over all depths, because the subtrees of a node may differ in depth.
+    subtrees: dict[NodeKey, dict[NodeKey, _MergeKey]] = defaultdict(dict)
     # Set up an outer loop over tree depth; we'll construct a new set of
     # candidates at each iteration.
     while current_candidates:
-        # As we go, we'll remember nodes that have just one predecessor, as
-        # those predecessors might be the roots of slightly taller trees.
-        # We store the successors and their merge keys under them.
-        next_candidates: dict[NodeKey, dict[NodeKey, _MergeKey]] = defaultdict(dict)
-        # We also want to track the nodes the level up that are not trees
-        # because some node has both them and some other node as a
-        # predecessor.
-        nontrees: set[NodeKey] = set()
+        next_candidates: dict[NodeKey, dict[NodeKey, _MergeKey]] = {}
         # Make a dictionary for the results at this depth, then start the
         # inner iteration over candidates and (after the first iteration)
         # their children.
@@ -309,14 +307,12 @@ def _make_tree_merge_groups(
                 # larger tree.
                 if len(merge_key.parents) == 1:
                     (parent,) = merge_key.parents
-                    next_candidates[parent][node] = dataclasses.replace(merge_key, parents=frozenset())
-                else:
-                    nontrees.update(merge_key.parents)
+                    subtrees[parent][node] = dataclasses.replace(merge_key, parents=frozenset())
+                    # It's only a tree if everything below it is.
+                    if subtrees[parent].keys() == set(xgraph.predecessors(parent)):
+                        next_candidates[parent] = subtrees[parent]
         # Append the results for this depth.
         result.append(result_for_depth)
-        # Trim out candidates that aren't trees after all.
-        for nontree_node in nontrees & next_candidates.keys():
-            del next_candidates[nontree_node]
         current_candidates = next_candidates
     return result
 
-- 
2.43.0


From b20b809ba21cf0b3b2bc93c8769cc7c17cc983d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:09 +0000
Subject: [PATCH 58/70] fix: do not merge nodes of different types in displays
 of unresolved pipelines

---
 .../pipe/base/pipeline_graph/visualization/_merge.py   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
index 7490d8a..f7fae05 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
@@ -157,6 +157,7 @@ def merge_graph_intermediates(
     groups: dict[_MergeKey, set[NodeKey]] = defaultdict(set)
     for node, state in xgraph.nodes.items():
         merge_key = _MergeKey.from_node_state(
+            node.node_type,
             state,
             xgraph.predecessors(node),
             xgraph.successors(node),
@@ -190,6 +191,9 @@ class _MergeKey:
     when grouping nodes that may be merged by their attributes.
     """
 
+    node_type: NodeType
+    """Type of the nodes being considered for merging."""
+
     parents: frozenset[Any]
     """Nodes of the original graph that are successors or predecessors of
     the nodes being considered for merging.
@@ -225,6 +229,7 @@ class _MergeKey:
     @classmethod
     def from_node_state[P, C](
         cls,
+        node_type: NodeType,
         state: dict[str, Any],
         parents: Iterable[P],
         children: Iterable[C],
@@ -234,6 +239,8 @@ class _MergeKey:
 
         Parameters
         ----------
+        node_type : `NodeType`
+            Type of the node.
         state : `dict`
             Dictionary used to hold NetworkX node attributes.
         parents : `~collections.abc.Iterable` [ `NodeKey` ]
@@ -246,6 +253,7 @@ class _MergeKey:
             Options for which node attributes to include in the new key.
         """
         return cls(
+            node_type=node_type,
             parents=frozenset(parents),
             dimensions=state.get("dimensions"),
             storage_class_name=(state.get("storage_class_name") if options.storage_classes else None),
@@ -299,7 +307,7 @@ def _make_tree_merge_groups(
             # merged (with isomorphism defined as both both structure and
             # whatever comparisons are in 'options').
             merge_key = _MergeKey.from_node_state(
-                xgraph.nodes[node], xgraph.successors(node), children.values(), options
+                node.node_type, xgraph.nodes[node], xgraph.successors(node), children.values(), options
             )
             result_for_depth[merge_key].add(node)
             if len(result) <= depth:
-- 
2.43.0


From fff3096a69cc146ab1c42582cbdcc265faf55512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:04 +0000
Subject: [PATCH 59/70] fix: only look for existing package versions in the
 output run

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index aa071f0..4f707da 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2040,7 +2040,7 @@ class PipelineGraph:
             with the current packages.
         """
         new_packages = Packages.fromSystem()
-        if (ref := butler.find_dataset(self.packages_dataset_type)) is not None:
+        if (ref := butler.find_dataset(self.packages_dataset_type, collections=butler.run)) is not None:
             packages = butler.get(ref)
             if compare_packages(packages, new_packages):
                 # have to remove existing dataset first; butler has no
-- 
2.43.0


From 100dd753f7eb3d3cdfb159177fb8bd0782f5113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:40 +0000
Subject: [PATCH 60/70] fix: match whole dataset type names with globs in graph
 scripts

---
 python/lsst/pipe/base/script/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/script/utils.py b/python/lsst/pipe/base/script/utils.py
index ff93c40..47071b6 100644
--- a/python/lsst/pipe/base/script/utils.py
+++ b/python/lsst/pipe/base/script/utils.py
@@ -45,7 +45,7 @@ def _matches_dataset_type(dataset_type_name: str, regexes: list[str | re.Pattern
         if isinstance(regex, str):
             if dataset_type_name == regex:
                 return True
-        elif regex.search(dataset_type_name):
+        elif regex.fullmatch(dataset_type_name):
             return True
     return False
 
-- 
2.43.0


From 5dc57ecc495bd081ed6bf99371c30ecb05162861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:40 +0000
Subject: [PATCH 61/70] fix: do not update the output chain in dry runs of
 transfer-from-graph

---
 python/lsst/pipe/base/script/transfer_from_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/script/transfer_from_graph.py b/python/lsst/pipe/base/script/transfer_from_graph.py
index eab78ad..3b2be29 100644
--- a/python/lsst/pipe/base/script/transfer_from_graph.py
+++ b/python/lsst/pipe/base/script/transfer_from_graph.py
@@ -124,7 +124,7 @@ def transfer_from_graph(
             count += len(transferred)
 
         # If asked to do so, update output chain definition.
-        if update_output_chain and (metadata := qgraph.metadata) is not None:
+        if update_output_chain and not dry_run and (metadata := qgraph.metadata) is not None:
             # These are defined in CmdLineFwk.
             output_run = metadata.get("output_run")
             output = metadata.get("output")
-- 
2.43.0


From 0b927708fd45e88ca722187a32c01ac888fe404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:42 +0000
Subject: [PATCH 62/70] fix: recognize intermediates of all tasks in
 QuantumGraph.get_refs

---
 python/lsst/pipe/base/graph/graph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index cc6c18c..d877ee1 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1741,7 +1741,7 @@ class QuantumGraph:
         init_input_refs: set[DatasetRef] = set()
         init_output_refs: set[DatasetRef] = set(self.globalInitOutputRefs())
 
-        if include_intermediates is True:
+        if include_intermediates is not None:
             # Need to enable inputs and outputs even if not explicitly
             # requested.
             request_include_init_inputs = True
@@ -1783,7 +1783,12 @@ class QuantumGraph:
         inter_msg = ""
         intermediates = set()
         if include_intermediates is not None:
-            intermediates = (input_refs | init_input_refs) & (output_refs | init_output_refs)
+            # The same dataset may be written and read with different storage
+            # classes.
+            all_inputs = input_refs | init_input_refs
+            all_outputs = output_refs | init_output_refs
+            intermediate_ids = {ref.id for ref in all_inputs} & {ref.id for ref in all_outputs}
+            intermediates = {ref for ref in all_inputs | all_outputs if ref.id in intermediate_ids}
 
         if include_intermediates is False:
             # Remove intermediates from results.
-- 
2.43.0


From 4eea305271eff1d96d08e649185385a27642756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 63/70] fix: identify metadata and log datasets by the
 quantum's own dataset types in provenance summaries

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 8e2bd57..a1d5089 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -74,9 +74,7 @@ from lsst.utils.logging import PeriodicLogger, getLogger
 
 from ._status import ExceptionInfo, QuantumSuccessCaveats
 from .automatic_connection_constants import (
-    LOG_OUTPUT_CONNECTION_NAME,
     LOG_OUTPUT_TEMPLATE,
-    METADATA_OUTPUT_CONNECTION_NAME,
     METADATA_OUTPUT_STORAGE_CLASS,
     METADATA_OUTPUT_TEMPLATE,
     PROVENANCE_DATASET_TYPE_NAME,
@@ -1620,12 +1618,10 @@ class QuantumProvenanceGraph:
             # collection combination.
             dataset_runs[output_run] = DatasetRun(id=ref.id)
             # save metadata and logs for easier status interpretation later
-            if dataset_key.dataset_type_name.endswith(METADATA_OUTPUT_CONNECTION_NAME):
+            if ref == metadata_ref:
                 quantum_info["metadata"] = dataset_key
-                quantum_runs[output_run].metadata_ref = ref
-            if dataset_key.dataset_type_name.endswith(LOG_OUTPUT_CONNECTION_NAME):
+            if ref == log_ref:
                 quantum_info["log"] = dataset_key
-                quantum_runs[output_run].log_ref = ref
         for ref in itertools.chain.from_iterable(node.quantum.inputs.values()):
             dataset_key = DatasetKey(ref.datasetType.nameAndComponent()[0], ref.dataId.required_values)
             if dataset_key in self._xgraph:
@@ -1945,10 +1941,7 @@ class QuantumProvenanceGraph:
                             # Avoiding publishing failed logs is difficult
                             # without using tagged collections, so flag them as
                             # merely unsuccessful unless the user requests it.
-                            if (
-                                dataset_type_name.endswith(LOG_OUTPUT_CONNECTION_NAME)
-                                and not curse_failed_logs
-                            ):
+                            if dataset_key == quantum_info["log"] and not curse_failed_logs:
                                 dataset_info["status"] = DatasetInfoStatus.UNSUCCESSFUL
                             else:
                                 dataset_info["status"] = DatasetInfoStatus.CURSED
-- 
2.43.0


From bbdc6a895d4775821e57117e94a85e0bd29f937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 64/70] fix: ignore datasets of no given graph when summarizing
 provenance

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index a1d5089..ff2e608 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1502,8 +1502,13 @@ class QuantumProvenanceGraph:
                 continue
             for n, ref in enumerate(refs):
                 dataset_key = DatasetKey(ref.datasetType.name, ref.dataId.required_values)
-                dataset_info = self.get_dataset_info(dataset_key)
-                dataset_run = dataset_info["runs"][output_run]  # dataset run (singular)
+                # Ignore datasets that were not predicted by this graph (or a
+                # previous one with the same output run).
+                if (
+                    dataset_key not in self._xgraph
+                    or (dataset_run := self.get_dataset_info(dataset_key)["runs"].get(output_run)) is None
+                ):
+                    continue
                 dataset_run.produced = True
                 status_log.log(
                     "Updated status for %s of %s datasets of %s of %s types.",
@@ -1887,8 +1892,12 @@ class QuantumProvenanceGraph:
                 # graphs given.
                 except KeyError:
                     continue
+                # Also ignore datasets in RUNs that are not the output of any
+                # of the graphs given.
+                if (dataset_run := dataset_info["runs"].get(ref.run)) is None:
+                    continue
                 # queryable datasets are `visible`.
-                dataset_info["runs"][ref.run].visible = True
+                dataset_run.visible = True
                 status_log.log(
                     "Updated visibility for %s of %s datasets of type %s of %s.",
                     n + 1,
-- 
2.43.0


From e4a0b528d3103ba081aa41ed47d0b8b2d5b450ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 65/70] fix: allow the predicted outputs of a quantum to differ
 between attempts in provenance summaries

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index ff2e608..43ab797 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1800,8 +1800,9 @@ class QuantumProvenanceGraph:
             Current list of futures. Will be modified.
         """
         if read_caveats == "lazy" and all(
-            self.get_dataset_info(dataset_key)["runs"][output_run].produced
+            dataset_run.produced
             for dataset_key in self._xgraph.successors(quantum_key)
+            if (dataset_run := self.get_dataset_info(dataset_key)["runs"].get(output_run)) is not None
         ):
             return
         quantum_info = self.get_quantum_info(quantum_key)
-- 
2.43.0


From 0d7a1a1ec5140d507731f678b12418c0c9d329df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 66/70] fix: do not duplicate the metadata of successful quanta
 in streamed logs

---
 python/lsst/pipe/base/log_capture.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index 356e1c7..e3d5337 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -227,6 +227,13 @@ class LogCapture:
                     try:
                         with ButlerMDC.set_mdc(mdc):
                             yield ctx
+                    except:
+                        raise
+                    else:
+                        # If the quantum succeeded, we don't need to save the
+                        # metadata in the logs, because we'll have saved them
+                        # in the metadata.
+                        ctx.extra.metadata = None
                     finally:
                         # Ensure that the logs are stored in butler.
                         logging.getLogger().removeHandler(log_handler_file)
-- 
2.43.0


From 4199c32fed8ef157c173e45758ba0a2468b374f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 67/70] fix: keep metadata and previous attempts in streamed
 logs

---
 python/lsst/pipe/base/log_capture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index e3d5337..cccea6d 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -242,7 +242,7 @@ class LogCapture:
                             with open(temporary.ospath, "a") as log_stream:
                                 ButlerLogRecords.write_streaming_extra(
                                     log_stream,
-                                    ctx.extra.model_dump_json(exclude_unset=True, exclude_defaults=True),
+                                    ctx.extra.model_dump_json(exclude_defaults=True),
                                 )
                         if ctx.store:
                             temporary.ingest()
-- 
2.43.0


From ca67340a73047ea11dd6a09fe8cddd32cb521a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 68/70] fix: record the failed quantum in the provenance graph
 when failing fast

---
 python/lsst/pipe/base/mp_graph_executor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index c960798..c6b1a4a 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -735,6 +735,10 @@ class MPGraphExecutor(QuantumGraphExecutor):
                     if fail_exit_code is not None:
                         sys.exit(fail_exit_code)
                     if self._fail_fast:
+                        if provenance_writer is not None:
+                            provenance_writer.write_quantum_provenance(
+                                quantum_id, metadata=task_metadata, logs=task_logs
+                            )
                         raise MPGraphExecutorError(
                             f"Quantum {quantum_id} ({task_node.label}@{data_id}) failed."
                         ) from exc
-- 
2.43.0


From 39f43ae0c40d10db4c6ce68b9d674ecb0431fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 69/70] fix: keep the provenance of quanta skipped because they
 already succeeded

---
 .../lsst/pipe/base/single_quantum_executor.py | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index c86c4fe..8e12c4e 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -249,7 +249,27 @@ class SingleQuantumExecutor(QuantumExecutor):
                     task_node.label,
                     quantum.dataId,
                 )
-                return QuantumExecutionResult(quantum, report, skipped_existing=True, adjusted_no_work=False)
+                task_metadata: _TASK_FULL_METADATA_TYPE | None = None
+                if log_records is not None:
+                    # The caller wants the records of the execution that wrote
+                    # the outputs, not those of the decision to skip it.
+                    [metadata_ref] = quantum.outputs[task_node.metadata_output.dataset_type_name]
+                    task_metadata = limited_butler.get(metadata_ref)
+                    if task_node.log_output is not None:
+                        [log_ref] = quantum.outputs[task_node.log_output.dataset_type_name]
+                        if limited_butler.stored(log_ref):
+                            existing_logs = limited_butler.get(log_ref)
+                            log_records[:] = list(existing_logs)
+                            captureLog.extra = _ExecutionLogRecordsExtra.model_validate(
+                                existing_logs.extra or {}
+                            )
+                return QuantumExecutionResult(
+                    quantum,
+                    report,
+                    skipped_existing=True,
+                    adjusted_no_work=False,
+                    task_metadata=task_metadata,
+                )
             captureLog.store = True
 
             captureLog.extra.previous_process_quanta.extend(self._previous_process_quanta)
-- 
2.43.0


From 97725535288bc27f4a0b14233186846469d6329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:28 +0000
Subject: [PATCH 70/70] fix: accept input refs with dimensions not in data_ids
 in the trivial quantum graph builder

---
 python/lsst/pipe/base/trivial_quantum_graph_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/trivial_quantum_graph_builder.py b/python/lsst/pipe/base/trivial_quantum_graph_builder.py
index 12343ab..9f60499 100644
--- a/python/lsst/pipe/base/trivial_quantum_graph_builder.py
+++ b/python/lsst/pipe/base/trivial_quantum_graph_builder.py
@@ -139,6 +139,8 @@ class TrivialQuantumGraphBuilder(QuantumGraphBuilder):
                 if read_edge.is_prerequisite:
                     continue
                 dataset_type_node = subgraph.dataset_types[read_edge.parent_dataset_type_name]
+                if input_refs is not None and dataset_type_node.dimensions not in self.data_ids:
+                    continue
                 data_id = self._get_data_id(
                     dataset_type_node.dimensions,
                     context=f"input {task_node.label}.{read_edge.connection_name}",
-- 
2.43.0

