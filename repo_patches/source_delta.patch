From e39f8bc00c383033e2e405803ac660a5eb3294cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:29 +0000
Subject: [PATCH 01/33] fix: hooks ran for updates that were only collected and
 groups recorded proposals as taken actions

---
 causy/common_pipeline_steps/logic.py | 12 +++++++-----
 causy/graph_model.py                 | 15 +++++++++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/causy/common_pipeline_steps/logic.py b/causy/common_pipeline_steps/logic.py
index 93b8f08..a927b87 100644
--- a/causy/common_pipeline_steps/logic.py
+++ b/causy/common_pipeline_steps/logic.py
@@ -80,13 +80,12 @@ class ApplyActionsTogether(
         :param graph_model_instance_:
         :return:
         """
-        actions = []
         steps = []
         loop_started = time.time()
         for pipeline_step in self.pipeline_steps:
             started = time.time()
             (
-                actions_taken,
+                _,
                 all_proposed_actions,
             ) = graph_model_instance_.execute_pipeline_step(
                 pipeline_step, apply_to_graph=False
@@ -94,14 +93,17 @@ class ApplyActionsTogether(
             steps.append(
                 ActionHistoryStep(
                     name=pipeline_step.name,
-                    actions=actions_taken,
                     all_proposed_actions=all_proposed_actions,
                     duration=time.time() - started,
                 )
             )
-            actions.extend(actions_taken)
 
-        graph_model_instance_._take_action(actions)
+        # only the actions which really changed the graph are recorded as taken
+        for step in steps:
+            (
+                step.actions,
+                step.all_proposed_actions,
+            ) = graph_model_instance_._take_action(step.all_proposed_actions)
 
         return ActionHistoryStep(
             name=self.name,
diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..b7552b9 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -311,9 +311,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 continue
             if not isinstance(result_items, list):
                 result_items = [result_items]
-            result_items = self._execute_pre_graph_update_hooks(
-                self.algorithm.pre_graph_update_hooks, self.graph, result_items
-            )
+            if not dry_run:
+                # in a dry run the hooks are called when the actions are applied
+                result_items = self._execute_pre_graph_update_hooks(
+                    self.algorithm.pre_graph_update_hooks, self.graph, result_items
+                )
             actions_taken = []
             all_actions.extend(result_items)
             for i in result_items:
@@ -424,9 +426,10 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 # add the action to the actions history
                 actions_taken.append(i)
             all_actions_taken.extend(actions_taken)
-            self._execute_post_graph_update_hooks(
-                self.algorithm.post_graph_update_hooks, self.graph, actions_taken
-            )
+            if not dry_run:
+                self._execute_post_graph_update_hooks(
+                    self.algorithm.post_graph_update_hooks, self.graph, actions_taken
+                )
         return all_actions_taken, all_actions
 
     def execute_pipeline_step(
-- 
2.43.0


From ac3a5bbe2053ab313211ebb41b0d18af2649c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:31 +0000
Subject: [PATCH 02/33] fix: edges removed by a group of steps were still used
 by the orientation rules

---
 causy/graph_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index b7552b9..746caf7 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -209,6 +209,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             if isinstance(filter, LogicStepInterface):
                 actions_taken = filter.execute(self.graph.graph, self)
                 self.graph.graph.action_history.append(actions_taken)
+                self.graph.purge_soft_deleted_edges()
                 continue
             yield {
                 "step": filter.__class__.__name__,
-- 
2.43.0


From 972f33a23b044cb805afc3b4effbf34e4713c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:31 +0000
Subject: [PATCH 03/33] fix: results depended on the interpreter's hash seed

---
 .../constraint/orientation_rules/fci.py          |  4 +---
 .../constraint/orientation_rules/pc.py           | 16 ++++++----------
 causy/generators.py                              | 13 ++++++-------
 causy/graph_model.py                             |  2 +-
 causy/sample_generator.py                        |  1 +
 5 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/fci.py b/causy/causal_discovery/constraint/orientation_rules/fci.py
index 0012ab7..7c7d832 100644
--- a/causy/causal_discovery/constraint/orientation_rules/fci.py
+++ b/causy/causal_discovery/constraint/orientation_rules/fci.py
@@ -52,9 +52,7 @@ class ColliderRuleFCI(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..9942d30 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -116,9 +116,7 @@ class ColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
@@ -242,9 +240,7 @@ class NonColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
         for z in potential_zs:
@@ -385,13 +381,13 @@ class OrientQuadrupleTest(
         y = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(y, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
@@ -453,13 +449,13 @@ class FurtherOrientQuadrupleTest(
         x = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(x, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..b575edc 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -153,13 +153,12 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
                         yield [[node, neighbour]]
                         continue
 
-                    other_neighbours = set(
-                        [
-                            k
-                            for k, value in graph.edges[node].items()
-                            if graph.directed_edge_exists(k, node)
-                        ]
-                    )
+                    # keep the order of the graph, a set would depend on the hash seed
+                    other_neighbours = [
+                        k
+                        for k, value in graph.edges[node].items()
+                        if graph.directed_edge_exists(k, node)
+                    ]
                     logger.info(f"other_neighbors before removal={other_neighbours}")
 
                     if neighbour in other_neighbours:
diff --git a/causy/graph_model.py b/causy/graph_model.py
index 746caf7..7668ece 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -561,7 +561,7 @@ def graph_model_factory(
             if not inspect.isabstract(extension.GraphAccessMixin):
                 bases += (extension.GraphAccessMixin,)
 
-    Graph.__bases__ = tuple(set(Graph.__bases__ + bases))
+    Graph.__bases__ = tuple(dict.fromkeys(Graph.__bases__ + bases))
 
     class GraphModel(AbstractGraphModel):
         # store the original algorithm for later use like ejecting it without the resolved variables
diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 306b499..0dd5a96 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -258,6 +258,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
         random: Callable = random_normal,  # for setting that to a fixed value for testing use random = lambda: 0
     ):
         super().__init__(edges, random)
+        self._variables = sorted(self._variables)
         self._longest_lag = max(
             [abs(edge.from_node.point_in_time) for edge in self._edges]
         )
-- 
2.43.0


From f54bfb43b7f52f2d61444b3aa0b5f225a87d9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:50 +0000
Subject: [PATCH 04/33] fix: a workspace command cut short left a torn or empty
 workspace file

---
 causy/workspaces/cli.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..9605a3d 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -77,6 +77,25 @@ def show_success(message: str):
     typer.echo(f"✅ {message}")
 
 
+def _write_file_atomically(path: str, content: str):
+    """
+    Write a file so that it is either written completely or not at all, also if the process gets killed or the disk is full.
+    :param path: the path of the file
+    :param content: the content of the file
+    """
+    temporary_path = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(temporary_path, "w") as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temporary_path, path)
+    except BaseException:
+        if os.path.exists(temporary_path):
+            os.remove(temporary_path)
+        raise
+
+
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
     ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
@@ -87,8 +106,7 @@ def write_to_workspace(workspace: Workspace):
         ),
     )
     output = yaml.dump(ordered_val)
-    with open(workspace_path, "w") as f:
-        f.write(output)
+    _write_file_atomically(workspace_path, output)
 
 
 def _current_workspace(fail_if_none: bool = True) -> Workspace:
@@ -700,8 +718,7 @@ def init():
         if configure_experiment:
             workspace = _create_experiment(workspace)
 
-    with open(workspace_path, "w") as f:
-        f.write(pydantic_yaml.to_yaml_str(workspace))
+    _write_file_atomically(workspace_path, pydantic_yaml.to_yaml_str(workspace))
 
     typer.echo(f"Workspace created in {workspace_path}")
 
-- 
2.43.0


From e1fe37fe53c69042ec590140361504afaa56c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:10 +0000
Subject: [PATCH 05/33] fix: experiment results were overwritten, torn or not
 the latest version

---
 causy/workspaces/cli.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 9605a3d..fc32df5 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -383,9 +383,15 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
 
 
 def _save_experiment_result(workspace: Workspace, experiment_name: str, result: Result):
-    timestamp = int(datetime.timestamp(result.created_at))
-    with open(f"{experiment_name}_{timestamp}.json", "w") as f:
-        f.write(json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4))
+    version = int(datetime.timestamp(result.created_at))
+    versions = _load_experiment_versions(workspace, experiment_name)
+    if len(versions) > 0:
+        # the clock might have been set back or this is the second execution in the same second
+        version = max(version, versions[0] + 1)
+    _write_file_atomically(
+        f"{experiment_name}_{version}.json",
+        json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4),
+    )
 
 
 @pipeline_app.command(name="add")
-- 
2.43.0


From 4da8319580e747f54cd1be1450d2965fa1d0ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:10 +0000
Subject: [PATCH 06/33] fix: commands failed on files which only look like
 experiment results

---
 causy/workspaces/cli.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index fc32df5..2c2b380 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -8,6 +8,7 @@ import pydantic_yaml
 import questionary
 import typer
 import os
+import re
 import sys
 
 import yaml
@@ -371,14 +372,10 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
     for file in os.listdir():
         # check for files if they have the right prefix followed by a unix timestamp (int) and the file extension, e.g. experiment_123456789.json.
         # Extract the unix timestamp
-        if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
-            segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
-            name = "_".join(segments[:-1])
-            if name != experiment_name:
-                # an experiment with a different name
-                continue
-            versions.append(timestamp)
+        # Other files, e.g. of an experiment with a different name or of the user, are ignored.
+        match = re.fullmatch(r"(.*)_(0|[1-9][0-9]*)\.json", file, flags=re.DOTALL)
+        if match is not None and match.group(1) == experiment_name:
+            versions.append(int(match.group(2)))
     return sorted(versions, reverse=True)
 
 
-- 
2.43.0


From 84ba257cc9442c027dd4436c5a1429b6cf5da53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:57 +0000
Subject: [PATCH 07/33] fix: the latest result in the ui got the label of
 another version

---
 causy/ui/server.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/causy/ui/server.py b/causy/ui/server.py
index 202f3bb..e3dff82 100644
--- a/causy/ui/server.py
+++ b/causy/ui/server.py
@@ -16,7 +16,6 @@ from causy.models import (
 from causy.serialization import load_algorithm_by_reference
 from causy.ui.models import ExtendedResult, ExtendedExperiment, ExperimentVersion
 from causy.workspaces.cli import (
-    _load_latest_experiment_result,
     _load_experiment_versions,
     _load_experiment_result,
 )
@@ -67,16 +66,20 @@ async def get_latest_experiment(experiment_name: str):
         raise HTTPException(404, "Experiment not found")
 
     try:
-        experiment = _load_latest_experiment_result(WORKSPACE, experiment_name)
+        versions = _load_experiment_versions(WORKSPACE, experiment_name)
+        if len(versions) == 0:
+            raise ValueError(
+                f"Experiment {experiment_name} not found in the file system"
+            )
+        # load exactly this version, there might be a newer one in the meantime
+        experiment = _load_experiment_result(WORKSPACE, experiment_name, versions[0])
+
+        experiment["algorithm"] = AlgorithmReference(**experiment["algorithm"])
+        experiment["version"] = versions[0]
+        experiment = ExtendedResult(**experiment)
     except Exception as e:
         raise HTTPException(400, str(e))
 
-    version = _load_experiment_versions(WORKSPACE, experiment_name)[0]
-
-    experiment["algorithm"] = AlgorithmReference(**experiment["algorithm"])
-    experiment["version"] = version
-    experiment = ExtendedResult(**experiment)
-
     return experiment
 
 
@@ -94,13 +97,13 @@ async def get_experiment(experiment_name: str, version_number: int):
 
     try:
         experiment = _load_experiment_result(WORKSPACE, experiment_name, version_number)
+
+        experiment["algorithm"] = AlgorithmReference(**experiment["algorithm"])
+        experiment["version"] = version_number
+        experiment = ExtendedResult(**experiment)
     except Exception as e:
         raise HTTPException(400, str(e))
 
-    experiment["algorithm"] = AlgorithmReference(**experiment["algorithm"])
-    experiment["version"] = version_number
-    experiment = ExtendedResult(**experiment)
-
     return experiment
 
 
-- 
2.43.0


From a6872507479793cb72632d5d4e0e4795a2625993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:57 +0000
Subject: [PATCH 08/33] fix: results were labelled with the hash of data they
 were not computed from

---
 causy/workspaces/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 2c2b380..4935ab6 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -297,6 +297,8 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
+    # hash the data before it is loaded: if it changes in between, the experiment gets re-executed the next time
+    data_loader_hash = data_loader.hash()
     model = graph_model_factory(pipeline, experiment.variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
@@ -327,7 +329,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         edges=model.graph.retrieve_edges(),
         nodes=model.graph.nodes,
         variables=variables,
-        data_loader_hash=data_loader.hash(),
+        data_loader_hash=data_loader_hash,
         algorithm_hash=pipeline.hash(),
         variables_hash=hash_dictionary(variables),
     )
-- 
2.43.0


From 5ec52eaac2314765b25ab3883aa53b2a80e4f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:57 +0000
Subject: [PATCH 09/33] fix: experiments which do not set all variables could
 not be executed

---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 4935ab6..a749627 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -299,7 +299,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
     # hash the data before it is loaded: if it changes in between, the experiment gets re-executed the next time
     data_loader_hash = data_loader.hash()
-    model = graph_model_factory(pipeline, experiment.variables)()
+    model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
     task_count = len(model.pipeline_steps)
-- 
2.43.0


From 39d08e3df0683f0747cc1f8c84a8ce0d41227cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:57 +0000
Subject: [PATCH 10/33] fix: python pipelines kept the variables of the first
 experiment using them

---
 causy/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..87e095f 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -83,7 +83,7 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         st_function = getattr(module, ref_)
         if not st_function:
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function()._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From ebb3e29515896ab685ea7d8824097124c421a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 11/33] fix: boolean variables of experiments were stored as
 floats

---
 causy/workspaces/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/models.py b/causy/workspaces/models.py
index dbf1c4d..8900c23 100644
--- a/causy/workspaces/models.py
+++ b/causy/workspaces/models.py
@@ -1,6 +1,6 @@
 from typing import Optional, Dict
 
-from pydantic import BaseModel
+from pydantic import BaseModel, field_serializer
 
 from causy.data_loader import DataLoaderReference
 from causy.models import AlgorithmReference, Algorithm
@@ -18,6 +18,11 @@ class Experiment(BaseModel):
     dataloader: str
     variables: Optional[Dict[str, VariableType]] = {}
 
+    @field_serializer("variables")
+    def _serialize_variables(self, variables):
+        # by default pydantic serializes booleans in this union as floats
+        return variables
+
 
 class Workspace(BaseModel):
     name: str
-- 
2.43.0


From b6a4d3a59291f79c7a26f70d1549cbf5f15cfaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 12/33] fix: names like 1e5 or 08 made the workspace file
 unreadable

---
 causy/workspaces/cli.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index a749627..1b253b7 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,6 +1,5 @@
 import json
 import logging
-from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
 
@@ -11,7 +10,6 @@ import os
 import re
 import sys
 
-import yaml
 from markdown.extensions.toc import slugify
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
@@ -99,15 +97,8 @@ def _write_file_atomically(path: str, content: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
-    yaml.add_representer(
-        OrderedDict,
-        lambda dumper, data: dumper.represent_mapping(
-            "tag:yaml.org,2002:map", data.items()
-        ),
-    )
-    output = yaml.dump(ordered_val)
-    _write_file_atomically(workspace_path, output)
+    # the yaml dialect has to be the same as the one used for reading it, e.g. 1e5 is a string in YAML 1.1
+    _write_file_atomically(workspace_path, pydantic_yaml.to_yaml_str(workspace))
 
 
 def _current_workspace(fail_if_none: bool = True) -> Workspace:
-- 
2.43.0


From 8372c341fcd53ed59d95e21be7da5c73d9ef2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 13/33] fix: update-variable stored true for false and values
 which can not be read again

---
 causy/workspaces/cli.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 1b253b7..ec183e6 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import math
 from datetime import datetime
 from typing import List, Dict
 
@@ -11,6 +12,7 @@ import re
 import sys
 
 from markdown.extensions.toc import slugify
+from pydantic import TypeAdapter
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
     Environment,
@@ -558,7 +560,14 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
+        if current_variable._PYTHON_TYPE is bool:
+            # bool("false") is True
+            variable_value = TypeAdapter(bool).validate_python(variable_value)
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
+        if isinstance(variable_value, float) and not math.isfinite(variable_value):
+            # can not be stored in the workspace
+            raise ValueError("Value is not finite.")
     except ValueError:
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
-- 
2.43.0


From 5955501a42f89307ba88dd6f5d28bd2d1a421bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:49 +0000
Subject: [PATCH 14/33] fix: experiments without variables (null) could not be
 executed or updated

---
 causy/workspaces/cli.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index ec183e6..bef69b1 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -284,8 +284,9 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         workspace.pipelines[experiment.pipeline].reference,
     )
 
-    validate_variable_values(pipeline, experiment.variables)
-    variables = resolve_variables(pipeline.variables, experiment.variables)
+    experiment_variables = experiment.variables or {}
+    validate_variable_values(pipeline, experiment_variables)
+    variables = resolve_variables(pipeline.variables, experiment_variables)
     typer.echo(f"Using variables: {variables}")
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
@@ -450,8 +451,9 @@ def _experiment_needs_reexecution(workspace: Workspace, experiment_name: str) ->
         workspace.pipelines[experiment.pipeline].reference,
     )
 
-    validate_variable_values(pipeline, experiment.variables)
-    variables = resolve_variables(pipeline.variables, experiment.variables)
+    experiment_variables = experiment.variables or {}
+    validate_variable_values(pipeline, experiment_variables)
+    variables = resolve_variables(pipeline.variables, experiment_variables)
 
     if latest_experiment.variables_hash != hash_dictionary(variables):
         logger.info(f"Experiment {experiment_name} has different variables.")
@@ -579,7 +581,10 @@ def update_experiment_variable(
         show_error(f"Variable {variable_name} is not a valid value.")
         return
 
-    experiment.variables[variable_name] = variable_value
+    experiment.variables = {
+        **(experiment.variables or {}),
+        variable_name: variable_value,
+    }
 
     write_to_workspace(workspace)
 
-- 
2.43.0


From 55949c7ce1dab728f04109d41b3b3c54410adc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:19 +0000
Subject: [PATCH 15/33] fix: aborting a question did not abort the command

---
 causy/workspaces/cli.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index bef69b1..72c3af5 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -144,14 +144,14 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
                 "Create a pipeline skeleton (as a python module).", "SKELETON"
             ),
         ],
-    ).ask()
+    ).unsafe_ask()
 
     if pipeline_creation == "PRECONFIGURED":
         from causy.causal_discovery.constraint.algorithms import AVAILABLE_ALGORITHMS
 
         pipeline_reference = questionary.select(
             "Which pipeline do you want to use?", choices=AVAILABLE_ALGORITHMS.keys()
-        ).ask()
+        ).unsafe_ask()
         pipeline_reference = AVAILABLE_ALGORITHMS[pipeline_reference]
         # make pipeline reference as string
         pipeline = AlgorithmReference(
@@ -159,7 +159,7 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
             type=AlgorithmReferenceType.NAME,
         )
 
-        pipeline_name = questionary.text("Enter the name of the pipeline").ask()
+        pipeline_name = questionary.text("Enter the name of the pipeline").unsafe_ask()
         pipeline_name = slugify(pipeline_name, "_")
 
         workspace.pipelines[pipeline_name] = pipeline
@@ -168,9 +168,9 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
 
         pipeline_skeleton = questionary.select(
             "Which pipeline do you want to use?", choices=AVAILABLE_ALGORITHMS.keys()
-        ).ask()
+        ).unsafe_ask()
         pipeline_reference = AVAILABLE_ALGORITHMS[pipeline_skeleton]
-        pipeline_name = questionary.text("Enter the name of the pipeline").ask()
+        pipeline_name = questionary.text("Enter the name of the pipeline").unsafe_ask()
         pipeline_slug = slugify(pipeline_name, "_")
         with open(f"{pipeline_slug}.yml", "w") as f:
             f.write(to_yaml_str(pipeline_reference()._original_algorithm))
@@ -181,7 +181,7 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
 
         workspace.pipelines[pipeline_name] = pipeline
     elif pipeline_creation == "SKELETON":
-        pipeline_name = questionary.text("Enter the name of the pipeline").ask()
+        pipeline_name = questionary.text("Enter the name of the pipeline").unsafe_ask()
         pipeline_slug = slugify(pipeline_name, "_")
         JINJA_ENV.get_template("pipeline.py.tpl").stream(
             pipeline_name=pipeline_name
@@ -198,14 +198,14 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
 
 
 def _create_experiment(workspace: Workspace) -> Workspace:
-    experiment_name = questionary.text("Enter the name of the experiment").ask()
+    experiment_name = questionary.text("Enter the name of the experiment").unsafe_ask()
     experiment_pipeline = questionary.select(
         "Select the pipeline for the experiment", choices=workspace.pipelines.keys()
-    ).ask()
+    ).unsafe_ask()
     experiment_data_loader = questionary.select(
         "Select the data loader for the experiment",
         choices=workspace.dataloaders.keys(),
-    ).ask()
+    ).unsafe_ask()
 
     experiment_slug = slugify(experiment_name, "_")
 
@@ -239,14 +239,14 @@ def _create_data_loader(workspace: Workspace) -> Workspace:
             questionary.Choice("Load a JSONL File.", "jsonl"),
             questionary.Choice("Load data dynamically (via Python Script).", "dynamic"),
         ],
-    ).ask()
+    ).unsafe_ask()
 
-    data_loader_name = questionary.text("Enter the name of the data loader").ask()
+    data_loader_name = questionary.text("Enter the name of the data loader").unsafe_ask()
 
     if data_loader_type in ["json", "jsonl"]:
         data_loader_path = questionary.path(
             "Choose the file or enter the file name:",
-        ).ask()
+        ).unsafe_ask()
         data_loader_slug = slugify(data_loader_name, "_")
         workspace.dataloaders[data_loader_slug] = DataLoaderReference(
             **{
@@ -688,15 +688,15 @@ def init():
                     "Load data dynamically (via Python Script).", "dynamic"
                 ),
             ],
-        ).ask()
+        ).unsafe_ask()
 
         if data_loader_type in ["json", "jsonl"]:
             data_loader_path = questionary.path(
                 "Choose the file or enter the file name:",
-            ).ask()
+            ).unsafe_ask()
             data_loader_name = questionary.text(
                 "Enter the name of the data loader"
-            ).ask()
+            ).unsafe_ask()
             data_loader_slug = slugify(data_loader_name, "_")
             workspace.dataloaders[data_loader_slug] = DataLoaderReference(
                 **{
@@ -707,7 +707,7 @@ def init():
         elif data_loader_type == "dynamic":
             data_loader_name = questionary.text(
                 "Enter the name of the data loader"
-            ).ask()
+            ).unsafe_ask()
             data_loader_slug = slugify(data_loader_name, "_")
             JINJA_ENV.get_template("dataloader.py.tpl").stream(
                 data_loader_name=data_loader_name
-- 
2.43.0


From 0ffbb3e69bcdc0d5de77f07b152d26e8d64db5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:19 +0000
Subject: [PATCH 16/33] fix: an aborted init left files behind or overwrote
 them

---
 causy/workspaces/cli.py | 56 ++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 72c3af5..13caeaf 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -97,6 +97,15 @@ def _write_file_atomically(path: str, content: str):
         raise
 
 
+def _write_files(files: Dict[str, str]):
+    """
+    Write the files created by a command after all of its questions are answered.
+    :param files: the content of the files by their path
+    """
+    for path, content in files.items():
+        _write_file_atomically(path, content)
+
+
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
     # the yaml dialect has to be the same as the one used for reading it, e.g. 1e5 is a string in YAML 1.1
@@ -129,7 +138,7 @@ def _current_workspace(fail_if_none: bool = True) -> Workspace:
     return workspace
 
 
-def _create_pipeline(workspace: Workspace = None) -> Workspace:
+def _create_pipeline(workspace: Workspace, files: Dict[str, str]) -> Workspace:
     pipeline_creation = questionary.select(
         "Do you want to use an existing pipeline or create a new one?",
         choices=[
@@ -172,8 +181,9 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
         pipeline_reference = AVAILABLE_ALGORITHMS[pipeline_skeleton]
         pipeline_name = questionary.text("Enter the name of the pipeline").unsafe_ask()
         pipeline_slug = slugify(pipeline_name, "_")
-        with open(f"{pipeline_slug}.yml", "w") as f:
-            f.write(to_yaml_str(pipeline_reference()._original_algorithm))
+        files[f"{pipeline_slug}.yml"] = to_yaml_str(
+            pipeline_reference()._original_algorithm
+        )
 
         pipeline = AlgorithmReference(
             reference=f"{pipeline_slug}.yml", type=AlgorithmReferenceType.FILE
@@ -183,9 +193,9 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
     elif pipeline_creation == "SKELETON":
         pipeline_name = questionary.text("Enter the name of the pipeline").unsafe_ask()
         pipeline_slug = slugify(pipeline_name, "_")
-        JINJA_ENV.get_template("pipeline.py.tpl").stream(
+        files[f"{pipeline_slug}.py"] = JINJA_ENV.get_template("pipeline.py.tpl").render(
             pipeline_name=pipeline_name
-        ).dump(f"{pipeline_slug}.py")
+        )
         pipeline = AlgorithmReference(
             reference=f"{pipeline_slug}.PIPELINE",
             type=AlgorithmReferenceType.PYTHON_MODULE,
@@ -197,7 +207,7 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
     return workspace
 
 
-def _create_experiment(workspace: Workspace) -> Workspace:
+def _create_experiment(workspace: Workspace, files: Dict[str, str]) -> Workspace:
     experiment_name = questionary.text("Enter the name of the experiment").unsafe_ask()
     experiment_pipeline = questionary.select(
         "Select the pipeline for the experiment", choices=workspace.pipelines.keys()
@@ -209,6 +219,9 @@ def _create_experiment(workspace: Workspace) -> Workspace:
 
     experiment_slug = slugify(experiment_name, "_")
 
+    # the pipeline might be one of the files
+    _write_files(files)
+
     # extract and prefill the variables
     variables = {}
     pipeline = load_algorithm_by_reference(
@@ -231,7 +244,7 @@ def _create_experiment(workspace: Workspace) -> Workspace:
     return workspace
 
 
-def _create_data_loader(workspace: Workspace) -> Workspace:
+def _create_data_loader(workspace: Workspace, files: Dict[str, str]) -> Workspace:
     data_loader_type = questionary.select(
         "Do you want to use an existing pipeline or create a new one?",
         choices=[
@@ -256,9 +269,9 @@ def _create_data_loader(workspace: Workspace) -> Workspace:
         )
     elif data_loader_type == "dynamic":
         data_loader_slug = slugify(data_loader_name, "_")
-        JINJA_ENV.get_template("dataloader.py.tpl").stream(
-            data_loader_name=data_loader_name
-        ).dump(f"{data_loader_slug}.py")
+        files[f"{data_loader_slug}.py"] = JINJA_ENV.get_template(
+            "dataloader.py.tpl"
+        ).render(data_loader_name=data_loader_name)
         workspace.dataloaders[data_loader_slug] = DataLoaderReference(
             **{
                 "type": data_loader_type,
@@ -391,8 +404,10 @@ def _save_experiment_result(workspace: Workspace, experiment_name: str, result:
 def create_pipeline():
     """Create a new pipeline in the current workspace."""
     workspace = _current_workspace()
-    workspace = _create_pipeline(workspace)
+    files = {}
+    workspace = _create_pipeline(workspace, files)
 
+    _write_files(files)
     write_to_workspace(workspace)
 
 
@@ -490,7 +505,7 @@ def _clear_experiment(experiment_name: str, workspace: Workspace):
 def create_experiment():
     """Create a new experiment in the current workspace."""
     workspace = _current_workspace()
-    workspace = _create_experiment(workspace)
+    workspace = _create_experiment(workspace, {})
 
     write_to_workspace(workspace)
 
@@ -595,8 +610,10 @@ def update_experiment_variable(
 def create_data_loader():
     """Create a new data loader in the current workspace."""
     workspace = _current_workspace()
-    workspace = _create_data_loader(workspace)
+    files = {}
+    workspace = _create_data_loader(workspace, files)
 
+    _write_files(files)
     write_to_workspace(workspace)
 
 
@@ -669,9 +686,11 @@ def init():
         "Do you want to configure a pipeline?", default=False
     )
 
+    files = {}
+
     workspace.pipelines = {}
     if configure_pipeline:
-        workspace = _create_pipeline(workspace)
+        workspace = _create_pipeline(workspace, files)
 
     configure_data_loader = typer.confirm(
         "Do you want to configure a data loader?", default=False
@@ -709,9 +728,9 @@ def init():
                 "Enter the name of the data loader"
             ).unsafe_ask()
             data_loader_slug = slugify(data_loader_name, "_")
-            JINJA_ENV.get_template("dataloader.py.tpl").stream(
-                data_loader_name=data_loader_name
-            ).dump(f"{data_loader_slug}.py")
+            files[f"{data_loader_slug}.py"] = JINJA_ENV.get_template(
+                "dataloader.py.tpl"
+            ).render(data_loader_name=data_loader_name)
             workspace.dataloaders[data_loader_slug] = DataLoaderReference(
                 **{
                     "type": data_loader_type,
@@ -726,8 +745,9 @@ def init():
         )
 
         if configure_experiment:
-            workspace = _create_experiment(workspace)
+            workspace = _create_experiment(workspace, files)
 
+    _write_files(files)
     _write_file_atomically(workspace_path, pydantic_yaml.to_yaml_str(workspace))
 
     typer.echo(f"Workspace created in {workspace_path}")
-- 
2.43.0


From 7724418973089994e3578fbf08ca50ac2926380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:26 +0000
Subject: [PATCH 17/33] fix: pipeline files with enum settings (e.g. the
 collider test) could not be loaded

---
 causy/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/variables.py b/causy/variables.py
index bf59625..1d692dd 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,7 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        if hasattr(value, "__dict__") and not isinstance(value, enum.Enum):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From 330788d01a11974723d7be106a6a7621d858228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:48 +0000
Subject: [PATCH 18/33] fix: ejected pipelines could not be executed because of
 their edge types

---
 causy/serialization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causy/serialization.py b/causy/serialization.py
index 87e095f..0c7e0cc 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -43,6 +43,12 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     algorithm_dict["variables"] = [
         deserialize_variable(variable) for variable in algorithm_dict["variables"]
     ]
+    algorithm_dict["edge_types"] = [
+        EDGE_TYPES[edge_type["name"]](**edge_type)
+        if isinstance(edge_type, dict)
+        else edge_type
+        for edge_type in algorithm_dict.get("edge_types") or []
+    ]
     from causy.models import Algorithm
 
     return TypeAdapter(Algorithm).validate_python(algorithm_dict)
-- 
2.43.0


From abedac08e82e022b537f443276cb4c9849a32af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:53 +0000
Subject: [PATCH 19/33] fix: a StopIteration raised in a worker silently ended
 the step

Its exception ended the iteration over the results of the pool, and the
execution went on and reported success with the results missing.
---
 causy/graph_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causy/graph_utils.py b/causy/graph_utils.py
index b49c6ca..a00da02 100644
--- a/causy/graph_utils.py
+++ b/causy/graph_utils.py
@@ -9,7 +9,11 @@ from causy.variables import deserialize_variable_references
 def unpack_run(args):
     tst = args[0]
     del args[0]
-    return tst(*args)
+    try:
+        return tst(*args)
+    except StopIteration as e:
+        # a worker's StopIteration would silently end the iteration over the results of all workers
+        raise RuntimeError("pipeline step raised StopIteration") from e
 
 
 def serialize_module_name(cls):
-- 
2.43.0


From 5c96c14a2d72dbf1faf0edec912d0499c0b1d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:57 +0000
Subject: [PATCH 20/33] fix: results with NaN values could not be served by the
 ui

Constant variables have no correlation (NaN), which made every request for
the result fail with an internal server error.
---
 causy/ui/server.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/causy/ui/server.py b/causy/ui/server.py
index e3dff82..181236e 100644
--- a/causy/ui/server.py
+++ b/causy/ui/server.py
@@ -1,4 +1,5 @@
 import logging
+import math
 import os
 from datetime import datetime
 from importlib.metadata import version
@@ -21,6 +22,7 @@ from causy.workspaces.cli import (
 )
 from causy.workspaces.models import Workspace
 from fastapi import APIRouter, HTTPException
+from fastapi.responses import JSONResponse
 from starlette.staticfiles import StaticFiles
 
 logger = logging.getLogger(__name__)
@@ -29,6 +31,22 @@ MODEL: Optional[ExtendedResult] = None
 WORKSPACE: Optional[Workspace] = None
 
 
+def _replace_non_finite_numbers(content: Any) -> Any:
+    """NaN and infinite numbers, e.g. correlations of constant variables, do not exist in JSON."""
+    if isinstance(content, dict):
+        return {k: _replace_non_finite_numbers(v) for k, v in content.items()}
+    if isinstance(content, list):
+        return [_replace_non_finite_numbers(v) for v in content]
+    if isinstance(content, float) and not math.isfinite(content):
+        return None
+    return content
+
+
+class FiniteJSONResponse(JSONResponse):
+    def render(self, content: Any) -> bytes:
+        return super().render(_replace_non_finite_numbers(content))
+
+
 @API_ROUTES.get("/status", response_model=Dict[str, Any])
 async def get_status():
     """Get the current status of the API."""
@@ -153,6 +171,7 @@ def _create_ui_app(with_static=True):
         title="causy-api",
         version=version("causy"),
         description="causys internal api to serve data from the result files",
+        default_response_class=FiniteJSONResponse,
     )
     app.include_router(API_ROUTES, prefix="/api/v1", tags=["api"])
     if with_static:
-- 
2.43.0


From 7c58b04b2914aa28f55ff772517c2433e4d99da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:17 +0000
Subject: [PATCH 21/33] fix: the ui could not list experiments with a result
 file whose number is no timestamp

datetime.fromtimestamp fails for numbers such as 20240101120000, which made
the request for all experiments fail with an internal server error.
---
 causy/ui/server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/causy/ui/server.py b/causy/ui/server.py
index 181236e..31a8bf6 100644
--- a/causy/ui/server.py
+++ b/causy/ui/server.py
@@ -136,10 +136,15 @@ async def get_experiments():
         extended_experiment = ExtendedExperiment(**experiment.model_dump())
         versions = []
         for experiment_version in _load_experiment_versions(WORKSPACE, experiment_name):
+            try:
+                version_name = datetime.fromtimestamp(experiment_version).isoformat()
+            except (ValueError, OverflowError, OSError):
+                # not a timestamp, e.g. a copy of a result with a date in its name (experiment_20240101120000.json)
+                version_name = str(experiment_version)
             versions.append(
                 ExperimentVersion(
                     version=experiment_version,
-                    name=datetime.fromtimestamp(experiment_version).isoformat(),
+                    name=version_name,
                 )
             )
         extended_experiment.versions = versions
-- 
2.43.0


From dcf67a18d8af4ada6a186b341c346b5ab7aa6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:23 +0000
Subject: [PATCH 22/33] fix: workspace diff did not show the direction of edges

---
 causy/workspaces/cli.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 13caeaf..e5f03bd 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -27,6 +27,7 @@ from rich.table import Table
 
 from causy.graph_model import graph_model_factory
 from causy.graph_utils import hash_dictionary
+from causy.interfaces import EdgeInterface, NodeInterface
 from causy.models import (
     AlgorithmReference,
     AlgorithmReferenceType,
@@ -787,6 +788,16 @@ def execute(experiment_name: str = None, force_reexecution: bool = False):
         _save_experiment_result(workspace, experiment_name, result)
 
 
+def _edge_representation(edge: EdgeInterface, from_node: NodeInterface) -> str:
+    """
+    Return the string representation of an edge when it is read starting at the given node.
+    """
+    representation = edge.edge_type.STR_REPRESENTATION
+    if edge.edge_type.IS_DIRECTED and edge.u != from_node:
+        representation = representation[::-1].translate(str.maketrans("<>", "><"))
+    return representation
+
+
 @workspace_app.command()
 def diff(experiment_names: List[str], only_differences: bool = False):
     """
@@ -886,7 +897,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
         table.add_row(
             *[f"{first_element.u.name} - {first_element.v.name}"]
             + [
-                f"{row[experiment].edge_type.STR_REPRESENTATION}"
+                _edge_representation(row[experiment], first_element.u)
                 if row[experiment]
                 else ""
                 for experiment in resolved_experiments
-- 
2.43.0


From c22528134e253acd74c0a0254c0933ee3e39f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:23 +0000
Subject: [PATCH 23/33] fix: workspace diff swallowed parts of names in square
 brackets

---
 causy/workspaces/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index e5f03bd..f8a08ff 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -22,6 +22,7 @@ from jinja2 import (
     PackageLoader,
 )
 from rich.console import Console
+from rich.markup import escape
 from rich.progress import Progress, SpinnerColumn, TextColumn
 from rich.table import Table
 
@@ -881,7 +882,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
     table.add_column("Edge")
 
     for experiment in resolved_experiments:
-        table.add_column(experiment, justify="center")
+        table.add_column(escape(experiment), justify="center")
 
     for row in experiment_table:
         elements = [key for key in row.values()]
@@ -895,7 +896,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
         if only_differences and all_elements_same:
             continue
         table.add_row(
-            *[f"{first_element.u.name} - {first_element.v.name}"]
+            *[escape(f"{first_element.u.name} - {first_element.v.name}")]
             + [
                 _edge_representation(row[experiment], first_element.u)
                 if row[experiment]
-- 
2.43.0


From b864a15f9de8b22e332efe9a228cdb50497bd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:40 +0000
Subject: [PATCH 24/33] fix: directed_path_exists followed removed edges and
 did not end on undirected ones

---
 causy/graph.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..497c4ed 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -267,11 +267,19 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if self.directed_edge_exists(u, v):
-            return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
+        visited = set()
+        nodes_to_visit = [u]
+        while nodes_to_visit:
+            w = nodes_to_visit.pop()
+            if self.directed_edge_exists(w, v):
                 return True
+            visited.add(w)
+            # follow existing edges only (an edge might be soft deleted) and visit every node once
+            nodes_to_visit.extend(
+                child
+                for child in self.edges.get(w, {})
+                if child not in visited and self.directed_edge_exists(w, child)
+            )
         return False
 
     def edge_of_type_exists(
-- 
2.43.0


From 464964f511cc5b1c41cc1c2650912d9ec716109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:48 +0000
Subject: [PATCH 25/33] fix: remove_edge failed on edges with one direction

---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 497c4ed..56feded 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -783,12 +783,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 2b5dfd71cccc2d0d8d7ac55230c9bf194bcbdeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:21 +0000
Subject: [PATCH 26/33] fix: pipeline files outside of the workspace directory
 were accepted

commonprefix compares characters, so a reference into a sibling directory whose
name starts like the workspace's (../w.bak) passed, and realpath left links
unresolved which could not be looked up at that moment.
---
 causy/serialization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 0c7e0cc..ac424ff 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -59,9 +59,9 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
     if reference_type == AlgorithmReferenceType.FILE:
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
-        absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        # (strict, because otherwise parts of the path which can't be looked up are not resolved)
+        absolute_path = os.path.realpath(algorithm, strict=True)
+        if os.path.commonpath([os.getcwd(), absolute_path]) != os.getcwd():
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From 2e474722700265011cbd2771857da8c96fc7ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:06 +0000
Subject: [PATCH 27/33] fix: pipeline steps ignored settings given as False, 0
 or an empty text

A threshold of 0.0, parallel=False and the like were replaced by the defaults of
the step, so a stored pipeline did not run with the values it was written with.
---
 causy/interfaces.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..9c4b499 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -375,19 +375,19 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
-        if display_name:
+        if display_name is not None:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
     @computed_field
@@ -497,7 +497,7 @@ class LogicStepInterface(ABC, BaseModel, Generic[LogicStepInterfaceType]):
         self.pipeline_steps = pipeline_steps or []
         self.exit_condition = exit_condition
 
-        if display_name:
+        if display_name is not None:
             self.display_name = display_name
 
 
-- 
2.43.0


From c9d201e5087d1c9c076a13037a6f1f6da0fba463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:20 +0000
Subject: [PATCH 28/33] fix: ColliderTest ignored its
 conflict_resolution_strategy

The setting was accepted and dropped, for steps made in Python as well as for
steps loaded from a pipeline file.
---
 .../causal_discovery/constraint/orientation_rules/pc.py  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 9942d30..cf28088 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -89,6 +89,11 @@ class ColliderTest(
 
     needs_unapplied_actions: BoolParameter = True
 
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        if kwargs.get("conflict_resolution_strategy") is not None:
+            self.conflict_resolution_strategy = kwargs["conflict_resolution_strategy"]
+
     def process(
         self,
         nodes: Tuple[str],
@@ -142,7 +147,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -172,7 +177,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
-- 
2.43.0


From 692fedf25e3057f636f7470db8acb76b3f4e327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 29/33] fix: every collider on a path can block it, not only
 the last one

---
 causy/graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 56feded..3dc5ce7 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -348,15 +348,16 @@ class GraphBaseAccessMixin:
         Check if a path is blocked by a collider which is not in the conditioning set and has no descendants in the conditioning set.
         :return: Boolean indicating if the path is blocked
         """
-        is_path_blocked = False
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
-                is_path_blocked = True
-                for descendant in self.descendants_of_node(path[i]):
-                    if descendant in conditioning_set:
-                        is_path_blocked = False
-        return is_path_blocked
+                # (one blocking collider is enough to block the path)
+                if not any(
+                    descendant in conditioning_set
+                    for descendant in self.descendants_of_node(path[i])
+                ):
+                    return True
+        return False
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
         """
-- 
2.43.0


From 7f137c2267af6b002f39eaaa52cc425886870d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 30/33] fix: separation queries ignored ids in the conditioning
 set and accepted the queried nodes in it

---
 causy/graph.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 3dc5ce7..416bb66 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -401,8 +401,14 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # The paths consist of nodes
+        conditioning_set = [
+            self.node_by_id(node) if isinstance(node, str) else node
+            for node in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(node.id in (u, v) for node in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
@@ -450,8 +456,14 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # The paths consist of nodes
+        conditioning_set = [
+            self.node_by_id(node) if isinstance(node, str) else node
+            for node in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(node.id in (u, v) for node in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
-- 
2.43.0


From 1711810ac13276c72f09f9c95dd3adef4a728e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 31/33] fix: only paths of definite status can connect nodes of
 a CPDAG

---
 causy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 416bb66..0e5358b 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -475,14 +475,16 @@ class GraphBaseAccessMixin:
             # If the path only has two nodes, it cannot be blocked and is open. Therefore, u and v are not d-separated
             if len(path) == 2:
                 return False
+            # only paths of definite status are relevant
+            if not self._is_path_of_definite_status(path):
+                continue
             is_path_blocked = False
-            if self._is_path_of_definite_status(path):
-                if self._is_definite_noncollider_in_conditioning_set(
-                    path, conditioning_set
-                ):
-                    is_path_blocked = True
-                if self._is_a_collider_blocking(path, conditioning_set):
-                    is_path_blocked = True
+            if self._is_definite_noncollider_in_conditioning_set(
+                path, conditioning_set
+            ):
+                is_path_blocked = True
+            if self._is_a_collider_blocking(path, conditioning_set):
+                is_path_blocked = True
             list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
-- 
2.43.0


From a861cab4da0c790c7a676794bfc4223e5dafbec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 32/33] fix: refuse cyclic edges of an i.i.d. sample generator
 instead of looping forever

---
 causy/sample_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 0dd5a96..d96367c 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -155,6 +155,10 @@ class IIDSampleGenerator(AbstractSampleGenerator):
                     sorted_nodes.append(node)
                     nodes.remove(node)
                     break
+            else:
+                raise ValueError(
+                    f"The edges between {nodes} contain a cycle, which is not possible in i.i.d. data."
+                )
         return sorted_nodes
 
     def _generate_data(self, size):
-- 
2.43.0


From 4e2b6d4e02d55910b6aca1a4b4950cf664bc56fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 33/33] fix: effect estimation changed the edge before the
 update was applied

---
 causy/causal_effect_estimation/multivariate_regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..21b3995 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -31,7 +31,8 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             edge_data = graph.edge_value(cause_variable, effect_variable)
             return
 
-        edge_data = graph.edge_value(cause_variable, effect_variable)
+        # the edge itself only changes when the graph update is applied
+        edge_data = dict(graph.edge_value(cause_variable, effect_variable))
 
         all_parents_of_effect_variable = graph.parents_of_node(effect_variable)
         parents_of_effect_variable_without_cause_variable = [
-- 
2.43.0

