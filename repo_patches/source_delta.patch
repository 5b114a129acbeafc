From 2df86a921b9c814ec828bbd83a5a405998de8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 01/31] fix: notifying must tolerate killed subscribers

A subscriber that was killed but not (yet) deregistered still has a shut
down queue; put_nowait raised QueueShutDown out of notify_subscribers,
register and deregister, and the remaining subscribers were not notified.
---
 src/koreo/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 1c4f2f8..3621a3b 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -102,6 +102,9 @@ def notify_subscribers(notifier: Resource, event_time: float):
             subscriber.put_nowait(
                 ResourceEvent(resource=notifier, event_time=event_time)
             )
+        except asyncio.QueueShutDown:
+            # The subscriber was killed, but is not deregistered (yet).
+            pass
         except asyncio.QueueFull:
             pass
             # TODO: I think there is a way to monitor for stalled subscribers
-- 
2.43.0


From b856eb9a72a9f5f0911a2462f8d26786dd08b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 02/31] fix: extract access paths from expressions of any shape

extract_argument_structure raised for receivers which are literals, calls,
parenthesised or leading-dot expressions, mangled raw and escaped string
indexes, and turned computed indexes into references to unrelated names.
---
 src/koreo/cel/structure_extractor.py | 153 +++++++++------------------
 1 file changed, 52 insertions(+), 101 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 3a8d394..21b70e8 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -1,132 +1,83 @@
+from celpy.evaluation import celstr
 from lark import Tree, Token
 
 
 def extract_argument_structure(compiled: Tree) -> set[str]:
     var_map: set[str] = set()
     for thing in compiled.iter_subtrees():
-        if thing.data == "member_dot":
-            member_dot: str = _process_member_dot(thing)
-            var_map.add(member_dot)
+        if thing.data not in ("member_dot", "member_index"):
+            continue
 
-        if thing.data == "member_index":
-            member_index: str = _process_member_index(thing)
-            var_map.add(member_index)
+        # Access paths which are not statically known (the receiver is a
+        # literal or a call, or an index is computed) have no name. Any access
+        # path within them is its own subtree and is extracted on its own.
+        if path := _process_member(thing):
+            var_map.add(path)
 
     return var_map
 
 
-def _process_member_dot(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
+def _process_member(tree: Tree) -> str | None:
+    match tree.data:
+        case "member_dot":
+            terminal = f"{tree.children[1]}"
 
-    # print(f"{len(tree.children)}: {tree.children[0]}")
+        case "member_index":
+            terminal = _process_index(tree.children[1])
 
-    terminal = f"{tree.children[1]}"
+        case "primary":
+            return _process_primary(tree)
 
-    root: Tree = tree.children[0].children[0]
+        case _:
+            return None
 
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
+    root = _process_member(tree.children[0].children[0])
+    if not (root and terminal):
+        return None
 
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
+    return f"{root}.{terminal}"
 
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
 
-    if root.data == "primary":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
-
-
-def _process_member_dot_arg(tree: Tree):
-    if len(tree.children) != 3:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary" or root.data == "ident":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
-
-
-def _process_member_index(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal: Tree = tree.children[1]
-
-    if terminal.data == "primary":
-        terminal_value: str = _process_primary(terminal)
-
-    elif terminal.data == "expr":
-        terminal_value = None
-        while terminal and terminal.children:
-            if terminal.data == "primary":
-                terminal_value = _process_primary(terminal)
-                break
+def _process_primary(tree: Tree) -> str | None:
+    primary: Tree = tree.children[0]
 
-            terminal: Tree = terminal.children[0]
+    match primary.data:
+        case "ident" | "dot_ident":
+            return f"{primary.children[0]}"
 
-        if not terminal_value:
-            raise Exception(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
+        case "paren_expr":
+            inner = _unwrap(primary.children[0])
+            return _process_member(inner) if inner else None
 
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
+    return None
 
-    root: Tree = tree.children[0].children[0]
 
-    if root.data == "member_dot":
-        root_value = _process_member_dot(root)
-    elif root.data == "member_index":
-        root_value = _process_member_index(root)
-    elif root.data == "member_dot_arg":
-        root_value = _process_member_dot_arg(root)
-    elif root.data == "primary":
-        root_value: str = _process_primary(root)
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
+def _process_index(tree: Tree) -> str | None:
+    inner = _unwrap(tree)
+    if not inner or inner.data != "primary":
+        return None
 
-    return f"{root_value}.{terminal_value}"
+    primary: Tree = inner.children[0]
 
+    if primary.data == "paren_expr":
+        return _process_index(primary.children[0])
 
-def _process_primary(tree: Tree) -> str:
-    if len(tree.children) != 1:
-        raise Exception(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
+    if primary.data != "literal":
+        return None
 
-    primary: Tree = tree.children[0]
+    literal: Token = primary.children[0]
+    if literal.type in ("STRING_LIT", "MLSTRING_LIT"):
+        return f"{celstr(literal)}"
 
-    # print(f"{len(tree.children)}: {primary}")
+    return f"{literal}"
 
-    if primary.data == "ident":
-        return f"{primary.children[0]}"
 
-    if primary.data == "literal":
-        literal: Token = primary.children[0]
-        if literal.type == "INT_LIT":
-            return literal.value
-        return literal.strip(literal[0])
+def _unwrap(tree: Tree) -> Tree | None:
+    """The member or primary expression, if there are no operators."""
+    while tree.data != "member":
+        children = [child for child in tree.children if child is not None]
+        if len(children) != 1:
+            return None
+        tree = children[0]
 
-    raise Exception(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+    return tree.children[0]
-- 
2.43.0


From 4f500c6b0ecc5a9b4adf6d916b5d66ac3d6d1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 03/31] fix: only take names off the steps and parent variables

The unescaped dots matched any variable starting with 'steps' (and the
optional name could be None, which raised while building the error
message).
---
 src/koreo/workflow/prepare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 6a3ccbe..4693194 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -99,8 +99,8 @@ def _build_crd_ref(crd_ref_spec: dict) -> structure.ConfigCRDRef | None:
     return structure.ConfigCRDRef(api_group=api_group, version=version, kind=kind)
 
 
-PARENT_NAME_PATTERN = re.compile(r"parent.(?P<name>.*)")
-STEPS_NAME_PATTERN = re.compile(r"steps.(?P<name>[^.[]+)?\[?.*")
+PARENT_NAME_PATTERN = re.compile(r"parent\.(?P<name>.*)")
+STEPS_NAME_PATTERN = re.compile(r"steps\.(?P<name>[^.[]+)")
 
 
 LogicRegistryResource = registry.Resource[
-- 
2.43.0


From d8c49c736deb99c166d9abae000b3ee83b90ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 04/31] fix: watch the logic of steps that can not be prepared

A refSwitch with an invalid switchOn or two default cases, and a step with
a duplicated label, dropped the Functions and Workflows they name from the
watched resources.
---
 src/koreo/workflow/prepare.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 4693194..1ea90bf 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -138,6 +138,9 @@ def _load_steps(
                     condition=None,
                 )
             )
+            step_resources, _, _ = _load_step(cel_env, step_spec, known_steps)
+            if step_resources:
+                resources.update(step_resources)
             continue
         step_resources, step_logic, needed_parent_properties = _load_step(
             cel_env, step_spec, known_steps
@@ -552,41 +555,47 @@ def _load_logic_switch(
 ) -> tuple[set[LogicRegistryResource] | None, PermFail | Retry | structure.LogicSwitch]:
     dynamic_input_keys: set[str] = set()
 
+    cases_spec = logic_switch.get("cases") or []
+    loaded_cases = [
+        _load_logic(logic_ref=case_spec, location=f"{location}[{idx}]")
+        for idx, case_spec in enumerate(cases_spec)
+    ]
+
+    # Every case is watched, even if the switch can not be prepared (yet).
+    resources = set[LogicRegistryResource]()
+    for logic_resources, _ in loaded_cases:
+        if logic_resources:
+            resources.update(logic_resources)
+
     switch_on_spec = logic_switch.get("switchOn")
     match prepare_expression(cel_env=cel_env, spec=switch_on_spec, location=location):
         case None:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Missing `{location}.switchOn`, can not prepare Workflow.",
                 location=f"{location}.switchOn",
             )
         case PermFail() as err:
-            return None, err
+            return resources, err
         case celpy.Runner() as switch_on:
             dynamic_input_keys.update(extract_argument_structure(switch_on.ast))
 
-    cases_spec = logic_switch.get("cases")
     if not cases_spec:
-        return None, PermFail(
+        return resources, PermFail(
             message=f"Must specify at least one case in `{location}.cases`, can not prepare Workflow.",
             location=f"{location}.cases",
         )
 
     default_logic = None
     logic_map = {}
-    resources = set[LogicRegistryResource]()
-    for idx, case_spec in enumerate(cases_spec):
+    for idx, (case_spec, (_, logic)) in enumerate(zip(cases_spec, loaded_cases)):
         case = case_spec.get("case")
         is_default = case_spec.get("default")
         if is_default and default_logic:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Only one case in `{location}.cases` may be default, can not prepare Workflow.",
                 location=f"{location}.cases[{idx}].default",
             )
 
-        logic_resources, logic = _load_logic(
-            logic_ref=case_spec, location=f"{location}[{idx}]"
-        )
-
         logic_map[case] = logic
 
         if is_unwrapped_ok(logic):
@@ -600,9 +609,6 @@ def _load_logic_switch(
         if is_default:
             default_logic = logic
 
-        if logic_resources:
-            resources.update(logic_resources)
-
     functions_ready = unwrapped_combine(logic_map.values())
     if is_error(functions_ready):
         return resources, functions_ready
-- 
2.43.0


From 8fd4b2a8dc9d1445dd7594686d613f712bafc337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 05/31] fix: failing to render an error's location must not
 raise

celpy's tree_dump raises for some partial trees; that exception escaped
the handlers in evaluate, evaluate_predicates and evaluate_overlay.
---
 src/koreo/cel/evaluation.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index c9b4cee..912bec0 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -28,7 +28,7 @@ def evaluate(
         return expression_value
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -61,7 +61,7 @@ def evaluate_predicates(
         return predicate_to_koreo_result(raw_result, location=location)
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -96,7 +96,7 @@ def evaluate_overlay(
             )
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -140,8 +140,8 @@ def check_for_celevalerror(
     value: celtypes.Value | celpy.CELEvalError, location: str | None
 ) -> None | PermFail:
     match value:
-        case celpy.CELEvalError(tree=error_tree):
-            tree = tree_dump(error_tree) if error_tree else ""
+        case celpy.CELEvalError():
+            tree = _dump_tree(value)
             return PermFail(
                 message=f"Error evaluating `{location}` (at {tree}) {value.args}",
                 location=tree,
@@ -161,3 +161,15 @@ def check_for_celevalerror(
                     return eval_error
 
     return None
+
+
+def _dump_tree(err: celpy.CELEvalError) -> str:
+    if not err.tree:
+        return ""
+
+    try:
+        return tree_dump(err.tree)
+    except Exception:
+        # celpy is not able to dump every (partial) tree. That must not hide
+        # the evaluation error.
+        return ""
-- 
2.43.0


From 9db4eb5958149eb217575ba4e22617bf23aa3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 06/31] fix: forEach accepts concatenated lists

celpy evaluates `a + b` of two lists to a plain list, for which forEach
reported a PermFail ('must be a list-type').
---
 src/koreo/workflow/reconcile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 70513b2..2f48c1d 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -562,7 +562,8 @@ async def _for_each_reconciler(
         case result.PermFail() as failure:
             return StepResult(result=failure)
 
-        case celtypes.ListType() as source_iterator:
+        case (celtypes.ListType() | list()) as source_iterator:
+            # List concatenation yields a plain list.
             # Without this, if the source_iterator is empty the task-group
             # raises an exception at context-manager exit.
             if not source_iterator:
-- 
2.43.0


From 8e0af01b4cc627142b44b64bb08eccac13c76d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 07/31] fix: refSwitch accepts concatenated strings

celpy evaluates `a + b` of two strings to a plain str, for which switchOn
reported a PermFail instead of evaluating the selected case.
---
 src/koreo/workflow/reconcile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 2f48c1d..b095d3e 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -437,7 +437,8 @@ async def _reconcile_ref_switch(
     ):
         case result.PermFail() as err:
             return StepResult(result=err)
-        case (celtypes.StringType() | celtypes.IntType()) as switch_value:
+        case (celtypes.StringType() | str() | celtypes.IntType()) as switch_value:
+            # String concatenation yields a plain str.
             # Just needed to extract the `switch_on` value
             pass
         case bad_type:
-- 
2.43.0


From e6b662f4c1c32596cd5f0aa568cb6860f1c42255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 08/31] fix: a crashed or timed-out step's condition must not
 claim readiness

---
 src/koreo/workflow/reconcile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index b095d3e..60ebd2b 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -164,7 +164,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=timeout_outcome,
+                    outcome=timeout_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
@@ -182,7 +182,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=error_outcome,
+                    outcome=error_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
-- 
2.43.0


From 3c32a46e31dab3375c8157aeb3612757fd7eda8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 09/31] fix: a resource offered again right after a delete must
 be watched

---
 src/koreo/cache.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cb99871..cd18a61 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -134,9 +134,11 @@ async def delete_from_cache(
     queue = registry.kill_resource(resource=resource)
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
-    # This shouldn't happen, just an extra check
-    if resource in _REPREPARE_TASKS:
-        _REPREPARE_TASKS[resource].cancel()
+    # Forget the monitor now, it ends later. If this resource is offered again
+    # before that, it must get a monitor of its own.
+    reprepare_task = _REPREPARE_TASKS.pop(resource, None)
+    if reprepare_task:
+        reprepare_task.cancel()
 
     match queue:
         case None:
@@ -271,8 +273,12 @@ _REPREPARE_TASKS: dict[registry.Resource, asyncio.Task] = {}
 
 def _deletor(resource):
     def do_delete(task: asyncio.Task):
-        del _REPREPARE_TASKS[resource]
-        registry.deregister(resource, time.monotonic())
+        if _REPREPARE_TASKS.get(resource) is task:
+            del _REPREPARE_TASKS[resource]
+            registry.deregister(resource, time.monotonic())
+
+        if task.cancelled():
+            return
 
         task_exception = task.exception()
         if task_exception:
-- 
2.43.0


From d627f16d229350b1a8d37fd532de8940c530afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 10/31] fix: a preparation must not overwrite a newer version
 or undo a delete

---
 src/koreo/cache.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cd18a61..26afddf 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -63,8 +63,12 @@ async def prepare_and_cache(
     cached = __CACHE.get(resource_key)
 
     if cached and cached.resource_version == resource_metadata.resource_version:
+        # Anything still being prepared was offered earlier, so it is stale.
+        _PENDING_OFFERS.pop(resource_key, None)
         return cached.resource
 
+    offer = _PENDING_OFFERS[resource_key] = object()
+
     prepare_started_at = time.monotonic()
     resource = registry.Resource(resource_type=resource_class, name=cache_key)
     registry.register(registerer=resource)
@@ -77,6 +81,19 @@ async def prepare_and_cache(
         prepared_resource = preparer_outcome
         subscriptions = None
 
+    if _PENDING_OFFERS.get(resource_key) is not offer:
+        # A newer version was offered, or this was deleted, while preparing.
+        if resource_key not in _PENDING_OFFERS and resource_key not in __CACHE:
+            registry.deregister(
+                deregisterer=resource, deregistered_at=prepare_finished_at
+            )
+        return prepared_resource
+
+    del _PENDING_OFFERS[resource_key]
+
+    # A delete while preparing will have dropped the earlier registration.
+    registry.register(registerer=resource)
+
     __CACHE[resource_key] = __CachedResource[T](
         spec=spec,
         resource=prepared_resource,
@@ -117,6 +134,10 @@ async def delete_from_cache(
 ) -> None:
     resource_key = registry.Resource(resource_type=resource_class, name=cache_key)
 
+    if not version:
+        # Anything still being prepared must not bring this back.
+        _PENDING_OFFERS.pop(resource_key, None)
+
     cached = __CACHE.get(resource_key)
     if not cached:
         return None
@@ -157,6 +178,9 @@ async def delete_from_cache(
 
 _PREPARE_TIMES: dict[registry.Resource, float] = {}
 
+# The most recent offer which is still being prepared.
+_PENDING_OFFERS: dict[registry.Resource, object] = {}
+
 
 async def _handle_notifications(
     resource: registry.Resource[T],
@@ -251,6 +275,10 @@ async def _reprepare_and_update_cache(
         prepared_resource = preparer_outcome
         subscriptions = None
 
+    if __CACHE.get(resource_key) is not cached:
+        # It was deleted or replaced by a newer version while preparing.
+        return
+
     __CACHE[resource_key] = cached._replace(
         resource=prepared_resource, prepared_at=prepare_started_at
     )
-- 
2.43.0


From 6829c2723ef1f4835467aa3592b9d4cdf4d0a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 11/31] fix: notice dependencies that change during a
 preparation

---
 src/koreo/cache.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 26afddf..4195475 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -150,6 +150,7 @@ async def delete_from_cache(
 
     deleted_at = time.monotonic()
     del __CACHE[resource_key]
+    _CHANGE_TIMES[resource_key] = deleted_at
 
     resource = registry.Resource(resource_type=resource_class, name=cache_key)
     queue = registry.kill_resource(resource=resource)
@@ -178,6 +179,9 @@ async def delete_from_cache(
 
 _PREPARE_TIMES: dict[registry.Resource, float] = {}
 
+# When each resource was last replaced or removed.
+_CHANGE_TIMES: dict[registry.Resource, float] = {}
+
 # The most recent offer which is still being prepared.
 _PENDING_OFFERS: dict[registry.Resource, object] = {}
 
@@ -191,6 +195,7 @@ async def _handle_notifications(
 ):
     # We need to track the earliest possible time of prepare.
     _PREPARE_TIMES[resource] = prepare_started_at
+    _CHANGE_TIMES[resource] = prepare_finished_at
 
     if not subscriptions:
         subscriptions = []
@@ -200,6 +205,15 @@ async def _handle_notifications(
     # We need to send the latest possible time to subscribers.
     registry.notify_subscribers(notifier=resource, event_time=prepare_finished_at)
 
+    # Anything that changed while this was preparing might have been missed, as
+    # this was possibly not subscribed to it.
+    for subscription in subscriptions:
+        changed_at = _CHANGE_TIMES.get(subscription, prepare_started_at)
+        if changed_at > prepare_started_at:
+            registry.register(registerer=resource).put_nowait(
+                registry.ResourceEvent(resource=subscription, event_time=changed_at)
+            )
+
     # If this resource watches other resources, setup the monitor to reprepare
     if subscriptions and preparer and resource not in _REPREPARE_TASKS:
         task_name = f"{resource.resource_type.__qualname__}:{resource.name}"
-- 
2.43.0


From ea398e8907fa4bdef31ade4c03b47d30feb91233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 12/31] fix: notify dependents of a version whose subscriptions
 are refused

---
 src/koreo/cache.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 4195475..7dec74e 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -200,10 +200,11 @@ async def _handle_notifications(
     if not subscriptions:
         subscriptions = []
 
-    registry.subscribe_only_to(subscriber=resource, resources=subscriptions)
-
-    # We need to send the latest possible time to subscribers.
-    registry.notify_subscribers(notifier=resource, event_time=prepare_finished_at)
+    try:
+        registry.subscribe_only_to(subscriber=resource, resources=subscriptions)
+    finally:
+        # We need to send the latest possible time to subscribers.
+        registry.notify_subscribers(notifier=resource, event_time=prepare_finished_at)
 
     # Anything that changed while this was preparing might have been missed, as
     # this was possibly not subscribed to it.
-- 
2.43.0


From d6758fb3ddc4996149c4ed95b6d5af2586cb4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 13/31] fix: a monitor that has ended does not count as
 watching

---
 src/koreo/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 7dec74e..5108cda 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -216,7 +216,8 @@ async def _handle_notifications(
             )
 
     # If this resource watches other resources, setup the monitor to reprepare
-    if subscriptions and preparer and resource not in _REPREPARE_TASKS:
+    monitor = _REPREPARE_TASKS.get(resource)
+    if subscriptions and preparer and (not monitor or monitor.done()):
         task_name = f"{resource.resource_type.__qualname__}:{resource.name}"
         resource_task = asyncio.create_task(
             _monitor_and_reprepare(
-- 
2.43.0


From 1c8c2df460c1627ebc3fa6b2f6bc8f109a28b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 14/31] fix: an unusable last-applied annotation must not stop
 reconciliation

---
 src/koreo/resource_function/reconcile/__init__.py | 11 ++++++++++-
 src/koreo/resource_function/reconcile/validate.py |  6 +++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 8c0039f..23f66ed 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -835,7 +835,16 @@ def _extract_last_applied(resource: dict) -> dict | None:
     if not last_applied:
         return None
 
-    return json.loads(last_applied)
+    try:
+        last_applied_value = json.loads(last_applied)
+    except (TypeError, ValueError):
+        # Others may edit annotations, an unusable value is the same as none.
+        return None
+
+    if not isinstance(last_applied_value, dict):
+        return None
+
+    return last_applied_value
 
 
 def _prepare_for_api(obj: dict) -> dict:
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 221fe67..9436222 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -129,7 +129,7 @@ def _validate_dict_match(
         if key
     }
 
-    if not last_applied_value:
+    if not isinstance(last_applied_value, dict):
         last_applied_value = {}
 
     for target_key in target_keys:
@@ -203,13 +203,13 @@ def _validate_list_match(
             ],
         )
 
-    if last_applied_value:
+    if isinstance(last_applied_value, (list, tuple)):
         last_applied_len = len(last_applied_value)
     else:
         last_applied_len = 0
 
     for idx, (target_value, actual_value) in enumerate(zip(target, actual)):
-        if last_applied_value and idx < last_applied_len:
+        if idx < last_applied_len:
             last_applied_item_value = last_applied_value[idx]
         else:
             last_applied_item_value = None
-- 
2.43.0


From cc4b27f68f472869d0f5b71efb025fc03ccc4d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 15/31] fix: compare map-directed lists with values of any type

---
 .../resource_function/reconcile/validate.py   | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 9436222..7e83d60 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -101,6 +101,12 @@ def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
     return "$".join(f"{obj.get(field)}".strip() for field in fields)
 
 
+def _is_object_list(value) -> bool:
+    return isinstance(value, (list, tuple)) and all(
+        isinstance(item, dict) for item in value
+    )
+
+
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
 ) -> dict[str, dict] | None:
@@ -154,13 +160,20 @@ def _validate_dict_match(
 
             compare_value = actual[target_key]
 
-        if target_key in compare_as_map:
+        if (
+            target_key in compare_as_map
+            and _is_object_list(target[target_key])
+            and _is_object_list(compare_value)
+        ):
             map_keys = compare_as_map[target_key]
+            last_applied_list = last_applied_value[target_key]
             key_match = validate_match(
                 target=_list_to_object(target[target_key], map_keys),
                 actual=_list_to_object(compare_value, map_keys),
-                last_applied_value=_list_to_object(
-                    last_applied_value[target_key], map_keys
+                last_applied_value=(
+                    _list_to_object(last_applied_list, map_keys)
+                    if _is_object_list(last_applied_list)
+                    else None
                 ),
             )
         else:
-- 
2.43.0


From 9890bf5f2710752a38a770f71b42ea371bf6bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 16/31] fix: tell booleans from numbers when comparing lists as
 sets

---
 src/koreo/resource_function/reconcile/validate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 7e83d60..fc1cd15 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -253,8 +253,9 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
         )
 
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        # Python considers `True` and `1` to be equal, keep booleans apart.
+        target_set = {(isinstance(value, bool), value) for value in target}
+        actual_set = {(isinstance(value, bool), value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -278,10 +279,10 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
     if not (missing_values or unexpected_values):
         return ResourceMatch(match=True, differences=())
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         return ResourceMatch(match=False, differences=(f"<missing '{missing_value}'>",))
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         return ResourceMatch(
             match=False, differences=(f"<unexpectedly found '{unexpected_value}'>",)
         )
-- 
2.43.0


From 97eb7ae451e0df792bba310ef116e5e0ba9db51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 17/31] fix: a patch must not drop owners when the target
 specifies some

---
 .../resource_function/reconcile/__init__.py   | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 23f66ed..dc801d0 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -355,12 +355,26 @@ async def reconcile_krm_resource(
             )
 
         case structure.UpdatePatch(delay=delay):
+            # A patch replaces the whole list, so owners which are already
+            # present must be included if the target specifies any.
+            target_metadata = converted_resource["metadata"]
+            if "ownerReferences" in target_metadata:
+                target_metadata["ownerReferences"] = _merge_owner_refs(
+                    api_resource.raw["metadata"].get("ownerReferences"),
+                    target_metadata["ownerReferences"],
+                )
+
             if should_own and not owner_reffed:
-                owner_refs = _updated_owner_refs(api_resource.raw, owner_ref)
+                if "ownerReferences" in target_metadata:
+                    current_view = converted_resource
+                else:
+                    current_view = api_resource.raw
+
+                owner_refs = _updated_owner_refs(current_view, owner_ref)
                 if not is_unwrapped_ok(owner_refs):
                     return ReconcileResult(result=owner_refs, resource_id=resource_id)
 
-                converted_resource["metadata"]["ownerReferences"] = owner_refs
+                target_metadata["ownerReferences"] = owner_refs
 
             await api_resource.patch(_prepare_for_api(converted_resource))
             return ReconcileResult(
@@ -780,6 +794,25 @@ def _updated_owner_refs(resource_view: dict, owner_ref: dict):
     return updated_owners
 
 
+def _merge_owner_refs(current_refs, target_refs):
+    if not current_refs:
+        return target_refs
+
+    if not isinstance(target_refs, (list, tuple)):
+        return current_refs
+
+    current_uids = [current_ref.get("uid") for current_ref in current_refs]
+    return [
+        *current_refs,
+        *(
+            target_ref
+            for target_ref in target_refs
+            if isinstance(target_ref, dict)
+            and target_ref.get("uid") not in current_uids
+        ),
+    ]
+
+
 def _validate_owner_reffed(resource_view: dict, owner_ref: dict):
     match resource_view:
         case {"metadata": metadata}:
-- 
2.43.0


From 2872fa47407c519cfc8184386f37c961ca6fca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 18/31] fix: a target must not specify the last-applied
 annotation

---
 src/koreo/resource_function/reconcile/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index dc801d0..3c9f56d 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,7 +319,7 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = convert_bools(expected_resource)
+    converted_resource = _strip_last_applied(convert_bools(expected_resource))
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -880,8 +880,18 @@ def _extract_last_applied(resource: dict) -> dict | None:
     return last_applied_value
 
 
+def _strip_last_applied(obj):
+    """The annotation is Koreo's own; a target (for instance one written from
+    an exported object) neither is compared with nor describes it."""
+    match obj:
+        case {"metadata": {"annotations": dict(annotations)}}:
+            annotations.pop(LAST_APPLIED_ANNOTATION, None)
+
+    return obj
+
+
 def _prepare_for_api(obj: dict) -> dict:
-    prepared = _strip_koreo_directives(obj)
+    prepared = _strip_last_applied(_strip_koreo_directives(obj))
 
     dumped = json.dumps(prepared)
 
-- 
2.43.0


From f68f040f455f8b7cfabbbcc38c055d80d93b00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 19/31] fix: a function call with an unevaluable argument must
 fail

---
 src/koreo/cel/functions.py | 60 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index ced8a06..6b423df 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -3,6 +3,7 @@ import json
 import base64
 
 from celpy import celtypes
+from celpy.evaluation import base_functions
 import celpy
 
 
@@ -394,7 +395,54 @@ koreo_function_annotations: dict[str, celpy.Annotation] = {
     "replace": celtypes.FunctionType,
 }
 
-koreo_cel_functions: dict[str, celpy.CELFunction] = {
+def _find_error(value: celtypes.Value) -> celpy.CELEvalError | None:
+    match value:
+        case celpy.CELEvalError():
+            return value
+
+        case dict():
+            nested = value.values()
+
+        case list() | tuple():
+            nested = value
+
+        case _:
+            return None
+
+    for nested_value in nested:
+        if error := _find_error(nested_value):
+            return error
+
+    return None
+
+
+class _PropagateErrors:
+    """celpy provides the arguments which could not be evaluated as (possibly
+    nested) error objects. Such a call fails, it must not ignore the error nor
+    use the error as though it were a value."""
+
+    def __init__(self, function: celpy.CELFunction):
+        self._function = function
+
+    def __call__(self, *args):
+        for arg in args:
+            if error := _find_error(arg):
+                return error
+
+        return self._function(*args)
+
+    # Conversion functions double as type names: `type(value) == string`.
+    def __eq__(self, other):
+        if isinstance(other, _PropagateErrors):
+            other = other._function
+
+        return self._function == other
+
+    def __hash__(self):
+        return hash(self._function)
+
+
+_cel_functions: dict[str, celpy.CELFunction] = {
     "to_ref": _to_ref,
     "self_ref": _self_ref,
     "group_ref": _group_ref,
@@ -415,3 +463,13 @@ koreo_cel_functions: dict[str, celpy.CELFunction] = {
     "b64decode": _b64decode,
     "replace": _replace,
 }
+
+# These celpy functions accept error objects as values.
+_cel_overrides: dict[str, celpy.CELFunction] = {
+    name: base_functions[name] for name in ("size", "string", "type")
+}
+
+koreo_cel_functions: dict[str, celpy.CELFunction] = {
+    name: _PropagateErrors(function)
+    for name, function in (_cel_functions | _cel_overrides).items()
+}
-- 
2.43.0


From 609b9e354a43e027b1287db23888d73308b1ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 20/31] fix: encode static strings so that they arrive
 unchanged

Backslashes, quotes, newlines and carriage returns were not escaped (or left
escapes behind), keys were not escaped at all, and whatever Python's int() or
float() accept ('nan', '1_000', ' 7 ', ...) was written as a number.
---
 src/koreo/cel/encoder.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/koreo/cel/encoder.py b/src/koreo/cel/encoder.py
index 98d9727..503c633 100644
--- a/src/koreo/cel/encoder.py
+++ b/src/koreo/cel/encoder.py
@@ -1,5 +1,6 @@
 from typing import Any
 import base64
+import re
 
 from celpy import celtypes
 
@@ -58,7 +59,7 @@ def convert_bools(
 def encode_cel(value: Any) -> str:
     if isinstance(value, dict):
         return f"{{{ ",".join(
-            f'"{f"{key}".replace('"', '\"')}":{encode_cel(value)}'
+            f'"{_escape(f"{key}")}":{encode_cel(value)}'
             for key, value in value.items()
         ) }}}"
 
@@ -78,31 +79,30 @@ def encode_cel(value: Any) -> str:
         return '""'
 
     if not value.startswith(CEL_PREFIX):
-        if "\n" in value:
-            return f'r"""{ value.replace('"', '\"') }"""'  # fmt: skip
-
         if '"' in value:
-            return f'"""{ value.replace('"', r'\"') }"""'  # fmt: skip
+            return f'"""{ _escape(value) }"""'  # fmt: skip
 
-        return f'"{value}"'  # fmt: skip
+        return f'"{ _escape(value) }"'  # fmt: skip
 
     return value.lstrip(CEL_PREFIX)
 
 
-def _encode_plain(maybe_number) -> bool:
-    if not isinstance(maybe_number, str):
-        return True
+def _escape(value: str) -> str:
+    return (
+        value.replace("\\", "\\\\")
+        .replace('"', '\\"')
+        .replace("\n", "\\n")
+        .replace("\r", "\\r")
+    )
 
-    try:
-        int(maybe_number)
-        return True
-    except ValueError:
-        pass
 
-    try:
-        float(maybe_number)
+# Only plain decimal numerals are numbers. Python's own conversions accept much
+# more, such as "nan", "1_000", or " 7 ".
+_NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
+
+
+def _encode_plain(maybe_number) -> bool:
+    if not isinstance(maybe_number, str):
         return True
-    except ValueError:
-        pass
 
-    return False
+    return _NUMERAL.fullmatch(maybe_number) is not None
-- 
2.43.0


From 52c05b703620b0eab2ee0b71da8b8ae890337239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 21/31] fix: watch an overlay function even if its skipIf can
 not be prepared

---
 src/koreo/resource_function/prepare.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index f23b63c..75a5d80 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -300,6 +300,13 @@ def _prepare_overlays(
     used_value_functions: set[registry.Resource[ValueFunction]] = set()
 
     for idx, overlay_spec in enumerate(spec):
+        # It is watched, even if the overlay can not be prepared (yet).
+        match overlay_spec:
+            case {"overlayRef": {"name": overlay_name}}:
+                used_value_functions.add(
+                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
+                )
+
         skip_if_spec = overlay_spec.pop("skipIf", None)
 
         match prepare_expression(
@@ -352,10 +359,6 @@ def _prepare_overlays(
                         )
 
             case {"overlayRef": {"name": overlay_name}, **extras}:
-                used_value_functions.add(
-                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
-                )
-
                 inputs_spec = extras.pop("inputs", None)
                 if extras:
                     extra_keys = ", ".join(f"{key}" for key in extras.keys())
-- 
2.43.0


From 771a128c1d83b1b8f047c0547c787ae1fc92c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 22/31] fix: a spec nested too deeply to be copied must not
 raise

---
 src/koreo/cache.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 5108cda..56f7532 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -5,7 +5,7 @@ import logging
 import time
 
 from koreo.constants import ACTIVE_LABEL
-from koreo.result import UnwrappedOutcome, is_unwrapped_ok
+from koreo.result import PermFail, UnwrappedOutcome, is_unwrapped_ok
 from koreo import registry
 
 
@@ -72,7 +72,7 @@ async def prepare_and_cache(
     prepare_started_at = time.monotonic()
     resource = registry.Resource(resource_type=resource_class, name=cache_key)
     registry.register(registerer=resource)
-    preparer_outcome = await preparer(cache_key, copy.deepcopy(spec))
+    preparer_outcome = await _prepare(preparer, cache_key, spec)
     prepare_finished_at = time.monotonic()
 
     if is_unwrapped_ok(preparer_outcome):
@@ -116,6 +116,17 @@ async def prepare_and_cache(
     return prepared_resource
 
 
+async def _prepare(
+    preparer: PreparerFn[T], cache_key: str, spec: dict
+) -> UnwrappedOutcome[tuple[T, Sequence[registry.Resource] | None]]:
+    try:
+        preparer_spec = copy.deepcopy(spec)
+    except RecursionError:
+        return PermFail(message="`spec` is nested too deeply.", location=cache_key)
+
+    return await preparer(cache_key, preparer_spec)
+
+
 async def delete_resource_from_cache(
     resource_class: type[T],
     metadata: dict,
@@ -282,7 +293,7 @@ async def _reprepare_and_update_cache(
         return
 
     prepare_started_at = time.monotonic()
-    preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
+    preparer_outcome = await _prepare(preparer, cache_key, cached.spec)
     prepare_finished_at = time.monotonic()
 
     if is_unwrapped_ok(preparer_outcome):
-- 
2.43.0


From 82d1063008630e08799b24c1f3577c6063e126be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 23/31] fix: long paths and deep parentheses must not exhaust
 the stack when finding arguments

---
 src/koreo/cel/structure_extractor.py | 64 +++++++++++++++-------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 21b70e8..8ab3d50 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -18,49 +18,55 @@ def extract_argument_structure(compiled: Tree) -> set[str]:
 
 
 def _process_member(tree: Tree) -> str | None:
-    match tree.data:
-        case "member_dot":
-            terminal = f"{tree.children[1]}"
+    # Paths and parentheses may be arbitrarily long, so do not recurse.
+    terminals: list[str] = []
+    while True:
+        match tree.data:
+            case "member_dot":
+                terminal = f"{tree.children[1]}"
 
-        case "member_index":
-            terminal = _process_index(tree.children[1])
+            case "member_index":
+                terminal = _process_index(tree.children[1])
 
-        case "primary":
-            return _process_primary(tree)
+            case "primary":
+                primary: Tree = tree.children[0]
 
-        case _:
-            return None
-
-    root = _process_member(tree.children[0].children[0])
-    if not (root and terminal):
-        return None
+                match primary.data:
+                    case "ident" | "dot_ident":
+                        root = f"{primary.children[0]}"
+                        return ".".join([root, *reversed(terminals)]) if root else None
 
-    return f"{root}.{terminal}"
+                    case "paren_expr":
+                        inner = _unwrap(primary.children[0])
+                        if not inner:
+                            return None
 
+                        tree = inner
+                        continue
 
-def _process_primary(tree: Tree) -> str | None:
-    primary: Tree = tree.children[0]
+                return None
 
-    match primary.data:
-        case "ident" | "dot_ident":
-            return f"{primary.children[0]}"
+            case _:
+                return None
 
-        case "paren_expr":
-            inner = _unwrap(primary.children[0])
-            return _process_member(inner) if inner else None
+        if not terminal:
+            return None
 
-    return None
+        terminals.append(terminal)
+        tree = tree.children[0].children[0]
 
 
 def _process_index(tree: Tree) -> str | None:
-    inner = _unwrap(tree)
-    if not inner or inner.data != "primary":
-        return None
+    while True:
+        inner = _unwrap(tree)
+        if not inner or inner.data != "primary":
+            return None
 
-    primary: Tree = inner.children[0]
+        primary: Tree = inner.children[0]
+        if primary.data != "paren_expr":
+            break
 
-    if primary.data == "paren_expr":
-        return _process_index(primary.children[0])
+        tree = primary.children[0]
 
     if primary.data != "literal":
         return None
-- 
2.43.0


From eafbb0db4b51de86091ac16b42a89f91324545f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 24/31] fix: reject apiVersions and kinds kr8s can not hold
 instead of raising

---
 src/koreo/resource_function/prepare.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 75a5d80..edb08cd 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -180,6 +180,11 @@ def _location(cache_key: str, extra: str | None = None) -> str:
     return f"{base}:{extra}"
 
 
+# Anything else is not a name Kubernetes could have for an API.
+API_VERSION_PATTERN = re.compile(r"[^/]+(/[^/]+)?")
+KIND_PATTERN = re.compile(r"[A-Za-z]([-A-Za-z0-9]*[A-Za-z0-9])?")
+
+
 def _prepare_api_config(
     cel_env: celpy.Environment, spec: dict
 ) -> tuple[type[APIObject], celpy.Runner, bool, bool, bool] | PermFail:
@@ -191,6 +196,11 @@ def _prepare_api_config(
             message="`apiVersion`, `kind`, and `name` are required in `spec.apiConfig`"
         )
 
+    if not (API_VERSION_PATTERN.fullmatch(api_version) and KIND_PATTERN.fullmatch(kind)):
+        return PermFail(
+            message=f"Malformed `apiVersion` ('{api_version}') or `kind` ('{kind}') in `spec.apiConfig`"
+        )
+
     plural = spec.get("plural")
     if not plural:
         plural = constants.PLURAL_LOOKUP_NEEDED
-- 
2.43.0


From 0ea4f8819d42a2029fc2bd735e5f5d3818b2f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 25/31] fix: a whole number written as 30.0 is a valid delay

---
 src/koreo/predicate_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 784435b..37fb63e 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -57,7 +57,7 @@ def predicate_to_koreo_result(
             case {"assert": _, "retry": {"message": message, "delay": delay}}:
                 return result.Retry(
                     message=f"{message}",
-                    delay=int(f"{delay}"),
+                    delay=int(delay),
                     location=location,
                 )
 
-- 
2.43.0


From 18851e1fb98cc5e70412a7a5b771b0288df1cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 26/31] fix: reject specs with values which can not become CEL
 values instead of raising

---
 src/koreo/schema/__init__.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/koreo/schema/__init__.py b/src/koreo/schema/__init__.py
index 797b5a3..f9a53b0 100644
--- a/src/koreo/schema/__init__.py
+++ b/src/koreo/schema/__init__.py
@@ -27,6 +27,10 @@ NAME_CRD_MAP = {
 
 _SCHEMA_VALIDATORS = {}
 
+# Limits of what can be encoded as, or converted to, CEL values.
+MAX_DEPTH = 1000
+MIN_INT, MAX_INT = -(2**63), 2**63 - 1
+
 
 def validate(
     resource_type: type,
@@ -45,6 +49,10 @@ def validate(
             f"Schema validator not found for {resource_type.__name__} version {schema_version or DEFAULT_API_VERSION}",
         )
 
+    unusable = _find_unusable_value(spec)
+    if unusable:
+        return PermFail(f"spec {unusable}")
+
     try:
         schema_validator(spec)
     except fastjsonschema.JsonSchemaValueException as err:
@@ -57,6 +65,30 @@ def validate(
     return None
 
 
+def _find_unusable_value(spec: Any) -> str | None:
+    # Not recursive so that a deep structure is reported and does not raise.
+    level = [spec]
+    depth = 0
+    while level:
+        if depth > MAX_DEPTH:
+            return f"must not be nested more than {MAX_DEPTH} levels deep"
+
+        next_level = []
+        for value in level:
+            match value:
+                case dict():
+                    next_level.extend(value.values())
+                case list() | tuple():
+                    next_level.extend(value)
+                case int() if not MIN_INT <= value <= MAX_INT:
+                    return "must not contain integers exceeding 64 bits"
+
+        level = next_level
+        depth += 1
+
+    return None
+
+
 def _get_validator(resource_type: type, version: str | None = None):
     if not _SCHEMA_VALIDATORS:
         load_bundled_schemas()
-- 
2.43.0


From 09d1b6de00b1c7ec15dcb4e680b9d2720b46cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 27/31] fix: report every expression syntax error instead of
 raising

celpy fails to describe a syntax error at or after `true` or `false` with
an AssertionError.
---
 src/koreo/cel/prepare.py       | 4 ++++
 src/koreo/predicate_helpers.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index a67572f..e44b949 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -27,6 +27,10 @@ def prepare_expression(
         return PermFail(
             message=f"Parsing error at line {err.line}, column {err.column}. '{err}' in {location} ('{encoded}')",
         )
+    except Exception:
+        # celpy is not able to describe every syntax error, for instance an
+        # unexpected `true` or `false`.
+        return PermFail(message=f"Parsing error in {location} ('{encoded}')")
 
     value.logger.setLevel(logging.WARNING)
 
diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 37fb63e..5b3cd22 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -32,6 +32,10 @@ def predicate_extractor(
             message=f"Parsing error at line {err.line}, column {err.column}. "
             f"'{err}' in '{predicates}'",
         )
+    except Exception:
+        # celpy is not able to describe every syntax error, for instance an
+        # unexpected `true` or `false`.
+        return result.PermFail(message=f"Parsing error in '{predicates}'")
 
     program.logger.setLevel(logging.WARNING)
     return program
-- 
2.43.0


From d2e1765fe168887a3b8bc70d32826b29a3ff651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 28/31] fix: items of a map-compared list are not confused if
 their keys contain the separator

{name: a$b, proto: c} and {name: a, proto: b$c} were the same item, so drift
in one of them was missed and an object meeting the target was patched forever.
---
 src/koreo/resource_function/reconcile/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index fc1cd15..bfd6c1f 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -1,4 +1,5 @@
 from typing import NamedTuple, Sequence
+import json
 
 from koreo.constants import KOREO_DIRECTIVE_KEYS
 
@@ -98,7 +99,8 @@ def validate_match(
 
 
 def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+    # Must not be ambiguous, whatever the values contain.
+    return json.dumps([f"{obj.get(field)}".strip() for field in fields])
 
 
 def _is_object_list(value) -> bool:
-- 
2.43.0


From 0b75297cd31c7beac59ca1a48f7e132e5de02dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 29/31] fix: an expression must be complete in itself

Expressions are compiled together with what surrounds them. An empty one
("=") or one such as "=1, 2" was accepted as no or as several values: the
values after it went to other keys, or evaluation raised an IndexError.
---
 src/koreo/cel/prepare.py       | 17 ++++++++++++++++-
 src/koreo/predicate_helpers.py |  2 ++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index e44b949..58eec38 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -3,7 +3,7 @@ import logging
 
 import celpy
 
-from koreo.cel.encoder import encode_cel
+from koreo.cel.encoder import CEL_PREFIX, encode_cel
 from koreo.cel.functions import koreo_cel_functions
 from koreo.result import PermFail
 
@@ -23,6 +23,7 @@ def prepare_expression(
 
     try:
         value = cel_env.program(cel_env.compile(encoded), functions=koreo_cel_functions)
+        check_expressions(cel_env=cel_env, spec=spec)
     except celpy.CELParseError as err:
         return PermFail(
             message=f"Parsing error at line {err.line}, column {err.column}. '{err}' in {location} ('{encoded}')",
@@ -37,6 +38,20 @@ def prepare_expression(
     return value
 
 
+def check_expressions(cel_env: celpy.Environment, spec: Any):
+    """Raises if any expression is not complete in itself. Once it is combined
+    with the others, "=" or "=1, 2" could pass for no or for several values."""
+    match spec:
+        case dict():
+            for value in spec.values():
+                check_expressions(cel_env=cel_env, spec=value)
+        case list() | tuple():
+            for value in spec:
+                check_expressions(cel_env=cel_env, spec=value)
+        case str() if spec.startswith(CEL_PREFIX):
+            cel_env.compile(encode_cel(spec))
+
+
 def prepare_map_expression(
     cel_env: celpy.Environment, spec: Any | None, location: str
 ) -> None | celpy.Runner | PermFail:
diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 5b3cd22..8b512dd 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -8,6 +8,7 @@ import celpy
 from koreo import result
 from koreo.cel.encoder import encode_cel
 from koreo.cel.functions import koreo_cel_functions
+from koreo.cel.prepare import check_expressions
 
 
 def predicate_extractor(
@@ -27,6 +28,7 @@ def predicate_extractor(
         program = cel_env.program(
             cel_env.compile(conditions), functions=koreo_cel_functions
         )
+        check_expressions(cel_env=cel_env, spec=predicate_spec)
     except celpy.CELParseError as err:
         return result.PermFail(
             message=f"Parsing error at line {err.line}, column {err.column}. "
-- 
2.43.0


From 0c248bdb2e9e16cdaaad1de291abef2062f3e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 30/31] fix: an overlay function's input may have a dot in its
 name

An overlay which uses inputs['a.b'] was refused, even when 'a.b' is
provided, because only the text up to the first dot was taken to be the
input's name.
---
 src/koreo/resource_function/prepare.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index edb08cd..a1409be 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -408,15 +408,19 @@ def _prepare_overlays(
                 provided_inputs: set[str] = set(
                     inputs_spec.keys() if inputs_spec else ()
                 )
-                needed_inputs: set[str] = {
+                missing_inputs: set[str] = {
                     match.group("name")
-                    for match in (
-                        INPUTS_NAME_PATTERN.match(key)
+                    for key, match in (
+                        (key, INPUTS_NAME_PATTERN.match(key))
                         for key in overlay_resource.dynamic_input_keys
                     )
+                    # An input's own name may contain `.`
                     if match
+                    and not any(
+                        f"{key}.".startswith(f"inputs.{provided}.")
+                        for provided in provided_inputs
+                    )
                 }
-                missing_inputs = needed_inputs - provided_inputs
                 if missing_inputs:
                     missing_input_keys = ", ".join(
                         f'"{missing}"' for missing in missing_inputs
-- 
2.43.0


From 06a355f5f0288599cf4c320755850289f0d5e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 31/31] fix: only `inputs.` names an input of an overlay
 function

The dot of the pattern matched any character, so an overlay ValueFunction with a
macro variable such as `inputs_item.x` was refused for want of an input.
---
 src/koreo/resource_function/prepare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index a1409be..b2a0499 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -287,7 +287,7 @@ def _prepare_resource_template(
             )
 
 
-INPUTS_NAME_PATTERN = re.compile(r"inputs.(?P<name>[^.[]+)?\[?.*")
+INPUTS_NAME_PATTERN = re.compile(r"inputs\.(?P<name>[^.[]+)?\[?.*")
 
 
 def _prepare_overlays(
-- 
2.43.0

