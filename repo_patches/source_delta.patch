From 07c8600af8931214613e939f5cdb9c589ccb2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/38] fix: MutableLeaf.sharding read a metadata attribute
 that containers do not have

---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..ee7be85 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -761,7 +761,7 @@ class MutableLeaf(reprlib.Representable):
     if not isinstance(attr, Node):
       return None
 
-    return attr.metadata.get("sharding", None)
+    return vars(attr).get("sharding", None)
 
 
 def _get_module_state(module: Module) -> State:
-- 
2.43.0


From cf6160e5bfe947cfa8723f87d61b8c72af1603b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 02/38] fix: pop_state recursed without end on modules with
 reference cycles

---
 nnx/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index ee7be85..c289bfd 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -904,6 +904,9 @@ def _pop_recursive(
   if module._module__state.id in module_index:
     return
 
+  # mark before recursing, modules may contain reference cycles
+  module_index[module._module__state.id] = len(module_index)
+
   for name, value in list(vars(module).items()):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
@@ -918,8 +921,6 @@ def _pop_recursive(
         delattr(module, name)
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From ccb7e7892a50a718bec525b6f9285e9f13466482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 03/38] fix: pop_state reported shared modules under other
 paths than filter and get_state

---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index c289bfd..68e7fc0 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -907,7 +907,7 @@ def _pop_recursive(
   # mark before recursing, modules may contain reference cycles
   module_index[module._module__state.id] = len(module_index)
 
-  for name, value in list(vars(module).items()):
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
       continue
-- 
2.43.0


From 8175bd422d1a05a6ea1255a7a9a0c10aa842f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 04/38] fix: Pure.update_state discarded every update of an
 existing entry

---
 nnx/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 68e7fc0..2a185a8 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -353,10 +353,11 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
           f"got {type(updates).__name__}"
       )
 
+    # updates go last, later states have precedence when merging
     if isinstance(self.states, tuple):
-      states += self.states
+      states = self.states + states
     else:
-      states += (self.states,)
+      states = (self.states,) + states
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From bad67d6e2ec54806bc3d6215071e4010763ceb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/38] fix: a split Context could not be passed through
 jax.jit

---
 nnx/contextlib.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..3d6b102 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -39,6 +39,22 @@ class ContextDef:
     return Context(rngs=rngs, flags=dict(self._flags))
 
 
+def _context_def_flatten(contextdef: ContextDef):
+  return (), (contextdef._rng_counts, contextdef._flags)
+
+
+def _context_def_unflatten(
+    metadata: tp.Tuple[
+        tp.Tuple[tp.Tuple[str, Counts], ...], tp.Tuple[tp.Tuple[str, bool], ...]
+    ],
+    _,
+) -> ContextDef:
+  return ContextDef(*metadata)
+
+
+jtu.register_pytree_node(ContextDef, _context_def_flatten, _context_def_unflatten)
+
+
 class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
   @classmethod
-- 
2.43.0


From cccee8e2a58cfdbf4381af01317a58732d5320a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 06/38] fix: the Context given to an nnx.jit function could not
 be used inside it

---
 nnx/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..f22032a 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,11 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
+
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From 697bcd58665bc2095349688ffbabdbd41a0d853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 07/38] fix: pytree objects with bare array fields failed under
 jax.vmap and after mapping to other leaves

---
 nnx/pytreelib.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..39812ac 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -98,6 +98,8 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
       if isinstance(value, containers.Container):
         value = value.copy()
       vars_dict[name] = value
+      if name in vars_dict.get("_pytree__leaf_fields", ()):
+        vars_dict["_pytree__leaf_fields"] -= {name}
 
   def __init_subclass__(cls, mutable: bool = False):
     super().__init_subclass__()
@@ -165,7 +167,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     for field in pytree._pytree__sorted_fields:
       value = all_vars[field]
 
-      if nodes.is_node(value):
+      if pytree._pytree__is_node_field(field):
         node_names.append(field)
         if with_key_paths:
           node_values.append((jax.tree_util.GetAttrKey(field), value))
@@ -186,16 +188,31 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     pytree = object.__new__(cls)
     pytree.__dict__.update(zip(node_names, node_values))
     pytree.__dict__.update(static_fields)
+    # a leaf can be any object, e.g. jax.vmap unflattens with placeholders: a field
+    # that was a node has to stay one even if its new value would not make it one
+    leaf_fields = frozenset(
+        name
+        for name, value in zip(node_names, node_values)
+        if not nodes.is_node(value)
+    )
+    if leaf_fields:
+      pytree.__dict__["_pytree__leaf_fields"] = leaf_fields
     return pytree
 
+  def _pytree__is_node_field(self, field: str) -> bool:
+    all_vars = vars(self)
+    return nodes.is_node(all_vars[field]) or field in all_vars.get(
+        "_pytree__leaf_fields", ()
+    )
+
   @classmethod
   def _to_flax_state_dict(cls, pytree: "Pytree") -> tp.Dict[str, tp.Any]:
     from flax import serialization
 
     state_dict = {
         name: serialization.to_state_dict(getattr(pytree, name))
-        for name, value in vars(pytree).items()
-        if nodes.is_node(value)
+        for name in vars(pytree)
+        if pytree._pytree__is_node_field(name)
     }
     return state_dict
 
@@ -211,7 +228,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     state = state.copy()  # copy the state so we can pop the restored fields.
     updates = {}
     for name, value in vars(pytree).items():
-      if not nodes.is_node(value):
+      if not pytree._pytree__is_node_field(name):
         continue
       if name not in state:
         raise ValueError(
-- 
2.43.0


From 1ad65f47e2a9b31d6983ced4dfdb50ec5622f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 08/38] fix: module definitions ignored the initialization mode
 when compared

---
 nnx/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 2a185a8..dd40064 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -109,7 +109,9 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
     yield reprlib.Attr("static_fields", self._static_fields)
 
   def __hash__(self) -> int:
-    return hash((self._type, self._submodules, self._static_fields))
+    return hash(
+        (self._type, self._submodules, self._static_fields, self._module_state)
+    )
 
   def __eq__(self, other: tp.Any) -> bool:
     if not isinstance(other, ModuleDef):
@@ -118,6 +120,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
         self._type == other._type
         and self._submodules == other._submodules
         and self._static_fields == other._static_fields
+        and self._module_state == other._module_state
     )
 
   @property
-- 
2.43.0


From f0e6d3272b8f0c66fc57a647c0dc3a5957bdea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 09/38] fix: access chains of apply, call and init forgot all
 but the last access

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index dd40064..dc7b4cf 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -54,10 +54,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self.accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From 947ef8fbc535402df379fda4f37d2505eae32229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 10/38] fix: init left detached modules initializing and ended
 the mode of an enclosing init

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index dc7b4cf..7b0fb57 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -508,12 +508,17 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       def _set_is_initializing(module: Module, value: bool):
         module._module__state.is_initializing = value
 
+      # the call can detach modules, and it can be nested in another init call
+      previous: tp.List[tp.Tuple[Module, bool]] = []
+      self.for_each(Module, lambda m: previous.append((m, m.is_initializing)))
       self.for_each(Module, partial(_set_is_initializing, value=True))
 
       try:
         return accessor(self)(*args, **kwargs)
       finally:
         self.for_each(Module, partial(_set_is_initializing, value=False))
+        for module, value in previous:
+          _set_is_initializing(module, value)
 
     return CallableProxy(_init, accessor)  # type: ignore
 
-- 
2.43.0


From e65fb2959409faf7ab612384105ff7e333840bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 11/38] fix: attributes could be deleted and state popped from
 another trace level

---
 nnx/module.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 7b0fb57..397edcc 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -459,10 +459,17 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
 
-  def _setattr(self, name: str, value: Any) -> None:
+    def __delattr__(self, name: str) -> None:
+      self._check_trace_level()
+      object.__delattr__(self, name)
+
+  def _check_trace_level(self) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
 
+  def _setattr(self, name: str, value: Any) -> None:
+    self._check_trace_level()
+
     vars_dict = vars(self)
     if name in vars_dict and isinstance(vars_dict[name], Container):
       vars_dict[name] = vars_dict[name].replace(value=value)
-- 
2.43.0


From 6c8a0a62bdc7a0b54d51f5bb33e19162b10eeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 12/38] fix: broadcast variables created inside a scan were
 lost

---
 nnx/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index f22032a..8db2c78 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -606,7 +606,7 @@ def scan_apply(
     )
 
     carry_state_new = carry_state_out - carry_state
-    broadcast_state_new = broadcast_state - broadcast_state_out
+    broadcast_state_new = broadcast_state_out - broadcast_state
 
     # remove new carry state
     carry_state_out = carry_state_out - carry_state_new
@@ -636,10 +636,10 @@ def scan_apply(
   axes = (axes_keys, axes_states, axes_arg)
 
   abstract_output = jax.eval_shape(scan_partial(length, options.unroll), carry, axes)
-  carry_state_new = abstract_output[1][2]
-  has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
+  new_state = abstract_output[1][1:3]  # new broadcast state and carry state
+  has_new_state = len(jax.tree_util.tree_leaves(new_state)) > 0
 
-  if has_new_carry_state:
+  if has_new_state:
     # run scan for 1 step
     axes1 = jax.tree_map(lambda x: x[:1], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
@@ -660,7 +660,7 @@ def scan_apply(
     axes_rest = jax.tree_map(lambda x: x[1:], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
-    axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
+    axes_states_rest, _, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-- 
2.43.0


From 0da2ae7eb8151aa65379baa2e644119da84b46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 13/38] fix: reversed scans that create state ran the first
 layer first

---
 nnx/transforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 8db2c78..70ab735 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -640,8 +640,11 @@ def scan_apply(
   has_new_state = len(jax.tree_util.tree_leaves(new_state)) > 0
 
   if has_new_state:
-    # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+    # run scan for 1 step, the last one if reversed
+    first, rest = slice(1), slice(1, None)
+    if options.reverse:
+      first, rest = slice(-1, None), slice(-1)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -657,14 +660,14 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
     axes_states_rest, _, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
-- 
2.43.0


From 3c4e1add23cc6e7c7951bea1d0fbe66eb3beb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 14/38] fix: Scan without stacked variables and length could
 not be constructed with a context

---
 nnx/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 70ab735..7300066 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -465,7 +465,7 @@ def scan_init(
 
     return states
 
-  if ctxdef is not None or options.variable_axes:
+  if options.variable_axes or (ctxdef is not None and options.length is not None):
     init_out_axes = (*options.variable_axes.values(), None, None)
     _init_state = jax.vmap(
         _init_state,
-- 
2.43.0


From 47e6eacf879f656007da87a3ca9725bb85d63303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 15/38] fix: scan-decorated __init__ could not name the stacked
 axis

---
 nnx/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 7300066..05133d1 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -735,6 +735,7 @@ def scan(
         return module
 
       lifted_module = scan_init(options, module_constructor, args, kwargs)
+      module.pop_state(...)  # the variables of a layer may have other metadata
       module.update_state(lifted_module)
 
     wrapper = init_wrapper
-- 
2.43.0


From cfc2ba3d6a3ff898589f7bc585a25b650b8c3cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 16/38] fix: partition names of negative scan axes were put one
 position off

---
 nnx/spmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..737c064 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -43,9 +43,10 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
-      while len(sharding) < index:
+      position = index if index >= 0 else index + len(sharding) + 1
+      while len(sharding) < position:
         sharding.append(None)
-      sharding.insert(index, axis_name)
+      sharding.insert(position, axis_name)
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From 13ab0469f5f162523f332c7e3a54d0bc8dcbb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 17/38] fix: attributes of initialized pytree objects could be
 deleted

---
 nnx/pytreelib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 39812ac..550c287 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -83,6 +83,11 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     def __setattr__(self, name: str, value: tp.Any) -> None:
       self._setattr(name, value)
 
+    def __delattr__(self, name: str) -> None:
+      if "_pytree__initializing" not in vars(self):
+        raise AttributeError("Cannot delete fields of an initialized Pytree")
+      object.__delattr__(self, name)
+
   def _setattr(self: P, name: str, value: tp.Any):
     vars_dict = vars(self)
     if "_pytree__initializing" in vars_dict:
-- 
2.43.0


From 42e24f52f5081527050c9d005b231b2d8ed733e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 18/38] fix: replacing fields of a dataclass pytree object lost
 containers and their metadata

---
 nnx/pytreelib.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 550c287..3462599 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -260,7 +260,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
-      return dataclasses.replace(self, **kwargs)
+      return self._dataclass_replace(**kwargs)
 
     unknown_keys = set(kwargs) - set(vars(self))
     if unknown_keys and not self._pytree__class_is_mutable:
@@ -276,6 +276,25 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
 
     return pytree
 
+  def _dataclass_replace(self: P, **kwargs: tp.Any) -> P:
+    pytree = dataclasses.replace(self, **kwargs)
+    old_vars, new_vars = vars(self), vars(pytree)
+
+    # dataclasses.replace reads the values of the fields, not their containers
+    for field in dataclasses.fields(self):
+      container = old_vars.get(field.name)
+      if field.init and isinstance(container, containers.Container):
+        value = new_vars[field.name]
+        if "nnx_container_fn" in field.metadata:
+          value = value.value
+        new_vars[field.name] = container.replace(value=value)
+
+    leaf_fields = old_vars.get("_pytree__leaf_fields", frozenset()) - kwargs.keys()
+    if leaf_fields:
+      new_vars["_pytree__leaf_fields"] = leaf_fields
+
+    return pytree
+
   def __nnx_repr__(self):
     yield reprlib.Object(type(self))
     for name, value in vars(self).items():
-- 
2.43.0


From e0e0e98405cd7a2ccf01d9569fc32896905cf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 19/38] fix: dataclass fields that are not in __init__ broke
 the construction

---
 nnx/module.py    | 5 ++++-
 nnx/pytreelib.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 397edcc..2f20c18 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -430,7 +430,10 @@ class ModuleMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(module)[field.name]
+        # init=False fields with a default are only set on the class
+        value = vars(module).get(field.name, field.default)
+        if value is dataclasses.MISSING:
+          continue
         value = container_fn(value)
         vars(module)[field.name] = value
 
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 3462599..4cb37ab 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -58,7 +58,10 @@ class PytreeMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(obj)[field.name]
+        # init=False fields with a default are only set on the class
+        value = vars(obj).get(field.name, field.default)
+        if value is dataclasses.MISSING:
+          continue
         value = container_fn(value)
         vars(obj)[field.name] = value
 
-- 
2.43.0


From 4142dfc44ebc70f41d4c6c681566de80f4d77939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 20/38] fix: values nested in node fields were restored as raw
 state dicts

---
 nnx/pytreelib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 4cb37ab..6a10f23 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -235,7 +235,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
 
     state = state.copy()  # copy the state so we can pop the restored fields.
     updates = {}
-    for name, value in vars(pytree).items():
+    for name in vars(pytree):
       if not pytree._pytree__is_node_field(name):
         continue
       if name not in state:
@@ -244,6 +244,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" an instance of {type(pytree).__name__},"
             f" at path {serialization.current_path()}"
         )
+      value = getattr(pytree, name)  # as in the state dict: without container
       value_state = state.pop(name)
       updates[name] = serialization.from_state_dict(value, value_state, name=name)
     if state:
-- 
2.43.0


From 812c28f26798702ba31a5a5a3765cd7786efc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 21/38] fix: dataclass pytree objects with fields outside
 __init__ could not be restored

---
 nnx/pytreelib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 6a10f23..2c71904 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -254,7 +254,12 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
           f" restoring an instance of {type(pytree).__name__}"
           f" at path {serialization.current_path()}"
       )
-    return pytree.replace(**updates)
+    # not replace: fields of dataclasses do not have to be arguments of __init__
+    pytree = copy(pytree)
+    with _mutable(pytree):
+      for name, value in updates.items():
+        pytree._setattr(name, value)
+    return pytree
 
   def replace(self: P, **kwargs: tp.Any) -> P:
     """
-- 
2.43.0


From 1c6babd4defd52d55d5d6a1741dd30a51a7a96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 22/38] fix: Dict does not list its internal module state as an
 item

---
 nnx/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..446dcfd 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -40,10 +40,11 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    # the module's internal state is not an item
+    return (name for name in vars(self) if not name.startswith("_module__"))
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return sum(1 for _ in self)
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From 672067bd554a246c1952f349ab1b94e04d26c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 23/38] fix: Dict lookup raises KeyError for keys that are not
 items

---
 nnx/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 446dcfd..dc68709 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -28,6 +28,8 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
+    if key not in tuple(self):
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
-- 
2.43.0


From 9d6a2cfc2d63f688f96a3fe3109af7fe3075bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 24/38] fix: an empty Sequence has length zero

---
 nnx/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index dc68709..c9ec459 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -52,10 +52,11 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    length = 0
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
-    self._length = i + 1
+      length = i + 1
+    self._length = length
 
   def __getitem__(self, key: int) -> A:
     if key >= len(self):
-- 
2.43.0


From d9bd80eacdbadc0333dae25ef7b503bbb7f8f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 25/38] fix: Sequence does not write the context into an
 element's output

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index c9ec459..ec03c06 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -82,7 +82,7 @@ class Sequence(Module, tp.Generic[A]):
           kwargs = {}
         elif isinstance(output, tp.Dict):
           args = ()
-          kwargs = output
+          kwargs = dict(output)
         else:
           args = (output,)
           kwargs = {}
-- 
2.43.0


From cb9edf0e815b03dde089c21768c3ccee69ac707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 26/38] fix: Sequence accepts callables without a signature
 when given a context

---
 nnx/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index ec03c06..0efcd90 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -149,8 +149,13 @@ class TrainState(pytreelib.Pytree, tp.Generic[M]):
 
 def has_keyword_arg(func: tp.Callable[..., tp.Any], name: str) -> bool:
   """Return True if func has keyword-only arguments with the given name."""
+  try:
+    parameters = inspect.signature(func).parameters
+  except ValueError:
+    # some builtins have no signature
+    return False
   return any(
       param.name == name
       and param.kind in (param.KEYWORD_ONLY, param.POSITIONAL_OR_KEYWORD)
-      for param in inspect.signature(func).parameters.values()
+      for param in parameters.values()
   )
-- 
2.43.0


From 9c7194bbb3f19b650ea14462d0747adf3819e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 27/38] fix: arrays without logical names could not be
 constrained over an explicit mesh

---
 nnx/spmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 737c064..3623e24 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -281,7 +281,9 @@ def _with_sharding_constraint(
   if not _global_mesh_defined() and mesh is None:
     return x
   else:
-    if mesh is not None and axis_resources is not None:
+    if mesh is not None:
+      if axis_resources is None:
+        axis_resources = PartitionSpec()
       sharding = jax.sharding.NamedSharding(mesh, axis_resources)
       return jax.lax.with_sharding_constraint(x, sharding)
     return jax.lax.with_sharding_constraint(x, axis_resources)
-- 
2.43.0


From fde3f26a4dfb21abc02bc964f970f598237c9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 28/38] fix: unnamed dimensions triggered the fallback for
 names without a rule

---
 nnx/spmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 3623e24..ee7bd65 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -179,7 +179,7 @@ def _logical_to_mesh_axes(
     raise ValueError("Unknown axis rule specification type.")
   # We assign mesh axes using a priority based ruleset over logical axis names.
   result: list[tp.Union[_UnassignedAxis, None, str, tuple[str]]]
-  result = [_unassigned_axis] * len(array_dim_names)
+  result = [None if name is None else _unassigned_axis for name in array_dim_names]
   for rule_model_name, rule_mesh_names in rules:
     if rule_model_name in array_dim_names:
       pos = array_dim_names.index(rule_model_name)
-- 
2.43.0


From daf0def2be262b1a9a7d5cb58a537a12cd905741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 29/38] fix: initializers with metadata refused keyword
 arguments

---
 nnx/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/containers.py b/nnx/containers.py
index 969645d..e94b9dd 100644
--- a/nnx/containers.py
+++ b/nnx/containers.py
@@ -193,8 +193,8 @@ def with_metadata(
     **metadata: tp.Any,
 ) -> F:
   @functools.wraps(initializer)
-  def wrapper(*args):
-    return ContainerMetadata(initializer(*args), metadata=metadata)
+  def wrapper(*args, **kwargs):
+    return ContainerMetadata(initializer(*args, **kwargs), metadata=metadata)
 
   return wrapper  # type: ignore
 
-- 
2.43.0


From 390ddd9db5dc35b36e176a98cda026f98373b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 30/38] fix: LayerNorm with an axis name failed on inputs
 without batch dimensions

---
 nnx/nn/normalization.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/nnx/nn/normalization.py b/nnx/nn/normalization.py
index 16256c2..249e143 100644
--- a/nnx/nn/normalization.py
+++ b/nnx/nn/normalization.py
@@ -79,14 +79,11 @@ def _compute_stats(
     mean = jnp.zeros(mean2.shape, dtype=dtype)
 
   if axis_name is not None:
-    concatenated_mean = jnp.concatenate([mean, mean2])
-    mean, mean2 = jnp.split(
-        lax.pmean(
-            concatenated_mean,
-            axis_name=axis_name,
-            axis_index_groups=axis_index_groups,
-        ),
-        2,
+    # stacked, so that this also works for scalar statistics
+    mean, mean2 = lax.pmean(
+        jnp.stack([mean, mean2]),
+        axis_name=axis_name,
+        axis_index_groups=axis_index_groups,
     )
   # mean2 - _abs_sq(mean) is not guaranteed to be non-negative due
   # to floating point round-off errors.
-- 
2.43.0


From 1beb038ab686a678388a37683c56c726e29fed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 31/38] fix: mutable leaves could not be printed

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 2f20c18..5a1650b 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -766,6 +766,11 @@ class MutableLeaf(reprlib.Representable):
     self._module = module
     self._name = name
 
+  def __nnx_repr__(self):
+    yield reprlib.Object(type=type(self))
+    yield reprlib.Attr("name", repr(self._name))
+    yield reprlib.Attr("value", repr(vars(self._module).get(self._name)))
+
   @property
   def value(self) -> tp.Any:
     return getattr(self._module, self._name)
-- 
2.43.0


From b946e07877eba730193506f9f12f3351dc366e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 32/38] fix: a failed print of a module could cut short later
 ones

---
 nnx/reprlib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/reprlib.py b/nnx/reprlib.py
index f267941..417da20 100644
--- a/nnx/reprlib.py
+++ b/nnx/reprlib.py
@@ -1,6 +1,7 @@
 import contextlib
 import dataclasses
 import threading
+import types
 import typing as tp
 from abc import abstractmethod
 
@@ -76,8 +77,13 @@ def get_repr(obj: Representable) -> str:
 
     return f"{get_indent()}{elem.start}{elem.key}{config.value_sep}{value}{elem.end}"
 
-  with add_indent(config.elem_indent):
-    elems = list(map(_repr_elem, iterator))
+  try:
+    with add_indent(config.elem_indent):
+      elems = list(map(_repr_elem, iterator))
+  finally:
+    # if an element failed, let the generator clean up now and not when it is collected
+    if isinstance(iterator, types.GeneratorType):
+      iterator.close()
   elems = ",\n".join(elems)
 
   if elems:
-- 
2.43.0


From a098bbafe2f3246fd84f45156e9a31c7bd5fbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 33/38] fix: threads that print modules at the same time
 disturbed each other

---
 nnx/module.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 5a1650b..51ad1f0 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,4 +1,5 @@
 import dataclasses
+import threading
 import typing as tp
 from abc import ABCMeta
 from functools import partial
@@ -379,7 +380,13 @@ jtu.register_pytree_node(Pure, _pure_module_flatten, _pure_module_unflatten)
 PureModule = Pure[tp.Union[State, tp.Tuple[State, ...]], M]
 
 
-SEEN_MODULES_REPR: tp.Optional[tp.Set[ids.UUID]] = None
+@dataclasses.dataclass
+class ModuleReprContext(threading.local):
+  # the modules shown so far by the print that is running in this thread
+  seen_modules: tp.Optional[tp.Set[ids.UUID]] = None
+
+
+MODULE_REPR_CONTEXT = ModuleReprContext()
 
 ModuleStateTuple = tuple[bool]
 
@@ -485,20 +492,18 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     return hash(self._module__state.id)
 
   def __nnx_repr__(self):
-    global SEEN_MODULES_REPR
-
-    if SEEN_MODULES_REPR is None:
-      SEEN_MODULES_REPR = set()
+    if MODULE_REPR_CONTEXT.seen_modules is None:
+      MODULE_REPR_CONTEXT.seen_modules = set()
       clear_seen = True
     else:
       clear_seen = False
 
-    if self._module__state.id in SEEN_MODULES_REPR:
+    if self._module__state.id in MODULE_REPR_CONTEXT.seen_modules:
       yield reprlib.Object(type=type(self), empty_repr="...")
       return
 
     yield reprlib.Object(type=type(self))
-    SEEN_MODULES_REPR.add(self._module__state.id)
+    MODULE_REPR_CONTEXT.seen_modules.add(self._module__state.id)
 
     try:
       for name, value in vars(self).items():
@@ -508,7 +513,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
           yield reprlib.Attr(name, value)
     finally:
       if clear_seen:
-        SEEN_MODULES_REPR = None
+        MODULE_REPR_CONTEXT.seen_modules = None
 
   @property
   def init(self: M) -> M:
-- 
2.43.0


From 156b6491c0b9253a23ded5549deb20c7cda1b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 34/38] fix: attributes named accessor could not be reached
 through apply, call and init

---
 nnx/module.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 51ad1f0..de394f1 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -49,16 +49,17 @@ def _identity(x):
 
 @dataclasses.dataclass
 class DelayedAccessor:
-  accessor: tp.Callable[[tp.Any], tp.Any] = _identity
+  # a private name: all others have to reach the accessed object
+  _delayed_accessor: tp.Callable[[tp.Any], tp.Any] = _identity
 
   def __call__(self, x):
-    return self.accessor(x)
+    return self._delayed_accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
+    return DelayedAccessor(lambda x: getattr(self._delayed_accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: self.accessor(x)[key])
+    return DelayedAccessor(lambda x: self._delayed_accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From 22b75dcbe0f570cc754f7961e1cda64f58242964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 35/38] fix: synchronized statistics of complex inputs keep
 their types

---
 nnx/nn/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/nn/normalization.py b/nnx/nn/normalization.py
index 249e143..f110c5c 100644
--- a/nnx/nn/normalization.py
+++ b/nnx/nn/normalization.py
@@ -79,9 +79,9 @@ def _compute_stats(
     mean = jnp.zeros(mean2.shape, dtype=dtype)
 
   if axis_name is not None:
-    # stacked, so that this also works for scalar statistics
+    # as a pair, so that the statistics keep their own shapes and types
     mean, mean2 = lax.pmean(
-        jnp.stack([mean, mean2]),
+        (mean, mean2),
         axis_name=axis_name,
         axis_index_groups=axis_index_groups,
     )
-- 
2.43.0


From c87c22b52f0e742c8f99fa76a3c6eb3ed20d3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 36/38] fix: state updates and pops refused at another trace
 level change nothing

---
 nnx/module.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index de394f1..7fadd5e 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -150,9 +150,8 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
   def merge(self, state: State, *states: State) -> M:
     states = (state, *states)
     module = _build_module(self)
-    current_state = State({})
 
-    _update_module(module, current_state, states)
+    _update_module(module, states)
 
     return module
 
@@ -663,15 +662,13 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       self: M,
       updates: tp.Union[M, Pure[S, M], State, tp.Tuple[State, ...]],
   ) -> None:
-    current_state = _get_module_state(self)
-
     if isinstance(updates, Pure):
       updates = updates.states
     elif isinstance(updates, Module):
       assert type(self) == type(updates)
       updates = _get_module_state(updates)
 
-    _update_module(self, current_state, updates)
+    _update_module(self, updates)
 
   def mutable_state_dict(self) -> tp.Dict[Path, "MutableLeaf"]:
     return {path: MutableLeaf(self, path) for path, _ in _iter_state(self)}
@@ -919,7 +916,14 @@ def _pop(
   path_parts: PathParts = ()
   predicates = tuple(partitioning.to_predicate(filter) for filter in filters)
   states = tuple({} for _ in predicates)
-  _pop_recursive(module, module_index, path_parts, states, predicates)
+  popped: tp.List[tp.Tuple[Module, str]] = []
+  _pop_recursive(module, module_index, path_parts, states, predicates, popped)
+
+  # change nothing if one of the modules cannot be changed at this trace level
+  for parent, _ in popped:
+    parent._check_trace_level()
+  for parent, name in popped:
+    delattr(parent, name)
 
   return tuple(State(x) for x in states)
 
@@ -930,6 +934,7 @@ def _pop_recursive(
     path_parts: PathParts,
     states: tp.Tuple[tp.Dict[Path, tp.Any]],
     predicates: tp.Tuple[partitioning.Predicate, ...],
+    popped: tp.List[tp.Tuple[Module, str]],
 ) -> None:
   if module._module__state.id in module_index:
     return
@@ -939,7 +944,9 @@ def _pop_recursive(
 
   for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
-      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
+      _pop_recursive(
+          value, module_index, (*path_parts, name), states, predicates, popped
+      )
       continue
     elif not nodes.is_node(value):
       continue
@@ -948,24 +955,25 @@ def _pop_recursive(
     for state, predicate in zip(states, predicates):
       if predicate(path, value):
         state[path] = value
-        delattr(module, name)
+        popped.append((module, name))
         break
 
 
 def _update_module(
-    module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
+    module: Module, updates: tp.Union[State, tp.Tuple[State, ...]]
 ) -> None:
-  new_states = [current_state]
-
-  if isinstance(updates, State):
-    new_states.append(updates)
-  else:
-    new_states.extend(updates)
+  new_states = (updates,) if isinstance(updates, State) else updates
 
   state: StateDict = {}
   for new_state in new_states:
     state.update(new_state)
 
+  # change nothing if one of the modules cannot be changed at this trace level
+  for path in state:
+    parent = _get_value_path(module, path.split("/")[:-1])
+    if isinstance(parent, Module):
+      parent._check_trace_level()
+
   for path, value in state.items():
     path_parts = path.split("/")
     _set_value_at_path(module, path_parts, value)
-- 
2.43.0


From f95201dbd493301f6a8bc7198b669d0d02b3f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:45 +0000
Subject: [PATCH 37/38] fix: a copy of a context could be used at another trace
 level than the original

---
 nnx/contextlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index 3d6b102..86778e4 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -121,7 +121,10 @@ class Context:
     return jax.random.fold_in(stream.key, fold_data)
 
   def copy(self) -> "Context":
-    return Context(rngs=self._rngs, flags=self._flags)
+    context = Context(rngs=self._rngs, flags=self._flags)
+    # the streams are shared, they still belong to the trace level of the original
+    context._trace_state = self._trace_state
+    return context
 
   def has_flag(self, name: str) -> bool:
     return name in self._flags
-- 
2.43.0


From 93133c992d7412bc39fd95da80c99e8f6dcfb762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:05 +0000
Subject: [PATCH 38/38] fix: broadcast variables created in a scan were missing
 in its later steps

---
 nnx/transforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 05133d1..b78634c 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -623,8 +623,8 @@ def scan_apply(
 
     return carry, out
 
-  scan_partial = lambda length, unroll: lambda carry, axes: jax.lax.scan(
-      scan_fn,
+  scan_partial = lambda length, unroll, body=scan_fn: lambda carry, axes: jax.lax.scan(
+      body,
       carry,
       axes,
       length=length,
@@ -659,9 +659,12 @@ def scan_apply(
     # udpate carry
     carry = (carry_state, carry_arg)
 
-    # run scan for the rest of the steps
+    # run scan for the rest of the steps, as a new function: jax would reuse the
+    # trace of the first step, without the new broadcast state
     axes_rest = jax.tree_map(lambda x: x[rest], axes)
-    carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
+    carry, scan_out = scan_partial(
+        length - 1, options.unroll, lambda carry, axes: scan_fn(carry, axes)
+    )(carry, axes_rest)
     carry_state, carry_out = carry
     axes_states_rest, _, carry_state_new, out_rest = scan_out
 
-- 
2.43.0

