From 94fc455ebb2a7bea0725466a8b2f4bfc88417613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 01/55] fix: relative node paths expand to absolute paths at
 and above the world

Expanding from the world gave a doubled separator and walking above a root
node gave an empty string.
---
 nxt/nxt_path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..0ef5b93 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -124,6 +124,8 @@ def expand_relative_node_path(rel_path, start_node_path):
     current_path = start_node_path
     if rel_path.startswith(NODE_SEP):
         return rel_path
+    if current_path == WORLD:
+        current_path = ''
     split_path = rel_path.split(NODE_SEP)
     for directive in split_path:
         if directive == '..':
@@ -136,7 +138,7 @@ def expand_relative_node_path(rel_path, start_node_path):
         # If we get this far, it must be the name of something.
         current_path += NODE_SEP
         current_path += directive
-    return current_path
+    return current_path or WORLD
 
 
 def path_attr_partition(str_path):
-- 
2.43.0


From 0498abb25c9f211fbfb134d20764edfc11bee6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 02/55] fix: replace_ancestor with the world as the old
 ancestor

The world check ran after the terminator was added and so never matched; the
path came back without its new ancestor.
---
 nxt/nxt_path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 0ef5b93..13471b3 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -306,11 +306,11 @@ def replace_ancestor(path, old_ancestor, new_ancestor):
     :return: New path with `old_ancestor` replaced with `new_ancestor`
     :rtype: str
     """
+    old_ancestor_is_world = old_ancestor == WORLD
     path = _add_path_terminator(path)
     old_ancestor = _add_path_terminator(old_ancestor)
     new_ancestor = _add_path_terminator(new_ancestor)
-    new_path = new_ancestor + path
-    old_ancestor_is_world = old_ancestor == WORLD
+    new_path = new_ancestor + path.lstrip(NODE_SEP)
     if not old_ancestor_is_world:
         new_path = path.replace(old_ancestor, new_ancestor, 1)
     new_path = new_path[:-1]
-- 
2.43.0


From 29fb745b33d71e0d4bf615b1ef5351a0cf9acd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 03/55] fix: layer overrides of different flags no longer hide
 one another or leak between layers

---
 nxt/nxt_layer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..3a9ebc0 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1145,11 +1145,14 @@ def get_node_local_attr_names(node_path, layers):
 
 def get_comped_layer_overs(layer, over_dict_attr):
     over_dict = {}
-    over_dict.update(getattr(layer, over_dict_attr, {}))
-    parent = layer.parent_layer
-    while parent:
-        over_dict.update(getattr(parent, over_dict_attr, {}))
-        parent = parent.parent_layer
+    while layer:
+        for path, over in getattr(layer, over_dict_attr, {}).items():
+            if isinstance(over, dict):
+                # Overrides of different flags of the same layer don't hide
+                # each other, merged into a copy to leave the layers alone.
+                over = dict(over_dict.get(path, {}), **over)
+            over_dict[path] = over
+        layer = layer.parent_layer
     return over_dict
 
 
-- 
2.43.0


From 8c8dfc84fc4765cc53a9b890556293b04c11ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 04/55] fix: children and descendants compare paths by value
 and keep their cache private

---
 nxt/nxt_layer.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 3a9ebc0..4f51e22 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -328,7 +328,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
@@ -343,8 +343,15 @@ class SpecLayer(object):
                     if trimmed not in implied_children:
                         implied_children += [trimmed]
         if cache_real:
-            k = LayerReturnTypes.Path
-            self._cached_children[node_path][k] = children_paths[:]
+            # The caller may extend what it's given, so the cache keeps copies
+            self._cached_children[node_path] = {LayerReturnTypes.Node:
+                                                children_nodes[:],
+                                                LayerReturnTypes.Path:
+                                                children_paths[:],
+                                                LayerReturnTypes.NodeTable:
+                                                node_table[:],
+                                                LayerReturnTypes.NameDict:
+                                                copy.copy(name_dict)}
         if include_implied:
             for imp in implied_children:
                 if imp not in children_paths:
@@ -366,7 +373,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
@@ -390,7 +397,7 @@ class SpecLayer(object):
             # return type TABLE
             for item in node_table:
                 p, n = item
-                if p not in ordered_node_table:
+                if item not in ordered_node_table:
                     ordered_node_table += [item]
             node_table = ordered_node_table
 
@@ -449,6 +456,10 @@ class SpecLayer(object):
                 for d_pth, d in more_descendants:
                     _temp += self.children(d_pth, return_type,
                                            include_implied=include_implied)
+            elif return_type == LayerReturnTypes.Node:
+                for d in more_descendants:
+                    _temp += self.children(self.get_node_path(d), return_type,
+                                           include_implied=include_implied)
             descendants += _temp
             more_descendants = _temp
         return descendants
-- 
2.43.0


From c6cabbc622497454762c843b0f32431407e8909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 05/55] fix: execution order of roots that execute in each
 other ends

---
 nxt/nxt_layer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 4f51e22..c583a32 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -629,7 +629,11 @@ class SpecLayer(object):
                     continue
                 if not match:
                     continue
-                prev_root_path = self.get_node_path(root)
+                root_path = self.get_node_path(root)
+                if root_path in exec_order:
+                    # Roots that execute in each other are only visited once
+                    continue
+                prev_root_path = root_path
                 exec_order += [prev_root_path]
                 break  # for loop
             else:
-- 
2.43.0


From 122085209f736f7bc5fbfe2c159d5a62602a7ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 06/55] fix: clearing a lock override looks at the locks

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index c583a32..1f0241a 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -827,7 +827,7 @@ class SpecLayer(object):
         if not root:
             logger.error('Can not set colors override on top layer!')
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
-- 
2.43.0


From edce1810e247899cb2fd14aa820fa7812c4dc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 07/55] fix: zero, false and empty attribute values are saved

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..1bd4b4d 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -257,7 +257,7 @@ def get_node_as_dict(spec_node):
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
         if typ:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value not in (None, []):
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From 8f9a42ab2f1cbb6565998190299f012e672b0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 08/55] fix: a layer's own lock is saved

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 1f0241a..154e2b7 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -896,6 +896,8 @@ class SpecLayer(object):
             SAVE_KEY.COLOR: self.color,
             SAVE_KEY.META_DATA: self.get_meta_data(),
             SAVE_KEY.NODES: self.get_nodes_save_data()}
+        if self.lock:
+            save_dict[SAVE_KEY.LOCK] = self.lock
         rm = []
         for k, v in save_dict.items():
             if v in ((), [], {}):
-- 
2.43.0


From 6889a3dcf869f6eaf512c989cb77d7f243e34a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 09/55] fix: a layer's saved mute and solo flags are restored
 when it is loaded

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 154e2b7..84c907a 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -109,8 +109,8 @@ class SpecLayer(object):
         self._cached_implied_children = {}
         self._name = UNTITLED
         self._layer_idx = 0
-        self.mute = False
-        self.solo = False
+        self.mute = layer_data.get(SAVE_KEY.MUTE, False)
+        self.solo = layer_data.get(SAVE_KEY.SOLO, False)
         self.filepath = layer_data.get(SAVE_KEY.FILEPATH)
         self.real_path = layer_data.get(SAVE_KEY.REAL_PATH)
         self.cwd = layer_data.get(SAVE_KEY.CWD)
-- 
2.43.0


From f25ca958db9883343e41682c19d6c043d47ab317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 10/55] fix: an instance of a node that contains it indirectly
 ends

---
 nxt/stage.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..c6c6546 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3023,6 +3023,11 @@ class Stage:
             logger.error('{} attempted to instance dependant!'
                          ''.format(node_path), links=[node_path])
             return to_do
+        # Check that the instance source doesn't hold a copy of this node
+        if real_inst_path in self.get_node_containers(node_path, comp_layer):
+            logger.error('{} attempted to instance a node that contains it!'
+                         ''.format(node_path), links=[node_path])
+            return to_do
         setattr(comp_node, INTERNAL_ATTRS.INSTANCE_PATH, real_inst_path)
         self.extend_dirty_map(real_inst_path, node_path,
                               comp_layer._dirty_map)
@@ -3057,6 +3062,27 @@ class Stage:
         sort_multidimensional_list(to_do, 0)
         return to_do
 
+    @staticmethod
+    def get_node_containers(node_path, comp_layer):
+        """Get the paths of all nodes that contain the given node or a copy of
+        it. These are its ancestors, the nodes that instance it or any of its
+        containers, and the ancestors of those nodes.
+        :param node_path: String of node path
+        :param comp_layer: CompLayer
+        :return: set of node paths
+        """
+        containers = set()
+        to_do = [node_path]
+        while to_do:
+            path = to_do.pop()
+            found = nxt_path.all_ancestor_paths(path)
+            found = found + comp_layer._dirty_map.get(path, [])
+            for container in found:
+                if container not in containers:
+                    containers.add(container)
+                    to_do += [container]
+        return containers
+
     def comp_proxies(self, comp_layer, node_count):
         # Short variable names
         _path_data = comp_layer._nodes_path_as_key
-- 
2.43.0


From bf1de59e6dea91a87d78ffcfd1b14d0dda1cca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 11/55] fix: renaming and reparenting neither overwrite nodes
 nor leave descendants behind

---
 nxt/stage.py | 76 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c6c6546..cb065a2 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1159,6 +1159,8 @@ class Stage:
                 new_name = self.get_unique_node_name(name=name,
                                                      layer=layer,
                                                      parent_path=parent_path)
+                new_name = self._get_free_move_name(new_name, old_path,
+                                                    parent_path, layer, layer)
                 setattr(node, INTERNAL_ATTRS.NAME, new_name)
             else:
                 new_name = name
@@ -1179,23 +1181,7 @@ class Stage:
             layer.clear_node_child_cache(parent_path)
             # Update descendants nodes
             old_paths += [old_path]
-            for path, n in list(_path_data.items()):
-                if path is new_path:
-                    continue
-                # Update all other paths that start with the old path
-                if nxt_path.is_ancestor(path, old_path):
-                    updated_path = nxt_path.replace_ancestor(path, old_path,
-                                                             new_path)
-                    _path_data[updated_path] = _path_data.pop(path)
-                    _node_data[n] = updated_path
-                    n_parent_path = getattr(n, INTERNAL_ATTRS.PARENT_PATH)
-                    new_parent_path = nxt_path.replace_ancestor(n_parent_path,
-                                                                old_path,
-                                                                new_path)
-                    layer.clear_node_child_cache(path)
-                    layer.clear_node_child_cache(updated_path)
-                    layer.clear_node_child_cache(new_parent_path)
-                    setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
+            self._move_descendant_paths(old_path, new_path, layer)
 
             # Update layer data
             if old_path in list(_collapse_data.keys()):
@@ -1226,6 +1212,58 @@ class Stage:
             idx += 1
         return result_paths
 
+    def _get_free_move_name(self, name, node_path, parent_path, layer,
+                            scoped_layer):
+        """Get a name the node can be moved to without it, or any of its
+        descendants, taking the path of another node on the layer. The layer
+        may hold nodes that `get_unique_node_name` can't see.
+        :param name: String of desired (unique) name
+        :param node_path: String of the current node path
+        :param parent_path: String of the path the node is moved to
+        :param layer: SpecLayer the node is on
+        :param scoped_layer: Layer used to find unique names
+        :return: String of node name
+        """
+        moved = [p for p in layer._nodes_path_as_key
+                 if p == node_path or nxt_path.is_ancestor(p, node_path)]
+        others = set(layer._nodes_path_as_key).difference(moved)
+        free_name = name
+        trailing_num = 1
+        while True:
+            new_path = nxt_path.join_node_paths(parent_path, free_name)
+            new_paths = [nxt_path.replace_ancestor(p, node_path, new_path)
+                         for p in moved]
+            if others.isdisjoint(new_paths):
+                return free_name
+            trailing_num += 1
+            free_name = self.get_unique_node_name(name + str(trailing_num),
+                                                  scoped_layer, parent_path)
+
+    @staticmethod
+    def _move_descendant_paths(old_path, new_path, layer):
+        """Changes the path of all nodes below the old path such that they
+        are below the new path.
+        :param old_path: String of node path
+        :param new_path: String of node path
+        :param layer: SpecLayer
+        """
+        _path_data = layer._nodes_path_as_key
+        moved = [(path, node) for path, node in _path_data.items()
+                 if nxt_path.is_ancestor(path, old_path)]
+        for path, _ in moved:
+            _path_data.pop(path)
+        for path, node in moved:
+            updated_path = nxt_path.replace_ancestor(path, old_path, new_path)
+            _path_data[updated_path] = node
+            layer._nodes_node_as_key[node] = updated_path
+            old_parent_path = getattr(node, INTERNAL_ATTRS.PARENT_PATH)
+            new_parent_path = nxt_path.replace_ancestor(old_parent_path,
+                                                        old_path, new_path)
+            layer.clear_node_child_cache(path)
+            layer.clear_node_child_cache(updated_path)
+            layer.clear_node_child_cache(new_parent_path)
+            setattr(node, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
+
     def add_node_attr(self, node, attr, attr_data, layer, tracked=True):
         # TODO default values for args? If so, fix test_tokens.py
         node_path = layer.get_node_path(node)
@@ -1323,6 +1361,8 @@ class Stage:
             scoped_layer = comp_layer or layer
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
                                              parent_path=parent_path)
+            name = self._get_free_move_name(name, old_node_path, parent_path,
+                                            layer, scoped_layer)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
@@ -1357,6 +1397,8 @@ class Stage:
         layer.clear_node_child_cache(old_node_path)
         if children:
             self.parent_nodes(children, new_node_path, layer, check_names=False)
+        # Descendants without a parent node are not moved by the above
+        self._move_descendant_paths(old_node_path, new_node_path, layer)
         layer.refresh()
         return new_node_path
 
-- 
2.43.0


From e815f08da841e795d951ea97f15e9c4247a9c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 12/55] fix: refreshing a layer forgets the cached children of
 paths that hold no node anymore

---
 nxt/nxt_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 84c907a..014188d 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -178,6 +178,9 @@ class SpecLayer(object):
         """Re-populates the node table, and sets nodes' source layer.
         """
         self._node_table = []
+        # Paths without a node (anymore) may be cached too
+        self._cached_children = {}
+        self._cached_implied_children = {}
         for path, node in self._nodes_path_as_key.items():
             for attr in get_node_local_attr_names(path, [self]):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
-- 
2.43.0


From 93b8e36248c8454b4e10255b62f26433466951da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 13/55] fix: resolving replaces tokens by position

---
 nxt/stage.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index cb065a2..23d858c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1901,7 +1901,8 @@ class Stage:
 
     def resolve(self, node, text, layer, **kwargs):
         text = str(text)
-        resolved = text
+        resolved = ''
+        remaining = text
         for token in tokens.get_standalone_tokens(text):
             token_content = tokens.get_token_content(token)
             token_type = Stage.determine_token_type(token_content)
@@ -1930,8 +1931,11 @@ class Stage:
             if rep is None:
                 logger.warning('Failed to resolve: {}'.format(token_content))
                 rep = ''
-            resolved = resolved.replace(token, rep)
-        return resolved
+            # Tokens come in the order of the text, replacing by position
+            # leaves text that only looks like a token after replacement alone
+            before, _, remaining = remaining.partition(token)
+            resolved += before + rep
+        return resolved + remaining
 
     def resolve_attr_ref_token(self, node, text, layer):
         """Resolve an attribute ref string into the value contained at that
-- 
2.43.0


From 965e30c5cfcc4f7432b33f1da71a3abd1b76a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 14/55] fix: node code goes on as its own node after running
 other nodes

---
 nxt/stage.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 23d858c..7064ee0 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4164,6 +4164,11 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     # Convert the compute string to a code object for running in console
     _code, lines = stage.get_node_code(rt_node, runtime_layer, custom_code)
     good_keys = list(graph_globals.keys())
+    # Node code can run other nodes, the outer node goes on afterwards
+    outer = None
+    if runtime_layer.running:
+        outer = (console.globals['self'], console.node_path,
+                 console.running_lines)
     console.node_path = rt_path
     console.running_lines = lines
     console.globals['self'] = frame_node
@@ -4174,12 +4179,15 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except GraphError:
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
-        runtime_layer.running = False
         raise
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
-    runtime_layer.running = False
+    finally:
+        runtime_layer.running = outer is not None
+        if outer:
+            (console.globals['self'], console.node_path,
+             console.running_lines) = outer
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-- 
2.43.0


From b361a74f31892ee3140295d261b0650757a9144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 15/55] fix: a run started by index starts at that start point

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7064ee0..1b5bbe7 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3858,7 +3858,7 @@ class Stage:
             start_nodes = self.get_layer_start_nodes(layer)
             if not start_nodes:
                 raise ValueError("No start specified and no start nodes.")
-            start_path = start_nodes[0]
+            start_path = start_nodes[start or 0]
         exec_order = layer.get_exec_order(start_path)
         return self.execute_nodes(exec_order, layer, parameters)
 
-- 
2.43.0


From c5373e97a4c17e020befae858cbe5e5bc4856296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 16/55] fix: attribute changes between equal values of
 different types are kept

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1b5bbe7..65f1454 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4192,7 +4192,9 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
         post_run_val = getattr(frame_node, attr_name)
-        if pre_run_val == post_run_val:
+        # 0 and False, or 1 and 1.0, are equal but not the same value
+        if type(pre_run_val) is type(post_run_val) and \
+                pre_run_val == post_run_val:
             continue
         # Push only changed values back to rt_node, which represents
         # what is inherited by children/instances
-- 
2.43.0


From 47d74ecd8f077ee0c9a61988a0f3ad997a6b6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 17/55] fix: log receiver keeps records of streams cut within a
 header and ends with the stream

---
 nxt/nxt_log.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 1327939..a7c7a6e 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -302,13 +302,13 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
         according to whatever policy is configured locally.
         """
         while True:
-            chunk = self.connection.recv(4)
+            chunk = self.receive(4)
             if len(chunk) < 4:
                 break
             slen = struct.unpack('>L', chunk)[0]
-            chunk = self.connection.recv(slen)
-            while len(chunk) < slen:
-                chunk = chunk + self.connection.recv(slen - len(chunk))
+            chunk = self.receive(slen)
+            if len(chunk) < slen:
+                break
             obj = self.un_pickle(chunk)
             level_name = obj.get('levelname')
             if level_name:
@@ -316,6 +316,22 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
             record = logging.makeLogRecord(obj)
             self.handle_log_record(record)
 
+    def receive(self, size):
+        """A read may return less than was asked for, reads on until all of it
+        arrived or the connection is closed.
+        :param size: Number of bytes to read
+        :type size: int
+        :return: The bytes, less than size if the connection was closed.
+        :rtype: bytes
+        """
+        data = b''
+        while len(data) < size:
+            chunk = self.connection.recv(size - len(data))
+            if not chunk:
+                break
+            data += chunk
+        return data
+
     def un_pickle(self, data):
         return pickle.loads(data)
 
-- 
2.43.0


From 69a5b69e2d1dbfee88b610273be0242fe9155e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 18/55] fix: the socket message header is made of bytes

---
 nxt/remote/nxt_socket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index bd3ed3c..2c84f62 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -252,7 +252,7 @@ def send_to_server(data_dict):
         logger.error("No server! Try toggling the command port.")
         return
     msg = pickle.dumps(data_dict)
-    header = bytes("{:<{}}".format(len(msg), HEADER_SIZE))
+    header = "{:<{}}".format(len(msg), HEADER_SIZE).encode('ascii')
     data = header + msg
     # logger.debug('Size of data: {}'.format(sys.getsizeof(data)))
     try:
-- 
2.43.0


From fc8c8305d58ba731614c93a78247e365d13fc412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:08 +0000
Subject: [PATCH 19/55] fix: layers that come in with a new sub layer keep the
 order of their references

---
 nxt/stage.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 65f1454..062f590 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -219,8 +219,12 @@ class Stage:
         except AttributeError:
             parent_layer = None
         if parent_layer is not None:
+            # References above the new layer in the stack stay stronger
+            ref_idx = len([l for l in self._sub_layers[:idx]
+                           if l.parent_layer is parent_layer])
             if new_sublayer.filepath not in parent_layer.sub_layer_paths:
-                parent_layer.sub_layer_paths.insert(0, new_sublayer.filepath)
+                parent_layer.sub_layer_paths.insert(ref_idx,
+                                                    new_sublayer.filepath)
             inserted = False
             for sl_dict in parent_layer.sub_layers:
                 if sl_dict[SAVE_KEY.FILEPATH] == new_sublayer.filepath:
@@ -228,7 +232,7 @@ class Stage:
                     inserted = True
                     break
             if not inserted:
-                parent_layer.sub_layers.insert(0, sub_layer_data)
+                parent_layer.sub_layers.insert(ref_idx, sub_layer_data)
         else:
             for lower_layer in self._sub_layers[idx + 1:]:
                 lower_file_path = lower_layer.filepath
@@ -254,6 +258,7 @@ class Stage:
                     lower_sub_layer_data['layer'].parent_layer = new_sublayer
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
         # Recursively load sub layers from the new layer
+        sub_idx = idx + 1
         for ref in new_sublayer.sub_layers:
             if ref.get('layer'):
                 continue
@@ -264,7 +269,10 @@ class Stage:
             deep_sub_layer_data['parent_layer'] = new_sublayer
             deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
             deep_sub_layer_data[SAVE_KEY.REAL_PATH] = real_file_path
-            self.new_sublayer(deep_sub_layer_data, idx=idx + 1)
+            layer_count = len(self._sub_layers)
+            self.new_sublayer(deep_sub_layer_data, idx=sub_idx)
+            # The next reference is weaker than all this one brought in
+            sub_idx += len(self._sub_layers) - layer_count
         else:
             new_sublayer.save()
         for idx, sub_layer in enumerate(self._sub_layers):
-- 
2.43.0


From 502fcbb91a18f439bc34e90e48adabed01a26f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:52 +0000
Subject: [PATCH 20/55] fix: removing a layer removes all it brought in and
 nothing of others

---
 nxt/stage.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 062f590..e1126c9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -283,9 +283,9 @@ class Stage:
         if isinstance(layer, int):
             layer = self._sub_layers[layer]
         file_path = layer.filepath
-        layer_data = layer.sub_layers
-        for remove_sub_data in layer_data:
-            layer_data.remove(remove_sub_data)
+        # Layers are only assigned to the references of their parent by a comp
+        self.assign_layer_parents(self._sub_layers)
+        for remove_sub_data in layer.sub_layers[:]:
             ref_layer = remove_sub_data.get('layer')
             if not ref_layer:
                 continue
@@ -293,15 +293,13 @@ class Stage:
         for sub_layer in self._sub_layers:
             if sub_layer is layer:
                 continue
-            if file_path in sub_layer.sub_layer_paths:
-                sub_layer.sub_layer_paths.remove(file_path)
             sub_layer_data = sub_layer.sub_layers
-            rm_d = [d for d in sub_layer_data
-                    if d[SAVE_KEY.FILEPATH] == file_path]
+            rm_d = [d for d in sub_layer_data if d.get('layer') is layer]
             for rd in rm_d:
-                ref_layer = rd['layer']
-                if ref_layer is layer:
-                    sub_layer_data.remove(rd)
+                sub_layer_data.remove(rd)
+                # Others may reference the same file as a layer of their own
+                if file_path in sub_layer.sub_layer_paths:
+                    sub_layer.sub_layer_paths.remove(file_path)
         if layer in self._sub_layers:
             self._sub_layers.remove(layer)
         for i, layer in enumerate(self._sub_layers):
-- 
2.43.0


From 882b5aa541392c893b877be0cd5b1dd7012cfa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 21/55] fix: a new top layer takes over the layers it
 references instead of loading them again

---
 nxt/stage.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e1126c9..4c88192 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -235,13 +235,8 @@ class Stage:
                 parent_layer.sub_layers.insert(ref_idx, sub_layer_data)
         else:
             for lower_layer in self._sub_layers[idx + 1:]:
-                lower_file_path = lower_layer.filepath
-                skip = False
-                for higher_layer in reversed(self._sub_layers[:idx - 1]):
-                    if lower_file_path in higher_layer.sub_layer_paths:
-                        skip = True
-                        break
-                if skip:
+                # Layers that have a parent stay below it
+                if lower_layer.parent_layer is not None:
                     continue
                 lower_real_path = lower_layer.real_path
                 lower_sub_layer_data = {SAVE_KEY.FILEPATH: lower_real_path,
@@ -252,6 +247,7 @@ class Stage:
                 for sl_dict in new_sublayer.sub_layers:
                     if sl_dict[SAVE_KEY.FILEPATH] == lower_layer.filepath:
                         sl_dict['layer'] = lower_layer
+                        lower_layer.parent_layer = new_sublayer
                         inserted = True
                         break
                 if not inserted:
-- 
2.43.0


From b6e97a74052294c4aca2c09a34e24aa3449605d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 22/55] fix: deleting descendants skips those implied by deeper
 nodes

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 4c88192..33510c5 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -825,6 +825,8 @@ class Stage:
             remove_node_paths += descendants
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
+        # Implied descendants have no node on this layer to remove
+        remove_node_paths = [p for p in remove_node_paths if layer.lookup(p)]
         for remove_path in remove_node_paths:
             remove_node = layer.lookup(remove_path)
             specs_to_remove += [remove_node]
-- 
2.43.0


From f0b0431de56e762feed70d452c892e14332bc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 23/55] fix: a node added to the weakest layer keeps its
 stronger opinions in the composite

---
 nxt/stage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 33510c5..bc5f208 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2853,7 +2853,11 @@ class Stage:
                     inserted = True
                     break
                 i += 1
-            if not inserted:  # Failsafe to insert new node into tuple
+            if not inserted:
+                # No weaker reference or parent follows, we are the weakest
+                bases += [b for b in existing_bases if
+                          CompArc.get_arc(comp_node, b, comp_layer) ==
+                          CompArc.REFERENCE]
                 bases += [spec_node]
             # Rough outline for future extension of pre proxy arcs
             reference_map[CompArc.REFERENCE] = tuple(bases)
-- 
2.43.0


From 2a766d719fad603b995ffd403685023d8e4a73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 24/55] fix: local children of an instance are known to depend
 on their source

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index bc5f208..68c6a99 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3111,6 +3111,8 @@ class Stage:
                                        INTERNAL_ATTRS.INSTANCE_PATH, None)
                 if ex_inst_path != '':
                     setattr(target, INTERNAL_ATTRS.INSTANCE_PATH, inst_child_src_path)
+                    self.extend_dirty_map(inst_child_src_path, tgt_path,
+                                          comp_layer._dirty_map)
             else:
                 to_do += [(target_ns, inst_child_src_path, tgt_path)]
         sort_multidimensional_list(to_do, 0)
-- 
2.43.0


From 03eeb6e2ad5b68105018cb1c6cf5d4d63484f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 25/55] fix: editing code and enabled state keeps the composite
 in step with all layers and instances

---
 nxt/stage.py | 125 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 68 insertions(+), 57 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 68c6a99..b2c0ebb 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -956,6 +956,10 @@ class Stage:
             if not comp_node:  # skip node if it really is gone
                 continue
             self.update_inherited_attrs(comp_node, comp_layer)
+        # Nodes that depend on a removed node show what it leaves behind
+        for path in remove_node_paths:
+            for attr in (INTERNAL_ATTRS.ENABLED, INTERNAL_ATTRS.COMPUTE):
+                self.update_comp_opinion(path, attr, comp_layer)
         return True, dirty_nodes
 
     @staticmethod
@@ -2434,50 +2438,65 @@ class Stage:
 
     def set_node_code_lines(self, node, code_lines, comp_layer):
         node_path = get_node_path(node)
-        comp_node = comp_layer.lookup(node_path)
-        new_comp_lines = None
-        if not code_lines:
-            inst, _ = self.safe_get_node_instance(comp_node, comp_layer)
-            if inst:
-                new_comp_lines = getattr(inst, INTERNAL_ATTRS.COMPUTE)
         self.clear_code_lines(node)
         live_lines = getattr(node, INTERNAL_ATTRS.COMPUTE)
         live_lines.extend(code_lines)
 
-        live_comp_code = getattr(comp_node, INTERNAL_ATTRS.COMPUTE)
-        if not code_lines and new_comp_lines is None:
-            arcs = CompArc.get_bases_arc_dict(comp_node, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            for ref in refs:
-                _code = getattr(ref, INTERNAL_ATTRS.COMPUTE)
-                if _code:
-                    new_comp_lines = _code
-                    break
-        if new_comp_lines is None:
-            new_comp_lines = live_lines
-        if live_comp_code is not live_lines or not live_lines:
-            setattr(comp_node, INTERNAL_ATTRS.COMPUTE, new_comp_lines)
-            live_comp_code = new_comp_lines
-
-        for dirty_path in comp_layer.get_node_dirties(node_path):
-            dirty_comp = comp_layer.lookup(dirty_path)
-            if not dirty_comp:
-                break
-            arcs = CompArc.get_bases_arc_dict(dirty_comp, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            stop = False
-            for ref in refs:
-                if getattr(ref, INTERNAL_ATTRS.COMPUTE):
-                    stop = True
-                    break
-            if stop:
-                break
-            old_dirty_code = getattr(dirty_comp, INTERNAL_ATTRS.COMPUTE)
-            if live_comp_code is old_dirty_code and old_dirty_code:
-                break
-            setattr(dirty_comp, INTERNAL_ATTRS.COMPUTE, live_comp_code)
+        self.update_comp_opinion(node_path, INTERNAL_ATTRS.COMPUTE, comp_layer)
         return live_lines
 
+    @staticmethod
+    def get_comp_opinion(comp_node, attr, comp_layer):
+        """Get the opinion a comp node must show for an internal attr that
+        isn't inherited from the parent. It is the strongest opinion of the
+        nodes it is made of or else the opinion of its instance source.
+        :param comp_node: CompNode
+        :param attr: Internal attr name
+        :param comp_layer: CompLayer
+        :return: (value, bool of whether there is an opinion)
+        """
+        arc_dict = CompArc.get_bases_arc_dict(comp_node, comp_layer)
+        for spec_node in arc_dict.get(CompArc.REFERENCE, []):
+            if getattr(spec_node, INTERNAL_ATTRS.PROXY):
+                # What a proxy was given when it was made is no opinion
+                continue
+            value, has = get_opinion(spec_node, attr)
+            if has:
+                return value, True
+        inst_path = getattr(comp_node, INTERNAL_ATTRS.INSTANCE_PATH, None)
+        inst_source = comp_layer.lookup(inst_path) if inst_path else None
+        if inst_source is not None and inst_source is not comp_node:
+            return get_opinion(inst_source, attr)
+        return None, False
+
+    @staticmethod
+    def update_comp_opinion(node_path, attr, comp_layer):
+        """Update the given internal attr of a comp node and of the nodes that
+        depend on it.
+        :param node_path: String of node path
+        :param attr: Internal attr name
+        :param comp_layer: CompLayer
+        """
+        paths = [node_path] + comp_layer.get_node_dirties(node_path)
+        # Instances may be listed before their sources
+        for _ in paths:
+            changed = False
+            for path in paths:
+                comp_node = comp_layer.lookup(path)
+                if comp_node is None:
+                    continue
+                value, has = Stage.get_comp_opinion(comp_node, attr,
+                                                    comp_layer)
+                if not has:
+                    value = INTERNAL_ATTRS.DEFAULTS.get(attr)
+                    if callable(value):
+                        value = value()
+                if getattr(comp_node, attr) != value:
+                    changed = True
+                setattr(comp_node, attr, value)
+            if not changed:
+                break
+
     @staticmethod
     def clear_code_lines(node):
         del getattr(node, INTERNAL_ATTRS.COMPUTE)[:]
@@ -3982,25 +4001,17 @@ class Stage:
         dirties = []
         if not comp_node:
             return dirties
-        update_it = True
-        for n in comp_node.__mro__[1:]:
-            # Ignore parents, self, and abstract base classes
-            if n in (spec_node, comp_node, object, SpecNode, Node):
-                continue
-            p = get_node_path(n)
-            if p in node_path:
-                continue
-            influencer_opinion = getattr(n, INTERNAL_ATTRS.ENABLED)
-            if influencer_opinion is None:
-                influencer_opinion = state
-            if influencer_opinion != state:
-                update_it = False
-        if update_it:
-            setattr(comp_node, INTERNAL_ATTRS.ENABLED, state)
-            for dnp in comp_layer.get_node_dirties(node_path):
-                dirties += [dnp]
-                dirty_node = comp_layer.lookup(dnp)
-                setattr(dirty_node, INTERNAL_ATTRS.ENABLED, state)
+        old_states = {}
+        for path in [node_path] + comp_layer.get_node_dirties(node_path):
+            node = comp_layer.lookup(path)
+            if node:
+                old_states[path] = getattr(node, INTERNAL_ATTRS.ENABLED)
+        Stage.update_comp_opinion(node_path, INTERNAL_ATTRS.ENABLED,
+                                  comp_layer)
+        for path, old_state in old_states.items():
+            node = comp_layer.lookup(path)
+            if getattr(node, INTERNAL_ATTRS.ENABLED) != old_state:
+                dirties += [path]
         return dirties
 
     @staticmethod
-- 
2.43.0


From 5ea63d6843ae37dde7cc443ac73370fa8cce14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 26/55] fix: child order edits reach instances merged with
 their own order

---
 nxt/stage.py | 62 ++++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b2c0ebb..822c44e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2469,6 +2469,26 @@ class Stage:
             return get_opinion(inst_source, attr)
         return None, False
 
+    @staticmethod
+    def get_comp_child_order(comp_node, comp_layer):
+        """Merge the child order a comp node must show from the child orders of
+        the nodes it is made of and the one of its instance source.
+        :param comp_node: CompNode
+        :param comp_layer: CompLayer
+        :return: list of child names
+        """
+        child_order = []
+        arc_dict = CompArc.get_bases_arc_dict(comp_node, comp_layer)
+        for spec_node in reversed(arc_dict.get(CompArc.REFERENCE, [])):
+            spec_co = getattr(spec_node, INTERNAL_ATTRS.CHILD_ORDER)
+            child_order = list_merger(spec_co, child_order)
+        inst_path = getattr(comp_node, INTERNAL_ATTRS.INSTANCE_PATH, None)
+        inst_source = comp_layer.lookup(inst_path) if inst_path else None
+        if inst_source is not None and inst_source is not comp_node:
+            inst_co = getattr(inst_source, INTERNAL_ATTRS.CHILD_ORDER)
+            child_order = list_merger(child_order, inst_co)
+        return child_order
+
     @staticmethod
     def update_comp_opinion(node_path, attr, comp_layer):
         """Update the given internal attr of a comp node and of the nodes that
@@ -3708,35 +3728,19 @@ class Stage:
     def propagate_child_order(self, source_node_path, old_child_order,
                               new_child_order, comp_layer):
         dirites = comp_layer.get_node_dirties(source_node_path)
-        old_len = len(old_child_order)
-        for dirty in dirites:
-            inst_target = comp_layer.lookup(dirty)
-            rt = comp_layer.RETURNS.Path
-            inst_children = comp_layer.children(dirty, return_type=rt,
-                                                ordered=True)
-            inst_old = [nxt_path.node_name_from_node_path(p)
-                        for p in inst_children]
-
-            old_set = set(old_child_order)
-            target_set = set(inst_old)
-            updated_child_order = new_child_order[:]
-            valid_sets = bool(old_set) and bool(target_set)
-            if old_set.issubset(target_set) and valid_sets:
-                i = 0  # Faster than enumerate or range(len())
-                for _ in inst_old:
-                    if inst_old[i:old_len + i] == old_child_order:
-                        updated_child_order = inst_old[:]
-                        updated_child_order[i:old_len + i] = new_child_order
-                        break
-                    i += 1
-                if updated_child_order is new_child_order:
-                    updated_child_order = inst_old
-            elif old_set.intersection(target_set):
-                updated_child_order = inst_old
-            else:
-                updated_child_order = inst_old + new_child_order
-            setattr(inst_target, INTERNAL_ATTRS.CHILD_ORDER,
-                    updated_child_order[:])
+        # Instances may be listed before their sources
+        for _ in dirites:
+            changed = False
+            for dirty in dirites:
+                inst_target = comp_layer.lookup(dirty)
+                if inst_target is None:
+                    continue
+                new_co = self.get_comp_child_order(inst_target, comp_layer)
+                if new_co != self.get_node_child_order(inst_target):
+                    setattr(inst_target, INTERNAL_ATTRS.CHILD_ORDER, new_co)
+                    changed = True
+            if not changed:
+                break
         return dirites
 
     @staticmethod
-- 
2.43.0


From 8c7368e3dd0ae16641dffee7ccfe69eb5950c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:21 +0000
Subject: [PATCH 27/55] fix: a node added in a further layer keeps its children
 in the composite

Adding a node dropped the composite's cache of its children; the next child
added then started a cache of its own, which hid all the others.
---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 822c44e..57e41a2 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -683,6 +683,9 @@ class Stage:
             # Early exit if no/invalid comp layer
             return return_nodes, [new_path] + dirty_children
         comp_layer.clear_node_child_cache(node_path)
+        # A cache that starts out with the next child added would hide the
+        # children this node already has in the comp.
+        comp_layer.children(node_path)
         return_nodes = new_nodes
         comp_node = self.targeted_comp_pre_proxies(spec_node=new_node,
                                                    new_node_path=node_path,
-- 
2.43.0


From c06d72ec2438c070dad3a83ab4325b4fb74fa686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:03 +0000
Subject: [PATCH 28/55] fix: full_file_expand restores the working directory
 when expansion fails

---
 nxt/nxt_path.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 13471b3..00e41e1 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -26,12 +26,13 @@ def full_file_expand(path, start=None):
     orig_cwd = os.getcwd()
     if start:
         os.chdir(start)
-
-    full_path = unify_env_vars(path)
-    full_path = os.path.expandvars(full_path)
-    full_path = os.path.expanduser(full_path)
-    full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
+    try:
+        full_path = unify_env_vars(path)
+        full_path = os.path.expandvars(full_path)
+        full_path = os.path.expanduser(full_path)
+        full_path = os.path.realpath(full_path)
+    finally:
+        os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
-- 
2.43.0


From b79e524c57d020e956e15baa86a42f14e09a2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:03 +0000
Subject: [PATCH 29/55] fix: unify_env_vars converts whole variable names only

---
 nxt/nxt_path.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 00e41e1..de60c6a 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -40,15 +40,15 @@ def full_file_expand(path, start=None):
 # Regex patterns for finding all env vars.
 # NOTE match uses platform specific identifier, returns name only in group1.
 PLATFORM_VAR_PATTERN_MAP = {
-    'linux': re.compile(r"\$([a-zA-Z_]*)"),
-    'win32': re.compile(r"%([a-zA-Z_]*)%")
+    'linux': re.compile(r"\$([a-zA-Z_][a-zA-Z0-9_]*)"),
+    'win32': re.compile(r"%([a-zA-Z_][a-zA-Z0-9_]*)%")
 }
 PLATFORM_VAR_PATTERN_MAP['linux2'] = PLATFORM_VAR_PATTERN_MAP['linux']
 PLATFORM_VAR_PATTERN_MAP['darwin'] = PLATFORM_VAR_PATTERN_MAP['linux']
 
 # Strings ready to format with env var name. Result is ready for os expansion.
 PLATFORM_VAR_FORMAT_MAP = {
-    'linux': "${}",
+    'linux': "${{{}}}",
     'win32': "%{}%"
 }
 PLATFORM_VAR_FORMAT_MAP['linux2'] = PLATFORM_VAR_FORMAT_MAP['linux']
@@ -92,11 +92,8 @@ def unify_env_vars(path, target_platform=sys.platform):
         if pattern in replaced_patterns:
             continue
         replaced_patterns += [pattern]
-        found_vars = re.findall(pattern, path)
-        for var in found_vars:
-            bad_var = PLATFORM_VAR_FORMAT_MAP[platform].format(var)
-            new_var = PLATFORM_VAR_FORMAT_MAP[target_platform].format(var)
-            result = result.replace(bad_var, new_var)
+        new_var = PLATFORM_VAR_FORMAT_MAP[target_platform].format(r'\1')
+        result = re.sub(pattern, new_var, result)
     return result
 
 
-- 
2.43.0


From 425fa89c2938e0621de69aec4ce7f48140c47180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:03 +0000
Subject: [PATCH 30/55] fix: nested references in historical file resolution
 resolve where they were written

---
 nxt/plugins/file_fallbacks.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index 467f66f..3f44168 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -199,26 +199,32 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
             source_path = nxt_path.expand_relative_node_path(source_path,
                                                              node_path)
         source_node = comp_layer.lookup(source_path)
-        historical_node = stage.infer_lower_comp(source_node, comp_layer,
-                                                 active_layers,
-                                                 historical_depth)
+        historical_node = None
+        if source_node is not None:
+            historical_node = stage.infer_lower_comp(source_node, comp_layer,
+                                                     active_layers,
+                                                     historical_depth)
 
         value = getattr(historical_node, attr_name, None) or ''
         more = get_standalone_tokens(value, token_types=(TOKENTYPE.ATTR,
                                                          file_fallback_token))
-        for token_content in more:
-            token = stage.determine_token_type(get_token_content(token_content))
+        for full_token in more:
+            token = stage.determine_token_type(get_token_content(full_token))
             if token == TOKENTYPE.ATTR:
-                value = historical_resolve_attr_ref(stage, value, comp_node,
-                                                    comp_layer,
-                                                    active_layers,
-                                                    historical_depth)
+                resolved = historical_resolve_attr_ref(stage, full_token,
+                                                       source_node,
+                                                       comp_layer,
+                                                       active_layers,
+                                                       historical_depth)
             elif token == file_fallback_token:
-                value = historical_resolve_file_ref(stage, comp_node,
-                                                    token_content, comp_layer,
-                                                    active_layers,
-                                                    token,
-                                                    historical_depth)
+                resolved = historical_resolve_file_ref(stage, source_node,
+                                                       full_token, comp_layer,
+                                                       active_layers,
+                                                       token,
+                                                       historical_depth)
+            else:
+                continue
+            value = value.replace(full_token, resolved)
         raw_token = make_token_str(attr_ref)
         resolved_token = resolved_token.replace(raw_token, value)
     return resolved_token
-- 
2.43.0


From 3d3e13bfdfe0494fb112e49f2f549a5d4ebd6386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:51 +0000
Subject: [PATCH 31/55] fix: attributes of nodes on muted layers can be added,
 edited and renamed safely

---
 nxt/nxt_layer.py | 12 ++++++++----
 nxt/stage.py     | 16 ++++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 014188d..41cc08e 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -182,7 +182,8 @@ class SpecLayer(object):
         self._cached_children = {}
         self._cached_implied_children = {}
         for path, node in self._nodes_path_as_key.items():
-            for attr in get_node_local_attr_names(path, [self]):
+            for attr in get_node_local_attr_names(path, [self],
+                                                  active_only=False):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
                 setattr(node, source_attr, (self.real_path, path))
             node_ns = nxt_path.str_path_to_node_namespace(path)
@@ -1132,22 +1133,25 @@ def get_muted_layers(layers):
     return [layer for layer in layers if layer.get_muted()]
 
 
-def get_node_local_attr_names(node_path, layers):
+def get_node_local_attr_names(node_path, layers, active_only=True):
     """Get all attribute names that are local to the given node path within
     the given layers.
 
-    NOTE that layers are filtered to active layers.
+    NOTE that layers are filtered to active layers, unless `active_only` is
+    False.
 
     :param node_path: node path to find local attributes of
     :type node_path: str
     :param layers: list of layers to look for attributes of given node within
     :type layers: list
+    :param active_only: if False muted layers are looked at as well
+    :type active_only: bool
     :return: list of local attributes found in given layers
     :rtype: list
     """
     local_attrs = []
     # TODO should we filter for active layers or expect callers to?
-    active_layers = get_active_layers(layers)
+    active_layers = get_active_layers(layers) if active_only else layers
     for layer in active_layers:
         node = layer.lookup(node_path)
         if not node:
diff --git a/nxt/stage.py b/nxt/stage.py
index 57e41a2..22703db 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -492,8 +492,10 @@ class Stage:
         if isinstance(layer, CompLayer):
             s, e = layer._layer_range
             layers = self._sub_layers[s:e]
+            active_only = True
         else:
             layers = [layer]
+            active_only = False
         base_name = attr_name.rstrip('0123456789')
         trailing_digits = attr_name[len(base_name):]
         if trailing_digits:
@@ -502,7 +504,8 @@ class Stage:
             num_suffix = 1
         test_name = attr_name
         while True:
-            illegal_names = tuple(get_node_local_attr_names(node_path, layers))
+            illegal_names = tuple(get_node_local_attr_names(node_path, layers,
+                                                            active_only))
             illegal_names += INTERNAL_ATTRS.PROTECTED
             if test_name not in illegal_names:
                 break
@@ -1318,7 +1321,8 @@ class Stage:
         new_name = self.get_unique_attr_name(node_path, layer,
                                              attr_name=new_attr_name)
         # rename
-        if attr_name in get_node_local_attr_names(node_path, [layer]):
+        if attr_name in get_node_local_attr_names(node_path, [layer],
+                                                  active_only=False):
             setattr(node, new_name, getattr(node, attr_name))
             delattr(node, attr_name)
             for meta_attr_suffix in self.meta_attrs:
@@ -1459,7 +1463,8 @@ class Stage:
     def node_setattr_data(self, node, attr, layer, create, comp_layer=None,
                           **values):
         node_path = layer.get_node_path(node)
-        local_attrs = tuple(get_node_local_attr_names(node_path, [layer]))
+        local_attrs = tuple(get_node_local_attr_names(node_path, [layer],
+                                                      active_only=False))
         value_set = False
         dirties = []
         if attr == INTERNAL_ATTRS.NAME:
@@ -1821,9 +1826,12 @@ class Stage:
             if isinstance(layer, CompLayer):
                 s, e = layer._layer_range
                 layers = self._sub_layers[s:e]
+                active_only = True
             else:
                 layers = [layer]
-            all_attrs = get_node_local_attr_names(node_path, layers)
+                active_only = False
+            all_attrs = get_node_local_attr_names(node_path, layers,
+                                                  active_only)
         attr_data = {}
         for attr in set(all_attrs):
             data = {}
-- 
2.43.0


From b7ef3dc7dfc225769984c47e9e1d263e1d940fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 32/55] fix: transferred node data shares no lists with the
 node it came from

---
 nxt/stage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 22703db..17229f0 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1442,7 +1442,8 @@ class Stage:
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
             if internal_attr is INTERNAL_ATTRS.COMPUTE:
                 attr_key = 'code'  # TODO: Refactor see #656
-            val = node_data.get(attr_key)
+            # The data may come from a node, lists must not be shared with it
+            val = copy.deepcopy(node_data.get(attr_key))
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
                 setattr(node, internal_attr, val)
@@ -1451,7 +1452,8 @@ class Stage:
         # Un-tracked attrs
         for internal_attr in INTERNAL_ATTRS.UNTRACKED:
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
-            val = node_data.get(attr_key)
+            # The data may come from a node, lists must not be shared with it
+            val = copy.deepcopy(node_data.get(attr_key))
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
                 setattr(node, internal_attr, val)
-- 
2.43.0


From c2851b2e0183984447b55cbf1dd5178ae18ff0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:09 +0000
Subject: [PATCH 33/55] fix: transferring data to a node keeps its name and
 place

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 17229f0..f4d403d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1451,6 +1451,9 @@ class Stage:
                         (layer.real_path, node_path))
         # Un-tracked attrs
         for internal_attr in INTERNAL_ATTRS.UNTRACKED:
+            if internal_attr != INTERNAL_ATTRS.CHILD_ORDER:
+                # The others tell where a node is, which data can't change
+                continue
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
             # The data may come from a node, lists must not be shared with it
             val = copy.deepcopy(node_data.get(attr_key))
-- 
2.43.0


From 514094f88654405e5ca6fa738afd05a0aa8d67ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:17 +0000
Subject: [PATCH 34/55] fix: a temporary copy of a graph keeps all its layers,
 references and overrides

---
 nxt/stage.py | 51 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f4d403d..e4409eb 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4142,24 +4142,45 @@ class Stage:
             output_dir = nxt_io.generate_temp_dir()
         s, e = comp_layer._layer_range
         layers = self._sub_layers[s:e]
+        # All layers share one folder, so each needs a file name of its own
+        file_names = []
+        for layer in layers:
+            base, ext = os.path.splitext(os.path.basename(layer.real_path))
+            file_name = base + ext
+            num = 0
+            while file_name in file_names:
+                num += 1
+                file_name = base + str(num) + ext
+            file_names += [file_name]
+
+        def rename_keys(overs):
+            renamed = OrderedDict()
+            for path, over in overs.items():
+                names = [n for n, l in zip(file_names, layers)
+                         if l.filepath == path]
+                for name in names or [path]:
+                    renamed[name] = over
+            return renamed
+
         temp_path = None
-        for layer in reversed(layers):
+        for layer, file_name in reversed(list(zip(layers, file_names))):
             save_data = layer.get_save_data()
-            cwd = layer.get_cwd()
-            save_data[SAVE_KEY.CWD] = cwd
+            save_data[SAVE_KEY.CWD] = layer.get_cwd()
             refs = save_data.get(SAVE_KEY.REFERENCES, [])
-            idx = 0
-            for ref in refs:
-                ref_file_name = os.path.basename(ref)
-                if ref_file_name == ref:
-                    continue
-                comp_overs = save_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
-                for path, over in list(comp_overs.items()):
-                    if path == ref:
-                        comp_overs[ref_file_name] = comp_overs.pop(ref)
-                refs[idx] = ref_file_name
-                idx += 1
-            file_name = os.path.basename(layer.real_path)
+            for idx, ref in enumerate(refs):
+                for ref_name, ref_layer in zip(file_names, layers):
+                    if (ref_layer.parent_layer is layer
+                            and ref_layer.filepath == ref):
+                        refs[idx] = ref_name
+            # Overrides of other layers are found by the path they have
+            key = SAVE_KEY.COMP_ORVERRIDES
+            if key in save_data:
+                save_data[key] = rename_keys(save_data[key])
+            meta_data = save_data.get(SAVE_KEY.META_DATA, {})
+            for key in (META_DATA_KEY.ALIASES, META_DATA_KEY.COLORS,
+                        META_DATA_KEY.LOCKS):
+                if key in meta_data:
+                    meta_data[key] = rename_keys(meta_data[key])
             temp_path = os.path.join(output_dir, file_name)
             nxt_io.save_file_data(save_data, temp_path)
         save_time = str(int(round((time.time() - start) * 1000)))
-- 
2.43.0


From 42d2f598d5c35d1a099ef97561add122225da354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 35/55] fix: has_stronger_opinion reports opinions of stronger
 layers

---
 nxt/nxt_node.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 1bd4b4d..a6603a1 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -220,20 +220,13 @@ def has_stronger_opinion(comp_node, attr, target_layer):
     :return: bool (True if comp node has opinion that would overload the
     target layer's opinion)
     """
-    result = False
-    comp_opinion, _ = get_opinion(comp_node, attr)
-    val = None
     for b in comp_node.__bases__:
-        source_layer = getattr(b, INTERNAL_ATTRS.SOURCE_LAYER)
-        val, has = get_opinion(b, attr)
-        if source_layer == target_layer:
+        if getattr(b, INTERNAL_ATTRS.SOURCE_LAYER) == target_layer:
             break
-        result = has
+        _, has = get_opinion(b, attr)
         if has:
-            break
-    if comp_opinion == val:
-        return False
-    return result
+            return True
+    return False
 
 
 def get_node_as_dict(spec_node):
-- 
2.43.0


From c42cb44aba35c937e6f4843d3d637503c61c4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 36/55] fix: historical opinions are listed strongest first

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index e4409eb..9cd360a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4335,6 +4335,9 @@ def get_historical_opinions(comp_node, attr, comp_layer, include_local=False):
             arc_attrs = CompArc.INHERITANCE_MAP.get(arc, [])
             if attr not in arc_attrs and arc != CompArc.INSTANCE:
                 continue
+        elif attr not in b.__dict__:
+            # What a node inherits is found on the node it comes from
+            continue
         val, has = get_opinion(b, attr)
         if has:
             source = getattr(b, attr+META_ATTRS.SOURCE)
-- 
2.43.0


From 9f92cbdc25643a17181f7db838d98cd855b1cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 37/55] fix: external sources hold the expanded paths of
 attribute references only

---
 nxt/stage.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9cd360a..afeecd9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1877,7 +1877,8 @@ class Stage:
             return all_tokens
         filtered_tokens = []
         for token in all_tokens:
-            if Stage.determine_token_type(token) == token_type:
+            content = tokens.get_token_content(token)
+            if Stage.determine_token_type(content) == token_type:
                 filtered_tokens.append(token)
         return filtered_tokens
 
@@ -2352,11 +2353,12 @@ class Stage:
         out_refs = []
         for token in attr_tokens:
             ref = tokens.get_token_content(token)
-            if not nxt_path.is_attr_path(ref):
+            ref_path, ref_attr = nxt_path.path_attr_partition(ref)
+            if not ref_path or not ref_attr:
                 continue
             node_path = layer.get_node_path(node)
-            expanded = nxt_path.expand_relative_node_path(ref, node_path)
-            out_refs.append(expanded)
+            expanded = nxt_path.expand_relative_node_path(ref_path, node_path)
+            out_refs.append(nxt_path.make_attr_path(expanded, ref_attr))
         return out_refs
 
     def get_node_code_external_sources(self, node, layer):
@@ -2368,11 +2370,12 @@ class Stage:
         out_refs = []
         for token in attr_tokens:
             ref = tokens.get_token_content(token)
-            if not nxt_path.is_attr_path(ref):
+            ref_path, ref_attr = nxt_path.path_attr_partition(ref)
+            if not ref_path or not ref_attr:
                 continue
             node_path = layer.get_node_path(node)
-            expanded = nxt_path.expand_relative_node_path(ref, node_path)
-            out_refs.append(expanded)
+            expanded = nxt_path.expand_relative_node_path(ref_path, node_path)
+            out_refs.append(nxt_path.make_attr_path(expanded, ref_attr))
         return out_refs
 
     def get_node_code_string(self, node, layer, data_state=DATA_STATE.RAW):
-- 
2.43.0


From d9a804df9502a60a4c780a9cfbb860a07343b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 38/55] fix: graphs opened at the same time get ids of their
 own

---
 nxt/session.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index b7eb1f6..babdb5b 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -37,9 +37,15 @@ class Session(object):
         :return: New graph object.
         """
         new_graph = Stage(name=self.get_unused_graph_name('untitled'))
-        self._loaded_files[new_graph.uid] = new_graph
+        self._add_loaded_file(new_graph)
         return new_graph
 
+    def _add_loaded_file(self, stage):
+        # Stage ids are times, the clock may not have moved on since the last
+        while stage.uid in self._loaded_files:
+            stage.uid += 0.001
+        self._loaded_files[stage.uid] = stage
+
     def get_unused_graph_name(self, name):
         """Used by new_file() to make sure that any new graph created won't
         conflict with the names of currently open graphs.
@@ -82,7 +88,7 @@ class Session(object):
         except IOError:
             logger.exception('Failed to open: "{}"'.format(filepath))
             raise
-        self._loaded_files[new_stage.uid] = new_stage
+        self._add_loaded_file(new_stage)
         return new_stage
 
     def unload_file(self, uid):
-- 
2.43.0


From 32721a6abc1685286058a3277af0a4d01802e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:07 +0000
Subject: [PATCH 39/55] fix: a new stage carries the name it is given

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index afeecd9..a9c107f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -148,7 +148,7 @@ class Stage:
         if layer_data:
             self.load_from_file(layer_data)
         else:
-            self.new_layer(0, {'name': name})
+            self.new_layer(0, {'name': name, SAVE_KEY.ALIAS: name})
 
     @property
     def next_node(self):
-- 
2.43.0


From 89ffa5c7909edbfa9b1133e23b45476e86940c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:58 +0000
Subject: [PATCH 40/55] fix: a layer saved under another path is where its
 nodes come from

---
 nxt/nxt_layer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 41cc08e..e92b927 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -949,8 +949,14 @@ class SpecLayer(object):
     def propegate_real_path(self):
         """Update nodes source layer to current real path
         """
-        for node in self.descendants(return_type=LayerReturnTypes.Node):
+        for path, node in self._nodes_path_as_key.items():
             setattr(node, nxt_node.INTERNAL_ATTRS.SOURCE_LAYER, self.real_path)
+            for attr in nxt_node.INTERNAL_ATTRS.TRACKED:
+                source_attr = attr + nxt_node.META_ATTRS.SOURCE
+                if hasattr(node, source_attr):
+                    setattr(node, source_attr, (self.real_path, path))
+        # Sets the sources of all other attrs
+        self.refresh()
 
 
 class CompLayer(SpecLayer):
-- 
2.43.0


From f4447802d9b934f0cb08e19d66be58af61cc45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:43 +0000
Subject: [PATCH 41/55] fix: node code leaves behind every name it declares
 global and no other

---
 nxt/stage.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a9c107f..46c77c9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4276,15 +4276,14 @@ def clean_globals(code_lines, good_keys, global_dict):
     :param global_dict: global dict to clean
     :return: None
     """
-    code_lines = [l for l in code_lines if not l.startswith(('#', "'", '"'))]
+    code_lines = [l for l in code_lines
+                  if not l.lstrip().startswith(('#', "'", '"'))]
     cur_keys = list(global_dict.keys())
-    sus_keys = [k for k in cur_keys if k not in good_keys]
     safe_keys = [] + good_keys
-    for sus_key in sus_keys:
-        for line in code_lines:
-            if 'global {}'.format(sus_key) in line:
-                safe_keys += [sus_key]
-                break
+    for line in code_lines:
+        # One statement can declare many names, names can contain each other
+        for names in re.findall(r'\bglobal\s+(\w+(?:\s*,\s*\w+)*)', line):
+            safe_keys += [name.strip() for name in names.split(',')]
     for bad_key in [k for k in cur_keys if k not in safe_keys]:
         global_dict.pop(bad_key)
 
-- 
2.43.0


From bb808022b1f1a387df220e98e865f46c4bd893a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:37 +0000
Subject: [PATCH 42/55] fix: errors in custom code name the line they are on

---
 nxt/stage.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 46c77c9..a5a5631 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2408,16 +2408,15 @@ class Stage:
         :return: code
         """
         if custom_code:
-            func_lines = custom_code
-            code_lines = func_lines.split('\n')
+            code_lines = custom_code.split('\n')
         else:
             resolved = DATA_STATE.RESOLVED
             code_lines = self.get_node_code_lines(node=node, layer=layer,
                                                         data_state=resolved)
-            # Ensures the compute complies and executes with correct line
-            # numbers even if the compute is/startswith huge comment.
-            line_zero = ['# Blank Line']
-            func_lines = '\n'.join(line_zero + code_lines)
+        # Ensures the compute complies and executes with correct line
+        # numbers even if the compute is/startswith huge comment.
+        line_zero = ['# Blank Line']
+        func_lines = '\n'.join(line_zero + code_lines)
         path = layer.get_node_path(node)
         try:
             _code = compile(func_lines, path, 'exec')
-- 
2.43.0


From a105851398bfbbfe57c5b38f81b3d7585af7b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:35 +0000
Subject: [PATCH 43/55] fix: values transferred to another node are not shared
 with it

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a5a5631..e0eaa2b 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1463,7 +1463,9 @@ class Stage:
         # User attrs
         attrs = node_data.get('attributes', {})
         for attr, attr_data in attrs.items():
-            self.node_setattr_data(node, attr, layer, True, **attr_data)
+            # The data may come from a node, values must not be shared with it
+            self.node_setattr_data(node, attr, layer, True,
+                                   **copy.deepcopy(attr_data))
 
     def node_setattr_data(self, node, attr, layer, create, comp_layer=None,
                           **values):
-- 
2.43.0


From cc8b03d8ad9c32e418c34be0e5171d608ced5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:47 +0000
Subject: [PATCH 44/55] fix: ancestors by name are keyed by their own names

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index e92b927..2020844 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -251,7 +251,7 @@ class SpecLayer(object):
                 elif return_type == LayerReturnTypes.NodeTable:
                     node_table += [[parent_path, _node]]
                 elif return_type == LayerReturnTypes.NameDict:
-                    key = getattr(node, nxt_node.INTERNAL_ATTRS.NAME)
+                    key = getattr(_node, nxt_node.INTERNAL_ATTRS.NAME)
                     name_dict[key] = _node
                 node = _node
                 ppath_attr = nxt_node.INTERNAL_ATTRS.PARENT_PATH
-- 
2.43.0


From 3bee60936dc065645ea3343b1770df9d37f0c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:54 +0000
Subject: [PATCH 45/55] fix: remote contexts get the start node whatever their
 arguments and its form

---
 nxt/remote/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 7ea5b13..f25c7a0 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -124,6 +124,8 @@ class ServerFunctions(object):
                     '/.cache_file', cache_path]
         if parameters_file:
             cli_args += ['/.parameters_file', parameters_file]
+        if start_node not in (None, ''):
+            cli_args += ['/enter/call_graph._start', str(start_node)]
         script = os.path.join(os.path.dirname(__file__), '..', 'cli.py')
         script = os.path.abspath(script)
         script = script.replace(os.sep, '/')
@@ -134,8 +136,6 @@ class ServerFunctions(object):
             args = [context_exe] + extra_args + [script, '--'] + cli_args
         else:
             args = [context_exe, script] + cli_args
-            if start_node:
-                args += ['/enter/call_graph._start', start_node]
         # HACK solution only until refined context system rolls out to relate
         # format strings to context names to include space for cli args.
         if 'UE4Editor' in context_exe:
-- 
2.43.0


From 4c1b46a56b8a7b32c31766abe7a352dc572b86f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:58 +0000
Subject: [PATCH 46/55] fix: a remote run that ends with an exit-graph request
 keeps its cache

---
 nxt/builtin/_context.nxt | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/builtin/_context.nxt b/nxt/builtin/_context.nxt
index c46d708..785f0a6 100644
--- a/nxt/builtin/_context.nxt
+++ b/nxt/builtin/_context.nxt
@@ -126,7 +126,10 @@
                 "            continue", 
                 "        attr_path = nxt_path.make_attr_path(nxt_path.WORLD, attr_name)", 
                 "        self._parameters[attr_path] = attr_val", 
-                "    result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    try:", 
+                "        result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    except ExitGraph as exit_graph:", 
+                "        result_rt_layer = exit_graph.runtime_layer", 
                 "    if self._cache_file:", 
                 "        result_rt_layer.cache_layer.save('${_cache_file}')", 
                 "    # Bring attributes back from world node onto this node", 
-- 
2.43.0


From 6de347365f314efdebc440a7e649c38ca4f162e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 47/55] fix: generated temp files are not left open

---
 nxt/nxt_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 2df457e..0bc8785 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -155,7 +155,8 @@ def generate_temp_file(suffix='.nxt'):
     :param suffix: Optional suffix for the file, default is `.nxt`
     :return: String filepath
     """
-    _, cache_filepath = tempfile.mkstemp(suffix=suffix)
+    handle, cache_filepath = tempfile.mkstemp(suffix=suffix)
+    os.close(handle)
     return cache_filepath.replace(os.sep, '/')
 
 
-- 
2.43.0


From 5ec8d6de3a2fd9b6c94c61c5cfd09d377f735310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:05 +0000
Subject: [PATCH 48/55] fix: verbosity follows the last level it was set to

---
 nxt/nxt_log.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index a7c7a6e..218191c 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -207,9 +207,9 @@ def set_verbosity(level):
         else:
             stderr_handler = logging.StreamHandler(sys.stderr)
             stderr_handler.setFormatter(nxt_formatter)
-            root_logger.addHandler(stderr_handler)
-        if level == 1:
-            stderr_handler.setLevel(EXECINFO)
+            verbose_handler = stderr_handler
+        root_logger.addHandler(stderr_handler)
+        stderr_handler.setLevel(EXECINFO if level == 1 else logging.NOTSET)
         return stderr_handler
 
 
-- 
2.43.0


From a411267d0dabab1361d8f637539f77127daf1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:38 +0000
Subject: [PATCH 49/55] fix: text like {{}} is plain text, not an error

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e0eaa2b..f8b708c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4292,7 +4292,8 @@ def clean_globals(code_lines, good_keys, global_dict):
 def determine_nxt_type(value):
     try:
         type_name = type(literal_eval(value)).__name__
-    except (ValueError, NameError, SyntaxError):
+    except (ValueError, NameError, SyntaxError, TypeError):
+        # TypeError: keys and set members that can't be hashed, like {{}}
         type_name = 'raw'
     return type_name
 
-- 
2.43.0


From 5e5a43473dad41661a6e88cc4a047615806d1210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:32 +0000
Subject: [PATCH 50/55] fix: quotes and backslashes in a custom context's name
 or paths no longer break its plugin

---
 nxt/remote/remote_context_template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/remote/remote_context_template.py b/nxt/remote/remote_context_template.py
index e5ee5ce..9934f18 100644
--- a/nxt/remote/remote_context_template.py
+++ b/nxt/remote/remote_context_template.py
@@ -5,9 +5,9 @@ import os
 from nxt.remote.contexts import RemoteContext, register_context
 
 # Setup Context
-_name = '{name}'
-_exe = '{interpreter_exe}'
-_graph = '{context_graph}'
+_name = {name!r}
+_exe = {interpreter_exe!r}
+_graph = {context_graph!r}
 _args = {args}
 _context = RemoteContext(_name, _exe, _graph, _args)
 register_context(_context)
-- 
2.43.0


From 5e887d9ac4aa843668b891453ea5704324a350b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:32 +0000
Subject: [PATCH 51/55] fix: the graph given for a custom context is found
 wherever a run is started

---
 nxt/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index b1d47b8..745090d 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -125,10 +125,7 @@ def create_context(custom_name, interpreter_exe=sys.executable,
         if not os.path.isfile(expanded_context_graph):
             raise IOError('The context graph you provided does not exist! '
                           '"{}"'.format(context_graph))
-        root = os.path.commonprefix((context_graph, context_py_filepath))
-        if root:
-            context_graph = os.path.relpath(context_graph, root)
-        context_graph.replace(os.sep, '/')
+        context_graph = expanded_context_graph.replace(os.sep, '/')
 
     py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
                            context_graph=context_graph, args=exe_script_args)
-- 
2.43.0


From f98af3cadadff8d1e033aa006ba31d9ba8845174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:32 +0000
Subject: [PATCH 52/55] fix: a custom context can not take the name of a
 registered one

---
 nxt/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index 745090d..e729033 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -95,7 +95,8 @@ def create_context(custom_name, interpreter_exe=sys.executable,
 
     context_py_file = 'custom_{name}_context.py'.format(name=custom_name)
     context_py_filepath = os.path.join(_user_plugin_dir, context_py_file)
-    if os.path.exists(context_py_filepath):
+    if (os.path.exists(context_py_filepath) or
+            custom_name in contexts.iter_context_names()):
         raise IOError('The context name you selected is already taken. '
                       '"{}"'.format(custom_name))
     if context_graph is None:
-- 
2.43.0


From 292e03f28a6d7efc8d397c7120fcce6de53944d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:24 +0000
Subject: [PATCH 53/55] fix: the custom context template is valid Python again

---
 nxt/__init__.py                       | 6 ++++--
 nxt/remote/remote_context_template.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index e729033..146a314 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -128,8 +128,10 @@ def create_context(custom_name, interpreter_exe=sys.executable,
                           '"{}"'.format(context_graph))
         context_graph = expanded_context_graph.replace(os.sep, '/')
 
-    py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
-                           context_graph=context_graph, args=exe_script_args)
+    py_str = py_str.format(name=repr(custom_name),
+                           interpreter_exe=repr(interpreter_exe),
+                           context_graph=repr(context_graph),
+                           args=exe_script_args)
     with open(context_py_filepath, 'w+') as fp:
         fp.write(py_str)
     exec(py_str)
diff --git a/nxt/remote/remote_context_template.py b/nxt/remote/remote_context_template.py
index 9934f18..fa2a180 100644
--- a/nxt/remote/remote_context_template.py
+++ b/nxt/remote/remote_context_template.py
@@ -5,9 +5,9 @@ import os
 from nxt.remote.contexts import RemoteContext, register_context
 
 # Setup Context
-_name = {name!r}
-_exe = {interpreter_exe!r}
-_graph = {context_graph!r}
+_name = {name}
+_exe = {interpreter_exe}
+_graph = {context_graph}
 _args = {args}
 _context = RemoteContext(_name, _exe, _graph, _args)
 register_context(_context)
-- 
2.43.0


From 64336ab1346a6acea0772d6e771a7bcc875c5024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:21 +0000
Subject: [PATCH 54/55] fix: the working directory stays when a referenced file
 fails to load

---
 nxt/stage.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f8b708c..e87090d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -354,27 +354,29 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
-        for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
-            try:
-                layer_data = nxt_io.load_file_data(sub_layer_path)
-                if not layer_data:
-                    continue
-            except IOError as e:
-                msg_pattern = "Failed to open {} referenced by {}"
-                logger.exception(msg_pattern.format(sub_layer_path, real_path))
+        try:
+            for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
                 try:
-                    parent_layer.sub_layer_paths.remove(sub_layer_path)
-                except ValueError:
-                    pass
-                bad_layer_dat = []
-                for sub_layer_dat in parent_layer.sub_layers:
-                    if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
-                        bad_layer_dat += [sub_layer_dat]
-                for dat in bad_layer_dat:
-                    parent_layer.sub_layers.remove(dat)
-                continue
-            self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
+                    layer_data = nxt_io.load_file_data(sub_layer_path)
+                    if not layer_data:
+                        continue
+                except IOError as e:
+                    msg_pattern = "Failed to open {} referenced by {}"
+                    logger.exception(msg_pattern.format(sub_layer_path, real_path))
+                    try:
+                        parent_layer.sub_layer_paths.remove(sub_layer_path)
+                    except ValueError:
+                        pass
+                    bad_layer_dat = []
+                    for sub_layer_dat in parent_layer.sub_layers:
+                        if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
+                            bad_layer_dat += [sub_layer_dat]
+                    for dat in bad_layer_dat:
+                        parent_layer.sub_layers.remove(dat)
+                    continue
+                self.load_from_file(layer_data, parent_layer=parent_layer)
+        finally:
+            os.chdir(old_cwd)
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From 82b64b8b6ea1e26628f5b5fc9a9b4e36ad6a7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:21 +0000
Subject: [PATCH 55/55] fix: files that reference one another in a circle load

---
 nxt/stage.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e87090d..2155cfe 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -255,13 +255,18 @@ class Stage:
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
         # Recursively load sub layers from the new layer
         sub_idx = idx + 1
-        for ref in new_sublayer.sub_layers:
+        for ref in new_sublayer.sub_layers[:]:
             if ref.get('layer'):
                 continue
             file_path = ref[SAVE_KEY.FILEPATH]
             d = os.path.dirname(layer_data[SAVE_KEY.REAL_PATH])
             real_file_path = nxt_path.full_file_expand(file_path, d)
             deep_sub_layer_data = nxt_io.load_file_data(real_file_path)
+            deep_real_path = deep_sub_layer_data[SAVE_KEY.REAL_PATH]
+            if self.check_for_layer_ref_cycle(new_sublayer, deep_real_path):
+                new_sublayer.sub_layers.remove(ref)
+                new_sublayer.sub_layer_paths.remove(file_path)
+                continue
             deep_sub_layer_data['parent_layer'] = new_sublayer
             deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
             deep_sub_layer_data[SAVE_KEY.REAL_PATH] = real_file_path
@@ -360,6 +365,10 @@ class Stage:
                     layer_data = nxt_io.load_file_data(sub_layer_path)
                     if not layer_data:
                         continue
+                    sub_real_path = layer_data[SAVE_KEY.REAL_PATH]
+                    if self.check_for_layer_ref_cycle(parent_layer,
+                                                      sub_real_path):
+                        raise IOError('Layer reference cycle')
                 except IOError as e:
                     msg_pattern = "Failed to open {} referenced by {}"
                     logger.exception(msg_pattern.format(sub_layer_path, real_path))
-- 
2.43.0

