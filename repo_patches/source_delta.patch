From d02b7db82dc4fb464e40309f67e1a2827ba99881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:45 +0000
Subject: [PATCH 01/25] fix: forget the previous position of a node when it is
 moved

Looking up the old coordinates of a moved (or re-added) node kept on
returning that node, so loads, supports and edges defined at that point
were silently attached to a node located somewhere else.
---
 src/compas_cem/diagrams/mixins/node_mixins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..30cbc5e 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -21,6 +21,12 @@ class NodeMixins(object):
         xyz = node.xyz
         x, y, z = xyz
 
+        # an existing node is being moved, forget its previous position
+        if key is not None and self.has_node(key):
+            gkey = self.gkey(self.node_coordinates(key))
+            if self.gkey_node.get(gkey) == key:
+                del self.gkey_node[gkey]
+
         node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z)
         self.gkey_node[self.gkey(xyz)] = node
         return node
-- 
2.43.0


From 5dcb8b702586eb8675435d2bcfc4d54d82fa8b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:45 +0000
Subject: [PATCH 02/25] fix: node_exists returns False for integer keys that
 are not in the diagram

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 30cbc5e..c42f71b 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -35,8 +35,9 @@ class NodeMixins(object):
         """
         Checks
         """
-        if self.node_key(value) is not None:
-            return True
+        key = self.node_key(value)
+        if key is not None:
+            return self.has_node(key)
         return False
 
     def node_key(self, value):
-- 
2.43.0


From c72265fdb77a9204808eda89e7f82c1c3c6880b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:44 +0000
Subject: [PATCH 03/25] fix: restore integer trail keys when loading a topology
 diagram from JSON

After a JSON round trip the trails were keyed by strings and stored as
lists, so querying or shifting a trail by the key of its origin node
raised a KeyError.
---
 src/compas_cem/diagrams/topology/topology.py | 27 ++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..3b21ef5 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -83,6 +83,33 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         self.attributes["_aux_vector"] = vector
 
+# ==============================================================================
+# Data
+# ==============================================================================
+
+    @property
+    def data(self):
+        """
+        A data dictionary that represents a topology diagram.
+        """
+        return Diagram.data.fget(self)
+
+    @data.setter
+    def data(self, data):
+        """
+        Overwrites this object's attributes with a data dictionary.
+
+        Notes
+        -----
+        JSON stores dictionary keys as strings and tuples as lists.
+        Here the keys of the (auxiliary) trails and their nodes are restored.
+        """
+        Diagram.data.fset(self, data)
+
+        for name in ("_trails", "_auxiliary_trails"):
+            trails = self.attributes[name]
+            self.attributes[name] = {int(key): tuple(nodes) for key, nodes in trails.items()}
+
 # ==============================================================================
 # Node Additions
 # ==============================================================================
-- 
2.43.0


From 18cbac0121ef2b7dae523883a4b31cc53d707ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:13 +0000
Subject: [PATCH 04/25] fix: reject topologies whose trail edges do not form
 valid trails

build_trails silently accepted trails with a support at both ends (one of
the supports was lost), trails that share nodes (all but one dropped),
loops of trail edges and supports without any trail edge. It also left
stale origin nodes behind after editing and rebuilding a diagram, and a
half-updated diagram after a failure.
---
 src/compas_cem/diagrams/topology/topology.py | 28 +++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 3b21ef5..e89ea93 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -395,19 +395,20 @@ class TopologyDiagram(Diagram, MeshMixins):
                     visited.add(node)
                     break
 
-            # set last node to be origin/start node
-            self.node_attribute(origin_node, "type", "_origin")
-
             trail.reverse()
 
-            # assign node sequences
-            # start should be _k= 0, support _k=len(trail)
-            for index, node in enumerate(trail):
-                self.node_attribute(node, "_k", index)
+            # a trail must link an origin to its one support without touching other trails
+            msg = "The trail of support {} is not a path from an origin to a single support!".format(support)
+            assert len(trail) > 1 and not visited & nodes_in_trails, msg
 
             trails[origin_node] = tuple(trail)
             nodes_in_trails.update(visited)
 
+        # all trail edges must belong to a trail: no loops, no branches, no missing supports
+        edges_in_trails = sum(len(trail) - 1 for trail in trails.values())
+        msg = "Some trail edges are not part of a trail that ends at a support. Check your topology!"
+        assert edges_in_trails == len(set(frozenset(edge) for edge in self.trail_edges())), msg
+
         # output sanity checks
         # all nodes must belong to a trail
         unassigned = set(self.nodes()) - nodes_in_trails
@@ -441,6 +442,19 @@ class TopologyDiagram(Diagram, MeshMixins):
         msg = "Nodes {} haven't been assigned to a trail. Check your topology!".format(unassigned)
         assert len(unassigned) == 0, msg
 
+        # origins from a previous run may not be origins anymore
+        for node in list(self.origin_nodes()):
+            self.node_attribute(node, "type", None)
+
+        for origin_node, trail in trails.items():
+            # set first node to be origin/start node
+            self.node_attribute(origin_node, "type", "_origin")
+
+            # assign node sequences
+            # start should be _k= 0, support _k=len(trail)
+            for index, node in enumerate(trail):
+                self.node_attribute(node, "_k", index)
+
         # store trails in topology diagram
         self.attributes["_trails"] = trails
 
-- 
2.43.0


From 6c197c22b20e9e415fa1aea5aecf6da679f3f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:45 +0000
Subject: [PATCH 05/25] fix: keep the existing auxiliary trails when trails are
 built again

Calling build_trails(auxiliary_trails=True) a second time emptied the
registry of auxiliary trails while their edges stayed in the diagram.
---
 src/compas_cem/diagrams/topology/topology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index e89ea93..910be43 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -428,7 +428,8 @@ class TopologyDiagram(Diagram, MeshMixins):
                 edge = self.add_edge(TrailEdge(node, aux_node, self.auxiliary_trail_length))
                 aux_trails[node] = edge
 
-            self.attributes["_auxiliary_trails"] = aux_trails
+            # keep track of the auxiliary trails added in previous runs
+            self.attributes["_auxiliary_trails"].update(aux_trails)
             print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(aux_trails)))
 
             return self.build_trails(auxiliary_trails=False)
-- 
2.43.0


From 921839573f0e2ec28e420ea4ccb0ad397e7d2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:45 +0000
Subject: [PATCH 06/25] fix: stop form finding at sequence kmax

The sequences after kmax were equilibrated too, although kmax is the last
sequence in the diagram to calculate equilibrium at.
---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..71ddde6 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -85,7 +85,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From a28d14d229ccd1f6404c2335a93a15b5b18d8137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:45 +0000
Subject: [PATCH 07/25] fix: do not fail with an UnboundLocalError if verbose
 and tmax < 2

The residual distance was undefined when printing the log.
---
 src/compas_cem/equilibrium/force.py       | 4 ++++
 src/compas_cem/equilibrium/force_numpy.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 71ddde6..40ce3b1 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,10 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    # number of the current iteration, and its residual distance
+    t = 0
+    distance = 0.0
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..5199baf 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,10 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    # number of the current iteration, and its residual distance
+    t = 0
+    distance = 0.0
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From 1d09f5400fa7f60fc1c0d646e5811f50c4cad0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:45 +0000
Subject: [PATCH 08/25] fix: do not divide by zero when normalizing null
 vectors with numpy

Deviation edges of zero length and planes on trail edges that carry no
force filled the form diagram with NaNs, unlike static_equilibrium.
---
 src/compas_cem/equilibrium/force_numpy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 5199baf..535215a 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -424,7 +424,12 @@ def normalize_vector_numpy(vector):
     """
     Hand-made vector normalization.
     """
-    return vector / length_vector_numpy(vector)
+    length = length_vector_numpy(vector)
+    # NOTE: to avoid NaNs, do not normalize a vector if it is zero length
+    if length == 0.0:
+        return vector
+
+    return vector / length
 
 
 def length_vector_numpy(vector):
-- 
2.43.0


From 734858d9c46c5bfef72e6fa180c68dac2a8ad4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:45 +0000
Subject: [PATCH 09/25] fix: compare eta to the sum of node distances in the
 numpy solver too

As documented and as done in static_equilibrium. The norm of the stacked
displacements was used instead, so the solver stopped too early.
---
 src/compas_cem/equilibrium/force_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 535215a..92e1db1 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -194,7 +194,7 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
         last_pos_array = np.array([last_positions[key] for key, pos in node_xyz.items()])
 
         # calculate residual distance
-        distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array)))
+        distance = np.sum(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))
         # if residual distance smaller than threshold, stop iterating
         if distance < eta:
             break
-- 
2.43.0


From a28b1f7aa23813e333e4f184144c47fcb2c9767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 10/25] fix: solve optimization problems after removing a
 parameter

Parameter keys are not contiguous after a removal, but were used as
indices in the optimization vectors, which raised an IndexError.
---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..03e5ceb 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -291,8 +291,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            parameters[index] = parameter.start_value(topology)
 
         return parameters
 
@@ -304,9 +304,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            bounds_low[index] = parameter.bound_low(topology)
+            bounds_up[index] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -318,9 +318,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for index, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[index]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From 383f8f8c41ac25f3d0861aaf0a4d97f2bf1d3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 11/25] fix: return the form diagram of the optimal parameters

The topology and the form diagram returned by the optimizer were those of
the last evaluation of the objective function instead of those of the
reported optimum, and ignored the tmax and eta set by the user.
---
 src/compas_cem/optimization/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 03e5ceb..15a1f5b 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -276,8 +276,11 @@ class Optimizer(Data):
             print(f"Optimization status: {status}".format(status))
             print("----------")
 
+        # the last evaluation of the objective is not always the optimal one
+        self._update_parameters(topology, x_opt)
+
         # exit like a champion
-        return static_equilibrium(topology)
+        return static_equilibrium(topology, tmax=tmax, eta=eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From 2cdc8d350ca3c5f249221d34a39b936ca6e1b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 12/25] fix: look up the nodes of a form diagram at their
 equilibrated positions

Form diagrams kept the geometric keys of the topology diagram, so
searching for a node by its coordinates in the form either failed or
returned a node that is located somewhere else.
---
 src/compas_cem/equilibrium/force.py       | 2 +-
 src/compas_cem/equilibrium/force_numpy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 40ce3b1..d4c6b80 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -205,7 +205,7 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
     """
     # assign nodes' coordinates
     for node, xyz in node_xyz.items():
-        form.node_attributes(key=node, names=["x", "y", "z"], values=xyz)
+        form.node_xyz(node, xyz)
 
     # assign forces on trail edges
     for edge, tforce in trail_forces.items():
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 92e1db1..76df4b9 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -225,7 +225,7 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
     """
     # assign nodes' coordinates
     for node, xyz in node_xyz.items():
-        form.node_attributes(key=node, names=["x", "y", "z"], values=xyz)
+        form.node_xyz(node, xyz)
 
     # assign forces on trail edges
     for edge, tforce in trail_forces.items():
-- 
2.43.0


From 3d0d8a491c50d34ce8245b97ef93a9af4f35b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:01 +0000
Subject: [PATCH 13/25] fix: reset the type of the nodes that are no longer
 origins

---
 src/compas_cem/diagrams/topology/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 910be43..558d35a 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -445,7 +445,7 @@ class TopologyDiagram(Diagram, MeshMixins):
 
         # origins from a previous run may not be origins anymore
         for node in list(self.origin_nodes()):
-            self.node_attribute(node, "type", None)
+            self.unset_node_attribute(node, "type")
 
         for origin_node, trail in trails.items():
             # set first node to be origin/start node
-- 
2.43.0


From 2ee933ac012d0c9032eb6da010d7d54fb9737cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 14/25] fix: do not look up nodes that were deleted or
 displaced

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index c42f71b..ce31883 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -46,7 +46,12 @@ class NodeMixins(object):
         """
         if isinstance(value, int):
             return value
-        return self.gkey_node.get(self.gkey(value))
+
+        # ignore nodes that were deleted or displaced in the meantime
+        gkey = self.gkey(value)
+        key = self.gkey_node.get(gkey)
+        if key is not None and self.has_node(key) and self.gkey(self.node_coordinates(key)) == gkey:
+            return key
 
     def update_node_xyz(self, key, xyz):
         """
-- 
2.43.0


From c8fc6d87175fc4efbc126f3f0aa71bc7704c297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:57 +0000
Subject: [PATCH 15/25] fix: look up the origins of an optimized topology at
 their optimal positions

---
 src/compas_cem/optimization/optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 15a1f5b..901b481 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -279,6 +279,12 @@ class Optimizer(Data):
         # the last evaluation of the objective is not always the optimal one
         self._update_parameters(topology, x_opt)
 
+        # register the parametrized nodes at their optimal positions
+        for parameter in self.parameters.values():
+            if parameter.attr_name() in ("x", "y", "z"):
+                key = parameter.key()
+                topology.node_xyz(key, topology.node_coordinates(key))
+
         # exit like a champion
         return static_equilibrium(topology, tmax=tmax, eta=eta)
 
-- 
2.43.0


From f0deb144e228ad3b8658b1cfd2ef8f8d30b63b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 16/25] fix: draw topology edges without force or length in the
 neutral colour

The artist maps the state 0 to the neutral edge colour, as the form artist does,
but copysign never yields 0, so that idle deviation edges looked like tension.
---
 src/compas_cem/plotters/topologyartist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/plotters/topologyartist.py b/src/compas_cem/plotters/topologyartist.py
index 2db004d..8db7478 100644
--- a/src/compas_cem/plotters/topologyartist.py
+++ b/src/compas_cem/plotters/topologyartist.py
@@ -118,7 +118,8 @@ class TopologyArtist(NetworkArtist):
                     elif topology.is_deviation_edge(edge):
                         attr_name = "force"
 
-                    ckey = copysign(1.0, topology.edge_attribute(edge, attr_name))
+                    value = topology.edge_attribute(edge, attr_name)
+                    ckey = copysign(1.0, value) if value else 0.0
                     edge_color[edge] = cmap[ckey]
 
         elif self.edge_colors == "type":
-- 
2.43.0


From b9e2b1a069030dc2ea659d159f71501e37e85443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 17/25] fix: find moved origins at their new places in the
 Grasshopper component

---
 .../ghpython/components/CompasCem_OriginNodesMove/code.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
index 641dcd8..3be73b7 100644
--- a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
@@ -17,6 +17,6 @@ class MoveOriginNodesComponent(component):
 
         for node_key, point in zip(origin_node_keys, points):
             point = RhinoPoint.from_geometry(point).to_compas()
-            topology.node_attributes(node_key, names="xyz", values=point)
+            topology.node_xyz(node_key, point)
 
         return topology
-- 
2.43.0


From 0bb1f0c81aa38b3fcfe13289d1a8c5d2afd50a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 18/25] fix: draw no supports in Grasshopper if none is
 selected

---
 src/compas_cem/ghpython/artists.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/artists.py b/src/compas_cem/ghpython/artists.py
index 5aa92ea..4db66df 100644
--- a/src/compas_cem/ghpython/artists.py
+++ b/src/compas_cem/ghpython/artists.py
@@ -202,7 +202,8 @@ class DiagramArtist(NetworkArtist):
         nodes : list of :class:`Rhino.Geometry.Point3d`
         """
         nodes = self._collection_keys("support_nodes", "is_node_support", nodes)
-        return self.draw_nodes(nodes)
+        if not len(nodes) == 0:
+            return self.draw_nodes(nodes)
 
     def _collection_keys(self, iterator_func, filter_func, keys=None):
         """
-- 
2.43.0


From bd1f932f38d52c2c42c910d8c011b9a75a1b1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 19/25] fix: report whether nodes are shown in the viewer

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index 9447273..f02e289 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -371,7 +371,7 @@ class DiagramObject(NetworkObject):
     @show_nodes.setter
     def show_nodes(self, shownodes):
         if isinstance(shownodes, bool):
-            self._show_edges = shownodes
+            self._show_nodes = shownodes
             self.show_points = shownodes
 
     @property
-- 
2.43.0


From 4c0ecec9d8a42629009d27e004ac1bf022e70452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 20/25] fix: show type labels of nodes in the viewer

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index f02e289..c136c88 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -632,7 +632,7 @@ class DiagramObject(NetworkObject):
             return "{}\n{}".format(x, gkey_format(x))
 
         def type_format(x):
-            return "{}".format(self.topology.node_attribute(x, "type"))
+            return "{}".format(self.diagram.node_attribute(x, "type"))
 
         tags_formatter = {"xyz": gkey_format,
                           "keyxyz": key_gkey_format,
-- 
2.43.0


From d2f497807482be320aa132de1afd6df9855553eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 21/25] fix: search components do not find deleted or displaced
 nodes at stale places

---
 .../ghpython/components/CompasCem_SearchEdgeKey/code.py    | 6 +++---
 .../ghpython/components/CompasCem_SearchNodeKey/code.py    | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_SearchEdgeKey/code.py b/src/compas_cem/ghpython/components/CompasCem_SearchEdgeKey/code.py
index 602349c..df00c62 100644
--- a/src/compas_cem/ghpython/components/CompasCem_SearchEdgeKey/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_SearchEdgeKey/code.py
@@ -4,7 +4,6 @@ Search for an edge key in a topology or a form diagram using a line.
 from ghpythonlib.componentbase import executingcomponent as component
 
 from compas_rhino.geometry import RhinoLine
-from compas.utilities import geometric_key
 
 
 class SearchEdgeKeyComponent(component):
@@ -16,8 +15,9 @@ class SearchEdgeKeyComponent(component):
 
         eg = []
         for point in (line.start, line.end):
-            gkey = geometric_key(point, diagram.tol)
-            node = diagram.gkey_node[gkey]
+            node = diagram.node_key(point)
+            if node is None:
+                raise KeyError("No node was found at {}".format(point))
             eg.append(node)
 
         return [tuple(eg)]
diff --git a/src/compas_cem/ghpython/components/CompasCem_SearchNodeKey/code.py b/src/compas_cem/ghpython/components/CompasCem_SearchNodeKey/code.py
index b795940..8995508 100644
--- a/src/compas_cem/ghpython/components/CompasCem_SearchNodeKey/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_SearchNodeKey/code.py
@@ -3,7 +3,6 @@ Search a node key in a topology or a form diagram using a point.
 """
 from ghpythonlib.componentbase import executingcomponent as component
 
-from compas.utilities import geometric_key
 from compas_rhino.geometry import RhinoPoint
 
 
@@ -13,6 +12,8 @@ class SearchNodeKeyComponent(component):
             return
 
         pt = RhinoPoint.from_geometry(point).to_compas()
-        gkey = geometric_key(pt, diagram.tol)
+        node = diagram.node_key(pt)
+        if node is None:
+            raise KeyError("No node was found at {}".format(pt))
 
-        return diagram.gkey_node[gkey]
+        return node
-- 
2.43.0


From 9fbf557b9dce785f657be8f77e99a9a0d0311075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:37 +0000
Subject: [PATCH 22/25] fix: report the optimal parameters of searches limited
 by roundoff

---
 src/compas_cem/optimization/optimizer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 901b481..8be2674 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -213,7 +213,8 @@ class Optimizer(Data):
             grad_func = self.gradient_func(grad_finite_differences, topology.copy(), tmax, eta, step_size)
 
         # grad_func = self.gradient_func(grad_func, topology.copy(), tmax, eta, step_size)
-        obj_func = self.objective_func(topology, grad_func, tmax, eta)
+        best = []  # lowest value of the objective function so far, and where it was found
+        obj_func = partial(self._keep_best, obj_func=self.objective_func(topology, grad_func, tmax, eta), best=best)
 
         # generate optimization variables
         x = self.optimization_parameters(topology)
@@ -244,7 +245,8 @@ class Optimizer(Data):
         except RoundoffLimited:
             print("Optimization was halted because roundoff errors limited progress")
             print("Results may still be useful though!")
-            x_opt = self.optimization_parameters(topology)
+            # nlopt does not return the optimum in this case
+            x_opt = best[1]
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
@@ -367,6 +369,18 @@ class Optimizer(Data):
 
         return self._calculate_penalty(eq_state)
 
+    @staticmethod
+    def _keep_best(x, grad, obj_func, best):
+        """
+        Evaluate the objective function and remember its lowest value.
+        """
+        fx = obj_func(x, grad)
+
+        if not best or fx < best[0]:
+            best[:] = [fx, np.array(x)]
+
+        return fx
+
 # ------------------------------------------------------------------------------
 # Sanity Check
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 258d38dfb5627f917bae5e18f793d35695aaee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:37 +0000
Subject: [PATCH 23/25] fix: return the form after a failed search with the
 given limits

---
 src/compas_cem/optimization/optimizer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 8be2674..099fa29 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -250,7 +250,8 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
-            return static_equilibrium(topology)
+            self._register_nodes(topology)
+            return static_equilibrium(topology, tmax=tmax, eta=eta)
 
         # fetch last optimum value of loss function
         time_opt = time() - start
@@ -281,11 +282,7 @@ class Optimizer(Data):
         # the last evaluation of the objective is not always the optimal one
         self._update_parameters(topology, x_opt)
 
-        # register the parametrized nodes at their optimal positions
-        for parameter in self.parameters.values():
-            if parameter.attr_name() in ("x", "y", "z"):
-                key = parameter.key()
-                topology.node_xyz(key, topology.node_coordinates(key))
+        self._register_nodes(topology)
 
         # exit like a champion
         return static_equilibrium(topology, tmax=tmax, eta=eta)
@@ -343,6 +340,15 @@ class Optimizer(Data):
                 msg = "Parameter {} is neither a node nor an edge parameter! {}"
                 raise TypeError(msg.format(type(parameter)))
 
+    def _register_nodes(self, topology):
+        """
+        Register the parametrized nodes at their current positions.
+        """
+        for parameter in self.parameters.values():
+            if parameter.attr_name() in ("x", "y", "z"):
+                key = parameter.key()
+                topology.node_xyz(key, topology.node_coordinates(key))
+
 # ------------------------------------------------------------------------------
 # Penalty function
 # ------------------------------------------------------------------------------
-- 
2.43.0


From e6c71fc926ab493d85923260b3e4a70a1c21d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:37 +0000
Subject: [PATCH 24/25] fix: do not report the results of a previous search

---
 src/compas_cem/optimization/optimizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 099fa29..7a58a32 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -198,6 +198,15 @@ class Optimizer(Data):
         # test for bad stuff before going any further
         self.check_optimization_sanity()
 
+        # the results of a previous search are not those of this one
+        self.x_opt = None
+        self.time_opt = None
+        self.penalty = None
+        self.evals = None
+        self.gradient = None
+        self.gradient_norm = None
+        self.status = None
+
         # compose gradient and objective functions
         if grad not in ("AD", "FD"):
             raise ValueError(f"Gradient method {grad} is not supported!")
-- 
2.43.0


From 1d3b51a9b53d64dc81c097d61a687a5e2edf44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:51 +0000
Subject: [PATCH 25/25] fix: stop the temporary proxy server of a search that
 fails

---
 .../CompasCem_ConstrainedFormFinding/code.py  | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
index 954e410..72b95fb 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
@@ -34,19 +34,20 @@ class ConstrainedFormFindingComponent(component):
             opt = Proxy("compas_cem.optimization")
 
         # solve constrained form-finding problem
-        solution = opt.solve_proxy(topology=topology,
-                                   constraints=constraints,
-                                   parameters=parameters,
-                                   algorithm=algorithm,
-                                   iters=iters_max,
-                                   eps=eps,
-                                   kappa=kappa,
-                                   tmax=tmax,
-                                   eta=eta)
-
-        # shut down temporary proxy
-        if not proxy_temp_exists:
-            opt.stop_server()
+        try:
+            solution = opt.solve_proxy(topology=topology,
+                                       constraints=constraints,
+                                       parameters=parameters,
+                                       algorithm=algorithm,
+                                       iters=iters_max,
+                                       eps=eps,
+                                       kappa=kappa,
+                                       tmax=tmax,
+                                       eta=eta)
+        finally:
+            # shut down temporary proxy
+            if not proxy_temp_exists:
+                opt.stop_server()
 
         # unpack solution
         topology, form, objective, grad_norm, iters, time, status = solution
-- 
2.43.0

